#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            **({'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]} if state else {}),
            **({'observe_at': observe} if observe else {}),
            'hook_needed': None,
        },
    })


X = 'soapfish/xsd.py'
D = 'soapfish/soap_dispatch.py'

p('C01', 'Rendering and parsing a model object are inverse',
  '''For every model built from simple-typed elements and attributes, nested models, inherited models, lists, groups,
  choices and nillable fields, and for every object of it that can be rendered, parsing the rendered XML with the same
  model gives an object whose fields all equal the original's: absent stays absent, nil stays nil, lists keep length
  and order, numbers and dates keep their value and time zone. Excepted are the values that have no XML form of their
  own: an empty string element, a nil attribute, a date-time without time zone (read back as UTC), and decimals of more than 15 significant digits. Fields with declared defaults are not covered.''',
  ['programs', 'inputs'],
  '''all models up to the bound on fields x field kinds, and all objects of each model over a small value alphabet per
  simple type (absent, nil, boundary values, markup characters, lists of 0..3 items)''',
  'xsd_test checks one or two objects of a dozen hand-written models; the combination of field kinds is unbounded.',
  [X, 'soapfish/xsd_types.py'],
  [('ComplexType.xml/render', X), ('ComplexType.parse_xmlelement', X), ('Element/Attribute/ListElement/Ref render and parse', X),
   ('SimpleType xmlvalue/pythonvalue', X)],
  observe=['bytes of ComplexType.xml', 'attributes of the parsed object'])

p('C02', 'Rendered XML has exactly the declared shape',
  '''The XML rendered for an object holds exactly the declared fields that are set, elements in declaration order
  (inherited fields first) with declared tag names, attributes as attributes, group fields without wrapper, nil as
  xsi:nil="true", absent fields not at all, and every value in its XSD lexical form. Child elements carry the target
  namespace exactly when the element form is qualified, or the element's own namespace if it declares one, and none when the form is unqualified. A missing required
  attribute and a list shorter or longer than its declared bounds (unless it is an unchosen branch of a choice) make rendering fail instead of producing a document.''',
  ['programs', 'inputs'],
  'all models up to the bound on fields x kinds x element-form x namespace declarations, and all small objects of each',
  'The tests compare a few literal documents; order, qualification and occurrence rules range over all models.',
  [X],
  [('ComplexTypeMetaInfo ordering', X), ('Element.render namespace qualification', X), ('ListElement.render bounds', X),
   ('Attribute.render required check', X), ('Document.render', X)],
  observe=['bytes of ComplexType.xml and Document.render'])

p('C03', 'Objects are independent records holding only accepted values',
  '''Under any history of constructing objects, assigning fields, editing lists, rendering and parsing, every live object
  reads back exactly what was last successfully stored in it and is unaffected by operations on any other object of the
  same or another class. A rejected operation raises and leaves every object as it was; assigning a field or adding to a
  list (by any list operation that adds items) accepts only values the declared type accepts and never more items than
  the declared maximum. Rendering, comparing, printing and parsing change no existing object or class.''',
  ['histories'],
  'all operation histories up to the depth bound over two or three live objects and a small value alphabet',
  'Tests build one object, set it once and look at it; leakage needs two objects and an interleaved history.',
  [X],
  [('ComplexType.__new__ empty values', X), ('ComplexType.__setattr__', X), ('TypedList', X), ('Ref.empty_value', X),
   ('Document.parsexml', X)],
  state=[('field values', 'per-object record', X), ('TypedList content', 'list field of one object', X)],
  observe=['attribute reads of every live object after every operation'])

p('C04', 'Simple values are written and read in their XSD lexical forms',
  '''Every accepted boolean, integer, decimal, date, time and date-time value is written in a form that is valid for the
  corresponding XSD built-in type and denotes that value (sign, four-digit year, time-zone offset, fractional seconds to
  the microsecond), and every XSD-valid text of the type within the Python value range, including surrounding whitespace, all boolean
  forms and every time-zone offset, is read as the value it denotes. Text that denotes no value of the type is rejected
  with a value error, never read as some other value. Not covered: 24:00:00, fractions finer than a microsecond, years outside 1..9999 and
  decimals of more than 15 significant digits.''',
  ['inputs'],
  '''booleans all forms; integers around every built-in bound; every calendar day boundary over selected years
  1..9999; all 1681 whole-minute zone offsets from -14:00 to +14:00; time-of-day and fraction alphabets; single-edit
  corruptions of valid texts''',
  'Tests cover a handful of dates and two zones; offsets, signs, short years and fractions are a large finite product.',
  [X, 'soapfish/xsd_types.py', 'soapfish/utils.py'],
  [('Boolean/Date/DateTime/Time/Decimal/Integer xmlvalue and pythonvalue', X), ('timezone_offset_to_string', 'soapfish/utils.py'),
   ('XSDDate', 'soapfish/xsd_types.py')],
  observe=['element text after rendering', 'field value after parsing'])

p('C05', 'A value is accepted exactly when it satisfies every declared facet',
  '''For string and numeric types with any combination of enumeration, pattern, length bounds, value bounds and digit
  limits, declared by constructor argument, by subclass attribute or both (argument wins), a value is accepted
  if and only if it satisfies all of them: the pattern must match the whole value, bounds are compared numerically and
  inclusive or exclusive as declared, a bound of zero counts, digit limits ignore sign and decimal point (the number of fraction digits, which soapfish takes as exact, is not covered).
  White-space handling is applied first, and the same verdict is reached by assigning the value, by constructing the
  object with it, by adding it to a list, and by parsing a document that contains it.''',
  ['inputs', 'configurations'],
  'all facet combinations from a small facet alphabet x all strings/numbers of a small alphabet, by four entry points',
  'Tests check single facets on a few values; conjunctions and boundary values are not sampled.',
  [X],
  [('String.accept', X), ('Decimal._check_restrictions', X), ('Integer.accept', X)],
  observe=['accept or ValueError'])

p('C06', 'Integer types enforce their ranges, and added facets only narrow them',
  '''Each built-in integer type accepts exactly the integers of its XSD range, whether given as integer or as text, and
  refuses non-integers. Facets a user adds to a built-in integer type or to a type derived from it can only narrow that
  range: the accepted set is the intersection of the built-in range with the declared facets
  (a user type derived from a user type must itself not widen the facets of its base).''',
  ['inputs', 'configurations'],
  '14 integer types x all values within 2 of every power-of-two/zero bound x user bound combinations around both ends',
  'Tests probe a few bounds of a few types; no test combines user facets with the built-in range.',
  [X],
  [('Integer.__init__ facet merge', X), ('overrides tables', X)],
  observe=['accept or ValueError'])

p('C07', 'The generated XSD is valid and accepts exactly what the model accepts',
  '''For every model schema without group references, attribute groups, imports, exact fraction-digit limits and length limits of Base64Binary or QName, the generated XSD compiles as XML Schema, and it accepts a document if and only
  if the model does: every rendered object with all its required fields (of a choice: exactly one branch) set is valid, and a document with an undeclared,
  missing, misplaced, surplus or repeated element or attribute, a disallowed nil or a value outside the declared type or facets is invalid.
  Parsing with a schema succeeds on the valid documents and raises on the invalid ones, and rendering with a schema gives the same document, or raises if it would be invalid.''',
  ['programs', 'inputs'],
  'all small models x all their small objects x all single mutations of each rendered document, judged by libxml2',
  'py2xsd_test compares three generated documents with literals; no test validates instances against generated schemas.',
  ['soapfish/py2xsd.py', 'soapfish/xsdspec.py', X],
  [('generate_xsd', 'soapfish/py2xsd.py'), ('create_xsd_element facets', 'soapfish/py2xsd.py'), ('ComplexType.parsexml(schema=)', X),
   ('schema_validator', 'soapfish/py2xsd.py')],
  observe=['libxml2 verdict under the generated XSD', 'parsexml outcome'])

p('C08', 'Code generated from an XSD behaves like the XSD',
  '''For every XSD in the supported subset (sequences, choices and all; named or inline restrictions of string and numeric types; repeated, nillable and
  optional elements; attributes and attribute groups; extensions; recursive types; fields named like a keyword, a public member of the model classes or a name the generated class itself needs, which get a leading underscore) the generated Python code imports
  without error, and its classes read every schema-valid document to the values it holds and write it back to an
  equivalent document. The `create` method of a generated class makes an object holding the required elements it is given. The generated types reject the field values the XSD's facets and occurrence limits reject. Outside the
  subset are: xs:list and xs:union, simple content, default and fixed values, element and attribute references, anonymous complex types inside elements, elements without type,
  schemas without target namespace, restriction of complex types, names that are no Python identifiers, begin with an underscore or differ only in their first letter's case, and the field name `self`.''',
  ['programs', 'inputs'],
  'all small XSDs of the subset x all small valid instances x single-fault instances',
  'code_test only checks that generated code compiles, or that one attribute exists, for about 20 fixed files.',
  ['soapfish/xsd2py.py', 'soapfish/templates/lib.jinja2', 'soapfish/templates/xsd.jinja2', 'soapfish/utils.py'],
  [('schema_to_py', 'soapfish/xsd2py.py'), ('render_complexType/render_xsd_Restriction', 'soapfish/templates/lib.jinja2')],
  observe=['executed generated module'])

p('C09', 'XSD to Python and back to XSD preserves the document language',
  '''For every XSD in the subset of code generation (see the previous property; without imports, recursion, or attribute groups), the XSD generated from the Python code generated from it accepts exactly the
  same documents as the original: nothing valid becomes invalid and nothing invalid becomes valid. Element and attribute names, the target
  namespace and the element form survive the trip (type names may change capitalisation).''',
  ['programs', 'inputs'],
  'all small XSDs of the subset x all small valid instances and all their single mutations',
  'No test performs the trip.',
  ['soapfish/xsd2py.py', 'soapfish/py2xsd.py', 'soapfish/templates/lib.jinja2'],
  [('schema_to_py then generate_xsd', 'soapfish/xsd2py.py, soapfish/py2xsd.py')],
  observe=['libxml2 verdicts under both schemas'])

p('C10', 'Generated code does not depend on declaration order',
  '''For every set of complex types related by extension or restriction in one schema, and every order in which the schema
  declares them, the generated code imports without error and every generated class has its base type as base class, with
  the inherited fields present and first. The same holds for the inline schemas of a WSDL that import one another: every
  order of the schemas gives code that imports, with each schema defined before the schemas that import it.''',
  ['programs', 'configurations'],
  'all inheritance forests on up to 5 types x all permutations; all acyclic import graphs on up to 4 inline schemas x all orders',
  'One fixed extension file and one fixed two-schema WSDL are tested.',
  ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py'],
  [('_reorder_complexTypes', 'soapfish/xsd2py.py'), ('reorder_schemas', 'soapfish/wsdl2py.py')],
  observe=['executed generated module'])

p('C11', 'Import and include graphs are followed completely, once, and terminate',
  '''For every graph of local schema files that import (another namespace) or include (the same namespace, or none) each other, in any directory layout and with cycles or
  diamonds, code generation terminates, opens each file at the location relative to the file that names it, emits each file's types exactly once (the root file of a cycle at most twice), and (when the graph is acyclic) the code imports and offers the types of every reachable file.
  The same holds for WSDL files that import each other: every message, port type, binding and service of every reachable
  file is available, whichever file names it.''',
  ['configurations'],
  'all import/include digraphs on up to 4 schema files and on up to 4 WSDL files x directory layouts (flat, nested, sibling)',
  'Tests use five fixed layouts of two or three files.',
  ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/utils.py'],
  [('rewrite_paths/resolve_import/known_paths', 'soapfish/xsd2py.py'), ('merge_imports', 'soapfish/wsdl2py.py'), ('resolve_location', 'soapfish/utils.py')],
  observe=['files opened (in order)', 'executed generated module'])

p('C12', 'Code generated from a WSDL implements the contract it describes',
  '''For every self-contained document-style WSDL 1.1 with SOAP 1.1 or 1.2 bindings and request-response operations whose messages have exactly one part (no operation named like a class or helper of the generated module), the generated client and server code import and define for each port a service (named after the port) whose
  target namespace, SOAP version, location and operations (name, action, input and output element, headers, style) are those of the WSDL; functions, stub methods and parameters whose name is a keyword or would hide what the generated code needs get a leading underscore. A call on the generated client stub reaches, through the generated server service, the handler of the same
  operation with the same data, and its result comes back.''',
  ['programs', 'configurations'],
  'WSDLs with 1..3 operations x action/name/element/header alphabets x both SOAP versions x several ports and locations',
  'wsdl_code_test only checks that fixed files generate compilable code.',
  ['soapfish/wsdl2py.py', 'soapfish/templates/wsdl.jinja2', 'soapfish/wsdl11.py', 'soapfish/wsdl12.py', 'soapfish/wsdl.py'],
  [('generate_code_from_wsdl', 'soapfish/wsdl2py.py'), ('wsdl.jinja2', 'soapfish/templates/wsdl.jinja2'), ('get_message_object', 'soapfish/wsdl.py')],
  observe=['executed generated modules', 'messages exchanged between generated client and server'])

p('C13', 'The generated WSDL describes the service completely and consistently',
  '''For every service with one self-contained schema and operations with input and output, the generated WSDL is well formed; each operation appears once in port type and binding with its
  action, style and input and output message; every reference (binding, port type, message, element or type) resolves inside
  the document; the port holds the service location, and the SOAP namespace matches the service's version. Code generated from
  that WSDL describes the same operations, actions, elements and location again. Headers are not part of the generated WSDL.''',
  ['programs', 'configurations'],
  'services with 0..3 operations x element or type messages x style x both versions x names',
  'Tests look at one or two services and one attribute each.',
  ['soapfish/py2wsdl.py', 'soapfish/wsdl11.py', 'soapfish/wsdl12.py'],
  [('generate_wsdl', 'soapfish/py2wsdl.py'), ('wsdl classes', 'soapfish/wsdl11.py, soapfish/wsdl12.py')],
  observe=['generated document', 'generated code'])

p('C14', 'Every POST is answered by one well-formed SOAP message',
  '''Whatever bytes are posted, dispatching returns (does not raise) one response whose content is a well-formed envelope of the
  service's SOAP version holding exactly one body entry, with the version's content type: the result element with status 200, or a fault
  with an error status (500 unless the fault's author sets another).
  A message that is malformed, is no envelope, has no body entry, is schema-invalid or unroutable gives the client
  fault; a SOAP error raised or returned by the handler gives a fault with its code, message and header; any other handler exception gives a
  server fault when the exception middleware is installed.''',
  ['inputs', 'fault_sequences'],
  '''all envelopes composed from an alphabet of shapes (truncated, wrong root, wrong namespace, empty, comments,
  processing instructions, several entries, invalid values, headers) x all handler outcomes x both versions''',
  'Tests post about ten fixed messages to one service.',
  [D, 'soapfish/soap11.py', 'soapfish/soap12.py', 'soapfish/core.py', 'soapfish/middlewares.py'],
  [('handle_soap_request', D), ('_parse_soap_content', D), ('Envelope.response/error_response', 'soapfish/soap11.py, soapfish/soap12.py')],
  observe=['SOAPResponse content, status and headers'])

p('C15', 'A handler only ever runs on a validated message, with the data that was sent',
  '''A handler is invoked exactly once for each accepted message and never for a message whose body entry, or (in strict mode)
  whose header entry, is invalid under the service's schemas, including imported and included ones. The handler receives
  exactly the values in the message, typed per the model, together with the parsed header; in non-strict mode an unknown
  header entry is ignored but the body is still validated (how non-strict mode treats known entries with invalid content, repeated entries and entries without namespace is left open).''',
  ['inputs', 'configurations'],
  'all small valid and single-mutation-invalid bodies x header variants x strict flag x schema layouts x both versions',
  'Tests use one invalid body and one missing header on one single-schema service.',
  [D, 'soapfish/py2xsd.py'],
  [('_prepare_request/_validate_input', D), ('schema_validator resolver', 'soapfish/py2xsd.py')],
  observe=['handler invocation log', 'response kind'])

p('C16', 'Each request is routed to the one operation it names',
  '''A request that carries a SOAP action (SOAP 1.1: the action header, quoted or not; SOAP 1.2: the action parameter of the
  content type) invokes the operation with exactly that action and no other, and an unknown action gives a client fault.
  Without an action the operation is the one whose input element is the body entry, or the head of the substitution group the body entry
  belongs to, and if there is none the answer is a client fault.''',
  ['inputs', 'configurations'],
  'services with up to 3 operations with colliding prefixes x every action value x every body element x both versions',
  'Tests have a single-operation service, so any routing sends the request to the right handler.',
  [D, 'soapfish/soap11.py', 'soapfish/soap12.py'],
  [('_find_handler_for_request', D), ('determine_soap_action', 'soapfish/soap11.py, soapfish/soap12.py')],
  observe=['which handler ran', 'response kind'])

p('C17', 'Client stub and dispatcher agree on every call',
  '''For every operation, parameter object and header, a call through the client stub delivers to the server's handler an equal
  parameter and header under the operation's action, and returns to the caller an object and header (of classes whose fields declare their namespace) equal to what the handler returned.
  A
  fault from the server is raised to the caller as a SOAP error with the server's code and message. This holds for SOAP 1.1 and 1.2, for every
  interleaving of successful and failing calls on one stub, and each call sends exactly one request to the configured location, with credentials only if configured.''',
  ['histories', 'inputs'],
  'all call sequences up to the depth bound over operations x parameter values x headers x handler outcomes, two versions',
  'Client tests mock the HTTP layer with fixed answers; client and server are never connected.',
  ['soapfish/soap.py', D, 'soapfish/soap11.py', 'soapfish/soap12.py'],
  [('Stub.call/_handle_response', 'soapfish/soap.py'), ('Envelope.response', 'soapfish/soap11.py'), ('handle_soap_request', D)],
  observe=['handler arguments', 'call result or SOAPError', 'HTTP request'])

p('C18', 'Middlewares nest like an onion around the handler',
  '''For every list of middlewares, the first listed is outermost: each is entered in list order and left in reverse order, and
  what it returns (a SOAP response, an element object or a SOAP error) or raises is exactly what the next outer one sees, whether it passes the call on, answers itself, replaces
  request or response, raises, or catches. A middleware that does not pass the call on prevents everything inside it, and
  its own answer is still delivered as a proper SOAP response; the exception middleware turns any exception inside it (but KeyboardInterrupt and the like) into
  a server fault and lets SOAP errors through unchanged, and the logging middleware logs once and re-raises.''',
  ['programs', 'fault_sequences'],
  'all stacks of up to 4 middlewares over a behaviour alphabet x handler outcomes, compared with a reference interpreter',
  'Tests use stacks of one or two pass-through middlewares.',
  [D, 'soapfish/middlewares.py'],
  [('SOAPDispatcher.middleware', D), ('ExceptionToSoapFault/ExceptionLogger', 'soapfish/middlewares.py')],
  observe=['enter/leave trace', 'final response'])

p('C19', 'Service documents are served complete, located and under the right hooks',
  '''A GET for the WSDL returns the service's WSDL with the request's scheme and host in its address; a GET for a schema
  returns that schema, and every schema location that any served document names is itself served, so a client can fetch the whole
  closure; an unknown schema is answered 404 and any other request 400. Each kind of request runs exactly its own request hook before
  and its own response hook after, once, and what the hooks return is what is used.''',
  ['configurations', 'inputs'],
  'import/include trees on up to 4 schemas x query strings x methods x scheme/host combinations x hook subsets',
  'Tests fetch the WSDL of a single-schema service and check two hooks.',
  [D, 'soapfish/utils.py', 'soapfish/core.py'],
  [('dispatch', D), ('handle_wsdl_request/handle_xsd_request', D), ('walk_schema_tree', 'soapfish/utils.py'), ('_call_hook', D)],
  observe=['response status, type and content', 'hook call log'])

p('C20', 'A response does not depend on the requests served before',
  '''For every sequence of requests to one dispatcher (valid, invalid, faulting, document requests, with and without headers), each
  response is the same as a fresh dispatcher gives to that request alone, and the service, its schemas and the dispatcher's
  documents are unchanged afterwards. The same holds for client calls and for model parsing and code generation in one process:
  repeating an operation after others gives the same result as doing it first (but for the time of generation that generated code names).''',
  ['histories'],
  'all request sequences up to the depth bound over an alphabet of about 12 request kinds, states compared after each',
  'Each test builds its own service and sends one request.',
  [D, X, 'soapfish/xsd2py.py', 'soapfish/utils.py'],
  [('SOAPDispatcher state', D), ('class-level model state', X), ('list defaults in code generation', 'soapfish/xsd2py.py')],
  observe=['responses', 'generated text'])

p('C21', 'Concurrent requests do not influence each other',
  '''When several threads use one dispatcher, one service or the same model classes at the same time, under every interleaving each request gets the
  response, and each handler the data and header, that it would get if it were served alone. The first uses of a freshly
  declared model by two threads, and generation of code in two threads, are also correct.''',
  ['schedules'],
  'all schedules of two or three threads with a bounded number of preemptions at line granularity in library code',
  'No test uses threads.',
  [D, X],
  [('per-request SOAPRequest/SOAPResponse objects', 'soapfish/core.py'), ('lazy type evaluation', X), ('per-class metadata', X)],
  observe=['responses and handler arguments per thread'])

p('C22', 'All server adapters answer the same request alike',
  '''For every request, the plain WSGI application, the Flask view and the Django view return the status, the content type and
  other headers the dispatcher sets, and the body that the dispatcher returns for it, whatever the method, query string, action header, content type,
  declared content length or body (HEAD requests and bodies above the framework's upload limit apart). A WSGI body is read up to its declared length and no further.''',
  ['inputs', 'configurations'],
  'request alphabet (method x query x action spelling x content-type x body x length) x three adapters x two versions',
  'Each adapter is tested with one request, and the WSGI one with a mock dispatcher.',
  ['soapfish/flask_.py', 'soapfish/django_.py', D, 'soapfish/soap11.py'],
  [('flask_dispatcher', 'soapfish/flask_.py'), ('django_dispatcher', 'soapfish/django_.py'), ('WsgiSoapApplication', D)],
  observe=['HTTP response of each adapter'])

p('C23', 'WS-Addressing headers are checked, delivered and correlated',
  '''A message whose addressing headers are invalid under the WS-Addressing schema is refused with a client fault before the handler runs, in
  strict and non-strict mode alike; a valid one delivers to the handler all its addressing values that the header class declares. A reply header filled from a request header has
  the request's action followed by "Response", relates to the request's message id, is addressed to the anonymous
  address and has a fresh unique message id, and the request header is unchanged.''',
  ['inputs', 'histories'],
  'all subsets and orders of addressing header entries x valid/invalid content x strict flag, and reply chains',
  'One test posts one addressing header.',
  ['soapfish/wsa.py', D],
  [('wsa.XML_SCHEMA', 'soapfish/wsa.py'), ('_validate_header', D), ('fill_header', 'soapfish/wsa.py')],
  observe=['handler invocation log', 'header of the reply'])

p('C24', 'A posted document cannot make the server read files or open connections',
  '''No XML posted to the dispatcher or sent to a client stub, whatever document type declaration, entity, external reference, inclusion or schema-location hint it
  contains, makes the process open a network connection or puts the content of a local file into what the
  handler or the caller receives or the response returns. The dispatcher still answers with a SOAP message.''',
  ['inputs'],
  'all combinations of an attack alphabet (external general/parameter entity, external DTD, XInclude, schemaLocation) x position x URL scheme',
  'No test posts hostile XML.',
  [D, 'soapfish/py2xsd.py', X],
  [('XML parser configuration', X), ('schema_validator resolver', 'soapfish/py2xsd.py')],
  observe=['canary file content in handler data/response', 'connections to a loopback listener', 'file opens'])

p('C25', 'Command-line tools write exactly the document the library generates',
  '''For every supported input, each command-line tool (XSD to Python, WSDL to Python for client and server, Python to XSD, Python to WSDL) writes to
  the named file or to standard output the same document as the corresponding library call (generated code differs only in its time of generation and surrounding white space), reads standard input for "-" where documented,
  resolves relative references against the input file's directory rather than the working directory, and returns 0.''',
  ['configurations'],
  'tool x input kind x path style (absolute, relative, other directory, stdin) x output (file, stdout) x flags',
  'No test runs the command-line entry points.',
  ['soapfish/xsd2py.py', 'soapfish/wsdl2py.py', 'soapfish/py2xsd.py', 'soapfish/py2wsdl.py'],
  [('main', 'soapfish/xsd2py.py'), ('main', 'soapfish/wsdl2py.py'), ('main', 'soapfish/py2xsd.py'), ('main', 'soapfish/py2wsdl.py')],
  observe=['output bytes', 'return value'])

p('C26', 'The contract a service publishes is the contract it enforces',
  '''For every service whose imported and included schemas all have locations (supported declarations as in C07: without group references, attribute groups and exact fraction digits),
  the WSDL and the schemas it serves over GET compile together as one schema set: several top-level schemas, imports, includes and cycles of them alike.
  The handler of an operation runs for a posted message exactly if its body entry (in strict mode its header entries too) is valid under the schemas served, and each
  operation the served WSDL lists is invoked by a message with the action and input element listed there, sent to the address listed there,
  and is answered with the output element listed there.''',
  ['inputs', 'configurations'],
  'all small services (types, facets, layouts of schemas, operations) x all single mutations of all small messages, judged by the served documents alone',
  'Tests look for strings in one generated WSDL and post a few messages; none compares what is published with what is enforced.',
  [D, 'soapfish/py2wsdl.py', 'soapfish/py2xsd.py', X],
  [('generate_wsdl', 'soapfish/py2wsdl.py'), ('generate_xsd', 'soapfish/py2xsd.py'), ('SOAPDispatcher', D)],
  observe=['documents served over GET', 'handler invocation log', 'response body entry'])

p('C27', 'Declared defaults fill the fields that are not given',
  '''A new object, and an object parsed from a document that lacks the field, holds the declared default (a Python value its type accepts; a default
  the type refuses is never held) of an attribute or element in each field that is not given a value by constructor, assignment or document. Values given,
  nil and None are kept. Rendering writes the value held. Defaults are each object's own: whatever is done to one object's default
  (nested objects, lists) or to a deep copy of an object leaves all other objects, present and future, as they were; a deep copy renders the same document.''',
  ['inputs', 'histories'],
  'all types x defaults x kinds, places and uses of fields x ways to give or omit them; all histories of operations on objects with defaults and copies of them',
  'The tests declare a default for one attribute; shared defaults show only in what later objects hold.',
  [X, D],
  [('Element.empty_value', X), ('Attribute.parse', X), ('Ref.empty_value', X), ('ComplexType', X)],
  observe=['field values', 'rendered documents', 'messages of dispatcher and stub'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
