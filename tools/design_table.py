d('C01', 'Field by field comparison of the parsed object with the description of the object that was built (value, type, zone, nil, list length and order); equality of values is that of mc/lib/xsdval.py.',
  'Kinds of fields next to each other: a field whose tag is the name of another, groups between elements, the branch of a choice, nils in lists, fields inherited through two levels, recursive types, types of another schema, non-ASCII names.', '25 s')
d('C02', 'Reference renderer `models.tree` (declared order, namespaces by element form, own namespaces, lexical forms).',
  'Order and qualification for every ordered pair of kinds of fields in both forms; all list lengths around both bounds.', '35 s')
d('C03', 'Reference state: one dictionary per object; after each operation every live object is read back completely, and a digest of classes and previously rendered documents is compared.',
  'Histories: a rejected operation followed by a read, aliasing between two objects through a shared list or group, growth of a list by each of the mutating list operations.', '30 s')
d('C04', 'xsdval: a parser and canonicalizer of the XSD 1.0 value spaces written from the specification.',
  'All 1681 zone offsets (sign errors for offsets below an hour), all fraction lengths, boundary days, single-character corruptions.', '5 s')
d('C05', 'A facet checker of 30 lines that knows nothing of the library.',
  'Facets combined with each other and with the eight ways to declare them; verdicts through all entry points.', '30 s')
d('C06', 'Interval arithmetic.', 'Values within 2 of each bound of 13 types, and interplay with user facets at both ends.', '16 s')
d('C07', 'Independent validity checker `models.valid` in lockstep with libxml2 on the generated XSD and with parsexml(schema=).',
  'Acceptance of all single mutations of all small documents of all small models: over- and under-acceptance.', '25 s')
d('C08', 'libxml2 under the original XSD (validity) and an independent reader (values); the generated module is executed.',
  'Every pair of declaration kinds under six layouts, every facet and occurrence spelled in every way.', '25 s')
d('C09', 'libxml2: the original and the twice-translated XSD must agree on every document.',
  'Loss or invention of facets, occurrence limits, forms or content models in either direction.', '25 s')
d('C10', 'The inheritance forest itself: bases and inherited fields of the executed module.', 'All orders of all forests, and schemas of a WSDL in all orders of all import graphs.', '55 s')
d('C11', 'Reachability in the graph; files opened are observed by an audit hook (sys.addaudithook).', 'Cycles, diamonds, same names in different directories, chameleon includes, other spellings of one file.', '100-170 s')
d('C12', 'Description of the WSDL against the executed modules, and a loopback between client and server code for every call.', 'Interplay of names, sections in other order, several ports and port types, headers, inline schemas.', '100 s')
d('C13', 'An independent WSDL reader resolving every QName; the code generated from the WSDL is compared with the service.', 'Names that are prefixes of one another or collide with generated names; several operations.', '130 s')
d('C14', 'An independent reader of SOAP answers and a classification of messages (well-formed, envelope, entries, valid, routable).', 'All byte-level corruptions of a message; all outcomes of handlers.', '20 s')
d('C15', '`models.valid` and `models.read`-style reader of the posted document against the log of the handler.', 'All single mutations of all small messages; header sequences in strict and non-strict mode; imports and includes.', '60-75 s')
d('C16', 'A routing table computed from the description of the service.', 'Colliding names and actions (prefixes, case, other namespace, trailing characters) under every spelling.', '50 s')
d('C17', 'The objects given to the stub and to the handler; a log of the transport.', 'All sequences of successful and failing calls on one stub; headers of all shapes in both directions.', '25 s')
d('C18', 'A reference interpreter of the stack (recursive, 40 lines).', 'All stacks up to three over 22 behaviours; the same middleware more than once.', '35 s')
d('C19', 'A crawler that follows every location to its closure, and a table of hooks.', 'All small graphs, locations that need escaping, all subsets of hooks.', '10 s')
d('C20', 'The answer to the same operation in a fresh process (fork).', 'Hidden state: caches, classes modified by use, documents rewritten in place, reuse of results.', '85 s')
d('C21', 'The answers of the same requests served one after another.', 'All one-preemption schedules at every line, two-preemption schedules near writes to shared objects.', '60-140 s')
d('C22', 'The response of the dispatcher to the request described in the adapters\' terms.', 'Full products of requests; lengths that disagree with the body; unusual content types.', '70 s')
d('C23', 'libxml2 with the WS-Addressing schema, and the contents of the entries.', 'All orders and repetitions of entries, chains of replies, schedules of id generation.', '40 s')
d('C24', 'Canary texts in files and a listening socket; nothing of them may appear anywhere.', 'Product of attacks, positions and address spellings.', '10 s')
d('C25', 'The library call in-process with the same input.', 'Product of spellings of paths, working directories, outputs and flags.', '80 s')
d('C26', 'libxml2 with the schema set fetched from the service, and a client that knows nothing but the served WSDL.',
  'Differences between what is generated for publication and what validates: facets, forms, schema layouts, colliding names and actions.', '50 s')
d('C27', 'A reference of independent records: each object a dictionary of the values given and the declared defaults.',
  'Defaults that are falsy, refused by their type, or objects; objects that share state with others only after a certain history.', '70 s')
