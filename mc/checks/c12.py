"""C12: code generated from a WSDL implements the contract it describes."""
import re

from ..explore import Harness
from ..lib.soapkit import Wire, XS, normal, serve
from ..lib.wsdltext import ARRANGEMENTS, Op, Port, wsdl
from ..lib.xsdtext import Module, cap, pyname
from soapfish import soap, wsdl2py
from soapfish.core import SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher

TECHNIQUE = ('bounded exhaustive exploration: all WSDLs of the subset up to the bound; generated client and server modules are '
             'executed, compared with the description and connected to each other by a loopback for every call')
BOUNDS = {
    'quick': '1 operation with 3 deviations and 2 operations with 2 deviations in: SOAP version or both, name, action, message '
             'element (named type, anonymous type, named like the operation, keyword, type part), headers (none, one, two, complex; '
             'in and out), style, location (6), schemas (1, 2, importing), element form, prefixes (4), order of sections, '
             'documentation, several ports, arrangement (9: orders, several services, spare parts and definitions); 5 and 12 operations with 1 deviation; every call with 3 values x 2 headers.',
    'thorough': 'As quick with 4 and 3 deviations; 3 operations with 2 deviations.',
}
ASSUMPTIONS = ['names are Python identifiers or keywords', 'messages have one part']

NAMES = ['Ask', 'ask', 'import', 'call_it', 'Type']
ACTIONS = ['urn:act', 'http://example.org/act/{}?a=1&b=2', '', None, 'act', "urn:it's{}"]
ALIKE = [['Ask', 'ask', 'ASK'], ['getItem', 'getitem', 'getITEM'], ['ask', 'askInput', 'askRequest'], ['ask', 'askOutput', 'askResponse'], ['op', 'op1', 'op11'], ['b', 'a', 'c']]
ACTIONS_ALIKE = [['urn:a', 'urn:A', 'URN:A'], ['urn:a', 'urn:a/', 'urn:a//'], ['urn:a', 'urn:a#', 'urn:a#a'], ['urn:a/b', 'b', '/b'], ['ask1', 'ask0', 'ask2'], ['urn:a%20b', 'urn:a+b', 'urn:a b']]
LOCATIONS = ['http://h.example/p', 'https://h.example:8443/a/b/c', 'http://h.example', 'http://h.example/p?x=1&y=2',
             'http://10.0.0.1:80/p/', 'http://h.example/a%20b', "http://h.example/it's"]
ELEMENTS = ['named', 'anonymous', 'like the operation', 'keyword', 'type part']
HEADERS = ['none', 'simple', 'two', 'complex', 'keyword part']
KEYWORDS = ['class', 'for', 'while', 'def', 'del', 'if', 'is', 'in', 'not', 'or', 'and', 'try']
OTHER_KEYWORDS = ['raise', 'pass', 'with', 'from', 'as', 'else', 'elif', 'yield', 'break', 'global', 'lambda', 'return']


class At(str):
    """The name of an element and its schema."""

    def __new__(cls, name, place):
        self = super().__new__(cls, name)
        self.place = place
        return self


class Elements:
    """The text of the schemas: elements with their types."""

    def __init__(self, schemas, form):
        self.form = form
        self.body = ['' for _ in range(schemas)]

    def add(self, n, name, kind, typename):
        fields = ('<xs:sequence><xs:element name="num" type="xs:int"/><xs:element name="text" type="xs:string" minOccurs="0"/>'
                  '</xs:sequence><xs:attribute name="at" type="xs:string"/>')
        if kind == 'simple':
            self.body[n] += f'<xs:element name="{name}" type="xs:string"/>'
        elif kind == 'anonymous':
            self.body[n] += f'<xs:element name="{name}"><xs:complexType>{fields}</xs:complexType></xs:element>'
        else:
            self.body[n] += (f'<xs:complexType name="{typename}">{fields}</xs:complexType>'
                             f'<xs:element name="{name}" type="x{n}:{typename}"/>')

    def texts(self, imports):
        form = f' elementFormDefault="{self.form}"' if self.form else ''
        return [f'<xs:schema targetNamespace="urn:x{n}"{form}>'
                + ('<xs:import namespace="urn:x0"/>' if n and imports else '') + b + '</xs:schema>' for n, b in enumerate(self.body)]


def contract(ch, n):
    versions = ch.dev('versions', [[11], [12], [11, 12], [12, 11], [11, 11]])
    schemas = ch.dev('schemas', ['one', 'two', 'importing'])
    form = ch.dev('form', ['qualified', 'unqualified', None])
    elements = Elements(1 if schemas == 'one' else 2, form)
    headers_in = ch.dev('schema of the headers', [(0, 0), (1, 1), (0, 1), (1, 0)]) if schemas != 'one' else (0, 0)
    names = ch.dev('alike names', [None, *ALIKE]) if n > 1 else None
    actions = ch.dev('alike actions', [None, *ACTIONS_ALIKE]) if n > 1 else None
    ops, kinds = [], {}
    for i in range(n):
        name = names[i] if names and i < 3 else ch.dev(f'name {i}', NAMES) + (str(i) if i else '')
        action = ch.dev(f'action {i}', ACTIONS)
        action = actions[i] if actions and i < 3 else action and action.format(i) + str(i)
        style = ch.dev(f'style {i}', [None, 'document'])
        into = ch.dev(f'input {i}', ELEMENTS)
        out = ch.dev(f'output {i}', ['named', 'anonymous', 'keyword', 'like the input'])
        heads = [ch.dev(f'{side} header {i}', HEADERS) for side in ('in', 'out')]
        place = ch.dev(f'schema {i}', [0, 1]) if schemas != 'one' else 0
        if into == 'type part' and not action:
            ch.skip()  # such operations can only be told by the action
        element = {'named': f'ask{i}', 'anonymous': f'ask{i}', 'keyword': KEYWORDS[i], 'type part': f'query{i}',
                   'like the operation': name}[into]
        elements.add(place, element, 'anonymous' if into in ('anonymous', 'like the operation') else 'named', f'Query{i}')
        if out == 'like the input':
            answer = element
        else:
            answer = OTHER_KEYWORDS[i] if out == 'keyword' else f'answer{i}'
            elements.add(0, answer, 'anonymous' if out == 'anonymous' else 'named', f'Answer{i}')
        parts = []
        for side, head in zip(('in', 'out'), heads):
            h = []
            if head in ('simple', 'two', 'keyword part'):
                elements.add(headers_in[0], f'{side}Note{i}', 'simple', None)
                h.append(('in' if head == 'keyword part' else f'{side}note', At(f'{side}Note{i}', headers_in[0])))
            if head in ('two', 'complex'):
                elements.add(headers_in[1], f'{side}Info{i}', 'named', f'{cap(side)}InfoType{i}')
                h.append((f'{side}Info{i}', At(f'{side}Info{i}', headers_in[1])))
            parts.append(h)
        ops.append(Op(name, action, (element, place), (answer, place if out == 'like the input' else 0), *parts, style=style))
        kinds[name] = (into, element, f'Query{i}' if into in ('named', 'keyword', 'type part') else cap(element),
                       answer, (f'Query{i}' if into in ('named', 'keyword', 'type part') else cap(element)) if out == 'like the input'
                       else f'Answer{i}' if out in ('named', 'keyword') else cap(answer))
    if len({o.name for o in ops}) < n or any(o.name == e for o in ops for e in KEYWORDS):
        ch.skip()
    location = ch.dev('location', LOCATIONS)
    order = ch.dev('order', ['usual', 'reversed'])
    docs = ch.dev('documentation', [False, True])
    w = ch.dev('WSDL prefix', ['w', ''])
    tns = ch.dev('own prefix', ['tns', 'xsd', ''] if w else ['tns', 'xsd'])
    ns = ch.dev('namespace', ['urn:w', 'http://example.org/w/', 'urn:x0', "urn:o'w"])
    shared = ch.dev('port type', ['shared', 'own'])
    other = ch.dev('other port', [False, True])
    second = ch.dev('operations of the second port', ['same', 'reversed', 'other elements', 'crossed elements', 'fewer'])
    ports, kinds_of = [], {}
    if second != 'same' and len(versions) == 1 or second in ('reversed', 'fewer') and n == 1:
        ch.skip()
    for k, v in enumerate(versions):
        name, its_ops, its_kinds = ['Main', 'Second'][k], ops, kinds
        if k and second != 'same':
            if style_or_part(kinds):
                ch.skip()
            its_ops, its_kinds = differently(ch, second, ops, kinds, elements)
            shared = 'own'
        kinds_of[name] = its_kinds
        ports.append(Port(name, v, location if not k else 'http://second.example/q', its_ops))
    listed = list(ports)
    if other:
        # A transport that is not supported, to be left out.
        listed.insert(0, Port('Other', versions[0], 'smtp://h', ops, transport='http://schemas.xmlsoap.org/soap/smtp'))
    namespaces = [f'urn:x{k}' for k in range(len(elements.body))]
    arrangement = ch.dev('arrangement', ARRANGEMENTS)
    if (arrangement in ('bindings reversed', 'service per port') and len(listed) == 1
            or arrangement == 'port types reversed' and (len(versions) == 1 or shared == 'shared')
            or arrangement == 'port type operations reversed' and n == 1
            or arrangement in ('spare header parts', 'one header message') and not any(o.in_header or o.out_header for o in ops)
            or arrangement == 'one header message' and any(p == q for o in ops for p, _ in o.in_header for q, _ in o.out_header)):
        ch.skip()
    # parts that refer to a type
    text = wsdl(listed, elements.texts(schemas == 'importing'), namespaces, ns, w, order, docs, tns, shared == 'shared',
                arrangement=arrangement)
    for o in ops:
        into, element, typename, _, _ = kinds[o.name]
        if into == 'type part':
            text = text.replace(f'name="body" element="x{o.input[1]}:{element}"', f'name="body" type="x{o.input[1]}:{typename}"')
    use_wsa = ch.dev('WS-Addressing', [False, True])
    what = lambda: text
    sides = {}
    for target in ('server', 'client'):
        ch.step()
        code = wsdl2py.generate_code_from_wsdl(text.encode(), target, use_wsa)
        try:
            sides[target] = Module(code), code.decode()
        except Exception as e:
            ch.fail(f'{text}\nthe {target} code does not import: {e!r}\n{code.decode()}')
    (server, server_code), (client, client_code) = sides['server'], sides['client']
    with server as sm, client as cm:
        for side, mod, code in (('server', sm, server_code), ('client', cm, client_code)):
            shown = lambda: f'{text}\n{side}\n{code}'
            found = [k for k, v in vars(mod).items() if isinstance(v, soap.Service)]
            ch.check(sorted(found) == sorted(f'{p.name}_SERVICE' for p in ports), lambda: f'{shown()}\nservices {found}')
            for p in ports:
                described(ch, getattr(mod, f'{p.name}_SERVICE'), p, ns, kinds_of[p.name], namespaces, mod, lambda: f'{shown()}\nport {p.name}')
        for p in ports:
            calls(ch, sm, cm, p, kinds_of[p.name], use_wsa, lambda: f'{text}\n{server_code}\n{client_code}')
    ch.state(text)


def style_or_part(kinds):
    return any(into == 'type part' for into, *_ in kinds.values())


def differently(ch, how, ops, kinds, elements):
    """Operations of the same names for another port type, with messages of their own."""
    if how == 'reversed':
        return ops[::-1], kinds
    if how == 'fewer':
        return ops[1:], kinds
    out, its_kinds = [], {}
    for i, o in enumerate(ops):
        into, element, typename, answer, answertype = kinds[o.name]
        if how == 'crossed elements':
            # The input of one is the output of the other.
            e, a, types = o.output, o.input, (answertype, typename)
        else:
            elements.add(0, f'otherAsk{i}', 'named', f'OtherQuery{i}')
            elements.add(0, f'otherAnswer{i}', 'named', f'OtherAnswer{i}')
            e, a, types = (f'otherAsk{i}', 0), (f'otherAnswer{i}', 0), (f'OtherQuery{i}', f'OtherAnswer{i}')
        out.append(Op(o.name, o.action, e, a, o.in_header, o.out_header, style=o.style))
        its_kinds[o.name] = ('named', e[0], types[0], a[0], types[1])
    return out, its_kinds


def described(ch, service, port, ns, kinds, namespaces, mod, shown):
    version = soap.SOAPVersion.SOAP11 if port.version == 11 else soap.SOAPVersion.SOAP12
    ch.check(service.version is version, lambda: f'{shown()}\nversion {service.version}')
    ch.check(service.name == port.name and service.targetNamespace == ns, lambda: f'{shown()}\n{service.name} {service.targetNamespace}')
    scheme, rest = port.location.split('://')
    host, slash, path = rest.partition('/')
    ch.check(service.location == '${scheme}://${host}' + slash + path, lambda: f'{shown()}\nlocation {service.location}')
    ch.check([s.targetNamespace for s in service.schemas] and {s.targetNamespace for s in service.schemas} == set(namespaces)
             and len(service.schemas) == len(namespaces), lambda: f'{shown()}\nschemas')
    ch.check([m.operationName for m in service.methods] == [o.name for o in port.ops], lambda: f'{shown()}\noperations')
    for m, o in zip(service.methods, port.ops):
        into, element, typename, answer, answertype = kinds[o.name]
        want = (o.action or '', element if into != 'type part' else getattr(mod, typename), answer)
        ch.check((m.soapAction, m.input, m.output) == want or into == 'type part' and answer == element,
                 lambda: f'{shown()}\n{o.name}: {(m.soapAction, m.input, m.output)}, expected {want}')
        ch.check(m.style == 'document', lambda: f'{shown()}\nstyle {m.style}')
        for side, header, parts in (('input', m.input_header, o.in_header), ('output', m.output_header, o.out_header)):
            ch.check((header is not None) == bool(parts), lambda: f'{shown()}\n{o.name}: {side} header {header}')
            for p, e in parts:
                ch.check(hasattr(header, pyname(p)), lambda: f'{shown()}\n{o.name}: {side} header has no part {p}')


VALUES = [(1, None, None), (-7, 'b&<">\u20ac', 'x'), (0, '', None)]


def make(cls, value):
    o = cls(num=value[0])
    if value[1] is not None:
        o.text = value[1]
    if value[2] is not None:
        o.at = value[2]
    return o


def read(o):
    return None if o is None else (o.num, o.text or None, o.at)


def norm(value):
    return value[0], value[1] or None, value[2]


def header(cls, parts, mod, use_wsa):
    h, want = cls(), {}
    if use_wsa:
        h.Action, h.MessageID, h.To = 'urn:a', 'urn:m', 'urn:t'
    for p, e in parts:
        if 'Info' in e:
            setattr(h, pyname(p), make(getattr(mod, re.sub(r'(\d+)$', r'Type\1', cap(e))), VALUES[1]))
            want[p] = VALUES[1]
        else:
            setattr(h, pyname(p), 'note&')
            want[p] = 'note&'
    return h, want


def seen(h, parts):
    if h is None:
        return None
    return {p: read(getattr(h, pyname(p))) if 'Info' in e else getattr(h, pyname(p)) for p, e in parts}


def calls(ch, sm, cm, port, kinds, use_wsa, shown):
    service = getattr(sm, f'{port.name}_SERVICE')
    log, result = [], []
    for o in port.ops:
        def handler(request, value, o=o):
            log.append((o.name, read(value), seen(request.soap_header, o.in_header), type(value).__name__))
            return result[0]
        service.route(o.name)(handler)
    dispatcher = SOAPDispatcher(service)
    stub = getattr(cm, f'{port.name}ServiceStub')()
    types = {c.__name__: c for s in service.schemas for c in s.complexTypes}
    with Wire({port.location: serve(dispatcher)}) as wire:
        for o in port.ops:
            into, element, typename, answer, answertype = kinds[o.name]
            method = getattr(stub, pyname(o.name), None)
            ch.check(method is not None, lambda: f'{shown()}\nthe stub has no method {o.name}')
            for n, value in enumerate(VALUES):
                back = VALUES[(n + 1) % 3]
                head = want = None
                if o.in_header and n:
                    m = next(m for m in stub.SERVICE.methods if m.operationName == o.name)
                    head, want = header(m.input_header, o.in_header, cm, use_wsa)
                cls = types.get(answertype) or getattr(sm, answertype)
                if not isinstance(cls, type):
                    cls = None  # hidden by the function of the same name
                rhead = rwant = None
                if o.out_header and n != 1:
                    m = next(m for m in service.methods if m.operationName == o.name)
                    rhead, rwant = header(m.output_header, o.out_header, sm, use_wsa)
                if cls is None:
                    return
                result[:] = [SOAPResponse(make(cls, back), soap_header=rhead)]
                del log[:], wire.sent[:]
                ch.step()
                try:
                    answered = method(make(getattr(cm, typename), value), header=head)
                except Exception as e:
                    ch.fail(f'{shown()}\ncall of {o.name}({value}) on port {port.name}: {e!r}\n{[r.body for r in wire.sent]}')
                expected = [(o.name, norm(value), want, typename)]
                ch.check(log == expected, lambda: f'{shown()}\n{port.name}.{o.name}: the handlers got {log}, expected {expected}')
                got = read(answered.soap_body), seen(answered.soap_header, o.out_header)
                ch.check(got == (norm(back), rwant), lambda: f'{shown()}\n{port.name}.{o.name}: returned {got}, expected {(norm(back), rwant)}')
                ch.check(len(wire.sent) == 1, lambda: f'{shown()}\n{len(wire.sent)} requests')
                ch.note('call')


RESERVED = ('soap xsd wsa call location service username password SERVICE SCHEME HOST request self header name print type str function input output methods '
            'schemas version cls instance create xml render accept body handler wrapper string').split()


def reserved(ch):
    """Names that mean something to the generated code or the library."""
    where = ch.choose('where', ['operation', 'input', 'output', 'part', 'input header part', 'output header part', 'port', 'message', 'field', 'attribute'])
    name = ch.choose('name', RESERVED)
    version = ch.choose('version', [11, 12])
    use_wsa = ch.choose('WS-Addressing', [False, True])
    elements = Elements(1, 'qualified')
    into, out = name if where == 'input' else 'ask', name if where == 'output' else 'answer'
    kind = ch.choose('types', ['named', 'anonymous'])
    elements.add(0, into, kind, 'Query')
    elements.add(0, out, kind, 'Result')
    for note in ('inNote', 'outNote'):
        elements.add(0, note, 'simple', None)
    heads = [[(name if where == f'{side} header part' else 'note', At(f'{side[:-3] if side == "output" else "in"}Note', 0))] for side in ('input', 'output')]
    op = Op(name if where == 'operation' else 'Do', 'urn:act', (into, 0), (out, 0), *heads)
    port = Port(name if where == 'port' else 'Main', version, 'http://h.example/p', [op])
    text = wsdl([port], elements.texts(False), ['urn:x0'], 'urn:w')
    if where == 'part':
        text = text.replace('name="body"', f'name="{name}"')
    if where in ('field', 'attribute'):
        text = text.replace('name="text"' if where == 'field' else 'name="at"', f'name="{name}"')
    if where == 'message':
        text = re.sub('(message name="|message="tns:)Do', rf'\g<1>{name}', text)
    modules = {}
    for target in ('server', 'client'):
        ch.step()
        code = wsdl2py.generate_code_from_wsdl(text.encode(), target, use_wsa)
        try:
            modules[target] = Module(code), code.decode()
        except Exception as e:
            ch.fail(f'{text}\nthe {target} code does not import: {e!r}\n{code.decode()}')
    shown = lambda: f'{text}\n{modules["server"][1]}\n{modules["client"][1]}'
    with modules['server'][0] as sm, modules['client'][0] as cm:
        service = getattr(sm, f'{port.name}_SERVICE')
        stub = getattr(cm, f'{port.name}ServiceStub')()
        own = vars(type(stub))
        ch.check(own['SCHEME'] == 'http' and own['HOST'] == 'h.example', lambda: f'{shown()}\nSCHEME {own["SCHEME"]} HOST {own["HOST"]}')
        method = own.get('_' + op.name) or own.get(op.name)
        ch.check(callable(method), lambda: f'{shown()}\nthe stub has no method {op.name}')
        log = []
        classes = lambda module, element, typename: getattr(module, typename if kind == 'named' else cap(element))
        spelled = lambda cls, n: '_' + n if hasattr(cls(), '_' + n) else n
        text_field = name if where == 'field' else 'text'
        attr_field = name if where == 'attribute' else 'at'

        def make(cls, v):
            o = cls(num=v[0])
            setattr(o, spelled(cls, text_field), v[1])
            setattr(o, spelled(cls, attr_field), v[2])
            return o

        def read(o):
            return o.num, getattr(o, spelled(type(o), text_field)), getattr(o, spelled(type(o), attr_field))

        def note(cls, part):
            h = cls()
            setattr(h, spelled(cls, part), 'n&')
            if use_wsa:
                h.Action, h.MessageID, h.To = 'urn:a', 'urn:m', 'urn:t'
            return h

        def handler(request, value):
            h = request.soap_header
            log.append((read(value), h and getattr(h, spelled(type(h), heads[0][0][0]))))
            return SOAPResponse(make(classes(sm, out, 'Result'), VALUES[0]), soap_header=note(service.methods[0].output_header, heads[1][0][0]))

        service.route(op.name)(handler)
        with Wire({port.location: serve(SOAPDispatcher(service))}) as wire:
            ch.step()
            try:
                answered = method(stub, make(classes(cm, into, 'Query'), VALUES[1]), header=note(stub.SERVICE.methods[0].input_header, heads[0][0][0]))
            except Exception as e:
                ch.fail(f'{shown()}\ncall of {op.name}: {e!r}\n{[r.body for r in wire.sent]}')
        ch.check(log == [(VALUES[1], 'n&')], lambda: f'{shown()}\nthe handler got {log}')
        h = answered.soap_header
        got = read(answered.soap_body), h and getattr(h, spelled(type(h), heads[1][0][0]))
        ch.check(got == (VALUES[0], 'n&'), lambda: f'{shown()}\nreturned {got}')
    ch.note(where)
    ch.state(text)


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness('one operation', contract, {'n': 1}, split=9, budget=4 if full else 3, timeout=120),
           Harness('reserved names', reserved, split=2),
           Harness('two operations', contract, {'n': 2}, split=9, budget=3 if full else 2, timeout=120),
           Harness('5 operations', contract, {'n': 5}, split=9, budget=2 if full else 1, timeout=120),
           Harness('12 operations', contract, {'n': 12}, split=9, budget=1, timeout=120)]
    if full:
        out.append(Harness('three operations', contract, {'n': 3}, split=9, budget=2, timeout=120))
    return out
