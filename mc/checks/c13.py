"""C13: the generated WSDL describes the service completely and consistently."""
import copy

from lxml import etree

from ..explore import Harness
from ..lib.soapkit import HTTP, SOAP11, SOAP12, WSDL, XS
from ..lib.xsdtext import Module, cap, pyname
from soapfish import py2wsdl, soap, wsdl2py, xsd

TECHNIQUE = ('bounded exhaustive exploration: all services up to the bound; the generated WSDL is read by an independent reader '
             'that resolves every reference, and translated to code that is executed and compared with the service')
BOUNDS = {
    'quick': '0..1 operations with 3 deviations and 2..3 operations with 2 deviations in: SOAP version, names, actions (8), kind of the '
             'input and output (named type, anonymous type, simple type, class, shared), style, names of the elements (8), locations (7), namespaces, element '
             'form, further types in the schema, headers, WSDL generated twice; 6 and 12 operations with 1 deviation.',
    'thorough': 'As quick with 1 more deviation.',
}
ASSUMPTIONS = ['services with one schema; operations have input and output']

LOCATIONS = ['http://h.example/p', '${scheme}://${host}/p', 'https://h.example:8443/a/b', 'http://h.example', 'http://h.example/p?x=1&y=2',
             '${scheme}://${host}', '${scheme}://${host}/p/q?a=1']
ACTIONS = ['urn:act', 'http://example.org/act{}?a=1&b=2', '', 'act', '<"&>', '\u20ac', 'urn:act#x y', "it's"]
NAMES = ['Ask', 'ask', 'call_it', 'X', 'ask\u00e4']
ALIKE = [['Ask', 'ask', 'ASK'], ['getItem', 'getitem', 'getITEM'], ['ask', 'askInput', 'askInputInput'], ['ask', 'askOutput', 'askResponse'], ['op', 'op1', 'op11'], ['b', 'a', 'c']]
ACTIONS_ALIKE = [['urn:a', 'urn:A', 'URN:A'], ['urn:a', 'urn:a/', 'urn:a//'], ['urn:a', 'urn:a#', 'urn:a#a'], ['urn:a/b', 'b', '/b'], ['ask1', 'ask0', 'ask2'], ['urn:a%20b', 'urn:a+b', 'urn:a b']]
KINDS = ['named', 'anonymous', 'class', 'simple', 'shared', 'class upper']


ELEMENT_NAMES = {
    'plain': lambda p, side, i, op: f'{p}{side}{i}',
    'request and response': lambda p, side, i, op: 'g' + 'o' * (i + 1) + ('' if side == 'In' else 'Response'),
    'response shorter': lambda p, side, i, op: 'g' + 'o' * (i + 1) + ('' if side == 'Out' else 'Request'),
    'case': lambda p, side, i, op: ('go' if side == 'In' else 'gO') + str(i),
    'operation': lambda p, side, i, op: 'to' + op + ('' if side == 'In' else 'Output'),
    'message': lambda p, side, i, op: f'{op}{side}put',
    'crossed': lambda p, side, i, op: f'{"Out" if side == "In" else "In"}put{i}',
    'digits': lambda p, side, i, op: f'n{1 if side == "In" else 11}{"1" * 2 * i}',
}


def attr(e, name):
    return e.get(name)


def build(ch, n):
    version = ch.choose('version', [11, 12])
    form = ch.dev('form', ['qualified', 'unqualified'])
    xns = ch.dev('schema namespace', ['urn:x', 'http://example.org/x?a=1&b=2', 'urn:w'])
    ns = ch.dev('namespace', ['urn:w', 'http://example.org/w/'])
    name = ch.dev('service name', ['Main', 'main_service', 'S1'])
    location = ch.dev('location', LOCATIONS)
    more = ch.dev('further types', ['none', 'simple', 'derived', 'group'])
    headers = ch.dev('headers', [False, True])
    use_wsa = ch.dev('WS-Addressing', [False, True])

    class Shared(xsd.ComplexType):
        v = xsd.Element(xsd.Int)

    simple, complex_, elements = [], [Shared], {'shared': xsd.Element(Shared)}
    if more == 'simple':
        simple.append(type('Limited', (xsd.Int,), {'maxInclusive': 5}))
    elif more == 'derived':
        complex_.append(type('Derived', (Shared,), {'w': xsd.Element(xsd.String), 'kids': xsd.ListElement(Shared, tagname='kid')}))
    named = ch.dev('element names', list(ELEMENT_NAMES))
    names = ch.dev('alike names', [None, *ALIKE]) if n > 1 else None
    actions = ch.dev('alike actions', [None, *ACTIONS_ALIKE]) if n > 1 else None
    methods, ops = [], []
    for i in range(n):
        op = names[i] if names and i < 3 else ch.dev(f'name {i}', NAMES) + (str(i) if i else '')
        action = actions[i] if actions and i < 3 else ch.dev(f'action {i}', ACTIONS).format(i)
        style = ch.dev(f'style {i}', ['document', 'rpc'])
        sides = []
        for side in ('In', 'Out'):
            kind = ch.dev(f'{side}put {i}', KINDS)
            if kind == 'shared':
                sides.append(('shared', 'element', 'shared'))
                continue
            if kind == 'simple':
                e = ELEMENT_NAMES[named]('s', side, i, op)
                elements[e] = xsd.Element(xsd.String)
                sides.append((e, 'element', e))
                continue
            cname = {'class upper': f'URL{side}{i}', 'anonymous': f'Any{side}{i}'}.get(kind, f'Type{side}{i}')
            cls = type(cname, (xsd.ComplexType,), {'num': xsd.Element(xsd.Int), 'at': xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)})
            if kind == 'anonymous':
                elements['any' + cname[3:]] = xsd.Element(cls())
                sides.append(('any' + cname[3:], 'element', 'any' + cname[3:]))
            else:
                complex_.append(cls)
                low = cname[0].lower() + cname[1:]
                if kind == 'named':
                    e = ELEMENT_NAMES[named]('e', side, i, op)
                    elements[e] = xsd.Element(cls)
                    sides.append((e, 'element', e))
                else:
                    sides.append((cls, 'type', low))
        ops.append((op, action, style, [s[1:] for s in sides]))
        kw = {}
        if headers:
            h = type(f'Head{i}', (xsd.ComplexType,), {'h': xsd.Element(xsd.String, namespace=xns)})
            kw = {'input_header': h, 'output_header': h}
        methods.append(xsd.Method(op, action, input=sides[0][0], output=sides[1][0], style=style, function=lambda r, x: x, **kw))
    if len({o[0] for o in ops}) < n:
        ch.skip()
    schema = xsd.Schema(xns, elementFormDefault=form, simpleTypes=simple, complexTypes=complex_, elements=elements)
    service = soap.Service(targetNamespace=ns, location=location, schemas=[schema], methods=methods, name=name,
                           version=soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12, use_wsa=use_wsa)
    return service, version, form, xns, ns, name, location, ops


def resolve(e, qname, what, ch):
    """An attribute of type QName, expanded."""
    ch.check(qname is not None, what)
    prefix, colon, local = qname.rpartition(':')
    ch.check((prefix or None) in e.nsmap, lambda: f'{what()}\nthe prefix of {qname} is not declared')
    return e.nsmap[prefix or None], local


def describes(ch, n):
    service, version, form, xns, ns, name, location, ops = build(ch, n)
    ch.step()
    root = py2wsdl.generate_wsdl(service)
    text = etree.tostring(root)
    root = etree.fromstring(text)
    what = lambda: f'{ops}\n{text.decode()}'
    W, S = f'{{{WSDL}}}', f'{{{SOAP11 if version == 11 else SOAP12}}}'
    other = SOAP12 if version == 11 else SOAP11
    ch.check(root.tag == W + 'definitions' and root.get('targetNamespace') == ns, what)
    ch.check(not any(e.tag.startswith(f'{{{other}}}') for e in root.iter(etree.Element)), lambda: f'{what()}\nwrong SOAP namespace')
    schemas = root.findall(f'{W}types/{{{XS}}}schema')
    ch.check(len(schemas) == 1 and schemas[0].get('targetNamespace') == xns, lambda: f'{what()}\nschemas')
    try:
        compiled = etree.XMLSchema(etree.fromstring(etree.tostring(schemas[0])))
    except etree.XMLSchemaParseError as e:
        ch.fail(f'{what()}\nthe schema is not valid: {e}')
    elements = {e.get('name') for e in schemas[0].findall(f'{{{XS}}}element')}
    types = {e.get('name') for e in schemas[0].findall(f'{{{XS}}}complexType')}
    ch.check(elements == set(service.schemas[0].elements), lambda: f'{what()}\nelements of the schema')

    def unique(tag):
        found = {}
        for e in root.findall(W + tag):
            ch.check(e.get('name') and e.get('name') not in found, lambda: f'{what()}\n{tag} {e.get("name")} is there twice')
            found[e.get('name')] = e
        return found

    messages, port_types, bindings, services = (unique(t) for t in ('message', 'portType', 'binding', 'service'))
    ch.check(set(services) == {name}, lambda: f'{what()}\nservices')
    ports = services[name].findall(W + 'port')
    ch.check(len(ports) == 1 and len(bindings) == len(port_types) == 1, lambda: f'{what()}\none port')
    addresses = ports[0].findall(S + 'address')
    ch.check([a.get('location') for a in addresses] == [location], lambda: f'{what()}\nlocation')
    where = resolve(ports[0], ports[0].get('binding'), what, ch)
    ch.check(where[0] == ns and where[1] in bindings, lambda: f'{what()}\nbinding of the port')
    binding = bindings[where[1]]
    soap_binding = binding.findall(S + 'binding')
    ch.check([(b.get('style') or 'document', b.get('transport')) for b in soap_binding] == [('document', HTTP)],
             lambda: f'{what()}\nSOAP binding')
    where = resolve(binding, binding.get('type'), what, ch)
    ch.check(where[0] == ns and where[1] in port_types, lambda: f'{what()}\nport type of the binding')
    found = [o.get('name') for o in port_types[where[1]].findall(W + 'operation')]
    ch.check(found == [o[0] for o in ops], lambda: f'{what()}\noperations of the port type: {found}')
    bound = binding.findall(W + 'operation')
    ch.check([b.get('name') for b in bound] == [o[0] for o in ops], lambda: f'{what()}\noperations of the binding')
    used = set()
    for b, p, (op, action, style, sides) in zip(bound, port_types[where[1]].findall(W + 'operation'), ops):
        so = b.findall(S + 'operation')
        ch.check([(s.get('soapAction'), s.get('style') or 'document') for s in so] == [(action, style)],
                 lambda: f'{what()}\naction or style of {op}')
        for tag, (kind, target) in zip(('input', 'output'), sides):
            bodies = b.findall(f'{W}{tag}/{S}body')
            ch.check([x.get('use') for x in bodies] == ['literal'], lambda: f'{what()}\n{tag} of {op} in the binding')
            m = p.findall(W + tag)
            ch.check(len(m) == 1, lambda: f'{what()}\n{tag} of {op}')
            where2 = resolve(m[0], m[0].get('message'), what, ch)
            ch.check(where2[0] == ns and where2[1] in messages, lambda: f'{what()}\nmessage of {op}')
            used.add(where2[1])
            parts = messages[where2[1]].findall(W + 'part')
            ch.check(len(parts) == 1 and parts[0].get('name') and (parts[0].get('element') is None) != (parts[0].get('type') is None)
                     and parts[0].get(kind), lambda: f'{what()}\nparts of the {tag} of {op}')
            ref = resolve(parts[0], parts[0].get(kind), what, ch)
            ch.check(ref == (xns, target) and target in (elements if kind == 'element' else types),
                     lambda: f'{what()}\n{tag} of {op} is {ref}, expected {target}')
    ch.check(used == set(messages), lambda: f'{what()}\nmessages {set(messages)}, used {used}')
    ch.step()
    again = etree.tostring(py2wsdl.generate_wsdl(service))
    ch.check(again == text, lambda: f'{what()}\nthe second time:\n{again.decode()}')
    ch.state(text)
    ch.note(f'{n} operations')
    trip(ch, text, version, form, xns, ns, name, location, ops, elements, what)


def trip(ch, text, version, form, xns, ns, name, location, ops, elements, what):
    if any(q in o[1] for o in ops for q in '"\''):
        return
    for target in ('client', 'server'):
        ch.step()
        code = wsdl2py.generate_code_from_wsdl(text, target)
        shown = lambda: f'{what()}\n{target}\n{code.decode()}'
        try:
            module = Module(code)
        except Exception as e:
            ch.fail(f'{shown()}\nthe code does not import: {e!r}')
        with module as mod:
            services = [v for v in vars(mod).values() if isinstance(v, soap.Service)]
            ch.check(len(services) == 1, lambda: f'{shown()}\nservices')
            s = services[0]
            ch.check(s.version is (soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12)
                     and s.targetNamespace == ns and [x.targetNamespace for x in s.schemas] == [xns]
                     and s.schemas[0].elementFormDefault == form and set(s.schemas[0].elements) == elements,
                     lambda: f'{shown()}\nservice')
            scheme, rest = location.split('://')
            host, slash, path = rest.partition('/')
            ch.check(s.location == '${scheme}://${host}' + slash + path, lambda: f'{shown()}\nlocation {s.location}')
            ch.check([m.operationName for m in s.methods] == [o[0] for o in ops], lambda: f'{shown()}\noperations')
            for m, (op, action, style, sides) in zip(s.methods, ops):
                ch.check((m.soapAction, m.style) == (action, style), lambda: f'{shown()}\n{op}: {m.soapAction} {m.style}')
                for given, (kind, ref) in ((m.input, sides[0]), (m.output, sides[1])):
                    if kind == 'element':
                        ch.check(given == ref and s.find_element_by_name(ref) is not None, lambda: f'{shown()}\n{op}: {given}')
                    else:
                        ch.check(isinstance(given, type) and given.__name__ == cap(ref), lambda: f'{shown()}\n{op}: {given}')


def harnesses(tier):
    full = tier == 'thorough'
    return [Harness(f'{n} operations', describes, {'n': n}, split=6, budget=(3 if n < 2 else 2 if n < 4 else 1) + (full and n < 12), timeout=60)
            for n in (0, 1, 2, 3, 6, 12)]
