"""C26: the contract a service publishes is the contract it enforces."""
import itertools
import os
import shutil
import tempfile
from html import escape
from urllib.parse import quote, urljoin, urlsplit

from lxml import etree

from ..explore import Harness
from ..lib import shapes
from ..lib.kit import answer, client_fault, envelope
from ..lib.models import BAD_TEXTS, Built, F, M, mutations, tree
from ..lib.soapkit import CONTENT_TYPES, SOAP11, SOAP12, WSDL, XS, environ
from soapfish import soap, xsd
from soapfish.core import SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher

TECHNIQUE = ('bounded exhaustive exploration of the real dispatcher: all small services are asked for their documents over GET; libxml2 compiles '
             'what they serve, and every small message and single mutation is posted and judged by the served schemas')
BOUNDS = {
    'quick': 'Models of 1..2 fields over 17 kinds x 4 layouts x all small objects and all their single mutations (one field varies at a time for pairs); '
             '26 simple types with facets x 4 ways to declare them x 44 texts as element, attribute and list item; 14 layouts of 1..4 schemas x forms '
             'x versions x 13 entries in body and header; services of 1..3 operations with 2 deviations in names, actions, elements, location and '
             'host, called by a client that knows only the served WSDL.',
    'thorough': 'As quick with full products for pairs, two deviations, and 3 deviations of the operations.',
}
ASSUMPTIONS = ['every schema another one refers to has a location', 'libxml2 decides XSD validity correctly']


def get(ch, dispatcher, url, what):
    """A document the service serves."""
    ch.step()
    url, _, query = url.partition('?')
    r = dispatcher.dispatch(SOAPRequest(environ('GET', f'{url}?{query}'), b''))
    ch.check(r.http_status_code == 200, lambda: f'{what()}\nGET {url}?{query}: {r.http_status_code} {r.http_content!r}')
    try:
        return etree.fromstring(r.http_content)
    except (etree.XMLSyntaxError, ValueError) as e:
        ch.fail(f'{what()}\nGET {url}?{query} is not well-formed: {e}\n{r.http_content!r}')


def published(ch, dispatcher, what, url='http://h/p'):
    """The WSDL a service serves, and all the schemas that can be fetched from there, compiled."""
    wsdl = get(ch, dispatcher, f'{url}?wsdl', what)
    home = tempfile.mkdtemp(prefix='mc-c26-')
    try:
        names, pending, texts = {}, [], []

        def write(name, schema):
            for e in schema:
                if e.tag in (f'{{{XS}}}import', f'{{{XS}}}include') and e.get('schemaLocation') is not None:
                    full = urljoin(f'{url}?wsdl', e.get('schemaLocation'))
                    if full not in names:
                        names[full] = f's{len(names)}.xsd'
                        pending.append(full)
                    e.set('schemaLocation', names[full])
            texts.append(etree.tostring(schema).decode())
            with open(os.path.join(home, name), 'wb') as f:
                f.write(etree.tostring(schema))

        tops = [etree.fromstring(etree.tostring(s)) for s in wsdl.findall(f'{{{WSDL}}}types/{{{XS}}}schema')]
        driver, spaces = f'<xs:schema xmlns:xs="{XS}">', {}
        for i, s in enumerate(tops):
            write(f't{i}.xsd', s)
            spaces.setdefault(s.get('targetNamespace'), []).append(f'<xs:include schemaLocation="t{i}.xsd"/>')
        for i, (namespace, parts) in enumerate(spaces.items()):  # a namespace can be imported only once
            driver += f'<xs:import namespace="{escape(namespace)}" schemaLocation="n{i}.xsd"/>'
            with open(os.path.join(home, f'n{i}.xsd'), 'w') as f:
                f.write(f'<xs:schema xmlns:xs="{XS}" targetNamespace="{escape(namespace)}">{"".join(parts)}</xs:schema>')
        while pending:
            full = pending.pop()
            write(names[full], get(ch, dispatcher, quote(full, safe="%=&/:;?+'()*!$,@~"), what))
        with open(os.path.join(home, 'driver.xsd'), 'w') as f:
            f.write(driver + '</xs:schema>')
        try:
            return wsdl, etree.XMLSchema(file=os.path.join(home, 'driver.xsd')), texts
        except etree.XMLSchemaParseError as e:
            ch.fail(f'{what()}\nthe served schemas do not compile: {e}\n' + '\n'.join(texts))
    finally:
        shutil.rmtree(home, ignore_errors=True)


def request(version, action, content, url='http://h/p'):
    headers = {'Content-Type': CONTENT_TYPES[version]}
    if action is not None:
        if version == 11:
            headers['SOAPAction'] = f'"{action}"'
        else:
            headers['Content-Type'] += f'; action="{action}"'
    return SOAPRequest(environ('POST', url, headers, content), content)


class World:
    """A service and what it publishes; every message is judged by that."""

    def __init__(self, ch, schemas, methods, version, what, strict=True):
        self.ch, self.version, self.what = ch, version, what
        self.calls, self.seen = [], set()
        v = soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12
        try:
            self.dispatcher = SOAPDispatcher(soap.Service('urn:s', 'http://h/p', schemas, methods, version=v), strict_soap_header=strict)
        except Exception as e:
            ch.fail(f'{what()}: no dispatcher: {e!r}')
        self.wsdl, self.schema, self.texts = published(ch, self.dispatcher, what)

    def verdict(self, text):
        return self.schema.validate(etree.fromstring(text))

    def post(self, body, header=None, action=None, expected=None):
        ch, version = self.ch, self.version
        if (body, header, action) in self.seen:
            return None
        self.seen.add((body, header, action))
        ch.step()
        ok = self.verdict(body)
        if header:
            ok = ok and all(self.verdict(h) for h in header)
        data = envelope(version, body, None if header is None else ''.join(header)).encode()
        del self.calls[:]
        try:
            got = answer(version, self.dispatcher.dispatch(request(version, action, data)))
        except Exception as e:
            ch.fail(f'{self.what()}\n{data.decode()}\nraised or answered badly: {e!r}')
        shown = lambda: f'{self.what()}\n{data.decode()}\nanswer {got}, calls {self.calls}\npublished:\n' + '\n'.join(self.texts)
        if ok:
            ch.check(len(self.calls) == 1 and got[0] == 'result', lambda: f'{shown()}\nvalid under the published schemas')
        else:
            ch.check(not self.calls and client_fault(version, got), lambda: f'{shown()}\ninvalid under the published schemas')
        ch.note('accepted' if ok else 'refused')
        return ok


def single(ch, width, star):
    picked = [ch.choose(f'kind {i}', shapes.PLAIN) for i in range(width)]
    how = ch.choose('layout', shapes.LAYOUTS)
    fields, alphabets = [], []
    for i, k in enumerate(picked):
        f, alphabet = shapes.field(k, shapes.NAMES[i])
        fields.append(f)
        alphabets.append(alphabet)
    form = ch.dev('form', ['qualified', 'unqualified'])
    version = ch.dev('version', [11, 12])
    indicator = 'sequence'
    if how == 'flat':
        indicator = ch.dev('indicator', ['sequence', 'all', 'choice'])
        if indicator == 'all' and any(f.kind == 'list' for f in fields):
            ch.skip()
        if indicator == 'choice' and all(f.kind == 'attr' for f in fields):
            ch.skip()
    model = shapes.layout(how, fields)
    model.indicator = indicator
    result = M('Result', [F('elem', 'v', shapes.I)])
    built = Built([model, result], form=form, elements={'doc': model, 'result': result})

    def handler(request, obj):
        world.calls.append(obj)
        return built.object(result, {'v': 1})

    method = xsd.Method(operationName='do', soapAction='urn:do', input='doc', output='result', function=handler)
    world = World(ch, [built.schema], [method], version, lambda: f'{model!r} {form} {version}')
    combos = list(itertools.product(*alphabets))
    if star:  # only one field varies at a time
        last = tuple(a[-1] for a in alphabets)
        if indicator != 'choice':
            combos = [c for c in combos if sum(x is not y for x, y in zip(c, last)) <= 1]
    accepted, tried = 0, 0
    for combo in combos:
        values = {f.name: x for f, x in zip(fields, combo)}
        if indicator == 'choice' and len([f for f in fields if f.kind != 'attr' and values[f.name] not in (None, [])]) != 1:
            continue
        if how == 'wrapped':
            values = {'w0': values}
        ref = tree(model, values, '{urn:m}doc', 'urn:m', form)
        accepted += bool(world.post(ref.xml()))
        tried += 1
        for name, doc in mutations(ref, texts=['', 'x', '-1', '1 1'] if star else BAD_TEXTS):
            if doc.tag == ref.tag:  # others are no input of the operation
                world.post(doc.xml())
    ch.check(accepted or not tried, lambda: f'{world.what()}\nno object of the model is valid under the published schemas\n' + '\n'.join(world.texts))
    ch.state(world.what())


TEXTS = ['', ' ', 'a', 'b', 'aa', 'ab', 'abc', 'abcd', ' a ', 'a b', 'a  b', 'A', 'x', '1', '2', '3', '4', '5', '9', '10', '11', '99', '100', '101', '-1', '-2', '0', '+3', '007', ' 4 ',
         '1.5', '2.5', '0.05', '10.5', '-0', '1e1', 'true', 'false', 'TRUE', '2011-10-09', '2011-13-09', '10:11:12', 'ab1', 'b-2']
FACETS = [
    ('String', {'enumeration': ['a', 'ab', ' a ']}), ('String', {'pattern': r'[a-c]{2,3}'}), ('String', {'pattern': r'a|ab'}), ('String', {'minLength': 2}),
    ('String', {'maxLength': 2}), ('String', {'length': 1}), ('String', {'minLength': 0, 'maxLength': 0}), ('String', {'minLength': 1, 'maxLength': 3, 'pattern': r'[^b]*'}),
    ('String', {'whiteSpace': 'collapse', 'enumeration': ['a', 'a b']}), ('String', {'whiteSpace': 'replace', 'maxLength': 3}), ('String', {'pattern': r'\w+-?\d'}),
    ('Int', {'minInclusive': 0}), ('Int', {'maxInclusive': 10}), ('Int', {'minExclusive': 1, 'maxExclusive': 10}), ('Int', {'totalDigits': 2}),
    ('Int', {'enumeration': [1, 10, 100]}), ('Int', {'pattern': r'\d{2}'}), ('Int', {'minInclusive': -1, 'maxInclusive': 0}), ('Decimal', {'minInclusive': 1, 'maxExclusive': 2.5}),
    ('Decimal', {'totalDigits': 2}), ('Decimal', {'enumeration': ['1.5', '10']}), ('UnsignedByte', {'minExclusive': 4}), ('Double', {'maxInclusive': 10}), ('Boolean', {}),
    ('Date', {}), ('Time', {}),
]
WAYS = ['in place', 'named', 'derived', 'attribute']


def facets(ch):
    base, facet = ch.choose('type', FACETS)
    way = ch.choose('declared', WAYS)
    form = ch.choose('form', ['qualified', 'unqualified'])
    place = ch.choose('place', ['element', 'attribute', 'list', 'root'])
    version = ch.dev('version', [11, 12])
    cls = getattr(xsd, base)
    if way != 'in place' and not facet and way != 'named':
        ch.skip()
    if way == 'in place':
        t, named = (cls(**facet) if facet else cls), []
    elif way == 'named':
        t = type('Own', (cls,), dict(facet))
        named = [t]
    elif way == 'attribute':
        k = type('Own', (cls,), dict(facet))
        t, named = k(), [k]
    else:
        first, rest = dict(list(facet.items())[:1]), dict(list(facet.items())[1:])
        up = type('Up', (cls,), first)
        t = type('Own', (up,), rest)
        named = [up, t]
    field = {'element': lambda: xsd.Element(t, minOccurs=0, nillable=True), 'attribute': lambda: xsd.Attribute(t, use=xsd.Use.OPTIONAL),
             'list': lambda: xsd.ListElement(t, tagname='f', minOccurs=0, maxOccurs=2), 'root': lambda: None}[place]()
    doc = type('Doc', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, 'f': field} if field else {'INDICATOR': xsd.Sequence})
    result = type('Result', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, 'v': xsd.Element(xsd.Int)})
    schema = xsd.Schema('urn:m', elementFormDefault=form, simpleTypes=named, complexTypes=[doc, result],
                        elements={'doc': xsd.Element(t if place == 'root' else doc), 'result': xsd.Element(result)})

    def handler(request, obj):
        world.calls.append(obj)
        return result(v=1)

    method = xsd.Method(operationName='do', soapAction='urn:do', input='doc', output='result', function=handler)
    world = World(ch, [schema], [method], version, lambda: f'{base} {facet} {way} {form} {place} {version}')
    p = 'm:' if form == 'qualified' else ''
    for text in TEXTS:
        inner, attrs = '', ''
        if place == 'attribute':
            attrs = f' f="{text}"'
        elif place == 'root':
            inner = text
        else:
            inner = f'<{p}f>{text}</{p}f>'
            if place == 'list':
                world.post(f'<m:doc xmlns:m="urn:m">{inner}{inner}</m:doc>')
                world.post(f'<m:doc xmlns:m="urn:m">{inner}{inner}{inner}</m:doc>')
        world.post(f'<m:doc xmlns:m="urn:m"{attrs}>{inner}</m:doc>')
    world.post('<m:doc xmlns:m="urn:m"/>')
    ch.state(world.what())


LAYOUTS = {  # top-level schemas, (from, to, kind)
    'one': ([0], []), 'two': ([0, 1], []), 'three': ([0, 1, 2], []), 'import': ([0], [(0, 1, 'import')]), 'two imports': ([0], [(0, 1, 'import'), (0, 2, 'import')]),
    'chain': ([0], [(0, 1, 'import'), (1, 2, 'import'), (2, 3, 'import')]), 'include': ([0], [(0, 1, 'include')]), 'includes': ([0], [(0, 1, 'include'), (1, 2, 'include'), (0, 3, 'include')]),
    'diamond': ([0], [(0, 1, 'import'), (0, 2, 'import'), (1, 3, 'import'), (2, 3, 'import')]), 'shared': ([0, 1], [(0, 2, 'import'), (1, 2, 'import')]),
    'two of one namespace': ([0, 1], [(0, 1, 'beside')]), 'three with two alike': ([0, 1, 2], [(0, 2, 'beside')]),
    'import of includer': ([0], [(0, 1, 'import'), (1, 2, 'include')]), 'cycle': ([0], [(0, 1, 'import'), (1, 2, 'import'), (2, 1, 'import'), (0, 3, 'import')]),
}
LOCATIONS = [['a.xsd', 'b.xsd', 'c.xsd', 'd.xsd'], ['x/a.xsd', 'x/y/b.xsd', '../c.xsd', 'http://o/d.xsd?e=1&f=2'], ['a b.xsd', 'a%20b.xsd', '\u20ac.xsd', 'a+b']]


def layouts(ch):
    layout = ch.choose('layout', list(LAYOUTS))
    form = ch.choose('form', ['qualified', 'unqualified', 'mixed'])
    version = ch.choose('version', [11, 12])
    located = ch.choose('locations', LOCATIONS)
    strict = ch.dev('strict', [True, False])
    tops, edges = LAYOUTS[layout]
    n = max([*tops, *(b for _, b, _ in edges)]) + 1
    spaces = [f'urn:n{i}' for i in range(n)]
    for a, b, kind in sorted(edges):
        if kind in ('include', 'beside'):
            spaces[b] = spaces[a]
    schemas, types = {}, {}
    for i in reversed(range(n)):
        f = form if form != 'mixed' else ['qualified', 'unqualified'][int(spaces[i][-1]) % 2]
        small = type(f'Small{i}', (xsd.Int,), {'minInclusive': i, 'maxInclusive': 5 + i})
        word = type(f'Word{i}', (xsd.String,), {'enumeration': ['w', f'w{i}']})
        cls = type(f'Type{i}', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, 'v': xsd.Element(small), 'w': xsd.ListElement(word, tagname='w', minOccurs=0, maxOccurs=1 + i),
                                                    'a': xsd.Attribute(word, use=xsd.Use.REQUIRED if i % 2 else xsd.Use.OPTIONAL)})
        types[i] = cls, f
        schemas[i] = xsd.Schema(spaces[i], elementFormDefault=f, simpleTypes=[small, word], complexTypes=[cls], elements={f'el{i}': xsd.Element(cls)},
                                location=None if i in tops else located[i],
                                imports=[schemas[b] for a, b, kind in edges if a == i and kind == 'import' and b in schemas],
                                includes=[schemas[b] for a, b, kind in edges if a == i and kind == 'include'])
    if layout == 'cycle':
        schemas[2].imports = [*schemas[2].imports, schemas[1]]
    Head = type('Head', (xsd.ComplexType,), {f'el{i}': xsd.Element(types[i][0], minOccurs=0, namespace=spaces[i]) for i in range(n)})

    def function(i):
        def f(request, x):
            world.calls.append((i, x.v))
            return SOAPResponse(types[i][0](v=x.v, a='w'))
        return f

    methods = [xsd.Method(operationName=f'op{i}', soapAction=f'urn:op{i}', input=f'el{i}', output=f'el{i}', function=function(i), input_header=Head) for i in range(n)]
    world = World(ch, [schemas[i] for i in tops], methods, version, lambda: f'{layout} {form} {version} {located} strict={strict}', strict)

    def entry(i, v, a, w, wrong=False, name=None):
        p = 'q:' if (types[i][1] == 'qualified') != wrong else ''
        attrs = '' if a is None else f' a="{a}"'
        return f'<q:{name or f"el{i}"} xmlns:q="{spaces[i]}"{attrs}><{p}v>{v}</{p}v>{"".join(f"<{p}w>{x}</{p}w>" for x in w)}</q:{name or f"el{i}"}>'

    accepted = [0] * n
    for i in range(n):
        entries = [entry(i, v, a, []) for v in (i, i - 1, 5 + i, 6 + i) for a in (None, 'w')]
        entries += [entry(i, i, f'w{i}', ['w'] * k) for k in (1, 1 + i, 2 + i)] + [entry(i, i, 'w', [], wrong=True), entry(i, i, f'w{i + 1}', ['x'])]
        heads = [entry(j, v, 'w', []) for j in range(n) for v in (j, 6 + j)] + [entry(0, 0, 'w', [], wrong=True)]
        for body in entries:
            if world.post(body):
                accepted[i] += 1
                ch.check(world.calls[0][0] == i, lambda: f'{world.what()}\n{body}\ncalls {world.calls}')
            world.post(body, action=f'urn:op{i}')
        for body in (entries[1], entries[-1]):
            for h in heads:
                if strict:
                    world.post(body, (h,))
                elif world.verdict(h):
                    world.post(body, (h,))
    ch.check(all(accepted), lambda: f'{world.what()}\naccepted {accepted}\n' + '\n'.join(world.texts))
    ch.state(world.what())


ACTIONS = ['urn:act{}', 'http://example.org/act{}?a=1&b=2', 'act{}', "it's {}", 'urn:act#x y{}', '', 'urn:\u00e4{}', 'http://example.org/{}/', '{}']
ALIKE = [['Ask', 'ask', 'ASK'], ['ask', 'askInput', 'askInputInput'], ['ask', 'askOutput', 'askResponse'], ['a.b', 'a-b', 'a_b'], ['op', 'op1', 'op11']]
ACTIONS_ALIKE = [['urn:a', 'urn:A', 'URN:A'], ['urn:a', 'urn:a/', 'urn:a//'], ['urn:a', 'urn:a#', 'urn:a#a'], ['urn:a/b', 'b', '/b'], ['ask1', 'ask0', 'ask2'], ['urn:a%20b', 'urn:a+b', 'urn:a b']]
NAMES = ['Ask{}', 'ask{}', 'to_ask{}', 'A-{}', 'ask\u00e4{}']
ELEMENTS = ['each', 'one input', 'one output', 'one of both', 'input as output']
ADDRESSES = ['http://h/p', '${scheme}://${host}/p', '${scheme}://${host}/a/b?x=1&y=2', 'https://fixed:8443/', '${scheme}://${host}']


def operations(ch, n):
    """A client that knows only the WSDL it has fetched calls each operation."""
    version = ch.choose('version', [11, 12])
    names = [ch.dev(f'name {i}', NAMES).format(i) for i in range(n)]
    actions = [ch.dev(f'action {i}', ACTIONS).format(i) for i in range(n)]
    if n > 1:
        names = (ch.dev('alike names', [None, *ALIKE]) or names)[:n]
        actions = (ch.dev('alike actions', [None, *ACTIONS_ALIKE]) or actions)[:n]
    elements = ch.dev('elements', ELEMENTS)
    address = ch.dev('address', ADDRESSES)
    url = ch.dev('fetched from', ['http://h/p', 'https://other.example:444/p', 'http://10.0.0.1/x'])
    form = ch.dev('form', ['qualified', 'unqualified'])
    xns = ch.dev('namespace', ['urn:x', 'urn:s', 'http://example.org/?a=1&b=2'])
    service_name = ch.dev('service', ['Main', 'main_service'])
    top = ch.dev('schemas', ['one', 'with import', 'two', 'second first', 'elements imported', 'element of another'])
    inputs = [0 if elements in ('one input', 'one of both') else i for i in range(n)]
    outputs = [0 if elements in ('one output', 'one of both') else i for i in range(n)]
    if any(a == '' and inputs.count(i) > 1 for a, i in zip(actions, inputs)) or len(set(actions)) < n and actions.count('') != n - len(set(actions) - {''}):
        ch.skip()  # such an operation cannot be named
    out = (lambda i: f'ask{i}') if elements == 'input as output' else (lambda i: f'answer{i}')
    where = {'two': lambda side, i: i % 2, 'second first': lambda side, i: 1, 'elements imported': lambda side, i: 1,
             'element of another': lambda side, i: int(side == 'answer')}.get(top, lambda side, i: 0)
    spaces = [xns, 'urn:second']
    Ask = [type('Ask', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, 'v': xsd.Element(xsd.Int), 's': xsd.Element(xsd.String, minOccurs=0)}) for _ in spaces]
    held = {f'{side}{i}': where(side, i) for side in ('ask', 'answer') for i in range(n)}
    elements_of = lambda j: {name: xsd.Element(Ask[j]) for name, k in held.items() if k == j} or {'unused': xsd.Element(xsd.Int)}
    second = xsd.Schema(spaces[1], elementFormDefault=form, complexTypes=[Ask[1]], elements=elements_of(1), location='more/second.xsd')
    imports = [second] if top in ('with import', 'elements imported', 'element of another') else []
    first = xsd.Schema(spaces[0], elementFormDefault=form, complexTypes=[Ask[0]], elements=elements_of(0), imports=imports)
    calls = []

    def function(i):
        def f(request, x):
            calls.append((i, x.v, x.s))
            return Ask[held[out(outputs[i])]](v=x.v + 1, s=x.s)
        return f

    methods = [xsd.Method(operationName=names[i], soapAction=actions[i], input=f'ask{inputs[i]}', output=out(outputs[i]), function=function(i)) for i in range(n)]
    v = soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12
    dispatcher = SOAPDispatcher(soap.Service('urn:s', address, [first] if imports or top == 'one' else [first, second], methods, version=v, name=service_name))
    what = lambda: f'{version} {names} {actions} {elements} {address} {url} {form} {xns} {top}'
    wsdl, schema, texts = published(ch, dispatcher, what, url)
    shown = lambda: f'{what()}\n{etree.tostring(wsdl).decode()}'
    W, S = f'{{{WSDL}}}', f'{{{SOAP11 if version == 11 else SOAP12}}}'

    def target(e, qname):
        prefix, _, local = qname.rpartition(':')
        ch.check((prefix or None) in e.nsmap, lambda: f'{shown()}\nprefix of {qname}')
        return f'{{{e.nsmap[prefix or None]}}}{local}'

    ns = wsdl.get('targetNamespace')
    find = lambda tag, qname: next((e for e in wsdl.findall(W + tag) if f'{{{ns}}}{e.get("name")}' == qname), None)
    port = wsdl.find(f'{W}service/{W}port')
    location = port.find(S + 'address').get('location')
    parts = urlsplit(url)
    ch.check(location == address.replace('${scheme}', parts.scheme).replace('${host}', parts.netloc), lambda: f'{shown()}\naddress {location}')
    binding = find('binding', target(port, port.get('binding')))
    port_type = find('portType', target(binding, binding.get('type')))
    called = []
    for operation in binding.findall(W + 'operation'):
        action = operation.find(S + 'operation').get('soapAction')
        abstract = next(o for o in port_type.findall(W + 'operation') if o.get('name') == operation.get('name'))
        element = {}
        for side in ('input', 'output'):
            e = abstract.find(W + side)
            part = find('message', target(e, e.get('message'))).find(W + 'part')
            element[side] = target(part, part.get('element'))
        i = names.index(operation.get('name'))
        p = f'{{{spaces[held[f"ask{inputs[i]}"]]}}}' if form == 'qualified' else ''
        body = etree.Element(element['input'])
        etree.SubElement(body, p + 'v').text = str(i + 5)
        etree.SubElement(body, p + 's').text = f's{i}'
        ch.check(schema.validate(body), lambda: f'{shown()}\nno message {etree.tostring(body)}')
        data = envelope(version, etree.tostring(body).decode()).encode()
        del calls[:]
        ch.step()
        encoded = action.encode().decode('latin-1') if action else action
        got = answer(version, dispatcher.dispatch(request(version, action or None, data, location.encode('ascii', 'ignore').decode())))
        ch.check(calls == [(i, i + 5, f's{i}')] and got[0] == 'result', lambda: f'{shown()}\n{data}\naction {encoded!r}\nanswer {got}, calls {calls}')
        ch.check(got[1].tag == element['output'] and schema.validate(got[1]) and [c.text for c in got[1]] == [str(i + 6), f's{i}'],
                 lambda: f'{shown()}\nanswer {etree.tostring(got[1])}')
        called.append(i)
    ch.check(sorted(called) == list(range(n)), lambda: f'{shown()}\noperations {called}')
    ch.note(f'{n} operations')
    ch.state(what())


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness('single', single, {'width': 1, 'star': False}, split=2, budget=None if full else 2),
           Harness('pairs', single, {'width': 2, 'star': not full}, split=2, budget=2 if full else 1, timeout=300),
           Harness('facets', facets, split=2, budget=1), Harness('layouts', layouts, split=3, budget=1)]
    out += [Harness(f'{n} operations', operations, {'n': n}, split=3, budget=3 if full else 2) for n in (1, 2, 3)]
    return out
