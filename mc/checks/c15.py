"""C15: a handler only ever runs on a validated message, with the data that was sent."""
import itertools
import re

from lxml import etree

from ..explore import Harness
from ..lib import shapes, xsdval
from ..lib.kit import NS, Kit, answer, client_fault, envelope
from ..lib.messages import BODIES, XSI, Reader
from ..lib.models import BAD_TEXTS, NIL, XNIL, Built, F, M, ST, described, mutations, qname, read, tree, valid
from ..lib.soapkit import CONTENT_TYPES, environ
from soapfish import soap, xsd
from soapfish.core import SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher

TECHNIQUE = ('bounded exhaustive exploration of the real dispatcher: all small models x all their messages and single mutations, all '
             'header entries x strictness, all layouts of schemas; the handler log is compared with an independent validity checker '
             'and reader')
BOUNDS = {
    'quick': 'Models of 1..2 fields over 17 kinds x 4 layouts: all small objects and all single mutations of each body; all header '
             'entry sequences of length 0..2 over 15 entries x 8 bodies x strict flag x 3 places of the header class x versions; 20 attributes (of SOAP, XML Schema, none) on 22 '
             'header entries and 4 bodies and their children; 12 '
             'layouts of 1..3 schemas x both forms x all body and header entries, valid and invalid; two services of the same methods with different schemas x all sequences of 3 requests.',
    'thorough': 'As quick with models of 3 fields, two deviations, and header entry sequences of length 3.',
}
ASSUMPTIONS = ['a message whose body entry is valid but is not the input of the operation named by its action is left open',
               'repeated header entries of one kind are left open']

KINDS = shapes.PLAIN
MC = '{%s}mustUnderstand'


def request(version, action, content):
    headers = {'Content-Type': CONTENT_TYPES[version]}
    if action is not None:
        if version == 11:
            headers['SOAPAction'] = f'"{action}"'
        else:
            headers['Content-Type'] += f'; action="{action}"'
    return SOAPRequest(environ('POST', 'http://h/p', headers, content), content)


def interpret(m, n, ns, form):
    """The values a (valid) reference document holds, as read() describes them."""
    out = {}
    for f in m.fields:
        if f.kind == 'attr':
            text = n.attrs.get(f.tagname)
            out[f.name] = None if text is None else (f.type.xsd, xsdval.parse(f.type.xsd, text))
            continue
        kids = [value(f, c, ns, form) for c in n.children if c.tag == qname(ns, form, f.tagname, f.ns)]
        out[f.name] = kids if f.kind == 'list' else kids[0] if kids else None
    return out


def value(f, n, ns, form):
    if n.attrs.get(XNIL, '').strip() in ('true', '1'):
        return NIL
    if isinstance(f.type, ST):
        return (f.type.xsd, xsdval.parse(f.type.xsd, n.text or ''))
    return interpret(f.type, n, ns, form)


def same(a, b):
    """Are two descriptions equal? An empty string element may be read as absent."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    empty = lambda x: x is None or (isinstance(x, tuple) and x[1] == '' or x is NIL and False)
    if empty(a) or empty(b):
        return empty(a) and empty(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[0] == b[0] and xsdval.same(a[0], a[1], b[1])
    return a is b or a == b


def nilled_complex(n):
    """Does the document hold a nil element with attributes of its own?"""
    return any(XNIL in x.attrs and len(x.attrs) > 1 for x in n.nodes())


def bodies(ch, width, star):
    picked = [ch.choose(f'kind {i}', KINDS) for i in range(width)]
    how = ch.choose('layout', shapes.LAYOUTS)
    fields, alphabets = [], []
    for i, k in enumerate(picked):
        f, alphabet = shapes.field(k, shapes.NAMES[i])
        fields.append(f)
        alphabets.append(alphabet)
    form = ch.dev('form', ['qualified', 'unqualified'])
    version = ch.dev('version', [11, 12])
    action = ch.dev('action', [None, 'urn:do'])
    indicator = 'sequence'
    if how == 'flat':
        indicator = ch.dev('indicator', ['sequence', 'all', 'choice'])
        if indicator == 'all' and any(f.kind == 'list' for f in fields):
            ch.skip()
        if indicator == 'choice' and all(f.kind == 'attr' for f in fields):
            ch.skip()
    model = shapes.layout(how, fields)
    model.indicator = indicator
    result = M('Result', [F('elem', 'v', shapes.I)])
    built = Built([model, result], form=form, elements={'doc': model, 'result': result})
    calls = []

    def handler(request, obj):
        calls.append(read(model, obj))
        return built.object(result, {'v': 1})

    method = xsd.Method(operationName='do', soapAction='urn:do', input='doc', output='result', function=handler)
    v = soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12
    dispatcher = SOAPDispatcher(soap.Service('urn:s', 'http://h/p', [built.schema], [method], version=v))
    what = lambda: f'{model!r} {form} {version} {action}'
    seen = set()

    def post(doc, expected, name):
        text = doc.xml()
        if text in seen:
            return
        seen.add(text)
        ch.step()
        data = envelope(version, text).encode()
        del calls[:]
        got = answer(version, dispatcher.dispatch(request(version, action, data)))
        shown = lambda: f'{what()}\n{name}: {data.decode()}\nanswer {got} calls {calls}'
        if not expected:
            ch.check(not calls, lambda: f'{shown()}\nthe handler runs on an invalid body')
            ch.check(client_fault(version, got), lambda: f'{shown()}\nexpected a client fault')
            ch.note('refused')
            return
        ch.check(len(calls) == 1 and got[0] == 'result', lambda: f'{shown()}\nthe body is valid')
        if not nilled_complex(doc) and indicator != 'choice':
            want = interpret(model, doc, 'urn:m', form)
            ch.check(same(calls[0], want), lambda: f'{shown()}\nthe handler got {calls[0]}, sent was {want}')
        ch.note('delivered')

    combos = list(itertools.product(*alphabets))
    if star:  # only one field varies at a time
        last = tuple(a[-1] for a in alphabets)
        combos = [c for c in combos if sum(x is not y for x, y in zip(c, last)) <= 1]
    for combo in combos:
        values = {f.name: x for f, x in zip(fields, combo)}
        if indicator == 'choice' and len([f for f in fields if f.kind != 'attr' and values[f.name] not in (None, [])]) != 1:
            continue
        if how == 'wrapped':
            values = {'w0': values}
        ref = tree(model, values, '{urn:m}doc', 'urn:m', form)
        ok = valid(model, ref, 'urn:m', form)
        post(ref, ok, 'object')
        if ok:
            ch.check(same(calls[0] if calls else described(model, values), described(model, values)), lambda: f'{what()}\nsent {values}, got {calls}')
        for name, doc in mutations(ref, texts=['', 'x', '-1', '1 1'] if star else BAD_TEXTS):
            post(doc, doc.tag == ref.tag and valid(model, doc, 'urn:m', form), f'mutation {name}')
    ch.state((what(), indicator))


# entry: (text, valid, field it sets, value)
ENTRIES = {
    'note': ('<k:note>hello</k:note>', True, 'note', 'hello'),
    'note with markup': ('<k:note> a&lt;&amp;<![CDATA[<]]>\u20ac</k:note>', True, 'note', ' a<&<\u20ac'),
    'info': ('<k:info>%(o)sme%(m)s3%(c)s</k:info>', True, 'info', ('me', 3)),
    'info without level': ('<k:info>%(o)syou%(e)s</k:info>', True, 'info', ('you', None)),
    'count': ('<k:count>5</k:count>', True, 'count', 5),
    'count with blanks': ('<k:count> 100 </k:count>', True, 'count', 100),
    'unused element': ('<k:pong>%(n)s5%(d)s</k:pong>', True, None, None),
    'count too big': ('<k:count>101</k:count>', False, 'count', None),
    'info without who': ('<k:info/>', False, 'info', None),
    'info with attribute': ('<k:info x="y">%(o)syou%(e)s</k:info>', False, 'info', None),
    'note that must be understood': ('<k:note e:mustUnderstand="1">x</k:note>', False, 'note', None),
    'unknown': ('<k:unknown>x</k:unknown>', False, None, None),
    'other namespace': ('<o:note xmlns:o="urn:o">x</o:note>', False, None, None),
    'no namespace': ('<note>x</note>', False, None, None),
    'comment': ('<!-- c --><?p i?>', True, None, None),
}


def headers(ch, width):
    version = ch.choose('version', [11, 12])
    strict = ch.choose('strict', [True, False])
    declared = ch.choose('header class', ['method', 'service', 'none', 'both'])
    form = ch.dev('form', ['qualified', 'unqualified'])
    k = Kit(version, form, headers=declared in ('method', 'both'), strict_soap_header=strict)
    if declared == 'service':
        k.service.input_header = k.Head
    elif declared == 'both':  # the method's comes first
        class Less(xsd.ComplexType):
            note = xsd.Element(xsd.String, minOccurs=0, namespace=NS)
            count = xsd.Element(xsd.Int, minOccurs=0, namespace=NS)

        Less.SCHEMA = k.schema
        k.service.input_header = Less
        k.read_head = lambda h: None if h is None else Kit.read_head(k, h) if isinstance(h, k.Head) else ('less', h.note, h.count)
    reader = Reader(version, form, strict=strict)
    k.handler = lambda name, request, value: k.Pong(num=value.num)
    p = 'k:' if form == 'qualified' else ''
    parts = {'o': f'<{p}who>', 'm': f'</{p}who><{p}level>', 'c': f'</{p}level>', 'e': f'</{p}who>', 'n': f'<{p}num>', 'd': f'</{p}num>'}
    names = [None] + list(ENTRIES)
    for entries in itertools.chain([None], itertools.product(*[names] * width)):
        if entries is not None:
            if None in entries[:len([e for e in entries if e])]:
                continue  # the same as a shorter one
            entries = [e for e in entries if e]
        header = None if entries is None else ''.join(ENTRIES[e][0] % parts for e in entries)
        entries = entries or []
        fields = [ENTRIES[e][2] for e in entries if ENTRIES[e][2]]
        for body in (['ping', 'full', 'too big', 'unknown', 'empty', 'surplus'] if form == 'qualified' else ['unqualified child', 'ping']):
            for operation in ('ping', 'other'):
                text = BODIES[body].replace('k:ping', f'k:{operation}')
                data = envelope(version, text, header).encode()
                del k.calls[:]
                ch.step()
                got = answer(version, k.post(data))
                shown = lambda: f'{version} strict={strict} {declared} {form}\n{data.decode()}\nanswer {got}, calls {k.calls}'
                good = body in ('ping', 'full', 'unqualified child') and not (form == 'unqualified' and body == 'ping')
                verdict, why, entry, _ = reader.read(data)
                ch.check(verdict == ('valid' if good and (not strict or all(ENTRIES[e][1] for e in entries)) else 'client'),
                         lambda: f'{shown()}\nthe check is inconsistent: {verdict} {why}')
                if verdict == 'client':
                    ch.check(not k.calls and client_fault(version, got), lambda: f'{shown()}\nmust be refused: {why}')
                    ch.note('refused')
                    continue
                invalid = [e for e in entries if not ENTRIES[e][1] and ENTRIES[e][2] or e == 'no namespace']
                if invalid or len(set(fields)) < len(fields):
                    # Known entries with invalid content or without namespace need not be accepted in non-strict mode.
                    ch.check(len(k.calls) == 1 if got[0] == 'result' else not k.calls, shown)
                    ch.note('open')
                    continue
                ch.check(len(k.calls) == 1 and got[0] == 'result', lambda: f'{shown()}\nmust be accepted')
                expected = {'doPing': 'ping', 'doOther': 'other'}[k.calls[0][0]] == operation
                ch.check(expected, lambda: f'{shown()}\nwrong operation')
                ch.check(k.calls[0][1] == values(entry), lambda: f'{shown()}\nexpected data {values(entry)}')
                delivers = declared in ('service', 'both') or declared == 'method' and operation == 'ping'
                if not delivers or header is None:
                    ch.check(k.calls[0][2] is None, lambda: f'{shown()}\nno header expected')
                else:
                    want = {ENTRIES[e][2]: ENTRIES[e][3] for e in entries}
                    want = want.get('note'), want.get('info'), want.get('count')
                    if declared == 'both' and operation == 'other':
                        want = 'less', want[0], want[2]
                    ch.check(k.calls[0][2] == want, lambda: f'{shown()}\nexpected header {want}')
                ch.note('delivered')
        ch.state((version, strict, declared, form, entries, header is None))


MORE = {
    'info with two who': ('<k:info>%(o)sme%(e)s%(o)syou%(e)s</k:info>', False, 'info', None),
    'info in wrong order': ('<k:info>%(l)s3%(f)s%(o)sme%(e)s</k:info>', False, 'info', None),
    'info with unknown child': ('<k:info>%(o)sme%(e)s<k:x/></k:info>', False, 'info', None),
    'info with text': ('<k:info>x%(o)sme%(e)s</k:info>', False, 'info', None),
    'info with bad level': ('<k:info>%(o)sme%(m)sx%(c)s</k:info>', False, 'info', None),
    'count of nothing': ('<k:count/>', False, 'count', None),
    'count with child': ('<k:count><k:note>5</k:note></k:count>', False, 'count', None),
    'note with child': ('<k:note>x<k:note>y</k:note></k:note>', False, 'note', None),
}
ATTRIBUTES = ['e:mustUnderstand="0"', 'e:mustUnderstand="1"', 'e:mustUnderstand="true"', 'mustUnderstand="0"', 'e:actor="http://schemas.xmlsoap.org/soap/actor/next"',
              'e:role="http://www.w3.org/2003/05/soap-envelope/role/none"', 'e:relay="true"', 'e:encodingStyle="http://schemas.xmlsoap.org/soap/encoding/"',
              'xml:lang="en"', 'xml:space="preserve"', 'id="a"', 'k:id="a"', 'xmlns:o="urn:o" o:a="b"', f'xmlns:i="{XSI}" i:nil="true"', f'xmlns:i="{XSI}" i:nil="false"',
              f'xmlns:i="{XSI}" i:schemaLocation="urn:o o.xsd"', f'xmlns:i="{XSI}" i:type="k:Nothing"', 'xmlns:unused="urn:unused"',
              'href="#a"', 'soapAction="x"']


def attributed(ch):
    """Attributes, among them those of SOAP and XML Schema, on valid and invalid header and body entries."""
    version = ch.choose('version', [11, 12])
    strict = ch.choose('strict', [True, False])
    attribute = ch.choose('attribute', ATTRIBUTES)
    place = ch.choose('place', ['entry', 'child', 'body entry', 'body child'])
    form = ch.choose('form', ['qualified', 'unqualified'])
    second = ch.dev('second entry', [None, 'note', 'count too big', 'unknown'])
    k = Kit(version, form, strict_soap_header=strict)
    reader = Reader(version, form, strict=strict)
    k.handler = lambda name, request, value: k.Pong(num=value.num)
    p = 'k:' if form == 'qualified' else ''
    parts = {'o': f'<{p}who>', 'm': f'</{p}who><{p}level>', 'c': f'</{p}level>', 'e': f'</{p}who>', 'n': f'<{p}num>', 'd': f'</{p}num>', 'l': f'<{p}level>', 'f': f'</{p}level>'}
    every = {**ENTRIES, **MORE}
    for name, (entry, _, field, want) in every.items():
        if name == 'comment':
            continue
        for body in [f'<k:ping><{p}num>5</{p}num></k:ping>', f'<k:ping><{p}num>5</{p}num><{p}num>6</{p}num></k:ping>', f'<k:ping><{p}num>x</{p}num></k:ping>', '<k:ping/>']:
            header = entry % parts
            if place == 'entry':
                header = re.sub(r'^<([\w:]+)', rf'<\1 {attribute}', header)
            elif place == 'child':
                header = re.sub(r'><([\w:]+)', rf'><\1 {attribute}', header, count=1)
            elif place == 'body entry':
                body = body.replace('<k:ping', f'<k:ping {attribute}', 1)
            else:
                body = body.replace(f'<{p}num', f'<{p}num {attribute}', 1)
            header += '' if second is None else ENTRIES[second][0]
            data = envelope(version, body, header).encode()
            del k.calls[:]
            ch.step()
            got = answer(version, k.post(data))
            shown = lambda: f'{version} strict={strict} {form}\n{data.decode()}\nanswer {got}, calls {k.calls}'
            verdict, why, sent, heads = reader.read(data)
            if verdict == 'client':
                ch.check(not k.calls and client_fault(version, got), lambda: f'{shown()}\nmust be refused: {why}')
                ch.note('refused')
            elif all(reader.valid(h) for h in heads):
                ch.check(len(k.calls) == 1 and got[0] == 'result' and k.calls[0][0] == 'doPing' and k.calls[0][1] == values(sent), lambda: f'{shown()}\nmust be accepted')
                nil = 'nil="true"' in attribute
                if second is None and field and not nil:
                    ch.check(k.calls[0][2] == tuple(want if f == field else None for f in ('note', 'info', 'count')), lambda: f'{shown()}\nexpected {field}={want}')
                ch.note('delivered')
            else:
                ch.check(len(k.calls) == 1 if got[0] == 'result' else not k.calls, shown)
                ch.note('open')
    ch.state((version, strict, attribute, place, form, second))


def values(entry):
    """What the handler must get for a ping (as Kit.read describes it)."""
    kids = {}
    for e in entry.iterchildren(etree.Element):
        kids.setdefault(etree.QName(e).localname, []).append(e)
    when = kids.get('when')
    if when:
        when = 'nil' if when[0].get(XNIL) else {'2020-02-29T23:59:59.5+05:30': '2020-02-29T23:59:59.500000+05:30'}[when[0].text]
    return (int(kids['num'][0].text), kids['text'][0].text if 'text' in kids else None, [e.text for e in kids.get('item', [])], when,
            entry.get('at'))


LAYOUTS = ['one', 'two', 'three', 'import', 'import without location', 'nested import', 'nested import without location', 'include',
           'two of one namespace', 'diamond', 'two importing the third', 'import of includer']
SPACES = ['urn:a', 'urn:b', 'urn:c']


def layouts(ch):
    layout = ch.choose('layout', LAYOUTS)
    form = ch.choose('form', ['qualified', 'unqualified'])
    version = ch.choose('version', [11, 12])
    facet = ch.choose('facet', [5, 50])
    spaces = list(SPACES)
    if layout == 'include':
        spaces = ['urn:a', 'urn:a', 'urn:a']
    elif layout == 'two of one namespace':
        spaces[1] = 'urn:a'
    elif layout == 'import of includer':
        spaces[2] = 'urn:b'
    types, schemas = {}, {}

    def schema(i, imports=None, includes=None, location=None):
        small = type('Small' + 'abc'[i], (xsd.Int,), {'maxInclusive': facet + i})
        cls = type('Type' + 'abc'[i], (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, 'v': xsd.Element(small), 'w': xsd.Element(xsd.String, minOccurs=0)})
        types[i] = cls
        schemas[i] = xsd.Schema(spaces[i], elementFormDefault=form, simpleTypes=[small], complexTypes=[cls],
                                elements={'abc'[i]: xsd.Element(cls)}, imports=imports, includes=includes, location=location)
        return schemas[i]

    if layout == 'one':
        top = [schema(0)]
    elif layout in ('two', 'two of one namespace'):
        top = [schema(0), schema(1)]
    elif layout == 'three':
        top = [schema(i) for i in range(3)]
    elif layout.startswith('import'):
        inner = [schema(2, location='c.xsd')] if layout == 'import of includer' else None
        top = [schema(0, imports=[schema(1, includes=inner, location=None if 'without' in layout else 'b.xsd')])]
    elif layout.startswith('nested'):
        loc = (lambda x: None) if 'without' in layout else (lambda x: x)
        top = [schema(0, imports=[schema(1, imports=[schema(2, location=loc('c.xsd'))], location=loc('sub/b.xsd'))])]
    elif layout == 'include':
        top = [schema(0, includes=[schema(1, location='b.xsd', includes=[schema(2, location='c.xsd')])])]
    elif layout == 'diamond':
        c = schema(2, location='c.xsd')
        top = [schema(0, imports=[schema(1, imports=[c], location='b.xsd'), c])]
    else:
        c = schema(2, location='c.xsd')
        top = [schema(0, imports=[c]), schema(1, imports=[c])]
    present = sorted(schemas)
    Head = type('Head', (xsd.ComplexType,), {'abc'[i]: xsd.Element(types[i], minOccurs=0, namespace=spaces[i]) for i in present})
    calls = []

    def function(i):
        def f(request, x):
            h = request.soap_header
            calls.append((i, type(x) is types[i], x.v, x.w, h and [(getattr(h, 'abc'[j]) or 0) and (getattr(h, 'abc'[j]).v, getattr(h, 'abc'[j]).w) for j in present]))
            return SOAPResponse(types[i](v=x.v))
        return f

    methods = [xsd.Method(operationName=f'op{i}', soapAction=f'urn:op{i}', input='abc'[i], output='abc'[i], function=function(i), input_header=Head)
               for i in present]
    v = soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12
    try:
        dispatcher = SOAPDispatcher(soap.Service('urn:s', 'http://h/p', top, methods, version=v))
    except Exception as e:
        ch.fail(f'{layout} {form}: no dispatcher: {e!r}')

    def entry(i, kind):
        """(text, valid, values)"""
        p = 'q:' if form == 'qualified' else ''
        n = facet + i
        inner, ok, value = {
            'low': (f'<{p}v>0</{p}v>', True, (0, None)), 'high': (f'<{p}v>{n}</{p}v><{p}w>x</{p}w>', True, (n, 'x')),
            'too high': (f'<{p}v>{n + 1}</{p}v>', False, None), 'text': (f'<{p}v>x</{p}v>', False, None), 'none': ('', False, None),
            'surplus': (f'<{p}v>1</{p}v><{p}u/>', False, None), 'other form': (f'<{"" if p else "q:"}v>1</{"" if p else "q:"}v>', False, None),
            'order': (f'<{p}w>x</{p}w><{p}v>1</{p}v>', False, None),
        }[kind]
        return f'<q:{"abc"[i]} xmlns:q="{spaces[i]}">{inner}</q:{"abc"[i]}>', ok, value

    kinds = ['low', 'high', 'too high', 'text', 'none', 'surplus', 'other form', 'order']
    for i in present:
        for kind in kinds:
            body, ok, value_ = entry(i, kind)
            heads = [(None, True, None)] + [('',) + (True, [0] * len(present))]
            for j in present:
                for k in kinds if kind in ('low', 'too high') else ['high', 'text']:
                    t, o, w = entry(j, k)
                    heads.append((t, o, [w if x == j else 0 for x in present]))
            for head, hok, hvalue in heads:
                for action in (None, f'urn:op{i}'):
                    data = envelope(version, body, head).encode()
                    del calls[:]
                    ch.step()
                    got = answer(version, dispatcher.dispatch(request(version, action, data)))
                    shown = lambda: f'{layout} {form} {version}\n{data.decode()}\nanswer {got}, calls {calls}'
                    if ok and hok:
                        ch.check(got[0] == 'result' and calls == [(i, True) + value_ + (hvalue,)], lambda: f'{shown()}\nexpected {value_} {hvalue}')
                        ch.note('delivered')
                    else:
                        ch.check(not calls and client_fault(version, got), lambda: f'{shown()}\nmust be refused')
                        ch.note('refused')
                    ch.state((layout, form, version, data))


def shared(ch, depth):
    """Two services made of the same methods, whose schemas differ in what the elements are."""
    version = ch.choose('version', [11, 12])
    space = ch.choose('namespaces', ['same', 'different'])
    spaces = ['urn:a', 'urn:a' if space == 'same' else 'urn:b']
    calls, types, dispatchers = [], [], []
    methods = [xsd.Method(operationName=f'op{n}', soapAction=f'urn:{n}', input=n, output='out', function=(lambda n: lambda request, x: called(n, x))(n))
               for n in ('one', 'two')]

    class Out(xsd.ComplexType):
        n = xsd.Element(xsd.Int)

    def called(n, x):
        calls.append((n, [i for i, ts in enumerate(types) if type(x) is ts[n]], x.v))
        return Out(n=1)

    for i in range(2):
        value = [type('Small', (xsd.Int,), {'maxInclusive': 5}), xsd.String][i]
        A = type('A', (xsd.ComplexType,), {'v': xsd.Element(value)})
        B = type('B', (xsd.ComplexType,), {'v': xsd.Element(value)})
        types.append({'one': A, 'two': B} if not i else {'one': B, 'two': A})
        schema = xsd.Schema(spaces[i], elementFormDefault='qualified', simpleTypes=[] if i else [value], complexTypes=[A, B, Out],
                            elements={'one': xsd.Element(types[i]['one']), 'two': xsd.Element(types[i]['two']), 'out': xsd.Element(Out)})
        v = soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12
        dispatchers.append(SOAPDispatcher(soap.Service('urn:s', 'http://h/p', [schema], methods, version=v)))
    done = []
    for k in range(depth):
        i = ch.choose(f'service {k}', [0, 1])
        j = ch.choose(f'namespace {k}', [0, 1]) if space == 'different' else i
        n = ch.choose(f'element {k}', ['one', 'two'])
        text = ch.choose(f'value {k}', ['5', '6'])
        action = ch.choose(f'action {k}', [True, False]) if not k else True
        del calls[:]
        data = envelope(version, f'<q:{n} xmlns:q="{spaces[j]}"><q:v>{text}</q:v></q:{n}>').encode()
        ch.step()
        got = answer(version, dispatchers[i].dispatch(request(version, f'urn:{n}' if action else None, data)))
        done.append((i, j, n, text))
        shown = lambda: f'{version} {space} {done}: {data.decode()}\nanswer {got}, calls {calls}'
        if spaces[i] == spaces[j] and (i == 1 or text == '5'):
            ch.check(got[0] == 'result' and calls == [(n, [i], text if i else 5)], lambda: f'{shown()}\nmust be accepted')
            ch.note('delivered')
        else:
            ch.check(not calls and client_fault(version, got), lambda: f'{shown()}\nmust be refused')
            ch.note('refused')
    ch.state((version, space, done))


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness('single', bodies, {'width': 1, 'star': False}, split=2, budget=None if full else 2),
           Harness('pairs', bodies, {'width': 2, 'star': not full}, split=2, budget=2 if full else 1, timeout=300),
           Harness('headers', headers, {'width': 3 if full else 2}, split=3, timeout=600),
           Harness('attributes', attributed, split=3, budget=1),
           Harness('layouts', layouts, split=3),
           Harness('shared', shared, {'depth': 4 if full else 3}, split=4)]
    if full:
        out.append(Harness('triples', bodies, {'width': 3, 'star': True}, split=3, budget=1, timeout=600))
    return out
