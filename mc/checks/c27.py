"""C27: fields that are not given hold their declared default, which is each object's own."""
import copy
import datetime as dt
import itertools
from decimal import Decimal

from lxml import etree

from ..explore import Harness
from ..lib import xsdval
from ..lib.kit import answer, client_fault, envelope
from ..lib.soapkit import CONTENT_TYPES, Wire, environ, serve
from soapfish import soap, xsd
from soapfish.core import SOAPRequest
from soapfish.soap_dispatch import SOAPDispatcher

TECHNIQUE = ('bounded exhaustive exploration of the real code: all types, defaults, kinds and places of fields x documents with and without them; all '
             'histories of operations on objects whose defaults are objects and lists, in lockstep with a reference of independent records')
BOUNDS = {
    'quick': '13 built-in types and 5 user types x 1..4 defaults (and 1..2 values the type refuses) x element/attribute x required/optional x 12 places '
             'x 6 ways to give the field or not; pairs of fields with defaults; the same through the dispatcher and the client stub; histories of depth 4 over '
             '3 objects and 14 operations on objects with defaults of complex type, and deep copies of them.',
    'thorough': 'As quick with two deviations and histories of depth 5.',
}
ASSUMPTIONS = ['defaults are given as values in Python, not as their text']
UTC = dt.timezone.utc


class Code(xsd.String):
    maxLength = 3


class Level(xsd.Int):
    minInclusive = 1
    maxInclusive = 9


class Colour(xsd.String):
    enumeration = ['red', 'green']


class Price(xsd.Decimal):
    maxExclusive = 100


class Near(xsd.Date):
    pass


# class, name of the type, values it accepts (in canonical form as a field holds them), values it refuses
TYPES = [
    (xsd.String, 'string', ['x', '', ' <&> ', 'ü€'], [5]), (xsd.Int, 'int', [0, 5, -7], ['x', 2 ** 31]), (xsd.Boolean, 'boolean', [True, False], ['perhaps', 'true']),
    (xsd.Decimal, 'decimal', [Decimal('1.50'), Decimal(0)], ['x']), (xsd.Double, 'double', [1.5, 0.0, float('inf')], ['x']), (xsd.Float, 'float', [2.5], []),
    (xsd.Date, 'date', [dt.date(2011, 2, 3)], [5]), (xsd.DateTime, 'dateTime', [dt.datetime(2011, 2, 3, 4, 5, 6, tzinfo=UTC), dt.datetime(1, 1, 1, 0, 0, 0, 7, tzinfo=UTC)], ['x']),
    (xsd.Time, 'time', [dt.time(0, 0, 0, tzinfo=UTC), dt.time(1, 2, 3, 4, tzinfo=UTC)], ['x']), (xsd.Long, 'long', [2 ** 62], []), (xsd.UnsignedByte, 'unsignedByte', [0, 255], [256]),
    (xsd.AnyURI, 'anyURI', ['a:b'], []), (xsd.Duration, 'duration', ['P1D'], []),
    (Code, 'string', ['abc', ''], ['abcd']), (Level, 'int', [1, 9], [0, 10]), (Colour, 'string', ['green'], ['blue']), (Price, 'decimal', [Decimal('9.99')], [100]),
    (Near, 'date', [dt.date(2020, 2, 29)], [7]),
    (xsd.Int(minInclusive=3), 'int', [3], [2]), (xsd.String(enumeration=['a', '']), 'string', ['a', ''], ['b']),
]
PLACES = ['flat', 'inherited', 'derived', 'group', 'nested', 'listed', 'attribute group', 'restricted', 'subclass', 'grandchild', 'redeclared', 'group of the base']


def make(place, name, field, kind, other):
    """(class to create, class with the field, way from the object to the holder, path of tags to the holder)."""
    attr = {name: field, 'other': xsd.Element(xsd.Int, minOccurs=0)} if other else {'other': xsd.Element(xsd.Int, minOccurs=0), name: field}
    if place in ('group', 'attribute group'):
        G = type('G', (xsd.Group if place == 'group' else xsd.AttributeGroup,), {name: field})
        C = type('C', (xsd.ComplexType,), {'g': xsd.Ref(G), 'other': xsd.Element(xsd.Int, minOccurs=0)})
        return C, G, lambda o: o.g, '<c>{}</c>'
    if place in ('restricted', 'subclass', 'grandchild'):
        B = type('B', (xsd.ComplexType,), attr)
        how = {'restricted': {'INHERITANCE': xsd.Inheritance.RESTRICTION}, 'subclass': {}, 'grandchild': {'INHERITANCE': xsd.Inheritance.EXTENSION}}[place]
        C = type('C', (B,), how)
        if place == 'grandchild':
            C = type('D', (C,), {**how, 'last': xsd.Element(xsd.String, minOccurs=0)})
        return C, C, lambda o: o, '<c>{}</c>'
    if place == 'redeclared':
        B = type('B', (xsd.ComplexType,), {name: xsd.Element(xsd.String, minOccurs=0, default='of the base') if kind == 'element'
                                           else xsd.Attribute(xsd.String, use='optional', default='of the base')})
        C = type('C', (B,), {'INHERITANCE': xsd.Inheritance.RESTRICTION, **attr})
        return C, C, lambda o: o, '<c>{}</c>'
    if place == 'group of the base':
        G = type('G', (xsd.Group if kind == 'element' else xsd.AttributeGroup,), {name: field})
        B = type('B', (xsd.ComplexType,), {'g': xsd.Ref(G), 'other': xsd.Element(xsd.Int, minOccurs=0)})
        C = type('C', (B,), {'INHERITANCE': xsd.Inheritance.EXTENSION, 'again': xsd.Element(B, minOccurs=0)})
        return C, G, lambda o: o.g, '<c>{}</c>'
    if place == 'inherited':
        B = type('B', (xsd.ComplexType,), attr)
        C = type('C', (B,), {'INHERITANCE': xsd.Inheritance.EXTENSION, 'last': xsd.Element(xsd.String, minOccurs=0)})
        return C, C, lambda o: o, '<c>{}</c>'
    if place == 'derived':
        B = type('B', (xsd.ComplexType,), {'first': xsd.Element(xsd.String, minOccurs=0)})
        C = type('C', (B,), {'INHERITANCE': xsd.Inheritance.EXTENSION, **attr})
        return C, C, lambda o: o, '<c>{}</c>'
    A = type('A', (xsd.ComplexType,), attr)
    if place == 'nested':
        C = type('C', (xsd.ComplexType,), {'n': xsd.Element(A, minOccurs=0)})
        return C, A, lambda o: o.n, '<c><n>{}</n></c>'
    if place == 'listed':
        C = type('C', (xsd.ComplexType,), {'ns': xsd.ListElement(A, tagname='n', minOccurs=0)})
        return C, A, lambda o: o.ns[-1], '<c><n/><n>{}</n></c>'
    return A, A, lambda o: o, '<c>{}</c>'


def held(what, name, got, want):
    """A field holds the value of the same type."""
    if want is None or want is xsd.NIL:
        return got is want
    try:
        return isinstance(got, bool) == isinstance(want, bool) and xsdval.same(name, xsdval.canon(name, got), xsdval.canon(name, want))
    except Exception:
        return False


def new(place, C, A, **values):
    """A new object whose field is or is not given."""
    if place == 'nested':
        return C(n=A(**values))
    if place == 'listed':
        return C(ns=[A(), A(**values)])
    if 'group' in place:
        c = C()
        for k, v in values.items():
            setattr(c.g, k, v)
        return c
    return C(**values)


def render(c):
    return c.xml('c', pretty_print=False)


def text_of(name, value):
    field = type('T', (xsd.ComplexType,), {'v': xsd.Element({'string': xsd.String, 'int': xsd.Int, 'long': xsd.Long, 'boolean': xsd.Boolean, 'decimal': xsd.Decimal, 'double': xsd.Double, 'float': xsd.Float,
                                                            'date': xsd.Date, 'dateTime': xsd.DateTime, 'time': xsd.Time, 'unsignedByte': xsd.UnsignedByte, 'anyURI': xsd.AnyURI,
                                                            'duration': xsd.Duration}[name])})
    return etree.fromstring(field(v=value).xml('c'))[0].text or ''


def values(ch):
    cls, name, good, bad = ch.choose('type', TYPES)
    kind = ch.choose('kind', ['element', 'attribute'])
    if kind == 'element':
        good = [v for v in good if v != '']  # the library reads an empty element as None
    default = ch.choose('default', [('good', v) for v in good] + [('bad', v) for v in bad])
    place = ch.choose('place', PLACES)
    required = ch.choose('required', [False, True])
    first = ch.dev('position', [True, False])
    tag = ch.dev('tag', [None, 'other-tag'])
    nillable = kind == 'element' and ch.dev('nillable', [False, True])
    if place == 'attribute group' and kind != 'attribute':
        ch.skip()
    if kind == 'attribute':
        field = xsd.Attribute(cls, use=xsd.Use.REQUIRED if required else xsd.Use.OPTIONAL, tagname=tag, default=default[1])
    else:
        field = xsd.Element(cls, minOccurs=int(required), tagname=tag, default=default[1], nillable=nillable)
    C, A, at, document = make(place, 'f', field, kind, first)
    what = f'{cls} {kind} default={default[1]!r} {place} required={required} {tag} nillable={nillable}'
    ch.step()

    def given(value, text=None):
        """The document with the field given as text, or without it."""
        if value is None:
            inner, attrs = '', ''
        elif value is xsd.NIL:
            inner, attrs = f'<{tag or "f"} xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:nil="true"/>', ''
        else:
            t = text.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
            inner, attrs = ('', f' {tag or "f"}="{t}"') if kind == 'attribute' else (f'<{tag or "f"}>{t}</{tag or "f"}>', '')
        d = document.format(inner)
        if attrs:
            d = d.replace('<n></n>', f'<n{attrs}></n>') if '<n>' in d else d.replace('<c>', f'<c{attrs}>')
        return d.encode()

    if default[0] == 'bad':
        for make_one, shown in ((lambda: new(place, C, A), 'new object'), (lambda: C.parsexml(given(None)), 'parsed object')):
            try:
                c = make_one()
                got = at(c).f
            except (ValueError, TypeError, AttributeError):
                ch.note('refused')
                continue
            ch.fail(f'{what}: a {shown} holds {got!r}, which its type refuses')
        return
    want = default[1]
    alternatives = [v for v in good if v != want or v is not want and isinstance(v, bool)]
    check = lambda shown, c, value: ch.check(held(what, name, at(c).f, value), lambda: f'{what}\n{shown}: holds {at(c).f!r}, expected {value!r}')
    texts = {id(v): text_of(name, v) for v in good}
    fresh = new(place, C, A)
    check('new object', fresh, want)
    absent = C.parsexml(given(None))
    check(f'parsed from {given(None)}', absent, want)
    explicit = new(place, C, A, f=want)
    check('given explicitly', explicit, want)
    ch.check(render(fresh) == render(explicit), lambda: f'{what}\nrendered {render(fresh)}, when given {render(explicit)}')
    if place != 'listed':
        ch.check(render(absent) == render(fresh), lambda: f'{what}\nrendered {render(absent)}, new object {render(fresh)}')
    again = C.parsexml(render(fresh))
    check(f'parsed from {render(fresh)}', again, want)
    root = etree.fromstring(render(fresh))
    spots = root.xpath(f'//@{tag or "f"}') if kind == 'attribute' else [e.text or '' for e in root.iter(tag or 'f')]
    ch.check(len(spots) == (2 if place == 'listed' else 1) and spots[-1] == texts[id(want)], lambda: f'{what}\nrendered {render(fresh)}')
    for v in alternatives:
        check(f'given {v!r}', new(place, C, A, f=v), v)
        check(f'parsed from {given(v, texts[id(v)])}', C.parsexml(given(v, texts[id(v)])), v)
        ch.step(2)
        for c in (new(place, C, A), C.parsexml(given(None)), new(place, C, A, f=want)):  # one object's value does not change others'
            at(c).f = v
            check('assigned', c, v)
            check('another new object', new(place, C, A), want)
            check('another parsed object', C.parsexml(given(None)), want)
    if nillable:
        check('nil', new(place, C, A, f=xsd.NIL), xsd.NIL)
        check('nil in the document', C.parsexml(given(xsd.NIL)), xsd.NIL)
    # None takes the default away.
    none = new(place, C, A, f=None)
    check('None', none, None)
    if kind == 'attribute' and required:
        try:
            ch.fail(f'{what}: rendered without a required attribute: {render(none)}')
        except ValueError:
            pass
    else:
        out = render(none)
        root = etree.fromstring(out)
        left = root.xpath(f'//@{tag or "f"}') if kind == 'attribute' else root.findall(f'.//{tag or "f"}')
        ch.check(len(left) == (1 if place == 'listed' else 0), lambda: f'{what}: rendered {out}')
    for c in (fresh, absent, explicit):
        check('at last', c, want)
    ch.note('held')
    ch.state((what,))


SIMPLE = [(xsd.String, 'string', 'x', 'y'), (xsd.Int, 'int', 4, 0), (xsd.Boolean, 'boolean', True, False), (xsd.Date, 'date', dt.date(2011, 2, 3), dt.date(2012, 1, 1)),
          (xsd.DateTime, 'dateTime', dt.datetime(2011, 2, 3, tzinfo=UTC), dt.datetime(2012, 2, 3, tzinfo=UTC)), (xsd.Decimal, 'decimal', Decimal('1.5'), Decimal(0))]


def messages(ch):
    """Requests and results that lack fields, through the dispatcher and through the client stub."""
    picked = [ch.choose(f'type {i}', SIMPLE) for i in range(2)]
    kinds = [ch.choose(f'kind {i}', ['element', 'attribute']) for i in range(2)]
    version = ch.choose('version', [11, 12])
    form = ch.choose('form', ['qualified', 'unqualified'])
    via = ch.choose('via', ['dispatcher', 'stub'])
    give = ch.choose('given', list(itertools.product([False, True], repeat=2)))
    header = ch.dev('header', [False, True])

    def fields():
        return {f'f{i}': xsd.Element(t[0], minOccurs=0, default=t[2]) if k == 'element' else xsd.Attribute(t[0], use=xsd.Use.OPTIONAL, default=t[2])
                for i, (t, k) in enumerate(zip(picked, kinds))}

    Ask = type('Ask', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, **fields()})
    Answer = type('Answer', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, **fields()})
    Mark = type('Mark', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, **fields()})
    Head = type('Head', (xsd.ComplexType,), {'mark': xsd.Element(Mark, minOccurs=0, namespace='urn:m')})
    schema = xsd.Schema('urn:m', elementFormDefault=form, complexTypes=[Ask, Answer, Mark],
                        elements={'ask': xsd.Element(Ask), 'answer': xsd.Element(Answer), 'mark': xsd.Element(Mark)})
    Head.SCHEMA = schema
    log = []
    read = lambda x: [x.f0, x.f1]
    want = [t[3] if g else t[2] for t, g in zip(picked, give)]

    def function(request, x):
        log.append((read(x), read(request.soap_header.mark) if header else None))
        return Answer(**{f'f{i}': t[3] for i, (t, g) in enumerate(zip(picked, give)) if g})

    method = xsd.Method('op', 'urn:op', input='ask', output='answer', function=function, input_header=Head)
    v = soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12
    service = soap.Service('urn:s', 'http://h/p', [schema], [method], version=v)
    dispatcher = SOAPDispatcher(service)
    what = f'{[(t[1], k, g) for t, k, g in zip(picked, kinds, give)]} {version} {form} {via} header={header}'
    same = lambda got, want: all(held(what, t[1], g, w) for t, g, w in zip(picked, got, want))
    p = 'm:' if form == 'qualified' else ''

    def entry(name):
        attrs = ''.join(f' f{i}="{text_of(t[1], t[3])}"' for i, (t, k, g) in enumerate(zip(picked, kinds, give)) if g and k == 'attribute')
        inner = ''.join(f'<{p}f{i}>{text_of(t[1], t[3])}</{p}f{i}>' for i, (t, k, g) in enumerate(zip(picked, kinds, give)) if g and k == 'element')
        return f'<m:{name} xmlns:m="urn:m"{attrs}>{inner}</m:{name}>'

    ch.step()
    if via == 'dispatcher':
        headers = {'Content-Type': CONTENT_TYPES[version]}
        content = envelope(version, entry('ask'), entry('mark') if header else None).encode()
        got = answer(version, dispatcher.dispatch(SOAPRequest(environ('POST', 'http://h/p', headers, content), content)))
        ch.check(got[0] == 'result' and len(log) == 1, lambda: f'{what}\n{content}\nanswer {got}')
        q = '{urn:m}' if form == 'qualified' else ''
        for i, (t, k) in enumerate(zip(picked, kinds)):
            text = got[1].get(f'f{i}') if k == 'attribute' else got[1].findtext(f'{q}f{i}')
            ch.check(text == text_of(t[1], want[i]), lambda: f'{what}\nfield {i} of the answer is {text!r}')
    else:
        class Stub(soap.Stub):
            SERVICE = service

            def op(self, x, header=None):
                return self.call('op', x, header=header)
        with Wire({'http://h/p': serve(dispatcher)}):
            kw = {f'f{i}': t[3] for i, (t, g) in enumerate(zip(picked, give)) if g}
            result = Stub().op(Ask(**kw), header=Head(mark=Mark(**kw)) if header else None)
        result = getattr(result, 'soap_body', result)
        ch.check(isinstance(result, Answer) and same(read(result), want), lambda: f'{what}\nresult {result}')
    ch.check(len(log) == 1 and same(log[0][0], want) and (not header or same(log[0][1], want)), lambda: f'{what}\nthe handler got {log}, expected {want}')
    ch.note(via)


# --- Objects as defaults, and copies -----------------------------------------
def classes():
    class Leaf(xsd.ComplexType):
        v = xsd.Element(xsd.String, minOccurs=0, nillable=True)
        ns = xsd.ListElement(xsd.Int, tagname='n', minOccurs=0, nillable=True)

    class Mid(xsd.ComplexType):
        leaf = xsd.Element(Leaf, minOccurs=0, default=Leaf(v='inner', ns=[9]))

    class Grp(xsd.Group):
        g = xsd.Element(Leaf, minOccurs=0, default=Leaf(v='group'))

    class Doc(xsd.ComplexType):
        leaf = xsd.Element(Leaf, minOccurs=0, default=Leaf(v='given', ns=[1, xsd.NIL]))
        mid = xsd.Element(Mid, minOccurs=0, default=Mid(leaf=Leaf(v=xsd.NIL)))
        grp = xsd.Ref(Grp)
        kids = xsd.ListElement(Leaf, tagname='kid', minOccurs=0)
        a = xsd.Attribute(xsd.Date, use='optional', default=dt.date(2011, 2, 3))

    return Leaf, Mid, Doc


def leaf(v=None, ns=()):
    return {'v': v, 'ns': list(ns)}


def fresh():
    return {'leaf': leaf('given', [1, 'nil']), 'mid': {'leaf': leaf('nil')}, 'grp': {'g': leaf('group')}, 'kids': [], 'a': dt.date(2011, 2, 3)}


def reading(o):
    nil = lambda x: 'nil' if x is xsd.NIL else x
    l = lambda x: None if x is None else {'v': nil(x.v), 'ns': [nil(n) for n in x.ns]}
    return {'leaf': l(o.leaf), 'mid': None if o.mid is None else {'leaf': l(o.mid.leaf)}, 'grp': {'g': l(o.grp.g)}, 'kids': [l(k) for k in o.kids],
            'a': None if o.a is None else dt.date(o.a.year, o.a.month, o.a.day)}


def rendering(r):
    """The document of an object in the reference."""
    e = etree.Element('d')

    def put(parent, tag, x):
        if x is None:
            return
        k = etree.SubElement(parent, tag)
        if x['v'] is not None:
            w = etree.SubElement(k, 'v')
            if x['v'] == 'nil':
                w.set('{http://www.w3.org/2001/XMLSchema-instance}nil', 'true')
            else:
                w.text = x['v']
        for n in x['ns']:
            w = etree.SubElement(k, 'n')
            if n == 'nil':
                w.set('{http://www.w3.org/2001/XMLSchema-instance}nil', 'true')
            else:
                w.text = str(n)

    put(e, 'leaf', r['leaf'])
    if r['mid'] is not None:
        put(etree.SubElement(e, 'mid'), 'leaf', r['mid']['leaf'])
    put(e, 'g', r['grp']['g'])
    for k in r['kids']:
        put(e, 'kid', k)
    if r['a'] is not None:
        e.set('a', r['a'].isoformat())
    return etree.tostring(e, method='c14n')


EMPTY = b'<d/>'
PART = b'<d><leaf><v>read</v></leaf><mid/></d>'
OPS = ['new', 'parse empty', 'parse part', 'edit leaf', 'edit list', 'nil leaf value', 'edit mid', 'edit group', 'replace leaf', 'drop leaf', 'drop attribute', 'add kid', 'copy', 'copy leaf', 'render']


def histories(ch, depth):
    """Operations on objects with objects as defaults; afterwards every object is read back."""
    Leaf, Mid, Doc = classes()
    objects, refs, done = [Doc()], [fresh()], []
    for k in range(depth):
        op = ch.choose(f'op {k}', OPS)
        i = ch.choose(f'object {k}', range(len(objects))) if op not in ('new', 'parse empty', 'parse part') else None
        ch.step()
        done.append((op, i))
        o, r = (objects[i], refs[i]) if i is not None else (None, None)
        if op == 'new':
            objects.append(Doc())
            refs.append(fresh())
        elif op == 'parse empty':
            objects.append(Doc.parsexml(EMPTY))
            refs.append(fresh())
        elif op == 'parse part':
            objects.append(Doc.parsexml(PART))
            refs.append({**fresh(), 'leaf': leaf('read'), 'mid': {'leaf': leaf('inner', [9])}})
        elif op == 'edit leaf':
            if r['leaf'] is None:
                ch.skip()
            o.leaf.v = r['leaf']['v'] = f'edited {k}'
        elif op == 'edit list':
            if r['leaf'] is None:
                ch.skip()
            o.leaf.ns.append(k)
            r['leaf']['ns'].append(k)
        elif op == 'nil leaf value':
            if r['leaf'] is None:
                ch.skip()
            o.leaf.v, r['leaf']['v'] = xsd.NIL, 'nil'
        elif op == 'edit mid':
            o.mid.leaf.ns.append(k)
            r['mid']['leaf']['ns'].append(k)
        elif op == 'edit group':
            o.grp.g.v = r['grp']['g']['v'] = f'g{k}'
        elif op == 'replace leaf':
            o.leaf, r['leaf'] = Leaf(v='own'), leaf('own')
        elif op == 'drop leaf':
            o.leaf = r['leaf'] = None
        elif op == 'drop attribute':
            o.a = r['a'] = None
        elif op == 'add kid':
            o.kids.append(Leaf(v=f'k{k}', ns=[xsd.NIL]))
            r['kids'].append(leaf(f'k{k}', ['nil']))
        elif op == 'copy':
            objects.append(copy.deepcopy(o))
            refs.append(copy.deepcopy(r))
        elif op == 'copy leaf':
            o.leaf, r['leaf'] = copy.deepcopy(o.grp.g), copy.deepcopy(r['grp']['g'])
        elif op == 'render':
            o.xml('d')
    for n, (o, r) in enumerate(zip([*objects, Doc(), Doc.parsexml(EMPTY)], [*refs, fresh(), fresh()])):
        try:
            got = reading(o)
        except Exception as e:
            ch.fail(f'{done}: object {n} of {len(objects)}: {e!r}')
        ch.check(got == r, lambda: f'{done}\nobject {n} of {len(objects)} (then a new and a parsed one)\nreads {got}\nexpected {r}')
        try:
            text = etree.tostring(etree.fromstring(o.xml('d', pretty_print=False)), method='c14n')
        except Exception as e:
            ch.fail(f'{done}: object {n} cannot be rendered: {e!r}')
        ch.check(canon(text) == canon(rendering(r)), lambda: f'{done}\nobject {n} of {len(objects)} renders {text}\nexpected {rendering(r)}')
    ch.note('histories')
    ch.state(repr(refs))


def canon(text):
    """Elements without their prefixes of declared but equal namespaces."""
    def walk(e):
        return e.tag, sorted(e.attrib.items()), e.text or '', [walk(x) for x in e]
    return walk(etree.fromstring(text))


def harnesses(tier):
    full = tier == 'thorough'
    return [Harness('values', values, split=3, budget=2 if full else 1), Harness('messages', messages, split=3, budget=1),
            Harness('histories', histories, {'depth': 5 if full else 4}, split=2)]
