"""C08: code generated from an XSD behaves like the XSD."""
import copy
import itertools

from lxml import etree

from ..explore import Harness
from ..lib import xsdkinds as xk
from ..lib.models import Built, F, M, NIL, ST, described, diff, read, tree, valid
from ..lib.xsdtext import Module, Style, XsdText, bind, cap
from soapfish import xsd, xsd2py

TECHNIQUE = ('bounded exhaustive exploration: all small XSDs of the subset x ways to write them x all their small instances; '
             'the generated module is executed in lockstep with an independent reader and libxml2')
BOUNDS = {
    'quick': 'All XSDs of 1..2 declarations over 47 kinds (types, facets, occurrence, content models, recursion, keywords) with '
             'one deviation in layout (6), element form, prefixes, order of declarations, root type, spelling of defaults and '
             'case of type names; all instances over the value alphabets (one declaration varying at a time for pairs) and all '
             'unaccepted values.'
             ' XSDs of 4, 7 and 12 declarations: all rotations with three strides. Every created object of the required elements; fields '
             'and types of 80 reserved names.',
    'thorough': 'As quick with two deviations and full products of values; 3 declarations without deviation.',
}
ASSUMPTIONS = ['the supported subset is the one listed in the property (see DESIGN.md for what is outside)']

STYLES = [('xs', 'tns'), ('', 'tns'), ('xsd', ''), ('s', 'x'), ('s', 'xsd'), ('xsd', 'xs')]


class Case:
    """One root type of the XSD: declarations in a layout."""

    def __init__(self, how, kinds, n):
        self.how, self.element = how, 'doc' + n
        self.fields = [make(['z0', 'Z0', 'b2', 'Z00'][i] if i < 4 else 'kxcwdveuftgs'[i - 4] + str(i)) for i, (label, make, values, bad) in enumerate(kinds)]
        self.alphabets = [k[2] for k in kinds]
        self.bads = [k[3] for k in kinds]
        self.model = xk.layout(how, self.fields, n)
        fields = self.fields
        self.possible = (len({f.name for f in fields}) == len(fields)
                         and not (how == 'inherit' and len(fields) == 1)
                         and not (how == 'flat-all' and any(f.kind == 'list' for f in fields))
                         and not (how == 'flat-choice' and all(f.kind not in ('elem', 'list') for f in fields)))


def many(ch, kinds, widths):
    """Many declarations of different kinds."""
    n = ch.choose('declarations', widths)
    start, stride = ch.choose('first', range(len(kinds))), ch.choose('stride', [1, 6, 11])
    picks = [kinds[(start + i * stride) % len(kinds)] for i in range(n)]
    return picks[:-1], picks[-1:]


def build(ch, width, kinds=xk.XKINDS, widths=None):
    """An XSD with one root element for every kind of the last declaration: (cases, form, style, XsdText)"""
    if widths:
        first, kinds = many(ch, kinds, widths)
    else:
        first = [ch.choose(f'kind {i}', xk.XKINDS) for i in range(width - 1)]
    how = ch.dev('layout', xk.LAYOUTS)
    form = ch.dev('form', ['qualified', 'unqualified', None])
    xs, tns = ch.dev('prefixes', STYLES)
    order = ch.dev('order', ['natural', 'reversed', 'elements first'])
    root = ch.dev('root', ['named', 'anonymous'])
    explicit = ch.dev('explicit', [False, True])
    case = ch.dev('case', ['upper', 'lower'])
    cases = [Case(how, first + [k], str(n)) for n, k in enumerate(kinds)]
    cases = [c for c in cases if c.possible]
    if not cases:
        ch.skip()
    style = Style(xs, tns, order, root, explicit, case)
    text = XsdText({c.element: c.model for c in cases}, form=form, style=style)
    return cases, form or 'unqualified', style, text


def instances(how, model, fields, alphabets, star):
    combos = list(itertools.product(*alphabets))
    if star:
        combos = [c for c in combos if sum(x is not a[-1] for x, a in zip(c, alphabets)) <= 1]
    for combo in combos:
        values = {f.name: v for f, v in zip(fields, combo)}
        if how == 'flat-choice' and len([f for f in fields if f.kind in ('elem', 'list') and values[f.name] not in (None, [])]) != 1:
            continue
        yield {'w0': values} if how == 'wrapped' else values


def generate(ch, text, what):
    ch.step()
    code = xsd2py.generate_code_from_xsd(text.encode())
    try:
        return Module(code), code
    except Exception as e:
        ch.fail(f'{what()}\nthe generated code does not import: {e!r}\n{code.decode()}')


def behaves(ch, width, star, kinds=xk.XKINDS, widths=None):
    cases, form, style, x = build(ch, width, kinds, widths)
    try:
        xs = etree.XMLSchema(etree.fromstring(x.text))
    except etree.XMLSchemaParseError as e:
        raise AssertionError(f'the check wrote an invalid XSD: {e}\n{x.text}')
    ns = 'urn:m'
    module, code = generate(ch, x.text, lambda: f'{style!r} form={form}\n{x.text}')
    with module as mod:
        schemas = module.schemas()
        ch.check(len(schemas) == 1 and schemas[0].targetNamespace == ns and schemas[0].elementFormDefault == form
                 and {c.element for c in cases} == set(schemas[0].elements),
                 lambda: f'{x.text}\nSchema object\n{code.decode()}')
        for case in cases:
            one(ch, case, form, style, x, xs, mod, code, star)


def one(ch, case, form, style, x, xs, mod, code, star):
    how, model, fields, alphabets, bads = case.how, case.model, case.fields, case.alphabets, case.bads
    tag, ns = case.element, 'urn:m'
    what = lambda: f'{model!r}\n{style!r} form={form}\n{XsdText({tag: model}, form=form, style=style).text}'
    shown = lambda: f'class {cap(model.name if style.root == "named" else tag)} in\n{code.decode()}'
    built = Built([], schema=False)
    try:
        bind(built, model, mod, model.name if style.root == 'named' else tag)
    except AttributeError as e:
        ch.fail(f'{what()}\na type has no class: {e}\n{shown()}')
    cls = built.classes[id(model)]
    for values in instances(how, model, fields, alphabets, star):
        ref = tree(model, values, f'{{{ns}}}{tag}', ns, form)
        e = ref.etree()
        if not xs.validate(e):
            if not valid(model, ref, ns, form):
                continue
            raise AssertionError(f'the check wrote an invalid instance: {ref!r} {xs.error_log.last_error}\n{x.text}')
        ch.step(3)
        data = etree.tostring(e)
        obj = cls.parsexml(data)
        want, got = described(model, values), read(model, obj)
        ch.check(got == want, lambda: f'{what()}\n{data} is read as\n{got}\nexpected\n{want}\n{shown()}')
        out = obj.xml(tag, namespace=ns, elementFormDefault=form)
        d = diff(ref, etree.fromstring(out))
        ch.check(d is None, lambda: f'{what()}\n{data}\nis written back as\n{out}\n{d}\n{shown()}')
        # An object made from the values renders the same document.
        out = built.object(model, values, 'assign').xml(tag, namespace=ns, elementFormDefault=form)
        d = diff(ref, etree.fromstring(out))
        ch.check(d is None, lambda: f'{what()}\n{values} is written as\n{out}\n{d}\n{shown()}')
        ch.state((repr(model), form, data))
        ch.note('instance')
    creates(ch, built, model, how, fields, alphabets, what, shown)
    rejects(ch, built, model, how, fields, alphabets, bads, what, shown)
    limits(ch, built, model, how, fields, alphabets, what, shown, form)


def creates(ch, built, model, how, fields, alphabets, what, shown):
    """The create method takes the required elements."""
    if how not in ('flat', 'inherit', 'wrapped'):
        return
    target = model.own[0].type if how == 'wrapped' else model
    own = [(f, a[-1]) for f, a in zip(fields, alphabets) if f in target.own]
    given = [(f, v) for f, v in own if f.kind in ('elem', 'list') and f.min in (None, 1)]
    cls = built.classes[id(target)]
    for by in ('position', 'name'):
        ch.step()
        passed = []
        for f, v in given:
            holder = built.object(target, {f.name: v})  # the value as Python object
            passed.append(getattr(holder, f.name))
        obj = cls.create(*passed) if by == 'position' else cls.create(**{f.name: v for (f, _), v in zip(given, passed)})
        want, got = described(target, {f.name: v for f, v in given}), read(target, obj)
        ch.check(got == want and type(obj) is cls, lambda: f'{what()}\ncreated from {passed}: {got}\nexpected {want}\n{shown()}')
    for n in (len(given) - 1, len(given) + 1):
        if n < 0:
            continue
        try:
            cls.create(*(passed + [None])[:n])
        except TypeError:
            continue
        ch.fail(f'{what()}\ncreated from {n} values of {len(given)}\n{shown()}')
    ch.note('created')


def rejects(ch, built, model, how, fields, alphabets, bads, what, shown):
    target = model.own[0].type if how == 'wrapped' else model
    ch.note('types')
    cls = built.classes[id(target)]
    for f, bad in zip(fields, bads):
        if f.kind == 'agroup':
            continue
        for v in bad:
            ch.step()
            obj = cls()
            try:
                setattr(obj, f.name, v)
            except (ValueError, TypeError):
                ch.note('value rejected')
                continue
            ch.fail(f'{what()}\n{f.name} = {v!r} is accepted\n{shown()}')


def limits(ch, built, model, how, fields, alphabets, what, shown, form):
    """Too few items and missing required attributes cannot be rendered."""
    target = model.own[0].type if how == 'wrapped' else model
    for f in fields:
        if not (f.kind == 'list' and (f.min or 0) > 0 or f.kind == 'attr' and f.min):
            continue
        values = {g.name: a[-1] for g, a in zip(fields, alphabets)}
        if f.kind == 'list':
            values[f.name] = values[f.name][:f.min - 1]
            if how == 'flat-choice' and not values[f.name]:
                continue  # not chosen
        else:
            del values[f.name]
        ch.step()
        obj = built.object(target, values)
        try:
            out = obj.xml('doc', namespace='urn:m', elementFormDefault=form)
        except ValueError:
            ch.note('limit enforced')
            continue
        ch.fail(f'{what()}\n{values} lacks {f.name} but is rendered as {out!r}\n{shown()}')


def schema_elements(ch):
    """Top-level elements of every kind are in the schema, with the types that belong to them."""
    ns = ch.choose('namespace', ['urn:m', 'http://example.org/a?b=1&c=2', "urn:it's"])
    kinds = {
        'builtin': xk.S, 'number': xk.I, 'named': xk.NUM, 'inline': xk.inline('String', maxLength=2), 'complex': xk.LEAF,
        'derived': xk.DERIVED,
    }
    names = [ch.choose(f'element {i}', sorted(kinds)) for i in range(2)]
    root = ch.choose('root', ['named', 'anonymous'])
    order = ch.choose('order', ['natural', 'reversed', 'elements first'])
    if names[0] == names[1] and root == 'anonymous' and names[0] in ('complex', 'derived'):
        pass
    elements = {f'el{i}': kinds[n] for i, n in enumerate(names)}
    x = XsdText(elements, ns=ns, style=Style(root=root, order=order))
    etree.XMLSchema(etree.fromstring(x.text))
    what = lambda: x.text
    module, code = generate(ch, x.text, what)
    with module:
        schema, = module.schemas()
        ch.check(schema.targetNamespace == ns, lambda: f'{what()}\nnamespace {schema.targetNamespace}')
        for name, t in elements.items():
            element = schema.get_element_by_name(name)
            ch.check(element is not None, lambda: f'{what()}\n{name} is not in the schema\n{code.decode()}')
            holder = type('Holder', (xsd.ComplexType,), {'v': element})
            ch.step()
            good, bad = {'builtin': (['a'], [5]), 'number': ([1], ['x']), 'named': ([100], [101]), 'inline': (['ab'], ['abc']),
                         'complex': ([], [5]), 'derived': ([], [5])}[names[int(name[2:])]]
            for v in good:
                o = holder()
                o.v = v
            for v in bad:
                try:
                    o = holder()
                    o.v = v
                except ValueError:
                    continue
                ch.fail(f'{what()}\nelement {name} accepts {v!r}\n{code.decode()}')
    ch.state((ns, names, root, order))
    ch.note('done')


RESERVED = ('xsd cls instance classmethod create xml render accept parsexml parse_xmlelement SCHEMA INDICATOR INHERITANCE self type name value fields str list '
            'property print object None True False soap request tag namespace other Other decimal').split()
TYPE_NAMES = 'duration date none true false object type str list xsd schema string int element complexType exception property'.split()


def reserved(ch):
    """Names that mean something to Python, the library or the generated code."""
    name = ch.choose('name', RESERVED)
    kind = ch.choose('kind', ['elem', 'optional', 'list', 'attr', 'inline', 'complex'])
    place = ch.choose('place', ['first', 'last', 'inherited', 'derived', 'all', 'choice'])
    form = ch.choose('form', ['qualified', 'unqualified'])
    types(ch, name, kind, place, form, 'other')


def reserved_types(ch):
    types(ch, 'v1', ch.choose('kind', ['elem', 'list', 'inline', 'complex']), ch.choose('place', ['first', 'derived']), 'qualified', ch.choose('type', TYPE_NAMES),
          ch.choose('simple type', TYPE_NAMES))


def types(ch, name, kind, place, form, typename, simple='some'):
    if typename == simple:
        ch.skip()
    occurs = {'optional': ' minOccurs="0"', 'list': ' maxOccurs="3"'}.get(kind, '')
    t = {'complex': f't:{typename}', 'list': f't:{simple}'}.get(kind, 'xs:string')
    if kind == 'attr':
        e, a = '', f'<xs:attribute name="{name}" type="t:{simple}"/>'
    elif kind == 'inline':
        e, a = f'<xs:element name="{name}"><xs:simpleType><xs:restriction base="t:{simple}"><xs:maxLength value="3"/></xs:restriction></xs:simpleType></xs:element>', ''
    else:
        e, a = f'<xs:element name="{name}" type="{t}"{occurs}/>', ''
    if place == 'choice' and kind in ('attr', 'list') or place == 'all' and kind == 'list':
        ch.skip()
    o = f'<xs:element name="o" type="t:{typename}"/>'
    group = {'all': 'all', 'choice': 'choice'}.get(place, 'sequence')
    content = f'<xs:{group}>{e + o if place == "first" else o + e}</xs:{group}>'
    extends = lambda inner, x: f'<xs:complexContent><xs:extension base="t:Base">{inner}{x}</xs:extension></xs:complexContent>'
    if place == 'inherited':
        base, root = f'<xs:sequence>{o}{e}</xs:sequence>{a}', extends('<xs:sequence><xs:element name="last" type="xs:int"/></xs:sequence>', '')
    elif place == 'derived':
        base, root = f'<xs:sequence>{o}</xs:sequence>', extends(f'<xs:sequence>{e}<xs:element name="last" type="xs:int"/></xs:sequence>', a)
    else:
        base, root = '<xs:sequence/>', content + a
    text = (f'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:m" targetNamespace="urn:m" elementFormDefault="{form}">'
            f'<xs:simpleType name="{simple}"><xs:restriction base="xs:string"><xs:maxLength value="5"/></xs:restriction></xs:simpleType>'
            f'<xs:complexType name="{typename}"><xs:sequence><xs:element name="v" type="t:{simple}"/></xs:sequence></xs:complexType>'
            f'<xs:complexType name="Base">{base}</xs:complexType><xs:complexType name="Root">{root}</xs:complexType><xs:element name="doc" type="t:Root"/></xs:schema>')
    xs = etree.XMLSchema(etree.fromstring(text))
    module, code = generate(ch, text, lambda: text)
    shown = lambda: f'{text}\n{code.decode()}'
    inner = lambda tag, v: f'<{p}{tag}><{p}v>{v}</{p}v></{p}{tag}>'
    p = 'k:' if form == 'qualified' else ''
    with module as mod:
        cls = mod.Root
        spelled = '_' + name if hasattr(cls(), '_' + name) else name
        for n in range(3):
            values = [['a', 'b c', 'd'][:n + 1]] if kind == 'list' else [['abc', 'd', '<&'][n]]
            mine = ''.join(inner(name, v) if kind == 'complex' else f'<{p}{name}>{v}</{p}{name}>' for v in (values[0] if kind == 'list' else [x.replace('&', '&amp;').replace('<', '&lt;')
                                                                                                               for x in values])) if kind != 'attr' else ''
            att = ' {}="{}"'.format(name, values[0].replace('&', '&amp;').replace('<', '&lt;')) if kind == 'attr' else ''
            has_o = place != 'choice'
            oo = inner('o', 'x') if has_o else ''
            last = f'<{p}last>7</{p}last>' if place in ('inherited', 'derived') else ''
            doc = f'<k:doc xmlns:k="urn:m"{att}>{mine + oo if place == "first" else oo + mine}{last}</k:doc>'
            if not xs.validate(etree.fromstring(doc)):
                raise AssertionError(f'the check wrote an invalid document: {doc} {xs.error_log.last_error}\n{text}')
            ch.step(2)
            want = values[0]

            def value(obj):
                got = getattr(obj, spelled)
                return list(got) if kind == 'list' else got.v if kind == 'complex' and got is not None else got

            try:
                obj = cls.parsexml(doc)
                ch.check(value(obj) == want and (obj.o.v == 'x' if has_o else obj.o is None), lambda: f'{shown()}\n{doc} is read as {value(obj)!r} {obj.o}')
                made = cls()
                if has_o:
                    made.o = obj.o
                if last:
                    made.last = 7
                setattr(made, spelled, [*want] if kind == 'list' else type(getattr(obj, spelled))(v=want) if kind == 'complex' else want)
                outs = [x.xml('doc', namespace='urn:m', elementFormDefault=form) for x in (obj, made)]
                str(obj), obj == made, hash(obj)
            except (TypeError, AttributeError) as e:
                ch.fail(f'{shown()}\n{doc}: {e!r}')
            for out in outs:
                e1, e2 = etree.fromstring(out), etree.fromstring(doc)
                same = [etree.tostring(etree.fromstring(etree.tostring(e), etree.XMLParser(remove_blank_text=True)), method='c14n', exclusive=True) for e in (e1, e2)]
                norm = [[(q.tag, q.text if len(q) == 0 else None, dict(q.attrib)) for q in etree.fromstring(s).iter()] for s in same]
                ch.check(norm[0] == norm[1], lambda: f'{shown()}\n{doc}\nis written back as\n{out}')
            try:
                setattr(made, spelled, ['toolong'] if kind == 'list' else 5 if kind == 'complex' else 'toolong') if kind in ('list', 'complex', 'attr', 'inline') else setattr(made, spelled, 5)
            except ValueError:
                ch.note('value rejected')
            else:
                ch.fail(f'{shown()}\na wrong value of {name} is accepted')
    ch.note(kind)
    ch.state(text)


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness('single', behaves, {'width': 1, 'star': False}, split=1, budget=3 if full else 2, timeout=120),
           Harness('pairs', behaves, {'width': 2, 'star': True}, split=2, budget=2 if full else 1, timeout=300),
           Harness('builtins', behaves, {'width': 1, 'star': False, 'kinds': xk.BUILTINS}, budget=2 if full else 1, timeout=120),
           Harness('wide', behaves, {'width': 0, 'star': True, 'widths': [4, 7, 12]}, split=2, budget=2 if full else 1, timeout=300),
           Harness('reserved names', reserved, split=2),
           Harness('reserved type names', reserved_types, split=2),
           Harness('schema elements', schema_elements, split=2)]
    if full:
        out.append(Harness('pairs, all values', behaves, {'width': 2, 'star': False}, split=2, budget=1, timeout=600))
        out.append(Harness('triples', behaves, {'width': 3, 'star': True}, split=2, budget=0, timeout=600))
    return out
