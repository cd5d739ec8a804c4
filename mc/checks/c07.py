"""C07: the generated XSD is valid and accepts exactly what the model accepts (judged by libxml2)."""
import itertools

from lxml import etree

from ..explore import Harness
from ..lib import shapes
from ..lib.models import (BAD_TEXTS, Built, F, M, N, NIL, ST, XNIL, described, facets_ok, mutations, number, read, simple_ok,
                          tree, valid)
from soapfish import py2xsd, xsd

TECHNIQUE = ('bounded exhaustive exploration: all small models x all their small objects x all single mutations of each '
             'document; generate_xsd, libxml2 and parsexml(schema=) in lockstep with an independent validity checker')
BOUNDS = {
    'quick': 'All models of 1..2 fields over 17 kinds of fields x 4 layouts x element form x types by class or in place, all '
             'objects over the value alphabet (one deviation) x all single mutations (11 texts, drop, repeat, rename, '
             'requalify, swap, insert, nil) of each document; 1152 string and ~2000 numeric facet combinations in 4 ways of '
             'declaration x 40 values; types named alike but for case, like those of XML Schema and of the library.'
             ' Models of 5 and 12 fields: 34 selections of kinds. Every object parsed and rendered with the schema.',
    'thorough': 'As quick with two deviations, and models of 3 fields.',
}
ASSUMPTIONS = ['libxml2 decides XSD validity correctly',
               'facets of one type are consistent (XSD does not allow others); fractionDigits is left out (exact in the library)']

KINDS = shapes.PLAIN


def compiled(ch, schema, what):
    """The generated XSD, compiled."""
    ch.step()
    text = etree.tostring(py2xsd.generate_xsd(schema))
    try:
        return etree.XMLSchema(etree.fromstring(text)), text
    except etree.XMLSchemaParseError as e:
        ch.fail(f'{what}\nthe generated XSD is not valid: {e}\n{text.decode()}')


def judge(ch, xs, text, cls, built, doc, expected, what, e=None):
    """Do libxml2 (under the generated XSD) and parsexml agree with the expected verdict?"""
    if e is None:
        e = doc.etree()
    ch.step()
    verdict = xs.validate(e)
    ch.check(verdict == expected, lambda: f'{what()}\ndocument {doc!r}\nmust be {"valid" if expected else "invalid"} '
             f'({xs.error_log.last_error})\n{text.decode()}')


def parse(ch, built, cls, data, expected, what, schema):
    ch.step()
    try:
        obj = cls.parsexml(data, schema=schema)
    except (etree.XMLSyntaxError, etree.DocumentInvalid, ValueError) as e:
        ch.check(not expected, lambda: f'{what()}\nparsexml(schema=) rejects the valid document {data}: {e}')
        return None
    ch.check(expected, lambda: f'{what()}\nparsexml(schema=) accepts the invalid document {data}')
    return obj


def structure(ch, width, star=False, widths=None):
    fields, values = [], {}
    if widths:
        n = ch.choose('fields', widths)
        start, stride = ch.choose('first', range(len(KINDS))), ch.choose('stride', [1, 4])
        picked = [KINDS[(start + i * stride) % len(KINDS)] for i in range(n)]
    else:
        picked = [ch.choose(f'kind {i}', KINDS) for i in range(width)]
    how = ch.choose('layout', shapes.LAYOUTS)
    alphabets = []
    for i, k in enumerate(picked):
        f, alphabet = shapes.field(k, shapes.NAMES[i])
        fields.append(f)
        alphabets.append(alphabet)
    form = ch.dev('form', ['qualified', 'unqualified'])
    inline = ch.dev('types', ['by class', 'in place'])
    root_by = ch.dev('root', ['class', 'instance'])
    indicator = 'sequence'
    if how == 'flat':
        indicator = ch.dev('indicator', ['sequence', 'all', 'choice'])
        if indicator == 'all' and any(f.kind == 'list' for f in fields):
            ch.skip()
        if indicator == 'choice' and all(f.kind == 'attr' for f in fields):
            ch.skip()
    for f in fields:
        f.byinstance = inline == 'in place'
    model = shapes.layout(how, fields)
    model.indicator = indicator
    built = Built([model], form=form)
    root = built.classes[id(model)]
    schema = xsd.Schema('urn:m', elementFormDefault=form, complexTypes=built.order,
                        elements={'doc': xsd.Element(root if root_by == 'class' else root())})
    what = lambda: f'{model!r} form={form} {inline} root by {root_by}'
    xs, text = compiled(ch, schema, what())
    ch.check(etree.fromstring(text).get('targetNamespace') == 'urn:m', lambda: f'{what()}: target namespace')
    seen = set()
    combos = list(itertools.product(*alphabets))
    if star:  # only one field varies at a time
        last = tuple(a[-1] for a in alphabets)
        combos = [c for c in combos if sum(x is not y for x, y in zip(c, last)) <= 1]
    for combo in combos:
        values = {f.name: v for f, v in zip(fields, combo)}
        if indicator == 'choice':
            used = [f for f in fields if f.kind != 'attr' and values[f.name] not in (None, [])]
            if len(used) != 1:
                continue
        if how == 'wrapped':
            values = {'w0': values}
        ref = tree(model, values, '{urn:m}doc', 'urn:m', form)
        if not valid(model, ref, 'urn:m', form):
            continue  # a required field is missing
        obj = built.object(model, values)
        rendered = obj.xml('doc', namespace='urn:m', elementFormDefault=form)
        ch.check(xs.validate(etree.fromstring(rendered)),
                 lambda: f'{what()}\nthe rendered object {rendered!r} is not valid: {xs.error_log.last_error}\n{text.decode()}')
        back = parse(ch, built, root, rendered, True, what, schema if not seen else xs)
        if back is not None:
            ch.check(read(model, back) == described(model, values), lambda: f'{what()}\n{rendered!r} is read as {read(model, back)}')
        judge(ch, xs, text, root, built, ref, True, what)
        checked = obj.xml('doc', namespace='urn:m', elementFormDefault=form, schema=xs)
        ch.check(checked == rendered, lambda: f'{what()}\nrendered with the schema: {checked!r}\nwithout: {rendered!r}')
        for f in fields:  # a field that is required
            partial = {g: w for g, w in values.items() if g != f.name}
            if how == 'wrapped' or f.name not in values or valid(model, tree(model, partial, '{urn:m}doc', 'urn:m', form), 'urn:m', form):
                continue
            ch.step()
            obj = built.object(model, partial)
            try:
                checked = obj.xml('doc', namespace='urn:m', elementFormDefault=form, schema=xs)
            except (etree.DocumentInvalid, ValueError):
                continue
            ch.fail(f'{what()}\nwithout {f.name}: xml(schema=) renders the invalid {checked!r}')
        if widths and combo not in (combos[0], combos[len(combos) // 2], combos[-1]):
            continue
        for n, (name, doc) in enumerate(mutations(ref, texts=BAD_TEXTS[:5] + BAD_TEXTS[6:8] if star else BAD_TEXTS)):
            e = doc.etree()
            data = etree.tostring(e).decode()
            if data in seen:
                continue
            seen.add(data)
            expected = doc.tag == ref.tag and valid(model, doc, 'urn:m', form)
            judge(ch, xs, text, root, built, doc, expected, lambda: f'{what()}\nmutation {name}', e)
            if n % 5 == 0:
                parse(ch, built, root, data, expected, lambda: f'{what()}\nmutation {name}', xs)
            kind = name.split()[0]
            ch.note(('valid ' if expected else 'invalid ') + ('text' if '=' in kind else kind))
            ch.state(data)
    ch.note('valid object')


STRINGS = [''.join(p) for n in range(4) for p in itertools.product('ab ', repeat=n)] + ['a\nb', '\ta']
VIAS = ['in place', 'named', 'derived', 'attribute']


def facet_type(base, facets, via):
    if via in ('in place', 'attribute'):
        return ST(base, via='instance', **facets)
    if via == 'named':
        return ST(base, via='subclass', name='Restricted', **facets)
    names = sorted(facets)
    parent = ST(base, via='subclass', name='Parent', **{n: facets[n] for n in names[::2]})
    return ST(base, via='subclass', name='Restricted', parent=parent, **{n: facets[n] for n in names[1::2]})


def facet_check(ch, t, via, texts, facets):
    f = F('attr' if via == 'attribute' else 'elem', 'v', t)
    model = M('Root', [f, F('list', 'w', t, min=None, tag='i')])
    form = 'qualified'
    built = Built([model], form=form, elements={'doc': model})
    what = lambda: f'{t!r} {facets} ({via})'
    xs, text = compiled(ch, built.schema, what())
    cls = built.classes[id(model)]
    count = 0
    for value in texts:
        ok = simple_ok(t, value)
        count += ok
        doc = N('{urn:m}doc')
        if via == 'attribute':
            doc.attrs['v'] = value
        else:
            doc.children.append(N('{urn:m}v', text=value))
        judge(ch, xs, text, cls, built, doc, ok, what)
        if value:
            parse(ch, built, cls, doc.xml(), ok, what, xs)
        if ok and value and '\n' not in value and '\t' not in value:
            # The model accepts the value as well.
            obj = parse(ch, built, cls, doc.xml(), True, what, None)
            obj.w.append(obj.v)
            rendered = obj.xml('doc', namespace='urn:m', elementFormDefault=form)
            ch.check(xs.validate(etree.fromstring(rendered)), lambda: f'{what()}\nrendered {rendered!r} is invalid: {xs.error_log.last_error}')
    ch.state(what())
    ch.note('all' if count == len(texts) else 'some' if count else 'none')


def string_facets(ch, full):
    facets = {
        'enumeration': ch.choose('enumeration', [None, ['a', 'ab', 'b a'], ['bb', 'ba']]),
        'pattern': ch.choose('pattern', [None, 'a+', 'a|ab', '[ab ]{2}']),
        'length': ch.choose('length', [None, 0, 2]),
        'minLength': ch.choose('minLength', [None, 0, 1, 2]),
        'maxLength': ch.choose('maxLength', [None, 0, 1, 2]),
        'whiteSpace': ch.dev('whiteSpace', [None, 'collapse', 'replace', 'preserve']),
    }
    via = ch.dev('via', VIAS) if not full else ch.choose('via', VIAS)
    facets = {k: v for k, v in facets.items() if v is not None}
    if 'length' in facets and ('minLength' in facets or 'maxLength' in facets):
        ch.skip()
    if facets.get('minLength', 0) > facets.get('maxLength', 9):
        ch.skip()
    t = facet_type('String', facets, via)
    if any(not facets_ok('string', [{k: v for k, v in facets.items() if k not in ('enumeration', 'whiteSpace')}], x, x)
           for x in facets.get('enumeration', [])):
        ch.skip()  # an enumeration must consist of values of the type it restricts
    if facets.get('whiteSpace') == 'replace' and via == 'attribute':
        ch.skip()
    facet_check(ch, t, via, STRINGS, facets)


NUMBERS = ['-100', '-11', '-10', '-2', '-1', '0', '1', '2', '3', '9', '10', '11', '99', '100', '101', '1000', '+5', '007', ' 4 ', 'x', '']
FRACTIONS = ['-1.5', '-0.5', '0.5', '0.05', '1.5', '1.25', '2.5', '9.9', '10.01', '1.0', '10.50', '.5', '1.']


def number_facets(ch, full):
    base = ch.choose('base', ['Decimal', 'Integer', 'Int', 'Double', 'NonNegativeInteger'])
    facets = {
        'minInclusive': ch.choose('minInclusive', [None, 0, 2]),
        'maxInclusive': ch.choose('maxInclusive', [None, 0, 10]),
        'minExclusive': ch.choose('minExclusive', [None, 0, 1]),
        'maxExclusive': ch.choose('maxExclusive', [None, 2, 11]),
    }
    facets['enumeration'] = ch.dev('enumeration', [None, [2, 10], [10, 0, 2]])
    facets['pattern'] = ch.dev('pattern', [None, '-?[0-9]', '1|10', '[0-9]{2,}'])
    if base != 'Double':
        facets['totalDigits'] = ch.dev('totalDigits', [None, 1, 2])
    via = ch.dev('via', VIAS)
    facets = {k: v for k, v in facets.items() if v is not None}
    lows = [facets[k] for k in ('minInclusive', 'minExclusive') if k in facets]
    highs = [facets[k] for k in ('maxInclusive', 'maxExclusive') if k in facets]
    if lows and highs and max(lows) >= min(highs):
        ch.skip()
    if base in ('NonNegativeInteger', 'Int', 'Integer') and highs and min(highs) <= 0 and base == 'NonNegativeInteger':
        ch.skip()
    if via == 'derived' and (len(lows) > 1 or len(highs) > 1):
        ch.skip()  # a facet of the derived type must not widen the one of its base
    plain = {k: v for k, v in facets.items() if k != 'enumeration'}
    if any(not facets_ok('decimal', [plain], number(x), str(x)) for x in facets.get('enumeration', [])):
        ch.skip()
    t = facet_type(base, facets, via)
    texts = NUMBERS + (FRACTIONS if base in ('Decimal', 'Double') and 'pattern' not in facets else [])
    if 'pattern' in facets:
        texts = [x for x in texts if x != '+5' and x != '007']
    if base == 'Double':
        texts = texts + ['1e1', 'INF', '-INF'] + ([] if lows or highs else ['NaN'])
    facet_check(ch, t, via, texts, facets)


BASES = sorted(shapes.VALUES)
TEXTS = {
    'common': ['', 'x', '1', '-1', '0', 'true', '1.5', ' 1 ', '2011-10-09', '2011-10-09T08:07:06', '08:07:06', '2011-10-09Z', '1e3'],
    'Byte': ['127', '128', '-128', '-129'], 'Short': ['32767', '32768', '-32768', '-32769'],
    'Int': ['2147483647', '2147483648', '-2147483648', '-2147483649'],
    'Long': ['9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809'],
    'UnsignedByte': ['255', '256'], 'UnsignedShort': ['65535', '65536'], 'UnsignedInt': ['4294967295', '4294967296'],
    'UnsignedLong': ['18446744073709551615', '18446744073709551616'],
    'Date': ['2000-02-29', '2001-02-29', '2011-10-09+14:00', '2011-10-09-03:30', '2011-13-01', '11-10-09'],
    'DateTime': ['2011-10-09T08:07:06.5Z', '2011-10-09T08:07:06+01:00', '2011-10-09T25:00:00', '2011-10-09 08:07:06'],
    'Time': ['08:07:06.25+01:00', '25:00:00', '08:07'],
    'Boolean': ['false', 'TRUE', ' true ', '2'],
}
# The text of these types has no checks in the library.
LOOSE = ('AnyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'Base64Binary', 'Duration')


def builtin(ch):
    """Every built-in type as element, list item and attribute: the XSD names the right type."""
    base = ch.choose('type', BASES)
    via = ch.choose('position', ['elem', 'elem?', 'attr', 'attr!', 'list', 'nested', 'root', 'subclass', 'nil'])
    by = ch.choose('by', ['class', 'instance'])
    t = ST(base, via='class' if by == 'class' else 'instance')
    if via == 'subclass':
        t = ST(base, via='subclass', name='Mine')
        if by == 'instance':
            return
    kind = {'elem': ('elem', {}), 'elem?': ('elem', {'min': 0}), 'attr': ('attr', {'min': 0}), 'attr!': ('attr', {}),
            'list': ('list', {'min': None, 'tag': 'i'}), 'nil': ('elem', {'nillable': True})}.get(via, ('elem', {}))
    f = F(kind[0], 'v', t, **kind[1])
    model = M('Root', [f])
    if via == 'nested':
        model = M('Root', [F('elem', 'n', M('Inner', [f]))])
    if via == 'root':
        built = Built([model])
        passed = getattr(xsd, base) if by == 'class' else getattr(xsd, base)()
        schema = xsd.Schema('urn:m', elementFormDefault='qualified', elements={'doc': xsd.Element(passed)})
    else:
        built = Built([model], elements={'doc': model})
        schema = built.schema
    what = lambda: f'{base} as {via} by {by}'
    xs, text = compiled(ch, schema, what())
    texts = [lex for lex in TEXTS['common'] + TEXTS.get(base, [])]
    if base in LOOSE:
        texts = {'Base64Binary': ['YWI=', 'Y', ''], 'Duration': ['P1D', 'x'], 'NMTOKEN': ['a-b', 'a b'], 'NMTOKENS': ['a b', 'a'],
                 'AnyURI': ['urn:x'], 'QName': ['a', '1']}[base]
    for value in texts:
        if base in LOOSE:
            ok = value not in ('Y', 'x', '1') and not (base == 'NMTOKEN' and ' ' in value) and not (base == 'NMTOKENS' and not value)
        else:
            ok = simple_ok(ST(base), value)
        leaf = lambda tag: N(tag, text=value or None)
        if via == 'root':
            doc = leaf('{urn:m}doc')
        elif kind[0] == 'attr':
            doc = N('{urn:m}doc', {'v': value})
        elif via == 'nested':
            doc = N('{urn:m}doc', children=[N('{urn:m}n', children=[leaf('{urn:m}v')])])
        else:
            doc = N('{urn:m}doc', children=[leaf('{urn:m}i' if via == 'list' else '{urn:m}v')])
        judge(ch, xs, text, None, built, doc, ok, what)
        ch.note('valid' if ok else 'invalid')
    if via not in ('root',):
        for v in shapes.VALUES[base]:
            if base == 'QName' and ':' in v:
                continue  # nothing declares the prefix
            values = {'v': [v] if via == 'list' else v}
            if via == 'nested':
                values = {'n': values}
            rendered = built.object(model, values).xml('doc', namespace='urn:m', elementFormDefault='qualified')
            ch.step()
            ch.check(xs.validate(etree.fromstring(rendered)), lambda: f'{what()}\nrendered {rendered!r}: {xs.error_log.last_error}')
    ch.state((base, via, by))


def occurs(ch):
    """Occurrence limits of lists."""
    low = ch.choose('min', [None, 0, 1, 2])
    high = ch.choose('max', [None, 1, 2, 3, xsd.UNBOUNDED])
    if low and high is not None and low > high:
        ch.skip()
    nillable = ch.choose('nillable', [False, True])
    t = ch.choose('type', [shapes.I, shapes.LEAF])
    around = ch.choose('around', [0, 1])
    indicator = ch.choose('indicator', ['sequence', 'choice'])
    fields = [F('list', 'v', t, min=low, max=high, tag='i', nillable=nillable)]
    if around:
        fields = [F('elem', 'a', shapes.S, min=0)] + fields + [F('elem', 'z', shapes.S, min=0)]
    model = M('Root', fields, indicator=indicator)
    built = Built([model], elements={'doc': model})
    what = lambda: repr(model)
    xs, text = compiled(ch, built.schema, what())
    cls = built.classes[id(model)]
    for n in range(5):
        for nils in range(2 ** min(n, 2)):
            kids = []
            for i in range(n):
                if i < 2 and nils >> i & 1:
                    kids.append(N('{urn:m}i', {XNIL: 'true'}))
                else:
                    kids.append(N('{urn:m}i', text='1') if t is shapes.I else N('{urn:m}i', {'k': '1'}))
            for before in range(2):
                doc = N('{urn:m}doc', children=([N('{urn:m}a', text='s')] if before else []) + [k.copy() for k in kids])
                judge(ch, xs, text, cls, built, doc, valid(model, doc, 'urn:m', 'qualified'), what)
                if around and not before:
                    doc = N('{urn:m}doc', children=[k.copy() for k in kids] + [N('{urn:m}z', text='s')])
                    judge(ch, xs, text, cls, built, doc, valid(model, doc, 'urn:m', 'qualified'), what)
    ch.state((low, high, nillable, repr(t), around, indicator))
    ch.note('done')


TYPE_NAMES = {  # of the types of the fields, of the elements and the simple types
    'plain': ('Leaf', ['Own0', 'Own1', 'Own2'], ['Type0', 'Type1', 'Type2'], ['Code0', 'Code1', 'Code2']),
    'built-in': ('Duration', ['Date', 'Boolean', 'AnyType'], ['Decimal', 'Int', 'Language'], ['String', 'Short', 'NMTOKEN']),
    'library': ('Element', ['Sequence', 'Attribute', 'Schema'], ['ComplexType', 'Group', 'Choice'], ['SimpleType', 'Type', 'Token']),
    'case': ('LeaF', ['OWN', 'OwN', 'Own'], ['TYPE', 'TypE', 'Type'], ['CODE', 'CodE', 'Code']),
}


def names(ch):
    """Schemas with several types and elements: every one of them is there under its name."""
    ns = ch.choose('namespace', ['urn:m', 'http://x/y?z=1&w=2'])
    form = ch.choose('form', ['qualified', 'unqualified'])
    count = ch.choose('elements', [1, 2, 3])
    shared = ch.choose('shared type', [True, False])
    sub = ch.choose('substitution', [None, 'plain', 'prefixed'])
    named = ch.choose('names', list(TYPE_NAMES))
    leaf_name, own, type_name, code = TYPE_NAMES[named]
    leaf = M(leaf_name, [F('elem', 'v', shapes.I)])
    models, elements = {}, {}
    for i in range(count):
        m = M(type_name[i], [F('elem', f'e{i}', leaf if shared else M(own[i], [F('elem', 'v', shapes.I)])),
                           F('elem', 'q', ST('String', via='subclass', name=code[i], maxLength=i + 1))])
        models[f'el{i}'] = m
    built = Built(list(models.values()), ns=ns, form=form, elements=models)
    schema = built.schema
    if sub:
        elements = {n: xsd.Element(built.classes[id(m)]) for n, m in models.items()}
        elements['other'] = xsd.Element(built.classes[id(models['el0'])], substitutionGroup='el0' if sub == 'plain' else 'sns:el0')
        schema = xsd.Schema(ns, elementFormDefault=form, simpleTypes=list(built.simple.values()), complexTypes=built.order,
                            elements=elements)
        models['other'] = models['el0']
    what = lambda: f'{models!r} {ns} {form} {sub} {named}'
    xs, text = compiled(ch, schema, what())
    for root in list(models) + ['missing', type_name[0], leaf_name.lower()]:
        for content in models.values():
            for length in range(1, 4):
                ref = tree(content, {content.fields[0].name: {'v': 1}, 'q': 'x' * length}, f'{{{ns}}}{root}', ns, form)
                expected = root in models and valid(models[root], ref, ns, form)
                judge(ch, xs, text, None, built, ref, expected, what)
    ch.state((ns, form, count, shared, sub, named))
    ch.note('done')


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness('wide', structure, {'width': 0, 'star': True, 'widths': [5, 12]}, split=2, budget=1 if full else 0, timeout=300),
           Harness('single', structure, {'width': 1}, split=1, budget=2 if not full else None),
           Harness('pairs', structure, {'width': 2, 'star': not full}, split=2, budget=1 if not full else 2, timeout=300),
           Harness('string facets', string_facets, {'full': full}, split=2, budget=1),
           Harness('number facets', number_facets, {'full': full}, split=2, budget=2 if full else 1),
           Harness('builtin', builtin, split=2),
           Harness('occurs', occurs, split=2),
           Harness('names', names, split=2)]
    if full:
        out.append(Harness('triples', structure, {'width': 3, 'star': True}, split=3, budget=1, timeout=600))
    return out
