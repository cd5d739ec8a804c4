"""C01: parsing a rendered object gives an equal object."""
import sys
import types

from lxml import etree

from ..explore import Harness
from ..lib import shapes
from ..lib.models import Built, F, M, NIL, ST, described, read
from soapfish import xsd

BOUNDS = {
    'quick': '''All models of 1..2 fields over 25 kinds of fields (ordered pairs with repetition) x 4 layouts (flat,
        inherited two ways, nested) x all objects over the value alphabet of each kind, with one deviation in form,
        schema, or way of construction; every simple type x its value alphabet (24 types) x 12 positions; names that collide or are not ASCII, types of several schemas, 3 to 12 fields in 1 to 5 classes, nesting to depth 4; lists of up to 1025
        items (and texts of up to 130 kB) in 9 places among single elements.''',
    'thorough': 'As quick with 1..3 fields and two deviations, and lists of up to 4097 items.',
}
ASSUMPTIONS = ['values outside the alphabets behave like those inside (small-scope hypothesis)']


def roundtrip(ch, model, values, built, form, how, tag='doc', again=True):
    ch.step(3)
    obj = built.object(model, values, how)
    xml = obj.xml(tag, namespace=built.ns, elementFormDefault=form)
    cls = built.classes[id(model)]
    back = cls.parsexml(xml)
    want, got = described(model, values), read(model, back)
    ch.check(got == want, lambda: f'model {model!r}\nobject {values!r}\nrendered {xml!r}\nread back {got!r}\nexpected  {want!r}')
    # The original has not changed either, and the object read back renders the same document.
    ch.check(read(model, obj) == want, lambda: f'rendering changed the object: {model!r} {values!r} -> {read(model, obj)!r}')
    if again:
        second = back.xml(tag, namespace=built.ns, elementFormDefault=form)
        got = read(model, cls.parsexml(second))
        ch.check(got == want, lambda: f'model {model!r}\nrendered {xml!r}\nrendered again after parsing {second!r}')
    ch.state((repr(model), canonical(xml)))
    return xml


def canonical(xml):
    return etree.tostring(etree.fromstring(xml), method='c14n')


def structure(ch, width):
    n = ch.choose('fields', list(range(width, width + 1)))
    fields, values = [], {}
    picked = [ch.choose(f'kind {i}', shapes.KINDS) for i in range(n)]
    how = ch.choose('layout', shapes.LAYOUTS)
    for i, k in enumerate(picked):
        f, alphabet = shapes.field(k, shapes.NAMES[i])
        if any(g.tagname == f.tagname for g in fields) or len([g for g in fields if g.kind in ('group', 'agroup')
                                                               and g.type is f.type]):
            ch.skip()
        fields.append(f)
        values[f.name] = ch.choose(f'value {i}', alphabet)
    model = shapes.layout(how, fields)
    if how == 'wrapped':
        values = {'w0': values}
    indicate(ch, model, how, fields, values)
    form = ch.dev('form', ['qualified', 'unqualified'])
    ns = ch.dev('namespace', ['urn:m', None])
    schema = ch.dev('schema', [True, False]) if ns else False
    if ns is None and any(f.ns is not None for f in fields):
        ch.skip()
    how = ch.dev('construction', ['assign', 'init', 'append', 'extend'])
    built = Built([model], ns=ns, form=form, schema=schema)
    roundtrip(ch, model, values, built, form, how)
    ch.note(how)


def indicate(ch, model, how, fields, values):
    """Now and then a model that is no sequence."""
    indicator = ch.dev('indicator', ['sequence', 'all', 'choice'])
    if indicator == 'sequence':
        return
    if how != 'flat' or indicator == 'all' and any(f.kind == 'list' for f in fields):
        ch.skip()
    elems = [f for f in fields if f.kind in ('elem', 'list')]
    if any(f.kind in ('group', 'agroup', 'ref') for f in fields) or not elems:
        ch.skip()
    if indicator == 'choice' and sum(values[f.name] not in (None, []) for f in elems) != 1:
        ch.skip()
    model.indicator = indicator


TYPES = {'string': (shapes.S, 'a', 'b'), 'number': (shapes.I, 1, 2), 'model': (shapes.LEAF, {'v': 'x'}, {'k': 0}),
         'base': (shapes.BASE, {'b1': 'x'}, {'b1': 'y'})}


def named(ch, width):
    """Field names and tags that are one another's, prefixes of one another, or differ in case or punctuation only."""
    names = ch.choose('names', [['a', 'b', 'c'], ['a', 'ab', 'abc'], ['a', 'A', '_a'], ['item', 'items', 'Item'], ['name', 'value', 'v'],
                                ['tag', 'text', 'tail'], ['fields', 'element', 'type'], ['x_y', 'xy', 'x__y'], ['ä', 'a', 'æ']])
    tags = ch.choose('tags', ['own', 'rotated', 'swapped', 'dotted'])
    how = ch.choose('layout', ['flat', 'inherit', 'wrapped'])
    fields, values = [], {}
    for i in range(width):
        kind = ch.choose(f'kind {i}', ['elem', 'list', 'attr', 'nil'])
        t, v, w = TYPES[ch.choose(f'type {i}', ['string', 'model'] if kind != 'attr' else ['string'])]
        tag = {'own': None, 'rotated': names[(i + 1) % width], 'swapped': names[width - 1 - i], 'dotted': names[i] + '.' + names[0]}[tags]
        f = F('elem' if kind == 'nil' else kind, names[i], t, min=0, nillable=kind == 'nil' or kind == 'list', tag=tag)
        if kind == 'list':
            values[f.name] = ch.choose(f'value {i}', [[], [v, NIL, w]])
        else:
            values[f.name] = ch.choose(f'value {i}', [None, v] if kind != 'nil' else [NIL, v])
        fields.append(f)
    model = shapes.layout(how, fields)
    return model, {'w0': values} if how == 'wrapped' else values


def names(ch, width):
    model, values = named(ch, width)
    form = ch.choose('form', ['qualified', 'unqualified'])
    roundtrip(ch, model, values, Built([model], form=form), form, 'assign')


def mixed(ch):
    """Models of several schemas, one nested in the other."""
    kinds = [k for k in shapes.PLAIN if k[1] != 'attr']
    inner, alphabet = shapes.field(ch.choose('inner', kinds), 'i')
    outer, others = shapes.field(ch.choose('outer', shapes.kinds('str', 'list', 'nil', 'leaf?', 'attr', 'nils', 'mid', 'own-ns')), 'o')
    model = M('Inner', [inner])
    model.ns = 'urn:inner'
    many = ch.choose('many', [False, True])
    first = ch.choose('first', [False, True])
    levels = ch.choose('levels', [1, 2])
    value = {inner.name: ch.choose('value', alphabet)}
    if levels == 2:
        model = M('Middle', [F('elem', 'n', model), F('attr', 'k', shapes.S, min=0)])
        model.ns = ch.choose('middle', ['urn:inner', 'urn:middle', None])
        value = {'n': value, 'k': 'z'}
    f = F('list', 'n', model, min=0, tag='nn') if many else F('elem', 'n', model)
    fields = [f, outer] if first else [outer, f]
    model = M('Root', fields)
    return model, {'n': [value, value] if many else value, outer.name: others[-1]}


def schemas(ch):
    model, values = mixed(ch)
    form = ch.choose('form', ['qualified', 'unqualified'])
    roundtrip(ch, model, values, Built([model], form=form), form, 'assign')


def wide_model(ch, most):
    """Many fields of a few kinds, in one class or in a chain of classes."""
    n = ch.choose('fields', range(3, most + 1))
    turn = ch.choose('turn', range(5))
    order = ch.choose('names', ['up', 'down', 'digits'])
    chain = ch.choose('classes', [1, 2, 3, 5])
    fields, values = [], {}
    for i in range(n):
        name = {'up': f'f{i:02}', 'down': f'f{n - i:02}', 'digits': f'f{i}'}[order]
        kind = (i + turn) % 5
        if kind == 0:
            f, v = F('elem', name, shapes.S, min=0), f'v{i}'
        elif kind == 1:
            f, v = F('list', name, shapes.I, min=0, tag=f't{i}'), [i, i + 1]
        elif kind == 2:
            f, v = F('attr', name, shapes.S, min=0), f'a{i}'
        elif kind == 3:
            f, v = F('group', name, M(f'G{i}', [F('elem', f'g{i}', shapes.S, min=0)])), {f'g{i}': f'v{i}'}
        else:
            f, v = F('elem', name, shapes.LEAF, min=0, nillable=True), {'v': f'v{i}', 'k': i}
        fields.append(f)
        values[name] = v
    which = ch.choose('set', ['all', 'one', 'all but one'])
    if which != 'all':
        one = fields[ch.choose('which', range(n))].name
        for f in fields:
            if (f.name == one) != (which == 'one'):
                values[f.name] = {'list': [], 'group': {}}.get(f.kind)
    model = None
    for k in range(chain):
        model = M(f'K{k}', fields[n * k // chain:n * (k + 1) // chain], base=model)
    return model, values


def wide(ch, most):
    model, values = wide_model(ch, most)
    form = ch.choose('form', ['qualified', 'unqualified'])
    roundtrip(ch, model, values, Built([model], form=form), form, 'assign')


LENGTHS = [15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 500, 512, 1000, 1024, 1025]


def long_model(ch, lengths):
    """Large objects: long lists of several kinds among single elements, and long texts."""
    n = ch.choose('length', lengths)
    what = ch.choose('long', ['numbers', 'models', 'two lists', 'nested', 'list of lists', 'text', 'attribute', 'group', 'inherited'])
    where = ch.choose('where', ['first', 'middle', 'last'])
    pre = [F('elem', 'p', shapes.S, min=0), F('elem', 'q', shapes.LEAF, min=0)] if where != 'first' else []
    post = [F('elem', 'y', shapes.LEAF, min=0, nillable=True), F('elem', 'z', shapes.I, min=0)] if where != 'last' else []
    values = {'p': 'before', 'q': {'v': 'q', 'k': 1}, 'y': {'v': 'y'}, 'z': 9, 'k': 'key'}
    values = {f.name: values[f.name] for f in pre + post}
    leaf = F('list', 'm', shapes.LEAF, min=None, tag='leaf', nillable=True)
    leaves = [NIL if i % 7 == 3 else {'v': f'v{i}', 'k': i} for i in range(n)]
    number = F('list', 'n', shapes.I, min=None, tag='num')
    if what == 'numbers':
        mine, mv = [number], {'n': list(range(n))}
    elif what == 'models':
        mine, mv = [leaf], {'m': leaves}
    elif what == 'two lists':
        mine = [number, F('elem', 'b', shapes.S, min=0), leaf]
        mv = {'n': list(range(n)), 'b': 'between', 'm': leaves}
    elif what == 'nested':
        mine, mv = [F('elem', 'w', M('W', pre + [number] + post))], {'w': dict(values, n=list(range(n)))}
    elif what == 'list of lists':
        mine = [F('list', 'w', M('W', [number, F('elem', 'b', shapes.S, min=0)]), min=None, tag='row')]
        mv = {'w': [{'n': list(range(i % 5)), 'b': f'b{i}'} for i in range(n)]}
    elif what == 'text':
        mine, mv = [F('elem', 't', shapes.S)], {'t': 'ab c' * (n * 32) + 'd'}
    elif what == 'attribute':
        mine, mv = [F('attr', 't', shapes.S)], {'t': 'x y' * (n * 32)}
    elif what == 'group':
        mine = [F('group', 'g', M('G', [number, F('elem', 'b', shapes.S, min=0)]))]
        mv = {'g': {'n': list(range(n)), 'b': 'last'}}
    else:
        base = M('Base1', pre + [number])
        values.update({'n': list(range(n)), 'm': leaves})
        return M('Root', [leaf] + post, base=base), values
    values.update(mv)
    return M('Root', pre + mine + post), values


def long(ch, lengths):
    model, values = long_model(ch, lengths)
    form = ch.choose('form', ['qualified', 'unqualified'])
    roundtrip(ch, model, values, Built([model], form=form), form, 'assign')


POSITIONS = ['elem', 'elem-nillable', 'elem-tag', 'attr', 'attr-optional', 'list', 'list-mixed', 'nested', 'nested-list',
             'group', 'agroup', 'choice', 'inherited']


def placed(position, t, v, other):
    """A model and an object with the value in the given position."""
    f = F('elem', 'v', t)
    if position == 'elem':
        return M('Root', [f]), {'v': v}
    if position == 'elem-nillable':
        return M('Root', [F('elem', 'v', t, nillable=True), F('elem', 'u', t, nillable=True)]), {'v': v, 'u': NIL}
    if position == 'elem-tag':
        return M('Root', [F('elem', 'v', t, tag='the-value')]), {'v': v}
    if position == 'attr':
        return M('Root', [F('attr', 'v', t)]), {'v': v}
    if position == 'attr-optional':
        return M('Root', [F('attr', 'v', t, min=0, tag='x.v'), F('attr', 'u', t, min=0)]), {'v': v}
    if position == 'list':
        return M('Root', [F('list', 'v', t, min=1, tag='i')]), {'v': [v]}
    if position == 'list-mixed':
        return M('Root', [F('list', 'v', t, min=None, tag='i', nillable=True)]), {'v': [v, NIL, other, v]}
    if position == 'nested':
        return M('Root', [F('elem', 'n', M('Inner', [f]))]), {'n': {'v': v}}
    if position == 'nested-list':
        return M('Root', [F('list', 'n', M('Inner', [f]), min=None, tag='i')]), {'n': [{'v': v}, {'v': other}]}
    if position == 'group':
        return M('Root', [F('group', 'g', M('Gr', [f])), F('elem', 'z', t, min=0)]), {'g': {'v': v}}
    if position == 'agroup':
        return M('Root', [F('agroup', 'g', M('Gr', [F('attr', 'v', t)]))]), {'g': {'v': v}}
    if position == 'choice':
        return M('Root', [F('elem', 'u', shapes.B), f], indicator='choice'), {'v': v}
    if position == 'inherited':
        return M('Root', [F('elem', 'b', t)], base=M('Base0', [f])), {'v': v, 'b': other}
    raise KeyError(position)


def simple(ch):
    base = ch.choose('type', sorted(shapes.VALUES))
    position = ch.choose('position', POSITIONS)
    v = ch.choose('value', shapes.VALUES[base])
    t = ST(base)
    model, values = placed(position, t, v, shapes.VALUES[base][-1])
    form = ch.dev('form', ['qualified', 'unqualified'])
    schema = ch.dev('schema', [True, False])
    built = Built([model], form=form, schema=schema)
    roundtrip(ch, model, values, built, form, 'assign')
    ch.note(base)


def deep(ch, depth):
    """Nesting: each level has one of a few shapes."""
    t, v = shapes.S, ch.choose('leaf', ['a', NIL, None])
    f = F('elem', 'v', t, min=0, nillable=True)
    model, values = M('L0', [f]), {'v': v}
    for i in range(1, depth + 1):
        how = ch.choose(f'level {i}', ['elem', 'list1', 'list2', 'group', 'choice', 'base', 'attr+elem'])
        name = f'L{i}'
        # The same names on every level must not be confused.
        if how == 'elem':
            model, values = M(name, [F('elem', 'v', model), F('elem', 'e', shapes.I, min=0)]), {'v': values, 'e': i}
        elif how == 'list1':
            model, values = M(name, [F('list', 'v', model, min=None, tag='v')]), {'v': [values]}
        elif how == 'list2':
            model, values = M(name, [F('list', 'v', model, min=None, tag='v', nillable=True)]), {'v': [values, NIL, values]}
        elif how == 'group':
            g = M('G' + name, [F('elem', 'v', model)])
            model, values = M(name, [F('group', 'grp', g), F('elem', 'e', shapes.I)]), {'grp': {'v': values}, 'e': i}
        elif how == 'choice':
            model, values = M(name, [F('elem', 'u', shapes.I), F('elem', 'v', model)], indicator='choice'), {'v': values}
        elif how == 'base':
            model, values = M(name, [F('elem', 'v2', model)], base=M('B' + name, [F('elem', 'v', shapes.S)])), \
                {'v2': values, 'v': 'base'}
        else:
            model, values = M(name, [F('attr', 'v', shapes.S), F('elem', 'w', model, tag='v')]), {'v': 'at', 'w': values}
    form = ch.choose('form', ['qualified', 'unqualified'])
    built = Built([model], form=form)
    roundtrip(ch, model, values, built, form, 'assign')


def misc(ch):
    """Long lists, types passed as instance or by name, recursive models, documents."""
    what = ch.choose('what', ['long list', 'instance', 'by name', 'recursive', 'document'])
    form = ch.choose('form', ['qualified', 'unqualified'])
    if what == 'long list':
        n = ch.choose('length', [0, 1, 2, 9, 10, 11, 12, 99, 100, 101])
        items = ch.choose('items', ['int', 'leaf', 'alternating'])
        t = shapes.I if items == 'int' else shapes.LEAF
        v = [i if items == 'int' else (NIL if items == 'alternating' and i % 2 else {'k': i, 'v': str(i)}) for i in range(n)]
        limits = ch.choose('limits', [(None, None), (0, None), (n, None), (None, n), (n, n), (0, n + 1)])
        model = M('Root', [F('list', 'v', t, min=limits[0], max=limits[1], tag='i', nillable=True), F('elem', 'e', shapes.S)])
        roundtrip(ch, model, {'v': v, 'e': 'end'}, Built([model], form=form), form, ch.choose('how', ['assign', 'append']))
        return
    if what == 'instance':
        f, alphabet = shapes.field(ch.choose('kind', shapes.KINDS), 'v')
        f.byinstance = not isinstance(f.type, ST)
        v = ch.choose('value', alphabet)
        model = M('Root', [F('elem', 'e', shapes.S), f])
        roundtrip(ch, model, {'v': v, 'e': 'x'}, Built([model], form=form), form, 'assign')
        return
    if what in ('by name', 'recursive'):
        module = types.ModuleType('mc_dynamic_models')
        sys.modules[module.__name__] = module
        ref = 'mc_dynamic_models.Leaf' if what == 'by name' else 'mc_dynamic_models.Root'
        module.Leaf = type('Leaf', (xsd.ComplexType,), {'v': xsd.Element(xsd.String, minOccurs=0)})
        module.Root = type('Root', (xsd.ComplexType,), {
            'v': xsd.Element(xsd.String, minOccurs=0),
            'one': xsd.Element(ref, minOccurs=0, nillable=True),
            'many': xsd.ListElement(ref, 'item')})
        if ch.choose('schema', [True, False]):
            xsd.Schema('urn:m', elementFormDefault=form, complexTypes=[module.Leaf, module.Root])
        cls = module.Leaf if what == 'by name' else module.Root

        def make(depth):
            o = cls(v=str(depth))
            if what == 'recursive' and depth:
                if ch.choose(f'one {depth}', [True, False]):
                    o.one = make(depth - 1)
                for _ in range(ch.choose(f'many {depth}', [0, 1, 2])):
                    o.many.append(make(0))
            return o

        def dump(o):
            if o is None or o is xsd.NIL:
                return repr(o)
            return (o.v, dump(getattr(o, 'one', None)), [dump(x) for x in getattr(o, 'many', [])])

        root = module.Root(v='r', one=make(2), many=[make(1)])
        before = dump(root)
        xml = root.xml('doc', namespace='urn:m', elementFormDefault=form)
        after = dump(module.Root.parsexml(xml))
        ch.step(2)
        ch.check(before == after == dump(root), f'{xml!r}: {before!r} -> {after!r}')
        ch.state(xml)
        return
    # A document has one field only, its root element.
    f, alphabet = shapes.field(ch.choose('kind', shapes.kinds('str', 'int?', 'tag', 'leaf?', 'req', 'mid', 'any', 'derived')), 'v')
    f = f.renamed('v', tag=None)
    v = ch.choose('value', [x for x in alphabet if x is not None and x is not NIL])
    built = Built([M('Holder', [f])], form=form, schema=ch.choose('schema', [True, False]))
    cls = type('Doc', (xsd.Document,), {'v': built.field(f), 'NAMESPACE': None})
    doc = cls(v=built.value(f.type, v))
    xml = doc.render()
    back = cls.parsexml(xml)
    model = M('Doc', [f])
    ch.step(2)
    ch.check(read(model, back) == described(model, {'v': v}), f'{model!r} {v!r}: {xml!r} -> {read(model, back)!r}')
    ch.state(xml)


def harnesses(tier):
    quick = tier == 'quick'
    out = [Harness('single', structure, {'width': 1}, split=1, budget=None),
           Harness('pairs', structure, {'width': 2}, split=1, budget=1 if quick else 3),
           Harness('values', simple, split=1, budget=2),
           Harness('misc', misc, split=2),
           Harness('names', names, {'width': 2 if quick else 3}, split=3),
           Harness('schemas', schemas, split=2),
           Harness('wide', wide, {'most': 12 if quick else 24}, split=2),
           Harness('long', long, {'lengths': LENGTHS if quick else LENGTHS + [2047, 2049, 4097]}, split=2),
           Harness('depth', deep, {'depth': 3 if quick else 4}, split=2)]
    if not quick:
        out.append(Harness('triples', structure, {'width': 3}, split=2, budget=1))
    return out
