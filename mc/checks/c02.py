"""C02: the rendered document has exactly the declared shape."""
from lxml import etree

from ..explore import Harness
from ..lib import shapes
from ..lib.models import Built, F, M, NIL, ST, diff, qname, tree
from . import c01
from soapfish import xsd

BOUNDS = {
    'quick': 'As C01, each document compared with a reference rendering; all list lengths 0..max+1 for all bounds up to '
             '3 and all subsets of missing attributes at 6 positions.',
    'thorough': 'As quick with 1..3 fields and three deviations.',
}
ASSUMPTIONS = ['the reference rendering in mc/lib/models.py is what XSD and the documentation prescribe']
KINDS = [k for k in shapes.KINDS if k[0] != 'ref']


def rendered(ch, model, values, built, form, how, pretty=None):
    ch.step(2)
    obj = built.object(model, values, how)
    tag = 'doc'
    options = {} if pretty is None else {'pretty_print': pretty}
    xml = obj.xml(tag, namespace=built.ns, elementFormDefault=form, **options)
    want = tree(model, values, f'{{{built.ns}}}{tag}' if built.ns else tag, built.ns, form)
    e = etree.fromstring(xml)
    d = diff(want, e)
    ch.check(d is None, lambda: f'{d}\nmodel {model!r}\nobject {values!r}\nrendered {xml!r}\nexpected {want!r}')
    ch.check(list(e.iter(etree.Comment, etree.ProcessingInstruction)) == [], 'comment in the document')
    ch.state(xml)


def structure(ch, width):
    fields, values = [], {}
    picked = [ch.choose(f'kind {i}', KINDS) for i in range(width)]
    how = ch.choose('layout', shapes.LAYOUTS)
    for i, k in enumerate(picked):
        f, alphabet = shapes.field(k, shapes.NAMES[i])
        if len([g for g in fields if g.kind in ('group', 'agroup') and g.type is f.type]):
            ch.skip()
        fields.append(f)
        values[f.name] = ch.choose(f'value {i}', alphabet)
    model = shapes.layout(how, fields)
    if how == 'wrapped':
        values = {'w0': values}
    c01.indicate(ch, model, how, fields, values)
    form = ch.choose('form', ['qualified', 'unqualified'])
    ns = ch.dev('namespace', ['urn:m', None])
    schema = ch.dev('schema', [True, False]) if ns else False
    if ns is None and any(f.ns is not None for f in fields):
        ch.skip()
    how = ch.dev('construction', ['assign', 'init', 'append', 'extend'])
    pretty = ch.dev('pretty', [None, False])
    built = Built([model], ns=ns, form=form, schema=schema)
    rendered(ch, model, values, built, form, how, pretty)
    ch.note(form)


def simple(ch):
    base = ch.choose('type', sorted(shapes.VALUES))
    position = ch.choose('position', c01.POSITIONS)
    v = ch.choose('value', shapes.VALUES[base])
    model, values = c01.placed(position, ST(base), v, shapes.VALUES[base][-1])
    form = ch.dev('form', ['qualified', 'unqualified'])
    built = Built([model], form=form)
    rendered(ch, model, values, built, form, 'assign')
    ch.note(base)


def names(ch, width):
    model, values = c01.named(ch, width)
    form = ch.choose('form', ['qualified', 'unqualified'])
    rendered(ch, model, values, Built([model], form=form), form, 'assign')


def schemas(ch):
    model, values = c01.mixed(ch)
    form = ch.choose('form', ['qualified', 'unqualified'])
    rendered(ch, model, values, Built([model], form=form), form, 'assign')


def wide(ch, most):
    model, values = c01.wide_model(ch, most)
    form = ch.choose('form', ['qualified', 'unqualified'])
    rendered(ch, model, values, Built([model], form=form), form, 'assign')


def long(ch, lengths):
    model, values = c01.long_model(ch, lengths)
    form = ch.choose('form', ['qualified', 'unqualified'])
    rendered(ch, model, values, Built([model], form=form), form, 'assign')


def lists(ch):
    """Every length of a list against every pair of bounds."""
    low = ch.choose('minOccurs', [None, 0, 1, 2, 3])
    high = ch.choose('maxOccurs', [None, 1, 2, 3])
    if low is not None and high is not None and low > high:
        ch.skip()
    t, item = ch.choose('type', [(shapes.I, 5), (shapes.LEAF, {'k': 1}), (shapes.I, NIL)])
    n = ch.choose('length', range(0, 5))
    where = ch.choose('where', ['direct', 'nested', 'in list', 'inherited', 'group'])
    form = ch.choose('form', ['qualified', 'unqualified'])
    f = F('list', 'v', t, min=low, max=high, tag='i', nillable=True)
    values = {'v': [item] * n}
    inner = M('Inner', [F('elem', 'e', shapes.S, min=0), f])
    if where == 'direct':
        model = inner
    elif where == 'nested':
        model, values = M('Root', [F('elem', 'n', inner)]), {'n': values}
    elif where == 'in list':
        model, values = M('Root', [F('list', 'n', inner, min=None, tag='l')]), {'n': [values]}
    elif where == 'inherited':
        model = M('Root', [F('elem', 'z', shapes.S, min=0)], base=inner)
    else:
        model, values = M('Root', [F('group', 'n', inner)]), {'n': values}
    built = Built([model], form=form)
    # Lists longer than allowed cannot be built by the normal operations.
    obj = built.object(model, {k: ([] if k == 'v' else v) for k, v in values.items()} if 'v' in values else {})
    holder = obj
    if where == 'nested':
        obj.n = built.object(inner, {})
        holder = obj.n
    elif where == 'in list':
        obj.n.append(built.object(inner, {}))
        holder = obj.n[0]
    elif where == 'group':
        holder = obj.n
    for _ in range(n):
        list.append(holder.v, built.value(t, item))
    ch.step(2)
    ok = (low or 0) <= n and (high is None or n <= high)
    try:
        xml = obj.xml('doc', namespace='urn:m', elementFormDefault=form)
    except Exception as e:
        ch.check(not ok, f'rendering a list of {n} items (bounds {low}, {high}) failed: {e!r}')
        ch.note('refused')
        ch.state((low, high, n, where))
        return
    ch.check(ok, f'a list of {n} items (bounds {low}, {high}) was rendered: {xml!r}')
    d = diff(tree(model, values, '{urn:m}doc', 'urn:m', form), etree.fromstring(xml))
    ch.check(d is None, f'{d}: {xml!r}')
    ch.note('rendered')
    ch.state((low, high, n, where))


def attributes(ch):
    """Every subset of missing required attributes at several positions."""
    attrs = [F('attr', 'a', shapes.S, min=1), F('attr', 'b', shapes.I, min=1, tag='the-b'), F('attr', 'c', shapes.B, min=0)]
    where = ch.choose('where', ['direct', 'nested', 'in list', 'inherited', 'agroup', 'second level'])
    inner = M('Inner', attrs if where != 'inherited' else [F('elem', 'e', shapes.S, min=0)] + attrs)
    values, missing = {}, False
    for f, v in zip(attrs, ['', 0, False]):
        if ch.choose(f.name, ['set', 'unset', 'set to None']) == 'set':
            values[f.name] = v
        elif f.min:
            missing = True
    nested = dict(values)
    if where == 'direct':
        model = inner
    elif where == 'nested':
        model, nested = M('Root', [F('elem', 'n', inner, min=0)]), {'n': values}
    elif where == 'in list':
        model, nested = M('Root', [F('list', 'n', inner, min=None, tag='l')]), {'n': [{'a': 'x', 'b': 1}, values]}
    elif where == 'inherited':
        model = M('Root', [F('elem', 'z', shapes.S, min=0)], base=inner)
    elif where == 'agroup':
        model, nested = M('Root', [F('agroup', 'n', inner)]), {'n': values}
    else:
        mid = M('Mid2', [F('elem', 'n', inner)])
        model, nested = M('Root', [F('elem', 'm', mid)]), {'m': {'n': values}}
    form = ch.choose('form', ['qualified', 'unqualified'])
    built = Built([model], form=form)
    obj = built.object(model, nested)
    ch.step(2)
    try:
        xml = obj.xml('doc', namespace='urn:m', elementFormDefault=form)
    except Exception as e:
        ch.check(missing, f'{model!r} {nested!r}: rendering failed: {e!r}')
        ch.note('refused')
        return
    ch.check(not missing, f'rendered without a required attribute: {xml!r}')
    d = diff(tree(model, nested, '{urn:m}doc', 'urn:m', form), etree.fromstring(xml))
    ch.check(d is None, f'{d}: {xml!r}')
    ch.note('rendered')
    ch.state(xml)


def harnesses(tier):
    quick = tier == 'quick'
    out = [Harness('single', structure, {'width': 1}, split=1),
           Harness('pairs', structure, {'width': 2}, split=1, budget=1 if quick else 3),
           Harness('values', simple, split=1, budget=1),
           Harness('lists', lists, split=2),
           Harness('names', names, {'width': 2 if quick else 3}, split=3),
           Harness('schemas', schemas, split=2),
           Harness('wide', wide, {'most': 12 if quick else 24}, split=2),
           Harness('long', long, {'lengths': c01.LENGTHS if quick else c01.LENGTHS + [2047, 2049, 4097]}, split=2),
           Harness('attributes', attributes, split=2)]
    if not quick:
        out.append(Harness('triples', structure, {'width': 3}, split=2, budget=0))
    return out
