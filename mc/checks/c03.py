"""C03: objects are independent records that hold only accepted values (explicit-state search over histories)."""
import itertools

from ..explore import Search, Violation
from ..lib.models import Built, F, M, NIL, ST, read
from soapfish import xsd

TECHNIQUE = ('explicit-state model checking of operation histories on live objects in lockstep with a reference model of '
             'independent records (histories that reach equal states by the same last operation are merged)')
BOUNDS = {
    'quick': '5 alphabets of 40..75 operations (construct, assign, every list mutation, nested and group edits, render, '
             'parse, compare, print) over two live objects of the same, a derived and another class; all histories of '
             'depth 3 up to merged states, and of depth 2 from two objects parsed from the same document.',
    'thorough': 'The same alphabets to depth 4, from parsed objects to depth 3.',
}
ASSUMPTIONS = ['beyond the first operation (thorough: two) histories that lead to the same reference state by the same last operation are merged']

S3 = ST('String', maxLength=3)
INT = ST('Int')
BOOL = ST('Boolean')
LEAF = M('Leaf', [F('elem', 'v', S3, min=0), F('list', 'ns', INT, min=None, max=2, tag='n')])
GRP = M('Grp', [F('elem', 'g', S3, min=0), F('list', 'hs', INT, min=None, tag='h')])
AGR = M('Agr', [F('attr', 'ga', S3, min=0)])
RECORD = M('Record', [F('elem', 's', S3, min=0, nillable=True), F('list', 'items', INT, min=None, max=3, tag='item'),
                      F('attr', 'a', INT, min=0)])
DERIVED = M('DerivedRecord', [F('list', 'more', INT, min=None, max=2, tag='m'), F('elem', 't', BOOL, min=0)], base=RECORD)
NEST = M('Nest', [F('elem', 'leaf', LEAF, min=0, nillable=True), F('list', 'kids', LEAF, min=None, tag='kid', nillable=True),
                  F('elem', 's', S3, min=0)])
GROUPED = M('Grouped', [F('group', 'grp', GRP), F('agroup', 'agr', AGR, min=0), F('elem', 's', S3, min=0)])
PICK = M('Pick', [F('elem', 'p', S3, min=0), F('list', 'qs', INT, min=None, max=2, tag='q')], indicator='choice')
HOLD = M('Hold', [F('elem', 'pick', PICK, min=0), F('list', 'picks', PICK, min=None, tag='pk')])


class Rejected(Exception):
    pass


class Obj:
    """A reference object."""

    def __init__(self, m):
        self.m = m
        self.values = {}
        for f in m.fields:
            self.values[f.name] = [] if f.kind == 'list' else Obj(f.type) if f.kind in ('group', 'agroup') else None

    def dump(self):
        return {k: dump(v) for k, v in self.values.items()}


def dump(v):
    if isinstance(v, Obj):
        return v.dump()
    if isinstance(v, list):
        return [dump(x) for x in v]
    return v


def plain(m, obj):
    """The implementation's object in the same form."""
    out = {}
    for f in m.fields:
        v = getattr(obj, f.name)
        if f.kind == 'list':
            out[f.name] = [plain_value(f.type, x) for x in v]
        else:
            out[f.name] = plain_value(f.type, v)
    return out


def plain_value(t, v):
    if v is None:
        return None
    if v is xsd.NIL:
        return NIL
    if isinstance(t, ST):
        return v
    return plain(t, v)


def same(a, b):
    """Equality that does not confuse True with 1."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def accept(f, v):
    """The reference for what a field (or list item) accepts; v is a reference value."""
    if v is None:
        return None
    if v is NIL:
        if not f.nillable:
            raise Rejected
        return NIL
    if isinstance(f.type, M):
        if isinstance(v, Obj) and lineage(v.m, f.type):
            return v
        raise Rejected
    if f.type.base == 'String':
        if isinstance(v, str) and len(v) <= 3:
            return v
    elif f.type.base == 'Int':
        if isinstance(v, int) and not isinstance(v, bool) and -2 ** 31 <= v < 2 ** 31:
            return v
        if isinstance(v, str) and v.isdigit():
            return int(v)
    elif f.type.base == 'Boolean':
        if isinstance(v, bool):
            return v
    raise Rejected


def lineage(m, base):
    while m:
        if m is base:
            return True
        m = m.base
    return False


def has_none_items(v):
    if isinstance(v, Obj):
        return any(has_none_items(x) for x in v.values.values())
    return isinstance(v, list) and any(x is None or has_none_items(x) for x in v)


class World:
    """Two live objects in the implementation and in the reference."""

    def __init__(self, models):
        self.built = Built(models, form='qualified')
        self.models = models
        self.impl = [self.built.classes[id(m)]() for m in models]
        self.ref = [Obj(m) for m in models]
        self.parents = []

    # Values: literals, ('leaf', values) for a fresh nested object, ('of', slot, path) for the value of another object.
    def both(self, m, v):
        if isinstance(v, tuple) and v and v[0] == 'new':
            r = Obj(v[1])
            i = self.built.classes[id(v[1])]()
            for k, x in v[2].items():
                f = next(f for f in v[1].fields if f.name == k)
                r.values[k] = list(x) if f.kind == 'list' else x
                setattr(i, k, x)
            return i, r
        if isinstance(v, tuple) and v and v[0] == 'of':
            i, r = self.at(v[1], v[2])
            return i, r
        if v is NIL:
            return xsd.NIL, NIL
        if isinstance(v, list):
            pairs = [self.both(m, x) for x in v]
            return [p[0] for p in pairs], [p[1] for p in pairs]
        return v, v

    def at(self, slot, path):
        i, r = self.impl[slot], self.ref[slot]
        for p in path:
            if isinstance(p, int):
                if p >= len(r):
                    raise LookupError
                i, r = i[p], r[p]
            else:
                if not isinstance(r, Obj):
                    raise LookupError
                i, r = getattr(i, p), r.values[p]
        return i, r

    def field(self, slot, path, name):
        i, r = self.at(slot, path)
        if not isinstance(r, Obj):
            raise LookupError
        return i, r, next(f for f in r.m.fields if f.name == name)

    def check(self, what):
        for n, (i, r) in enumerate(zip(self.impl, self.ref)):
            got, want = plain(r.m, i), r.dump()
            if not same(got, want):
                raise Violation(f'after {what}: object {n} reads {got!r}, expected {want!r}')
        for m in self.models:
            fresh = self.built.classes[id(m)]()
            if not same(plain(m, fresh), Obj(m).dump()):
                raise Violation(f'after {what}: a new {m.name} is {plain(m, fresh)!r}')

    def canon(self):
        ids = {}

        def walk(v):
            if isinstance(v, Obj):
                if id(v) in ids:
                    return ('same', ids[id(v)])
                ids[id(v)] = len(ids)
                return (v.m.name, tuple((k, walk(x)) for k, x in v.values.items()))
            if isinstance(v, list):
                return tuple(walk(x) for x in v)
            return repr(v)
        return tuple(walk(r) for r in self.ref)

    # Operations; True if enabled.
    def apply(self, op):
        try:
            self._apply(op)
        except LookupError:
            return False
        return True

    def attempt(self, op, impl, ref):
        """Run an operation on both sides; ref computes first without changing anything if it is rejected."""
        try:
            ref()
            rejected = False
        except (Rejected, IndexError, ValueError):
            rejected = True
        try:
            impl()
        except Exception as e:
            if not rejected:
                raise Violation(f'{op}: rejected with {e!r}, expected to be accepted')
        else:
            if rejected:
                raise Violation(f'{op}: accepted, expected to be rejected')

    def _apply(self, op):
        kind, slot = op[0], op[1]
        if kind == 'new':
            m = self.models[slot]
            kwargs = op[2]
            pairs = {k: self.both(None, v) for k, v in kwargs.items()}
            made = []

            def ref():
                r = Obj(m)
                for k, (i, v) in pairs.items():
                    f = next(f for f in m.fields if f.name == k)
                    r.values[k] = self.ref_list(f, v) if f.kind == 'list' else accept(f, v)
                made.append(r)

            def impl():
                self.new = self.built.classes[id(m)](**{k: i for k, (i, v) in pairs.items()})
            self.attempt(op, impl, ref)
            if made:
                self.impl[slot], self.ref[slot] = self.new, made[0]
        elif kind == 'set':
            _, _, path, name, value = op
            i, r, f = self.field(slot, path, name)
            iv, rv = self.both(f.type, value)

            def ref():
                r.values[name] = self.ref_list(f, rv) if f.kind == 'list' else accept(f, rv)
            self.attempt(op, lambda: setattr(i, name, iv), ref)
            if isinstance(iv, list) and isinstance(value, list):
                iv.append('later')  # the caller's list is not the object's
        elif kind == 'list':
            _, _, path, name, what, args = op
            i, r, f = self.field(slot, path, name)
            li, lr = getattr(i, name), r.values[name]
            self.list_op(op, f, i, name, li, lr, what, args)
        elif kind == 'render':
            i = self.impl[slot]
            i.xml('doc', namespace='urn:m', elementFormDefault=op[2])
        elif kind == 'show':
            i, j = self.impl[slot], self.impl[1 - slot]
            str(i), repr(i), hash(i), i == j, i != j, i < j, i == i, i == None  # noqa: E711
            if isinstance(i, xsd.ComplexType):
                for f in self.ref[slot].m.fields:
                    repr(getattr(i, f.name)), str(getattr(i, f.name))
        elif kind == 'parse':
            # The other object becomes what this one was written as.
            target = op[2]
            if self.models[target] is not self.models[slot] and not lineage(self.models[slot], self.models[target]):
                raise LookupError
            i = self.impl[slot]
            if has_none_items(self.ref[slot]):
                raise LookupError  # an absent item has no XML form
            cls = self.built.classes[id(self.models[target])]
            self.impl[target] = cls.parsexml(i.xml('doc', namespace='urn:m', elementFormDefault='qualified'))
            self.ref[target] = self.reread(self.models[target], self.ref[slot])
        elif kind == 'reject-parse':
            # A document that is not accepted changes nothing.
            m = self.models[slot]
            cls = self.built.classes[id(m)]
            try:
                cls.parsexml(op[2])
            except Exception:
                pass
            else:
                raise Violation(f'{op}: accepted')
        else:
            raise KeyError(kind)

    def reread(self, m, r):
        """The reference object with the same content and no sharing."""
        out = Obj(m)
        for f in m.fields:
            v = r.values[f.name]
            if f.kind == 'list':
                out.values[f.name] = [self.reread(x.m, x) if isinstance(x, Obj) else x for x in v]
            elif isinstance(v, Obj):
                out.values[f.name] = self.reread(v.m, v)
            else:
                out.values[f.name] = v
        return out

    def ref_list(self, f, v):
        if v is None:
            return []
        if not isinstance(v, (list, tuple)):
            raise Rejected
        items = [accept(f, x) for x in v]
        if f.max is not None and len(items) > f.max:
            raise Rejected
        return items

    def list_op(self, op, f, i, name, li, lr, what, args):
        pairs = [self.both(f.type, a) if not isinstance(a, slice) else (a, a) for a in args]
        ia, ra = [p[0] for p in pairs], [p[1] for p in pairs]

        def ref():
            new = list(lr)
            if what == 'append':
                new.append(accept(f, ra[0]))
            elif what == 'insert':
                new.insert(ra[0], accept(f, ra[1]))
            elif what in ('extend', 'iadd', 'iadd-attr', 'extend-iterator'):
                new.extend([accept(f, x) for x in ra[0]])
            elif what == 'imul':
                new *= ra[0]
            elif what == 'setitem':
                if isinstance(ra[0], slice):
                    new[ra[0]] = [accept(f, x) for x in ra[1]]
                else:
                    new[ra[0]] = accept(f, ra[1])
            elif what == 'delitem':
                del new[ra[0]]
            elif what == 'pop':
                new.pop(*ra)
            elif what == 'remove':
                new.remove(ra[0])
            elif what == 'clear':
                new.clear()
            elif what == 'reverse':
                new.reverse()
            else:
                raise KeyError(what)
            if f.max is not None and len(new) > f.max:
                raise Rejected
            lr[:] = new

        def impl():
            if what == 'iadd':
                x = li
                x += ia[0]
            elif what == 'iadd-attr':
                # Through the attribute, which is assigned afterwards.
                exec(f'i.{name} += v', {'i': i, 'v': ia[0]})
            elif what == 'extend-iterator':
                li.extend(iter(ia[0]))
            elif what == 'imul':
                x = li
                x *= ia[0]
            elif what == 'setitem':
                li[ia[0]] = ia[1]
            elif what == 'delitem':
                del li[ia[0]]
            else:
                getattr(li, what)(*ia)
        self.attempt(op, impl, ref)


def make_run(models, unmerged, start=()):
    def run(history):
        w = World(models)
        w.check('construction')
        for op in (*start, *history):
            if not w.apply(op):
                return None
            w.check(op)
        if len(history) <= unmerged:
            return repr(history)
        return (w.canon(), repr(history[-1]))
    return run


def list_ops(slot, path, name):
    p = ('list', slot, path, name)
    return [
        p + ('append', (1,)), p + ('append', ('x',)), p + ('append', ('5',)), p + ('append', (NIL,)),
        p + ('insert', (0, 2)), p + ('insert', (-1, 3)), p + ('insert', (0, 1.5)),
        p + ('extend', ([1, 2],)), p + ('extend', ([1, 'x'],)), p + ('extend-iterator', ([4],)),
        p + ('iadd', ([3],)), p + ('iadd', ([3, 'x'],)), p + ('iadd-attr', ([6],)), p + ('iadd-attr', (['x'],)),
        p + ('imul', (2,)), p + ('imul', (0,)),
        p + ('setitem', (0, 5)), p + ('setitem', (0, 'x')), p + ('setitem', (-1, 7)), p + ('setitem', (0, 2 ** 31)),
        p + ('setitem', (slice(0, 1), [8, 9])), p + ('setitem', (slice(None), [])), p + ('setitem', (slice(0, 1), [1, 'x'])),
        p + ('setitem', (slice(0, 0), [1])), p + ('setitem', (slice(None, None, 2), [4])),
        p + ('setitem', (slice(1, None), [1, 2, 3])),
        p + ('delitem', (0,)), p + ('delitem', (slice(0, 2),)), p + ('pop', ()), p + ('pop', (0,)), p + ('remove', (1,)),
        p + ('clear', ()), p + ('reverse', ()),
    ]


def set_ops(slot, path, name, values):
    return [('set', slot, path, name, v) for v in values]


def common(slot):
    return [('render', slot, 'qualified'), ('show', slot), ('parse', slot, 1 - slot), ('parse', slot, slot)]


def alphabets():
    out = {}
    lists = []
    for s in (0, 1):
        lists += list_ops(s, (), 'items') if s == 0 else list_ops(s, (), 'items')[:8]
        lists += set_ops(s, (), 'items', [[1], [1, 2, 3], [1, 2, 3, 4], [1, 'x'], None, 'text', 5,
                                          ('of', 1 - s, ('items',)), ('of', s, ('items',))])
        lists += [('new', s, {}), ('new', s, {'items': [2]}), ('new', s, {'items': ['x']})]
        lists += common(s)
    out['lists'] = ([RECORD, RECORD], lists)
    scalars = []
    for s in (0, 1):
        scalars += set_ops(s, (), 's', ['a', 'abc', 'abcd', 5, None, NIL, b'x', ('of', 1 - s, ('s',))])
        scalars += set_ops(s, (), 'a', [0, 1, '7', 'x', 2 ** 31, None, NIL, 1.5])
        scalars += set_ops(s, (), 'items', [[1], [2, 1]])
        scalars += [('new', s, {}), ('new', s, {'s': 'n', 'a': 3}), ('new', s, {'s': 'toolong'}), ('new', s, {'s': 'ok', 'a': 'x'})]
        scalars += common(s) + [('reject-parse', s, '<doc a="x"><s>a</s></doc>'), ('reject-parse', s, '<doc><s>long-text</s></doc>'),
                                ('reject-parse', s, '<doc><s>ok</s><item>1</item><item>x</item></doc>'),
                                ('reject-parse', s, '<doc><item>1</item><item>1</item><item>1</item><item>1</item></doc>'),
                                ('reject-parse', s, '<doc><s>a</s>')]
    out['scalars'] = ([RECORD, RECORD], scalars)
    inherited = []
    for s in (0, 1):
        inherited += set_ops(s, (), 's', ['a', 'abcd', None]) + set_ops(s, (), 'a', [1, 'x'])
        inherited += list_ops(s, (), 'items')[:8] + set_ops(s, (), 'items', [[1], [1, 'x'], ('of', 1 - s, ('items',))])
        inherited += common(s) + [('new', s, {}), ('new', s, {'items': [2], 's': 'n'})]
    inherited += list_ops(1, (), 'more')[:8] + set_ops(1, (), 't', [True, False, 5, None]) + set_ops(1, (), 'more', [[1, 2], [1, 2, 3]])
    inherited += [('set', 1, (), 'more', ('of', 0, ('items',))), ('set', 0, (), 'items', ('of', 1, ('more',)))]
    out['inherited'] = ([RECORD, DERIVED], inherited)
    nested = []
    new = ('new', LEAF, {'v': 'a'})
    new2 = ('new', LEAF, {'v': 'b', 'ns': [1]})
    for s in (0, 1):
        nested += set_ops(s, (), 'leaf', [new, new2, None, NIL, 'text', 5, ('of', 1 - s, ('leaf',)), ('of', s, ('kids', 0)), ('new', GRP, {})])
        nested += set_ops(s, (), 'kids', [[new, new2], [NIL], [new, 'x'], ('of', 1 - s, ('kids',)), [('of', s, ('leaf',))]])
        nested += set_ops(s, ('leaf',), 'v', ['c', 'long!', None]) + list_ops(s, ('leaf',), 'ns')[:3]
        nested += set_ops(s, ('leaf',), 'ns', [[4, 5], [1, 2, 3]])
        nested += set_ops(s, ('kids', 0), 'v', ['d', 7]) + [('list', s, ('kids', 0), 'ns', 'append', (6,))]
        nested += [('list', s, (), 'kids', 'append', (new,)), ('list', s, (), 'kids', 'append', (5,)),
                   ('list', s, (), 'kids', 'append', (('of', s, ('leaf',)),)), ('list', s, (), 'kids', 'pop', ())]
        nested += common(s) + [('new', s, {}), ('new', s, {'leaf': new, 'kids': [new2]})]
    out['nested'] = ([NEST, NEST], nested)
    grouped = []
    for s in (0, 1):
        grouped += set_ops(s, ('grp',), 'g', ['a', 'abcd', None]) + list_ops(s, ('grp',), 'hs')[:4]
        grouped += set_ops(s, ('grp',), 'hs', [[1, 2], ['x']]) + set_ops(s, ('agr',), 'ga', ['a', 'b', 5])
        grouped += set_ops(s, (), 'grp', [('new', GRP, {'g': 'n'}), ('of', 1 - s, ('grp',)), 'text', ('new', LEAF, {})])
        grouped += set_ops(s, (), 's', ['a', 5]) + common(s) + [('new', s, {}), ('new', s, {'s': 'n'})]
    out['groups'] = ([GROUPED, GROUPED], grouped)
    choice = []
    newp, newq = ('new', PICK, {'p': 'a'}), ('new', PICK, {'qs': [1]})
    for s in (0, 1):
        choice += set_ops(s, (), 'pick', [newp, newq, None, 'x', ('of', 1 - s, ('pick',))])
        choice += [('list', s, (), 'picks', 'append', (newp,)), ('list', s, (), 'picks', 'append', (newq,)), ('list', s, (), 'picks', 'append', (None,))][:2]
        choice += set_ops(s, ('picks', 0), 'p', ['z', 'toolong']) + [('list', s, ('picks', 0), 'qs', 'append', (2,))]
        choice += set_ops(s, ('pick',), 'qs', [[3], [1, 2, 3]])
        choice += [c for c in common(s) if c[0] != 'parse'] + [('new', s, {}), ('new', s, {'pick': newp})]
    out['choices'] = ([HOLD, HOLD], choice)
    return out


STARTS = {
    'lists': [('new', 0, {'items': [2, 1]})],
    'nested': [('new', 0, {'leaf': ('new', LEAF, {'v': 'a'}), 'kids': [('new', LEAF, {'v': 'b', 'ns': [1]}), ('new', LEAF, {'v': 'a'})]})],
    'groups': [('new', 0, {'s': 'n'}), ('set', 0, ('grp',), 'g', 'a'), ('set', 0, ('grp',), 'hs', [1])],
}


def harnesses(tier):
    out = []
    for name, (models, ops) in alphabets().items():
        depth = 3 if tier == 'quick' else 4
        out.append(Search(name, make_run(models, depth - 2), ops, depth))
        if name in STARTS:
            # Both objects (and what they hold) were read from the same text.
            start = (*STARTS[name], ('parse', 0, 0), ('parse', 0, 1))
            out.append(Search(f'{name}, parsed', make_run(models, depth - 2, start), ops, depth - 1))
    return out
