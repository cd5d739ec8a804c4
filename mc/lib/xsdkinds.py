"""Kinds of declarations for XSD documents (C08, C09): label -> field and values."""
from . import shapes
from .models import F, M, NIL, ST
from .xsdtext import pyname
from soapfish.xsd_types import XSDDate

S, I, B, D = shapes.S, shapes.I, shapes.B, shapes.D


def named(base, name, parent=None, **facets):
    return ST(base, via='subclass', name=name, parent=parent, **facets)


def inline(base, **facets):
    return ST(base, via='instance', **facets)


CODE = named('String', 'Code', enumeration=['a', 'b&<">', "it's", '\\d', 'ü€'])
PAT = named('String', 'Pat', pattern=r'[a-c]\d+(\\|")?')
LEN = named('String', 'Len', minLength=2, maxLength=3)
FIX = named('String', 'Fix', length=2)
COL = named('String', 'Col', whiteSpace='collapse', maxLength=3)
NUM = named('Int', 'Num', minInclusive=0, maxInclusive=100)
SUB = named('Int', 'SubNum', parent=NUM, maxInclusive=10)
NUM2 = named('Decimal', 'Num2', minExclusive=-1, maxExclusive=10)
DIG = named('Decimal', 'Dig', totalDigits=3)
ENUM = named('Integer', 'Numbers', enumeration=[1, 5, 10])

LEAF = M('Leaf', [F('elem', 'v', S, min=0), F('attr', 'k', I, min=0)])
REQ = M('Req', [F('elem', 'n', I), F('attr', 'id', S)])
PICK = M('Pick', [F('elem', 'p', S), F('elem', 'q', I)], indicator='choice')
PICKS = M('PickMany', [F('elem', 'p', S), F('list', 'r', I, min=1, max=2)], indicator='choice')
ALL = M('AllOf', [F('elem', 'y', S, min=0), F('elem', 'x', I)], indicator='all')
BASE = M('Basic', [F('elem', 'b1', S), F('attr', 'w', S, min=0)])
DERIVED = M('Derived', [F('elem', 'a0', I, min=0), F('attr', 'u', S, min=0)], base=BASE)
TWICE = M('Twice', [F('elem', 'c', S)], base=DERIVED)
TREE = M('Tree', [F('elem', 'v', S, min=0)])
TREE.own.append(F('list', 'kid', TREE, min=0))
CHAIN = M('Chain', [F('elem', 'v', I)])
CHAIN.own.append(F('elem', 'next', CHAIN, min=0))
AGR = M('Agr', [F('attr', 'a1', S, min=0), F('attr', 'a2', I, min=0)])
KEY = M('Words', [F('elem', pyname('class'), S, tag='class', min=0), F('attr', pyname('from'), S, tag='from', min=0),
                  F('list', pyname('in'), I, tag='in', min=0)])
SAME = M('Same', [F('elem', 'Leaf', LEAF, min=0), F('list', 'Other', LEAF, min=0)])
DATES = M('Dates', [F('elem', 'd', D), F('attr', 'on', B, min=0)])


def elem(t, **kw):
    return lambda name: F('elem', name, t, **kw)


def attr(t, **kw):
    return lambda name: F('attr', name, t, **kw)


def lst(t, **kw):
    return lambda name: F('list', name, t, **kw)


# label, field, values, values of the field that are not accepted
class Kind(tuple):
    def __repr__(self):
        return self[0]


XKINDS = [Kind(k) for k in [
    ('str', elem(S), ['a', 'b<&'], [5]),
    ('int?', elem(I, min=0), [None, 7, 0], ['x', 2 ** 31]),
    ('nil', elem(S, nillable=True), [NIL, 'a'], [5]),
    ('nil?', elem(I, min=0, nillable=True), [None, NIL, 3], ['x']),
    ('bool', elem(B, min=0), [None, True, False], ['x']),
    ('code', elem(CODE), ['a', 'b&<">', "it's", '\\d', 'ü€'], ['c', '', 'd']),
    ('pat', elem(PAT, min=0), [None, 'a1', 'c12\\', 'b1"'], ['d1', 'a', 'a1x']),
    ('len', elem(LEN), ['ab', 'abc'], ['a', 'abcd']),
    ('fix', elem(FIX), ['ab'], ['a', 'abc']),
    ('col', elem(COL), ['a b'], ['abcd']),
    ('num', elem(NUM), [0, 100], [-1, 101]),
    ('sub', elem(SUB), [0, 10], [-1, 11, 100]),
    ('num2', elem(NUM2), [0, 9], [-1, 10]),
    ('dig', elem(DIG), [0, 999], [1000]),
    ('enum', elem(ENUM), [1, 10], [2]),
    ('in-code', elem(inline('String', enumeration=['x', "y'z"]), min=0), [None, 'x', "y'z"], ['y']),
    ('in-pat', elem(inline('String', pattern="[a-z]'+")), ["a'"], ['a', 'A']),
    ('in-num', elem(inline('Integer', minExclusive=0, maxExclusive=3)), [1, 2], [0, 3]),
    ('in-len', elem(inline('String', minLength=0, maxLength=2), min=0), [None, 'ab'], ['abc']),
    ('attr?', attr(S, min=0), [None, '', 'a'], [5]),
    ('attr', attr(I), [0, 5], ['x']),
    ('attr-num', attr(NUM, min=0), [None, 100], [101]),
    ('attr-in', attr(inline('String', enumeration=['p', 'q'])), ['p', 'q'], ['r']),
    ('list', lst(S, min=0), [[], ['a'], ['b', 'a', 'b']], [[5], 5]),
    ('list1', lst(S, min=1), [['a'], ['b', 'a']], [[5]]),
    ('list23', lst(I, min=2, max=3), [[0, 1], [2, 1, 0]], [[1, 2, 3, 4], ['x']]),
    ('nils', lst(I, min=0, max=2, nillable=True), [[], [NIL], [1, NIL]], [[1, 2, 3]]),
    ('list-code', lst(CODE, min=0), [[], ['a', 'ü€']], [['c']]),
    ('list-in', lst(inline('Int', maxInclusive=5), min=0, max=4), [[], [5, 0]], [[6]]),
    ('leaf?', elem(LEAF, min=0), [None, {}, {'v': 'b', 'k': 3}], ['x']),
    ('req', elem(REQ), [{'id': 'i', 'n': 1}], [5]),
    ('leaf-nil', elem(LEAF, nillable=True), [NIL, {'v': 'a'}], ['x']),
    ('leaves', lst(LEAF, min=0, nillable=True), [[], [{'v': 'a'}, NIL, {'k': 0}]], [['x']]),
    ('pick', elem(PICK), [{'p': 'a'}, {'q': 0}], [{}]),
    ('picks', lst(PICKS, min=0), [[], [{'p': 'a'}, {'r': [1, 2]}, {'r': [0]}]], ['x']),
    ('all', elem(ALL, min=0), [None, {'x': 1}, {'y': 'a', 'x': 0}], ['x']),
    ('derived', elem(DERIVED), [{'b1': 'a'}, {'b1': 'a', 'a0': 1, 'u': 'z', 'w': 'y'}], ['x']),
    ('twice', elem(TWICE, min=0), [None, {'b1': 'a', 'c': 'c'}, {'b1': 'a', 'a0': 2, 'c': 'c', 'w': 'w'}], ['x']),
    ('tree', elem(TREE), [{}, {'v': 'r', 'kid': [{'v': 'k', 'kid': [{}]}, {}]}], ['x']),
    ('chain', elem(CHAIN, min=0), [None, {'v': 1, 'next': {'v': 2, 'next': {'v': 3}}}], ['x']),
    ('agroup', lambda name: F('agroup', 'Agr', AGR), [{}, {'a1': 'a', 'a2': 0}], ['x']),
    ('words', elem(KEY), [{}, {'_class': 'c', '_from': 'f', '_in': [1, 2]}], ['x']),
    ('same', elem(SAME), [{}, {'Leaf': {'v': 'a'}, 'Other': [{'k': 1}, {}]}], ['x']),
    ('dates', elem(DATES, min=0), [None, {'d': XSDDate(2011, 10, 9), 'on': True}], ['x']),
    ('keyword', lambda name: F('elem', pyname('import'), S, tag='import', min=0), [None, 'a'], [5]),
    ('keyword-attr', lambda name: F('attr', pyname('def'), I, tag='def', min=0), [None, 1], ['x']),
    ('keyword-list', lambda name: F('list', pyname('lambda'), I, tag='lambda', min=0), [[], [1, 2]], [['x']]),
]]
XKINDS[27:27] = [Kind(k) for k in [
    ('list0-12', lst(I, min=0, max=12), [[], list(range(12))], [list(range(13))]),
    ('list11', lst(S, min=11), [list('abcdefghijk')], [[5]]),
]]


# Every built-in type, on its own.
def _builtins():
    for base in sorted(shapes.VALUES):
        values = [v for v in shapes.VALUES[base] if not (base == 'QName' and ':' in v) and v not in ('\t\n', ' ', 'a\rb')]
        values = values[:6] + values[-2:]
        bad = ['x'] if base not in ('String', 'AnyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'Base64Binary', 'Duration') else [5]
        t = ST(base)
        yield Kind((base, elem(t), values, bad))
        yield Kind((base + ' attr', attr(t, min=0), [None, *values], bad))
        yield Kind((base + ' list', lst(t, min=0, nillable=True), [[], [*values, NIL]], [bad]))
        if base in ('String', 'AnyURI', 'NMTOKEN'):
            ok, not_ok = ['ab', 'c'], ['abcd']
            facets = [{'maxLength': 2}, {'enumeration': ok}, {'pattern': '[a-c]*', 'maxLength': 3}]
        elif base in ('Float', 'Double') or base.endswith(('nteger', 'Int', 'Short', 'Byte', 'Long', 'Decimal')):
            sign = -1 if base in ('NonPositiveInteger', 'NegativeInteger') else 1
            ok, not_ok = [sign * 5, sign * 7], [sign * 3, sign * 20]
            low, high = sorted([sign * 5, sign * 10])
            facets = [{'minInclusive': low, 'maxInclusive': high}, {'minExclusive': low - 1, 'maxExclusive': high + 1},
                      {'enumeration': ok}]
        else:
            continue
        for i, f in enumerate(facets):
            yield Kind((f'{base} named {i}', elem(named(base, f'My{base}{i}', **f)), ok, not_ok))
            yield Kind((f'{base} in place {i}', elem(inline(base, **f), min=0), [None, *ok], not_ok))
            yield Kind((f'{base} attr in place {i}', attr(inline(base, **f)), ok, not_ok))


BUILTINS = list(_builtins())
LAYOUTS = ['flat', 'flat-all', 'flat-choice', 'inherit', 'wrapped', 'base']


def layout(how, fields, n=''):
    root = 'Root' + n
    if how == 'flat':
        return M(root, fields)
    if how == 'flat-all':
        return M(root, fields, indicator='all')
    if how == 'flat-choice':
        return M(root, fields, indicator='choice')
    if how == 'wrapped':
        return M(root, [F('elem', 'w0', M('Inner' + n, fields))])
    if how == 'inherit':
        return M(root, fields[-1:], base=M('Zero' + n, fields[:-1]))
    if how == 'base':
        return M(root, [F('elem', 'own', S, min=0)], base=M('Zero' + n, fields))
    raise KeyError(how)
