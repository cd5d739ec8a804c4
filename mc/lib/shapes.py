"""The alphabets shared by several checks: kinds of fields, values of simple types, layouts of models."""
import datetime as dt
import decimal
import math

from soapfish.xsd_types import XSDDate

from .models import F, M, NIL, ST

UTC = dt.timezone.utc


def tz(minutes):
    return dt.timezone(dt.timedelta(minutes=minutes))


ZONES = [None, UTC, tz(0), tz(60), tz(-60), tz(330), tz(-210), tz(825), tz(-825), tz(840), tz(-840), tz(1), tz(-1), tz(-30)]

STRINGS = ['a', 'x<&>"\'y', ' p  q ', 'ü€\U0001d11e', 'nil', 'true', '0', 'None', '\t\n', 'a\nb', 'a\rb', ' ', ']]>',
           '&amp;', '<!--c-->', '0' * 300, '\u200b', '\xa0']

VALUES = {
    'String': STRINGS,
    'AnyURI': ['http://x/?a=1&b=2#c', 'urn:x'],
    'QName': ['a', 'p:a'],
    'NMTOKEN': ['a-b.c'],
    'NMTOKENS': ['a b'],
    'Base64Binary': ['YWI='],
    'Duration': ['P1DT2H'],
    'Boolean': [True, False],
    'Decimal': [0, 1, -1, 10 ** 14, decimal.Decimal('0.1'), decimal.Decimal('-1.50'), decimal.Decimal('1E+2'),
                decimal.Decimal('0.0000001'), decimal.Decimal('123456789.123456'), 0.5, -2.25, 1e-7, 100, 1000,
                decimal.Decimal('100.00'), decimal.Decimal('-0.05')],
    'Double': [0.0, 1.5, -1.5, 1e300, 1e-300, 1e22, 123456789.125, math.inf, -math.inf, math.nan, 3, 0.1],
    'Float': [0.0, 1.5, -2.0, 1e20, 1e-20, math.inf, -math.inf, math.nan],
    'Integer': [0, 1, -1, 10 ** 30, -10 ** 30, 7, 100],
    'NonNegativeInteger': [0, 1, 10 ** 20],
    'PositiveInteger': [1, 10 ** 20],
    'NonPositiveInteger': [0, -1, -10 ** 20],
    'NegativeInteger': [-1, -10 ** 20],
    'Long': [0, 2 ** 63 - 1, -2 ** 63],
    'Int': [0, 2 ** 31 - 1, -2 ** 31, 42],
    'Short': [0, 2 ** 15 - 1, -2 ** 15],
    'Byte': [0, 127, -128],
    'UnsignedLong': [0, 2 ** 64 - 1],
    'UnsignedInt': [0, 2 ** 32 - 1],
    'UnsignedShort': [0, 2 ** 16 - 1],
    'UnsignedByte': [0, 255],
    'Date': [XSDDate(y, m, d, tzinfo=z) for y, m, d in [(2000, 2, 29), (1, 1, 1), (987, 12, 31), (9999, 12, 31)]
             for z in ZONES[:2]] + [XSDDate(2011, 10, 9, tzinfo=z) for z in ZONES] + [dt.date(2012, 3, 4)],
    'DateTime': [dt.datetime(y, mo, d, h, mi, s, us, tzinfo=UTC) for y, mo, d, h, mi, s, us in
                 [(2000, 2, 29, 0, 0, 0, 0), (1, 1, 2, 1, 2, 3, 4), (987, 12, 31, 23, 59, 59, 999999),
                  (9999, 12, 30, 12, 0, 0, 500000), (2011, 6, 30, 10, 20, 30, 1000), (1969, 12, 31, 23, 59, 59, 100000)]]
                + [dt.datetime(2011, 10, 9, 8, 7, 6, 5, tzinfo=z) for z in ZONES if z is not None],
    'Time': [dt.time(h, mi, s, us, tzinfo=UTC) for h, mi, s, us in
             [(0, 0, 0, 0), (23, 59, 59, 999999), (12, 30, 0, 500000), (1, 2, 3, 4), (10, 20, 30, 120000)]]
            + [dt.time(8, 7, 6, 50, tzinfo=z) for z in ZONES if z is not None],
}

# Small alphabets for structural exploration.
S = ST('String')
I = ST('Int')
B = ST('Boolean')
D = ST('Date')
SV, IV, BV = ['a', 'b<&'], [7, 0], [True, False]

LEAF = M('Leaf', [F('elem', 'v', S, min=0), F('attr', 'k', I, min=0)])
REQ = M('Req', [F('attr', 'id', S), F('elem', 'n', I)])
MID = M('Mid', [F('elem', 'leaf', LEAF, min=0), F('list', 'ls', I, min=None, tag='l')])
PICK = M('Pick', [F('elem', 'p', S), F('elem', 'q', I), F('list', 'rs', I, min=None, max=2, tag='r')], indicator='choice')
ANY = M('Any', [F('elem', 'y', S, min=0), F('elem', 'x', I)], indicator='all')
GRP = M('Grp', [F('elem', 'g1', S), F('list', 'g2s', I, min=None, tag='g2')])
AGR = M('Agr', [F('attr', 'a1', S, min=0), F('attr', 'a2', I, min=0, tag='a-2')])
BASE = M('Basic', [F('elem', 'b1', S)])
DERIVED = M('Derived', [F('elem', 'a0', I, min=0), F('attr', 'w', S, min=0)], base=BASE)

LEAFV = [{}, {'v': 'a'}, {'v': 'b', 'k': 3}]
KINDS = [
    # label, kind, type, options, values (ABSENT is None)
    ('str', 'elem', S, {}, ['a', 'b<&']),
    ('int?', 'elem', I, {'min': 0}, [None, 7, 0]),
    ('nil', 'elem', S, {'min': 0, 'nillable': True}, [None, NIL, 'a']),
    ('tag', 'elem', B, {'min': 0, 'tag': 'class'}, [None, False, True]),
    ('attr?', 'attr', S, {'min': 0}, [None, '', 'a']),
    ('attr', 'attr', I, {'tag': 'x-y'}, [0, 5]),
    ('list', 'list', S, {'min': None, 'tag': 'item'}, [[], ['a'], ['b', 'a', 'b']]),
    ('list12', 'list', I, {'min': 1, 'max': 2, 'tag': 'no'}, [[0], [2, 1]]),
    ('nils', 'list', I, {'min': None, 'nillable': True, 'tag': 'opt'}, [[], [NIL], [1, NIL, 0]]),
    ('leaf?', 'elem', LEAF, {'min': 0}, [None] + LEAFV),
    ('req', 'elem', REQ, {}, [{'id': 'i', 'n': 1}]),
    ('leaves', 'list', LEAF, {'min': None, 'tag': 'lf', 'nillable': True}, [[], [LEAFV[2]], [LEAFV[1], NIL, LEAFV[0]]]),
    ('mid', 'elem', MID, {'min': 0, 'nillable': True}, [None, NIL, {'leaf': LEAFV[2], 'ls': [1, 2]}]),
    ('pick', 'elem', PICK, {}, [{'p': 'a'}, {'q': 0}, {'rs': [1]}, {'rs': [2, 1]}]),
    ('any', 'elem', ANY, {'min': 0}, [None, {'x': 1}, {'y': 'a', 'x': 0}]),
    ('derived', 'elem', DERIVED, {}, [{'b1': 'a'}, {'b1': 'a', 'a0': 1, 'w': 'z'}]),
    ('own-ns', 'elem', S, {'ns': 'urn:own', 'min': 0}, [None, 'a']),
    ('own-ns-list', 'list', I, {'ns': 'urn:own', 'min': None, 'tag': 'ol'}, [[], [1, 2]]),
    ('own-ns-nils', 'list', S, {'ns': 'urn:own', 'min': None, 'nillable': True, 'tag': 'on'}, [[], [NIL], ['a', NIL]]),
    ('no-ns', 'elem', I, {'ns': '', 'min': 0}, [None, 3]),
    ('no-ns-list', 'list', S, {'ns': '', 'min': None, 'nillable': True, 'tag': 'nl'}, [[], ['a', NIL]]),
    ('group', 'group', GRP, {}, [{'g1': 'a'}, {'g1': 'b', 'g2s': [1, 2]}]),
    ('agroup', 'agroup', AGR, {'min': 0}, [{}, {'a1': 'a', 'a2': 0}]),
    ('ref', 'ref', LEAF, {'min': 0}, [None, LEAFV[0], LEAFV[2]]),
    ('date', 'elem', D, {'min': 0, 'nillable': True}, [None, NIL, XSDDate(2011, 10, 9)]),
]
PLAIN = [k for k in KINDS if 'ns' not in k[3] and k[1] not in ('group', 'agroup', 'ref')]
# Names that sort differently from the order of declaration.
NAMES = ['z', 'Z', 'a', 'zz', 'y', 'b', 'x', 'c', 'w', 'd', 'v', 'e']


def field(kind, name):
    label, k, t, options, values = kind
    options = dict(options)
    if 'tag' in options:
        options['tag'] = options['tag'] + name
    return F(k, name, t, **options), values


def kinds(*labels, without=()):
    return [k for k in KINDS if (not labels or k[0] in labels) and k[0] not in without]


LAYOUTS = ['flat', 'inherit', 'inherit-late', 'wrapped']


def layout(how, fields):
    """A model with these fields; values apply to the same field names whatever the layout."""
    if how == 'flat' or len(fields) < 2 and how != 'wrapped':
        return M('Root', fields)
    if how == 'inherit':
        m = None
        for i, f in enumerate(fields):
            m = M('Root' if i == len(fields) - 1 else f'Base{i}', [f], base=m)
        return m
    if how == 'inherit-late':
        return M('Root', fields[-1:], base=M('Base0', fields[:-1]))
    if how == 'wrapped':
        return M('Root', [F('elem', 'w0', M('Inner', fields))])
    raise KeyError(how)
