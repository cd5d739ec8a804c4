"""C06: integer types enforce their ranges; facets a user adds only narrow them."""
import decimal

from lxml import etree

from ..explore import Harness
from ..lib.models import digits
from ..lib.xsdval import INT_RANGES
from ..lib.models import xsdname
from soapfish import xsd

TECHNIQUE = ('bounded exhaustive exploration: all integer types x user facet combinations around the ends of the range x all '
             'values within 2 of every bound x entry points on the real code, against interval arithmetic')
BOUNDS = {
    'quick': 'All 13 integer types x no facet or every combination of up to 2 of 6 facets (6 to 9 values each, around both '
             'ends of the range), declared in 6 ways, x values within 2 of the ends '
             'and facets and of powers of ten, by assignment and parsing (without facets all 110 values within 2 of any '
             'built-in bound, as integer and as text, by 9 entry points).',
    'thorough': 'As quick with every combination of up to 3 facets and all values by all entry points.',
}
ASSUMPTIONS = ['a type derived from a user type does not widen the facets of that user type']

TYPES = ['Integer', 'NonNegativeInteger', 'PositiveInteger', 'NonPositiveInteger', 'NegativeInteger', 'Long', 'Int', 'Short',
         'Byte', 'UnsignedLong', 'UnsignedInt', 'UnsignedShort', 'UnsignedByte']
CENTRES = sorted({0, 10, 100, -10, -100, 50, -50, 10 ** 30, -10 ** 30} | {s * 2 ** n for n in (7, 8, 15, 16, 31, 32, 63, 64) for s in (1, -1)})
VALUES = sorted({c + d for c in CENTRES for d in (-2, -1, 0, 1, 2)})
NOT_INTEGERS = [1.5, 0.5, '1.5', '1e1', '0x10', 'x', '', ' ', '1 1', '1_0', '--1', '+', '-', 'INF', 'NaN', '\u0661', '1.', '1,0',
                decimal.Decimal('0.5'), float('inf'), float('nan'), b'1', [1], (1,), object(), 1j]
HOWS = ['argument', 'subclass', 'split', 'subsubclass', 'argument of a subclass', 'text']


def declare(base, facets, how):
    cls = getattr(xsd, base)
    names = sorted(facets)
    if how == 'argument':
        return cls(**facets)
    if how == 'text':
        return cls(**{k: [str(x) for x in v] if isinstance(v, list) else v if k == 'pattern' else str(v)
                      for k, v in facets.items()})
    if how == 'subclass':
        return type('Sub', (cls,), dict(facets))()
    if how == 'split':
        return type('Sub', (cls,), {n: facets[n] for n in names[::2]})(**{n: facets[n] for n in names[1::2]})
    if how == 'subsubclass':
        sub = type('Sub', (cls,), {n: facets[n] for n in names[::2]})
        return type('SubSub', (sub,), {n: facets[n] for n in names[1::2]})()
    sub = type('Sub', (cls,), {})
    return sub(**facets)


def inside(base, facets, n):
    low, high = INT_RANGES[xsdname(base)]
    if low is not None and n < low or high is not None and n > high:
        return False
    for name, v in facets.items():
        if (name == 'minInclusive' and n < v or name == 'maxInclusive' and n > v or name == 'minExclusive' and n <= v
                or name == 'maxExclusive' and n >= v or name == 'enumeration' and n not in v
                or name == 'totalDigits' and digits(decimal.Decimal(n) if abs(n) < 10 ** 25 else 0)[0] > v and abs(n) < 10 ** 25
                or name == 'totalDigits' and abs(n) >= 10 ** v):
            return False
    return True


def enter(cls, entry, value):
    if entry in ('parse', 'attr-parse', 'list-parse'):
        e = etree.Element('doc')
        if entry == 'attr-parse':
            e.set('a', str(value))
        else:
            etree.SubElement(e, 'e' if entry == 'parse' else 'i').text = str(value)
        o = cls.parse_xmlelement(e)
        return o.a if entry == 'attr-parse' else o.e if entry == 'parse' else o.l[0]
    o = cls()
    if entry == 'assign':
        o.e = value
    elif entry == 'construct':
        o = cls(e=value)
    elif entry == 'attr':
        o.a = value
        return o.a
    elif entry == 'append':
        o.l.append(value)
        return o.l[0]
    elif entry == 'extend':
        o.l.extend([value])
        return o.l[0]
    elif entry == 'setlist':
        o.l = [value]
        return o.l[0]
    return o.e


ENTRIES = ['assign', 'parse', 'construct', 'attr', 'append', 'extend', 'setlist', 'attr-parse', 'list-parse']


def holder(t):
    return type('Holder', (xsd.ComplexType,), {'e': xsd.Element(t, minOccurs=0), 'l': xsd.ListElement(t, 'i'),
                                               'a': xsd.Attribute(t, use='optional')})


def verdict(ch, cls, what, entry, value, n, ok):
    ch.step()
    try:
        got = enter(cls, entry, value)
    except ValueError:
        ch.check(not ok, lambda: f'{what}: {value!r} is rejected by {entry}')
        return
    except Exception as e:
        ch.fail(f'{what}: {value!r} by {entry} raised {e!r}, which is no ValueError')
    ch.check(ok, lambda: f'{what}: {value!r} is accepted by {entry}')
    if n is not None:
        ch.check(int(got) == n, lambda: f'{what}: {value!r} is stored as {got!r} by {entry}')


def plain(ch):
    base = ch.choose('type', TYPES)
    how = ch.choose('how', ['class', 'instance', 'subclass', 'subclass instance', 'subsubclass'])
    cls = getattr(xsd, base)
    sub = type('Sub', (cls,), {})
    t = {'class': cls, 'instance': cls(), 'subclass': sub, 'subclass instance': sub(),
         'subsubclass': type('SubSub', (sub,), {})}[how]
    h = holder(t)
    what = f'{base} ({how})'
    for n in VALUES:
        ok = inside(base, {}, n)
        for entry in ENTRIES:
            verdict(ch, h, what, entry, n, n, ok)
            verdict(ch, h, what, entry, str(n), n, ok)
        if n >= 0:
            verdict(ch, h, what, 'assign', '+' + str(n), n, ok)
            verdict(ch, h, what, 'parse', ' 00' + str(n) + '\n', n, ok)
        if ok:
            text = etree.fromstring(h(e=n).xml('doc')).findtext('e')
            ch.check(text.isascii() and int(text) == n and '_' not in text, lambda: f'{what}: {n} is rendered as {text!r}')
    for v in NOT_INTEGERS:
        for entry in ENTRIES:
            if 'parse' in entry and (not isinstance(v, str) or not v):
                continue
            verdict(ch, h, what, entry, v, None, False)
    ch.state((base, how))
    ch.note('done')


def bounds(base):
    low, high = INT_RANGES[xsdname(base)]
    ends = [x for x in (low, high) if x is not None]
    out = [0, 50, -50]
    for x in ends:
        out += [x - 1, x, x + 1]
    return sorted(set(out))


def user(ch, full):
    base = ch.choose('type', TYPES)
    ends = bounds(base)
    facets = {
        'minInclusive': ch.dev('minInclusive', [None] + ends),
        'maxInclusive': ch.dev('maxInclusive', [None] + ends),
        'minExclusive': ch.dev('minExclusive', [None] + ends),
        'maxExclusive': ch.dev('maxExclusive', [None] + ends),
        'enumeration': ch.dev('enumeration', [None, [0, 10, -50], ends]),
        'totalDigits': ch.dev('totalDigits', [None, 1, 2, 19]),
    }
    facets = {k: v for k, v in facets.items() if v is not None}
    if not facets:
        return
    how = ch.choose('how', HOWS)
    t = declare(base, facets, how)
    h = holder(t)
    what = f'{base} {facets} ({how})'
    entries = ENTRIES if full else ENTRIES[:2]
    accepted = 0
    near = ends + [0, 10, 100]
    for n in VALUES:
        if not full and abs(n) < 10 ** 29 and not any(abs(n - c) <= 2 for c in near):
            continue
        ok = inside(base, facets, n)
        accepted += ok
        for entry in entries:
            verdict(ch, h, what, entry, n, n, ok)
    for v in NOT_INTEGERS[:4]:
        verdict(ch, h, what, 'assign', v, None, False)
    ch.state(what)
    ch.note('empty' if not accepted else 'some')


def harnesses(tier):
    full = tier == 'thorough'
    return [Harness('plain', plain, split=2), Harness('user', user, {'full': full}, split=3, budget=3 if full else 2, timeout=120)]
