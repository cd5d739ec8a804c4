"""C05: a value is accepted exactly when it satisfies every declared facet."""
import decimal
import itertools
import math

from lxml import etree

from ..explore import Harness
from ..lib import xsdval
from ..lib.models import digits, facets_ok, number, whitespace, xsdname
from soapfish import xsd

TECHNIQUE = ('bounded exhaustive exploration: all facet combinations of an alphabet x all values of a small alphabet x all '
             'entry points on the real code, against an independent facet checker')
BOUNDS = {
    'quick': 'Strings: 2304 facet combinations x all 85 strings over {a, b, space, newline} of length 0..3 (length 0..2 by up to 10 '
             'entry points) with one deviation in the way the facets are declared (8 ways). Numbers: 5 types x ~1000 facet '
             'combinations x 30 values in up to 4 spellings by up to 10 entry points, same deviations.',
    'thorough': 'As quick with every way of declaration for every combination and all entry points for all values.',
}
ASSUMPTIONS = ['fractionDigits is an exact count in this library (fixed by its tests), only equal and larger counts are checked',
               'patterns are checked in the syntax that XSD and Python share']

STRINGS = [''.join(p) for n in range(4) for p in itertools.product('ab \n', repeat=n)]
ENTRIES = ['assign', 'construct', 'append', 'parse', 'extend', 'setitem', 'attr', 'attr-parse', 'insert', 'list-parse']
OTHER = {'enumeration': ['zzz'], 'pattern': 'zzz', 'length': 7, 'minLength': 7, 'maxLength': 7, 'whiteSpace': 'collapse',
         'minInclusive': 5, 'maxInclusive': -5, 'minExclusive': 5, 'maxExclusive': -5, 'totalDigits': 9, 'fractionDigits': 0}
REVERSE = {'enumeration': ['a', 'ab', 'b a', '', 'bb', 'zzz', *range(-200, 200)], 'pattern': '(.|\n)*', 'length': 0, 'minLength': 0,
           'maxLength': 0, 'whiteSpace': 'preserve', 'minInclusive': -10 ** 6, 'maxInclusive': 10 ** 6, 'minExclusive': -10 ** 6,
           'maxExclusive': 10 ** 6, 'totalDigits': 1, 'fractionDigits': 5}


def declare(base, facets, how):
    """A type with the facets, declared in one of several ways."""
    cls = getattr(xsd, base)
    names = sorted(facets)
    if how == 'argument':
        return cls(**facets)
    if how == 'subclass':
        return type('Sub', (cls,), dict(facets))()
    if how == 'both':
        return type('Sub', (cls,), {n: OTHER[n] for n in names})(**facets)
    if how == 'split':
        return type('Sub', (cls,), {n: facets[n] for n in names[::2]})(**{n: facets[n] for n in names[1::2]})
    if how == 'both reversed':
        return type('Sub', (cls,), {n: REVERSE[n] for n in names})(**facets)
    if how == 'instance of subclass':  # the arguments of one instance do not count for the next
        sub = type('Sub', (cls,), dict(facets))
        sub(**{n: OTHER[n] for n in names})
        return sub()
    if how in ('subsubclass', 'subsubclass reversed'):
        other = OTHER if how == 'subsubclass' else REVERSE
        sub = type('Sub', (cls,), {n: facets[n] for n in names[1::2]} | {n: other[n] for n in names[::2]})
        return type('SubSub', (sub,), {n: facets[n] for n in names[::2]})()
    raise KeyError(how)


HOWS = ['argument', 'subclass', 'both', 'split', 'subsubclass', 'both reversed', 'subsubclass reversed', 'instance of subclass']


def holder(t):
    return type('Holder', (xsd.ComplexType,), {'e': xsd.Element(t, minOccurs=0), 'l': xsd.ListElement(t, 'i'),
                                               'a': xsd.Attribute(t, use='optional')})


def enter(cls, entry, value, text):
    """Bring a value into an object; return what is stored there."""
    if entry == 'assign':
        o = cls()
        o.e = value
        return o.e
    if entry == 'construct':
        return cls(e=value).e
    if entry == 'attr':
        o = cls()
        o.a = value
        return o.a
    if entry in ('append', 'extend', 'setitem', 'insert'):
        o = cls()
        if entry == 'append':
            o.l.append(value)
        elif entry == 'extend':
            o.l.extend([value])
        elif entry == 'insert':
            o.l.insert(0, value)
        else:
            o.l[0:0] = [value]
        return o.l[0]
    e = etree.Element('doc')
    if entry == 'attr-parse':
        e.set('a', text)
        return cls.parse_xmlelement(e).a
    etree.SubElement(e, 'e' if entry == 'parse' else 'i').text = text
    o = cls.parsexml(etree.tostring(e))
    return o.e if entry == 'parse' else o.l[0]


def verdict(ch, cls, what, entry, value, text, ok, stored):
    ch.step()
    try:
        got = enter(cls, entry, value, text)
    except ValueError:
        ch.check(not ok, lambda: f'{what}: {value!r} is rejected by {entry}, but satisfies every facet')
        return
    except Exception as e:
        ch.fail(f'{what}: {value!r} by {entry} raised {e!r}, which is no ValueError')
    ch.check(ok, lambda: f'{what}: {value!r} is accepted by {entry}, but violates a facet')
    if stored is not None:
        ch.check(got == stored and type(got) is type(stored), lambda: f'{what}: {value!r} is stored as {got!r} by {entry}')


def strings(ch, full):
    base = ch.dev('base', ['String', 'AnyURI', 'NMTOKEN', 'QName'])
    facets = {
        'enumeration': ch.choose('enumeration', [None, ['a', 'ab', 'b a'], ['', 'bb']]),
        'pattern': ch.choose('pattern', [None, 'a+', 'a|ab', '[ab ]{2}']),
        'length': ch.choose('length', [None, 0, 2]),
        'minLength': ch.choose('minLength', [None, 0, 1, 2]),
        'maxLength': ch.choose('maxLength', [None, 0, 1, 2]),
        'whiteSpace': ch.choose('whiteSpace', [None, 'preserve', 'replace', 'collapse']),
    }
    facets = {k: v for k, v in facets.items() if v is not None}
    how = ch.choose('how', HOWS) if full else ch.dev('how', HOWS)
    t = declare(base, facets, how)
    cls = holder(t)
    what = f'{base} {facets} ({how})'
    accepted = 0
    for s in STRINGS:
        clean = whitespace(facets.get('whiteSpace'), s)
        ok = facets_ok('string', [facets], clean, clean)
        accepted += ok
        entries = ['assign'] if len(s) > 2 and not full else ENTRIES
        if not full and base != 'String':
            entries = ['assign', 'parse'] if len(s) < 3 else []
        if how != 'argument' and not full:
            entries = ['assign', 'parse'] if len(s) < 3 else []
        for entry in entries:
            if s == '' and entry in ('parse', 'list-parse'):
                continue  # an empty element has no text
            stored = clean if 'parse' not in entry else None
            if entry in ('attr-parse',) and ok:
                stored = clean
            verdict(ch, cls, what, entry, s, s, ok, stored)
    ch.state(what)
    ch.note('none accepted' if not accepted else 'all accepted' if accepted == len(STRINGS) else 'some accepted')


NUMBERS = [decimal.Decimal(x) for x in ['-100', '-10', '-2', '-1', '0', '1', '2', '3', '9', '10', '11', '99', '100', '101', '1000']]
FRACTIONS = [decimal.Decimal(x) for x in ['-1.5', '-1.0', '-0.5', '0.5', '0.05', '0.99', '1.5', '1.25', '2.5', '9.9', '10.01', '2.0001',
                                          '1.50', '0.10']]


def spellings(base, n):
    """Ways to give a number to a field: (value, text in a document)."""
    integral = n == n.to_integral_value() and n.as_tuple().exponent >= 0
    out = []
    if integral:
        out += [(int(n), str(n)), (str(n), str(n))]
        if n >= 0:
            out += [('+' + str(n), '+' + str(n)), ('0' + str(n), '0' + str(n))]
    else:
        out += [(str(n), str(n))]
    if base in ('Decimal', 'Double', 'Float'):
        out += [(n, str(n)), (float(n), repr(float(n)))]
    return out


def numbers(ch, full, bases):
    base = ch.choose('base', bases)
    facets = {
        'minInclusive': ch.choose('minInclusive', [None, 0, 2, -1]),
        'maxInclusive': ch.choose('maxInclusive', [None, 0, 10, -1]),
        'minExclusive': ch.choose('minExclusive', [None, 0, 1]),
        'maxExclusive': ch.choose('maxExclusive', [None, 0, 11]),
        'enumeration': ch.choose('enumeration', [None, [0, 2, 10], [decimal.Decimal('0.5'), 1]]
                                 if base in ('Decimal', 'Double', 'Float') else [None, [0, 2, 10]]),
    }
    if base not in ('Double', 'Float'):
        facets['totalDigits'] = ch.dev('totalDigits', [None, 1, 2, 3])
    facets['pattern'] = ch.dev('pattern', [None, '-?[0-9]', '1|10', '[0-9]{2,}'])
    facets = {k: v for k, v in facets.items() if v is not None}
    as_text = ch.dev('facets as', ['number', 'text', 'Decimal'])
    given = dict(facets)
    if as_text != 'number':
        for k in given:
            if k.startswith('m') or k == 'totalDigits':
                given[k] = str(given[k]) if as_text == 'text' or k == 'totalDigits' else decimal.Decimal(given[k])
            elif k == 'enumeration' and as_text == 'text':
                given[k] = [str(x) for x in given[k]]
    how = ch.dev('how', HOWS)
    if base in ('Integer', 'Int') and how not in ('argument', 'subclass', 'split'):
        how = 'split'  # facets of a derived integer type only narrow (C06)
    t = declare(base, given, how)
    cls = holder(t)
    what = f'{base} {given} ({how})'
    accepted = 0
    values = NUMBERS + (FRACTIONS if base in ('Decimal', 'Double', 'Float') else [])
    for n in values:
        for i, (value, text) in enumerate(spellings(base, n)):
            if 'pattern' in facets and (i > 1 or not isinstance(value, (int, str)) or not text.lstrip('-').isdigit()):
                continue  # the pattern is about the text, which Python numbers do not have
            ok = facets_ok('decimal', [facets], n, text.lstrip('+') if 'pattern' not in facets else text)
            accepted += ok
            short = i or not full and (n in FRACTIONS[5:] or how != 'argument' or as_text != 'number')
            if i > 1 and not full and how != 'argument':
                continue
            for entry in (['assign', 'parse'] if short else ENTRIES):
                verdict(ch, cls, what, entry, value, text, ok, None)
    if base in ('Double', 'Float'):
        bounds = {k: v for k, v in facets.items() if k.startswith('m')}
        for value, text in ((math.inf, 'INF'), (-math.inf, '-INF'), (math.nan, 'NaN')):
            if 'enumeration' in facets or 'pattern' in facets:
                ok = False
            elif math.isnan(value):
                ok = not bounds
            else:
                ok = facets_ok('double', [bounds], value, text)
            for entry in ENTRIES:
                verdict(ch, cls, what, entry, value, text, ok, None)
    else:
        for value in ('INF', 'NaN', '1e1', 'x', '', '1 0', '--1', '0x1', '1_0', '\u0661'):
            verdict(ch, cls, what, 'assign', value, value, False, None)
    ch.state(what)
    ch.note('none accepted' if not accepted else 'some accepted')


def fractions(ch):
    """fractionDigits with totalDigits: as many or too many digits."""
    limit = ch.choose('fractionDigits', [0, 1, 2, 3])
    total = ch.choose('totalDigits', [None, 1, 2, 3, 5])
    how = ch.choose('how', HOWS)
    sign = ch.choose('sign', ['', '-'])
    facets = {'fractionDigits': limit}
    if total is not None:
        facets['totalDigits'] = total
    cls = holder(declare('Decimal', facets, how))
    for whole in ('0', '1', '12', '345'):
        for frac in ('', '1', '12', '123', '1234', '05', '001'):
            if len(frac) < limit:
                continue
            text = sign + whole + ('.' + frac if frac else '')
            n = decimal.Decimal(text)
            ok = len(frac) == limit and (total is None or digits(n)[0] <= total)
            for value in (text, n):
                for entry in ENTRIES:
                    verdict(ch, cls, f'Decimal {facets} ({how})', entry, value, text, ok, None)
    ch.state((limit, total, how, sign))


def builtin(ch):
    """Types without facets accept exactly their value space, by every entry point."""
    base, good, bad = ch.choose('type', [
        ('String', ['', 'a', ' a\n'], [5, 1.5, True, b'a', ['a'], object()]),
        ('Boolean', [True, False], ['x', 5, 'truth', b'true', 1.5]),
        ('Int', [5, '5', ' 7 '], ['x', 1.5, '1.5', b'5', [1], decimal.Decimal('1.5')]),
        ('Decimal', [5, '5', '1.5', 1.5, decimal.Decimal('1.5')], ['x', b'5', [1], '1,5', '']),
        ('Date', [], ['2011-10-09x', 5, b'2011-10-09', 'x']),
        ('DateTime', [], [5, 'x', b'2011', 1.5]),
        ('Time', [], [5, 'x', b'10:00', 1.5]),
    ])
    t = getattr(xsd, base)
    for passed in (t, t()):
        cls = holder(passed)
        for v in good:
            for entry in ENTRIES:
                if 'parse' not in entry:
                    verdict(ch, cls, base, entry, v, None, True, None)
        for v in bad:
            for entry in ENTRIES:
                if 'parse' not in entry:
                    verdict(ch, cls, base, entry, v, None, False, None)
                elif isinstance(v, str) and base != 'String' and v != '':
                    verdict(ch, cls, base, entry, v, v, False, None)
    ch.state(base)


def harnesses(tier):
    full = tier == 'thorough'
    return [Harness('builtin', builtin),
            Harness('strings', strings, {'full': full}, split=3, budget=1, timeout=300),
            Harness('numbers', numbers, {'full': full, 'bases': ['Decimal', 'Integer', 'Int', 'Double']}, split=3, budget=2 if full else 1, timeout=300),
            Harness('numbers, float', numbers, {'full': full, 'bases': ['Float']}, split=3, budget=1, timeout=300),
            Harness('fractions', fractions, split=2)]
