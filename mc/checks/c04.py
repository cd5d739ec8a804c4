"""C04: simple values are written and read in their XSD lexical forms."""
import calendar
import datetime as dt
import decimal
import itertools
import math
import re

from lxml import etree

from ..explore import Harness
from ..lib import xsdval
from ..lib.models import lexical, offset, xsdname
from ..lib.shapes import VALUES, tz
from soapfish import xsd
from soapfish.xsd_types import XSDDate

TECHNIQUE = ('bounded exhaustive exploration of the lexical spaces (all zone offsets, calendar boundaries, digit forms, '
             'single-edit corruptions) on the real code against an independent implementation of the XSD value spaces')
BOUNDS = {
    'quick': 'All 1681 whole-minute zone offsets for date, time and dateTime; first, second, 9th, 10th and last days of every '
             'month of 14 years; 24 hours x 5 minutes x 3 seconds x 11 fractions; number forms sign x leading zeros x digits '
             'x fraction x exponent; every single-character deletion, replacement and insertion of 40 seed texts; written '
             'and read as element, attribute and list item.',
    'thorough': 'As quick with every day of the 14 years, every minute of the day, and double-edit corruptions.',
}
ASSUMPTIONS = ['ISO 8601 spellings beyond XSD that denote the same value may be accepted; 24:00:00, years outside 1..9999 '
               'and fractions finer than a microsecond are outside the statement']
YEARS = [1, 4, 99, 100, 987, 1000, 1582, 1899, 1900, 1970, 2000, 2011, 2024, 9999]
MICROS = [0, 1, 10, 100, 1000, 10000, 100000, 999999, 500000, 123456, 120000]
POSITIONS = ['elem', 'attr', 'list']
UTC = dt.timezone.utc
CLASSES = {}


def holder(base):
    if base not in CLASSES:
        t = getattr(xsd, base)
        CLASSES[base] = type('Holder', (xsd.ComplexType,), {
            'elem': xsd.Element(t, minOccurs=0), 'attr': xsd.Attribute(t, use='optional'), 'list': xsd.ListElement(t, 'item')})
    return CLASSES[base]


def write(base, position, value):
    """The text a value is rendered as."""
    cls = holder(base)
    if position == 'elem':
        obj = cls(elem=value)
    elif position == 'attr':
        obj = cls(attr=value)
    else:
        obj = cls(list=[value])
    e = etree.fromstring(obj.xml('doc'))
    if position == 'attr':
        return e.get('attr')
    return e[0].text


def read(base, position, text):
    """The value a text is read as; raises what the library raises."""
    cls = holder(base)
    e = etree.Element('doc')
    if position == 'attr':
        e.set('attr', text)
    else:
        etree.SubElement(e, 'elem' if position == 'elem' else 'item').text = text
    obj = cls.parsexml(etree.tostring(e))
    return obj.attr if position == 'attr' else obj.elem if position == 'elem' else obj.list[0]


class Summer(dt.tzinfo):
    """A zone with daylight saving time."""

    def utcoffset(self, when):
        return dt.timedelta(hours=2 if when is not None and 4 <= when.month <= 9 else 1)

    def dst(self, when):
        return self.utcoffset(when) - dt.timedelta(hours=1)

    def tzname(self, when):
        return 'X'


def written(ch, base, value, positions=POSITIONS):
    t = xsdname(base)
    want = xsdval.canon(t, value)
    for position in positions:
        ch.step()
        text = write(base, position, value)
        ch.state((base, text))
        try:
            got = xsdval.parse(t, text)
        except xsdval.Bad:
            ch.fail(f'{base} {value!r} is written as {text!r} ({position}), which is no valid {t}')
        ch.check(xsdval.same(t, got, want), f'{base} {value!r} is written as {text!r} ({position}), which denotes {got!r}')
        # What was written can be read.
        back = xsdval.canon(t, read(base, position, text))
        if t == 'dateTime' and want[-1] is None:
            continue
        if t == 'time' and want[-1] is None:
            continue
        ch.check(xsdval.same(t, back, want), f'{base} {value!r} written as {text!r} is read as {back!r} ({position})')


def reads(ch, base, text, positions=POSITIONS):
    """A valid text must be read as the value it denotes."""
    t = xsdname(base)
    want = xsdval.parse(t, text)
    for position in positions:
        ch.step()
        try:
            value = read(base, position, text)
        except Exception as e:
            ch.fail(f'{base} text {text!r} ({position}) is refused: {e!r}')
        try:
            got = xsdval.canon(t, value)
        except (xsdval.Bad, AttributeError) as e:
            ch.fail(f'{base} text {text!r} ({position}) is read as {value!r}: {e}')
        if t in ('dateTime', 'time') and want[-1] is None:
            got, expect = got[:-1], want[:-1]  # read as UTC
            ch.check(value.tzinfo is None or value.utcoffset() == dt.timedelta(0), f'{text!r}: zone {value!r}')
        else:
            expect = want
        ch.check(xsdval.same(t, got, expect), f'{base} text {text!r} ({position}) is read as {got!r}, denotes {expect!r}')
        ch.state((base, text))


def zones(ch):
    base = ch.choose('type', ['Date', 'Time', 'DateTime'])
    minutes = ch.choose('offset', range(-840, 841))
    z = tz(minutes)
    if base == 'Date':
        written(ch, base, XSDDate(2011, 10, 9, tzinfo=z))
        texts = ['2011-10-09']
    elif base == 'Time':
        written(ch, base, dt.time(23, 5, 0, tzinfo=z))
        written(ch, base, dt.time(0, 0, 0, 1, tzinfo=z), ['elem'])
        texts = ['23:05:00', '00:00:00.5']
    else:
        written(ch, base, dt.datetime(2011, 10, 9, 23, 5, 0, tzinfo=z))
        written(ch, base, dt.datetime(2012, 3, 1, 0, 0, 0, 10, tzinfo=z), ['elem'])
        texts = ['2011-10-09T23:05:00', '2012-02-29T00:00:00.25']
    for text in texts:
        reads(ch, base, text + offset(minutes))
        if minutes == 0:
            reads(ch, base, text + '+00:00')
            reads(ch, base, text + '-00:00')


def days(ch, every):
    year = ch.choose('year', YEARS)
    month = ch.choose('month', range(1, 13))
    last = calendar.monthrange(year, month)[1]
    for day in range(1, last + 1) if every else [1, 2, 9, 10, last]:
        for z in (None, UTC, tz(-300)):
            suffix = offset(None if z is None else 0 if z is UTC else -300)
            written(ch, 'Date', XSDDate(year, month, day, tzinfo=z), ['elem'])
            if z is None:
                written(ch, 'Date', dt.date(year, month, day), ['attr'])
            reads(ch, 'Date', '%04d-%02d-%02d%s' % (year, month, day, suffix), ['elem'])
            written(ch, 'DateTime', dt.datetime(year, month, day, 1, 2, 3, tzinfo=z), ['elem'])
            reads(ch, 'DateTime', '%04d-%02d-%02dT01:02:03%s' % (year, month, day, suffix), ['elem'])
        # A zone whose offset depends on the date.
        written(ch, 'DateTime', dt.datetime(year, month, day, 12, 0, 0, tzinfo=Summer()), ['elem'])
    for bad in ['%04d-%02d-%02d' % (year, month, d) for d in (0, last + 1, 32)]:
        refused(ch, 'Date', bad)
        refused(ch, 'DateTime', bad + 'T00:00:00')


def times(ch, every):
    hour = ch.choose('hour', range(24))
    minute = ch.choose('minute', range(60) if every else [0, 1, 9, 30, 59])
    for second, us in itertools.product([0, 9, 59], MICROS):
        for z, suffix in ((UTC, 'Z'), (tz(90), '+01:30'), (None, '')):
            written(ch, 'Time', dt.time(hour, minute, second, us, tzinfo=z), ['elem'])
            written(ch, 'DateTime', dt.datetime(2000, 1, 1, hour, minute, second, us, tzinfo=z), ['elem'])
            frac = '.%06d' % us
            for f in {frac, frac.rstrip('0').rstrip('.') or '', frac + '0'}:
                text = '%02d:%02d:%02d%s%s' % (hour, minute, second, f, suffix)
                reads(ch, 'Time', text, ['elem'])
                reads(ch, 'DateTime', '1999-12-31T' + text, ['elem'])


def numbers(ch):
    base = ch.choose('type', ['Integer', 'Int', 'Long', 'NonPositiveInteger', 'UnsignedByte', 'Decimal', 'Double', 'Float'])
    t = xsdname(base)
    sign = ch.choose('sign', ['', '+', '-'])
    zeros = ch.choose('zeros', ['', '0', '00'])
    digits = ch.choose('digits', ['', '0', '1', '7', '10', '42', '100', '127', '255', '2147483647', '9007199254740991'])
    for frac, exp, space in itertools.product(['', '.', '.0', '.5', '.50', '.05', '.000001', '.x'], ['', 'E2', 'e-3', 'E+0', 'e'],
                                              ['', ' ', '\n\t']):
        text = space + sign + zeros + digits + frac + exp + space
        try:
            xsdval.parse(t, text)
        except xsdval.Bad:
            refused(ch, base, text)
            ch.note('invalid')
        else:
            if base == 'Decimal' and len(zeros + digits + frac) > 15 and len(digits) > 10 and frac:
                continue  # more digits than a float holds
            reads(ch, base, text, ['elem'] if space else POSITIONS)
            ch.note('valid')


def values(ch):
    base = ch.choose('type', sorted(VALUES))
    value = ch.choose('value', VALUES[base])
    if base in ('Boolean', 'Date', 'DateTime', 'Time') or base in ('Decimal', 'Double', 'Float') or 'Integer' in base \
            or 'Int' in base or base in ('Long', 'Short', 'Byte', 'UnsignedLong', 'UnsignedShort', 'UnsignedByte'):
        written(ch, base, value)
        if base not in ('Boolean',):
            text = lexical(xsdname(base), value)
            for space in ('', ' ', '\n', '\t ', '\r\n'):
                reads(ch, base, space + text + space)
    else:
        written(ch, base, value)


def booleans(ch):
    text = ch.choose('text', ['true', 'false', '1', '0'])
    before, after = ch.choose('before', ['', ' ', '\n', '\t\r']), ch.choose('after', ['', ' ', '\n ', '\t'])
    reads(ch, 'Boolean', before + text + after)


def lenient(t, text):
    """Readings of texts beyond XSD that ISO 8601 gives (None if there is none)."""
    text = text.strip(xsdval.WS)
    zone = r'(Z|z|[+-]\d\d(:?\d\d)?)?'

    def minutes(z):
        if not z:
            return {None}
        if z in 'Zz':
            return {0}
        d = re.sub(r'\D', '', z)
        m = int(d[:2]) * 60 + int(d[2:] or 0)
        return {m if z[0] == '+' else -m}
    if t == 'date':
        m = re.fullmatch(r'(\d{4,})-(\d\d)-(\d\d)' + zone, text, re.A)
        if m:
            return {('date', int(m[1]), int(m[2]), int(m[3]), z) for z in minutes(m[4])}
    return set()


SEEDS = {
    'Boolean': ['true', 'false', '1', '0'],
    'Integer': ['0', '-12', '+7', '345'],
    'UnsignedByte': ['0', '25', '255'],
    'Decimal': ['1.5', '-0.25', '.5', '10.'],
    'Double': ['1.5E3', '-INF', 'NaN', 'INF', '2e-1'],
    'Date': ['2011-10-09', '2000-02-29Z', '2012-12-31+14:00', '1999-01-31-05:30'],
    'DateTime': ['2011-10-09T08:07:06Z', '2011-10-09T23:59:59.125+05:30'],
    'Time': ['08:07:06Z', '23:59:59.125-05:30'],
}


def edits(text, alphabet):
    yield ''
    for i in range(len(text)):
        yield text[:i] + text[i + 1:]
        for c in alphabet:
            yield text[:i] + c + text[i + 1:]
            yield text[:i] + c + text[i:]
    for c in alphabet:
        yield text + c
    for i in range(len(text) - 1):
        yield text[:i] + text[i + 1] + text[i] + text[i + 2:]


def refused(ch, base, text, position='elem'):
    """An invalid text must be refused with a ValueError, or be an ISO spelling of the value it is read as."""
    t = xsdname(base)
    ch.step()
    try:
        value = read(base, position, text)
    except ValueError:
        ch.state((base, text))
        return
    except Exception as e:
        ch.fail(f'{base} text {text!r}: {e!r} is no ValueError')
    if value is None and (text == '' or text == 'nil'):
        return
    try:
        got = xsdval.canon(t, value)
    except (xsdval.Bad, AttributeError) as e:
        ch.fail(f'{base} text {text!r} is read as {value!r}: {e}')
    ch.check(got in lenient(t, text), f'{base} text {text!r} denotes no value but is read as {got!r} ({position})')


def corruptions(ch, double):
    base = ch.choose('type', sorted(SEEDS))
    seed = ch.choose('seed', SEEDS[base])
    t = xsdname(base)
    alphabet = '0159+-.:TZxE ' if base not in ('DateTime', 'Time') else 'x?_Q'
    position = ch.choose('position', POSITIONS)
    texts = set(edits(seed, alphabet))
    if double:
        texts |= {y for x in list(texts) for y in edits(x, alphabet)}
    for text in sorted(texts):
        try:
            xsdval.parse(t, text)
        except xsdval.Bad:
            if base in ('DateTime', 'Time') and not set(text) & set('x?_Q'):
                continue  # truncated texts have ISO 8601 readings
            refused(ch, base, text, position)
            ch.note('invalid')
        else:
            reads(ch, base, text, [position])
            ch.note('valid')


def ranges(ch):
    """Components out of range."""
    base = ch.choose('type', ['Date', 'DateTime', 'Time'])
    what = ch.choose('component', ['month', 'day', 'hour', 'minute', 'second', 'zone', 'year'])
    year, month, day, hour, minute, second, zone = '2011', '10', '09', '08', '07', '06', ch.choose('suffix', ['', 'Z', '-02:00'])
    bad = {'month': ['00', '13', '99'], 'day': ['00', '32', '99'], 'hour': ['25', '99'], 'minute': ['60', '99'],
           'second': ['61', '99'], 'zone': ['+25:00', '-99:00', '+1', 'X', '+', 'ZZ'], 'year': ['0000', '-2011', '12011']}[what]
    position = ch.choose('position', POSITIONS)
    for b in bad:
        parts = {'year': year, 'month': month, 'day': day, 'hour': hour, 'minute': minute, 'second': second, 'zone': zone}
        parts[what] = b
        date = '{year}-{month}-{day}'.format(**parts)
        time = '{hour}:{minute}:{second}'.format(**parts)
        if base == 'Date' and what in ('hour', 'minute', 'second') or base == 'Time' and what in ('year', 'month', 'day'):
            continue
        text = {'Date': date, 'Time': time, 'DateTime': date + 'T' + time}[base] + parts['zone']
        if what == 'zone' and b == '+1' and base != 'Date':
            continue
        if what == 'year' and base == 'DateTime' and b == '12011':
            continue
        refused(ch, base, text, position)


def harnesses(tier):
    every = tier == 'thorough'
    return [Harness('booleans', booleans),
            Harness('values', values, split=2),
            Harness('zones', zones, split=2),
            Harness('days', days, {'every': every}, split=2),
            Harness('times', times, {'every': every}, split=2),
            Harness('numbers', numbers, split=3),
            Harness('ranges', ranges, split=2),
            Harness('corruptions', corruptions, {'double': every}, split=3, timeout=600)]
