"""
The value spaces and lexical forms of the XSD built-in types, written from the XSD recommendation (not from soapfish).

parse(type name, text) returns the value a text denotes; it raises Bad if the text is not in the lexical space.
"""
import datetime as dt
import decimal
import math
import re


class Bad(Exception):
    pass


WS = ' \t\r\n'

INT_RANGES = {
    'integer': (None, None),
    'nonNegativeInteger': (0, None),
    'positiveInteger': (1, None),
    'nonPositiveInteger': (None, 0),
    'negativeInteger': (None, -1),
    'long': (-2 ** 63, 2 ** 63 - 1),
    'int': (-2 ** 31, 2 ** 31 - 1),
    'short': (-2 ** 15, 2 ** 15 - 1),
    'byte': (-2 ** 7, 2 ** 7 - 1),
    'unsignedLong': (0, 2 ** 64 - 1),
    'unsignedInt': (0, 2 ** 32 - 1),
    'unsignedShort': (0, 2 ** 16 - 1),
    'unsignedByte': (0, 2 ** 8 - 1),
}

STRINGS = ('string', 'anyURI', 'QName', 'NMTOKEN', 'NMTOKENS', 'base64Binary', 'duration')


def _zone(text):
    if not text:
        return None
    if text == 'Z':
        return 0
    m = re.fullmatch(r'([+-])(\d\d):(\d\d)', text)
    h, mi = int(m.group(2)), int(m.group(3))
    if mi > 59 or h > 14 or (h == 14 and mi):
        raise Bad(text)
    return (h * 60 + mi) * (1 if m.group(1) == '+' else -1)


def _fraction(text):
    """Microseconds of a fraction (as in the Python value range)."""
    if not text:
        return 0
    digits = text[1:]
    if len(digits.rstrip('0')) > 6:
        raise Bad('more than microseconds: ' + text)
    return int(digits[:6].ljust(6, '0'))


def parse(name, text):
    if name in STRINGS:
        return text
    text = text.strip(WS)
    if name == 'boolean':
        if text in ('true', '1'):
            return True
        if text in ('false', '0'):
            return False
        raise Bad(text)
    if name in INT_RANGES:
        if not re.fullmatch(r'[+-]?[0-9]+', text):
            raise Bad(text)
        v = int(text)
        low, high = INT_RANGES[name]
        if (low is not None and v < low) or (high is not None and v > high):
            raise Bad(text)
        return v
    if name == 'decimal':
        if not re.fullmatch(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)', text):
            raise Bad(text)
        return decimal.Decimal(text)
    if name in ('float', 'double'):
        if text in ('INF', '-INF', 'NaN'):
            return {'INF': math.inf, '-INF': -math.inf, 'NaN': 'NaN'}[text]
        if not re.fullmatch(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?', text):
            raise Bad(text)
        return float(text)
    if name == 'date':
        m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)(Z|[+-]\d\d:\d\d)?', text, re.A)
        if not m:
            raise Bad(text)
        try:
            d = dt.date(int(m.group(1)), int(m.group(2)), int(m.group(3)))
        except ValueError:
            raise Bad(text)
        return ('date', d.year, d.month, d.day, _zone(m.group(4)))
    if name == 'dateTime':
        m = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)?', text, re.A)
        if not m:
            raise Bad(text)
        try:
            d = dt.datetime(*[int(m.group(i)) for i in range(1, 7)])
        except ValueError:
            raise Bad(text)
        return ('dateTime', d.year, d.month, d.day, d.hour, d.minute, d.second, _fraction(m.group(7)), _zone(m.group(8)))
    if name == 'time':
        m = re.fullmatch(r'(\d\d):(\d\d):(\d\d)(\.\d+)?(Z|[+-]\d\d:\d\d)?', text, re.A)
        if not m:
            raise Bad(text)
        try:
            t = dt.time(int(m.group(1)), int(m.group(2)), int(m.group(3)))
        except ValueError:
            raise Bad(text)
        return ('time', t.hour, t.minute, t.second, _fraction(m.group(4)), _zone(m.group(5)))
    raise KeyError(name)


def _minutes(delta):
    if delta is None:
        return None
    return int(delta.total_seconds() // 60)


def canon(name, value):
    """The same representation for a Python value as parse() gives for a text."""
    if name in STRINGS:
        if not isinstance(value, str):
            raise Bad(f'{value!r} is no str')
        return value
    if name == 'boolean':
        if value is not True and value is not False:
            raise Bad(f'{value!r} is no bool')
        return value
    if name in INT_RANGES:
        if isinstance(value, bool) or not isinstance(value, int):
            raise Bad(f'{value!r} is no int')
        return value
    if name == 'decimal':
        if isinstance(value, bool) or not isinstance(value, (int, float, decimal.Decimal)):
            raise Bad(f'{value!r} is no number')
        return decimal.Decimal(str(value))
    if name in ('float', 'double'):
        if isinstance(value, bool) or not isinstance(value, (int, float, decimal.Decimal)):
            raise Bad(f'{value!r} is no number')
        v = float(value)
        return 'NaN' if math.isnan(v) else v
    if name == 'date':
        if isinstance(value, dt.datetime):
            raise Bad(f'{value!r} is no date')
        tz = getattr(value, 'tzinfo', None)
        return ('date', value.year, value.month, value.day, _minutes(tz.utcoffset(None)) if tz is not None else None)
    if name == 'dateTime':
        return ('dateTime', value.year, value.month, value.day, value.hour, value.minute, value.second,
                value.microsecond, _minutes(value.utcoffset()))
    if name == 'time':
        return ('time', value.hour, value.minute, value.second, value.microsecond, _minutes(value.utcoffset()))
    raise KeyError(name)


def same(name, a, b):
    """Do two canonical values denote the same value?"""
    return type(a) is type(b) and a == b or (not isinstance(a, bool) and not isinstance(b, bool) and a == b)
