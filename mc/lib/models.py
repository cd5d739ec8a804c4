"""
Descriptions of models (plain data), the soapfish classes built from them, and an independent reference:
what a rendered document looks like (tree), whether two documents agree (diff), and whether a document is valid (valid).
"""
import datetime as dt
import decimal
import math
import re

from lxml import etree

from soapfish import xsd

from . import xsdval

XSI = 'http://www.w3.org/2001/XMLSchema-instance'
XNIL = '{%s}nil' % XSI


class _Nil:
    def __repr__(self):
        return 'NIL'


NIL = _Nil()  # in object descriptions


def xsdname(base):
    return base if base in ('QName', 'NMTOKEN', 'NMTOKENS') else base[0].lower() + base[1:]


# --- Descriptions ------------------------------------------------------------
class ST:
    """A simple type: a built-in base with facets, declared by class, by instance or by subclass."""

    def __init__(self, base, via='class', name=None, parent=None, **facets):
        self.base, self.via, self.facets, self.name, self.parent = base, via, facets, name, parent
        if facets and via == 'class':
            self.via = 'instance'

    @property
    def xsd(self):
        return xsdname(self.base)

    def all_facets(self):
        """Facets from the root of the derivation to this type, one dict per step."""
        return (self.parent.all_facets() if self.parent else []) + [self.facets]

    def __repr__(self):
        f = ','.join(f'{k}={v!r}' for k, v in self.facets.items())
        return f'{self.base}[{self.via} {f}]' if f or self.via != 'class' else self.base


class F:
    """A field. kind: elem, attr, list, group (element group), agroup (attribute group), ref (to a complex type)."""

    def __init__(self, kind, name, type, min=1, max=None, tag=None, nillable=False, ns=None, byname=False):
        self.kind, self.name, self.type, self.min, self.max = kind, name, type, min, max
        self.tag, self.nillable, self.ns = tag, nillable, ns
        self.byinstance = False

    @property
    def tagname(self):
        return self.tag or self.name

    def renamed(self, name, tag=False):
        f = F(self.kind, name, self.type, self.min, self.max, self.tag if tag is False else tag, self.nillable, self.ns)
        f.byinstance = self.byinstance
        return f

    def __repr__(self):
        extra = ''.join(f' {k}={getattr(self, k)!r}' for k in ('max', 'tag', 'ns') if getattr(self, k) is not None)
        return f'{self.kind} {self.name}:{self.type!r} min={self.min}{" nillable" if self.nillable else ""}{extra}'


class M:
    """A complex type."""

    def __init__(self, name, fields, base=None, indicator='sequence'):
        self.name, self.own, self.base, self.indicator = name, list(fields), base, indicator
        self.ns = None  # of another schema

    @property
    def fields(self):
        return (self.base.fields if self.base else []) + self.own

    def __repr__(self):
        if self in M._printing:
            return self.name
        M._printing.append(self)
        try:
            return self._repr()
        finally:
            M._printing.pop()

    _printing = []

    def _repr(self):
        base = f'({self.base!r})' if self.base else ''
        ind = '' if self.indicator == 'sequence' else self.indicator + ' '
        return f'{self.name}{base}{{{ind}{"; ".join(map(repr, self.own))}}}'


# --- Building soapfish classes -----------------------------------------------
class Built:
    """The soapfish classes of some models, optionally in a schema."""

    def __init__(self, roots, ns='urn:m', form='qualified', schema=True, elements=None, location=None, imports=None,
                 includes=None):
        self.ns, self.form = ns, form
        self.classes = {}   # id(M) -> class
        self.simple = {}    # name -> class
        self.order = []     # complex types, dependencies first
        self.groups = []
        self.agroups = []
        self.foreign = {}   # class -> namespace of the other schema it belongs to
        for m in roots:
            self.model(m)
        self.schema = None
        if schema:
            for other in dict.fromkeys(self.foreign.values()):
                imported = xsd.Schema(other, elementFormDefault=form,
                                      complexTypes=[c for c in self.order if self.foreign.get(c) == other])
                imports = [*(imports or ()), imported]
            self.schema = xsd.Schema(
                ns, elementFormDefault=form, location=location,
                simpleTypes=list(self.simple.values()),
                attributeGroups=self.agroups,
                groups=self.groups,
                complexTypes=[c for c in self.order if c not in self.foreign],
                elements={name: xsd.Element(self.of(t)) for name, t in (elements or {}).items()},
                imports=imports, includes=includes)

    def of(self, t):
        return self.simple_type(t) if isinstance(t, ST) else self.model(t)

    def simple_type(self, t):
        cls = getattr(xsd, t.base)
        if t.via == 'class':
            return cls
        if t.via == 'instance':
            return cls(**t.facets)
        parent = self.simple_type(t.parent) if t.parent else cls
        if t.name not in self.simple:
            self.simple[t.name] = type(t.name, (parent,), dict(t.facets))
        return self.simple[t.name]

    def field(self, f):
        t = self.of(f.type)
        if f.byinstance:
            t = t()
        if f.kind == 'elem':
            return xsd.Element(t, minOccurs=f.min, tagname=f.tag, nillable=f.nillable, namespace=f.ns)
        if f.kind == 'list':
            return xsd.ListElement(t, f.tagname, minOccurs=f.min, maxOccurs=f.max, nillable=f.nillable, namespace=f.ns)
        if f.kind == 'attr':
            return xsd.Attribute(t, use='required' if f.min else 'optional', tagname=f.tag)
        return xsd.Ref(t, minOccurs=f.min)

    def model(self, m, root=xsd.ComplexType):
        if id(m) in self.classes:
            return self.classes[id(m)]
        base = self.model(m.base) if m.base else None
        attrs = {}
        for f in m.own:
            if f.kind == 'group':
                self.model(f.type, xsd.Group)
            elif f.kind == 'agroup':
                self.model(f.type, xsd.AttributeGroup)
            attrs[f.name] = self.field(f)
        attrs['INDICATOR'] = {'sequence': xsd.Sequence, 'choice': xsd.Choice, 'all': xsd.All}[m.indicator]
        if base:
            attrs['INHERITANCE'] = xsd.Inheritance.EXTENSION
        cls = type(m.name, (base or root,), attrs)
        self.classes[id(m)] = cls
        if m.ns:
            self.foreign[cls] = m.ns
        {xsd.Group: self.groups, xsd.AttributeGroup: self.agroups}.get(root, self.order).append(cls)
        return cls

    # Objects
    def value(self, t, v):
        if v is NIL:
            return xsd.NIL
        if isinstance(t, ST) or v is None:
            return v
        return self.object(t, v)

    def object(self, m, values, how='assign'):
        """The object of a model with the given values ({field name: value}, absent fields left alone)."""
        cls = self.classes[id(m)]
        ready = {}
        for f in m.fields:
            if f.name not in values:
                continue
            v = values[f.name]
            if f.kind == 'list':
                ready[f.name] = [self.value(f.type, x) for x in v]
            else:
                ready[f.name] = self.value(f.type, v)
        if how == 'init':
            return cls(**ready)
        obj = cls()
        for f in m.fields:
            if f.name in ready:
                if f.kind == 'list' and how == 'append':
                    for x in ready[f.name]:
                        getattr(obj, f.name).append(x)
                elif f.kind == 'list' and how == 'extend':
                    getattr(obj, f.name).extend(ready[f.name])
                else:
                    setattr(obj, f.name, ready[f.name])
        return obj


def read(m, obj):
    """The values of an object as a description, with simple values in canonical form."""
    out = {}
    for f in m.fields:
        v = getattr(obj, f.name)
        if f.kind == 'list':
            out[f.name] = [read_value(f.type, x) for x in v]
        else:
            out[f.name] = read_value(f.type, v)
    return out


def read_value(t, v):
    if v is None:
        return None
    if v is xsd.NIL:
        return NIL
    if isinstance(t, ST):
        try:
            return (t.xsd, xsdval.canon(t.xsd, v))
        except xsdval.Bad as e:
            return ('bad', str(e))
    return read(t, v)


def described(m, values):
    """What read() gives for an object with these values."""
    out = {}
    for f in m.fields:
        v = values.get(f.name)
        if f.kind == 'list':
            out[f.name] = [described_value(f.type, x) for x in (v or [])]
        elif v is None and f.kind in ('group', 'agroup'):
            out[f.name] = described(f.type, {})
        else:
            out[f.name] = described_value(f.type, v)
    return out


def described_value(t, v):
    if v is None or v is NIL:
        return v
    if isinstance(t, ST):
        return (t.xsd, xsdval.canon(t.xsd, v))
    return described(t, v)


# --- Reference documents -----------------------------------------------------
class N:
    """An element of a reference document; typed values beside the text."""

    def __init__(self, tag, attrs=None, children=None, text=None, value=None, avalues=None):
        self.tag, self.attrs, self.children, self.text = tag, attrs or {}, children or [], text
        self.value, self.avalues = value, avalues or {}

    def copy(self):
        return N(self.tag, dict(self.attrs), [c.copy() for c in self.children], self.text, self.value, dict(self.avalues))

    def nodes(self):
        yield self
        for c in self.children:
            yield from c.nodes()

    def etree(self):
        e = etree.Element(self.tag)
        for k, v in self.attrs.items():
            e.set(k, v)
        e.text = self.text
        for c in self.children:
            e.append(c.etree())
        return e

    def xml(self):
        return etree.tostring(self.etree()).decode()

    def __repr__(self):
        return self.xml()


def offset(minutes):
    if minutes is None:
        return ''
    if minutes == 0:
        return 'Z'
    return '%s%02d:%02d' % ('-' if minutes < 0 else '+', abs(minutes) // 60, abs(minutes) % 60)


def lexical(t, value):
    """A lexical form of a Python value."""
    c = xsdval.canon(t, value)
    if t in xsdval.STRINGS:
        return c
    if t == 'boolean':
        return 'true' if c else 'false'
    if t in xsdval.INT_RANGES:
        return str(c)
    if t == 'decimal':
        return format(c, 'f')
    if t in ('float', 'double'):
        if c == 'NaN':
            return 'NaN'
        return {math.inf: 'INF', -math.inf: '-INF'}.get(c) or repr(c)
    frac = lambda us: ('.%06d' % us).rstrip('0') if us else ''
    if t == 'date':
        return '%04d-%02d-%02d' % c[1:4] + offset(c[4])
    if t == 'dateTime':
        return '%04d-%02d-%02dT%02d:%02d:%02d' % c[1:7] + frac(c[7]) + offset(c[8])
    if t == 'time':
        return '%02d:%02d:%02d' % c[1:4] + frac(c[4]) + offset(c[5])
    raise KeyError(t)


def qname(ns, form, local, own=None):
    ns = own if own is not None else ns
    return f'{{{ns}}}{local}' if form == 'qualified' and ns else local


def tree(m, values, tag, home, form, root=None):
    """The document an object must be rendered as; home is the namespace of the types without one."""
    n = root or N(tag)
    ns = m.ns or home
    for f in m.fields:
        v = values.get(f.name)
        if f.kind == 'attr':
            if v is not None:
                n.attrs[f.tagname] = lexical(f.type.xsd, v)
                n.avalues[f.tagname] = (f.type.xsd, xsdval.canon(f.type.xsd, v))
        elif f.kind in ('group', 'agroup'):
            tree(f.type, v or {}, None, home, form, n)
        elif f.kind == 'list':
            for x in v or []:
                n.children.append(child(f, x, ns, home, form))
        elif v is not None:
            n.children.append(child(f, v, ns, home, form))
    return n


def child(f, v, ns, home, form):
    tag = qname(ns, form, f.tagname, f.ns)
    if v is NIL:
        return N(tag, {XNIL: 'true'})
    if isinstance(f.type, ST):
        return N(tag, text=lexical(f.type.xsd, v), value=(f.type.xsd, xsdval.canon(f.type.xsd, v)))
    return tree(f.type, v, tag, home, form)


def diff(n, e, path=''):
    """What is different between a reference document and an etree element (None if nothing)."""
    path += '/' + etree.QName(n.tag).localname
    if e.tag != n.tag:
        return f'{path}: found {e.tag}, expected {n.tag}'
    if set(e.attrib) != set(n.attrs):
        return f'{path}: attributes {sorted(e.attrib)}, expected {sorted(n.attrs)}'
    for k, text in n.attrs.items():
        if k in n.avalues:
            t, c = n.avalues[k]
            try:
                v = xsdval.parse(t, e.get(k))
            except xsdval.Bad:
                return f'{path}/@{k}: {e.get(k)!r} is no valid {t}'
            if not xsdval.same(t, v, c):
                return f'{path}/@{k}: {e.get(k)!r} denotes {v!r}, expected {c!r}'
        elif e.get(k) != text:
            return f'{path}/@{k}: {e.get(k)!r}, expected {text!r}'
    if n.value is not None:
        t, c = n.value
        try:
            v = xsdval.parse(t, e.text or '')
        except xsdval.Bad:
            return f'{path}: {e.text!r} is no valid {t}'
        if not xsdval.same(t, v, c):
            return f'{path}: {e.text!r} denotes {v!r}, expected {c!r}'
    elif (e.text or '').strip():
        return f'{path}: unexpected text {e.text!r}'
    kids = list(e)
    if [k.tag for k in kids] != [c.tag for c in n.children]:
        return f'{path}: children {[k.tag for k in kids]}, expected {[c.tag for c in n.children]}'
    for c, k in zip(n.children, kids):
        if (k.tail or '').strip():
            return f'{path}: unexpected text {k.tail!r}'
        d = diff(c, k, path)
        if d:
            return d
    return None


# --- Reference validity ------------------------------------------------------
def whitespace(mode, text):
    if mode == 'replace':
        return re.sub('[\t\r\n]', ' ', text)
    if mode == 'collapse':
        return re.sub('[ \t\r\n]+', ' ', text).strip(' ')
    return text


def digits(c):
    """(total digits, fraction digits) of a number."""
    d = decimal.Decimal(c).normalize() if c else decimal.Decimal(0)
    sign, ds, exp = d.as_tuple()
    if exp >= 0:
        return max(1, len(ds) + exp), 0
    return max(len(ds), -exp), -exp


def number(x):
    return decimal.Decimal(str(x))


def facets_ok(t, steps, c, text):
    """Does a canonical value with a text satisfy the facets (all steps of the derivation)?"""
    for facets in steps:
        for name, limit in facets.items():
            if limit is None:
                continue
            if name == 'enumeration':
                if t in xsdval.STRINGS:
                    if c not in limit:
                        return False
                elif not any(number(c) == number(x) for x in limit):
                    return False
            elif name == 'pattern':
                if not re.fullmatch(limit, text):
                    return False
            elif name == 'length':
                if len(c) != limit:
                    return False
            elif name == 'minLength':
                if len(c) < limit:
                    return False
            elif name == 'maxLength':
                if len(c) > limit:
                    return False
            elif name == 'totalDigits':
                if digits(c)[0] > int(limit):
                    return False
            elif name == 'fractionDigits':
                if digits(c)[1] > int(limit):
                    return False
            elif name == 'minInclusive':
                if not number(c) >= number(limit):
                    return False
            elif name == 'maxInclusive':
                if not number(c) <= number(limit):
                    return False
            elif name == 'minExclusive':
                if not number(c) > number(limit):
                    return False
            elif name == 'maxExclusive':
                if not number(c) < number(limit):
                    return False
            elif name != 'whiteSpace':
                raise KeyError(name)
    return True


def simple_ok(t, text):
    text = text or ''
    steps = t.all_facets()
    if t.xsd in xsdval.STRINGS:
        mode = None
        for facets in steps:
            mode = facets.get('whiteSpace', mode)
        text = whitespace(mode, text)
    try:
        c = xsdval.parse(t.xsd, text)
    except xsdval.Bad:
        return False
    return facets_ok(t.xsd, steps, c, text if t.xsd in xsdval.STRINGS else text.strip(xsdval.WS))


def flat(m):
    """Fields with groups resolved."""
    out = []
    for f in m.fields:
        out += flat(f.type) if f.kind in ('group', 'agroup') else [f]
    return out


def valid(m, n, ns, form):
    """Is the content of an element valid for a model?"""
    fields = flat(m)
    attrs = {f.tagname: f for f in fields if f.kind == 'attr'}
    for k, v in n.attrs.items():
        if k == XNIL:
            continue
        if k not in attrs or not simple_ok(attrs[k].type, v):
            return False
    if any(f.min and k not in n.attrs for k, f in attrs.items()):
        return False
    if (n.text or '').strip():
        return False
    elems = [f for f in fields if f.kind != 'attr']
    kids = n.children
    if not elems:
        return not kids and not n.text

    def bounds(f):
        if f.kind == 'list':
            return f.min or 0, math.inf if f.max is None else f.max
        return f.min, 1

    def ok(f, k):
        return k.tag == qname(ns, form, f.tagname, f.ns) and element_ok(f, k, ns, form)

    def same_tag(f, k):
        return k.tag == qname(ns, form, f.tagname, f.ns)

    if m.indicator == 'choice':
        if not kids:
            return any(bounds(f)[0] == 0 for f in elems)
        for f in elems:
            if all(ok(f, k) for k in kids) and bounds(f)[0] <= len(kids) <= bounds(f)[1]:
                return True
        return False
    if m.indicator == 'all':
        left = list(elems)
        for k in kids:
            f = next((f for f in left if same_tag(f, k)), None)
            if f is None or not ok(f, k):
                return False
            left.remove(f)
        return not any(bounds(f)[0] for f in left)
    i = 0
    for f in elems:
        low, high = bounds(f)
        count = 0
        while i < len(kids) and count < high and same_tag(f, kids[i]):
            if not ok(f, kids[i]):
                return False
            count += 1
            i += 1
        if count < low:
            return False
    return i == len(kids)


def element_ok(f, n, ns, form):
    nil = n.attrs.get(XNIL)
    if nil is not None:
        if nil.strip() not in ('true', 'false', '1', '0') or not f.nillable:
            return False
        if nil.strip() in ('true', '1'):
            if n.children or n.text:
                return False
            if isinstance(f.type, ST):
                return set(n.attrs) == {XNIL}
            bare = M(f.type.name, [x for x in flat(f.type) if x.kind == 'attr'])
            return valid(bare, n, ns, form)
    if isinstance(f.type, ST):
        return not n.children and not set(n.attrs) - {XNIL} and simple_ok(f.type, n.text)
    return valid(f.type, n, ns, form)


# --- Mutations ---------------------------------------------------------------
BAD_TEXTS = ['', 'x', '-1', '99999999999999999999999', 'true', '2000-02-30', '1.5', '  ', 'abcdefghijkl', 'NaN', '1 1']


def mutations(n, foreign='urn:other', texts=BAD_TEXTS):
    """All single mutations of a document: (description, document)."""
    positions = list(range(sum(1 for _ in n.nodes())))

    def at(i):
        c = n.copy()
        return c, list(c.nodes())[i]

    for i in positions:
        node = list(n.nodes())[i]
        name = etree.QName(node.tag).localname
        for k in list(node.attrs):
            c, x = at(i)
            del x.attrs[k]
            yield f'drop {name}@{k}', c
            if k != XNIL:
                c, x = at(i)
                x.attrs['un-' + k] = x.attrs.pop(k)
                yield f'rename {name}@{k}', c
                for t in texts:
                    if t != node.attrs[k]:
                        c, x = at(i)
                        x.attrs[k] = t
                        yield f'{name}@{k}={t!r}', c
        c, x = at(i)
        x.attrs['unknown'] = 'x'
        yield f'add {name}@unknown', c
        if i:
            c, x = at(i)
            x.attrs[XNIL] = 'true'
            yield f'nil {name} (content kept)', c
            c, x = at(i)
            x.attrs = {XNIL: 'true'}
            x.children, x.text = [], None
            yield f'nil {name}', c
            if node.attrs.get(XNIL):
                c, x = at(i)
                x.attrs[XNIL] = 'false'
                yield f'unnil {name}', c
        if not node.children:
            for t in texts:
                if t != (node.text or ''):
                    c, x = at(i)
                    x.text = t or None
                    yield f'{name}={t!r}', c
        else:
            c, x = at(i)
            x.text = 'stray'
            yield f'text in {name}', c
        for j in range(len(node.children)):
            kid = etree.QName(node.children[j].tag).localname
            c, x = at(i)
            del x.children[j]
            yield f'drop {name}/{kid}', c
            c, x = at(i)
            x.children.insert(j, x.children[j].copy())
            yield f'repeat {name}/{kid}', c
            c, x = at(i)
            x.children[j].tag += 'X'
            yield f'rename {name}/{kid}', c
            c, x = at(i)
            q = etree.QName(x.children[j].tag)
            x.children[j].tag = f'{{{foreign}}}{q.localname}'
            yield f'foreign {name}/{kid}', c
            c, x = at(i)
            x.children[j].tag = q.localname if q.namespace else f'{{urn:m}}{q.localname}'
            yield f'requalify {name}/{kid}', c
            for k in range(j + 1, len(node.children)):
                c, x = at(i)
                x.children[j], x.children[k] = x.children[k], x.children[j]
                yield f'swap {name}/{kid} {j},{k}', c
        for j in range(len(node.children) + 1):
            c, x = at(i)
            x.children.insert(j, N('unknown' if j % 2 else '{urn:m}unknown', text='x'))
            yield f'insert {name}/unknown at {j}', c
