"""XSD documents written from descriptions of models (independent of soapfish), and modules from generated code."""
import itertools
import keyword
import sys
import types
from xml.sax.saxutils import quoteattr

from .models import M, ST

XS = 'http://www.w3.org/2001/XMLSchema'


# Users may name their types like those of XSD.
BUILT_IN = 'duration string int date decimal boolean language token short anyURI float time NMTOKEN schema element long'.split()


class Style:
    """The ways to write the same schema."""

    def __init__(self, xs='xs', tns='tns', order='natural', root='named', explicit=False, case='upper'):
        self.xs, self.tns, self.order, self.root, self.explicit, self.case = xs, tns, order, root, explicit, case

    def __repr__(self):
        return f'xs={self.xs} tns={self.tns} order={self.order} root={self.root} explicit={self.explicit} case={self.case}'


def pyname(name):
    """The name of a field in generated code."""
    return '_' + name if keyword.iskeyword(name) else name


class XsdText:
    def __init__(self, elements, ns='urn:m', form='qualified', style=None, extra=''):
        self.ns, self.form, self.style = ns, form, style or Style()
        self.named = {}       # name -> text, in order of discovery (dependencies last)
        self.renamed = {}
        self.elements = elements
        self.extra = extra
        tops = []
        for name, t in elements.items():
            tops.append(self.top(name, t))
        items = list(self.named.values())
        if self.style.order == 'reversed':
            items.reverse()
        if self.style.order == 'elements first':
            parts = tops + items
        else:
            parts = items + tops
        x = self.x
        xmlns = f'xmlns:{self.style.xs}' if self.style.xs else 'xmlns'
        tns = f' xmlns:{self.style.tns}={quoteattr(ns)}' if self.style.tns else f' xmlns={quoteattr(ns)}'
        self.text = (f'<{x("schema")} {xmlns}="{XS}"{tns} targetNamespace={quoteattr(ns)}'
                     + (f' elementFormDefault="{form}"' if form else '') + f'>{extra}{"".join(parts)}</{x("schema")}>')

    def x(self, name):
        return f'{self.style.xs}:{name}' if self.style.xs else name

    def t(self, name):
        return f'{self.style.tns}:{name}' if self.style.tns else name

    def name(self, m):
        n = m.name
        if self.style.case == 'built-in':
            return self.renamed.setdefault(n, BUILT_IN[len(self.renamed)] if len(self.renamed) < len(BUILT_IN) else n)
        return n if self.style.case == 'upper' else n[0].lower() + n[1:]

    def top(self, name, t):
        x = self.x
        if isinstance(t, ST):
            ref, body = self.simple(t)
        elif self.style.root == 'anonymous':
            ref, body = None, self.complex_body(t, None)
        else:
            ref, body = self.complex(t), ''
        attrs = f' type={quoteattr(ref)}' if ref else ''
        return f'<{x("element")} name={quoteattr(name)}{attrs}>{body}</{x("element")}>'

    def restriction(self, t):
        x = self.x
        if t.parent:
            base = self.simple(t.parent)[0]
        else:
            base = x(t.xsd)
        out = f'<{x("restriction")} base={quoteattr(base)}>'
        for k, v in t.facets.items():
            for item in v if isinstance(v, list) else [v]:
                out += f'<{x(k)} value={quoteattr(str(item), {chr(9): "&#9;", chr(10): "&#10;"})}/>'
        return out + f'</{x("restriction")}>'

    def simple(self, t):
        """(name of the type, definition in place)"""
        x = self.x
        if t.via == 'class':
            return x(t.xsd), ''
        if t.via == 'instance':
            return None, f'<{x("simpleType")}>{self.restriction(t)}</{x("simpleType")}>'
        name = self.name(t)
        if name not in self.named:
            self.named[name] = ''
            self.named[name] = f'<{x("simpleType")} name={quoteattr(name)}>{self.restriction(t)}</{x("simpleType")}>'
            if t.parent:  # the base was discovered later, but is natural to come first
                self.named[name] = self.named.pop(name)
        return self.t(name), ''

    def attribute(self, f):
        x = self.x
        ref, body = self.simple(f.type)
        use = ' use="required"' if f.min else ' use="optional"' if self.style.explicit else ''
        return (f'<{x("attribute")} name={quoteattr(f.tagname)}' + (f' type={quoteattr(ref)}' if ref else '') + use
                + (f'>{body}</{x("attribute")}>' if body else '/>'))

    def element(self, f):
        x = self.x
        ref, body = self.simple(f.type) if isinstance(f.type, ST) else (self.complex(f.type), '')
        if f.kind == 'list':
            low, high = f.min or 0, 'unbounded' if f.max is None else f.max
        else:
            low, high = f.min, 1
        occurs = ''
        if low != 1 or self.style.explicit:
            occurs += f' minOccurs="{low}"'
        if high != 1 or self.style.explicit:
            occurs += f' maxOccurs="{high}"'
        nil = ' nillable="true"' if f.nillable else ' nillable="false"' if self.style.explicit else ''
        return (f'<{x("element")} name={quoteattr(f.tagname)}' + (f' type={quoteattr(ref)}' if ref else '') + occurs + nil
                + (f'>{body}</{x("element")}>' if body else '/>'))

    def content(self, m):
        x = self.x
        elements = ''.join(self.element(f) for f in m.own if f.kind in ('elem', 'list'))
        out = f'<{x(m.indicator)}>{elements}</{x(m.indicator)}>'
        for f in m.own:
            if f.kind == 'attr':
                out += self.attribute(f)
            elif f.kind == 'agroup':
                name = f.type.name
                if name not in self.named:
                    self.named[name] = (f'<{x("attributeGroup")} name={quoteattr(name)}>'
                                        + ''.join(self.attribute(a) for a in f.type.own) + f'</{x("attributeGroup")}>')
                out += f'<{x("attributeGroup")} ref={quoteattr(self.t(name))}/>'
        return out

    def complex_body(self, m, name):
        x = self.x
        attr = f' name={quoteattr(name)}' if name else ''
        body = ''
        if m.base:
            base = self.complex(m.base)
            body = (f'<{x("complexContent")}><{x("extension")} base={quoteattr(base)}>{self.content(m)}'
                    f'</{x("extension")}></{x("complexContent")}>')
        else:
            body = self.content(m)
        return f'<{x("complexType")}{attr}>{body}</{x("complexType")}>'

    def complex(self, m):
        name = self.name(m)
        if name not in self.named:
            self.named[name] = ''
            text = self.complex_body(m, name)
            del self.named[name]
            self.named[name] = text  # after what it uses
        return self.t(name)


_COUNT = itertools.count()


class Module:
    """A module made of generated code; removed from sys.modules by close()."""

    def __init__(self, code, name=None):
        self.name = name or f'mc_generated_{next(_COUNT)}'
        self.module = types.ModuleType(self.name)
        sys.modules[self.name] = self.module
        try:
            exec(compile(code, f'<{self.name}>', 'exec'), self.module.__dict__)
        except BaseException:
            del sys.modules[self.name]
            raise

    def __enter__(self):
        return self.module

    def __exit__(self, *args):
        sys.modules.pop(self.name, None)

    def schemas(self):
        from soapfish import xsd
        out = []
        for v in vars(self.module).values():
            if isinstance(v, xsd.Schema) and not any(v is s for s in out):
                out.append(v)
        return out


def cap(name):
    return name[0].upper() + name[1:]


def bind(built, m, module, root_name=None):
    """Let the classes of a generated module stand for the models (built: a models.Built without classes)."""
    if id(m) in built.classes:
        return
    built.classes[id(m)] = getattr(module, cap(root_name or m.name))
    if m.base:
        bind(built, m.base, module)
    for f in m.own:
        if isinstance(f.type, M):
            bind(built, f.type, module)
