"""C10: generated code does not depend on the order of declarations."""
import itertools
import os
import shutil
import tempfile

from lxml import etree

from ..explore import Harness
from ..lib.xsdtext import Module
from soapfish import wsdl2py, xsd, xsd2py

TECHNIQUE = ('bounded exhaustive exploration: all inheritance forests and import graphs up to the bound x all orders of '
             'declaration; the generated module is executed and its classes compared with the forest')
BOUNDS = {
    'quick': 'Complex types: all forests on 1..4 types x all orders, with 2 deviations (extension or restriction per type, content of '
             'each type, names, prefixes, place of the elements, references between types, anonymous derived roots); simple types: '
             'all forests on 1..4 types x all orders, with 1 deviation; complex and simple types mixed: 2+2, all forests and orders. '
             'Inline WSDL schemas: all acyclic import graphs on 1..4 schemas x all orders, with 1 deviation (use made of the '
             'imported types, place of the prefixes, element form, target). 7 to 12 types or schemas: 7 forests x 9 orders.',
    'thorough': 'As quick with 3 resp. 2 deviations; forests on 5 complex types without deviation, on 5 simple types.',
}
ASSUMPTIONS = ['libxml2 decides XSD validity correctly (it checks that the harness writes valid schemas)']

XS_NS = 'http://www.w3.org/2001/XMLSchema'
XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'
NS = 'urn:m'
LETTERS = 'ABCDEFGHIJKL'
NAMES = {
    'rising': [c + c.lower() for c in LETTERS],
    'falling': [c + c.lower() for c in reversed(LETTERS)],
    'lower': [c.lower() * 2 for c in LETTERS],
    'case': ['Item', 'ITEM', 'ItEm', 'ITem', 'IteM', 'ITEm', 'ITeM', 'ItEM', 'Items', 'ITEMS', 'ITems', 'IteMs'],
    'alike': ['Item', 'ItemX', 'ItemXItem', 'TheItem', 'I', 'It', 'Items', 'ItemTheItem', 'X', 'XItem', 'ItemI', 'II'],
}
# Above five types only some forests and orders.
FORESTS = {
    'chain': lambda i: i - 1, 'star': lambda i: 0, 'binary': lambda i: (i - 1) // 2, 'two chains': lambda i: i - 2 if i > 1 else None,
    'chain of stars': lambda i: (i - 1) // 3 * 3, 'star of chains': lambda i: i - 1 if i % 3 else 0, 'roots': lambda i: i - 1 if i % 2 else None,
}
ORDERS = {
    'reversed': lambda n: list(range(n))[::-1], 'rotated': lambda n: list(range(n // 2, n)) + list(range(n // 2)), 'odd first': lambda n: [*range(1, n, 2), *range(0, n, 2)],
    'even first, reversed': lambda n: [*range(0, n, 2)][::-1] + [*range(1, n, 2)][::-1], 'last first': lambda n: [n - 1, *range(n - 1)],
    'first last': lambda n: [*range(1, n), 0], 'in pairs': lambda n: [i ^ 1 if i ^ 1 < n else i for i in range(n)], 'from the middle': lambda n: sorted(range(n), key=lambda i: abs(i - n // 2)),
    'as they are': lambda n: list(range(n)),
}


def cap(name):
    return name[0].upper() + name[1:]


def forest(ch, n):
    """The parent (index or None) of each of n nodes; every node comes after its parent."""
    if n > 5:
        parent = FORESTS[ch.choose('forest', list(FORESTS))]
        return [None] + [parent(i) for i in range(1, n)]
    return [ch.choose(f'parent of {i}', [None] + list(range(i))) for i in range(n)]


def order(ch, items):
    items = list(items)
    if len(items) > 6:
        return [items[i] for i in ORDERS[ch.choose('order', list(ORDERS))](len(items))]
    out = []
    while items:
        item = ch.choose('next', items)
        items.remove(item)
        out.append(item)
    return out


def chain(parents, i):
    out = []
    while i is not None:
        out.append(i)
        i = parents[i]
    return out[::-1]


ENTRIES = ['alone', 'in a WSDL', 'included', 'imported', 'included twice', 'imported in a WSDL', 'included by an imported']


def translate(text, entry):
    """Generate code from a schema that is not necessarily given alone."""
    if entry == 'alone':
        return xsd2py.generate_code_from_xsd(text.encode())
    in_wsdl = lambda x: (f'<w:definitions xmlns:w="{WSDL}" targetNamespace="urn:w"><w:types>{x}</w:types></w:definitions>')
    if entry == 'in a WSDL':
        return wsdl2py.generate_code_from_wsdl(in_wsdl(text).encode(), 'client')
    folder = tempfile.mkdtemp(prefix='mc-c10-')
    try:
        def write(name, text):
            with open(os.path.join(folder, name), 'w') as f:
                f.write(text)
        write('types.xsd', text)
        include, imports = '<xs:include schemaLocation="types.xsd"/>', f'<xs:import namespace="{NS}" schemaLocation="types.xsd"/>'
        of = lambda inner, ns: f'<xs:schema {XS} targetNamespace="{ns}">{inner}</xs:schema>'
        if entry == 'included':
            return xsd2py.generate_code_from_xsd(of(include, NS).encode(), cwd=folder)
        if entry == 'included twice':
            write('middle.xsd', of(include, NS))
            return xsd2py.generate_code_from_xsd(of('<xs:include schemaLocation="middle.xsd"/>', NS).encode(), cwd=folder)
        if entry == 'imported':
            return xsd2py.generate_code_from_xsd(of(imports, 'urn:root').encode(), cwd=folder)
        if entry == 'imported in a WSDL':
            return wsdl2py.generate_code_from_wsdl(in_wsdl(of(imports, 'urn:root')).encode(), 'server', cwd=folder)
        if entry == 'included by an imported':
            write('middle.xsd', of(include, NS))
            return xsd2py.generate_code_from_xsd(of(imports.replace('types', 'middle'), 'urn:root').encode(), cwd=folder)
        raise KeyError(entry)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def filled(schemas):
    return [s for s in schemas if s.complexTypes or s.simpleTypes or s.elements]


def run_xsd(ch, text, entry='alone'):
    try:
        schema = etree.XMLSchema(etree.fromstring(text))
    except etree.XMLSchemaParseError as e:
        raise AssertionError(f'the check wrote an invalid XSD: {e}\n{text}')
    ch.step()
    code = translate(text, entry)
    try:
        return schema, Module(code), code.decode()
    except Exception as e:
        ch.fail(f'{text}\nthe generated code does not import: {e!r}\n{code.decode()}')


def complex_types(ch, n):
    parents = forest(ch, n)
    names = NAMES[ch.dev('names', list(NAMES))]
    perm = order(ch, range(n))
    how = [ch.dev(f'derivation of {i}', ['extension', 'restriction']) if p is not None else None for i, p in enumerate(parents)]
    content = [ch.dev(f'content of {i}', ['sequence', 'attribute', 'both', 'nothing']) for i in range(n)]
    prefix = ch.dev('prefix', ['t:', ''])
    place = ch.dev('elements', ['last', 'first'])
    link = ch.dev('references', ['none', 'to last', 'to first', 'all'])
    anonymous = ch.dev('root types', ['named', 'anonymous'])
    entry = ch.dev('entry', ENTRIES)
    fields = []   # own elements of each type
    for i in range(n):
        own = []
        if how[i] == 'restriction':
            own = [(a, t, '1') for k in chain(parents, parents[i]) for a, t, low in fields[k]
                   if k == chain(parents, parents[i])[-1] or how[k] != 'restriction']
            # restrictions repeat all that is inherited
            seen, all_ = set(), []
            for k in chain(parents, parents[i]):
                for a, t, low in fields[k]:
                    if a not in seen:
                        seen.add(a)
                        all_.append((a, t, '1' if t == 'xs:string' else low))
            own = all_
        elif content[i] in ('sequence', 'both'):
            # names that do not sort in the order of declaration
            own = [(f'{chr(122 - i)}{i}', 'xs:string', '0')]
            if link == 'all' or link == 'to last' and i == 0 or link == 'to first' and i == n - 1:
                targets = {'to last': [n - 1], 'to first': [0], 'all': range(n)}[link]
                own += [(f'r{i}{k}', prefix + names[k], '0') for k in targets]
        fields.append(own)
    attributes = [[f'{chr(113 - i)}a{i}'] if content[i] in ('attribute', 'both') and how[i] != 'restriction' else [] for i in range(n)]

    def body(i):
        inner = ''
        if fields[i] or content[i] in ('sequence', 'both') or how[i] == 'restriction':
            inner = '<xs:sequence>' + ''.join(f'<xs:element name="{a}" type="{t}" minOccurs="{low}"/>' for a, t, low in fields[i]) + \
                '</xs:sequence>'
        inner += ''.join(f'<xs:attribute name="{a}" type="xs:string"/>' for a in attributes[i])
        if parents[i] is not None:
            inner = f'<xs:complexContent><xs:{how[i]} base="{prefix}{names[parents[i]]}">{inner}</xs:{how[i]}></xs:complexContent>'
        return inner

    leaves = [i for i in range(n) if i not in parents] if anonymous == 'anonymous' else []
    if leaves and link != 'none':
        ch.skip()
    tops = ''.join(f'<xs:element name="{names[i]}"><xs:complexType>{body(i)}</xs:complexType></xs:element>' if i in leaves
                   else f'<xs:element name="doc{i}" type="{prefix}{names[i]}"/>'
                   for i in perm)
    types = ''.join(f'<xs:complexType name="{names[i]}">{body(i)}</xs:complexType>' for i in perm if i not in leaves)
    xmlns = f'xmlns{":t" if prefix else ""}="{NS}"'
    text = (f'<xs:schema {XS} {xmlns} targetNamespace="{NS}" elementFormDefault="qualified">'
            + (tops + types if place == 'first' else types + tops) + '</xs:schema>')
    xs, module, code = run_xsd(ch, text, entry)
    with module as mod:
        classes = [getattr(mod, cap(names[i]), None) for i in range(n)]
        for i in range(n):
            what = lambda: f'{text}\ntype {names[i]} in\n{code}'
            ch.check(isinstance(classes[i], type), what)
            base = xsd.ComplexType if parents[i] is None else classes[parents[i]]
            ch.check(classes[i].__bases__ == (base,), lambda: f'{what()}\nbases {classes[i].__bases__}, expected {base}')
        schemas = filled(module.schemas())
        ch.check(len(schemas) == 1 and {id(c) for c in schemas[0].complexTypes}
                 == {id(classes[i]) for i in range(n) if i not in leaves}, lambda: f'{text}\nschema\n{code}')
        for i in range(n):
            # All elements, inherited ones first.
            want, seen = [], set()
            for k in chain(parents, i):
                if how[k] == 'restriction':
                    want, seen = [], set()
                for a, t, low in fields[k]:
                    if a not in seen:
                        seen.add(a)
                        want.append((a, t))
            attrs = [a for k in chain(parents, i) for a in attributes[k]]
            root = etree.Element(f'{{{NS}}}{names[i] if i in leaves else f"doc{i}"}')
            obj = classes[i]()
            for a in attrs:
                root.set(a, 'v' + a)
                setattr(obj, a, 'v' + a)
            for a, t in reversed(want):
                if t != 'xs:string':
                    continue
                setattr(obj, a, 'v' + a)
            for a, t in want:
                if t == 'xs:string':
                    etree.SubElement(root, f'{{{NS}}}{a}').text = 'v' + a
            data = etree.tostring(root)
            if not xs.validate(root):
                raise AssertionError(f'invalid instance {data} {xs.error_log.last_error}\n{text}')
            ch.step(2)
            out = etree.fromstring(obj.xml(etree.QName(root).localname, namespace=NS, elementFormDefault='qualified'))
            got = ([(e.tag, e.text) for e in out], dict(out.attrib))
            expected = ([(e.tag, e.text) for e in root], dict(root.attrib))
            ch.check(got == expected, lambda: f'{text}\n{names[i]}: rendered {got}, expected {expected}\n{code}')
            back = classes[i].parsexml(data)
            for a in attrs + [a for a, t in want if t == 'xs:string']:
                ch.check(getattr(back, a) == 'v' + a, lambda: f'{text}\n{names[i]}.{a} of {data} is {getattr(back, a)!r}\n{code}')
            for a, t in want:
                if t != 'xs:string':
                    # references lead to the right class
                    k = names.index(t[len(prefix):])
                    setattr(obj, a, classes[k]())
                    try:
                        setattr(obj, a, xsd.ComplexType())
                    except (ValueError, TypeError):
                        continue
                    ch.fail(f'{text}\n{names[i]}.{a} accepts any complex type\n{code}')
        ch.state((tuple(parents), tuple(perm), tuple(how), tuple(content), tuple(names)))
        ch.note(f'{sum(p is not None for p in parents)} derived')


def simple_types(ch, n):
    parents = forest(ch, n)
    names = NAMES[ch.dev('names', list(NAMES))]
    perm = order(ch, range(n))
    base = ch.dev('base', ['string', 'int'])
    entry = ch.dev('entry', ENTRIES)
    prefix = ch.dev('prefix', ['t:', ''])
    place = ch.dev('elements', ['last', 'first'])
    facet, limit = ('maxLength', lambda i: 19 - i) if base == 'string' else ('maxInclusive', lambda i: 90 - i)
    types = ''.join(f'<xs:simpleType name="{names[i]}"><xs:restriction base="{"xs:" + base if parents[i] is None else prefix + names[parents[i]]}">'
                    f'<xs:{facet} value="{limit(i)}"/></xs:restriction></xs:simpleType>' for i in perm)
    holder = '<xs:complexType name="Holder"><xs:sequence>' + \
        ''.join(f'<xs:element name="e{i}" type="{prefix}{names[i]}" minOccurs="0"/>' for i in perm) + '</xs:sequence></xs:complexType>'
    text = (f'<xs:schema {XS} xmlns{":t" if prefix else ""}="{NS}" targetNamespace="{NS}">'
            + (holder + types if place == 'first' else types + holder) + '</xs:schema>')
    xs, module, code = run_xsd(ch, text, entry)
    with module as mod:
        classes = [getattr(mod, cap(names[i]), None) for i in range(n)]
        for i in range(n):
            want = (xsd.String if base == 'string' else xsd.Int) if parents[i] is None else classes[parents[i]]
            ch.check(isinstance(classes[i], type) and classes[i].__bases__ == (want,), lambda: f'{text}\ntype {names[i]} in\n{code}')
            obj = mod.Holder()
            good, bad = ('x' * limit(i), 'x' * (limit(i) + 1)) if base == 'string' else (limit(i), limit(i) + 1)
            ch.step(2)
            setattr(obj, f'e{i}', good)
            try:
                setattr(obj, f'e{i}', bad)
            except ValueError:
                continue
            ch.fail(f'{text}\n{names[i]} accepts {bad!r}\n{code}')
        ch.state((tuple(parents), tuple(perm), tuple(names), base))
        ch.note('simple')


def mixed(ch):
    """Simple and complex types declared in any order, attribute groups among them."""
    cp, sp = forest(ch, 2), forest(ch, 2)
    group = ch.choose('attribute group', [False, True])
    items = {}
    for i in range(2):
        items[f's{i}'] = (f'<xs:simpleType name="S{i}"><xs:restriction base="{"t:S0" if sp[i] == 0 else "xs:int"}">'
                          f'<xs:maxInclusive value="{9 - i}"/></xs:restriction></xs:simpleType>')
        own = (f'<xs:sequence><xs:element name="f{i}" type="t:S{1 - i}"/></xs:sequence><xs:attribute name="a{i}" type="t:S{i}"/>'
               + ('<xs:attributeGroup ref="t:G"/>' if group and i == 0 else ''))
        items[f'c{i}'] = (f'<xs:complexType name="C{i}">'
                          + (f'<xs:complexContent><xs:extension base="t:C0">{own}</xs:extension></xs:complexContent>'
                             if cp[i] == 0 else own) + '</xs:complexType>')
    if group:
        items['g'] = '<xs:attributeGroup name="G"><xs:attribute name="ga" type="t:S1"/></xs:attributeGroup>'
    perm = order(ch, items)
    entry = ch.dev('entry', ENTRIES)
    text = f'<xs:schema {XS} xmlns:t="{NS}" targetNamespace="{NS}">{"".join(items[k] for k in perm)}</xs:schema>'
    xs, module, code = run_xsd(ch, text, entry)
    with module as mod:
        what = lambda: f'{text}\n{code}'
        ch.check(mod.S1.__bases__ == ((mod.S0,) if sp[1] == 0 else (xsd.Int,)) and mod.S0.__bases__ == (xsd.Int,), what)
        ch.check(mod.C1.__bases__ == ((mod.C0,) if cp[1] == 0 else (xsd.ComplexType,)), what)
        for i in range(2):
            obj = getattr(mod, f'C{i}')()
            for name, limit in ((f'f{i}', 9 - (1 - i)), (f'a{i}', 9 - i)):
                ch.step(2)
                setattr(obj, name, limit)
                try:
                    setattr(obj, name, limit + 1)
                except ValueError:
                    continue
                ch.fail(f'{what()}\nC{i}.{name} accepts {limit + 1}')
        ch.state((tuple(cp), tuple(sp), group, tuple(perm)))
        ch.note('mixed')


WSDL = 'http://schemas.xmlsoap.org/wsdl/'
SOAP = 'http://schemas.xmlsoap.org/wsdl/soap/'


# The MD5 digests of neighbours start with the same 10 digits.
ALIKE = ['urn:n290212', 'urn:n781629', 'urn:n910088', 'urn:n1061190', 'urn:n1052500', 'urn:n1286470', *(f'urn:n{i}' for i in range(9))]


def inline(ch, n):
    """The inline schemas of a WSDL import one another."""
    if n > 5:
        parents = forest(ch, n)
        edges = {(i, k) for i, k in enumerate(parents) if k is not None}
        edges |= ch.choose('more imports', [set(), {(n - 1, k) for k in range(n - 1)}, {(i, 0) for i in range(1, n)}, {(i, k) for i in range(n) for k in range(i)}])
    else:
        edges = {(i, k) for i in range(n) for k in range(i) if ch.choose(f'{i} imports {k}', [False, True])}
    perm = order(ch, range(n))
    use = ch.dev('use', ['elements', 'none', 'base types', 'base types, elements'])
    where = ch.dev('prefixes', ['definitions', 'schemas', 'conflicting'])
    form = ch.dev('form', ['qualified', None])
    target = ch.dev('target', ['client', 'server'])
    sort = ch.dev('namespaces', ['rising', 'falling', 'alike'])
    twice = ch.dev('import written', ['once', 'twice'])
    ns = ALIKE[:n] if sort == 'alike' else [f'urn:n{i if sort == "rising" else 9 - i}' for i in range(n)]
    prefixes = ' '.join(f'xmlns:p{i}="{ns[i]}"' for i in range(n))
    schemas, base = [], {}
    for i in range(n):
        targets = [k for k in range(n) if (i, k) in edges]
        base[i] = targets[-1] if targets and use.startswith('base') else None
        fields = f'<xs:element name="own{i}" type="xs:string"/>'
        if 'elements' in use:
            fields += ''.join(f'<xs:element name="to{k}" type="p{k}:T{k}" minOccurs="0"/>' for k in targets)
        body = f'<xs:sequence>{fields}</xs:sequence>'
        if base[i] is not None:
            body = f'<xs:complexContent><xs:extension base="p{base[i]}:T{base[i]}">{body}</xs:extension></xs:complexContent>'
        schemas.append(
            f'<xs:schema {"" if where == "definitions" else prefixes} targetNamespace="{ns[i]}"'
            + (f' elementFormDefault="{form}"' if form else '') + '>'
            + ''.join(f'<xs:import namespace="{ns[k]}"/>' * (2 if twice == 'twice' else 1) for k in targets)
            + f'<xs:complexType name="T{i}">{body}</xs:complexType><xs:element name="e{i}" type="p{i}:T{i}"/></xs:schema>')
        if where == 'conflicting':
            # One prefix stands for XSD in some of the schemas, and for the own namespace in the others.
            old, uri = ('xs:', XS_NS) if i % 2 else (f'p{i}:', ns[i])
            schemas[-1] = schemas[-1].replace('<' + old, '<q:').replace('/' + old, '/q:').replace('"' + old, '"q:').replace(
                ' targetNamespace', f' xmlns:q="{uri}" targetNamespace', 1)
    last = perm[-1]
    text = f'''<w:definitions xmlns:w="{WSDL}" xmlns:s="{SOAP}" {XS} {prefixes} xmlns:tns="urn:w" targetNamespace="urn:w">
<w:types>{"".join(schemas[i] for i in perm)}</w:types>
<w:message name="In"><w:part name="body" element="p{last}:e{last}"/></w:message>
<w:message name="Out"><w:part name="body" element="p0:e0"/></w:message>
<w:portType name="PT"><w:operation name="Op"><w:input message="tns:In"/><w:output message="tns:Out"/></w:operation></w:portType>
<w:binding name="B" type="tns:PT"><s:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/>
<w:operation name="Op"><s:operation soapAction="urn:op"/><w:input><s:body use="literal"/></w:input><w:output><s:body use="literal"/></w:output>
</w:operation></w:binding>
<w:service name="S"><w:port name="P" binding="tns:B"><s:address location="http://h/p"/></w:port></w:service></w:definitions>'''
    ch.step()
    code = wsdl2py.generate_code_from_wsdl(text.encode(), target)
    try:
        module = Module(code)
    except Exception as e:
        ch.fail(f'{text}\nthe generated code does not import: {e!r}\n{code.decode()}')
    with module as mod:
        what = lambda: f'{text}\n{code.decode()}'
        found = module.schemas()
        by_ns = {s.targetNamespace: s for s in found}
        ch.check(len(found) == n and set(by_ns) == set(ns), lambda: f'{what()}\nschemas {[s.targetNamespace for s in found]}')
        position = {id(s): k for k, s in enumerate(found)}
        for i in range(n):
            s = by_ns[ns[i]]
            imports = {id(x) for x in s.imports}
            ch.check(imports == {id(by_ns[ns[k]]) for k in range(n) if (i, k) in edges},
                     lambda: f'{what()}\nimports of {ns[i]}: {[x.targetNamespace for x in s.imports]}')
            ch.check(all(position[id(x)] < position[id(s)] for x in s.imports), lambda: f'{what()}\n{ns[i]} precedes what it imports')
            ch.check([c.__name__ for c in s.complexTypes] == [f'T{i}'] and set(s.elements) == {f'e{i}'},
                     lambda: f'{what()}\ncontent of {ns[i]}')
            cls = getattr(mod, f'T{i}')
            want = xsd.ComplexType if base[i] is None else getattr(mod, f'T{base[i]}')
            ch.check(cls.__bases__ == (want,) and s.complexTypes[0] is cls, lambda: f'{what()}\nbases of T{i}')
            obj = cls()
            if 'elements' in use:
                for k in range(n):
                    if (i, k) in edges:
                        ch.step()
                        setattr(obj, f'to{k}', getattr(mod, f'T{k}')(**{f'own{k}': 'x'}))
            setattr(obj, f'own{i}', 'v')
            ch.step()
            out = obj.xml(f'e{i}', namespace=ns[i], elementFormDefault=form or 'unqualified')
            back = cls.parsexml(out)
            ch.check(getattr(back, f'own{i}') == 'v', lambda: f'{what()}\n{out}')
        service = mod.P_SERVICE
        ch.check(len(service.schemas) == n and {id(s) for s in service.schemas} == {id(s) for s in found},
                 lambda: f'{what()}\nschemas of the service')
        ch.state((n, tuple(sorted(edges)), tuple(perm), use, where, form, target, sort))
        ch.note(f'{len(edges)} imports')


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness(f'{n} complex types', complex_types, {'n': n}, split=3, budget={1: 3, 2: 3, 3: 2, 4: 1}[n] + (full and n > 1),
                   timeout=60) for n in range(1, 5)]
    out += [Harness(f'{n} simple types', simple_types, {'n': n}, split=3, budget=2 if full or n < 4 else 1) for n in range(1, 5)]
    out += [Harness('mixed', mixed, split=4, budget=1)]
    out += [Harness(f'{n} inline schemas', inline, {'n': n}, split=4, budget={1: 2, 2: 2, 3: 2, 4: 0}[n] + full) for n in range(1, 5)]
    for n in (7, 8, 12):
        out += [Harness(f'{n} complex types', complex_types, {'n': n}, split=2, budget=2 if full else int(n < 9), timeout=60),
                Harness(f'{n} simple types', simple_types, {'n': n}, split=2, budget=2 if full else 1, timeout=60)]
    out += [Harness(f'{n} inline schemas', inline, {'n': n}, split=3, budget=2 if full else int(n < 8), timeout=60) for n in (7, 9)]
    if full:
        out += [Harness('5 complex types', complex_types, {'n': 5}, split=6, budget=0),
                Harness('5 simple types', simple_types, {'n': 5}, split=6, budget=0)]
    return out
