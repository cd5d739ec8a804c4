"""C11: import and include graphs are followed completely, once, and terminate."""
import ast
import collections
import os
import shutil
import sys
import tempfile

from lxml import etree

from ..explore import Harness
from ..lib.xsdtext import Module
from soapfish import soap, wsdl2py, xsd, xsd2py

TECHNIQUE = ('bounded exhaustive exploration: all import/include graphs up to the bound x namespaces x directory layouts, written '
             'to a scratch directory; the files opened are observed, the generated module is executed and compared with the graph')
BOUNDS = {
    'quick': 'Schema files: all directed graphs on 1..3 files (with self references) and all acyclic graphs on 4 files in which all '
             'files are reachable, x own or shared namespace per file, with 2 (3 files) resp. 1 deviations (4 directory layouts, '
             'spelling of references, order, chameleon includes, inheritance, entry through XSD or WSDL, working directory). '
             'WSDL files: all directed graphs on 1..3 files x every placement of message, port type, binding and service. 5, 8 and 12 files: 12 families of graphs; 7 layouts, one with names that differ in case only.',
    'thorough': 'As quick with 1 more deviation; all directed graphs on 4 files (schema and WSDL).',
}
ASSUMPTIONS = ['remote (http) references are outside the property', 'the root file may be emitted again when it is part of a cycle']

XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'
opened = None


def audit(event, args):
    if event == 'open' and opened is not None and isinstance(args[0], (str, bytes)):
        opened.append(os.path.abspath(os.fsdecode(args[0])))


sys.addaudithook(audit)


class Scratch:
    def __enter__(self):
        global opened
        self.cwd = os.getcwd()
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='mc-c11-'))
        opened = None
        return self

    def write(self, path, text):
        path = os.path.join(self.root, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)

    def watch(self):
        global opened
        opened = []

    def seen(self):
        global opened
        out, opened = {os.path.relpath(p, self.root) for p in opened if p.startswith(self.root + os.sep)}, None
        return out

    def __exit__(self, *args):
        global opened
        opened = None
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)


LAYOUTS = {
    'flat': ['f0', 'f1', 'f2', 'f3'],
    'nested': ['f0', 'd/f1', 'd/e/f2', 'd/e/g/f3'],
    'rising': ['d/e/g/f0', 'd/e/f1', 'd/f2', 'f3'],
    'repeated': ['s', 'd/s', 'd/d/s', 'd/d/d/s'],
    'crossed': ['a/r', 'a/b/s', 'b/s', 'b/b/s'],
    'same names': ['a/s', 'b/s', 'a/b/s', 's'],
    'alike': ['x1234837', 'x1550918', 'x700902', 'x2438487'],
    'case': ['Base', 'base', 'd/Base', 'D/base'],
}
# Above four files only some graphs; where they need it the files are in a directory of their own.
EDGES = {
    'chain': lambda n: {(i, i + 1) for i in range(n - 1)}, 'ring': lambda n: {(i, (i + 1) % n) for i in range(n)},
    'star': lambda n: {(0, i) for i in range(1, n)}, 'star and back': lambda n: {(0, i) for i in range(1, n)} | {(i, 0) for i in range(1, n)},
    'fan in': lambda n: {(0, i) for i in range(1, n)} | {(i, n - 1) for i in range(1, n - 1)},
    'tree': lambda n: {((i - 1) // 2, i) for i in range(1, n)}, 'ladder': lambda n: {(i, k) for i in range(n) for k in (i + 1, i + 2) if k < n},
    'all later': lambda n: {(i, k) for i in range(n) for k in range(i + 1, n)}, 'all': lambda n: {(i, k) for i in range(n) for k in range(n)},
    'late ring': lambda n: {(i, i + 1) for i in range(n - 1)} | {(n - 1, n // 2)},
    'diamonds': lambda n: {(i, k) for i in range(0, n, 3) for k in (i + 1, i + 2) if k < n} | {
        (k, i + 3) for i in range(0, n, 3) for k in (i + 1, i + 2) if i + 3 < n},
    'far': lambda n: {(i, i + 1) for i in range(n - 1)} | {(0, n - 1)},
}


def locations(layout, n):
    if n <= 4:
        return LAYOUTS[layout][:n]
    return [{'flat': f'f{i}', 'nested': 'd/' * i + f'f{i}', 'rising': 'd/' * (n - i) + f'f{i}', 'repeated': 'd/' * i + 's',
             'crossed': ('a/' if i % 2 else 'b/') * (i // 2) + f's{i}', 'same names': f'{"abcdefghijkl"[i // 2]}/{i % 2}/s',
             'alike': [*LAYOUTS['alike'], *(f'f{k}' for k in range(n))][i], 'case': f'{"dD"[i % 2]}/{"sS"[i // 2 % 2]}{i // 4}'}[layout] for i in range(n)]


SPELLINGS = {'plain': lambda p: p, 'dot': lambda p: './' + p, 'detour': lambda p: 'no/../' + p, 'absolute': None}


def graph(ch, n, acyclic, loops):
    if n > 4:
        return EDGES[ch.choose('graph', list(EDGES))](n)
    edges = set()
    for i in range(n):
        for k in range(n):
            if (k > i if acyclic else (i != k or loops)) and ch.choose(f'{i} refers to {k}', [False, True]):
                edges.add((i, k))
    reached = reach(edges, [0])
    if len(reached) < n:
        ch.skip()
    return edges


def reach(edges, start):
    reached, todo = set(start), list(start)
    while todo:
        i = todo.pop()
        for a, b in edges:
            if a == i and b not in reached:
                reached.add(b)
                todo.append(b)
    return reached


def cyclic(edges, n):
    return [i for i in range(n) if i in reach(edges, [b for a, b in edges if a == i])]


def reference(spelling, paths, i, k, root):
    if spelling == 'absolute':
        return os.path.join(root, paths[k])
    return SPELLINGS[spelling](os.path.relpath(paths[k], os.path.dirname(paths[i]) or '.'))


def files(ch, n, acyclic, loops):
    edges = graph(ch, n, acyclic, loops)
    shared = [True] + ([ch.choose(f'namespace of {i}', ['own', 'of the root']) == 'of the root' for i in range(1, n)] if n <= 4 else [
        {'own': False, 'of the root': True, 'by turns': i % 2 == 0, 'first': i < n // 2, 'last': i >= n // 2}[spaces]
        for spaces in [ch.choose('namespaces', ['own', 'of the root', 'by turns', 'first', 'last'])] for i in range(1, n)])
    layout = ch.dev('layout', list(LAYOUTS))
    spelling = ch.dev('spelling', list(SPELLINGS))
    order = ch.dev('order', [1, -1])
    chameleon = ch.dev('chameleon', [False, True])
    inherit = ch.dev('derived types', [False, True])
    entry = ch.dev('entry', ['xsd', 'wsdl', 'bytes', 'file'])
    here = ch.dev('working directory', ['elsewhere', 'that of the root'])
    names = ch.dev('reference names', ['prefixed', 'default'])
    form = ch.dev('form', ['qualified', None])
    alike = ch.dev('namespaces alike', [False, True])
    if chameleon and not any(shared[1:]):
        ch.skip()
    paths = [p + '.xsd' for p in locations(layout, n)]
    own = [None, 'urn:n290212', 'urn:n781629', 'urn:n910088', 'urn:n1061190'] if alike else []  # their MD5 digests start with the same 10 digits
    ns = ['urn:root' if shared[i] else own[i] if i < len(own) else f'urn:n{i}' for i in range(n)]
    # A file without namespace can be included only.
    none = [bool(chameleon and i and shared[i]) for i in range(n)]
    if any(none[b] and (not shared[a]) for a, b in edges):
        ch.skip()
    loop = cyclic(edges, n)
    if inherit and loop:
        ch.skip()
    with Scratch() as scratch:
        texts, base = [], {}
        for i in range(n):
            def ref(k):
                if none[i] and shared[k] or ns[k] == ns[i] and names == 'default':
                    return f'T{k}'
                return f'p{k}:T{k}'
            targets = [k for k in range(n) if (i, k) in edges][::order]
            refs = ''
            for k in targets:
                where = reference(spelling, paths, i, k, scratch.root)
                refs += (f'<xs:include schemaLocation="{where}"/>' if shared[i] and shared[k]
                         else f'<xs:import namespace="{ns[k]}" schemaLocation="{where}"/>')
            base[i] = targets[0] if targets and inherit else None
            fields = f'<xs:element name="own{i}" type="xs:string"/><xs:element name="s{i}" type="{ref(i).replace("T", "S")}" minOccurs="0"/>'
            fields += ''.join(f'<xs:element name="to{k}" type="{ref(k)}" minOccurs="0"/>' for k in targets if k != i)
            body = f'<xs:sequence>{fields}</xs:sequence>'
            if base[i] is not None:
                body = f'<xs:complexContent><xs:extension base="{ref(base[i])}">{body}</xs:extension></xs:complexContent>'
            prefixes = ' '.join(f'xmlns:p{k}="{ns[k]}"' for k in range(n))
            if names == 'default' and not none[i]:
                prefixes += f' xmlns="{ns[i]}"'
            texts.append(f'<xs:schema {XS} {prefixes}' + ('' if none[i] else f' targetNamespace="{ns[i]}"')
                         + (f' elementFormDefault="{form}"' if form else '')
                         + f'>{refs}<xs:simpleType name="S{i}"><xs:restriction base="xs:int"><xs:maxInclusive value="{i}"/>'
                         f'</xs:restriction></xs:simpleType><xs:complexType name="T{i}">{body}</xs:complexType>'
                         f'<xs:element name="e{i}" type="{ref(i)}"/></xs:schema>')
            scratch.write(paths[i], texts[i])
        what = lambda: '\n'.join(f'{p}: {t}' for p, t in zip(paths, texts))
        if not loop and len(set(ns)) in (1, n):
            try:
                etree.XMLSchema(file=os.path.join(scratch.root, paths[0]))
            except etree.XMLSchemaParseError as e:
                raise AssertionError(f'the check wrote an invalid XSD: {e}\n{what()}')
        cwd = os.path.join(scratch.root, os.path.dirname(paths[0]))
        os.chdir('/' if here == 'elsewhere' else cwd)
        data = texts[0]
        if entry == 'wsdl':
            data = (f'<w:definitions xmlns:w="http://schemas.xmlsoap.org/wsdl/" targetNamespace="urn:w"><w:types>{data}</w:types>'
                    '</w:definitions>')
        given = data.encode() if entry != 'xsd' else etree.fromstring(data)
        kw = {} if here != 'elsewhere' else {'cwd': cwd}
        scratch.watch()
        ch.step()
        if entry == 'wsdl':
            code = wsdl2py.generate_code_from_wsdl(given, 'client', **kw)
        else:
            code = xsd2py.generate_code_from_xsd(given, **kw)
        seen = scratch.seen()
        expected = {paths[k] for k in reach(edges, [b for a, b in edges if a == 0])}
        ch.check(seen - {paths[0]} == expected - {paths[0]}, lambda: f'{what()}\nopened {sorted(seen)}, expected {sorted(expected)}')
        emitted(ch, code, [f'{c}{i}' for i in range(n) for c in 'TS'], ['T0', 'S0'] if 0 in loop else [], what)
        ch.state((n, tuple(sorted(edges)), tuple(shared), layout, spelling, order, chameleon, inherit, entry, here))
        if loop:
            ch.note('cyclic')
            return
        ch.note('acyclic')
        try:
            module = Module(code)
        except Exception as e:
            ch.fail(f'{what()}\nthe generated code does not import: {e!r}\n{code.decode()}')
        with module as mod:
            shown = lambda: f'{what()}\n{code.decode()}'
            owner = {}
            for s in module.schemas():
                for c in s.complexTypes:
                    owner.setdefault(c.__name__, []).append(s)
            for i in range(n):
                ch.check(len(owner.get(f'T{i}', ())) == 1, lambda: f'{shown()}\nT{i} is in {len(owner.get(f"T{i}", ()))} schemas')
            for i in range(n):
                s, = owner[f'T{i}']
                ch.check(s.targetNamespace == ns[i] and s.elementFormDefault == (form or 'unqualified') and set(s.elements) == {f'e{i}'}
                         and [c.__name__ for c in s.simpleTypes] == [f'S{i}'], lambda: f'{shown()}\nschema of {paths[i]}')
                for attr, same in (('imports', False), ('includes', True)):
                    got = [id(x) for x in getattr(s, attr)]
                    want = [id(owner[f'T{k}'][0]) for k in range(n) if (i, k) in edges and (shared[i] and shared[k]) is same]
                    ch.check(sorted(got) == sorted(want), lambda: f'{shown()}\n{attr} of {paths[i]}')
                cls = getattr(mod, f'T{i}')
                ch.check(cls.__bases__ == ((getattr(mod, f'T{base[i]}') if base[i] is not None else xsd.ComplexType),),
                         lambda: f'{shown()}\nbases of T{i}')
                obj = cls()
                setattr(obj, f'own{i}', 'v')
                setattr(obj, f's{i}', i)
                for k in range(n):
                    if (i, k) in edges:
                        setattr(obj, f'to{k}', getattr(mod, f'T{k}')(**{f'own{k}': 'w'}))
                try:
                    setattr(obj, f's{i}', i + 1)
                except ValueError:
                    pass
                else:
                    ch.fail(f'{shown()}\nT{i}.s{i} accepts {i + 1}')
                ch.step(2)
                back = cls.parsexml(obj.xml(f'e{i}', namespace=ns[i], elementFormDefault=form or 'unqualified'))
                ch.check(getattr(back, f'own{i}') == 'v' and getattr(back, f's{i}') == i
                         and all(getattr(getattr(back, f'to{k}'), f'own{k}') == 'w' for k in range(n) if (i, k) in edges),
                         lambda: f'{shown()}\nT{i} is not read back')


def emitted(ch, code, names, again, what):
    """Every class is defined once in the code."""
    try:
        counts = collections.Counter(n.name for n in ast.parse(code).body if isinstance(n, (ast.ClassDef, ast.FunctionDef)))
    except SyntaxError as e:
        ch.fail(f'{what()}\nthe generated code is no Python: {e}\n{code.decode()}')
    for name in names:
        ch.check(counts[name] == 1 or name in again and counts[name] > 1,
                 lambda: f'{what()}\n{name} is defined {counts[name]} times\n{code.decode()}')


W = 'http://schemas.xmlsoap.org/wsdl/'
S = 'http://schemas.xmlsoap.org/wsdl/soap/'
PARTS = ['message', 'portType', 'binding', 'service', 'types']


def wsdls(ch, n, acyclic, places=None):
    edges = graph(ch, n, acyclic, n < 3)
    if places:
        place = dict(zip(PARTS, ch.choose('places', places)))
    else:
        place = {p: ch.choose(p, range(n)) for p in PARTS}
    layout = ch.dev('layout', list(LAYOUTS))
    spelling = ch.dev('spelling', list(SPELLINGS))
    order = ch.dev('order', [1, -1])
    spaces = ch.dev('namespaces', ['same', 'own'])
    target = ch.dev('target', ['client', 'server'])
    schema = ch.dev('schema', ['inline', 'file', 'inline, header', 'file, header'])
    schema, _, header = schema.partition(', ')
    here = ch.dev('working directory', ['elsewhere', 'that of the root'])
    every = ch.dev('services', ['one', 'one in every file'])
    paths = [p + '.wsdl' for p in locations(layout, n)]
    ns = ['urn:w' if spaces == 'same' else f'urn:w{i}' for i in range(n)]
    loop = cyclic(edges, n)

    def parts(i, name, here):
        """The parts of the service that are placed in this file: name, the namespaces of all parts."""
        t = {p: f'w{place[p] if here is None else here}:' for p in PARTS}
        mine = [p for p in PARTS if (place[p] if here is None else here) == i]
        head = f'<s:header message="{t["message"]}{name}Head" part="mark" use="literal"/>' if header else ''
        marked = f'<w:message name="{name}Head"><w:part name="mark" element="{"y" if schema == "file" else "x"}:mark"/></w:message>' if header else ''
        out = {
            'message': f'{marked}<w:message name="{name}In"><w:part name="body" element="x:ping"/></w:message>'
                       f'<w:message name="{name}Out"><w:part name="body" element="x:pong"/></w:message>',
            'portType': f'<w:portType name="{name}PT"><w:operation name="{name}Op"><w:input message="{t["message"]}{name}In"/>'
                        f'<w:output message="{t["message"]}{name}Out"/></w:operation></w:portType>',
            'binding': f'<w:binding name="{name}B" type="{t["portType"]}{name}PT"><s:binding style="document" '
                       'transport="http://schemas.xmlsoap.org/soap/http"/>'
                       f'<w:operation name="{name}Op"><s:operation soapAction="urn:{name}"/><w:input>{head}<s:body use="literal"/></w:input>'
                       '<w:output><s:body use="literal"/></w:output></w:operation></w:binding>',
            'service': f'<w:service name="{name}S"><w:port name="{name}P" binding="{t["binding"]}{name}B">'
                       f'<s:address location="http://h/{name}"/></w:port></w:service>',
        }
        return {p: out[p] for p in mine if p in out}

    with Scratch() as scratch:
        texts = []
        inline = (f'<xs:schema {XS} xmlns:x="urn:x" targetNamespace="urn:x" elementFormDefault="qualified">%s'
                  '<xs:complexType name="Ping"><xs:sequence><xs:element name="a" type="%sExtra"/></xs:sequence></xs:complexType>'
                  '<xs:element name="ping" type="x:Ping"/><xs:element name="pong" type="xs:string"/></xs:schema>')
        extra = '<xs:simpleType name="Extra"><xs:restriction base="xs:int"><xs:maxInclusive value="5"/></xs:restriction></xs:simpleType>'
        if header:
            extra += '<xs:element name="mark" type="xs:int"/>'
        if schema == 'file':
            # The schema of the types is in a file below the one of the WSDL that names it.
            inline %= ('<xs:import namespace="urn:y" schemaLocation="sub/y.xsd"/>', 'y:')
            inline = inline.replace('xmlns:x=', 'xmlns:y="urn:y" xmlns:x=')
            scratch.write(os.path.join(os.path.dirname(paths[place['types']]), 'sub/y.xsd'),
                          f'<xs:schema {XS} targetNamespace="urn:y">{extra}</xs:schema>')
        else:
            inline %= (extra, 'x:')
        for i in range(n):
            prefixes = ' '.join(f'xmlns:w{k}="{ns[k]}"' for k in range(n))
            imports = ''.join(f'<w:import namespace="{ns[k]}" location="{reference(spelling, paths, i, k, scratch.root)}"/>'
                              for k in range(n)[::order] if (i, k) in edges)
            content = parts(i, 'Main', None)
            if every == 'one in every file':
                for p, text in parts(i, f'Own{i}', i).items():
                    content[p] = content.get(p, '') + text
            types = f'<w:types>{inline}</w:types>' if place['types'] == i else ''
            texts.append(f'<w:definitions xmlns:w="{W}" xmlns:s="{S}" xmlns:x="urn:x" xmlns:y="urn:y" {prefixes} targetNamespace="{ns[i]}">'
                         + imports + types + ''.join(content.get(p, '') for p in PARTS) + '</w:definitions>')
            scratch.write(paths[i], texts[i])
        what = lambda: '\n'.join(f'{p}: {t}' for p, t in zip(paths, texts))
        cwd = os.path.join(scratch.root, os.path.dirname(paths[0]))
        os.chdir('/' if here == 'elsewhere' else cwd)
        kw = {} if here != 'elsewhere' else {'cwd': cwd}
        scratch.watch()
        ch.step()
        code = wsdl2py.generate_code_from_wsdl(texts[0].encode(), target, **kw)
        seen = {p for p in scratch.seen() if p.endswith('.wsdl')}
        expected = {paths[k] for k in reach(edges, [b for a, b in edges if a == 0])}
        ch.check(seen - {paths[0]} == expected - {paths[0]}, lambda: f'{what()}\nopened {sorted(seen)}, expected {sorted(expected)}')
        names = ['Main'] + ([f'Own{i}' for i in range(n)] if every != 'one' else [])
        classes = ['Ping', 'Extra'] + ([x + 'PServiceStub' for x in names] if target == 'client' else [x + 'Op' for x in names])
        root = ([x for x in ['Main'] if place['service'] == 0] + ['Own0']) if 0 in loop else []
        again = [x + 'PServiceStub' for x in root] + [x + 'Op' for x in root] + (
            ['Ping', 'Extra'] if 0 in loop and place['types'] == 0 else [])
        emitted(ch, code, classes, again, what)
        ch.state((n, tuple(sorted(edges)), tuple(place.values()), layout, spelling, order, spaces, target, schema, every))
        ch.note('cyclic' if loop else 'acyclic')
        try:
            module = Module(code)
        except Exception as e:
            ch.fail(f'{what()}\nthe generated code does not import: {e!r}\n{code.decode()}')
        with module as mod:
            shown = lambda: f'{what()}\n{code.decode()}'
            for name in names:
                service = getattr(mod, f'{name}P_SERVICE', None)
                ch.check(service is not None and service.name == f'{name}P', lambda: f'{shown()}\nservice {name}')
                method, = service.methods
                ch.check((method.operationName, method.soapAction, method.input, method.output)
                         == (f'{name}Op', f'urn:{name}', 'ping', 'pong'), lambda: f'{shown()}\nmethod of {name}')
                ch.check(any(s.targetNamespace == 'urn:x' and 'ping' in s.elements for s in service.schemas),
                         lambda: f'{shown()}\nschemas of {name}')
                if header:
                    head = method.input_header(mark=7)
                    sent = etree.fromstring(soap.SOAPVersion.SOAP11.Envelope.response('ping', mod.Ping(a=5), header=head))
                    entries = sent.find('{http://schemas.xmlsoap.org/soap/envelope/}Header')
                    ch.check([(e.tag, e.text) for e in entries] == [(f'{{urn:{"y" if schema == "file" else "x"}}}mark', '7')],
                             lambda: f'{shown()}\nheader of {name}: {etree.tostring(sent)}')
            ch.step()
            mod.Ping(a=5)
            try:
                mod.Ping(a=6)
            except ValueError:
                return
            ch.fail(f'{shown()}\nPing.a accepts 6')


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness(f'{n} schema files', files, {'n': n, 'acyclic': False, 'loops': True}, split=4 if n > 1 else 1,
                   budget={1: 3, 2: 2, 3: 1}[n] + full) for n in (1, 2, 3)]
    out.append(Harness('4 schema files', files, {'n': 4, 'acyclic': not full, 'loops': False}, split=6, budget=1))
    out += [Harness(f'{n} WSDL files', wsdls, {'n': n, 'acyclic': False}, split=4, budget={1: 2, 2: 1, 3: 0}[n] + full)
            for n in (1, 2, 3)]
    out.append(Harness('3 WSDL files in layouts', wsdls, {
        'n': 3, 'acyclic': False, 'places': [(2, 2, 2, 2, 2), (2, 1, 1, 0, 2), (0, 1, 2, 2, 1), (0, 0, 0, 0, 0), (1, 2, 0, 1, 0)]},
        split=4, budget=1 + full))
    for n in (5, 8, 12):
        out.append(Harness(f'{n} schema files', files, {'n': n, 'acyclic': False, 'loops': True}, split=3, budget=(n < 12) + full))
        out.append(Harness(f'{n} WSDL files', wsdls, {'n': n, 'acyclic': False, 'places': [
            (n - 1,) * 5, (0,) * 5, (n - 1, n // 2, 1, 0, n - 1), (0, 1, n // 2, n - 1, 1), (1, 2, 3, 4, 0)]}, split=3, budget=(n < 12) + full))
    if full:
        out.append(Harness('4 WSDL files', wsdls, {'n': 4, 'acyclic': True}, split=6, budget=0))
    return out
