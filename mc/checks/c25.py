"""C25: command-line tools write exactly the document the library generates."""
import atexit
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile
import types

from lxml import etree

from ..explore import Harness
from ..lib import fast  # noqa: F401
from ..lib.isolate import isolated
from soapfish import py2wsdl, py2xsd, soap, wsdl2py, xsd, xsd2py

TECHNIQUE = ('bounded exhaustive exploration of the real entry points: the full product of tools, inputs, spellings of paths, outputs and flags, each run in a '
             'forked process with its own directories (decoys in the working directory), all pairs of runs in one process, and runs of the installed modules as programs')
BOUNDS = {
    'quick': '5 tools x 6..13 inputs (single, include, import, nested, encodings, inline schemas, non-ASCII; modules with recursive types and generated modules) x 11 spellings of '
             'the path (absolute, relative, elsewhere, dots, spaces, link, standard input) x 6 outputs (file, relative, existing, -, standard output) x flags for the first '
             'input of each tool, all spellings to standard output and all outputs from one spelling for the others; '
             'all pairs of 14 runs in one process; 48 runs as programs.',
    'thorough': 'As quick, with the full product for all inputs, all of it also run as programs for one spelling each and all triples of 8 runs.',
}
ASSUMPTIONS = ['standard input is relative to the working directory', 'generated code differs only in the time of generation and white space at its ends',
               'modules define Schema or SERVICE or are generated from an XSD']

XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'
SOAPNS = {11: 'http://schemas.xmlsoap.org/wsdl/soap/', 12: 'http://schemas.xmlsoap.org/wsdl/soap12/'}


def schema(ns, name, refs='', text='a', base=None, decl=XS):
    kind = f't:{base}' if base else 'xs:string'
    return (f'<xs:schema {decl} xmlns:t="{ns}" targetNamespace="{ns}" elementFormDefault="qualified">{refs}<xs:simpleType name="{name}Code"><xs:restriction base="xs:string">'
            f'<xs:enumeration value="{text}"/></xs:restriction></xs:simpleType><xs:complexType name="{name}"><xs:sequence><xs:element name="code" type="t:{name}Code"/>'
            f'<xs:element name="base" type="{kind}"/><xs:element name="more" type="t:{name}" minOccurs="0"/></xs:sequence></xs:complexType><xs:element name="root{name}" type="t:{name}"/></xs:schema>')


def wsdl(op, types_, version=11, imports='', extra=''):
    w = 'http://schemas.xmlsoap.org/wsdl/'
    return (f'<definitions xmlns="{w}" xmlns:s="{SOAPNS[version]}" xmlns:w="urn:w" xmlns:x="urn:x" targetNamespace="urn:w">{imports}<types>{types_}</types>'
            f'<message name="In"><part name="body" element="x:rootA"/></message><message name="Out"><part name="body" element="x:rootA"/></message>{extra}'
            f'<portType name="PT"><operation name="{op}"><input message="w:In"/><output message="w:Out"/></operation></portType>'
            f'<binding name="B" type="w:PT"><s:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/><operation name="{op}">'
            f'<s:operation soapAction="urn:{op}"/><input><s:body use="literal"/></input><output><s:body use="literal"/></output></operation></binding>'
            f'<service name="S"><port name="P{op}" binding="w:B"><s:address location="http://h/{op}"/></port></service></definitions>')


inc = lambda p: f'<xs:include schemaLocation="{p}"/>'
imp = lambda ns, p: f'<xs:import namespace="{ns}" schemaLocation="{p}"/>'

# name: (files, names the result has to contain)
XSDS = {
    'single': ({'IN': schema('urn:x', 'A')}, ['A']),
    'include': ({'IN': schema('urn:x', 'A', inc('part.xsd'), base='B'), 'part.xsd': schema('urn:x', 'B')}, ['A', 'B']),
    'include below': ({'IN': schema('urn:x', 'A', inc('sub/part.xsd'), base='B'), 'sub/part.xsd': schema('urn:x', 'B')}, ['A', 'B']),
    'include above': ({'IN': schema('urn:x', 'A', inc('../up.xsd'), base='B'), '../up.xsd': schema('urn:x', 'B')}, ['A', 'B']),
    'import': ({'IN': schema('urn:x', 'A', imp('urn:y', 'part.xsd')), 'part.xsd': schema('urn:y', 'B')}, ['A', 'B']),
    'nested': ({'IN': schema('urn:x', 'A', inc('sub/part.xsd'), base='B'), 'sub/part.xsd': schema('urn:x', 'B', inc('deep/part.xsd'), base='C'),
                'sub/deep/part.xsd': schema('urn:x', 'C', imp('urn:y', '../../part.xsd')), 'part.xsd': schema('urn:y', 'D')}, ['A', 'B', 'C', 'D']),
    'utf-16': ({'IN': ('<?xml version="1.0" encoding="utf-16"?>' + schema('urn:x', 'A', text='\u20ac')).encode('utf-16')}, ['A', '\u20ac']),
    'latin-1': ({'IN': ('<?xml version="1.0" encoding="iso-8859-1"?>' + schema('urn:x', 'A', text='\xe4')).encode('latin-1')}, ['A', '\xe4']),
    'non-ASCII': ({'IN': '\ufeff<?xml version="1.0"?>\n' + schema('urn:x', 'A', inc('\u20ac.xsd'), text='\u20ac', base='B'), '\u20ac.xsd': schema('urn:x', 'B', text='\xff')}, ['\u20ac', '\xff']),
}
WSDLS = {
    'single': ({'IN': wsdl('opA', schema('urn:x', 'A'))}, ['opA', 'A']),
    'soap 1.2': ({'IN': wsdl('opA', schema('urn:x', 'A'), 12)}, ['opA', 'SOAP12']),
    'schema include': ({'IN': wsdl('opA', schema('urn:x', 'A', inc('part.xsd'), base='B')), 'part.xsd': schema('urn:x', 'B')}, ['opA', 'A', 'B']),
    'schema import below': ({'IN': wsdl('opA', schema('urn:x', 'A', imp('urn:y', 'sub/part.xsd'))), 'sub/part.xsd': schema('urn:y', 'B', inc('more.xsd'), base='C'),
                             'sub/more.xsd': schema('urn:y', 'C')}, ['opA', 'A', 'B', 'C']),
    'non-ASCII': ({'IN': ('<?xml version="1.0" encoding="utf-16"?>' + wsdl('opA', schema('urn:x', 'A', text='\u20ac'))).encode('utf-16')}, ['opA', '\u20ac']),
    'import': ({'IN': wsdl('opA', '', imports='<import namespace="urn:w" location="sub/part.wsdl"/>').replace('<types></types>', ''),
                'sub/part.wsdl': f'<definitions xmlns="http://schemas.xmlsoap.org/wsdl/" targetNamespace="urn:w"><types>{schema("urn:x", "A", inc("part.xsd"), base="B")}</types></definitions>',
                'sub/part.xsd': schema('urn:x', 'B')}, ['opA', 'A', 'B']),
}

HEAD = '# -*- coding: utf-8 -*-\nfrom soapfish import soap, xsd\n\n'
MODEL = '''
class Code(xsd.String):
    enumeration = ['\u20ac', 'b']


class Node(xsd.ComplexType):
    INDICATOR = xsd.Sequence
    code = xsd.Element(Code)
    next = xsd.Element(__name__ + '.Node', minOccurs=0)


%s = xsd.Schema('urn:m', elementFormDefault='qualified', simpleTypes=[Code], complexTypes=[Node], elements={'node': xsd.Element(Node)})
'''
SERVICE = '''
SERVICE = soap.Service('urn:s', 'http://h/p', [%s], [xsd.Method(operationName='opA', soapAction='urn:a', input='node', output='node')]%s)
'''
MODULES = {
    'written': ({'IN': HEAD + MODEL % 'Schema' + SERVICE % ('Schema', '')}, ['node', '\u20ac', 'urn:m']),
    'soap 1.2': ({'IN': HEAD + MODEL % 'Schema' + SERVICE % ('Schema', ', version=soap.SOAPVersion.SOAP12')}, ['node']),
    'several': ({'IN': HEAD + 'class Other(xsd.ComplexType):\n    a = xsd.Element(xsd.Int)\n\n\nOther_Schema = xsd.Schema("urn:o", complexTypes=[Other])\n'
                 + MODEL % 'Schema' + SERVICE % ('Schema', '') + 'Last_Schema = xsd.Schema("urn:last")\nOTHER = soap.Service("urn:t", "", [Other_Schema], [])\n'}, ['node', 'urn:m']),
    'script': ({'IN': '#!/usr/bin/env python\nimport sys\n' + HEAD + MODEL % 'Schema' + SERVICE % ('Schema', '') + 'if __name__ == "__main__":\n    sys.exit("not imported")\n'}, ['node']),
    'reads its place': ({'IN': HEAD + 'import os\n' + MODEL % 'Schema' + SERVICE % ('Schema', '') + 'with open(os.path.join(os.path.dirname(__file__), "data.txt")) as f:\n    Schema.targetNamespace = f.read()\n',
                         'data.txt': 'urn:read'}, ['urn:read']),
}
_generated = {}


def generated():
    """Modules generated from the XSDs."""
    if not _generated:
        with tempfile.TemporaryDirectory(prefix='mc-c25-') as root:
            for name, (files, _) in XSDS.items():
                at = os.path.join(root, name, 'in')
                put(at, files, 'in.xsd')
                with open(os.path.join(at, 'in.xsd'), 'rb') as f:
                    code = isolated(lambda: xsd2py.generate_code_from_xsd(f.read(), cwd=at))
                _generated[name] = {'IN': code}, ['A'], name
    return _generated


def put(root, files, name):
    for path, content in files.items():
        path = os.path.normpath(os.path.join(root, name if path == 'IN' else path))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(content.encode() if isinstance(content, str) else content)


TOOLS = {'xsd2py': (xsd2py, XSDS), 'wsdl2py client': (wsdl2py, WSDLS), 'wsdl2py server': (wsdl2py, WSDLS), 'py2xsd': (py2xsd, MODULES), 'py2wsdl': (py2wsdl, MODULES)}
PATHS = ['absolute', 'relative', 'dot', 'elsewhere', 'from below', 'dots inside', 'spaces', 'non-ASCII', 'no suffix', 'link', 'stdin']
OUTPUTS = ['stdout', 'absolute', 'relative', 'elsewhere', 'existing', '-']

STAR = [(p, 'stdout') for p in PATHS] + [('elsewhere', o) for o in OUTPUTS[1:]]


class Stdin:
    def __init__(self, data):
        self.buffer = io.BytesIO(data)

    def read(self, *args):
        return self.buffer.read(*args).decode()


class Stdout(io.TextIOWrapper):
    def __init__(self):
        super().__init__(io.BytesIO(), encoding='ascii', write_through=True)  # the terminal may not know all characters

    def content(self):
        self.flush()
        return self.buffer.getvalue()


SUFFIX = {'xsd2py': 'in.xsd', 'wsdl2py client': 'in.wsdl', 'wsdl2py server': 'in.wsdl', 'py2xsd': 'in.py', 'py2wsdl': 'in.py'}
home = None


def scene(tool, files, path, output):
    """The directories of a run: (root, working directory, argument, real input, output argument, output file)."""
    root = os.path.realpath(tempfile.mkdtemp(dir=home))
    name = SUFFIX[tool]
    name = {'spaces': 'my ' + name, 'non-ASCII': '\u20ac' + name, 'no suffix': 'in'}.get(path, name)
    at = os.path.join(root, 'data', 'a b' if path == 'spaces' else 'in')
    put(at, files, name)
    real = os.path.join(at, name)
    work = {'relative': at, 'dot': at, 'stdin': at, 'elsewhere': os.path.join(root, 'data'), 'from below': os.path.join(at, 'below', 'w'), 'no suffix': at}.get(path, os.path.join(root, 'work'))
    os.makedirs(work, exist_ok=True)
    if work != at:
        # What lies in the working directory has nothing to do with the input.
        decoys = {k: '<decoy' for k in files if k != 'IN' and not k.startswith('..')}
        decoys['IN'] = '<decoy'
        if work == os.path.join(root, 'work'):
            decoys['../up.xsd'] = '<decoy'
        for k, v in decoys.items():
            target = os.path.normpath(os.path.join(work, name if k == 'IN' else k))
            if not os.path.exists(target):
                put(work, {k: v}, name)
    argument = real
    if path in ('relative', 'no suffix'):
        argument = name
    elif path == 'dot':
        argument = './' + name
    elif path in ('elsewhere', 'from below'):
        argument = os.path.relpath(real, work)
    elif path == 'dots inside':
        argument = os.path.join(root, 'work', '..', 'data', '.', 'in', name)
    elif path == 'link':
        argument = os.path.join(work, 'link' + os.path.splitext(name)[1])
        if len(files) > 1:
            # References are relative to where the document is found, so link the directory.
            os.symlink(at, os.path.join(work, 'linked'))
            argument = os.path.join(work, 'linked', name)
        else:
            os.symlink(real, argument)
    elif path == 'stdin':
        argument = '-'
    out = {'absolute': os.path.join(root, 'out \u20ac.py'), 'relative': 'result', 'elsewhere': os.path.join('..', os.path.basename(work), 'result.txt'), 'existing': os.path.join(root, 'old'), '-': '-'}.get(output)
    target = None if output in ('stdout', '-') else os.path.normpath(os.path.join(work, out))
    if output == 'existing':
        put(root, {'old': 'x' * 200000}, 'old')
    return root, work, argument, real, out, target


def arguments(tool, argument, out, spelling, wsa):
    flags = []
    if tool == 'wsdl2py client':
        flags = [['-c'], ['--client']][spelling == 'long']
    elif tool == 'wsdl2py server':
        flags = [['-s'], ['--server']][spelling == 'long']
    if wsa:
        flags = flags + ['--use-wsa' if spelling == 'long' else '-w']
    rest = [argument] + ([] if out is None else [out])
    return rest + flags if spelling == 'last' else flags + rest


def listing(root):
    found = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            if not os.path.islink(p) and '__pycache__' not in p:
                with open(p, 'rb') as f:
                    found[p] = f.read()
    return found


def run(tool, argv, work, stdin, how):
    """Run main() in this (forked) process: (returned value, standard output)."""
    os.chdir(work)
    module = TOOLS[tool][0]
    saved = sys.stdin, sys.stdout, sys.argv
    sys.stdin, sys.stdout = Stdin(stdin), Stdout()
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            if how == 'argv':
                sys.argv = ['tool'] + argv
                value = module.main()
            else:
                value = module.main(argv)
        out = sys.stdout.content()
    except SystemExit as e:
        value, out = f'SystemExit {e.code}', b''
    except Exception as e:
        import traceback
        value, out = 'raised ' + ''.join(traceback.format_exception(e)[-3:]), b''
    finally:
        sys.stdin, sys.stdout, sys.argv = saved
    return value, out


def program(tool, argv, work, stdin):
    env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(soap.__file__))), PYTHONIOENCODING='ascii', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'soapfish.' + tool.split()[0]] + argv, cwd=work, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
    return (0 if p.returncode == 0 else f'exit code {p.returncode}: {p.stderr.decode()[-600:]}'), p.stdout


def library(tool, real, wsa, from_xsd):
    """The document the library generates, in this (forked) process."""
    with open(real, 'rb') as f:
        text = f.read()
    at = os.path.dirname(real)
    if tool == 'xsd2py':
        return xsd2py.generate_code_from_xsd(text, cwd=at)
    if tool.startswith('wsdl2py'):
        return wsdl2py.generate_code_from_wsdl(text, tool.split()[1], wsa, cwd=at)
    module = types.ModuleType('mc_c25_module')
    module.__file__ = real
    sys.modules[module.__name__] = module
    exec(compile(text, real, 'exec'), module.__dict__)
    if tool == 'py2wsdl':
        return etree.tostring(py2wsdl.generate_wsdl(module.SERVICE))
    found = module.Schema if not from_xsd else next(v for v in vars(module).values() if isinstance(v, xsd.Schema) and 'rootA' in v.elements)
    return etree.tostring(py2xsd.generate_xsd(found))


def normal(tool, data):
    """What of a document matters."""
    if tool.startswith('py2'):
        root = etree.fromstring(data, etree.XMLParser(remove_blank_text=True))
        return etree.tostring(root, method='c14n')
    return re.sub(r'(# Note: Generated by )\S+( at )[^\n]*', r'\1\2', data.decode('utf-8').strip())


def check(ch, what, tool, normalized, value, stdout, root, before, target, must):
    after = listing(root)
    ch.check(value == 0 and not isinstance(value, bool), lambda: f'{what()}\nreturned {value}')
    written = {p: c for p, c in after.items() if before.get(p) != c}
    if target is None:
        ch.check(not written and before.keys() == after.keys(), lambda: f'{what()}\nfiles {list(written)} were written')
        document = stdout
    else:
        ch.check(set(written) == {target} and before.keys() - {target} == after.keys() - {target}, lambda: f'{what()}\nfiles {list(written)} were written')
        ch.check(not stdout, lambda: f'{what()}\nstandard output {stdout!r}')
        document = after[target]
    try:
        got = normal(tool, document)
    except (ValueError, etree.XMLSyntaxError) as e:
        ch.fail(f'{what()}\nwrote {document!r}: {e}')
    ch.check(got == normalized, lambda: f'{what()}\nwrote\n{got}\nthe library generates\n{normalized}')
    text = ''.join(etree.fromstring(document).itertext()) + document.decode() if tool.startswith('py2') else document.decode()
    if tool.startswith('py2'):
        text += ' '.join(v for e in etree.fromstring(document).iter() for v in e.attrib.values())
    for m in must:
        ch.check(m in text, lambda: f'{what()}\n{m!r} is missing in\n{text}')


_documents = {}


def expected(tool, kind, files, path, wsa, from_xsd):
    """The library's document, made in a directory of its own."""
    key = tool, kind, wsa, from_xsd is not None
    if key not in _documents:
        root, work, argument, real, *_ = scene(tool, files, 'relative', 'stdout')
        try:
            _documents[key] = normal(tool, isolated(lambda: library(tool, real, wsa, from_xsd)))
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return _documents[key]


def inputs(tool):
    kinds = {k: (*v, None) for k, v in TOOLS[tool][1].items()}
    if tool == 'py2xsd':
        kinds.update({'from ' + k: v for k, v in generated().items()})
    return kinds


def skipped(tool, path, files):
    if path == 'stdin' and tool.startswith('py2'):
        return True
    return path == 'no suffix' and not tool.startswith('py2') and False


def products(ch, programs, full=True):
    tool = ch.choose('tool', list(TOOLS))
    kinds = inputs(tool)
    kind = ch.choose('input', list(kinds))
    if full or kind == next(iter(kinds)):
        path = ch.choose('path', PATHS)
        output = ch.choose('output', OUTPUTS)
    else:
        path, output = ch.choose('path and output', STAR)
    wsa = ch.choose('addressing', [False, True]) if tool.startswith('wsdl2py') else False
    spelling = ch.dev('spelling', ['short', 'long', 'last'])
    how = 'program' if programs else ch.dev('how', ['main(argv)', 'argv'])
    files, must, from_xsd = kinds[kind]
    if skipped(tool, path, files):
        ch.skip()
    must = list(must) if tool != 'py2wsdl' else ['opA']
    want = expected(tool, kind, files, path, wsa, from_xsd)
    root, work, argument, real, out, target = scene(tool, files, path, output)
    try:
        argv = arguments(tool, argument, out, spelling, wsa)
        what = lambda: f'{tool} {argv} in {work} ({kind})'
        stdin = b''
        if path == 'stdin':
            with open(real, 'rb') as f:
                stdin = f.read()
        before = listing(root)
        ch.step()
        if programs:
            value, stdout = program(tool, argv, work, stdin)
        else:
            value, stdout = isolated(lambda: run(tool, argv, work, stdin, how))
        check(ch, what, tool, want, value, stdout, root, before, target, [m.lower() if from_xsd else m for m in must] if tool != 'py2xsd' or not from_xsd else ['rootA'])
        ch.note(tool)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def few_programs(ch):
    """The tools as programs."""
    tool = ch.choose('tool', list(TOOLS))
    kinds = inputs(tool)
    kind = ch.choose('input', list(kinds))
    path, output = ch.choose('path and output', [('absolute', 'stdout'), ('elsewhere', 'absolute'), ('stdin', 'relative')])
    files, must, from_xsd = kinds[kind]
    if skipped(tool, path, files):
        ch.skip()
    want = expected(tool, kind, files, path, False, from_xsd)
    root, work, argument, real, out, target = scene(tool, files, path, output)
    try:
        argv = arguments(tool, argument, out, 'short', False)
        with open(real, 'rb') as f:
            stdin = f.read() if path == 'stdin' else b''
        before = listing(root)
        ch.step()
        value, stdout = program(tool, argv, work, stdin)
        check(ch, lambda: f'python -m {tool} {argv} in {work} ({kind})', tool, want, value, stdout, root, before, target, [])
        ch.note(tool)
    finally:
        shutil.rmtree(root, ignore_errors=True)


RUNS = [('xsd2py', 'nested'), ('py2xsd', 'written'), ('wsdl2py client', 'schema import below'), ('py2xsd', 'from single'), ('py2wsdl', 'soap 1.2'), ('xsd2py', 'non-ASCII'), ('wsdl2py server', 'single'),
        ('py2xsd', 'from include'), ('xsd2py', 'include'), ('py2wsdl', 'written'), ('wsdl2py client', 'non-ASCII'), ('py2xsd', 'several'), ('wsdl2py server', 'import'), ('py2xsd', 'from import')]


def sequences(ch, depth, some):
    """Several runs in one process."""
    picked = [ch.choose(f'run {i}', RUNS[:some]) for i in range(depth)]
    scenes, wants = [], []
    try:
        for tool, kind in picked:
            files, must, from_xsd = inputs(tool)[kind]
            wants.append(expected(tool, kind, files, 'elsewhere', False, from_xsd))
            scenes.append(scene(tool, files, 'elsewhere', 'absolute'))
        before = [listing(s[0]) for s in scenes]
        ch.step(depth)

        def go():
            return [run(tool, arguments(tool, s[2], s[4], 'short', False), s[1], b'', 'main(argv)') for (tool, _), s in zip(picked, scenes)]

        for (tool, kind), want, s, b, (value, stdout) in zip(picked, wants, scenes, before, isolated(go)):
            check(ch, lambda: f'{picked}: {tool} {kind}', tool, want, value, stdout, s[0], b, s[5], [])
            ch.note(tool)
    finally:
        for s in scenes:
            shutil.rmtree(s[0], ignore_errors=True)


def harnesses(tier):
    global home
    full = tier == 'thorough'
    home = tempfile.mkdtemp(prefix='mc-c25-')
    atexit.register(shutil.rmtree, home, ignore_errors=True)
    generated()
    hs = [Harness('products', products, {'programs': False, 'full': full}, split=3, budget=1), Harness('programs', few_programs, split=2), Harness('pairs', sequences, {'depth': 2, 'some': 14}, split=1)]
    if full:
        hs += [Harness('triples', sequences, {'depth': 3, 'some': 8}, split=2), Harness('all as programs', products, {'programs': True}, split=3)]
    return hs
