"""C20: a response does not depend on the requests served before."""
import gc
import os
import re
import shutil
import tempfile
from datetime import datetime, timedelta, timezone
from decimal import Decimal

from lxml import etree

from ..explore import Harness
from ..lib import fast  # noqa: F401
from ..lib.isolate import isolated
from ..lib.kit import NS, Kit, envelope
from ..lib.soapkit import CONTENT_TYPES, ENVELOPES, Wire, environ
from soapfish import py2wsdl, py2xsd, soap, wsdl2py, xsd, xsd2py
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.middlewares import ExceptionToSoapFault
from soapfish.soap_dispatch import SOAPDispatcher
from soapfish.xsd_types import XSDDate

TECHNIQUE = ('bounded exhaustive exploration of histories on the real code: all sequences of operations up to a depth, each history in a '
             'forked copy of one clean process; every answer is compared with the answer to the same operation in a clean process')
BOUNDS = {
    'quick': 'All sequences of 2 over 30 kinds (documents of another dispatcher of the service included) of request x 2 versions x strict/non-strict x fresh/reused result objects, of 3 over 18 kinds; of 3 over 12 '
             'kinds of client call x 2 versions; of 3 over 32 operations on models (parse, build, change, render, validate, describe; values that are equal in Python but have another text or type); '
             'of 2 over 17 runs of the code generators and 3 over 8 of them; one request or call 40 times and one operation on models 110 times before each other and again.',
    'thorough': 'Sequences of 3 requests of 30 and 4 of 18 kinds, 4 client calls, 4 model operations and 3 runs of the generators; one 300 resp. 1100 times.',
}
ASSUMPTIONS = ['handlers and operations are deterministic and keep no state of their own (except the reused results, as configured)']


# --- Requests ----------------------------------------------------------------

class Server:
    """A dispatcher with handlers that mistreat what they get."""

    def __init__(self, version, strict, reuse):
        self.version, self.reuse = version, reuse
        self.kit = kit = Kit(version)
        small = type('Deep', (xsd.Int,), {'maxInclusive': 3})
        inner = xsd.Schema('urn:inner', location='inner.xsd', elementFormDefault='unqualified', simpleTypes=[small], elements={'deep': xsd.Element(small)})
        outer = xsd.Schema('urn:outer', location='outer.xsd', imports=[inner])
        kit.schema.imports = [inner, outer]
        kit.schema.elements['special'] = xsd.Element(kit.Ping, substitutionGroup='ping')
        kit.methods.append(xsd.Method('doDeep', 'urn:deep', input='deep', output='ping', function=self.deep))
        kit.methods.append(xsd.Method('doTwin', 'urn:twin', input='ping', output='pong', function=self.twin))
        kit.handler = self.handle
        self.log = []
        self.another = lambda: SOAPDispatcher(kit.service, middlewares=[ExceptionToSoapFault()], strict_soap_header=strict)
        self.dispatcher = self.another()
        self.made = {}

    def result(self, kind):
        if kind in self.made and self.reuse:
            return self.made[kind]
        kit, code = self.kit, self.kit.code
        if kind == 'error':
            r = SOAPError(code.CLIENT, 'no', 'actor')
        elif kind == 'headed':
            r = SOAPResponse(kit.Pong(num=9, text='nine'), soap_header=kit.Head(note='back', info=kit.Info(who='w', level=3)))
        elif kind == 'status':
            r = SOAPResponse(SOAPError(code.SERVER, 'own'), soap_header=kit.Head(count=3))
        elif kind == 'http header':
            r = SOAPResponse(kit.Pong(num=4))
            r.http_headers['X-Y'] = '1'
        elif kind == 'ping':
            r = kit.Ping(num=2, items=['r', 's'], when=xsd.NIL, at='a')
        else:
            r = kit.Pong(num=1, text='one')
        self.made[kind] = r
        return r

    def deep(self, request, value):
        self.log.append(('deep', value))
        return self.result('ping')

    def twin(self, request, value):
        self.log.append(('twin', self.kit.read(value), request.method.operationName))
        return self.kit.Pong(num=8)

    def handle(self, name, request, value):
        head = request.soap_header
        self.log.append((name, self.kit.read(value), self.kit.read_head(head)))
        text = value.text
        # Handlers own what they receive.
        value.items.append('more')
        value.text, value.when, value.at = 'changed', None, 'changed'
        if head is not None:
            head.note, head.info = 'changed', None
        if text == 'raise':
            raise self.result('error')
        if text == 'crash':
            raise ValueError('crash')
        if text == 'return':
            return self.result('error')
        if text in ('headed', 'status', 'http header'):
            return self.result(text)
        return self.result('pong')

    def send(self, request):
        kind, payload = request
        if kind == 'beside':  # another dispatcher of the service
            kept, self.dispatcher = self.dispatcher, self.another()
            try:
                return [self.send(REQUESTS[x]) for x in payload]
            finally:
                self.dispatcher = kept
        if kind == 'post':
            action, header, body = payload
            content = envelope(self.version, body, header) if '<?' not in body and 'bare' not in body else body
            content = content.encode()
            headers = {}
            if self.version == 11:
                headers['Content-Type'] = 'text/xml'
                if action is not None:
                    headers['SOAPAction'] = f'"{action}"'
            else:
                headers['Content-Type'] = CONTENT_TYPES[12] + (f'; action="{action}"' if action is not None else '')
            env = environ('POST', 'http://h/p', headers, content)
        else:
            method, url = payload
            content = b''
            env = environ(method, url)
        del self.log[:]
        r = self.dispatcher.dispatch(SOAPRequest(env, content))
        return r.http_status_code, sorted(r.http_headers.items()), r.http_content, repr(self.log)

    def state(self):
        """What may not change: the service, its schemas and documents."""
        s, d = self.kit.service, self.dispatcher
        methods = [(m.operationName, m.soapAction, m.input, m.output, m.style, repr(m.input_header), repr(m.output_header)) for m in s.methods]
        return (d.wsdl, sorted(d.xsds.items()), (s.name, s.targetNamespace, s.location, methods),
                [etree.tostring(py2xsd.generate_xsd(x)) for x in (*s.schemas, *s.schemas[0].imports)], etree.tostring(py2wsdl.generate_wsdl(s)),
                [sorted(x.elements) for x in s.schemas])


def ping(content, name='ping', attrs=''):
    return f'<k:{name}{attrs}>{content}</k:{name}>'


NUM = '<k:num>5</k:num>'
REQUESTS = {
    'ping': ('post', ('urn:ping', None, ping(NUM))),
    'full ping': ('post', ('urn:ping', None, ping(NUM + '<k:text>t</k:text><k:item>a</k:item><k:item>b</k:item><k:when>2001-02-03T04:05:06Z</k:when>', attrs=' at="x"'))),
    'nil ping': ('post', ('urn:ping', None, ping(NUM + '<k:item/><k:when xmlns:i="http://www.w3.org/2001/XMLSchema-instance" i:nil="true"/>'))),
    'by element': ('post', (None, None, ping(NUM))),
    'other': ('post', ('urn:other', None, ping(NUM, 'other'))),
    'special': ('post', (None, None, ping(NUM + '<k:item>z</k:item>', 'special'))),
    'deep': ('post', ('urn:deep', None, '<n:deep xmlns:n="urn:inner">3</n:deep>')),
    'invalid deep': ('post', ('urn:deep', None, '<n:deep xmlns:n="urn:inner">4</n:deep>')),
    'with header': ('post', ('urn:ping', '<k:note>n</k:note><k:info><k:who>w</k:who><k:level>7</k:level></k:info>', ping(NUM))),
    'other header': ('post', ('urn:ping', '<k:count>4</k:count>', ping(NUM))),
    'unknown header': ('post', ('urn:ping', '<x:what xmlns:x="urn:x">1</x:what>', ping(NUM))),
    'invalid header': ('post', ('urn:ping', '<k:count>400</k:count>', ping(NUM))),
    'invalid': ('post', ('urn:ping', None, ping('<k:num>500</k:num>'))),
    'malformed': ('post', ('urn:ping', None, '<?x <bare')),
    'no envelope': ('post', ('urn:ping', None, '<bare/>')),
    'unknown action': ('post', ('urn:what', None, ping(NUM))),
    'raise': ('post', ('urn:ping', None, ping(NUM + '<k:text>raise</k:text>'))),
    'crash': ('post', ('urn:ping', None, ping(NUM + '<k:text>crash</k:text>'))),
    'return': ('post', ('urn:other', None, ping(NUM + '<k:text>return</k:text>', 'other'))),
    'headed': ('post', ('urn:ping', None, ping(NUM + '<k:text>headed</k:text>'))),
    'status': ('post', ('urn:ping', None, ping(NUM + '<k:text>status</k:text>'))),
    'http header': ('post', ('urn:ping', None, ping(NUM + '<k:text>http header</k:text>'))),
    'twin': ('post', ('urn:twin', None, ping(NUM))),
    'wsdl': ('get', ('GET', 'http://h1/p?wsdl')),
    'wsdl elsewhere': ('get', ('GET', 'https://h2:8443/p?wsdl')),
    'xsd': ('get', ('GET', 'http://h/p?xsd=inner.xsd')),
    'outer xsd': ('get', ('GET', 'http://h/p?xsd=outer.xsd')),
    'unknown xsd': ('get', ('GET', 'http://h/p?xsd=none')),
    'bad': ('get', ('PUT', 'http://h/p')),
}
BESIDE = ['ping', 'deep', 'invalid', 'wsdl elsewhere', 'xsd', 'outer xsd']
REQUESTS['beside'] = 'beside', BESIDE
_fresh = {}


def compare(ch, what, make, ops, run, depth, key, state=None, label='operation', times=None):
    """
    All histories of `depth` operations (with times: one of them repeated so many times, another, and the first again).
    make() makes the objects of a history, run(objects, op) does an operation.

    No operation is ever executed in this process: a history runs in a forked copy of it.
    """
    if key not in _fresh:
        objects = make()
        gc.collect()
        gc.freeze()
        _fresh[key] = {op: isolated(lambda op=op: run(objects, op)) for op in ops}
        _fresh[key][None] = isolated(lambda: state(objects)) if state else None
        _fresh[key]['again'] = {op: isolated(lambda op=op: run(make(), op)) for op in ops}
        _fresh[key]['objects'] = objects
    fresh = _fresh[key]
    objects = fresh['objects']
    if times:
        a, b = ch.choose('repeated', list(ops)), ch.choose('then', list(ops))
        history = [a] * ch.choose('times', times) + [b, a]
    else:
        history = [ch.choose(f'{label} {i}', list(ops)) for i in range(depth)]

    def go():
        seen = [run(objects, op) for op in history]
        return seen, state(objects) if state else None

    for op in history:
        ch.check(fresh[op] == fresh['again'][op], lambda: f'{what()}: {op} gives different answers in a clean process\n{fresh[op]}\n{fresh["again"][op]}')
    ch.step(len(history))
    seen, after = isolated(go)
    for i, (op, answer) in enumerate(zip(history, seen)):
        ch.check(answer == fresh[op], lambda: f'{what()}: {label} {i} of {history}\nanswered {answer}\nalone    {fresh[op]}')
        ch.note(str(op) if len(ops) < 40 else 'same')
    ch.check(after == fresh[None], lambda: f'{what()}: after {history} the state is\n{after}\ninstead of\n{fresh[None]}')
    ch.state((key, history))


FEW = ['ping', 'full ping', 'by element', 'other', 'deep', 'with header', 'unknown header', 'invalid', 'malformed', 'unknown action', 'raise', 'headed',
       'status', 'wsdl', 'wsdl elsewhere', 'xsd', 'outer xsd', 'beside']


def requests(ch, depth, few, times=None):
    version = ch.choose('version', [11, 12])
    strict = ch.choose('strict', [True, False]) if not few else version == 11
    reuse = few or ch.choose('results', ['fresh', 'reused']) == 'reused'
    config = version, strict, reuse
    compare(ch, lambda: f'{version} strict {strict} reuse {reuse}', lambda: Server(*config), FEW if few else REQUESTS, lambda s, op: s.send(REQUESTS[op]),
            depth, ('requests', config, few), Server.state, 'request', times)
    fresh = _fresh['requests', config, few]
    ch.check(fresh['beside'] == [fresh[x] for x in BESIDE], lambda: f'{version}: another dispatcher of the service answers {BESIDE} with {fresh["beside"]}')


# --- Client calls ------------------------------------------------------------

class Client:
    def __init__(self, version):
        self.kit = Kit(version)
        self.version = version
        self.stub = soap.Stub(service=self.kit.service, location='http://h/p', username='u', password='p')
        self.param = self.kit.Ping(num=1, items=['a'], at='z')
        self.head = self.kit.Head(note='n', info=self.kit.Info(who='w'))


def fault(version, code, text):
    e = f'{{{ENVELOPES[version]}}}'[1:-1]
    if version == 11:
        return f'<f:Fault xmlns:f="{e}"><faultcode>{code}</faultcode><faultstring>{text}</faultstring></f:Fault>'
    return f'<f:Fault xmlns:f="{e}"><f:Code><f:Value>{code}</f:Value></f:Code><f:Reason><f:Text>{text}</f:Text></f:Reason></f:Fault>'


CALLS = {  # operation, parameter, header, status, answer
    'plain': ('doPing', 'param', None, 200, ('<k:pong><k:num>1</k:num></k:pong>', None)),
    'text': ('doPing', 'param', None, 200, ('<k:pong><k:num>2</k:num><k:text>t</k:text></k:pong>', None)),
    'header': ('doPing', 'param', 'head', 200, ('<k:pong><k:num>3</k:num></k:pong>', '<k:note>back</k:note><k:info><k:who>v</k:who></k:info>')),
    'count': ('doPing', 'param', 'head', 200, ('<k:pong><k:num>4</k:num></k:pong>', '<k:count>4</k:count>')),
    'other': ('doOther', 'param', None, 200, ('<k:pong><k:num>5</k:num></k:pong>', '<k:note>ignored</k:note>')),
    'client fault': ('doPing', 'param', None, 500, (fault, 'c')),
    'server fault': ('doOther', 'param', None, 500, (fault, 's')),
    'garbage': ('doPing', 'param', None, 502, b'<html>'),
    'nothing': ('doPing', 'param', None, 200, b''),
    'unreachable': ('doPing', 'param', None, None, None),
    'incomplete': ('doPing', 'incomplete', None, 200, ('<k:pong><k:num>6</k:num></k:pong>', None)),
    'unknown': ('doNothing', 'param', None, 200, ('<k:pong><k:num>7</k:num></k:pong>', None)),
}


def call(client, op):
    name, param, head, status, answer = CALLS[op]
    kit, version = client.kit, client.version
    if answer is None:
        content = None
    elif isinstance(answer, bytes):
        content = answer
    elif answer[0] is fault:
        content = envelope(version, fault(version, answer[1], f'text {op}')).encode()
    else:
        content = envelope(version, answer[0], answer[1]).encode()
    handlers = {} if content is None else {'http://h/p': lambda request: (status, {'Content-Type': CONTENT_TYPES[version]}, content)}
    param = kit.Ping(text='no num') if param == 'incomplete' else client.param
    with Wire(handlers) as wire:
        try:
            r = client.stub.call(name, param, header=head and client.head)
            got = 'result', kit.read(r.soap_body), kit.read_head(r.soap_header)
            r.soap_body.num = 77
        except SOAPError as e:
            got = 'fault', e.code, e.message, e.actor
        except Exception as e:
            got = 'raised', type(e).__name__
    text = lambda v: v.decode('latin-1') if isinstance(v, bytes) else v
    return got, [(r.method, r.url, sorted((text(k), text(v)) for k, v in r.headers.items()), r.body) for r in wire.sent]


def calls(ch, depth, times=None):
    version = ch.choose('version', [11, 12])
    compare(ch, lambda: f'{version}', lambda: Client(version), CALLS, call, depth, ('calls', version),
            lambda c: (c.kit.read(c.param), c.kit.read_head(c.head), c.stub.location, c.stub.username, c.stub.password), 'call', times)


# --- Models ------------------------------------------------------------------

class Leaf(xsd.ComplexType):
    INDICATOR = xsd.Sequence
    name = xsd.Element(xsd.String)
    tags = xsd.ListElement(xsd.String, tagname='tag', minOccurs=0, maxOccurs=xsd.UNBOUNDED)


class Shared(xsd.Group):
    a = xsd.Element(xsd.String, minOccurs=0)
    leafs = xsd.ListElement(Leaf, tagname='gleaf', minOccurs=0, maxOccurs=3)


class Marks(xsd.AttributeGroup):
    x = xsd.Attribute(xsd.Int, use=xsd.Use.OPTIONAL)
    y = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)


class Node(xsd.ComplexType):
    INDICATOR = xsd.Sequence
    v = xsd.Element(xsd.Int)
    leaf = xsd.Element(Leaf, minOccurs=0)
    next = xsd.Element('mc.checks.c20.Node', minOccurs=0)
    nodes = xsd.ListElement('mc.checks.c20.Node', tagname='node', minOccurs=0, maxOccurs=5)
    shared = xsd.Ref(Shared)
    marks = xsd.Ref(Marks)


class Special(Node):
    INDICATOR = xsd.Sequence
    more = xsd.Element(xsd.DateTime, minOccurs=0, nillable=True)


class Either(xsd.ComplexType):
    INDICATOR = xsd.Choice
    one = xsd.Element(xsd.String)
    two = xsd.Element(Leaf)
    many = xsd.ListElement(xsd.Int, tagname='m', minOccurs=1, maxOccurs=4)


SCHEMA = xsd.Schema('urn:m', elementFormDefault='qualified', complexTypes=[Leaf, Node, Special, Either], groups=[Shared], attributeGroups=[Marks],
                    elements={'node': xsd.Element(Node), 'special': xsd.Element(Special), 'either': xsd.Element(Either)})


class Short(xsd.String):
    maxLength = 1


class Values(xsd.ComplexType):
    t = xsd.Element(xsd.DateTime, minOccurs=0)
    c = xsd.Element(xsd.Time, minOccurs=0)
    d = xsd.Element(xsd.Date, minOccurs=0)
    x = xsd.Element(xsd.Double, minOccurs=0)
    n = xsd.Element(xsd.Decimal, minOccurs=0)
    b = xsd.Element(xsd.Boolean, minOccurs=0)
    s = xsd.Element(xsd.String, minOccurs=0)


class Narrow(xsd.ComplexType):
    """The same names with other types."""
    t = xsd.Element(xsd.String, minOccurs=0)
    c = xsd.Element(xsd.String, minOccurs=0)
    d = xsd.Element(xsd.String, minOccurs=0)
    x = xsd.Element(xsd.Integer, minOccurs=0)
    n = xsd.Element(xsd.Decimal(maxInclusive=0), minOccurs=0)
    b = xsd.Element(xsd.Integer, minOccurs=0)
    s = xsd.Element(Short, minOccurs=0)


# Equal in Python, but not the same.
ZONE = timezone(timedelta(hours=2))
WEST = timezone(-timedelta(hours=3, minutes=30))
POINT = datetime(2020, 1, 1, 12, tzinfo=timezone.utc)
EQUAL = {
    'utc': {'t': POINT, 'c': POINT.timetz(), 'd': XSDDate(2020, 1, 1, tzinfo=timezone.utc), 'x': 0.0, 'n': 1, 'b': True, 's': 'a'},
    'zone': {'t': POINT.astimezone(ZONE), 'c': POINT.astimezone(ZONE).timetz(), 'd': XSDDate(2020, 1, 1, tzinfo=ZONE), 'x': -0.0, 'n': Decimal('1.00'), 'b': 1, 's': 'a'},
    'west': {'t': POINT.astimezone(WEST), 'c': POINT.astimezone(WEST).timetz(), 'd': XSDDate(2020, 1, 1, tzinfo=WEST), 'x': 0, 'n': 1.0, 'b': 1, 's': 'ab'},
    'none': {'t': POINT.replace(tzinfo=None), 'c': POINT.time(), 'd': XSDDate(2020, 1, 1), 'x': 1, 'n': True, 'b': 0, 's': ''},
}
TEXTS = '<v><t>{t}</t><c>12:00:00{z}</c><d>2020-01-01{z}</d><x>{x}</x><n>{n}</n><b>{b}</b><s>{s}</s></v>'


def values(cls, **kw):
    o, out = cls(), []
    for k, v in kw.items():
        out.append(_try(lambda: setattr(o, k, v)))
        out.append(_try(lambda: cls(**{k: v}).xml('v')))
    return out, show(o), _try(lambda: o.xml('v'))


def texts(cls, t, z, x, n, b, s):
    return _try(lambda: show(cls.parsexml(TEXTS.format(t=t, z=z, x=x, n=n, b=b, s=s))))


class Objects:
    def __init__(self):
        self.kept = Node(v=1)


def _try(fn):
    try:
        return fn()
    except Exception as e:
        return 'raised', type(e).__name__


def show(o):
    if isinstance(o, xsd.ComplexType) or isinstance(o, (xsd.Group, xsd.AttributeGroup)):
        return type(o).__name__, [(f, show(getattr(o, f))) for f in FIELDS[type(o)]]
    if isinstance(o, list):
        return [show(x) for x in o]
    return 'NIL' if o is xsd.NIL else repr(o)


FIELDS = {Leaf: ['name', 'tags'], Node: ['v', 'leaf', 'next', 'nodes', 'shared', 'marks'], Shared: ['a', 'leafs'], Marks: ['x', 'y'],
          Either: ['one', 'two', 'many']}
FIELDS[Values] = FIELDS[Narrow] = list('tcdxnbs')
FIELDS[Special] = FIELDS[Node] + ['more']
M = 'xmlns="urn:m"'
FULL = (f'<node {M} x="4" y="z"><v>1</v><leaf><name>l</name><tag>a</tag><tag>b</tag></leaf><next><v>2</v><a>inner</a></next>'
        '<node><v>3</v></node><a>outer</a><gleaf><name>g</name></gleaf></node>')


def changed(o):
    o.leaf = Leaf(name='new')
    o.leaf.tags.append('t')
    o.nodes.append(Node(v=4))
    o.next = Node(v=5)
    o.next.nodes.append(Node(v=6))
    o.shared.a = 'set'
    o.shared.leafs.append(Leaf(name='x'))
    o.marks.x = 3
    return o


def build(cls, **kw):
    o = cls(**kw)
    return show(o), _try(lambda: o.xml('node'))


def documents(o):
    return etree.tostring(py2xsd.generate_xsd(SCHEMA))


MODEL_OPS = {
    'parse': lambda o: show(Node.parsexml(FULL)),
    'parse small': lambda o: show(Node.parsexml(f'<node {M}><v>7</v></node>')),
    'parse special': lambda o: show(Special.parsexml(f'<special {M}><v>7</v><next><v>8</v></next><more>2001-01-01T00:00:00Z</more></special>')),
    'parse nil': lambda o: show(Special.parsexml(f'<special {M} xmlns:i="http://www.w3.org/2001/XMLSchema-instance"><v>7</v><more i:nil="true"/></special>')),
    'parse invalid': lambda o: _try(lambda: show(Node.parsexml(f'<node {M}><v>seven</v></node>'))),
    'parse malformed': lambda o: _try(lambda: show(Node.parsexml('<node>'))),
    'parse unknown': lambda o: _try(lambda: show(Node.parsexml(f'<node {M}><v>7</v><what/></node>'))),
    'parse one': lambda o: show(Either.parsexml(f'<either {M}><one>1</one></either>')),
    'parse two': lambda o: show(Either.parsexml(f'<either {M}><two><name>n</name></two></either>')),
    'parse many': lambda o: show(Either.parsexml(f'<either {M}><m>1</m><m>2</m></either>')),
    'parse and change': lambda o: show(changed(Node.parsexml(FULL))),
    'build': lambda o: build(Node, v=1),
    'build special': lambda o: build(Special, v=1, more=xsd.NIL),
    'build and change': lambda o: show(changed(Node(v=1))),
    'build given list': lambda o: build(Node, v=1, nodes=[Node(v=2)]),
    'build without value': lambda o: build(Node),
    'build either': lambda o: (show(Either()), Either(one='x').xml('either'), Either(many=[1, 2]).xml('either')),
    'refuse': lambda o: _try(lambda: setattr(Node(v=1), 'v', 'x')) or _try(lambda: Node(v=1).nodes.append('x')) or _try(lambda: Node(what=1)),
    'render changed': lambda o: changed(Node(v=1)).xml('node'),
    'render special': lambda o: changed(Special(v=1)).xml('special'),
    'equal': lambda o: (Leaf(name='a') == Leaf(name='a'), Leaf(name='a') == Leaf(name='b')),
    'describe': documents,
    'validate': lambda o: _try(lambda: repr(py2xsd.schema_validator([SCHEMA])(etree.fromstring(f'<either {M}><one>1</one></either>')))),
    'values utc': lambda o: values(Values, **EQUAL['utc']),
    'values zone': lambda o: values(Values, **EQUAL['zone']),
    'values west': lambda o: values(Values, **EQUAL['west']),
    'values none': lambda o: values(Values, **EQUAL['none']),
    'values narrow': lambda o: values(Narrow, **EQUAL['zone']),
    'texts utc': lambda o: texts(Values, '2020-01-01T12:00:00Z', 'Z', '1', '1', '1', 'ab'),
    'texts zone': lambda o: texts(Values, '2020-01-01T14:00:00+02:00', '+02:00', '1.0', '1.0', 'true', 'ab'),
    'texts narrow': lambda o: texts(Narrow, '2020-01-01T12:00:00Z', 'Z', '1', '0', '1', 'a'),
    'texts refused': lambda o: texts(Narrow, '2020-01-01T12:00:00Z', 'Z', '1', '1', '1', 'ab'),
    'kept': lambda o: (show(o.kept), o.kept.xml('node')),
}


def models(ch, depth, times=None):
    compare(ch, lambda: 'models', Objects, MODEL_OPS, lambda o, op: MODEL_OPS[op](o), depth, 'models', lambda o: (show(o.kept), documents(o)), times=times)


# --- Code generation ---------------------------------------------------------

XS = 'xmlns:xs="http://www.w3.org/2001/XMLSchema"'


def thing(ns, field, extra=''):
    return (f'<xs:schema {XS} xmlns:t="{ns}" targetNamespace="{ns}" elementFormDefault="qualified">{extra}<xs:simpleType name="code"><xs:restriction base="xs:string">'
            f'<xs:enumeration value="{field}"/></xs:restriction></xs:simpleType><xs:complexType name="derived"><xs:complexContent><xs:extension base="t:thing"><xs:sequence>'
            f'<xs:element name="{field}2" type="t:code"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>'
            f'<xs:complexType name="thing"><xs:sequence><xs:element name="{field}" type="t:code" maxOccurs="2"/></xs:sequence></xs:complexType>'
            f'<xs:element name="thing" type="t:thing"/></xs:schema>')


def service(ns, op):
    w = 'http://schemas.xmlsoap.org/wsdl/'
    return (f'<definitions xmlns="{w}" xmlns:s="{w}soap/" xmlns:w="{ns}" xmlns:x="{ns}:x" targetNamespace="{ns}"><types>{thing(ns + ":x", op)}</types>'
            f'<message name="In"><part name="body" element="x:thing"/></message><message name="Out"><part name="body" element="x:thing"/></message>'
            f'<portType name="PT"><operation name="{op}"><input message="w:In"/><output message="w:Out"/></operation></portType>'
            f'<binding name="B" type="w:PT"><s:binding style="document" transport="http://schemas.xmlsoap.org/soap/http"/><operation name="{op}">'
            f'<s:operation soapAction="urn:{op}"/><input><s:body use="literal"/></input><output><s:body use="literal"/></output></operation></binding>'
            f'<service name="S"><port name="P{op}" binding="w:B"><s:address location="http://h/{op}"/></port></service></definitions>')


class Files:
    root = None


def _read(path):
    with open(path, 'rb') as f:
        return f.read()


def refused(fn):
    try:
        return fn()
    except Exception as e:
        return type(e).__name__


def _schema(name, ns, field):
    t = type(name, (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, field: xsd.Element(xsd.String)})
    return xsd.Schema(ns, complexTypes=[t], elements={name.lower(): xsd.Element(t)})


def _service(name, ns, field):
    schema = _schema(name, ns, field)
    return soap.Service(ns + ':s', 'http://h/p', [schema], [xsd.Method(operationName='op' + field, soapAction='urn:' + field, input=name.lower(), output=name.lower())])


def from_file(path):
    return xsd2py.generate_code_from_xsd(_read(os.path.join(Files.root, path)), cwd=os.path.dirname(os.path.join(Files.root, path)))


def wsdl_file(path, target):
    return wsdl2py.generate_code_from_wsdl(_read(os.path.join(Files.root, path)), target, cwd=os.path.dirname(os.path.join(Files.root, path)))


GENERATORS = {
    'xsd a': lambda: xsd2py.generate_code_from_xsd(thing('urn:a', 'fa').encode()),
    'file d1/main': lambda: from_file('d1/main.xsd'),
    'client a': lambda: wsdl2py.generate_code_from_wsdl(service('urn:a', 'opa').encode(), 'client'),
    'server b': lambda: wsdl2py.generate_code_from_wsdl(service('urn:b', 'opb').encode(), 'server'),
    'file d2/main': lambda: from_file('d2/main.xsd'),
    'wsdl file': lambda: wsdl_file('d1/main.wsdl', 'client'),
    'missing import': lambda: refused(lambda: from_file('d1/broken.xsd')),
    'describe a': lambda: etree.tostring(py2wsdl.generate_wsdl(_service('Foo', 'urn:a', 'x'))),
    'xsd b': lambda: xsd2py.generate_code_from_xsd(thing('urn:b', 'fb').encode()),
    'server a': lambda: wsdl2py.generate_code_from_wsdl(service('urn:a', 'opa').encode(), 'server'),
    'client with addressing': lambda: wsdl2py.generate_code_from_wsdl(service('urn:a', 'opa').encode(), 'client', use_wsa=True),
    'describe b': lambda: etree.tostring(py2wsdl.generate_wsdl(_service('Foo', 'urn:b', 'y'))),
    'schema a': lambda: etree.tostring(py2xsd.generate_xsd(_schema('Foo', 'urn:a', 'x'))),
    'schema b': lambda: etree.tostring(py2xsd.generate_xsd(_schema('Foo', 'urn:b', 'y'))),
    'malformed': lambda: refused(lambda: xsd2py.generate_code_from_xsd(b'<xs:schema')),
    'no schema': lambda: refused(lambda: xsd2py.generate_code_from_xsd(b'<a/>')),
    'wsdl file server': lambda: wsdl_file('d1/main.wsdl', 'server'),
}


def prepare():
    Files.root = root = os.path.realpath(tempfile.mkdtemp(prefix='mc-c20-'))
    for d, field in (('d1', 'f1'), ('d2', 'f2')):
        os.mkdir(os.path.join(root, d))
        for name, text in (('main.xsd', thing(f'urn:{d}', 'm' + field, '<xs:import namespace="urn:in" schemaLocation="in.xsd"/>')), ('in.xsd', thing('urn:in', field)),
                           ('broken.xsd', thing(f'urn:{d}', 'm' + field, '<xs:import namespace="urn:in" schemaLocation="in.xsd"/><xs:import namespace="urn:no" schemaLocation="no.xsd"/>')),
                           ('main.wsdl', service(f'urn:w{d}', 'op' + d).replace('<types>', '<import namespace="urn:in" location="in.wsdl"/><types>')),
                           ('in.wsdl', service('urn:in', 'in' + d))):
            with open(os.path.join(root, d, name), 'w') as f:
                f.write(text)


def generators(ch, depth, some):
    ops = list(GENERATORS)[:some]
    prepare()  # a fresh directory, so that the paths differ from run to run
    root = Files.root
    try:
        def clean(v):
            v = v.decode() if isinstance(v, bytes) else v
            return re.sub(r'\d{4}-\d\d-\d\d[T ]\d\d:\d\d:[\d.+:Z]+', 'NOW', v.replace(root, 'ROOT'))  # a note says when it was generated

        compare(ch, lambda: 'generators', lambda: None, ops, lambda o, op: clean(GENERATORS[op]()), depth, ('generators', some))
    finally:
        shutil.rmtree(root, ignore_errors=True)


def harnesses(tier):
    full = tier == 'thorough'
    n = 4 if full else 3
    return [Harness('requests', requests, {'depth': n - 1, 'few': False}, split=4), Harness('requests, longer', requests, {'depth': n, 'few': True}, split=2),
            Harness('client calls', calls, {'depth': n}, split=2), Harness('models', models, {'depth': n}, split=2),
            Harness('many requests', requests, {'depth': 0, 'few': True, 'times': [300] if full else [40]}, split=2, timeout=300),
            Harness('many client calls', calls, {'depth': 0, 'times': [300] if full else [40]}, split=2, timeout=300),
            Harness('many model operations', models, {'depth': 0, 'times': [1100] if full else [110]}, split=2, timeout=300),
            Harness('generators', generators, {'depth': 3 if full else 2, 'some': 17}, split=1),
            Harness('generators, longer', generators, {'depth': 4 if full else 3, 'some': 8}, split=2)]
