"""C21: concurrent requests do not influence each other."""
import gc
import multiprocessing
import os
import re
import threading

from ..lib import threads

threads.install('soapfish')

from ..explore import Harness  # noqa: E402
from ..lib.isolate import Zygote, isolated  # noqa: E402
from ..lib.soapkit import environ  # noqa: E402
from . import c20  # noqa: E402
from soapfish import py2xsd, soap, xsd  # noqa: E402
from soapfish.core import SOAPRequest  # noqa: E402
from soapfish.soap_dispatch import WsgiSoapApplication  # noqa: E402

from lxml import etree  # noqa: E402

TECHNIQUE = ('stateless model checking of the real code under a controlled thread scheduler (every line of the library is a scheduling point, '
             'preemptions bounded), every schedule in a forked copy of the process')
BOUNDS = {
    'quick': '27 scenarios of 2 or 3 threads (requests of all kinds to one dispatcher, first and later ones, through WSGI, with reused results; '
             'calls on one stub; first uses of models; generation of code): one preemption before the first and last execution of every line, before every '
             'instruction of the lines that write to shared objects, and every pair of preemptions next to such writes.',
    'thorough': 'As quick, and generation of client and server code, with one preemption before every execution of every line; in 6 scenarios two preemptions before the first '
                'execution of every line of both threads.',
}
ASSUMPTIONS = ['code outside the library (lxml, requests, logging) runs without interruption between two lines of the library',
               'switches within one line are explored for the lines that write to shared objects']

LIBRARY = os.path.dirname(os.path.abspath(soap.__file__)) + os.sep


def traced(code):
    return code.co_filename.startswith(LIBRARY) or code.co_filename == c20.__file__ and code.co_name in ('handle', 'deep', 'changed')


class Server(c20.Server):
    MC_SKIP = True

    def __init__(self, version, strict=True, reuse=False, before=()):
        super().__init__(version, strict, reuse)
        self.logs = {}
        for op in before:
            self.send(c20.REQUESTS[op])

    @property
    def log(self):
        return self.__dict__.setdefault('logs', {}).setdefault(threading.get_ident(), [])

    @log.setter
    def log(self, value):
        pass

    def wsgi(self, op):
        """The request through the WSGI application."""
        kind, payload = c20.REQUESTS[op]
        if kind == 'post':
            action, header, body = payload
            content = c20.envelope(self.version, body, header).encode()
            headers = {'Content-Type': 'text/xml', 'SOAPAction': f'"{action}"'} if self.version == 11 else {
                'Content-Type': f'application/soap+xml; action="{action}"'}
            env = environ('POST', 'http://h/p', headers, content)
        else:
            env = environ(*payload)
        del self.log[:]
        started = []
        content = b''.join(self.app(env, lambda *args: started.append(args)))
        return repr(started), content, repr(self.log)


def requests(version, *ops, strict=True, reuse=False, before=(), via='dispatch'):
    def make():
        server = Server(version, strict, reuse, before)
        if via == 'wsgi':
            server.app = WsgiSoapApplication(server.dispatcher)
        return server
    run = (lambda s, op: s.wsgi(op)) if via == 'wsgi' else (lambda s, op: s.send(c20.REQUESTS[op]))
    return make, run, ops, lambda s: [s.dispatcher, s.kit.service, getattr(s, 'app', None)]


class Client(c20.Client):
    MC_SKIP = True


def calls(version, *ops):
    return lambda: Client(version), client_call, ops, lambda c: [c.stub, c.kit.service, c.param, c.head]


def client_call(client, op):
    from requests.adapters import HTTPAdapter
    name, param, head, status, answer = c20.CALLS[op]
    kit, version = client.kit, client.version
    content = None
    if isinstance(answer, tuple):
        content = (c20.envelope(version, c20.fault(version, answer[1], f'text {op}')) if answer[0] is c20.fault
                   else c20.envelope(version, answer[0], answer[1])).encode()
    sent = []

    def send(adapter, request, **kw):
        import requests as r
        answers[threading.get_ident()][1].append((request.method, request.url, request.body))
        response = r.Response()
        response.status_code, response._content = status, answers[threading.get_ident()][0]
        response.url, response.request = request.url, request
        return response

    answers[threading.get_ident()] = content, sent
    HTTPAdapter.send = send if HTTPAdapter.send.__module__ != __name__ else HTTPAdapter.send
    try:
        r = client.stub.call(name, client.param, header=head and client.head)
        got = 'result', kit.read(r.soap_body), kit.read_head(r.soap_header)
    except Exception as e:
        got = type(e).__name__, getattr(e, 'code', None), getattr(e, 'message', None)
    return got, sent


answers = {}


def fresh_models():
    """Classes that nobody has used before."""
    class Leaf(xsd.ComplexType):
        INDICATOR = xsd.Sequence
        name = xsd.Element(xsd.String)
        tags = xsd.ListElement(xsd.String, tagname='tag', minOccurs=0, maxOccurs=xsd.UNBOUNDED)

    class Shared(xsd.Group):
        a = xsd.Element(xsd.String, minOccurs=0)
        leafs = xsd.ListElement(Leaf, tagname='gleaf', minOccurs=0, maxOccurs=3)

    class Marks(xsd.AttributeGroup):
        x = xsd.Attribute(xsd.Int, use=xsd.Use.OPTIONAL)

    class Base(xsd.ComplexType):
        INDICATOR = xsd.Sequence
        v = xsd.Element(xsd.Int(maxInclusive=9))
        leaf = xsd.Element(Leaf, minOccurs=0)
        nodes = xsd.ListElement('mc.checks.c20.Leaf', tagname='node', minOccurs=0, maxOccurs=5)
        late = xsd.Element('mc.checks.c20.Leaf', minOccurs=0)
        marks = xsd.Ref(Marks)

    class Special(Base):
        INDICATOR = xsd.Sequence
        more = xsd.Element(xsd.DateTime, minOccurs=0, nillable=True)
        shared = xsd.Ref(Shared)

    class Either(xsd.ComplexType):
        INDICATOR = xsd.Choice
        one = xsd.Element(xsd.String)
        two = xsd.Element(Leaf)

    class Models:
        pass

    o = Models()
    o.Leaf, o.Shared, o.Base, o.Special, o.Either = Leaf, Shared, Base, Special, Either
    o.schema = xsd.Schema('urn:m', elementFormDefault='qualified', complexTypes=[Leaf, Base, Special, Either], groups=[Shared],
                          attributeGroups=[Marks], elements={'base': xsd.Element(Base), 'special': xsd.Element(Special)})
    o.small = xsd.Schema('urn:small', elementFormDefault='qualified', complexTypes=[Leaf], elements={'leaf': xsd.Element(Leaf)})
    o.kept = Special(v=1, leaf=Leaf(name='kept'))
    return o


def show(o):
    if isinstance(o, (xsd.ComplexType, xsd.Group, xsd.AttributeGroup)):
        names = {'Leaf': ['name', 'tags'], 'Shared': ['a', 'leafs'], 'Marks': ['x'], 'Base': ['v', 'leaf', 'nodes', 'late', 'marks'],
                 'Special': ['v', 'leaf', 'nodes', 'late', 'marks', 'more', 'shared'], 'Either': ['one', 'two']}[type(o).__name__]
        return type(o).__name__, [(n, show(getattr(o, n))) for n in names]
    if isinstance(o, list):
        return [show(x) for x in o]
    return 'NIL' if o is xsd.NIL else repr(o)


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        return 'raised', type(e).__name__


M = 'xmlns="urn:m"'
MODEL_OPS = {
    'parse': lambda o: show(o.Special.parsexml(f'<special {M} x="4"><v>1</v><leaf><name>l</name><tag>a</tag></leaf><node><name>1</name></node><late><name>2</name></late>'
                                               '<more>2001-01-01T00:00:00Z</more><a>s</a><gleaf><name>g</name></gleaf></special>')),
    'parse other': lambda o: show(o.Special.parsexml(f'<special {M} x="7"><v>2</v><leaf><name>m</name><tag>b</tag><tag>c</tag></leaf><a>t</a></special>')),
    'parse base': lambda o: show(o.Base.parsexml(f'<base {M}><v>3</v><node><name>5</name></node><node><name>6</name></node></base>')),
    'parse invalid': lambda o: attempt(lambda: show(o.Base.parsexml(f'<base {M}><v>x</v></base>'))),
    'parse choice': lambda o: show(o.Either.parsexml(f'<either {M}><two><name>n</name></two></either>')),
    'parse with schema': lambda o: (show(o.Leaf.parsexml('<leaf xmlns="urn:small"><name>n</name></leaf>', schema=o.small)),
                                    attempt(lambda: show(o.Leaf.parsexml('<leaf xmlns="urn:small"/>', schema=o.small)))),
    'build': lambda o: o.Special(v=4, leaf=o.Leaf(name='p', tags=['q']), more=xsd.NIL).xml('special'),
    'build base': lambda o: o.Base(v=5, leaf=o.Leaf(name='r')).xml('base'),
    'build choice': lambda o: o.Either(one='s').xml('either'),
    'refuse': lambda o: attempt(lambda: o.Base(v=10)),
    'render kept': lambda o: o.kept.xml('special'),
    'describe': lambda o: etree.tostring(py2xsd.generate_xsd(o.small)),
    'fill': lambda o: (lambda x: (x.nodes.append(c20.Leaf(name='1')), setattr(x, 'v', 8), setattr(x.marks, 'x', 2), setattr(x.shared, 'a', 'w'), show(x))[-1])(o.Special()),
}


def models(*ops):
    return fresh_models, lambda o, op: MODEL_OPS[op](o), ops, lambda o: [o]


def generated(o, op):
    v = c20.GENERATORS[op]()
    return re.sub(r'\d{4}-\d\d-\d\d[T ]\d\d:\d\d:[\d.+:Z]+', 'NOW', v.decode() if isinstance(v, bytes) else v)  # a note says when it was generated


def generators(*ops):
    return lambda: None, generated, ops, lambda o: []


ALL = list(c20.REQUESTS)
SCENARIOS = {
    'two calls': requests(11, 'full ping', 'other', before=ALL),
    'first requests': requests(11, 'full ping', 'with header'),
    'headers': requests(12, 'with header', 'other header', before=ALL),
    'faults': requests(11, 'invalid', 'raise', before=ALL),
    'crash and result': requests(12, 'crash', 'headed', before=ALL),
    'lenient': requests(12, 'unknown header', 'with header', strict=False, before=ALL),
    'the same results': requests(11, 'headed', 'headed', reuse=True, before=ALL),
    'routing': requests(11, 'by element', 'special', before=ALL),
    'documents': requests(11, 'wsdl', 'wsdl elsewhere', before=ALL),
    'document and call': requests(12, 'xsd', 'deep', before=ALL),
    'through WSGI': requests(12, 'full ping', 'raise', before=ALL, via='wsgi'),
    'one stub': calls(11, 'header', 'client fault'),
    'one stub, results': calls(12, 'text', 'count'),
    'first parse': models('parse', 'parse other'),
    'parse base and derived': models('parse base', 'parse'),
    'first build': models('build', 'build base'),
    'build and parse': models('build', 'parse'),
    'choices': models('parse choice', 'build choice'),
    'refuse and accept': models('refuse', 'parse invalid'),
    'describe and parse': models('describe', 'parse'),
    'describe twice': models('describe', 'describe'),
    'render twice': models('render kept', 'render kept'),
    'fill twice': models('fill', 'fill'),
    'generate code': generators('xsd a', 'xsd b'),
    'generate modules': generators('client a', 'server b'),
    'validate': models('parse with schema', 'parse with schema'),
    'three first parses': models('parse', 'parse other', 'parse base'),
    'three calls': requests(11, 'full ping', 'headed', 'raise', before=ALL),
}


class Watch:
    """Says whether anything shared was written since the last time."""

    def __init__(self, roots):
        self.roots = roots
        self.renew()

    def renew(self):
        self.containers = threads.shared(self.roots, 'soapfish')
        self.last = threads.fingerprint(self.containers)

    def __call__(self):
        if threads.fingerprint(self.containers) == self.last:
            return False
        self.renew()
        return True


profiles = {}


def alone(objects, name, op, watch, opcodes=()):
    make, run, ops, roots = SCENARIOS[name]
    s = threads.Scheduler([lambda: run(objects, op)], [(0, None)], traced, opcodes, Watch(roots(objects)) if watch else lambda: False)
    return s.run()[0], s.points[0]


def profile(task):
    """What a thread of a scenario does when it is alone: (answer, points, the lines that write, the points within these lines)."""
    name, op = task
    make = SCENARIOS[name][0]
    answer, points = isolated(lambda: alone(make(), name, op, True), timeout=300)
    wrote = [k for k in range(1, len(points)) if points[k][3]]
    lines = {(points[k - 1][0], points[k - 1][2]) for k in wrote}
    fine = isolated(lambda: alone(make(), name, op, False, lines), timeout=300)[1] if lines else points
    thin = lambda x: [p[:3] for p in x]
    return task, (answer, thin(points), wrote, lines, thin(fine))


def prepare(names):
    """The profiles are made once, before the exploration starts."""
    tasks = [(name, op) for name in names for op in dict.fromkeys(SCENARIOS[name][2])]
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('MC_WORKERS', '0')) or os.cpu_count()) as pool:
        profiles.update(pool.imap_unordered(profile, tasks))


def controlled(objects, name, schedule, opcodes):
    make, run, ops, _ = SCENARIOS[name]
    s = threads.Scheduler([lambda op=op: run(objects, op) for op in ops], schedule, traced, opcodes)
    results = s.run()
    return results, attempt(lambda: ('returned', run(objects, ops[0]))), s.switches


_zygotes = {}


def execute(ch, name, schedule, opcodes=()):
    ops = SCENARIOS[name][2]
    if name not in _zygotes:
        gc.collect()
        gc.freeze()
        _zygotes[name] = Zygote(SCENARIOS[name][0], controlled)
    results, after, switches = _zygotes[name](name, schedule, opcodes)
    ch.step(switches + len(ops))
    for op, got in zip(ops, results):
        want = profiles[name, op][0]
        ch.check(got == want, lambda: f'{name} {ops}, schedule {schedule}: {op} answered\n{got}\nalone\n{want}')
    want = profiles[name, ops[0]][0]
    ch.check(after == want, lambda: f'{name} {ops}, schedule {schedule}: afterwards {ops[0]} answers\n{after}\ninstead of\n{want}')
    ch.note(f'{name}')
    ch.state((name, schedule))


def some(points, first, last):
    """The positions of the first and last few executions of every line."""
    where = {}
    for k, p in enumerate(points):
        where.setdefault(p, []).append(k)
    return sorted({k for ks in where.values() for k in ks[:first] + (ks[-last:] if last else [])})


def one(ch, names, all_points):
    """One preemption: a thread stops before a line, the others run to their end, it goes on."""
    name = ch.choose('scenario', names)
    ops = SCENARIOS[name][2]
    n = ch.choose('thread', range(len(ops)))
    points = profiles[name, ops[n]][1]
    k = ch.choose('stops before point', range(len(points)) if all_points else some(points, 1, 1))
    others = [i for i in range(len(ops)) if i != n]
    if len(others) > 1 and ch.choose('the other way round', [False, True]):
        others.reverse()
    execute(ch, name, [(n, k)] + [(i, None) for i in others])


def within(ch, names):
    """One preemption between two instructions of a line that writes to shared objects."""
    name = ch.choose('scenario', names)
    ops = SCENARIOS[name][2]
    n = ch.choose('thread', range(len(ops)))
    _, _, _, lines, fine = profiles[name, ops[n]]
    inside = [k for k, p in enumerate(fine) if (p[0], p[2]) in lines]
    places = [inside[i] for i in some([fine[k] for k in inside], 60, 30)]
    if not places:
        ch.skip()
    k = ch.choose('stops before instruction', places)
    execute(ch, name, [(n, k)] + [(i, None) for i in range(len(ops)) if i != n], lines)


def two(ch, names, all_lines):
    """Two preemptions: a thread stops, another one runs and stops, the first one goes on to its end."""
    name = ch.choose('scenario', names)
    ops = SCENARIOS[name][2]
    pair = ch.choose('threads', [(a, b) for a in range(len(ops)) for b in range(len(ops)) if a != b])
    schedule = []
    for n in pair:
        _, points, wrote, lines, _ = profiles[name, ops[n]]
        near = sorted({x for k in wrote for x in (k - 1, k, k + 1) if x < len(points)})
        near = [k for k in near if k in set(some([points[i] for i in range(len(points))], 3, 2))] or near
        places = some(points, 1, 0) if all_lines else near
        if not places:
            ch.skip()
        schedule.append((n, ch.choose(f'thread {n} stops before point', places)))
    execute(ch, name, schedule + [(pair[0], None), (pair[1], None)])


def harnesses(tier):
    full = tier == 'thorough'
    names = [n for n in SCENARIOS if full or n != 'generate modules']
    prepare(names)
    hs = [Harness('one preemption', one, {'names': names, 'all_points': full}, split=2 if not full else 3),
          Harness('within a line', within, {'names': names}, split=2),
          Harness('two preemptions, near writes', two, {'names': names, 'all_lines': False}, split=2)]
    if full:
        hs.append(Harness('two preemptions', two, {'names': LONG, 'all_lines': True}, split=3))
    return hs


LONG = ['first parse', 'first build', 'choices', 'fill twice', 'two calls', 'headers']
