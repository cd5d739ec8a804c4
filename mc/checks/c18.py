"""C18: middlewares nest like an onion around the handler."""
import copy
import functools
import logging

from ..explore import Harness
from ..lib.kit import answer, client_fault, envelope, server_fault
from ..lib.soapkit import CONTENT_TYPES, environ
from soapfish import middlewares, soap, xsd
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher

TECHNIQUE = ('bounded exhaustive exploration of the real dispatcher: all stacks of middlewares over an alphabet of behaviours x all '
             'handler outcomes x messages, compared with a reference interpreter of the stack')
BOUNDS = {
    'quick': 'All stacks of 0..3 middlewares over 22 behaviours x 7 outcomes of the handler or the message (19 for stacks of up to 2), both '
             'versions; stacks of 4 over 9 behaviours; all stacks of 1..3 in which the same middlewares occur repeatedly x 7 kinds of callables; stacks of 0..2 under a handler that raises or returns the same object (7 kinds) in 3 requests; stacks of 5..13 that pass the call on but for one of 22 behaviours anywhere and another of 4; all sequences of 3 changes to the lists of middlewares of two dispatchers.',
    'thorough': 'As quick with all stacks of 4 over 22 behaviours x 3 outcomes and of 5 over 9 behaviours.',
}
ASSUMPTIONS = ['middlewares return an object of an element type, a SOAPError or a SOAPResponse']

CORE = ['pass', 'replace request by copy', 'replace response', 'answer object', 'raise fault', 'raise error', 'catch all', 'to fault', 'raise after']
BEHAVIOURS = CORE + ['change request', 'answer response', 'answer response with header', 'return fault', 'raise fault after', 'return fault after',
                     'catch faults', 'translate fault', 'twice', 'log errors', 'log value errors, no traceback', 'to fault with traceback', 'unwrap']
HANDLERS = ['object', 'response', 'return fault', 'raise fault', 'raise error', 'raise key error', 'invalid message']
MORE = ['raise own fault', 'return own fault', 'raise faulty value', 'raise own error', 'response with header', 'fault with header', 'unknown action', 'no body', 'malformed', 'raise type error', 'raise stop', 'raise exit']


# The handler raises or returns the very same object in every call.
SAME = ['same error', 'same own error', 'same fault', 'same returned fault', 'same response', 'same response with header', 'same fault response with header']


class OwnFault(SOAPError):
    def __init__(self, message):
        super().__init__('h', message)


class FaultyValue(SOAPError, ValueError):
    pass


class OwnError(ValueError):
    pass


class Leave(BaseException):
    """Like KeyboardInterrupt."""


class Log(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)


class World:
    """One dispatcher; the trace of what happens in it."""

    def __init__(self, version, stack):
        world = self

        class Item(xsd.ComplexType):
            INDICATOR = xsd.Sequence
            tag = xsd.Element(xsd.String)

        class Head(xsd.ComplexType):
            mark = xsd.Element(xsd.String, minOccurs=0, namespace='urn:x')

        self.Item, self.Head = Item, Head
        schema = xsd.Schema('urn:x', elementFormDefault='qualified', complexTypes=[Item],
                            elements={'item': xsd.Element(Item), 'go': xsd.Element(Item), 'gone': xsd.Element(Item), 'mark': xsd.Element(xsd.String)})
        Head.SCHEMA = schema
        self.version, self.trace, self.handler = version, [], None
        self.log, self.same = Log(), {}
        self.logger = logging.Logger('c18')
        self.logger.addHandler(self.log)

        def function(request, value):
            world.trace.append(('handler', value.tag))
            return world.outcome(value.tag)

        method = xsd.Method(operationName='go', soapAction='urn:go', input='go', output='gone', function=function, output_header=Head)
        v = soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12
        self.code = v.Code
        self.dispatcher = SOAPDispatcher(soap.Service('urn:s', 'http://h/p', [schema], [method], version=v),
                                         middlewares=[self.middleware(i, b) for i, b in enumerate(stack)])

    def outcome(self, tag):
        kind = self.handler
        if kind.startswith('same'):
            if kind not in self.same:
                head = self.Head(mark='h') if 'header' in kind else None
                fault = OwnFault('h-same')
                self.same[kind] = (SOAPResponse(fault if 'fault' in kind else self.Item(tag='h-same'), soap_header=head) if 'response' in kind
                                   else {'same error': ValueError, 'same own error': OwnError}[kind]('h-same') if 'error' in kind else fault)
            x = self.same[kind]
            if isinstance(x, SOAPResponse) or 'returned' in kind:
                return x
            raise x
        if kind in ('object', 'invalid message', 'no body', 'malformed'):
            return self.Item(tag=f'h-{tag}')
        if kind.startswith('response'):
            return SOAPResponse(self.Item(tag=f'h-{tag}'), soap_header=self.Head(mark='h') if 'header' in kind else None)
        if kind == 'return fault':
            return SOAPError('h', f'h-{tag}')
        if kind == 'fault with header':
            return SOAPResponse(SOAPError('h', f'h-{tag}'), soap_header=self.Head(mark='h'))
        if kind == 'raise fault':
            raise SOAPError('h', f'h-{tag}')
        if kind == 'raise own fault':
            raise OwnFault(f'h-{tag}')
        if kind == 'return own fault':
            return OwnFault(f'h-{tag}')
        if kind == 'raise faulty value':
            raise FaultyValue('h', f'h-{tag}')
        raise {'raise own error': OwnError, 'raise error': ValueError, 'raise key error': KeyError, 'raise type error': TypeError, 'raise stop': StopIteration, 'raise exit': Leave}[kind](f'h-{tag}')

    def content(self, tag):
        return envelope(self.version, f'<q:go xmlns:q="urn:x"><q:tag>{tag}</q:tag></q:go>').encode()

    def show(self, x):
        """What a middleware sees."""
        if isinstance(x, SOAPResponse):
            return ('response', self.show(x.soap_body), x.soap_header and x.soap_header.mark)
        if isinstance(x, SOAPError):
            return ('fault', x.code.split(':')[-1] if x.code in (self.code.CLIENT, self.code.SERVER) else x.code,
                    '' if x.code in (self.code.CLIENT, self.code.SERVER) else x.message)
        if isinstance(x, (Exception, Leave)):
            return (x.__class__.__name__, str(x.args[0]))
        if isinstance(x, self.Item):
            return ('object', x.tag)
        return repr(x)

    def middleware(self, i, behaviour):
        if behaviour in ('to fault', 'to fault with traceback'):
            inner = middlewares.ExceptionToSoapFault(traceback='traceback' in behaviour)
        elif behaviour == 'log errors':
            inner = middlewares.ExceptionLogger(self.logger)
        elif behaviour == 'log value errors, no traceback':
            inner = middlewares.ExceptionLogger(self.logger, exceptions=(ValueError,), traceback=False)
        else:
            inner = self.own(i, behaviour)

        def watched(request, next_call):
            """Records what goes in and out of the middleware."""
            self.trace.append(('enter', i, self.tag(request)))

            def inside(*args, **kw):
                try:
                    x = next_call(*args, **kw)
                except (Exception, Leave) as e:
                    self.trace.append(('seen raised', i, self.show(e)))
                    self.objects.append(('raised', i, e))
                    raise
                self.trace.append(('seen', i, self.show(x)))
                self.objects.append(('seen', i, x))
                return x

            try:
                x = inner(request, inside)
            except (Exception, Leave) as e:
                self.trace.append(('left raising', i, self.show(e)))
                self.objects.append(('left', i, e))
                raise
            self.trace.append(('left', i, self.show(x)))
            self.objects.append(('left', i, x))
            return x

        return watched

    def tag(self, request):
        content = request.http_content
        return content[content.find(b'tag>') + 4:content.rfind(b'</q:tag>')].decode() if b'tag>' in content else '?'

    def own(self, i, behaviour):
        Item, Head = self.Item, self.Head

        def f(request, next_call):
            b = behaviour
            if b == 'pass':
                return next_call(request)
            if b == 'change request':
                request.http_content = self.content(f'{i}')
                return next_call(request)
            if b == 'replace request by copy':
                request = copy.copy(request)
                request.http_content = self.content(f'{i}')
                return next_call(request)
            if b == 'replace response':
                next_call(request)
                return SOAPResponse(Item(tag=f'm{i}'), soap_header=Head(mark=f'm{i}'))
            if b == 'unwrap':
                x = next_call(request)
                return x.soap_body if isinstance(x, SOAPResponse) else x
            if b == 'answer object':
                return Item(tag=f'm{i}')
            if b.startswith('answer response'):
                return SOAPResponse(Item(tag=f'm{i}'), soap_header=Head(mark=f'm{i}') if 'header' in b else None)
            if b == 'return fault':
                return SOAPError('m', f'm{i}')
            if b == 'raise fault':
                raise SOAPError('m', f'm{i}')
            if b == 'raise error':
                raise ValueError(f'm{i}')
            if b == 'raise after':
                next_call(request)
                raise KeyError(f'm{i}')
            if b == 'raise fault after':
                next_call(request)
                raise SOAPError('m', f'm{i}')
            if b == 'return fault after':
                next_call(request)
                return SOAPError('m', f'm{i}')
            if b == 'catch all':
                try:
                    return next_call(request)
                except Exception:
                    return Item(tag=f'm{i}')
            if b == 'catch faults':
                try:
                    return next_call(request)
                except SOAPError:
                    return Item(tag=f'm{i}')
            if b == 'translate fault':
                try:
                    return next_call(request)
                except SOAPError as e:
                    raise ValueError(f'm{i}') from e
            if b == 'twice':
                next_call(request)
                return next_call(request)
            raise KeyError(b)

        return f


class Reference:
    """What must happen: a small interpreter of stacks; values are (returned?, shown value)."""

    def __init__(self, stack, handler):
        self.stack, self.handler = stack, handler
        self.trace, self.logged = [], []

    def core(self, tag):
        kind = self.handler
        if tag == 'original' and kind in ('invalid message', 'unknown action', 'no body', 'malformed') or kind == 'unknown action':
            return False, ('fault', 'client', '')
        if kind in ('invalid message', 'no body', 'malformed'):
            kind = 'object'
        self.trace.append(('handler', tag))
        return {
            'same error': (False, ('ValueError', 'h-same')), 'same own error': (False, ('OwnError', 'h-same')),
            'same fault': (False, ('fault', 'h', 'h-same')), 'same returned fault': (True, ('response', ('fault', 'h', 'h-same'), None)),
            'same response': (True, ('response', ('object', 'h-same'), None)),
            'same response with header': (True, ('response', ('object', 'h-same'), 'h')),
            'same fault response with header': (True, ('response', ('fault', 'h', 'h-same'), 'h')),
            'object': (True, ('response', ('object', f'h-{tag}'), None)), 'response': (True, ('response', ('object', f'h-{tag}'), None)),
            'response with header': (True, ('response', ('object', f'h-{tag}'), 'h')),
            'raise own fault': (False, ('fault', 'h', f'h-{tag}')), 'raise faulty value': (False, ('fault', 'h', f'h-{tag}')),
            'return own fault': (True, ('response', ('fault', 'h', f'h-{tag}'), None)),
            'raise own error': (False, ('OwnError', f'h-{tag}')),
            'return fault': (True, ('response', ('fault', 'h', f'h-{tag}'), None)),
            'fault with header': (True, ('response', ('fault', 'h', f'h-{tag}'), 'h')),
            'raise fault': (False, ('fault', 'h', f'h-{tag}')), 'raise error': (False, ('ValueError', f'h-{tag}')),
            'raise key error': (False, ('KeyError', f'h-{tag}')), 'raise type error': (False, ('TypeError', f'h-{tag}')),
            'raise stop': (False, ('StopIteration', f'h-{tag}')), 'raise exit': (False, ('Leave', f'h-{tag}'))}[kind]

    def run(self, i, request):
        """request: [tag] (changed in place like the real one)."""
        if i == len(self.stack):
            return self.core(request[0])
        self.trace.append(('enter', i, request[0]))
        ok, x = self.middleware(i, self.stack[i], request)
        self.trace.append(('left' if ok else 'left raising', i, x))
        return ok, x

    def inside(self, i, request):
        ok, x = self.run(i + 1, request)
        self.trace.append(('seen' if ok else 'seen raised', i, x))
        return ok, x

    def middleware(self, i, b, request):
        mine = ('object', f'm{i}')
        fault, error = ('fault', 'm', f'm{i}'), ('ValueError', f'm{i}')
        if b == 'answer object':
            return True, mine
        if b.startswith('answer response'):
            return True, ('response', mine, f'm{i}' if 'header' in b else None)
        if b in ('return fault', 'raise fault'):
            return b == 'return fault', fault
        if b == 'raise error':
            return False, error
        if b == 'change request':
            request[0] = str(i)
        if b == 'replace request by copy':
            request = [str(i)]
        ok, x = self.inside(i, request)
        if b in ('pass', 'change request', 'replace request by copy'):
            return ok, x
        if b.startswith('to fault'):
            if not ok and x[0] == 'Leave':
                return ok, x
            if ok or x[0] == 'fault':
                return True, x
            return True, ('fault', 'server', '')
        if b.startswith('log'):
            if not ok and (b == 'log errors' and x[0] != 'Leave' or x[0] in ('ValueError', 'OwnError')
                           or self.handler == 'raise faulty value' and x[:2] == ('fault', 'h')):
                self.logged.append((x, b == 'log errors'))
            return ok, x
        if b == 'catch all':
            return (ok, x) if ok or x[0] == 'Leave' else (True, mine)
        if b == 'catch faults':
            return (True, mine) if not ok and x[0] == 'fault' else (ok, x)
        if b == 'translate fault':
            return (False, error) if not ok and x[0] == 'fault' else (ok, x)
        if not ok:
            return ok, x
        if b == 'replace response':
            return True, ('response', mine, f'm{i}')
        if b == 'unwrap':
            return True, x[1] if x[0] == 'response' else x
        if b == 'raise after':
            return False, ('KeyError', f'm{i}')
        if b == 'raise fault after':
            return False, fault
        if b == 'return fault after':
            return True, fault
        if b == 'twice':
            return self.inside(i, request)
        raise KeyError(b)


def mapped(x, version):
    """Replace the codes of the version."""
    if isinstance(x, tuple):
        if x[:1] == ('fault',) and x[1] in ('client', 'server'):
            name = {('client', 11): 'Client', ('server', 11): 'Server', ('client', 12): 'Sender', ('server', 12): 'Receiver'}[x[1], version]
            return ('fault', name, '')
        return tuple(mapped(y, version) for y in x)
    return x


def run(ch, world, stack, handler):
    version = world.version
    world.trace, world.objects, world.handler, world.log.records = [], [], handler, []
    content, action = world.content('original'), 'urn:go'
    if handler == 'invalid message':
        content = content.replace(b'q:tag', b'q:tug')
    elif handler == 'unknown action':
        action = 'urn:none'
    elif handler == 'no body':
        content = envelope(version, '').encode()
    elif handler == 'malformed':
        content = b'<'
    headers = {'Content-Type': CONTENT_TYPES[version]}
    if version == 11:
        headers['SOAPAction'] = f'"{action}"'
    else:
        headers['Content-Type'] += f'; action="{action}"'
    request = SOAPRequest(environ('POST', 'http://h/p', headers, content), content)
    reference = Reference(stack, handler)
    ok, want = reference.run(0, [world.tag(request) if handler in ('no body', 'malformed', 'invalid message') else 'original'])
    if handler in ('no body', 'malformed', 'invalid message'):
        # The tag the reference uses for these requests is only a name.
        first = world.tag(request)
        reference = Reference(stack, handler)
        ok, want = reference.run(0, ['original'])
        reference.trace = [(*t[:2], first) if t[0] == 'enter' and t[2] == 'original' else t for t in reference.trace]
    ch.step()
    try:
        response, raised = world.dispatcher.dispatch(request), None
    except (Exception, Leave) as e:
        response, raised = None, e
    what = lambda: f'{version} stack {stack}, {handler}'
    ch.check(world.trace == [mapped(t, version) for t in reference.trace],
             lambda: f'{what()}\ntrace    {world.trace}\nexpected {[mapped(t, version) for t in reference.trace]}')
    # What a middleware is left with is the very object the next outer one sees.
    left = {}
    for kind, i, x in world.objects:
        if kind == 'left':
            left[i] = x
        elif i + 1 in left:
            ch.check(left[i + 1] is x, lambda: f'{what()}\nmiddleware {i} sees another object than {i + 1} left')
    ch.check(len(world.log.records) == len(reference.logged), lambda: f'{what()}\n{len(world.log.records)} log records, expected {reference.logged}')
    for r, (x, traceback) in zip(world.log.records, reference.logged):
        ch.check(r.levelno >= logging.ERROR and bool(r.exc_info) == traceback and (x[1] in r.getMessage() or x[0] == 'fault'),
                 lambda: f'{what()}\nlogged {r.getMessage()!r} {r.exc_info} for {x}')
    want = mapped(want, version)
    if not ok and want[0] != 'fault':
        ch.check(raised is not None and world.show(raised) == want, lambda: f'{what()}\nraised {raised!r}, expected {want}')
        ch.note('raised')
        return
    ch.check(raised is None, lambda: f'{what()}\nraised {raised!r}, expected {want}')
    try:
        got = answer(version, response)
    except ValueError as e:
        ch.fail(f'{what()}\n{e}\n{response.http_content!r}')
    body, head = (want[1], want[2]) if want[0] == 'response' else (want, None)
    shown = lambda: f'{what()}\n{response.http_content!r}\nexpected {want}'
    ch.check([e.text for e in got[-1]] == ([] if head is None else [head]), lambda: f'{shown()}\nheader')
    if body[0] == 'fault':
        ch.check(got[0] == 'fault' and got[1].split(':')[-1] == body[1] and (body[2] == '' or got[2] == body[2]), shown)
        ch.note('fault')
    else:
        ch.check(got[0] == 'result' and [c.text for c in got[1]] == [body[1]], shown)
        entered = any(t[0] == 'handler' for t in world.trace)
        names = {'{urn:x}gone', '{urn:x}item'} if not entered or body[1].startswith('m') or \
            {'replace request by copy', 'unwrap'} <= set(stack) else {'{urn:x}gone'}
        ch.check(got[1].tag in names, lambda: f'{shown()}\nanswered by {got[1].tag}')
        ch.note('result')


class Method:
    def __init__(self, f):
        self.f = f

    def __call__(self, request, next_call):
        return self.f(request, next_call)

    def method(self, request, next_call):
        return self.f(request, next_call)


class Alike(Method):
    def __eq__(self, other):
        return True

    __hash__ = None


def falsy(f):
    class Falsy(Method):
        def __len__(self):
            return 0
    return Falsy(f)


WRAPS = {'function': lambda f: f, 'partial': lambda f: functools.partial(lambda x, request, next_call: f(request, next_call), 0),
         'object': Method, 'bound method': lambda f: Method(f).method, 'alike': Alike, 'falsy': falsy,
         'defaults': lambda f: lambda request, next_call, more=None, **kw: f(request, next_call)}


def repeated(ch, depth):
    """The same middlewares several times, of all kinds of callables."""
    stack = [ch.choose(f'place {i}', 'ABC'[:i + 1]) for i in range(depth)]
    wrap = {x: ch.choose(f'kind of {x}', list(WRAPS)) for x in sorted(set(stack))}
    as_tuple = ch.choose('given as', ['list', 'tuple'])
    outcome = ch.choose('outcome', ['object', 'raise fault', 'raise error'])
    world = World(11, [])
    trace = world.trace

    def make(x):
        def f(request, next_call):
            trace.append(('enter', x))
            try:
                return next_call(request)
            finally:
                trace.append(('leave', x))
        return WRAPS[wrap[x]](f)

    made = {x: make(x) for x in wrap}
    listed = [made[x] for x in stack]
    dispatcher = SOAPDispatcher(world.dispatcher.service, middlewares=tuple(listed) if as_tuple == 'tuple' else listed)
    world.handler = outcome
    for n in range(2):
        del trace[:]
        content = world.content('original')
        request = SOAPRequest(environ('POST', 'http://h/p', {'Content-Type': CONTENT_TYPES[11], 'SOAPAction': '"urn:go"'}, content), content)
        ch.step()
        try:
            response, raised = dispatcher.dispatch(request), None
        except Exception as e:
            response, raised = None, e
        want = [('enter', x) for x in stack] + [('handler', 'original')] + [('leave', x) for x in stack[::-1]]
        ch.check(trace == want, lambda: f'{stack} {wrap} {outcome}, call {n}\n{trace}\nexpected {want}')
        ch.check((raised is None) == (outcome != 'raise error'), lambda: f'{stack} {wrap} {outcome}: {raised!r}')
        ch.check(raised is not None or (response.http_status_code == 200) == (outcome == 'object'), lambda: f'{stack} {wrap} {outcome}: status')
    ch.check(len(listed) == depth and all(a is made[b] for a, b in zip(listed, stack)), 'the list of middlewares is changed')
    ch.state((stack, wrap, outcome))
    ch.note(outcome)


CHANGES = ['append', 'insert first', 'remove last', 'new list', 'empty']


def changed(ch, depth):
    """The lists of middlewares of two dispatchers change between requests."""
    world = World(11, [])
    world.handler = 'object'
    trace, made = world.trace, []

    def make():
        x = f'm{len(made)}'

        def f(request, next_call):
            trace.append(('enter', x))
            try:
                return next_call(request)
            finally:
                trace.append(('leave', x))
        made.append(f)
        return x, f

    models, dispatchers = [], []
    for i in range(2):
        given = ch.choose(f'given to {i}', ['nothing', 'none', 'empty', 'one'])
        x, f = make()
        models.append([x] if given == 'one' else [])
        more = {'nothing': {}, 'none': {'middlewares': None}, 'empty': {'middlewares': []}, 'one': {'middlewares': [f]}}[given]
        dispatchers.append(SOAPDispatcher(world.dispatcher.service, **more))
    done = []
    for n in range(depth + 1):
        if n:
            i = ch.choose(f'dispatcher {n}', [0, 1])
            change = ch.choose(f'change {n}', CHANGES)
            done.append((i, change))
            x, f = make()
            if change == 'append':
                dispatchers[i].middlewares.append(f)
                models[i].append(x)
            elif change == 'insert first':
                dispatchers[i].middlewares.insert(0, f)
                models[i].insert(0, x)
            elif change == 'remove last':
                if not models[i]:
                    ch.skip()
                dispatchers[i].middlewares.pop()
                models[i].pop()
            elif change == 'new list':
                dispatchers[i].middlewares = [f]
                models[i] = [x]
            else:
                dispatchers[i].middlewares = []
                models[i] = []
        for dispatcher, stack in zip(dispatchers, models):
            del trace[:]
            content = world.content('original')
            request = SOAPRequest(environ('POST', 'http://h/p', {'Content-Type': CONTENT_TYPES[11], 'SOAPAction': '"urn:go"'}, content), content)
            ch.step()
            response = dispatcher.dispatch(request)
            want = [('enter', x) for x in stack] + [('handler', 'original')] + [('leave', x) for x in stack[::-1]]
            ch.check(trace == want and response.http_status_code == 200, lambda: f'{done}: {trace}\nexpected {want}')
    ch.state(models)
    ch.note('changed')


def stacks(ch, depth, behaviours, handlers, versions=(11, 12)):
    version = ch.choose('version', versions)
    stack = [ch.choose(f'middleware {i}', behaviours) for i in range(depth)]
    world = World(version, stack)
    for handler in handlers:
        run(ch, world, stack, handler)
    ch.state((version, stack))


def again(ch, depth, times=3):
    """The handler raises or returns the same object in every request."""
    version = ch.choose('version', [11, 12])
    stack = [ch.choose(f'middleware {i}', BEHAVIOURS) for i in range(depth)]
    world = World(version, stack)
    for handler in SAME:
        for n in range(times):
            run(ch, world, stack, handler)
    ch.state((version, stack))


def long(ch):
    """Many middlewares, all but one or two of which pass the call on."""
    version = ch.choose('version', [11, 12])
    stack = ['pass'] * ch.choose('length', [5, 7, 10, 13])
    i = ch.choose('place', range(len(stack)))
    stack[i] = ch.choose('behaviour', BEHAVIOURS)
    second = ch.choose('second', [None, 'to fault', 'replace response', 'raise fault', 'log errors'])
    if second:
        j = ch.choose('second place', [0, len(stack) // 2, len(stack) - 1])
        if j == i:
            ch.skip()
        stack[j] = second
    world = World(version, stack)
    for handler in ['object', 'raise fault', 'raise error']:
        run(ch, world, stack, handler)
    ch.state((version, stack))


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness(f'{n}', stacks, {'depth': n, 'behaviours': BEHAVIOURS, 'handlers': HANDLERS + MORE}, split=min(n + 1, 2)) for n in range(3)]
    out.append(Harness('3', stacks, {'depth': 3, 'behaviours': BEHAVIOURS, 'handlers': HANDLERS}, split=2))
    out += [Harness(f'repeated {n}', repeated, {'depth': n}, split=3) for n in range(1, 4 + full)]
    out += [Harness(f'again {n}', again, {'depth': n}, split=min(n + 1, 2)) for n in range(3)]
    out.append(Harness('long', long, split=3))
    out.append(Harness('changed', changed, {'depth': 4 if full else 3}, split=3))
    if full:
        out.append(Harness('4', stacks, {'depth': 4, 'behaviours': BEHAVIOURS, 'handlers': ['object', 'raise fault', 'raise error'], 'versions': [11]}, split=2))
        out.append(Harness('5 core', stacks, {'depth': 5, 'behaviours': CORE, 'handlers': ['object', 'raise fault', 'raise error'], 'versions': [12]}, split=2))
    else:
        out.append(Harness('4 core', stacks, {'depth': 4, 'behaviours': CORE, 'handlers': HANDLERS, 'versions': [12]}, split=2))
    return out
