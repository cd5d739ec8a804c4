"""C17: client stub and dispatcher agree on every call."""
import base64
import itertools

from lxml import etree

from ..explore import Harness
from ..lib import shapes
from ..lib.kit import NS, Kit
from ..lib.models import NIL, Built, F, M, described, read, tree, valid
from ..lib.soapkit import CONTENT_TYPES, Wire, normal, serve
from .c14 import TEXTS, printable
from .c15 import same
from soapfish import middlewares, soap, xsd
from soapfish.core import SOAPError, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher

TECHNIQUE = ('bounded exhaustive exploration: the real stub connected to the real dispatcher by a loopback transport; all small '
             'parameter, result and header models x objects, and all call sequences up to a depth')
BOUNDS = {
    'quick': 'Parameter/result models of 1..2 fields over 17 kinds x 4 layouts x objects (one deviation of form, version, input and '
             'output by class); header classes of 1..2 entries over 8 kinds x objects in both directions; all sequences of 3 calls '
             'over 15 kinds of call x 2 versions x exception middleware; fault codes x 12 messages; locations x credentials.',
    'thorough': 'As quick with 3 fields, two deviations, and sequences of 4 calls.',
}
ASSUMPTIONS = ['header entries declare their namespace (see the known finding)', 'an empty header may be read as no header']

VERSIONS = {11: soap.SOAPVersion.SOAP11, 12: soap.SOAPVersion.SOAP12}
URL = 'http://h/p'


def check_request(ch, wire, count, version, action, url, what, auth=None):
    ch.check(len(wire.sent) == count, lambda: f'{what()}\n{len(wire.sent)} requests sent, expected {count}')
    r = wire.sent[-1]
    ch.check(r.method == 'POST' and r.url == normal(url), lambda: f'{what()}\nsent {r.method} {r.url}, expected POST {url}')
    text = lambda v: v.decode('latin-1') if isinstance(v, bytes) else v
    headers = {k.lower(): text(v) for k, v in r.headers.items()}
    ct = headers.get('content-type', '')
    ch.check(ct.split(';')[0].strip() == CONTENT_TYPES[version], lambda: f'{what()}\ncontent type {ct}')
    if version == 11:
        ch.check(headers.get('soapaction', '').strip('"') == action, lambda: f'{what()}\naction {headers.get("soapaction")!r}')
    else:
        ch.check(f'action="{action}"' in ct, lambda: f'{what()}\ncontent type {ct}')
    ch.check('cookie' not in headers, lambda: f'{what()}\ncookie {headers.get("cookie")}')
    want = None if auth is None else 'Basic ' + base64.b64encode(':'.join(auth).encode('latin-1')).decode()
    ch.check(headers.get('authorization') == want, lambda: f'{what()}\nauthorization {headers.get("authorization")}, expected {want}')


KINDS = shapes.PLAIN


def echo(ch, width, star):
    """Parameters and results of all models."""
    picked = [ch.choose(f'kind {i}', KINDS) for i in range(width)]
    how = ch.choose('layout', shapes.LAYOUTS)
    fields, alphabets = [], []
    for i, k in enumerate(picked):
        f, alphabet = shapes.field(k, shapes.NAMES[i])
        fields.append(f)
        alphabets.append(alphabet)
    form = ch.dev('form', ['qualified', 'unqualified'])
    version = ch.dev('version', [11, 12])
    by = ch.dev('by', ['names', 'input class', 'output class', 'both classes'])
    indicator = ch.dev('indicator', ['sequence', 'choice']) if how == 'flat' else 'sequence'
    if indicator == 'choice' and all(f.kind == 'attr' for f in fields):
        ch.skip()
    model = shapes.layout(how, fields)
    model.indicator = indicator
    built = Built([model], form=form, elements={'root': model, 'answer': model})
    cls = built.classes[id(model)]
    got, reply = [], []

    def handler(request, value):
        got.append((type(value) is cls, read(model, value), request.soap_header))
        return built.object(model, reply[0])

    method = xsd.Method(operationName='op', soapAction='urn:do', function=handler,
                        input=cls if by in ('input class', 'both classes') else 'root',
                        output=cls if by in ('output class', 'both classes') else 'answer')
    service = soap.Service('urn:s', URL, [built.schema], [method], version=VERSIONS[version])
    stub = soap.Stub(service=service)
    combos = list(itertools.product(*alphabets))
    if star:
        last = tuple(a[-1] for a in alphabets)
        combos = [c for c in combos if sum(x is not y for x, y in zip(c, last)) <= 1]
    all_values = []
    for combo in combos:
        values = {f.name: v for f, v in zip(fields, combo)}
        if indicator == 'choice' and len([f for f in fields if f.kind != 'attr' and values[f.name] not in (None, [])]) != 1:
            continue
        if how == 'wrapped':
            values = {'w0': values}
        if valid(model, tree(model, values, '{urn:m}root', 'urn:m', form), 'urn:m', form):
            all_values.append(values)
    with Wire({URL: serve(SOAPDispatcher(service))}) as wire:
        for n, values in enumerate(all_values):
            reply[:] = [all_values[-1 - n]]
            del got[:]
            what = lambda: f'{model!r} {form} {version} {by}\nparameter {values}, reply {reply[0]}'
            parameter = built.object(model, values)
            ch.step()
            try:
                response = stub.call('op', parameter)
            except SOAPError as e:
                ch.fail(f'{what()}\n{e}\n{wire.sent[-1].body!r}')
            check_request(ch, wire, n + 1, version, 'urn:do', URL, what)
            ch.check(len(got) == 1 and got[0][0] and got[0][2] is None, lambda: f'{what()}\nthe handler got {got}')
            ch.check(same(got[0][1], described(model, values)), lambda: f'{what()}\nthe handler got {got[0][1]}')
            ch.check(same(read(model, parameter), described(model, values)), lambda: f'{what()}\nthe parameter became {read(model, parameter)}')
            ch.check(type(response.soap_body) is cls and same(read(model, response.soap_body), described(model, reply[0])),
                     lambda: f'{what()}\nthe caller got {read(model, response.soap_body)}')
            ch.check(response.soap_header is None, lambda: f'{what()}\nheader {response.soap_header}')
            ch.note('echoed')
    ch.state((repr(model), form, version, by, indicator, repr(all_values)))


ENTRY_KINDS = shapes.kinds('str', 'int?', 'tag', 'list', 'leaf?', 'req', 'leaves', 'mid', 'derived', 'any')


def headers(ch, width):
    """Headers of all classes, both ways."""
    version = ch.choose('version', [11, 12])
    picked = [ch.choose(f'kind {i}', ENTRY_KINDS) for i in range(width)]
    form = ch.dev('form', ['qualified', 'unqualified'])
    place = ch.dev('place', ['method', 'service input', 'service'])
    space = ch.dev('namespace of the first entry', ['urn:m', 'urn:other'])
    fields, alphabets = [], []
    for i, k in enumerate(picked):
        f, alphabet = shapes.field(k, shapes.NAMES[i])
        f.ns, f.nillable = 'urn:m', False
        fields.append(f)
        alphabets.append([None if v is NIL else [x for x in v if x is not NIL] if isinstance(v, list) else v for v in alphabet])
    head = M('Head', fields)
    ping = M('Ping', [F('elem', 'v', shapes.I)])
    elements = {'ping': ping, 'pong': ping}
    other = None
    if space == 'urn:other':
        if fields[0].type not in (shapes.S, shapes.I, shapes.B):
            ch.skip()
        fields[0].ns = space
        far = Built([], ns=space, form=form, elements={fields[0].tagname: fields[0].type})
        other = [far.schema]
        elements.update({f.tagname: f.type for f in fields[1:]})
    else:
        elements.update({f.tagname: f.type for f in fields})
    built = Built([head, ping], form=form, elements=elements)
    Head, Ping = built.classes[id(head)], built.classes[id(ping)]
    got, reply = [], []

    def handler(request, value):
        h = request.soap_header
        got.append((value.v, h if h is None else read(head, h)))
        body = Ping(v=value.v + 1)
        return body if reply[0] is None else SOAPResponse(body, soap_header=built.object(head, reply[0]))

    method = xsd.Method(operationName='op', soapAction='urn:do', function=handler, input='ping', output='pong',
                        input_header=Head if place == 'method' else None, output_header=Head if place != 'service' else None)
    service = soap.Service('urn:s', URL, [built.schema] + (other or []), [method], version=VERSIONS[version],
                           input_header=Head if place != 'method' else None, output_header=Head if place == 'service' else None)
    stub = soap.Stub(service=service)
    all_values = [None] + [{f.name: v for f, v in zip(fields, c)} for c in itertools.product(*alphabets)]
    empty = lambda d: all(v in (None, []) for v in d.values())
    pairs = list(itertools.product(all_values, repeat=2)) if width == 1 else list(zip(all_values, reversed(all_values)))
    with Wire({URL: serve(SOAPDispatcher(service))}) as wire:
        for n, (sent, answered) in enumerate(pairs):
            reply[:] = [answered]
            del got[:]
            what = lambda: f'{head!r} {form} {version} {place}\nheader {sent}, reply {answered}\n{wire.sent[-1].body!r}'
            ch.step()
            try:
                response = stub.call('op', Ping(v=n), header=None if sent is None else built.object(head, sent))
            except SOAPError as e:
                ch.fail(f'{what()}\n{e}')
            check_request(ch, wire, n + 1, version, 'urn:do', URL, what)
            ch.check(len(got) == 1 and got[0][0] == n and response.soap_body.v == n + 1, lambda: f'{what()}\ndata {got} {response.soap_body.v}')
            for where, expected, found in (('handler', sent, got[0][1]),
                                           ('caller', answered, response.soap_header and read(head, response.soap_header))):
                if expected is None:
                    ch.check(found is None, lambda: f'{what()}\nthe {where} got header {found}')
                else:
                    expected = described(head, expected)
                    ch.check(same(found, expected) if found is not None else empty(expected),
                             lambda: f'{what()}\nthe {where} got header {found}, expected {expected}')
            ch.note('delivered')
    ch.state((repr(head), form, version, place, repr(pairs)))


def undeclared(ch):
    """The entries of a header class whose fields declare no namespace."""
    version = ch.choose('version', [11, 12])
    direction = ch.choose('direction', ['request', 'response'])

    class Item(xsd.ComplexType):
        v = xsd.Element(xsd.Int)

    class Head(xsd.ComplexType):
        token = xsd.Element(xsd.String, minOccurs=0)

    schema = xsd.Schema('urn:u', elementFormDefault='qualified', complexTypes=[Item, Head],
                        elements={'item': xsd.Element(Item), 'token': xsd.Element(xsd.String)})
    got = []

    def handler(request, value):
        got.append(request.soap_header)
        return SOAPResponse(Item(v=2), soap_header=Head(token='r') if direction == 'response' else None)

    service = soap.Service('urn:s', URL, [schema], [xsd.Method(
        operationName='op', soapAction='urn:do', function=handler, input='item', output='item', input_header=Head, output_header=Head)],
        version=VERSIONS[version])
    with Wire({URL: serve(SOAPDispatcher(service))}) as wire:
        ch.step()
        try:
            response = soap.Stub(service=service).call('op', Item(v=1), header=Head(token='q') if direction == 'request' else None)
        except SOAPError as e:
            ch.fail(f'the server refuses the header of its own client: {e}\n{wire.sent[-1].body!r}', key='header-entries-without-namespace')
        if direction == 'request':
            ch.check(got[0] is not None and got[0].token == 'q', f'the handler got {got}')
        else:
            ch.check(response.soap_header.token == 'r', 'the caller got another header')
    ch.state((version, direction))
    ch.note('delivered')


CALLS = {
    # name: (operation, parameter, header, handler outcome)
    'ping': ('doPing', {'num': 5}, None, 'result'),
    'ping zero': ('doPing', {'num': 0, 'text': 'a<&>b'}, None, 'result without text'),
    'ping full': ('doPing', {'num': 100, 'text': 'x', 'items': ['a', 'b'], 'at': 'at'}, None, 'result'),
    'ping nil': ('doPing', {'num': 7, 'when': 'nil'}, 'empty', 'result'),
    'ping with note': ('doPing', {'num': 1}, 'note', 'result'),
    'ping with info, answered with header': ('doPing', {'num': 2}, 'info', 'header'),
    'answered with header': ('doPing', {'num': 3}, None, 'header'),
    'answered with empty header': ('doPing', {'num': 3}, 'note', 'empty header'),
    'other': ('doOther', {'num': 9}, None, 'result'),
    'raised': ('doPing', {'num': 4}, 'note', 'raise'),
    'returned': ('doOther', {'num': 4}, None, 'return'),
    'fault with header': ('doPing', {'num': 6}, 'info', 'fault with header'),
    'exception': ('doOther', {'num': 8}, None, 'exception'),
    'invalid': ('doPing', {'text': 'no number'}, None, 'result'),
    'unknown operation': ('doNothing', {'num': 1}, None, 'result'),
}


def sequences(ch, depth):
    version = ch.choose('version', [11, 12])
    form = ch.choose('form', ['qualified', 'unqualified'])
    k = Kit(version, form, middlewares=[middlewares.ExceptionToSoapFault()])
    k.service.location = URL
    stub = soap.Stub(service=k.service)
    outcome = [None]
    heads = {'note': lambda: k.Head(note='n<'), 'info': lambda: k.Head(info=k.Info(who='me', level=0), count=1), 'empty': k.Head}
    head_values = {None: None, 'note': ('n<', None, None), 'info': (None, ('me', 0), 1), 'empty': (None, None, None)}

    def handler(name, request, value):
        o = outcome[0]
        if o == 'raise':
            raise SOAPError('Raised', 'r &')
        if o == 'return':
            return SOAPError('Returned', 'returned')
        if o == 'fault with header':
            return SOAPResponse(SOAPError('Head', 'h'), soap_header=k.Head(note='fault'))
        if o == 'exception':
            raise KeyError('oops')
        if o == 'header':
            return SOAPResponse(k.Pong(num=-value.num, text='h'), soap_header=k.Head(note='out', info=k.Info(who='out')))
        if o == 'empty header':
            return SOAPResponse(k.Pong(num=-value.num, text='h'), soap_header=k.Head())
        return k.Pong(num=value.num + 1, text=None if o == 'result without text' else name)

    k.handler = handler
    kept = []
    history = []
    with Wire({URL: serve(k.dispatcher)}, cookie='session=1; Path=/') as wire:
        for i in range(depth):
            name = ch.choose(f'call {i}', list(CALLS))
            history.append(name)
            operation, fields, header, outcome[0] = CALLS[name]
            fields = dict(fields)
            if fields.get('when') == 'nil':
                fields['when'] = xsd.NIL
            del k.calls[:]
            sent = len(wire.sent)
            what = lambda: f'{version} {form} calls {history}'
            parameter, head = k.Ping(**fields), heads[header]() if header else None
            ch.step()
            try:
                response, error = stub.call(operation, parameter, header=head), None
            except (SOAPError, StopIteration) as e:
                response, error = None, e
            if name == 'unknown operation':
                ch.check(error is not None and not isinstance(error, SOAPError) and len(wire.sent) == sent and not k.calls,
                         lambda: f'{what()}\n{error!r}, {len(wire.sent) - sent} requests')
                continue
            check_request(ch, wire, sent + 1, version, 'urn:ping' if operation == 'doPing' else 'urn:other', URL, what)
            if name == 'invalid':
                ch.check(isinstance(error, SOAPError) and error.code == k.code.CLIENT and not k.calls, lambda: f'{what()}\n{error!r} {k.calls}')
                continue
            data = (fields['num'], fields.get('text'), fields.get('items', []), 'nil' if 'when' in fields else None, fields.get('at'))
            want_head = head_values[header] if operation == 'doPing' else None
            found = k.calls[0] if len(k.calls) == 1 else k.calls
            ch.check(len(k.calls) == 1 and found[:2] == (operation, data) and (found[2] == want_head or header == 'empty' and found[2] is None),
                     lambda: f'{what()}\nthe handler got {k.calls}, expected {data} {want_head}')
            fault = {'raise': ('Raised', 'r &'), 'return': ('Returned', 'returned'), 'fault with header': ('Head', 'h'),
                     'exception': (k.code.SERVER, None)}.get(outcome[0])
            if fault:
                ch.check(isinstance(error, SOAPError) and error.code == fault[0] and (fault[1] is None and 'oops' in error.message or error.message == fault[1]),
                         lambda: f'{what()}\ngot {error!r} {response}, expected fault {fault}')
                ch.note('fault')
            else:
                ch.check(error is None, lambda: f'{what()}\n{error!r}')
                want = {'header': (-data[0], 'h'), 'empty header': (-data[0], 'h'), 'result': (data[0] + 1, operation),
                        'result without text': (data[0] + 1, None)}[outcome[0]], {'header': ('out', ('out', None), None)}.get(outcome[0])
                kept.append((response, want))
                ch.note('result')
            for response, want in kept:  # also what earlier calls returned
                found = k.read(response.soap_body), k.read_head(response.soap_header)
                ch.check(found == want or found == (want[0], (None, None, None)) and want[1] is None and 'answered with empty header' in history,
                         lambda: f'{what()}\nthe caller got {found}, expected {want}')
            ch.state((version, form, tuple(history)))


def faults(ch):
    """Codes and messages of faults."""
    version = ch.choose('version', [11, 12])
    how = ch.choose('how', ['raise', 'return', 'response', 'middleware'])
    k = Kit(version, middlewares=[middlewares.ExceptionToSoapFault()] if how == 'middleware' else [])
    k.service.location = URL
    stub = soap.Stub(service=k.service)
    with Wire({URL: serve(k.dispatcher)}) as wire:
        for code in [k.code.CLIENT, k.code.SERVER, 'My.Code', 'a:b']:
            for text in TEXTS + ['x', ' padded ', '\u20ac', 'a\u0085b', '"\'', '\r\n']:
                def handler(name, request, value):
                    e = SOAPError(code, text, 'urn:actor' if text == 'x' else None)
                    if how in ('raise', 'middleware'):
                        raise e
                    return e if how == 'return' else SOAPResponse(e)
                k.handler = handler
                sent = len(wire.sent)
                ch.step()
                try:
                    response = stub.call('doPing', k.Ping(num=1))
                except SOAPError as e:
                    # Line ends are normalised by no one here: the fault is written with character references.
                    ch.check(e.code == code and e.message == printable(text), f'{version} {how}: sent {code} {text!r}, got {e.code} {e.message!r}')
                    ch.check(len(wire.sent) == sent + 1, f'{len(wire.sent) - sent} requests')
                    ch.note('fault')
                else:
                    ch.fail(f'{version} {how}: sent {code} {text!r}, got {response.soap_body}')
                ch.state((version, how, code, text))


def where(ch):
    """Locations and credentials."""
    version = ch.choose('version', [11, 12])
    template = ch.choose('location', ['${scheme}://${host}/p?q=1', 'http://fixed:8080/p/', 'https://${host}/x y', '${scheme}://h/$other', 'http://h/$host/a'])
    given = ch.choose('given location', [None, 'http://given/p', 'https://given/${host}', 'callable', 'callable ignoring'])
    subclass = ch.choose('class', ['default', 'scheme and host'])
    user = ch.choose('credentials', [(None, None), ('u', 'p'), ('u', ''), ('u\xfc', 'p:q'), (None, 'p'), ('', 'p')])
    k = Kit(version)
    k.service.location = template
    k.handler = lambda name, request, value: k.Pong(num=value.num)
    cls = soap.Stub if subclass == 'default' else type('MyStub', (soap.Stub,), {'SERVICE': k.service, 'SCHEME': 'https', 'HOST': 'my.host:1'})
    scheme, host = ('http', 'www.example.net') if subclass == 'default' else ('https', 'my.host:1')
    seen = []

    def location(template, context):
        seen.append((template, dict(context)))
        return f'{context["scheme"]}://{context["host"]}/mine' if given == 'callable' else 'http://other/'

    url = template.replace('${scheme}', scheme).replace('${host}', host).replace('$host', host)
    if given and given.startswith('callable'):
        url = f'{scheme}://{host}/mine' if given == 'callable' else 'http://other/'
    elif given:
        url = given
    kw = {} if subclass != 'default' else {'service': k.service}
    stub = cls(*user, location=location if given and given.startswith('callable') else given, **kw)
    if given and given.startswith('callable'):
        ch.check(seen == [(template, {'scheme': scheme, 'host': host})], f'the callable got {seen}')
    auth = user if user[0] else None
    what = lambda: f'{version} {template} {given} {subclass} {user}'
    with Wire({url: serve(k.dispatcher)}) as wire:
        for n in range(2):
            ch.step()
            response = stub.call('doPing' if n else 'doOther', k.Ping(num=n))
            ch.check(response.soap_body.num == n, what)
            check_request(ch, wire, n + 1, version, 'urn:ping' if n else 'urn:other', url, what, auth)
    ch.state((version, template, given, subclass, user))
    ch.note('called')


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness('echo', echo, {'width': 1, 'star': False}, split=2, budget=None if full else 2),
           Harness('echo of pairs', echo, {'width': 2, 'star': not full}, split=2, budget=2 if full else 1),
           Harness('headers', headers, {'width': 1}, split=2), Harness('header pairs', headers, {'width': 2}, split=3, budget=2 if full else 1),
           Harness('undeclared', undeclared), Harness('faults', faults, split=2), Harness('where', where, split=3),
           Harness('sequences', sequences, {'depth': 4 if full else 3}, split=3)]
    if full:
        out.append(Harness('echo of triples', echo, {'width': 3, 'star': True}, split=3, budget=1))
    return out
