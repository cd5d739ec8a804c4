"""C14: every POST is answered by one well-formed SOAP message."""
import re

from lxml import etree

from ..explore import Harness
from ..lib.kit import NS, Kit, answer, client_fault, server_fault
from ..lib.messages import BODIES, HEADERS, PROLOGS, SHAPES, Reader, message
from ..lib.soapkit import ENVELOPES
from soapfish import middlewares
from soapfish.core import SOAPError, SOAPResponse

TECHNIQUE = ('bounded exhaustive exploration of the real dispatcher: all messages composed of an alphabet of shapes, all cuts and '
             'single-byte changes of messages, all handler outcomes; every answer is read by an independent reader')
BOUNDS = {
    'quick': 'Both versions x all messages with 3 deviations among 23 envelope shapes, 19 headers, 43 bodies, 11 prologs, 4 actions, '
             'handler outcome, element form; all cuts, all deletions and substitutions (10 bytes) of single bytes of 2 messages; '
             'all 23 handler outcomes x 12 messages x 4 codes x 4 header kinds x exception middleware.',
    'thorough': 'As quick with 4 deviations; all pairs of single-byte changes of the tags of a short message.',
}
ASSUMPTIONS = ['messages with several body entries, several headers, elements after the body or a document type are only required '
               'to be answered by a SOAP message, whichever', 'a handler that raises without the exception middleware is outside']

_kits = {}


def kit(version, form='qualified', middleware=True, **kw):
    key = version, form, middleware, tuple(sorted(kw.items()))
    if key not in _kits:
        mw = [middlewares.ExceptionToSoapFault()] if middleware else []
        _kits[key] = Kit(version, form, middlewares=mw, **kw), Reader(version, form, strict=kw.get('strict_soap_header', True))
    return _kits[key]


class OwnFault(SOAPError):
    """A fault with more to it."""

    def __init__(self, code, message, extra):
        super().__init__(code, message)
        self.extra = extra


class DeeperFault(OwnFault, ValueError):
    pass


class OwnError(Exception):
    pass


class OddError(Exception):
    """Its attributes look like those of other exceptions and of faults."""

    def __init__(self, text):
        super().__init__(text, 5)
        self.code, self.message, self.faultcode = 'odd', None, None

    def __str__(self):
        return self.args[0]


def respond(k, outcome, text='boo', code='server', header=None):
    code = {'server': k.code.SERVER, 'client': k.code.CLIENT, 'own': 'My.Code', 'empty': ''}.get(code, code)
    head = {None: lambda: None, 'note': lambda: k.Head(note='n&'), 'info': lambda: k.Head(info=k.Info(who='w', level=1)),
            'empty': lambda: k.Head()}[header]

    def handler(name, request, value):
        if outcome.endswith('own http headers'):
            body = k.Pong(num=value.num) if 'fault' not in outcome else SOAPError(code, text)
            return SOAPResponse(body, soap_header=head(), http_headers={'Content-Type': 'text/html; charset=x', 'X-A': '1'})
        if outcome == 'object':
            return k.Pong(num=value.num, text=text)
        if outcome == 'response':
            return SOAPResponse(k.Pong(num=value.num), soap_header=head())
        if outcome == 'raise fault':
            raise SOAPError(code, text)
        if outcome == 'raise fault with actor':
            raise SOAPError(code, text, 'urn:actor')
        if outcome == 'return fault':
            return SOAPError(code, text)
        if outcome == 'response fault':
            return SOAPResponse(SOAPError(code, text), soap_header=head())
        if outcome.endswith('own fault'):
            error = OwnFault(code, text, 'x') if 'deeper' not in outcome else DeeperFault(code, text, 'x')
            if outcome.startswith('raise'):
                raise error
            return error if outcome.startswith('return') else SOAPResponse(error, soap_header=head())
        if outcome == 'raise own error':
            raise OwnError(text)
        if outcome == 'raise odd error':
            raise OddError(text)
        raise {'raise value error': ValueError, 'raise key error': KeyError, 'raise type error': TypeError, 'raise runtime': RuntimeError,
               'raise os error': OSError, 'raise stop': StopIteration, 'raise unicode': lambda t: UnicodeDecodeError('utf-8', b'x', 0, 1, t),
               'raise assertion': AssertionError}[outcome](text)

    return handler


def well_formed(ch, k, response, what):
    try:
        return answer(k.version, response)
    except ValueError as e:
        ch.fail(f'{what()}\n{e}\n{response.http_status_code} {response.http_headers} {response.http_content!r}')


def route(action, entry):
    """The operation of a valid message, None for a client fault, '?' if that is not specified."""
    local = etree.QName(entry).localname
    if action is None or action == '':
        return {'ping': 'doPing', 'other': 'doOther'}.get(local)
    name = {'urn:ping': 'doPing', 'urn:other': 'doOther'}.get(action)
    return name if name is None or local in ('ping', 'other') else '?'


def judge(ch, k, reader, data, action, what):
    """Post a message to the kit and judge the answer; the handler returns the number it got."""
    del k.calls[:]
    k.handler = respond(k, 'object', 'ok')
    ch.step()
    try:
        response = k.post(data, action)
    except Exception as e:
        ch.fail(f'{what()}\n{data!r}\nthe dispatcher raises {e!r}')
    shown = lambda: f'{what()}\n{data!r}\n-> {response.http_status_code} {response.http_content!r}'
    got = well_formed(ch, k, response, shown)
    verdict, why, entry, heads = reader.read(data)
    if verdict == 'valid':
        op = route(action, entry)
        if op is None:
            verdict, why = 'client', 'no operation'
        elif op == '?':
            verdict = 'open'
    if verdict == 'client':
        ch.check(client_fault(k.version, got), lambda: f'{shown()}\nexpected a client fault ({why})')
        ch.check(not k.calls, lambda: f'{shown()}\nthe handler ran: {k.calls} ({why})')
    elif verdict == 'valid':
        when = entry.findtext('{*}when') or ''
        if client_fault(k.version, got) and re.match(r'\s*(-|\d{5}|0000)|.*T24:', when):
            ch.note('valid, but not representable')
            return
        ch.check(got[0] == 'result' and got[1].tag == f'{{{NS}}}pong' and len(k.calls) == 1 and k.calls[0][0] == op,
                 lambda: f'{shown()}\nexpected the result of {op}; calls {k.calls}')
        ch.check([c.text for c in got[1]] == [str(k.calls[0][1][0]), 'ok'], lambda: f'{shown()}\ncontent of the result')
    ch.note(verdict)


def compose(ch):
    version = ch.choose('version', [11, 12])
    shape = ch.dev('shape', SHAPES)
    body = ch.dev('body', list(BODIES))
    header = ch.dev('header', list(HEADERS))
    prolog = ch.dev('prolog', list(PROLOGS))
    action = ch.dev('action', ['urn:ping', None, '', 'urn:other', 'urn:none'])
    form = ch.dev('form', ['qualified', 'unqualified'])
    try:
        data = message(version, shape, header, body, prolog)
    except UnicodeEncodeError:
        ch.skip()
    k, reader = kit(version, form)
    judge(ch, k, reader, data, action, lambda: f'{version} {shape}/{header}/{body}/{prolog} action {action}')
    ch.state((version, data, action, form))


FILLERS = [b'\x00', b'<', b'>', b'&', b'"', b'\xff', b' ', b'/', b'x', b'5']


def corrupt(ch, pairs=False):
    version = ch.choose('version', [11, 12])
    body, header = ch.choose('message', [('ping', 'both'), ('full', 'absent')] if not pairs else [('ping', 'absent')])
    data = message(version, 'usual', header, body, 'declaration' if not pairs else 'none')
    k, reader = kit(version)
    kind = ch.choose('kind', ['cut', 'change', 'delete', 'append']) if not pairs else 'pair'
    at = ch.choose('place', range(len(data)))
    if kind == 'cut':
        cases = [data[:at], data[at:]]
    elif kind == 'delete':
        cases = [data[:at] + data[at + n:] for n in (1, 2, 3, 8)]
    elif kind == 'append':
        cases = [data[:at] + data[at:at + n] + data[at:] for n in (1, 5)] + [data + data[at:]]
    elif kind == 'change':
        cases = [data[:at] + f + data[at + 1:] for f in FILLERS] + [data[:at] + f + data[at:] for f in FILLERS]
    else:
        cases = []
        for at2 in range(at + 1, len(data)):
            cases += [data[:at] + f + data[at + 1:at2] + g + data[at2 + 1:] for f in (b'<', b'x', b'/') for g in (b'>', b'x', b'&')]
    for case in cases:
        judge(ch, k, reader, case, 'urn:ping', lambda: f'{version} {kind} at {at}')
        ch.state((version, case))


TEXTS = ['boo', '<a>&b</a>', 'a\x00b', 'a\x0bb\x1f', '\ud800', '\U0001f600', 'line\nline\ttab', ']]>', '\ufffe', 'a' * 3000, '%s {} $x', ' ']
OUTCOMES = ['object', 'response', 'raise fault', 'raise fault with actor', 'return fault', 'response fault', 'raise value error',
            'raise key error', 'raise type error', 'raise runtime', 'raise os error', 'raise stop', 'raise unicode', 'raise assertion', 'raise own error', 'raise odd error',
            'response with own http headers', 'response fault with own http headers',
            'raise own fault', 'return own fault', 'response own fault', 'raise deeper own fault', 'return deeper own fault']


def printable(text):
    return ''.join(c if c in '\t\n\r' or ' ' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd' or c >= '\U00010000' else '\ufffd' for c in text)


def outcomes(ch):
    version = ch.choose('version', [11, 12])
    outcome = ch.choose('outcome', OUTCOMES)
    middleware = ch.choose('middleware', [True, False])
    form = ch.choose('form', ['qualified', 'unqualified'])
    error = outcome.startswith('raise ') and 'fault' not in outcome
    if error and not middleware:
        ch.skip()
    k, _ = kit(version, form, middleware)
    fault = 'fault' in outcome
    body = 'ping' if form == 'qualified' else 'unqualified child'
    for text in TEXTS:
        for code in (['server', 'client', 'own'] if fault else ['server']):
            for header in ([None, 'note', 'info', 'empty'] if outcome.startswith('response') else [None]):
                if outcome == 'object' and printable(text) != text:
                    continue  # no value of xs:string
                k.handler = respond(k, outcome, text, code, header)
                del k.calls[:]
                what = lambda: f'{version} {outcome} {text!r} {code} {header} middleware={middleware} {form}'
                ch.step()
                try:
                    response = k.post(message(version, body=body), 'urn:ping')
                except Exception as e:
                    ch.fail(f'{what()}\nthe dispatcher raises {e!r}')
                got = well_formed(ch, k, response, what)
                shown = lambda: f'{what()}\n{response.http_content!r}'
                ch.check(len(k.calls) == 1, lambda: f'{shown()}\n{len(k.calls)} calls')
                if outcome in ('object', 'response', 'response with own http headers'):
                    q = f'{{{NS}}}' if form == 'qualified' else ''
                    want = [(q + 'num', '5')] + ([(q + 'text', text)] if outcome == 'object' else [])
                    ch.check(got[0] == 'result' and got[1].tag == f'{{{NS}}}pong' and [(e.tag, e.text) for e in got[1]] == want,
                             lambda: f'{shown()}\nexpected {want}')
                elif fault:
                    want = {'server': 'Server' if version == 11 else 'Receiver', 'client': 'Client' if version == 11 else 'Sender',
                            'own': 'My.Code'}[code]
                    ch.check(got[0] == 'fault' and got[1].split(':')[-1] == want and got[2] == printable(text),
                             lambda: f'{shown()}\nexpected {want} {printable(text)!r}')
                    if version == 12 and code != 'own':
                        e = etree.fromstring(response.http_content).find(f'.//{{{ENVELOPES[12]}}}Value')
                        ch.check(e.nsmap.get(got[1].split(':')[0]) == ENVELOPES[12], lambda: f'{shown()}\nprefix of the code')
                else:
                    ch.check(server_fault(version, got) and (not text.isprintable() or text[:100] in got[2] or 'unicode' in outcome),
                             lambda: f'{shown()}\nexpected a server fault')
                tags = {None: [], 'note': ['note'], 'info': ['info'], 'empty': []}[header]
                ch.check([e.tag for e in got[-1]] == [f'{{{NS}}}{t}' for t in tags], lambda: f'{shown()}\nheader')
                if 'http headers' in outcome:
                    ch.check(response.http_headers.get('X-A') == '1', lambda: f'{shown()}\n{response.http_headers}')
                ch.note(got[0])
    ch.state((version, outcome, middleware, form))


def harnesses(tier):
    full = tier == 'thorough'
    out = [Harness('composed', compose, split=2, budget=4 if full else 3), Harness('corrupted', corrupt, split=4),
           Harness('handler outcomes', outcomes, split=3)]
    if full:
        out.append(Harness('corrupted twice', corrupt, {'pairs': True}, split=2, timeout=600))
    return out
