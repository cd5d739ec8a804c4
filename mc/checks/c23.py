"""C23: WS-Addressing headers are checked, delivered and correlated."""
import itertools
import os

from lxml import etree

from ..lib import threads

threads.install('soapfish')

from ..explore import Harness  # noqa: E402
from ..lib import fast  # noqa: E402, F401
from ..lib.isolate import Zygote, isolated  # noqa: E402
from ..lib.kit import NS, Kit, answer, client_fault, envelope  # noqa: E402
from ..lib.soapkit import Wire, serve  # noqa: E402
from soapfish import soap, wsa, xsd  # noqa: E402
from soapfish.core import SOAPError, SOAPResponse  # noqa: E402
from soapfish.soap_dispatch import SOAPDispatcher  # noqa: E402

TECHNIQUE = ('bounded exhaustive exploration of the real dispatcher and stub: all sequences of addressing entries (valid and invalid under the '
             'specification\'s schema), all fillings of reply headers, all chains of calls, and all interleavings of two fillings with up to two preemptions')
BOUNDS = {
    'quick': 'All sequences of up to 2 of 63 header entries and all orders of 3 of 12, x 4 (for orders 11) places of the header classes x strict/non-strict x '
             '2 versions; replies to all 3^5 request headers x 6 kinds of reply header; chains of 3 calls over 7 kinds x 8 places; '
             'identifiers of 2 processes x 2 threads under all schedules with 2 preemptions.',
    'thorough': 'As quick with all sequences of 3 of 63 entries and chains of 4 calls.',
}
ASSUMPTIONS = ['which of several entries of one name is delivered is open', 'entries the header class does not declare need not be delivered',
               'a request header that is replied to has an action']

W = 'http://www.w3.org/2005/08/addressing'
ANON = W + '/anonymous'
VERSIONS = {11: soap.SOAPVersion.SOAP11, 12: soap.SOAPVersion.SOAP12}
DECL = f' xmlns:w="{W}"'
epr = lambda name, content: f'<w:{name}{DECL}>{content}</w:{name}>'
ADDRESS = '<w:Address>urn:x</w:Address>'
# entry: (valid, name and value it delivers)
ENTRIES = {}


def entry(text, valid=True, name=None, value=None):
    ENTRIES[text] = valid, name, value


for _n in ('Action', 'MessageID', 'To'):
    _v = {'Action': 'urn:act', 'MessageID': 'urn:uuid:1', 'To': 'http://h/p?a=b&amp;c'}[_n]
    entry(f'<w:{_n}{DECL}>{_v}</w:{_n}>', True, _n, _v.replace('&amp;', '&'))
    entry(f'<w:{_n}{DECL} wrong="1">{_v}</w:{_n}>', False)
    entry(f'<w:{_n}{DECL}><w:{_n}>x</w:{_n}></w:{_n}>', False)
entry(f'<Action xmlns="{W}" xmlns:o="urn:o" o:id="1">a b</Action>', True, 'Action', 'a b')
entry(f'<w:MessageID{DECL} k:ok="1">m<!-- c -->n</w:MessageID>', True, 'MessageID', 'mn')
entry(f'<w:To{DECL} w:IsReferenceParameter="true">x</w:To>', False)
entry(f'<w:To{DECL} e:mustUnderstand="1" e:actor="a">\u20ac</w:To>', True, 'To', '\u20ac')
entry(f'<w:RelatesTo{DECL}>urn:r</w:RelatesTo>', True, 'RelatesTo', 'urn:r')
entry(f'<w:RelatesTo{DECL} RelationshipType="urn:t">urn:s</w:RelatesTo>', True, 'RelatesTo', 'urn:s')
entry(f'<w:RelatesTo{DECL} Relationship="urn:t">urn:s</w:RelatesTo>', False)
entry(f'<w:RelatesTo{DECL}><x/></w:RelatesTo>', False)
entry(epr('ReplyTo', ADDRESS), True, 'ReplyTo', 'urn:x')
entry(epr('ReplyTo', f'\n {ADDRESS}<w:ReferenceParameters><q/><k:ping/></w:ReferenceParameters><w:Metadata><any/></w:Metadata><o:x xmlns:o="urn:o"/> '), True, 'ReplyTo', 'urn:x')
entry(epr('ReplyTo', f'<w:Address>{ANON}</w:Address>'), True, 'ReplyTo', ANON)
entry(epr('ReplyTo', ''), False)
entry(epr('ReplyTo', 'text'), False)
entry(epr('ReplyTo', ADDRESS * 2), False)
entry(epr('ReplyTo', f'<w:Metadata/>{ADDRESS}'), False)
entry(epr('ReplyTo', f'{ADDRESS}text'), False)
entry(epr('ReplyTo', f'{ADDRESS}<w:To>x</w:To>'), False)
entry(epr('ReplyTo', '<Address>urn:x</Address>'), False)
entry(epr('ReplyTo', f'{ADDRESS}<plain/>'), False)
entry(epr('From', ADDRESS))
entry(epr('From', '<w:Metadata/>'), False)
entry(epr('FaultTo', ADDRESS))
entry(epr('FaultTo', '<w:address/>'), False)
entry(epr('EndpointReference', ADDRESS))
entry(epr('ReferenceParameters', '<x/>'))
entry(epr('ReferenceParameters', 'text'), False)
entry(epr('Metadata', ''))
entry(f'<w:RetryAfter{DECL}> 10 </w:RetryAfter>')
entry(f'<w:RetryAfter{DECL}>-1</w:RetryAfter>', False)
entry(f'<w:RetryAfter{DECL}>soon</w:RetryAfter>', False)
entry(f'<w:ProblemAction{DECL}><w:Action>a</w:Action><w:SoapAction>b</w:SoapAction></w:ProblemAction>')
entry(f'<w:ProblemAction{DECL}><w:SoapAction>b</w:SoapAction><w:Action>a</w:Action></w:ProblemAction>', False)
entry(f'<w:ProblemHeaderQName{DECL}>w:To</w:ProblemHeaderQName>')
entry(f'<w:ProblemHeaderQName{DECL}>a b</w:ProblemHeaderQName>', False)
entry(f'<w:ProblemIRI{DECL}>urn:p</w:ProblemIRI>')
entry(f'<w:Bogus{DECL}/>', False)
entry(f'<w:action{DECL}>a</w:action>', False)
entry(f'<w:Address{DECL}>a</w:Address>', False)
OTHER = {
    '<k:note>n</k:note>': ('own', True), '<k:count>500</k:count>': ('own', False), '<x:unknown xmlns:x="urn:x"/>': ('unknown', False),
    '<v:To xmlns:v="http://schemas.xmlsoap.org/ws/2004/08/addressing">old</v:To>': ('unknown', False), '<k:To>no</k:To>': ('unknown', False),
}
# Other namespaces are not those of WS-Addressing, however alike.
NEAR = [f'<v:{name} xmlns:v="{near}">near</v:{name}>' for name in ('To', 'ServiceName')
        for near in (W + '/', W + '/metadata', W + '#', W + 's', W[:-1], W.upper(), W.replace('http:', 'https:'), 'x' + W)]
FEW = [t for t in ENTRIES if t in (f'<w:Action{DECL}>urn:act</w:Action>', f'<w:MessageID{DECL}>urn:uuid:1</w:MessageID>', f'<w:To{DECL}>http://h/p?a=b&amp;c</w:To>',
                                   f'<w:RelatesTo{DECL}>urn:r</w:RelatesTo>', epr('ReplyTo', ADDRESS), epr('ReplyTo', ''), f'<w:Bogus{DECL}/>')] + list(OTHER)
OTHER.update(dict.fromkeys(NEAR, ('unknown', False)))
NAMES = ['Action', 'MessageID', 'To', 'ReplyTo', 'RelatesTo']


def read(h):
    if h is None:
        return None
    return {n: (h.ReplyTo and h.ReplyTo.Address) if n == 'ReplyTo' else getattr(h, n) for n in NAMES}


# place: where the classes of request and reply headers are declared
PLACES = {'service': ('default', 'default'), 'own': ('method', 'method'), 'own on service': ('service', 'service'), 'none': ('none', 'none'),
          'own requests': ('service', 'default'), 'own replies': ('default', 'service'), 'own requests of methods': ('method', 'default'),
          'own replies of methods': ('default', 'method'), 'own requests, replies of methods': ('service', 'method'), 'requests only': ('service', 'none'),
          'replies only': ('none', 'method')}
MIXED = ['own requests', 'own replies', 'own requests of methods', 'own replies of methods', 'own requests, replies of methods']


class Site(Kit):
    def __init__(self, version, place, strict=True):
        super().__init__(version, headers=False)
        self.heads = []

        class Own(wsa.Header):
            note = xsd.Element(xsd.String, minOccurs=0, namespace=NS)

        Own.SCHEMA = self.schema
        self.Own = Own
        # The classes of request and reply headers, and where each is declared.
        where = PLACES[place]
        self.cls, self.out = [{'none': None, 'default': wsa.Header}.get(w, Own) for w in where]
        for m in self.methods:
            if where[0] == 'method':
                m.input_header = Own
            if where[1] == 'method':
                m.output_header = Own
        on_service = [Own if w == 'service' else None for w in where]
        self.service = soap.Service('urn:s', 'http://h/p', [self.schema], self.methods, version=VERSIONS[version], use_wsa='default' in where,
                                    input_header=on_service[0], output_header=on_service[1])
        self.dispatcher = SOAPDispatcher(self.service, strict_soap_header=strict)
        self.handler = self.handle
        self.reply = lambda header: None

    def read_head(self, h):
        self.heads.append((type(h), read(h), getattr(h, 'note', None)))

    def handle(self, name, request, value):
        header = self.reply(request.soap_header)
        return SOAPResponse(self.Pong(num=value.num), soap_header=header)


_sites = {}


def entries(ch, most, alphabet, permuted):
    version = ch.choose('version', [11, 12])
    place = ch.choose('header class', ['service', 'own', 'own on service', 'none'] + MIXED * permuted + ['requests only', 'replies only'] * permuted)
    strict = ch.choose('strict', [True, False])
    if permuted:
        picked = list(ch.choose('entries', list(itertools.permutations(alphabet, most))))
    else:
        picked = [ch.choose(f'entry {i}', alphabet) for i in range(ch.choose('count', range(most + 1)))]
    by = 'action' if permuted or len(picked) > 1 else ch.dev('routed by', ['action', 'element'])
    if (version, place, strict) not in _sites:
        _sites[version, place, strict] = Site(version, place, strict)
    site = _sites[version, place, strict]
    del site.calls[:], site.heads[:]
    sep = ' ' if permuted else ''
    content = envelope(version, '<k:ping><k:num>1</k:num></k:ping>', sep.join(picked)).encode()
    what = lambda: f'{version} {place} strict {strict} {by}: {picked}'
    ch.step()
    response = site.post(content, 'urn:ping' if by == 'action' else None)
    try:
        got = answer(version, response)
    except ValueError as e:
        ch.fail(f'{what()}\n{e}')
    invalid = [t for t in picked if t in ENTRIES and not ENTRIES[t][0]]
    refused = [t for t in picked if t in OTHER and not OTHER[t][1]]
    if invalid or refused and strict:
        ch.check(client_fault(version, got) and not site.calls, lambda: f'{what()}\nanswered {response.http_content!r}, calls {site.calls}')
        ch.note('refused')
        return
    if refused and any(OTHER[t][0] == 'own' for t in refused) and site.cls is site.Own:
        ch.skip()  # non-strict: what becomes of invalid content is open
    ch.check(got[0] == 'result' and len(site.calls) == 1, lambda: f'{what()}\nanswered {response.http_content!r}, calls {site.calls}')
    cls, values, note = site.heads[0]
    if site.cls is None:
        ch.check(values is None, lambda: f'{what()}\nthe handler got a header {values}')
    elif not picked:
        ch.check(values is None or not any(values.values()), lambda: f'{what()}\nthe handler got a header {values}')
    else:
        ch.check(cls is site.cls, lambda: f'{what()}\nthe handler got a {cls}')
        for n in NAMES:
            want = [ENTRIES[t][2] for t in picked if t in ENTRIES and ENTRIES[t][1] == n]
            ch.check(values[n] in want if want else values[n] is None, lambda: f'{what()}\nthe handler got {n} {values[n]!r} of {want}')
        want = 'n' if '<k:note>n</k:note>' in picked and site.cls is site.Own else None
        ch.check(note == want, lambda: f'{what()}\nthe handler got note {note!r}')
    ch.note('delivered')


# --- Replies -----------------------------------------------------------------

VALUES = {'Action': ['urn:act', '', ' a&<\u20ac'], 'MessageID': [None, 'urn:uuid:1', 'x'], 'To': [None, 'urn:to', ANON], 'ReplyTo': [None, ANON, 'urn:back'],
          'RelatesTo': [None, 'urn:before', 'urn:uuid:1']}


def make(cls, values):
    h = cls()
    for n, v in values.items():
        if v is not None:
            setattr(h, n, wsa.ReplyTo(Address=v) if n == 'ReplyTo' else v)
    return h


def check_reply(ch, what, dst, src_values, before, seen):
    """dst was filled from a request header with src_values."""
    r = read(dst)
    ch.check(r['Action'] == src_values['Action'] + 'Response', lambda: f'{what()}\nreply action {r["Action"]!r}')
    ch.check(r['RelatesTo'] == src_values['MessageID'], lambda: f'{what()}\nreply relates to {r["RelatesTo"]!r}')
    ch.check(r['To'] == ANON, lambda: f'{what()}\nreply to {r["To"]!r}')
    ch.check(isinstance(r['MessageID'], str) and r['MessageID'] and r['MessageID'] not in seen, lambda: f'{what()}\nmessage id {r["MessageID"]!r}, known {seen}')
    ch.check(r['ReplyTo'] == before['ReplyTo'], lambda: f'{what()}\nreply-to of the reply became {r["ReplyTo"]}')
    seen.add(r['MessageID'])


def check_rendered(ch, what, header_entries, expected, note):
    """The entries of a rendered header, read independently."""
    got = {}
    for e in header_entries:
        q = etree.QName(e)
        got.setdefault((q.namespace, q.localname), []).append(e.findtext(f'{{{W}}}Address') if q.localname == 'ReplyTo' else e.text or '')
    want = {(W, n): [v] for n, v in expected.items() if v is not None}
    if note is not None:
        want[NS, 'note'] = [note]
    ch.check(got == want, lambda: f'{what()}\nthe response has header {got}, expected {want}')


def replies(ch):
    version = ch.choose('version', [11, 12])
    values = {n: ch.choose(n, VALUES[n]) for n in NAMES}
    before = ch.choose('reply header', ['new', 'filled', 'own', 'fault', 'own replies', 'own requests'])
    given = {'new': dict.fromkeys(NAMES), 'filled': {'Action': 'old', 'MessageID': 'old', 'To': 'old', 'ReplyTo': 'urn:mine', 'RelatesTo': 'old'}}.get(before, dict.fromkeys(NAMES))
    site = Site(version, before if before.startswith('own') else 'service')
    noted = before in ('own', 'own replies')
    what = lambda: f'{version} request header {values}, reply header {before}'
    seen = {v for v in (values['MessageID'], 'old') if v}
    made = []

    def reply(header):
        src = make(site.cls, values)
        dst = make(site.out, given)
        if noted:
            dst.note = 'n'
        wsa.fill_header(dst, src)
        ch.check(read(src) == values, lambda: f'{what()}\nthe request header became {read(src)}')
        check_reply(ch, what, dst, values, given, seen)
        made.append(read(dst))
        return dst

    site.reply = reply
    if before == 'fault':
        site.handler = lambda name, request, value: SOAPResponse(SOAPError(site.code.SERVER, 'x'), soap_header=reply(None))
    ch.step()
    response = site.post(envelope(version, '<k:ping><k:num>1</k:num></k:ping>').encode(), 'urn:ping')
    try:
        got = answer(version, response)
    except ValueError as e:
        ch.fail(f'{what()}\n{e}')
    ch.check((got[0] == 'fault') == (before == 'fault'), lambda: f'{what()}\n{response.http_content!r}')
    check_rendered(ch, what, got[-1], made[0], 'n' if noted else None)
    ch.note('replied')


KINDS = ['first', 'answer', 'reply-to', 'filled', 'unanswered', 'fault', 'renewed']


def chains(ch, depth):
    """A client and a server correlate their messages."""
    version = ch.choose('version', [11, 12])
    place = ch.choose('header class', ['service', 'own', 'own on service'] + MIXED)
    site = Site(version, place)
    stub = soap.Stub(service=site.service)
    kinds = []
    seen, ids = set(), set()
    last = None  # the last header the client got
    got = []

    def reply(header):
        got.append(read(header))
        if kinds[-1] == 'unanswered':
            return None
        dst = site.out()
        wsa.fill_header(dst, header)
        if site.out is site.Own:
            dst.note = 'n'
        check_reply(ch, what, dst, got[-1], dict.fromkeys(NAMES), seen)
        ch.check(read(header) == got[-1], lambda: f'{what()}\nthe request header became {read(header)}')
        return dst

    def handle(name, request, value):
        header = reply(request.soap_header)
        return SOAPResponse(SOAPError(site.code.SERVER, 'x') if kinds[-1] == 'fault' else site.Pong(num=value.num), soap_header=header)

    site.handler = handle
    what = lambda: f'{version} {place} calls {kinds}'
    with Wire({'http://h/p': serve(site.dispatcher)}) as wire:
        for i in range(depth):
            kind = ch.choose(f'call {i}', KINDS)
            kinds.append(kind)
            head = site.cls()
            if kind in ('answer', 'renewed') and last is not None:
                wsa.fill_header(head, last)
                ch.check(head.RelatesTo == last.MessageID and head.Action == last.Action + 'Response', lambda: f'{what()}\nrequest header {read(head)}')
            elif kind == 'filled':
                head.Action, head.RelatesTo = 'urn:act', 'urn:kept'
                wsa.fill_header(head)
                ch.check(head.Action == 'urn:act' and head.RelatesTo == 'urn:kept', lambda: f'{what()}\nrequest header {read(head)}')
            else:
                head = make(site.cls, {'Action': 'urn:act', 'MessageID': f'urn:m{i}', 'To': 'http://h/p', 'ReplyTo': 'urn:back' if kind == 'reply-to' else None})
            if kind == 'renewed':
                head.MessageID, head.To, head.ReplyTo = 'urn:again', 'http://h/p', wsa.ReplyTo(Address='urn:b')
                seen.discard('urn:again')
            sent = read(head)
            seen.add(sent['MessageID'])
            ch.step()
            del got[:]
            try:
                response = stub.call('doPing', site.Ping(num=i), header=head)
                ch.check(kind != 'fault', lambda: f'{what()}\nno fault')
            except SOAPError as e:
                ch.check(kind == 'fault' and e.message == 'x', lambda: f'{what()}\n{e}')
                response = None
            ch.check(got == [sent], lambda: f'{what()}\nsent {sent}, the handler got {got}\n{wire.sent[-1].body!r}')
            ch.check(read(head) == sent, lambda: f'{what()}\nthe header sent became {read(head)}')
            if response is None:
                continue
            h = response.soap_header
            if kind == 'unanswered':
                ch.check(h is None, lambda: f'{what()}\nthe client got {h}')
                continue
            ch.check(isinstance(h, site.out), lambda: f'{what()}\nthe client got a {type(h)}')
            ch.check(site.out is not site.Own or h.note == 'n', lambda: f'{what()}\nthe client got note {h.note!r}')
            r = read(h)
            ch.check(r['Action'] == sent['Action'] + 'Response' and r['RelatesTo'] == sent['MessageID'] and r['To'] == ANON and r['MessageID'] in seen and r['MessageID'] not in ids
                     and r['ReplyTo'] is None, lambda: f'{what()}\nsent {sent}, the client got {r}')
            ids.add(r['MessageID'])
            last = h
    ch.note('correlated')


# --- Identifiers -------------------------------------------------------------

LIBRARY = os.path.dirname(os.path.abspath(soap.__file__)) + os.sep


def fill(n):
    ids = []
    for _ in range(n):
        h = wsa.Header()
        wsa.fill_header(h, make(wsa.Header, {'Action': 'a', 'MessageID': 'm'}))
        ids.append(h.MessageID)
    return ids


def interleaved(schedule):
    code = wsa.fill_header.__code__
    lines = {(code.co_filename, line) for *_, line in code.co_lines()}
    s = threads.Scheduler([lambda: fill(2), lambda: fill(2)], schedule, lambda c: c.co_filename.startswith(LIBRARY) and os.path.basename(c.co_filename) == 'wsa.py', lines,
                          lambda: False)
    return s.run(), [len(p) for p in s.points]


_zygote = {}


def identifiers(ch):
    """No two messages of any process or thread have one identifier."""
    if not _zygote:
        _zygote['zygote'] = Zygote(lambda: None, lambda _, schedule: interleaved(schedule))
        _zygote['points'] = isolated(lambda: interleaved([]))[1][0]
    n = _zygote['points']
    a = ch.choose('first thread stops before', range(n + 1))
    b = ch.choose('second thread stops before', range(n + 1))
    ch.step(2)
    found = []
    for _ in range(2):  # two processes, forked from the same state
        results, _points = _zygote['zygote']([(0, a), (1, b), (0, None), (1, None)])
        ch.check(all(r[0] == 'returned' for r in results), lambda: f'stops {a} {b}: {results}')
        found += [x for r in results for x in r[1]]
    found += isolated(lambda: fill(3))
    ch.check(len(set(found)) == len(found) == 11 and all(isinstance(x, str) and x for x in found), lambda: f'stops {a} {b}: identifiers {found}')
    ch.note('unique')


def harnesses(tier):
    full = tier == 'thorough'
    return [Harness('entries', entries, {'most': 3 if full else 2, 'alphabet': list(ENTRIES) + NEAR, 'permuted': False}, split=5, budget=1),
            Harness('orders', entries, {'most': 3, 'alphabet': FEW, 'permuted': True}, split=3),
            Harness('replies', replies, split=3), Harness('chains', chains, {'depth': 4 if full else 3}, split=3), Harness('identifiers', identifiers, split=1)]
