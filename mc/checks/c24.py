"""C24: a posted document cannot make the server read files or open connections."""
import atexit
import base64
import os
import shutil
import socket
import tempfile
import threading

from ..explore import Harness
from ..lib import fast  # noqa: F401
from ..lib.kit import NS, Kit, answer
from ..lib.soapkit import CONTENT_TYPES, ENVELOPES, Wire, environ
from soapfish import soap, wsa
from soapfish.core import SOAPError, SOAPRequest
from soapfish.middlewares import ExceptionToSoapFault
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication

TECHNIQUE = ('bounded exhaustive exploration of the real dispatcher and stub: the full product of kinds of attack, places in the message, '
             'addresses of canary files and of a listening socket, versions, modes and encodings; what the handler gets, the response and the '
             'connections made are searched for the canaries')
BOUNDS = {
    'quick': '28 attacks (external general, parameter and unparsed entities, external subsets, out-of-band chains, inclusions, schema and style sheet hints, '
             'xml:base, nested, declared on the spot or at the root) x 9 places x 10 addresses (paths, file:, http:, ftp:, relative, percent-encoded; of text, XML, DTD, number and schema files) x 2 versions x '
             '3 modes (strict, lenient, through WSGI with errors reported), one deviation of encoding, header class and routing; the same attacks on responses to a stub.',
    'thorough': 'As quick with all encodings.',
}
ASSUMPTIONS = ['connections are observed for the addresses of the attack (a listener on the loopback interface)']

MARK = 'CANARY-7b1f'
NUMBER = '73'
XI = 'http://www.w3.org/2001/XInclude'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'


class Trap:
    """Files and a server nobody may read, made anew in every process."""

    pid = home = None

    @classmethod
    def set(cls):
        if cls.pid == os.getpid():
            return cls
        cls.pid = os.getpid()
        cls.root = root = os.path.realpath(tempfile.mkdtemp(dir=cls.home))
        files = {
            'canary.txt': MARK, 'number.txt': NUMBER, 'canary.xml': f'<k:text xmlns:k="{NS}">{MARK}</k:text>', 'canary.dtd': f'<!ENTITY x "{MARK}"><!ENTITY n "{NUMBER}">',
            'canary.xsd': f'<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:evil"><xs:element name="evil" type="xs:string" default="{MARK}"/></xs:schema>',
        }
        for name, text in files.items():
            with open(os.path.join(root, name), 'w') as f:
                f.write(text)
        cls.files = {k: v.encode() for k, v in files.items()}
        cls.connections = []
        cls.socket = socket.socket()
        cls.socket.bind(('127.0.0.1', 0))
        cls.socket.listen(16)
        cls.port = cls.socket.getsockname()[1]
        threading.Thread(target=cls.serve, args=(cls.socket,), daemon=True).start()
        return cls

    @classmethod
    def serve(cls, server):
        while True:
            try:
                c, address = server.accept()
            except OSError:
                return
            cls.connections.append(address)
            try:
                c.settimeout(2)
                data = c.recv(4096)
                path = data.split(b' ')[1].decode('latin-1').strip('/') if data.count(b' ') else ''
                content = cls.files.get(path.split('?')[0], MARK.encode())
                c.sendall(b'HTTP/1.0 200 OK\r\nContent-Type: text/xml\r\nContent-Length: %d\r\n\r\n%s' % (len(content), content))
            except OSError:
                pass
            c.close()

    @classmethod
    def prepare(cls):
        cls.home = tempfile.mkdtemp(prefix='mc-c24-')
        atexit.register(shutil.rmtree, cls.home, ignore_errors=True)  # the workers end without this


ADDRESSES = {
    'path': lambda t, name: f'{t.root}/{name}', 'file:///': lambda t, name: f'file://{t.root}/{name}', 'file:': lambda t, name: f'file:{t.root}/{name}',
    'file://localhost': lambda t, name: f'file://localhost{t.root}/{name}', 'encoded': lambda t, name: f'file://{t.root}/{name}'.replace('canary', '%63anary').replace('number', '%6eumber'),
    'relative': lambda t, name: f'{os.path.relpath(t.root)}/{name}', 'dots': lambda t, name: f'file://{t.root}/x/../{name}',
    'http': lambda t, name: f'http://127.0.0.1:{t.port}/{name}', 'ftp': lambda t, name: f'ftp://127.0.0.1:{t.port}/{name}', 'https': lambda t, name: f'https://127.0.0.1:{t.port}/{name}',
}

# attack: url(name) -> (declaration before the root, reference in text, attributes, which goes where)
ATTACKS = {
    'general entity': lambda u: (f'<!DOCTYPE r [<!ENTITY x SYSTEM "{u("canary.txt")}">]>', '&x;', ''),
    'number entity': lambda u: (f'<!DOCTYPE r [<!ENTITY x SYSTEM "{u("number.txt")}">]>', '&x;', ''),
    'public entity': lambda u: (f'<!DOCTYPE r [<!ENTITY x PUBLIC "-//X//Y" "{u("canary.txt")}">]>', '&x;', ''),
    'markup entity': lambda u: (f'<!DOCTYPE r [<!ENTITY x SYSTEM "{u("canary.xml")}">]>', '&x;', ''),
    'nested entity': lambda u: (f'<!DOCTYPE r [<!ENTITY x SYSTEM "{u("canary.txt")}"><!ENTITY y "&x;"><!ENTITY z "a&y;">]>', '&z;', ''),
    'attribute entity': lambda u: (f'<!DOCTYPE r [<!ENTITY x SYSTEM "{u("canary.txt")}"><!ENTITY y "&x;">]>', 'v', ' at="&y;"'),
    'defaulted attribute': lambda u: (f'<!DOCTYPE r [<!ENTITY x SYSTEM "{u("canary.txt")}"><!ATTLIST k:ping at CDATA "&x;">]>', 'v', ''),
    'parameter entity': lambda u: (f'<!DOCTYPE r [<!ENTITY % p SYSTEM "{u("canary.dtd")}"> %p;]>', '&x;', ''),
    'parameter entity, number': lambda u: (f'<!DOCTYPE r [<!ENTITY % p SYSTEM "{u("canary.dtd")}"> %p;]>', '&n;', ''),
    'nested parameter entity': lambda u: (f'<!DOCTYPE r [<!ENTITY % q "&#37;p;"><!ENTITY % p SYSTEM "{u("canary.dtd")}"> %q;]>', '&x;', ''),
    'parameter entity, unused': lambda u: (f'<!DOCTYPE r [<!ENTITY % p SYSTEM "{u("canary.dtd")}"> %p;]>', 'v', ''),
    'external subset': lambda u: (f'<!DOCTYPE r SYSTEM "{u("canary.dtd")}">', '&x;', ''),
    'external subset, unused': lambda u: (f'<!DOCTYPE r SYSTEM "{u("canary.dtd")}">', 'v', ''),
    'public external subset': lambda u: (f'<!DOCTYPE e:Envelope PUBLIC "-//X//Y" "{u("canary.dtd")}" [<!ELEMENT a ANY>]>', '&x;', ''),
    'out of band': lambda u: (f'<!DOCTYPE r [<!ENTITY % f SYSTEM "{u("canary.txt")}"><!ENTITY % e "<!ENTITY &#37; s SYSTEM \'{u("canary.dtd")}?%f;\'>"> %e; %s;]>', 'v', ''),
    'unparsed entity': lambda u: (f'<!DOCTYPE r [<!NOTATION n SYSTEM "{u("canary.txt")}"><!ENTITY x SYSTEM "{u("canary.txt")}" NDATA n><!ATTLIST k:ping at ENTITY #IMPLIED>]>', 'v', ' at="x"'),
    'inclusion': lambda u: ('', f'<xi:include xmlns:xi="{XI}" href="{u("canary.txt")}" parse="text"/>', ''),
    'inclusion of markup': lambda u: ('', f'<xi:include xmlns:xi="{XI}" href="{u("canary.xml")}"><xi:fallback>{"v"}</xi:fallback></xi:include>', ''),
    'inclusion, declared at the top': lambda u: ('', f'<xi:include href="{u("canary.txt")}" parse="text"/>', '', f' xmlns:xi="{XI}"'),
    'inclusion of markup, declared at the top': lambda u: ('', f'<xi:include href="{u("canary.xml")}"/>', '', f' xmlns:xi="{XI}"'),
    'schema location at the top': lambda u: ('', 'v', '', f' xmlns:i="{XSI}" i:schemaLocation="urn:evil {u("canary.xsd")} {NS} {u("canary.xsd")}"'),
    'base at the top': lambda u: (f'<!DOCTYPE r [<!ENTITY x SYSTEM "canary.txt">]>', '&x;', '', f' xml:base="{u("canary.txt")}"'),
    'old inclusion': lambda u: ('', f'<xi:include xmlns:xi="http://www.w3.org/2003/XInclude" href="{u("canary.txt")}" parse="text"/>', ''),
    'schema location': lambda u: ('', '<v:evil xmlns:v="urn:evil"/>', f' xmlns:i="{XSI}" i:schemaLocation="urn:evil {u("canary.xsd")} {NS} {u("canary.xsd")}"'),
    'schema location without namespace': lambda u: ('', '<evil/>', f' xmlns:i="{XSI}" i:noNamespaceSchemaLocation="{u("canary.xsd")}"'),
    'style sheet': lambda u: (f'<?xml-stylesheet type="text/xsl" href="{u("canary.xml")}"?>', 'v', ''),
    'base': lambda u: (f'<!DOCTYPE r [<!ENTITY x SYSTEM "canary.txt">]>', '&x;', f' xml:base="{u("canary.txt")}"'),
    'conditional subset': lambda u: (f'<!DOCTYPE r [<!ENTITY % p SYSTEM "{u("canary.dtd")}"><!ENTITY % i "INCLUDE"> %p; <!ENTITY y "&x;">]>', '&y;', ''),
}
PLACES = ['text', 'num', 'item', 'after', 'header', 'addressing', 'unknown header', 'body', 'fault']
ENCODINGS = ['utf-8', 'utf-16', 'declared', 'bom']


def message(version, place, attack, header=True):
    declaration, text, attrs, *top = attack
    top = ''.join(top)
    num, note, extra, item, after, head, body = '5', 'n', 'plain', '', '', '', ''
    if place == 'num':
        num = text
    if place == 'text':
        extra = text
    if place == 'item':
        item = f'<k:item>{text}</k:item>'
    if place == 'after':
        after = text
    if place == 'header':
        note = text
    if place == 'addressing':
        head = f'<w:To xmlns:w="{wsa.NAMESPACE}">{text}</w:To><w:ReplyTo xmlns:w="{wsa.NAMESPACE}"><w:Address>a</w:Address><w:Metadata>{text}</w:Metadata></w:ReplyTo>'
    if place == 'unknown header':
        head = f'<x:y xmlns:x="urn:x"{attrs}>{text}</x:y>'
    if place == 'body':
        body = text
    if place == 'fault':
        body = f'<k:unknown{attrs}>{text}</k:unknown>'
    return (f'{declaration}<e:Envelope xmlns:e="{ENVELOPES[version]}" xmlns:k="{NS}"{attrs if place == "after" else ""}{top}>{after}<e:Header><k:note>{note}</k:note>{head}</e:Header>'
            f'<e:Body>{body}<k:ping{attrs}><k:num>{num}</k:num><k:text>{extra}</k:text>{item}</k:ping>{after}</e:Body>{after}</e:Envelope>')


def encoded(text, how):
    if how == 'utf-16':
        return ('<?xml version="1.0" encoding="utf-16"?>' + text).encode('utf-16')
    if how == 'declared':
        return ('<?xml version="1.0" encoding="iso-8859-1" standalone="no"?>' + text).encode('latin-1')
    return text.encode('utf-8-sig' if how == 'bom' else 'utf-8')


def leaked(data):
    data = str(data)
    return MARK in data or base64.b64encode(MARK.encode()).decode() in data


_kits = {}


def kit(version, heads, mode):
    key = version, heads, mode
    if key not in _kits:
        k = Kit(version, headers=heads)
        k.handler = lambda name, request, value: k.Pong(num=value.num, text=value.text)
        k.dispatcher = SOAPDispatcher(k.service, strict_soap_header=mode == 'strict', middlewares=[ExceptionToSoapFault()] if mode == 'wsgi' else [])
        _kits[key] = k
    return _kits[key]


class Answer:
    def __init__(self, status, headers, content):
        self.http_status_code, self.http_headers, self.http_content = status, headers, content


def requests(ch, encodings):
    version = ch.choose('version', [11, 12])
    mode = ch.choose('mode', ['strict', 'lenient', 'wsgi'])
    place = ch.choose('place', PLACES)
    kind = ch.choose('attack', list(ATTACKS))
    address = ch.choose('address', list(ADDRESSES))
    encoding = ch.choose('encoding', ENCODINGS) if encodings else ch.dev('encoding', ENCODINGS)
    heads = ch.dev('header class', [True, False])
    action = ch.dev('action', ['urn:ping', None, 'urn:unknown'])
    trap = Trap.set()
    k = kit(version, heads, mode)
    content = encoded(message(version, place, ATTACKS[kind](lambda name: ADDRESSES[address](trap, name))), encoding)
    del k.calls[:], trap.connections[:]
    where = os.getcwd()
    os.chdir(trap.root) if kind.startswith('base') else None
    what = lambda: f'{version} {mode} {encoding} {place} {kind} {address}\n{content!r}'
    ch.step()
    try:
        headers = {'Content-Type': CONTENT_TYPES[version] + (f'; action="{action}"' if version == 12 and action else '')}
        if version == 11 and action:
            headers['SOAPAction'] = action
        env = environ('POST', 'http://h/p', headers, content)
        if mode == 'wsgi':
            got = []
            body = b''.join(WsgiSoapApplication(k.dispatcher)(env, lambda status, headers: got.append((status, headers))))
            response = Answer(int(got[0][0].split()[0]), dict(got[0][1]), body)
        else:
            response = k.dispatcher.dispatch(SOAPRequest(env, content))
    except Exception as e:
        ch.fail(f'{what()}\nraised {type(e).__name__}: {e}')
    finally:
        os.chdir(where)
    seen = response.http_content, response.http_headers, k.calls
    ch.check(not trap.connections, lambda: f'{what()}\na connection was made, answered {seen}')
    number = any(c[1][0] == int(NUMBER) for c in k.calls) or f'&#39;{NUMBER}&#39;' in str(seen[0])
    ch.check(not leaked(seen) and not number, lambda: f'{what()}\na file was read, answered {seen}')
    try:
        ch.note(answer(version, response)[0])
    except ValueError as e:
        ch.fail(f'{what()}\n{e}')


def responses(ch):
    version = ch.choose('version', [11, 12])
    place = ch.choose('place', ['text', 'num', 'header', 'fault', 'after', 'body'])
    kind = ch.choose('attack', list(ATTACKS))
    address = ch.choose('address', list(ADDRESSES))
    encoding = ch.dev('encoding', ENCODINGS)
    trap = Trap.set()
    k = kit(version, True, 'strict')
    content = message(version, place, ATTACKS[kind](lambda name: ADDRESSES[address](trap, name))).replace('k:ping', 'k:pong')
    if place == 'fault':
        text = ATTACKS[kind](lambda name: ADDRESSES[address](trap, name))[1]
        code, reason = ('faultcode', 'faultstring') if version == 11 else ('e:Code><e:Value', 'e:Reason><e:Text')
        end = lambda names: ''.join(f'</{n}>' for n in reversed(names.split('><')))
        content = content[:content.index('<e:Body>')] + f'<e:Body><e:Fault><{code}>{text}{end(code)}<{reason}>{text}{end(reason)}</e:Fault></e:Body></e:Envelope>'
    content = encoded(content, encoding)
    what = lambda: f'{version} {encoding} {place} {kind} {address}\n{content!r}'
    where = os.getcwd()
    os.chdir(trap.root) if kind.startswith('base') else None
    del trap.connections[:]
    ch.step()
    try:
        with Wire({'http://h/p': lambda request: (200, {'Content-Type': CONTENT_TYPES[version]}, content)}) as wire:
            try:
                r = soap.Stub(service=k.service, location='http://h/p').call('doPing', k.Ping(num=1))
                got = k.read(r.soap_body), k.read_head(r.soap_header)
            except SOAPError as e:
                got = 'fault', e.code, e.message
            except Exception as e:
                got = 'raised', type(e).__name__, str(e)
        sent = [r.url for r in wire.sent]
    finally:
        os.chdir(where)
    ch.check(not trap.connections and sent == ['http://h/p'], lambda: f'{what()}\na connection was made, the caller got {got} {sent}')
    ch.check(not leaked(got) and not (got[0] and isinstance(got[0], tuple) and got[0][0] == int(NUMBER)), lambda: f'{what()}\na file was read, the caller got {got}')
    ch.note(got[0] if isinstance(got[0], str) else 'result')


def harnesses(tier):
    Trap.prepare()
    full = tier == 'thorough'
    return [Harness('requests', requests, {'encodings': full}, split=3, budget=1), Harness('responses', responses, split=3, budget=1)]
