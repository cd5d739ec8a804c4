"""C22: all server adapters answer the same request alike."""
import logging
import sys

from ..explore import Harness
from ..lib import fast  # noqa: F401
from ..lib.kit import Kit, envelope
from ..lib.soapkit import CONTENT_TYPES, environ
from soapfish.core import SOAPError, SOAPRequest, SOAPResponse
from soapfish.django_ import django_dispatcher
from soapfish.flask_ import flask_dispatcher
from soapfish.middlewares import ExceptionToSoapFault
from soapfish.soap_dispatch import SOAPDispatcher, WsgiSoapApplication

import flask
from django.conf import settings
from django.core.handlers.wsgi import WSGIHandler
from django.urls import clear_url_caches, re_path

TECHNIQUE = ('bounded exhaustive exploration of the real adapters: the full product of request alphabets is sent as the same WSGI request to the '
             'plain WSGI application, a Flask application and a Django application, and compared with what the dispatcher returns; '
             'all sequences of two requests to the same applications')
BOUNDS = {
    'quick': '2 versions x 5 configurations (plain, hooks, middlewares and lenient headers, given documents, Django middlewares) x 8 methods x 20 query strings x '
             '3 bodies, 12 sources of scheme and host x 3 queries; 26 bodies x 11 lengths (exact, less, more data behind, absent, empty, 0) x '
             '10 content types, 19 spellings of the action x 6 bodies x 3 content types; 16 handler results (headers, status codes, contents) and more status codes from 201 to 599; all pairs of 20 requests.',
    'thorough': 'As quick, with the full product of bodies, lengths, content types and actions, and all sequences of 3 of 12 requests.',
}
ASSUMPTIONS = ['the server passes on a declared length that is a number and delivers as many bytes (PEP 3333)', 'the view is routed for every method',
               'bodies below the upload limits of the frameworks', 'the answer to HEAD is compared without its body', 'handlers are deterministic']

if not settings.configured:
    settings.configure(ALLOWED_HOSTS=['*'], ROOT_URLCONF=None, DEBUG=True, DEBUG_PROPAGATE_EXCEPTIONS=True, LOGGING_CONFIG=None, USE_I18N=False,
                       USE_TZ=True, SECRET_KEY='x', MIDDLEWARE=[], APPEND_SLASH=False)
    import django
    django.setup()
logging.getLogger('django').setLevel(logging.CRITICAL)
class Urls:
    def __init__(self, urlpatterns):
        self.urlpatterns = urlpatterns


METHODS = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'HEAD', 'PROPFIND']


class Body:
    """The input of a request, followed by data of the next one: nobody may read that."""

    def __init__(self, data, declared):
        self.data, self.left, self.over = data, declared, []

    def read(self, size=-1):
        if size is None or size < 0 or size > self.left:
            self.over.append(size)
            size = max(self.left, 0)
        r, self.data = self.data[:size], self.data[size:]
        self.left -= len(r)
        return r

    def readline(self, size=-1):
        if size is None or size < 0:
            self.over.append(size)
            size = self.left
        line = self.data[:size].split(b'\n', 1)
        return self.read(len(line[0]) + len(line) - 1)

    def readlines(self, hint=-1):
        return [self.read(self.left)]

    def __iter__(self):
        return iter(self.readlines())


def results(kit, text):
    """What the handler returns for a text."""
    pong = kit.Pong(num=3, text='\u20ac&<')
    make = {
        'crash': lambda: 1 / 0,
        'client': lambda: SOAPError(kit.code.CLIENT, 'no \u20ac'),
        'server': lambda: SOAPError(kit.code.SERVER, 'no', 'actor'),
        'ctrl': lambda: SOAPError(kit.code.SERVER, 'a\x00b\ud800'),
        'head': lambda: SOAPResponse(pong, soap_header=kit.Head(note='back \u20ac', count=3)),
        'headers': lambda: SOAPResponse(pong, http_headers={'X-Own': 'own', 'Set-Cookie': 'a=b', 'Cache-Control': 'no-cache'}),
        'lower': lambda: SOAPResponse(pong, http_headers={'x-own': 'a, b', 'ETag': '"x"'}),
        'status 202': lambda: SOAPResponse(pong, http_status_code=202),
        'status 500': lambda: SOAPResponse(pong, http_status_code=500),
        'status 299': lambda: SOAPResponse(pong, http_status_code=299),
        'status 404': lambda: SOAPResponse(pong, http_status_code=404, http_content='given'),
        'fault 400': lambda: SOAPResponse(SOAPError(kit.code.CLIENT, 'c'), http_status_code=400),
        'type': lambda: SOAPResponse(pong, http_headers={'Content-Type': 'text/plain'}),
        'long': lambda: kit.Pong(num=1, text='x\n' * 50000),
    }
    if text == 'raise':
        raise SOAPError(kit.code.CLIENT, 'raised')
    if text.startswith('status ') and text not in make:
        return SOAPResponse(pong, http_status_code=int(text[7:]))
    return make[text]() if text in make else pong


def wsdl_hook(**kw):
    r = kw['response']
    r.http_headers['X-Hook'] = 'wsdl'
    return r


def soap_hook(**kw):
    r = kw['response']
    content = r.http_content
    r.http_content = content.decode() + '<!--\u20ac-->' if isinstance(content, bytes) else content
    r.http_headers = {'Content-Type': r.http_headers['Content-Type'] + '; charset=utf-8', 'X-Hook': 'soap'}
    r.http_status_code = 203
    return r


def xsd_hook(**kw):
    return SOAPResponse('gone', http_status_code=410, http_content=bytearray(b'gone').decode(), http_headers={'Content-Type': 'text/plain; charset=latin-1'})


def request_hook(**kw):
    kw['request'].http_content = kw['request'].http_content.replace(b'>7<', b'>8<')
    return kw['request']


def swallow(request, next_call):
    try:
        response = next_call(request)
    except ZeroDivisionError:
        return SOAPError('Own', 'swallowed')
    response.http_headers['X-Middleware'] = request.environ.get('HTTP_X_USER', 'nobody') + request.environ.get('PATH_INFO')
    return response


CONFIGS = {
    'plain': dict(middlewares=[ExceptionToSoapFault()]),
    'hooks': dict(middlewares=[ExceptionToSoapFault()], hooks={'wsdl-response': wsdl_hook, 'soap-response': soap_hook, 'xsd-response': xsd_hook, 'soap-request': request_hook}),
    'lenient': dict(middlewares=[ExceptionToSoapFault(), swallow], strict_soap_header=False),
    'documents': dict(middlewares=[ExceptionToSoapFault()], wsdl=b'<a location="${scheme}://${host}/x"/>', xsds={'a.xsd': b'<xsd/>', 'b': '<x>\u20ac</x>'}),
    'django': dict(middlewares=[ExceptionToSoapFault()]),
}


class Site:
    def __init__(self, version, config):
        self.kit = kit = Kit(version)
        kit.handler = self.handle
        self.users = []
        kwargs = CONFIGS[config]
        self.app = {}
        self.app['wsgi'] = WsgiSoapApplication(SOAPDispatcher(kit.service, **kwargs))
        f = flask.Flask('x')
        f.config['PROPAGATE_EXCEPTIONS'] = True
        f.add_url_rule('/p', 'p', flask_dispatcher(kit.service, **kwargs), methods=METHODS, provide_automatic_options=False)
        self.app['flask'] = f.wsgi_app
        urls = Urls(urlpatterns=[re_path(r'^p$', django_dispatcher(kit.service, **kwargs))])
        settings.MIDDLEWARE = ['django.middleware.security.SecurityMiddleware', 'django.middleware.common.CommonMiddleware',
                               'django.middleware.csrf.CsrfViewMiddleware'] if config == 'django' else []
        handler = WSGIHandler()

        def django_app(env, start_response):
            settings.ROOT_URLCONF = urls
            clear_url_caches()
            return handler(env, start_response)

        self.app['django'] = django_app
        self.reference = lambda: SOAPDispatcher(kit.service, **kwargs)

    def handle(self, name, request, value):
        self.users.append([request.environ.get(k) for k in ('HTTP_X_USER', 'REQUEST_METHOD', 'QUERY_STRING', 'NOTHING', 'wsgi.url_scheme', 'PATH_INFO')])
        return results(self.kit, value.text)

    def log(self):
        r = list(self.kit.calls), list(self.users)
        del self.kit.calls[:], self.users[:]
        return r

    def expected(self, env, content):
        self.log()
        r = self.reference().dispatch(SOAPRequest(dict(env), content))
        body = r.http_content
        return (r.http_status_code, dict(r.http_headers), body.encode() if isinstance(body, str) else body), self.log()


def send(app, env, data, declared):
    """A request by way of WSGI, as a server makes it."""
    env = dict(env)
    env['wsgi.input'] = stream = Body(data, declared)
    answers = []
    result = app(env, lambda status, headers, exc_info=None: answers.append((status, headers)))
    chunks = list(result)
    if hasattr(result, 'close'):
        result.close()
    return answers, chunks, stream


def lower(headers):
    return {k.lower(): v for k, v in headers.items()}


def compare(ch, site, what, env, data):
    declared = int(env.get('CONTENT_LENGTH') or 0)
    (status, headers, body), log = site.expected(env, data[:declared])
    ch.step()
    for name, app in site.app.items():
        where = lambda: f'{name}: {what()}\n{ {k: v for k, v in env.items() if isinstance(v, str)} } {data!r} (declared {declared})\n'
        try:
            answers, chunks, stream = send(app, env, data, declared)
        except Exception as e:
            ch.fail(f'{where()}raised {type(e).__name__}: {e}')
        seen = site.log()
        ch.check(len(answers) == 1 and type(answers[0][0]) is str and all(type(k) is str and type(v) is str for k, v in answers[0][1])
                 and all(type(c) is bytes for c in chunks), lambda: f'{where()}no answer to WSGI: {answers} {chunks}')
        got_status, got_headers = int(answers[0][0].split(' ')[0]), answers[0][1]
        ch.check(answers[0][0][3:4] == ' ' and got_status == status, lambda: f'{where()}status {answers[0][0]!r}, the dispatcher returns {status}')
        if env['REQUEST_METHOD'] != 'HEAD':
            ch.check(b''.join(chunks) == body, lambda: f'{where()}body {b"".join(chunks)!r}\nthe dispatcher returns {body!r}')
        given = [v for k, v in got_headers if k.lower() == 'content-type']
        ch.check(given == [lower(headers)['content-type']], lambda: f'{where()}content type {given}, the dispatcher returns {headers}')
        for k, v in headers.items():
            ch.check([x for n, x in got_headers if n.lower() == k.lower()] == [v], lambda: f'{where()}header {k}: {got_headers}, the dispatcher returns {headers}')
        for k, v in got_headers:
            # Frameworks may add headers of their own, but not describe another content.
            ch.check(k.lower() != 'content-length' or int(v) == len(body), lambda: f'{where()}{k}: {v} instead of {len(body)}')
            ch.check(k.lower() not in ('content-encoding', 'transfer-encoding'), lambda: f'{where()}{k}: {v}')
        ch.check(seen == log, lambda: f'{where()}handler saw {seen}\nwith the dispatcher {log}')
        ch.check(not stream.over, lambda: f'{where()}read beyond the declared length: {stream.over}, {stream.left} left')
    ch.note(f'{status} {lower(headers)["content-type"]}')
    ch.note(str(len(log[0])) + ' calls')


_sites = {}


def site(version, config):
    if (version, config) not in _sites:
        _sites[version, config] = Site(version, config)
    return _sites[version, config]


def rest(env):
    env.update({'wsgi.version': (1, 0), 'wsgi.errors': sys.stderr, 'wsgi.multithread': False, 'wsgi.multiprocess': False, 'wsgi.run_once': False,
                'REMOTE_ADDR': '127.0.0.1', 'HTTP_X_USER': 'me'})
    return env


# --- What is asked for -------------------------------------------------------

QUERIES = ['', 'wsdl', 'wsdl=', 'wsdl=1', 'singleWsdl', 'WSDL', 'wsdl&xsd=a', 'a=b&wsdl', 'a=b;wsdl', 'xsd', 'xsd=', 'xsd=a.xsd', 'xsd=b', 'xsd=a%2Exsd', 'xsd=none', 'xsd=a.xsd&xsd=b',
           'xsd=%E2%82%AC', 'xsd=%FF', '%77sdl', '=&&']


def methods(ch):
    version = ch.choose('version', [11, 12])
    config = ch.choose('configuration', list(CONFIGS))
    method = ch.choose('method', METHODS)
    query = ch.choose('query', QUERIES)
    body = ch.choose('body', ['none', 'message', 'noise'])
    content = {'none': b'', 'noise': b'\x00noise', 'message': envelope(version, '<k:ping><k:num>7</k:num></k:ping>').encode()}[body]
    headers = {'Content-Type': CONTENT_TYPES[version]} if body == 'message' else {}
    env = rest(environ(method, f'http://h/p?{query}', headers, content))
    compare(ch, site(version, config), lambda: f'{version} {config}', env, content)


ORIGINS = [
    {}, {'wsgi.url_scheme': 'https'}, {'HTTP_X_FORWARDED_PROTO': 'https'}, {'X_FORWARDED_PROTO': 'https'}, {'HTTP_X_FORWARDED_PROTO': 'http', 'wsgi.url_scheme': 'https'},
    {'HTTP_HOST': 'example.org:8080'}, {'HTTP_HOST': '[::1]:8080'}, {'HTTP_X_FORWARDED_HOST': 'front'}, {'HTTP_X_FORWARDED_PROTO': ''}, {'SERVER_NAME': 'other', 'SERVER_PORT': '81'},
    {'SCRIPT_NAME': '/mount'}, {'HTTP_HOST': 'EXAMPLE.org'},
]


def origin(ch):
    version = ch.choose('version', [11, 12])
    config = ch.choose('configuration', list(CONFIGS))
    query = ch.choose('query', ['wsdl', 'singleWsdl', 'xsd=a.xsd'])
    env = rest(environ('GET', f'http://h/p?{query}'))
    env.update(ch.choose('origin', ORIGINS))
    env.update(ch.choose('origin, too', ORIGINS))
    compare(ch, site(version, config), lambda: f'{version} {config}', env, b'')


# --- Messages ----------------------------------------------------------------

def bodies(version):
    num = '<k:num>7</k:num>'
    e = lambda content, **kw: envelope(version, content, **kw)
    ping = lambda content='': f'<k:ping>{num}{content}</k:ping>'
    text = e(ping('<k:text>\u20ac\u00e4</k:text>'))
    m = {
        'ping': e(ping()), 'text': text, 'utf-16': ('<?xml version="1.0" encoding="utf-16"?>' + text).encode('utf-16'),
        'latin-1': ('<?xml version="1.0" encoding="iso-8859-1"?>' + e(ping('<k:text>\u00e4\u00ff</k:text>'))).encode('latin-1'),
        'bom': text.encode('utf-8-sig'), 'line ends': e('\r\n' + ping('\r\n<k:text>a\r\nb\rc</k:text>') + '\r\n'),
        'space after': e(ping()) + '\n\n', 'header': e(ping(), header='<k:note>n</k:note><k:count>4</k:count>'),
        'unknown header': e(ping(), header='<x:y xmlns:x="urn:x"/>'), 'other': e(f'<k:other>{num}</k:other>'), 'special': e(f'<k:special>{num}</k:special>'),
        'invalid': e('<k:ping/>'), 'unknown': e('<k:what/>'), 'malformed': '<a', 'not utf-8': b'<a>\xff</a>', 'no body': e(None), 'empty': b'', 'binary': b'\x00\xff\r\n\r\n',
        'form': b'a=b&c=%20', 'multipart': b'--x\r\nContent-Disposition: form-data; name="a"\r\n\r\n1\r\n--x--\r\n', 'chunk': b'5\r\nhello\r\n0\r\n\r\n',
        'crash': e(ping('<k:text>crash</k:text>')), 'raise': e(ping('<k:text>raise</k:text>')), 'client': e(ping('<k:text>client</k:text>')),
        'big': e(ping(f'<k:text>{"y" * 70000}</k:text>')), 'nul': e(ping('<k:text>\x00</k:text>')),
    }
    return {k: v.encode() if isinstance(v, str) else v for k, v in m.items()}


MESSAGES = {v: bodies(v) for v in (11, 12)}
LENGTHS = {'exact': lambda n: n, 'more follows': lambda n: n, 'less': lambda n: n - 1, 'half': lambda n: n // 2, 'one': lambda n: min(n, 1), 'without end': lambda n: max(n - 20, 0), 'absent': None,
           'empty': '', 'zero': '0', 'padded': lambda n: f'00{n}', 'less by two': lambda n: max(n - 2, 0)}
TYPES = ['right', 'text/xml', 'application/soap+xml; charset=utf-8', 'application/x-www-form-urlencoded', 'multipart/form-data; boundary=x', 'multipart/form-data',
         'application/json', None, '', 'text/xml; charset=klingon']


def post(version, content, length='exact', ctype='right', action=('SOAPACTION', '"urn:ping"')):
    headers = {}
    if ctype is not None:
        headers['Content-Type'] = CONTENT_TYPES[version] if ctype == 'right' else ctype
    name, value = action
    if name == 'param':
        headers['Content-Type'] = headers.get('Content-Type', '') + '; action=' + value
    elif name:
        headers[name] = value
    env = rest(environ('POST', 'http://h/p', headers, content))
    declare = LENGTHS[length]
    if declare is None:
        del env['CONTENT_LENGTH']
    elif callable(declare):
        env['CONTENT_LENGTH'] = str(declare(len(content)))
    else:
        env['CONTENT_LENGTH'] = declare
    if env.get('CONTENT_LENGTH', '').startswith('-'):
        env['CONTENT_LENGTH'] = '0'
    return env, content + (b'POST /next HTTP/1.1\r\n<more/>' if length == 'more follows' else b'')


ACTIONS = [(None, None)] + [(n, v) for n in ('SOAPACTION', 'ACTION') for v in ('"urn:ping"', 'urn:ping', '""', '', '"urn:other"', 'urn:no')] + [
    ('param', v) for v in ('"urn:ping"', 'urn:ping', '""', '"urn:other"', 'urn:no', 'urn:ping; charset=utf-8')]


def body(ch, full):
    version = ch.choose('version', [11, 12])
    config = ch.choose('configuration', list(CONFIGS) if full else ['plain', 'django', 'hooks'])
    name = ch.choose('body', list(MESSAGES[version]))
    length = ch.choose('length', list(LENGTHS))
    ctype = ch.choose('type', TYPES)
    action = ch.choose('action', ACTIONS) if full else ACTIONS[1] if version == 11 else ACTIONS[13]
    if not full and config != 'plain' and length not in ('exact', 'more follows'):
        ch.skip()
    env, data = post(version, MESSAGES[version][name], length, ctype, action)
    compare(ch, site(version, config), lambda: f'{version} {config}', env, data)


def actions(ch):
    version = ch.choose('version', [11, 12])
    config = ch.choose('configuration', list(CONFIGS))
    action = ch.choose('action', ACTIONS)
    name = ch.choose('body', ['ping', 'other', 'special', 'invalid', 'malformed', 'header'])
    env, data = post(version, MESSAGES[version][name], 'exact', ch.choose('type', ['right', None, 'text/xml; charset=utf-8']), action)
    compare(ch, site(version, config), lambda: f'{version} {config}', env, data)


STATUSES = [f'status {n}' for n in (201, 203, 207, 226, 299, 303, 400, 418, 451, 499, 502, 511, 599)]
TEXTS = ['crash', 'client', 'server', 'ctrl', 'head', 'headers', 'lower', 'status 202', 'status 500', 'status 299', 'status 404', *STATUSES, 'fault 400', 'type', 'long', 'raise', 'x']


def handled(ch):
    version = ch.choose('version', [11, 12])
    config = ch.choose('configuration', list(CONFIGS))
    text = ch.choose('result', TEXTS)
    operation = ch.choose('operation', ['ping', 'other'])
    content = envelope(version, f'<k:{operation}><k:num>7</k:num><k:text>{text}</k:text></k:{operation}>').encode()
    env, data = post(version, content, action=(None, None))
    compare(ch, site(version, config), lambda: f'{version} {config}', env, data)


# --- Sequences ---------------------------------------------------------------

KINDS = ['ping', 'form', 'more', 'less', 'no length', 'malformed', 'header', 'unknown header', 'headers', 'status 202', 'wsdl', 'https wsdl', 'bad', 'unknown xsd', 'crash', 'client', 'json',
         'head', 'other', 'invalid']


def request(version, kind):
    m = MESSAGES[version]
    if kind in TEXTS:
        return post(version, envelope(version, f'<k:ping><k:num>7</k:num><k:text>{kind}</k:text></k:ping>').encode(), action=(None, None))
    if kind == 'wsdl':
        return rest(environ('GET', 'http://h1/p?wsdl')), b''
    if kind == 'https wsdl':
        return rest(environ('GET', 'https://h2:444/p?wsdl')), b''
    if kind == 'unknown xsd':
        return rest(environ('GET', 'http://h/p?xsd=q')), b''
    if kind == 'bad':
        return rest(environ('PUT', 'http://h/p', {}, b'abc')), b'abc'
    length = {'more': 'more follows', 'less': 'half', 'no length': 'absent'}.get(kind, 'exact')
    ctype = {'form': 'application/x-www-form-urlencoded', 'json': 'application/json'}.get(kind, 'right')
    return post(version, m[kind if kind in m and kind != 'form' else 'ping'], length, ctype, (None, None))


def sequences(ch, depth, some):
    version = ch.choose('version', [11, 12])
    config = ch.choose('configuration', ['plain', 'django', 'lenient'])
    kinds = [ch.choose(f'request {i}', KINDS[:some]) for i in range(depth)]
    s = Site(version, config)
    for kind in kinds:
        env, data = request(version, kind)
        compare(ch, s, lambda: f'{version} {config} {kinds}', env, data)


def harnesses(tier):
    full = tier == 'thorough'
    hs = [Harness('methods and queries', methods, split=3), Harness('origins', origin, split=3), Harness('messages', body, {'full': full}, split=3),
          Harness('actions', actions, split=3), Harness('results', handled, split=3), Harness('pairs', sequences, {'depth': 2, 'some': 20}, split=3)]
    if full:
        hs.append(Harness('triples', sequences, {'depth': 3, 'some': 12}, split=3))
    return hs
