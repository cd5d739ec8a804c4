"""A loopback for SOAP over HTTP: what a client posts is handed to the dispatcher registered for the URL."""
import email.message
import io
import types
from urllib.parse import urlsplit

import requests
import requests.adapters

ENV11 = 'http://schemas.xmlsoap.org/soap/envelope/'
ENV12 = 'http://www.w3.org/2003/05/soap-envelope'
ENVELOPES = {11: ENV11, 12: ENV12}
CONTENT_TYPES = {11: 'text/xml', 12: 'application/soap+xml'}
WSDL = 'http://schemas.xmlsoap.org/wsdl/'
SOAP11 = 'http://schemas.xmlsoap.org/wsdl/soap/'
SOAP12 = 'http://schemas.xmlsoap.org/wsdl/soap12/'
HTTP = 'http://schemas.xmlsoap.org/soap/http'
XS = 'http://www.w3.org/2001/XMLSchema'


def normal(url):
    return requests.Request('POST', url).prepare().url


def environ(method='POST', url='http://h/', headers=(), body=b''):
    u = urlsplit(url)
    env = {
        'REQUEST_METHOD': method, 'PATH_INFO': u.path, 'SCRIPT_NAME': '', 'QUERY_STRING': u.query, 'HTTP_HOST': u.netloc,
        'SERVER_NAME': u.hostname, 'SERVER_PORT': str(u.port or 80), 'SERVER_PROTOCOL': 'HTTP/1.1', 'wsgi.url_scheme': u.scheme,
        'wsgi.input': io.BytesIO(body), 'CONTENT_LENGTH': str(len(body)),
    }
    for name, value in dict(headers).items():
        if isinstance(value, bytes):
            value = value.decode('latin-1')
        name = name.upper().replace('-', '_')
        env[name if name in ('CONTENT_TYPE', 'CONTENT_LENGTH') else 'HTTP_' + name] = value
    return env


class Wire:
    """Patches the transport of requests; handlers: {url: callable(PreparedRequest) -> (status, headers, content)}."""

    def __init__(self, handlers, cookie=None):
        self.cookie = cookie
        self.handlers = {normal(k): v for k, v in handlers.items()}
        self.sent = []

    def __enter__(self):
        self.saved = requests.adapters.HTTPAdapter.send
        wire = self

        def send(adapter, request, **kw):
            wire.sent.append(request)
            if request.url not in wire.handlers:
                raise requests.ConnectionError(f'nothing listens at {request.url}')
            status, headers, content = wire.handlers[request.url](request)
            response = requests.Response()
            response.status_code, response._content, response.url, response.request = status, content, request.url, request
            response.headers.update(headers)
            message = email.message.Message()
            if wire.cookie:
                message['Set-Cookie'] = response.headers['Set-Cookie'] = wire.cookie
            # This is where requests looks for cookies.
            response.raw = types.SimpleNamespace(_original_response=types.SimpleNamespace(msg=message))
            requests.cookies.extract_cookies_to_jar(response.cookies, request, response.raw)
            return response

        requests.adapters.HTTPAdapter.send = send
        return self

    def __exit__(self, *args):
        requests.adapters.HTTPAdapter.send = self.saved


def serve(dispatcher):
    """Serve a dispatcher to a Wire, as a WSGI server does."""
    from soapfish.soap_dispatch import WsgiSoapApplication
    app = WsgiSoapApplication(dispatcher)

    def handler(request):
        body = request.body or b''
        if isinstance(body, str):
            body = body.encode()
        env = environ(request.method, request.url, request.headers, body)
        answer = []
        content = b''.join(app(env, lambda status, headers: answer.append((status, headers))))
        status, headers = answer[0]
        return int(status.split()[0]), dict(headers), content

    return handler
