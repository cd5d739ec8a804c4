"""C19: service documents are served complete, located and under the right hooks."""
import itertools
import re
from urllib.parse import parse_qs, quote, urljoin, urlsplit

from lxml import etree

from ..explore import Harness
from ..lib.kit import Kit, answer, envelope
from ..lib.soapkit import SOAP11, SOAP12, WSDL, XS, environ
from soapfish import py2wsdl, soap, xsd
from soapfish.core import SOAPRequest, SOAPResponse
from soapfish.soap_dispatch import SOAPDispatcher

TECHNIQUE = ('bounded exhaustive exploration of the real dispatcher: all small schema graphs crawled over HTTP GET to their closure, all '
             'query strings x methods x scheme and host sources, all hook subsets and hook behaviours')
BOUNDS = {
    'quick': 'All import/include graphs on up to 4 schemas (1..2 of them top-level, references to later ones, at most 6 references, at most one back) and 6 regular graphs of 6, 9, 17 and 40 schemas x 8 sets '
             'of locations, with or without location, on the only and on a second dispatcher or service of the same schemas; 33 queries x 9 methods x 2 versions; 12 sources of scheme and host x 7 location '
             'templates x texts with placeholders; all 64 subsets of hooks x 7 requests x 4 behaviours.',
    'thorough': 'As quick with up to 5 schemas.',
}
ASSUMPTIONS = ['a schema referred to without location cannot be fetched', 'the query names are lower case as documented (wsdl, singleWsdl, xsd)']


def get(dispatcher, query, method='GET', url='http://h/p', headers=(), body=b'', **env):
    e = environ(method, f'{url}?{query}' if query is not None else url, headers, body)
    e.update(env)
    return dispatcher.dispatch(SOAPRequest({k: v for k, v in e.items() if v is not None}, body))


def ok(ch, response, what):
    ch.check(response.http_status_code == 200 and response.http_headers.get('Content-Type', '').split(';')[0] == 'text/xml',
             lambda: f'{what()}: {response.http_status_code} {response.http_headers} {response.http_content!r}')
    try:
        return etree.fromstring(response.http_content)
    except (etree.XMLSyntaxError, ValueError, TypeError) as e:
        ch.fail(f'{what()}: not well-formed: {e}\n{response.http_content!r}')


def declared(root):
    """What a schema document declares: (target namespace, elements, types)."""
    name = lambda tag: sorted(e.get('name') for e in root.findall(f'{{{XS}}}{tag}'))
    return root.get('targetNamespace'), name('element'), name('complexType'), name('simpleType')


LOCATIONS = [
    ['s0.xsd', 's1.xsd', 's2.xsd', 's3.xsd', 's4.xsd'],
    ['a.xsd', 'sub/a.xsd', '../a.xsd', 'http://x/a.xsd?b=1&c=d#e', './a.xsd'],
    ['xsd', 'a b+c%20.xsd', '\u20ac&amp;.xsd', '1;2=3', 'xsd=a'],
    ['', 'b', 'a', 'wsdl', 'c'], ['a', 'A', 'a/', '/a', 'a//'], ['urn:a:b', 'urn:a', 'c:\\x\\y.xsd', '"q"', "'q'"],
    ['%', '%25', '&', '?', '#'], ['${scheme}://${host}/a', '$host', '$$', '${x}', '$$$$'],
]


def graph(ch, most, sets, size):
    n = ch.choose('schemas', range(1, size + 1))
    tops = ch.choose('top level', [t for t in (1, 2) if t <= n])
    edges = [(i, j) for i in range(n) for j in range(max(i + 1, tops), n)]
    used = ch.choose('references', [s for k in range(min(most, len(edges)) + 1) for s in itertools.combinations(edges, k)])
    if any(all(b != j for _, b in used) for j in range(tops, n)):
        ch.skip()  # a schema nobody refers to
    locations = ch.choose('locations', sets)
    by = ch.choose('reference', ['import', 'include', 'mixed'])
    unlocated = ch.dev('without location', [None] + list(range(tops, n)))
    back = ch.dev('back reference', [None] + [(i, j) for i in range(tops, n) for j in range(tops, i)])
    version = ch.dev('version', [11, 12])
    crawl(ch, n, tops, used, locations, by, unlocated, back, version, ch.dev('second', [None, 'dispatcher', 'service']))


SHAPES = {
    'chain': lambda n: (1, [(i, i + 1) for i in range(n - 1)]),
    'star': lambda n: (1, [(0, i) for i in range(1, n)]),
    'star of the second': lambda n: (1, [(0, 1)] + [(1, i) for i in range(2, n)]),
    'tree': lambda n: (1, [((i - 1) // 2, i) for i in range(1, n)]),
    'ladder': lambda n: (2, [(i, j) for i in range(n) for j in (i + 1, i + 2) if 2 <= j < n]),
    'shared last': lambda n: (n // 2, [(i, n // 2 + i) for i in range(n - n // 2 - 1)] + [(i, n - 1) for i in range(n - 1)]),
}


def large(ch):
    """Many schemas in regular graphs."""
    n = ch.choose('schemas', [6, 9, 17, 40])
    tops, used = SHAPES[ch.choose('shape', list(SHAPES))](n)
    by = ch.choose('reference', ['import', 'include', 'mixed'])
    locations = [pattern.format(i) for pattern in [ch.choose('locations', ['s{}.xsd', 'd{}/s.xsd', 'http://h/s?n={}&m=1', '{}'])] for i in range(n)]
    back = ch.choose('back reference', [None, (n - 1, n - 2), (n - 1, tops)])
    if back and (back[1] < tops or back[0] == back[1] or back in used):
        ch.skip()
    crawl(ch, n, tops, tuple(used), locations, by, None, back, ch.choose('version', [11, 12]), ch.choose('second', [None, 'service']))


def crawl(ch, n, tops, used, locations, by, unlocated, back, version, again=None):
    kinds = {e: 'include' if by == 'include' or by == 'mixed' and (e[0] + e[1]) % 2 else 'import' for e in used}
    # Included schemas have the namespace of the including one.
    spaces = [f'urn:n{i}' for i in range(n)]
    for i, j in used:
        if kinds[i, j] == 'include':
            if any(kinds[e] == 'import' or spaces[e[0]] != spaces[i] for e in used if e[1] == j):
                ch.skip()
            spaces[j] = spaces[i]
    if any(j == unlocated and kind == 'include' for (_, j), kind in kinds.items()):
        ch.skip()
    schemas = {}
    expected = {}
    for i in reversed(range(n)):
        small = type(f'Small{i}', (xsd.Int,), {'maxInclusive': i})
        cls = type(f'Type{i}', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, 'v': xsd.Element(small)})
        location = locations[i] if i >= tops and i != unlocated else None
        if location == '':
            ch.skip()
        schemas[i] = xsd.Schema(spaces[i], elementFormDefault='qualified', simpleTypes=[small], complexTypes=[cls],
                                elements={f'el{i}': xsd.Element(cls)}, location=location,
                                imports=[schemas[b] for a, b in used if a == i and kinds[a, b] == 'import'],
                                includes=[schemas[b] for a, b in used if a == i and kinds[a, b] == 'include'])
        expected[i] = spaces[i], [f'el{i}'], [f'type{i}'], [f'small{i}']
    if back:
        i, j = back
        if spaces[i] == spaces[j]:
            ch.skip()
        schemas[i].imports = [*schemas[i].imports, schemas[j]]
        kinds[back] = 'import'
        used += (back,)
    what = lambda: f'{tops} of {n}, {kinds}, {locations}, without location: {unlocated}, {version}'
    method = xsd.Method(operationName='op', soapAction='urn:op', input='el0', output='el0')
    v = soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12
    service = lambda: soap.Service('urn:s', 'http://h/p', [schemas[i] for i in range(tops)], [method], version=v)
    try:
        dispatcher = SOAPDispatcher(service())
        if again:  # others may serve the same schemas
            for query in ('wsdl', *(f'xsd={x}' for x in dispatcher.xsds)):
                get(dispatcher, query)
            dispatcher = SOAPDispatcher(service() if again == 'service' else dispatcher.service)
    except Exception as e:
        ch.fail(f'{what()}: no dispatcher: {e!r}')
    url = 'http://h/p'
    ch.step()
    root = ok(ch, get(dispatcher, 'wsdl'), lambda: f'{what()}\nthe WSDL')
    inline = root.findall(f'{{{WSDL}}}types/{{{XS}}}schema')
    ch.check([declared(s) for s in inline] == [expected[i] for i in range(tops)], lambda: f'{what()}\nthe WSDL has the schemas {[declared(s) for s in inline]}')
    fetched = {}
    pending = [(i, s) for i, s in enumerate(inline)]
    while pending:
        i, document = pending.pop()
        refs = [e for e in document if e.tag in (f'{{{XS}}}import', f'{{{XS}}}include')]
        targets = sorted(b for a, b in used if a == i)
        ch.check(len(refs) == len(targets), lambda: f'{what()}\nschema {i} has {len(refs)} references')
        found = []
        for e in refs:
            if e.get('schemaLocation') is None:
                j = [b for b in targets if b == unlocated]
                ch.check(j and e.get('namespace') in (None, spaces[j[0]]), lambda: f'{what()}\nschema {i}: {etree.tostring(e)}')
                found.append(unlocated)
                continue
            full = urljoin(f'{url}?wsdl', e.get('schemaLocation'))
            if full not in fetched:
                ch.step()
                s = ok(ch, get(dispatcher, quote(urlsplit(full).query, safe="%=&/:;?+'()*!$,@~"), url=full.split('?')[0]),
                       lambda: f'{what()}\n{full} of {etree.tostring(e)}')
                j = [b for b in range(tops, n) if declared(s) == expected[b]]
                ch.check(len(j) == 1, lambda: f'{what()}\n{full} is {declared(s)}')
                fetched[full] = j[0]
                pending.append((j[0], s))
            j = fetched[full]
            found.append(j)
            ch.check(e.get('namespace', spaces[j]) == spaces[j] and e.tag.endswith(kinds.get((i, j), '?')),
                     lambda: f'{what()}\nschema {i}: {etree.tostring(e)} leads to schema {j}')
        ch.check(sorted(found) == targets, lambda: f'{what()}\nschema {i} refers to {found}')
    if unlocated is None:
        ch.check(sorted(fetched.values()) == list(range(tops, n)), lambda: f'{what()}\nfetched {fetched}')
    ch.step()
    r = get(dispatcher, 'xsd=no-such-schema')
    ch.check(r.http_status_code == 404, lambda: f'{what()}\nunknown schema: {r.http_status_code}')
    ch.note(f'{len(fetched)} fetched')
    ch.state(what())


QUERIES = [None, '', 'wsdl', 'wsdl=', 'wsdl=1', 'singleWsdl', 'singleWsdl=x', 'wsdl&x=y', 'x=y&wsdl', 'a=wsdl', 'xwsdl', 'wsdlx', 'xsd=in.xsd', 'xsd=in%2Exsd',
           'xsd=in.xsd&y=z', 'y=z&xsd=in.xsd', 'xsd=other.xsd', 'xsd=', 'xsd', 'xsd=IN.XSD', 'xsd=in.xsd%20', 'xsd=/in.xsd', 'xsd=%2Fin.xsd', 'xxsd=in.xsd',
           'in.xsd', 'a=xsd', 'disco', 'op=doPing', 'xsd=sub/deep.xsd', 'xsd=sub%2Fdeep.xsd', '=', '&', '%']
METHODS = ['GET', 'POST', 'PUT', 'HEAD', 'DELETE', 'OPTIONS', 'PATCH', 'get', None]
HOOKS = ['soap-request', 'soap-response', 'wsdl-request', 'wsdl-response', 'xsd-request', 'xsd-response']


def kind_of(method, query):
    keys = parse_qs(query or '', keep_blank_values=True)
    if method == 'POST':
        return 'soap'
    if method == 'GET' and ('wsdl' in keys or 'singleWsdl' in keys):
        return 'wsdl'
    if method == 'GET' and 'xsd' in keys:
        return {'in.xsd': 'in', 'sub/deep.xsd': 'deep'}.get(keys['xsd'][0], 'missing')
    return 'bad'


def make(version, hooks=None, location='${scheme}://${host}/p', texts=(), **kw):
    """A dispatcher for a service with two imported schemas."""
    def schema(name, **kw):
        small = type(f'{name.title()}Type', (xsd.ComplexType,), {'INDICATOR': xsd.Sequence, 'v': xsd.Element(xsd.Int)})
        codes = [type(f'{name.title()}Code', (xsd.String,), {'enumeration': list(texts)})] if texts else []
        return xsd.Schema(f'urn:{name}', elementFormDefault='qualified', simpleTypes=codes, complexTypes=[small], elements={name: xsd.Element(small)}, **kw)
    deep = schema('deep', location='sub/deep.xsd')
    inner = schema('in', location='in.xsd', imports=[deep])
    main = schema('main', imports=[inner])
    T = main.complexTypes[0]
    calls = []

    def function(request, value):
        calls.append(value.v)
        if value.v == 13:
            raise ValueError('thirteen')
        return T(v=value.v + 1)

    method = xsd.Method(operationName='main', soapAction='urn:main', input='main', output='main', function=function)
    service = soap.Service('urn:s', location, [main], [method], version=soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12)
    d = SOAPDispatcher(service, hooks=hooks, **kw)
    d.calls = calls
    return d


def message(version, n):
    return envelope(version, f'<m:main xmlns:m="urn:main"><m:v>{n}</m:v></m:main>').encode()


def queries(ch):
    version = ch.choose('version', [11, 12])
    method = ch.choose('method', METHODS)
    log = []
    d = make(version, hooks={h: (lambda h: lambda **kw: log.append(h) or kw[h.split('-')[1]])(h) for h in HOOKS})
    for query in QUERIES:
        for body in (message(version, 5), b''):
            del log[:], d.calls[:]
            ch.step()
            env = {} if query is not None else {'QUERY_STRING': None}
            what = lambda: f'{version} {method} ?{query} body {body[:10]!r}'
            r = get(d, query, method, body=body, REQUEST_METHOD=method, **env)
            kind = kind_of(method, query)
            if kind == 'wsdl':
                root = ok(ch, r, what)
                ch.check(root.tag == f'{{{WSDL}}}definitions', what)
            elif kind in ('in', 'deep'):
                root = ok(ch, r, what)
                ch.check(declared(root)[:2] == (f'urn:{kind}', [kind]), lambda: f'{what()}: {r.http_content}')
            elif kind == 'missing':
                ch.check(r.http_status_code == 404, lambda: f'{what()}: {r.http_status_code}')
            elif kind == 'bad':
                ch.check(r.http_status_code == 400, lambda: f'{what()}: {r.http_status_code}')
            else:
                got = answer(version, r)
                ch.check(got[0] == ('result' if body else 'fault'), lambda: f'{what()}: {got}')
            ch.check(d.calls == ([5] if kind == 'soap' and body else []), lambda: f'{what()}: calls {d.calls}')
            name = kind if kind in ('soap', 'wsdl') else 'xsd'
            ch.check(log == ([] if kind == 'bad' else [f'{name}-request', f'{name}-response']), lambda: f'{what()}: hooks {log}')
            ch.note(kind)
            ch.state((version, method, query, body))


TEMPLATES = ['${scheme}://${host}/p', 'http://fixed:81/p', '${scheme}://fixed/p', 'http://${host}/${host}?x=${scheme}&y', '$scheme://$host/p', 'https://h/$other/$$/p',
             '${scheme}://${host}/${path}']
SOURCES = [  # environ, scheme, host
    ({'wsgi.url_scheme': 'http', 'HTTP_HOST': 'my.host'}, 'http', 'my.host'),
    ({'wsgi.url_scheme': 'https', 'HTTP_HOST': 'my.host:8443'}, 'https', 'my.host:8443'),
    ({'wsgi.url_scheme': 'http', 'HTTP_X_FORWARDED_PROTO': 'https', 'HTTP_HOST': 'my.host'}, 'https', 'my.host'),
    ({'wsgi.url_scheme': 'https', 'HTTP_X_FORWARDED_PROTO': 'http', 'HTTP_HOST': 'h'}, 'http', 'h'),
    ({'wsgi.url_scheme': 'http', 'HTTP_HOST': '[::1]:80'}, 'http', '[::1]:80'),
    ({'wsgi.url_scheme': None, 'HTTP_HOST': 'h'}, 'http', 'h'),
    ({'wsgi.url_scheme': None, 'X_FORWARDED_PROTO': 'https', 'HTTP_HOST': 'h'}, 'https', 'h'),
    ({'wsgi.url_scheme': '', 'HTTP_X_FORWARDED_PROTO': '', 'HTTP_HOST': 'h'}, None, None),
    ({'wsgi.url_scheme': 'http', 'HTTP_HOST': None}, None, None),
    ({'wsgi.url_scheme': 'http', 'HTTP_HOST': ''}, None, None),
    ({'wsgi.url_scheme': 'http', 'HTTP_HOST': 'a"><x/>&b;'}, 'http', 'a"><x/>&b;'),
    ({'wsgi.url_scheme': 'http', 'HTTP_HOST': '$scheme'}, 'http', '$scheme'),
]
TEXTS = [(), ('$$', 'a$'), ('$host', '${scheme}', '${host}'), ('$', '$1', '${}', '\u20ac$x')]


def addresses(ch):
    version = ch.choose('version', [11, 12])
    template = ch.choose('location', TEMPLATES)
    texts = ch.choose('texts', TEXTS)
    custom = ch.choose('document', ['generated', 'given', 'given in utf-16'])
    kw = {}
    if custom != 'generated':
        service = make(version, location=template, texts=texts).service
        kw['wsdl'] = etree.tostring(py2wsdl.generate_wsdl(service), encoding='utf-16' if 'utf-16' in custom else 'utf-8', xml_declaration=True)
    d = make(version, location=template, texts=texts, **kw)
    for env, scheme, host in SOURCES:
        for query in ('wsdl', 'singleWsdl'):
            ch.step()
            what = lambda: f'{version} {template} {texts} {custom} {env}'
            root = ok(ch, get(d, query, **env), what)
            found = [e.get('location') for e in root.iter(f'{{{SOAP11 if version == 11 else SOAP12}}}address')]
            if scheme is None:
                if custom == 'generated':
                    ch.note('no host')
                continue
            values = {'scheme': scheme, 'host': host}
            want = re.sub(r'\$\{(scheme|host)\}|\$(scheme|host)', lambda m: values[m[1] or m[2]], template)
            ch.check(found == [want] or '$$' in template and found == [want.replace('$$', '$')], lambda: f'{what()}\naddress {found}, expected {want}')
            values = [e.get('value') for e in root.iter(f'{{{XS}}}enumeration')]
            ch.check(values == list(texts), lambda: f'{what()}\nthe WSDL says {values} for {texts}')
            ch.note('located')
    if custom == 'generated' and texts:
        for location in ('in.xsd', 'sub/deep.xsd'):
            root = ok(ch, get(d, f'xsd={location}'), lambda: f'{location}')
            values = [e.get('value') for e in root.iter(f'{{{XS}}}enumeration')]
            ch.check(values == list(texts), lambda: f'{location} says {values} for {texts}')
    ch.state((version, template, texts, custom))


REQUESTS = [('POST', None, 5), ('POST', 'wsdl', 7), ('POST', 'xsd=in.xsd', 13), ('POST', None, 'x'), ('GET', 'wsdl', None), ('GET', 'xsd=in.xsd', None),
            ('GET', 'xsd=none', None), ('GET', '', None), ('PUT', 'wsdl', None)]


def hooks(ch):
    """Each kind of request runs exactly its own hooks; what they return is used."""
    version = ch.choose('version', [11, 12])
    subset = [h for h in HOOKS if ch.choose(h, [True, False])]
    behaviour = ch.choose('behaviour', ['same', 'replace', 'wrong', 'change in place'])
    log = []
    from soapfish.middlewares import ExceptionToSoapFault

    def make_hook(name):
        def hook(dispatcher, **kw):
            log.append((name, dispatcher, sorted(kw), kw.get('request'), kw.get('response')))
            request, response = kw['request'], kw.get('response')
            if behaviour == 'wrong':
                return 'nonsense'
            if behaviour == 'same':
                return kw[name.split('-')[1]]
            if name.endswith('request'):
                new = request if behaviour == 'change in place' else SOAPRequest(dict(request.environ), request.http_content)
                new.environ['HTTP_HOST'] = 'replaced'
                if name.startswith('xsd'):
                    new.environ['QUERY_STRING'] = 'xsd=sub/deep.xsd'
                if name.startswith('soap'):
                    new.http_content = message(version, 40)
                new.mine = True
                return new
            if behaviour == 'change in place':
                response.http_status_code, response.http_content = 299, b'replaced'
                return response
            return SOAPResponse('x', http_content=b'replaced', http_status_code=299, http_headers={'X': 'y'})
        return hook

    d = make(version, hooks={h: make_hook(h) for h in subset}, middlewares=[ExceptionToSoapFault()])
    for method, query, n in REQUESTS:
        kind = kind_of(method, query)
        name = {'in': 'xsd', 'missing': 'xsd'}.get(kind, kind)
        before, after = f'{name}-request' in subset, f'{name}-response' in subset
        body = b'' if n is None else message(version, n)
        env = environ(method, 'http://h/p' if query is None else f'http://h/p?{query}', {}, body)
        request = SOAPRequest(env, body)
        del log[:], d.calls[:]
        what = lambda: f'{version} {method} ?{query} {n}, hooks {subset} ({behaviour})'
        ch.step()
        try:
            r, raised = d.dispatch(request), None
        except TypeError as e:
            r, raised = None, e
        want = [h for h, b in ((f'{name}-request', before), (f'{name}-response', after)) if b] if kind != 'bad' else []
        if behaviour == 'wrong':
            ch.check([x[0] for x in log] == want[:1] and (raised is not None) == bool(want), lambda: f'{what()}\nhooks {log}, raised {raised!r}')
            ch.note('refused')
            continue
        ch.check(raised is None, lambda: f'{what()}\nraised {raised!r}')
        ch.check([x[0] for x in log] == want, lambda: f'{what()}\nran {[x[0] for x in log]}, expected {want}')
        for x in log:
            ch.check(x[1] is d and x[2] == (['request'] if x[0].endswith('request') else ['request', 'response']), lambda: f'{what()}\narguments {x}')
            if x[0].endswith('request'):
                ch.check(x[3] is request, lambda: f'{what()}\nanother request')
            elif before and behaviour == 'replace':
                ch.check(getattr(x[3], 'mine', False) and x[3] is not request, lambda: f'{what()}\nthe response hook did not get the replaced request')
            else:
                ch.check(x[3] is request, lambda: f'{what()}\nanother request')
        if want and after and behaviour != 'same':
            ch.check((r.http_status_code, r.http_content) == (299, b'replaced') and (behaviour == 'change in place' or r.http_headers == {'X': 'y'}),
                     lambda: f'{what()}\nthe response of the hook is not used: {r.http_status_code}')
            ch.check(not after or kind == 'bad' or isinstance(log[-1][4], SOAPResponse), what)
            if kind == 'soap':
                ch.check(d.calls == ([40] if before else [n] if n != 'x' else []), lambda: f'{what()}\ncalls {d.calls}')
            continue
        changed = before and behaviour != 'same'
        if kind == 'soap':
            got = answer(version, r)
            m = 40 if changed else n
            ch.check(d.calls == ([m] if m != 'x' else []), lambda: f'{what()}\ncalls {d.calls}')
            ch.check(got[0] == ('fault' if m in ('x', 13) else 'result') and (got[0] == 'fault' or got[1][0].text == str(m + 1)), lambda: f'{what()}\n{got}')
        elif kind == 'wsdl':
            root = ok(ch, r, what)
            found = [e.get('location') for e in root.iter(f'{{{SOAP11 if version == 11 else SOAP12}}}address')]
            ch.check(found == [f'http://{"replaced" if changed else "h"}/p'], lambda: f'{what()}\naddress {found}')
        elif name == 'xsd':
            which = 'deep' if changed else kind
            if which == 'missing':
                ch.check(r.http_status_code == 404, what)
            else:
                ch.check(declared(ok(ch, r, what))[0] == f'urn:{which}', what)
        else:
            ch.check(r.http_status_code == 400 and not log, what)
        ch.note('used')
    ch.state((version, subset, behaviour))


def given(ch):
    """Documents given to the dispatcher are served; unknown hook names are refused."""
    version = ch.choose('version', [11, 12])
    what = ch.choose('case', ['wsdl', 'xsds', 'hook names'])
    ch.step()
    if what == 'wsdl':
        d = make(version, wsdl=b'<w a="1"/>')
        ch.check(etree.tostring(etree.fromstring(get(d, 'wsdl').http_content)) == b'<w a="1"/>', 'another WSDL')
    elif what == 'xsds':
        d = make(version, xsds={'mine': b'<x/>', 'xsd': b'<default/>'})
        for query, content in (('xsd=mine', b'<x/>'), ('xsd', b'<default/>'), ('xsd=', b'<default/>')):
            ch.check(get(d, query).http_content == content, f'?{query}')
        ch.check(get(d, 'xsd=in.xsd').http_status_code == 404, 'not among the given schemas')
    else:
        for name in HOOKS + ['soap', 'request', 'soap-', 'SOAP-request', 'xml-request', 'request-soap']:
            try:
                make(version, hooks={name: lambda **kw: kw})
                good = True
            except KeyError:
                good = False
            ch.check(good == (name in HOOKS), f'hook {name}: accepted {good}')
    ch.note(what)
    ch.state((version, what))


def harnesses(tier):
    full = tier == 'thorough'
    return [Harness('graphs', graph, {'most': 6, 'sets': LOCATIONS, 'size': 5 if full else 4}, split=3, budget=2),
            Harness('few schemas, all locations', graph, {'most': 2, 'sets': LOCATIONS, 'size': 3}, split=3, budget=1),
            Harness('many schemas', large, split=4, timeout=120),
            Harness('queries', queries, split=2), Harness('addresses', addresses, split=3), Harness('hooks', hooks, split=4), Harness('given', given, split=2)]
