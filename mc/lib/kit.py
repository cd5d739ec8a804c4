"""A SOAP service built with the public API, with an independent (hand-written) XSD and an independent reader of messages."""
from lxml import etree

from .soapkit import CONTENT_TYPES, ENVELOPES, environ

NS = 'urn:k'
XSD = f'''<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:k="{NS}" targetNamespace="{NS}" elementFormDefault="%s">
<xs:simpleType name="Small"><xs:restriction base="xs:int"><xs:minInclusive value="0"/><xs:maxInclusive value="100"/></xs:restriction></xs:simpleType>
<xs:complexType name="Ping"><xs:sequence><xs:element name="num" type="k:Small"/><xs:element name="text" type="xs:string" minOccurs="0"/>
<xs:element name="item" type="xs:string" minOccurs="0" maxOccurs="3"/><xs:element name="when" type="xs:dateTime" minOccurs="0" nillable="true"/>
</xs:sequence><xs:attribute name="at" type="xs:string"/></xs:complexType>
<xs:complexType name="Pong"><xs:sequence><xs:element name="num" type="xs:int"/><xs:element name="text" type="xs:string" minOccurs="0"/></xs:sequence></xs:complexType>
<xs:complexType name="Special"><xs:complexContent><xs:extension base="k:Ping"><xs:sequence><xs:element name="more" type="xs:string" minOccurs="0"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>
<xs:complexType name="Info"><xs:sequence><xs:element name="who" type="xs:string"/><xs:element name="level" type="k:Small" minOccurs="0"/></xs:sequence></xs:complexType>
<xs:element name="ping" type="k:Ping"/><xs:element name="pong" type="k:Pong"/><xs:element name="other" type="k:Ping"/>
<xs:element name="special" type="k:Special" substitutionGroup="k:ping"/>
<xs:element name="note" type="xs:string"/><xs:element name="info" type="k:Info"/><xs:element name="count" type="k:Small"/></xs:schema>'''


class Kit:
    MC_SKIP = True  # what the kit records is not shared state of the library

    """methods(kit): the methods of the service; the handler is kit.handler(name, request, value)."""

    def __init__(self, version=11, form='qualified', headers=True, actions=True, **dispatcher):
        from soapfish import soap, xsd
        from soapfish.soap_dispatch import SOAPDispatcher

        class Small(xsd.Int):
            minInclusive = 0
            maxInclusive = 100

        class Ping(xsd.ComplexType):
            INDICATOR = xsd.Sequence
            num = xsd.Element(Small)
            text = xsd.Element(xsd.String, minOccurs=0)
            items = xsd.ListElement(xsd.String, tagname='item', minOccurs=0, maxOccurs=3)
            when = xsd.Element(xsd.DateTime, minOccurs=0, nillable=True)
            at = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)

        class Pong(xsd.ComplexType):
            INDICATOR = xsd.Sequence
            num = xsd.Element(xsd.Int)
            text = xsd.Element(xsd.String, minOccurs=0)

        class Special(Ping):
            INDICATOR = xsd.Sequence
            more = xsd.Element(xsd.String, minOccurs=0)

        class Info(xsd.ComplexType):
            INDICATOR = xsd.Sequence
            who = xsd.Element(xsd.String)
            level = xsd.Element(Small, minOccurs=0)

        class Head(xsd.ComplexType):
            note = xsd.Element(xsd.String, minOccurs=0, namespace=NS)
            info = xsd.Element(Info, minOccurs=0, namespace=NS)
            count = xsd.Element(Small, minOccurs=0, namespace=NS)

        self.Ping, self.Pong, self.Special, self.Info, self.Head = Ping, Pong, Special, Info, Head
        self.version, self.form = version, form
        self.NIL = xsd.NIL
        self.schema = xsd.Schema(
            NS, elementFormDefault=form, simpleTypes=[Small], complexTypes=[Ping, Pong, Info],
            elements={'ping': xsd.Element(Ping), 'pong': xsd.Element(Pong), 'other': xsd.Element(Ping),
                      'note': xsd.Element(xsd.String), 'info': xsd.Element(Info), 'count': xsd.Element(Small)})
        Head.SCHEMA = self.schema
        heads = {'input_header': Head, 'output_header': Head} if headers else {}
        self.handler = None
        self.calls = []

        def function(name):
            def f(request, value):
                self.calls.append((name, self.read(value), self.read_head(request.soap_header)))
                return self.handler(name, request, value)
            return f

        self.methods = [xsd.Method('doPing', 'urn:ping' if actions else '', input='ping', output='pong', function=function('doPing'), **heads),
                        xsd.Method('doOther', 'urn:other' if actions else '', input='other', output='pong', function=function('doOther'))]
        self.service = soap.Service(targetNamespace='urn:s', location='${scheme}://${host}/p', schemas=[self.schema],
                                    methods=self.methods, name='Kit',
                                    version=soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12)
        self.code = self.service.version.Code
        self.dispatcher = SOAPDispatcher(self.service, **dispatcher)

    def read(self, value):
        if isinstance(value, self.Ping):
            when = value.when
            return (value.num, value.text, list(value.items), 'nil' if when is self.NIL else when and when.isoformat(), value.at)
        if isinstance(value, self.Pong):
            return value.num, value.text
        return repr(value)

    def read_head(self, h):
        if h is None:
            return None
        if not isinstance(h, self.Head):
            return repr(h)
        return h.note, h.info and (h.info.who, h.info.level), h.count

    def post(self, body, action=None, content_type=None, headers=()):
        from soapfish.core import SOAPRequest
        headers = dict(headers)
        if self.version == 11:
            headers['Content-Type'] = content_type or 'text/xml'
            if action is not None:
                headers['SOAPAction'] = f'"{action}"'
        else:
            headers['Content-Type'] = content_type or CONTENT_TYPES[12] + (f'; action="{action}"' if action is not None else '')
        return self.dispatcher.dispatch(SOAPRequest(environ('POST', 'http://h/p', headers, body), body))


def envelope(version, body='', header=None, prefix='e', prolog='', extra='', attrs='', ns=None, name='Envelope', body_name='Body'):
    ns = ENVELOPES[version] if ns is None else ns
    p = f'{prefix}:' if prefix else ''
    decl = f' xmlns{":" + prefix if prefix else ""}="{ns}"' if ns else ''
    head = '' if header is None else f'<{p}Header>{header}</{p}Header>'
    inner = '' if body is None else f'<{p}{body_name}>{body}</{p}{body_name}>'
    return f'{prolog}<{p}{name}{decl} xmlns:k="{NS}"{attrs}>{head}{inner}{extra}</{p}{name}>'


def answer(version, response):
    """
    What a response says: ('result', element) or ('fault', code, message), with the header entries.

    Raises ValueError if it is no proper SOAP message.
    """
    ns = ENVELOPES[version]
    content = response.http_content
    if isinstance(content, str):
        content = content.encode()
    try:
        root = etree.fromstring(content)
    except (etree.XMLSyntaxError, ValueError, TypeError) as e:
        raise ValueError(f'the response is not well-formed: {e}') from e
    ct = response.http_headers.get('Content-Type', '')
    if ct.split(';')[0].strip() != CONTENT_TYPES[version]:
        raise ValueError(f'content type {ct}')
    if root.tag != f'{{{ns}}}Envelope':
        raise ValueError(f'the response is {root.tag}')
    tags = [e.tag for e in root.iterchildren(etree.Element)]
    if tags not in ([f'{{{ns}}}Body'], [f'{{{ns}}}Header', f'{{{ns}}}Body']):
        raise ValueError(f'the envelope holds {tags}')
    entries = list(root[-1].iterchildren(etree.Element))
    head = list(root[0].iterchildren(etree.Element)) if len(tags) == 2 else []
    if len(entries) != 1:
        raise ValueError(f'{len(entries)} body entries')
    e = entries[0]
    if e.tag != f'{{{ns}}}Fault':
        if response.http_status_code != 200:
            raise ValueError(f'a result with status {response.http_status_code}')
        return 'result', e, head
    if response.http_status_code != 500:
        raise ValueError(f'a fault with status {response.http_status_code}')
    if version == 11:
        code, text = e.findall('faultcode'), e.findall('faultstring')
    else:
        code, text = e.findall(f'{{{ns}}}Code/{{{ns}}}Value'), e.findall(f'{{{ns}}}Reason/{{{ns}}}Text')
    if len(code) != 1 or len(text) != 1:
        raise ValueError('the fault lacks code or text')
    return 'fault', code[0].text or '', text[0].text or '', head


def client_fault(version, got):
    return got[0] == 'fault' and got[1].split(':')[-1] == ('Client' if version == 11 else 'Sender')


def server_fault(version, got):
    return got[0] == 'fault' and got[1].split(':')[-1] == ('Server' if version == 11 else 'Receiver')
