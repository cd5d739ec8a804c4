"""The alphabet of SOAP messages for the kit service, and an independent reading of them."""
from lxml import etree

from . import kit
from .soapkit import ENVELOPES

OK = '<k:ping><k:num>5</k:num></k:ping>'
WSA = 'http://www.w3.org/2005/08/addressing'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'

PROLOGS = {
    'none': '', 'declaration': '<?xml version="1.0" encoding="utf-8"?>', 'declaration utf-16': '<?xml version="1.0" encoding="utf-16"?>',
    'latin-1': '<?xml version="1.0" encoding="iso-8859-1"?>', 'unknown encoding': '<?xml version="1.0" encoding="x-none"?>',
    'comment': '<!-- c -->', 'instruction': '<?p i?>', 'blank': ' \n', 'declaration after blank': ' <?xml version="1.0"?>',
    'text': 'x', 'bom': '\ufeff',
}
BODIES = {
    'ping': OK,
    'full': '<k:ping at="a&lt;"><k:num> 7 </k:num><k:text>b&amp;&lt;"\u20ac</k:text><k:item>x</k:item><k:item/>'
            '<k:when>2020-02-29T23:59:59.5+05:30</k:when></k:ping>',
    'nil': f'<k:ping xmlns:i="{XSI}"><k:num>0</k:num><k:when i:nil="true"/></k:ping>',
    'other': '<k:other><k:num>100</k:num></k:other>',
    'default prefix': '<ping xmlns="urn:k"><num>5</num></ping>',
    'comments': '<!-- a --><k:ping><!-- b --><k:num><!-- c -->5<!-- d --></k:num><?p i?></k:ping><!-- e -->',
    'cdata': '<k:ping><k:num><![CDATA[5]]></k:num><k:text><![CDATA[<&]]></k:text></k:ping>',
    'instruction first': '<?p i?>' + OK,
    'blank around': f'\n  {OK}\n',
    'text around': f'x{OK}y',
    'no entry': '', 'only comment': '<!-- c -->', 'only text': 'hello', 'only blank': '  ',
    'too big': '<k:ping><k:num>101</k:num></k:ping>', 'negative': '<k:ping><k:num>-1</k:num></k:ping>',
    'no number': '<k:ping><k:num>x</k:num></k:ping>', 'empty number': '<k:ping><k:num/></k:ping>',
    'missing': '<k:ping><k:text>a</k:text></k:ping>', 'empty': '<k:ping/>',
    'swapped': '<k:ping><k:text>a</k:text><k:num>5</k:num></k:ping>',
    'repeated': '<k:ping><k:num>5</k:num><k:num>5</k:num></k:ping>',
    'too many': '<k:ping><k:num>5</k:num>' + '<k:item>x</k:item>' * 4 + '</k:ping>',
    'surplus': '<k:ping><k:num>5</k:num><k:more>x</k:more></k:ping>',
    'surplus attribute': '<k:ping bad="x"><k:num>5</k:num></k:ping>',
    'text inside': '<k:ping>x<k:num>5</k:num></k:ping>',
    'unqualified child': '<k:ping><num>5</num></k:ping>',
    'nil number': f'<k:ping xmlns:i="{XSI}"><k:num i:nil="true"/></k:ping>',
    'wrong date': '<k:ping><k:num>5</k:num><k:when>2020-02-30T00:00:00</k:when></k:ping>',
    'date out of range': '<k:ping><k:num>5</k:num><k:when>12020-02-03T00:00:00</k:when></k:ping>',
    'unknown': '<k:unknown/>', 'no namespace': '<ping><num>5</num></ping>', 'other namespace': '<x:ping xmlns:x="urn:o"><x:num>5</x:num></x:ping>',
    'result': '<k:pong><k:num>5</k:num></k:pong>', 'header element': '<k:note>x</k:note>',
    'type attribute': f'<k:ping xmlns:i="{XSI}" i:type="k:Pong"><k:num>5</k:num></k:ping>',
    'two': OK + OK, 'two kinds': OK + '<k:other><k:num>1</k:num></k:other>', 'valid then invalid': OK + '<k:other/>',
    'fault': '<e:Fault/>', 'full fault': '<e:Fault><faultcode>a</faultcode><faultstring>b</faultstring></e:Fault>',
    'envelope': None,
    'cut': '<k:ping><k:num>5</k:num>', 'undeclared prefix': '<z:ping/>', 'entity': '<k:ping><k:num>&five;</k:num></k:ping>',
    'control character': '<k:ping><k:num>5</k:num><k:text>\x01</k:text></k:ping>',
    'reference to control character': '<k:ping><k:num>5</k:num><k:text>&#1;</k:text></k:ping>',
}
HEADERS = {
    'absent': None, 'empty': '', 'blank': ' \n', 'comment': '<!-- c -->', 'text': 'x',
    'note': '<k:note>hello</k:note>', 'info': '<k:info><k:who>me</k:who><k:level>3</k:level></k:info>',
    'both': '<k:note>n</k:note><k:info><k:who>me</k:who></k:info>', 'count': '<k:count>7</k:count>',
    'comment and note': '<!-- c --><k:note>n</k:note>',
    'must understand': '<k:note e:mustUnderstand="1">n</k:note>',
    'invalid count': '<k:count>101</k:count>', 'invalid info': '<k:info><k:level>3</k:level></k:info>',
    'info without content': '<k:info/>', 'valid and invalid': '<k:note>n</k:note><k:count>x</k:count>',
    'unknown': '<u:thing xmlns:u="urn:u">x</u:thing>', 'unknown and note': '<u:thing xmlns:u="urn:u"/><k:note>n</k:note>',
    'no namespace': '<thing/>', 'undeclared in namespace': '<k:thing/>',
}
SHAPES = ['usual', 'default prefix', 'other version', 'no namespace', 'unknown namespace', 'other name', 'other body name', 'no body',
          'body first', 'element after body', 'element before body', 'attributes', 'two bodies', 'nested', 'body in no namespace',
          'nil header', 'nil body', 'text in envelope', 'comments in envelope', 'header in no namespace', 'two headers', 'only body',
          'encoding style']


def message(version, shape='usual', header='absent', body='ping', prolog='none'):
    head, text = HEADERS[header], BODIES[body]
    if body == 'envelope':
        text = kit.envelope(version, OK)
    kw = {}
    nil = f' xmlns:xsi="{XSI}" xsi:nil="true"'
    ns = ENVELOPES[version]
    if shape == 'default prefix':
        out = kit.envelope(version, text, head, prefix='').replace('e:', '')
        if 'xmlns="urn:k"' not in text:
            out = out.replace('<ping>', '<ping xmlns="">')
    elif shape == 'other version':
        out = kit.envelope(23 - version, text, head)
    elif shape == 'no namespace':
        out = kit.envelope(version, text, head, prefix='', ns='').replace('e:Fault', 'Fault').replace('e:must', 'must')
    elif shape == 'unknown namespace':
        out = kit.envelope(version, text, head, ns='urn:unknown')
    elif shape == 'other name':
        out = kit.envelope(version, text, head, name='Envelop')
    elif shape == 'other body name':
        out = kit.envelope(version, text, head, body_name='body')
    elif shape == 'no body':
        out = kit.envelope(version, None, head)
    elif shape == 'body first':
        out = kit.envelope(version, text, None, extra='' if head is None else f'<e:Header>{head}</e:Header>')
    elif shape == 'element after body':
        out = kit.envelope(version, text, head, extra='<k:note>x</k:note>')
    elif shape == 'element before body':
        out = kit.envelope(version, None, head, extra=f'<k:note>x</k:note><e:Body>{text}</e:Body>')
    elif shape == 'attributes':
        out = kit.envelope(version, text, head, attrs=' k:a="b"')
    elif shape == 'two bodies':
        out = kit.envelope(version, text, head, extra=f'<e:Body>{text}</e:Body>')
    elif shape == 'nested':
        out = f'<w xmlns:e="{ns}">{kit.envelope(version, text, head)}</w>'
    elif shape == 'body in no namespace':
        out = kit.envelope(version, None, head, extra=f'<Body>{text}</Body>')
    elif shape == 'header in no namespace':
        out = kit.envelope(version, None, None, extra=f'<Header>{head or ""}</Header><e:Body>{text}</e:Body>')
    elif shape == 'nil header':
        out = kit.envelope(version, text, None).replace('<e:Body>', f'<e:Header{nil}/><e:Body>', 1)
    elif shape == 'nil body':
        out = kit.envelope(version, None, head, extra=f'<e:Body{nil}/>')
    elif shape == 'text in envelope':
        out = kit.envelope(version, text, head, extra='text')
    elif shape == 'comments in envelope':
        out = kit.envelope(version, text, head, extra='<!-- c --><?p i?>').replace('<e:Body>', '<!-- a --><?p i?><e:Body>', 1)
    elif shape == 'two headers':
        h = f'<e:Header>{head or ""}</e:Header>'
        out = kit.envelope(version, None, None, extra=f'{h}{h}<e:Body>{text}</e:Body>')
    elif shape == 'only body':
        out = f'<e:Body xmlns:e="{ns}" xmlns:k="urn:k">{text}</e:Body>'
    elif shape == 'encoding style':
        out = kit.envelope(version, text, head, attrs=f' e:encodingStyle="{ns}"')
    else:
        out = kit.envelope(version, text, head, **kw)
    out = PROLOGS[prolog] + out
    encoding = {'declaration utf-16': 'utf-16', 'latin-1': 'iso-8859-1'}.get(prolog, 'utf-8')
    return out.encode(encoding, 'xmlcharrefreplace')


class Reader:
    """Independent reading of a message: what must happen to it."""

    def __init__(self, version, form='qualified', xsd=None, strict=True):
        self.version, self.strict, self.form = version, strict, form
        self.schema = etree.XMLSchema(etree.fromstring(xsd or kit.XSD % form))

    def valid(self, e):
        return self.schema.validate(etree.fromstring(etree.tostring(e, with_tail=False)))

    def read(self, data):
        """
        (verdict, why, body entry, header entries): verdict is 'client' (a client fault), 'valid', or 'open' (not specified).
        """
        ns = f'{{{ENVELOPES[self.version]}}}'
        try:
            root = etree.fromstring(data, etree.XMLParser(resolve_entities=False, no_network=True))
        except (etree.XMLSyntaxError, ValueError) as e:
            return 'client', f'malformed: {e}', None, []
        if root.getroottree().docinfo.doctype:
            return 'open', 'document type', None, []
        if root.tag != ns + 'Envelope':
            return 'client', 'no envelope', None, []
        children = list(root.iterchildren(etree.Element))
        bodies = [e for e in children if e.tag == ns + 'Body']
        if not bodies:
            return 'client', 'no body', None, []
        tags = [e.tag for e in children]
        if tags not in ([ns + 'Body'], [ns + 'Header', ns + 'Body']):
            return 'open', 'unusual envelope', None, []
        entries = list(bodies[0].iterchildren(etree.Element))
        if not entries:
            return 'client', 'no body entry', None, []
        if bodies[0].get(f'{{{XSI}}}nil') or children[0].get(f'{{{XSI}}}nil'):
            return 'open', 'nil envelope', None, []
        if len(entries) > 1:
            return ('open' if self.valid(entries[0]) else 'client'), 'several body entries', None, []
        heads = list(children[0].iterchildren(etree.Element)) if len(children) == 2 else []
        for h in heads:
            if h.tag.startswith(f'{{{WSA}}}'):
                return 'open', 'addressing', None, []
            if not self.valid(h) and self.strict:
                return 'client', 'invalid header entry', entries[0], heads
        if not self.valid(entries[0]):
            return 'client', 'invalid body entry', entries[0], heads
        return 'valid', '', entries[0], heads
