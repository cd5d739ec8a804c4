"""WSDL documents written from descriptions of services (independent of soapfish)."""
from xml.sax.saxutils import quoteattr

from .soapkit import HTTP, SOAP11, SOAP12, WSDL, XS


class Op:
    """An operation: elements are 'name' (in schema 0) or ('name', schema index); headers are lists of (part, element)."""

    def __init__(self, name, action, input, output, in_header=(), out_header=(), style=None, part='element'):
        self.name, self.action, self.input, self.output = name, action, input, output
        self.in_header, self.out_header, self.style, self.part = list(in_header), list(out_header), style, part


class Port:
    def __init__(self, name, version, location, ops, transport=HTTP):
        self.name, self.version, self.location, self.ops, self.transport = name, version, location, ops, transport


ORDERS = {
    'usual': ['types', 'messages', 'portTypes', 'bindings', 'services'],
    'reversed': ['services', 'bindings', 'portTypes', 'messages', 'types'],
}


ARRANGEMENTS = ['as declared', 'bindings reversed', 'port types reversed', 'messages reversed',
                'port type operations reversed', 'service per port', 'spare header parts', 'one header message', 'spare definitions']


def wsdl(ports, schemas, namespaces, ns='urn:w', w='w', order='usual', docs=False, tns='tns', shared=False, extra='',
         arrangement='as declared'):
    """
    schemas: texts of xs:schema elements; namespaces: the namespace of every schema (prefix x0, x1, ...).

    shared: all ports are for the same port type; arrangement: see ARRANGEMENTS (they all mean the same).
    """
    c = f'{w}:' if w else ''
    doc = f'<{c}documentation>About <b xmlns="urn:other">this</b></{c}documentation>' if docs else ''
    soap = {11: 's11', 12: 's12'}
    t = f'{tns}:' if tns else ''

    def element(e):
        name, n = (e, 0) if isinstance(e, str) else e
        return f'x{n}:{name}'

    messages, port_types, bindings, services = {}, [], [], []
    for n, port in enumerate(ports):
        suffix = '' if shared or not n else str(n)
        port_type, binding = [], []
        for op in port.ops:
            sides, soaps = [], []
            for side, e, header in (('In', op.input, op.in_header), ('Out', op.output, op.out_header)):
                name = f'{op.name}{side}{suffix}'
                messages[name] = f'<{c}message name="{name}">{doc}<{c}part name="body" {op.part}="{element(e)}"/></{c}message>'
                sides.append(f'<{c}{side.lower()}put message="{t}{name}"/>')
                heads = ''
                if header:
                    parts, head = list(header), f'{name}Head'
                    if arrangement == 'spare header parts':
                        parts = [('spare', op.input), *reversed(parts), ('spare2', op.output)]
                    elif arrangement == 'one header message':
                        parts, head = [*op.out_header, *op.in_header], f'{op.name}Head{suffix}'
                    messages[head] = (f'<{c}message name="{head}">' + ''.join(
                        f'<{c}part name="{p}" element="{element(h if isinstance(h, tuple) else (h, getattr(h, "place", 0)))}"/>' for p, h in parts) + f'</{c}message>')
                    heads = ''.join(f'<{soap[port.version]}:header message="{t}{head}" part="{p}" use="literal"/>' for p, h in header)
                soaps.append(f'<{c}{side.lower()}put>{heads}<{soap[port.version]}:body use="literal"/></{c}{side.lower()}put>')
            port_type.append(f'<{c}operation name="{op.name}">{doc}{"".join(sides)}</{c}operation>')
            action = '' if op.action is None else f' soapAction={quoteattr(op.action)}'
            style = f' style="{op.style}"' if op.style else ''
            binding.append(f'<{c}operation name="{op.name}"><{soap[port.version]}:operation{action}{style}/>{"".join(soaps)}</{c}operation>')
        if arrangement == 'port type operations reversed':
            port_type.reverse()
        if not shared or not n:
            port_types.append(f'<{c}portType name="{ports[0].name if shared else port.name}PT">{doc}{"".join(port_type)}</{c}portType>')
        bindings.append(f'<{c}binding name="{port.name}B" type="{t}{ports[0].name if shared else port.name}PT">{doc}'
                        f'<{soap[port.version]}:binding style="document" transport="{port.transport}"/>{"".join(binding)}</{c}binding>')
        services.append(f'<{c}port name="{port.name}" binding="{t}{port.name}B"><{soap[port.version]}:address '
                        f'location={quoteattr(port.location)}/></{c}port>')
    messages = list(messages.values())
    if arrangement == 'messages reversed':
        messages.reverse()
    elif arrangement == 'port types reversed':
        port_types.reverse()
    elif arrangement == 'bindings reversed':
        bindings.reverse()
    elif arrangement == 'spare definitions':
        messages.insert(0, f'<{c}message name="Spare"><{c}part name="body" element="{element(ports[0].ops[0].input)}"/></{c}message>')
        port_types.insert(0, f'<{c}portType name="Spare"><{c}operation name="spare"><{c}input message="{t}Spare"/>'
                             f'<{c}output message="{t}Spare"/></{c}operation></{c}portType>')
        v = soap[ports[0].version]
        bindings.insert(0, f'<{c}binding name="Spare" type="{t}Spare"><{v}:binding style="document" transport="{HTTP}"/>'
                           f'<{c}operation name="spare"><{v}:operation soapAction="spare"/><{c}input><{v}:body use="literal"/></{c}input>'
                           f'<{c}output><{v}:body use="literal"/></{c}output></{c}operation></{c}binding>')
    if arrangement == 'service per port':
        services = [f'<{c}service name="S{i}">{doc}{x}</{c}service>' for i, x in enumerate(services)]
    else:
        services = [f'<{c}service name="Main">{doc}{"".join(services)}</{c}service>']
    sections = {
        'types': f'<{c}types>{"".join(schemas)}</{c}types>',
        'messages': ''.join(messages),
        'portTypes': ''.join(port_types),
        'bindings': ''.join(bindings),
        'services': ''.join(services),
    }
    xmlns = ' '.join(f'xmlns:x{i}={quoteattr(u)}' for i, u in enumerate(namespaces))
    xmlns += f' xmlns{":" + w if w else ""}="{WSDL}" xmlns{":" + tns if tns else ""}={quoteattr(ns)}'
    return (f'<{c}definitions xmlns:s11="{SOAP11}" xmlns:s12="{SOAP12}" xmlns:xs="{XS}" {xmlns} '
            f'targetNamespace={quoteattr(ns)}>{doc}{extra}{"".join(sections[s] for s in ORDERS[order])}</{c}definitions>')
