"""C09: XSD to Python and back to XSD preserves the language of documents."""
from lxml import etree

from ..explore import Harness
from ..lib import xsdkinds as xk
from ..lib.models import BAD_TEXTS, mutations, tree
from ..lib.xsdtext import Module, Style, XsdText
from .c08 import Case, STYLES, instances, many
from soapfish import py2xsd, xsd2py

TECHNIQUE = ('bounded exhaustive exploration: all small XSDs of the subset x ways to write them x all their small instances and '
             'single mutations; the original and the twice translated XSD must agree on every document (libxml2)')
BOUNDS = {
    'quick': 'All XSDs of 1 declaration over 46 kinds with 2 deviations and of 2 declarations without deviation (in layout, form, '
             'prefixes, order, root type, explicit defaults, case of type names, types named like those of XML Schema); all instances over the value alphabets (one declaration '
             'varying at a time) and all single mutations of each (18 texts, drop, repeat, rename, requalify, swap, insert, nil).'
             ' XSDs of 4, 7 and 12 declarations: all rotations with three strides.',
    'thorough': 'As quick with 3 and 1 deviations.',
}
ASSUMPTIONS = ['libxml2 decides XSD validity correctly', 'attribute groups are left out (LIMITATIONS.md: not written to XSD)']

KINDS = [k for k in xk.XKINDS if k[0] != 'agroup']
TEXTS = BAD_TEXTS + ['a', 'b&<">', '0', '5', '100', '101', 'abcd']
FEW = ['', 'x', '-1', '101', '1.5', 'abcd']


def trip(ch, width, kinds=KINDS, widths=None):
    if widths:
        first, kinds = many(ch, kinds, widths)
    else:
        first = [ch.choose(f'kind {i}', KINDS) for i in range(width - 1)]
    how = ch.dev('layout', xk.LAYOUTS)
    form = ch.dev('form', ['qualified', 'unqualified', None])
    xs, tns = ch.dev('prefixes', STYLES)
    order = ch.dev('order', ['natural', 'reversed', 'elements first'])
    root = ch.dev('root', ['named', 'anonymous'])
    explicit = ch.dev('explicit', [False, True])
    case = ch.dev('case', ['upper', 'lower', 'built-in'])
    ns = ch.dev('namespace', ['urn:m', 'http://example.org/a?b=1&c=2', "urn:it's"])
    cases = [Case(how, first + [k], str(n)) for n, k in enumerate(kinds)]
    cases = [c for c in cases if c.possible]
    if not cases:
        ch.skip()
    style = Style(xs, tns, order, root, explicit, case)
    x = XsdText({c.element: c.model for c in cases}, ns=ns, form=form, style=style)
    before = etree.XMLSchema(etree.fromstring(x.text))
    ch.step(2)
    code = xsd2py.generate_code_from_xsd(x.text.encode())
    module = Module(code)
    with module:
        schemas = module.schemas()
        ch.check(len(schemas) == 1, lambda: f'{len(schemas)} schemas\n{x.text}')
        again = etree.tostring(py2xsd.generate_xsd(schemas[0]))
    try:
        tree2 = etree.fromstring(again)
        after = etree.XMLSchema(tree2)
    except etree.XMLSchemaParseError as e:
        ch.fail(f'the XSD is not valid after the trip: {e}\n{x.text}\n{again.decode()}')
    form = form or 'unqualified'
    ch.check(tree2.get('targetNamespace') == ns and (tree2.get('elementFormDefault') or 'unqualified') == form,
             lambda: f'{x.text}\n{again.decode()}')
    seen = set()

    def same(e, what, case, must=None):
        data = etree.tostring(e)
        if data in seen:
            return
        seen.add(data)
        ch.step()
        want, got = before.validate(e), after.validate(e)
        if must is not None and want is not must:
            raise AssertionError(f'the check wrote an invalid instance: {data} {before.error_log.last_error}')
        ch.check(want is got, lambda: f'{case.model!r}\n{what}: {data}\nis {"valid" if want else "invalid"} before and not after '
                 f'the trip\n{before.error_log.last_error}\n{after.error_log.last_error}\n'
                 f'{XsdText({case.element: case.model}, ns=ns, form=form, style=style).text}\n{again.decode()}')
        ch.note('valid' if want else 'invalid')

    for case in cases:
        for n, values in enumerate(instances(how, case.model, case.fields, case.alphabets, True)):
            ref = tree(case.model, values, f'{{{ns}}}{case.element}', ns, form)
            same(ref.etree(), 'instance', case)
            if width > 1 and how != 'flat' and n:
                continue
            for name, doc in mutations(ref, texts=TEXTS if width == 1 else FEW):
                same(doc.etree(), name, case)
        ch.state((repr(case.model), form, repr(style)))


def harnesses(tier):
    full = tier == 'thorough'
    return [Harness('single', trip, {'width': 1}, split=2, budget=3 if full else 2, timeout=300),
            Harness('builtins', trip, {'width': 1, 'kinds': xk.BUILTINS}, budget=2 if full else 1, timeout=300),
            Harness('wide', trip, {'width': 2, 'widths': [4, 7, 12]}, split=2, budget=1 if full else 0, timeout=300),
            Harness('pairs', trip, {'width': 2}, split=1, budget=1 if full else 0, timeout=600)]
