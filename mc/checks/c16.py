"""C16: each request is routed to the one operation it names."""
import itertools
from urllib.parse import quote, unquote

from lxml import etree

from ..explore import Harness
from ..lib.kit import answer, client_fault, envelope
from ..lib.soapkit import CONTENT_TYPES, environ
from soapfish import soap, xsd
from soapfish.core import SOAPRequest
from soapfish.soap_dispatch import SOAPDispatcher

TECHNIQUE = ('bounded exhaustive exploration of the real dispatcher: all small services x all action spellings x all body entries; the '
             'handler that runs is compared with a routing table computed from the service description')
BOUNDS = {
    'quick': 'Services of 1..3 operations with inputs out of 4 colliding names and actions out of 7 colliding ones (or none, or equal '
             'inputs), with and without members of substitution groups, in one schema, two schemas or an imported schema; each '
             'request of 12 action values x up to 7 spellings x 9 body entries, both versions; services of 4..11 operations; 21 odd actions x 36 '
             'alterations (escaping, case, parts, ...) that make another action, alone or of a second operation.',
    'thorough': 'As quick with up to 4 operations and three deviations.',
}
ASSUMPTIONS = ['actions are unique among the operations of a service', 'which data an operation gets when its action comes with the '
               'input of another operation is left open']

NAMES = ['do', 'doIt', 'Do', 'it']
ACTIONS = ['urn:x', 'urn:x/y', 'urn:X', 'x', 'do', 'http://h/a?b=c;d&e=f#g', 'urn:x y']
SPELL11 = ['quoted', 'plain']
SPELL12 = ['quoted', 'plain', 'charset first', 'charset last', 'no blank', 'name in upper case', 'type in upper case']


def spelled(version, spelling, action):
    """Headers that carry the action, None if it cannot be spelled like this."""
    if version == 11:
        return {'SOAPAction': f'"{action}"' if spelling == 'quoted' else action, 'Content-Type': 'text/xml; charset=utf-8'}
    if spelling == 'plain' and set(action) & set(' ;?=/#:'):
        return None  # must be quoted
    media = CONTENT_TYPES[12].upper() if spelling == 'type in upper case' else CONTENT_TYPES[12]
    return {'Content-Type': media + {
        'quoted': '; action="%s"', 'plain': '; action=%s', 'charset first': '; charset=utf-8; action="%s"',
        'charset last': '; action="%s"; charset=utf-8', 'no blank': ';action="%s"', 'name in upper case': '; ACTION="%s"',
        'type in upper case': '; action="%s"'}[spelling] % action}


def service(version, ops, groups, layout, form='qualified', more=()):
    """ops: [(input, action)]; groups: {member: head}; the service, the log of calls and {element: namespace}."""

    class Item(xsd.ComplexType):
        INDICATOR = xsd.Sequence
        v = xsd.Element(xsd.Int)

    class Other(xsd.ComplexType):
        INDICATOR = xsd.Sequence
        v = xsd.Element(xsd.Int)

    class Unused(xsd.ComplexType):
        INDICATOR = xsd.Sequence
        v = xsd.Element(xsd.Int)

    first = {n: xsd.Element(Item) for n in NAMES + ['spare', 'result', *more]}
    for member, (head, prefix) in groups.items():
        first[member] = xsd.Element(Item, substitutionGroup=prefix + head)
    spaces = {n: 'urn:a' for n in first}
    second = {'far': xsd.Element(Other), 'farther': xsd.Element(Other)}
    a = lambda **kw: xsd.Schema('urn:a', elementFormDefault=form, complexTypes=[Item], elements=first, **kw)
    b = lambda elements, **kw: xsd.Schema('urn:b', elementFormDefault=form, complexTypes=[Other], elements=elements, **kw)
    if layout == 'one':
        schemas = [a()]
    else:
        spaces.update({n: 'urn:b' for n in second})
        if layout == 'two':
            schemas = [a(), b(second)]
        elif layout == 'two, the other first':
            schemas = [b(second), a()]
        elif layout == 'import':
            schemas = [a(imports=[b(second, location='b.xsd')])]
        elif layout == 'two with equal names':
            schemas = [a(), b(dict(second, do=xsd.Element(Other), result=xsd.Element(Other)))]
    calls = []

    def function(i):
        def f(request, x):
            calls.append((i, x.v))
            return Item(v=x.v)
        return f

    methods = [xsd.Method(operationName=f'op{i}', soapAction=action, input=Item if name == 'class' else name, output='result', function=function(i))
               for i, (name, action) in enumerate(ops)]
    v = soap.SOAPVersion.SOAP11 if version == 11 else soap.SOAPVersion.SOAP12
    return SOAPDispatcher(soap.Service('urn:s', 'http://h/p', schemas, methods, version=v)), calls, spaces


def explore_service(ch, version, ops, groups, layout, form='qualified', more=()):
    dispatcher, calls, spaces = service(version, ops, groups, layout, form, more)
    what = f'{version} operations {ops} groups {groups} schemas: {layout}'
    bodies = [(n, s) for n, s in spaces.items() if n != 'result'] + [('nothing', 'urn:a'), ('do', 'urn:z'), ('do', '')]
    if layout == 'two with equal names':
        bodies.append(('do', 'urn:b'))
    own = [a for _, a in ops if a]
    requests = [(None, None)]
    for action in dict.fromkeys(own + ACTIONS + ['', 'urn', own[0][:-1] if own else 'q', own[0] + 'z' if own else 'q', own[-1].swapcase() if own else 'q']):
        requests += [(action, s) for s in (SPELL11 if version == 11 else SPELL12)]
    for action, spelling in requests:
        headers = {'Content-Type': CONTENT_TYPES[version]} if action is None else spelled(version, spelling, action)
        if headers is None:
            continue
        for name, space in bodies if spelling in (None, 'quoted') or action in own[:1] else bodies[:2]:
            p = 'q:' if form == 'qualified' else ''
            entry = f'<q:{name} xmlns:q="{space}"><{p}v>7</{p}v></q:{name}>' if space else f'<{name}><v>7</v></{name}>'
            data = envelope(version, entry).encode()
            del calls[:]
            ch.step()
            response = dispatcher.dispatch(SOAPRequest(environ('POST', 'http://h/p', headers, data), data))
            try:
                got = answer(version, response)
            except ValueError as e:
                ch.fail(f'{what}\n{headers} {entry}: {e}')
            shown = lambda: f'{what}\nheaders {headers}\nbody {entry}\nanswer {got[:3]} calls {calls}'
            valid = spaces.get(name) == space or layout == 'two with equal names' and (name, space) == ('do', 'urn:b')
            if action:
                want = [i for i, (_, a) in enumerate(ops) if a == action]
            else:
                head = groups.get(name, (None,))[0] if space == 'urn:a' else None
                want = [i for i, (n, _) in enumerate(ops) if n == name and space == spaces.get(n)] or \
                    [i for i, (n, _) in enumerate(ops) if n == head and space == 'urn:a']
            if not valid or not want:
                ch.check(not calls and client_fault(version, got), lambda: f'{shown()}\nexpected a client fault')
                ch.note('refused')
                continue
            want = want[0]
            if action and name != ops[want][0] and groups.get(name, (None,))[0] != ops[want][0] and ops[want][0] != 'class':
                ch.check(all(c[0] == want for c in calls) and (calls or client_fault(version, got)), lambda: f'{shown()}\nexpected operation {want}')
                ch.note('foreign input')
                continue
            ch.check(calls == [(want, 7)] and got[0] == 'result', lambda: f'{shown()}\nexpected operation {want}')
            ch.check(got[1].tag == '{urn:a}result', lambda: f'{shown()}\nanswered by {got[1].tag}')
            ch.note('routed by ' + ('action' if action else 'body' if name == ops[want][0] else 'substitution'))
    ch.state((version, ops, groups, layout, form))


GROUPS = [{}, {'member': ('do', '')}, {'member': ('do', 'sns:'), 'Member': ('Do', 'sns:')}, {'member': ('it', ''), 'doItToo': ('doIt', '')},
          # Members that are the input of an operation of their own.
          {'doIt': ('do', 'sns:')}, {'do': ('doIt', ''), 'member': ('it', 'sns:')}]


def small(ch, most):
    version = ch.choose('version', [11, 12])
    n = ch.choose('operations', range(1, most + 1))
    names, actions = [], []
    for i in range(n):
        names.append(ch.dev(f'input {i}', [NAMES[i]] + [x for x in NAMES if x != NAMES[i]] + ['class']))
        actions.append(ch.dev(f'action {i}', [ACTIONS[i]] + [x for x in ACTIONS if x != ACTIONS[i]] + ['']))
    used = [a for a in actions if a]
    if len(set(used)) < len(used) or any(x == 'class' and not a for x, a in zip(names, actions)):
        ch.skip()
    if len({x for x in names}) < len(names) and any(names.count(x) > 1 and not a for x, a in zip(names, actions)):
        ch.skip()  # two operations of equal input, one without action
    groups = ch.dev('substitution groups', GROUPS)
    layout = ch.dev('schemas', ['one', 'two', 'two, the other first', 'import', 'two with equal names'])
    form = ch.dev('form', ['qualified', 'unqualified'])
    ops = list(zip(names, actions))
    if len(set(names)) < len(names):
        # Requests without action are ambiguous, only the first operation may answer them.
        ch.note('equal inputs')
    explore_service(ch, version, ops, groups, layout, form)


def far(ch):
    """Operations whose input is in a second or imported schema."""
    version = ch.choose('version', [11, 12])
    layout = ch.choose('schemas', ['two', 'two, the other first', 'import', 'two with equal names'])
    ops = ch.choose('operations', [list(zip(names, actions)) for names in itertools.permutations(['far', 'farther', 'do', 'doIt'], 2)
                                   for actions in [('urn:x', 'urn:x/y'), ('', ''), ('urn:x', ''), ('', 'x')]])
    groups = ch.choose('substitution groups', [GROUPS[i] for i in (0, 2, 4, 5)])
    form = ch.choose('form', ['qualified', 'unqualified'])
    explore_service(ch, version, ops, groups, layout, form)


def many(ch, most):
    """Services of many operations, of which some have an action."""
    version = ch.choose('version', [11, 12])
    n = ch.choose('operations', range(4, most + 1))
    order = ch.choose('names', ['up', 'down', 'padded'])
    number = {'up': lambda i: f'{i}', 'down': lambda i: f'{n - i}', 'padded': lambda i: f'{i:02}'}[order]
    with_action = ch.choose('actions', ['all', 'none', 'even', 'last', 'all but first'])
    names = [f'op{number(i)}' for i in range(n)]
    has = {'all': lambda i: True, 'none': lambda i: False, 'even': lambda i: i % 2 == 0, 'last': lambda i: i == n - 1, 'all but first': lambda i: i}[with_action]
    ops = [(name, f'urn:{number(i)}' if has(i) else '') for i, name in enumerate(names)]
    groups = ch.choose('substitution groups', [{}, {f'member{i}': (name, 'sns:') for i, name in enumerate(names)}])
    layout = ch.choose('schemas', ['one', 'two, the other first'])
    explore_service(ch, version, ops, groups, layout, more=names)


ODD = ['urn:x y', 'urn:x%20y', 'http://h/a?b=c;d&e=f#g', 'http://h/a?b=c&amp;d', 'http://h:80/a/', 'http://h//a/./b/../c', 'urn:a+b', "urn:o'x", 'urn:\xe9', 'urn:(x),[y]{z}', '#do',
       'do', 'urn:a:do', 'urn:a#do', 'urn:a/do', '{urn:a}do', 'http://h/do.asmx', '.', '0', 'None', 'urn:' + 'x' * 300]
ALTER = {
    'escaped': lambda a: quote(a, safe='/:'), 'unescaped': unquote, 'fully escaped': lambda a: quote(a, safe=''), 'plus': lambda a: a.replace(' ', '+'), 'unplus': lambda a: a.replace('+', ' '),
    'markup': lambda a: a.replace('&', '&amp;'), 'no markup': lambda a: a.replace('&amp;', '&'), 'in quotes': lambda a: f"'{a}'", 'in brackets': lambda a: f'<{a}>',
    'no fragment': lambda a: a.split('#')[0], 'fragment': lambda a: a.split('#')[-1], 'no query': lambda a: a.split('?')[0], 'last step': lambda a: a.rstrip('/').split('/')[-1],
    'last part': lambda a: a.split(':')[-1], 'slash': lambda a: a + '/', 'no slash': lambda a: a.rstrip('/'), 'normal path': lambda a: a.replace('//', '/').replace('/./', '/'),
    'upper': str.upper, 'lower': str.lower, 'capitalised': str.capitalize, 'first': lambda a: a[:1], 'without first': lambda a: a[1:], 'without last': lambda a: a[:-1],
    'twice': lambda a: a + a, 'and another': lambda a: a + ', urn:other', 'default port': lambda a: a.replace(':80/', '/'), 'https': lambda a: a.replace('http:', 'https:'),
    'cut': lambda a: a[:255], 'ascii': lambda a: a.replace('\xe9', 'e'), 'request': lambda a: a + 'Request', 'any': lambda a: '*', 'pattern': lambda a: '.' * len(a),
    'no period': lambda a: a.replace('.', ''), 'backslash': lambda a: a.replace('/', '|'), 'with input': lambda a: a + '/do', 'with hash and input': lambda a: a + '#do',
}


def altered(ch):
    """Actions that some would take for the same: each is its own."""
    version = ch.choose('version', [11, 12])
    action = ch.choose('action', ODD)
    other = ALTER[ch.choose('altered', list(ALTER))](action)
    both = ch.choose('operations', ['first', 'both', 'both, reversed'])
    form = ch.dev('form', ['qualified', 'unqualified'])
    if other == action or not other:
        ch.skip()
    ops = [('do', action)] + ([('doIt', other)] if both != 'first' else [])
    if both == 'both, reversed':
        ops.reverse()
    dispatcher, calls, _ = service(version, ops, {}, 'one', form)
    p = 'q:' if form == 'qualified' else ''
    for sent in (action, other):
        for spelling in (SPELL11 if version == 11 else SPELL12):
            headers = spelled(version, spelling, sent)
            if headers is None or (version == 12 and spelling == 'plain' and set(sent) & set('(),[]{}<>@"\\\'%')):
                continue
            for name in ('do', 'doIt'):
                data = envelope(version, f'<q:{name} xmlns:q="urn:a"><{p}v>7</{p}v></q:{name}>').encode()
                del calls[:]
                ch.step()
                got = answer(version, dispatcher.dispatch(SOAPRequest(environ('POST', 'http://h/p', headers, data), data)))
                want = [i for i, (_, a) in enumerate(ops) if a == sent]
                shown = lambda: f'{version} operations {ops}\nheaders {headers} body {name}\nanswer {got[:3]} calls {calls}'
                if want:
                    ch.check(calls == [(want[0], 7)] and got[0] == 'result' or name != ops[want[0]][0] and not calls and client_fault(version, got),
                             lambda: f'{shown()}\nexpected operation {want}')
                    ch.note('routed')
                else:
                    ch.check(not calls and client_fault(version, got), lambda: f'{shown()}\nexpected a client fault')
                    ch.note('refused')
    ch.state((version, ops, form))


def harnesses(tier):
    full = tier == 'thorough'
    return [Harness('services', small, {'most': 4 if full else 3}, split=3, budget=3 if full else 2, timeout=120),
            Harness('far inputs', far, split=2), Harness('altered actions', altered, split=3),
            Harness('many', many, {'most': 16 if full else 11}, split=4, timeout=120)]
