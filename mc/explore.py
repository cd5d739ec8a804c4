"""
Explorers: every execution of a harness within stated bounds.

A harness is a function harness(ch, **params).  All its nondeterminism goes through ch.choose()/ch.dev(), so one
execution is identified by the list of the indexes chosen.  explore() runs the harness again and again, replaying a
prefix of choices and then taking option 0, until every leaf of the choice tree has been executed (stateless search).
bfs() does explicit-state search: a state is reached by a history of operations, histories that lead to equal canonical
states are merged.
"""
import array
import collections
import hashlib
import multiprocessing
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold on this execution."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class Prune(Exception):
    """This execution is outside the scope of the property (counted, not checked)."""


class Cut(Exception):
    pass


class Timeout(BaseException):
    pass


class Divergence(Exception):
    pass


def digest(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


class Stats:
    def __init__(self):
        self.executions = self.transitions = self.pruned = 0
        self.states = set()
        self.outcomes = collections.Counter()
        self.samples = []
        self.violations = []
        self.capped = False
        self.depth = 0

    def merge(self, other):
        self.executions += other.executions
        self.transitions += other.transitions
        self.pruned += other.pruned
        self.states |= other.states
        self.outcomes.update(other.outcomes)
        self.samples += other.samples[:2]
        self.violations += other.violations
        self.capped = self.capped or other.capped
        self.depth = max(self.depth, other.depth)


class Chooser:
    def __init__(self, prefix=(), expected=(), budget=None, stats=None, cut=None):
        self.prefix = prefix      # indexes to replay
        self.expected = expected  # (label, number of options) met by the execution the prefix comes from
        self.points = []          # (label, number of options, index chosen, repr of the option)
        self.budget = budget
        self.spent = 0
        self.stats = stats or Stats()
        self.cut = cut
        self.outcome = None

    def _pick(self, label, n):
        i = len(self.points)
        if i < len(self.prefix):
            index = self.prefix[i]
            if index >= n or (i < len(self.expected) and tuple(self.expected[i]) != (label, n)):
                raise Divergence(f'choice {i} is {label}/{n}, expected {self.expected[i:i + 1]} index {index}')
        else:
            index = 0
        return index

    def choose(self, label, options):
        """Return one of the options; all of them are tried."""
        n = len(options)
        if n == 1:
            return options[0]
        index = self._pick(label, n)
        self.points.append((label, n, index, options[index]))
        if self.cut is not None and len(self.points) >= self.cut:
            raise Cut()
        return options[index]

    def dev(self, label, options, cost=1):
        """Like choose(), but every option except the first one counts against the bound on deviations."""
        if self.budget is not None and self.spent + cost > self.budget:
            return options[0]
        n = len(options)
        if n == 1:
            return options[0]
        index = self._pick(label, n)
        if index:
            self.spent += cost
        self.points.append((label, n, index, options[index]))
        if self.cut is not None and len(self.points) >= self.cut:
            raise Cut()
        return options[index]

    def step(self, n=1):
        """Count operations executed on the implementation."""
        self.stats.transitions += n

    def state(self, obj):
        """Count a distinct (canonical) state or observation."""
        self.stats.states.add(digest(obj))

    def note(self, outcome):
        """Record the kind of outcome seen, to show that the exploration is not vacuous."""
        self.stats.outcomes[outcome] += 1

    def fail(self, message, key=None):
        raise Violation(message, key)

    def check(self, condition, message, key=None):
        if not condition:
            raise Violation(message() if callable(message) else message, key)

    def skip(self):
        raise Prune()

    def path(self):
        return [p[2] for p in self.points]

    def trace(self):
        return [[p[0], short(p[3])] for p in self.points]


def short(obj, limit=160):
    try:
        s = obj if isinstance(obj, str) else repr(obj)
    except Exception as e:
        s = f'<{e.__class__.__name__}>'
    return s if len(s) <= limit else s[:limit - 3] + '...'


def _alarm(signum, frame):
    raise Timeout()


def execute(harness, params, ch, timeout):
    """Run one execution; return None or a Violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        harness(ch, **params)
        return None
    except (Cut, Prune, Divergence):
        raise
    except Violation as e:
        return e
    except Timeout:
        return Violation(f'no answer within {timeout} s', 'timeout')
    except RecursionError as e:
        return Violation(f'RecursionError: {e}', 'recursion')
    except MemoryError:
        return Violation('out of memory', 'memory')
    except Exception as e:
        return Violation('unexpected exception: ' + ''.join(traceback.format_exception(e)[-4:]).strip(),
                         'exception:' + e.__class__.__name__)
    finally:
        signal.alarm(0)


class Harness:
    def __init__(self, name, fn, params=None, split=1, budget=None, timeout=60, tiers=('quick', 'thorough'),
                 max_violations=3):
        self.name, self.fn, self.params = name, fn, params or {}
        self.split, self.budget, self.timeout, self.tiers = split, budget, timeout, tiers
        self.max_violations = max_violations


def _search(h, prefix, stats, deadline, known=()):
    """All executions below the prefix (depth first)."""
    base = len(prefix)
    prefix, expected = list(prefix), []
    unlisted = 0
    while True:
        ch = Chooser(prefix, expected, h.budget, stats)
        try:
            v = execute(h.fn, h.params, ch, h.timeout)
        except Prune:
            stats.pruned += 1
            v = None
        else:
            stats.executions += 1
            stats.depth = max(stats.depth, len(ch.points))
            if len(stats.samples) < 2 and (stats.executions in (1, 7)):
                stats.samples.append({'harness': h.name, 'choices': ch.trace()})
        if v is not None:
            record = {'harness': h.name, 'path': ch.path(), 'choices': ch.trace(), 'message': v.message, 'key': v.key}
            if len(stats.violations) < 200:
                stats.violations.append(record)
            if v.key not in known:
                unlisted += 1
                if unlisted >= h.max_violations:
                    return
        if time.time() > deadline:
            stats.capped = True
            return
        points = ch.points
        i = len(points) - 1
        while i >= base and points[i][2] + 1 >= points[i][1]:
            i -= 1
        if i < base:
            return
        prefix = [p[2] for p in points[:i]] + [points[i][2] + 1]
        expected = [(p[0], p[1]) for p in points[:i + 1]]


def _prefixes(h):
    """Prefixes of length h.split that partition the choice tree."""
    result, prefix = [], []
    while True:
        ch = Chooser(prefix, (), h.budget, Stats(), cut=h.split)
        try:
            execute(h.fn, h.params, ch, h.timeout)
        except (Cut, Prune):
            pass
        result.append(ch.path())
        points = ch.points
        i = len(points) - 1
        while i >= 0 and points[i][2] + 1 >= points[i][1]:
            i -= 1
        if i < 0:
            return result
        prefix = [p[2] for p in points[:i]] + [points[i][2] + 1]


_CONTEXT = {}


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _task(args):
    index, prefix, deadline, known = args
    stats = Stats()
    try:
        _search(_CONTEXT['harnesses'][index], prefix, stats, deadline, known)
    except Divergence as e:
        stats.violations.append({'harness': _CONTEXT['harnesses'][index].name, 'path': list(prefix), 'choices': [],
                                 'message': f'the same choices did not lead to the same execution: {e}',
                                 'key': 'divergence'})
    states, stats.states = stats.states, set()
    return index, pickle.dumps(stats), array.array('Q', states).tobytes()


def _split(args):
    index = args
    return index, _prefixes(_CONTEXT['harnesses'][index])


def explore(harnesses, deadline, known=(), workers=None, progress=None):
    """Execute every harness exhaustively; return {name: Stats}."""
    workers = workers or int(os.environ.get('MC_WORKERS', '0')) or os.cpu_count()
    results = {h.name: Stats() for h in harnesses}
    assert len(results) == len(harnesses), 'harness names must be unique'
    _CONTEXT['harnesses'] = harnesses
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(workers, _limits) as pool:
        tasks = []
        for index, prefixes in pool.imap_unordered(_split, range(len(harnesses))):
            tasks += [(index, p, deadline, known) for p in prefixes]
        # The order of the tasks must not matter for the result; short ones last.
        tasks.sort(key=lambda t: (t[0], t[1]))
        if 'MC_SHUFFLE' in os.environ:  # for experiments with a short deadline
            random.Random(1).shuffle(tasks)
        chunk = max(1, min(4, len(tasks) // (workers * 16)))
        for index, blob, states in pool.imap_unordered(_task, tasks, chunk):
            stats = pickle.loads(blob)
            a = array.array('Q')
            a.frombytes(states)
            stats.states = set(a)
            h = harnesses[index]
            results[h.name].merge(stats)
            if sum(1 for v in results[h.name].violations if v['key'] not in known) >= h.max_violations:
                for h in harnesses:
                    results[h.name].capped = True
                pool.terminate()
                break
    return results


# --- Explicit-state search ---------------------------------------------------

class Search:
    """
    Explicit-state search in lockstep with a reference model.

    ops: the alphabet (a list).  run(history) executes the whole history on fresh objects of the implementation and on
    the reference model, checks agreement in every state (raises Violation) and returns a canonical form of the final
    state, or None if the last operation is not enabled.  Histories with equal canonical form are merged.
    """

    def __init__(self, name, run, ops, depth, timeout=60, tiers=('quick', 'thorough'), max_violations=3):
        self.name, self.run, self.ops, self.depth = name, run, ops, depth
        self.timeout, self.tiers, self.max_violations = timeout, tiers, max_violations


def _expand(args):
    index, histories = args
    s = _CONTEXT['searches'][index]
    out, violations, transitions = [], [], 0
    for history in histories:
        for i in range(len(s.ops)):
            new = history + (i,)
            result = []
            v = execute(lambda ch: result.append(s.run([s.ops[k] for k in new])), {}, Chooser(), s.timeout)
            transitions += 1
            if v is not None:
                violations.append({'harness': s.name, 'path': list(new), 'message': v.message, 'key': v.key,
                                   'choices': [['op', short(s.ops[k])] for k in new]})
                if len(violations) > 50:
                    return out, violations, transitions
            elif result[0] is not None:
                out.append((digest(result[0]), new))
    return out, violations, transitions


def bfs(searches, deadline, known=(), workers=None):
    workers = workers or int(os.environ.get('MC_WORKERS', '0')) or os.cpu_count()
    results = {}
    _CONTEXT['searches'] = searches
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(workers, _limits) as pool:
        for index, s in enumerate(searches):
            stats = results[s.name] = Stats()
            frontier, seen = [()], set()
            for depth in range(1, s.depth + 1):
                if time.time() > deadline:
                    stats.capped = True
                    break
                size = max(1, min(200, len(frontier) // (workers * 4)))
                chunks = [(index, frontier[i:i + size]) for i in range(0, len(frontier), size)]
                new = []
                for out, violations, transitions in pool.imap(_expand, chunks):
                    stats.transitions += transitions
                    stats.executions += transitions
                    stats.violations += violations
                    for key, history in out:
                        if key not in seen:
                            seen.add(key)
                            new.append(history)
                    if sum(1 for v in violations if v['key'] not in known) >= s.max_violations:
                        break
                stats.depth = depth
                stats.outcomes[f'new states at depth {depth}'] = len(new)
                if any(v['key'] not in known for v in stats.violations):
                    stats.capped = True
                    break
                frontier = new
                if not frontier:
                    stats.outcomes['fixpoint'] = depth
                    break
            stats.states = seen
            if frontier:
                stats.samples.append({'harness': s.name, 'choices': [['op', short(s.ops[k])] for k in frontier[-1]]})
    return results
