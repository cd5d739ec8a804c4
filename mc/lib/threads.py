"""
A controlled scheduler for real threads.

Exactly one of the threads runs at a time.  Every line of the traced code (the library, and code the harness names) is a
scheduling point; a schedule is a list of segments (thread, number of points to run), after which the remaining threads
run to their end one after the other.  The same schedule on equal objects gives the same execution.
"""
import gc
import sys
import threading
import types

_RealLock, _RealRLock = threading.Lock, threading.RLock
TOOL = 3
_active = None  # the scheduler that controls the threads of this process, if any


class Lock:
    """A lock that lets the scheduler run another thread instead of blocking the process."""

    def __init__(self, reentrant=False):
        self.reentrant, self.owner, self.depth = reentrant, None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if _active is None or not _active.blocked(self):
                raise RuntimeError('deadlock')
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *args):
        self.release()


def install(prefix):
    """Locks made by modules with the prefix are controlled (call this before these modules are imported)."""
    def factory(real, reentrant):
        def make():
            name = sys._getframe(1).f_globals.get('__name__', '')
            return Lock(reentrant) if name == prefix or name.startswith(prefix + '.') else real()
        return make
    threading.Lock, threading.RLock = factory(_RealLock, False), factory(_RealRLock, True)


class Scheduler:
    def __init__(self, bodies, schedule, traced, opcodes=None, watch=None):
        """
        bodies: a function per thread.  traced(code) says whether the lines of a code object are scheduling points.
        opcodes: {(filename, line)} in which every instruction is a point too.  watch(): called at every point.
        """
        self.bodies, self.schedule, self.traced = bodies, list(schedule), traced
        self.opcodes, self.watch = opcodes or (), watch
        self.semaphores = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * len(bodies)
        self.waits = [None] * len(bodies)
        self.results = [None] * len(bodies)
        self.finished = threading.Semaphore(0)
        self.current, self.left, self.switches = None, None, 0
        self.points = [[] for _ in bodies] if watch is not None else None
        self.cache, self.lines = {}, {}

    # --- monitoring
    def _code(self, code):
        traced = self.cache.get(code)
        if traced is None:
            traced = self.cache[code] = bool(self.traced(code))
        return traced

    def _line(self, code, line):
        if not self._code(code):
            return sys.monitoring.DISABLE
        if self.current is not None:
            self._point(code, line)

    def _instruction(self, code, offset):
        if not self._code(code):
            return sys.monitoring.DISABLE
        line = self.lines.get((code, offset))
        if line is None:
            line = 0
            for start, end, n in code.co_lines():
                if start <= offset < end:
                    line = n
            self.lines[code, offset] = line
        if (code.co_filename, line) not in self.opcodes:
            return sys.monitoring.DISABLE
        if self.current is not None:
            self._point(code, line)

    def _point(self, code, line):
        me = self.current
        if self.watch is not None:
            self.points[me].append((code.co_filename, code.co_name, line, self.watch()))
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                self._switch(me)

    # --- switching
    def _next(self):
        """Choose the next thread: the next segment of the schedule, or the first thread that can run."""
        while self.schedule:
            tid, count = self.schedule.pop(0)
            if not self.done[tid] and self._can(tid):
                return tid, count
        for tid, done in enumerate(self.done):
            if not done and self._can(tid):
                return tid, None
        return None, None

    def _can(self, tid):
        lock = self.waits[tid]
        return lock is None or lock.owner is None

    def _switch(self, me):
        tid, count = self._next()
        if tid is None:
            if me is not None and not self.done[me]:
                return False
            self.finished.release()
            return True
        self.current, self.left = tid, count
        if tid == me:
            return True
        self.switches += 1
        self.semaphores[tid].release()
        if me is not None and not self.done[me]:
            self.semaphores[me].acquire()
        return True

    def blocked(self, lock):
        me = self.current
        self.waits[me] = lock
        good = self._switch(me)
        self.waits[me] = None
        return good

    def _thread(self, tid):
        self.semaphores[tid].acquire()
        try:
            self.results[tid] = 'returned', self.bodies[tid]()
        except BaseException as e:
            self.results[tid] = 'raised', f'{type(e).__name__}: {e}'
        self.done[tid] = True
        self._switch(tid)

    def run(self):
        global _active
        _active = self
        threads = [threading.Thread(target=self._thread, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in threads:
            t.start()
        m = sys.monitoring
        m.use_tool_id(TOOL, 'mc')
        m.register_callback(TOOL, m.events.LINE, self._line)
        m.register_callback(TOOL, m.events.INSTRUCTION, self._instruction)
        m.set_events(TOOL, m.events.LINE | (m.events.INSTRUCTION if self.opcodes else 0))
        try:
            self._switch(None)
            self.finished.acquire()
        finally:
            m.set_events(TOOL, 0)
            m.free_tool_id(TOOL)
            _active = None
        for t in threads:
            t.join()
        return self.results


# --- what is shared -----------------------------------------------------------

ATOMS = (str, bytes, int, float, complex, bool, type(None), types.ModuleType, types.CodeType, types.BuiltinFunctionType, types.FrameType,
         types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType, types.MethodDescriptorType)


def shared(roots, prefix):
    """The mutable containers that can be reached from the roots and the modules with the prefix."""
    foreign = {id(vars(m)) for n, m in list(sys.modules.items()) if isinstance(m, types.ModuleType) and not (n == prefix or n.startswith(prefix + '.'))}
    todo = list(roots) + [vars(m) for n, m in list(sys.modules.items()) if n == prefix or n.startswith(prefix + '.')]
    seen, out = set(), []
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, ATOMS) or id(o) in foreign:
            continue
        seen.add(id(o))
        if getattr(type(o), 'MC_SKIP', False) or (type(o).__module__ or '').split('.')[0] in FOREIGN:
            continue
        if isinstance(o, type):
            if o.__module__ in ('builtins', 'abc', 'typing'):
                continue
            todo.extend(type.__subclasses__(o) if str(o.__module__).startswith(prefix) else ())
        elif hasattr(o, '__dict__') and not isinstance(o, types.FunctionType):
            d = vars(o)  # attributes kept inline have no dictionary of their own before
            if id(d) not in seen:
                seen.add(id(d))
                out.append(d)
                todo.extend(d.values())
        if isinstance(o, (dict, list, set)):
            out.append(o)
        todo.extend(gc.get_referents(o))
    return out


FOREIGN = {'logging', 'threading', '_thread', 'jinja2', 'requests', 'urllib3', 'typing', '_frozen_importlib', '_frozen_importlib_external', 'lxml'}


def fingerprint(containers):
    def one(c):
        if isinstance(c, dict):
            return tuple(map(id, c.values()))
        if isinstance(c, list):
            return tuple(map(id, c))
        return frozenset(map(id, c))
    return [one(c) for c in containers]
