"""Thread scheduler seam: real threads, one runs at a time, switches decided by the plan.

LINE events of library code are the scheduling points.  A thread keeps the baton until it ends, blocks on a
(cooperative) lock, or reaches one of its planned preemptions: hit number h of library line l.
"""
import _thread
import os
import sys
import threading

from .engine import REPO

MON = sys.monitoring
TOOL = 4
LIB = os.path.join(os.path.realpath(REPO), 'galgebra') + os.sep
CURRENT = None          # the running Scheduler, if any


MUTATORS = ('append', 'extend', 'insert', 'pop', 'update', 'setdefault', 'add', 'remove', 'clear')


def writer_lines():
    """library lines that store into something other than a local variable (and the lines right after them):
    the places where a preemption is most likely to matter"""
    import dis
    import glob
    out = set()

    def walk(code, base):
        line, hot, prev = None, False, None
        for ins in dis.get_instructions(code):
            ln = ins.positions.lineno if ins.positions else None
            if ln is not None and ln != line:
                if hot:
                    out.add('%s:%d' % (base, ln))
                line, hot = ln, False
            # x.table.append(...) and the like
            call = ins.opname in ('LOAD_ATTR', 'LOAD_METHOD') and ins.argval in MUTATORS and prev in ('LOAD_ATTR', 'LOAD_GLOBAL')
            prev = ins.opname
            if (call or ins.opname in ('STORE_ATTR', 'STORE_GLOBAL', 'STORE_SUBSCR', 'DELETE_SUBSCR', 'DELETE_ATTR')) and line:
                out.add('%s:%d' % (base, line))
                hot = True
        for c in code.co_consts:
            if hasattr(c, 'co_code'):
                walk(c, base)
    for f in glob.glob(LIB + '**/*.py', recursive=True):
        try:
            with open(f) as h:
                walk(compile(h.read(), f, 'exec'), os.path.basename(f))
        except SyntaxError:
            pass
    return out


class Deadlock(Exception):
    pass


class Stop(BaseException):
    pass


class Scheduler:
    def __init__(self, bodies, preempts=(), budget=3_000_000):
        self.bodies = bodies
        self.n = len(bodies)
        self.budget = budget
        self.pre = {}                                  # (thread, loc, hit) -> next thread
        for t, loc, hit, to in preempts:
            self.pre[(t, loc, hit)] = to
        self.locs = {(t, loc) for t, loc, _, _ in preempts}
        self.sem = [_thread.allocate_lock() for _ in bodies]
        for s in self.sem:
            s.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.ident = {}
        self.done = [False] * self.n
        self.blocked = [None] * self.n
        self.counts = [{} for _ in bodies]
        self.events = 0
        self.switches = []
        self.errors = []
        self.stop = None
        self.cur = None

    # -- monitoring
    def _py_start(self, code, off):
        if code.co_filename.startswith(LIB):
            MON.set_local_events(TOOL, code, MON.events.LINE)
        return MON.DISABLE

    def _line(self, code, line):
        t = self.ident.get(_thread.get_ident())
        if t is None or t != self.cur:
            return
        self.events += 1
        if self.events > self.budget:
            self.stop = 'budget'
        if self.stop:
            raise Stop(self.stop)
        loc = '%s:%d' % (os.path.basename(code.co_filename), line)
        c = self.counts[t]
        n = c.get(loc, 0)
        c[loc] = n + 1
        if (t, loc) in self.locs:
            to = self.pre.get((t, loc, n))
            if to is not None:
                self.yield_to(t, to, loc)

    # -- baton
    def runnable(self):
        return [t for t in range(self.n) if not self.done[t] and self.blocked[t] is None]

    def yield_to(self, t, to, why):
        r = [x for x in self.runnable() if x != t]
        if not r:
            return
        nxt = to if to in r else r[to % len(r)]
        self.switches.append((t, nxt, why))
        self.cur = nxt
        self.sem[nxt].release()
        self.sem[t].acquire()
        self.cur = t

    def leave(self, t):
        """t cannot continue (finished or blocked)"""
        r = self.runnable()
        if r:
            nxt = min(r)
            self.switches.append((t, nxt, 'end' if self.done[t] else 'block'))
            self.cur = nxt
            self.sem[nxt].release()
        elif all(self.done):
            self.main.release()
        else:
            # everybody left is blocked: a deadlock of the program under test
            self.stop = 'deadlock: threads %s blocked' % [x for x in range(self.n) if not self.done[x]]
            nxt = [x for x in range(self.n) if not self.done[x]][0]
            self.blocked[nxt] = None
            self.cur = nxt
            self.sem[nxt].release()

    def block(self, lock):
        """called by a cooperative lock inside a simulated thread"""
        t = self.cur
        self.blocked[t] = lock
        self.leave(t)
        self.sem[t].acquire()
        self.cur = t
        self.blocked[t] = None
        if self.stop:
            raise Stop(self.stop)

    def wake(self, lock):
        for t in range(self.n):
            if self.blocked[t] is lock:
                self.blocked[t] = None

    def _thread_main(self, t):
        self.ident[_thread.get_ident()] = t
        self.sem[t].acquire()
        self.cur = t
        try:
            if not self.stop:
                self.bodies[t]()
        except Stop:
            pass
        except BaseException as e:        # noqa
            self.errors.append((t, repr(e)))
        self.done[t] = True
        self.leave(t)

    def run(self):
        global CURRENT
        CURRENT = self
        old = threading.stack_size(256 * 1024 * 1024)
        sys.setrecursionlimit(3000)
        for t in range(self.n):
            _thread.start_new_thread(self._thread_main, (t,))
        threading.stack_size(old)
        MON.use_tool_id(TOOL, 'dst-sched')
        MON.register_callback(TOOL, MON.events.PY_START, self._py_start)
        MON.register_callback(TOOL, MON.events.LINE, self._line)
        MON.set_events(TOOL, MON.events.PY_START)
        MON.restart_events()
        try:
            self.cur = 0
            self.sem[0].release()
            self.main.acquire()
        finally:
            MON.set_events(TOOL, 0)
            MON.free_tool_id(TOOL)
            CURRENT = None


class CoopLock:
    """threading.Lock / RLock of the library under the simulator"""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        while self.owner is not None:
            s = CURRENT
            if not blocking:
                return False
            if s is None or s.ident.get(me) is None:
                raise Deadlock('lock acquired twice by the only thread')
            s.block(self)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            if CURRENT is not None:
                CURRENT.wake(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True
