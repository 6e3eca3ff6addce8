"""Fault seam: exceptions injected at calls that leave the library.

sys.monitoring reports every start of a Python function.  A start whose caller is library code and whose
callee is not (sympy, the standard library) is a fault point: an interrupt, exhausted memory or exhausted
recursion depth can surface there in a real deployment.  `survey` lists the fault points one operation passes
(in a nested fork, so nothing is changed); `Injector` raises at one of them.
"""
import os
import sys

from .engine import REPO, fork_call

MON = sys.monitoring
TOOL = 3
LIB = os.path.join(os.path.realpath(REPO), 'galgebra') + os.sep
# cleanup run by the interpreter on behalf of a with statement is not a place a program can protect
SKIP = ('contextlib.py',)
EXC = {'KI': KeyboardInterrupt, 'ME': MemoryError, 'RE': RecursionError}


def _is_lib(fn):
    return fn.startswith(LIB)


def _loc(code, frame):
    c = frame.f_code
    return '%s:%s:%d>%s' % (os.path.basename(c.co_filename), c.co_name, frame.f_lineno, code.co_name)


class Injector:
    """context manager: counts fault points, raises `exc` at hit number `hit` of location `loc`"""
    def __init__(self, loc=None, hit=0, exc=None):
        self.loc, self.hit, self.exc = loc, hit, exc
        self.counts = {}
        self.fired = False

    def _start(self, code, off):
        fn = code.co_filename
        if _is_lib(fn):
            return MON.DISABLE
        f = sys._getframe(1).f_back
        if f is None or not _is_lib(f.f_code.co_filename) or fn.endswith(SKIP) or '/verif/' in fn:
            return
        k = _loc(code, f)
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        if k == self.loc and n == self.hit and not self.fired:
            self.fired = True
            raise EXC[self.exc]('injected')

    def __enter__(self):
        MON.use_tool_id(TOOL, 'dst')
        MON.register_callback(TOOL, MON.events.PY_START, self._start)
        MON.set_events(TOOL, MON.events.PY_START)
        MON.restart_events()
        return self

    def __exit__(self, *a):
        MON.set_events(TOOL, 0)
        MON.register_callback(TOOL, MON.events.PY_START, None)
        MON.free_tool_id(TOOL)


def _survey(fn):
    with Injector() as j:
        try:
            fn()
        except BaseException:
            pass
    return j.counts


def survey(fn):
    return fork_call(_survey, fn)


def choose(counts, p):
    """fault point for the plan's fractions; None if the operation has no fault point"""
    locs = sorted(counts)
    if not locs:
        return None
    loc = locs[min(len(locs) - 1, int(p['loc'] * len(locs)))]
    n = counts[loc]
    return loc, min(n - 1, int(p['hit'] * n))
