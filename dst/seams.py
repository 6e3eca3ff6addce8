"""Seams installed before the library is imported."""
import os
import sys
import threading

from .engine import REPO

LIB = os.path.join(os.path.realpath(REPO), 'galgebra') + os.sep


def before_import():
    """locks created by library code become cooperative ones, scheduled by the simulator"""
    from . import sched
    real = {'Lock': threading.Lock, 'RLock': threading.RLock}
    coop = {'Lock': sched.CoopLock, 'RLock': sched.CoopRLock}

    def make(name):
        def factory():
            fn = sys._getframe(1).f_code.co_filename
            return coop[name]() if fn.startswith(LIB) else real[name]()
        factory.__name__ = name
        return factory
    for k in real:
        setattr(threading, k, make(k))
