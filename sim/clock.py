"""The virtual wall clock (see clockshim.c)."""
import ctypes
import os

_lib = None


def _shim():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['SIM_SHIM'])
        _lib.simclk_set.argtypes = [ctypes.c_int64, ctypes.c_int64]
        _lib.simclk_push_step.argtypes = [ctypes.c_int64]
        _lib.simclk_get.restype = ctypes.c_int64
        _lib.simclk_nreads.restype = ctypes.c_int64
    return _lib


def set(ns, tick_ns=0, steps=()):
    lib = _shim()
    lib.simclk_set(ns, tick_ns)
    for s in steps:
        lib.simclk_push_step(s)


def off():
    _shim().simclk_off()


def now():
    return _shim().simclk_get()


def reads():
    return _shim().simclk_nreads()


def check():
    """The seam must be real: the interpreter's clock reads the virtual one."""
    import time
    import datetime
    t = 1700000000123456789
    set(t)
    ok = time.time_ns() == t and \
        datetime.datetime.utcnow().year == 2023 and reads() >= 2
    off()
    return ok
