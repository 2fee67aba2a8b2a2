"""Runtime side of the instrumentation.

Every function body of the package under test calls into here between any two
of its reads, writes and calls.  With no hook installed these calls do nothing.
"""
_hook = None
# Scheduling points at which no error is injected: see instrument.
SHIELDED = set()
# Those in functions that change what outlives the call, as far as one can see.
STATEFUL = set()


def y(site):
    h = _hook
    if h is not None:
        h(site)


def v(value, site):
    h = _hook
    if h is not None:
        h(site)
    return value


def set_hook(h):
    global _hook
    _hook = h
