"""Simulated addresses: a collected object's address is used again at once.

Only objects registered when they are created have such an address, so that
no two objects alive at the same time ever share one."""
import weakref

_free = []
_next = [1 << 20]
_by_real = {}                           # id -> (weak reference, address)
reused = [0]


def register(obj):
    """Give a new object its address."""
    if _free:
        a = _free.pop()
        reused[0] += 1
    else:
        _next[0] += 64
        a = _next[0]
    real = id(obj)

    def gone(ref):
        ent = _by_real.get(real)
        if ent is not None and ent[0] is ref:
            del _by_real[real]
        _free.append(a)

    _by_real[real] = (weakref.ref(obj, gone), a)
    return obj


def sim_id(obj):
    ent = _by_real.get(id(obj))
    if ent is not None and ent[0]() is obj:
        return ent[1]
    return id(obj)


def sim_hash(obj):
    if type(obj).__hash__ is object.__hash__:
        ent = _by_real.get(id(obj))
        if ent is not None and ent[0]() is obj:
            return ent[1] >> 4
    return hash(obj)


def watch(cls):
    """Register every instance of cls from now on."""
    def __new__(c, *args, **kwargs):
        return register(object.__new__(c))
    if cls.__new__ is object.__new__:
        cls.__new__ = staticmethod(__new__)
    return cls
