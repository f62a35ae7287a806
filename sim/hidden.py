"""State the library keeps between calls: only used to guide schedules.

A read-only operation that stores something on a shared object, in a module,
on a class or on a function may be perfectly fine (a cache), but the lines
around that store are where threads can disturb each other.  Whether they do
is decided by the results alone.
"""
import sys
import types

import numpy as np

from .boot import LocalTensors, mp

CONTAINERS = (dict, list, set)
PLAIN = (types.FunctionType, types.ModuleType, type, property, staticmethod,
         classmethod, types.BuiltinFunctionType)


def leaf(v, out):
    out.append(v)
    if isinstance(v, np.ndarray) and v.size <= 4096 and v.dtype.kind != 'O':
        out.append(hash(v.tobytes()))


def expand(v, out):
    if not isinstance(v, CONTAINERS):
        return leaf(v, out)
    out.append(v)
    if isinstance(v, dict):
        out.append(len(v))
        if len(v) <= 16:
            for x in list(v.values()):
                leaf(x, out)
    elif isinstance(v, list):
        out.append(len(v))
        if len(v) <= 16:
            for x in list(v):
                leaf(x, out)
    elif isinstance(v, set):
        out.append(len(v))


def of_object(o):
    """Attributes of an object."""
    return {k: v for k, v in o.__dict__.items()
            if not isinstance(v, LocalTensors)}


def of_namespace(ns):
    """Globals of a module or attributes of a class."""
    return {k: v for k, v in list(ns.items())
            if not k.startswith('__') and not isinstance(v, PLAIN)}


def of_function(f):
    """What a function keeps: mutable defaults, attributes, closure."""
    out = {}
    for i, v in enumerate(f.__defaults__ or ()):
        out['default', i] = v
    out.update(f.__kwdefaults__ or {})
    out.update(f.__dict__)
    for i, c in enumerate(f.__closure__ or ()):
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if isinstance(v, CONTAINERS):
            out['cell', i] = v
    return out


def sig(v):
    out = []
    expand(v, out)
    return out


_static = None


def static_roots():
    """Roots that exist once per process: modules, classes and functions."""
    global _static
    if _static is None:
        _static = {}
        for name in sorted(sys.modules):
            mod = sys.modules[name]
            if mod is None or not (name + '.').startswith('mpnum.'):
                continue
            _static['mod', name] = (of_namespace, mod.__dict__)
            spaces = [(name, mod.__dict__)]
            for k, v in sorted(mod.__dict__.items()):
                if isinstance(v, type) and v.__module__ == name:
                    _static['cls', name, k] = (of_namespace, v.__dict__)
                    spaces.append((name + '.' + k, v.__dict__))
            for where, ns in spaces:
                for k, v in sorted(ns.items()):
                    v = getattr(v, '__func__', v)
                    v = getattr(v, 'fget', v)
                    if isinstance(v, types.FunctionType) \
                            and v.__module__ == name:
                        _static['fn', where, k] = (of_function, v)
    return _static


def roots(shared):
    out = dict(static_roots())
    for k, v in shared.items():
        objs = [(k, v)]
        if hasattr(v, 'mpps'):
            objs += [(k, i, m) for i, m in enumerate(v.mpps)]
        for o in objs:
            out[('sh',) + o[:-1]] = (of_object, o[-1])
            lt = getattr(o[-1], '_lt', None)
            if lt is not None and hasattr(lt, '__dict__'):
                out[('lt',) + o[:-1]] = (of_object, lt)
    return out


def snapshot(rts):
    out = {}
    for k, (of, x) in rts.items():
        for name, v in of(x).items():
            out[k, name] = sig(v)
    return out


def equal(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is not y and not (isinstance(x, int) and isinstance(y, int)
                               and x == y):
            return False
    return True


def changed(before, after):
    """The (root, name) pairs that are new or hold something else."""
    return [k for k in after if k not in before
            or not equal(before[k], after[k])]


class Watch(object):
    """Tells whether one of the given names changed since the last call."""

    def __init__(self, shared, keys):
        rts = roots(shared)
        self.names = [(rts[k], name) for k, name in keys if k in rts]
        self.last = self.now()

    def now(self):
        return [sig(of(x).get(name) if of is of_function
                    else (x if of is of_namespace else x.__dict__).get(name))
                for (of, x), name in self.names]

    def __call__(self):
        now = self.now()
        if all(map(equal, self.last, now)):
            return False
        self.last = now
        return True


class Spy(object):
    """Tells whether the last operation stored anything between calls: in
    the library's modules, classes and functions or as attributes of the
    given arrays (apart from their tensors)."""

    def __init__(self):
        self.static = snapshot(static_roots())
        self.objs = {}

    def __call__(self, objs):
        now = snapshot(static_roots())
        hit = bool(changed(self.static, now))
        self.static = now
        new = {}
        for k, o in objs.items():
            lt = getattr(o, '_lt', None)
            new[k] = {n: sig(v) for n, v in of_object(o).items()}
            new[k]['lt'] = [len(getattr(lt, '__dict__', ()))]
            if k in self.objs and changed(self.objs[k], new[k]):
                hit = True
        self.objs = new
        return hit
