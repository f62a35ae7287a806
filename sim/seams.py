"""Seams between mpnum and the outside world that the simulator owns.

``install()`` runs before mpnum is imported.  It wraps the numerical kernels
mpnum calls (numpy / scipy functions) in pass-through shims.  A shim does
nothing but count while a fault plan is armed; when the plan says so, the call
fails the way it fails in real deployments (no convergence, no memory, user
interrupt), either instead of running or right after it ran.

Model and oracle code uses the originals through ``K`` and is never disturbed.
"""
import numpy as np
import numpy.linalg
import scipy.linalg
import scipy.sparse.linalg


class _Originals(object):
    pass


K = _Originals()

#: (module, attribute, kernel class)
_KERNELS = [
    (np.linalg, 'qr', 'decomposition'),
    (np.linalg, 'svd', 'decomposition'),
    (np.linalg, 'pinv', 'decomposition'),
    (np.linalg, 'norm', 'compute'),
    (np, 'tensordot', 'compute'),
    (np, 'dot', 'compute'),
    (np, 'inner', 'compute'),
    (np, 'outer', 'compute'),
    (np, 'trace', 'compute'),
    (np, 'concatenate', 'compute'),
    (np, 'zeros', 'compute'),
    (np, 'zeros_like', 'compute'),
    (np, 'empty', 'compute'),
    (np, 'ones', 'compute'),
    (np, 'eye', 'compute'),
    (np, 'pad', 'compute'),
    (np, 'kron', 'compute'),
    (np, 'einsum', 'compute'),
    (np, 'matmul', 'compute'),
    (np, 'rollaxis', 'compute'),
    (np, 'moveaxis', 'compute'),
    (np, 'transpose', 'compute'),
    (np, 'cumsum', 'compute'),
    (np, 'sum', 'compute'),
    (np, 'prod', 'compute'),
    (np, 'bincount', 'compute'),
    (np, 'ravel_multi_index', 'compute'),
    (np, 'unravel_index', 'compute'),
    (scipy.linalg, 'qr', 'decomposition'),
    (scipy.linalg, 'svd', 'decomposition'),
    (scipy.linalg, 'lu', 'decomposition'),
    (scipy.sparse.linalg, 'eigsh', 'decomposition'),
]

KINDS = ('no-convergence', 'out-of-memory', 'interrupt')


class Plan(object):
    """One armed fault: fail the nth kernel call of the current operation."""

    def __init__(self, kind, nth, when='before'):
        self.kind, self.nth, self.when = kind, nth, when
        self.count = 0
        self.fired = None

    def exception(self):
        if self.kind == 'no-convergence':
            return np.linalg.LinAlgError('simulated: did not converge')
        if self.kind == 'out-of-memory':
            return MemoryError('simulated: out of memory')
        return KeyboardInterrupt('simulated: interrupt')


_state = {'plan': None, 'calls': 0, 'held': []}


def arm(plan):
    _state['plan'] = plan
    _state['calls'] = 0


def disarm():
    plan = _state['plan']
    _state['plan'] = None
    return plan.fired if plan is not None else None


def pause():
    """Calls made by a simulated callback are not the library's."""
    _state['held'].append(_state['plan'])
    _state['plan'] = None


def resume():
    _state['plan'] = _state['held'].pop()


def calls():
    return _state['calls']


def _wrap(orig, name, klass):
    def shim(*args, **kwargs):
        _state['calls'] += 1
        plan = _state['plan']
        if plan is None or plan.fired:
            return orig(*args, **kwargs)
        if plan.kind == 'no-convergence' and klass != 'decomposition':
            return orig(*args, **kwargs)
        plan.count += 1
        if plan.count != plan.nth:
            return orig(*args, **kwargs)
        # Nested kernel calls of the original must not see the plan.
        plan.fired = '%s:%s' % (plan.kind, plan.when)
        if plan.when == 'after':
            orig(*args, **kwargs)
        raise plan.exception()
    shim.__name__ = name
    shim.__doc__ = orig.__doc__
    shim._sim_original = orig
    return shim


def install():
    if getattr(K, 'installed', False):
        return
    for mod, name, klass in _KERNELS:
        orig = getattr(mod, name)
        key = name if mod is not scipy.linalg else 'sp_' + name
        setattr(K, key, orig)
        setattr(mod, name, _wrap(orig, name, klass))
    K.installed = True
