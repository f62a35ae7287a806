"""Dense quantum states and measurements, and their matrix-product versions."""
import numpy as np

from .boot import K, mp
from .core import need

MPArray = mp.MPArray
mpp = mp.povm
mpsmpo = mp.mpsmpo


def randc(rs, *shape):
    return rs.randn(*shape) + 1j * rs.randn(*shape)


def local_povm(name, d, rs):
    """Elements (outcomes, d, d) of a local measurement."""
    if name == 'x':
        return np.array(list(mpp.x_povm(d)))
    if name == 'y':
        return np.array(list(mpp.y_povm(d)))
    if name == 'z':
        return np.array(list(mpp.z_povm(d))) if d == 2 else \
            np.array([np.diag(np.eye(d)[i]) for i in range(d)])
    if name == 'pauli':
        return np.array(list(mpp.pauli_povm(d)))
    if name == 'eye':
        return np.eye(d).reshape((1, d, d))
    if name == 'basis':
        return np.array([np.diag(np.eye(d)[i]) for i in range(d)])
    if name == 'many':
        # up to the largest number of outcomes supported
        m = int(rs.choice([129, 140, 200, 254, 255]))
        q = rs.rand(m) + .2
        for k in range(d):
            q[k::d] /= q[k::d].sum()
        return np.array([q[i] * np.diag(np.eye(d)[i % d]) for i in range(m)])
    if name == 'weak':
        # a detector that rarely clicks
        v = randc(rs, d)
        v /= np.linalg.norm(v)
        e = 10 ** rs.uniform(-3, -1) * np.outer(v, v.conj())
        w = randc(rs, d)
        w /= np.linalg.norm(w)
        f = 10 ** rs.uniform(-3, -1) * np.outer(w, w.conj())
        if rs.randint(2):
            return np.array([e, np.eye(d) - e])
        return np.array([e, f, np.eye(d) - e - f])
    m = rs.randint(2, 5)
    a = [randc(rs, d, d) for _ in range(m)]
    a = [x.conj().T @ x for x in a]
    w, v = np.linalg.eigh(sum(a))
    s = (v / np.sqrt(w)) @ v.conj().T
    return np.array([s @ x @ s for x in a])


def kron_elements(factors):
    """Dense elements [i1, ..., in, D, D] of a product measurement."""
    res = np.ones((1, 1, 1), complex)
    outs = []
    for f in factors:
        o, d, _ = f.shape
        outs.append(o)
        D = res.shape[1]
        res = np.einsum('iab,jcd->ijacbd', res, f).reshape(
            (res.shape[0] * o, D * d, D * d))
    return res.reshape(tuple(outs) + res.shape[1:])


class Povm(object):
    """A measurement: the library object and its dense elements."""

    def __init__(self, lib, elems):
        self.lib, self.elems = lib, elems
        self.outdims = elems.shape[:-2]
        self.ns = tuple(o for o in self.outdims if o > 1)

    def pmf(self, rho):
        e = self.elems
        return np.einsum('iab,ba->i', e.reshape((-1,) + e.shape[-2:]),
                         rho).reshape(self.outdims)

    def pmf_ns(self, rho):
        return self.pmf(rho).real.reshape(self.ns)


def product_povm(names, dims, rs, memo=None):
    f = []
    for nm, d in zip(names, dims):
        key = (nm, d)
        if memo is not None and nm in ('random', 'weak') and key in memo \
                and rs.randint(3):
            f.append(memo[key])         # the same device somewhere else
            continue
        f.append(local_povm(nm, d, rs))
        if memo is not None:
            memo[key] = f[-1]
    if rs.randint(2) or len(f) == 1:
        lib = mpp.MPPovm.from_kron(f)
    else:
        lib = mp.chain([mpp.MPPovm.from_kron([x]) for x in f])
    return Povm(lib, kron_elements(f)), f


def regauge(rs, m):
    """Random gauge change (the tensor stays the same)."""
    n = len(m)
    k = rs.randint(4)
    if k == 1:
        m.canonicalize(left=int(rs.randint(n)))
    elif k == 2:
        m.canonicalize(right=int(rs.randint(1, n + 1)))
    elif k == 3:
        i = int(rs.randint(n))
        m.canonicalize(left=i, right=int(rs.randint(i + 1, n + 1)))


def unitary(rs, d):
    q, r = np.linalg.qr(randc(rs, d, d))
    return q


def rotate(rs, x, dims):
    """Apply a local unitary in place to a state or to a measurement."""
    i = int(rs.randint(len(dims)))
    d = dims[i]
    u = unitary(rs, d)
    full = np.ones((1, 1), complex)
    for k in range(len(dims)):
        full = np.kron(full, u if k == i else np.eye(dims[k]))
    t = np.asarray(x.lib.lt[i])
    if isinstance(x, Povm):
        new = np.einsum('sp,ampnb,tn->amstb', u, t, u.conj())
        elems = np.einsum('ac,...cd,bd->...ab', full, x.elems, full.conj())
    else:
        new = np.einsum('sp,ap...->as...', u, t)
        if x.mode == 'mpdo':
            new = np.einsum('tn,asnb->astb', u.conj(), new)
        rho = full @ x.rho @ full.conj().T
    if rs.randint(2):
        x.lib.lt.update(i, new)
    else:
        x.lib.lt[i] = new
    if isinstance(x, Povm):
        x.elems = elems
    else:
        x.rho = rho


class State(object):
    def __init__(self, lib, mode, rho, dims):
        self.lib, self.mode, self.rho, self.dims = lib, mode, rho, dims


def chain_dense(ts):
    res = ts[0]
    for t in ts[1:]:
        res = np.tensordot(res, t, axes=(-1, 0))
    return res.reshape(res.shape[1:-1])


def make_state(kind, dims, rank, rs):
    """kind: mps, pmps, mpdo and special states."""
    n = len(dims)
    base, _, flavour = kind.partition('-')
    r = [1] + [rank] * (n - 1) + [1]
    anc = [int(rs.randint(1, 4)) if base != 'mps' else 1 for _ in dims]
    if flavour == 'ghz':
        d = min(dims)
        r = [1] + [2] * (n - 1) + [1]
        ts = []
        for i in range(n):
            t = np.zeros((2, dims[i], anc[i], 2), complex)
            for k in range(2):
                t[k, k, 0, k] = 1
            if i == 0:
                t = t.sum(0, keepdims=True)
            if i == n - 1:
                t = t.sum(3, keepdims=True)
            ts.append(t)
    elif flavour == 'basis':
        ts = []
        for i in range(n):
            t = np.zeros((1, dims[i], anc[i], 1), complex)
            t[0, rs.randint(dims[i]), rs.randint(anc[i]), 0] = 1
            ts.append(t)
    else:
        ts = [randc(rs, r[i], dims[i], anc[i], r[i + 1]) for i in range(n)]
        if flavour == 'real':
            ts = [t.real.copy() for t in ts]
    dense = chain_dense(ts)                     # s1 a1 s2 a2 ...
    dense = dense.transpose(list(range(0, 2 * n, 2))
                            + list(range(1, 2 * n, 2)))
    D, A = int(np.prod(dims)), int(np.prod(anc))
    psi = dense.reshape((D, A))
    nrm = np.linalg.norm(psi)
    need(nrm > 1e-6)
    psi = psi / nrm
    ts = [t / nrm ** (1. / n) for t in ts]
    rho = psi @ psi.conj().T
    if base == 'mps':
        lib = MPArray([t[:, :, 0, :] for t in ts])
    elif base == 'pmps':
        lib = MPArray(ts)
    else:
        lt = [np.einsum('asxb,ctxd->acstbd', t, t.conj()) for t in ts]
        lib = MPArray([t.reshape((t.shape[0] * t.shape[1],) + t.shape[2:4]
                                 + (-1,)) for t in lt])
    regauge(rs, lib)
    return State(lib, base, rho, dims)


def reduced(rho, dims, start, stop):
    """Dense reduced density matrix on range(start, stop)."""
    a = int(np.prod(dims[:start]))
    b = int(np.prod(dims[start:stop]))
    c = int(np.prod(dims[stop:]))
    return np.einsum('abcadc->bd', rho.reshape((a, b, c) * 2))
