"""Dense reference model: plain tensors in local layout, original kernels."""
import numpy as np

from .boot import K
from .core import need


def flat(pshape):
    return tuple(d for s in pshape for d in s)


def axes_of(pshape):
    """axes_of(shape)[site][leg] = axis in the dense local-form array."""
    out, n = [], 0
    for s in pshape:
        out.append(list(range(n, n + len(s))))
        n += len(s)
    return out


def contract(lts):
    """Dense tensor of a chain of local tensors (with outer bonds)."""
    res = None
    for t in lts:
        t = np.asarray(t)
        need(res is None or res.ndim + t.ndim <= 32)
        res = t if res is None else K.tensordot(res, t, axes=(-1, 0))
    return res


def dense_of(mpa):
    """Dense tensor represented by an MPArray (public access only)."""
    res = contract([mpa.lt[i] for i in range(len(mpa))])
    return np.array(res[0, ..., 0])


def norm_product(mpa):
    p = 1.0
    for i in range(len(mpa)):
        p *= float(np.sqrt((np.abs(np.asarray(mpa.lt[i])) ** 2).sum()))
    return p


def structure_error(mpa, tol=1e-7):
    """None, or what is wrong with bonds / canonical form of mpa."""
    n = len(mpa)
    lts = [np.asarray(mpa.lt[i]) for i in range(n)]
    if n == 0:
        return 'no sites'
    for i, t in enumerate(lts):
        if t.ndim < 2:
            return 'site %d has %d legs' % (i, t.ndim)
    if lts[0].shape[0] != 1 or lts[-1].shape[-1] != 1:
        return 'outer bonds are %d, %d' % (lts[0].shape[0], lts[-1].shape[-1])
    for i in range(n - 1):
        if lts[i].shape[-1] != lts[i + 1].shape[0]:
            return 'bond %d: %d != %d' % (i, lts[i].shape[-1],
                                          lts[i + 1].shape[0])
    l, r = mpa.canonical_form
    if not (0 <= l <= n and 0 <= r <= n):
        return 'canonical form (%r, %r) out of range for %d sites' % (l, r, n)
    for i in range(0, l):
        m = lts[i].reshape((-1, lts[i].shape[-1]))
        e = np.abs(m.conj().T @ m - K.eye(m.shape[1])).max()
        if not e <= tol:
            return ('form (%d, %d) of %d sites claims site %d left-canonical, '
                    'deviation %.2g' % (l, r, n, i, e))
    for i in range(r, n):
        m = lts[i].reshape((lts[i].shape[0], -1))
        e = np.abs(m @ m.conj().T - K.eye(m.shape[0])).max()
        if not e <= tol:
            return ('form (%d, %d) of %d sites claims site %d right-canonical,'
                    ' deviation %.2g' % (l, r, n, i, e))
    if tuple(mpa.ranks) != tuple(t.shape[0] for t in lts[1:]):
        return 'ranks property %r is wrong' % (mpa.ranks,)
    if tuple(tuple(s) for s in mpa.shape) != tuple(
            t.shape[1:-1] for t in lts):
        return 'shape property %r is wrong' % (mpa.shape,)
    return None


def bip_svals(dense, pshape, cut):
    """Singular values of the bipartition [:cut] | [cut:]."""
    rows = int(np.prod([int(np.prod(s)) for s in pshape[:cut]], dtype=int))
    m = np.asarray(dense).reshape((rows, -1))
    return K.svd(m, compute_uv=False)


def sequential_truncation(dense, pshape, rank, relerr, direction):
    """What SVD compression must return: truncate one bipartition after
    another.  Returns (tensor, kept ranks, ambiguous, discarded weight)."""
    n = len(pshape)
    cuts = range(1, n) if direction == 'right' else range(n - 1, 0, -1)
    t = np.asarray(dense)
    shape = t.shape
    ambiguous = False
    kept, discarded = {}, 0.0
    for cut in cuts:
        rows = int(np.prod([int(np.prod(s)) for s in pshape[:cut]],
                           dtype=int))
        m = t.reshape((rows, -1))
        u, s, v = K.svd(m, full_matrices=False)
        k = len(s) if rank is None else min(rank, len(s))
        if relerr is not None:
            tot = s.sum()
            if tot > 0:
                frac = s.cumsum() / tot
                if np.abs(frac - (1 - relerr)).min() < 1e-7:
                    ambiguous = True
                k = min(k, int(np.searchsorted(frac, 1 - relerr)) + 1)
            else:
                k = 1
        k = max(1, min(k, len(s)))
        if k < len(s) and s[0] > 0:
            if s[k] > 1e-9 * s[0] and s[k - 1] - s[k] < 1e-4 * s[0]:
                ambiguous = True
        discarded += float((s[k:] ** 2).sum())
        kept[cut] = k
        t = ((u[:, :k] * s[:k]) @ v[:k]).reshape(shape)
    return t, kept, ambiguous, discarded


def maxabs(x):
    x = np.asarray(x)
    return float(np.abs(x).max()) if x.size else 0.0


def l2(x):
    x = np.asarray(x)
    return float(np.sqrt((np.abs(x) ** 2).sum()))


def contract_legs(a, ashape, b, bshape, axa, axb):
    """Dense local-form result of mp.dot: per site contract legs axa with axb.
    axa/axb: per-site tuples of (non-negative) legs."""
    aax, bax = axes_of(ashape), axes_of(bshape)
    n = len(ashape)
    let = iter(range(1000))
    alab = [[next(let) for _ in s] for s in ashape]
    blab = [[next(let) for _ in s] for s in bshape]
    out = []
    for i in range(n):
        for x, y in zip(axa[i], axb[i]):
            blab[i][y] = alab[i][x]
        out += [alab[i][x] for x in range(len(ashape[i])) if x not in axa[i]]
        out += [blab[i][y] for y in range(len(bshape[i])) if y not in axb[i]]
    al = [x for s in alab for x in s]
    bl = [x for s in blab for x in s]
    return tensor_contract(a, al, b, bl, out)


def tensor_contract(a, al, b, bl, out):
    """Contract labelled tensors; labels shared by both are summed unless in
    out (never the case here)."""
    shared = [x for x in al if x in bl]
    need(len(al) + len(bl) - 2 * len(shared) <= 28)    # numpy: 32 axes
    r = K.tensordot(a, b, axes=([al.index(x) for x in shared],
                                [bl.index(x) for x in shared]))
    labels = [x for x in al if x not in shared] + \
             [x for x in bl if x not in shared]
    return K.transpose(r, [labels.index(x) for x in out])
