"""Operations of the array world: generator, library call, dense meaning."""
import itertools as it

import h5py
import numpy as np

from . import seams
from .boot import K, LocalTensors, mp
from .core import Skip, Violation, need
from .array_world import (MAX_DENSE, MAX_RANK, TOL, Iter, MPArray, OPS, op,
                          rank_ok, size_of)
from .model import (axes_of, bip_svals, contract, contract_legs, dense_of,
                    flat, l2, maxabs, norm_product, sequential_truncation,
                    structure_error)

mpsmpo = mp.mpsmpo


# ---------------------------------------------------------------------------
#  helpers
# ---------------------------------------------------------------------------
def tup(x):
    return tuple(tuple(int(v) for v in s) for s in x)


def nrand(rs, shape, dt):
    if dt == 'i':
        return rs.randint(-2, 3, size=shape)
    x = rs.standard_normal(size=shape)
    if dt == 'c':
        x = x + 1j * rs.standard_normal(size=shape)
    return x


def layout(t, how):
    """Same values, different memory layout."""
    if how == 'F':
        return np.asfortranarray(t)
    if how == 'S':      # strided view of a larger array
        big = np.full(tuple(2 * d for d in t.shape), 7, dtype=t.dtype)
        view = big[tuple(slice(0, 2 * d, 2) for d in t.shape)]
        view[...] = t
        return view
    return t


def gen_shape(w, rng, kind=None, n=None):
    dims = w.cfg['dims']
    n = n if n is not None else w.cfg['n']
    ds = [dims[i % len(dims)] for i in range(n)]
    kind = kind or rng.choice(w.cfg['kinds'])
    if kind == 'mps':
        return [[d] for d in ds]
    if kind == 'mpo':
        return [[d, d] for d in ds]
    if kind == 'pmps':
        return [[d, rng.choice([1, 2, 3])] for d in ds]
    if kind == 'mps1':
        return [[d, 1] for d in ds]
    if kind == 'const':
        legs = [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2, 3]))]
        return [list(legs) for _ in ds]
    if kind == 'thin':
        return [rng.choice([[d], [d], [1], [], [1, d], [1, 1]]) for d in ds]
    if kind == 'three':
        return [[rng.choice([1, 2, 3]), d, d] for d in ds]
    return [[rng.choice([1, 2, 2, 3, d]) for _ in range(
        rng.choice([0, 1, 1, 2, 2, 3]))] for d in ds]


def scal(rng):
    return rng.choice([2, -1, 0.5, -1.5, 1j, 0.7 - 0.4j, 1, 3, 0.25, -2.0])


def enc(x):
    return [x.real, x.imag] if isinstance(x, complex) else x


def dec(x):
    return complex(x[0], x[1]) if isinstance(x, list) else x


def same_shape(a, b):
    return a.pshape == b.pshape and rank_ok(a) and rank_ok(b)


def ndims_const(h):
    return len(set(len(s) for s in h.pshape)) == 1


def is_mps(h):
    return all(len(s) == 1 for s in h.pshape)


def is_mpo(h):
    return all(len(s) == 2 and s[0] == s[1] for s in h.pshape)


def is_two(h):
    return all(len(s) == 2 for s in h.pshape)


# ---------------------------------------------------------------------------
#  creation
# ---------------------------------------------------------------------------
@op('new', 0.6)
class New(object):
    @staticmethod
    def gen(w, rng, kind=None, n=None):
        if n is None and rng.random() < w.cfg.get('p_short', 0.15):
            n = rng.randint(1, w.cfg['n'])
        shape = gen_shape(w, rng, kind, n)
        n = len(shape)
        while size_of(shape) > MAX_DENSE:
            shape = shape[:-1]
            n -= 1
        if n < 1:
            return None
        how = rng.choice(['lt'] * 6 + ['from_array', 'from_array_global',
                                       'from_kron', 'random_mpa', 'copyctor'])
        return dict(out=w.fresh(), shape=shape, how=how,
                    ranks=[rng.choice([1, 2, 2, 3, 3, 4])
                           for _ in range(n - 1)],
                    dt=''.join(rng.choice(w.cfg['dtypes']) for _ in range(n)),
                    style=rng.choice(['plain'] * 7 + ['zero', 'deficient',
                                                      'iso', 'inflated']),
                    lay=rng.choice(['C', 'C', 'C', 'F', 'S']),
                    s=rng.getrandbits(31))

    @staticmethod
    def tensors(o):
        rs = np.random.RandomState(o['s'])
        shape, n = o['shape'], len(o['shape'])
        ranks = [1] + list(o['ranks'])[:n - 1] + [1]
        while len(ranks) < n + 1:
            ranks.insert(-1, 1)
        if o['style'] == 'inflated':
            ranks = [1] + [r + 3 for r in ranks[1:-1]] + [1]
        ts = []
        for i, s in enumerate(shape):
            t = nrand(rs, (ranks[i],) + tuple(s) + (ranks[i + 1],),
                      o['dt'][i % len(o['dt'])])
            if t.dtype.kind != 'i':
                nrm = l2(t)
                t = t * (1.4 / nrm) if nrm > 0 else t
            if o['style'] == 'zero' and i == n // 2:
                t = t * 0
            if o['style'] == 'deficient' and t.shape[-1] > 1:
                t[..., -1] = t[..., 0]
            if o['style'] == 'deficient' and t.shape[0] > 1 and i % 2:
                t[0] = 0
            if o['style'] == 'iso' and t.dtype.kind != 'i':
                m = t.reshape((-1, t.shape[-1]))
                if m.shape[0] >= m.shape[1]:
                    t = K.qr(m)[0].reshape(t.shape)
            ts.append(layout(t, o.get('lay', 'C')))
        return ts

    @staticmethod
    def run(w, o):
        need(o['out'] not in w.h)
        ts = New.tensors(o)
        shape = tup(o['shape'])
        dense = contract(ts)[0, ..., 0]
        scale = 1.0
        for t in ts:
            scale *= max(l2(t), 1e-30)
        how = o['how']
        if how == 'from_kron':
            fs = [np.array(t[0, ..., 0], order='C') for t in ts]
            dense = fs[0]
            for f in fs[1:]:
                dense = K.tensordot(dense, f, axes=0)
            for f in fs:
                w.watch('a factor given to from_kron', f)
            mpa = w.lib(lambda: MPArray.from_kron(fs))
        elif how == 'from_array':
            arr = np.array(dense)
            nd = [len(s) for s in shape]
            need(all(nd))
            w.watch('the array given to from_array', arr)
            arg = nd if len(set(nd)) > 1 else nd[0]
            mpa = w.lib(lambda: MPArray.from_array(arr, ndims=arg))
        elif how == 'from_array_global':
            nd = set(len(s) for s in shape)
            need(len(nd) == 1 and 0 not in nd)
            nd = nd.pop()
            n = len(shape)
            arr = np.array(K.transpose(
                dense, [i * nd + j for j in range(nd) for i in range(n)]))
            w.watch('the array given to from_array_global', arr)
            mpa = w.lib(lambda: MPArray.from_array_global(arr, ndims=nd))
        elif how == 'random_mpa':
            rs = np.random.RandomState(o['s'])
            cplx = 'c' in o['dt']
            mpa = w.lib(lambda: mp.factory.random_mpa(
                len(shape), shape, tuple(o['ranks'])[:len(shape) - 1],
                randstate=rs, normalized=True,
                dtype=np.complex_ if cplx else np.float_))
            dense = dense_of(mpa)
            w.value(l2(dense), 1.0, 1, ['C02'], 'norm of normalized random_mpa')
            scale = max(1.0, norm_product(mpa))
        elif how == 'copyctor':
            for t in ts:
                w.watch('a local tensor given to MPArray()', t)
            mpa = w.lib(lambda: MPArray(LocalTensors(ts)))
        else:
            for t in ts:
                w.watch('a local tensor given to MPArray()', t)
            mpa = w.lib(lambda: MPArray(ts))
        h = w.add(o['out'], mpa, dense, shape, scale)
        props(w, h)


def props(w, h):
    """Derived properties of an array."""
    m = h.mpa
    lts = [np.asarray(m.lt[i]) for i in range(h.n)]
    if m.size != sum(t.size for t in lts):
        raise Violation(['C02'], 'value:size', 'size property is wrong')
    if tuple(m.ndims) != tuple(len(s) for s in h.pshape):
        raise Violation(['C02'], 'value:ndims', 'ndims property is wrong')
    if np.dtype(m.dtype).kind != ('c' if any(t.dtype.kind == 'c' for t in lts)
                                  else 'f'):
        raise Violation(['C02'], 'value:dtype', 'dtype property is wrong')
    if len(m) != h.n:
        raise Violation(['C02'], 'value:len', 'len is wrong')


@op('drop', 0.0)
class Drop(object):
    @staticmethod
    def gen(w, rng):
        return dict(a=w.pick(rng))

    @staticmethod
    def run(w, o):
        h = w.get(o['a'])
        w.verify()
        for k in [k for k, i in w.iters.items() if i.src is h]:
            del w.iters[k]
        del w.h[o['a']]


@op('factory', 0.3)
class Factory(object):
    @staticmethod
    def ranks(w, fn, mpa, rk, ps, force):
        if not force:
            sz = [size_of([x]) for x in ps]
            rk = [min(x, int(np.prod(sz[:i + 1])), int(np.prod(sz[i + 1:])))
                  for i, x in enumerate(rk)]
        if tuple(mpa.ranks) != tuple(rk):
            raise Violation(['C02'], 'ranks:' + fn, '%s has ranks %r instead '
                            'of %r' % (fn, mpa.ranks, rk))

    @staticmethod
    def gen(w, rng):
        return dict(out=w.fresh(), n=rng.randint(1, min(4, w.cfg['n'] + 1)),
                    d=rng.choice([2, 2, 3]), r=rng.choice([1, 2, 3]),
                    fn=rng.choice(['eye', 'eye_var', 'zero', 'zero_var',
                                   'diag', 'mpo', 'mpo_h', 'mps', 'mpdo',
                                   'ham', 'mpa']),
                    force=rng.random() < .3, s=rng.getrandbits(31))

    @staticmethod
    def run(w, o):
        need(o['out'] not in w.h)
        n, d, r, fn = o['n'], o['d'], o['r'], o['fn']
        rs = np.random.RandomState(o['s'])
        F = mp.factory
        if fn in ('eye', 'eye_var'):
            ds = [d] * n if fn == 'eye' else [1 + (o['s'] + i) % 3
                                              for i in range(n)]
            dense = np.ones(())
            for x in ds:
                dense = K.tensordot(dense, K.eye(x), axes=0)
            mpa = w.lib(lambda: F.eye(n, d if fn == 'eye' else ds))
            w.add(o['out'], mpa, dense, [(x, x) for x in ds],
                  max(1.0, l2(dense)))
            return
        force = dict(force_rank=True) if o.get('force') else {}
        if fn == 'zero':
            mpa = w.lib(lambda: F.zero(n, d, r, **force))
            w.add(o['out'], mpa, np.zeros((d,) * n), [(d,)] * n, 1.0)
            Factory.ranks(w, fn, mpa, [r] * (n - 1), [(d,)] * n, force)
            return
        if fn in ('zero_var', 'mpa'):
            ps = [tuple(rs.randint(1, 4, size=rs.randint(1, 3)))
                  for _ in range(n)]
            ps = [tuple(int(x) for x in s) for s in ps]
            need(size_of(ps) <= MAX_DENSE)
            rk = [int(x) for x in rs.randint(1, 4, size=n - 1)]
            how = rs.randint(3)
            arg = (tuple(rk), list(rk), iter(rk))[how] if n > 1 else r
            if fn == 'zero_var':
                mpa = w.lib(lambda: F.zero(n, ps, arg, **force))
                w.add(o['out'], mpa, np.zeros(flat(ps)), ps, 1.0)
            else:
                dt = (np.float_, np.complex_)[rs.randint(2)]
                unit = bool(rs.randint(2))
                mpa = w.lib(lambda: F.random_mpa(
                    n, ps, arg, randstate=rs, normalized=unit, dtype=dt,
                    **force))
                if any(x.dtype != dt for x in mpa.lt):
                    raise Violation(['C02'], 'dtype:random_mpa',
                                    'wrong dtype')
                dense = dense_of(mpa)
                if unit:
                    w.value(l2(dense), 1.0, 1, ['C02'], 'norm of random mpa')
                w.add(o['out'], mpa, dense, ps, norm_product(mpa))
            Factory.ranks(w, fn, mpa, rk, ps, force)
            return
        if fn == 'diag':
            ent = nrand(rs, (d,), 'c' if o['s'] % 2 else 'f')
            w.watch('the entries given to diagonal_mpa', ent)
            mpa = w.lib(lambda: F.diagonal_mpa(ent, n))
            dense = K.zeros((d,) * n, dtype=ent.dtype)
            for i in range(d):
                dense[(i,) * n] = ent[i]
            w.add(o['out'], mpa, dense, [(d,)] * n, 1.0 + l2(ent))
            return
        if fn == 'mpo':
            mpa = w.lib(lambda: F.random_mpo(n, d, r, randstate=rs))
        elif fn == 'mpo_h':
            mpa = w.lib(lambda: F.random_mpo(n, d, r, randstate=rs,
                                             hermitian=True))
        elif fn == 'mps':
            mpa = w.lib(lambda: F.random_mps(n, d, r, randstate=rs, **force))
            Factory.ranks(w, fn, mpa, [r] * (n - 1), [(d,)] * n, force)
        elif fn == 'mpdo':
            mpa = w.lib(lambda: F.random_mpdo(n, d, r, randstate=rs))
        else:
            k = 1 + o['s'] % 3
            need(d ** (2 * max(n, k)) <= MAX_DENSE)
            n = max(k, n)
            mpa = w.lib(lambda: F.random_local_ham(n, d, k, randstate=rs))
        dense = dense_of(mpa)
        ps = tuple(tuple(s) for s in mpa.shape)
        want = ((d,),) * n if fn == 'mps' else ((d, d),) * n
        if ps != want:
            raise Violation(['C02'], 'shape:' + fn, 'wrong shape %r' % (ps,))
        if fn != 'mps':
            mat = K.transpose(dense, list(range(0, 2 * n, 2)) +
                              list(range(1, 2 * n, 2))).reshape((d ** n,) * 2)
            sc = max(norm_product(mpa), 1)
            if fn in ('mpo_h', 'mpdo', 'ham'):
                w.value(mat, mat.conj().T, sc, ['C02'], 'hermiticity of ' + fn)
            if fn == 'mpdo':
                w.value(np.trace(mat), 1.0, sc, ['C02'], 'trace of mpdo')
                ev = np.linalg.eigvalsh((mat + mat.conj().T) / 2)
                if ev.min() < -1e-9 * sc:
                    raise Violation(['C02'], 'value:mpdo',
                                    'random_mpdo is not positive')
        if fn in ('mpo', 'mpo_h', 'mps'):
            w.value(l2(dense), 1.0, 1, ['C02'], 'norm of random ' + fn)
        w.add(o['out'], mpa, dense, ps, norm_product(mpa))


# ---------------------------------------------------------------------------
#  unary, shape-preserving or leg-permuting
# ---------------------------------------------------------------------------
def unary(name, weight, fn, model, scale=lambda s: s, pred=None):
    pred = pred or (lambda h: True)

    class U(object):
        @staticmethod
        def gen(w, rng):
            a = w.pick(rng, pred)
            return None if a is None else dict(a=a, out=w.fresh())

        @staticmethod
        def run(w, o):
            a = w.get(o['a'])
            need(pred(a) and o['out'] not in w.h)
            res = w.lib(lambda: fn(a.mpa))
            dense, ps = model(a)
            w.add(o['out'], res, dense, ps, scale(a.scale))
    U.__name__ = name
    op(name, weight)(U)


def _rev_legs(a):
    ax = axes_of(a.pshape)
    order = [x for s in ax for x in reversed(s)]
    return (K.transpose(a.dense, order), tuple(tuple(reversed(s))
                                               for s in a.pshape))


unary('copy', 1.0, lambda m: m.copy(), lambda a: (a.dense, a.pshape))
unary('T', 1.0, lambda m: m.T, _rev_legs)
unary('transpose_default', 0.3, lambda m: m.transpose(), _rev_legs)
unary('conj', 1.0, lambda m: m.conj(), lambda a: (a.dense.conj(), a.pshape))
unary('adj', 0.7, lambda m: m.adj(),
      lambda a: (_rev_legs(a)[0].conj(), _rev_legs(a)[1]))
unary('neg', 0.5, lambda m: -m, lambda a: (-a.dense, a.pshape))
unary('ravel', 0.6, lambda m: m.ravel(),
      lambda a: (a.dense.reshape([size_of([s]) for s in a.pshape]),
                 [(size_of([s]),) for s in a.pshape]))
unary('reshape_prune', 0.4, lambda m: m.reshape('prune'),
      lambda a: (a.dense.reshape([d for d in flat(a.pshape) if d > 1]),
                 [tuple(d for d in s if d > 1) for s in a.pshape]))


def _reverse_model(a):
    ax = axes_of(a.pshape)
    return (K.transpose(a.dense, [x for s in reversed(ax) for x in s]),
            tuple(reversed(a.pshape)))


unary('reverse', 0.7, lambda m: m.reverse(), _reverse_model)


@op('transpose', 1.0)
class Transpose(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: ndims_const(h) and len(h.pshape[0]) > 0)
        if a is None:
            return None
        p = list(range(len(w.h[a].pshape[0])))
        rng.shuffle(p)
        return dict(a=a, axes=p, out=w.fresh())

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        p = o['axes']
        need(all(len(s) == len(p) for s in a.pshape))
        res = w.lib(lambda: a.mpa.transpose(tuple(p)))
        ax = axes_of(a.pshape)
        w.add(o['out'], res, K.transpose(a.dense, [s[i] for s in ax
                                                   for i in p]),
              [tuple(s[i] for i in p) for s in a.pshape], a.scale)


@op('pos', 0.1)
class Pos(object):
    @staticmethod
    def gen(w, rng):
        return dict(a=w.pick(rng))

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        res = w.lib(lambda: +a.mpa)
        w.value(dense_of(res), a.dense, a.scale, ['C02'], '+a')


@op('mul', 2.0)
class Mul(object):
    @staticmethod
    def gen(w, rng):
        return dict(a=w.pick(rng), f=enc(scal(rng)), out=w.fresh(),
                    how=rng.choice(['mul', 'rmul', 'div', 'npmul', 'zero']))

    @staticmethod
    def run(w, o):
        a, f, how = w.get(o['a']), dec(o['f']), o['how']
        if how == 'mul':
            res, fac = w.lib(lambda: a.mpa * f), f
        elif how == 'rmul':
            res, fac = w.lib(lambda: f * a.mpa), f
        elif how == 'div':
            res, fac = w.lib(lambda: a.mpa / f), 1 / f
        elif how == 'npmul':
            g = np.float64(f) if not isinstance(f, complex) else \
                np.complex128(f)
            res, fac = w.lib(lambda: a.mpa * g), f
        else:
            res, fac = w.lib(lambda: a.mpa * 0), 0
        w.add(o['out'], res, a.dense * fac, a.pshape,
              max(a.scale * abs(fac), 1e-30))


@op('imul', 2.0)
class IMul(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, w.free)
        return None if a is None else dict(
            a=a, f=enc(scal(rng)), how=rng.choice(['imul', 'itruediv']))

    @staticmethod
    def run(w, o):
        a, f = w.get(o['a']), dec(o['f'])
        need(w.free(a))
        fac = f if o['how'] == 'imul' else 1 / f
        new = a.dense * fac
        w.inplace = (a, [a.dense, new], None)

        def body():
            m = a.mpa
            if o['how'] == 'imul':
                m *= f
            else:
                m /= f
            return m
        res = w.lib(body)
        if res is not a.mpa:
            raise Violation(['C02', 'C03'], 'inplace-identity:imul',
                            'in-place scaling returned another array')
        a.dense = new
        a.scale *= max(abs(fac), 1e-3)
        w.touched.add(a.id)


@op('add', 2.0)
class Add(object):
    @staticmethod
    def gen(w, rng):
        a, b = w.pick2(rng, same_shape)
        return None if a is None else dict(
            a=a, b=b, out=w.fresh(), how=rng.choice(['add', 'add', 'sub']))

    @staticmethod
    def run(w, o):
        a, b = w.get(o['a']), w.get(o['b'])
        need(a.pshape == b.pshape and rank_ok(a) and rank_ok(b))
        if o['how'] == 'add':
            res, d = w.lib(lambda: a.mpa + b.mpa), a.dense + b.dense
        else:
            res, d = w.lib(lambda: a.mpa - b.mpa), a.dense - b.dense
        w.add(o['out'], res, d, a.pshape, a.scale + b.scale)


@op('sumup', 1.0)
class Sumup(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, rank_ok)
        if a is None:
            return None
        ids = [i for i in sorted(w.h) if same_shape(w.h[i], w.h[a])]
        k = rng.choice([1, 2, 2, 3])
        ids = [a] + [rng.choice(ids) for _ in range(k - 1)]
        wt = rng.choice([None, 'w', 'w'])
        return dict(a=a, ids=ids, out=w.fresh(),
                    w=[enc(scal(rng)) for _ in ids] if wt else None,
                    lazy=rng.random() < 0.5)

    @staticmethod
    def run(w, o):
        hs = [w.get(i) for i in o['ids']]
        need(all(h.pshape == hs[0].pshape and rank_ok(h) for h in hs))
        ws = [dec(x) for x in o['w']] if o['w'] else None
        arg = [h.mpa for h in hs]
        if o['lazy']:
            res = w.lib(lambda: mp.sumup((m for m in arg), weights=ws))
        else:
            res = w.lib(lambda: mp.sumup(arg, weights=ws))
        d = sum((x * h.dense for x, h in zip(ws or [1] * len(hs), hs)))
        sc = sum(abs(x) * h.scale for x, h in zip(ws or [1] * len(hs), hs))
        w.add(o['out'], res, d, hs[0].pshape, sc)


@op('special_sumup', 0.6)
class SpecialSumup(object):
    """Sum of product arrays, directly compressed."""
    @staticmethod
    def gen(w, rng):
        n = rng.randint(1, max(1, w.cfg['n']))
        legs = rng.choice([1, 1, 2])
        shape = [[rng.choice([1, 2, 3]) for _ in range(legs)]
                 for _ in range(n)]
        if size_of(shape) > MAX_DENSE:
            return None
        k = rng.choice([1, 2, 3, 4])
        return dict(out=w.fresh(), shape=shape, k=k, s=rng.getrandbits(31),
                    dt=rng.choice(['f', 'c']), rank=rng.choice([2, 3, 8, 50]),
                    w=rng.random() < 0.5)

    @staticmethod
    def run(w, o):
        rs = np.random.RandomState(o['s'])
        shape, n = tup(o['shape']), len(o['shape'])
        mpas, dense, scale = [], 0, 0
        ws = nrand(rs, (o['k'],), 'f') if o['w'] else None
        for j in range(o['k']):
            fs = [nrand(rs, s, o['dt']) for s in shape]
            d = fs[0]
            for f in fs[1:]:
                d = K.tensordot(d, f, axes=0)
            x = ws[j] if ws is not None else 1.0
            dense = dense + x * d
            scale += abs(x) * l2(d)
            mpas.append(MPArray([f[None, ..., None] for f in fs]))
        res = w.lib(lambda: mp.special.sumup(mpas, o['rank'], weights=ws),
                    tags=('C02', 'C05'))
        if n == 1 or o['k'] <= o['rank']:
            w.add(o['out'], res, dense, shape, max(scale, 1e-30),
                  tags=('C02', 'C05'))
        else:
            if max(res.ranks) > o['rank']:
                raise Violation(['C05', 'C02'], 'rank:special_sumup',
                                'rank %d exceeds the requested %d'
                                % (max(res.ranks), o['rank']))
            got = dense_of(res)
            w.value(np.vdot(dense, got), np.vdot(got, got), scale ** 2,
                    ['C05', 'C02'], 'overlap after special.sumup', 1e-9)
            w.add(o['out'], res, got, shape, max(scale, 1e-30),
                  tags=('C02', 'C05'))
        for m in mpas:
            if structure_error(m):
                raise Violation(['C03', 'C01'], 'structure:special_sumup',
                                'summand damaged')


@op('inner', 1.2)
class Inner(object):
    @staticmethod
    def gen(w, rng):
        a, b = w.pick2(rng, same_shape)
        return None if a is None else dict(
            a=a, b=b, how=rng.choice(['inner', 'inner', 'normdist']))

    @staticmethod
    def run(w, o):
        a, b = w.get(o['a']), w.get(o['b'])
        need(a.pshape == b.pshape and rank_ok(a) and rank_ok(b))
        if o['how'] == 'inner':
            got = w.lib(lambda: mp.inner(a.mpa, b.mpa))
            w.value(got, np.vdot(a.dense, b.dense), a.scale * b.scale,
                    ['C02'], 'inner')
        else:
            got = w.lib(lambda: mp.normdist(a.mpa, b.mpa))
            w.value(got, l2(a.dense - b.dense), a.scale + b.scale,
                    ['C02'], 'normdist', 1e-7)


@op('norm', 1.5)
class Norm(object):
    @staticmethod
    def gen(w, rng):
        return dict(a=w.pick(rng))

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        w.touched.add(a.id)
        w.inplace = (a, [a.dense], None)
        got = w.lib(lambda: mp.norm(a.mpa))
        w.value(got, l2(a.dense), a.scale, ['C02'], 'norm')


@op('canonicalize', 3.0)
class Canonicalize(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng)
        n = w.h[a].n
        k = rng.random()
        left = right = None
        if k < 0.1:
            pass
        elif k < 0.3:
            left = rng.choice(['afull', n - 1, -1, rng.randint(0, n - 1)])
        elif k < 0.5:
            right = rng.choice(['afull', 1, rng.randint(1, n), 1 - n])
        elif k < 0.85:
            left = rng.randint(0, n - 1)
            right = rng.randint(left + 1, n)
            if rng.random() < 0.3 and left > 0:
                left -= n
        else:
            left, right = rng.choice([(n + 1, None), (None, n + 2),
                                      (n - 1, 1), (-n - 1, None), (None, 0),
                                      (n, None), (0, 0)])
        return dict(a=a, left=left, right=right)

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        n = a.n
        left, right = o['left'], o['right']
        tl = {None: 0, 'afull': n - 1}.get(left, left)
        tr = {None: n, 'afull': 1}.get(right, right)
        tl = tl + n if tl < 0 else tl
        tr = tr + n if tr < 0 else tr
        ok = 0 <= tl < tr <= n or (left is None and right is None)
        w.touched.add(a.id)
        w.inplace = (a, [a.dense], None)
        before = a.mpa.canonical_form
        kw = {}
        if left is not None:
            kw['left'] = left
        if right is not None:
            kw['right'] = right
        w.lib(lambda: a.mpa.canonicalize(**kw), reject=not ok,
              tags=('C01', 'C02'))
        if ok:
            l, r = a.mpa.canonical_form
            if l < tl or r > tr:
                raise Violation(['C01'], 'form-request',
                                'canonicalize(%r, %r) of form %r ended in '
                                '(%d, %d)' % (left, right, before, l, r))
        else:
            raise Violation(['C01'], 'form-request-accepted',
                            'canonicalize(%r, %r) accepted for %d sites'
                            % (left, right, n))


# ---------------------------------------------------------------------------
#  compression
# ---------------------------------------------------------------------------
def user_svd(w, spec, seed):
    """A user-supplied SVD routine (callback seam)."""
    ext = mp.utils.extmath
    if spec == 'randomized':
        rs = np.random.RandomState(seed)
        return lambda A, k: ext.randomized_svd(A, k, randstate=rs)
    if spec == 'user':
        def f(A, k):
            u, s, v = K.svd(A, full_matrices=False)
            k = min(k, len(s))
            return u[:, :k], s[:k], v[:k]
        return f
    if spec and spec.startswith('fail'):
        state = [int(spec[4:])]

        def g(A, k):
            state[0] -= 1
            if state[0] < 0:
                w.cb_fired = 'svdfunc'
                raise RuntimeError('simulated: svdfunc failed')
            u, s, v = K.svd(A, full_matrices=False)
            k = min(k, len(s))
            return u[:, :k], s[:k], v[:k]
        return g
    return None


def check_svd_result(w, u, ushape, scale, c, ov, rank, relerr, direction,
                     canonicalize, cform, svd, rank0):
    """Oracle for one SVD compression (c: MPArray, ov: returned number)."""
    tags = ['C05']
    n = len(ushape)
    err = structure_error(c)
    if err:
        raise Violation(['C05', 'C01'], 'structure:compress', err)
    d = dense_of(c)
    if d.shape != u.shape:
        raise Violation(tags, 'shape:compress', 'shape changed')
    cap = rank if rank is not None else rank0
    if n > 1 and max(c.ranks) > cap:
        raise Violation(tags, 'rank:compress', 'rank %d exceeds the requested '
                        '%d' % (max(c.ranks), cap))
    s2 = scale ** 2
    if n == 1:
        w.value(d, u, scale, ['C05', 'C02'], 'compression of a single site')
        w.value(ov, np.vdot(u, u).real, s2, tags, 'returned overlap')
        return d
    w.value(ov, np.vdot(d, d).real, s2, tags, 'returned number vs <c|c>')
    l, r = cform
    full = canonicalize or (direction == 'right' and r == 1) or (
        direction == 'left' and l == n - 1)
    if not full:
        return d
    w.value(np.vdot(u, d), np.vdot(d, d), s2, tags, '<u|c> vs <c|c>')
    if l2(u) < 1e-4 * scale:
        return d
    dirs = [direction] if direction else ['left', 'right']
    best, amb, disc = None, False, 0.0
    for q in dirs:
        t, kept, a, di = sequential_truncation(u, ushape, cap, relerr, q)
        amb = amb or a
        disc = max(disc, di)
        e = maxabs(t - d)
        best = e if best is None else min(best, e)
    if svd == 'randomized':
        # exact only where the sketch covers the whole local matrix
        w.stats.probe('compress-randomized')
        return d
    if amb:
        w.stats.probe('compress-ambiguous')
        tail = 0.0
        if relerr is None:
            for cut in range(1, n):
                tail += float((bip_svals(u, ushape, cut)[cap:] ** 2).sum())
            if l2(u - d) ** 2 > tail * (1 + 1e-6) + 1e-12 * s2:
                raise Violation(tags, 'error-bound:compress',
                                'error exceeds the discarded weight')
        return d
    w.stats.probe('compress-exact-compare')
    if disc > 1e-12 * s2:
        w.stats.probe('compress-lossy')
    if best > 1e-7 * scale:
        raise Violation(tags, 'truncation:compress',
                        'compression (rank=%r relerr=%r direction=%r) differs '
                        'from the sequential truncation by %.3g'
                        % (rank, relerr, direction, best))
    return d


@op('compress', 2.0)
class Compress(object):
    @staticmethod
    def gen(w, rng):
        inplace = rng.random() < 0.5
        a = w.pick(rng, lambda h: rank_ok(h) and (w.free(h) or not inplace))
        if a is None:
            return None
        h = w.h[a]
        o = dict(a=a, out=w.fresh(), inplace=inplace, s=rng.getrandbits(31))
        if rng.random() < 0.08:
            o['bad'] = rng.choice(['rank0', 'relerr2', 'direction', 'method',
                                   'norank'])
            return o
        o['rank'] = rng.choice([None, 1, 2, 2, 3, 4, 6])
        o['relerr'] = rng.choice([None, None, None, 0.0, 0.05, 0.3, 0.7, 1.0])
        o['direction'] = rng.choice([None, 'left', 'right'])
        o['canon'] = rng.random() < 0.85
        o['svd'] = rng.choice([None, None, None, 'user', 'randomized',
                               'fail%d' % rng.randint(0, 3)])
        if o['relerr'] is not None:
            o['svd'] = None
        return o

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        need(rank_ok(a))
        if o['inplace']:
            need(w.free(a))
        if 'bad' in o:
            kw = {'rank0': dict(rank=0), 'relerr2': dict(relerr=2.0),
                  'direction': dict(direction='up', rank=1),
                  'method': dict(method='nosuch'),
                  'norank': dict(method='var', num_sweeps=1)}[o['bad']]
            need(a.n > 1 or o['bad'] == 'method')
            if o['inplace']:
                w.inplace = (a, [a.dense], None)
            w.touched.add(a.id)
            w.lib(lambda: (a.mpa.compress(**kw) if o['inplace'] else
                           a.mpa.compression(**kw)), reject=True)
            raise Violation(['C05', 'C02'], 'bad-argument-accepted:compress',
                            'compress(%r) was accepted' % (kw,))
        kw = dict(rank=o['rank'], relerr=o['relerr'],
                  direction=o['direction'], canonicalize=o['canon'])
        f = user_svd(w, o['svd'], o['s'])
        if o['svd'] == 'randomized':
            # only double precision is supported
            need(all(np.asarray(a.mpa.lt[i]).dtype.char in 'dD'
                     for i in range(a.n)))
        if f is not None:
            kw['svdfunc'] = f
        if o['s'] % 2:
            kw = {k: v for k, v in kw.items() if v is not None}
        u, scale = a.dense, a.scale
        cform = a.mpa.canonical_form
        rank0 = max(a.mpa.ranks) if a.n > 1 else 1
        args = (o['rank'], o['relerr'], o['direction'], o['canon'], cform,
                o['svd'], rank0)

        def lossy(old, cur):
            if not o['canon'] or a.n == 1:
                return None
            sc = scale
            if abs(np.vdot(old, cur) - np.vdot(cur, cur)) > 1e-8 * sc ** 2:
                return 'it holds no projection of the original'
            cap = o['rank'] if o['rank'] is not None else rank0
            if o['svd'] == 'randomized':
                return None
            disc, amb = 0.0, False
            for q in ([o['direction']] if o['direction']
                      else ['left', 'right']):
                _, _, am, di = sequential_truncation(old, a.pshape, cap,
                                                     o['relerr'], q)
                disc, amb = max(disc, di), amb or am
            if not amb and l2(old - cur) ** 2 > disc * (1 + 1e-6) + \
                    1e-10 * sc ** 2:
                return ('it is %.3g away from the original, discarded weight '
                        'is %.3g' % (l2(old - cur), disc ** 0.5))
            return None
        if o['inplace']:
            w.inplace = (a, [u], lossy)
            w.touched.add(a.id)
            ov = w.lib(lambda: a.mpa.compress('svd', **kw), tags=['C05'])
            a.dense = check_svd_result(w, u, a.pshape, scale, a.mpa, ov,
                                       *args)
        else:
            c, ov = w.lib(lambda: a.mpa.compression('svd', **kw),
                          tags=['C05'])
            d = check_svd_result(w, u, a.pshape, scale, c, ov, *args)
            w.add(o['out'], c, d, a.pshape, scale, tags=['C05'])


@op('compress_var', 0.8)
class CompressVar(object):
    @staticmethod
    def gen(w, rng):
        inplace = rng.random() < 0.4
        a = w.pick(rng, lambda h: rank_ok(h) and (w.free(h) or not inplace))
        if a is None:
            return None
        h = w.h[a]
        b = None
        if rng.random() < 0.4:
            b = w.pick(rng, lambda x: x.pshape == h.pshape and rank_ok(x))
        return dict(a=a, b=b, out=w.fresh(), inplace=inplace,
                    rank=rng.choice([1, 2, 3, 4]),
                    sweeps=rng.choice([1, 2, 3]),
                    vs=rng.choice([1, 1, 2, 2, 3, None]),
                    s=rng.getrandbits(31))

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        need(rank_ok(a))
        if o['inplace']:
            need(w.free(a))
        b = None
        if o['b'] is not None:
            b = w.get(o['b'])
            need(b.pshape == a.pshape and rank_ok(b))
        rank0 = max(a.mpa.ranks) if a.n > 1 else 1
        kw = dict(num_sweeps=o['sweeps'])
        if o['vs'] is not None:
            kw['var_sites'] = o['vs']
        vs = o['vs'] or 2
        if b is not None:
            kw['startmpa'] = b.mpa
            rank = max(b.mpa.ranks) if a.n > 1 else 1
        else:
            kw['rank'] = rank = o['rank']
            kw['randstate'] = np.random.RandomState(o['s'])
        u, sc = a.dense, a.scale
        tags = ['C05']
        if o['inplace']:
            w.inplace = (a, [u], None)
            w.touched.add(a.id)
            ov = w.lib(lambda: a.mpa.compress('var', **kw), tags=tags)
            c = a.mpa
        else:
            c, ov = w.lib(lambda: a.mpa.compression('var', **kw), tags=tags)
        err = structure_error(c)
        if err:
            raise Violation(['C05', 'C01'], 'structure:compress_var', err)
        d = dense_of(c)
        if d.shape != u.shape:
            raise Violation(tags, 'shape:compress_var', 'shape changed')
        # Numbers are of the order of |u| and of the start vector.
        s2 = (sc + (b.scale if b is not None else 1)) ** 2 + sc ** 2
        w.value(ov, np.vdot(d, d).real, s2, tags,
                'returned number vs <c|c> (var)')
        w.value(np.vdot(u, d), np.vdot(d, d), s2, tags,
                '<u|c> vs <c|c> (var)')
        if a.n > 1 and max(c.ranks) > max(rank, 1):
            if not rank > rank0:
                raise Violation(tags, 'rank:compress_var', 'rank %d > %d'
                                % (max(c.ranks), rank))
        e0 = l2(u - d)
        if a.n == 1 or rank > rank0:
            w.value(d, u, sc, tags, 'var. compression without compression')
        elif vs <= 2 and b is not None:
            # never worse than the start vector
            es = l2(u - b.dense)
            if e0 > es + 1e-7 * (sc + b.scale):
                raise Violation(tags, 'var-worse-than-start',
                                'error %.6g, start %.6g' % (e0, es))
        if vs <= 2 and a.n > 1 and o['s'] % 3 == 0:
            # more sweeps are never worse (same start)
            kw2 = dict(kw, num_sweeps=o['sweeps'] + 1)
            if b is None:
                kw2['randstate'] = np.random.RandomState(o['s'])
            if o['inplace']:
                # compress a private copy of the original tensor
                m = MPArray.from_array(
                    u.reshape([size_of([x]) for x in a.pshape]), ndims=1)
                m = m.reshape(a.pshape)
                if max(m.ranks) < rank:
                    m = None
            else:
                m = a.mpa
            if m is not None:
                old = w.fault
                w.fault = None
                c2, _ = w.lib(lambda: m.compression('var', **kw2), tags=tags)
                w.fault = old
                e2 = l2(u - dense_of(c2))
                w.stats.probe('var-more-sweeps')
                if not o['inplace'] and e2 > e0 + 1e-7 * (
                        sc + (b.scale if b is not None else 0)):
                    raise Violation(tags, 'var-not-monotone', 'error %.6g '
                                    'after one more sweep, %.6g before'
                                    % (e2, e0))
        if o['inplace']:
            a.dense = d
        else:
            w.add(o['out'], c, d, a.pshape, max(norm_product(c), sc),
                  tags=['C05'])


@op('randomized_svd', 0.3)
class RandomizedSvd(object):
    @staticmethod
    def gen(w, rng):
        return dict(m=rng.randint(2, 40), n=rng.randint(2, 40),
                    k=rng.choice([1, 2, 3, 5, 8]),
                    p=rng.choice([10, 10, 3, 0]),
                    dt=rng.choice(['f', 'c']), s=rng.getrandbits(31),
                    it=rng.choice(['auto', 0, 1, 2, 5]),
                    nz=rng.choice(['auto', 'LU', 'QR', 'none']),
                    tr=rng.choice(['auto', True, False]),
                    spec=rng.choice(['flat', 'decay', 'low']))

    @staticmethod
    def run(w, o):
        rs = np.random.RandomState(o['s'])
        m, n, k = o['m'], o['n'], o['k']
        q = min(m, n)
        u0 = K.qr(nrand(rs, (m, q), o['dt']))[0]
        v0 = K.qr(nrand(rs, (n, q), o['dt']))[0]
        s0 = {'flat': 1 + 0.3 * np.arange(q)[::-1] / q,
              'decay': 0.75 ** np.arange(q),
              'low': (np.arange(q) < 3) * 1.0 + 1e-3 * (np.arange(q) == 3),
              }[o['spec']]
        A = (u0 * s0) @ v0.conj().T
        w.watch('the matrix given to randomized_svd', A)
        if o['nz'] == 'none' and (o['it'] == 'auto' or o['it'] > 2):
            return
        U, s, V = w.lib(lambda: mp.utils.extmath.randomized_svd(
            A, k, n_oversamples=o['p'], n_iter=o['it'],
            piter_normalizer=o['nz'], transpose=o['tr'], randstate=rs),
            tags=['C05'])
        tags = ['C05']
        kk = min(k, q)
        if len(s) > k or U.shape != (m, len(s)) or V.shape != (len(s), n):
            raise Violation(tags, 'shape:randomized_svd', 'shapes %r %r %r'
                            % (U.shape, s.shape, V.shape))
        if len(s) != kk:
            raise Violation(tags, 'shape:randomized_svd',
                            '%d components instead of %d' % (len(s), kk))
        w.value(U.conj().T @ U, K.eye(kk), 1, tags, 'left vectors', 1e-8)
        w.value(V @ V.conj().T, K.eye(kk), 1, tags, 'right vectors', 1e-8)
        if (np.diff(s) > 1e-10).any() or (s < -1e-12).any():
            raise Violation(tags, 'value:randomized_svd', 'singular values '
                            'not descending')
        if (s > s0[:kk] + 1e-8).any():
            raise Violation(tags, 'value:randomized_svd', 'singular values '
                            'exceed the true ones')
        # The factors describe an orthogonal projection of A.
        B = (U * s) @ V
        w.value(np.vdot(A, B), np.vdot(B, B), 10, tags,
                'randomized_svd is a projection of its argument', 1e-6)
        opt = float(s0[kk]) if kk < q else 0.0
        # Power iterations without normalisation lose small singular values
        # (documented): allow for eps ** (1 / (2 * it + 1)).
        its = (7 if k < .1 * q else 4) if o['it'] == 'auto' else o['it']
        raw = o['nz'] == 'none' or (o['nz'] == 'auto' and its <= 2)
        floor = 1e-6
        if raw and its and o['spec'] != 'flat':
            floor = 100 * 1e-16 ** (1.0 / (2 * its + 1))
        if k + o['p'] >= q:
            w.value(s, s0[:kk], 1, tags, 'singular values (full sketch)',
                    floor)
            if l2(A - B) > (s0[kk:] ** 2).sum() ** 0.5 + 10 * floor:
                raise Violation(tags, 'optimal:randomized_svd', 'truncation '
                                'is not optimal although the sketch is '
                                'complete')
        elif o['p'] >= 10:
            # Halko et al. 2009, Thm. 10.8 / Sec. 10.4 (failure probability
            # below 1e-9), plus the truncation to k components
            c = (1 + 9 * ((k + o['p']) * q) ** 0.5) ** (1.0 / (2 * its + 1))
            bound = (1 + c) * opt + floor
            got = K.svd(A - B, compute_uv=False)[0]
            if got > bound:
                raise Violation(tags, 'optimal:randomized_svd',
                                'error %.3g, optimal %.3g' % (got, opt))


@op('singularvals', 0.6)
class SingularVals(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, rank_ok)
        return None if a is None else dict(a=a)

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        need(rank_ok(a))
        w.touched.add(a.id)
        w.inplace = (a, [a.dense], None)
        got = w.lib(lambda: list(a.mpa.singularvals()))
        if len(got) != a.n - 1:
            raise Violation(['C02', 'C10'], 'value:singularvals',
                            '%d bipartitions for %d sites' % (len(got), a.n))
        for cut, s in enumerate(got, 1):
            check_svals(w, s, a.dense, a.pshape, cut, a.scale,
                        ['C02', 'C10', 'C05'])


def check_svals(w, s, dense, pshape, cut, scale, tags):
    want = bip_svals(dense, pshape, cut)
    s = np.asarray(s)
    k = max(len(s), len(want))
    x, y = np.zeros(k), np.zeros(k)
    x[:len(s)] = s
    y[:len(want)] = want
    w.value(x, y, scale, tags, 'singular values of bipartition', 1e-8)


@op('pad_ranks', 0.6)
class PadRanks(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: rank_ok(h))
        return None if a is None else dict(
            a=a, out=w.fresh(), rank=rng.choice([None, 2, 4, 5]),
            force=rng.random() < 0.3)

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        need(rank_ok(a))
        r0 = a.mpa.ranks
        res = w.lib(lambda: a.mpa.pad_ranks(o['rank'], force_rank=o['force']))
        w.add(o['out'], res, a.dense, a.pshape, a.scale)
        goal = o['rank'] if o['rank'] is not None else max(r0 or (1,))
        szs = [size_of([s]) for s in a.pshape]
        for cut in range(1, a.n):
            full = min(int(K.prod(szs[:cut], dtype=object)),
                       int(K.prod(szs[cut:], dtype=object)))
            want = max(r0[cut - 1], goal if o['force'] else min(goal, full))
            if res.ranks[cut - 1] != want:
                raise Violation(['C02'], 'value:pad_ranks',
                                'ranks %r -> %r (rank=%r)'
                                % (r0, res.ranks, o['rank']))


# ---------------------------------------------------------------------------
#  dense conversion and read access
# ---------------------------------------------------------------------------
@op('to_array', 1.0)
class ToArray(object):
    @staticmethod
    def gen(w, rng):
        return dict(a=w.pick(rng), how=rng.choice(['local', 'local',
                                                   'global']),
                    scribble=rng.random() < 0.6)

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        want = a.dense
        if o['how'] == 'global':
            need(ndims_const(a))
            nd, n = len(a.pshape[0]), a.n
            want = K.transpose(want, [i * nd + j for j in range(nd)
                                      for i in range(n)])
            got = w.lib(lambda: a.mpa.to_array_global())
        else:
            got = w.lib(lambda: a.mpa.to_array())
        w.value(got, want, a.scale, ['C02'], 'to_array')
        if not isinstance(got, np.ndarray) and got.shape == ():
            return
        if not got.flags.writeable:
            raise Violation(['C03'], 'readonly:to_array',
                            'dense array handed out is not writable')
        if o['scribble']:
            got[...] = -77      # the caller's own array
            w.stats.probe('scribbled-on-result')
        else:
            w.watch('an array handed out by to_array', got)


@op('views', 0.5)
class Views(object):
    """Local tensors handed out are read-only views."""
    @staticmethod
    def gen(w, rng):
        return dict(a=w.pick(rng))

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        lt = a.mpa.lt
        vs = [lt[i] for i in range(a.n)] + list(lt) + list(lt[0:a.n])
        for v in vs:
            if v.flags.writeable:
                raise Violation(['C03'], 'writable-view',
                                'a local tensor handed out is writable')
            try:
                v[...] = 0
            except ValueError:
                pass
            else:
                raise Violation(['C03'], 'writable-view',
                                'a local tensor handed out can be modified')
        if tuple(lt.shape) != tuple(v.shape for v in vs[:a.n]):
            raise Violation(['C02'], 'value:lt.shape', 'lt.shape is wrong')


@op('get', 0.6)
class Get(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: all(len(s) > 0 for s in h.pshape))
        if a is None:
            return None
        return dict(a=a, out=w.fresh(),
                    idx=[rng.randrange(s[0]) for s in w.h[a].pshape])

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        need(len(o['idx']) == a.n)
        need(all(s and i < s[0] for i, s in zip(o['idx'], a.pshape)))
        res = w.lib(lambda: a.mpa.get(tuple(o['idx'])))
        sl = []
        for s, i in zip(a.pshape, o['idx']):
            sl += [i] + [slice(None)] * (len(s) - 1)
        w.add(o['out'], res, a.dense[tuple(sl)], [s[1:] for s in a.pshape],
              a.scale)


@op('sum', 1.0)
class Sum(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng)
        h = w.h[a]
        k = rng.random()
        if k < 0.2:
            axes = None
        elif k < 0.35 and ndims_const(h) and h.pshape[0]:
            axes = rng.randrange(len(h.pshape[0]))
        elif k < 0.5 and ndims_const(h) and h.pshape[0]:
            nd = len(h.pshape[0])
            axes = sorted(rng.sample(range(nd), rng.randint(0, nd)))
        else:
            axes = [None if rng.random() < 0.2 else sorted(
                rng.sample(range(len(s)), rng.randint(0, len(s))))
                for s in h.pshape]
        return dict(a=a, axes=axes, out=w.fresh())

    @staticmethod
    def run(w, o):
        a, axes = w.get(o['a']), o['axes']
        per = Sum.per_site(a.pshape, axes)
        need(per is not None)
        arg = axes
        if isinstance(axes, list):
            arg = [tuple(x) if isinstance(x, list) else x for x in axes]
        res = w.lib(lambda: a.mpa.sum(arg))
        ax = axes_of(a.pshape)
        d = a.dense.sum(tuple(ax[i][j] for i, p in enumerate(per) for j in p))
        ps = [tuple(x for j, x in enumerate(s) if j not in p)
              for s, p in zip(a.pshape, per)]
        sc = a.scale * max(1.0, size_of(a.pshape)) ** 0.5
        if sum(len(s) for s in ps) == 0:
            w.value(np.asarray(res).reshape(()), d, sc, ['C02'], 'sum')
        else:
            w.add(o['out'], res, d, ps, sc)

    @staticmethod
    def per_site(pshape, axes):
        n = len(pshape)
        if axes is None:
            return [tuple(range(len(s))) for s in pshape]
        if isinstance(axes, int):
            per = [(axes,)] * n
        elif all(isinstance(x, int) for x in axes):
            per = [tuple(axes)] * n
        else:
            if len(axes) != n:
                return None
            per = [tuple(range(len(s))) if x is None else tuple(x)
                   for x, s in zip(axes, pshape)]
        if any(j >= len(s) for p, s in zip(per, pshape) for j in p):
            return None
        return per


# ---------------------------------------------------------------------------
#  shape changes
# ---------------------------------------------------------------------------
@op('reshape', 1.0)
class Reshape(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng)
        h = w.h[a]
        new = []
        for s in h.pshape:
            size, k = size_of([s]), rng.random()
            if k < 0.3:
                t = [-1]
            elif k < 0.6:
                t = list(s)
                rng.shuffle(t)
            elif size % 2 == 0 and size:
                t = [2, size // 2]
            elif size == 1:
                t = rng.choice([[], [1], [1, 1]])
            else:
                t = [size, 1]
            new.append(t)
        same = len(set(size_of([s]) for s in h.pshape)) == 1
        if same and rng.random() < 0.3 and new[0]:
            return dict(a=a, new=new[0], single=True, out=w.fresh())
        return dict(a=a, new=new, single=False, out=w.fresh(),
                    gen=rng.random() < 0.3)

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        new = [list(o['new'])] * a.n if o['single'] else o['new']
        need(len(new) == a.n)
        ps = []
        for s, t in zip(a.pshape, new):
            size = size_of([s])
            known = size_of([[x for x in t if x != -1]])
            need(known and size % known == 0)
            t = tuple(size // known if x == -1 else x for x in t)
            need(size_of([t]) == size)
            ps.append(t)
        if o['single']:
            arg = tuple(o['new'])
        elif o.get('gen'):
            arg = (tuple(t) for t in new)
        else:
            arg = [tuple(t) for t in new]
        res = w.lib(lambda: a.mpa.reshape(arg))
        w.add(o['out'], res, a.dense.reshape(flat(ps)), ps, a.scale)


@op('group_sites', 0.6)
class GroupSites(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng)
        n = w.h[a].n
        return dict(a=a, out=w.fresh(), k=rng.choice(
            [k for k in range(1, n + 1) if n % k == 0] + [2]))

    @staticmethod
    def run(w, o):
        a, k = w.get(o['a']), o['k']
        ok = a.n % k == 0
        res = w.lib(lambda: a.mpa.group_sites(k), reject=not ok)
        need(ok)
        if k == 1:
            w.value(dense_of(res), a.dense, a.scale, ['C02'], 'group_sites')
            return
        ps = [sum(a.pshape[i:i + k], ()) for i in range(0, a.n, k)]
        w.add(o['out'], res, a.dense, ps, a.scale)


@op('split_sites', 0.6)
class SplitSites(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: all(len(s) > 0 for s in h.pshape)
                   and h.n <= 4)
        if a is None:
            return None
        ks = [k for k in (1, 2, 3) if all(len(s) % k == 0
                                          for s in w.h[a].pshape)]
        return dict(a=a, k=rng.choice(ks), out=w.fresh())

    @staticmethod
    def run(w, o):
        a, k = w.get(o['a']), o['k']
        need(all(len(s) and len(s) % k == 0 for s in a.pshape))
        res = w.lib(lambda: a.mpa.split_sites(k))
        ps = []
        for s in a.pshape:
            m = len(s) // k
            ps += [s[i:i + m] for i in range(0, len(s), m)]
        w.add(o['out'], res, a.dense, ps, a.scale)


def parts(mpa, pos):
    n = len(mpa)
    left = contract([mpa.lt[i] for i in range(pos + 1)])[0]
    right = contract([mpa.lt[i] for i in range(pos + 1, n)])[..., 0]
    return left, right


@op('vleg', 1.2)
class VLeg(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: h.n > 1 and rank_ok(h))
        if a is None:
            return None
        return dict(a=a, pos=rng.randrange(w.h[a].n - 1), out=w.fresh(),
                    out2=w.fresh(), how=rng.choice(['v2l', 'v2l', 'split']),
                    out_of_range=rng.random() < .1)

    @staticmethod
    def run(w, o):
        a, pos = w.get(o['a']), o['pos']
        need(a.n > 1 and pos < a.n - 1 and rank_ok(a))
        if o.get('out_of_range'):
            # nothing on one side, all of it on the other
            for at, k in ((-1 - pos, 1), (a.n + pos, 0)):
                res = w.lib(lambda: a.mpa.split(at))
                if res[1 - k] is not None or not isinstance(res[k], MPArray):
                    raise Violation(['C02'], 'value:split', 'split(%d) of %d '
                                    'sites: %r' % (at, a.n, res))
                w.value(dense_of(res[k]), a.dense, a.scale, ['C02'],
                        'split out of range')
        r = a.mpa.ranks[pos]
        left, right = parts(a.mpa, pos)
        lps = a.pshape[:pos] + (a.pshape[pos] + (r,),)
        rps = ((r,) + a.pshape[pos + 1],) + a.pshape[pos + 2:]
        if o['how'] == 'v2l':
            need(size_of(a.pshape) * r * r <= MAX_DENSE)
            res = w.lib(lambda: a.mpa.vleg2leg(pos))
            w.add(o['out'], res, K.tensordot(left, right, axes=0), lps + rps,
                  a.scale)
        else:
            l, q = w.lib(lambda: a.mpa.split(pos))
            w.add(o['out'], l, left, lps, a.scale)
            w.add(o['out2'], q, right, rps, a.scale)


@op('leg2vleg', 1.2)
class Leg2VLeg(object):
    @staticmethod
    def match(h):
        return [p for p in range(h.n - 1)
                if h.mpa.ranks[p] == 1 and h.pshape[p] and h.pshape[p + 1]
                and h.pshape[p][-1] == h.pshape[p + 1][0]]

    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, Leg2VLeg.match)
        if a is None:
            return None
        return dict(a=a, pos=rng.choice(Leg2VLeg.match(w.h[a])),
                    out=w.fresh())

    @staticmethod
    def run(w, o):
        a, pos = w.get(o['a']), o['pos']
        need(pos in Leg2VLeg.match(a))
        res = w.lib(lambda: a.mpa.leg2vleg(pos))
        ax = axes_of(a.pshape)
        d = K.trace(a.dense, axis1=ax[pos][-1], axis2=ax[pos + 1][0])
        ps = (a.pshape[:pos] + (a.pshape[pos][:-1], a.pshape[pos + 1][1:]) +
              a.pshape[pos + 2:])
        w.add(o['out'], res, d, ps,
              a.scale * a.pshape[pos][-1] ** 0.5)


@op('prune', 0.7)
class Prune(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng)
        return dict(a=a, singletons=rng.random() < 0.5, out=w.fresh())

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        res = w.lib(lambda: mp.prune(a.mpa, singletons=o['singletons']))
        d, ps = prune_model(a.dense, a.pshape, o['singletons'])
        w.add(o['out'], res, d, ps, a.scale)


def prune_model(dense, pshape, singletons=False):
    if singletons:
        pshape = tuple(() if size_of([s]) == 1 else s for s in pshape)
        dense = dense.reshape(flat(pshape))
    keep = [s for s in pshape if s]
    return dense, tuple(keep) if keep else ((),)


# ---------------------------------------------------------------------------
#  products
# ---------------------------------------------------------------------------
def prod_ranks_ok(a, b):
    ra = a.mpa.ranks or (1,)
    rb = b.mpa.ranks or (1,)
    m = min(len(ra), len(rb))
    return (max(x * y for x, y in zip(ra[:m], rb[:m])) <= 2 * MAX_RANK
            if m else True)


@op('dot', 2.0)
class Dot(object):
    @staticmethod
    def gen(w, rng):
        a, b = w.pick2(rng, lambda x, y: x.n == y.n and ndims_const(x)
                       and ndims_const(y) and x.pshape[0] and y.pshape[0]
                       and prod_ranks_ok(x, y))
        if a is None:
            return None
        A, B = w.h[a], w.h[b]
        na, nb = len(A.pshape[0]), len(B.pshape[0])
        opts = [(i, j) for i in range(na) for j in range(nb)
                if all(s[i] == t[j] for s, t in zip(A.pshape, B.pshape))]
        if not opts:
            return None
        first = rng.choice(opts)
        if rng.random() < 0.25:
            more = [p for p in opts if p[0] != first[0] and p[1] != first[1]]
            ps = [first] + ([rng.choice(more)] if more else [])
            return dict(a=a, b=b, axes=[[p[0] for p in ps],
                                        [p[1] for p in ps]],
                        out=w.fresh(), neg=rng.random() < 0.3)
        return dict(a=a, b=b, axes=list(first), out=w.fresh(),
                    neg=rng.random() < 0.3,
                    default=first == (na - 1, 0) and rng.random() < 0.7)

    @staticmethod
    def run(w, o):
        a, b = w.get(o['a']), w.get(o['b'])
        need(a.n == b.n and ndims_const(a) and ndims_const(b))
        need(prod_ranks_ok(a, b))
        na, nb = len(a.pshape[0]), len(b.pshape[0])
        seq = isinstance(o['axes'][0], list)
        la, lb = (o['axes'] if seq else ([o['axes'][0]], [o['axes'][1]]))
        need(all(i < na for i in la) and all(j < nb for j in lb))
        need(all(s[i] == t[j] for s, t in zip(a.pshape, b.pshape)
                 for i, j in zip(la, lb)))
        ps = [tuple(x for i, x in enumerate(s) if i not in la) +
              tuple(x for j, x in enumerate(t) if j not in lb)
              for s, t in zip(a.pshape, b.pshape)]
        need(size_of(ps) <= MAX_DENSE)
        xa = [i - na if o['neg'] else i for i in la]
        xb = [j - nb if o['neg'] else j for j in lb]
        arg = (tuple(xa), tuple(xb)) if seq else (xa[0], xb[0])
        if o.get('default') and la == [na - 1] and lb == [0]:
            res = w.lib(lambda: mp.dot(a.mpa, b.mpa))
        else:
            res = w.lib(lambda: mp.dot(a.mpa, b.mpa, axes=arg))
        d = contract_legs(a.dense, a.pshape, b.dense, b.pshape,
                          [la] * a.n, [lb] * a.n)
        w.add(o['out'], res, d, ps, a.scale * b.scale)


@op('partialdot', 0.8)
class PartialDot(object):
    @staticmethod
    def fits(x, y, at, axes):
        """Does the shorter one fit at site `at` with these pairs of legs?"""
        long_, short = (y, x) if x.n < y.n else (x, y)
        if at + short.n > long_.n:
            return False
        for k in range(short.n):
            s = (x.pshape[k] if short is x else x.pshape[at + k])
            t = (y.pshape[k] if short is y else y.pshape[at + k])
            for i, j in axes:
                if not (-len(s) <= i < len(s) and -len(t) <= j < len(t)
                        and s[i] == t[j]):
                    return False
            if len({i % len(s) for i, j in axes}) < len(axes) or \
                    len({j % len(t) for i, j in axes}) < len(axes):
                return False
        return True

    @staticmethod
    def gen(w, rng):
        equal = rng.random() < .15
        a, b = w.pick2(rng, lambda x, y: (x.n == y.n) == equal)
        if a is None:
            return None
        A, B = w.h[a], w.h[b]
        axes = [(-1, 0)]
        if rng.random() < .5:
            axes = [(rng.randint(-2, 1), rng.randint(-2, 1))]
            if rng.random() < .4:
                axes.append((rng.randint(-2, 1), rng.randint(-2, 1)))
        ats = [k for k in range(abs(A.n - B.n) + 1)
               if PartialDot.fits(A, B, k, axes)]
        if not ats:
            axes = [(-1, 0)]
            ats = [k for k in range(abs(A.n - B.n) + 1)
                   if PartialDot.fits(A, B, k, axes)]
            if not ats:
                return None
        return dict(a=a, b=b, at=rng.choice(ats), out=w.fresh(),
                    axes=[list(x) for x in axes], seq=rng.random() < .3)

    @staticmethod
    def run(w, o):
        a, b, at = w.get(o['a']), w.get(o['b']), o['at']
        axes = [tuple(x) for x in o['axes']]
        need(PartialDot.fits(a, b, at, axes))
        need(rank_ok(a) and rank_ok(b))
        n, short = max(a.n, b.n), min(a.n, b.n)

        def padded(h):
            if h.n == n:
                return h.pshape
            return ((),) * at + h.pshape + ((),) * (n - at - h.n)
        A, B = padded(a), padded(b)
        la = [[i % len(s) for i, j in axes] if at <= k < at + short else []
              for k, s in enumerate(A)]
        lb = [[j % len(t) for i, j in axes] if at <= k < at + short else []
              for k, t in enumerate(B)]
        ps = [tuple(x for i, x in enumerate(s) if i not in p) +
              tuple(x for j, x in enumerate(t) if j not in q)
              for s, t, p, q in zip(A, B, la, lb)]
        need(size_of(ps) <= MAX_DENSE)
        ra = (max(a.mpa.ranks or (1,)) * max(b.mpa.ranks or (1,)))
        need(ra <= 2 * MAX_RANK)
        kw = {}
        if len(axes) > 1 or o['seq']:
            kw['axes'] = (tuple(i for i, j in axes), tuple(j for i, j in axes))
        elif axes != [(-1, 0)]:
            kw['axes'] = axes[0]
        res = w.lib(lambda: mp.partialdot(a.mpa, b.mpa, at, **kw))
        d = contract_legs(a.dense, A, b.dense, B, la, lb)
        w.add(o['out'], res, d, ps, a.scale * b.scale)


@op('sandwich', 0.6)
class Sandwich(object):
    @staticmethod
    def gen(w, rng):
        a, b = w.pick2(rng, lambda x, y: x.n == y.n and is_mpo(x)
                       and is_mps(y) and all(s[0] == t[0] for s, t in
                                             zip(x.pshape, y.pshape)))
        if a is None:
            return None
        c = None
        if rng.random() < 0.5:
            c = w.pick(rng, lambda h: h.pshape == w.h[b].pshape)
        return dict(a=a, b=b, c=c)

    @staticmethod
    def run(w, o):
        a, b = w.get(o['a']), w.get(o['b'])
        need(a.n == b.n and is_mpo(a) and is_mps(b))
        need(all(s[0] == t[0] for s, t in zip(a.pshape, b.pshape)))
        c = b
        if o['c'] is not None:
            c = w.get(o['c'])
            need(c.pshape == b.pshape)
            got = w.lib(lambda: mp.sandwich(a.mpa, b.mpa, c.mpa))
        else:
            got = w.lib(lambda: mp.sandwich(a.mpa, b.mpa))
        v = contract_legs(a.dense, a.pshape, b.dense, b.pshape,
                          [[1]] * a.n, [[0]] * a.n)
        w.value(got, np.vdot(c.dense, v), a.scale * b.scale * c.scale,
                ['C02'], 'sandwich')


@op('inner_prod_mps', 0.3)
class InnerProdMps(object):
    @staticmethod
    def gen(w, rng):
        a, b = w.pick2(rng, lambda x, y: is_mps(x) and x.pshape == y.pshape
                       and all(r == 1 for r in x.mpa.ranks))
        return None if a is None else dict(a=a, b=b)

    @staticmethod
    def run(w, o):
        a, b = w.get(o['a']), w.get(o['b'])
        need(is_mps(a) and a.pshape == b.pshape)
        need(all(r == 1 for r in a.mpa.ranks))
        got = w.lib(lambda: mp.special.inner_prod_mps(a.mpa, b.mpa))
        w.value(got, np.vdot(a.dense, b.dense), a.scale * b.scale, ['C02'],
                'inner_prod_mps')


@op('localouter', 0.6)
class LocalOuter(object):
    @staticmethod
    def gen(w, rng):
        a, b = w.pick2(rng, lambda x, y: x.n == y.n and prod_ranks_ok(x, y)
                       and size_of(x.pshape) * size_of(y.pshape) <= MAX_DENSE)
        return None if a is None else dict(a=a, b=b, out=w.fresh())

    @staticmethod
    def run(w, o):
        a, b = w.get(o['a']), w.get(o['b'])
        need(a.n == b.n and prod_ranks_ok(a, b))
        need(size_of(a.pshape) * size_of(b.pshape) <= MAX_DENSE)
        res = w.lib(lambda: mp.localouter(a.mpa, b.mpa))
        d = contract_legs(a.dense, a.pshape, b.dense, b.pshape,
                          [[]] * a.n, [[]] * a.n)
        w.add(o['out'], res, d, [s + t for s, t in zip(a.pshape, b.pshape)],
              a.scale * b.scale)


@op('chain', 0.8)
class Chain(object):
    @staticmethod
    def gen(w, rng):
        ids = [w.pick(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
        if None in ids or size_of([s for i in ids
                                   for s in w.h[i].pshape]) > MAX_DENSE \
                or sum(w.h[i].n for i in ids) > 12:
            return None
        return dict(a=ids[0], ids=ids, out=w.fresh(),
                    lazy=rng.random() < 0.3)

    @staticmethod
    def run(w, o):
        hs = [w.get(i) for i in o['ids']]
        ps = sum((h.pshape for h in hs), ())
        need(size_of(ps) <= MAX_DENSE and len(ps) <= 12)
        ms = [h.mpa for h in hs]
        res = w.lib(lambda: mp.chain(iter(ms) if o['lazy'] else ms))
        d, sc = hs[0].dense, hs[0].scale
        for h in hs[1:]:
            d, sc = K.tensordot(d, h.dense, axes=0), sc * h.scale
        w.add(o['out'], res, d, ps, sc)


@op('inject', 0.7)
class Inject(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: h.n <= 6)
        if a is None:
            return None
        h = w.h[a]
        k = rng.random()
        o = dict(a=a, out=w.fresh(), s=rng.getrandbits(31))
        if k < 0.35:
            o.update(pos=rng.randint(0, h.n), num=rng.choice([0, 1, 2]),
                     ten=rng.choice([None, [2], [2, 2], []]))
        elif k < 0.6:
            o.update(pos=rng.randint(0, h.n), num=None,
                     ten=[rng.choice([[2], [1, 2], []])
                          for _ in range(rng.choice([1, 2]))])
        else:
            m = rng.randint(1, min(2, h.n + 1))
            pos = sorted(rng.sample(range(h.n + 1), m))
            num, ten = [], []
            for _ in pos:
                if rng.random() < 0.5:
                    num.append(rng.choice([1, 2]))
                    ten.append(rng.choice([None, [2], [2, 3]]))
                else:
                    num.append(None)
                    ten.append([rng.choice([[2], [1]])
                                for _ in range(rng.choice([1, 2]))])
            o.update(pos=pos, num=num, ten=ten)
        return o

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        rs = np.random.RandomState(o['s'])
        multi = isinstance(o['pos'], list)
        pos = o['pos'] if multi else [o['pos']]
        num = o['num'] if multi else [o['num']]
        ten = o['ten'] if multi else [o['ten']]
        need(len(pos) and max(pos) <= a.n)
        new, arg = {}, []
        for p, k, t in zip(pos, num, ten):
            if k is None:
                ts = [nrand(rs, tuple(s), 'f') for s in t]
                arg.append(ts)
                new[p] = ts
            elif t is None:
                site = a.pshape[p] if p < a.n else a.pshape[-1]
                need(len(site) > 0)
                arg.append(None)
                new[p] = [K.eye(site[0])] * k
            else:
                x = nrand(rs, tuple(t), 'f')
                w.watch('the tensor given to inject', x)
                arg.append(x)
                new[p] = [x] * k
        ps, order, cur = [], [], 0
        # build: tensor product, then move the injected legs into place
        extra, d, sc = [], a.dense, a.scale
        base = d.ndim
        ax = axes_of(a.pshape)
        for p in range(a.n + 1):
            for x in new.get(p, []):
                ps.append(tuple(x.shape))
                order += list(range(base, base + x.ndim))
                base += x.ndim
                extra.append(x)
            if p < a.n:
                ps.append(a.pshape[p])
                order += ax[p]
        need(size_of(ps) <= MAX_DENSE and len(ps) <= 12)
        for x in extra:
            d, sc = K.tensordot(d, x, axes=0), sc * max(l2(x), 1e-30)
        d = K.transpose(d, order)
        if multi:
            res = w.lib(lambda: mp.inject(a.mpa, tuple(pos), tuple(num), arg))
        else:
            res = w.lib(lambda: mp.inject(a.mpa, pos[0], num[0], arg[0]))
        # internal identity matrices have norm sqrt(rank)
        w.add(o['out'], res, d, ps, sc)


@op('diag', 0.5)
class Diag(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: ndims_const(h) and h.pshape[0])
        if a is None:
            return None
        h = w.h[a]
        ok = [i for i in range(len(h.pshape[0]))
              if len(set(s[i] for s in h.pshape)) == 1]
        if not ok:
            return None
        return dict(a=a, axis=rng.choice(ok), out=w.fresh())

    @staticmethod
    def run(w, o):
        a, x = w.get(o['a']), o['axis']
        need(ndims_const(a) and len(a.pshape[0]) > x)
        need(len(set(s[x] for s in a.pshape)) == 1)
        res = w.lib(lambda: mp.diag(a.mpa, axis=x))
        dim = a.pshape[0][x]
        ax = axes_of(a.pshape)
        for i in range(dim):
            sl = [slice(None)] * a.dense.ndim
            for s in ax:
                sl[s[x]] = i
            d = a.dense[tuple(sl)]
            if len(a.pshape[0]) == 1:
                w.value(res[i], d, a.scale, ['C02'], 'diag')
            else:
                ps = tuple(s[:x] + s[x + 1:] for s in a.pshape)
                if tuple(tuple(t) for t in res[i].shape) != ps:
                    raise Violation(['C02'], 'shape:diag', 'wrong shape')
                w.value(dense_of(res[i]), d, a.scale, ['C02'], 'diag')
        if len(res) != dim:
            raise Violation(['C02'], 'shape:diag', 'wrong number of entries')


@op('trace', 0.8)
class Trace(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: any(len(s) >= 2 and s[0] == s[1]
                                      for s in h.pshape))
        if a is None:
            return None
        h = w.h[a]
        o = dict(a=a, out=w.fresh())
        if is_mpo(h) and rng.random() < 0.4:
            o['axes'] = 'all' if rng.random() < 0.5 else 'default'
            o['scalar'] = rng.random() < 0.6
            return o
        axes = []
        for s in h.pshape:
            opts = [(i, j) for i in range(len(s)) for j in range(len(s))
                    if i != j and s[i] == s[j]]
            if opts and rng.random() < 0.6:
                i, j = rng.choice(opts)
                if rng.random() < 0.2:
                    i, j = i - len(s), j - len(s)
                axes.append([i, j])
            else:
                axes.append(None)
        o['axes'] = axes
        o['scalar'] = False
        return o

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        if o['axes'] in ('all', 'default'):
            need(is_mpo(a))
            per = [(0, 1)] * a.n
        else:
            need(len(o['axes']) == a.n)
            per = [None if p is None else tuple(x % len(s) for x in p)
                   for p, s in zip(o['axes'], a.pshape)
                   if p is None or len(s) > 0]
            need(len(per) == a.n)
            need(all(p is None or (p[0] != p[1] and max(p) < len(s) and
                                   s[p[0]] == s[p[1]])
                     for p, s in zip(per, a.pshape)))
        d, off, ps = a.dense, 0, []
        for s, p in zip(a.pshape, per):
            if p is None:
                ps.append(s)
                off += len(s)
            else:
                d = K.trace(d, axis1=off + p[0], axis2=off + p[1])
                ps.append(tuple(x for i, x in enumerate(s) if i not in p))
                off += len(s) - 2
        d, ps = prune_model(np.asarray(d), tuple(ps))
        sc = a.scale * max(1.0, size_of(a.pshape)) ** 0.25
        arg = {'all': ((0, 1),), 'default': ()}.get(
            o['axes'] if isinstance(o['axes'], str) else None)
        if arg is None:
            arg = ([None if p is None else tuple(p) for p in o['axes']],)
        if o['scalar']:
            got = w.lib(lambda: mp.trace(a.mpa, *arg))
            w.value(got, d, sc, ['C02'], 'trace')
        else:
            res = w.lib(lambda: mp.partialtrace(a.mpa, *arg))
            w.add(o['out'], res, d, ps, sc)


@op('embed', 0.5)
class Embed(object):
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: h.n <= 4)
        if a is None:
            return None
        h = w.h[a]
        length = h.n + rng.randint(0, 2)
        ten = None
        if not (len(h.pshape[0]) == 2 and h.pshape[0][0] == h.pshape[0][1]) \
                or rng.random() < 0.3:
            ten = list(h.pshape[0])
        return dict(a=a, length=length, start=rng.randint(0, length - h.n),
                    ten=ten, out=w.fresh(), s=rng.getrandbits(31))

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        st, L = o['start'], o['length']
        need(st + a.n <= L)
        if o['ten'] is None:
            s = a.pshape[0]
            need(len(s) == 2 and s[0] == s[1])
            t, arg = K.eye(s[0]), None
        else:
            t = arg = nrand(np.random.RandomState(o['s']), tuple(o['ten']),
                            'f')
            w.watch('the embedding tensor', t)
        ps = ((tuple(t.shape),) * st + a.pshape +
              (tuple(t.shape),) * (L - st - a.n))
        need(size_of(ps) <= MAX_DENSE)
        d, sc = np.ones(()), a.scale
        for k in range(st):
            d, sc = K.tensordot(d, t, axes=0), sc * max(1, l2(t))
        d = K.tensordot(d, a.dense, axes=0)
        for k in range(L - st - a.n):
            d, sc = K.tensordot(d, t, axes=0), sc * max(1, l2(t))
        res = w.lib(lambda: mp.embed_slice(L, slice(st, st + a.n), a.mpa,
                                           embed_tensor=arg))
        w.add(o['out'], res, d, ps, sc)


@op('local_sum', 0.7)
class LocalSum(object):
    @staticmethod
    def gen(w, rng):
        width = rng.choice([1, 1, 2, 2, 3])
        k = rng.randint(1, 4)
        d = rng.choice([2, 2, 3])
        L = width + k - 1
        legs = rng.choice([1, 2, 2])
        if d ** (legs * L) > MAX_DENSE:
            return None
        slices = None
        if rng.random() < 0.4:
            slices = [rng.randint(0, L - width) for _ in range(k)]
            if rng.random() < 0.3:
                slices = list(range(k))
        return dict(width=width, k=k, d=d, legs=legs, slices=slices, L=L,
                    r=rng.choice([1, 2, 3]), out=w.fresh(),
                    dt=''.join(rng.choice('fc') for _ in range(k)),
                    ten=legs != 2 or rng.random() < 0.3,
                    s=rng.getrandbits(31))

    @staticmethod
    def run(w, o):
        rs = np.random.RandomState(o['s'])
        width, k, d, legs, L = (o[x] for x in ('width', 'k', 'd', 'legs',
                                               'L'))
        sh = (d,) * legs
        ten = nrand(rs, sh, 'f') if o['ten'] else None
        T = ten if ten is not None else K.eye(d)
        need(o['ten'] or legs == 2)
        mpas, dens = [], []
        for j in range(k):
            ts = [nrand(rs, ((1 if i == 0 else o['r']),) + sh +
                        ((1 if i == width - 1 else o['r']),), o['dt'][j])
                  for i in range(width)]
            mpas.append(MPArray(ts))
            dens.append(contract(ts)[0, ..., 0])
        starts = o['slices'] if o['slices'] is not None else list(range(k))
        total, sc = 0, 0
        for st, x, m in zip(starts, dens, mpas):
            need(st + width <= L)
            e = np.ones(())
            for _ in range(st):
                e = K.tensordot(e, T, axes=0)
            e = K.tensordot(e, x, axes=0)
            for _ in range(L - st - width):
                e = K.tensordot(e, T, axes=0)
            total = total + e
            sc += norm_product(m) * max(1, l2(T)) ** (L - width)
        if o['slices'] is not None:
            sl = [slice(st, st + width) for st in starts]
            res = w.lib(lambda: mp.local_sum(mpas, embed_tensor=ten, length=L,
                                             slices=iter(sl)))
        else:
            res = w.lib(lambda: mp.local_sum(mpas, embed_tensor=ten))
        w.add(o['out'], res, total, (sh,) * L, sc)


# ---------------------------------------------------------------------------
#  local tensor updates
# ---------------------------------------------------------------------------
@op('update', 2.0)
class Update(object):
    """Replace one local tensor, possibly with a canonical flag."""
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, w.free)
        if a is None:
            return None
        n = w.h[a].n
        return dict(a=a, site=rng.randrange(n), s=rng.getrandbits(31),
                    neg=rng.random() < 0.2,
                    flag=rng.choice([None, None, 'left', 'right']),
                    how=rng.choice(['update', 'update', 'setitem', 'bad']))

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        need(w.free(a) and o['site'] < a.n)
        i = o['site']
        old = np.asarray(a.mpa.lt[i])
        rs = np.random.RandomState(o['s'])
        t = nrand(rs, old.shape, 'c' if o['s'] % 2 else 'f')
        t = t * (1.2 / max(l2(t), 1e-9))
        flag = o['flag'] if o['how'] == 'update' else None
        if flag == 'left':
            m = t.reshape((-1, t.shape[-1]))
            need(m.shape[0] >= m.shape[1])
            t = K.qr(m)[0].reshape(t.shape)
        elif flag == 'right':
            m = t.reshape((t.shape[0], -1))
            need(m.shape[1] >= m.shape[0])
            t = K.qr(m.conj().T)[0].conj().T.reshape(t.shape)
        idx = i - a.n if o['neg'] else i
        w.touched.add(a.id)
        if o['how'] == 'bad':
            bad = nrand(rs, (old.shape[0] + 1,) + old.shape[1:], 'f')
            w.inplace = (a, [a.dense], None)
            w.lib(lambda: a.mpa.lt.update(idx, bad), reject=True)
            raise Violation(['C01', 'C02'], 'bad-argument-accepted:update',
                            'a tensor with mismatching bond was accepted')
        w.watch('the tensor given to lt.update', t)
        ts = [np.asarray(a.mpa.lt[k]) for k in range(a.n)]
        ts[i] = t
        new = contract(ts)[0, ..., 0]
        w.inplace = (a, [a.dense, new], None)
        if o['how'] == 'setitem':
            def body():
                a.mpa.lt[idx] = t
        elif flag is None:
            def body():
                a.mpa.lt.update(idx, t)
        else:
            def body():
                a.mpa.lt.update(idx, t, canonicalization=flag)
        w.lib(body)
        a.dense = np.array(new)
        a.scale = norm_product(a.mpa)


@op('update_slice', 1.5)
class UpdateSlice(object):
    """Replace several neighbouring local tensors at once: a change of gauge
    (same tensor), new tensors with other ranks, flags per site or one flag
    for all."""
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng, lambda h: h.n > 1 and rank_ok(h))
        if a is None:
            return None
        h = w.h[a]
        i = rng.randrange(h.n - 1)
        j = rng.randint(i + 2, h.n)
        how = rng.choice(['gauge', 'gauge', 'gauge-flag', 'fresh',
                          'left', 'left-str', 'bad'])
        if not w.free(h) and how in ('fresh', 'left', 'left-str'):
            how = 'gauge'
        return dict(a=a, i=i, j=j, how=how, s=rng.getrandbits(31),
                    open_end=rng.random() < 0.3)

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        i, j, how = o['i'], o['j'], o['how']
        need(a.n > 1 and i + 2 <= j <= a.n and rank_ok(a))
        rs = np.random.RandomState(o['s'])
        ts = [np.asarray(a.mpa.lt[k]) for k in range(a.n)]
        new = [np.array(t) for t in ts[i:j]]
        canon = None
        if how in ('gauge', 'bad'):
            for k in range(len(new) - 1):
                r = new[k].shape[-1]
                q = K.qr(nrand(rs, (r, r), 'f'))[0]
                d = np.linspace(0.7, 1.4, r)
                new[k] = K.tensordot(new[k], q * d, axes=(-1, 0))
                new[k + 1] = K.tensordot((q / d).T, new[k + 1], axes=(-1, 0))
        elif how == 'gauge-flag':
            # left-orthogonalise everything but the last one
            canon = []
            for k in range(len(new) - 1):
                s = new[k].shape
                q, r = K.qr(new[k].reshape((-1, s[-1])))
                new[k] = q.reshape(s[:-1] + (-1,))
                new[k + 1] = K.tensordot(r, new[k + 1], axes=(-1, 0))
                canon.append('left')
            canon.append(None)
        else:
            need(w.free(a))
            ranks = [t.shape[0] for t in new] + [new[-1].shape[-1]]
            if how == 'fresh':
                for k in range(1, len(new)):
                    ranks[k] = rs.randint(1, 4)
            for k, t in enumerate(new):
                x = nrand(rs, (ranks[k],) + t.shape[1:-1] + (ranks[k + 1],),
                          'f')
                if how in ('left', 'left-str'):
                    m = x.reshape((-1, x.shape[-1]))
                    need(m.shape[0] >= m.shape[1])
                    x = K.qr(m)[0].reshape(x.shape)
                else:
                    x = x * (1.2 / max(l2(x), 1e-9))
                new[k] = x
            if how == 'left':
                canon = ['left'] * len(new)
            elif how == 'left-str':
                canon = 'left'
        w.touched.add(a.id)
        sl = slice(i, None if o['open_end'] and j == a.n else j)
        if how == 'bad':
            new[-1] = K.concatenate([new[-1]] * 2, axis=-1)
            w.inplace = (a, [a.dense], None)
            w.lib(lambda: a.mpa.lt.update(sl, new), reject=True)
            raise Violation(['C01', 'C02'], 'bad-argument-accepted:update',
                            'a tensor with mismatching bond was accepted')
        full = contract(ts[:i] + new + ts[j:])[0, ..., 0]
        if how.startswith('gauge'):
            full = a.dense
        w.inplace = (a, [a.dense, full], None)
        if canon is None and o['s'] % 2:
            def body():
                a.mpa.lt[sl] = new
        elif canon is None:
            def body():
                a.mpa.lt.update(sl, tuple(new))
        else:
            def body():
                a.mpa.lt.update(sl, iter(new) if o['s'] % 2 else new,
                                canonicalization=canon)
        w.lib(body)
        if not how.startswith('gauge'):
            a.scale = norm_product(a.mpa)
        a.dense = np.array(full)


@op('lt_copy', 0.2)
class LtCopy(object):
    @staticmethod
    def gen(w, rng):
        return dict(a=w.pick(rng), out=w.fresh())

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        res = w.lib(lambda: MPArray(a.mpa.lt.copy()))
        w.add(o['out'], res, a.dense, a.pshape, a.scale)
        if tuple(res.canonical_form) != tuple(a.mpa.canonical_form):
            raise Violation(['C01'], 'form:lt_copy', 'copy changed the form')


@op('reload', 0.3)
class Reload(object):
    """Save to an (in-memory) file and load again."""
    @staticmethod
    def gen(w, rng):
        return dict(a=w.pick(rng), out=w.fresh())

    @staticmethod
    def run(w, o):
        a = w.get(o['a'])
        need(o['out'] not in w.h)
        with h5py.File('reload', 'w', driver='core',
                       backing_store=False) as f:
            g = f.create_group('x')
            w.lib(lambda: a.mpa.dump(g), tags=['C02', 'C06'])
            res = w.lib(lambda: MPArray.load(g), tags=['C02', 'C06'])
        w.add(o['out'], res, a.dense, a.pshape, a.scale, tags=['C02', 'C06'])
        if tuple(res.canonical_form) != tuple(a.mpa.canonical_form):
            raise Violation(['C01', 'C06'], 'form:reload',
                            'the loaded array has another form')


# ---------------------------------------------------------------------------
#  MPS / MPO / PMPS conversion
# ---------------------------------------------------------------------------
def dm_of_pmps(dense, pshape):
    """Density matrix (local form, legs (row, col) per site) of a PMPS."""
    n = len(pshape)
    rho = contract_legs(dense, pshape, dense.conj(), pshape, [[1]] * n,
                        [[1]] * n)
    return rho, tuple((s[0], s[0]) for s in pshape)


def dm_of_mps(dense, pshape):
    n = len(pshape)
    rho = contract_legs(dense, pshape, dense.conj(), pshape, [[]] * n,
                        [[]] * n)
    return rho, tuple((s[0], s[0]) for s in pshape)


def reduce_dm(rho, pshape, keep):
    """Partial trace of a local-form density matrix, keep sites `keep`."""
    off, d, ps = 0, rho, []
    for i, s in enumerate(pshape):
        if i in keep:
            ps.append(s)
            off += 2
        else:
            d = K.trace(d, axis1=off, axis2=off + 1)
    return np.asarray(d), tuple(ps)


@op('convert', 0.8)
class Convert(object):
    @staticmethod
    def gen(w, rng):
        fn = rng.choice(['mps_to_mpo', 'mps_to_pmps', 'pmps_to_mpo',
                         'pmps_to_mps', 'pmps_dm_to_array',
                         'pmps_reduction'])
        pred = is_mps if fn.startswith('mps') else is_two
        if fn == 'pmps_to_mps':
            def pred(h):
                return is_two(h) and all(s[1] == 1 for s in h.pshape)
        a = w.pick(rng, lambda h: pred(h) and rank_ok(h))
        if a is None and fn == 'pmps_to_mps':
            fn, a = 'mps_to_pmps', w.pick(rng, lambda h: is_mps(h)
                                          and rank_ok(h))
        if a is None:
            return None
        n = w.h[a].n
        sup = sorted(rng.sample(range(n), rng.randint(1, n)))
        if n > 2 and rng.random() < .3:
            sup = [0, n - 1]
        return dict(a=a, fn=fn, out=w.fresh(), sup=sup,
                    glob=rng.random() < .4)

    @staticmethod
    def run(w, o):
        a, fn = w.get(o['a']), o['fn']
        if fn.startswith('mps'):
            need(is_mps(a))
        else:
            need(is_two(a))
        need(prod_ranks_ok(a, a))
        sz = size_of([(s[0],) for s in a.pshape])
        need(sz * sz <= MAX_DENSE)
        if fn == 'mps_to_pmps':
            res = w.lib(lambda: mpsmpo.mps_to_pmps(a.mpa))
            w.add(o['out'], res, a.dense.reshape(flat([s + (1,) for s in
                                                       a.pshape])),
                  [s + (1,) for s in a.pshape], a.scale)
        elif fn == 'mps_to_mpo':
            res = w.lib(lambda: mpsmpo.mps_to_mpo(a.mpa))
            d, ps = dm_of_mps(a.dense, a.pshape)
            w.add(o['out'], res, d, ps, a.scale ** 2)
        elif fn == 'pmps_to_mpo':
            res = w.lib(lambda: mpsmpo.pmps_to_mpo(a.mpa))
            d, ps = dm_of_pmps(a.dense, a.pshape)
            w.add(o['out'], res, d, ps, a.scale ** 2)
        elif fn == 'pmps_to_mps':
            need(all(s[1] == 1 for s in a.pshape))
            res = w.lib(lambda: mpsmpo.pmps_to_mps(a.mpa))
            w.add(o['out'], res, a.dense.reshape([s[0] for s in a.pshape]),
                  [s[:1] for s in a.pshape], a.scale)
        elif fn == 'pmps_dm_to_array':
            d, ps = dm_of_pmps(a.dense, a.pshape)
            d = d.reshape([x for x in d.shape if x > 1])
            glob = o.get('glob') and len(set(d.shape)) == 1
            res = w.lib(lambda: mpsmpo.pmps_dm_to_array(a.mpa, global_=True)
                        if glob else mpsmpo.pmps_dm_to_array(a.mpa))
            if glob:
                d = K.transpose(d, list(range(0, d.ndim, 2)) +
                                list(range(1, d.ndim, 2)))
            w.value(res, d, a.scale ** 2, ['C02'], 'pmps_dm_to_array')
        else:
            need(max(o['sup']) < a.n)
            w.touched.add(a.id)      # canonicalised in place
            w.inplace = (a, [a.dense], None)
            res = w.lib(lambda: mpsmpo.pmps_reduction(a.mpa, o['sup']))
            d, ps = dm_of_pmps(a.dense, a.pshape)
            d, ps = reduce_dm(d, ps, o['sup'])
            if not isinstance(res, MPArray) or len(res) != (
                    max(o['sup']) - min(o['sup']) + 1):
                raise Violation(['C02'], 'shape:pmps_reduction', 'bad result')
            err = structure_error(res)
            if err:
                raise Violation(['C02', 'C01'], 'structure:pmps_reduction',
                                err)
            got, gps = dm_of_pmps(dense_of(res), tuple(
                tuple(s) for s in res.shape))
            w.value(got.reshape([x for x in got.shape if x > 1]),
                    d.reshape([x for x in d.shape if x > 1]),
                    a.scale ** 2, ['C02'], 'pmps_reduction')


# ---------------------------------------------------------------------------
#  lazy iterators
# ---------------------------------------------------------------------------
def windows(rng, n):
    k = rng.random()
    if k < 0.5:
        return dict(width=rng.randint(1, n))
    if k < 0.75:
        width = rng.randint(1, n)
        return dict(width=width, startsites=[
            rng.randint(0, n - width) for _ in range(rng.choice([1, 2, 3]))])
    starts = [rng.randint(0, n - 1) for _ in range(rng.choice([1, 2, 3, 4]))]
    return dict(startsites=starts,
                stopsites=[rng.randint(s + 1, n) for s in starts])


def window_list(n, kw):
    if 'stopsites' in kw:
        return list(zip(kw['startsites'], kw['stopsites']))
    st = kw.get('startsites', range(n - kw['width'] + 1))
    return [(s, s + kw['width']) for s in st]


def pauli_like(d):
    return mp.povm.pauli_povm(d)


@op('iter_open', 1.0, ['iter'])
class IterOpen(object):
    @staticmethod
    def gen(w, rng):
        kind = rng.choice(['singularvals', 'singularvals', 'axis_iter',
                           'red_mpo', 'red_mpo', 'red_pmps', 'red_pmps',
                           'red_mps_pmps', 'red_mps_mpo', 'red_any',
                           'expect', 'pmflist'])
        if kind == 'singularvals':
            a = w.pick(rng, lambda h: h.n > 1 and rank_ok(h))
        elif kind == 'axis_iter':
            a = w.pick(rng, lambda h: all(h.pshape) and
                       size_of([(s[0],) for s in h.pshape]) <= 200)
        elif kind == 'red_mpo':
            a = w.pick(rng, lambda h: is_mpo(h) and rank_ok(h))
        elif kind in ('red_pmps',):
            a = w.pick(rng, lambda h: is_two(h) and rank_ok(h))
        elif kind in ('expect', 'pmflist'):
            a = w.pick(rng, lambda h: (is_mps(h) or is_two(h)) and rank_ok(h)
                       and max(h.mpa.ranks or (1,)) <= 8)
        elif kind == 'red_any':
            a = w.pick(rng, lambda h: (is_mps(h) or is_two(h)) and rank_ok(h))
        else:
            a = w.pick(rng, lambda h: is_mps(h) and rank_ok(h))
        if a is None:
            return None
        h = w.h[a]
        o = dict(a=a, it=w.fresh(), kind=kind)
        if kind == 'axis_iter':
            o['axes'] = ([rng.randrange(len(s)) for s in h.pshape]
                         if rng.random() < 0.5 else 0)
        elif kind.startswith('red'):
            o['win'] = windows(rng, h.n)
            if kind == 'red_any':
                o['mode'] = 'mps' if is_mps(h) else rng.choice(
                    ['pmps', 'mpdo'] if is_mpo(h) else ['pmps'])
        elif kind in ('expect', 'pmflist'):
            o['mode'] = 'mps' if is_mps(h) else rng.choice(
                ['pmps', 'mpdo'] if is_mpo(h) else ['pmps'])
            o['width'] = rng.randint(1, min(h.n, 3))
            o['s'] = rng.getrandbits(31)
        return o

    @staticmethod
    def run(w, o):
        a, kind = w.get(o['a']), o['kind']
        need(rank_ok(a) and o['it'] not in w.iters)
        tags = ['C10']
        exp = []
        lz = Iter()
        win = dict(o.get('win', {}))
        ri = {k: (iter(v) if k != 'width' and o['it'] % 2 else v)
              for k, v in win.items()}
        d, ps, n = a.dense, a.pshape, a.n
        if kind == 'singularvals':
            need(n > 1)
            it_ = w.lib(lambda: a.mpa.singularvals(), tags)
            exp = [('sv', cut) for cut in range(1, n)]
        elif kind == 'axis_iter':
            need(all(ps))
            axes = o['axes']
            per = axes if isinstance(axes, list) else [axes] * n
            need(len(per) == n and all(x < len(s) for x, s in zip(per, ps)))
            need(size_of([(s[x],) for x, s in zip(per, ps)]) <= 200)
            it_ = w.lib(lambda: a.mpa.axis_iter(axes), tags)
            ax = axes_of(ps)
            nps = tuple(s[:x] + s[x + 1:] for s, x in zip(ps, per))
            for idx in it.product(*(range(s[x]) for s, x in zip(ps, per))):
                sl = [slice(None)] * d.ndim
                for i, v in enumerate(idx):
                    sl[ax[i][per[i]]] = v
                exp.append(('mpa', d[tuple(sl)], nps, a.scale))
        elif kind.startswith('red'):
            ws = window_list(n, win)
            need(all(0 <= s < e <= n for s, e in ws))
            mode = {'red_mpo': 'mpdo', 'red_pmps': 'pmps'}.get(kind, 'mps')
            if kind == 'red_any':
                mode = o['mode']
            if mode == 'mpdo':
                need(is_mpo(a))
                rho, rps, sc = d, ps, a.scale * size_of(ps) ** 0.25
            elif mode == 'pmps':
                need(is_two(a))
                sz = size_of([(s[0],) for s in ps])
                need(sz * sz <= MAX_DENSE)
                (rho, rps), sc = dm_of_pmps(d, ps), a.scale ** 2
            else:
                need(is_mps(a))
                need(size_of(ps) ** 2 <= MAX_DENSE)
                (rho, rps), sc = dm_of_mps(d, ps), a.scale ** 2
            if kind == 'red_any':
                it_, m = w.lib(lambda: mpsmpo.reductions(a.mpa, mode, **ri),
                               tags)
                if m != {'mps': 'pmps'}.get(mode, mode):
                    raise Violation(tags, 'value:reductions', 'mode %r' % m)
                rep = 'mpo' if mode == 'mpdo' else 'pmps'
            else:
                fn = {'red_mpo': mpsmpo.reductions_mpo,
                      'red_pmps': mpsmpo.reductions_pmps,
                      'red_mps_pmps': mpsmpo.reductions_mps_as_pmps,
                      'red_mps_mpo': mpsmpo.reductions_mps_as_mpo}[kind]
                it_ = w.lib(lambda: fn(a.mpa, **ri), tags)
                rep = 'mpo' if kind in ('red_mpo', 'red_mps_mpo') else 'pmps'
            for s, e in ws:
                x, xps = reduce_dm(rho, rps, range(s, e))
                exp.append((rep, x, xps, sc))
        else:
            mode = o['mode']
            if mode == 'mpdo':
                need(is_mpo(a))
                rho, rps, sc = d, ps, a.scale * size_of(ps) ** 0.25
            elif mode == 'pmps':
                need(is_two(a))
                need(size_of([(s[0],) for s in ps]) ** 2 <= MAX_DENSE)
                (rho, rps), sc = dm_of_pmps(d, ps), a.scale ** 2
            else:
                need(is_mps(a) and size_of(ps) ** 2 <= MAX_DENSE)
                (rho, rps), sc = dm_of_mps(d, ps), a.scale ** 2
            need(max(a.mpa.ranks or (1,)) <= 8)
            dims = [s[0] for s in ps]
            need(len(set(dims)) == 1 and dims[0] > 1)
            dd = dims[0]
            width = o['width'] if kind == 'expect' else n
            need(dd <= 9)
            need(width <= n and (dd * dd + 3) ** width <= 1500)
            elems = np.array(list(pauli_like(dd)))
            povm = mp.povm.MPPovm.from_local_povm(pauli_like(dd), width)
            if kind == 'expect':
                it_ = w.lib(lambda: povm.expectations(a.mpa, mode=mode), tags)
                wins = [(s, s + width) for s in range(n - width + 1)]
            else:
                need(n <= 3)
                lst = mp.povm.MPPovmList([povm, povm, povm])
                it_ = w.lib(lambda: lst.pmf(a.mpa, mode=mode), tags)
                wins = [(0, n)] * 3
            for s, e in wins:
                x, xps = reduce_dm(rho, rps, range(s, e))
                for _ in range(e - s):
                    # contract (row, col) of the first remaining site
                    x = K.tensordot(x, elems, axes=((0, 1), (2, 1)))
                exp.append(('mpa', x, ((len(elems),),) * (e - s), sc))
        lz.id, lz.it, lz.expected, lz.pos = o['it'], it_, exp, 0
        lz.src, lz.done, lz.kind = a, False, kind
        w.iters[o['it']] = lz
        a.nopen += 1
        w.touched.add(a.id)


@op('iter_next', 2.0, ['iter'])
class IterNext(object):
    @staticmethod
    def gen(w, rng):
        ids = [i for i in sorted(w.iters) if not w.iters[i].done]
        if not ids:
            return None
        return dict(it=rng.choice(ids), out=w.fresh())

    @staticmethod
    def run(w, o):
        need(o['it'] in w.iters)
        z = w.iters[o['it']]
        need(not z.done)
        a = z.src
        need(a.id in w.h)
        w.touched.add(a.id)
        w.inplace = (a, [a.dense], None)
        tags = ['C10', 'C02'] if z.kind == 'singularvals' else ['C10']
        open_others = sum(1 for k in w.iters.values()
                          if k is not z and k.src is a and not k.done)
        if open_others:
            w.stats.probe('iterators-interleaved-on-one-array')
        try:
            item = w.lib(lambda: next(z.it, None), tags,
                         what='next(%s)' % z.kind)
        except BaseException:
            z.done = True          # a generator is finished after raising
            a.nopen -= 1
            raise
        if item is None:
            if z.pos != len(z.expected):
                raise Violation(['C10'], 'short:' + z.kind,
                                '%s ended after %d of %d items'
                                % (z.kind, z.pos, len(z.expected)))
            z.done = True
            a.nopen -= 1
            return
        if z.pos >= len(z.expected):
            raise Violation(['C10'], 'long:' + z.kind, 'too many items')
        e = z.expected[z.pos]
        z.pos += 1
        if e[0] == 'sv':
            check_svals(w, item, a.dense, a.pshape, e[1], a.scale,
                        ['C10', 'C02'])
            w.watch('singular values handed out', np.asarray(item))
        elif e[0] == 'mpa' or e[0] == 'mpo':
            w.add(o['out'], item, e[1], e[2], e[3], tags=['C10'])
        else:
            # a purification: check its density matrix, then track it
            err = structure_error(item)
            if err:
                raise Violation(['C10', 'C01'], 'structure:' + z.kind, err)
            ips = tuple(tuple(s) for s in item.shape)
            rho, rps = dm_of_pmps(dense_of(item), ips)
            if rps != tuple(e[2]):
                raise Violation(['C10'], 'shape:' + z.kind, 'wrong shape')
            w.value(rho, e[1], e[3], ['C10'], 'item of ' + z.kind)
            w.add(o['out'], item, dense_of(item), ips, norm_product(item),
                  tags=['C10'])


@op('iter_close', 0.3, ['iter'])
class IterClose(object):
    @staticmethod
    def gen(w, rng):
        ids = sorted(w.iters)
        return dict(it=rng.choice(ids)) if ids else None

    @staticmethod
    def run(w, o):
        need(o['it'] in w.iters)
        z = w.iters.pop(o['it'])
        w.touched.add(z.src.id)
        if not z.done:
            z.src.nopen -= 1
            w.stats.probe('iterator-abandoned')
        if hasattr(z.it, 'close'):
            z.it.close()


@op('reject', 0.3)
class Reject(object):
    """Calls whose arguments must be refused; nothing may change."""
    @staticmethod
    def gen(w, rng):
        a = w.pick(rng)
        b = w.pick(rng)
        return dict(a=a, b=b, how=rng.choice(
            ['add-len', 'dot-len', 'inner-len', 'mul-array', 'reshape',
             'get-len', 'imul-array', 'sumup-len', 'localouter-len']))

    @staticmethod
    def run(w, o):
        a, b, how = w.get(o['a']), w.get(o['b']), o['how']
        if how.endswith('-len') and how != 'get-len':
            need(a.n != b.n)
        calls = {
            'add-len': lambda: a.mpa + b.mpa,
            'dot-len': lambda: mp.dot(a.mpa, b.mpa),
            'inner-len': lambda: mp.inner(a.mpa, b.mpa),
            'sumup-len': lambda: mp.sumup([a.mpa, b.mpa]),
            'localouter-len': lambda: mp.localouter(a.mpa, b.mpa),
            'mul-array': lambda: a.mpa * a.mpa,
            'imul-array': lambda: a.mpa.__imul__(K.ones(3)),
            'reshape': lambda: a.mpa.reshape([(7919,)] * a.n),
            'get-len': lambda: a.mpa.get((0,) * (a.n + 1)),
        }
        w.inplace = (a, [a.dense], None)
        w.lib(calls[how], reject=True)
