"""Client operations of the thread worlds.

Each function gets the client's environment and a generator private to the
operation, so that it does the same alone and interleaved.
"""
import functools as ft
import random as pyrandom

import numpy as np
import scipy.sparse.linalg

from .boot import K, mp
from .core import Skip, need
from .thread_world import (MPArray, OPS, PERT, RND, factory, gauge, mpp,
                           mpsmpo, op)

extmath = mp.utils.extmath
special = mp.special
MAXSIZE = 4096


def size(m):
    return float(np.prod([float(np.prod(s)) for s in m.shape]))


def maxrank(m):
    return max(m.ranks) if m.ranks else 1


def rstate(rng):
    return np.random.RandomState(rng.getrandbits(31))


# -- read-only operations on shared arrays ---------------------------------
@op(OPS)
def add(env, rng):
    a = env.pick(rng)
    return env.keep(a + env.same_shape(rng, a))


@op(OPS)
def sub(env, rng):
    a = env.pick(rng)
    return env.keep(a - env.same_shape(rng, a))


@op(OPS)
def mul(env, rng):
    a = env.pick(rng)
    f = rng.choice([2.0, -1.5, 1j, .5 + .25j, 1.0])
    return env.keep(rng.choice([lambda: a * f, lambda: f * a, lambda: a / f,
                                lambda: -a])())


@op(OPS, weight=1.5)
def dot(env, rng):
    a, b = env.pick(rng, 2), env.pick(rng, rng.choice([1, 2]))
    need(len(a) == len(b))
    need(all(s[-1] == t[0] for s, t in zip(a.shape, b.shape)))
    need(maxrank(a) * maxrank(b) <= 40)
    return env.keep(mp.dot(a, b))


@op(OPS)
def partialdot(env, rng):
    a, b = env.pick(rng, 2), env.sh[rng.choice(['mps1', 'mps2', 'mpo1'])]
    need(len(a) == len(b) and maxrank(a) * maxrank(b) <= 40)
    i = rng.randrange(len(b))
    j = rng.randint(i + 1, len(b))
    a = MPArray([a.lt[k] for k in range(i, j)]) if i == 0 and j == len(a) \
        else factory.random_mpo(j - i, b.shape[0][0], 2,
                                randstate=rstate(rng))
    need(all(s[-1] == t[0] for s, t in zip(a.shape, b.shape[i:j])))
    return env.keep(mp.partialdot(a, b, i))


@op(OPS, weight=1.5)
def inner(env, rng):
    a = env.pick(rng, 1)
    return mp.inner(a, env.same_shape(rng, a))


@op(OPS)
def sandwich(env, rng):
    a, b = env.pick(rng, 1), env.pick(rng, 2)
    need(len(a) == len(b))
    need(all(s[0] == t[0] == t[1] for s, t in zip(a.shape, b.shape)))
    if rng.random() < .5:
        return mp.sandwich(b, a)
    return mp.sandwich(b, a, env.same_shape(rng, a))


@op(OPS)
def to_array(env, rng):
    a = env.pick(rng)
    r = rng.choice([a.to_array, a.to_array_global])
    need(r == a.to_array or len(set(a.ndims)) == 1)
    x = r()
    out = x.copy()
    x[...] = 0   # belongs to the caller
    return out


@op(OPS)
def views(env, rng):
    a = env.pick(rng)
    k = rng.randrange(5)
    if k == 0:
        return env.keep(a.T)
    if k == 1:
        return env.keep(a.conj())
    if k == 2:
        return env.keep(a.adj())
    if k == 3:
        return env.keep(a.reverse())
    return env.keep(a.copy())


@op(OPS)
def transpose(env, rng):
    a = env.pick(rng)
    need(len(set(a.ndims)) == 1)
    axes = tuple(rng.sample(range(a.ndims[0]), a.ndims[0]))
    return env.keep(a.transpose(axes))


@op(OPS)
def reshape(env, rng):
    a = env.pick(rng)
    k = rng.randrange(4)
    if k == 0:
        return env.keep(a.ravel())
    if k == 1:
        return env.keep(a.reshape([(1,) + tuple(s) for s in a.shape]))
    n = len(a)
    g = rng.choice([x for x in range(1, n + 1) if n % x == 0])
    r = a.group_sites(g)
    if k == 3 and len(set(a.ndims)) == 1:
        r = r.split_sites(g)
    return env.keep(r)


@op(OPS)
def asum(env, rng):
    a = env.pick(rng)
    if rng.random() < .3:
        return a.sum()
    axes = [rng.choice([None, (), (rng.randrange(n),)] if n else [()])
            for n in a.ndims]
    return env.keep(a.sum(axes))


@op(OPS)
def vlegs(env, rng):
    a = env.pick(rng)
    need(len(a) > 1)
    pos = rng.randrange(len(a) - 1)
    if rng.random() < .5:
        l, r = a.split(pos)
        return [env.keep(l), env.keep(r)]
    b = a.vleg2leg(pos)
    if rng.random() < .5:
        return b
    return env.keep(b.leg2vleg(pos))


@op(OPS)
def get(env, rng):
    a = env.pick(rng)
    need(all(n >= 1 for n in a.ndims))
    idx = [rng.randrange(s[0]) for s in a.shape]
    return env.keep(a.get(idx, astype=MPArray))


@op(OPS)
def axis_iter(env, rng):
    a = env.pick(rng)
    need(all(n >= 1 for n in a.ndims))
    need(np.prod([s[0] for s in a.shape]) <= 30)
    return list(a.axis_iter(0))


@op(OPS)
def chain_inject(env, rng):
    a, b = env.pick(rng), env.pick(rng)
    k = rng.randrange(3)
    if k == 0:
        need(len(a) + len(b) <= 6 and size(a) * size(b) <= MAXSIZE)
        return env.keep(mp.chain([a, b], astype=MPArray))
    need(len(a) <= 4 and size(a) <= 1000)
    if k == 1:
        t = rstate(rng).randn(2)
        return env.keep(mp.inject(a, rng.randint(0, len(a)), 1, t))
    need(len(a) == len(b) and size(a) * size(b) <= MAXSIZE)
    return env.keep(mp.localouter(a, b))


@op(OPS)
def local_sum(env, rng):
    a, b = env.sh['mpo1'], env.sh['mpo2']
    need(len(a) <= 3 or a.shape[0][0] == 2)
    k = rng.randrange(2)
    n = len(a) + 1
    need((a.shape[0][0] ** 2) ** n <= MAXSIZE)
    if k == 0:
        return env.keep(mp.local_sum([a, b]))
    return env.keep(mp.local_sum([b, a, b, a][:3], length=n,
                                 slices=[slice(0, len(a)),
                                         slice(1, n), slice(1, n)]))


@op(OPS)
def partialtrace(env, rng):
    a = env.pick(rng, 2)
    need(all(s[0] == s[1] for s in a.shape))
    if rng.random() < .4:
        return mp.trace(a)
    axes = [rng.choice([None, (0, 1)]) for _ in a.shape]
    need(any(x is None for x in axes))
    r = mp.partialtrace(a, axes)
    return env.keep(mp.prune(r, rng.random() < .5))


@op(OPS)
def diag(env, rng):
    a = env.pick(rng, rng.choice([1, 2]))
    need(len(set(s[0] for s in a.shape)) == 1)
    return mp.diag(a)


@op(OPS)
def normdist(env, rng):
    a = env.pick(rng)
    return mp.normdist(a, env.same_shape(rng, a))


@op(OPS, weight=1.5)
def sumup(env, rng):
    a = env.pick(rng)
    ms = [a, env.same_shape(rng, a), env.same_shape(rng, a)][
        :rng.choice([2, 3])]
    w = [rng.uniform(-2, 2) for _ in ms]
    return env.keep(mp.sumup(ms, w if rng.random() < .7 else None))


@op(OPS)
def special_ops(env, rng):
    ps = [env.sh[k] for k in ('prod1', 'prod2', 'prod3')]
    if rng.random() < .5:
        return special.inner_prod_mps(rng.choice(ps), rng.choice(
            [env.sh['mps1'], env.sh['mps2'], ps[1]]))
    return env.keep(special.sumup(ps, rank=3, weights=rng.choice(
        [None, [.5, 2.0, -1.0]])))


@op(OPS, weight=2)
def compression(env, rng):
    a = env.pick(rng)
    need(len(a) > 1)
    kw = dict(rank=rng.choice([1, 2, 3]))
    if rng.random() < .5:
        return list(a.compression(
            'svd', direction=rng.choice(['left', 'right']), **kw))
    if rng.random() < .3:
        kw['svdfunc'] = ft.partial(extmath.randomized_svd,
                                   randstate=rstate(rng))
        return list(a.compression('svd', **kw))
    kw.update(num_sweeps=1, var_sites=rng.choice([1, 2]),
              randstate=rstate(rng))
    if rng.random() < .4:
        b = env.same_shape(rng, a)
        need(maxrank(b) <= maxrank(a))
        kw = dict(startmpa=b, num_sweeps=1, var_sites=1)
    return list(a.compression('var', **kw))


@op(OPS)
def pad_ranks(env, rng):
    a = env.pick(rng)
    return env.keep(a.pad_ranks(rng.choice([None, 3, 5]), rng.random() < .5))


@op(OPS, weight=1.5)
def convert(env, rng):
    k = rng.randrange(5)
    if k == 0:
        return env.keep(mpsmpo.mps_to_mpo(env.sh['mps1']))
    if k == 1:
        return env.keep(mpsmpo.mps_to_pmps(env.sh['mps2']))
    if k == 2:
        return env.keep(mpsmpo.pmps_to_mpo(env.sh['pmps1']))
    if k == 3:
        return mpsmpo.pmps_dm_to_array(env.sh['pmps1'])
    n = len(env.sh['pmps1'])
    sup = sorted(rng.sample(range(n), rng.randint(1, n)))
    return env.keep(mpsmpo.pmps_reduction(env.sh['pmps2'], sup))


@op(OPS, weight=3)
def reductions(env, rng):
    k = rng.randrange(4)
    n = len(env.sh['mps1'])
    w = rng.randint(1, n)
    if k == 0:
        it = mpsmpo.reductions_mpo(env.pick(rng, 2, own=0), w)
    elif k == 1:
        it = (mpsmpo.pmps_to_mpo(x) for x in mpsmpo.reductions_pmps(
            env.sh[rng.choice(['pmps1', 'pmps2'])], w))
    elif k == 2:
        it = (mpsmpo.pmps_to_mpo(x) for x in mpsmpo.reductions_mps_as_pmps(
            env.sh[rng.choice(['mps1', 'mps2'])], w))
    else:
        it = mpsmpo.reductions_mps_as_mpo(
            env.sh[rng.choice(['mps1', 'mps2'])], w)
    return list(it)


# -- measurements --------------------------------------------------------
@op(OPS, weight=2.5)
def pmf(env, rng):
    p = env.povm(rng)
    s, mode = env.state(rng)
    k = rng.randrange(4)
    if k == 0:
        return p.pmf(s, mode)
    if k == 1:
        return p.pmf_as_array(s, mode)
    if k == 2:
        need(mode != 'mpdo')
        st = mpsmpo.mps_to_pmps(s) if mode == 'mps' else s
        return p.pmf_as_array(st, 'pmps', impl=rng.choice(
            ['default', 'pmps-symm', 'pmps-ltr']))
    w = rng.randint(1, len(p))
    q = mpp.MPPovm.from_local_povm(mpp.x_povm(s.shape[0][0]), w)
    return list(q.expectations(s, mode))


@op(OPS, weight=1.5)
def sample(env, rng):
    p = env.povm(rng)
    s, mode = env.state(rng)
    return p.sample(rstate(rng), s, rng.choice([1, 3, 6]),
                    method=rng.choice(['cond', 'direct']),
                    n_group=rng.choice([1, 2]), mode=mode)


@op(OPS)
def sample_list(env, rng):
    s, mode = env.state(rng)
    return list(env.sh['mppl'].sample(rstate(rng), s, 2, 'direct',
                                      mode=mode))


@op(OPS)
def povm_misc(env, rng):
    p = env.povm(rng)
    k = rng.randrange(5)
    if k == 0:
        return p.match_elems(env.sh['povm2'])
    if k == 1:
        return p.probability_map
    if k == 2:
        return [p.outdims, p.hdims, p.nsoutdims]
    if k == 3:
        sam = np.array([[rng.randrange(d) for d in p.nsoutdims]
                        for _ in range(5)], np.uint8)
        return [p.est_pmf(sam), p.pack_samples(sam), p.unpack_samples(
            p.pack_samples(sam))]
    d = p.hdims[0]
    q = mpp.MPPovm.from_local_povm(mpp.y_povm(d), 1)
    return [q.embed(2, 0, d), q.block(2), q.repeat(2)]


@op(OPS)
def estimates(env, rng):
    l1, l2 = env.sh['mppl'], env.sh['mppl2']
    s, mode = env.state(rng)
    sam = [np.array([[rng.randrange(d) for d in m.nsoutdims]
                     for _ in range(rng.choice([4, 7]))], np.uint8)
           for m in l1.mpps]
    coeff = [rstate(rng).randn(*m.nsoutdims) for m in l2.mpps]
    k = rng.randrange(4)
    if k == 0:
        return list(l2.lfun_from(l1, coeff, s, mode))
    if k == 1:
        return list(l2.est_lfun_from(l1, coeff, sam))
    if k == 2:
        return [list(x) for x in l2.est_pmf_from(l1, sam)]
    return list(l2.lfun([c.ravel() for c in coeff], None, s, mode))


# -- eigenvalue search ------------------------------------------------------
def dense_eigs(h, k=None, **kw):
    """Exact local solver (smallest eigenvalue, fixed phase)."""
    n = h.shape[0]
    m = np.array([np.asarray(h @ e) for e in np.eye(n)]).T
    m = (m + m.conj().T) / 2
    w, v = np.linalg.eigh(m)
    return w[:1], v[:, :1]


@op(OPS, weight=1.5)
def eig(env, rng):
    h = env.sh['herm']
    need(len(h) >= 3)
    vs = rng.choice([1, 2])
    need(len(h) > vs)
    kw = dict(num_sweeps=1, var_sites=vs, eigs=dense_eigs)
    if rng.random() < .5:
        kw['startvec'] = env.sh[rng.choice(['mps1', 'mps2'])]
    else:
        kw.update(startvec_rank=2, randstate=rstate(rng))
    if rng.random() < .6:
        val, vec = mp.linalg.eig(h, **kw)
    else:
        val, vec = mp.linalg.eig_sum(
            [h, env.sh[rng.choice(['mps1', 'herm'])]], **kw)
    return [float(np.real(val)), mp.sandwich(h, vec) / mp.inner(vec, vec)]


# -- clients modify arrays of their own ----------------------------------------
def own(env, rng):
    """An array of this client; usually derived from a shared one (and so
    sharing its tensors)."""
    if env.own and rng.random() < .6:
        return rng.choice(env.own)
    a = env.pick(rng, own=0)
    k = rng.randrange(6)
    if k == 0:
        b = a.copy()
    elif k == 1:
        b = a.conj().conj()
    elif k == 2:
        b = a.T
    elif k == 3:
        b = a.conj()
    elif k == 4:
        b = MPArray([a.lt[i] for i in range(len(a))])
    else:
        b = a.reverse()
    return env.keep(b)


@op(OPS, weight=2)
def own_imul(env, rng):
    a = own(env, rng)
    if rng.random() < .5:
        a *= rng.choice([2.0, -.5, 1.25])
    else:
        a /= 2.0
    return a


@op(OPS, weight=3)
def own_canonicalize(env, rng):
    a = own(env, rng)
    gauge(rng, a)
    return a


@op(OPS, weight=2)
def own_norm(env, rng):
    a = own(env, rng)
    if rng.random() < .5:
        return mp.norm(a)
    need(len(a) > 1)
    return [np.array(x) for x in a.singularvals()]


@op(OPS, weight=2)
def own_compress(env, rng):
    a = own(env, rng)
    need(len(a) > 1)
    if rng.random() < .6:
        ov = a.compress('svd', rank=rng.choice([1, 2]))
    else:
        ov = a.compress('var', rank=rng.choice([1, 2]), num_sweeps=1,
                        randstate=rstate(rng))
    return [ov, a]


@op(OPS, weight=1.5)
def own_update(env, rng):
    a = own(env, rng)
    i = rng.randrange(len(a))
    t = np.array(a.lt[i])
    t = t * 2 + 1
    a.lt[i] = t
    return a


# -- functions that accept a generator (C07) -------------------------------------
def kwrs(env):
    return dict(randstate=env.rs) if env.given else {}


def shp(rng, n):
    return rng.choice([2, 3, (2,), (2, 3), (1, 2), [(2,)] * n,
                       [rng.choice([(2,), (3,), (2, 2)]) for _ in range(n)]])


@op(RND, weight=2)
def r_mpa(env, rng):
    n = rng.randint(1, 5)
    return factory.random_mpa(
        n, shp(rng, n), rng.choice([1, 2, 3, [2] * (n - 1)]),
        normalized=rng.random() < .5,
        force_rank=rng.random() < .3,
        dtype=rng.choice([np.float_, np.complex_]), **kwrs(env))


@op(RND, weight=1.5)
def r_mpo(env, rng):
    n = rng.randint(1, 4)
    return factory.random_mpo(
        n, 2, rng.choice([2, 3, 4]), hermitian=rng.random() < .5,
        normalized=rng.random() < .5, force_rank=rng.random() < .3,
        **kwrs(env))


@op(RND)
def r_mps(env, rng):
    return factory.random_mps(rng.randint(1, 5), rng.choice([2, 3]),
                              rng.choice([1, 2, 4]),
                              force_rank=rng.random() < .3, **kwrs(env))


@op(RND)
def r_mpdo(env, rng):
    return factory.random_mpdo(rng.randint(1, 4), 2, rng.choice([1, 2, 3]),
                               **kwrs(env))


@op(RND)
def r_ham(env, rng):
    i = rng.choice([1, 2, 3])
    return factory.random_local_ham(rng.randint(i, 4), 2, i, **kwrs(env))


@op(RND, weight=2)
def r_var(env, rng):
    a = factory.random_mpa(4, rng.choice([2, (2, 2), 3]), 4,
                           randstate=rstate(rng),
                           dtype=rng.choice([np.float_, np.complex_]))
    kw = dict(num_sweeps=rng.choice([1, 2]), rank=rng.choice([1, 2, 3]),
              var_sites=rng.choice([1, 2]))
    kw.update(kwrs(env))
    if rng.random() < .5:
        return list(a.compression('var', **kw))
    return [a.compress('var', **kw), a]


@op(RND)
def r_svd_compress(env, rng):
    a = factory.random_mpa(4, 3, 5, randstate=rstate(rng))
    f = ft.partial(extmath.randomized_svd, **kwrs(env))
    return list(a.compression('svd', rank=2, svdfunc=f))


@op(RND, weight=2)
def r_rsvd(env, rng):
    rs = rstate(rng)
    m, n = rng.randint(3, 12), rng.randint(3, 12)
    A = rs.randn(m, n) + (1j * rs.randn(m, n) if rng.random() < .5 else 0)
    return list(extmath.randomized_svd(
        A, rng.choice([1, 2]), n_oversamples=rng.choice([1, 3, 10]),
        n_iter=rng.choice(['auto', 0, 2]),
        transpose=rng.choice(['auto', True, False]),
        piter_normalizer=rng.choice(['auto', 'QR', 'LU', 'none']),
        **kwrs(env)))


@op(RND)
def r_range(env, rng):
    rs = rstate(rng)
    m, n = rng.randint(3, 12), rng.randint(3, 12)
    A = rs.randn(m, n) + (1j * rs.randn(m, n) if rng.random() < .5 else 0)
    return extmath.approx_range_finder(
        A, rng.choice([2, 3]), rng.choice([0, 1, 2]),
        piter_normalizer=rng.choice(['auto', 'QR', 'LU', 'none']),
        **kwrs(env))


@op(RND)
def r_special_sumup(env, rng):
    rs = rstate(rng)
    ms = [factory.random_mps(4, 2, 1, randstate=rs) for _ in range(2)]
    f = ft.partial(extmath.randomized_svd, **kwrs(env))
    return special.sumup(ms, rank=2, svdfunc=f)


@op(RND, weight=1.5)
def r_eig(env, rng):
    h = factory.random_mpo(3, 2, 3, randstate=rstate(rng), hermitian=True)
    kw = dict(num_sweeps=1, var_sites=rng.choice([1, 2]), startvec_rank=2,
              eigs=dense_eigs)
    kw.update(kwrs(env))
    if rng.random() < .5:
        val, vec = mp.linalg.eig(h, **kw)
    else:
        val, vec = mp.linalg.eig_sum([h, h], **kw)
    return [float(np.real(val)), vec]


@op(RND, weight=2)
def r_sample(env, rng):
    rs = rstate(rng)
    n = rng.randint(1, 4)
    kind = rng.choice(['mps', 'mpdo'])
    if kind == 'mps':
        s = factory.random_mps(n, 2, 2, randstate=rs)
    else:
        s = factory.random_mpdo(n, 2, 2, randstate=rs)
    p = mpp.MPPovm.from_local_povm(
        rng.choice([mpp.x_povm, mpp.pauli_povm])(2), n)
    gen = env.rs if env.given else np.random
    kw = dict(n_group=rng.choice([1, 2]), mode=kind,
              pack=rng.random() < .3)
    m = rng.choice([1, 4])
    method = rng.choice(['cond', 'direct'])
    if rng.random() < .4:
        q = mpp.MPPovm.from_local_povm(mpp.y_povm(2), n)
        return list(mpp.MPPovmList([p, q]).sample(gen, s, m, method, **kw))
    return p.sample(gen, s, m, method, **kw)


@op(RND)
def r_dense(env, rng):
    """Helpers that draw dense vectors, operators and states."""
    k = rng.randrange(4)
    fn = [getattr(factory, f, None) for f in (
        '_random_vec', '_random_op', '_random_state', '_unitary_haar')][k]
    need(fn is not None)
    if k == 1:
        return fn(2, 2, hermitian=rng.random() < .5,
                  normalized=rng.random() < .5, **kwrs(env))
    if k == 3:
        return fn(rng.choice([2, 3, 4]), **kwrs(env))
    return fn(rng.choice([1, 2]), rng.choice([2, 3]), **kwrs(env))


# -- disturbances of the process-wide generators ---------------------------------
@op(PERT)
def p_seed(env, rng):
    np.random.seed(rng.getrandbits(31))


@op(PERT)
def p_draw(env, rng):
    np.random.rand(rng.randint(1, 20))


@op(PERT)
def p_randn(env, rng):
    np.random.randn(rng.choice([1, 2, 3]))


@op(PERT)
def p_py(env, rng):
    pyrandom.seed(rng.getrandbits(31))
    pyrandom.random()
