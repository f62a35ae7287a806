"""Worlds of measurements: sampling (C08) and estimation (C09)."""
import hashlib
import json

import numpy as np

from . import boot, hidden, seams
from .boot import K, mp
from .core import (Hang, Skip, Violation, finding, make_rng, need,
                   pass_over)
from .model import dense_of, maxabs
from .povm_common import (MPArray, Povm, State, kron_elements, local_povm,
                          make_state, mpp, mpsmpo, product_povm, reduced,
                          regauge, rotate)

TOL = 1e-8


class RngDown(RuntimeError):
    """The simulated random source fails."""


class SimRng(np.random.RandomState):
    """A generator whose answers are decided by the simulator.

    Every request ``choice(n, size, p)`` is recorded and answered with an
    outcome the distribution allows, likely or not."""

    def __init__(self, seed, style, fail_at=None):
        np.random.RandomState.__init__(self, seed)
        self.sim = np.random.RandomState(seed + 1)
        self.style, self.fail_at = style, fail_at
        self.calls = 0
        self.logp = 0.0
        self.floor = 1e-4
        self.bad = None
        self.other = False

    def choice(self, a, size=None, replace=True, p=None):
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            raise RngDown('simulated: random source failed')
        if np.ndim(a):
            i = self.choice(len(a), size, replace, p)
            self.calls -= 1
            return np.asarray(a)[i]
        if not replace:
            self.other = True
            return np.random.RandomState.choice(self, a, size, replace, p)
        p = (np.ones(int(a)) / int(a) if p is None
             else np.array([float(x) for x in np.ravel(p)]))
        if p.shape != (int(a),):
            self.bad = 'probabilities of the wrong length'
        elif (p < -1e-12).any() or abs(p.sum() - 1) > 1e-8:
            self.bad = 'numbers that are no probability distribution'
        if self.bad:
            return np.random.RandomState.choice(
                self, a, size, replace, np.abs(p) / np.abs(p).sum())
        m = 1 if size is None else int(np.prod(size))
        out = [self.one(p) for _ in range(m)]
        return out[0] if size is None else np.array(out, int).reshape(size)

    def one(self, p):
        # Keep away from outcomes so unlikely that the division by their
        # probability exhausts the floating-point precision.
        ok = np.flatnonzero(p >= min(2e-3, p.max() / 2))
        if self.style == 'least':
            c = ok[np.argmin(p[ok])]
        elif self.style == 'most':
            c = int(np.argmax(p))
        elif self.style == 'uniform':
            c = ok[self.sim.randint(len(ok))]
        else:
            c = self.sim.choice(len(ok), p=p[ok] / p[ok].sum())
            c = ok[c]
        if self.style in ('least', 'uniform') and \
                np.exp(self.logp) * p[c] < self.floor:
            c = int(np.argmax(p))
        self.logp += float(np.log(p[c]))
        return int(c)


def _other(name):
    def method(self, *args, **kwargs):
        # drawn in a way the simulator does not decide
        self.other = True
        return getattr(np.random.RandomState, name)(self, *args, **kwargs)
    return method


for _name in ('random_sample', 'rand', 'uniform', 'random', 'multinomial',
              'randint', 'permutation', 'shuffle', 'normal', 'randn'):
    setattr(SimRng, _name, _other(_name))


class BaseWorld(object):
    tag = None

    def __init__(self, ep, stats):
        self.ep, self.stats = ep, stats
        self.cfg = ep['cfg']
        self.log = hashlib.blake2b(digest_size=16)
        self.setup()

    def replay(self):
        for o in self.ep['ops']:
            self.step(o)

    def finish(self):
        self.verify(None)

    def close(self):
        seams.disarm()

    def digest(self):
        return self.log.hexdigest()

    def generate(self):
        rng = make_rng('povm', self.ep['seed'])
        names = sorted(self.ops)
        wts = [self.cfg.get('weights', {}).get(n, self.ops[n][1])
               for n in names]
        spy = hidden.Spy()
        for _ in range(self.cfg['steps']):
            o = self.gen(rng, rng.choices(names, wts)[0])
            if (self.cfg['fault_rate'] and o['op'] not in self.no_fault
                    and rng.random() < self.cfg['fault_rate']):
                o['fault'] = [rng.choice(seams.KINDS),
                              1 + int(rng.expovariate(1 / 5.)), 'before']
            self.ep['ops'].append(o)
            outcome = self.step(o)
            stored = spy(self.objects())
            if stored:
                self.stats.probe('stores')
            if outcome == 'ok' and rng.random() < (.35 if stored else .04):
                self.echo(rng, o)

    def echo(self, rng, o):
        """Change states and measurements in place and repeat."""
        if 'change' not in self.ops or o['op'] in self.no_echo:
            return
        for _ in range(rng.choice([1, 2])):
            for _ in range(rng.choice([0, 1, 2, 3])):
                m = self.gen(rng, 'change')
                self.ep['ops'].append(m)
                self.step(m)
            again = {k: v for k, v in o.items() if k != 'fault'}
            self.stats.probe('echoes')
            self.ep['ops'].append(again)
            self.step(again)

    no_echo = ()

    def objects(self):
        return {}

    def gen(self, rng, name):
        return dict(op=name, s=rng.getrandbits(31))

    no_fault = ()

    def step(self, o):
        st = self.stats
        st.steps += 1
        outcome = 'ok'
        self.cur = o
        f = o.get('fault')
        self.plan = seams.Plan(*f) if f else None
        self.rngfault = None
        self.stags = ['C08']
        try:
            self.ops[o['op']][0](self, np.random.RandomState(o['s']), o)
        except Skip:
            outcome = 'skip'
        except Failed as e:
            outcome = 'failed:' + e.how
            st.fault(e.how)
            self.failed = True
            try:
                self.verify(o)
            except Violation as v:
                pass_over(self.ep, st, v)
            self.failed = False
            # The same operation must work once the fault is gone.
            self.plan, self.norngfault = None, True
            try:
                self.ops[o['op']][0](self, np.random.RandomState(o['s']), o)
            except Skip:
                pass
            except Violation as v:
                pass_over(self.ep, st, Violation(list(v.tags) + ['C04'],
                                                 v.klass, v.msg))
            finally:
                self.norngfault = False
        except Violation as v:
            pass_over(self.ep, st, v)
            outcome = 'foreign'
        finally:
            seams.disarm()
        st.bump(st.ops, o['op'])
        st.bump(st.outcomes, outcome)
        if outcome != 'skip':
            st.evals += 1
            self.note(o, outcome)
        try:
            self.verify(o)
        except Violation as v:
            pass_over(self.ep, st, v)
        self.log.update(json.dumps([o, outcome], sort_keys=True).encode())
        return outcome

    norngfault = False

    failed = False

    def lib(self, fn, what, refuse=False, tags=None):
        """A library call under the current fault plan."""
        seams.arm(self.plan)
        try:
            return fn()
        except (Violation, Skip):
            raise
        except BaseException as e:
            if isinstance(e, Hang):
                raise
            fired = seams.disarm()
            if fired:
                raise Failed('kernel:' + fired)
            if isinstance(e, RngDown):
                raise Failed('random-source')
            if refuse and isinstance(e, Exception):
                raise Refused()
            raise Violation(tags or [self.tag], 'raised:' + what, '%s raised '
                            '%s: %s' % (what, type(e).__name__, str(e)[:200]))
        finally:
            seams.disarm()

    def equal(self, got, want, what, tol=TOL, tags=None):
        tags = tags or [self.tag]
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(tags, 'shape:' + what, '%s has shape %r, '
                            'expected %r' % (what, got.shape, want.shape))
        if got.dtype.kind not in 'fciub':
            raise Violation(tags, 'type:' + what, '%s has type %s'
                            % (what, got.dtype))
        ng, nw = np.isnan(got), np.isnan(want)
        if (ng != nw).any():
            raise Violation(tags, 'nan:' + what, '%s: unavailable (nan) '
                            'at %d places, expected at %d' % (
                                what, ng.sum(), nw.sum()))
        err = maxabs(np.where(ng, 0, got) - np.where(nw, 0, want)) \
            if got.size else 0
        sc = max(1.0, maxabs(np.where(nw, 0, want)) if got.size else 0)
        if not err <= tol * sc:
            raise Violation(tags, 'value:' + what, '%s is off by %.3g'
                            % (what, err))


class Failed(Exception):
    def __init__(self, how):
        Exception.__init__(self, how)
        self.how = how


class Refused(Exception):
    pass


MOPS = {}


def mop(weight=1.0):
    def deco(fn):
        MOPS[fn.__name__[2:]] = (fn, weight)
        return fn
    return deco


LOCALS = ['x', 'x', 'y', 'z', 'pauli', 'random', 'random', 'eye', 'basis']


class MeasureWorld(BaseWorld):
    """C08: states and measurements shared by clients that measure them."""
    tag = 'C08'
    ops = MOPS

    def objects(self):
        return {i: x.lib for i, x in enumerate(self.states + self.povms)}
    no_fault = ('regauge', 'iter_close', 'change')

    def setup(self):
        cfg = self.cfg
        rs = np.random.RandomState(cfg['seed'])
        self.dims = cfg['dims']
        n = self.n = len(self.dims)
        self.states = []
        for kind in cfg['states']:
            try:
                self.states.append(make_state(kind, self.dims, cfg['rank'],
                                              rs))
            except Skip:
                pass
        self.povms = []
        for names in cfg['povms']:
            self.povms.append(product_povm(names, self.dims, rs)[0])
        a, b = self.povms[0], self.povms[-1]
        if cfg['mix'] and a.outdims == b.outdims and a is not b:
            q = .3
            mix = a.lib * q + b.lib * (1 - q)
            self.povms.append(Povm(mpp.MPPovm([mix.lt[i] for i in range(n)]),
                                   q * a.elems + (1 - q) * b.elems))
        for p in self.povms:
            if rs.randint(2):
                regauge(rs, p.lib)
        # short measurements for reduced states
        self.iters = []
        self.fps = {}
        self.items = []
        self.verify(None)

    @property
    def ctags(self):
        return ['C08', 'C03'] + (['C04'] if self.failed else [])

    def verify(self, o):
        name = o['op'] if o else 'setup'
        for i, s in enumerate(self.states):
            fp = self.fp(s.lib)
            if self.fps.get(('s', i)) == fp:
                continue
            self.fps['s', i] = fp
            if maxabs(self.rho_of(s) - s.rho) > 1e-8:
                raise Violation(self.ctags, 'state-changed:' + name,
                                '%s changed the state' % name)
        for i, p in enumerate(self.povms):
            fp = self.fp(p.lib)
            if self.fps.get(('p', i)) == fp:
                continue
            self.fps['p', i] = fp
            if maxabs(self.elems_of(p.lib) - p.elems) > 1e-8:
                raise Violation(self.ctags, 'povm-changed:' + name,
                                '%s changed the POVM' % name)
        for x in list(self.items):
            r, mpa, want, what = x
            got = dense_of(r) if mpa else np.asarray(r)
            if got.shape != want.shape or not maxabs(got - want) <= 1e-8:
                self.items.remove(x)
                raise Violation(['C08', 'C10', 'C03'], 'item-changed:' + what,
                                '%s changed an item handed out before'
                                % name)

    @staticmethod
    def fp(m):
        h = hashlib.blake2b(digest_size=8)
        for i in range(len(m)):
            t = np.asarray(m.lt[i])
            h.update(repr(t.shape).encode() + t.tobytes())
        return h.digest()

    @staticmethod
    def rho_of(s):
        d = dense_of(s.lib)
        n = len(s.dims)
        D = int(np.prod(s.dims))
        if s.mode == 'mps':
            v = d.reshape(-1)
            return np.outer(v, v.conj())
        d = d.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
        d = d.reshape((D, -1))
        return d if s.mode == 'mpdo' else d @ d.conj().T

    @staticmethod
    def elems_of(lib):
        d = dense_of(lib)
        n = len(lib)
        d = d.transpose([3 * i for i in range(n)]
                        + [3 * i + 1 for i in range(n)]
                        + [3 * i + 2 for i in range(n)])
        D = int(np.prod([s[1] for s in lib.shape]))
        return d.reshape(d.shape[:n] + (D, D))

    def note(self, o, outcome):
        self.stats.state(o['op'], outcome, self.n, tuple(sorted(set(
            self.dims))), self.last)

    last = None

    def pick(self, rs):
        s = self.states[rs.randint(len(self.states))]
        p = self.povms[rs.randint(len(self.povms))]
        self.last = (s.mode, max(s.lib.ranks) if self.n > 1 else 1,
                     1 in p.outdims, max(p.outdims))
        return s, p

    def mode(self, rs, s):
        if s.mode != 'pmps' and rs.randint(3) == 0:
            return 'auto'
        return s.mode

    def drain(self):
        pass

    # -- iterators -----------------------------------------------------------
    def open(self, it, expected, what, mpa=True):
        self.iters.append([it, list(expected), 0, what, mpa])
        if len(self.iters) > 4:
            self.iters.pop(0)

    # -- sampling with simulator-decided randomness --------------------------
    def sampler(self, rs):
        fail = None
        if not self.norngfault and rs.randint(8) == 0:
            fail = int(rs.randint(1, 6))
        else:
            rs.randint(1, 6)
        return SimRng(int(rs.randint(2 ** 31 - 2)),
                      ['least', 'most', 'uniform', 'natural'][rs.randint(4)],
                      fail)

    stags = ['C08']

    def check_samples(self, sam, p, n, what, pack=None):
        """Samples lie in the outcome space; returns them unpacked."""
        sam = np.asarray(sam)
        if pack:
            total = int(np.prod(p.ns))
            if sam.shape != (n,) or (sam < 0).any() or (sam >= total).any():
                raise Violation(self.stags, 'samples:' + what, 'packed samples '
                                'outside of the outcome space')
            sam = np.array(np.unravel_index(sam.astype(int), p.ns)).T
            sam = sam.reshape((n, len(p.ns)))
        if sam.shape != (n, len(p.ns)) or sam.dtype.kind not in 'iu':
            raise Violation(self.stags, 'samples:' + what, 'samples have shape '
                            '%r and type %s' % (sam.shape, sam.dtype))
        sam = sam.astype(int)
        if (sam < 0).any() or (sam >= np.array(p.ns)[None, :]).any():
            raise Violation(self.stags, 'samples:' + what,
                            'samples outside of the outcome space')
        return sam

    def check_law(self, rng, samples, ps, rho, what, redo):
        """The probability with which the sampler produced these samples is
        the Born probability of these samples."""
        if rng.bad:
            raise Violation(self.stags, 'law:' + what,
                            '%s asked the generator for %s' % (what, rng.bad))
        want = 0.0
        for sam, p in zip(samples, ps):
            pm = p.pmf_ns(rho)
            for row in sam:
                x = pm[tuple(row)]
                if x < 1e-9:
                    raise Violation(self.stags, 'law:' + what, '%s produced an '
                                    'impossible outcome' % what)
                want += float(np.log(x))
        total = sum(len(s) for s in samples)
        if total and (rng.other or rng.calls == 0):
            # another way of drawing: compare frequencies
            return self.frequencies(ps, rho, what, redo)
        self.stats.probe('exact-law-checked')
        if abs(rng.logp - want) > 1e-5:
            raise Violation(self.stags, 'law:' + what, '%s produces samples %s '
                            'with probability %.6g, Born rule: %.6g' % (
                                what, [s.tolist() for s in samples],
                                np.exp(rng.logp), np.exp(want)))

    def frequencies(self, ps, rho, what, redo):
        self.stats.probe('frequency-checked')
        m = 2000
        out = redo(np.random.RandomState(12345), m)
        for sam, p in zip(out, ps):
            pm = p.pmf_ns(rho).ravel()
            sam = self.check_samples(sam, p, m, what)
            c = np.bincount(np.ravel_multi_index(sam.T, p.ns),
                            minlength=pm.size)
            sd = np.sqrt(np.maximum(pm * (1 - pm), 0) * m)
            if (abs(c - m * pm) > 7 * sd + 8).any() or c[pm < 1e-12].any():
                raise Violation(self.stags, 'law:' + what, 'frequencies of %s '
                                'do not follow the Born rule' % what)


@mop(2)
def m_pmf(w, rs, o):
    s, p = w.pick(rs)
    r = w.lib(lambda: p.lib.pmf(s.lib, w.mode(rs, s)), 'pmf')
    if not isinstance(r, MPArray) or any(len(x) != 1 for x in r.shape):
        raise Violation(['C08'], 'type:pmf', 'pmf is no array of '
                        'probabilities')
    w.equal(dense_of(r), p.pmf(s.rho), 'pmf')


@mop(3)
def m_pmf_as_array(w, rs, o):
    s, p = w.pick(rs)
    st, mode, impl = s.lib, s.mode, 'auto'
    k = rs.randint(3)
    if k == 1 and s.mode != 'mpdo':
        if s.mode == 'mps':
            st, mode = mpsmpo.mps_to_pmps(s.lib), 'pmps'
        impl = ['default', 'pmps-symm', 'pmps-ltr'][rs.randint(3)]
    elif k == 2:
        impl = 'default'
    if mode != 'pmps' and impl == 'auto':
        mode = w.mode(rs, s)
    what = 'pmf_as_array(%s, %s)' % (mode, impl)
    r = w.lib(lambda: p.lib.pmf_as_array(st, mode, impl=impl), what)
    w.equal(r, p.pmf_ns(s.rho), what)
    if (np.asarray(r) < 0).any() or np.asarray(r).dtype.kind != 'f':
        raise Violation(['C08'], 'value:' + what, 'no probabilities')
    # handed-out probabilities belong to the caller
    r[...] = -1


@mop(1.5)
def m_expectations(w, rs, o):
    """Probabilities on all blocks, taken step by step."""
    s, _ = w.pick(rs)
    width = int(rs.randint(1, w.n + 1))
    need(len(set(w.dims)) == 1)
    names = [LOCALS[rs.randint(len(LOCALS))] for _ in range(width)]
    d = w.dims[:width]
    need(np.prod([6. if x == 'pauli' else 4 for x in names]) <= 1500)
    p, _ = product_povm(names, d, rs)
    reds = [reduced(s.rho, w.dims, i, i + width)
            for i in range(w.n - width + 1)]
    exp = [p.pmf(r) for r in reds]
    k = rs.randint(3)
    if k == 0:
        it = w.lib(lambda: p.lib.expectations(s.lib, w.mode(rs, s)),
                   'expectations')
        w.open(it, exp, 'expectations')
    elif k == 1:
        need(len(p.ns))
        r = w.lib(lambda: p.lib.block_pmfs_as_array(s.lib, s.mode,
                                                    asarray=True),
                  'block_pmfs_as_array')
        w.equal(r, np.array([p.pmf_ns(x) for x in reds]),
                'block_pmfs_as_array')
    else:
        need(len(p.ns))
        it = w.lib(lambda: p.lib.block_pmfs_as_array(s.lib, s.mode),
                   'block_pmfs_as_array')
        w.open(it, [p.pmf_ns(x) for x in reds], 'block_pmfs_as_array', False)


@mop(3)
def m_iter_next(w, rs, o):
    need(w.iters)
    x = w.iters[rs.randint(len(w.iters))]
    it, exp, pos, what, mpa = x
    if pos > len(exp):
        raise Skip()
    try:
        r = w.lib(lambda: next(it, None), what + ' iterator',
                  tags=['C08', 'C10'])
    except Failed:
        w.iters.remove(x)
        return
    x[2] += 1
    if pos == len(exp):
        if r is not None:
            raise Violation(['C08', 'C10'], 'items:' + what,
                            'too many items')
        return
    if r is None:
        raise Violation(['C08', 'C10'], 'items:' + what, 'too few items')
    w.equal(dense_of(r) if mpa else r, exp[pos], what + ' item',
            tags=['C08', 'C10'])
    w.items.append((r, mpa, np.array(exp[pos]), what))
    if len(w.items) > 6:
        w.items.pop(0)


@mop(.3)
def m_iter_close(w, rs, o):
    need(w.iters)
    w.iters.pop(rs.randint(len(w.iters)))


@mop(1)
def m_list(w, rs, o):
    s, _ = w.pick(rs)
    ps = [w.povms[rs.randint(len(w.povms))] for _ in range(rs.randint(1, 4))]
    ml = mpp.MPPovmList([p.lib for p in ps])
    if rs.randint(2):
        w.open(w.lib(lambda: ml.pmf(s.lib, w.mode(rs, s)), 'list pmf'),
               [p.pmf(s.rho) for p in ps], 'list pmf')
    else:
        w.open(w.lib(lambda: ml.pmf_as_array(s.lib, s.mode), 'list pmf'),
               [p.pmf_ns(s.rho) for p in ps], 'list pmf_as_array', False)


@mop(5)
def m_sample(w, rs, o):
    s, p = w.pick(rs)
    n = int(rs.choice([1, 1, 2, 3]))
    kw = dict(method=['cond', 'direct'][rs.randint(2)],
              n_group=int(rs.randint(1, w.n + 2)), mode=w.mode(rs, s))
    pack = [False, False, True, np.uint32][rs.randint(4)]
    rng = w.sampler(rs)
    what = 'sample(%s, %s, n_group=%d)' % (kw['method'], s.mode,
                                           kw['n_group'])
    sam = w.lib(lambda: p.lib.sample(rng, s.lib, n, pack=pack, **kw), what)
    rows = w.check_samples(sam, p, n, what, pack)
    w.check_law(rng, [rows], [p], s.rho, what, lambda g, m: [p.lib.sample(
        g, s.lib, m, **kw)])
    up = w.lib(lambda: p.lib.unpack_samples(p.lib.pack_samples(
        rows.astype(np.uint8))), 'pack_samples')
    w.equal(up, rows, 'unpacked samples')
    pk = w.lib(lambda: p.lib.pack_samples(rows.astype(np.uint8)), 'pack')
    w.equal(pk, np.ravel_multi_index(rows.T, p.ns), 'packed samples')


@mop(2)
def m_sample_list(w, rs, o):
    s, _ = w.pick(rs)
    ps = [w.povms[rs.randint(len(w.povms))] for _ in range(rs.randint(1, 4))]
    ml = mpp.MPPovmList([p.lib for p in ps])
    n = int(rs.choice([1, 2]))
    kw = dict(method=['cond', 'direct'][rs.randint(2)],
              n_group=int(rs.randint(1, w.n + 2)), mode=w.mode(rs, s))
    rng = w.sampler(rs)
    rng.floor = 1e-7
    what = 'list sample(%s)' % kw['method']
    w.stags = ['C08', 'C10']
    stop = int(rs.randint(1, len(ps) + 1)) if rs.randint(3) == 0 else len(ps)
    out = []
    it = w.lib(lambda: iter(ml.sample(rng, s.lib, n, **kw)), what,
               tags=w.stags)
    for k in range(stop):
        out.append(w.lib(lambda: next(it), what, tags=w.stags))
        if rs.randint(3) == 0:
            regauge(rs, s.lib)
    rows = [w.check_samples(x, p, n, what) for x, p in zip(out, ps)]
    w.check_law(rng, rows, ps[:stop], s.rho, what, lambda g, m: list(
        ml.sample(g, s.lib, m, **kw)))


@mop(1)
def m_real_sample(w, rs, o):
    """A real generator; the outcomes must be possible."""
    s, p = w.pick(rs)
    n = int(rs.choice([0, 5, 20]))
    kw = dict(method=['cond', 'direct'][rs.randint(2)],
              n_group=int(rs.randint(1, w.n + 2)), mode=s.mode)
    seed = int(rs.randint(2 ** 31 - 1))
    pm = p.pmf_ns(s.rho)
    # conditional probabilities of very unlikely prefixes exhaust precision
    need(kw['method'] == 'direct' or pm[pm > 0].min() > 1e-4)
    sam = w.lib(lambda: p.lib.sample(np.random.RandomState(seed), s.lib, n,
                                     **kw), 'sample')
    rows = w.check_samples(sam, p, n, 'sample')
    for r in rows:
        if pm[tuple(r)] < 1e-12:
            raise Violation(['C08'], 'law:sample', 'impossible outcome')


@mop(1)
def m_regauge(w, rs, o):
    if rs.randint(3):
        regauge(rs, w.states[rs.randint(len(w.states))].lib)
    else:
        regauge(rs, w.povms[rs.randint(len(w.povms))].lib)


@mop(.8)
def m_change(w, rs, o):
    """A client changes a state or a measurement in place: from then on the
    results belong to the new one."""
    if rs.randint(3):
        rotate(rs, w.states[rs.randint(len(w.states))], w.dims)
    else:
        rotate(rs, w.povms[rs.randint(len(w.povms))], w.dims)
    w.iters = []


def build_mixed(w, rs):
    """Embedding into a chain whose sites differ; uniform Pauli POVMs."""
    if rs.randint(3) == 0 and len(set(w.dims)) == 1 and w.n <= 3:
        d = w.dims[0]
        par = [np.array(list(x)) for x in mpp.pauli_parts(d)]
        if rs.randint(2):
            lib = w.lib(lambda: mpp.pauli_mpp(w.n, d), 'pauli_mpp')
            f = [np.array(list(mpp.pauli_povm(d)))] * w.n
        else:
            lst = w.lib(lambda: mpp.pauli_mpps(w.n, d), 'pauli_mpps')
            if len(lst.mpps) != len(par) ** w.n:
                raise Violation(['C08'], 'items:pauli_mpps', 'wrong number '
                                'of measurements')
            j = int(rs.randint(len(lst.mpps)))
            lib = lst.mpps[j]
            f = [par[i] for i in np.unravel_index(j, (len(par),) * w.n)]
    else:
        at = int(rs.randint(w.n))
        end = int(rs.randint(at, w.n)) + 1
        names = [LOCALS[rs.randint(len(LOCALS))] for _ in range(at, end)]
        need(any(x != 'eye' for x in names) and names.count('pauli') <= 2)
        p, f = product_povm(names, w.dims[at:end], rs)
        dims = [tuple, list, iter][rs.randint(3)](w.dims)
        lib = w.lib(lambda: p.lib.embed(w.n, at, dims), 'embed')
        f = [np.eye(d).reshape((1, d, d)) for d in w.dims[:at]] + list(f) \
            + [np.eye(d).reshape((1, d, d)) for d in w.dims[end:]]
    need(np.prod([float(len(x)) for x in f]) <= 1500)
    q = Povm(lib, kron_elements(f))
    if maxabs(w.elems_of(lib) - q.elems) > 1e-9:
        raise Violation(['C08'], 'value:build', 'measurement has wrong '
                        'elements')
    w.povms.append(q)


def map_of(p, dims):
    """Dense probability map [i1, k1, i2, k2, ...] for raveled operators."""
    n = len(dims)
    e = p.elems.reshape(p.outdims + tuple(dims) * 2)
    # <i| E |j> multiplies rho[j, i]; rho is raveled as (row, column)
    order = []
    for k in range(n):
        order += [k, 2 * n + k, n + k]
    e = e.transpose(order)
    return e.reshape([x for k in range(n)
                      for x in (p.outdims[k], dims[k] ** 2)])


@mop(.6)
def m_project(w, rs, o):
    """Noisy values of a distribution are cleaned up, or refused."""
    from mpnum.utils.pmf import project_nonneg, project_pmf
    s, p = w.pick(rs)
    x = np.maximum(p.pmf_ns(s.rho), 0)
    need(x.ndim)
    x /= x.sum()
    eps = [1e-10, 1e-6, 1e-3][rs.randint(3)]
    fn = [project_nonneg, project_pmf][rs.randint(2)]
    what = fn.__name__
    noise = .3 * eps / x.size * rs.standard_normal(x.shape).clip(-3, 3)
    v = x + noise
    trunc = 0.
    kw = dict(imag_eps=eps, real_eps=eps)
    if rs.randint(2):
        trunc = kw['real_trunc'] = .1 * eps / x.size
    bad = rs.randint(4 if fn is project_pmf else 3)
    if bad == 1:
        v.flat[rs.randint(v.size)] = -3 * eps
        need(v.size > 1)
    cplx = rs.randint(2) or bad == 2
    if cplx:
        v = v + .3j * eps * rs.standard_normal(x.shape).clip(-3, 3)
        if bad == 2:
            v.flat[rs.randint(v.size)] += 5j * eps
    want = np.where(v.real <= trunc, 0, v.real)
    if bad == 3:
        v = v * 1.5
        want = want * 1.5
    if fn is project_pmf:
        total = want.sum()
        want = want / total
    arg = v.copy()
    try:
        r = w.lib(lambda: fn(arg, **kw), what, refuse=bool(bad))
    except Refused:
        if cplx and not np.array_equal(arg, v):
            raise Violation(['C03', 'C08'], 'argument:' + what,
                            'refused values were changed')
        return
    if bad:
        raise Violation(['C08'], 'accepted:' + what,
                        '%s accepted values that are no probabilities' % what)
    w.equal(r, want, what, tol=1e-12)
    if np.asarray(r).dtype.kind != 'f' or (r < 0).any():
        raise Violation(['C08'], 'value:' + what, 'no probabilities')
    if cplx and not np.array_equal(arg, v):
        raise Violation(['C03', 'C08'], 'argument:' + what,
                        '%s changed its complex argument' % what)


@mop(1)
def m_handed_out(w, rs, o):
    """Probability map and elements are private to the caller."""
    p = w.povms[rs.randint(len(w.povms))]
    tags = ['C08', 'C02']
    k = rs.randint(4)
    if k == 0:
        want = map_of(p, w.dims)
        m = w.lib(lambda: p.lib.probability_map, 'probability_map')
        w.equal(dense_of(m), want, 'probability_map', tags=tags)
        m *= 3.0
        m.canonicalize(left=int(rs.randint(w.n)))
        w.verify(o)
        m = w.lib(lambda: p.lib.probability_map, 'probability_map')
        w.equal(dense_of(m), want, 'probability_map', tags=tags + ['C03'])
    elif k == 1:
        # a POVM of one's own may be changed at will
        q = w.lib(lambda: p.lib.copy(), 'copy')
        a = w.lib(lambda: (q.probability_map, q.outdims, q.hdims)[0],
                  'probability_map')
        q *= .5
        if rs.randint(2):
            regauge(rs, q)
        b = w.lib(lambda: q.probability_map, 'probability_map')
        want = map_of(p, w.dims)
        w.equal(dense_of(b), .5 * want, 'probability_map of a scaled POVM',
                tags=tags + ['C03'])
        w.equal(dense_of(a), want, 'probability_map handed out before',
                tags=tags + ['C03'])
    elif k == 2:
        need(np.prod(p.outdims) <= 200)
        it_ = w.lib(lambda: iter(p.lib.elements), 'elements')
        stop = int(rs.randint(1, int(np.prod(p.outdims)) + 1))
        n = w.n
        for idx in np.ndindex(*p.outdims):
            if stop == 0:
                break
            stop -= 1
            e = w.lib(lambda: next(it_, None), 'elements')
            if e is None:
                raise Violation(['C08', 'C10'], 'items:elements',
                                'too few elements')
            d = dense_of(e)
            if d.ndim != 2 * n:
                raise Violation(['C08', 'C10'], 'shape:elements',
                                'wrong shape of an element')
            d = d.transpose(list(range(0, 2 * n, 2))
                            + list(range(1, 2 * n, 2)))
            w.equal(d.reshape(p.elems.shape[-2:]), p.elems[idx], 'element',
                    tags=['C08', 'C10', 'C02'])
            if rs.randint(6) == 0:
                e *= 2.0
            if rs.randint(6) == 0:
                regauge(rs, p.lib)
    else:
        lib = p.lib
        got = w.lib(lambda: (tuple(lib.outdims), tuple(lib.nsoutdims), tuple(
            lib.nsoutpos), tuple(lib.hdims)), 'dimensions')
        want = (tuple(p.outdims), tuple(p.ns), tuple(
            i for i, x in enumerate(p.outdims) if x > 1), tuple(w.dims))
        if got != want:
            raise Violation(['C08'], 'value:dims', '%r instead of %r'
                            % (got, want))


@mop(1)
def m_list_states(w, rs, o):
    """One measurement per state (or per block)."""
    same = [s for s in w.states if s.mode == w.states[0].mode]
    if rs.randint(2) or len(set(w.dims)) != 1:
        k = int(rs.randint(1, 4))
        ps = [w.povms[rs.randint(len(w.povms))] for _ in range(k)]
        if rs.randint(2):
            ps = [ps[0]] * k
        ss = [same[rs.randint(len(same))] for _ in range(k)]
        exp = [p.pmf_ns(s.rho) for p, s in zip(ps, ss)]
        mode = same[0].mode
        single = all(p is ps[0] for p in ps) and rs.randint(2)
        m = ps[0].lib if single else mpp.MPPovmList([p.lib for p in ps])
        arr = all(p.ns == ps[0].ns for p in ps) and bool(rs.randint(2))
        what = 'pmfs_as_array'
        states = [s.lib for s in ss]
        if rs.randint(2):
            states = iter(states)
        r = w.lib(lambda: m.pmfs_as_array(states, mode, arr), what)
    else:
        s, _ = w.pick(rs)
        width = int(rs.randint(1, w.n + 1))
        nb = w.n - width + 1
        starts = list(range(nb))
        kw = {}
        if rs.randint(2):
            starts = [int(rs.randint(nb)) for _ in range(rs.randint(1, 4))]
            kw = dict(width=width, startsites=starts)
        ps = [product_povm([LOCALS[rs.randint(6)] for _ in range(width)],
                           w.dims[:width], rs)[0] for _ in starts]
        exp = [p.pmf_ns(reduced(s.rho, w.dims, a, a + width))
               for p, a in zip(ps, starts)]
        need(max(e.size for e in exp) <= 1500)
        arr = all(p.ns == ps[0].ns for p in ps) and bool(rs.randint(2))
        what = 'list block_pmfs_as_array'
        ml = mpp.MPPovmList([p.lib for p in ps])
        r = w.lib(lambda: ml.block_pmfs_as_array(s.lib, s.mode, arr, **kw),
                  what)
    if arr:
        w.equal(r, np.array(exp), what)
    else:
        w.open(iter(r), exp, what, False)


@mop(1)
def m_build(w, rs, o):
    """Measurements on parts of the chain."""
    need(len(w.povms) < 7)
    if len(set(w.dims)) != 1 or rs.randint(5) == 0:
        return build_mixed(w, rs)
    d = w.dims[0]
    width = int(rs.randint(1, w.n + 1))
    names = [LOCALS[rs.randint(len(LOCALS))] for _ in range(width)]
    need(any(x != 'eye' for x in names))
    need(names.count('pauli') <= 2)
    k = rs.randint(4)
    if k == 2:
        p, f = product_povm(names, [d] * width, rs)
        f = [f[i % width] for i in range(w.n)]
        need(np.prod([float(len(x)) for x in f]) <= 1500)
        lib = w.lib(lambda: p.lib.repeat(w.n) if rs.randint(2) else
                    mpp.MPPovmList([p.lib]).repeat(w.n).mpps[0], 'repeat')
        q = Povm(lib, kron_elements(f))
    elif k == 3:
        # several short measurements, all blocks, in the documented order
        ps = [product_povm([LOCALS[rs.randint(6)] for _ in range(width)],
                           [d] * width, rs) for _ in range(rs.randint(1, 4))]
        b = w.lib(lambda: mpp.MPPovmList([p.lib for p, _ in ps]).block(w.n),
                  'list block')
        nb = w.n - width + 1
        if len(b.mpps) != nb * len(ps):
            raise Violation(['C08'], 'items:block', 'wrong number of blocks')
        j = int(rs.randint(len(b.mpps)))
        at, f = j // len(ps), ps[j % len(ps)][1]
        eye = np.eye(d).reshape((1, d, d))
        f = [eye] * at + list(f) + [eye] * (w.n - width - at)
        need(np.prod([float(len(x)) for x in f]) <= 1500)
        lib = b.mpps[j]
        q = Povm(lib, kron_elements(f))
    else:
        p, f = product_povm(names, [d] * width, rs)
        at = int(rs.randint(0, w.n - width + 1))
        eye = np.eye(d).reshape((1, d, d))
        f = [eye] * at + list(f) + [eye] * (w.n - width - at)
        if k == 0:
            lib = w.lib(lambda: p.lib.embed(w.n, at, d), 'embed')
        else:
            b = w.lib(lambda: p.lib.block(w.n), 'block')
            if len(b.mpps) != w.n - width + 1:
                raise Violation(['C08'], 'items:block', 'wrong number of '
                                'blocks')
            lib = b.mpps[at]
        q = Povm(lib, kron_elements(f))
    if maxabs(w.elems_of(lib) - q.elems) > 1e-9:
        raise Violation(['C08'], 'value:build', 'embedded measurement has '
                        'wrong elements')
    w.povms.append(q)


WORLDS = {'measure': MeasureWorld}

from . import est_world  # noqa
WORLDS['stations'] = est_world.StationWorld
