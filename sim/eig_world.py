"""Eigenvalue-search world: the local solver is a simulated party.

The library poses local problems to a solver supplied by the simulator.  The
solver may be exact, lazy, adversarial, fail, or start a search of its own; it
watches every problem it is given.  Oracle: the dense operator.
"""
import hashlib
import json

import numpy as np
import scipy.sparse.linalg

from . import hidden, seams
from .boot import K, LocalTensors, mp
from .core import Hang, Skip, Violation, make_rng, need, pass_over
from .model import dense_of, structure_error

MPArray = mp.MPArray
TAG = 'C12'
TOL = 1e-7


class SolverDown(Exception):
    """The simulated solver failed."""


def zrandn(rs, shape, cplx):
    x = rs.standard_normal(size=shape)
    return x + 1j * rs.standard_normal(size=shape) if cplx else x


def mat_of(mpo):
    """Dense matrix of an MPO (rows first)."""
    n = len(mpo)
    d = dense_of(mpo)
    d = d.transpose(list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)))
    m = int(np.prod(d.shape[:n]))
    return d.reshape((m, m))


def direct_sum(parts):
    """Local tensors of the sum of chains."""
    out = []
    n = len(parts[0])
    for i in range(n):
        ts = [p[i] for p in parts]
        rows = 1 if i == 0 else sum(t.shape[0] for t in ts)
        cols = 1 if i == n - 1 else sum(t.shape[-1] for t in ts)
        big = K.zeros((rows,) + ts[0].shape[1:-1] + (cols,),
                      dtype=np.result_type(*ts))
        r = c = 0
        for t in ts:
            big[r:r + t.shape[0], ..., c:c + t.shape[-1]] += t
            r += t.shape[0] if i else 0
            c += t.shape[-1] if i < n - 1 else 0
        out.append(big)
    return out


def vec_of(mps):
    return dense_of(mps).ravel()


def image(a):
    return [np.array(a.lt[i]) for i in range(len(a))], a.canonical_form


class Solver(object):
    """Decides what the local solver answers; records what it was asked."""

    def __init__(self, w, spec, H, start, scale):
        self.w, self.spec, self.H, self.scale = w, spec, H, scale
        self.rs = np.random.RandomState(spec['s'])
        self.calls = 0
        self.herm = spec['herm']
        self.start = start           # energy of the start vector or None
        self.last = None             # energy of the last answer
        self.trail = []
        self.exc = None
        if self.herm:
            self.lo, self.hi = spec['range']

    def bad(self, klass, msg):
        raise Violation([TAG], klass, 'local step %d (%s): %s' % (
            self.calls, self.spec['mode'], msg))

    def energy(self, op, v):
        return np.vdot(v, op @ v) / np.vdot(v, v)

    def __call__(self, op, v0=None, **kw):
        seams.pause()
        try:
            return self.answer(op, v0)
        finally:
            seams.resume()

    def answer(self, op, v0):
        self.calls += 1
        sp = self.spec
        op = np.array(op @ np.eye(op.shape[1]))
        tol = TOL * self.scale
        if v0 is None:
            self.bad('no-start-vector', 'no start vector given')
        v0 = np.array(v0).ravel()
        if op.shape != (v0.size, v0.size):
            self.bad('shape', 'operator %r, start vector %r' % (
                op.shape, v0.shape))
        if self.herm:
            if np.abs(op - op.conj().T).max() > tol:
                self.bad('not-hermitian', 'local operator of a Hermitian '
                         'operator is not Hermitian')
            ev = np.linalg.eigvalsh((op + op.conj().T) / 2)
            if ev[0] < self.lo - tol or ev[-1] > self.hi + tol:
                self.bad('beyond-spectrum', 'local spectrum [%.12g, %.12g] '
                         'leaves the exact one [%.12g, %.12g]' % (
                             ev[0], ev[-1], self.lo, self.hi))
        nrm = np.sqrt(np.vdot(v0, v0).real)
        if not nrm > 1e-8:
            # everything was truncated away: nothing can be said
            need(False)
        e0 = self.energy(op, v0)
        if self.calls == 1:
            if self.start is not None and abs(e0 - self.start) > tol:
                self.bad('start-energy', 'the start vector has energy %r, the '
                         'first local problem starts with %r'
                         % (self.start, e0))
        else:
            self.link(e0, nrm, 'the next local problem starts with')
        if sp.get('nested') == self.calls:
            self.w.nested(sp)
        if sp.get('fail') == self.calls:
            self.exc = {'no-convergence': scipy.sparse.linalg
                        .ArpackNoConvergence('simulated', np.zeros(0),
                                             np.zeros((0, 0))),
                        'out-of-memory': MemoryError('simulated'),
                        'interrupt': KeyboardInterrupt('simulated'),
                        'solver': SolverDown('simulated')}[sp['failkind']]
            raise self.exc
        val, x = self.decide(op, v0, e0)
        self.last = val
        self.trail.append((complex(e0), complex(val)))
        if sp.get('two') == self.calls:
            self.exc = 'two'
            how = sp['s'] % 5
            if how == 0:             # two values for one vector
                return np.array([val, val + 1]), x
            if how == 1:
                return np.array([val]), x.reshape((-1, 1, 1))
            if how == 2:
                return np.array([val, val]), x.reshape((-1, 1))
            return np.array([val] if how == 3 else [val, val]), np.stack(
                [x, x], axis=1)
        if sp['ret'] == 'column':
            return np.array([val]), x.reshape((-1, 1))
        return np.array([val]), x

    def link(self, e0, nrm, what):
        """The vector now is the last answer, possibly truncated."""
        if nrm > 1 + 1e-6:
            self.bad('norm-grew', 'vector of norm %r' % nrm)
        loss = np.sqrt(max(0., 1 - nrm ** 2))
        if self.spec['lossless'] and loss > 1e-5:
            self.bad('needless-truncation', 'norm %r although the ranks '
                     'suffice' % nrm)
        if loss < 1e-6:
            loss = 0
        if abs(e0 - self.last) > TOL * self.scale + 2.1 * loss * self.scale:
            self.bad('energy-lost', 'the last answer had energy %r, %s %r '
                     '(truncation %.2g)' % (self.last, what, e0, loss))

    def decide(self, op, v0, e0):
        mode, rs = self.spec['mode'], self.rs
        if mode == 'mix':
            mode = rs.choice(['lazy', 'random', 'some', self.spec['which'],
                              self.spec['which']])
        if mode == 'lazy':
            x = v0 / np.linalg.norm(v0)
        elif mode == 'random':
            x = zrandn(rs, v0.shape, True)
        elif not self.herm:
            ev, vec = np.linalg.eig(op)
            x = vec[:, rs.randint(len(ev)) if mode == 'some' else
                    int(np.argmax(ev.real + 1e-3 * ev.imag))]
        else:
            ev, vec = np.linalg.eigh((op + op.conj().T) / 2)
            k = {'SA': 0, 'LA': -1, 'LM': int(np.argmax(np.abs(ev))),
                 'some': rs.randint(len(ev))}[mode]
            x = vec[:, k]
        x = x / np.linalg.norm(x)
        if np.iscomplexobj(op) or np.iscomplexobj(x) or np.iscomplexobj(v0):
            x = x * np.exp(2j * np.pi * rs.rand())
        elif rs.rand() < .5:
            x = -x
        val = self.energy(op, x)
        return (val.real if self.herm else val), x


class EigWorld(object):
    def __init__(self, ep, stats):
        self.ep, self.stats, self.cfg = ep, stats, ep['cfg']
        self.log = hashlib.blake2b(digest_size=16)
        rs = np.random.RandomState(self.cfg['seed'])
        self.dims = self.cfg['dims']
        self.n = len(self.dims)
        self.ops = [self.make_op(rs) for _ in range(2)]
        self.nonherm = self.raw(rs, 2, 2, True)
        self.vecs = [self.make_vec(rs) for _ in range(3)]
        self.keep = {}
        self.results = {}
        self.remember()

    # -- construction --------------------------------------------------------
    def raw(self, rs, legs, D, cplx):
        bonds = [1] + [D] * (self.n - 1) + [1]
        return MPArray(LocalTensors([
            zrandn(rs, (bonds[i],) + (self.dims[i],) * legs + (bonds[i + 1],),
                   cplx) for i in range(self.n)]))

    def make_op(self, rs):
        kind = rs.choice(['random', 'real', 'local', 'diag', 'shifted'])
        if kind == 'local':
            parts = []
            for i in range(self.n):
                # products of Hermitian matrices on two neighbouring sites
                hs = [K.eye(d) + 0j for d in self.dims]
                for k in (i, (i + 1) % self.n):
                    h = zrandn(rs, (self.dims[k],) * 2, True)
                    hs[k] = h + h.conj().T
                parts.append([h[None, :, :, None] for h in hs])
            h = direct_sum(parts)
        else:
            a = [np.array(t) for t in self.raw(
                rs, 2, int(rs.choice([1, 2, 3])), kind != 'real').lt]
            if kind == 'diag':
                a = [K.einsum('iabj,ab->iabj', t, K.eye(t.shape[1]))
                     for t in a]
            parts = [a, [t.conj().transpose((0, 2, 1, 3)) for t in a]]
            if kind == 'shifted':
                c = float(rs.choice([-20, 20]))
                parts.append([(c if k == 0 else 1) * K.eye(d)[None, :, :, None]
                              for k, d in enumerate(self.dims)])
            h = direct_sum(parts)
        h = MPArray(LocalTensors(h))
        self.gauge(h, rs)
        return h

    def gauge(self, a, rs):
        k = rs.randint(4)
        if k == 0:
            a.canonicalize()
        elif k == 1:
            a.canonicalize(left=int(rs.randint(self.n)))
        elif k == 2:
            a.canonicalize(right=1 + int(rs.randint(self.n)))

    def make_vec(self, rs):
        D = int(rs.choice([2, 2, 3, 4, 6]))
        v = self.raw(rs, 1, D, rs.rand() < .6)
        c = 1.
        if rs.rand() < .3:
            c = float(rs.choice([1e-3, .1, 7., 1e3]))
        elif rs.rand() < .6:
            x = vec_of(v)
            c = 1 / np.sqrt(np.vdot(x, x).real)
        lts = [np.array(t) for t in v.lt]
        lts[0] = lts[0] * c
        if rs.rand() < .2:
            # rank-deficient: the same vector with bonds too large
            lts = direct_sum([lts, [0 * t for t in lts]])
        v = MPArray(LocalTensors(lts))
        self.gauge(v, rs)
        return v

    def remember(self):
        self.images = [(a, image(a)) for a in
                       self.ops + [self.nonherm] + self.vecs]

    def check_unchanged(self, when):
        for k, (a, (lts, form)) in enumerate(self.images):
            bad = len(a) != len(lts) or any(
                not np.array_equal(a.lt[i], lts[i]) for i in range(len(lts)))
            if bad:
                # only the represented tensor counts
                old = dense_of(MPArray(LocalTensors(lts)))
                new = dense_of(a)
                if old.shape != new.shape or np.abs(old - new).max() > 1e-9 * (
                        1 + np.abs(old).max()):
                    raise Violation([TAG, 'C03'], 'argument-changed',
                                    '%s changed argument %d' % (when, k))

    # -- episode interface ---------------------------------------------------
    def replay(self):
        for o in self.ep['ops']:
            self.step(o)

    def finish(self):
        self.check_unchanged('the end')

    def close(self):
        seams.disarm()

    def digest(self):
        return self.log.hexdigest()

    def generate(self):
        rng = make_rng('eig', self.ep['seed'])
        spy = hidden.Spy()
        for _ in range(self.cfg['steps']):
            o = self.gen(rng)
            self.ep['ops'].append(o)
            outcome = self.step(o)
            stored = spy(dict(enumerate(self.ops + self.vecs)))
            if stored:
                self.stats.probe('stores')
            if (o['op'] == 'search' and o['start'] != 'last'
                    and outcome == 'ok'
                    and rng.random() < (.35 if stored else .04)):
                # Change the operands in place and search again.
                for _ in range(2):
                    c = dict(op='change', a=rng.randrange(5),
                             s=rng.getrandbits(31))
                    self.ep['ops'].append(c)
                    self.step(c)
                self.stats.probe('echoes')
                self.ep['ops'].append(dict(o))
                self.step(o)

    def gen(self, rng):
        if rng.random() < .12:
            return dict(op='gauge', a=rng.randrange(6), s=rng.getrandbits(31))
        if rng.random() < .1:
            return dict(op='new', a=rng.randrange(5), s=rng.getrandbits(31))
        if rng.random() < .1:
            return dict(op='change', a=rng.randrange(5),
                        s=rng.getrandbits(31))
        o = dict(op='search', s=rng.getrandbits(31),
                 fn=rng.choice(['eig', 'sum', 'sum']),
                 which=rng.choice(['SA', 'SA', 'LA', 'LM']),
                 mode=rng.choice(['which', 'which', 'which', 'lazy', 'random',
                                  'mix', 'some']),
                 ops=[rng.randrange(2)],
                 projs=[], vs=rng.choice([x for x in (1, 1, 2, 2, 3)
                                          if x < self.n]),
                 sweeps=rng.choice([1, 1, 2, 3]),
                 start=rng.choice(['vec', 'vec', 'full', 'random', 'last']),
                 v=rng.randrange(3), rank=rng.choice([2, 2, 3, 5]),
                 ret=rng.choice(['column', 'flat']))
        if rng.random() < .1:
            o['ops'], o['fn'] = ['nonherm'], 'eig'
        if o['start'] == 'last' and self.results:
            k = json.loads(rng.choice(sorted(self.results)))
            o['ops'], o['projs'] = k
            o['fn'] = 'sum' if k[1] or len(k[0]) > 1 else 'eig'
        elif o['start'] == 'last':
            o['start'] = 'full'
        elif o['fn'] == 'sum':
            self.gen_sum(rng, o)
        if rng.random() < self.cfg['fault_rate']:
            x = rng.random()
            if x < .5:
                o['fail'] = rng.randint(1, 6)
                o['failkind'] = rng.choice(['no-convergence', 'out-of-memory',
                                            'interrupt', 'solver'])
            elif x < .6:
                o['two'] = rng.randint(1, 4)
            else:
                o['fault'] = [rng.choice(seams.KINDS),
                              1 + int(rng.expovariate(1 / 40.)), 'before']
        elif rng.random() < .1:
            o['nested'] = rng.randint(1, 4)
        elif rng.random() < .08:
            o['default'] = True
        return o

    def gen_sum(self, rng, o):
        for _ in range(rng.choice([0, 0, 1])):
            o['ops'].append(rng.randrange(2))
        for _ in range(rng.choice([0, 1, 1, 2])):
            o['projs'].append(rng.randrange(3))
        if rng.random() < .1 and o['projs']:
            o['ops'] = []

    def step(self, o):
        st = self.stats
        st.steps += 1
        self.note = ()
        self.failed = False
        try:
            outcome = getattr(self, 'do_' + o['op'])(o) or 'ok'
        except Skip:
            outcome = 'skip'
        except Violation as v:
            self.complain(v)
            outcome = 'foreign'
        finally:
            seams.disarm()
        st.bump(st.ops, o['op'])
        st.bump(st.outcomes, outcome)
        if outcome != 'skip':
            st.evals += 1
            st.state(o['op'], outcome, o.get('mode'), o.get('which'),
                     o.get('fn'), len(o.get('ops', [])), len(o.get(
                         'projs', [])), o.get('vs'), o.get('sweeps'),
                     o.get('start'), tuple(self.dims), self.note)
        try:
            self.check_unchanged(o['op'])
        except Violation as v:
            self.complain(v)
            self.remember()
        self.log.update(json.dumps([o, outcome, self.note],
                                   sort_keys=True).encode())
        return outcome

    failed = False

    def complain(self, v):
        if self.failed:
            v = Violation(list(v.tags) + ['C04'], v.klass, v.msg)
        pass_over(self.ep, self.stats, v)

    # -- operations ----------------------------------------------------------
    def do_gauge(self, o):
        a = (self.ops + [self.nonherm] + self.vecs)[o['a']]
        self.gauge(a, np.random.RandomState(o['s']))
        self.check_unchanged('gauge')
        self.remember()

    def do_new(self, o):
        rs = np.random.RandomState(o['s'])
        if o['a'] < 2:
            self.ops[o['a']] = self.make_op(rs)
        else:
            self.vecs[o['a'] - 2] = self.make_vec(rs)
        self.results = {}
        self.remember()

    def do_change(self, o):
        """An operator (kept Hermitian) or a vector is changed in place."""
        rs = np.random.RandomState(o['s'])
        a = (self.ops + self.vecs)[o['a']]
        if rs.rand() < .3:
            a *= float(rs.choice([-1., 2., .5]))
        else:
            i = int(rs.randint(self.n))
            u, _ = np.linalg.qr(zrandn(rs, (self.dims[i],) * 2, True))
            t = np.einsum('sp,ap...->as...', u, np.asarray(a.lt[i]))
            if o['a'] < 2:
                t = np.einsum('tn,asnb->astb', u.conj(), t)
            a.lt.update(i, t)
        self.results = {}
        self.remember()

    def full_vec(self, rs):
        """Start vector whose bonds are all complete."""
        left, right = [1], [1]
        for d in self.dims:
            left.append(left[-1] * d)
        for d in reversed(self.dims):
            right.append(right[-1] * d)
        right = right[::-1]
        b = [min(x, y) for x, y in zip(left, right)]
        return MPArray(LocalTensors([
            zrandn(rs, (b[i], self.dims[i], b[i + 1]), True)
            for i in range(self.n)]))

    def operator(self, o):
        H = 0
        for k in o['ops']:
            H = H + mat_of(self.nonherm if k == 'nonherm' else self.ops[k])
        for k in o['projs']:
            v = vec_of(self.vecs[k])
            H = H + K.outer(v, v.conj())
        return H

    def do_search(self, o):
        need(self.n > o['vs'] and (o['ops'] or o['projs']))
        H = self.operator(o)
        herm = 'nonherm' not in o['ops']
        rs = np.random.RandomState(o['s'])
        mode = o['which'] if o['mode'] == 'which' else o['mode']
        if not herm and mode in ('SA', 'LA', 'LM'):
            mode = 'LA'
        scale = float(np.linalg.norm(H, 2))
        spec = dict(o, mode=mode, herm=herm, lossless=o['vs'] == 1)
        if herm:
            ev = np.linalg.eigvalsh((H + H.conj().T) / 2)
            spec['range'] = (ev[0], ev[-1])
        # start vector
        kw = dict(num_sweeps=o['sweeps'], var_sites=o['vs'])
        key = json.dumps([o['ops'], o['projs']])
        prev = None
        if o['start'] == 'random':
            kw.update(startvec_rank=o['rank'],
                      randstate=np.random.RandomState(o['s']))
            start, e_start = None, None
        else:
            if o['start'] == 'full':
                start = self.full_vec(rs)
                spec['lossless'] = True
            elif o['start'] == 'last':
                need(key in self.results)
                start, prev = self.results[key]
            else:
                start = self.vecs[o['v']]
            r = (1,) + tuple(start.ranks) + (1,)
            need(all((r[i], r[i + 1]) != (1, 1) for i in range(len(r) - 1)))
            v = vec_of(start)
            nv = np.vdot(v, v).real
            need(nv > 1e-12)
            e_start = np.vdot(v, H @ v) / nv
            kw['startvec'] = start
        pre = image(start) if start is not None else None
        if o.get('default'):
            return self.default_solver(o, H, scale, herm, kw)
        solver = Solver(self, spec, H, e_start, scale)
        kw['eigs'] = solver
        res = self.run(o, kw, solver)
        self.failed = res[0] == 'failed'
        if start is not None:
            old, new = MPArray(LocalTensors(pre[0])), start
            if np.abs(dense_of(old) - dense_of(new)).max() > 1e-9 * (
                    1 + np.abs(dense_of(old)).max()):
                raise Violation([TAG, 'C03'], 'startvec-changed',
                                'the start vector was changed')
        if res[0] == 'failed':
            # Once the trouble is over, the same search works.
            spec2 = {k: v for k, v in spec.items()
                     if k not in ('fail', 'two', 'nested')}
            solver = Solver(self, spec2, H, e_start, scale)
            kw['eigs'] = solver
            if o['start'] == 'random':
                kw['randstate'] = np.random.RandomState(o['s'])
            again = self.run(dict(o, fault=None, fail=None, two=None), kw,
                             solver)
            self.judge(o, spec2, H, scale, solver, again[1], prev, key)
            return res[1]
        self.judge(o, spec, H, scale, solver, res[1], prev, key)
        self.compare(o, spec, H, scale, solver, e_start, kw)
        return 'ok'

    def call(self, o, kw):
        if o['fn'] == 'eig' and len(o['ops']) == 1 and not o['projs']:
            k = o['ops'][0]
            return mp.linalg.eig(self.nonherm if k == 'nonherm'
                                 else self.ops[k], **kw)
        mpas = [self.ops[k] for k in o['ops']] + [
            self.vecs[k] for k in o['projs']]
        if o['s'] % 2:
            mpas = mpas[::-1]
        return mp.linalg.eig_sum(mpas, **kw)

    def run(self, o, kw, solver):
        f = o.get('fault')
        seams.arm(seams.Plan(*f) if f else None)
        try:
            val, vec = self.call(o, kw)
            seams.disarm()
            if solver.exc is not None:
                raise Violation([TAG], 'failure-swallowed', 'the solver '
                                'failed but the search returned a result')
            return 'ok', (val, vec)
        except (Violation, Skip, Hang):
            raise
        except BaseException as e:
            fired = seams.disarm()
            if fired:
                self.stats.fault('kernel:' + fired)
                return 'failed', 'failed:' + fired
            if solver.exc == 'two' and isinstance(e, ValueError):
                self.stats.fault('malformed-answer')
                return 'failed', 'refused'
            if e is solver.exc:
                self.stats.fault('solver:' + o['failkind'])
                return 'failed', 'failed:solver'
            raise Violation([TAG], 'raised', 'eigenvalue search raised %s: %s'
                            % (type(e).__name__, str(e)[:200]))

    def judge(self, o, spec, H, scale, solver, res, prev, key):
        val, vec = res
        bad = structure_error(vec)
        if bad:
            raise Violation([TAG, 'C01'], 'bad-vector', bad)
        if tuple(tuple(s) for s in vec.shape) != tuple(
                (d,) for d in self.dims):
            raise Violation([TAG], 'bad-vector', 'shape %r' % (vec.shape,))
        if abs(val - solver.last) > TOL * scale:
            raise Violation([TAG], 'wrong-value', 'returned %r, the last '
                            'local solution was %r' % (val, solver.last))
        v = vec_of(vec)
        nv = np.sqrt(np.vdot(v, v).real)
        need(nv > 1e-8)
        e = np.vdot(v, H @ v) / nv ** 2
        solver.link(e, nv, 'the returned vector has')
        self.note = (solver.calls,)
        if not spec['herm']:
            return
        tol = TOL * scale * 10
        lo, hi = spec['range']
        if not lo - tol <= val <= hi + tol:
            raise Violation([TAG], 'beyond-spectrum', 'value %r, exact '
                            'extremes %r' % (val, spec['range']))
        sign = {'SA': 1, 'LA': -1}.get(spec['mode'])
        exact = spec['lossless'] and sign
        if exact:
            e0 = solver.trail[0][0].real
            for k, (e0, e1) in enumerate(solver.trail):
                if sign * (e1.real - e0.real) > tol:
                    raise Violation([TAG], 'got-worse', 'local step %d made '
                                    'the value worse: %r -> %r' % (k, e0, e1))
                if k and sign * (e1.real - solver.trail[k - 1][1].real) > tol:
                    raise Violation([TAG], 'got-worse', 'local step %d is '
                                    'worse than the one before' % k)
            if prev is not None and sign * (val - prev) > tol \
                    and abs(prev - solver.trail[0][0]) < tol:
                raise Violation([TAG], 'got-worse', 'continuing a search '
                                'made the value worse')
            if o['start'] == 'full':
                best = lo if sign == 1 else hi
                if abs(val - best) > tol:
                    raise Violation([TAG], 'not-extremal', 'full rank, exact '
                                    'solver: %r, exact extremum %r'
                                    % (val, best))
                self.stats.probe('reached-exact-extremum')
        self.results[key] = (vec, val)

    def compare(self, o, spec, H, scale, solver, e_start, kw):
        """More sweeps; the sum as one operator."""
        if not spec['herm'] or spec['mode'] not in ('SA', 'LA') or \
                not spec['lossless'] or o['start'] == 'random' or o.get('nested'):
            return
        tol = TOL * scale * 10
        sign = 1 if spec['mode'] == 'SA' else -1
        val = solver.last
        if o['s'] % 3 == 0:
            clean = {k: v for k, v in spec.items()
                     if k not in ('fail', 'two')}
            s2 = Solver(self, clean, H, e_start, scale)
            kw2 = dict(kw, num_sweeps=o['sweeps'] + 1, eigs=s2)
            val2, _ = self.run(dict(o, fault=None, fail=None, two=None), kw2,
                               s2)[1]
            if sign * (val2 - val) > tol:
                raise Violation([TAG], 'more-sweeps-worse', '%d sweeps: %r, '
                                'one more: %r' % (o['sweeps'], val, val2))
            self.stats.probe('more-sweeps')

    def nested(self, o):
        """The solver starts a search over the same operator itself."""
        rs = np.random.RandomState(o['s'])
        start = self.full_vec(rs)
        o2 = dict(o, vs=1, sweeps=1)
        H = self.operator(o)
        s = Solver(self, dict(o, mode='lazy', lossless=True, nested=None,
                              fail=None, two=None, range=o.get('range')), H,
                   None, max(1e-12, float(np.linalg.norm(H, 2))))
        self.call(o2, dict(num_sweeps=1, var_sites=1, startvec=start, eigs=s))
        self.stats.probe('nested-search')

    def default_solver(self, o, H, scale, herm, kw):
        """Without a solver: ARPACK, largest magnitude."""
        need(herm and o['vs'] == 1)
        try:
            val, vec = self.call(o, kw)
        except scipy.sparse.linalg.ArpackError:
            raise Skip()
        except Exception as e:
            raise Violation([TAG], 'raised', 'default solver: %s: %s'
                            % (type(e).__name__, str(e)[:200]))
        v = vec_of(vec)
        nv = np.sqrt(np.vdot(v, v).real)
        e = np.vdot(v, H @ v) / nv ** 2
        if abs(nv - 1) > 1e-6 or abs(e - val) > 1e-3 * scale:
            raise Violation([TAG], 'wrong-value', 'default solver: value %r, '
                            'vector of norm %r has energy %r' % (val, nv, e))
        if abs(val) > scale * (1 + 1e-6):
            raise Violation([TAG], 'beyond-spectrum', 'default solver')
        if o['start'] == 'full' and abs(abs(val) - scale) > 1e-3 * scale:
            raise Violation([TAG], 'not-extremal', 'default solver: |%r|, '
                            'largest magnitude %r' % (val, scale))
        return 'default'


WORLDS = {'eig': EigWorld}
