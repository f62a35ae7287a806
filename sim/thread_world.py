"""Worlds of client threads sharing arrays (C11) and random streams (C07).

Every client thread runs a script of library operations on shared arrays and
on arrays of its own.  The oracle is the same script run alone on freshly
built, equal arrays.
"""
import hashlib
import json
import random as pyrandom

import numpy as np

from . import boot, hidden, threads
from .boot import K, mp
from .core import Violation, Skip, Hang, make_rng, need
from .model import dense_of, structure_error
from .threads import (Scheduler, hot_decider, random_decider,
                      replay_decider)

MPArray = mp.MPArray
mpsmpo = mp.mpsmpo
mpp = mp.povm
factory = mp.factory
TOL = 1e-8


class MixedRng(pyrandom.Random):
    """Draws from a stream common to all clients or from a private one.

    Clients that run the same operation with such generators mostly agree on
    its arguments (same shared object, same method) and differ in a few.
    """

    def __init__(self, common, private, share):
        self.streams = None
        pyrandom.Random.__init__(self)
        self.streams = common, private
        self.share = share

    def mix(self, draw):
        common, private = self.streams
        take = private.random() < self.share
        a, b = draw(common), draw(private)
        return a if take else b

    def random(self):
        return self.mix(lambda r: r.random())

    def getrandbits(self, k):
        return self.mix(lambda r: r.getrandbits(k))

    def seed(self, *args, **kwargs):
        pass


def op_rng(o):
    if 'c' in o:
        return MixedRng(make_rng('op', o['c']), make_rng('own', o['s']),
                        o['p'])
    return make_rng('op', o['s'])


def canon(res, depth=0):
    """Results as nested lists of ndarrays and strings (values only)."""
    if depth > 6:
        return ['deep']
    if isinstance(res, MPArray):
        return ['mpa', repr(tuple(map(tuple, res.shape))), np.array(dense_of(
            res))]
    if isinstance(res, mpp.MPPovmList):
        return ['mppl'] + [canon(m, depth + 1) for m in res.mpps]
    if isinstance(res, np.ndarray) and res.dtype.kind == 'O':
        return ['seq', repr(res.shape)] + [canon(r, depth + 1)
                                           for r in res.flat]
    if isinstance(res, np.ndarray):
        return ['arr', repr(res.shape), np.array(res)]
    if isinstance(res, (bool, np.bool_)):
        return ['bool', str(bool(res))]
    if isinstance(res, (int, float, complex, np.number)):
        return ['num', np.array(complex(res))]
    if res is None or isinstance(res, str):
        return ['str', str(res)]
    if isinstance(res, (list, tuple)):
        return ['seq', str(len(res))] + [canon(r, depth + 1) for r in res]
    if hasattr(res, '__next__') or hasattr(res, '__iter__'):
        return ['seq'] + [canon(r, depth + 1) for r in res]
    return ['other', type(res).__name__]


def same(a, b, tol=TOL):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str):
        return type(a) == type(b) and a == b
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.dtype.kind in 'biu':
        return bool((a == b).all())
    if a.size == 0:
        return True
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    a, b = np.where(na, 0, a), np.where(nb, 0, b)
    return bool(np.abs(a - b).max() <= tol * max(np.abs(b).max(), 1e-3))


def bits(mpa):
    h = hashlib.blake2b(digest_size=16)
    for i in range(len(mpa)):
        t = np.asarray(mpa.lt[i])
        h.update(repr((t.shape, t.dtype.str)).encode() + t.tobytes())
    h.update(repr(tuple(mpa.canonical_form)).encode())
    return h.digest()


class Env(object):
    """What one client sees: the shared arrays and its own."""

    def __init__(self, shared):
        self.sh = shared
        self.own = []
        self.world = None

    def keep(self, mpa):
        if isinstance(mpa, MPArray) and len(mpa) <= 6 and (
                not mpa.ranks or max(mpa.ranks) <= 16) and np.prod(
                    [float(np.prod(s)) for s in mpa.shape]) <= 4096:
            if any(mpa is v for v in self.sh.values()):
                return mpa      # e.g. group_sites(1)
            if isinstance(mpa, mpp.MPPovm):
                return mpa
            self.own.append(mpa)
            if len(self.own) > 4:
                self.own.pop(0)
        return mpa

    def pick(self, rng, kind=None, own=.25):
        """An array with the given legs per site (None: any)."""
        def fits(m):
            return not isinstance(m, mpp.MPPovm) and (
                kind is None or all(n == kind for n in m.ndims))
        mine = [m for m in self.own if fits(m)]
        theirs = [self.sh[k] for k in sorted(self.sh)
                  if isinstance(self.sh[k], MPArray) and fits(self.sh[k])]
        need(theirs or mine)
        if mine and (rng.random() < own or not theirs):
            return rng.choice(mine)
        return rng.choice(theirs)

    def same_shape(self, rng, m):
        c = [x for x in [self.sh[k] for k in sorted(self.sh)] + self.own
             if isinstance(x, MPArray) and not isinstance(x, mpp.MPPovm)
             and x.shape == m.shape]
        return rng.choice(c) if c else m

    def povm(self, rng):
        return self.sh[rng.choice(['povm1', 'povm2', 'povm3'])]

    def state(self, rng):
        """(state, mode) of full length."""
        return rng.choice([(self.sh['mps1'], 'mps'), (self.sh['mps2'], 'mps'),
                           (self.sh['pmps1'], 'pmps'),
                           (self.sh['mpdo1'], 'mpdo'),
                           (self.sh['pmps2'], 'pmps')])


def gauge(rng, m):
    n = len(m)
    style = rng.randrange(4)
    if style == 1:
        m.canonicalize(left=rng.randrange(n))
    elif style == 2:
        m.canonicalize(right=rng.randint(1, n))
    elif style == 3:
        i = rng.randrange(n)
        m.canonicalize(left=i, right=rng.randint(i + 1, n))
    return m


def build_shared(cfg):
    rng = make_rng('shared', cfg['shared'])
    rs = np.random.RandomState(rng.getrandbits(31))
    n, d = cfg['n'], cfg['d']
    sh = {}

    def arr(shapes, rank, cplx=True):
        ranks = [1] + [rank] * (n - 1) + [1]
        out = []
        for i, s in enumerate(shapes):
            shape = (ranks[i],) + tuple(s) + (ranks[i + 1],)
            t = rs.randn(*shape)
            if cplx:
                t = t + 1j * rs.randn(*shape)
            out.append(t)
        m = MPArray(out)
        return m

    def normed(m):
        nrm = np.linalg.norm(dense_of(m))
        t = [np.asarray(m.lt[i]) / nrm ** (1. / n) for i in range(n)]
        return MPArray(t)
    for k in ('mps1', 'mps2', 'mps3'):
        sh[k] = gauge(rng, normed(arr([(d,)] * n, rng.choice([2, 3]),
                                      k != 'mps3')))
    for k in ('prod1', 'prod2', 'prod3'):
        sh[k] = gauge(rng, arr([(d,)] * n, 1, k != 'prod3'))
    for k in ('pmps1', 'pmps2'):
        sh[k] = gauge(rng, normed(arr([(d, rng.choice([2, 3]))
                                       for _ in range(n)], 2)))
    for k in ('mpo1', 'mpo2'):
        sh[k] = gauge(rng, arr([(d, d)] * n, rng.choice([2, 3]), k == 'mpo1'))
    m = sh['mpo1']
    sh['herm'] = gauge(rng, m + m.adj())
    pure = sh['pmps2']
    sh['mpdo1'] = gauge(rng, mpsmpo.pmps_to_mpo(pure))
    sh['three'] = gauge(rng, arr([(2, 1, 2)] * n, 2))
    sh['gen'] = gauge(rng, arr([rng.choice([(2,), (d, 2), (3,), (2, 1)])
                                for _ in range(n)], 2, False))
    sh['povm1'] = mpp.pauli_mpp(n, d) if d ** n <= 9 else \
        mpp.MPPovm.from_local_povm(mpp.x_povm(d), n)
    sh['povm2'] = mp.chain([mpp.MPPovm.from_local_povm(
        rng.choice([mpp.x_povm, mpp.y_povm])(d), 1) for _ in range(n)])
    w = rng.randint(1, n)
    sh['povm3'] = mpp.MPPovm.from_local_povm(mpp.x_povm(d), w).embed(
        n, rng.randint(0, n - w), d)
    sh['povma'] = gauge(rng, MPArray([np.array(t) for t in sh['povm2'].lt]))
    sh['mppl'] = mpp.MPPovmList([sh['povm2'], sh['povm3']])
    sh['mppl2'] = mpp.MPPovmList([sh['povm3'], sh['povm2']])
    return sh


OPS, RND, PERT = {}, {}, {}


def op(reg, name=None, weight=1.0):
    def deco(fn):
        reg[name or fn.__name__] = (fn, weight)
        return fn
    return deco


from . import thread_ops  # noqa  (registers the operations)


class ThreadWorld(object):
    tag = 'C11'

    def __init__(self, ep, stats):
        self.ep, self.stats = ep, stats
        self.cfg = ep['cfg']
        self.log = hashlib.blake2b(digest_size=16)
        self.sch = None

    # -- episode ------------------------------------------------------------
    def generate(self):
        rng = make_rng('threads', self.ep['seed'])
        cfg = self.cfg
        nt = cfg['threads']
        names = sorted(self.registry())
        wts = [self.registry()[n][1] for n in names]
        twin = cfg.get('twin')
        script = [rng.choices(names, wts)[0] for _ in range(cfg['len'])]
        if twin == 'duel':
            common = [rng.getrandbits(31) for _ in script]
            share = rng.choice([.6, .75, .9])
        focus = rng.sample(names, min(3, len(names)))
        for t in range(nt):
            for k in range(cfg['len']):
                if twin == 'same':
                    name = script[k]
                elif twin == 'focus':
                    name = rng.choice(focus)
                else:
                    name = rng.choices(names, wts)[0]
                o = dict(t=t, op=name, s=rng.getrandbits(31))
                if twin == 'duel':
                    o.update(op=script[k], c=common[k], p=share)
                self.ep['ops'].append(o)
        self.more_ops(rng)
        self.ep['kills'] = []
        if rng.random() < cfg['kill_rate']:
            self.ep['kills'] = [[rng.randrange(nt), 1 + int(
                rng.expovariate(1.0 / cfg['kill_mean']))]]
        sched_rng = make_rng('sched', self.ep['seed'])
        self.ep.pop('sched', None)
        self.run(random_decider(sched_rng, cfg['style']))
        # self.run recorded the schedule
        if self.writers and sched_rng.random() < .3:
            o, keys = self.writers[sched_rng.choice(sorted(self.writers))]
            self.duel(sched_rng, o, keys)

    def duel(self, rng, o, keys):
        """Clients meet in an operation that stores something."""
        ep, tail = self.ep, [x for x in self.ep['ops'] if x['op'] in PERT]
        for share in (.6, .75, .75, .9, .9, .9):
            nt = rng.choice([2, 2, 3])
            ep['ops'] = [dict(t=t, op=o['op'], s=rng.getrandbits(31),
                              c=o.get('c', o['s']), p=share)
                         for t in range(nt) for _ in range(2)]
            ep['ops'] += [dict(x, t=nt) for x in tail]
            ep['kills'] = []
            ep.pop('sched', None)
            self.stats.probe('duels')
            self.run(hot_decider(rng), keys, lambda: rng.choice(
                [1, 1, 2, 3, 5, 10]))
            self.sch.shutdown()

    def more_ops(self, rng):
        pass

    def registry(self):
        return OPS

    def replay(self):
        self.run(replay_decider(self.ep.get('sched') or []))

    def scripts(self):
        out = {}
        for o in self.ep['ops']:
            out.setdefault(o['t'], []).append(o)
        return [out[t] for t in sorted(out)], sorted(out)

    def build(self):
        return build_shared(self.cfg)

    def call(self, env, o):
        """Run one operation; returns its canonicalised outcome."""
        rng = op_rng(o)
        fn = self.registry()[o['op']][0]
        try:
            return canon(fn(env, rng))
        except (Hang, threads.ThreadDeath):
            raise
        except Skip:
            return ['skip']
        except Exception as e:
            return ['raised', type(e).__name__, str(e)[:160]]

    def run(self, decide, keys=(), linger=None):
        ep, st = self.ep, self.stats
        self.writers = {}
        scripts, ids = self.scripts()
        if not scripts:
            return
        # Oracle: every client alone, on arrays of its own.
        want = []
        for sc in scripts:
            env = Env(self.build())
            rts = hidden.roots(env.sh)
            state = hidden.snapshot(rts)
            want.append([])
            for o in sc:
                want[-1].append(self.call(env, o))
                now = hidden.snapshot(rts)
                stores = hidden.changed(state, now)
                if stores and o['op'] not in PERT:
                    st.probe('stores')
                    self.writers.setdefault(o['op'], (o, stores))
                state = now
        # The simulated run.
        shared = self.build()
        before = {k: bits(v) for k, v in shared.items()
                  if isinstance(v, MPArray)}
        envs = [Env(shared) for _ in scripts]
        got = [[] for _ in scripts]

        def body(i):
            def run():
                for o in scripts[i]:
                    got[i].append(self.call(envs[i], o))
            return run
        pos = {t: i for i, t in enumerate(ids)}
        kills = [(pos[t], at) for t, at in ep.get('kills') or []
                 if t in pos]
        # segments refer to thread ids of the episode
        back = {i: t for i, t in enumerate(ids)}
        seg = ep.get('sched')
        if seg is not None:
            decide = replay_decider([[pos[t], n] for t, n in seg if t in pos])
        self.sch = sch = Scheduler([body(i) for i in range(len(scripts))],
                                   decide, kills, st)
        if keys and seg is None:
            sch.watch, sch.linger = hidden.Watch(shared, keys), linger
        done = sch.run()
        if seg is None:
            ep['sched'] = [[back[i], n] for i, n in sch.trace if n]
        if sch.errors:
            raise RuntimeError('harness: %r' % (sch.errors,))
        if not done:
            raise Violation([self.tag], 'blocked', 'clients block each other '
                            'forever')
        st.steps += sum(len(g) for g in got)
        switches = sum(1 for a, b in zip(sch.trace, sch.trace[1:])
                       if a[0] != b[0])
        st.probe('context-switches', switches)
        st.probe('traced-lines', sum(sch.lines))
        for i in sch.killed:
            st.fault('thread-death')
        if len(sch.trace) > 2 and any(
                s[1] > 300 for s in sch.trace) and switches > 1:
            st.fault('stall')
        self.check(scripts, want, got, sch)
        for k, b in sorted(before.items()):
            if bits(shared[k]) != b:
                err = structure_error(shared[k])
                raise Violation([self.tag], 'shared-changed',
                                'shared array %s was changed by operations '
                                'that do not modify their operands%s'
                                % (k, ' (%s)' % err if err else ''))
        self.log.update(json.dumps([
            sch.trace, sch.lines, [[g[0] for g in gs] for gs in got]]
            ).encode())

    def check(self, scripts, want, got, sch):
        st = self.stats
        for i, sc in enumerate(scripts):
            for k, o in enumerate(sc):
                if k >= len(got[i]):
                    if i not in sch.killed:
                        raise RuntimeError('harness: thread ended early')
                    break
                w, g = want[i][k], got[i][k]
                st.bump(st.ops, o['op'])
                st.bump(st.outcomes, g[0] if g[0] in ('skip', 'raised')
                        else 'ok')
                if w[0] in ('rnd', 'glob'):
                    st.probe(w[0])
                    if w[1][0] == 'raised':
                        st.probe('raised %s: %s' % (o['op'], w[1][1:]))
                if w[0] == 'raised':
                    st.probe('raised %s: %s: %s' % (o['op'], w[1], w[2][:60]))
                if w[0] != 'skip':
                    st.evals += 1
                    st.state(o['op'], len(scripts), min(k, 3), g[0],
                             self.cfg['style'][0], self.cfg['n'],
                             tuple(sorted(self.overlap(scripts, i, k))))
                if w[0] == g[0] == 'raised' and g[1] == w[1]:
                    continue
                if not same(g, w):
                    raise Violation(
                        [self.tag], 'differs:' + o['op'],
                        'client %d, %s: %s alone, %s when interleaved with '
                        'the others' % (o['t'], o['op'], brief(w), brief(g)))

    def overlap(self, scripts, i, k):
        return set(sc[min(k, len(sc) - 1)]['op']
                   for j, sc in enumerate(scripts) if j != i)

    def finish(self):
        pass

    def close(self):
        if self.sch is not None:
            self.sch.shutdown()

    def digest(self):
        return self.log.hexdigest()


def brief(r):
    if isinstance(r, list) and r and isinstance(r[-1], np.ndarray):
        a = r[-1].ravel()
        return '%s %s' % (r[0], np.array2string(a[:3], precision=6))
    return str(r)[:120]


class RandomWorld(ThreadWorld):
    """C07: clients with generators of their own, and clients that draw from
    or seed the process-wide generators."""
    tag = 'C07'

    def registry(self):
        d = dict(RND)
        d.update(PERT)
        return d

    def generate(self):
        ThreadWorld.generate(self)

    def more_ops(self, rng):
        # An extra client perturbs the process-wide generators.
        t = self.cfg['threads']
        names = sorted(PERT)
        for k in range(self.cfg['len'] * 2):
            self.ep['ops'].append(dict(t=t, op=rng.choice(names),
                                       s=rng.getrandbits(31)))

    def call(self, env, o):
        if o['op'] in PERT:
            rng = make_rng('op', o['s'])
            self.order.append(o)
            PERT[o['op']][0](env, rng)
            return ['pert']
        rng = op_rng(o)
        seed = rng.getrandbits(31)
        if rng.random() < .2:
            return self.call_global(env, o, rng, seed)
        rs = np.random.RandomState(seed)
        env.rs = rs
        env.given = True
        res = ThreadWorld.call(self, env, o)
        return ['rnd', res, ['state', repr(rs.get_state()[2:]),
                             np.array(rs.get_state()[1], np.int64)]]

    def call_global(self, env, o, rng, seed):
        """No generator given: seeding numpy's generator decides all."""
        i = getattr(self.sch, 'tls', None)
        me = getattr(i, 'me', None) if i is not None else None
        if me is not None:
            self.sch.nopreempt[me] += 1
        entry = dict(op='sync')
        try:
            np.random.seed(seed)
            self.order.append(entry)
            env.rs = None
            env.given = False
            res = ThreadWorld.call(self, env, o)
            st = np.random.get_state()
            return ['glob', res, ['state', repr(st[2:]),
                                  np.array(st[1], np.int64)]]
        finally:
            entry['state'] = np.random.get_state()
            if me is not None:
                self.sch.nopreempt[me] -= 1

    def run(self, decide, keys=(), linger=None):
        self.order = []
        keep = np.random.get_state()
        pykeep = pyrandom.getstate()
        cfg = self.cfg
        try:
            np.random.seed(cfg['shared'] % (2 ** 31))
            pyrandom.seed(cfg['shared'])
            ThreadWorld.run(self, decide, keys, linger)
        finally:
            np.random.set_state(keep)
            pyrandom.setstate(pykeep)

    def check(self, scripts, want, got, sch):
        # The process-wide generator only moved as the perturbing clients
        # moved it.
        final = np.random.get_state()
        pyfinal = pyrandom.getstate()
        np.random.seed(self.cfg['shared'] % (2 ** 31))
        pyrandom.seed(self.cfg['shared'])
        for o in self.order:
            if o['op'] == 'sync':
                np.random.set_state(o['state'])
            else:
                PERT[o['op']][0](None, make_rng('op', o['s']))
        ref = np.random.get_state()
        if (ref[1] != final[1]).any() or ref[2:] != final[2:]:
            raise Violation(['C07'], 'global-disturbed', 'operations that '
                            'were given a generator disturbed numpy\'s '
                            'process-wide generator')
        if pyrandom.getstate() != pyfinal:
            raise Violation(['C07'], 'pyrandom-disturbed', 'the state of '
                            'Python\'s random module changed')
        ThreadWorld.check(self, scripts, want, got, sch)


WORLDS = {'threads': ThreadWorld, 'random': RandomWorld}
