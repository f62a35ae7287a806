"""Measurement stations that send samples over a lossy network, and a client
that estimates probabilities and linear functions from what arrived (C09)."""
import heapq

import numpy as np

from .boot import mp
from .core import Skip, Violation, finding, need
from .model import maxabs
from .povm_common import mpp, make_state, product_povm, regauge, rotate
from .povm_world import BaseWorld, MeasureWorld, Refused, SimRng

EOPS = {}


def eop(weight=1.0):
    def deco(fn):
        EOPS[fn.__name__[2:]] = (fn, weight)
        return fn
    return deco


class Match(object):
    """Which outcomes of ``other`` count for which outcomes of ``me``."""

    def __init__(self, me, other):
        # Outcomes of other on sites where me has none are summed over.
        e = other.elems
        n = len(me.outdims)
        drop = tuple(i for i in range(n) if me.outdims[i] == 1)
        e = e.sum(axis=drop, keepdims=True) if drop else e
        self.odims = tuple(d for d in e.shape[:n] if d > 1)
        D = e.shape[-1]
        eo = e.reshape((-1, D * D))
        es = me.elems.reshape((-1, D * D))
        no = np.linalg.norm(eo, axis=1)
        ns = np.linalg.norm(es, axis=1)
        need((no > 1e-9).all() and (ns > 1e-9).all())
        c = (np.abs(es.conj() @ eo.T) / np.outer(ns, no)) ** 2
        self.match = abs(c - 1) <= 1e-10
        need(not ((abs(c - 1) > 1e-12) & (abs(c - 1) < 1e-7)).any())
        self.pref = np.where(self.match, np.outer(ns, 1 / no), np.nan)
        self.shape = me.ns + self.odims
        # columns of a sample of other that matter
        nso = [i for i in range(n) if other.outdims[i] > 1]
        self.cols = [k for k, i in enumerate(nso) if me.outdims[i] > 1]
        self.sum_ident = None
        given = self.match.any(1)
        if given.any():
            s = me.elems.reshape((-1, D, D))[given].sum(0)
            eye = np.eye(D)
            a = abs(np.vdot(s, eye))
            b = np.linalg.norm(s) * np.linalg.norm(eye)
            if (b - a) / b <= 1e-10:
                self.sum_ident = np.linalg.norm(s) / np.linalg.norm(eye)
            need(not 1e-12 < (b - a) / b < 1e-7)
        self.given = given
        # two proportional elements of other on the same side count twice
        self.dup = (self.match.sum(1) > 1).any()

    def columns(self, samples):
        """Marginal outcome (flat index into odims) of every sample."""
        if not self.cols:
            return np.zeros(len(samples), int)
        return np.ravel_multi_index(
            samples[:, self.cols].T.astype(int), self.odims)

    def est_pmf(self, samples, ns):
        """(estimate, number of samples used, refusal expected)."""
        n = len(samples)
        if n == 0 or not self.given.any():
            return np.full(ns, np.nan), 0, False
        if self.sum_ident is None:
            return None, None, True
        col = self.columns(samples)
        cnt = np.bincount(col, minlength=self.match.shape[1])
        est = np.where(self.match, self.pref, 0) @ (cnt / float(n))
        refuse = abs(est.sum() - self.sum_ident) > 1e-10
        est = np.where(self.given, est, np.nan)
        used = int(self.match.any(0)[col].sum())
        return est.reshape(ns), used, refuse


class StationWorld(BaseWorld):
    tag = 'C09'
    ops = EOPS
    no_echo = ('send', 'tick')

    def objects(self):
        return {i: x.lib for i, x in enumerate(
            [self.state] + self.st + self.tg)}
    no_fault = ('send', 'tick', 'change')

    def setup(self):
        cfg = self.cfg
        rs = np.random.RandomState(cfg['seed'])
        self.dims = cfg['dims']
        self.n = len(self.dims)
        memo = {}
        self.st = [product_povm(x, self.dims, rs, memo)[0]
                   for x in cfg['stations']]
        self.tg = [product_povm(x, self.dims, rs, memo)[0]
                   for x in cfg['targets']]
        for p, names in zip(self.st + self.tg,
                            cfg['stations'] + cfg['targets']):
            if rs.randint(3) == 0 and 'weak' not in names:
                # (small elements would drown in rounding errors)
                regauge(rs, p.lib)
        self.lst = mpp.MPPovmList([p.lib for p in self.st])
        self.ltg = mpp.MPPovmList([p.lib for p in self.tg])
        self.state = make_state(cfg['state'], self.dims, 2, rs)
        self.matches = {}
        self.now = 0
        self.seq = 0
        self.queue = []
        self.raw = [[] for _ in self.st]       # what arrived (harness)
        self.buf = [None] * len(self.st)       # what the client holds
        for k, p in enumerate(self.st):
            self.buf[k] = np.zeros((0, len(p.ns)), np.uint8)
        self.watched = []
        self.fps = {}
        self.sent = self.lost = 0

    def gen(self, rng, name):
        o = dict(op=name, s=rng.getrandbits(31))
        if name == 'send':
            o.update(k=rng.randrange(len(self.st)),
                     n=rng.choice([0, 1, 2, 3, 5, 9]) if rng.random() < .985
                     else rng.choice([300, 300, 70000]),
                     pack=rng.choice([0, 0, 1]),
                     delay=rng.choice([0, 1, 2, 8]),
                     lose=int(rng.random() < self.cfg['loss']),
                     dup=int(rng.random() < self.cfg['dup']),
                     dupdelay=rng.choice([0, 3, 9]))
        elif name == 'tick':
            o.update(dt=rng.choice([1, 1, 2, 4]))
        return o

    def note(self, o, outcome):
        self.stats.state(o['op'], outcome, self.n, len(self.st),
                         tuple(min(len(b), 2) for b in self.buf)[:3],
                         len(self.tg), self.last)

    last = None

    def verify(self, o):
        for i, p in enumerate([self.state] + self.st + self.tg):
            fp = MeasureWorld.fp(p.lib)
            if self.fps.get(i) == fp:
                continue
            self.fps[i] = fp
            err = maxabs(MeasureWorld.rho_of(p) - p.rho) if i == 0 else \
                maxabs(MeasureWorld.elems_of(p.lib) - p.elems)
            if err > 1e-8:
                raise Violation(['C09', 'C03'] + (['C04'] if self.failed
                                                  else []),
                                'operand-changed', '%s changed the state or '
                                'a POVM' % (o or {}).get('op'))
        for arr, ref in self.watched:
            if arr.tobytes() != ref:
                raise Violation(['C09', 'C03'], 'samples-changed',
                                '%s changed the samples or coefficients'
                                % (o or {}).get('op'))
        self.watched = []

    def watch(self, *arrs):
        for a in arrs:
            self.watched.append((a, a.tobytes()))

    def m(self, t, k):
        if (t, k) not in self.matches:
            self.matches[t, k] = Match(self.tg[t], self.st[k])
        return self.matches[t, k]

    def delivered(self, k):
        p = self.st[k]
        return (np.concatenate(self.raw[k]) if self.raw[k]
                else np.zeros((0, len(p.ns)), int))


# -- the network -----------------------------------------------------------
@eop(4)
def e_send(w, rs, o):
    p = w.st[o['k'] % len(w.st)]
    k = o['k'] % len(w.st)
    if o['n'] >= 100:
        # a long run of measurements, most of them with the same outcome
        rows = np.array([rs.randint(d, size=o['n']) for d in p.ns],
                        np.uint8).T.copy().reshape((o['n'], len(p.ns)))
        rows[o['n'] // 20:] = rows[0]
    else:
        rows = np.array([[rs.randint(d) for d in p.ns]
                         for _ in range(o['n'])],
                        np.uint8).reshape((o['n'], len(p.ns)))
    msg = rows
    if o['pack']:
        msg = w.lib(lambda: p.lib.pack_samples(rows), 'pack_samples')
        w.equal(msg, np.ravel_multi_index(rows.T.astype(int), p.ns),
                'packed samples')
    w.seq += 1
    copies = [] if o['lose'] else [o['delay']]
    if o['lose']:
        w.stats.fault('message-loss')
    if o['dup']:
        copies.append(o['delay'] + o['dupdelay'])
        w.stats.fault('message-duplication')
    for j, d in enumerate(copies):
        heapq.heappush(w.queue, (w.now + d, w.seq, j, k, o['pack'], rows,
                                 msg))


@eop(3)
def e_tick(w, rs, o):
    w.now += o['dt']
    w.stats.simtime += o['dt']
    last = 0
    while w.queue and w.queue[0][0] <= w.now:
        _, seq, _, k, pack, rows, msg = heapq.heappop(w.queue)
        if seq < last:
            w.stats.fault('message-reordering')
        last = max(last, seq)
        p = w.st[k]
        got = msg
        if pack:
            got = w.lib(lambda: p.lib.unpack_samples(msg), 'unpack_samples')
            w.equal(got, rows, 'unpacked samples')
        w.raw[k].append(rows.astype(int))
        w.buf[k] = np.concatenate([w.buf[k], got])


@eop(.6)
def e_change(w, rs, o):
    """The state, or one of the measurements, is changed in place."""
    k = rs.randint(4)
    if k < 2:
        return rotate(rs, w.state, w.dims)
    pool = w.tg if k == 2 else w.st
    rotate(rs, pool[rs.randint(len(pool))], w.dims)
    w.matches = {}


# -- estimators ---------------------------------------------------------------
@eop(2)
def e_est_pmf(w, rs, o):
    k = rs.randint(len(w.st))
    p, sam, all_ = w.st[k], w.buf[k], w.delivered(k)
    need(len(all_))
    norm = bool(rs.randint(2))
    w.watch(sam)
    arg = sam
    if rs.randint(3) == 0:
        arg = w.lib(lambda: p.lib.pack_samples(sam), 'pack_samples')
        w.watch(arg)
    r = w.lib(lambda: p.lib.est_pmf(arg, normalize=norm), 'est_pmf')
    cnt = np.bincount(np.ravel_multi_index(all_.T, p.ns),
                      minlength=int(np.prod(p.ns))).reshape(p.ns)
    w.equal(r, cnt / float(len(all_)) if norm else cnt, 'est_pmf')


@eop(1)
def e_list_est_pmf(w, rs, o):
    need(all(len(w.delivered(k)) for k in range(len(w.st))))
    norm = bool(rs.randint(2))
    w.watch(*w.buf)
    r = w.lib(lambda: list(w.lst.est_pmf(w.buf, norm)), 'list est_pmf')
    if len(r) != len(w.st):
        raise Violation(['C09'], 'items:est_pmf', 'wrong number of results')
    for k, p in enumerate(w.st):
        all_ = w.delivered(k)
        cnt = np.bincount(np.ravel_multi_index(all_.T, p.ns),
                          minlength=int(np.prod(p.ns))).reshape(p.ns)
        w.equal(r[k], cnt / float(len(all_)) if norm else cnt, 'est_pmf')


def random_funs(w, rs, p, bad=False):
    """Functions of the outcomes as the client supplies them; tables."""
    m = int(rs.randint(0, 4))
    tabs = [rs.randn(*p.ns) for _ in range(m)]
    funs = [lambda s, t=t: t[tuple(np.asarray(s).T.astype(int))]
            for t in tabs]
    return tabs, funs


def lfun_oracle(tabs, rows, weights, coeff):
    f = np.array([t[tuple(rows.T)] for t in tabs])      # (funs, samples)
    wt = np.ones(rows.shape[0]) if weights is None else weights
    n = float(wt.sum())
    mean = (f * wt).sum(1) / n
    cov = ((f - mean[:, None]) * wt) @ (f - mean[:, None]).T
    cov = cov / (n - 1) / n
    if coeff is None:
        return mean, cov
    return coeff @ mean, coeff @ cov @ coeff


def unit_tables(p):
    n = int(np.prod(p.ns))
    return [np.eye(n)[i].reshape(p.ns) for i in range(n)]


@eop(2.5)
def e_est_lfun(w, rs, o):
    k = rs.randint(len(w.st))
    p, sam, all_ = w.st[k], w.buf[k], w.delivered(k)
    need(len(all_) >= 2)
    if rs.randint(2) and np.prod(p.ns) <= 64:
        tabs, funs = unit_tables(p), None
    else:
        tabs, funs = random_funs(w, rs, p)
    coeff = rs.randn(len(tabs)) if rs.randint(3) else None
    weights = None
    if rs.randint(2):
        weights = rs.randint(0, 4, len(all_)) if rs.randint(2) else \
            rs.rand(len(all_)) * 3
        need(weights.sum() > 1.2)
    w.last = (funs is None, coeff is None, weights is None, len(tabs))
    w.watch(sam)
    if coeff is not None:
        w.watch(coeff)
    if weights is not None:
        w.watch(weights)
    r = w.lib(lambda: p.lib.est_lfun(coeff, funs, sam, weights), 'est_lfun')
    if not tabs:
        w.equal(np.array(r), np.zeros(2), 'est_lfun of nothing')
        return
    # the client holds the samples in the order of arrival
    want = lfun_oracle(tabs, all_, weights, coeff)
    w.equal(r[0], want[0], 'est_lfun value')
    w.equal(r[1], want[1], 'est_lfun variance')


@eop(1.5)
def e_list_est_lfun(w, rs, o):
    need(all(len(w.delivered(k)) >= 2 for k in range(len(w.st))))
    args = []
    plain = rs.randint(3) == 0 and all(np.prod(p.ns) <= 64 for p in w.st)
    for p in w.st:
        tabs, funs = random_funs(w, rs, p)
        if plain:
            tabs, funs = unit_tables(p), None
        args.append((tabs, funs, rs.randn(len(tabs))))
    coeff = [c for _, _, c in args]
    funs = None if plain else [f for _, f, _ in args]
    weights = None
    if rs.randint(2):
        weights = [rs.rand(len(b)) * 3 + .7 for b in w.buf]
    w.last = (plain, weights is None)
    w.watch(*w.buf)
    est, var = w.lib(lambda: w.lst.est_lfun(coeff, funs, w.buf, weights),
                     'list est_lfun')

    def total(ws):
        a = b = 0.0
        for k in range(len(w.st)):
            if args[k][0]:
                x, y = lfun_oracle(args[k][0], w.delivered(k),
                                   None if ws is None else ws[k], coeff[k])
                a, b = a + x, b + y
        return a, b
    want = total(weights)
    if weights is not None:
        un = total(None)
        if (abs(est - un[0]) + abs(var - un[1]) <= 1e-8
                and abs(est - want[0]) + abs(var - want[1]) > 1e-8):
            finding(w.stats, 'C09', 'est_lfun-ignores-weights',
                    'MPPovmList.est_lfun ignored the weights')
            return
    w.equal(est, want[0], 'list est_lfun value')
    w.equal(var, want[1], 'list est_lfun variance')


@eop(2.5)
def e_est_pmf_from(w, rs, o):
    t, k = rs.randint(len(w.tg)), rs.randint(len(w.st))
    m, me = w.m(t, k), w.tg[t]
    need(not m.dup)
    est, used, refuse = m.est_pmf(w.delivered(k), me.ns)
    w.watch(w.buf[k])
    w.last = (bool(m.given.any()), bool(m.given.all()), refuse)
    try:
        r = w.lib(lambda: me.lib.est_pmf_from(w.st[k].lib, w.buf[k]),
                  'est_pmf_from', refuse=refuse)
    except Refused:
        w.stats.probe('conversion-refused')
        return
    if est is None:
        return
    w.equal(r[0], est, 'est_pmf_from')
    w.equal(r[1], used, 'number of samples used')


def mpps_oracle(w, t):
    me = w.tg[t]
    num, den = np.zeros(me.ns), np.zeros(me.ns)
    for k in range(len(w.st)):
        m = w.m(t, k)
        need(not m.dup)
        est, used, refuse = m.est_pmf(w.delivered(k), me.ns)
        if refuse:
            return None, None
        g = ~np.isnan(est)
        num[g] += est[g] * used
        den[g] += used
    with np.errstate(all='ignore'):
        return num / den, den


@eop(2.5)
def e_est_pmf_from_mpps(w, rs, o):
    whole = rs.randint(2)
    ts = range(len(w.tg)) if whole else [rs.randint(len(w.tg))]
    want = [mpps_oracle(w, t) for t in ts]
    refuse = any(x[0] is None for x in want)
    w.watch(*w.buf)
    w.last = (whole, refuse, sum(bool(np.isnan(x[0]).any()) for x in want
                                 if x[0] is not None))
    try:
        if whole:
            r = w.lib(lambda: list(w.ltg.est_pmf_from(w.lst, w.buf)),
                      'list est_pmf_from', refuse=refuse)
        else:
            r = [w.lib(lambda: w.tg[ts[0]].lib.est_pmf_from_mpps(
                w.lst, w.buf), 'est_pmf_from_mpps', refuse=refuse)]
    except Refused:
        w.stats.probe('conversion-refused')
        return
    if len(r) != len(want):
        raise Violation(['C09'], 'items:est_pmf_from', 'wrong number of '
                        'results')
    for got, x in zip(r, want):
        if x[0] is None:
            continue
        w.equal(got[0], x[0], 'est_pmf_from_mpps')
        w.equal(got[1], x[1], 'number of samples used')


def from_oracle(w, coeff, nsam):
    """Per station: function of the outcome used by the estimator; None if
    some needed probability is not available."""
    T, S = len(w.tg), len(w.st)
    fs = [np.zeros(int(np.prod(p.ns))) for p in w.st]
    hit = [False] * S
    for t in range(T):
        c = coeff[t].ravel()
        N = np.zeros(c.size)
        for k in range(S):
            if nsam[k]:
                N += nsam[k] * w.m(t, k).match.sum(1)
        if ((N == 0) & (c != 0)).any():
            return None, None
        for k in range(S):
            if not nsam[k]:
                continue
            m = w.m(t, k)
            with np.errstate(all='ignore'):
                g = np.where(m.match, m.pref * (c * nsam[k] / N)[:, None], 0)
            g = np.where(N[:, None] > 0, g, 0).sum(0)   # per marginal outcome
            hit[k] = hit[k] or m.match.any()
            allo = np.array(np.unravel_index(range(fs[k].size),
                                             w.st[k].ns)).T
            fs[k] += g[m.columns(allo)]
    return fs, hit


def random_coeff(w, rs):
    coeff = [rs.randn(*p.ns) for p in w.tg]
    if rs.randint(2):
        # most functions only need some of the probabilities
        coeff = [np.where(rs.rand(*c.shape) < .4, c, 0.) for c in coeff]
    if rs.randint(2):
        for t in range(len(w.tg)):
            ok = np.zeros(coeff[t].size, bool)
            for k in range(len(w.st)):
                ok |= w.m(t, k).given
            coeff[t] = np.where(ok.reshape(coeff[t].shape), coeff[t], 0.)
    return coeff


@eop(3)
def e_est_lfun_from(w, rs, o):
    nsam = [len(w.delivered(k)) for k in range(len(w.st))]
    need(all(x != 1 for x in nsam) and any(nsam))
    coeff = random_coeff(w, rs)
    fs, hit = from_oracle(w, coeff, nsam)
    w.watch(*(list(w.buf) + coeff))
    w.last = (fs is None, tuple(min(x, 2) for x in nsam)[:3])
    r = w.lib(lambda: w.ltg.est_lfun_from(w.lst, coeff, w.buf),
              'est_lfun_from')
    if fs is None:
        w.stats.probe('estimate-unavailable')
        w.equal(np.array(r, float), np.full(2, np.nan), 'est_lfun_from')
        return
    est = var = 0.0
    for k, f in enumerate(fs):
        rows = w.delivered(k)
        if not nsam[k] or not hit[k]:
            continue
        x = f[np.ravel_multi_index(rows.T, w.st[k].ns)]
        est += x.mean()
        var += x.var() * len(x) / (len(x) - 1.) / len(x)
    w.equal(r[0], est, 'est_lfun_from value')
    w.equal(r[1], var, 'est_lfun_from variance')


# -- exact values -----------------------------------------------------------
@eop(1.5)
def e_lfun(w, rs, o):
    k = rs.randint(len(w.st))
    p = w.st[k]
    if rs.randint(2) and np.prod(p.ns) <= 64:
        tabs, funs = unit_tables(p), None
    else:
        tabs, funs = random_funs(w, rs, p)
    coeff = rs.randn(len(tabs)) if rs.randint(3) else None
    w.last = (funs is None, coeff is None, w.state.mode)
    r = w.lib(lambda: p.lib.lfun(coeff, funs, w.state.lib, w.state.mode),
              'lfun')
    if not tabs:
        w.equal(np.array(r), np.zeros(2), 'lfun of nothing')
        return
    pm = p.pmf_ns(w.state.rho).ravel()
    f = np.array([t.ravel() for t in tabs])
    mean = f @ pm
    cov = (f * pm) @ f.T - np.outer(mean, mean)
    if coeff is None:
        w.equal(r[0], mean, 'lfun value')
        w.equal(r[1], cov, 'lfun covariance')
    else:
        w.equal(r[0], coeff @ mean, 'lfun value')
        w.equal(r[1], max(0, coeff @ cov @ coeff), 'lfun variance')


@eop(.7)
def e_list_lfun(w, rs, o):
    need(all(np.prod(p.ns) <= 64 for p in w.st))
    coeff = [rs.randn(int(np.prod(p.ns))) for p in w.st]
    tabs = None
    funs = None
    if rs.randint(2):
        x = [random_funs(w, rs, p) for p in w.st]
        tabs, funs = [a for a, _ in x], [b for _, b in x]
        coeff = [rs.randn(len(a)) for a in tabs]
    r = w.lib(lambda: w.lst.lfun(coeff, funs, w.state.lib, w.state.mode),
              'list lfun')
    a = b = 0.0
    for k, p in enumerate(w.st):
        pm = p.pmf_ns(w.state.rho).ravel()
        f = coeff[k] if funs is None else sum(
            (c * t.ravel() for c, t in zip(coeff[k], tabs[k])),
            np.zeros(pm.size))
        a += f @ pm
        b += (f ** 2) @ pm - (f @ pm) ** 2
    w.equal(r[0], a, 'list lfun value')
    w.equal(r[1], b, 'list lfun variance')


@eop(2)
def e_lfun_from(w, rs, o):
    coeff = random_coeff(w, rs)
    S = len(w.st)
    ow = [None, rs.randint(0, 4, S), rs.rand(S) * 3][rs.randint(3)]
    nsam = [1.0] * S if ow is None else [float(x) for x in ow]
    fs, hit = from_oracle(w, coeff, nsam)
    w.watch(*coeff)
    w.last = (fs is None, ow is None)
    r = w.lib(lambda: w.ltg.lfun_from(w.lst, coeff, w.state.lib,
                                      w.state.mode, other_weights=ow),
              'lfun_from')
    if fs is None:
        w.equal(np.array(r, float), np.full(2, np.nan), 'lfun_from')
        return
    est = var = 0.0
    for k, f in enumerate(fs):
        if not nsam[k] or not hit[k]:
            continue
        pm = w.st[k].pmf_ns(w.state.rho).ravel()
        est += f @ pm
        var += (f ** 2) @ pm - (f @ pm) ** 2
    w.equal(r[0], est, 'lfun_from value')
    w.equal(r[1], var, 'lfun_from variance')
    # ... which is the exact value of the function
    ex = sum(float((c * t.pmf_ns(w.state.rho)).sum())
             for c, t in zip(coeff, w.tg))
    w.equal(est, ex, 'oracle: exact value')


@eop(1)
def e_pack(w, rs, o):
    """Packing into any integer type: exact or refused."""
    p = w.st[rs.randint(len(w.st))]
    n = int(rs.randint(1, 6))
    rows = np.array([[rs.randint(d) for d in p.ns] for _ in range(n)],
                    np.uint8).reshape((n, len(p.ns)))
    if rs.randint(2):
        rows[rs.randint(n)] = np.array(p.ns) - 1
    want = np.ravel_multi_index(rows.T.astype(int), p.ns)
    dt = [None, True, np.int8, np.uint8, np.int8, np.uint8, np.int16,
          np.uint16, np.uint32, np.int64][rs.randint(10)]
    kw = {} if dt is None and rs.randint(2) else dict(dtype=dt)
    small = dt not in (None, True) and want.max() > np.iinfo(dt).max
    w.watch(rows)
    w.last = ('pack', str(dt), bool(small))
    try:
        got = w.lib(lambda: p.lib.pack_samples(rows, **kw), 'pack_samples',
                    refuse=small)
    except Refused:
        w.stats.probe('pack-refused')
        return
    w.equal(got, want, 'packed samples')
    back = w.lib(lambda: p.lib.unpack_samples(got), 'unpack_samples')
    w.equal(back, rows, 'unpacked samples')
    if back.dtype != np.uint8:
        raise Violation(['C09'], 'type:unpack', 'unpacked samples have type '
                        '%s' % back.dtype)


@eop(.6)
def e_list_pack(w, rs, o):
    w.watch(*w.buf)
    pk = w.lib(lambda: list(w.lst.pack_samples(w.buf)), 'list pack_samples')
    if len(pk) != len(w.st):
        raise Violation(['C09'], 'items:pack', 'wrong number of results')
    for k, p in enumerate(w.st):
        w.equal(pk[k], np.ravel_multi_index(w.delivered(k).T, p.ns),
                'packed samples')
    up = w.lib(lambda: list(w.lst.unpack_samples(pk)), 'list unpack_samples')
    for k, p in enumerate(w.st):
        w.equal(up[k], w.delivered(k), 'unpacked samples')


@eop(.5)
def e_exclude_dup(w, rs, o):
    """Asking for unambiguous matches: given or refused."""
    t, k = rs.randint(len(w.tg)), rs.randint(len(w.st))
    m = w.m(t, k)
    mt = m.match.reshape(m.shape)
    ns = len(w.tg[t].ns)
    ex = [('self',), ('other',), ('self', 'other')][rs.randint(3)]
    dup = ('self' in ex and (mt.sum(tuple(range(ns))) > 1).any()) or (
        'other' in ex and (mt.sum(tuple(range(ns, mt.ndim))) > 1).any())
    try:
        match, pref = w.lib(lambda: w.tg[t].lib.match_elems(
            w.st[k].lib, exclude_dup=ex), 'match_elems', refuse=dup)
    except Refused:
        return
    if dup:
        raise Violation(['C09'], 'dup-accepted', 'ambiguous matches were not '
                        'refused')
    w.equal(match, mt, 'matches')
    w.equal(pref, m.pref.reshape(m.shape), 'prefactors')


@eop(1)
def e_match_elems(w, rs, o):
    t, k = rs.randint(len(w.tg)), rs.randint(len(w.st))
    m = w.m(t, k)
    match, pref = w.lib(lambda: w.tg[t].lib.match_elems(w.st[k].lib),
                        'match_elems')
    if match.shape != m.shape:
        raise Violation(['C09'], 'shape:match_elems', 'shape %r instead of %r'
                        % (match.shape, m.shape))
    w.equal(match, m.match.reshape(m.shape), 'matches')
    w.equal(pref, m.pref.reshape(m.shape), 'prefactors')


@eop(.5)
def e_regauge(w, rs, o):
    x = [w.state.lib] + [p.lib for p, names in zip(
        w.st + w.tg, w.cfg['stations'] + w.cfg['targets'])
        if 'weak' not in names]
    regauge(rs, x[rs.randint(len(x))])
