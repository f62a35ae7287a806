"""World of arrays: clients applying histories of operations to MPArrays.

Nodes of the simulation are the arrays themselves: many of them share memory
(views of each other's local tensors), change their gauge behind the scenes and
have iterators reading them lazily.  The scheduler decides the order of
operations and iterator steps; faults hit numerical kernels and user callbacks
in the middle of operations.  Every array is shadowed by the dense tensor it
must represent.
"""
import hashlib
import json

import numpy as np

from . import boot, hidden, seams
from .boot import K, mp
from .core import Violation, Skip, Stats, need, make_rng, pass_over
from .model import (axes_of, contract, dense_of, flat, l2, maxabs,
                    norm_product, structure_error)

MPArray = mp.MPArray
MAX_DENSE = 4096
MAX_RANK = 40
TOL = 1e-9


class OpFailed(Exception):
    """The library call failed because of an injected fault or a rejected
    argument."""

    def __init__(self, exc, how):
        Exception.__init__(self, repr(exc))
        self.exc, self.how = exc, how


def too_many_axes(e):
    """numpy cannot represent arrays with more than 32 axes."""
    return (isinstance(e, ValueError)
            and ('maximum supported dimension' in str(e)
                 or 'too many axes' in str(e)
                 or 'exceeds the maximum' in str(e)))


class Handle(object):
    __slots__ = ('id', 'mpa', 'dense', 'pshape', 'scale', 'fp', 'nopen',
                 'born')

    @property
    def n(self):
        return len(self.pshape)


class Iter(object):
    __slots__ = ('id', 'it', 'expected', 'pos', 'src', 'done', 'kind')


def fingerprint(mpa):
    h = hashlib.blake2b(digest_size=16)
    for i in range(len(mpa)):
        t = np.asarray(mpa.lt[i])
        h.update(repr((t.shape, t.dtype.str)).encode())
        h.update(t.tobytes())
    h.update(repr(tuple(mpa.canonical_form)).encode())
    return h.digest()


OPS = {}


def op(name, weight=1.0, groups=()):
    def deco(cls):
        cls.name, cls.weight, cls.groups = name, weight, set(groups)
        OPS[name] = cls
        return cls
    return deco


class ArrayWorld(object):
    def __init__(self, ep, stats):
        self.ep, self.stats = ep, stats
        self.cfg = ep['cfg']
        self.h = {}
        self.iters = {}
        self.ext = []
        self.next_id = 0
        self.log = hashlib.blake2b(digest_size=16)
        self.touched = set()
        self.fault = None
        self.inplace = None
        self.cur = None
        self.cb_fired = None
        self.nfailed = 0
        self.force = None

    # -- driver ----------------------------------------------------------
    def generate(self):
        rng = make_rng('ops', self.ep['seed'])
        cfg = self.cfg
        names = [n for n in sorted(OPS) if cfg['weights'].get(
            n, OPS[n].weight if cfg.get('default', True) else 0) > 0]
        wts = [cfg['weights'].get(n, OPS[n].weight) for n in names]
        self.rng = rng
        self.force = None
        spy = hidden.Spy()
        tries = 0
        while len(self.ep['ops']) < cfg['steps'] and tries < cfg['steps'] * 20:
            tries += 1
            if len(self.h) < cfg['min_handles']:
                name = 'new'
            else:
                name = rng.choices(names, wts)[0]
            o = OPS[name].gen(self, rng)
            if o is None:
                continue
            o['op'] = name
            if (cfg['fault_rate'] and rng.random() < cfg['fault_rate']
                    and name not in NO_FAULT):
                kind = rng.choice(cfg['fault_kinds'])
                nth = 1 + int(rng.expovariate(1 / cfg['fault_mean']))
                o['fault'] = [kind, nth, rng.choice(['before', 'before',
                                                     'after'])]
                if rng.random() < 0.4:
                    o['retry'] = 1
            self.ep['ops'].append(o)
            outcome = self.step(o)
            stored = spy({i: h.mpa for i, h in self.h.items()})
            if stored:
                self.stats.probe('stores')
            if outcome == 'ok' and rng.random() < (.35 if stored else cfg.get(
                    'echo', .04)):
                self.echo(rng, o)
            while len(self.h) > cfg['max_handles']:
                d = dict(op='drop', a=rng.choice(sorted(self.h)))
                self.ep['ops'].append(d)
                self.step(d)

    def echo(self, rng, o):
        """Change an operand in place and repeat the operation on it."""
        for _ in range(rng.choice([1, 1, 2])):
            ids = [o.get('a'), o.get('b')] + list(o.get('ids') or [])
            ids = [i for i in ids if i in self.h]
            if ids and rng.random() < .9:
                self.force = rng.choice(ids)
                name = rng.choice(['update', 'update', 'imul', 'canonicalize',
                                   'compress', 'update_slice'])
                m = OPS[name].gen(self, rng)
                self.force = None
                if m is not None:
                    m['op'] = name
                    self.ep['ops'].append(m)
                    self.step(m)
            again = {k: v for k, v in o.items() if k not in (
                'fault', 'retry')}
            for k in ('out', 'out2', 'it'):
                if k in again and o['op'] != 'iter_next':
                    again[k] = self.fresh()
            if o['op'] == 'iter_next':
                again['out'] = self.fresh()
            self.stats.probe('echoes')
            self.ep['ops'].append(again)
            self.step(again)

    def replay(self):
        for o in self.ep['ops']:
            self.step(o)

    def finish(self):
        self.verify(final=True)

    def close(self):
        seams.disarm()
        self.h.clear()
        self.iters.clear()
        self.ext = []

    def digest(self):
        return self.log.hexdigest()

    def fresh(self):
        self.next_id += 1
        return self.next_id

    # -- one step ----------------------------------------------------------
    def step(self, o):
        st = self.stats
        st.steps += 1
        self.cur = o
        self.touched = set()
        self.inplace = None
        self.cb_fired = None
        f = o.get('fault')
        self.fault = seams.Plan(*f) if f else None
        outcome = 'ok'
        try:
            OPS[o['op']].run(self, o)
        except Skip:
            outcome = 'skip'
        except OpFailed as e:
            outcome = 'failed:' + e.how
            self.nfailed += 1
            st.fault(e.how)
            try:
                self.after_failure(o)
            except Violation as v:
                self.complain(v, o)
        except Violation as v:
            seams.disarm()
            self.complain(v, o)
            outcome = 'foreign'
        finally:
            seams.disarm()
        st.bump(st.ops, o['op'])
        st.bump(st.outcomes, outcome)
        failed = outcome.startswith('failed')
        if outcome != 'skip':
            st.evals += 1
            self.verify(failed=failed)
            self.note_state(o, outcome)
        if failed and o.get('retry'):
            st.probe('retried-after-fault')
            self.fault = None
            self.inplace = None
            self.touched = set()
            try:
                OPS[o['op']].run(self, o)
            except Skip:
                pass
            except OpFailed:
                self.after_failure(o)
            except Violation as v:
                self.complain(Violation(list(v.tags) + ['C04'], v.klass,
                                        'on retry: ' + v.msg), o)
            self.verify(failed=True)
        self.log.update(json.dumps([o, outcome], sort_keys=True).encode())
        return outcome

    def complain(self, v, o=None):
        pass_over(self.ep, self.stats, v)
        # Take the operands of the offending operation as they are now.
        if o is not None:
            for hid in set([o.get('a')]) | self.touched:
                if hid in self.h:
                    self.adopt(self.h[hid])

    def adopt(self, h):
        try:
            h.dense = dense_of(h.mpa)
            h.pshape = tuple(tuple(int(x) for x in s) for s in h.mpa.shape)
            h.fp = fingerprint(h.mpa)
            h.scale = max(h.scale, norm_product(h.mpa))
            if np.isfinite(h.dense).all() and np.isfinite(h.scale):
                return True
        except Exception:
            pass
        self.h.pop(h.id, None)
        return False

    def note_state(self, o, outcome):
        """Distinct-state measure: operation x outcome x abstraction of its
        first operand (length class, canonical-form class, dtype kind, rank
        class, leg structure)."""
        a = self.h.get(o.get('a'))
        if a is None:
            self.stats.state(o['op'], outcome)
            return
        l, r = a.mpa.canonical_form
        n = a.n
        kind = ''.join(sorted(set(np.asarray(a.mpa.lt[i]).dtype.kind
                                  for i in range(n))))
        ranks = a.mpa.ranks
        self.stats.state(
            o['op'], outcome, min(n, 4),
            (min(l, 2), l == n - 1, min(n - r, 2), r == 1, l >= r), kind,
            min(max(ranks), 6) if ranks else 0,
            tuple(sorted(set(len(s) for s in a.pshape)))[:3],
            a.nopen > 0, o.get('fault') is not None)

    # -- library calls -----------------------------------------------------
    def lib(self, fn, tags=('C02',), reject=False, what=None):
        """Run a library call under the current fault plan."""
        plan = self.fault
        seams.arm(plan)
        try:
            res = fn()
        except Violation:
            raise
        except Skip:
            raise
        except BaseException as e:
            fired = seams.disarm()
            if type(e).__name__ == 'Hang':
                raise
            if fired:
                raise OpFailed(e, 'kernel:' + fired)
            if self.cb_fired:
                raise OpFailed(e, 'callback:' + self.cb_fired)
            if reject:
                raise OpFailed(e, 'rejected-argument')
            if too_many_axes(e):
                raise Skip()
            raise Violation(
                list(tags), 'raised:' + (what or self.cur['op']),
                '%s raised %s: %s' % (what or self.cur['op'],
                                      type(e).__name__, str(e)[:200]))
        finally:
            fired = seams.disarm()
        if fired:
            self.stats.fault('kernel:%s (absorbed)' % fired)
        return res

    # -- handles -----------------------------------------------------------
    def get(self, hid):
        h = self.h.get(hid)
        need(h is not None)
        return h

    def add(self, hid, mpa, dense, pshape, scale, tags=('C02',)):
        """Register a new array and check it against its model value."""
        if not isinstance(mpa, MPArray):
            raise Violation(list(tags), 'type:' + self.cur['op'],
                            '%s returned %r' % (self.cur['op'], type(mpa)))
        for other in self.h.values():
            if other.mpa is mpa:
                self.complain(Violation(
                    ['C03', 'C02'], 'alias:' + self.cur['op'], '%s returned '
                    'one of the existing arrays itself' % self.cur['op']))
                raise Skip()
        h = Handle()
        h.id, h.mpa, h.dense = hid, mpa, np.array(dense)
        h.pshape = tuple(tuple(int(x) for x in s) for s in pshape)
        h.nopen, h.fp = 0, None
        h.born = self.cur['op']
        h.scale = float(scale)
        if not self.check_handle(h, list(tags), list(tags) + ['C01']):
            raise Skip()
        h.scale = max(h.scale, norm_product(mpa))
        self.h[hid] = h
        self.touched.add(hid)
        h.fp = fingerprint(mpa)
        return h

    def check_handle(self, h, vtags, stags):
        """Structure and value of one array."""
        name = self.cur['op'] if self.cur else 'final'
        err = structure_error(h.mpa)
        if err:
            self.complain(Violation(
                stags, 'structure:' + name,
                'after %s: array #%s: %s' % (name, h.id, err)))
            try:
                dense_of(h.mpa)
            except Exception:
                return self.adopt(h)
        shape = tuple(tuple(s) for s in h.mpa.shape)
        if shape != h.pshape:
            self.complain(Violation(
                vtags, 'shape:' + name,
                'after %s: array #%s has shape %r, expected %r'
                % (name, h.id, shape, h.pshape)))
            return self.adopt(h)
        d = dense_of(h.mpa)
        scale = max(h.scale, norm_product(h.mpa))
        err = maxabs(d - h.dense)
        if not err <= TOL * scale + 1e-300:
            self.complain(Violation(
                vtags, 'value:' + name,
                'after %s: array #%s is off by %.3g (scale %.3g)'
                % (name, h.id, err, scale)))
            return self.adopt(h)
        return True

    def verify(self, failed=False, final=False):
        extra = ['C04'] if failed else []
        # A failed operation may hit anything that happens in it.
        for h in list(self.h.values()):
            fp = fingerprint(h.mpa)
            if fp == h.fp and h.id not in self.touched:
                continue
            if h.id in self.touched:
                vt = ['C02'] + extra
                stg = ['C01'] + extra
            else:
                vt = ['C03', 'C02'] + extra
                stg = ['C01', 'C03'] + extra
            if h.born == 'iter_next' or (
                    self.cur and self.cur['op'].startswith('iter')):
                vt.append('C10')
                stg.append('C10')
            if not self.check_handle(h, vt, stg):
                continue
            h.scale = max(h.scale, norm_product(h.mpa))
            h.fp = fp
        for label, arr, ref in self.ext:
            if arr.tobytes() != ref:
                name = self.cur['op'] if self.cur else 'final'
                self.complain(Violation(
                    ['C03'] + extra, 'argument-changed:' + name,
                    '%s changed %s' % (name, label)))

    def watch(self, label, arr):
        """A user array (argument or handed-out result) that must not change
        from now on."""
        self.ext.append((label, arr, arr.tobytes()))
        if len(self.ext) > 30:
            self.ext.pop(0)

    def value(self, got, want, scale, tags, what, tol=1e-9):
        """Compare a returned number / ndarray with the model."""
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(tags, 'shape:' + what, '%s has shape %r, expected '
                            '%r' % (what, got.shape, want.shape))
        err = maxabs(got - want)
        if not err <= tol * scale + 1e-300:
            raise Violation(tags, 'value:' + what, '%s is off by %.3g '
                            '(scale %.3g)' % (what, err, scale))

    def after_failure(self, o):
        """Admissible states after a failed operation."""
        tgt = self.inplace
        if tgt is None:
            return
        h, options, lossy = tgt
        err = structure_error(h.mpa)
        if err:
            raise Violation(['C04', 'C01'], 'structure:' + o['op'],
                            'after failed %s: %s' % (o['op'], err))
        d = dense_of(h.mpa)
        scale = max(h.scale, norm_product(h.mpa))
        for cand in options:
            if (cand.shape == d.shape
                    and maxabs(d - cand) <= TOL * scale + 1e-300):
                h.dense = np.array(cand)
                self.touched.add(h.id)
                return
        if lossy is not None and d.shape == h.dense.shape:
            msg = lossy(h.dense, d)
            if msg is None:
                h.dense = d
                self.touched.add(h.id)
                self.stats.probe('interrupted-truncation')
                return
            raise Violation(['C04'], 'failed-lossy:' + o['op'],
                            'after failed %s: %s' % (o['op'], msg))
        raise Violation(['C04'], 'failed-inplace:' + o['op'],
                        'failed %s left array #%s with a value that is '
                        'neither the old nor the new one (off by %.3g)'
                        % (o['op'], h.id, maxabs(d - h.dense)
                           if d.shape == h.dense.shape else -1))

    # -- generation helpers --------------------------------------------------
    def pick(self, rng, pred=lambda h: True):
        ids = [i for i in sorted(self.h) if pred(self.h[i])]
        if self.force in ids:
            return self.force
        return rng.choice(ids) if ids else None

    def pick2(self, rng, pred):
        pairs = [(i, j) for i in sorted(self.h) for j in sorted(self.h)
                 if pred(self.h[i], self.h[j])]
        return rng.choice(pairs) if pairs else (None, None)

    def free(self, h):
        """No open iterator reads this array (value may be changed)."""
        return h.nopen == 0


NO_FAULT = {'new', 'drop', 'iter_close', 'scribble', 'views'}


def rank_ok(h):
    return not h.mpa.ranks or max(h.mpa.ranks) <= MAX_RANK


def size_of(pshape):
    p, legs = 1, 0
    for s in pshape:
        legs += len(s)
        for d in s:
            p *= d
    # numpy supports 32 axes
    return p if legs <= 24 else 10 ** 9


from . import array_ops  # noqa  (registers the operations)

WORLDS = {'array': ArrayWorld}
