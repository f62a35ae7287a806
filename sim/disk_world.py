"""Disk world: clients saving arrays to HDF5 files on a disk that can fail.

Real: mpnum's dump/load, h5py and the HDF5 library.  Simulated: the file below
HDF5 (a Python file object deciding which writes, truncations and reads fail,
how much of a write reaches the disk and when the process dies), and failures
reported by h5py itself (the n-th h5py call of a save or load fails).
Everything happens inside a scratch directory created by the episode.
"""
import errno
import hashlib
import json
import os
import shutil
import tempfile

import h5py
import h5py._hl.attrs
import h5py._hl.dataset
import h5py._hl.group
import numpy as np

from . import core
from .boot import LocalTensors, mp
from .core import Hang, Skip, Violation, make_rng, need

MPArray = mp.MPArray
MPPovm = mp.povm.MPPovm
TAG = 'C06'
CRASH = 77
GROUPS = ['/', 'a', 'b', 'a/b', 'run 1', '0', 'b/1', 'a/3']
FILES = ['f0.h5', 'f1.h5']

# ---------------------------------------------------------------------------
#  h5py-level failures
# ---------------------------------------------------------------------------
_H5 = dict(plan=None, depth=0, count=0, fired=None)


def _exc(kind):
    if kind == 'disk-full':
        return OSError(errno.ENOSPC, 'simulated: no space left on device')
    if kind == 'io-error':
        return OSError(errno.EIO, 'simulated: input/output error')
    if kind == 'out-of-memory':
        return MemoryError('simulated: out of memory')
    return KeyboardInterrupt('simulated: interrupt')


def _shim(cls, name):
    orig = getattr(cls, name, None)
    if orig is None:
        return

    def call(*args, **kw):
        if _H5['plan'] is None or _H5['depth']:
            return orig(*args, **kw)
        kind, nth, when = _H5['plan']
        _H5['count'] += 1
        _H5['depth'] += 1
        try:
            if _H5['count'] == nth and not _H5['fired']:
                _H5['fired'] = '%s:%s' % (kind, when)
                if when == 'after':
                    orig(*args, **kw)
                raise _exc(kind)
            return orig(*args, **kw)
        finally:
            _H5['depth'] -= 1
    call.__name__ = name
    setattr(cls, name, call)


for _c, _names in [
        (h5py._hl.group.Group, ['__setitem__', '__getitem__', '__delitem__',
                                'create_dataset', 'require_dataset',
                                'create_group', 'require_group']),
        (h5py._hl.attrs.AttributeManager, ['__setitem__', '__getitem__',
                                           'create', 'modify', 'get']),
        (h5py._hl.dataset.Dataset, ['__getitem__', '__setitem__',
                                    'read_direct', 'write_direct'])]:
    for _n in _names:
        if _n in vars(_c):
            _shim(_c, _n)


class h5fault(object):
    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        _H5.update(plan=self.plan, depth=0, count=0, fired=None)
        return _H5

    def __exit__(self, *a):
        _H5['plan'] = None
        return False


# ---------------------------------------------------------------------------
#  The simulated file
# ---------------------------------------------------------------------------
class SimFile(object):
    """File object for h5py.  `io` = dict(kind, nth, torn, repeat, on)."""

    def __init__(self, path, io, truncate=False):
        flags = os.O_RDWR | os.O_CREAT | (os.O_TRUNC if truncate else 0)
        self.fd = os.open(path, flags, 0o600)
        self.pos, self.io, self.n, self.fired = 0, io, 0, 0

    def seek(self, off, whence=0):
        base = (0, self.pos, os.fstat(self.fd).st_size)[whence]
        self.pos = base + off
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        raise NotImplementedError

    def _due(self, what):
        io = self.io
        if io is None or what not in io['on']:
            return False
        self.n += 1
        if self.n == io['nth'] or (self.n > io['nth'] and io['repeat']):
            self.fired += 1
            return True
        return False

    def readinto(self, b):
        if self._due('read'):
            raise _exc(self.io['kind'])
        d = os.pread(self.fd, len(b), self.pos)
        b[:len(d)] = d
        for i in range(len(d), len(b)):
            b[i] = 0
        self.pos += len(d)
        return len(d)

    def write(self, b):
        b = bytes(b)
        if self._due('write'):
            os.pwrite(self.fd, b[:int(len(b) * self.io['torn'])], self.pos)
            if self.io['kind'] == 'crash':
                os._exit(CRASH)
            raise _exc(self.io['kind'])
        os.pwrite(self.fd, b, self.pos)
        self.pos += len(b)
        return len(b)

    def truncate(self, size=None):
        size = self.pos if size is None else size
        if self._due('write'):
            if self.io['kind'] == 'crash':
                os._exit(CRASH)
            raise _exc(self.io['kind'])
        os.ftruncate(self.fd, size)
        return size

    def flush(self):
        pass


_RealFile = h5py.File
_DISK = dict(root=None, io=None, file=None)


class SimH5File(_RealFile):
    """h5py.File; paths on the simulated disk get a SimFile while armed."""

    def __init__(self, name, mode='r', *args, **kw):
        io = _DISK['io']
        if (io is not None and isinstance(name, str)
                and os.path.abspath(name).startswith(_DISK['root'] + os.sep)):
            if mode in ('r', 'r+') and not os.path.exists(name):
                raise OSError(errno.ENOENT, 'no such file', name)
            if mode in ('w-', 'x') and os.path.exists(name):
                raise OSError(errno.EEXIST, 'file exists', name)
            f = _DISK['file'] = SimFile(name, io, mode == 'w')
            _RealFile.__init__(self, f, mode, *args, **kw)
        else:
            _RealFile.__init__(self, name, mode, *args, **kw)


h5py.File = SimH5File


# ---------------------------------------------------------------------------
def snap(a):
    """Everything a save has to preserve, as plain data."""
    return (type(a).__name__, tuple(int(c) for c in a.canonical_form),
            tuple((t.dtype.str, t.shape, np.ascontiguousarray(t).tobytes())
                  for t in (np.asarray(a.lt[i]) for i in range(len(a)))))


def loaded(a, cls):
    """Snapshot of a loaded array; its type is judged here."""
    return ('right' if type(a) is cls else type(a).__name__,) + snap(a)[1:]


def differ(got, want):
    if got[0] not in (want[0], 'right'):
        return 'type %s' % got[0]
    if len(got[2]) != len(want[2]):
        return '%d sites instead of %d' % (len(got[2]), len(want[2]))
    for i, (g, w) in enumerate(zip(got[2], want[2])):
        if g[0] != w[0]:
            return 'site %d has dtype %s instead of %s' % (i, g[0], w[0])
        if g[1] != w[1]:
            return 'site %d has shape %r instead of %r' % (i, g[1], w[1])
        if g[2] != w[2]:
            return 'site %d has other values' % i
    if got[1] != want[1]:
        return 'canonical form %r instead of %r' % (got[1], want[1])
    return None


def load_any(path, group, how, cls=MPArray, h5=None):
    """Load the way a client does."""
    with h5fault(h5):
        if group == '/' and how == 'path':
            return cls.load(path)
        if how == 'rw':
            with h5py.File(path, 'r+') as f:
                return cls.load(f if group == '/' else f[group])
        with h5py.File(path, 'r') as f:
            return cls.load(f if group == '/' else f[group])


class Store(object):
    """What the simulator knows about one file."""

    def __init__(self):
        self.exists, self.clean = False, True
        self.must = {}           # group -> snapshot which has to load
        self.may = {}            # group -> snapshots which may load
        self.made = set()        # groups that may exist

    def put(self, g, s):
        self.must[g] = s
        self.may[g] = [s]

    def tried(self, g, s):
        """A save of s to g failed (or may be lost)."""
        self.may.setdefault(g, []).append(s)
        self.must.pop(g, None)

    def doubt(self):
        self.must.clear()
        self.clean = False


class DiskWorld(object):
    def __init__(self, ep, stats):
        self.ep, self.stats, self.cfg = ep, stats, ep['cfg']
        self.log = hashlib.blake2b(digest_size=16)
        self.dir = tempfile.mkdtemp(prefix='sim-disk-')
        self.dir = os.path.realpath(self.dir)
        _DISK.update(root=self.dir, io=None, file=None)
        self.files = {f: Store() for f in FILES}
        self.pool = []           # [array, snapshot]
        rs = np.random.RandomState(self.cfg['seed'])
        for _ in range(3):
            self.add(self.fresh(rs))

    # -- episode interface ---------------------------------------------------
    def generate(self):
        rng = make_rng('disk', self.ep['seed'])
        gens = [('session', 5), ('save_path', 3), ('load', 3), ('new', 1.5),
                ('mutate', 1.5), ('remove', .5), ('independence', 1)]
        for _ in range(self.cfg['steps']):
            name = rng.choices([g[0] for g in gens], [g[1] for g in gens])[0]
            o = getattr(self, 'gen_' + name)(rng)
            o['op'] = name
            self.ep['ops'].append(o)
            self.step(o)

    def replay(self):
        for o in self.ep['ops']:
            self.step(o)

    def finish(self):
        self.check_pool('the end')
        for name in FILES:
            self.check_file(name)

    def digest(self):
        return self.log.hexdigest()

    def close(self):
        _DISK.update(root=None, io=None, file=None)
        _H5['plan'] = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def step(self, o):
        st = self.stats
        st.steps += 1
        self.notes = []
        try:
            outcome = getattr(self, 'do_' + o['op'])(o) or 'ok'
        except Skip:
            outcome = 'skip'
        finally:
            _DISK['io'] = None
            _H5['plan'] = None
        st.bump(st.ops, o['op'])
        st.bump(st.outcomes, outcome)
        if outcome != 'skip':
            st.evals += 1
            st.state(o['op'], outcome, tuple(self.notes), tuple(
                (f.exists, f.clean, min(len(f.must), 3), '/' in f.must)
                for _, f in sorted(self.files.items())))
        self.check_pool(o['op'])
        if o.get('file') and outcome not in ('ok', 'skip', 'raised'):
            self.check_file(o['file'], self.touched(o))
        self.log.update(json.dumps([o, outcome, self.notes],
                                   sort_keys=True).encode())

    # -- helpers -------------------------------------------------------------
    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, rs):
        n = int(rs.choice(self.cfg['lens']))
        kind = rs.choice(['f8', 'f8', 'c16', 'f4', 'c8', 'i8', 'mix', 'odd'])
        D = [1] + [int(rs.randint(1, 4)) for _ in range(n - 1)] + [1]
        if self.cfg['big'] and rs.rand() < .3:
            D = [1] + [int(rs.randint(30, 60)) for _ in range(n - 1)] + [1]
        lts = []
        for i in range(n):
            k = kind
            if kind == 'mix':
                k = rs.choice(['f8', 'c16', 'f4', 'i8'])
            if kind == 'odd':
                k = rs.choice(['>f8', 'i4', 'u1', 'f8'])
            legs = [int(rs.randint(1, 4))
                    for _ in range(rs.choice([0, 1, 1, 1, 2, 2, 3]))]
            shape = tuple([D[i]] + legs + [D[i + 1]])
            t = rs.standard_normal(size=shape) * 3
            if k[0] == 'c':
                t = t + 1j * rs.standard_normal(size=shape)
            t = t.astype(k) if k not in ('u1',) else np.abs(t).astype(k)
            if rs.rand() < .1 and t.dtype.kind == 'f':
                t.flat[0] = rs.choice([np.nan, np.inf, -0.0, 5e-324])
            if rs.rand() < .2:
                t = np.asfortranarray(t)
            if rs.rand() < .1:
                big = np.zeros(tuple(2 * s for s in shape), t.dtype)
                view = big[tuple(slice(0, 2 * s, 2) for s in shape)]
                view[...] = t
                t = view
            lts.append(t)
        a = MPArray(LocalTensors(lts))
        if kind in ('f8', 'c16', 'mix') and rs.rand() < .6 and all(
                np.isfinite(t).all() for t in lts):
            self.gauge(a, rs)
        if rs.rand() < .15:
            m = int(rs.randint(1, 4))
            a = MPPovm.from_local_povm(rs.standard_normal((3, 2, 2)), m)
        return a

    def gauge(self, a, rs):
        n = len(a)
        l, r = sorted(int(x) for x in rs.randint(0, n, size=2))
        a.canonicalize(left=l, right=r + 1)

    def add(self, a):
        self.pool.append([a, snap(a)])
        if len(self.pool) > 8:
            del self.pool[0]

    def pick(self, i):
        need(self.pool)
        return self.pool[i % len(self.pool)]

    def check_pool(self, when):
        for k, (a, s) in enumerate(self.pool):
            d = differ(snap(a), s)
            if d:
                raise Violation([TAG], 'array-changed', 'after %s, array %d '
                                'in memory has changed: %s' % (when, k, d))

    def touched(self, o):
        """Groups to look at now; None = all (after a fault)."""
        if o['op'] == 'session' and not (
                o.get('io') or o.get('abandon')
                or any(a[3] for a in o['acts'])):
            return [a[1] for a in o['acts']]
        return None

    def check_file(self, name, only=None):
        f, path = self.files[name], self.path(name)
        if not f.exists:
            return
        groups = sorted(set(f.may) | set(f.must))
        if only is not None:
            groups = [g for g in groups if g in only]

        def read_all():
            out = {}
            try:
                h = _RealFile(path, 'r')
            except Exception as e:
                return {g: ('raised', 'open: %s' % e) for g in groups}
            for g in groups:
                cls = self.cls(f.may.get(g, []))
                try:
                    out[g] = ('ok', loaded(cls.load(
                        h if g == '/' else h[g]), cls))
                except Exception as e:
                    out[g] = ('raised', '%s: %s' % (type(e).__name__, e))
            h.close()
            return out
        if f.clean:
            got = read_all()
        else:
            status, got = core.in_fork(read_all, 60)
            if status == 'timeout':
                raise Violation([TAG], 'load-hangs', 'loading from a damaged '
                                'file does not return')
            if status != 'ok':
                # HDF5 itself died on the damaged file: no data was returned
                self.stats.probe('reader-died-on-damaged-file')
                return
        for g in groups:
            self.judge(name, g, got[g])

    def cls(self, snaps):
        return MPPovm if snaps and all(s[0] == 'MPPovm' for s in snaps) \
            else MPArray

    def judge(self, name, g, got):
        f = self.files[name]
        where = 'file %s group %s' % (name, g)
        if g in f.must:
            if got[0] != 'ok':
                raise Violation([TAG], 'saved-array-lost', '%s: the array '
                                'saved there does not load: %s'
                                % (where, got[1][:200]))
            d = differ(got[1], f.must[g])
            if d:
                raise Violation([TAG], 'loads-differently', '%s: loaded '
                                'array has %s' % (where, d))
            self.stats.probe('loaded-exactly')
        elif got[0] == 'ok':
            ds = [differ(got[1], s)
                  for s in f.may[g]]
            if all(ds):
                raise Violation([TAG], 'mixture-loaded', '%s: an interrupted '
                                'save loads, but as no array ever saved '
                                'there: %s' % (where, ds[-1]))
            self.stats.probe('interrupted-save-loads-right')
        else:
            self.stats.probe('interrupted-save-raises')

    def harmless(self, fn, what):
        """A call that no fault disturbs: has to work."""
        try:
            return fn()
        except (Violation, Skip, Hang):
            raise
        except BaseException as e:
            raise Violation([TAG], 'raised:' + what, '%s raised %s: %s' % (
                what, type(e).__name__, str(e)[:200]))

    # -- generators ----------------------------------------------------------
    def gen_h5(self, rng):
        return [rng.choice(['io-error', 'disk-full', 'interrupt',
                            'out-of-memory']),
                1 + int(rng.expovariate(1. / rng.choice([2, 5, 12]))),
                rng.choice(['before', 'before', 'after'])]

    def gen_io(self, rng):
        kind = rng.choice(['crash', 'crash', 'io-error', 'disk-full'])
        nth = 1 + int(rng.expovariate(1. / rng.choice([3, 10, 25, 60])))
        return dict(kind=kind, nth=nth, repeat=bool(
            kind == 'disk-full' and rng.random() < .7
            or rng.random() < .2), on=['write'],
            torn=rng.choice([0, 0, .3, .9, 1]))

    def gen_session(self, rng):
        acts = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            x = rng.random()
            g = rng.choice(GROUPS)
            if x < .68:
                acts.append(['save', g, rng.getrandbits(20), None])
            elif x < .9:
                acts.append(['load', g, 0, None])
            else:
                acts.append(['del', g, 0, None])
        o = dict(file=rng.choice(FILES), mode=rng.choice('aaaaw'), acts=acts)
        x = rng.random()
        if x < self.cfg['h5_rate']:
            rng.choice(acts)[3] = self.gen_h5(rng)
        elif x < self.cfg['h5_rate'] + self.cfg['io_rate']:
            if rng.random() < .15:
                o['abandon'] = True
            else:
                o['io'] = self.gen_io(rng)
        return o

    def gen_save_path(self, rng):
        o = dict(file=rng.choice(FILES), a=rng.getrandbits(20))
        x = rng.random()
        if x < self.cfg['h5_rate']:
            o['h5'] = self.gen_h5(rng)
        elif x < self.cfg['h5_rate'] + self.cfg['io_rate']:
            o['io'] = self.gen_io(rng)
        return o

    def gen_load(self, rng):
        o = dict(how=rng.choice(['path', 'group', 'rw']))
        o['file'], o['g'] = self.known(rng)
        x = rng.random()
        if x < .2:
            o['h5'] = self.gen_h5(rng)
        elif x < .35:
            o['io'] = dict(kind='io-error', nth=rng.randint(1, 20),
                           repeat=rng.random() < .5, on=['read'], torn=0)
        return o

    def gen_new(self, rng):
        return dict(s=rng.getrandbits(31))

    def gen_mutate(self, rng):
        return dict(a=rng.getrandbits(20), s=rng.getrandbits(31))

    def gen_remove(self, rng):
        return dict(file=rng.choice(FILES))

    def gen_independence(self, rng):
        o = dict(how=rng.choice(['r+', 'r']), s=rng.getrandbits(31))
        o['file'], o['g'] = self.known(rng)
        return o

    def known(self, rng):
        """A place something was saved to."""
        c = [(n, g) for n in FILES if self.files[n].exists
             and self.files[n].clean for g in sorted(self.files[n].may)]
        return rng.choice(c or [(FILES[0], '/')])

    # -- operations ----------------------------------------------------------
    def do_new(self, o):
        a = self.fresh(np.random.RandomState(o['s']))
        self.notes.append([len(a) > 10, np.dtype(a.dtype).str])
        self.add(a)

    def do_mutate(self, o):
        """Change an array in memory: nothing saved may change."""
        a, s = self.pick(o['a'])
        rs = np.random.RandomState(o['s'])
        lts = [np.asarray(a.lt[i]) for i in range(len(a))]
        need(all(t.dtype.kind in 'fc' and t.dtype.isnative and
                 t.dtype.itemsize >= 8 and np.isfinite(t).all() for t in lts))
        k = rs.randint(4)
        if k == 0 or not all(t.dtype == lts[0].dtype for t in lts):
            self.gauge(a, rs)
        elif k == 1:
            a *= 2.5
        elif k == 2:
            need(len(a) > 1 and all(np.abs(t).max() > 0 for t in lts))
            a.compress(method='svd', rank=int(rs.randint(1, 3)))
        else:
            i = int(rs.randint(len(a)))
            a.lt[i] = rs.standard_normal(lts[i].shape).astype(lts[i].dtype)
        for e in self.pool:
            if e[0] is a:
                e[1] = snap(a)

    def do_remove(self, o):
        f = self.files[o['file']]
        need(f.exists)
        os.remove(self.path(o['file']))
        self.files[o['file']] = Store()

    def do_save_path(self, o):
        a, s = self.pick(o['a'])
        f, path = self.files[o['file']], self.path(o['file'])
        self.notes.append([len(a) > 10, f.exists])
        if o.get('io'):
            if not f.exists and os.path.exists(path):
                os.remove(path)

            def body():
                _DISK['io'] = o['io']
                try:
                    a.dump(path)
                    return 'ok', _DISK['file'] and _DISK['file'].fired
                except BaseException as e:
                    return type(e).__name__, _DISK['file'].fired
            status, res = core.in_fork(body, 60)
            if status == 'ok' and res[0] == 'ok':
                self.files[o['file']] = f = Store()
                f.exists = True
                f.put('/', s)
                if res[1]:
                    # an error nobody was told about: must not have mattered
                    f.tried('/', s)
                    self.stats.probe('unreported-io-error')
                return 'ok'
            if status == 'ok' and not res[1]:
                raise Violation([TAG], 'raised:dump', 'saving to a path '
                                'raised %s' % res[0])
            if status == 'timeout':
                raise Violation([TAG], 'save-hangs', 'save does not return')
            if status == 'error':
                raise RuntimeError(res)
            self.stats.fault('%s%s' % (o['io']['kind'], '+' if
                                       o['io']['repeat'] else ''))
            f.exists = os.path.exists(path)
            f.doubt()
            f.tried('/', s)
            return 'interrupted:' + o['io']['kind']
        with h5fault(o.get('h5')) as h:
            try:
                a.dump(path)
                err = None
            except Hang:
                raise
            except BaseException as e:
                err = e
            fired = h['fired']
        if err is None:
            self.files[o['file']] = f = Store()
            f.exists = True
            f.put('/', s)
            if fired:
                f.tried('/', s)
                return 'survived'
            return 'ok'
        if not fired:
            raise Violation([TAG], 'raised:dump', 'saving to a path raised '
                            '%s: %s' % (type(err).__name__, str(err)[:200]))
        self.stats.fault('h5:' + fired)
        # The file may hold the old contents, or what was written so far;
        # it was closed, so it has to be readable.
        f.exists = os.path.exists(path)
        f.must.clear()
        f.tried('/', s)
        if f.exists and f.clean:
            self.harmless(lambda: _RealFile(path, 'r').close(),
                          'reopening a closed file')
        return 'failed:' + fired.split(':')[0]

    def run_session(self, o, path, saves):
        """Returns [(outcome, ...)] per act and the outcome of closing."""
        res, h5 = [], None
        f = h5py.File(path, o['mode'])
        for k, (act, g, _, h5plan) in enumerate(o['acts']):
            fired = None
            try:
                if act == 'del':
                    if g != '/' and isinstance(f.get(g), h5py.Group):
                        del f[g]
                        res.append(('ok', None, None))
                    else:
                        res.append(('skip', None, None))
                    continue
                try:
                    if act == 'load' and g != '/' and g not in f:
                        raise KeyError(g)
                    t = f if g == '/' else f.require_group(g)
                except Exception as e:
                    res.append(('skip', None, type(e).__name__))
                    continue
                with h5fault(h5plan) as h:
                    try:
                        if act == 'save':
                            saves[k][0].dump(t)
                            out = None
                        else:
                            out = loaded(saves[k].load(t), saves[k])
                    finally:
                        fired = h['fired']
                res.append(('ok', fired, out))
            except Hang:
                raise
            except BaseException as e:
                res.append(('raised', fired, type(e).__name__))
        if o.get('abandon'):
            os._exit(CRASH)
        try:
            f.close()
            closed = 'ok'
        except Hang:
            raise
        except BaseException as e:
            closed = type(e).__name__
        return res, closed

    def do_session(self, o):
        f, path = self.files[o['file']], self.path(o['file'])
        need(f.clean or o['mode'] == 'w')
        saves = []
        for act, g, i, _ in o['acts']:
            saves.append(self.pick(i) if act == 'save' else MPArray)
        before = open(path, 'rb').read() if f.exists else None
        self.notes.append([o['mode'], f.exists, [
            [a[0], a[1] in f.must, bool(a[3])] for a in o['acts']]])
        if o.get('io') or o.get('abandon'):
            def body():
                _DISK['io'] = o.get('io') or dict(on=[], kind='none')
                try:
                    r = self.run_session(o, path, saves)
                except BaseException as e:
                    r = ('open', type(e).__name__)
                return r, _DISK['file'].fired if _DISK['file'] else 0
            status, r = core.in_fork(body, 60)
            _DISK['io'] = None
            if status == 'timeout':
                raise Violation([TAG], 'save-hangs', 'session hangs')
            if status == 'error':
                raise RuntimeError(r)
            died = status == 'died'
            fired = died or r[1]
            if fired:
                kind = o['io']['kind'] if o.get('io') else 'crash'
                self.stats.fault(kind + ('+' if o.get('io') and
                                         o['io']['repeat'] else ''))
                if died and os.WEXITSTATUS(r or 0) != CRASH:
                    self.stats.probe('hdf5-died-after-io-error')
                if o['mode'] == 'w':
                    f = self.files[o['file']] = Store()
                f.exists = os.path.exists(path)
                for (act, g, _, _), a in zip(o['acts'], saves):
                    if act == 'save':
                        f.tried(g, a[1])
                    elif act == 'del':
                        self.drop(f, g, True)
                if (o['mode'] != 'w' and before is not None and
                        open(path, 'rb').read()[:len(before)] == before):
                    # Nothing that existed was touched: it must still be
                    # there, and the file can be used further.
                    self.stats.probe('crash-before-metadata')
                else:
                    f.doubt()
                return 'interrupted:' + kind
            res, closed = r[0]
        else:
            res, closed = self.harmless(
                lambda: self.run_session(o, path, saves), 'opening a file')
        if o['mode'] == 'w':
            f = self.files[o['file']] = Store()
        f.exists = True
        if closed != 'ok':
            raise Violation([TAG], 'raised:close', 'closing a file raised %s'
                            % closed)
        outcomes = []
        for (act, g, _, h5), a, (what, fired, out) in zip(
                o['acts'], saves, res):
            if fired:
                self.stats.fault('h5:' + fired)
            outcomes.append('%s-%s%s' % (act, what, '-fault' if fired else ''))
            if what == 'skip':
                continue
            if act == 'save':
                f.made.add(g)
            if act == 'del':
                self.drop(f, g, False)
            elif act == 'save':
                if what == 'ok' and not fired:
                    f.put(g, a[1])
                elif what == 'ok':
                    f.put(g, a[1])
                    f.tried(g, a[1])
                else:
                    if not fired and not self.occupied(f, g, len(a[0])):
                        raise Violation(
                            [TAG], 'raised:dump', 'saving to the unoccupied '
                            'group %s raised %s' % (g, out))
                    f.tried(g, a[1])
            elif fired:
                pass
            elif g in f.must:
                self.judge(o['file'], g, (what, out))
            elif g in f.may and what == 'ok':
                self.judge(o['file'], g, (what, out))
        self.notes.append(outcomes)
        return 'session'

    def drop(self, f, g, doubtful):
        for x in list(f.may):
            if x == g or x.startswith(g + '/'):
                f.must.pop(x, None)
                if not doubtful:
                    f.may.pop(x, None)

    def occupied(self, f, g, n):
        """Might the target hold something already?"""
        if f.may.get(g):
            return True
        # groups created below it by other clients, e.g. 'b/1' for 'b'
        pre = '' if g == '/' else g + '/'
        for x in f.made:
            if x != g and x.startswith(pre):
                head = x[len(pre):].split('/')[0]
                if head.isdigit() and int(head) < n:
                    return True
        return False

    def do_load(self, o):
        f, path = self.files[o['file']], self.path(o['file'])
        g = o['g']
        need(f.exists and f.clean and g in f.may)
        cls = self.cls(f.may[g])
        if o.get('io'):
            def body():
                _DISK['io'] = o['io']
                try:
                    return ('ok', loaded(load_any(path, g, o['how'], cls), cls),
                            _DISK['file'].fired)
                except BaseException as e:
                    return ('raised', type(e).__name__, _DISK['file'].fired)
            status, r = core.in_fork(body, 60)
            if status == 'timeout':
                raise Violation([TAG], 'load-hangs', 'load hangs')
            if status == 'error':
                raise RuntimeError(r)
            if status == 'died':
                self.stats.probe('hdf5-died-after-io-error')
                self.stats.fault('read-error')
                return 'interrupted:read'
            if not r[2]:
                self.judge(o['file'], g, r[:2])
                return 'ok'
            self.stats.fault('read-error')
            if r[0] == 'ok':
                self.judge(o['file'], g, r[:2])
            return 'interrupted:read'
        fired = None
        try:
            try:
                a = load_any(path, g, o['how'], cls, o.get('h5'))
            finally:
                fired = _H5['fired'] if o.get('h5') else None
        except Hang:
            raise
        except BaseException as e:
            if fired:
                self.stats.fault('h5:' + fired)
                return 'failed:load'
            self.judge(o['file'], g, ('raised', '%s: %s' % (
                type(e).__name__, e)))
            return 'raised'
        self.judge(o['file'], g, ('ok', loaded(a, cls)))
        if not fired:
            self.add(a)
        return 'ok'

    def do_independence(self, o):
        """Loaded while the file stays open; then file and array diverge."""
        f, path = self.files[o['file']], self.path(o['file'])
        g = o['g']
        need(f.exists and f.clean and g in f.must)
        cls, rs = self.cls(f.may[g]), np.random.RandomState(o['s'])

        def body():
            with _RealFile(path, o['how']) as h:
                t = h if g == '/' else h[g]
                a = cls.load(t)
                s = snap(a)
                b = cls.load(t)
                for i in range(len(a)):
                    x = np.asarray(a.lt[i])
                    a.lt[i] = (x * 0 + 1).astype(x.dtype)
                c = cls.load(t)
                if snap(b) != snap(c):
                    raise Violation([TAG], 'load-shares-data', 'changing a '
                                    'loaded array changed another loaded '
                                    'array or the file')
                if o['how'] == 'r+':
                    data = {k: t[k][()] for k in t
                            if isinstance(t[k], h5py.Dataset)}
                    for k in data:
                        t[k][...] = np.zeros_like(data[k])
                    if snap(c) != s:
                        raise Violation([TAG], 'load-depends-on-file',
                                        'changing the file changed an array '
                                        'loaded from it')
                    for k in data:
                        t[k][...] = data[k]
                return c, s
        c, s = self.harmless(body, 'loading from an open file')
        if snap(c) != s:
            raise Violation([TAG], 'load-depends-on-file', 'closing the file '
                            'changed an array loaded from it')
        self.judge(o['file'], g, ('ok', s))
        self.add(c)


WORLDS = {'disk': DiskWorld}
