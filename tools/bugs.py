"""The planted changes: edits, demonstration and description."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, count=1):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs,
                     breaks=breaks, demo=demo, count=count))


MPA = 'mpnum/mparray.py'
STRUCT = 'mpnum/mpstruct.py'
LINALG = 'mpnum/linalg.py'
MPSMPO = 'mpnum/mpsmpo.py'
FACTORY = 'mpnum/factory.py'
MPPOVM = 'mpnum/povm/mppovm.py'
EXTMATH = 'mpnum/utils/extmath.py'
SPECIAL = 'mpnum/special.py'

CANON = '''
import numpy as np
import mpnum as mp
from mpnum import factory


def check_form(a):
    l, r = a.canonical_form
    for t in list(a.lt)[:l]:
        m = t.reshape((-1, t.shape[-1]))
        assert np.allclose(m.conj().T.dot(m), np.eye(m.shape[1])), 'left'
    for t in list(a.lt)[r:]:
        m = t.reshape((t.shape[0], -1))
        assert np.allclose(m.dot(m.conj().T), np.eye(m.shape[0])), 'right'


rng = np.random.RandomState(3)
'''

# ---------------------------------------------------------------- C01
bug('c01-pad-ranks-form', 'C01',
    [(MPA, '''              for lp, rp, lt in zip([0] + pad, pad + [0], self.lt))
        return mp.MPArray(lt)
''', '''              for lp, rp, lt in zip([0] + pad, pad + [0], self.lt))
        return mp.MPArray(LocalTensors(lt, cform=self.canonical_form))
''')],
    'padding the ranks of an array that is already (partly) canonical',
    'the padded array claims the canonical form of the original although the '
    'padded tensors are no isometries, so that its norm is wrong',
    CANON + '''
a = factory.random_mpa(5, 2, 1, randstate=rng)
a.canonicalize(left=2, right=4)
b = a.pad_ranks(rank=2)
check_form(b)
assert np.allclose(b.to_array(), a.to_array())
''')

bug('c01-group-sites-form', 'C01',
    [(MPA, '''                 for i in range(0, len(self), sites_per_group)]
        return MPArray(ltens)
''', '''                 for i in range(0, len(self), sites_per_group)]
        lcanon, rcanon = self.canonical_form
        cform = lcanon // sites_per_group, rcanon // sites_per_group
        return MPArray(LocalTensors(ltens, cform=cform))
''')],
    'a right-canonical position inside a group of sites',
    'group_sites carries the canonical form over but rounds the '
    'right-canonical position the wrong way',
    CANON + '''
a = factory.random_mpa(6, 2, 3, randstate=rng)
a.canonicalize(right=3)
b = a.group_sites(2)
check_form(b)
assert np.isclose(mp.norm(b), np.linalg.norm(a.to_array()))
''')

# ---------------------------------------------------------------- C02
bug('c02-partialtrace-negative', 'C02',
    [(MPA, '''    axes = (None if axesitem is None else tuple(ax + 1 if ax >= 0 else ax - 1
                                                for ax in axesitem)
            for axesitem in axes)
''', '''    axes = (None if axesitem is None
            else tuple((ax + n) % n + 1 for ax in axesitem)
            for n, axesitem in zip(it.repeat(max(mpa.ndims)), axes))
''')],
    'negative axes on an array whose sites have different numbers of legs',
    'partialtrace traces over the wrong pair of legs',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(2, ((2, 2), (3, 2, 2)), 3, randstate=rng)
want = np.einsum('aacbb->c', a.to_array())
got = mp.partialtrace(a, ((0, 1), (1, 2))).to_array()
assert np.allclose(got, want)
got = mp.partialtrace(a, ((-2, -1), (-2, -1))).to_array()
assert np.allclose(got, want)
''')

# ---------------------------------------------------------------- C03
bug('c03-var-compression-alias', 'C03',
    [(MPA, '''            # return self.
            copy = self.copy()
            return copy, norm(copy)**2
''', '''            # return self.
            return self, norm(self)**2
''')],
    'a variational compression to a rank above the current one, then an '
    'in-place change of the result',
    'the compressed array is the original array itself',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(4, 2, 2, randstate=rng)
before = a.to_array()
c, overlap = a.compression('var', num_sweeps=1, rank=3, randstate=rng)
c *= 2
assert np.allclose(a.to_array(), before)
''')

bug('c03-probability-map-cache', 'C03',
    [(MPPOVM, '''        return self.transpose((0, 2, 1)).reshape(
            (pdim[0], -1) for pdim in self.shape)
''', '''        try:
            return self._pmap
        except AttributeError:
            self._pmap = self.transpose((0, 2, 1)).reshape(
                (pdim[0], -1) for pdim in self.shape)
            return self._pmap
''')],
    'in-place scaling of a probability map handed out earlier (or of the '
    'POVM after the map has been used)',
    'the handed-out probability map is shared with the POVM',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory, povm
rng = np.random.RandomState(3)
p = povm.MPPovm.from_local_povm(povm.pauli_povm(2), 3)
before = p.probability_map.to_array()
m = p.probability_map
m *= 3
assert np.allclose(p.probability_map.to_array(), before)
p *= 0.5
assert np.allclose(p.probability_map.to_array(), 0.5 * before)
''')

# ---------------------------------------------------------------- C04
bug('c04-canonicalize-two-steps', 'C04',
    [(MPA, '''            newtens = (q.reshape(ltens.shape[:-1] + (-1,)),
                       matdot(r, self._lt[site + 1]))
            self._lt.update(slice(site, site + 2), newtens,
                            canonicalization=('left', None))

    def _lcanon''', '''            self._lt._update(site, q.reshape(ltens.shape[:-1] + (-1,)),
                             canonicalization='left')
            self._lt._update(site + 1, matdot(r, self._lt[site + 1]))

    def _lcanon''')],
    'memory running out while the neighbouring tensor is updated',
    'a canonicalisation that fails half-way loses a factor: the array no '
    'longer represents its tensor',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory, mparray
rng = np.random.RandomState(3)
a = factory.random_mpa(4, 2, 2, randstate=rng)
before = a.to_array()
real = np.tensordot
calls = [0]


def failing(*args, **kwargs):
    calls[0] += 1
    if calls[0] == 2:
        raise MemoryError
    return real(*args, **kwargs)


np.tensordot = failing
try:
    a.canonicalize(left=3)
except MemoryError:
    pass
np.tensordot = real
assert calls[0] == 2
assert np.allclose(a.to_array(), before)
''')

bug('c04-update-late-check', 'C04',
    [(STRUCT, '''            assert self[stop - 1].shape[-1] == tens[-1].shape[-1]
''', '''            right_rank = self[stop - 1].shape[-1]
'''), (STRUCT, '''                self._update(pos, ten, canonicalization=norm)

''', '''                self._update(pos, ten, canonicalization=norm)
            assert right_rank == tens[-1].shape[-1]

''')],
    'a rejected update of several local tensors whose last bond dimension '
    'does not fit',
    'the update is rejected only after the array has been overwritten with '
    'inconsistent tensors',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(4, 2, 2, randstate=rng)
before = a.to_array()
try:
    a.lt.update(slice(1, 3), [rng.randn(2, 2, 2), rng.randn(2, 2, 3)])
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
assert np.allclose(a.to_array(), before)
''')

bug('c04-compress-svd-l-order', 'C04',
    [(MPA, '''            newtens = (matdot(self._lt[site - 1], u[:, :rank_t] * sv[None, :rank_t]),
                       v[:rank_t, :].reshape((rank_t, ) + ltens.shape[1:]))
            self._lt.update(slice(site - 1, site + 1), newtens,
                            canonicalization=(None, 'right'))
''', '''            self._lt._update(site, v[:rank_t, :].reshape(
                (rank_t, ) + ltens.shape[1:]), canonicalization='right')
            self._lt._update(site - 1, matdot(
                self._lt[site - 1], u[:, :rank_t] * sv[None, :rank_t]))
''')],
    'a right-to-left compression during which memory runs out',
    'a failed compression leaves an array without the singular values of '
    'one bond (and possibly inconsistent bonds)',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory, mparray
rng = np.random.RandomState(3)
a = factory.random_mpa(4, 2, 4, randstate=rng)
a.canonicalize(left=3)
before = a.to_array()
real = np.tensordot
calls = [0]


def failing(*args, **kwargs):
    calls[0] += 1
    if calls[0] == 2:
        raise MemoryError
    return real(*args, **kwargs)


np.tensordot = failing
try:
    a.compress('svd', rank=4, direction='left')
except MemoryError:
    pass
np.tensordot = real
assert calls[0] == 2
assert np.allclose(a.to_array(), before)
''')

# ---------------------------------------------------------------- C05
bug('c05-relerr-ignores-rank', 'C05',
    [(MPA, '''                rank_t = min(ltens.shape[0], v.shape[0], rank, rank_relerr)
''', '''                rank_t = min(ltens.shape[0], v.shape[0], rank_relerr)
''')],
    'a right-to-left compression with both rank and relerr',
    'the compressed array exceeds the requested rank',
    '''
import numpy as np
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(5, 2, 4, randstate=rng)
c, _ = a.compression('svd', rank=2, relerr=1e-9, direction='left')
assert max(c.ranks) <= 2, c.ranks
''')

# ---------------------------------------------------------------- C06
bug('c06-overwrite-keeps-attributes', 'C06',
    [(MPA, '''            with h5py.File(target, 'w') as outfile:
                return self.dump(outfile)
''', '''            with h5py.File(target, 'a') as outfile:
                outfile.clear()
                return self.dump(outfile)
''')],
    'a file that already holds an array, and saving another one to it fails '
    'between writing the tensors and the attributes',
    'the file then combines the new tensors with the length and canonical '
    'form of the old array and loads as a mixture',
    '''
import os
import tempfile
import shutil
import h5py
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
old = factory.random_mpa(3, 2, 2, randstate=rng)
old.canonicalize(left=2)
new = factory.random_mpa(4, 2, 1, randstate=rng)
d = tempfile.mkdtemp()
real = h5py.AttributeManager.__setitem__


def failing(self, name, value):
    raise IOError(28, 'No space left on device')


try:
    name = os.path.join(d, 'a.h5')
    old.dump(name)
    h5py.AttributeManager.__setitem__ = failing
    try:
        new.dump(name)
    except IOError:
        pass
    else:
        raise SystemExit('no failure')
    h5py.AttributeManager.__setitem__ = real
    try:
        got = mp.MPArray.load(name)
    except Exception:
        got = None
finally:
    shutil.rmtree(d)
if got is not None:
    assert any(len(got) == len(m) and all(
        s.shape == t.shape and (s == t).all()
        for s, t in zip(got.lt, m.lt)) for m in (old, new)), 'mixture'
''')

# ---------------------------------------------------------------- C07
bug('c07-complex-sketch', 'C07',
    [(EXTMATH, '''        return randstate.randn(*shape) + 1.j * randstate.randn(*shape)
    else:
        raise ValueError''', '''        return randstate.randn(*shape) + 1.j * np.random.randn(*shape)
    else:
        raise ValueError''')],
    'a randomised SVD of a complex matrix with an explicit generator',
    'the imaginary part of the sketch comes from the process-wide generator',
    '''
import numpy as np
from mpnum.utils import randomized_svd
m = np.random.RandomState(1).randn(20, 20) * (1 + 0.5j)
out = []
for seed in range(2):
    np.random.seed(seed)
    before = np.random.get_state()[2]
    out.append(randomized_svd(m, 3, 0, 0, randstate=np.random.RandomState(7))[1])
    assert np.random.get_state()[2] == before
assert (out[0] == out[1]).all()
''')

bug('c07-mpdo-gauge', 'C07',
    [(FACTORY, '''        unitary = _unitary_haar(rank, randstate)
''', '''        unitary = _unitary_haar(rank)
''')],
    'a random density operator drawn from an explicit generator',
    'the gauge of the result depends on (and disturbs) the process-wide '
    'generator',
    '''
import numpy as np
from mpnum import factory
out = []
for seed in range(2):
    np.random.seed(seed)
    rho = factory.random_mpdo(4, 2, 3, randstate=np.random.RandomState(7))
    out.append(list(rho.lt))
assert all((s == t).all() for s, t in zip(*out))
''')

bug('c07-eig-sum-start', 'C07',
    [(LINALG, '''        shape = [(dim[0],) for dim in mpas[0].shape]
        startvec = random_mpa(nr_sites, shape, startvec_rank,
                              randstate=randstate, dtype=np.complex_)
''', '''        shape = [(dim[0],) for dim in mpas[0].shape]
        startvec = random_mpa(nr_sites, shape, startvec_rank,
                              dtype=np.complex_)
''')],
    'eig_sum with a random start vector and an explicit generator',
    'the start vector comes from the process-wide generator',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
from mpnum.linalg import eig_sum
ham = factory.random_mpo(4, 2, 2, randstate=np.random.RandomState(1),
                         hermitian=True)


def eigs(op, v0):
    return np.array([1.0]), v0 / np.linalg.norm(v0)


out = []
for seed in range(2):
    np.random.seed(seed)
    _, v = eig_sum([ham], 1, startvec_rank=2, eigs=eigs,
                   randstate=np.random.RandomState(7))
    out.append(v.to_array())
assert np.allclose(out[0], out[1])
''')

# ---------------------------------------------------------------- C08
# ---------------------------------------------------------------- C09
bug('c09-mpps-weights', 'C09',
    [(MPPOVM, '''            pmf_ests[pos, ...], n_samples[pos] = self.est_pmf_from(
                other_mpp, other_samples, eps)
''', '''            pmf_ests[pos, ...], _ = self.est_pmf_from(
                other_mpp, other_samples, eps)
            n_samples[pos] = len(other_samples)
''')],
    'combining samples of POVMs of which only a part of the outcomes can be '
    'used',
    'estimates from several POVMs are weighted with all samples instead of '
    'the samples used',
    '''
import numpy as np
from mpnum import povm
rng = np.random.RandomState(3)
pauli = povm.MPPovm.from_local_povm(povm.pauli_povm(2), 1)
x = povm.MPPovm.from_local_povm(povm.x_povm(2), 1)
mine = x
other = povm.MPPovmList([x, pauli])
s = [np.array([[0]] * 10, np.uint8),
     np.array([[1]] * 4 + [[2]] * 4 + [[4]] * 4, np.uint8)]
est, n = mine.est_pmf_from_mpps(other, s)
_, used = mine.est_pmf_from(pauli, s[1])
assert (n == 10 + used).all(), n
''')

bug('c09-pack-overflow', 'C09',
    [(MPPOVM, '''            info = np.iinfo(dtype)
            assert samples.min() >= info.min
            assert samples.max() <= info.max
            samples = samples.astype(dtype)
''', '''            info = np.iinfo(dtype)
            assert np.prod(self.nsoutdims) - 1 <= info.max or info.bits < 32
            samples = samples.astype(dtype)
''')],
    'packing samples into an integer type too small for the number of '
    'outcomes',
    'packed samples wrap around and stand for other outcomes',
    '''
import numpy as np
from mpnum import povm
m = povm.MPPovm.from_local_povm(povm.pauli_povm(2), 4)
s = np.array([[5, 5, 5, 5], [0, 0, 0, 1]], np.uint8)
try:
    packed = m.pack_samples(s, dtype=np.uint8)
except AssertionError:
    raise SystemExit(0)
assert (m.unpack_samples(packed) == s).all()
''')

# ---------------------------------------------------------------- C10
# ---------------------------------------------------------------- C11
bug('c11-sandwich-canonical', 'C11',
    [(MPA, '''    arr = np.ones((1, 1, 1))
    for mpo_lt, mps_lt, mps2_lt in zip(mpo.lt, mps.lt, (mps2 or mps).lt):
''', '''    mps2 = mps if mps2 is None else mps2
    # Well-conditioned intermediate results
    mps.canonicalize(left='afull')
    arr = np.ones((1, 1, 1))
    for mpo_lt, mps_lt, mps2_lt in zip(mpo.lt, mps.lt, mps2.lt):
''')],
    'a thread reading an array while another thread computes an expectation '
    'value with it',
    'sandwich changes the gauge of a shared array in place while others '
    'read it',
    '''
import threading
import numpy as np
import mpnum as mp
from mpnum import factory, mparray
rng = np.random.RandomState(3)
psi = factory.random_mps(4, 2, 3, randstate=rng)
op = factory.random_mpo(4, 2, 2, randstate=rng)
want = mp.sandwich(op, psi.copy())
real = mparray.qr
inside, go = threading.Event(), threading.Event()


def stalled(m, *args, **kwargs):
    if threading.current_thread().name == 'stalled' and not inside.is_set():
        inside.set()
        go.wait(20)
    return real(m, *args, **kwargs)


out = []
mparray.qr = stalled
t = threading.Thread(target=lambda: out.append(mp.sandwich(op, psi)),
                     name='stalled')
t.start()
inside.wait(2)
got = mp.sandwich(op, psi)
go.set()
t.join(20)
mparray.qr = real
assert np.allclose(out + [got], want), (out, got, want)
assert np.isclose(np.linalg.norm(psi.to_array()), 1)
''')

# ---------------------------------------------------------------- C12
bug('c12-eig-sum-startvec', 'C12',
    [(LINALG, '''        shape = [(dim[0],) for dim in mpas[0].shape]
        startvec = random_mpa(nr_sites, shape, startvec_rank,
                              randstate=randstate, dtype=np.complex_)
        startvec.canonicalize(right=1)
        startvec /= mp.norm(startvec)
    else:
        # Do not modify the `startvec` argument.
        startvec = startvec.copy()
''', '''        shape = [(dim[0],) for dim in mpas[0].shape]
        startvec = random_mpa(nr_sites, shape, startvec_rank,
                              randstate=randstate, dtype=np.complex_)
        startvec.canonicalize(right=1)
        startvec /= mp.norm(startvec)
''')],
    'eig_sum with a start vector that is used again afterwards',
    'the start vector is overwritten by the search',
    '''
import numpy as np
from mpnum import factory
from mpnum.linalg import eig_sum
rng = np.random.RandomState(1)
ham = factory.random_mpo(4, 2, 2, randstate=rng, hermitian=True)
start = factory.random_mps(4, 2, 2, randstate=rng)
before = start.to_array()
eig_sum([ham], 1, startvec=start)
assert np.allclose(start.to_array(), before)
''')

bug('c12-local-rank', 'C12',
    [(LINALG, '''    eigvec_rank = max(lten.shape[0] for lten in eigvec_ltens)
''', '''    eigvec_rank = eigvec_ltens[-1].shape[0]
''')],
    'three sites varied at a time (or growing ranks next to the boundary)',
    'the local solution is truncated to a rank smaller than the rank of the '
    'state it came from, so the search gets worse from one step to the next',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
from mpnum.linalg import eig
for seed in range(20):
    rng = np.random.RandomState(seed)
    ham = factory.random_mpo(5, 2, 2, randstate=rng, hermitian=True)
    start = factory.random_mpa(5, ((2,),) * 5, (2, 4, 2, 2), randstate=rng)
    start /= mp.norm(start.copy())

    def eigs(op, v0):
        v0 = v0 / np.linalg.norm(v0)
        return np.array([np.vdot(v0, op.dot(v0)).real]), v0

    val, vec = eig(ham, 1, var_sites=3, startvec=start, eigs=eigs)
    assert np.allclose(val, mp.sandwich(ham, start).real), seed
''')

# ------------------------------------------------------- second batch
bug('c01-get-form', 'C01',
    [(MPA, '''        return astype(lt[:, i, ..., :] for i, lt in zip(indices, self._lt))
''', '''        ltens = (lt[:, i, ..., :] for i, lt in zip(indices, self._lt))
        return astype(LocalTensors(ltens, cform=self.canonical_form))
''')],
    'selecting entries of a canonical array',
    'the selected array claims the canonical form of the whole array',
    CANON + '''
a = factory.random_mpa(4, 2, 3, randstate=rng)
a.canonicalize(left=2)
b = a.get((0, slice(None), slice(None), 1))
check_form(b)
assert np.isclose(mp.norm(b), np.linalg.norm(a.to_array()[0, ..., 1]))
''')

bug('c01-chain-form', 'C01',
    [(MPA, '''    return astype(it.chain(first.lt, rest))
''', '''    # The tensors of the first factor stay canonical
    return astype(LocalTensors(it.chain(first.lt, rest),
                               cform=first.canonical_form))
''')],
    'chaining arrays of which the first is right-canonical',
    'the product claims all sites of the other factors to be right-canonical',
    CANON + '''
a = factory.random_mpa(3, 2, 2, randstate=rng)
b = factory.random_mpa(2, 2, 2, randstate=rng)
want = np.linalg.norm(a.to_array()) * np.linalg.norm(b.to_array())
a.canonicalize(right=1)
c = mp.chain([a, b])
check_form(c)
assert np.isclose(mp.norm(c), want)
''')

bug('c03-prune-nothing', 'C03',
    [(MPA, '''    return MPArray(_prune_ltens(mpa.lt))
''', '''    # There may be nothing to merge
    return mpa if all(mpa.ndims) else MPArray(_prune_ltens(mpa.lt))
''')],
    'pruning an array that has legs everywhere, then changing it in place',
    'the result of prune is its argument',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(4, 2, 3, randstate=rng)
want = a.to_array()
b = mp.prune(a, singletons=True)
b *= 2
assert np.allclose(a.to_array(), want)
''')

bug('c03-eig-startvec', 'C03',
    [(LINALG, '''        # Do not modify the `startvec` argument.
        startvec = startvec.copy()
    # Can we''', '''        # Do not modify the `startvec` argument.
        if startvec.canonical_form[1] > 1:
            startvec = startvec.copy()
    # Can we''')],
    'an eigenvalue search that starts from an array which is right-canonical '
    'already',
    'the start vector of the caller is overwritten with the result',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
h = factory.random_mpo(4, 2, 2, hermitian=True, normalized=True,
                       randstate=rng)
v = factory.random_mpa(4, 2, 3, randstate=rng, normalized=True)
for form in dict(left=2), dict(right=1):
    v.canonicalize(**form)
    want = v.to_array()
    mp.eig(h, num_sweeps=1, startvec=v)
    assert np.allclose(v.to_array(), want)
''', count=2)

bug('c08-marginal-cache', 'C08',
    [(MPPOVM, '''        pmf = mp.prune(self.pmf(state, mode), singletons=True)
        pmf_sum = pmf.sum()
''', '''        cached = getattr(self, '_last_pmf', None)
        if cached is None or cached[0] is not state or cached[1] != mode:
            pmf = mp.prune(self.pmf(state, mode), singletons=True)
            self._last_pmf = cached = (state, mode, pmf)
        pmf = cached[2]
        pmf_sum = pmf.sum()
''')],
    'sampling, changing the state in place and sampling again',
    'samples follow the probabilities of the state before the change',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory, povm
rng = np.random.RandomState(3)
psi = mp.MPArray.from_kron([np.array([1., 0.])] * 3)
p = povm.MPPovm.from_kron([np.array([np.diag([1., 0.]),
                                     np.diag([0., 1.])])] * 3)
assert (p.sample(rng, psi, 5, mode='mps') == 0).all()
psi.lt[1] = np.array([0., 1.])[None, :, None]
assert (p.sample(rng, psi, 5, mode='mps') == [0, 1, 0]).all()
''')

bug('c08-skip-projection', 'C08',
    [(MPPOVM, '''            p = project_pmf(mp.prune(p).to_array() / out_p, eps, eps)
''', '''            p = mp.prune(p).to_array().real / out_p
            assert abs(p.sum() - 1.0) <= eps
            p = p / p.sum()
''')],
    'outcomes of probability zero whose computed probability is slightly '
    'negative',
    'sampling fails for states with impossible outcomes',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory, povm
rng = np.random.RandomState(3)
p = povm.MPPovm.from_local_povm(povm.x_povm(2), 3)
for _ in range(60):
    # random states orthogonal to some of the outcomes
    psi = rng.randn(2, 2, 2) + 1j * rng.randn(2, 2, 2)
    v = np.array([1., 1.]) / 2**.5
    psi -= np.multiply.outer(v, np.tensordot(v, psi, axes=(0, 0)))
    psi /= np.linalg.norm(psi)
    psi = mp.MPArray.from_array(psi, 1)
    for n_group in 1, 2, 3:
        p.sample(rng, psi, 5, n_group=n_group, mode='mps')
''')

bug('c09-match-absolute', 'C09',
    [(MPPOVM, '''        match = abs(inner/normprod - 1) <= eps
''', '''        match = normprod - inner <= eps
''')],
    'POVMs with elements of small norm (a detector that rarely clicks)',
    'different elements of small norm count as proportional to each other',
    '''
import numpy as np
import mpnum as mp
from mpnum import povm
t = 1e-3
eye = np.eye(2)
p, q = np.diag([t, 0.]), np.array([[t, t], [t, t]]) / 2
a = povm.MPPovm.from_kron([np.array([p, eye - p])])
b = povm.MPPovm.from_kron([np.array([q, eye - q])])
match, _ = a.match_elems(b)
assert not match.any()
match, _ = a.match_elems(a)
assert (match == eye).all()
''')

bug('c10-remainder-cache', 'C10',
    [(MPSMPO, '''    rem_left = {0: np.array(1, ndmin=2)}
    rem_right = rem_left.copy()
''', '''    # Remainders are the same for all reductions of an array
    one = np.array(1, ndmin=2)
    rem_left, rem_right = vars(mpa).setdefault('_remainders',
                                               ({0: one}, {0: one}))
''')],
    'reductions of an array, a change of its gauge, further reductions',
    'the second reductions use remainders that belong to the old gauge',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
rho = factory.random_mpdo(4, 2, 2, randstate=rng)
want = [r.to_array() for r in mp.reductions_mpo(rho.copy(), 2)]
it1 = mp.reductions_mpo(rho, 2)
for k in range(2):
    assert np.allclose(next(it1).to_array(), want[k])
rho.canonicalize(left=3)
it2 = mp.reductions_mpo(rho, 2)
for k in range(3):
    assert np.allclose(next(it2).to_array(), want[k])
''')

bug('c10-axis-iter-lazy', 'C10',
    [(MPA, '''        ltens_iter = it.product(*(iter(np.rollaxis(lten, i + 1))
                                  for i, lten in zip(axes, self.lt)))
        return (MPArray(ltens) for ltens in ltens_iter)
''', '''        axes = tuple(axes)
        # Keep only the slices of the first site in memory
        return (MPArray(ltens) for head in np.rollaxis(self.lt[0], axes[0] + 1)
                for ltens in it.product([head], *(
                    np.rollaxis(lten, i + 1)
                    for i, lten in zip(axes[1:], self.lt[1:]))))
''')],
    'a gauge change of the array while one of its iterators is half consumed',
    'items combine a first site from before with other sites from after the '
    'gauge change',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(3, (2, 2), 3, randstate=rng)
want = [x.to_array() for x in a.copy().axis_iter(0)]
got = []
for i, x in enumerate(a.axis_iter(0)):
    got.append(x.to_array())
    if i == 3:
        a.canonicalize(left=2)
assert len(got) == len(want)
assert all(np.allclose(x, y) for x, y in zip(got, want))
''')

bug('c11-inner-self', 'C11',
    [(MPA, '''    ltens_new = (_local_dot(_local_ravel(l).conj(), _local_ravel(r), axes=(1, 1))
                 for l, r in zip(mpa1.lt, mpa2.lt))
''', '''    if mpa1 is mpa2:
        return np.array(norm(mpa1)**2, dtype=mpa1.dtype)[()]
    ltens_new = (_local_dot(_local_ravel(ket).conj(), _local_ravel(bra), axes=(1, 1))
                 for ket, bra in zip(mpa1.lt, mpa2.lt))
''')],
    'a thread reading an array while another computes its inner product with '
    'itself',
    'inner changes the gauge of a shared array in place while others read it',
    '''
import threading
import numpy as np
import mpnum as mp
from mpnum import factory, mparray
rng = np.random.RandomState(3)
psi = factory.random_mps(4, 2, 3, randstate=rng)
phi = factory.random_mps(4, 2, 3, randstate=rng)
psi.lt[3] = 2 * psi.lt[3]
want = mp.inner(psi.copy(), phi)
real = mparray.matdot
inside, go = threading.Event(), threading.Event()


def stalled(*args, **kwargs):
    if threading.current_thread().name == 'stalled' and not inside.is_set():
        inside.set()
        go.wait(20)
    return real(*args, **kwargs)


got = []
mparray.matdot = stalled
t = threading.Thread(target=lambda: got.append(mp.inner(psi, phi)),
                     name='stalled')
t.start()
inside.wait(5)
mp.inner(psi, psi)
go.set()
t.join()
assert np.allclose(got[0], want)
''')

bug('c11-transpose-memo', 'C11',
    [(MPA, '''    last = ltens.ndim - 1
    if axes is None:
        axes = tuple(it.chain((0,), reversed(range(1, last)), (last,)))
    else:
''', '''    last = ltens.ndim - 1
    if axes is None:
        if _reversal.get('ndim') != ltens.ndim:
            _reversal['ndim'] = ltens.ndim
            _reversal['axes'] = tuple(
                it.chain((0,), reversed(range(1, last)), (last,)))
        axes = _reversal['axes']
    else:
'''), (MPA, '''def _local_transpose(ltens, axes=None):
''', '''_reversal = {}


def _local_transpose(ltens, axes=None):
''')],
    'two threads transposing arrays with different numbers of legs',
    'a thread uses the permutation computed for the array of another thread',
    '''
import sys
import threading
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(2, (2, 3), 2, randstate=rng)
b = factory.random_mpa(2, (2, 3, 2), 2, randstate=rng)
want = a.T.shape, b.T.shape
bad = []
me = {}


def trace(frame, event, arg):
    # stall the first thread at every line of the transposition once
    if frame.f_code.co_name == '_local_transpose':
        return step
    return trace if 'mparray' in frame.f_code.co_filename else None


def step(frame, event, arg):
    if event == 'line':
        key = frame.f_lineno
        if key not in me:
            me[key] = 1
            other = threading.Thread(target=b_work)
            other.start()
            other.join()
    return step


def b_work():
    try:
        if b.T.shape != want[1]:
            bad.append('b')
    except Exception as e:
        bad.append(repr(e))


def a_work():
    sys.settrace(trace)
    try:
        for _ in range(10):
            if a.T.shape != want[0]:
                bad.append('a')
    except Exception as e:
        bad.append(repr(e))
    finally:
        sys.settrace(None)


t = threading.Thread(target=a_work)
t.start()
t.join()
assert not bad, bad
''')

bug('c11-compression-swap', 'C11',
    [(MPA, '''            target = self.copy()
            overlap = target._compress_svd(**kwargs)
            return target, overlap
''', '''            backup, self._lt = self._lt, self._lt.copy()
            try:
                overlap = self._compress_svd(**kwargs)
                target = type(self)(self._lt)
            finally:
                self._lt = backup
            return target, overlap
''')],
    'a thread reading an array while another compresses it into a new array',
    'the shared array is the compressed one for a while',
    '''
import numpy as np
import mpnum as mp
import threading
from mpnum import factory
from mpnum.utils import truncated_svd
rng = np.random.RandomState(3)
a = factory.random_mpa(4, 2, 4, randstate=rng, normalized=True)
want = a.to_array()
seen = []


def svd(*args):
    # another thread reads the array in the middle of the compression
    t = threading.Thread(target=lambda: seen.append(a.to_array()))
    t.start()
    t.join()
    return truncated_svd(*args)


c, _ = a.compression('svd', rank=1, svdfunc=svd)
assert len(seen) == 3
assert all(np.allclose(s, want) for s in seen)
''')

# -------------------------------------------------------- third batch
bug('c01-embed-form', 'C01',
    [(MPA, '''    return MPArray(it.chain(left, mpa.lt, right))
''', '''    lcanon, rcanon = mpa.canonical_form
    cform = start + lcanon, start + rcanon
    return MPArray(LocalTensors(it.chain(left, mpa.lt, right), cform=cform))
''')],
    'embedding an array into a longer one, not at its left end',
    'the embedding tensors are claimed to be isometries',
    CANON + '''
a = factory.random_mpa(2, (2, 2), 3, randstate=rng)
for start in range(3):
    b = mp.embed_slice(4, slice(start, start + 2), a)
    check_form(b)
    assert np.isclose(mp.norm(b), np.linalg.norm(b.to_array()))
''')

bug('c03-conj-real', 'C03',
    [(MPA, '''        return type(self)(LocalTensors((ltens.conj() for ltens in self._lt),
                                       cform=self.canonical_form))
''', '''        if not any(np.iscomplexobj(ltens) for ltens in self._lt):
            ltens = self._lt
        else:
            ltens = LocalTensors((lten.conj() for lten in self._lt),
                                 cform=self.canonical_form)
        return type(self)(ltens)
''')],
    'in-place changes of the complex conjugate of a real array',
    'a real array and its conjugate share their tensors',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
for dtype in np.complex_, np.float_:
    a = factory.random_mpa(3, 2, 2, randstate=rng, dtype=dtype)
    want = a.to_array()
    b = a.conj()
    b *= 2
    assert np.allclose(a.to_array(), want)
''')

bug('c03-reshape-same', 'C03',
    [(MPA, '''        ltens = [_local_reshape(lten, newshape)
                 for lten, newshape in zip(self._lt, newshapes)]
''', '''        newshapes = tuple(tuple(newshape) for newshape in newshapes)
        if newshapes == self.shape:
            return MPArray(self._lt)
        ltens = [_local_reshape(lten, shape)
                 for lten, shape in zip(self._lt, newshapes)]
''')],
    'reshaping to the shape the array has anyway, then changing it in place',
    'the reshaped array and the original share their tensors',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(3, 4, 2, randstate=rng)
for shape in (2, 2), (4,):
    want = a.to_array()
    b = a.reshape(shape)
    b.lt[0] = 2 * b.lt[0]
    assert np.allclose(a.to_array(), want)
''')

bug('c06-len-byte', 'C06',
    [(MPA, '''        target.attrs['canonical_form'] = self.canonical_form
''', '''        target.attrs['canonical_form'] = np.array(self.canonical_form, 'i1')
''')],
    'saving an array of more than 127 sites',
    'the canonical form of long arrays is not what was saved',
    '''
import os
import tempfile
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
for n in 5, 200:
    a = factory.random_mpa(n, 2, 2, randstate=rng)
    a.canonicalize(left=n - 2)
    with tempfile.TemporaryDirectory() as d:
        a.dump(os.path.join(d, 'a.h5'))
        b = mp.MPArray.load(os.path.join(d, 'a.h5'))
    assert tuple(b.canonical_form) == tuple(a.canonical_form)
    assert all((x == y).all() for x, y in zip(a.lt, b.lt))
''')

bug('c09-count-overflow', 'C09',
    [(MPPOVM, '''            count = (samples == out[None, :]).all(1).sum()
''', '''            count = (samples == out[None, :]).all(1).sum(dtype=np.uint16)
''')],
    'estimates from more than 65535 samples with the same outcome',
    'counts of outcomes overflow',
    '''
import numpy as np
import mpnum as mp
from mpnum import povm
p = povm.MPPovm.from_local_povm(povm.x_povm(2), 2)
for n in 10, 80000:
    s = np.zeros((n, 2), np.uint8)
    est, used = p.est_pmf_from(p, s)
    assert used == n
    assert np.allclose(est, [[1, 0], [0, 0]])
''')

# ------------------------------------------------------------ batch 4
bug('c04-normdist-negate', 'C04',
    [(MPA, '''    return norm(mpa1 - mpa2)
''', '''    # The sum is formed without a temporary copy of mpa2
    mpa2 *= -1.0
    diff = mpa1 + mpa2
    dist = norm(diff)
    mpa2 *= -1.0
    return dist
''')],
    'a distance computation that fails half-way (memory, interrupt or '
    'arguments that do not fit)',
    'a failed normdist leaves its second argument negated',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(4, 2, 2, randstate=rng)
b = factory.random_mpa(4, 2, 2, randstate=rng)
want = b.to_array()
wrong = factory.random_mpa(4, 3, 2, randstate=rng)
try:
    mp.normdist(wrong, b)
except (AssertionError, ValueError):
    pass
assert np.allclose(b.to_array(), want)
real = np.linalg.qr
import mpnum.mparray as mpa_mod
real = mpa_mod.qr


def failing(*args, **kwargs):
    raise MemoryError


mpa_mod.qr = failing
try:
    mp.normdist(a, b)
except MemoryError:
    pass
mpa_mod.qr = real
assert np.allclose(b.to_array(), want)
''')

bug('c11-direct-pending', 'C11',
    [(MPPOVM, '''        pmf = self.pmf_as_array(state, mode, eps)
        choices = rng.choice(pmf.size, n_samples, p=pmf.flat)
        for pos, c in enumerate(np.unravel_index(choices, pmf.shape)):
            out[:, pos] = c
''', '''        self._pmf = self.pmf_as_array(state, mode, eps)
        for row in out:
            choice = rng.choice(self._pmf.size, p=self._pmf.flat)
            row[:] = np.unravel_index(choice, self._pmf.shape)
''')],
    'two threads sampling different states with the same POVM directly',
    'a thread draws its samples from the distribution of the other thread',
    '''
import threading
import numpy as np
import mpnum as mp
from mpnum import povm
zero = mp.MPArray.from_kron([np.array([1., 0.])] * 3)
one = mp.MPArray.from_kron([np.array([0., 1.])] * 3)
p = povm.MPPovm.from_kron([np.array([np.diag([1., 0.]),
                                     np.diag([0., 1.])])] * 3)


def other():
    p.sample(np.random.RandomState(1), one, 4, 'direct', mode='mps')


class Rng(np.random.RandomState):
    # the other thread runs during its calls

    def choice(self, *args, **kwargs):
        out = np.random.RandomState.choice(self, *args, **kwargs)
        t = threading.Thread(target=other)
        t.start()
        t.join()
        return out


assert (p.sample(Rng(3), zero, 4, 'direct', mode='mps') == 0).all()
''')

bug('c02-norm-memo', 'C02',
    [(MPA, '''    mpa.canonicalize()
    current_lcanon, current_rcanon = mpa.canonical_form

    if current_rcanon == 1:
        return np.linalg.norm(mpa.lt[0])
    elif current_lcanon == len(mpa) - 1:
        return np.linalg.norm(mpa.lt[-1])
    else:
        raise ValueError("Normalization error in MPArray.norm")
''', '''    mpa.canonicalize()
    current_lcanon, current_rcanon = mpa.canonical_form

    if current_rcanon == 1:
        centre = mpa.lt[0]
    elif current_lcanon == len(mpa) - 1:
        centre = mpa.lt[-1]
    else:
        raise ValueError("Normalization error in MPArray.norm")
    # Normalisation asks for the norm several times
    memo = getattr(mpa, '_norm_memo', None)
    if memo is None or memo[0] != mpa.canonical_form:
        memo = mpa._norm_memo = (mpa.canonical_form, np.linalg.norm(centre))
    return memo[1]
'''), (MPA, '''            #  self._lt[lcanon] *= fact
            self._lt.update(lcanon, self._lt[lcanon] * fact)
''', '''            #  self._lt[lcanon] *= fact
            self._norm_memo = None
            self._lt.update(lcanon, self._lt[lcanon] * fact)
''')],
    'the norm of an array, an update of the local tensor at its '
    'orthogonality centre, and the norm again',
    'norm returns the norm before the update',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(4, 2, 2, randstate=rng)
a.canonicalize(right=1)
mp.norm(a)
a.lt[0] = 2 * a.lt[0]
assert np.isclose(mp.norm(a), np.linalg.norm(a.to_array()))
''')

bug('c03-pad-same', 'C03',
    [(MPA, '''        pad = [max(s, b) - s for s, b in zip(self.ranks, ranks)]
        lt = (np.pad(''', '''        pad = [max(s, b) - s for s, b in zip(self.ranks, ranks)]
        if not any(pad):
            return self
        lt = (np.pad(''')],
    'padding an array which already has the requested ranks and modifying '
    'the result in place',
    'pad_ranks returns the array itself when there is nothing to pad',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory
rng = np.random.RandomState(3)
a = factory.random_mpa(4, 2, 2, randstate=rng)
want = a.to_array()
b = a.pad_ranks(rank=2)
b *= 2
assert np.allclose(a.to_array(), want)
assert np.allclose(b.to_array(), 2 * want)
''')

bug('c09-match-memo', 'C09',
    [(MPPOVM, '''        # FIXME Refactor this method into shorter functions.
        if self.hdims != other.hdims:
''', '''        # FIXME Refactor this method into shorter functions.
        key = (id(other), tuple(exclude_dup), eps)
        memo = self.__dict__.setdefault('_matches', {})
        if key not in memo:
            memo[key] = self._match_elems(other, exclude_dup, eps)
        return memo[key]

    def _match_elems(self, other, exclude_dup=(), eps=1e-10):
        """Compute the result of :func:`match_elems`"""
        if self.hdims != other.hdims:
''')],
    'estimates whose tables of matches are modified by the caller and '
    'computed again',
    'match_elems returns the same arrays again, after the caller changed '
    'them',
    '''
import numpy as np
import mpnum as mp
from mpnum import povm
p = povm.MPPovm.from_local_povm(povm.pauli_povm(2), 2)
q = povm.MPPovm.from_local_povm(povm.x_povm(2), 2)
m, f = q.match_elems(p)
want = m.copy()
m[:] = False
f[:] = 0
m, f = q.match_elems(p)
assert (m == want).all()
''')

# ------------------------------------------------------------ batch 5
bug('c11-dense-workspace', 'C11',
    [(MPA, '''    ltens = ltens if isinstance(ltens, collections.Iterator) else iter(ltens)
    res = first = next(ltens)
    for tens in ltens:
        res = matdot(res, tens)
    if res is first:
        # Always return a writable array, even if len(ltens) == 1.
        res = res.copy()
    return res
''', '''    ltens = ltens if isinstance(ltens, collections.Iterator) else iter(ltens)
    res = next(ltens)
    for pos, tens in enumerate(ltens):
        rows, cols = res.size // tens.shape[0], tens.size // tens.shape[0]
        shape = res.shape[:-1] + tens.shape[1:]
        # Avoid repeated allocations of large arrays
        key = (pos % 2, rows, cols, np.result_type(res, tens).char)
        work = _workspaces.get(key)
        if work is None:
            work = _workspaces[key] = np.empty((rows, cols), key[-1])
        np.dot(res.reshape((rows, -1)), tens.reshape((-1, cols)), out=work)
        res = work.reshape(shape)
    # Always return a writable array which belongs to the caller.
    return res.copy()


_workspaces = {}
''')],
    'two threads converting arrays of the same shape to dense arrays',
    'a thread continues with the intermediate result of the other one',
    '''
import threading
import numpy as np
import mpnum as mp
from mpnum import factory, mparray
rng = np.random.RandomState(3)
a = factory.random_mpa(5, 2, 2, randstate=rng)
b = factory.random_mpa(5, 2, 2, randstate=rng)
want_a, want_b = a.to_array(), b.to_array()
seen = []


def tensors():
    for i in range(5):
        if i == 3:
            t = threading.Thread(target=lambda: seen.append(b.to_array()))
            t.start()
            t.join()
        yield a.lt[i]


got = mparray._ltens_to_array(tensors())[0, ..., 0]
assert np.allclose(seen[0], want_b)
assert np.allclose(got, want_a)
''')

bug('c04-var-scale', 'C04',
    [(MPA, '''        shape = self.shape
        compr = compr.ravel()
        overlap = compr._adapt_to(self.ravel(), num_sweeps, var_sites)
        compr = compr.reshape(shape)
        return compr, overlap
''', '''        shape = self.shape
        compr = compr.ravel()
        # Work with a target of order one
        lcanon, _ = self.canonical_form
        scale = np.linalg.norm(self._lt[lcanon])
        if scale == 0.0:
            scale = 1.0
        self /= scale
        overlap = compr._adapt_to(self.ravel(), num_sweeps, var_sites)
        self *= scale
        compr *= scale
        compr = compr.reshape(shape)
        return compr, overlap * scale**2
''')],
    'a variational compression which fails in the middle of its sweeps',
    'a failed variational compression leaves its argument rescaled',
    '''
import numpy as np
import mpnum as mp
from mpnum import factory, mparray
rng = np.random.RandomState(3)
a = factory.random_mpa(5, 2, 4, randstate=rng)
a *= 7.5
want = a.to_array()
real = mparray._adapt_to_add_l


def failing(*args, **kwargs):
    raise MemoryError


mparray._adapt_to_add_l = failing
try:
    a.compression('var', rank=2, num_sweeps=2, randstate=rng)
except MemoryError:
    pass
else:
    real_tensordot = np.tensordot
    raise SystemExit('not reached')
finally:
    mparray._adapt_to_add_l = real
assert np.allclose(a.to_array(), want)
''')
