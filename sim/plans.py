"""Per-property search plans: which world, which configuration, how many."""

PLANS = {}


class Prop(object):
    def __init__(self, plan, quick, thorough, batch, level, rule, real, stub,
                 assumptions, worlds, technique, note):
        self.plan, self.quick, self.thorough = plan, quick, thorough
        self.batch, self.level, self.rule = batch, level, rule
        self.real, self.stub, self.assumptions = real, stub, assumptions
        self.worlds = worlds
        self.technique, self.note = technique, note


KINDS = ['no-convergence', 'out-of-memory', 'interrupt']


def array_cfg(rng, index, tier, weights, fault_rates, mean=6, steps=(20, 35),
              default=True, kinds=None):
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    if tier == 'thorough' and rng.random() < 0.2:
        n = rng.choice([6, 7, 8])
    dims = [rng.choice([2, 2, 2, 3]) for _ in range(3)]
    if rng.random() < .06:
        # long chains
        n, dims = rng.choice([7, 8, 9, 10, 11, 12]), [2, 2, 2]
        kinds = [['mps'], ['mps', 'mps1'], ['mps', 'thin'], ['thin', 'mps1']]
    return dict(
        n=n, dims=dims,
        kinds=rng.choice(kinds or [
            ['mps', 'mpo', 'pmps'], ['gen', 'const', 'mps'], ['mps', 'mpo'],
            ['mps', 'mps1', 'mpo', 'three', 'gen', 'const', 'pmps']]),
        dtypes=rng.choice(['f', 'c', 'fc', 'fc', 'fci']),
        steps=rng.randint(*steps) * (2 if tier == 'thorough'
                                     and rng.random() < .3 else 1),
        min_handles=2, max_handles=rng.choice([5, 9, 12]), weights=weights,
        default=default, fault_rate=rng.choice(fault_rates),
        fault_kinds=KINDS, fault_mean=mean)


ARRAY_REAL = ['mpnum (all of it, from /repo)', 'numpy/scipy kernels']
ARRAY_STUB = ['numpy/scipy kernel calls pass through a shim that can make the '
              'n-th call of an operation fail', 'user callbacks (SVD '
              'routines, generators) are simulator-provided']
ARRAY_ASSUME = [
    'arrays of up to 6 sites (8 in the thorough tier; now and then up to 12), '
    'dense size <= 4096, ranks <= 40; real and complex double precision, '
    'integers',
    'floating-point tolerance 1e-9 relative to the product of the norms of '
    'the local tensors (1e-7 for isometry checks)']


ARRAY_NOTE = (
    'Seeded search, not exhaustive. Every operation of every explored history '
    'is checked against a dense reference model of every live array. Trusts '
    'numpy/scipy kernels and the dense model; small sizes only.')


def _reg(name, plan, quick, thorough, **kw):
    d = dict(batch=25, level='exploration', rule='', real=ARRAY_REAL,
             stub=ARRAY_STUB, assumptions=ARRAY_ASSUME, worlds='array',
             technique='deterministic simulation with fault injection: seeded '
             'search over operation histories and kernel faults, checked '
             'against a dense reference model', note=ARRAY_NOTE)
    d.update(kw)
    PLANS[name] = Prop(plan, quick, thorough, **d)


STATE_RULE = ('An evaluation is one applied operation (or iterator step) after'
              ' which every live array was compared with its dense shadow. '
              'Cases are distinct by (operation, outcome incl. fault kind, '
              'length class, canonical-form class, dtype mix, rank class, '
              'legs per site, open iterators) of the first operand; in '
              'episodes of the other worlds (eigenvalue search, measurement) '
              'by what those worlds list. Operations that did not apply are '
              'not counted.')


def other_worlds(rng, index, tier, eig=0, measure=0, stations=0, faults=None):
    """Now and then an episode of another world, or None."""
    x = rng.random()
    for share, plan in ((eig, c12), (measure, c08), (stations, c09)):
        if x < share:
            world, cfg = plan(rng, index, tier)
            if faults is not None:
                cfg['fault_rate'] = rng.choice(faults)
            return world, cfg
        x -= share
    return None


def c01(rng, index, tier):
    other = other_worlds(rng, index, tier, eig=.04)
    if other:
        return other
    w = dict(update=4, update_slice=4, canonicalize=4, leg2vleg=3, vleg=3,
             imul=3, mul=3, compress=3, pad_ranks=1, reshape=2, transpose=2,
             get=.5, dot=1, group_sites=2.5, split_sites=1, lt_copy=1,
             iter_open=.7, convert=.5, reload=.6)
    return 'array', array_cfg(rng, index, tier, w, [0, 0, 0, .3], 4)


def c02(rng, index, tier):
    return 'array', array_cfg(rng, index, tier, {}, [0, 0, 0, 0, .2])


def c03(rng, index, tier):
    other = other_worlds(rng, index, tier, eig=.08, measure=.12, stations=.05)
    if other:
        return other
    w = dict(imul=4, update=3, update_slice=2, canonicalize=3, compress=3,
             views=2, to_array=2, get=1.5, transpose=1.5, reshape=1.5,
             vleg=1.5, compress_var=1.5, mul=2, lt_copy=.6, iter_open=.7,
             convert=1.5, sum=1.5, prune=1.2, special_sumup=.8)
    return 'array', array_cfg(rng, index, tier, w, [0, 0, 0, .2])


def c04(rng, index, tier):
    other = other_worlds(rng, index, tier, eig=.06, measure=.08,
                         stations=.03, faults=[.4, .7])
    if other:
        return other
    w = dict(canonicalize=3, compress=4, compress_var=2, imul=1.5,
             update_slice=2, norm=2, singularvals=1.5, iter_open=1,
             convert=1.2, local_sum=1, reject=1, randomized_svd=.5)
    return 'array', array_cfg(rng, index, tier, w, [.3, .6, .6], rng.choice(
        [2, 4, 10]))


def c05(rng, index, tier):
    w = dict(compress=10, compress_var=7, randomized_svd=4, update=1.5,
             canonicalize=3, add=2, imul=1, new=1.2, pad_ranks=1,
             singularvals=.5)
    return 'array', array_cfg(rng, index, tier, w, [0, 0, 0, .2])


def c10(rng, index, tier):
    if rng.random() < .2:
        world, cfg = c08(rng, index, tier)
        cfg['weights'] = dict(expectations=6, list=4, iter_next=16, regauge=4)
        cfg['steps'] *= 2
        return world, cfg
    w = dict(iter_open=7, iter_next=22, iter_close=1.2, canonicalize=5,
             norm=3, singularvals=1.5, new=1.2, compress=.8, imul=1,
             transpose=.6, to_array=.4, update=.5)
    kinds = [['mps', 'mpo', 'pmps'], ['mps'], ['pmps', 'mpo'],
             ['mps', 'mps1', 'pmps', 'mpo', 'gen']]
    return 'array', array_cfg(rng, index, tier, w, [0, 0, 0, .1],
                              steps=(30, 50), default=rng.random() < .5,
                              kinds=kinds)


_reg('C01', c01, 3200, 40000, rule=STATE_RULE, worlds='array eig')
_reg('C02', c02, 3600, 50000, rule=STATE_RULE)
_reg('C03', c03, 3200, 40000, rule=STATE_RULE, worlds='array eig povm')
_reg('C04', c04, 3200, 40000, rule=STATE_RULE, worlds='array eig povm',
     level='fault_enumeration')
_reg('C05', c05, 1600, 25000, rule=STATE_RULE)
_reg('C10', c10, 1600, 25000, rule=STATE_RULE, worlds='array povm')


# -- client threads ---------------------------------------------------------
STYLES = [('burst', 1.5), ('burst', 6), ('mixed', 8), ('mixed', 40),
          ('burst', 30), ('mixed', 150), ('burst', 300)]


def c11(rng, index, tier):
    n = rng.choice([2, 3, 3, 3, 4])
    return 'threads', dict(
        n=n, d=2 if n > 2 else rng.choice([2, 2, 3]),
        threads=rng.choice([2, 2, 3, 4]), len=rng.choice([2, 4, 6]),
        twin=rng.choice([None, 'same', 'focus', 'duel', 'duel']),
        style=rng.choice(STYLES), shared=rng.getrandbits(31),
        kill_rate=.2, kill_mean=rng.choice([30, 200, 800]))


def c07(rng, index, tier):
    return 'random', dict(
        n=2, d=2, threads=rng.choice([1, 2, 3]), len=rng.choice([2, 3, 5]),
        twin=rng.choice([None, 'same', 'focus', 'duel']), style=rng.choice(STYLES),
        shared=rng.getrandbits(31), kill_rate=.1, kill_mean=200)


THREAD_RULE = (
    'An evaluation is one library operation of one client thread whose '
    'outcome was compared with the outcome of the same script run alone. '
    'Cases are distinct by (operation, number of threads, position, outcome, '
    'scheduling style, number of sites, operations the other clients are '
    'running at that position).')
THREAD_REAL = ['mpnum (all of it, from /repo)', 'numpy/scipy',
               'operating-system threads']
THREAD_STUB = ['thread scheduler: every source line inside mpnum is a '
               'scheduling point, one thread runs at a time']
THREAD_ASSUME = [
    'preemption between source lines of mpnum (not inside numpy kernels, nor '
    'between byte codes of one line)',
    'arrays of 2-4 sites, 2-4 threads, 2-6 operations each']
THREAD_NOTE = (
    'Seeded search over interleavings with real threads; the oracle is the '
    'same script run alone. Preemption points are the source lines of mpnum; '
    'numpy kernels are atomic.')
_reg('C11', c11, 1200, 30000, rule=THREAD_RULE, worlds='thread', batch=20,
     real=THREAD_REAL, stub=THREAD_STUB, assumptions=THREAD_ASSUME,
     technique='deterministic simulation: seeded line-level scheduling of '
     'real client threads with stalls and thread death, compared with the '
     'same clients run alone', note=THREAD_NOTE)
_reg('C07', c07, 1200, 30000, rule=THREAD_RULE, worlds='thread', batch=20,
     real=THREAD_REAL, stub=THREAD_STUB + [
         'process-wide random generators are perturbed by a simulated client'],
     assumptions=THREAD_ASSUME,
     technique='deterministic simulation: seeded interleaving of client '
     'threads with their own random streams and a client disturbing the '
     'process-wide generators', note=THREAD_NOTE)


# -- measurements -----------------------------------------------------------
STATE_KINDS = ['mps', 'mps', 'mps-real', 'mps-ghz', 'mps-basis', 'pmps',
               'pmps', 'pmps-basis', 'pmps-ghz', 'mpdo', 'mpdo', 'mpdo-ghz',
               'mpdo-real', 'pmps-real']


def _names(rng, n, limit, pool):
    while True:
        names = [rng.choice(pool) for _ in range(n)]
        size = 1
        for x in names:
            size *= {'pauli': 6, 'random': 4, 'eye': 1, 'many': 255}.get(x, 3)
        if size <= limit and any(x != 'eye' for x in names):
            return names


def c08(rng, index, tier):
    n = rng.choice([1, 2, 2, 3, 3, 3, 4] + ([5] if tier == 'thorough' else []))
    dims = [rng.choice([2, 2, 3])] * n
    if rng.random() < .3:
        dims = [rng.choice([2, 3]) if n < 4 else 2 for _ in range(n)]
    if n >= 4:
        dims = [2] * n
    pool = ['x', 'x', 'y', 'z', 'pauli', 'random', 'random', 'eye', 'basis']
    first = _names(rng, n, 300, pool)
    if n <= 3 and rng.random() < .07:
        first = ['eye'] * n
        first[rng.randrange(n)] = 'many'
        if n > 1 and rng.random() < .7:
            first[rng.choice([i for i in range(n) if first[i] == 'eye'])] = \
                rng.choice(['x', 'y', 'basis'])
    povms = [first] + [_names(rng, n, 300, pool)
                       for _ in range(rng.choice([1, 2]))]
    if rng.random() < .4:
        # the same outcomes with other elements: can be mixed
        povms.append([{'x': 'y', 'y': 'x', 'z': 'x', 'basis': 'y'}.get(a, a)
                      for a in first])
    return 'measure', dict(
        dims=dims, states=[rng.choice(STATE_KINDS)
                           for _ in range(rng.choice([2, 3]))],
        povms=povms, mix=1, rank=rng.choice([1, 2, 3]),
        seed=rng.getrandbits(31), steps=rng.randint(15, 30),
        fault_rate=rng.choice([0, 0, .15]))


def c09(rng, index, tier):
    n = rng.choice([1, 2, 2, 2, 3])
    dims = [rng.choice([2, 2, 3])] * n
    if rng.random() < .2:
        dims = [rng.choice([2, 3]) for _ in range(n)]
    pool = rng.choice([['x', 'y', 'z'] if max(dims) == 2 else ['x', 'y'],
                       ['x', 'y', 'pauli'], ['x', 'y', 'eye', 'pauli'],
                       ['x', 'basis', 'random', 'eye'],
                       ['x', 'weak', 'eye']])
    S = rng.choice([1, 2, 3, 4])
    if rng.random() < .3 and max(dims) == 2:
        # a tomographically complete set of settings
        base = ['x', 'y', 'z']
        stations = [[b] * n for b in base] + [
            [rng.choice(base) for _ in range(n)] for _ in range(S)]
    else:
        stations = [_names(rng, n, 40, pool) for _ in range(S)]
    tpool = pool + ['pauli', 'eye']
    targets = []
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < .5:
            # measure some sites the way one of the stations does
            b = list(rng.choice(stations))
            for i in range(n):
                if rng.random() < .4:
                    b[i] = rng.choice(['eye', 'eye', 'pauli', b[i]])
            if all(x == 'eye' for x in b):
                b[0] = 'x'
            targets.append(b)
        else:
            targets.append(_names(rng, n, 40, tpool))
    return 'stations', dict(
        dims=dims, stations=stations, targets=targets,
        state=rng.choice(STATE_KINDS), seed=rng.getrandbits(31),
        steps=rng.randint(25, 50), loss=rng.choice([0, .2, .5]),
        dup=rng.choice([0, .2, .5]), fault_rate=rng.choice([0, 0, 0, .1]))


POVM_REAL = ['mpnum (all of it, from /repo)', 'numpy/scipy kernels']
POVM_ASSUME = ['1-4 sites (5 in the thorough tier), local dimension 2-3, at '
               'most 1500 outcomes per POVM', 'tolerance 1e-8']
_reg('C08', c08, 1800, 40000, worlds='povm', real=POVM_REAL,
     stub=['the random generator handed to the sampler: the simulator decides '
           'every draw', 'numpy kernels pass through a fault shim'],
     assumptions=POVM_ASSUME + [
         'the simulated generator avoids draws of probability below 0.002, '
         'where conditional probabilities lose precision'],
     rule='An evaluation is one measurement operation compared with the dense '
     'Born rule. Cases are distinct by (operation, outcome incl. fault kind, '
     'sites, local dimensions, representation and rank of the state, largest '
     'outcome dimension, unmeasured sites).',
     technique='deterministic simulation: the simulator decides every random '
     'draw of the sampler and injects kernel and generator failures; exact '
     'law compared with the dense Born rule',
     note='Seeded search over states, POVMs, methods, draws and faults. The '
     'probability of every sampled path is compared exactly, not '
     'statistically. Trusts the dense model and numpy.')
_reg('C09', c09, 1600, 40000, worlds='povm', real=POVM_REAL,
     stub=['network between measurement stations and the estimating client '
           '(loss, duplication, reordering, delay, batching, packing)',
           'numpy kernels pass through a fault shim'],
     assumptions=POVM_ASSUME + [
         'stations with exactly one sample are not used for variances '
         '(undefined)'],
     rule='An evaluation is one estimator call (or message) compared with the '
     'textbook formula over the delivered multiset of samples. Cases are '
     'distinct by (operation, outcome, sites, stations, samples per station '
     'capped at 2, targets, argument class).',
     technique='deterministic simulation: measurement stations, lossy '
     'network and estimating client; textbook estimators over the delivered '
     'samples as reference model',
     note='Seeded search over POVM lists, delivery histories and arguments. '
     'Trusts the dense model and numpy.')


# -- disk --------------------------------------------------------------------
def c06(rng, index, tier):
    long = rng.random() < .06
    return 'disk', dict(
        steps=8 if long else rng.randint(10, 20) * (
            2 if tier == 'thorough' and rng.random() < .3 else 1),
        lens=[2, 3, 11, rng.choice([64, 130, 257, 300])] if long else
        rng.choice([[1, 2, 3], [1, 2, 4, 6], [2, 3, 11, 12], [1, 5, 13, 23]]),
        big=not long and rng.random() < .15, seed=rng.getrandbits(31),
        h5_rate=rng.choice([0, .3, .5]), io_rate=rng.choice([0, .2, .4]))


_reg('C06', c06, 640, 16000, worlds='disk', batch=16, level='fault_enumeration',
     real=['mpnum (all of it, from /repo)', 'h5py and the HDF5 library',
           'the file system for undisturbed saves and loads'],
     stub=['the file below HDF5 during disturbed saves and loads (errors, '
           'full disk, torn writes, process death)',
           'h5py calls pass through a shim that can make the n-th call of a '
           'save or load fail'],
     assumptions=['a crash is the death of the process: writes handed to the '
                  'operating system survive in order, the last one may be '
                  'torn (power loss with reordered writes is not covered, '
                  'HDF5 gives no guarantee there)',
                  'arrays of 1-23 sites (now and then up to 300), 2 files, '
                  '8 groups'],
     rule='An evaluation is one save, load, session or change in memory, '
     'after which every group ever saved to in the file was loaded and '
     'compared bit for bit. Cases are distinct by (operation, outcome incl. '
     'fault kind, kinds of actions and occupied targets, array length class, '
     'state of the files).',
     technique='deterministic simulation with fault injection: seeded search '
     'over save/load histories with h5py errors, I/O errors, full disk, torn '
     'writes and process death below HDF5; reference model of what each file '
     'must or may contain',
     note='Seeded search over histories and fault points; loads are compared '
     'bit for bit. Process crash, not power loss. Trusts HDF5 to keep closed '
     'files intact.')


# -- eigenvalue search -----------------------------------------------------
def c12(rng, index, tier):
    dims = rng.choice([[2] * 2, [2] * 3, [2] * 3, [2] * 4, [3] * 3, [2, 3, 2],
                       [3, 2, 2], [2, 2, 3, 2]] + (
                           [[2] * 5, [2] * 6, [3] * 4]
                           if tier == 'thorough' else [[2] * 5]))
    return 'eig', dict(dims=dims, steps=rng.randint(6, 14),
                       seed=rng.getrandbits(31),
                       fault_rate=rng.choice([0, .2, .4]))


_reg('C12', c12, 1600, 40000, worlds='eig',
     real=['mpnum (all of it, from /repo)', 'numpy/scipy kernels'],
     stub=['the local eigensolver handed to the search (exact, lazy, '
           'adversarial, malformed, failing, re-entrant)',
           'numpy kernels pass through a fault shim'],
     assumptions=['2-5 sites (6 in the thorough tier), local dimensions 2-3, '
                  'dense operators up to 81 x 81', 'tolerance 1e-7 relative '
                  'to the norm of the operator; truncated steps may change '
                  'the energy by what the discarded weight allows'],
     rule='An evaluation is one search, of which every local problem was '
     'compared with the dense operator (spectrum, energy of the start '
     'vector, norm). Cases are distinct by (function, solver behaviour, '
     'outcome incl. fault kind, number of operators and projectors, sites '
     'varied, sweeps, kind of start vector, dimensions, local steps).',
     technique='deterministic simulation with fault injection: the local '
     'eigensolver is a simulated party (exact, lazy, adversarial, failing, '
     're-entrant) watching every local problem; dense operator as oracle',
     note='Seeded search over operators, start vectors, solver behaviours '
     'and faults. Small systems only; trusts numpy.')
