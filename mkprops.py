"""Regenerates properties.jsonl (the single source of the property texts)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))
MA, MS, MM = 'mpnum/mparray.py', 'mpnum/mpstruct.py', 'mpnum/mpsmpo.py'
FA, LI, SP = 'mpnum/factory.py', 'mpnum/linalg.py', 'mpnum/special.py'
PO, LP, EX = 'mpnum/povm/mppovm.py', 'mpnum/povm/localpovm.py', 'mpnum/utils/extmath.py'

p('C01', 'The reported canonical form and the bond structure are always true',
  "At every moment - between operations, between two steps of a lazily consumed iterator, and after an operation that failed - "
  "the canonical form (l, r) an array reports is true: every local tensor before l is left-isometric, every one from r on is right-isometric, "
  "neighbouring bond dimensions agree and the outer ones are 1. "
  "This holds for arrays that were built, derived from other arrays (transpose, reshape, scaling, leg/bond conversion, splitting, copying, loading, ...) "
  "or changed in place (canonicalise, compress, scale, explicit tensor updates with or without a canonical flag), and a canonicalisation request "
  "ends in a form at least as canonical as requested.",
  ['histories', 'fault_sequences'],
  "every history of constructing, deriving, in-place changing and partially failed operations on arrays of any length, shape, dtype and gauge",
  "The tests call each operation once from a fresh random array and check the form for a few fixed targets; the form after a history (derive from a partly canonical array, update next to a canonical block, convert a leg after canonicalising) and after a failed operation is never reached.",
  [MS, MA], [('canonical-form bookkeeping on every tensor update', MS + ':LocalTensors._update/update'),
             ('sweeps that report what they established', MA + ':MPArray._rcanonicalize/_lcanonicalize/_compress_svd_*'),
             ('derived arrays inherit an adjusted form', MA + ':T/conj/__mul__/reshape/vleg2leg/leg2vleg/split')],
  [dict(name='(left, right) canonical counters', meaning='how many local tensors from each end are known isometries', where=MS)],
  ['MPArray.canonical_form', 'MPArray.lt', 'MPArray.ranks'])

p('C02', 'Arrays behave as the tensors they represent, whatever their history',
  "After any history of operations, every public operation on an array gives (up to floating-point rounding) the same result as the textbook dense operation on the "
  "tensors its operands represent, independent of gauge, ranks, dtype mix and how the operands came about. "
  "Operations documented as only changing the representation (canonicalisation, norm, singular values, loss-free compression, rank padding, site grouping/splitting, leg/bond conversion, tensor updates that are gauge transformations) never change the represented tensor. "
  "In-place scaling and tensor updates change exactly the array they are applied to and exactly as their dense counterparts do.",
  ['histories', 'inputs'],
  "every history of public operations by several clients sharing a heap of arrays, of any length (including one site), local shape, rank, dtype and gauge",
  "The tests compare single operations with dense results for a handful of shapes on freshly generated arrays; results that depend on hidden state left by earlier operations (gauge, canonical claims, shared tensors, rank deficiency) are not sampled.",
  [MA, MS, MM, SP, FA], [('local-tensor algebra', MA + ':dot/partialdot/sumup/inner/chain/inject/local_sum/partialtrace/...'),
                         ('gauge changes', MA + ':canonicalize/norm/singularvals'),
                         ('state conversions', MM)],
  observe=['MPArray.to_array', 'inner/norm/trace/sandwich return values', 'MPArray.shape'])

p('C03', 'No operation changes any other array, its arguments or handed-out data',
  "Arrays are independent values: an operation never changes the tensor represented by any array other than the one it is documented to modify, not even by arrays that were derived from it or from which it was derived. "
  "Arguments (start vectors, states, operators, summands, user-supplied numpy arrays) keep their value, dense arrays handed out are private to the caller and writable, and local tensors handed out are read-only views.",
  ['histories'],
  "every history in which arrays are derived from one another (and so share memory) and then used, scaled, canonicalised, compressed, updated or written to in any order by several clients",
  "The tests check one operation at a time and hardly ever look at a second array that shares memory with the operand; the number of derive/modify orders is unbounded.",
  [MA, MS, MM, PO], [('never write into a local tensor; replace it', MA + ':__imul__, ' + MS + ':update'),
                     ('read-only views', MS + ':_roview'), ('defensive copies', MA + ':copy/compression/_ltens_to_array')],
  observe=['to_array of every live array', 'bytes of every user-supplied ndarray', 'flags.writeable of handed-out arrays'])

p('C04', 'A failed or interrupted operation leaves every array usable and correct',
  "If an operation fails part-way - a decomposition does not converge, memory runs out, a user callback (SVD routine, local eigensolver, random generator) raises, the user interrupts a numerical kernel, or the arguments are rejected - "
  "then every array still represents the tensor it represented before, apart from the target of the failed in-place operation, which holds its old tensor or the operation's result. "
  "The target of a failed lossy compression holds a tensor no farther from the original than the discarded singular values allow, with a correct canonical form, and repeating the operation afterwards gives the correct result.",
  ['fault_sequences', 'histories'],
  "every operation, every point inside it at which a numerical kernel, allocation or callback can fail, every following history",
  "No test injects a failure; kernels never fail on the well-conditioned test inputs.",
  [MA, MS, LI, MM, PO], [('compute both new tensors before replacing either', MA + ':_rcanonicalize/_lcanonicalize/_compress_svd_*'),
                 ('variational compression builds a new array and swaps it in', MA + ':compress'),
                 ('checks before update', MS + ':update')],
  observe=['all live arrays after the exception', 'result of the retried operation'])

p('C05', 'Compression respects its rank, error and overlap guarantees',
  "For every array, gauge, direction, SVD routine and random start, compression returns an array c within the requested rank for which the returned number equals both <u|c> and <c|c>; "
  "SVD compression additionally equals the sequential truncation of the dense tensor, keeps the requested fraction of singular values, and errs by at most the root of the summed squares of the discarded singular values. "
  "Variational compression that varies one or two sites at a time never does worse with more sweeps nor (if the start vector has the target rank) worse than its start vector, and a randomised SVD returns isometries, descending singular values and the optimal truncation up to its oversampling guarantee for every random stream.",
  ['histories', 'inputs', 'configurations'],
  "every history leading to the array to be compressed (its gauge and claimed canonical form), every parameter combination, every random stream feeding random starts and randomised SVDs",
  "The tests compress freshly drawn arrays with one random stream; truncation decisions depend on the gauge history and the random draws.",
  [MA, EX, SP], [('canonicalise before truncating', MA + ':_compress_svd'), ('alternating sweeps', MA + ':_adapt_to'),
                 ('range finder with power iterations', EX + ':randomized_svd')],
  observe=['compress/compression return values', 'ranks', 'dense distance to the original'])

p('C06', 'Saved arrays load back exactly, and failed saves never yield wrong data',
  "An array whose save completed loads back identically - same local tensors bit for bit, same dtypes, same canonical form, for any number of sites and whether it was saved to a file or to a group among others - and the loaded array is independent of the file. "
  "If a save or load is cut short by an I/O error, a full disk, an already occupied target or a process crash, then every array saved earlier elsewhere in the file still loads exactly when the file was closed, and loading the interrupted target either raises an error or returns an array that was actually saved there, never a mixture.",
  ['crash_points', 'fault_sequences', 'histories'],
  "every array, every history of saves and loads to files and groups, every write at which the disk can fail or the process can die (writes reaching the disk in order)",
  "The two save/load tests use one array each and inject no faults.",
  [MA], [('serialisation of tensors and form', MA + ':MPArray.dump'), ('eager deserialisation', MA + ':MPArray.load')],
  observe=['arrays returned by load', 'exceptions from dump/load'])

p('C07', 'Given a random generator, results depend on nothing else',
  "Every function that accepts a random generator (random arrays, states, operators and Hamiltonians, variational compression, randomised SVD, eigenvalue search, POVM sampling) draws only from that generator: the result is a function of the arguments and the generator's state, "
  "the process-wide generator is neither read nor disturbed, and neither other threads' draws nor the order in which independent computations are interleaved change any result. "
  "Without a generator, only numpy's process-wide generator is used, so seeding it makes the result reproducible.",
  ['schedules', 'histories', 'inputs'],
  "every interleaving of independent computations and of draws from the process-wide generator, every argument combination and seed",
  "The tests use one generator in one thread and never perturb or inspect the process-wide generator.",
  [FA, MA, EX, LI, PO], [('generator passed down to every draw', FA + ':_randn/_zrandn/_unitary_haar, ' + EX + ':_standard_normal')],
  observe=['results', 'np.random.get_state() before/after'])

p('C08', 'Measurement sampling follows the exact outcome probabilities',
  "For every state, in every representation (pure, mixed, purified) and by every implementation, the outcome probabilities reported for a matrix-product POVM equal the Born rule on the dense state and form a probability distribution. "
  "Whatever the random draws are, the probability with which the sampler produces an outcome sequence (any method, any number of sites sampled at a time, any POVM in a list) equals the reported probability of that sequence, every sample lies in the outcome space, and sampling leaves the state and POVM unchanged.",
  ['schedules', 'inputs', 'configurations'],
  "every sequence of random draws the generator can produce, every POVM, state, method and grouping",
  "The tests compare sample frequencies with loose statistical bounds for one stream; unlikely draws are never taken.",
  [PO, MM, LP], [('conditional sampling from marginals', PO + ':_sample_cond/_sample_cond_single'),
                 ('direct sampling', PO + ':_sample_direct'), ('PMF contraction paths', PO + ':_pmf_as_array_pmps_symm/_ltr, expectations')],
  observe=['probability vectors passed to the generator', 'samples', 'pmf/pmf_as_array/expectations'])

p('C09', 'Estimates are exactly the empirical averages of the delivered samples',
  "Whatever samples were delivered, in whatever order, batching, multiplicity or packing, the estimated probabilities, estimated linear functions and their variances equal the textbook empirical averages (and unbiased variance estimates) over exactly that multiset of samples, "
  "with samples of one POVM counted for another POVM exactly where the corresponding elements coincide up to a factor, weighted by the number of samples. "
  "The exact counterparts (true expectation values and variances) equal the dense Born-rule values, and an estimate is reported as unavailable exactly if some needed probability cannot be obtained from the available POVMs. "
  "An estimate is refused, not distorted, where its documented consistency condition (probabilities summing to the stated fraction of the identity) cannot be met.",
  ['histories', 'fault_sequences', 'inputs'],
  "every history of sample deliveries (loss, duplication, reordering, batching, repacking) from several measurement stations, every POVM pair or list",
  "The tests compare against statistics of one random sample set within loose bounds.",
  [PO], [('element matching', PO + ':match_elems'), ('estimators', PO + ':est_pmf/est_lfun/est_pmf_from/est_pmf_from_mpps/est_lfun_from'),
         ('true values', PO + ':lfun/lfun_from')],
  observe=['estimator return values'])

p('C10', 'Lazy iterators give the right items however their use is interleaved',
  "Iterators over reduced states, singular values, sub-arrays, expectation values, outcome distributions and samples yield exactly the items that belong to the array's tensor, no matter how their consumption is interleaved with representation-only operations on the same array (canonicalisation, norm, other iterators over it) and with other iterators, "
  "and items already handed out stay valid. "
  "Consuming an iterator partly, abandoning it or consuming it twice in parallel never changes the tensor represented by the array it iterates over.",
  ['schedules', 'histories'],
  "every interleaving of steps of any number of open iterators with representation-only operations, early abandonment at any step",
  "The tests always exhaust one iterator at a time without touching the source in between.",
  [MM, MA, PO], [('reduction generators', MM + ':reductions_mpo/reductions_pmps/reductions_mps_as_*'),
                 ('singular values', MA + ':singularvals'), ('axis iteration', MA + ':axis_iter'),
                 ('expectation generators', PO + ':expectations/pmf/block_pmfs_as_array/sample')],
  observe=['yielded items', 'the source array after every step'])

p('C11', 'Concurrent clients sharing arrays get the same results as if run alone',
  "Threads that share arrays and use them only through operations not documented as modifying their operands (arithmetic, contraction, conversion, inner products, compression into a new array, measurement probabilities, eigenvalue search, ...), while freely modifying arrays of their own - even ones derived from the shared arrays - all obtain the results they would obtain running alone. "
  "The shared arrays are not changed, and a thread that is stalled or dies in the middle of an operation does not affect the others.",
  ['schedules', 'fault_sequences'],
  "every preemption point inside every operation, every number of threads, every shared/derived object graph",
  "All tests are single-threaded.",
  [MA, MS, MM, LI, PO, EX], [('no shared mutable state; replaced, never overwritten local tensors', MS + ', ' + MA)],
  observe=['results per thread', 'shared arrays afterwards'])

p('C12', 'Eigenvalue search returns a consistent, variational eigenpair',
  "For every operator (or sum of operators and projectors), start vector, random stream and local solver behaviour, the local problem posed to the solver at each step has the current vector's energy as the solver's start energy, and, when no truncation is needed, the returned value equals the returned normalised vector's expectation value. "
  "The value never passes the exact extremal eigenvalue, does not get worse from one local step to the next or with more sweeps when the solver is exact, and equals the exact extremal eigenvalue when the rank suffices. "
  "A solver failure propagates without changing operator or start vector.",
  ['schedules', 'fault_sequences', 'inputs'],
  "every operator, number of sites, sweep count, number of sites varied, start vector, random stream and sequence of answers or failures of the local solver",
  "The tests run one random stream with the library solver and check the final number only.",
  [LI, MA], [('sweeps with cached environments', LI + ':eig/eig_sum'), ('environment updates', LI + ':_eig_leftvec_add/_eig_rightvec_add/_eig_*_mps')],
  observe=['(eigval, eigvec) returned', 'operators passed to the local solver'])

p('C13', 'Local/global layout conversion of dense arrays is a lossless reordering',
  "Converting a dense array between the layout grouped by site and the layout grouped by leg only permutes entries, puts every entry at the documented position and the two conversions are inverse to each other.",
  ['inputs'], "every dense array, number of sites and skipped axes",
  "Doctests check shapes of a few arrays.", ['mpnum/utils/array_transforms.py'],
  [('axis permutation', 'mpnum/utils/array_transforms.py')])

p('C14', 'The local measurements provided are valid POVMs',
  "The X, Y, Z and Pauli measurements provided for any local dimension consist of positive semidefinite elements summing to the identity, are informationally complete where claimed, and linear inversion recovers the state.",
  ['inputs'], "every local dimension",
  "Tests cover a few dimensions.", [LP], [('constructors', LP)])

p('C15', 'Model Hamiltonian helpers agree with each other and with the analytic energy',
  "For every chain length and asymmetry, the matrix-product and sparse forms of the cyclic XY Hamiltonian represent the same operator and its smallest eigenvalue is the analytic ground-state energy where that formula applies.",
  ['inputs'], "every chain length and asymmetry parameter",
  "Tests cover a few sizes.", ['mpnum/utils/physics.py'], [('constructors', 'mpnum/utils/physics.py')])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
