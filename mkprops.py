"""Generates properties.jsonl (run by hand; the .jsonl is what is committed)."""
import json
import os
HERE=os.path.dirname(os.path.abspath(__file__))
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
  assert len(title)<=80,(id,len(title))
  P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
    anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
LUT=['e3x/so3/_lookup_table_generation_utility.py','e3x/so3/_clebsch_gordan_lut.py','e3x/so3/_wigner_d_lut.py','e3x/so3/_spherical_harmonics_lut.py','e3x/so3/_tensor_conversion_lut.py']
API=['e3x.so3.spherical_harmonics','e3x.so3.solid_harmonics','e3x.so3.clebsch_gordan','e3x.so3.clebsch_gordan_for_degrees','e3x.so3.wigner_d','e3x.so3.tensor_to_irreps','e3x.so3.irreps_to_tensor']
U='e3x/so3/_lookup_table_generation_utility.py'
cache=('cache file','compressed .npz with max_degree and the non-zero coefficients','path in e3x.Config.<table>_cache')
pkg=('shipped table','pre-computed .npz inside the installed package','e3x/so3/_*_lut.npz')
p('C01','Where coefficients come from never changes a result',
 'Every public function that needs coefficient tables (spherical and solid harmonics, Clebsch-Gordan, Wigner-D, tensor/irrep conversion) returns the same, mathematically correct values whether the coefficients come from the tables shipped with the package, from a user-configured disk cache, from a cache or shipped table that only partly covers the requested degree, or are generated on the fly. This holds after every history of requests at varying degrees, cache paths being set, switched, shared between tables or cleared, cache files being deleted or replaced by older ones, and process restarts. No such history makes a call fail.',
 ['histories','inputs','configurations'],'all sequences of lookups (table, degree, ordering, normalization, precision), cache re-configurations, file removals and restarts, over all initial cache/shipped-table states',
 'The unit tests only use a fresh dummy cache at degrees 0..2 (two of the four incremental tests compute np.allclose without asserting it), never slice a larger cache, never extend one across a restart and never switch paths.',
 LUT+['e3x/so3/irreps.py','e3x/so3/rotations.py','e3x/config.py'],
 [('load, slice or extend the stored table',LUT[1]+':_load_from_cache (and siblings)'),('generate only the missing degrees',LUT[1]+' and siblings')],[cache,pkg],API)
p('C02','A crash at any instant never poisons or loses a disk cache',
 'If a process is killed at any instant while it loads, generates or saves a table, every later process that uses the same cache path gets correct results without an error, and a table that had been completely stored before the crash is still stored (or superseded by a complete one). After a power loss that drops or tears writes which were not flushed, later processes still get correct results without an error.',
 ['crash_points','schedules','histories'],'every kill point (each file operation and each executed line), every subset of unsynced blocks lost at a power failure, any history of lookups before and after, several processes sharing the path',
 'No test kills a process or inspects a half-written cache; the crash point is a quantifier over hundreds of instants per save.',
 LUT,[('write aside, then atomically replace',U+':_save_lookup_table_to_disk'),('fall back when the stored table cannot be read',U+':_load_lookup_table_from_disk')],[cache],API)
p('C03','Processes and threads sharing a cache file never disturb each other',
 'Any number of processes and threads may look up, generate and store tables through the same cache path at the same time: every call returns correct values and none fails, whatever the interleaving, including a file that disappears or is replaced between two steps of a lookup. At every instant the cache path is either absent or holds one complete stored table, and when all calls have returned it serves at least one of the degrees that were stored.',
 ['schedules','histories'],'all interleavings, at file-operation and source-line granularity, of 2-4 processes/threads with arbitrary lookup scripts over shared paths',
 'The test suite is sequential within a process and uses one private temporary path per test.',
 LUT+['e3x/config.py'],[('write aside, then atomically replace',U+':_save_lookup_table_to_disk'),('fall back when the stored table cannot be read',U+':_load_lookup_table_from_disk')],[cache],API)
p('C04','Storage errors never break or change a lookup',
 'The disk cache is only an accelerator: if any file operation on it fails (full disk, I/O error, missing permission or directory, read-only or stale file system, error on close or rename, short reads and writes), the call that met the error still returns correct values, and so do all later calls in this and other processes. A save that fails leaves a previously stored complete table in place.',
 ['fault_sequences','histories'],'all sequences of failing/short file operations at any position, transient or persistent, in any lookup history',
 'No test injects a storage error, although the code has handlers for them.',
 LUT,[('error handler around saving',U+':_save_lookup_table_to_disk'),('error handler around loading',U+':_load_lookup_table_from_disk')],[cache],API)
p('C05','Damaged stored tables never yield wrong numbers or a failure',
 'If the bytes of a disk cache or of a table shipped with the package are damaged (bits flipped, truncated, blocks zeroed, replaced by garbage or emptied) before or between calls, every lookup still returns correct values instead of wrong ones or an error. If the lookup had to generate what it could not read, the damaged cache is replaced by a complete stored table.',
 ['fault_sequences','inputs','histories'],'all damage patterns to cache and shipped files at any point of a lookup history',
 'No test reads a damaged file; which exception a damaged archive provokes depends on the damaged byte.',
 LUT,[('fallback to the shipped table, then to generation',U+':_load_lookup_table_from_disk'),('CRC of the archive members','numpy .npz / zipfile')],[cache,pkg],API)
p('C06','A warm disk cache is used, only ever extended, and self-heals',
 'Once a call with a working cache path has completed, no later call in this or another process for the same or a lower degree regenerates coefficients or writes to disk; a call for a higher degree generates only what is missing and afterwards all degrees up to it are served from disk. With non-overlapping calls the highest degree the cache serves never decreases, and once storage faults have stopped a single call per table is enough for all later processes to be served without regeneration.',
 ['histories','fault_sequences','schedules'],'all lookup histories over processes and restarts, and all finite fault prefixes followed by a fault-free suffix',
 'Nothing in the tests observes whether a second lookup regenerates or rewrites the table.',
 LUT,[('early return when the stored degree suffices',LUT[1]+' and siblings'),('save after generation',U+':_save_lookup_table_to_disk')],[cache],['file writes','symbolic-algebra calls made during a lookup'])
p('C07','Parallel pre-generation equals sequential generation',
 'Pre-generating any table with the command line tool and any number of worker processes stores a table that gives exactly the results of sequential generation, whatever the assignment of work to workers and the order in which they finish, and also when it extends an existing cache. If a worker fails, the command fails visibly and a previously stored table stays complete and in place.',
 ['schedules','fault_sequences','configurations'],'all worker counts, task orders and completion orders, and failures of any task',
 'No test runs the command line tools or uses more than one process.',
 LUT[1:]+['e3x/so3/_symbolic.py'],[('worker pool with ordered results',LUT[1]+':num_processes'),('command line entry points',LUT[1]+':__main__')],[cache],['python -m e3x.so3._*_lut']+API)
p('C08','Lookups write nothing but the configured cache file',
 'A lookup modifies nothing on disk except the cache file configured for that table (temporary files next to it may exist only while it is being stored): without a configured cache nothing is ever written, the files shipped with the package and the caches of other tables are never modified, and no stray files remain after a call has returned. This holds in every history, interleaving and storage-fault sequence.',
 ['histories','schedules','fault_sequences'],'all lookup and re-configuration histories, interleavings and I/O faults; invariant checked at every file operation',
 'The tests never look at the file system around the cache file.',
 LUT+['e3x/config.py'],[('save only if a path is configured',U+':_save_lookup_table_to_disk')],[cache,pkg],['every mutating file operation'])
p('C09','Quadrature grids load exactly or fail with RuntimeError',
 'For every requested precision or number of points, Lebedev and Delley quadrature return exactly the documented grid (smallest grid of at least that precision, respectively largest grid with at most that many points, clamped at the ends of the available range), however the file reads are split up. If the grid file is missing, unreadable or damaged in any way, the call raises RuntimeError, never another error and never wrong points or weights, and calls after the fault has gone succeed again.',
 ['fault_sequences','inputs','histories'],'all requests crossed with all read errors, short reads and damage patterns of the grid files, and any history of such calls',
 'Tests load only intact files; the documented RuntimeError is never provoked.',
 ['e3x/so3/quadrature.py'],[('load and select a grid','e3x/so3/quadrature.py:_load_grid')],[('grid files','.npz with r<i>, w<i>, precision, num','e3x/so3/_lebedev_grids.npz, e3x/so3/_delley_grids.npz')],['e3x.so3.lebedev_quadrature','e3x.so3.delley_quadrature'])
p('C10','Configured defaults govern every later call, and only those',
 'After a Config setter returned, every later call or module construction that does not pass the setting explicitly uses the new value, calls that pass it explicitly are unaffected, and no setter changes any other setting; a rejected (invalid) value changes nothing. A module instance keeps the values it was constructed with. With concurrent callers each call behaves as if the setting had one value it held between the call\'s start and end.',
 ['histories','schedules','configurations'],'all interleavings of setter calls and default-taking calls/constructions over caller threads',
 'No test calls set_cartesian_order, set_use_fused_tensor or set_normalization; effect over time is a history property.',
 ['e3x/config.py','e3x/so3/irreps.py','e3x/so3/rotations.py','e3x/nn/modules.py','e3x/nn/wrappers.py'],
 [('global settings','e3x/config.py:Config'),('default resolution','keyword defaults of public functions and modules')],[('Config','process-wide mutable settings','e3x/config.py')],['e3x.Config.set_*','functions and modules with cartesian_order, normalization, use_fused_tensor'])
p('C11','Concurrent callers get the results they would get alone',
 'Any public function of e3x.so3, e3x.ops, e3x.nn and e3x.matrix, and init/apply of any module (also of one module instance shared by all threads), may be called from several threads at once; every call returns bit-for-bit what it returns when it runs alone, whatever the interleaving.',
 ['schedules','programs'],'all interleavings at source-line granularity of 2-4 caller threads running arbitrary mixes of public calls',
 'The tests never call the library from two threads.',
 ['e3x/so3/','e3x/ops/','e3x/nn/','e3x/matrix/'],[('no shared mutable state besides Config and the disk cache','whole library')],[],['return values'])
p('C12','Results do not depend on what was called before or on tracing',
 'The result of a public call depends only on its arguments and the configuration: not on which calls were made earlier in the process, in which order, with which precision mode, whether the first use happened inside a JAX transformation (jit, grad, vmap, scan, shape evaluation, also one that was aborted), nor on the caller later overwriting arrays it passed in or received. Calls never modify their arguments, and a call inside a transformation agrees with the eager call.',
 ['histories','programs'],'all finite sequences of public calls in mixed transformation and precision contexts within one process',
 'Each test exercises one function with few arguments; state carried from one call to a differently-parameterised later call, or from a trace to an eager call, is not visited.',
 ['e3x/so3/','e3x/ops/','e3x/nn/','e3x/matrix/'],[('tables are evaluated at compile time and not retained','jax.ensure_compile_time_eval blocks'),('no memoisation across calls','whole library')],[],['return values','arguments after the call'])
p('C13','An interrupted call leaves no trace',
 'If a public call is aborted at any instant by an exception it did not expect (KeyboardInterrupt, MemoryError, an error raised by a user-supplied callback), an interrupt or a callback error reaches the caller unchanged, any other such error either reaches the caller or the call still returns its correct result, and all later calls of the process, with and without a disk cache, return correct results as if the aborted call had never been made. The configuration is unchanged, a previously stored cache table is still complete and no temporary file is left behind.',
 ['crash_points','fault_sequences','histories'],'every source line of the library as abort point, in any call of any call history',
 'Tests never abort a call half-way.',
 ['e3x/so3/','e3x/ops/','e3x/nn/','e3x/matrix/','e3x/config.py'],[('state is only published when complete',U),('context managers around tracing state','jax.ensure_compile_time_eval blocks')],[cache],['return values after an aborted call'])
p('C14','All randomness comes from the PRNG key the caller passes',
 'Everything random (random rotations, parameter initialisers, module init, matrix weights) is a function of the given PRNG key and arguments alone: it is identical across processes, hash seeds, clocks, process ids, thread interleavings and states of global random number generators, and it neither reads nor advances any of those. Different keys give different values.',
 ['schedules','configurations','histories'],'all values of the hidden nondeterminism sources (clock, OS entropy, global RNG states, hash seed, pid, thread schedule) crossed with keys and arguments',
 'Every test process sees one hash seed (fixed to 0), one RNG state and one schedule.',
 ['e3x/so3/rotations.py','e3x/nn/initializers.py','e3x/nn/modules.py','e3x/matrix/matmat.py'],[('explicit key threading','jax.random, flax make_rng')],[],['e3x.so3.random_rotation','e3x.nn.initializers.*','Module.init','e3x.matrix.init_matrix_irreps_weights'])
p('C15','Every call gives back what it acquired',
 'When a lookup, a quadrature call, a setter or a pre-generation command has returned or has raised, the process holds no file descriptor, file lock, mutex or running worker pool that it acquired during that operation, whichever storage errors, damaged files or failing workers it met on the way and whichever other callers ran at the same time; so any number of such calls can be made in one process.',
 ['fault_sequences','histories','schedules'],'every history of lookups, generation and quadrature calls, with every file operation failing in every way, damaged files and concurrent callers',
 'A leaked handle shows only after thousands of calls or on an error path that no test provokes.',
 LUT+['e3x/so3/quadrature.py'],[('context managers around every open file and pool',U),('grid file opened per call','e3x/so3/quadrature.py')],[cache,pkg],['open file descriptors, held locks and running pools after each operation'])
p('C16','A stopped or dead process never holds up the others',
 'If one of several processes that share a disk cache is stopped (suspended, hanging in I/O) or killed at any instant of a lookup or pre-generation, every call and command of the other processes still completes, correctly and within a bounded number of file operations and waits, without the stopped process ever going on. When it does go on, its own calls complete correctly too, and a complete stored table is never lost to it. None of this depends on the clocks, which may jump.',
 ['schedules','crash_points','fault_sequences'],'every instant (file operation or source line) at which a process stops or dies, every interleaving of the others, arbitrary clock jumps',
 'Tests run one process and never suspend it.',
 LUT,[('no inter-process lock: write aside, then atomically replace',U+':_save_lookup_table_to_disk')],[cache],API+['python -m e3x.so3._*_lut'])
p('C17','The library leaves the rest of the process alone',
 'Importing the package, changing its settings and calling any of its functions never changes process-wide state that it does not own: Python, NumPy and JAX configuration (precision mode, error handling, recursion limit, random state), warning and logging configuration, environment variables, working directory and umask, signal handlers, module search path and standard streams are the same after the call as before, whether the call returned, raised or was interrupted, and no other thread sees them changed while the call runs. Importing also needs none of the stored data files to be intact and writes nothing.',
 ['histories','fault_sequences','schedules'],'every history of imports, setters and calls from any public module, aborted at every instant, watched by any other thread at every instant, with any damage to stored files',
 'A changed setting shows in some other library or thread, only for the length of a call or only after a particular call fails; no test looks there.',
 ['e3x/__init__.py','e3x/config.py']+LUT+['e3x/so3/quadrature.py','e3x/ops/indexed.py'],[('lazy table and grid loading',U),('no calls that set global configuration','whole package')],[cache,pkg],['jax.config, numpy.geterr, warnings.filters, sys and os state around every call'])
# ---- pure-function properties: not simulation targets
NA=[
('N01','Modules are equivariant under rotations and reflections','For every module and activation, rotating or reflecting the input features (and basis) and then applying the module gives the same result as applying the module and then rotating or reflecting the output, for every rotation, parameter value, degree, parity and feature count.',['e3x/nn/modules.py','e3x/nn/activations.py','e3x/nn/features.py'],'group action by Wigner-D blocks and parity channels'),
('N02','Spherical harmonics are orthogonal with the stated normalization','For every degree up to the maximum, ordering and normalization, the returned functions are the real spherical harmonics, orthogonal on the sphere with the documented norm; solid harmonics equal r^l times them.',['e3x/so3/irreps.py','e3x/so3/_symbolic.py'],'polynomial coefficient tables'),
('N03','Clebsch-Gordan coefficients couple irreps equivariantly','For all degrees the coefficients form an orthogonal, selection-rule-respecting change of basis that intertwines the product of two irreps with their sum.',['e3x/so3/irreps.py','e3x/so3/_symbolic.py'],'closed-form coefficients'),
('N04','Wigner-D matrices represent rotations','For all rotations A and B the Wigner-D matrices are orthogonal, block diagonal by degree, satisfy D(AB)=D(A)D(B), and rotate spherical harmonics: Y(r)D(R)=Y(rR).',['e3x/so3/rotations.py','e3x/so3/_symbolic.py'],'polynomials in rotation matrix entries'),
('N05','Tensor/irrep conversions are mutually inverse and equivariant','For every degree, converting irreps to a traceless symmetric tensor and back is the identity, the tensor is traceless and symmetric, and conversion commutes with rotation.',['e3x/so3/irreps.py','e3x/so3/_tensor_conversion_lut.py'],'conversion matrices'),
('N06','Rotation constructors return proper rotations','Rotation matrices built from axis/angle, Euler angles, vector alignment or randomly are orthogonal with determinant 1, act as documented for every input including antiparallel and gimbal-lock cases, and Euler angles round-trip.',['e3x/so3/rotations.py'],'Euler-Rodrigues, alignment and Euler formulas'),
('N07','Dense and sparse index lists are interchangeable','For every neighbour list and input, gather/indexed reductions/softmax and message passing give the same result with dense, sparse and padded index lists, are independent of edge order, and conversions round-trip.',['e3x/ops/indexed.py','e3x/nn/modules.py'],'gather and segment reductions'),
('N08','Norm-like operations are overflow-free with finite derivatives','For every finite input, including zero and extreme magnitudes, norm and normalize neither overflow nor produce NaN values or derivatives.',['e3x/ops/safe.py'],'rescaling and custom derivative'),
('N09','Cutoffs, windows and radial bases have the documented shape','For every argument cutoffs, switches, windows, damping and radial bases have the documented support, range, smoothness, partition-of-unity and limits, with finite derivatives.',['e3x/nn/functions/'],'closed-form functions'),
('N10','Feature helpers preserve shared content','Adding features or changing maximum degree/parity type keeps all shared components unchanged and zero-fills the others; masks select exactly even/odd degrees.',['e3x/nn/features.py'],'slicing and padding'),
('N11','Matrix irreps transform as blocks of a representation','For every list of degrees and multiplicity the assembled square matrix transforms by conjugation with the block rotation and traces are invariant.',['e3x/matrix/matmat.py'],'Clebsch-Gordan contraction into blocks'),
('N12','Initialisers keep activations normalised','Tensor initialisers give outputs of the documented variance for every shape, degree and parity combination.',['e3x/nn/initializers.py'],'variance scaling'),
('N13','Quadrature rules integrate exactly up to their precision','Every grid integrates all polynomials up to its precision exactly and its weights sum to one.',['e3x/so3/quadrature.py','e3x/so3/_lebedev_grids.npz','e3x/so3/_delley_grids.npz'],'tabulated grids'),
('N14','Invalid arguments are rejected with the documented error','Every shape, dtype, degree or option outside the documented domain raises the documented exception instead of returning a value.',['e3x/'],'argument checks'),
]
for id,t,s,f,m in NA:
  p(id,t,s,['inputs'],'all inputs of a pure function (rotations, arrays, degrees, parameters)','Tests sample a few random inputs and low degrees of an infinite input space.',f,[(m,f[0])],[],['return values'])
open(HERE+'/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
