"""Generates MANIFEST.json from properties.jsonl (run by hand)."""
import json
import os
HERE=os.path.dirname(os.path.abspath(__file__))
NOTE = {
 'C01': 'Reference: independent numeric oracle (closed forms, mpmath-free numpy) for every table; degrees 0..15 (sh), 0..4 (cg, wd), 0..6 (tc).',
 'C02': 'Kill at any file operation or e3x source line, torn writes, power loss dropping any subset of unsynced blocks; trusts the in-memory file system model (POSIX rename atomicity, per-block loss).',
 'C03': '2-4 processes/threads, pre-emption at every file operation and e3x source line; content of the cache path judged at every instant.',
 'C04': 'All errno classes of the fault table at any file operation, transient and sticky (full, read-only, denied), short reads and writes.',
 'C05': 'Nine damage kinds at random places of cache and shipped files, before and between calls.',
 'C06': 'Counts symbolic computations and file mutations per call; self-healing judged as progress within one call per table once faults stop.',
 'C07': 'The real command line entry points with a simulated pool; task assignment, completion order and failing tasks seeded. Death of a pool worker by signal is excluded (multiprocessing.Pool itself never returns then).',
 'C08': 'Every mutating file operation of every run is an observation point.',
 'C09': 'Reference: linear scan over the arrays of the shipped grid files; errors, short reads and damage of those files.',
 'C10': 'Reference: the same call with explicit values in a fresh process (bitwise); register-window semantics under concurrent setters.',
 'C11': 'Reference: the same call alone in a fresh simulated process (bitwise); pre-emption at e3x source lines of 2-4 threads over 100 catalogue entries.',
 'C12': 'Reference: the same call alone in a fresh simulated process (bitwise); jit/vmap/scan/grad against eager within rounding.',
 'C13': 'Exceptions at every e3x source line, also below JAX frames, and at every file operation; later calls against fresh-process references (bitwise).',
 'C14': 'Workers run under different hash seeds, clocks, pids, entropy and generator states; results compared bitwise with a separate process of hash seed 0; state of global generators compared around each call.',
 'C15': 'Judged after every operation of the histories of C01, C04, C05, C07, C08 and C09 from the simulated descriptor table, lock table, mutexes and pools (after a garbage collection when something seems held). Asynchronous interrupts and kills are not faults here.',
 'C16': 'A stalled process is not scheduled until all others have finished; waiting for it, or more than 20,000 file operations and waits meanwhile, is the violation; also kills and clock jumps.',
 'C17': 'A fixed list of about 20 kinds of state (and every JAX configuration value) is compared after every operation of up to two threads, after injected interrupts at source lines, storage errors and damage. Warning filters are judged only without concurrency (the standard library offers no thread-safe change).',
}
WHY = 'Pure function of its arguments: no thread, clock, I/O, randomness source, crash point or history enters this property, so there is no nondeterminism for a simulator to control; deciding it would need numerical or symbolic testing of input space, i.e. another technique.'
props = [json.loads(l) for l in open(HERE+'/properties.jsonl')]
checks, na = [], []
for p in props:
  i = p['id']
  if i.startswith('C'):
    checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i, evidence_file='evidence/%s.json' % i,
                       technique='deterministic simulation with fault injection (seeded schedules, faults and histories; ddmin replay)',
                       level='exploration', level_note='Seeded sample, not exhaustive. ' + NOTE[i]))
  else:
    na.append(dict(property=i, reason=WHY))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
json.dump(m, open(HERE+'/MANIFEST.json', 'w'), indent=1)
