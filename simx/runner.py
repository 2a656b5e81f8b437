"""Coordinator of a check: spreads seeds over worker processes, minimises and
confirms a violation, and writes the evidence file.

  python -m simx.runner CHECK quick|thorough
  python -m simx.runner replay FILE
  python -m simx.runner selftest
"""
import collections
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from . import direct

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
NW = 8

# runs of the quick tier on the recorded tree (a wall-clock cap also applies)
QUICK = {'C01': 176, 'C02': 240, 'C03': 192, 'C04': 272, 'C05': 288, 'C06': 216, 'C07': 232, 'C08': 264,
         'C09': 1200, 'C10': 384, 'C11': 128, 'C12': 104, 'C13': 160, 'C14': 48,
         'C15': 288, 'C16': 216, 'C17': 192}
CHANGED = 1.4  # times as many on a tree that differs from it
CHUNK = 160  # seeds per worker process
RULES = {
    'C01': 'seeded request/re-configuration/restart histories over 4 tables; non-trivial: at least two completed library calls',
    'C02': 'seeded histories with kills (file operation or source line) and power losses; non-trivial: at least one fault struck',
    'C03': 'seeded interleavings of 2-4 processes/threads; non-trivial: at least one pre-emption',
    'C04': 'seeded storage-error sequences; non-trivial: at least one fault struck',
    'C05': 'seeded damage to stored files; non-trivial: at least one fault struck',
    'C06': 'seeded lookup histories over restarts and fault prefixes; non-trivial: at least two completed library calls',
    'C07': 'seeded worker counts, assignments, completion orders and task failures; non-trivial: at least one scheduling decision',
    'C08': 'seeded histories, interleavings and faults with every mutation of the file system observed; non-trivial: at least two completed library calls',
    'C09': 'seeded grid requests crossed with read faults and damage; non-trivial: at least one fault, short read or pre-emption',
    'C10': 'seeded interleavings of setters and default-taking calls; non-trivial: at least three completed operations',
    'C11': 'seeded line-level interleavings of 2-4 caller threads; non-trivial: at least one pre-emption',
    'C12': 'seeded call histories over transformation and precision contexts; non-trivial: at least three completed calls',
    'C13': 'seeded abort points (source lines and file operations); non-trivial: at least one exception injected or callback failed',
    'C14': 'seeded hidden state (hash seed, clock, pid, entropy, global generators, schedule) crossed with keys; non-trivial: at least one completed random call',
    'C15': 'histories, interleavings and faults of the storage checks, everything held judged after every operation; non-trivial: at least two completed operations',
    'C16': 'seeded instants at which a process stops or dies, interleavings and clock jumps; non-trivial: at least one stall or kill struck',
    'C17': 'seeded histories of imports, setters and calls with interrupts, storage errors, damage and an observing thread; non-trivial: at least two completed operations',
}
STORAGE_REAL = ['e3x (all modules, from /repo working tree)', 'numpy npz/zipfile', 'etils.epath', 'sympy (results memoised by exact argument)', 'JAX CPU']
STORAGE_STUB = ['file system (in-memory, with durability model)', 'clock', 'pid', 'OS entropy', 'process pool (forked module copies, pickled tasks)',
                'process (fresh module copy) and its death', 'thread scheduling', 'threading.Lock/RLock created by e3x']


def nontrivial(check, m):
  if check in ('C02', 'C04', 'C05', 'C16'):
    return m['faults'] > 0
  if check in ('C03', 'C11'):
    return m['switches'] > 0
  if check == 'C07':
    return m['calls'] > 0 and m['stats'].get('pool.chunks', 0) > 1
  if check == 'C09':
    return m['faults'] > 0 or m['switches'] > 0
  if check in ('C10', 'C12'):
    return m['calls'] >= 3
  if check == 'C13':
    return m['faults'] > 0 or m['calls'] > 1
  if check == 'C14':
    return m['calls'] >= 1
  return m['calls'] >= 2


class Pool:
  """Worker processes with their output."""

  def __init__(self):
    self.q = queue.Queue()
    self.procs = {}

  def start(self, key, args, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', TF_CPP_MIN_LOG_LEVEL='3')
    p = subprocess.Popen([PY, '-m', 'simx.worker'] + args, cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                         start_new_session=True)
    self.procs[key] = p

    def pump():
      for line in p.stdout:
        try:
          self.q.put((key, json.loads(line)))
        except ValueError:
          pass
      self.q.put((key, {'t': 'eof', 'rc': p.wait()}))

    threading.Thread(target=pump, daemon=True).start()

  def kill(self, key):
    p = self.procs.pop(key, None)
    if p is not None:
      try:
        os.killpg(p.pid, 9)
      except OSError:
        pass

  def close(self):
    for k in list(self.procs):
      self.kill(k)


def one(args, hashseed, timeout):
  """Runs a single worker job; returns its last message."""
  pool = Pool()
  pool.start('x', args, hashseed)
  last = None
  end = time.time() + timeout
  try:
    while True:
      try:
        _, m = pool.q.get(timeout=max(0.1, end - time.time()))
      except queue.Empty:
        return {'t': 'timeout'}
      if m['t'] == 'eof':
        return last or {'t': 'error', 'text': 'worker ended with %s' % m['rc']}
      last = m
  finally:
    pool.close()


def known(check):
  """[(match, text)] of recorded, unrepaired findings."""
  out = []
  path = os.path.join(HERE, 'known_findings.txt')
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        if line.startswith('finding: property=%s ' % check):
          rest = line.split(' ', 2)[2].strip()
          m, _, text = rest.partition(' :: ')
          out.append((m.strip(), text.strip()))
  return out


def hash_seed(check, seed, w):
  return 101 + w if check == 'C14' else 0


def run_check(check, tier):
  kernels = tempfile.mkdtemp(prefix='simx-kernels-')
  os.environ['SIMX_JITCACHE'] = kernels
  try:
    return explore(check, tier)
  finally:
    shutil.rmtree(kernels, ignore_errors=True)


def explore(check, tier):
  t0 = time.time()
  vs = int(os.environ.get('VERIF_SEED', '1') or '1')
  base = vs * 1_000_000
  if tier == 'quick':
    more = CHANGED if direct.of(os.environ.get('VERIF_REPO', '/repo')).changed else 1
    n, cap = int(QUICK[check] * more) // NW * NW, float(os.environ.get('VERIF_BUDGET_S', '240'))
  else:
    n, cap = 10**6, float(os.environ.get('VERIF_BUDGET_S', '780'))
  n = int(os.environ.get('VERIF_RUNS', n))
  deadline = t0 + cap
  todo = {w: iter(range(base + w, base + n, NW)) for w in range(NW)}
  pool = Pool()
  live = {}
  results = []
  errors = []
  viol = None
  gen = 0

  def launch(w):
    nonlocal gen
    seeds = []
    for s in todo[w]:
      seeds.append(s)
      if len(seeds) >= CHUNK:
        break
    if not seeds or time.time() > deadline:
      return
    gen += 1
    key = (w, gen)
    pool.start(key, ['run', check, tier, '%f' % deadline, ','.join(map(str, seeds))], hash_seed(check, seeds[0], w))
    live[key] = [time.time(), None]

  for w in range(NW):
    launch(w)
  capped = False
  kf = known(check)
  seen_known = set()
  while live:
    try:
      key, m = pool.q.get(timeout=5)
    except queue.Empty:
      for k, v in list(live.items()):
        if time.time() - v[0] > 400:
          errors.append('worker %s hangs at seed %s' % (k, v[1]))
          pool.kill(k)
          live.pop(k)
      continue
    if key not in live:
      continue
    live[key][0] = time.time()
    if m['t'] == 'start':
      live[key][1] = m['seed']
    elif m['t'] == 'run':
      results.append(m)
      if m['viol']:
        un = [v for v in m['viol'] if not any(k and k in v for k, _ in kf)]
        for k, text in kf:
          if any(k in v for v in m['viol']):
            seen_known.add(text)
        if un:
          m['viol'] = un
          viol = m
          break
    elif m['t'] == 'cap':
      capped = True
    elif m['t'] == 'error':
      errors.append('seed %s: %s' % (live[key][1], m['text']))
    elif m['t'] == 'eof':
      if m['rc'] not in (0, 3):
        errors.append('worker died with %s at seed %s' % (m['rc'], live[key][1]))
      live.pop(key)
      pool.procs.pop(key, None)
      if not errors:
        launch(key[0])
  pool.close()
  os.environ.pop('SIMX_JITCACHE', None)  # minimising and replaying compile for themselves
  for text in sorted(seen_known):
    print('KNOWN-FINDING: property=%s %s' % (check, text))
  rc = 0
  replay = None
  if viol is not None:
    replay, ok = finish_violation(check, viol)
    if ok:
      print('violation: %s (seed %d)' % (viol['viol'][0], viol['seed']))
      print('VIOLATION property=%s replay=%s' % (check, replay))
      rc = 1
    else:
      print('ERROR: violation of seed %d did not reproduce: %s' % (viol['seed'], viol['viol'][0]))
      rc = 2
  elif errors:
    for e in errors[:3]:
      print('ERROR: ' + e)
    rc = 2
  elif not results:
    print('ERROR: no runs')
    rc = 2
  evidence(check, tier, vs, results, time.time() - t0, viol, replay, capped, errors)
  return rc


def finish_violation(check, m):
  d = os.path.join(HERE, 'replays')
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, '%s-%d.json' % (check, m['seed']))
  rep = dict(check=check, seed=m['seed'], violation=m['viol'][0], all=m['viol'], plan=m['plan'], decisions=m['decisions'], digest=m['digest'],
             minimised=False)
  full = path + '.full'
  with open(full, 'w') as f:
    json.dump(rep, f)
  hs = m['plan'].get('hashseed', 0)
  mn = one(['minimise', full, os.environ.get('VERIF_MIN_S', '90')], hs, 300)
  if mn.get('t') == 'min' and mn.get('ok'):
    r2 = dict(rep, plan=mn['plan'], decisions=mn['decisions'], violation=mn['violation'], digest=mn['digest'], minimised=True, tries=mn['tries'],
              trace=mn['trace'])
    with open(path, 'w') as f:
      json.dump(r2, f, indent=1)
    r = one(['replay', path], hs, 200)
    if r.get('reproduced'):
      os.remove(full)
      return path, True
  with open(path, 'w') as f:
    json.dump(rep, f, indent=1)
  os.remove(full)
  for _ in range(2):
    r = one(['replay', path], hs, 200)
    if r.get('reproduced'):
      return path, True
  return path, False


def evidence(check, tier, vs, results, wall, viol, replay, capped, errors):
  stats = collections.Counter()
  for m in results:
    stats.update(m['stats'])
  non = [m for m in results if nontrivial(check, m)]
  sigs = {m['sig'] for m in non}
  trails = {m['trail'] for m in results if m['switches']}
  samples = []
  for m in (non[:1] + non[len(non) // 2:len(non) // 2 + 1] + non[-1:]):
    samples.append({k: m[k] for k in ('seed', 'nops', 'calls', 'steps', 'switches', 'faults', 'sig', 'digest')} |
                   {'faults_by_kind': {k[6:]: v for k, v in m['stats'].items() if k.startswith('fault.')}})
  cov = dict(
      evaluations=len(results),
      distinct_nontrivial=len(sigs),
      rule=RULES[check] + '; distinct by hash of (environment, operations, scheduling and fault decisions)',
      samples=samples,
      seeds=dict(first=min((m['seed'] for m in results), default=None), last=max((m['seed'] for m in results), default=None)),
      runs_per_hour=round(len(results) / max(wall, 1e-9) * 3600),
      worker_processes=NW,
      schedule_points=sum(m['steps'] for m in results),
      preemptions=sum(m['switches'] for m in results),
      distinct_interleavings=dict(count=len(trails), measure='hash of the sequence of pre-emptions (from, to, source line or file operation)'),
      library_calls=sum(m['calls'] for m in results),
      simulated_seconds=round(sum(m['sim_s'] for m in results), 3),
      faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault.')},
      file_operations={k[5:]: v for k, v in sorted(stats.items()) if k.startswith('fsop.')},
      other={k: v for k, v in sorted(stats.items()) if not k.startswith(('fault.', 'fsop.'))},
      real_components=STORAGE_REAL, stubbed_components=STORAGE_STUB,
      directed_at_changed_functions=sorted('%s:%s' % x for x in direct.of(os.environ.get('VERIF_REPO', '/repo')).changed)[:40],
      stopped_by_time_cap=capped, replay=replay, harness_errors=errors[:3])
  d = os.path.join(HERE, 'evidence')
  os.makedirs(d, exist_ok=True)
  ev = dict(property=check, tier=tier, seed=vs, level='exploration', coverage=cov, wall_s=round(wall, 2), violations=1 if viol else 0,
            assumptions=['samples schedules and fault sequences; does not enumerate them',
                         'pre-emption and aborts occur at e3x source lines and file operations, not inside JAX, numpy or C code'])
  tmp = os.path.join(d, check + '.json.tmp')
  with open(tmp, 'w') as f:
    json.dump(ev, f, indent=1)
  os.replace(tmp, os.path.join(d, check + '.json'))


def cmd_replay(path):
  with open(path) as f:
    d = json.load(f)
  r = one(['replay', os.path.abspath(path)], d['plan'].get('hashseed', 0), 600)
  if r.get('t') != 'replay':
    print('ERROR: %s' % r)
    return 2
  for e in r['trace'][-60:]:
    print('  ' + ' '.join(e))
  print('violations: %s' % r['viol'])
  print('event log identical: %s' % r['same_digest'])
  if r['reproduced']:
    print('VIOLATION property=%s replay=%s' % (d['check'], path))
    return 1
  return 0


def selftest(n):
  """Every seed twice: other hash seed, other neighbours in the process."""
  bad = 0
  total = 0
  for check in sorted(QUICK):
    seeds = [7_000_000 + i for i in range(n)]
    got = {}
    pool = Pool()
    jobs = []
    for hs, parts in ((0, 2), (4242, 3)):
      for p in range(parts):
        key = (hs, p)
        pool.start(key, ['run', check, 'quick', '%f' % (time.time() + 3000), ','.join(map(str, seeds[p::parts]))], hs if check != 'C14' else 0)
        jobs.append(key)
    while jobs:
      key, m = pool.q.get()
      if m['t'] == 'run':
        got.setdefault(m['seed'], []).append((m['digest'], m['trail'], m['sig'], m['steps'], tuple(m['viol'])))
      elif m['t'] == 'error':
        print(check, 'ERROR', m['text'])
        bad += 1
      elif m['t'] == 'eof':
        jobs.remove(key)
    pool.close()
    for s in seeds:
      total += 1
      g = got.get(s, [])
      if len(g) != 2 or g[0] != g[1]:
        bad += 1
        print('NOT DETERMINISTIC: %s seed %d: %s' % (check, s, g))
    print(check, 'compared', len(seeds), 'bad so far', bad, flush=True)
  print('determinism self-test: %d seeds compared, %d differ' % (total, bad))
  return 1 if bad else 0


def main(argv):
  if argv[0] == 'replay':
    return cmd_replay(argv[1])
  if argv[0] == 'selftest':
    return selftest(int(argv[1]) if len(argv) > 1 else 12)
  tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
  return run_check(argv[0], tier)


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
