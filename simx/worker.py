"""One OS process that executes simulated runs and reports them as JSON lines.

  python -m simx.worker run CHECK TIER DEADLINE seed,seed,...
  python -m simx.worker replay FILE
  python -m simx.worker minimise FILE BUDGET_S
  python -m simx.worker refs            (reference process of C14)
"""
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

from . import jitcache

OUT = os.fdopen(os.dup(1), 'w')
_wall = time.time
_mono = time.monotonic


def emit(**kw):
  OUT.write(json.dumps(kw) + '\n')
  OUT.flush()


def setup():
  os.dup2(2, 1)  # stray prints of the code under test
  from . import world
  world.WORLD.setup()
  from . import lib_checks
  return lib_checks


class Refs:
  """Asks a process with hash seed 0 for the outcome of calls made alone."""

  def __init__(self):
    env = dict(os.environ, PYTHONHASHSEED='0')
    if jitcache.PATH:
      env['SIMX_JITCACHE'] = jitcache.PATH
    self.p = subprocess.Popen([sys.executable, '-m', 'simx.worker', 'refs'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                              stderr=subprocess.DEVNULL, env=env, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    self.cache = {}
    self.asked = []

  def key(self, op):
    from . import lib
    return lib.ref_key(op)

  def ask(self, op):
    """Requests an outcome; it is computed while this process goes on."""
    key = self.key(op)
    if key not in self.cache and key not in self.asked:
      self.asked.append(key)
      self.p.stdin.write(key + '\n')
      self.p.stdin.flush()
    return key

  def __call__(self, op):
    key = self.ask(op)
    while key not in self.cache:
      line = self.p.stdout.readline()
      if not line:
        from . import core
        raise core.HarnessError('reference process died')
      a = json.loads(line)
      self.cache[self.asked.pop(0)] = (a[0], a[1], None, a[2], a[3])
    return self.cache[key]


def serve_refs():
  setup()
  from . import lib
  for line in sys.stdin:
    r = lib.ref(json.loads(line))
    OUT.write(json.dumps([r[0], r[1], r[3], r[4]]) + '\n')
    OUT.flush()


def prepare(check):
  lc = setup()
  if check == 'C14':
    lc.REF = Refs()
  return lc


def vclass(v):
  return v.split(':')[0]


def ops_of(plan):
  for ph in plan['phases']:
    for pr in ph.get('procs', ()):
      for th in pr['threads']:
        yield from th


def signature(plan, run):
  h = hashlib.sha256()
  for o in ops_of(plan):
    h.update(json.dumps({k: v for k, v in o.items() if k != 'id'}, sort_keys=True).encode())
  h.update(json.dumps(run.sim.decider.made).encode())
  h.update(json.dumps(plan.get('env', {}), sort_keys=True).encode())
  return h.hexdigest()[:24]


def report(seed, plan, run, secs):
  s = run.sim
  calls = sum(1 for r in run.recs if r.op['do'] not in ('calm', 'disk', 'rng') and r.status in ('ok', 'exc', 'wrong'))
  faults = sum(v for k, v in s.stats.items() if k.startswith('fault.'))
  emit(t='run', seed=seed, viol=run.viol[:5], stats=s.stats, steps=s.steps, switches=s.switches, calls=calls, faults=faults,
       trail=s.trail.hexdigest()[:24], sig=signature(plan, run), digest=s.digest()[:24], sim_s=s.clock - 1_700_000_000.0 if 'hidden' not in plan else 0.0,
       secs=round(secs, 3), plan=plan if run.viol else None, decisions=s.decider.made if run.viol else None,
       nops=sum(1 for _ in ops_of(plan)))


def cmd_run(check, tier, deadline, seeds):
  lc = prepare(check)
  emit(t='ready')
  for seed in seeds:
    if _wall() > deadline:
      emit(t='cap', seed=seed)
      return
    t = _mono()
    emit(t='start', seed=seed)
    plan = lc.CHECKS[check][0](seed, tier)
    plan['hashseed'] = int(os.environ.get('PYTHONHASHSEED', '0'))
    if check == 'C14':
      for op in ops_of(plan):
        if op['do'] == 'lib':
          lc.REF.ask(op)
    run = lc.run_plan(check, plan)
    report(seed, plan, run, _mono() - t)
    if run.viol:
      return


def trace_of(run, n=400):
  log = [list(map(str, e)) for e in run.sim.log]
  return log if len(log) <= n else log[:n // 2] + [['...', str(len(log) - n), 'events']] + log[-n // 2:]


def cmd_replay(path):
  with open(path) as f:
    d = json.load(f)
  lc = prepare(d['check'])
  run = lc.run_plan(d['check'], d['plan'], d['decisions'])
  want = vclass(d['violation'])
  same = [v for v in run.viol if vclass(v) == want]
  emit(t='replay', viol=run.viol[:5], reproduced=bool(same), digest=run.sim.digest()[:24], same_digest=run.sim.digest()[:24] == d.get('digest'),
       trace=trace_of(run))


def cmd_minimise(path, budget):
  with open(path) as f:
    d = json.load(f)
  check = d['check']
  lc = prepare(check)
  want = vclass(d['violation'])
  end = _mono() + budget
  count = [0]

  def fails(plan, dec):
    if _mono() > end:
      return None
    count[0] += 1
    try:
      run = lc.run_plan(check, plan, dec)
    except Exception:  # pylint: disable=broad-except
      return None
    return run if any(vclass(v) == want for v in run.viol) else None

  plan, dec = d['plan'], d['decisions']
  end += 60
  best = fails(plan, dec)
  end -= 60
  if best is None:
    emit(t='min', ok=False, tries=count[0])
    return

  def ddmin(items, test):
    n = 2
    items = list(items)
    if not items:
      return items
    r = test([])
    if r is not None:
      return []
    while len(items) >= 2 and _mono() < end:
      size = max(1, len(items) // n)
      done = False
      for i in range(0, len(items), size):
        cand = items[:i] + items[i + size:]
        if test(cand) is not None:
          items = cand
          n = max(n - 1, 2)
          done = True
          break
      if not done:
        if size == 1:
          break
        n = min(len(items), n * 2)
    return items

  def without(plan, keep):
    p = json.loads(json.dumps(plan))
    for ph in p['phases']:
      for pr in ph.get('procs', ()):
        pr['threads'] = [[o for o in th if o['id'] in keep] for th in pr['threads']]
    return p

  dec = ddmin(dec, lambda c: fails(plan, c))
  ids = [o['id'] for o in ops_of(plan)]
  keep = ddmin(ids, lambda c: fails(without(plan, set(c)), dec))
  p2 = without(plan, set(keep))
  if fails(p2, dec) is not None:
    plan = p2
    dec = ddmin(dec, lambda c: fails(plan, c))
  end = _mono() + 60
  run = fails(plan, dec)
  if run is None:
    emit(t='min', ok=False, tries=count[0])
    return
  v = [x for x in run.viol if vclass(x) == want][0]
  emit(t='min', ok=True, tries=count[0], plan=plan, decisions=run.sim.decider.made, violation=v, digest=run.sim.digest()[:24], trace=trace_of(run))


def main(argv):
  try:
    if argv[0] == 'run':
      cmd_run(argv[1], argv[2], float(argv[3]), [int(x) for x in argv[4].split(',')])
    elif argv[0] == 'replay':
      cmd_replay(argv[1])
    elif argv[0] == 'minimise':
      cmd_minimise(argv[1], float(argv[2]))
    elif argv[0] == 'refs':
      serve_refs()
  except BaseException:  # pylint: disable=broad-except
    emit(t='error', text=traceback.format_exc()[-3000:])
    OUT.flush()
    os._exit(3)
  OUT.flush()
  os._exit(0)


if __name__ == '__main__':
  main(sys.argv[1:])
