"""Generators and judges of the storage checks C01..C08 and C13 (cache part)."""
import os
import random

from . import core
from . import simfs
from . import storage as S
from . import world

D = S.D
PATHS = [D + '/a/x.npz', D + '/a/y.npz', D + '/b/z.npz']
NORMS = [None, None, '4pi', 'orthonormal', 'racah', 'schmidt']
DEG = {'sh': [0, 1, 2, 3, 5], 'cg': [0, 1, 2, 3], 'wd': [0, 1, 2, 3], 'tc': [0, 1, 2, 3, 4]}
BIG = {'sh': [6, 9, 15], 'cg': [4], 'wd': [4], 'tc': [5, 6]}


class G:
  """Random plan builder; everything derives from one seed."""

  def __init__(self, seed, tier):
    self.r = random.Random('plan%d' % seed)
    self.seed = seed
    self.tier = tier
    self.n = 0
    self.focus = S.TABLES[seed % 4]
    changed = world.DIRECTION.tables
    if changed and random.Random('directed/%d' % seed).random() < 0.5:
      self.focus = changed[seed // 4 % len(changed)]
    self.contexts = self.r.random() < 0.5

  def id(self):
    self.n += 1
    return 'o%d' % self.n

  def table(self, p_other=0.15):
    if self.r.random() < p_other:
      return self.r.choice(S.TABLES)
    return self.focus

  def degree(self, t, hi=None, other=False):
    ds = [d for d in DEG[t] if hi is None or d <= hi]
    if t != self.focus:
      ds = ds[:2] + ds[2:3]
    return self.r.choice(ds)

  def call(self, t, d=None, hi=None):
    r = self.r
    if d is None:
      d = self.degree(t, hi)
    api = r.choice(S.APIS[t])
    op = dict(id=self.id(), do='call', api=api)
    if api in ('cg', 'cgd'):
      x = [d, r.randint(0, d), r.randint(0, d)]
      if api == 'cg' and r.random() < 0.6:
        x = [d, d, d]
      elif api == 'cgd':
        # a coupling that involves the top degree
        b = r.randint(0, d)
        x = [d, b, r.randint(abs(d - b), min(d, d + b))]
      r.shuffle(x)
      op['a'] = x
    else:
      op['a'] = d
    c = r.random()
    if c < 0.15:
      op['cart'] = False
    elif c < 0.25:
      op['cart'] = True
    if api in ('sh', 't2i', 'i2t'):
      n = r.choice(NORMS)
      if n and r.random() < 0.4:
        op['norm'] = n
    if self.contexts:
      c = r.random()
      if c < 0.1:
        op['x64'] = False
      elif c < 0.22:
        op['ctx'] = 'jit'
        if c > 0.19:
          op['x64'] = False
    return op

  def set(self, t, p):
    return dict(id=self.id(), do='set', table=t, path=p)

  def env(self, pkg=None, hi=2):
    r = self.r
    e = dict(pkg={}, cache={}, dirs=[D + '/a', D + '/b'], bufsize=r.choice([256, 1024, 8192, 8192, 65536]))
    for t in S.TABLES:
      c = r.random()
      if pkg == 'none':
        e['pkg'][t] = 'none'
      elif c < 0.45:
        e['pkg'][t] = 'none'
      elif c < 0.75:
        e['pkg'][t] = r.choice([0, 1, min(2, hi)])
      else:
        e['pkg'][t] = 'real' if t in ('sh', 'tc') else r.choice([0, 1, min(2, hi)])
    return e

  def plan(self, **kw):
    p = dict(seed=self.seed, policy={}, phases=[])
    p.update(kw)
    return p


# ---------------------------------------------------------------------------
def judge_results(run, ok_exc=lambda rec: False):
  for rec in run.recs:
    op = rec.op
    if op['do'] not in ('call', 'set', 'cli'):
      continue
    if rec.status == 'wrong':
      run.viol.append('wrong-result: %s degree %s: %s' % (op['api'], op['a'], rec.detail))
    elif rec.status == 'exc' and not ok_exc(rec):
      run.viol.append('call-failed: %s: %s' % (op.get('api', op['do']), rec.exc))


def judge_instants(run, absent_ok=True, tables=None):
  """Every content a cache path ever had is absent or a complete table."""
  for p, seq in run.fs.watch.items():
    ts = sorted(run.paths[p])
    present = False
    for content, who in seq:
      if who == 'ext':
        present = content is not None and (len(ts) != 1 or S.serves(ts[0], content, 0))
        continue
      if content is None:
        if present and not absent_ok:
          run.viol.append('stored-table-lost: %s (by %s)' % (p, who))
          present = False
        continue
      if not any(S.serves(t, content, 0) for t in ts):
        if absent_ok or present:
          run.viol.append('incomplete-table-visible: %s (by %s)' % (p, who))
          break
        present = False
      else:
        present = True


def judge_stray(run, excuse_injected=True):
  """C08: only the configured cache (and transient siblings) is modified."""
  fs = run.fs
  recs = {r.op['id']: r for r in run.recs}
  for p, b in run.pkgbytes.items():
    if p in run.ext_paths:
      continue
    allowed = any(r.op['do'] == 'cli' and r.paths[1] == p for r in run.recs)
    if not allowed and (fs.get(p) != b or fs.files.get(p) is not run.pkg0[p]):
      run.viol.append('package-file-modified: %s' % os.path.basename(p))
  for _, actor, opid, name, path in fs.mutations:
    r = recs.get(opid)
    if r is None:
      continue
    ok = [x for x in r.paths[1:] if x]
    if r.op['do'] == 'set':
      run.viol.append('setter-writes: %s %s' % (name, path))
    elif not ok:
      run.viol.append('writes-without-cache: %s %s by %s' % (name, path, r.op.get('api')))
    elif path not in ok and os.path.dirname(path) not in [os.path.dirname(x) for x in ok]:
      run.viol.append('writes-elsewhere: %s %s' % (name, path))
    elif path not in ok and (path in run.paths or fs.is_pkg(path)):
      run.viol.append('writes-other-cache: %s %s' % (name, path))
  if True:
    allowed = set(run.paths) | set(run.pkgbytes) | {r.paths[1] for r in run.recs if r.op['do'] == 'cli'}
    allowed |= set(run.others)
    for p, i in run.others.items():
      if fs.files.get(p) is not i or fs.get(p) != b'a file of the user: ' + p.encode():
        run.viol.append('other-file-modified: %s' % os.path.basename(p))
    litter = [p for p in fs.files if p not in allowed] + sorted({m[4] for m in fs.mutations if m[3] == 'mkdir'} & set(fs.dirs))
    if litter:
      # Only tolerated if the process died, was interrupted or could not unlink.
      excuse = run.killed or (excuse_injected and any(r.inj for r in run.recs)) or any(
          k.startswith('fault.unlink') or k in ('fault.rofs', 'fault.deny', 'fault.power_loss') for k in run.sim.stats)
      if not excuse:
        run.viol.append('stray-files: %s' % [os.path.basename(x) for x in litter][:1])


# -- C01 ----------------------------------------------------------------------
def gen_c01(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env()
  shared = r.random() < 0.15
  big = r.random() < (0.25 if tier == 'thorough' else 0.04)
  for p in PATHS:
    if r.random() < 0.35:
      t = g.table(0.1)
      env['cache'][p] = [t, r.choice([d for d in DEG[t] if d <= 3])]
  plan = g.plan(env=env, policy=dict(lines=False, short=r.choice([0, 0, 0.2])))
  own = {t: [PATHS[0], PATHS[2]] if t == g.focus else ([PATHS[1]] if not shared else PATHS[:2]) for t in S.TABLES}
  for p in list(env['cache']):
    if not shared and p not in own[env['cache'][p][0]]:
      del env['cache'][p]
  for _ in range(r.randint(1, 3)):
    ops = []
    for _ in range(r.randint(2, 6)):
      c = r.random()
      t = g.table()
      if c < 0.3:
        ops.append(g.set(t, r.choice(own[t] + [None] if r.random() < 0.8 else [D + '/missing/dir/q.npz'])))
      elif c < 0.42:
        p = r.choice(own[t])
        e = r.choice([['unlink', p], ['put', p, t, r.choice([0, 1, 2])]])
        ops.append(dict(id=g.id(), do='disk', e=e))
      else:
        d = None
        if big and t == g.focus:
          d = r.choice(BIG[t])
          if t == 'sh' and d > 6:
            env['pkg']['sh'] = 'real'
          if t == 'tc':
            env['pkg']['tc'] = r.choice(['real', 'none', 2])
        if big and r.random() < 0.5:
          d = None
        op = g.call(t, d)
        if big and t == 'sh' and S.degree_of(op) > 6:
          ops.append(g.set('sh', None))
        ops.append(op)
    if not any(o['do'] == 'call' for o in ops):
      ops.append(g.call(g.focus))
    if r.random() < 0.7 and not any(o['do'] == 'set' for o in ops):
      ops.insert(0, g.set(g.focus, r.choice(own[g.focus])))
    plan['phases'].append(dict(f=True, procs=[dict(threads=[ops])]))
  return plan


def judge_c01(run):
  judge_results(run)


# -- C02 ----------------------------------------------------------------------
def gen_c02(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env()
  t = g.focus
  p = r.choice(PATHS[:2])
  if r.random() < 0.6:
    env['cache'][p] = [t, r.choice([0, 1, 2])]
  pol = dict(max_faults=1)
  mode = r.choice(['fs', 'fs', 'line', 'mix', 'none'])
  if mode in ('fs', 'mix'):
    pol['kill_f'] = r.choice([0.01, 0.03, 0.1])
  if mode in ('line', 'mix'):
    pol['kill_l'] = r.choice([0.005, 0.02])
    pol['lines'] = True
  pol['short'] = r.choice([0, 0, 0.1])
  np = r.choice([1, 1, 1, 2])
  if np > 1:
    pol['sw_f'] = r.choice([0.05, 0.3])
  plan = g.plan(env=env, policy=pol)
  for k in range(r.randint(1, 2)):
    procs = []
    for _ in range(np):
      ops = [g.set(t, p)] + [g.call(t) for _ in range(r.randint(1, 2))]
      if r.random() < 0.2:
        t2 = r.choice(S.TABLES)
        ops.append(g.set(t2, PATHS[2]))
        ops.append(g.call(t2, hi=1))
      procs.append(dict(threads=[ops]))
    plan['phases'].append(dict(f=True, procs=procs))
    if r.random() < 0.4:
      plan['phases'].append(dict(disk=['power', '', r.randrange(1 << 30)]))
  d = g.degree(t)
  plan['phases'].append(dict(f=False, procs=[dict(threads=[[g.set(t, p), g.call(t, d), g.call(t)]])]))
  plan['phases'].append(dict(f=False, procs=[dict(threads=[[g.set(t, p), g.call(t, d)]])]))
  return plan


def judge_c02(run):
  judge_results(run)
  judge_instants(run, absent_ok=False)


# -- C03 ----------------------------------------------------------------------
def gen_c03(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env()
  t = g.focus
  p = r.choice(PATHS[:2])
  if r.random() < 0.5:
    env['cache'][p] = [t, r.choice([0, 1, 2])]
  pol = dict(sw_f=r.choice([0.02, 0.1, 0.3, 0.6]), max_faults=0, hold=r.choice([0, 0.3, 0.8]))
  if r.random() < 0.5:
    pol.update(lines=True, sw_l=r.choice([0.02, 0.1]), sw_l0=r.choice([0, 1e-4]), hot=r.choice([0, 5]))
  if r.random() < 0.4:
    pol.update(ext=r.choice([0.02, 0.08]), exts=r.choice([['unlink'], ['put'], ['unlink', 'put']]), max_faults=3)
  pol['short'] = r.choice([0, 0, 0.1])
  plan = g.plan(env=env, policy=pol)
  procs = []
  for _ in range(r.choice([1, 2, 2, 3])):
    threads = []
    for ti in range(r.choice([1, 1, 2, 3])):
      ops = []
      for _ in range(r.randint(1, 2)):
        ops.append(g.call(t))
      threads.append(ops)
    for th in threads:
      th.insert(0, g.set(t, p))
    if r.random() < 0.15:  # a different path in this process
      th = threads[r.randrange(len(threads))]
      th.append(g.set(t, r.choice([PATHS[2], None])))
      th.append(g.call(t))
    procs.append(dict(threads=threads))
  if sum(len(q['threads']) for q in procs) == 1:
    procs.append(dict(threads=[[g.set(t, p), g.call(t)]]))
  plan['phases'].append(dict(f=True, procs=procs))
  plan['phases'].append(dict(f=False, procs=[dict(threads=[[g.set(t, p), g.call(t)]])]))
  return plan


def judge_c03(run):
  judge_results(run)
  judge_instants(run, absent_ok=True)
  if run.ext_paths or not run.marks:
    return
  _, seq, contents = run.marks[0]
  for p, content in contents.items():
    ts = sorted(run.paths[p])
    if len(ts) != 1:
      continue
    gen = [x for x in run.recs if x.op['do'] == 'call' and x.t1 is not None and x.t1 <= seq and x.xn > 0 and p in x.paths[1:]]
    stored = [S.degree_of(x.op) for x in gen]
    sure = [x for x in gen if set(x.paths[1:]) == {p}]  # the path was not switched meanwhile
    if sure and not any(S.serves(ts[0], content, d) for d in set(stored)):
      run.viol.append('nothing-stored: no degree of %s is served from %s' % (sorted(set(stored)), p))


# -- C04 ----------------------------------------------------------------------
def gen_c04(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env()
  t = g.focus
  p = r.choice(PATHS[:2])
  if r.random() < 0.55:
    env['cache'][p] = [t, r.choice([0, 1, 2])]
  errs = {k: list(v) for k, v in simfs.ERRS.items()}
  if r.random() < 0.5:  # swarm: only some operations fail
    keep = r.sample(sorted(errs), r.randint(1, 4))
    errs = {k: errs[k] for k in keep}
  pol = dict(err=r.choice([0.01, 0.03, 0.1, 0.4]), errs=errs, max_faults=r.choice([1, 2, 4, 12]),
             err_where=r.choice(['any', 'cache', 'cache', 'pkg']), short=r.choice([0, 0.1, 0.5]))
  if r.random() < 0.3:
    pol.update(sticky=r.choice([0.02, 0.08]), stickies=r.choice([['rofs'], ['full', 'nearfull'], ['deny'], ['full', 'heal', 'rofs']]))
  plan = g.plan(env=env, policy=pol)
  if r.random() < 0.25:
    plan['phases'].append(dict(disk=r.choice([['rofs', ''], ['full', '', r.choice([0, 10, 300, 900])], ['deny', D + '/a']])))
  np = r.choice([1, 1, 2])
  if np > 1:
    pol['sw_f'] = 0.2
  procs = []
  for _ in range(np):
    ops = [g.set(t, p if r.random() < 0.85 else D + '/no/such/dir/c.npz')]
    for _ in range(r.randint(1, 3)):
      ops.append(g.call(t))
    procs.append(dict(threads=[ops]))
  plan['phases'].append(dict(f=True, procs=procs))
  if r.random() < 0.6:
    plan['phases'].append(dict(disk=['heal', '']))
  plan['phases'].append(dict(f=False, procs=[dict(threads=[[g.set(t, p), g.call(t), g.call(t)]])]))
  return plan


def judge_c04(run):
  judge_results(run)
  judge_instants(run, absent_ok=False)


# -- C05 ----------------------------------------------------------------------
def gen_c05(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env()
  t = g.focus
  p = r.choice(PATHS[:2])
  env['cache'][p] = [t, r.choice([0, 1, 2, 3])]
  plan = g.plan(env=env, policy=dict(short=r.choice([0, 0, 0.2])))
  pkg = os.path.join(world.PKG, S.PKGFILE[t])

  def dmg():
    q = p if r.random() < 0.65 else pkg
    return ['damage', q, r.choice(S.DAMAGES), r.randrange(1 << 30)]

  for _ in range(r.randint(1, 3)):
    ops = []
    if r.random() < 0.8:
      ops.append(g.set(t, p))
    for _ in range(r.randint(1, 3)):
      if r.random() < 0.75:
        ops.append(dict(id=g.id(), do='disk', e=dmg()))
      ops.append(g.call(t))
    plan['phases'].append(dict(f=True, procs=[dict(threads=[ops])]))
  return plan


def judge_c05(run):
  judge_results(run)
  for rec in run.recs:
    if rec.op['do'] == 'call' and rec.status == 'ok' and rec.xn > 0:
      for p in rec.paths[1:2]:
        if p and not S.serves(rec.paths[0], rec.after.get(p), S.degree_of(rec.op)):
          run.viol.append('not-replaced: after generating degree %s the cache does not serve it' % rec.op['a'])


# -- C06 ----------------------------------------------------------------------
def gen_c06(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env()
  t = g.focus
  ps = [PATHS[0], PATHS[2]]
  p = ps[0]
  if r.random() < 0.5:
    env['cache'][p] = [t, r.choice([0, 1, 2])]
  plan = g.plan(env=env, policy=dict(short=r.choice([0, 0.1])))
  t2 = r.choice([x for x in S.TABLES if x != t])  # each path belongs to one table
  if r.random() < 0.35:  # faults first, then healing
    pol = plan['policy']
    k = r.choice(['err', 'kill', 'damage'])
    if k == 'err':
      pol.update(err=r.choice([0.05, 0.3]), errs=simfs.ERRS, max_faults=4)
    elif k == 'kill':
      pol.update(kill_f=0.08, max_faults=1)
    plan['phases'].append(dict(f=True, procs=[dict(threads=[[g.set(t, p), g.call(t), g.call(t)]])]))
    if k == 'damage':
      plan['phases'].append(dict(disk=['damage', p, r.choice(S.DAMAGES), r.randrange(1 << 30)]))
    plan['phases'].append(dict(disk=['heal', '']))
    plan['heal_at'] = len(plan['phases'])
  for _ in range(r.randint(2, 4)):
    ops = [g.set(t, p)]
    for _ in range(r.randint(1, 3)):
      if r.random() < 0.12:
        ops.append(g.set(t, r.choice(ps)))
      if r.random() < 0.2:
        ops.append(g.set(t2, PATHS[1]))
        ops.append(g.call(t2, hi=1))
      ops.append(g.call(t))
    if r.random() < 0.1:
      ops.append(dict(id=g.id(), do='disk', e=['unlink', p]))
    plan['phases'].append(dict(f=False, procs=[dict(threads=[ops])]))
  return plan


_cold = {}


def cold(t, d):
  """Symbolic work of generating degree d from nothing."""
  if (t, d) not in _cold:
    saved = core.SIM
    cur = world.WORLD.modules_now()
    try:
      _cold[(t, d)] = S.StorageRun(S.golden_plan(t, d)).execute().recs[-1].xn
    finally:
      core.SIM = saved
      world.WORLD.set_modules(cur)
  return _cold[(t, d)]


def judge_c06(run):
  judge_results(run)
  plan = run.plan
  heal = plan.get('heal_at', 0)
  first = {}
  for i, ph in enumerate(plan['phases']):
    for pr in ph.get('procs', ()):
      for th in pr['threads']:
        for op in th:
          first[op['id']] = i
  model = {}  # (table, path) -> highest degree known to be served
  cached = {}  # path -> (table, degree) known content
  for p, (t, d) in plan['env'].get('cache', {}).items():
    if not heal:
      model[(t, p)] = d
      cached[p] = d
  muts = {}
  for _, _, opid, name, path in run.fs.mutations:
    muts.setdefault(opid, []).append((name, path))
  for rec in run.recs:
    op = rec.op
    if first[op['id']] < heal:
      continue
    if op['do'] == 'disk':
      for k in [k for k in model if k[1] == op['e'][1]]:
        model.pop(k)
      cached.pop(op['e'][1], None)
      continue
    if op['do'] != 'call' or rec.status != 'ok':
      continue
    t, p = rec.paths[0], rec.paths[1]
    if not p:
      continue
    d = S.degree_of(op)
    known = model.get((t, p), -1)
    if d <= known:
      if rec.xn:
        run.viol.append('regenerated: degree %s although degree %s was stored' % (op['a'], known))
      if muts.get(op['id']):
        run.viol.append('rewrote: degree %s although degree %s was stored: %s' % (op['a'], known, muts[op['id']][:2]))
    else:
      c = cached.get(p, -1)
      if 1 <= c < d and rec.xn and rec.xn > cold(t, d) - 0.8 * cold(t, c) + 2:
        run.viol.append('regenerated-stored-part: extension %s->%s took %s symbolic steps, from nothing it takes %s' % (c, d, rec.xn, cold(t, d)))
      if rec.xn:
        cached[p] = d
        if not S.serves(t, rec.after.get(p), d):
          run.viol.append('not-stored: degree %s is not served from disk afterwards' % d)
      model[(t, p)] = d


# -- C07 ----------------------------------------------------------------------
def gen_c07(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env(hi=1)
  t = g.focus
  default = r.random() < 0.2
  p = None if default else r.choice(PATHS[:2])
  if default:
    env['pkg'][t] = r.choice(['none', 0, 1])
  elif r.random() < 0.45:
    env['cache'][p] = [t, r.choice([0, 1])]
  pol = dict(max_faults=0)
  if r.random() < 0.3:
    pol.update(task_exc=r.choice([0.02, 0.2]), task_excs=['MemoryError', 'RuntimeError', 'OSError'], max_faults=1)
  if r.random() < 0.15:
    pol.update(kill_f=0.05, max_faults=1)
  plan = g.plan(env=env, policy=pol, keep_values=True)
  d = r.choice([1, 2, 2, 3] if t != 'sh' else [1, 2, 3, 5])
  procs = [dict(threads=[[dict(id=g.id(), do='cli', table=t, deg=d, n=r.choice([None, 1, 2, 2, 3, 4, 7, 64]), path=p)]])]
  if r.random() < 0.2 and not default:
    pol['sw_f'] = 0.3
    procs.append(dict(threads=[[dict(id=g.id(), do='cli', table=t, deg=r.choice([0, 1, 2]), n=2, path=p)]]))
  plan['phases'].append(dict(f=True, procs=procs))
  if r.random() < 0.4:
    d2 = r.choice([x for x in DEG[t] if x <= 3])
    plan['phases'].append(dict(f=False, procs=[dict(threads=[[dict(id=g.id(), do='cli', table=t, deg=d2, n=r.choice([1, 2, 5]), path=p)]])]))
  ops = [] if default else [g.set(t, p)]
  ops += [g.call(t, d), g.call(t, hi=d)]
  plan['phases'].append(dict(f=False, procs=[dict(threads=[ops])]))
  plan['cpu'] = r.choice([1, 2, 4, 16])
  return plan


_refval = {}


def ref_value(op):
  """Bytes of the result with a sequentially generated table of that degree."""
  import json
  key = json.dumps({k: v for k, v in op.items() if k != 'id'}, sort_keys=True)
  if key not in _refval:
    saved = core.SIM
    cur = world.WORLD.modules_now()
    try:
      pl = dict(env=dict(pkg={}), seed=0, policy={}, keep_values=True,
                phases=[dict(procs=[dict(threads=[[dict(op, id='r')]])])])
      _refval[key] = S.StorageRun(pl).execute().recs[-1].value
    finally:
      core.SIM = saved
      world.WORLD.set_modules(cur)
  return _refval[key]


def judge_c07(run):
  failed = {r.op['id'] for r in run.recs if r.op['do'] == 'cli' and r.inj}
  for rec in run.recs:
    if rec.op['do'] == 'cli' and rec.inj and rec.status == 'ok':
      run.viol.append('worker-failure-hidden: the command reported success')
  judge_results(run, ok_exc=lambda r: r.op['do'] == 'cli' and r.inj)
  judge_instants(run, absent_ok=False)
  for rec in run.recs:
    if rec.op['do'] == 'call' and rec.status == 'ok':
      if rec.value != ref_value(rec.op):
        run.viol.append('not-identical: %s %s differs from sequential generation' % (rec.op['api'], rec.op['a']))
  clis = [r for r in run.recs if r.op['do'] == 'cli']
  done = [r.op['deg'] for r in clis if r.status == 'ok']
  overlapping = len(run.plan['phases'][0]['procs']) > 1
  if done and not failed and not run.killed and not overlapping:
    for rec in run.recs:
      if rec.op['do'] == 'call' and S.degree_of(rec.op) <= max(done) and rec.xn:
        run.viol.append('pre-generated-table-not-used: degree %s' % rec.op['a'])


# -- C08 ----------------------------------------------------------------------
def gen_c08(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env()
  t = g.focus
  t2 = r.choice([x for x in S.TABLES if x != t])
  own = {t: [PATHS[0], PATHS[2]], t2: [PATHS[1]]}
  for x, ps in own.items():
    for p in ps:
      if r.random() < 0.3:
        env['cache'][p] = [x, r.choice([0, 1])]
  if r.random() < 0.15:
    own[t].append(D + '/a/no/such/x.npz')
  if r.random() < 0.5:
    names = ['a/notes.txt', 'a/old.tmp', 'a/x.npz.bak', 'a/x.npz.tmp', 'a/x.tmp', 'b/z.npz.old', 'a/x.npy', 'b/tmp0', 'a/.x.npz.swp', 'a/x.npz.npz']
    env['others'] = [D + '/' + x for x in r.sample(names, 4)]
  mode = r.choice(['plain', 'err', 'conc', 'kill', 'conc+err'])
  pol = dict(max_faults=0, short=r.choice([0, 0.1]))
  if 'err' in mode:
    pol.update(err=r.choice([0.02, 0.1]), errs={k: v for k, v in simfs.ERRS.items() if k != 'unlink' or r.random() < 0.3}, max_faults=4)
    if r.random() < 0.3:
      pol.update(sticky=0.05, stickies=r.choice([['full', 'nearfull'], ['rofs']]))
  if mode == 'kill':
    pol.update(kill_f=0.05, max_faults=1)
  if 'conc' in mode:
    pol.update(sw_f=r.choice([0.1, 0.4]), hold=r.choice([0, 0.5]))
    if r.random() < 0.4:
      pol.update(lines=True, sw_l=0.05)
  plan = g.plan(env=env, policy=pol)
  for _ in range(r.randint(1, 2)):
    procs = []
    for _ in range(r.choice([2, 3]) if 'conc' in mode else 1):
      ops = []
      if r.random() < 0.75:
        ops.append(g.set(t, r.choice(own[t])))
      if r.random() < 0.5:
        ops.append(g.set(t2, r.choice(own[t2])))
      for _ in range(r.randint(1, 4)):
        c = r.random()
        if c < 0.15:
          ops.append(g.set(t, r.choice(own[t] + [None])))
        elif c < 0.3:
          ops.append(g.call(t2, hi=2))
        elif c < 0.37:
          k = r.choice(['lebedev', 'delley'])
          ops.append(dict(id=g.id(), do='grid', kind=k, precision=r.choice([3, 5, 9])))
        else:
          ops.append(g.call(t))
      procs.append(dict(threads=[ops]))
    plan['phases'].append(dict(f=True, procs=procs))
  return plan


def judge_c08(run):
  judge_stray(run)


# -- C13 (storage part) ---------------------------------------------------------
def gen_c13(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env()
  t = g.focus
  p = r.choice([PATHS[0], PATHS[0], None])
  if p and r.random() < 0.5:
    env['cache'][p] = [t, r.choice([0, 1, 2])]
  excs = r.choice([['KeyboardInterrupt'], ['KeyboardInterrupt'], ['MemoryError'], ['KeyboardInterrupt', 'MemoryError', 'RecursionError']])
  pol = dict(max_faults=r.choice([1, 1, 2, 3]), excs=excs, lines=True)
  if r.random() < 0.6:
    pol['exc_l'] = r.choice([0.003, 0.02, 0.1])
  if r.random() < 0.6 or 'exc_l' not in pol:
    pol['exc_f'] = r.choice([0.02, 0.1])
  plan = g.plan(env=env, policy=pol, keep_config=True)
  ops = [g.set(t, p)] if p else []
  for _ in range(r.randint(1, 3)):
    ops.append(g.call(t))
  clean = []
  if r.random() < 0.5:  # the same lookup once more
    clean.append(dict(r.choice([o for o in ops if o['do'] == 'call']), id=g.id()))
  for _ in range(r.randint(1, 3)):
    clean.append(g.call(t))
  if r.random() < 0.3:
    t2 = r.choice(S.TABLES)
    clean.append(g.call(t2, hi=1))
  # Faults happen in the first operations; later ones in the same process run undisturbed.
  plan['phases'].append(dict(f=True, procs=[dict(threads=[ops + [dict(id=g.id(), do='calm')] + clean])]))
  plan['phases'].append(dict(f=False, procs=[dict(threads=[([g.set(t, p)] if p else []) + [g.call(t)]])]))
  return plan


INTERRUPTS = ('KeyboardInterrupt', 'MemoryError', 'RecursionError')


def judge_c13(run):
  def fine(rec):
    if not rec.inj:
      return False
    exc, injected = rec.value
    e = exc
    for _ in range(10):
      if e is injected:
        return True
      if e is None:
        break
      e = e.__cause__ or e.__context__
    return False

  judge_results(run, ok_exc=fine)
  for rec in run.recs:
    if rec.inj and rec.op['do'] == 'call':
      if rec.status == 'ok' and rec.interrupt:
        run.viol.append('interrupt-swallowed: %s returned although it was interrupted' % rec.op['api'])
      if rec.status == 'exc':
        exc, injected = rec.value
        if isinstance(injected, KeyboardInterrupt) and not isinstance(exc, KeyboardInterrupt):
          run.viol.append('interrupt-replaced: %s' % rec.exc)
  prev = {}
  for rec in run.recs:
    if rec.cfg is None:
      continue
    q = prev.get(rec.proc)
    if q is not None and rec.op['do'] == 'call' and q != rec.cfg:
      run.viol.append('config-changed: by an aborted or completed call')
    prev[rec.proc] = rec.cfg
  judge_instants(run, absent_ok=False)
  if sum(bool(r.inj) for r in run.recs) == 1 and sum(n for k, n in run.sim.stats.items() if k.startswith('fault.') and k[6:] in INTERRUPTS) == 1:
    judge_stray(run, excuse_injected=False)


# -- C15: everything acquired is released ------------------------------------------
def gen_c15(seed, tier):
  """The histories of the other storage checks, without kills."""
  r = random.Random('c15/%d' % seed)
  kind = r.choice(['C01', 'C04', 'C04', 'C05', 'C07', 'C08', 'C08', 'C09', 'C09'])
  if any('quadrature' in n for n in world.DIRECTION.calls) and r.random() < 0.5:
    kind = 'C09'
  fail = False
  if world.DIRECTION.tables and r.random() < 0.4:  # generation may have changed
    kind, fail = r.choice(['C07', 'C07', 'C04', 'C08']), True
  plan = CHECKS[kind][0](seed, tier) if kind in CHECKS else MORE[kind](seed, tier)
  pol = plan['policy']
  if fail and kind == 'C07':
    pol.update(task_exc=r.choice([0.05, 0.3]), task_excs=['MemoryError', 'RuntimeError', 'OSError'], max_faults=1)
  for k in ('kill_f', 'kill_l'):
    pol.pop(k, None)
  plan['kind'] = kind
  return plan


def judge_c15(run):
  pass  # judged after every operation


MORE = {}


# -- C16: stalled and dead processes -------------------------------------------------
def gen_c16(seed, tier):
  g = G(seed, tier)
  r = g.r
  env = g.env()
  t = g.focus
  p = r.choice(PATHS[:2])
  if r.random() < 0.4:
    env['cache'][p] = [t, r.choice([0, 1])]
  pol = dict(sw_f=r.choice([0.02, 0.1, 0.3]), max_faults=r.choice([1, 1, 2, 3]))
  mode = r.choice(['stall', 'stall', 'stall', 'kill', 'both'])
  if mode != 'kill':
    if r.random() < 0.5:
      pol.update(lines=True, stall_l=r.choice([0.005, 0.02]))
    else:
      pol['stall_f'] = r.choice([0.02, 0.08])
  if mode != 'stall':
    pol['kill_f'] = r.choice([0.01, 0.05])
  if r.random() < 0.4:
    pol.update(ext=0.05, exts=['jump'])
  plan = g.plan(env=env, policy=pol, op_limit=30_000)
  cli = r.random() < 0.2
  procs = []
  for _ in range(r.choice([2, 2, 3])):
    ops = [g.set(t, p)] + [g.call(t) for _ in range(r.randint(1, 3))]
    if cli and r.random() < 0.6:
      ops = [dict(id=g.id(), do='cli', table=t, deg=r.choice([0, 1, 2]), n=r.choice([1, 2, 3]), path=p)]
    if r.random() < 0.15:
      t2 = r.choice([x for x in S.TABLES if x != t])
      ops += [g.set(t2, PATHS[2]), g.call(t2, hi=1)]
    procs.append(dict(threads=[ops]))
  if r.random() < 0.2:
    procs[0]['threads'].append([g.set(t, p), g.call(t)])
  plan['phases'].append(dict(f=True, procs=procs))
  last = [g.set(t, p), g.call(t), g.call(t)]
  if r.random() < 0.3:  # processes die while they store, then the clock is set, then others come
    pol = dict(sw_f=0.05, kill_f=r.choice([0.02, 0.06, 0.12]), max_faults=r.choice([1, 2, 3]))
    plan['policy'] = pol
    plan['phases'].append(dict(disk=['jump', '', r.choice([-1e6, -1e4, -300.0, 300.0, 1e6])]))
    last.append(g.call(t, max(DEG[t][:4])))
  plan['phases'].append(dict(f=False, procs=[dict(threads=[last])]))
  return plan


def judge_c16(run):
  judge_results(run)
  judge_instants(run, absent_ok=False)


CHECKS = {
    'C15': (gen_c15, judge_c15),
    'C16': (gen_c16, judge_c16),
    'C01': (gen_c01, judge_c01),
    'C02': (gen_c02, judge_c02),
    'C03': (gen_c03, judge_c03),
    'C04': (gen_c04, judge_c04),
    'C05': (gen_c05, judge_c05),
    'C06': (gen_c06, judge_c06),
    'C07': (gen_c07, judge_c07),
    'C08': (gen_c08, judge_c08),
    'C13': (gen_c13, judge_c13),
}


NAMES = ['x', 'x.tmp', 'x y.npz', 'x.y.npz', '.x', 'x.npy', 'x.npz.gz', 'ä.npz', 'X.NPZ', 'cache.npz.0123.tmp']


def named(plan, seed):
  """The same plan with an unusual name of the first cache file in one of eight seeds."""
  r = random.Random('names/%d' % seed)
  new = D + '/a/' + r.choice(NAMES)
  if r.random() > 0.125 or any(new == x for x in plan.get('env', {}).get('others', ())):
    return plan

  def sub(x):
    if isinstance(x, dict):
      return {sub(k): sub(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
      return [sub(v) for v in x]
    return new if isinstance(x, str) and x == PATHS[0] else x

  return sub(plan)


CHECKS = {k: (lambda seed, tier, g=g: named(g(seed, tier), seed), j) for k, (g, j) in CHECKS.items()}


def run_plan(check, plan, decisions=None):
  world.WORLD.cpu = plan.get('cpu', 4)
  run = S.StorageRun(plan)
  run.execute(decisions)
  CHECKS[check][1](run)
  return run
