"""Generators and judges of the checks over the whole public API: C09..C14."""
import io
import itertools
import os
import random

import numpy as np

from . import catalog as K
from . import procstate
from . import lib as L
from . import storage as S
from . import storage_checks as SC
from . import world

GRID = {'lebedev': os.path.join(world.PKG, '_lebedev_grids.npz'), 'delley': os.path.join(world.PKG, '_delley_grids.npz')}
HEAVY = K.HEAVY


class Ids:

  def __init__(self):
    self.n = 0

  def __call__(self):
    self.n += 1
    return 'o%d' % self.n


def start(seed, tag):
  return random.Random('%s/%d' % (tag, seed)), Ids()


# -- C09: quadrature grids -------------------------------------------------------
_grids = {}


def grid_tables(kind):
  if kind not in _grids:
    with np.load(io.BytesIO(S.real_file(os.path.basename(GRID[kind])))) as f:
      _grids[kind] = {k: f[k] for k in f.files}
  return _grids[kind]


def grid_expect(op):
  """The documented grid, by a linear scan."""
  g = grid_tables(op['kind'])
  prec, num = [int(x) for x in g['precision']], [int(x) for x in g['num']]
  best = None
  if op.get('precision') is not None:
    for i, p in enumerate(prec):  # smallest grid of at least that precision
      if p >= op['precision'] and (best is None or num[i] < num[best]):
        best = i
    if best is None:  # clamped: the most precise
      best = max(range(len(prec)), key=lambda i: prec[i])
  else:
    for i, n in enumerate(num):  # largest grid with at most that many points
      if n <= op['num'] and (best is None or num[i] > num[best]):
        best = i
    if best is None:
      best = min(range(len(num)), key=lambda i: num[i])
  return g['r%d' % best], g['w%d' % best]


def gen_c09(seed, tier):
  r, nid = start(seed, 'c09')
  kinds = ['lebedev', 'delley']
  focus = kinds[seed % 2]
  used = []

  def req(kind=None):
    kind = kind or (focus if r.random() < 0.8 else r.choice(kinds))
    g = grid_tables(kind)
    op = dict(id=nid(), do='grid', kind=kind)
    if used and r.random() < 0.3:  # a value of an earlier request, possibly for the other quantity
      op[r.choice(['precision', 'num'])] = r.choice(used)
    elif r.random() < 0.5:
      op['precision'] = int(r.choice([-2, 0, 1, 500, int(r.choice(list(g['precision']))) + r.choice([-1, 0, 0, 1])]))
    else:
      op['num'] = int(r.choice([-1, 0, 1, 10**6, int(r.choice(list(g['num']))) + r.choice([-1, 0, 0, 1])]))
    used.append(op.get('precision', op.get('num')))
    return op

  mode = r.choice(['plain', 'err', 'damage', 'damage', 'damage', 'missing', 'conc', 'conc+damage'])
  pol = dict(max_faults=0, short=r.choice([0, 0.1, 0.5]))
  if mode == 'err':
    pol.update(err=r.choice([0.05, 0.3]), max_faults=r.choice([1, 2, 4]), err_where='pkg',
               errs={k: ['EIO', 'EACCES', 'ENOENT', 'EMFILE', 'ENOMEM', 'ESTALE'] if k == 'open' else ['EIO', 'ESTALE', 'ENOMEM']
                     for k in ('open', 'openr', 'read', 'stat', 'close', 'seek')})
  if 'conc' in mode:
    pol.update(sw_f=r.choice([0.2, 0.5]), lines=True, sw_l=r.choice([0.02, 0.1]), hold=r.choice([0, 0.5]))
  if mode == 'conc+damage':
    pol.update(ext=0.05, exts=['grid'], max_faults=2)
  plan = dict(seed=seed, env=dict(pkg={}), policy=pol, phases=[])
  for _ in range(r.randint(1, 2)):
    ths = []
    for _ in range(r.choice([2, 3]) if 'conc' in mode else 1):
      ops = []
      for _ in range(r.randint(1, 3)):
        ops.append(req())
        c = r.random()
        if mode == 'damage':
          ops.append(dict(id=nid(), do='disk', e=['damage', GRID[focus], r.choice(S.DAMAGES), r.randrange(1 << 30)]))
          ops += [req(focus) for _ in range(r.randint(1, 3))]
          if c < 0.6:
            ops.append(dict(id=nid(), do='disk', e=['restore', GRID[focus]]))
            ops.append(req(focus))
        elif mode == 'missing':
          ops.append(dict(id=nid(), do='disk', e=[r.choice(['unlink', 'deny']), GRID[focus]]))
          ops += [req(focus) for _ in range(r.randint(1, 2))]
          if c < 0.7:
            ops += [dict(id=nid(), do='disk', e=['heal']), dict(id=nid(), do='disk', e=['restore', GRID[focus]]), req(focus)]
      ths.append(ops)
    plan['phases'].append(dict(f=True, procs=[dict(threads=ths)]))
  plan['phases'] += [dict(disk=['heal']), dict(disk=['restore', GRID['lebedev']]), dict(disk=['restore', GRID['delley']]),
                     dict(f=False, procs=[dict(threads=[[req('lebedev'), req('delley')]])])]
  return plan


class GridRun(L.LibRun):
  """Knows at any time whether the grid files are healthy."""

  def sick(self, kind):
    fs = self.sim.fs
    p = GRID[kind]
    return fs.get(p) != self.pkgbytes.get(p) or p in fs.deny

  def pick_ext(self, r, actor, kind, info):
    p = GRID[r.choice(sorted(GRID))]
    return r.choice([['damage', p, r.choice(S.DAMAGES), r.randrange(1 << 30)], ['unlink', p], ['restore', p]])

  def apply_ext(self, e):
    super().apply_ext(e)
    for rec in self.recs:
      if rec.op['do'] == 'grid' and rec.t1 is None:
        rec.after['disturbed'] = True

  def do_op(self, actor, op):
    if op['do'] != 'grid':
      return super().do_op(actor, op)
    sick = self.sick(op['kind'])
    try:
      super().do_op(actor, op)
    finally:
      for rec in reversed(self.recs):
        if rec.op is op:
          if sick or rec.err or self.sick(op['kind']):
            rec.after['disturbed'] = True
          break


def judge_c09(run):
  for rec in run.recs:
    op = rec.op
    if op['do'] != 'grid':
      continue
    what = '%s(%s)' % (op['kind'], 'precision' if op.get('precision') is not None else 'num')
    if rec.status == 'ok':
      rw = grid_expect(op)
      ok = len(rec.value) == 2 and all(v.shape == e.shape and v.dtype.kind == 'f' and (v == e.astype(v.dtype)).all() for v, e in zip(rec.value, rw))
      if not ok:
        run.viol.append('wrong-grid: %s does not return the documented grid' % what)
    elif rec.status == 'exc':
      exc = rec.value[0] if isinstance(rec.value, tuple) else rec.value
      if not rec.after.get('disturbed'):
        run.viol.append('call-failed: %s although its file is intact: %s' % (what, rec.exc))
      elif not isinstance(exc, RuntimeError):
        run.viol.append('wrong-error: %s raises %s instead of RuntimeError' % (what, type(exc).__name__))


# -- C10: configured defaults ------------------------------------------------------
SLOTAPIS = ['Tensor', 'FusedTensor', 'TensorDense', 'MessagePass', 'SelfAttention', 'MultiHeadAttention']
APIS = sorted(L.CAPI)


def gen_c10_cache(seed, tier):
  """One caller, another thread that switches the cache path meanwhile."""
  g = SC.G(seed, tier)
  r = g.r
  t = g.focus
  env = dict(pkg={}, cache={}, dirs=[S.D + '/a', S.D + '/b'])
  ps = [SC.PATHS[0], SC.PATHS[2]]
  for p, x in zip(ps, r.sample([0.25, 0.8], 2)):
    if r.random() < x:
      env['cache'][p] = [t, r.choice([0, 1, 2, 2])]
  pol = dict(max_faults=0, sw_f=r.choice([0.1, 0.3, 0.6]), lines=True, sw_l=r.choice([0.02, 0.1, 0.3]), sw_l0=r.choice([0, 0.01]), hot=r.choice([0, 5]))
  calls = [g.call(t, hi=2) for _ in range(r.randint(1, 3))]
  sets = []
  for _ in range(r.randint(2, 6)):
    sets.append(g.set(t, r.choice(ps + [None])) if r.random() < 0.85 else g.set(r.choice(S.TABLES), None))
  for op in sets:
    if r.random() < 0.8:
      op['yield'] = 1
  first = [] if r.random() < 0.3 else [g.set(t, r.choice(ps))]
  phases = [dict(f=True, procs=[dict(name='0', threads=[first + calls, sets])])]
  return g.plan(env=env, policy=pol, phases=phases, kind='cache', snapshot=True)


def judge_c10_cache(run):
  """Every call uses one of the paths configured during it, for loading as well as for storing."""
  SC.judge_results(run)
  t = None
  for rec in run.recs:
    if rec.op['do'] == 'call':
      t = S.API_TABLE[rec.op['api']]
  sets = [x for x in run.recs if x.op['do'] == 'set' and x.op['table'] == t]
  writes = [(-2, -1, None)] + [(x.t0, x.t1, x.op.get('path')) for x in sets if x.status == 'ok']

  def allowed(a, b):
    return {w[2] for w in writes if w[0] <= b and not any(x[0] > w[1] and x[1] < a for x in writes)}

  before = {p: S.golden(*run.plan['env']['cache'][p]) if p in run.plan['env']['cache'] else None for p in run.paths}
  for rec in run.recs:
    if rec.op['do'] != 'call' or rec.status != 'ok':
      continue
    d = S.degree_of(rec.op)

    def fits(p):
      for q in run.paths:
        if q != p and rec.all_after.get(q) != before.get(q):
          return False
      if p is None:
        return True
      if S.serves(t, before.get(p), d):
        return rec.all_after.get(p) == before.get(p)
      return S.serves(t, rec.all_after.get(p), d)

    if not any(fits(p) for p in allowed(rec.t0, rec.t1)):
      run.viol.append('mixed-cache-paths: %s of degree %s neither used one configured path nor the other' % (rec.op['api'], d))
    before = rec.all_after


def gen_c10(seed, tier):
  if seed % 7 == 6:
    return gen_c10_cache(seed, tier)
  r, nid = start(seed, 'c10')
  d = directed(seed, {n for n in K.NAMES if n.split('.')[-1] in APIS})
  focus = d.split('.')[-1] if d else APIS[seed % len(APIS)]
  conc = r.random() < 0.62
  pol = dict(max_faults=0)
  if conc:
    pol.update(lines=True, sw_l=r.choice([0.02, 0.1, 0.3]), sw_l0=r.choice([0, 0.01]), hold=r.choice([0, 0, 0.7]), hot=r.choice([0, 5]))
  heavy = focus in ('MessagePass', 'SelfAttention', 'MultiHeadAttention', 'FusedTensor', 'TensorDense', 'Tensor')

  def setter():
    c = r.random()
    if c < 0.2:
      s = r.choice(L.CACHES)
      return dict(id=nid(), do='cfg', set=s, val=r.choice([None, S.D + '/a/x.npz', S.D + '/a/y.npz']))
    if c < 0.28:
      return dict(id=nid(), do='cfg', set=L.N, val=r.choice(['bogus', '', 'RACAH', None, 4]))
    s = r.choice(list(L.CAPI[focus][0])) if r.random() < 0.75 else r.choice([L.C, L.N, L.F])
    op = dict(id=nid(), do='cfg', set=s, val=r.choice(L.VALUES[s]))
    if r.random() < 0.1:
      del op['val']
    return op

  def call(api):
    kw = {}
    for s in L.CAPI[api][0]:
      if r.random() < (0.5 if conc else 0.25):
        kw[s] = r.choice(L.VALUES[s])
    return dict(id=nid(), do='capi', api=api, kw=kw)

  def history(n, slots):
    ops = []
    made = []
    for _ in range(n):
      c = r.random()
      if c < 0.5:
        ops.append(setter())
      elif c < 0.6:
        ops.append(dict(id=nid(), do='get', set=r.choice([L.C, L.N, L.F])))
      elif c < 0.72 and focus in SLOTAPIS:
        sl = '%s%d' % (slots, len(made))
        kw = {s: r.choice(L.VALUES[s]) for s in L.CAPI[focus][0] if r.random() < 0.2}
        ops.append(dict(id=nid(), do='mk', api=focus, slot=sl, kw=kw))
        made.append(sl)
      elif c < 0.85 and made:
        ops.append(dict(id=nid(), do='use', api=focus, slot=r.choice(made)))
      elif c < 0.9 and not heavy:
        ops.append(call(r.choice(APIS[:4] + ['basis', 'solid_harmonics', 'spherical_harmonics', 'tensor_to_irreps'])))
      else:
        ops.append(call(focus))
    ops.append(call(focus))
    return ops

  ths = [history(r.randint(3, 5 if heavy or conc else 8), 'abcd'[i]) for i in range(r.choice([2, 2, 3]) if conc else 1)]
  if conc and r.random() < 0.3:
    ths[0] = [setter() for _ in range(r.randint(2, 6))]
  elif conc and r.random() < 0.75:  # looks at the settings now and then
    ths[0] = [dict(id=nid(), do='get', set=r.choice([L.C, L.C, L.N, L.F])) for _ in range(r.choice([10, 25, 50]))]
    for o in ths[0]:
      o['yield'] = 1
  return dict(seed=seed, env=L.lib_env(), policy=pol, keep_config=True, phases=[dict(f=True, procs=[dict(threads=ths)])])


def judge_c10(run):
  """Register semantics: a read sees the latest or an overlapping write."""
  if run.plan.get('kind') == 'cache':
    return judge_c10_cache(run)
  bad = ('killed', 'unfinished')
  writes = {}
  init = dict(L.DEFAULTS)
  init.update({c: None for c in L.CACHES})
  for s, v in init.items():
    writes[s] = [(-2, -1, v)]
  for rec in run.recs:
    op = rec.op
    if op['do'] != 'cfg':
      continue
    val = op.get('val', init[op['set']])
    valid = op['set'] in L.CACHES or (op['set'] != L.N) or val in L.VALUES[L.N]
    if valid:
      if rec.status == 'exc':
        run.viol.append('setter-failed: %s(%r): %s' % (op['set'], val, rec.exc))
      writes[op['set']].append((rec.t0, rec.t1, val))
    elif rec.status != 'exc' or rec.err != 'ValueError':
      run.viol.append('invalid-value-accepted: %s(%r)' % (op['set'], val))

  def allowed(s, a, b):
    out = []
    for w in writes[s]:
      if w[0] > b:
        continue
      if any(x[0] > w[1] and x[1] < a for x in writes[s]):
        continue
      if w[2] not in out:
        out.append(w[2])
    return out

  made = {}

  def result_in(rec, api, kw, a, b):
    names = L.CAPI[api][0]
    opts = [[kw[s]] if s in kw else allowed(s, a, b) for s in names]
    for combo in itertools.product(*opts):
      e = L.ref(dict(do='capi', api=api, kw=dict(zip(names, combo))))
      if e[0] == rec.status and e[1] == (rec.value[0] if rec.status == 'ok' else rec.err):
        return None
    return ' or '.join(sorted(set(','.join('%s' % x for x in c) for c in itertools.product(*opts))))

  for rec in run.recs:
    op = rec.op
    if rec.status in bad:
      continue
    if op['do'] == 'get' and rec.value not in allowed(op['set'], rec.t0, rec.t1):
      run.viol.append('stale-setting: Config.%s is %r' % (op['set'], rec.value))
    elif op['do'] == 'capi':
      kw = op.get('kw', {})
      d = result_in(rec, op['api'], kw, rec.t0, rec.t1)
      if d is not None:
        run.viol.append('wrong-default: %s%s does not behave as configured' % (op['api'], ' with explicit values' if len(kw) == len(L.CAPI[op['api']][0]) else ''))
    elif op['do'] == 'mk':
      made[op['slot']] = rec
      if rec.status == 'exc':
        run.viol.append('construction-failed: %s: %s' % (op['api'], rec.exc))
    elif op['do'] == 'use':
      m = made.get(op['slot'])
      if m is not None and m.status == 'ok':
        d = result_in(rec, op['api'], m.op.get('kw', {}), m.t0, m.t1)
        if d is not None:
          run.viol.append('wrong-default: %s instance does not keep the values it was constructed with' % op['api'])
    if rec.cfg is not None and rec.t1 is not None:
      for s in writes:
        if rec.cfg[s] not in [str(v) for v in allowed(s, rec.t1, rec.t1 + 0.5)]:
          run.viol.append('setting-changed: Config.%s is %s after %s' % (s, rec.cfg[s], op.get('set', op.get('api', op['do']))))


# -- C11: concurrent callers -----------------------------------------------------------
def rand_conf(r):
  """Settings of the documented configuration."""
  return {s: r.choice(L.VALUES[s]) for s in (L.C, L.N, L.F) if r.random() < 0.5}


def tweak(r, name, v):
  """Makes one random choice of a variant anew."""
  n = K.build(world.WORLD.probe_e3x(), name, v).choices
  return [r.randrange(n), r.randrange(4)] if n else None


def lib_op(r, nid, name, ctxs=('eager',), x64s=(False,), vs=(0, 1, 2, 3, 4, 5), conf=None, **kw):
  v = r.choice((0, 1, 2) if name in HEAVY and len(vs) > 3 else vs)
  op = dict(id=nid(), do='lib', fn=name, v=v, ctx=r.choice(ctxs), x64=r.choice(x64s))
  if name not in K.CBS and r.random() < 0.3:
    t = tweak(r, name, v)
    if t:
      op['tw'] = t
  if conf is not None:
    op['conf'] = r.choice(conf)
  op.update(kw)
  return op


GROUPS = K.groups()
GROUP_OF = {n: g for g in GROUPS for n in g}


def related(r, name):
  """Another name of the same group."""
  return r.choice([n for n in GROUP_OF[name] if n not in HEAVY])


ROUNDS = {k: [K.rounds(g, k) for g in GROUPS] for k in (11, 12, 13)}


CHANGED = [n for n in world.DIRECTION.calls if n in GROUP_OF or n in K.RANDOM for _ in range(1 if n in HEAVY else 3)]


def directed(seed, names):
  """One of the given names that reaches a changed function, in part of the runs."""
  r = random.Random('directed/%d' % seed)
  names = [n for n in CHANGED if n in names]
  return r.choice(names) if names and r.random() < 0.6 else None


def directed_storage(seed):
  """Changes below the lookup tables are mostly reached when these are generated or stored."""
  return any(os.path.basename(f) in BELOW for f, _ in world.DIRECTION.changed) and random.Random('storage/%d' % seed).random() < 0.6


BELOW = {'_lookup_table_generation_utility.py', '_symbolic.py', '_spherical_harmonics_lut.py', '_clebsch_gordan_lut.py', '_wigner_d_lut.py',
         '_tensor_conversion_lut.py'}


def focus_of(k, seed):
  d = directed(seed, GROUP_OF)
  if d:
    return d
  rounds = ROUNDS[k][seed % K.NG]
  return rounds[seed // K.NG % len(rounds)]


def gen_c11(seed, tier):
  r, nid = start(seed, 'c11')
  focus = focus_of(11, seed)
  heavy = focus in HEAVY
  pol = dict(max_faults=0, lines=True, sw_l=r.choice([0.02, 0.1, 0.3]), sw_l0=r.choice([0, 0, 0.005]), sw_f=r.choice([0, 0.1]),
             hold=r.choice([0, 0.5, 0.9]), hot=r.choice([0, 5, 20]))
  n = r.choice([2, 2, 3, 4]) if not heavy else 2
  ctxs = r.choice([('eager',), ('eager',), ('eager', 'jit'), ('eager', 'jit', 'grad', 'vmap')])
  x64s = r.choice([(False,), (False,), (True,), (False, True)])
  share = focus in K.MODULES and r.random() < 0.6
  vs = (0, 1, 2, 3, 4, 5)
  if share or r.random() < 0.4:
    vs = (r.choice(vs),)
  ths = []
  for _ in range(n):
    ops = []
    for _ in range(1 if heavy else r.choice([1, 1, 2, 3])):
      name = focus if r.random() < 0.75 else related(r, focus)
      op = lib_op(r, nid, name, ctxs, x64s, vs if name == focus else (0, 1, 2, 3))
      if share and name == focus:
        op['share'] = True
        if r.random() < 0.8:
          op.pop('tw', None)
      ops.append(op)
    ths.append(ops)
  if r.random() < 0.45:  # all callers do the same: whatever one of them leaves behind is of use to another
    if not heavy and len(ths[0]) == 1:
      ths[0].append(dict(ths[0][0], id=nid(), v=r.randrange(6)))
    ths = [ths[0]] + [[dict(o, id=nid()) for o in ths[0]] for _ in ths[1:]]
  return dict(seed=seed, env=L.lib_env(), policy=pol, phases=[dict(f=True, procs=[dict(threads=ths)])])


def judge_same(run, what, skip=lambda rec: False):
  """Every library call equals the same call made alone."""
  for rec in run.recs:
    op = rec.op
    if op['do'] != 'lib' or rec.status in ('killed', 'unfinished') or skip(rec):
      continue
    if rec.detail.startswith('argument-modified'):
      run.viol.append('%s' % rec.detail)
    e = REF(op)
    got = rec.value[0] if rec.status == 'ok' else rec.err
    if (rec.status, got) == (e[0], e[1]):
      continue
    how = 'fails with %s' % rec.exc if rec.status == 'exc' else 'succeeds' if e[0] == 'exc' else 'differs'
    if rec.status == 'ok' and e[0] == 'ok' and e[2] is not None:
      d = L.close(rec.value[1], e[2], 0.0)
      how = 'differs (%s)' % (d.split(' by ')[0] if d else 'type')
    run.viol.append('%s: %s [%s] %s' % (what, op['fn'], op.get('ctx', 'eager'), how))


REF = L.ref


def judge_c11(run):
  judge_same(run, 'not-as-alone')


# -- C12: histories ------------------------------------------------------------------
def gen_c12(seed, tier):
  r, nid = start(seed, 'c12')
  focus = focus_of(12, seed)
  heavy = focus in HEAVY
  n = r.choice([2, 3]) if heavy else r.choice([3, 4, 5, 6, 8])
  ctxs = r.choice([('eager',), ('eager', 'jit'), L.CTX, L.CTX])
  x64s = r.choice([(False,), (False, True), (False, True)])
  conf = None
  if focus in K.CONFIGURED and r.random() < 0.5:
    conf = [rand_conf(r) for _ in range(r.choice([1, 2, 3]))]
  # mostly one variant and its siblings, which differ from it in one factor
  vs = r.choice([(0, 1, 2, 3, 4, 5), (r.randrange(12),), (r.randrange(12), r.randrange(12))])
  bare = focus in BARE and r.random() < 0.25
  ops = []
  for _ in range(n):
    name = focus if r.random() < 0.8 or heavy else related(r, focus)
    op = lib_op(r, nid, name, ctxs, x64s, vs if name == focus else (0, 1, 2, 3, 4, 5), conf)
    if r.random() < 0.35:
      op['np'] = True
    if r.random() < 0.4:
      op['scribble'] = True
    if r.random() < 0.3 and name in K.MODULES:
      op['share'] = True
    ops.append(op)
  # an earlier call again, plainly
  again = dict(r.choice([o for o in ops if o['fn'] == focus] or ops), id=nid())
  ops.append(again)
  c = r.random()
  if c < 0.12 and focus in K.TABLED:
    ops = tour(r, nid, [n for n in K.TABLED if GROUP_OF[n] is GROUP_OF[focus]])
  elif c < 0.6:
    ops, bare = sweep(r, nid, focus), False
  elif not heavy and r.random() < 0.4:  # both precisions, in this order
    ops.append(dict(again, id=nid(), ctx='eager', x64=False))
    ops.append(dict(again, id=nid(), ctx='eager', x64=True))
  if bare:
    for o in ops:
      o['bare'] = True
  return dict(seed=seed, env=L.lib_env(not bare), policy=dict(max_faults=0), phases=[dict(f=True, procs=[dict(threads=[ops])])])


def sweep(r, nid, focus):
  """A call, its siblings that differ in one respect each, and the call again."""
  v = r.choice([0, 0, r.randrange(12)])
  n = K.build(world.WORLD.probe_e3x(), focus, v).choices
  base = dict(do='lib', fn=focus, v=v, ctx='eager', x64=r.random() < 0.2)
  sibs = [dict(base, tw=[i, r.randrange(4)]) for i in r.sample(range(n), min(n, 2 if focus in HEAVY else r.choice([3, 5])))]
  if focus not in HEAVY:
    sibs.append(dict(base, x64=not base['x64']))
    if r.random() < 0.4:
      sibs.append(dict(base, ctx=r.choice(L.CTX)))
  if focus in K.CONFIGURED:
    base['conf'] = {}
    sibs = [dict(o, conf={}) for o in sibs]
    if focus not in HEAVY:
      sibs.append(dict(base, conf=rand_conf(r)))
  r.shuffle(sibs)
  ops = [base] + sibs + [base]
  if r.random() < 0.5:  # the very first use happens while tracing
    ops.insert(0, dict(base, ctx=r.choice(('evalshape', 'makejaxpr', 'jitabort', 'jit'))))
  ops = [dict(o, id=nid()) for o in ops]
  for o in ops:
    if r.random() < 0.25:
      o['scribble'] = True
    if r.random() < 0.15:
      o['np'] = True
  if focus in K.MODULES and r.random() < 0.3:
    for o in ops:
      o['share'] = True
  return ops


def tour(r, nid, names):
  """Each of several functions that keep or look up tables, in changing modes."""
  ops = []
  v = r.choice([0, 0, r.randrange(6)])
  for name in names:
    a = dict(do='lib', fn=name, v=v, ctx='eager', x64=False, conf={})
    k = r.choice(['precision', 'precision', 'precision', 'context', 'config'])
    if k == 'precision':
      xs = [dict(a, x64=x) for x in r.choice([(False, True), (True, False), (False, True, False)])]
    elif k == 'context':
      xs = [dict(a, ctx=c) for c in r.choice([('jit', 'eager'), ('jitabort', 'eager'), ('eager', 'vmap'), ('grad', 'jit')])]
    else:
      c = rand_conf(r)
      xs = [dict(a, conf=c), dict(a, conf=rand_conf(r)), dict(a, conf=c)]
    for x in xs:
      ops.append(dict(x, id=nid()))
      if r.random() < 0.3:
        ops[-1]['scribble'] = True
  return ops


# Entries that are also run without stored Clebsch-Gordan and Wigner-D tables, so that the tables
# are generated within the call (and within its transformation).
BARE = ['so3.clebsch_gordan', 'so3.clebsch_gordan_for_degrees', 'so3.wigner_d', 'nn.Tensor', 'nn.FusedTensor', 'nn.TensorDense',
        'matrix.make_square_matrix']


AGREE = {'jit': ('eager', lambda a: a), 'vmap': ('eager', lambda a: a[0]), 'scan': ('eager', lambda a: a[0]), 'jitgrad': ('grad', lambda a: a)}


def judge_c12(run):
  judge_same(run, 'history-dependent')
  seen = set()
  for rec in run.recs:
    op = rec.op
    if op['do'] != 'lib':
      continue
    ctx = op.get('ctx')
    key = L.ref_key({k: v for k, v in op.items() if k != 'np'})
    if key in seen:
      continue
    seen.add(key)
    base = {k: v for k, v in op.items() if k != 'np'}
    if ctx in AGREE:
      other, take = AGREE[ctx]
      a, b = L.ref(base), L.ref(dict(base, ctx=other))
      if a[0] == b[0] == 'ok':
        eff, half = L.applies(op, ctx)
        tol = 0.1 if half else 1e-9 if op['x64'] and op['fn'] not in K.RANDOM else 3e-4
        d = L.close([take(x) for x in a[2]] if eff == ctx else a[2], b[2], tol)
        if d:
          run.viol.append('transformation-dependent: %s [%s] %s' % (op['fn'], ctx, d.split(' by ')[0]))
      elif a[0] != b[0]:
        run.viol.append('transformation-dependent: %s [%s] %s' % (op['fn'], ctx, a[3] or b[3]))
    elif ctx in ('evalshape', 'makejaxpr'):
      a, b = L.ref(base), L.ref(dict(base, ctx='eager'))
      if a[0] != b[0] or a[0] == 'ok' and [(x.shape, x.dtype) for x in a[2]] != [(x.shape, x.dtype) for x in b[2]]:
        run.viol.append('transformation-dependent: %s [%s] shape or type' % (op['fn'], ctx))


# -- C13: aborted calls (library part) -----------------------------------------------
def gen_c13(seed, tier):
  if seed % 3 == 0 or directed_storage(seed):
    p = SC.gen_c13(seed, tier)
    p['kind'] = 'storage'
    return p
  r, nid = start(seed, 'c13')
  focus = focus_of(13, seed)
  heavy = focus in HEAVY
  excs = r.choice([['KeyboardInterrupt'], ['KeyboardInterrupt'], ['MemoryError'], ['KeyboardInterrupt', 'MemoryError', 'RecursionError']])
  pol = dict(max_faults=r.choice([1, 1, 2]), excs=excs, lines=True, exc_l=r.choice([0.01, 0.05, 0.3]), exc_f=r.choice([0, 0.05]))
  ctxs = r.choice([('eager',), ('eager', 'jit', 'grad'), L.CTX])
  conf = [rand_conf(r)] if r.random() < 0.4 else None
  bare = focus in BARE and r.random() < 0.25
  vs = r.choice([(0, 1, 2, 3, 4, 5), (r.randrange(12),)])
  ops = []
  for _ in range(1 if heavy else r.choice([1, 2, 3])):
    ops.append(lib_op(r, nid, focus if r.random() < 0.85 else related(r, focus), ctxs, (False, True), vs))
  if r.random() < 0.4:
    ops.insert(r.randrange(len(ops) + 1), lib_op(r, nid, r.choice(K.CBS), ('eager', 'jit', 'evalshape'), (False, True)))
  share = focus in K.MODULES and r.random() < 0.5
  clean = []
  for o in ops[-1:] if heavy else ops:
    if o['fn'] not in K.CBS:
      clean.append(dict(o, id=nid()))
  if not heavy:
    clean.append(lib_op(r, nid, focus, ('eager', 'jit'), (False, True)))
  if r.random() < 0.3:
    clean.append(lib_op(r, nid, r.choice(K.CBS), ('eager', 'jit'), (False,)))
  for o in ops + clean:
    if share and o['fn'] == focus:
      o['share'] = True
      if not o.get('ctx'):
        o['ctx'] = 'eager'
    if conf is not None:
      o['conf'] = conf[0]
    if bare:
      o['bare'] = True
  return dict(kind='lib', seed=seed, env=L.lib_env(not bare), policy=pol, jax_lines=True, keep_config=True,
              phases=[dict(f=True, procs=[dict(threads=[ops + [dict(id=nid(), do='calm')] + clean])])])


def reaches(rec):
  """Does the injected exception reach the caller?"""
  exc, injected = rec.value
  e = exc
  for _ in range(10):
    if e is injected:
      return True
    if e is None:
      return False
    e = e.__cause__ or e.__context__
  return False


def judge_c13(run):
  if run.plan['kind'] == 'storage':
    return SC.judge_c13(run)

  def skip(rec):
    # An aborted call: the error must reach the caller.
    return rec.inj and rec.status == 'exc' and reaches(rec)

  judge_same(run, 'trace-of-aborted-call', skip)
  for rec in run.recs:
    op = rec.op
    if op['do'] != 'lib':
      continue
    if op['fn'] in K.CBS and not rec.inj and rec.err != 'Boom':
      run.viol.append('callback-error-lost: %s: %s' % (op['fn'], rec.exc or rec.status))
    if rec.inj and rec.interrupt:
      if rec.status == 'ok':
        run.viol.append('interrupt-swallowed: %s' % op['fn'])
      elif rec.status == 'exc' and not isinstance(rec.value[0], KeyboardInterrupt):
        run.viol.append('interrupt-replaced: %s by %s' % (op['fn'], rec.err))
    if rec.cfg is not None and rec.cfg0 != rec.cfg:
      run.viol.append('config-changed: by %s' % op['fn'])


# -- C14: randomness ------------------------------------------------------------------
RAND = [n for n in K.RANDOM if n != 'nn.ExponentialBasis']
KEYS = [1, 2, 7, (5 << 32) + 11, (0x9e3779b9 << 32) + 0x7f4a7c15]
BITS = [(1, 2, 3), (1 << 20, 1 << 30, 3 << 24), (1 << 32, 1 << 37, 1 << 60)]  # in which words and bits other keys differ


# Every name belongs to two workers, which have different hash seeds.
RAND_GROUPS = [[n for i, n in enumerate(sorted(K.RANDOM, key=lambda n: (n in HEAVY, n in K.MODULES, n))) if g in (i % K.NG, (i + 3 + i // K.NG) % K.NG)]
               for g in range(K.NG)]


def gen_c14(seed, tier):
  r, nid = start(seed, 'c14')
  mine = RAND_GROUPS[seed % K.NG]
  focus = directed(seed, K.RANDOM) or mine[seed // K.NG % len(mine)]
  heavy = focus in HEAVY
  conc = r.random() < 0.4
  pol = dict(max_faults=0)
  if conc:
    pol.update(lines=True, sw_l=r.choice([0.05, 0.2]))
  ths = []
  for _ in range(2 if conc else 1):
    ops = []
    for _ in range(1 if heavy else r.randint(2, 4)):
      if r.random() < 0.6:
        ops.append(dict(id=nid(), do='rng', seed=r.randrange(1 << 30)))
      name = focus if r.random() < 0.85 or heavy else r.choice([n for n in mine if n not in HEAVY and n in RAND] or [focus])
      ops.append(lib_op(r, nid, name, r.choice([('eager',), ('eager', 'jit')]), (False, False, True), key=r.choice(KEYS)))
      ops[-1]['kg'] = r.randrange(len(BITS))
    ths.append(ops)
  hid = dict(clock=r.choice([0.0, 1e9, 1_700_000_000.0, 4e9]) + r.random(), pid=r.randrange(2, 60000), entropy=r.randrange(1 << 40))
  return dict(seed=seed, env=L.lib_env(), policy=pol, hidden=hid, phases=[dict(f=True, procs=[dict(threads=ths)])])


def judge_c14(run):
  judge_same(run, 'not-a-function-of-the-key')
  for rec in run.recs:
    op = rec.op
    if op['do'] != 'lib' or rec.status != 'ok':
      continue
    if rec.detail == 'global-rng-touched':
      run.viol.append('global-rng-touched: by %s' % op['fn'])
    k = (op['fn'], op['v'], str(op.get('tw')), op['kg'])
    trivial = not any(np.any(a.astype(np.complex128)) for a in rec.value[1] if a.size)  # every path forbidden or masked
    if op['fn'] in RAND and k not in keys_done and not trivial:
      others = [op['key'] ^ b for b in BITS[op['kg']]]  # a few low-precision numbers may coincide by chance
      same = lambda e: e[0] == 'ok' and e[1] == rec.value[0]
      if all(same(REF(dict(op, key=x))) for x in others):
        run.viol.append('keys-do-not-matter: %s gives the same values for different keys' % op['fn'])
      else:
        keys_done.add(k)
  # rows of one batch of random rotations differ from each other
  for rec in run.recs:
    if rec.op['do'] == 'lib' and rec.op['fn'] == 'so3.random_rotation' and rec.status == 'ok':
      for a in rec.value[1]:
        if a.ndim >= 3 and len(set(x.tobytes() for x in a.reshape(-1, 9))) != a.reshape(-1, 9).shape[0]:
          run.viol.append('keys-do-not-matter: rows of one random_rotation batch coincide')


keys_done = set()  # (entry, variant, key) already found to depend on the key

# -- C01 with the modules that use the tables ------------------------------------------
USERS = [n for n in K.CONFIGURED if n not in HEAVY]


def gen_c01(seed, tier):
  plan = SC.gen_c01(seed, tier)
  r, nid = start(seed, 'c01lib')
  if r.random() < (0.6 if directed(seed, USERS) else 0.3):
    nid.n = 1000
    t = {'sh': 'spherical', 'cg': 'clebsch', 'wd': 'wigner', 'tc': 'irreps'}[S.TABLES[seed % 4]]
    near = [n for n in USERS if t in n] or USERS
    for _ in range(r.choice([1, 1, 2])):
      ops = r.choice([ph for ph in plan['phases'] if 'procs' in ph])['procs'][0]['threads'][0]
      op = lib_op(r, nid, directed(seed, USERS) or r.choice(USERS[seed % 4::4] if r.random() < 0.7 else near), ('eager', 'eager', 'jit'), (False, True))
      ops.insert(r.randrange(len(ops) + 1), op)
  return plan


def judge_c01(run):
  SC.judge_c01(run)
  for rec in run.recs:
    op = rec.op
    if op['do'] != 'lib' or rec.status not in ('ok', 'exc'):
      continue
    e = L.ref(op)
    if rec.status != e[0]:
      run.viol.append('call-failed: %s: %s' % (op['fn'], rec.exc or 'succeeds'))
    elif rec.status == 'ok':
      d = L.close(rec.value[1], e[2], 1e-9 if op['x64'] else 2e-5)
      if d:
        run.viol.append('wrong-result: %s: %s' % (op['fn'], d))


# -- C17: the rest of the process ------------------------------------------------------
def gen_c17(seed, tier):
  r, nid = start(seed, 'c17')
  focus = focus_of(12, seed)
  heavy = focus in HEAVY
  g = SC.G(seed, tier)
  g.id = nid
  g.contexts = False
  pol = dict(max_faults=0)
  mode = r.choice(['calm', 'interrupt', 'interrupt', 'conc', 'conc', 'error'])
  if mode == 'interrupt':
    pol.update(max_faults=r.choice([1, 2]), excs=r.choice([['KeyboardInterrupt'], ['KeyboardInterrupt', 'MemoryError', 'RuntimeError']]), lines=True,
               exc_l=r.choice([0.02, 0.1, 0.3]), exc_f=r.choice([0, 0.05]))
  elif mode == 'conc':
    pol.update(lines=True, sw_l=r.choice([0, 0.05, 0.3]), sw_l0=r.choice([0, 0, 0, 0.002, 0.03]), sw_f=r.choice([0.1, 0.4]))
  elif mode == 'error':
    pol.update(err=r.choice([0.05, 0.3]), errs=SC.simfs.ERRS, max_faults=4)
  t = g.focus
  env = dict(L.lib_env(), cache={}) if r.random() < 0.5 else dict(g.env(), cache={}) if r.random() < 0.5 else g.env()
  p = SC.PATHS[0]
  generate = bool(world.DIRECTION.tables) and random.Random('generate/%d' % seed).random() < 0.5
  if generate:  # generation may have changed
    env = dict(g.env(hi=1), cache={})
  ctxs = r.choice([('eager',), ('eager', 'jit'), ('eager', 'jit', 'grad', 'jitabort')])

  def history(n):
    ops = [g.set(t, p)] if r.random() < 0.7 else []
    for _ in range(n):
      c = r.random()
      if c < 0.4 and not generate:
        ops.append(lib_op(r, nid, focus if r.random() < 0.8 else related(r, focus), ctxs, (False, True)))
      elif c < 0.75 or heavy:
        ops.append(g.call(t, hi=3 if generate else 2))
      elif c < 0.83:
        ops.append(dict(id=nid(), do='grid', kind=r.choice(['lebedev', 'delley']), precision=r.choice([3, 9, 1000])))
      elif c < 0.9:
        s = r.choice([L.C, L.N, L.F])
        ops.append(dict(id=nid(), do='cfg', set=s, val=r.choice(L.VALUES[s] + ['bogus'])))
      else:
        ops.append(lib_op(r, nid, r.choice(K.CBS), ('eager', 'jit'), (False,)))
    return ops

  first = []
  if r.random() < 0.5:
    if r.random() < 0.6:
      for f in r.sample(sorted(S.PKGFILE.values()) + ['_lebedev_grids.npz', '_delley_grids.npz'], r.choice([1, 3, 6])):
        e = r.choice([['unlink'], ['damage', r.choice(S.DAMAGES), r.randrange(1 << 30)]])
        first.append(dict(id=nid(), do='disk', e=[e[0], os.path.join(world.PKG, f)] + e[1:]))
    first.append(dict(id=nid(), do='import'))
  ths = [first + history(1 if heavy else r.choice([2, 3, 4]))]
  if mode == 'conc':
    phases = [dict(f=True, procs=[dict(threads=[first], name='x')])] if first else []
    other = [dict(id=nid(), do='observe') for _ in range(r.choice([6, 12, 40]))]
    if not heavy and r.random() < 0.4:
      other = history(2)
    ths = [history(1 if heavy else 2), other]
  else:
    phases = []
  phases.append(dict(f=True, procs=[dict(threads=ths)]))
  return dict(seed=seed, env=env, policy=pol, jax_lines=mode == 'interrupt', phases=phases, import_x64=r.random() < 0.5,
              ambient=r.sample(procstate.AMBIENT, r.choice([0, 2, 6, len(procstate.AMBIENT)])))


def judge_c17(run):
  for rec in run.recs:
    if rec.op['do'] == 'import' and rec.status == 'exc' and not rec.inj:
      run.viol.append('import-failed: %s' % rec.exc)
  for _, actor, opid, name, path in run.fs.mutations:
    if opid in imports(run):
      run.viol.append('import-writes: %s %s' % (name, path))


def imports(run):
  return {rec.op['id'] for rec in run.recs if rec.op['do'] == 'import'}


CHECKS = dict(SC.CHECKS)
CHECKS.update({
    'C17': (gen_c17, judge_c17),
    'C01': (gen_c01, judge_c01),
    'C09': (gen_c09, judge_c09),
    'C10': (gen_c10, judge_c10),
    'C11': (gen_c11, judge_c11),
    'C12': (gen_c12, judge_c12),
    'C13': (gen_c13, judge_c13),
    'C14': (gen_c14, judge_c14),
})
for _k in ('C01', 'C13', 'C17'):
  CHECKS[_k] = (lambda seed, tier, g=CHECKS[_k][0]: SC.named(g(seed, tier), seed), CHECKS[_k][1])
SC.MORE['C09'] = gen_c09
RUNNER = {'C01': L.LibRun, 'C15': GridRun, 'C17': L.LibRun, 'C09': GridRun, 'C10': L.LibRun, 'C11': L.LibRun, 'C12': L.LibRun, 'C13': L.LibRun, 'C14': L.LibRun}


def run_plan(check, plan, decisions=None):
  """Executes a plan and judges it."""
  world.WORLD.cpu = plan.get('cpu', 4)
  run = RUNNER.get(check, S.StorageRun)(plan)
  if check == 'C14':
    run.watch_rng = True
  run.watch_state = check == 'C17'
  if check == 'C15':
    run.watch_held = True
  S.LEAKS = [] if check == 'C17' else None
  run.execute(decisions)
  CHECKS[check][1](run)
  for x in S.LEAKS or ():
    run.viol.append('process-state-changed: %s after generating a table' % x)
  return run
