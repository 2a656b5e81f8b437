"""Workload executor for the coefficient tables and their storage (C01..C09, C13)."""
import hashlib
import io
import json
import os
import pickle
import random
import re
import runpy
import sys
import gc
import zipfile

import numpy as np

from . import core
from . import oracle
from . import procstate
from . import simfs
from . import world
from .world import WORLD

D = simfs.VROOT
TABLES = ('sh', 'cg', 'wd', 'tc')
SETTER = {'sh': 'set_spherical_harmonics_cache', 'cg': 'set_clebsch_gordan_cache', 'wd': 'set_wigner_d_cache',
          'tc': 'set_tensor_conversion_cache'}
PKGFILE = {'sh': '_spherical_harmonics_lut.npz', 'cg': '_clebsch_gordan_lut.npz', 'wd': '_wigner_d_lut.npz',
           'tc': '_tensor_conversion_lut.npz'}
MODULE = {'sh': 'e3x.so3._spherical_harmonics_lut', 'cg': 'e3x.so3._clebsch_gordan_lut', 'wd': 'e3x.so3._wigner_d_lut',
          'tc': 'e3x.so3._tensor_conversion_lut'}
API_TABLE = {'sh': 'sh', 'solid': 'sh', 'cg': 'cg', 'cgd': 'cg', 'wd': 'wd', 't2i': 'tc', 'i2t': 'tc'}
APIS = {'sh': ('sh', 'solid'), 'cg': ('cg', 'cgd'), 'wd': ('wd',), 'tc': ('t2i', 'i2t')}

_R = np.random.RandomState(0).normal(size=(3, 3))
_Q = np.linalg.qr(np.random.RandomState(1).normal(size=(3, 3)))[0]
_Q = _Q * np.sign(np.linalg.det(_Q))
ATOL = 1e-9


def degree_of(op):
  return max(op['a']) if isinstance(op['a'], list) else op['a']


class F32:
  """Stands for jnp; arrays in single precision."""

  @staticmethod
  def asarray(x):
    import jax.numpy as jnp
    return jnp.asarray(x, jnp.float32)


def call_args(op):
  """(function name, args, kwargs) of a lookup call."""
  import jax.numpy as jnp
  if op.get('x64') is False:
    jnp = F32
  kw = {}
  if op.get('cart') is not None:
    kw['cartesian_order'] = op['cart']
  if op.get('norm') is not None and op['api'] in ('sh', 't2i', 'i2t'):
    kw['normalization'] = op['norm']
  api, a = op['api'], op['a']
  if api == 'sh':
    return 'spherical_harmonics', (jnp.asarray(_R), a), kw
  if api == 'solid':
    return 'solid_harmonics', (jnp.asarray(_R), a), kw
  if api == 'cg':
    return 'clebsch_gordan', tuple(a), kw
  if api == 'cgd':
    return 'clebsch_gordan_for_degrees', tuple(a), kw
  if api == 'wd':
    return 'wigner_d', (jnp.asarray(_Q), a), kw
  if api == 't2i':
    return 'tensor_to_irreps', (jnp.asarray(oracle.traceless_tensor(a, a)), a), kw
  if api == 'i2t':
    return 'irreps_to_tensor', (jnp.asarray(np.random.RandomState(a).normal(size=(2, 2 * a + 1))), a), kw
  raise core.HarnessError(api)


_expect = {}


def expected(op):
  cart = True if op.get('cart') is None else op['cart']
  norm = 'racah' if op.get('norm') is None else op['norm']
  key = (op['api'], json.dumps(op['a']), cart, norm)
  if key not in _expect:
    api, a = op['api'], op['a']
    if api == 'sh':
      v = oracle.spherical(_R, a, cart, norm)
    elif api == 'solid':
      v = oracle.spherical(_R, a, cart, 'racah', True)
    elif api == 'cg':
      v = oracle.cg(*a, cart)
    elif api == 'cgd':
      v = oracle.cg_degrees(*a, cart)
    elif api == 'wd':
      v = oracle.wigner(_Q, a, cart)
    elif api == 't2i':
      v = oracle.tensor_to_irreps(oracle.traceless_tensor(a, a), a, cart, norm)
    else:
      v = oracle.irreps_to_tensor(np.random.RandomState(a).normal(size=(2, 2 * a + 1)), a, cart, norm)
    _expect[key] = v
  return _expect[key]


def compare(op, value):
  v = np.asarray(value)
  e = expected(op)
  if v.shape != e.shape:
    return 'shape %s instead of %s' % (v.shape, e.shape)
  scale = max(1.0, float(np.abs(e).max()))
  err = np.abs(v - e)
  m = float(np.max(err)) if err.size else 0.0
  if not m <= (ATOL if op.get('x64', True) else 2e-5) * scale:
    return 'values differ from the exact ones by up to %.3g' % m
  return None


def precision(op):
  import jax
  return jax.enable_x64(op.get('x64', True))


def single(fn):
  def run():
    with precision({'x64': False}):
      return fn()
  return run


def in_jit(f, args, kw):
  """The call within a traced function; integers are static."""
  import jax
  dyn = [a for a in args if not isinstance(a, int)]
  st = [a for a in args if isinstance(a, int)]
  return lambda: jax.jit(lambda *d: f(*d, *st, **kw))(*dyn)


class Rec:
  """What happened to one operation."""

  __slots__ = ('op', 'actor', 't0', 't1', 'status', 'detail', 'xn', 'wrote', 'err', 'exc', 'inj', 'paths', 'value', 'proc', 'after', 'cfg', 'cfg0', 'interrupt', 'all_after')

  def __init__(self, op, actor):
    self.op = op
    self.actor = actor.name
    self.proc = actor.proc.name
    self.t0 = self.t1 = None
    self.status = 'unfinished'
    self.detail = ''
    self.xn = 0
    self.err = False
    self.exc = None
    self.inj = False
    self.paths = ()
    self.value = None
    self.after = {}
    self.all_after = {}
    self.cfg = self.cfg0 = None
    self.interrupt = False


class StorageRun:
  """Executes one plan."""

  def __init__(self, plan):
    self.plan = plan
    self.recs = []
    self.viol = []
    self.killed = set()
    self.ext_paths = set()

  # -- environment -----------------------------------------------------------
  def build_fs(self):
    env = self.plan['env']
    fs = simfs.SimFS(world.PKG)
    fs.bufsize = env.get('bufsize', 8192)
    for d in env.get('dirs', ()):
      fs.mkdirs(d)
    for t in TABLES:
      d = env['pkg'].get(t, 'none')
      b = None
      if d == 'real':
        b = real_pkg(t)
      elif d != 'none':
        b = golden(t, d)
      if b is not None:
        fs.put(os.path.join(world.PKG, PKGFILE[t]), b)
    for g in ('_delley_grids.npz', '_lebedev_grids.npz'):
      b = real_file(g)
      if b is not None:
        fs.put(os.path.join(world.PKG, g), b)
    for p, (t, d) in env.get('cache', {}).items():
      fs.mkdirs(os.path.dirname(p))
      b = golden(t, d)
      if b is not None:
        fs.put(p, b)
    for p in env.get('others', ()):
      fs.mkdirs(os.path.dirname(p))
      fs.put(p, b'a file of the user: ' + p.encode())
    self.others = {p: fs.files[p] for p in env.get('others', ())}
    self.pkg0 = {p: i for p, i in fs.files.items() if fs.is_pkg(p)}
    self.pkgbytes = {p: bytes(i.data) for p, i in self.pkg0.items()}
    return fs

  def cache_paths(self):
    out = {}
    for ph in self.plan['phases']:
      for pr in ph.get('procs', ()):
        for th in pr['threads']:
          for op in th:
            if op['do'] in ('set', 'cli') and op.get('path'):
              out.setdefault(op['path'], set()).add(op['table'])
    for p, (t, _) in self.plan['env'].get('cache', {}).items():
      out.setdefault(p, set()).add(t)
    return out

  # -- external events ---------------------------------------------------------
  def pick_ext(self, r, actor, kind, info):
    kinds = self.plan['policy'].get('exts', ['unlink'])
    paths = sorted(self.paths)
    if not paths:
      return None
    if kind == 'f' and info[1] in paths and r.random() < 0.7:
      p = info[1]
    else:
      p = r.choice(paths)
    k = r.choice(kinds)
    if k == 'unlink':
      return ['unlink', p]
    if k == 'put':
      t = r.choice(sorted(self.paths[p]))
      return ['put', p, t, r.choice([0, 1, 2])]
    if k == 'jump':
      return ['jump', '', r.choice([-1e6, -1e3, -30.0, 30.0, 1e3, 1e6])]
    if k == 'damage':
      return ['damage', p, r.choice(DAMAGES), r.randrange(1 << 30)]
    if k == 'damagepkg':
      t = r.choice(sorted(self.paths[p]))
      return ['damage', os.path.join(world.PKG, PKGFILE[t]), r.choice(DAMAGES), r.randrange(1 << 30)]
    return None

  def apply_ext(self, e):
    fs = self.sim.fs
    k = e[0]
    self.sim.stat('fault.ext_' + k)
    self.sim.clock += 0.01
    if len(e) > 1 and k != 'jump':
      self.ext_paths.add(e[1])
    if k == 'unlink':
      fs.delete(e[1])
    elif k == 'put':
      b = golden(e[2], e[3])
      if b is not None:
        fs.mkdirs(os.path.dirname(e[1]))
        # a new inode: open readers keep the old file
        fs.put(e[1], b)
    elif k == 'damage':
      i = fs.files.get(e[1])
      if i is not None:
        self.sim.stat('fault.damage_' + e[2])
        i.data = bytearray(damage(bytes(i.data), e[2], e[3]))
        i.dur = bytes(i.data)
        i.pend = []
        i.touch()
        fs._note(e[1])
        self.damaged.append(e[1])
    elif k == 'power':
      r = random.Random(e[2])
      k2, lost = fs.power_loss(r)
      self.sim.stat('fault.power_loss')
      self.sim.stat('lost_blocks', lost)
    elif k == 'sync':
      fs.sync_all()
    elif k == 'restore':
      fs.put(e[1], self.pkgbytes[e[1]])
    elif k == 'jump':
      self.sim.clock += e[2]
      self.sim.stat('fault.clock_jump')
    elif k == 'mkdir':
      fs.mkdirs(e[1])
    elif k == 'heal':
      fs.readonly, fs.capacity, fs.deny = False, None, set()
    elif k == 'rofs':
      fs.readonly = True
      self.sim.stat('fault.rofs')
    elif k == 'full':
      fs.capacity = fs.used() + e[2]
      self.sim.stat('fault.full')
    elif k == 'deny':
      fs.deny.add(e[1])
      self.sim.stat('fault.deny')

  # -- actors --------------------------------------------------------------------
  def body(self, ops):
    def run(actor):
      actor.quiet = 1
      if self.watch_state:
        procstate.apply_own(self.plan.get('ambient', ()))
        actor.own0 = procstate.own()
      for op in ops:
        self.do_op(actor, op)
        if self.watch_state:
          self.check_state(actor, op)
        if op['do'] == 'observe' or op.get('yield'):  # one at a time
          others = self.sim.others(actor)
          if others:
            self.sim.switch_to(actor, others[self.sim.choose(actor, len(others))])

    return run

  watch_state = False
  concurrent = False

  def check_state(self, actor, op):
    """C17: has the rest of the process changed (also by somebody else in the middle of a call)?"""
    self.sim.stat('state.checked')
    a, b = procstate.shared(), procstate.own()
    bad = procstate.diff(self.shared0, a) + procstate.diff(actor.own0, b)
    if self.concurrent:  # the standard library has no thread-safe way to silence a warning
      bad = [x for x in bad if not x.startswith('warnings.')]
    if bad:
      what = {'set': 'a setter', 'cfg': 'a setter', 'import': 'the import', 'observe': 'a call in progress'}.get(op['do'], 'a call')
      self.viol.append('process-state-changed: %s after %s' % (', '.join(bad)[:120], what))
      self.shared0, actor.own0 = a, b

  def do_op(self, actor, op):
    s = self.sim
    rec = Rec(op, actor)
    self.recs.append(rec)
    actor.begin_op(op['id'])
    actor.met_error = False
    actor.injected = None
    e3x = actor.proc.e3x
    do = op['do']
    cfg = self.config.setdefault(actor.proc.name, {})
    rec.t0 = s.tick()
    x0 = actor.xn
    s.ev('begin', actor.name, op['id'])
    if do == 'call':
      t = API_TABLE[op['api']]
      rec.paths = (t, cfg.get(t))
      self.active[op['id']] = rec
    elif do == 'set':
      rec.paths = (op['table'], op.get('path'))
    elif do == 'cli':
      rec.paths = (op['table'], op.get('path') or os.path.join(world.PKG, PKGFILE[op['table']]))
    fn = None
    if do == 'call':
      with precision(op):
        name, args, kw = call_args(op)
      fn = lambda: getattr(e3x.so3, name)(*args, **kw)
      if op.get('ctx') == 'jit':
        fn = in_jit(getattr(e3x.so3, name), args, kw)
      if op.get('x64') is False:
        fn = single(fn)
    elif do == 'set':
      fn = lambda: getattr(e3x.Config, SETTER[op['table']])(op.get('path'))
    elif do == 'cli':
      argv = [MODULE[op['table']], '--max_degree', str(op['deg'])]
      if op.get('n') is not None:
        argv += ['--num_processes', str(op['n'])]
      if op.get('path'):
        argv += ['--path', op['path']]

      def fn():
        sys.argv = argv
        runpy.run_module(MODULE[op['table']], run_name='__main__', alter_sys=True)
    elif do == 'grid':
      kw = {'precision': op['precision']} if op.get('precision') is not None else {'num': op['num']}
      fn = lambda: getattr(e3x.so3, op['kind'] + '_quadrature')(**kw)
    elif do == 'import':
      saved = WORLD.modules_now()

      def fn():
        try:
          return WORLD.load_modules()
        finally:
          WORLD.set_modules(saved)
    elif do == 'observe':
      rec.status = 'ok'
      rec.t1 = s.tick()
      return
    elif do == 'calm':
      s.decider.enabled = False
      rec.status = 'ok'
      return
    elif do == 'disk':
      self.apply_ext(op['e'])
      rec.status = 'ok'
      return
    value = exc = None
    try:
      actor.quiet = 0
      value = fn()
      if do == 'call':
        value.block_until_ready()
    except (core.SimKill, core.StepLimit):
      actor.quiet = 1
      rec.status = 'killed'
      rec.t1 = s.tick()
      rec.xn = actor.xn - x0
      rec.err = actor.met_error
      raise
    except core.HarnessError:
      actor.quiet = 1
      raise
    except BaseException as ex:  # pylint: disable=broad-except
      exc = ex
    finally:
      actor.quiet = 1
    rec.t1 = s.tick()
    rec.xn = actor.xn - x0
    rec.err = actor.met_error
    rec.inj = actor.injected is not None
    rec.interrupt = isinstance(actor.injected, KeyboardInterrupt)
    if exc is not None:
      # Unwrap: the very object that was injected?
      rec.exc = '%s: %s' % (type(exc).__name__, str(exc)[:200])
      rec.status = 'exc'
      rec.value = exc if actor.injected is None else (exc, actor.injected)
      exc.__traceback__ = None
    elif do == 'call':
      d = compare(op, value)
      rec.status = 'ok' if d is None else 'wrong'
      rec.detail = d or ''
      if self.keep_values:
        rec.value = np.asarray(value).tobytes()
    else:
      rec.status = 'ok'
      if do == 'import':
        WORLD.set_modules(value)
        actor.proc.modules = value
        actor.proc.e3x = value['e3x']
        cfg.clear()
      if do == 'grid':
        rec.value = tuple(np.asarray(v) for v in value)
    if do == 'set' and rec.status == 'ok':
      cfg[op['table']] = op.get('path')
      for r2 in self.active.values():
        if r2.t1 is None and r2.proc == actor.proc.name and r2.paths[0] == op['table']:
          r2.paths = r2.paths + (op.get('path'),)
    self.active.pop(op['id'], None)
    for p in rec.paths[1:]:
      if p:
        rec.after[p] = s.fs.get(p)
    if self.plan.get('snapshot'):
      rec.all_after = {p: s.fs.get(p) for p in self.paths}
    if self.keep_config:
      rec.cfg = config_state(e3x)
    s.ev('end', actor.name, op['id'], rec.status, rec.exc or rec.detail)
    if self.watch_held:
      rec.value = exc = value = None
      self.held(actor, rec)

  watch_held = False

  def held(self, actor, rec):
    """C15: what the operation acquired and did not release."""
    me = (actor.name, rec.op['id'])

    def now():
      out = []
      for fd, of in self.sim.fs.fds.items():
        if of.owner == me:
          out.append('file descriptor of %s' % os.path.basename(of.path))
      for of, proc in self.sim.fs.__dict__.get('locktable', {}).values():
        if of.owner == me and proc is actor.proc:
          out.append('lock on a file')
      out += ['mutex' for l in list(core.LOCKS) if l.sim is self.sim and l.owner == actor.name]
      out += ['worker pool' for p in list(world.POOLS) if p.owner == me and p.state == 'RUN']
      return out

    x = now()
    if x:
      gc.collect()
      x = now()
    self.sim.stat('held.checked')
    if x:
      self.viol.append('not-released: %s after a call that %s' % (x[0], 'returned' if rec.status in ('ok', 'wrong') else 'raised'))

  # -- run ---------------------------------------------------------------------
  def execute(self, decisions=None, lines=None):
    plan = self.plan
    self.paths = self.cache_paths()
    fs = self.build_fs()
    pol = plan.get('policy', {})
    dec = core.Decider(plan.get('seed', 0), pol, decisions)
    lines_on = pol.get('lines', False) if lines is None else lines
    self.sim = s = world.start_sim(dec, fs, lines=lines_on, max_steps=plan.get('max_steps', 3_000_000))
    s.ext_picker = self.pick_ext
    s.ext_apply = self.apply_ext
    s.op_limit = plan.get('op_limit')
    s.entropy = random.Random(plan.get('seed', 0))
    s.jax_lines = plan.get('jax_lines', False)
    hid = plan.get('hidden', {})
    s.clock = hid.get('clock', s.clock)
    s.pids = hid.get('pid', s.pids)
    if 'entropy' in hid:
      s.entropy = random.Random(hid['entropy'])
      random.seed(hid['entropy'])
      np.random.seed(hid['entropy'] % (1 << 32))
    self.config = {}
    self.active = {}
    self.damaged = []
    self.keep_values = plan.get('keep_values', False)
    self.keep_config = plan.get('keep_config', False)
    self.marks = []
    for p in self.paths:
      fs.watch_path(p)
    collecting = gc.get_threshold()
    gc.set_threshold(0)  # no automatic collections; whether they are enabled belongs to the program
    gc.enable()
    undo = procstate.apply(plan.get('ambient', ()))
    if self.watch_state:
      self.shared0 = procstate.shared()
    procs = []
    try:
      for pi, ph in enumerate(plan['phases']):
        dec.enabled = bool(ph.get('f', False))
        if 'disk' in ph:
          s.ev('disk', ph['disk'])
          self.apply_ext(ph['disk'])
          continue
        actors = []
        before = len(procs)
        for qi, pr in enumerate(ph['procs']):
          pname = 'p%s' % pr.get('name', '%d.%d' % (pi, qi))
          with precision({'x64': plan.get('import_x64', True)}):
            proc = WORLD.new_proc(s, pname)
          procs.append(proc)
          for ti, ops in enumerate(pr['threads']):
            actors.append(core.Actor('%s.t%d' % (pname, ti), proc, self.body(ops), faults=pr.get('f', True)))
        self.concurrent = self.concurrent or len(actors) > 1
        s.run_phase(actors)
        for p in procs[before:]:
          if not p.alive:
            self.killed.add(p.name)
          p.alive = False
        self.marks.append((pi, s.seq, {p: fs.get(p) for p in self.paths}))
        if s.abort:
          break
    finally:
      for p in procs:
        p.alive = False
      world.end_sim(s)
      procstate.restore(undo)
      gc.set_threshold(*collecting)
      gc.enable()
    self.fs = fs
    if s.deadlock:
      self.viol.append('deadlock: all callers block forever')
    for x in s.stuck[:1]:
      self.viol.append('no-progress: %s' % x)
    if s.limit_hit:
      self.viol.append('a call did not return within %d steps' % s.max_steps)
    return self


SETTINGS = ('cartesian_order', 'use_fused_tensor', 'normalization', 'spherical_harmonics_cache', 'clebsch_gordan_cache',
            'wigner_d_cache', 'tensor_conversion_cache')


def config_state(e3x):
  """The documented settings as strings."""
  return {k: str(getattr(e3x.Config, k)) for k in SETTINGS}


DAMAGES = ('flip', 'flips', 'trunc', 'empty', 'zero', 'garbage', 'tail', 'head', 'byte', 'name', 'other')


def damage(b, kind, seed):
  """Deterministic damage to a byte string; always changes it."""
  r = random.Random(seed)
  n = len(b)
  if n == 0:
    return b'x'
  d = bytearray(b)
  if kind == 'flip':
    i = r.randrange(n)
    d[i] ^= 1 << r.randrange(8)
  elif kind == 'byte':
    # biased to archive structures: local headers and the central directory
    marks = [m for m in (b.find(b'PK\x01\x02'), b.find(b'PK\x05\x06'), b.find(b'PK\x03\x04')) if m >= 0]
    i = min(n - 1, (r.choice(marks) if marks else 0) + r.randrange(46))
    d[i] = (d[i] + 1 + r.randrange(255)) % 256
  elif kind == 'name':
    # one character of the name of an archive member, in its directory entry or local header
    marks = [m.start() for m in re.finditer(rb'\w+\.npy', b)]
    i = r.choice(marks) + r.randrange(2) if marks else r.randrange(n)
    d[min(i, n - 1)] ^= 1 << r.randrange(3)
  elif kind == 'other':
    # a well-formed file of another kind
    f = io.BytesIO()
    k = r.randrange(5)
    if k == 0:
      np.save(f, np.arange(3.0))
    elif k == 1:
      np.savez(f, a=np.arange(3), b=np.zeros((2, 2)))
    elif k == 2:
      with zipfile.ZipFile(f, 'w') as z:
        z.writestr('readme.txt', 'nothing')
    elif k == 3:
      zipfile.ZipFile(f, 'w').close()
    else:
      f.write(pickle.dumps(dict(max_degree=2), 2))
    d = bytearray(f.getvalue())
  elif kind == 'flips':
    for _ in range(r.randrange(2, 20)):
      d[r.randrange(n)] ^= 1 << r.randrange(8)
  elif kind == 'trunc':
    d = d[:r.randrange(n)]
  elif kind == 'empty':
    d = bytearray()
  elif kind == 'zero':
    i = r.randrange(n)
    k = r.choice([16, 64, 512, 4096])
    d[i:i + k] = bytes(len(d[i:i + k]))
  elif kind == 'garbage':
    d = bytearray(r.randbytes(r.randrange(1, 400)))
  elif kind == 'tail':
    i = n - r.randrange(1, min(n, 120) + 1)
    d[i:] = r.randbytes(n - i)
  elif kind == 'head':
    k = r.randrange(1, min(n, 60) + 1)
    d[:k] = r.randbytes(k)
  if bytes(d) == b:
    d[n // 2] ^= 0xFF
  return bytes(d)


def real_file(name):
  p = os.path.join(world.PKG, name)
  if not simfs._real['exists'](p):
    return None
  with simfs._real['open'](p, 'rb') as f:
    return f.read()


def real_pkg(t):
  return real_file(PKGFILE[t])


_golden = {}
LEAKS = None  # a list: process-wide state that changed while stored tables for a run were generated


def golden_plan(t, d):
  api = {'sh': 'sh', 'cg': 'cg', 'wd': 'wd', 'tc': 'i2t'}[t]
  a = [d, d, d] if t == 'cg' else d
  p = D + '/golden.npz'
  return dict(env=dict(pkg={}), seed=0, policy={}, phases=[dict(procs=[dict(threads=[[
      dict(id='g0', do='set', table=t, path=p), dict(id='g1', do='call', api=api, a=a)]])])])


def golden(t, d):
  """Bytes of a cache file of table t and degree d, stored by e3x itself."""
  if (t, d) not in _golden:
    saved = core.SIM
    cur = WORLD.modules_now()
    try:
      before = procstate.shared() if LEAKS is not None else None
      run = StorageRun(golden_plan(t, d)).execute()
      _golden[(t, d)] = run.fs.get(D + '/golden.npz')
      if LEAKS is not None:
        LEAKS.extend(x for x in procstate.diff(before, procstate.shared()) if x not in ('random', 'numpy.random'))  # these are reset for every run
    finally:
      core.SIM = saved
      WORLD.set_modules(cur)
  return _golden[(t, d)]


_probe = {}


def serves(t, content, d, any_pkg=False):
  """Does this cache content serve degree d without regeneration or writing?"""
  if content is None:
    return False
  key = (t, d, hashlib.sha256(content).digest())
  if key not in _probe:
    saved = core.SIM
    cur = WORLD.modules_now()
    try:
      plan = golden_plan(t, d)
      run = StorageRun(plan)
      orig = run.build_fs

      def build():
        fs = orig()
        fs.put(D + '/golden.npz', content)
        return fs

      run.build_fs = build
      run.execute()
      r = run.recs[-1]
      _probe[key] = r.status == 'ok' and r.xn == 0 and not run.fs.mutations
    finally:
      core.SIM = saved
      WORLD.set_modules(cur)
  return _probe[key]
