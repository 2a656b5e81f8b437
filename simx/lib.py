"""Workload executor for the whole public API (C10..C14)."""
import copy
import hashlib
import random

import numpy as np

from . import catalog
from . import core
from . import storage as S
from . import world
from .world import WORLD


Boom = catalog.Boom


# -- results --------------------------------------------------------------------
def leaves(x):
  import jax
  ls, td = jax.tree_util.tree_flatten(x)
  return ls, str(td)


def freeze(x):
  """(digest, list of numpy arrays) of a result."""
  ls, td = leaves(x)
  h = hashlib.sha256(td.encode())
  out = []
  for l in ls:
    if hasattr(l, 'shape') and not hasattr(l, '__array__') and hasattr(l, 'dtype'):
      h.update(('S%s%s' % (l.shape, l.dtype)).encode())  # ShapeDtypeStruct
      out.append(np.broadcast_to(np.zeros((), l.dtype), l.shape))
      continue
    weak = getattr(l, 'weak_type', None)
    a = np.asarray(l)
    h.update(('%s%s%s' % (a.dtype, a.shape, weak)).encode())
    h.update(a.tobytes())
    out.append(a)
  return h.hexdigest(), out


def close(xs, ys, tol, loose=False):
  """Are two lists of arrays equal up to rounding?"""
  if len(xs) != len(ys):
    return 'number of results differs'
  for a, b in zip(xs, ys):
    if a.shape != b.shape:
      return 'shapes %s and %s' % (a.shape, b.shape)
    if a.dtype != b.dtype:
      return 'types %s and %s' % (a.dtype, b.dtype)
    if a.size == 0:
      continue
    eps = {'bfloat16': 8e-3, 'float16': 1e-3}.get(a.dtype.name, 0)
    if eps:
      a, b = a.astype(np.float32), b.astype(np.float32)
    if a.dtype.kind not in 'fc':
      if not (a == b).all():
        return 'values differ'
      continue
    if not (np.isnan(a) == np.isnan(b)).all():
      return 'NaNs differ'
    a, b = np.nan_to_num(a), np.nan_to_num(b)
    m = float(np.abs(a - b).max())
    if m > max(tol, 16 * eps) * max(1.0, float(np.abs(a).max())):
      return 'values differ by %.3g' % m
  return None


# -- transformations ----------------------------------------------------------------
CTX = ['eager', 'jit', 'grad', 'vmap', 'evalshape', 'scan', 'jitabort', 'jitgrad', 'jvp', 'makejaxpr']


def floats(args):
  return [i for i, a in enumerate(args) if np.asarray(a).dtype.kind == 'f']


def effective(call, args, ctx):
  """The context that is really used: some calls cannot be traced."""
  if call.mode == 'eager':
    return 'eager'
  if ctx in ('grad', 'vmap', 'scan', 'jitgrad', 'jvp') and not floats(args):
    return 'jit'
  return ctx


def applies(op, ctx):
  """Effective context of an operation, and whether it computes in half precision."""
  e = WORLD.probe_e3x()
  call = catalog.of(e, op)
  return effective(call, [cast(a, op.get('x64')) for a in call.args], ctx), call.half


def transform(call, args, ctx):
  """Returns a thunk that makes the call in the given transformation context."""
  import jax
  import jax.numpy as jnp
  fn = call.fn
  ctx = effective(call, args, ctx)
  fl = floats(args)
  if ctx == 'eager':
    return lambda: fn(*args)
  if ctx == 'jit':
    return lambda: jax.jit(lambda *a: fn(*a))(*args)
  if ctx == 'evalshape':
    return lambda: jax.eval_shape(lambda *a: fn(*a), *args)
  if ctx == 'makejaxpr':
    # A trace whose outcome is dropped.
    return lambda: jax.tree_util.tree_map(lambda s: jax.ShapeDtypeStruct(s.shape, s.dtype),
                                          jax.make_jaxpr(lambda *a: fn(*a), return_shape=True)(*args)[1])
  if ctx == 'jitabort':
    def f(*a):
      fn(*a)
      raise Boom('aborted trace')
    return lambda: jax.jit(f)(*args)
  i = fl[0]

  def scalar(x):
    a = list(args)
    a[i] = x
    tot = 0.0
    for l in jax.tree_util.tree_leaves(fn(*a)):
      if jnp.issubdtype(l.dtype, jnp.floating):
        tot = tot + jnp.sum(l * jnp.asarray(0.7, l.dtype))
    return jnp.asarray(tot, jnp.result_type(float))

  x = jnp.asarray(args[i])
  if ctx == 'grad':
    return lambda: jax.grad(scalar)(x)
  if ctx == 'jitgrad':
    return lambda: jax.jit(jax.grad(scalar))(x)
  if ctx == 'jvp':
    return lambda: jax.jvp(scalar, (x,), (jnp.ones_like(x),))

  def one(x):
    a = list(args)
    a[i] = x
    return fn(*a)

  xs = jnp.stack([x, x * 0.5])
  if ctx == 'vmap':
    return lambda: jax.vmap(one)(xs)
  if ctx == 'scan':
    return lambda: jax.lax.scan(lambda c, x: (c, one(x)), 0, xs)[1]
  raise core.HarnessError(ctx)


def x64(flag):
  import jax
  return jax.enable_x64(bool(flag))


def cast(a, wide):
  a = np.asarray(a)
  if a.dtype.kind == 'f':
    return a.astype(np.float64 if wide else np.float32)
  return a.copy()


class LibRun(S.StorageRun):
  """Adds library calls, settings and callbacks to the storage executor."""

  keep_args = False

  def do_op(self, actor, op):
    if op['do'] not in ('lib', 'cfg', 'get', 'capi', 'mk', 'use', 'rng'):
      return super().do_op(actor, op)
    import jax
    import jax.numpy as jnp
    s = self.sim
    rec = S.Rec(op, actor)
    self.recs.append(rec)
    actor.begin_op(op['id'])
    actor.met_error = False
    actor.injected = None
    e = actor.proc.e3x
    rec.t0 = s.tick()
    s.ev('begin', actor.name, op['id'])
    args, before, call = (), (), None
    wide = op.get('x64', False)
    if op.get('conf') is not None and op['conf'] != actor.proc.__dict__.get('conf'):
      actor.proc.conf = op['conf']
      for k in DEFAULTS:
        getattr(e.Config, 'set_' + k)(op['conf'].get(k, DEFAULTS[k]))
      for k in CACHES:
        getattr(e.Config, 'set_' + k)(op['conf'].get(k))
    if self.keep_config:
      rec.cfg0 = S.config_state(e)
    if op['do'] == 'lib':
      call = catalog.of(e, op)
      args = [cast(a, wide) for a in call.args]
      if op.get('key') is not None and call.key is not None:
        args[call.key] = np.asarray(divmod(op['key'], 1 << 32), np.uint32)
      before = [a.copy() for a in args]
      mut0 = copy.deepcopy(call.mutable)
      if op.get('share') and isinstance(call, catalog.ModCall):
        shared = actor.proc.__dict__.setdefault('shared', {})
        k = (op['fn'], op['v'], str(op.get('tw')), str(op.get('conf')))
        if k not in shared:
          shared[k] = call.make()
        call.module = shared[k]
    elif op['do'] == 'capi':
      fn = cfg_call(e, op)
    elif op['do'] == 'mk':
      slots = actor.proc.__dict__.setdefault('slots', {})
      def fn():
        slots[op['slot']] = getattr(e.nn, op['api'])(**op.get('kw', {}))
    elif op['do'] == 'use':
      fn = lambda: MODRUN[op['api']](actor.proc.slots[op['slot']])
    g0 = None
    if op['do'] == 'rng':
      reseed(op['seed'])
      self.reseeds += 1
      rec.status = 'ok'
      return
    value = exc = None
    if self.watch_rng:
      g0 = rng_state(), self.reseeds
    try:
      with x64(wide):
        if op['do'] == 'lib':
          a = args if op.get('np') else [jnp.asarray(x) for x in args]
          thunk = transform(call, a, op.get('ctx', 'eager'))
        elif op['do'] == 'cfg':
          thunk = lambda: getattr(e.Config, 'set_' + op['set'])(*([op['val']] if 'val' in op else []))
        elif op['do'] == 'get':
          thunk = lambda: getattr(e.Config, op['set'])
        else:
          thunk = fn
        try:
          actor.quiet = 0
          value = thunk()
          if op['do'] in ('lib', 'capi', 'use'):
            jax.block_until_ready(value)
        finally:
          actor.quiet = 1
        if op['do'] in ('lib', 'capi', 'use'):
          rec.value = freeze(value)
        else:
          rec.value = value
    except (core.SimKill, core.StepLimit):
      rec.status = 'killed'
      rec.t1 = s.tick()
      raise
    except core.HarnessError:
      raise
    except BaseException as ex:  # pylint: disable=broad-except
      exc = ex
    rec.t1 = s.tick()
    rec.inj = actor.injected is not None
    rec.interrupt = isinstance(actor.injected, KeyboardInterrupt)
    if g0 is not None and g0[1] == self.reseeds and rng_state() != g0[0]:
      rec.detail = 'global-rng-touched'
    if exc is not None:
      rec.status = 'exc'
      rec.exc = '%s: %s' % (type(exc).__name__, str(exc)[:160])
      rec.err = type(exc).__name__
      rec.value = (exc, actor.injected)
      exc.__traceback__ = None
    else:
      rec.status = 'ok'
    if op['do'] == 'lib':
      for i, (x, y) in enumerate(zip(args, before)):
        if x.tobytes() != y.tobytes():
          rec.detail = 'argument-modified: array argument %d of %s' % (i, op['fn'])
      if call.mutable != mut0:
        rec.detail = 'argument-modified: %s of %s' % (type(call.mutable[0]).__name__, op['fn'])
      if op.get('scribble'):
        self.scribble(args if op.get('np') else (), value, call.mutable)
    if self.keep_config:
      rec.cfg = S.config_state(e)
    s.ev('end', actor.name, op['id'], rec.status, rec.exc if rec.status == 'exc' else (rec.value[0] if isinstance(rec.value, tuple) else str(rec.value)))

  watch_rng = False
  reseeds = 0

  def scribble(self, args, value, mutable):
    """The caller re-uses the containers it passed in and got back."""
    import jax
    for a in args:
      if a.flags.writeable:
        a[...] = 1 if a.dtype.kind == 'b' else 7
    for m in mutable:
      if isinstance(m, list):
        m.append(0)
      elif isinstance(m, dict):
        m[97] = 1
    def walk(v):
      if isinstance(v, np.ndarray) and v.flags.writeable:
        v[...] = 1 if v.dtype.kind == 'b' else 9
      elif isinstance(v, list):
        for x in v:
          walk(x)
        v.append(None)
      elif isinstance(v, tuple):
        for x in v:
          walk(x)
      elif isinstance(v, dict):
        for x in list(v.values()):
          walk(x)
        try:
          v['scribble'] = None
        except Exception:  # pylint: disable=broad-except
          pass
    if value is not None and not isinstance(value, jax.Array):
      walk(value)


def rng_state():
  st = np.random.get_state()
  return hash((random.getstate(), st[0], st[1].tobytes(), st[2:]))


def reseed(k):
  random.seed(k)
  np.random.seed(k % (1 << 32))


# -- calls that depend on the configuration --------------------------------------------
# name -> (settings it takes from the configuration, callable(e, settings))
MODRUN = {}


def _mod(cls, x, y=None):
  def use(m):
    import jax.numpy as jnp
    k = np.asarray([0, 5], np.uint32)
    a = [jnp.asarray(x, jnp.float32)] + ([jnp.asarray(y, jnp.float32)] if y is not None else [])
    if cls == 'MessagePass' or cls.endswith('Attention'):
      b = jnp.asarray(_B, jnp.float32)
      if cls == 'MultiHeadAttention':
        a.append(a[0])
      a.append(b)
      adj = jnp.asarray([[1, 2], [0, 2], [0, 1]])
      p = m.init(k, *a, adj_idx=adj)
      return p, m.apply(p, *a, adj_idx=adj)
    p = m.init(k, *a)
    return p, m.apply(p, *a)
  MODRUN[cls] = use
  return lambda e, kw: use(getattr(e.nn, cls)(**kw))


_rs = np.random.RandomState(3)
_X = _rs.normal(size=(3, 1, 4, 2))
_X2 = _rs.normal(size=(3, 1, 4, 2))
_B = _rs.normal(size=(3, 2, 1, 4, 2))
_V = _rs.normal(size=(2, 3))
_RT = np.linalg.qr(_rs.normal(size=(3, 3)))[0]
_T2 = _rs.normal(size=(3, 3))
_T2 = _T2 + _T2.T - np.eye(3) * np.trace(_T2) * 2 / 3
_I2 = _rs.normal(size=(2, 5))


def _so3(name, *a):
  def run(e, kw):
    import jax.numpy as jnp
    return getattr(e.so3, name)(*[jnp.asarray(x, jnp.float32) if isinstance(x, np.ndarray) else x for x in a], **kw)
  return run


def _basis(e, kw):
  import jax.numpy as jnp
  return e.nn.basis(jnp.asarray(_V, jnp.float32), max_degree=2, num=2, radial_fn=e.nn.basic_bernstein, **kw)


def _expbasis(e, kw):
  import jax.numpy as jnp
  m = e.nn.ExponentialBasis()
  a = dict(max_degree=1, num=2, radial_fn=e.nn.exponential_bernstein, **kw)
  p = m.init(np.asarray([0, 5], np.uint32), jnp.asarray(_V, jnp.float32), **a)
  return m.apply(p, jnp.asarray(_V, jnp.float32), **a)


def _basis_nested(order):
  def run(e, kw):
    import jax.numpy as jnp
    f = lambda r, max_degree, cartesian_order: e.so3.spherical_harmonics(r, max_degree, **kw)
    return e.nn.basis(jnp.asarray(_V, jnp.float32), max_degree=2, num=2, radial_fn=e.nn.basic_bernstein, angular_fn=f, cartesian_order=order)
  return run


def _tensor_nested(order):
  def run(e, kw):
    import jax.numpy as jnp
    def init(key, shape, dtype=jnp.float32):
      c = e.so3.solid_harmonics(jnp.asarray(_V, jnp.float32), 2, **kw)
      return e.nn.initializers.tensor_lecun_normal()(key, shape, dtype) * c[0, 1]
    m = e.nn.Tensor(cartesian_order=order, kernel_init=init)
    k = np.asarray([0, 5], np.uint32)
    a = [jnp.asarray(_X, jnp.float32), jnp.asarray(_X2, jnp.float32)]
    p = m.init(k, *a)
    return p, m.apply(p, *a)
  return run


C, N, F = 'cartesian_order', 'normalization', 'use_fused_tensor'
CAPI = {
    'basis_nested': ((C, N), _basis_nested(True)),
    'basis_nested2': ((C, N), _basis_nested(False)),
    'Tensor_nested': ((C,), _tensor_nested(False)),
    'spherical_harmonics': ((C, N), _so3('spherical_harmonics', _V, 2)),
    'solid_harmonics': ((C,), _so3('solid_harmonics', _V, 2)),
    'clebsch_gordan': ((C,), _so3('clebsch_gordan', 1, 1, 1)),
    'clebsch_gordan_for_degrees': ((C,), _so3('clebsch_gordan_for_degrees', 1, 1, 1)),
    'wigner_d': ((C,), _so3('wigner_d', _RT, 1)),
    'tensor_to_irreps': ((C, N), _so3('tensor_to_irreps', _T2, 2)),
    'irreps_to_tensor': ((C, N), _so3('irreps_to_tensor', _I2, 2)),
    'basis': ((C,), _basis),
    'ExponentialBasis': ((C,), _expbasis),
    'Tensor': ((C,), _mod('Tensor', _X, _X2)),
    'FusedTensor': ((C,), _mod('FusedTensor', _X, _X2)),
    'TensorDense': ((C, F), _mod('TensorDense', _X)),
    'MessagePass': ((C, F), _mod('MessagePass', _X)),
    'SelfAttention': ((C, F), _mod('SelfAttention', _X)),
    'MultiHeadAttention': ((C, F), _mod('MultiHeadAttention', _X)),
}
DEFAULTS = {C: True, N: 'racah', F: False}
VALUES = {C: [True, False], N: ['4pi', 'orthonormal', 'racah', 'schmidt'], F: [True, False]}
CACHES = ['spherical_harmonics_cache', 'clebsch_gordan_cache', 'wigner_d_cache', 'tensor_conversion_cache']


def cfg_call(e, op):
  return lambda: CAPI[op['api']][1](e, dict(op.get('kw', {})))


# -- references --------------------------------------------------------------------------
_ref = {}


def lib_env(cg=True):
  return dict(pkg={'sh': 'real', 'tc': 'real', 'cg': 2 if cg else 'none', 'wd': 2 if cg else 'none'}, dirs=[S.D + '/a'])


def ref_key(op):
  import json
  return json.dumps({k: v for k, v in op.items() if k not in ('id', 'share', 'scribble', 'slot', 'kg')}, sort_keys=True)


def ref(op):
  """Outcome of the operation when it runs alone in a fresh process."""
  key = ref_key(op)
  o = dict(op)
  for k in ('share', 'scribble', 'slot'):
    o.pop(k, None)
  if key not in _ref:
    saved = core.SIM
    cur = WORLD.modules_now()
    try:
      run = LibRun(dict(env=lib_env(not op.get('bare')), seed=0, policy={}, phases=[dict(procs=[dict(threads=[[dict(o, id='ref')]])])]))
      run.execute()
      r = run.recs[-1]
      _ref[key] = (r.status, r.err if r.status == 'exc' else r.value[0] if isinstance(r.value, tuple) else r.value,
                   r.value[1] if r.status == 'ok' and isinstance(r.value, tuple) else None, r.exc, r.detail)
    finally:
      core.SIM = saved
      WORLD.set_modules(cur)
  return _ref[key]
