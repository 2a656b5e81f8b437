"""Catalogue of the public API: every entry builds concrete calls.

ENTRIES maps a name to a builder `build(e, r) -> Call`; `e` is the e3x package of
the simulated process and `r` a PRNG that picks the arguments of variant v
(variant 0 uses defaults wherever there are some).
"""
import random

import numpy as np


class Call:
  """A concrete call: fn(*args) with array pytrees args, statics closed over."""

  def __init__(self, fn, args, mode='full', key=None, cfg=(), note=None, mutable=()):
    self.fn = fn
    self.args = args
    self.mode = mode  # 'full' any transformation; 'eager' not traceable
    self.key = key  # index of the PRNG key argument
    self.cfg = cfg
    self.note = note
    self.mutable = mutable  # lists/dicts handed over, for the mutation checks
    self.half = False  # computes in half precision: compare coarsely


class Rv:
  """Argument chooser; variant 0 always picks the first alternative.

  Every choice has its own generator. `tw` makes one choice anew: two variants
  that differ only in `tw` differ in at most one factor (a setting, a shape, a
  type, the values of one array).
  """

  def __init__(self, name, v, tw=None):
    self.v = v
    self.name = name
    self.tw = tw
    self.n = 0
    self.half = False

  def choice(self):
    """The generator of the next choice, and whether to stay with the default."""
    i = self.n
    self.n += 1
    fresh = self.tw is not None and i == self.tw[0]
    return random.Random('%s/%d/%d/%s' % (self.name, self.v, i, self.tw[1] if fresh else '')), self.v == 0 and not fresh

  @property
  def r(self):
    return self.choice()[0]

  @property
  def np(self):
    return np.random.RandomState(self.choice()[0].randrange(1 << 30))

  def pick(self, *alts):
    r, default = self.choice()
    return alts[0] if default else r.choice(alts)

  def maybe(self, **kw):
    """Keyword arguments, each given with probability 0.6 (never for v=0)."""
    out = {}
    for k, alts in kw.items():
      r, default = self.choice()
      x = r.random(), r.choice(alts)
      if not default and x[0] < 0.6:
        out[k] = x[1]
    return out

  def dtype(self, *names):
    """An optional type: None or a jnp type."""
    import jax.numpy as jnp
    n = self.pick(None, None, *names)
    if n in ('bfloat16', 'float16'):
      self.half = True
    return None if n is None else getattr(jnp, n)

  def f(self, *shape, lo=-1.5, hi=1.5):
    return self.np.uniform(lo, hi, size=shape)

  def pos(self, *shape, hi=1.3):
    return self.np.uniform(0.0, hi, size=shape)


ENTRIES = {}


def entry(name):
  def deco(f):
    ENTRIES[name] = f
    return f
  return deco


# -- so3 ------------------------------------------------------------------------
NORMS = ['4pi', 'orthonormal', 'racah', 'schmidt']


def rots(r, *shape):
  q = np.linalg.qr(r.np.normal(size=(*shape, 3, 3)))[0]
  return q * np.sign(np.linalg.det(q))[..., None, None]


@entry('so3.spherical_harmonics')
def _(e, r):
  d = r.pick(2, 0, 1, 2, 3)
  kw = r.maybe(r_is_normalized=[True, False], cartesian_order=[True, False], normalization=NORMS)
  x = r.f(r.pick(2, 3), 3)
  if kw.get('r_is_normalized'):
    x = x / np.linalg.norm(x, axis=-1, keepdims=True)
  return Call(lambda x: e.so3.spherical_harmonics(x, d, **kw), [x])


@entry('so3.solid_harmonics')
def _(e, r):
  d = r.pick(2, 0, 1, 2, 3)
  kw = r.maybe(cartesian_order=[True, False])
  return Call(lambda x: e.so3.solid_harmonics(x, d, **kw), [r.f(2, 3)])


@entry('so3.clebsch_gordan')
def _(e, r):
  d = [r.pick(1, 0, 1, 2) for _ in range(3)]
  kw = r.maybe(cartesian_order=[True, False])
  return Call(lambda: e.so3.clebsch_gordan(*d, **kw), [])


@entry('so3.clebsch_gordan_for_degrees')
def _(e, r):
  d = [r.pick(1, 0, 1, 2) for _ in range(3)]
  kw = r.maybe(cartesian_order=[True, False])
  return Call(lambda: e.so3.clebsch_gordan_for_degrees(*d, **kw), [])


@entry('so3.wigner_d')
def _(e, r):
  d = r.pick(2, 2, 1, 0)
  kw = r.maybe(cartesian_order=[True, False])
  return Call(lambda x: e.so3.wigner_d(x, d, **kw), [rots(r, *r.pick((), (2,)))])


def traceless(r, d):
  """A traceless symmetric tensor of degree d (d <= 2)."""
  if d == 0:
    return r.f(1)
  if d == 1:
    return r.f(3)
  x = r.f(3, 3)
  x = x + x.T
  return x - np.eye(3) * np.trace(x) / 3


@entry('so3.tensor_to_irreps')
def _(e, r):
  d = r.pick(2, 0, 1, 2)
  kw = r.maybe(cartesian_order=[True, False], normalization=NORMS)
  return Call(lambda x: e.so3.tensor_to_irreps(x, d, **kw), [traceless(r, d)])


@entry('so3.irreps_to_tensor')
def _(e, r):
  d = r.pick(2, 0, 1, 2, 3)
  kw = r.maybe(cartesian_order=[True, False], normalization=NORMS)
  return Call(lambda x: e.so3.irreps_to_tensor(x, d, **kw), [r.f(2, 2 * d + 1)])


@entry('so3.is_traceless_symmetric')
def _(e, r):
  d = r.pick(2, 0, 1, 2)
  x = traceless(r, d)
  if r.pick(False, True):
    x = x + r.f(*x.shape)
  kw = r.maybe(atol=[1e-5, 1.0], rtol=[1e-5, 1.0])
  return Call(lambda x: e.so3.is_traceless_symmetric(x, d, **kw), [x], 'eager')


@entry('so3.lebedev_quadrature')
def _(e, r):
  kw = r.pick({'precision': 3}, {'precision': 5}, {'num': 20}, {'precision': -1}, {'num': 1})
  return Call(lambda: e.so3.lebedev_quadrature(**kw), [])


@entry('so3.delley_quadrature')
def _(e, r):
  kw = r.pick({'precision': 3}, {'precision': 17}, {'num': 30}, {'precision': 5}, {'num': 1})
  return Call(lambda: e.so3.delley_quadrature(**kw), [])


@entry('so3.alignment_rotation')
def _(e, r):
  n = r.pick(2, 3)
  u, v = r.f(n, 3), r.f(n, 3)
  if r.v and r.r.random() < 0.4:
    v[0] = -u[0]
  return Call(lambda u, v: e.so3.alignment_rotation(u, v), [u, v])


@entry('so3.euler_angles_from_rotation')
def _(e, r):
  return Call(lambda x: e.so3.euler_angles_from_rotation(x), [rots(r, *r.pick((), (3,)))])


@entry('so3.rotation')
def _(e, r):
  n = r.pick(1, 2)
  return Call(lambda x, a: e.so3.rotation(x, a), [r.f(n, 3), r.f(n)])


@entry('so3.rotation_euler')
def _(e, r):
  n = r.pick(1, 2)
  return Call(lambda a, b, c: e.so3.rotation_euler(a, b, c), [r.f(n), r.f(n), r.f(n)])


@entry('so3.random_rotation')
def _(e, r):
  kw = r.maybe(perturbation=[0.3, 0.5, 1.0], num=[1, 2, 3])
  return Call(lambda k: e.so3.random_rotation(k, **kw), [key(r)], key=0)


def key(r):
  return np.asarray([0, r.r.randrange(1 << 16)], np.uint32)


# -- ops ------------------------------------------------------------------------
def graph(r, dense):
  """A random neighbour list of 4 nodes: keyword arguments and shapes."""
  n = 4
  adj = np.full((n, 2), n, np.int32)
  for i in range(n):
    k = r.r.randrange(0, 3)
    adj[i, :k] = r.r.sample([j for j in range(n) if j != i], k)
  adj[0, 0] = 1
  if dense:
    return n, dict(adj_idx=adj), adj < n
  dst, src = np.nonzero(adj < n)[0].astype(np.int32), adj[adj < n].astype(np.int32)
  return n, dict(dst_idx=dst, src_idx=src), None


for _name in ('gather_dst', 'gather_src'):
  def _f(e, r, _name=_name):
    n, idx, _ = graph(r, r.pick(True, False))
    fs = (2,)
    x = r.f(n, *fs)
    names = sorted(idx)
    return Call(lambda x, *a: getattr(e.ops, _name)(x, **dict(zip(names, a))), [x] + [idx[k] for k in names])
  ENTRIES['ops.' + _name] = _f

for _name in ('indexed_sum', 'indexed_max', 'indexed_min', 'indexed_softmax'):
  def _f(e, r, _name=_name):
    dense = r.pick(True, False)
    n, idx, where = graph(r, dense)
    kw, extra = {}, {}
    if dense:
      x = r.f(n, 2, 3)
      extra['adj_idx'] = idx['adj_idx']
      extra['where'] = where
    else:
      x = r.f(len(idx['dst_idx']), 3)
      extra['dst_idx'] = idx['dst_idx']
      kw['num_segments'] = n
      kw.update(r.maybe(indices_are_sorted=[True]))
    if _name == 'indexed_softmax':
      x = x[..., 0]
      if r.pick(False, True):
        extra['multiplicative_mask'] = r.pos(*x.shape)
    elif dense:
      kw.update(r.maybe(keepdims=[True, False]))
    names = sorted(extra)
    return Call(lambda x, *a: getattr(e.ops, _name)(x, **kw, **dict(zip(names, a))), [x] + [extra[k] for k in names])
  ENTRIES['ops.' + _name] = _f


@entry('ops.dense_pairwise_indices')
def _(e, r):
  n, kw = r.pick(3, 1, 2, 3, 4), r.maybe(mask_self=[True, False])
  return Call(lambda: e.ops.dense_pairwise_indices(n, **kw), [])


@entry('ops.sparse_pairwise_indices')
def _(e, r):
  n, kw = r.pick(3, 1, 2, 3, 4), r.maybe(mask_self=[True, False])
  return Call(lambda: e.ops.sparse_pairwise_indices(n, **kw), [])


@entry('ops.dense_to_sparse_indices')
def _(e, r):
  _, idx, _ = graph(r, True)
  kw = r.maybe(pad_idx=[4])
  return Call(lambda a: e.ops.dense_to_sparse_indices(a, **kw), [idx['adj_idx']], 'eager')


@entry('ops.sparse_to_dense_indices')
def _(e, r):
  _, idx, _ = graph(r, False)
  kw = r.maybe(pad_idx=[4, 7])
  return Call(lambda d, s: e.ops.sparse_to_dense_indices(d, s, **kw), [idx['dst_idx'], idx['src_idx']], 'eager')


@entry('ops.inverse_softplus')
def _(e, r):
  return Call(lambda x: e.ops.inverse_softplus(x), [r.pos(3) + 0.1])


@entry('ops.evaluate_derivatives')
def _(e, r):
  import jax.numpy as jnp
  k, f = r.pick(2, 0, 1, 2, 3), r.pick(jnp.sin, jnp.exp)
  return Call(lambda x: e.ops.evaluate_derivatives(f, x, k), [r.f(3)])


for _name in ('norm', 'normalize', 'normalize_and_return_norm'):
  def _f(e, r, _name=_name):
    kw = r.maybe(axis=[-1, 0, (0, 1)], keepdims=[True, False]) if _name == 'norm' else r.maybe(axis=[-1, 0])
    if _name == 'normalize_and_return_norm':
      kw.update(r.maybe(keepdims=[True, False]))
    x = r.f(2, 3)
    if r.v and r.r.random() < 0.3:
      x[0] = 0
    return Call(lambda x: getattr(e.ops, _name)(x, **kw), [x])
  ENTRIES['ops.' + _name] = _f


# -- nn functions -----------------------------------------------------------------
ACT = {'bent_identity': {}, 'celu': dict(alpha=[0.5, 2.0]), 'elu': dict(alpha=[0.5, 2.0]), 'gelu': dict(approximate=[True, False]),
       'hard_silu': {}, 'hard_swish': {}, 'hard_tanh': {}, 'leaky_relu': dict(negative_slope=[0.1, 0.3]), 'mish': dict(fast=[True, False]),
       'relu': {}, 'relu6': {}, 'selu': {}, 'serf': {}, 'shifted_softplus': {}, 'silu': {}, 'soft_sign': {}, 'swish': {}}
for _name, _kw in ACT.items():
  def _f(e, r, _name=_name, _kw=_kw):
    kw = r.maybe(**_kw)
    x = r.f(2, *feat(r), 2)
    return Call(lambda x: getattr(e.nn, _name)(x, **kw), [x])
  ENTRIES['nn.' + _name] = _f


def feat(r, dmax=2):
  return (r.pick(2, 1, 2), (r.pick(1, 0, 1, 2 if dmax > 1 else 1) + 1) ** 2)


for _name in ('basic_bernstein', 'basic_chebyshev', 'basic_fourier', 'basic_gaussian', 'rectangular_window', 'smooth_window',
              'triangular_window', 'sinc'):
  def _f(e, r, _name=_name):
    n, kw = r.pick(4, 1, 2, 3, 4, 5), r.maybe(limit=[1.0, 2.0, 3.5])
    return Call(lambda x: getattr(e.nn, _name)(x, n, **kw), [r.pos(3)])
  ENTRIES['nn.' + _name] = _f
for _name in ('bernstein', 'chebyshev', 'fourier', 'gaussian'):
  def _f(e, r, _name=_name):
    n, kw = r.pick(4, 1, 2, 3, 4, 5), r.maybe(gamma=[0.5, 2.0], cuspless=[True, False], use_exponential_weighting=[True, False])
    return Call(lambda x: getattr(e.nn, 'exponential_' + _name)(x, n, **kw), [r.pos(3)])
  ENTRIES['nn.exponential_' + _name] = _f
  def _f(e, r, _name=_name):
    n, kw = r.pick(4, 1, 2, 3, 4, 5), r.maybe(kind=['shifted', 'damped', 'cuspless'], use_reciprocal_weighting=[True, False])
    return Call(lambda x: getattr(e.nn, 'reciprocal_' + _name)(x, n, **kw), [r.pos(3)])
  ENTRIES['nn.reciprocal_' + _name] = _f
for _name, _kw in (('cosine_cutoff', dict(cutoff=[0.5, 2.0])), ('smooth_cutoff', dict(cutoff=[0.5, 2.0])),
                   ('smooth_damping', dict(gamma=[0.5, 2.0])), ('smooth_switch', dict(x0=[-0.5, 0.2], x1=[1.5, 0.7])),
                   ('exponential_mapping', dict(gamma=[0.5, 2.0], cuspless=[True, False])),
                   ('reciprocal_mapping', dict(kind=['shifted', 'damped', 'cuspless']))):
  def _f(e, r, _name=_name, _kw=_kw):
    kw = r.maybe(**_kw)
    return Call(lambda x: getattr(e.nn, _name)(x, **kw), [r.pos(3)])
  ENTRIES['nn.' + _name] = _f


@entry('nn.add')
def _(e, r):
  xs = [r.f(2, *feat(r), 2) for _ in range(r.pick(2, 1, 2, 3))]
  return Call(lambda *xs: e.nn.add(*xs), xs)


@entry('nn.change_max_degree_or_type')
def _(e, r):
  kw = dict(max_degree=r.pick(2, 0, 1, 2)) if r.pick(True, True, False) else {}
  kw.update(r.maybe(include_pseudotensors=[True, False]))
  return Call(lambda x: e.nn.change_max_degree_or_type(x, **kw), [r.f(2, *feat(r), 2)])


@entry('nn.even_degree_mask')
def _(e, r):
  d = r.pick(2, 0, 1, 3)
  return Call(lambda: e.nn.even_degree_mask(d), [])


@entry('nn.odd_degree_mask')
def _(e, r):
  d = r.pick(2, 0, 1, 3)
  return Call(lambda: e.nn.odd_degree_mask(d), [])


@entry('nn.reflect')
def _(e, r):
  return Call(lambda x: e.nn.reflect(x), [r.f(2, *feat(r), 2)])


@entry('nn.rotate')
def _(e, r):
  p, l = feat(r)
  w = r.f(l, l) if r.pick(True, False) else r.f(2, l, l)
  return Call(lambda x, w: e.nn.rotate(x, w), [r.f(2, p, l, 2), w])


def angular(e, r):
  """An angular function, possibly one that takes defaults from the configuration."""
  kind = r.pick(None, None, 'norm', 'solid', 'default')
  if kind == 'norm':
    n = r.pick(*NORMS)
    return lambda r, max_degree, cartesian_order: e.so3.spherical_harmonics(
        r, max_degree, cartesian_order=cartesian_order, normalization=n)
  if kind == 'solid':
    return lambda r, max_degree, cartesian_order: e.so3.solid_harmonics(r, max_degree, cartesian_order=cartesian_order)
  if kind == 'default':
    return lambda r, max_degree, cartesian_order: e.so3.spherical_harmonics(r, max_degree)
  return None


RADIAL = ['basic_bernstein', 'basic_fourier', 'reciprocal_chebyshev', 'sinc', 'exponential_gaussian']


@entry('nn.basis')
def _(e, r):
  d, n = r.pick(1, 0, 1, 2), r.pick(3, 1, 2)
  kw = r.maybe(return_norm=[True, False], cartesian_order=[True, False], damping_fn=[e.nn.smooth_damping])
  if r.pick(False, True):
    kw['cutoff_fn'] = r.pick(e.nn.smooth_cutoff, e.nn.cosine_cutoff)
    kw.update(r.maybe(return_cutoff=[True, False]))
  f = getattr(e.nn, r.pick(*RADIAL))
  a = angular(e, r)
  if a is not None:
    kw['angular_fn'] = a
  return Call(lambda x: e.nn.basis(x, max_degree=d, num=n, radial_fn=f, **kw), [r.f(2, 3)])


# -- initializers ------------------------------------------------------------------
INITTYPES = ('float32', 'complex64', 'complex64', 'bfloat16', 'float16')


def init_dtypes(r):
  """Type given to the initialiser and/or to its call."""
  kw, a = {}, ()
  t = r.dtype(*INITTYPES)
  if t is not None:
    kw['dtype'] = t
  t = r.dtype(*INITTYPES)
  if t is not None:
    a = (t,)
  return kw, a


INITS = ['tensor_glorot_uniform', 'tensor_glorot_normal', 'tensor_lecun_uniform', 'tensor_lecun_normal', 'tensor_he_uniform',
         'tensor_he_normal']
for _name in INITS:
  def _f(e, r, _name=_name):
    sh = (r.pick(2, 1), r.pick(2, 1), r.pick(1, 2), r.pick(2, 1), r.pick(2, 1), r.pick(2, 1), r.pick(2, 3))
    kw, a = init_dtypes(r)
    return Call(lambda k: getattr(e.nn.initializers, _name)(**kw)(k, sh, *a), [key(r)], key=0)
  ENTRIES['init.' + _name] = _f


@entry('init.tensor_variance_scaling')
def _(e, r):
  sh = (r.pick(2, 1), r.pick(2, 1), r.pick(1, 2), r.pick(2, 1), r.pick(2, 1), r.pick(2, 1), r.pick(2, 3))
  a = (r.pick(1.0, 2.0), r.pick('fan_in', 'fan_out', 'fan_avg'), r.pick('normal', 'truncated_normal', 'uniform'))
  kw, b = init_dtypes(r)
  return Call(lambda k: e.nn.initializers.tensor_variance_scaling(*a, **kw)(k, sh, *b), [key(r)], key=0)


for _name in ('fused_tensor_normal', 'fused_tensor_uniform'):
  def _f(e, r, _name=_name):
    sh = (r.pick(2, 1), r.pick(2, 3))
    kw = r.maybe(scale=[0.5, 2.0])
    if r.pick(False, True):
      kw['mask'] = r.np.uniform(size=sh) < 0.5
      kw['mask'][0, 0] = True
    kt, a = init_dtypes(r)
    kw.update(kt)
    return Call(lambda k: getattr(e.nn.initializers, _name)(**kw)(k, sh, *a), [key(r)], key=0)
  ENTRIES['init.' + _name] = _f


# -- modules -------------------------------------------------------------------------
class ModCall(Call):
  """init followed by apply of a module built by `make`."""

  def __init__(self, make, args, k, names=None, ckw=()):
    self.make = make
    ckw = dict(ckw)
    self.names = names or [None] * len(args)
    self.module = None

    def fn(k, *a):
      m = self.module if self.module is not None else make()
      pos = [x for x, n in zip(a, self.names) if n is None]
      kw = {n: x for x, n in zip(a, self.names) if n is not None}
      kw.update(ckw)
      p = m.init(k, *pos, **kw)
      return p, m.apply(p, *pos, **kw)

    super().__init__(fn, [k] + args, key=0)


def types_kw(r):
  """dtype, param_dtype and precision of a module."""
  import jax.numpy as jnp
  kw = r.maybe(precision=['high', 'highest'])
  t = r.dtype('float32', 'bfloat16', 'float16')
  if t is not None:
    kw['dtype'] = t
  t = r.dtype('float32', 'bfloat16', 'float64')
  if t is not None:
    kw['param_dtype'] = t
  return kw


def mod_kw(r, fused=False, **alts):
  kw = r.maybe(max_degree=[0, 1, 2], include_pseudotensors=[True, False], cartesian_order=[True, False], **alts)
  if fused:
    kw.update(r.maybe(use_fused_tensor=[True, False]))
  kw.update(types_kw(r))
  return kw


def dense_inits(e, r, prefix=''):
  """Kernel and bias initialisers of Dense layers."""
  import jax
  kw = {}
  if r.pick(False, False, True):
    kw[prefix + 'kernel_init'] = jax.nn.initializers.normal(0.3)
  if r.pick(False, True):
    kw[prefix + 'bias_init'] = jax.nn.initializers.normal(0.5)
  return kw


@entry('nn.Dense')
def _(e, r):
  n, kw = r.pick(3, 1, 2), r.maybe(use_bias=[True, False])
  kw.update(types_kw(r))
  kw.update(dense_inits(e, r))
  return ModCall(lambda: e.nn.Dense(n, **kw), [r.f(2, *feat(r), 2)], key(r))


@entry('nn.Embed')
def _(e, r):
  n = r.pick(3, 2)
  kw = types_kw(r)
  kw.pop('precision', None)
  return ModCall(lambda: e.nn.Embed(5, n, **kw), [np.asarray([r.r.randrange(5) for _ in range(3)], np.int32)], key(r))


for _name in ('Tensor', 'FusedTensor'):
  def _f(e, r, _name=_name):
    kw = mod_kw(r)
    if r.pick(False, True):
      i = e.nn.initializers
      kw['kernel_init'] = r.pick(i.tensor_glorot_uniform(), i.tensor_he_normal(), i.tensor_lecun_uniform()) if _name == 'Tensor' else i.fused_tensor_uniform
    return ModCall(lambda: getattr(e.nn, _name)(**kw), [r.f(2, *feat(r, 1), 2), r.f(2, *feat(r, 1), 2)], key(r))
  ENTRIES['nn.' + _name] = _f


@entry('nn.TensorDense')
def _(e, r):
  kw = mod_kw(r, True, features=[2, 3], use_bias=[True, False])
  kw.update(dense_inits(e, r, 'dense_'))
  return ModCall(lambda: e.nn.TensorDense(**kw), [r.f(2, *feat(r, 1), 2)], key(r))


def extras(r, dense, n, idx, where):
  """Names and arrays of the index list, and static keyword arguments of the call."""
  arr = dict(idx)
  kw = {}
  if dense:
    if r.pick(False, True):
      arr['where'] = where & (r.np.uniform(size=where.shape) < 0.8)
  else:
    kw.update(r.maybe(num_segments=[n, n + 2], indices_are_sorted=[True]))
  return arr, kw


@entry('nn.MessagePass')
def _(e, r):
  kw = mod_kw(r, True, use_basis_bias=[True, False])
  dense = r.pick(True, False)
  n, idx, where = graph(r, dense)
  lead = (n, 2) if dense else (len(idx['dst_idx']),)
  b = r.f(*lead, 1, (r.pick(1, 0, 1) + 1) ** 2, 2)
  arr, ckw = extras(r, dense, n, idx, where)
  if r.pick(False, True):
    arr['weights'] = r.f(*lead, 1, 1, r.pick(1, 2))
  names = sorted(arr)
  return ModCall(lambda: e.nn.MessagePass(**kw), [r.f(n, *feat(r, 1), 2), b] + [arr[k] for k in names], key(r), [None, None] + names, ckw)


for _name in ('SelfAttention', 'MultiHeadAttention'):
  def _f(e, r, _name=_name):
    kw = mod_kw(r, True, num_heads=[1, 2], use_relative_positional_encoding_qk=[True, False],
                use_relative_positional_encoding_v=[True, False], use_basis_bias=[True, False], query_use_bias=[True, False],
                key_use_bias=[True, False], value_use_bias=[True, False], output_use_bias=[True, False])
    if _name == 'MultiHeadAttention':
      kw.update(r.maybe(qkv_features=[2, 4], out_features=[2, 3]))
    dense = r.pick(True, False)
    n, idx, where = graph(r, dense)
    lead = (n, 2) if dense else (len(idx['dst_idx']),)
    b = r.f(*lead, 1, (r.pick(1, 0, 1) + 1) ** 2, 2)
    arr, ckw = extras(r, dense, n, idx, where)
    if not dense:
      ckw.pop('num_segments', None)
    if r.pick(False, True):
      arr['cutoff_value'] = r.pos(*lead)
    names = sorted(arr)
    x = [r.f(n, *feat(r, 1), 2)]
    if _name == 'MultiHeadAttention':
      x.append(r.f(n, *x[0].shape[1:]) if r.pick(True, False) else r.f(n, *feat(r, 1), 2))
    return ModCall(lambda: getattr(e.nn, _name)(**kw), x + [b] + [arr[k] for k in names], key(r), [None] * (len(x) + 1) + names, ckw)
  ENTRIES['nn.' + _name] = _f


@entry('nn.model')
def _(e, r):
  """A small energy model: embedding, message passing, refinement, forces."""
  import flax.linen as fl
  import jax
  import jax.numpy as jnp
  d = r.pick(1, 1, 2)
  fused = r.maybe(use_fused_tensor=[True, False])
  order = r.maybe(cartesian_order=[True, False])
  act = getattr(e.nn, r.pick('silu', 'gelu', 'mish'))
  radial = getattr(e.nn, r.pick('reciprocal_bernstein', 'basic_gaussian'))
  last = r.pick('message', 'attention')

  class Model(fl.Module):

    @fl.compact
    def __call__(self, pos, z):
      dst, src = e.ops.sparse_pairwise_indices(3)
      b = e.nn.basis(pos[src] - pos[dst], max_degree=d, num=3, radial_fn=radial, cutoff_fn=e.nn.smooth_cutoff, **order)
      x = e.nn.Embed(4, 2)(z)
      y = e.nn.MessagePass(max_degree=1, include_pseudotensors=False, **fused, **order)(x, b, dst_idx=dst, src_idx=src)
      x = e.nn.add(x, y)
      x = e.nn.Dense(2)(act(e.nn.Dense(2)(x)))
      if last == 'message':
        x = e.nn.MessagePass(max_degree=0, include_pseudotensors=False, **fused, **order)(x, b, dst_idx=dst, src_idx=src)
      x = e.nn.change_max_degree_or_type(x, max_degree=0, include_pseudotensors=False)
      return jnp.sum(e.nn.Dense(1, use_bias=False)(x))

  def fn(k, pos, z):
    m = Model()
    p = m.init(k, pos, z)
    return p, jax.value_and_grad(lambda x: m.apply(p, x, z))(pos)

  return Call(fn, [key(r), r.f(3, 3), np.asarray([r.r.randrange(4) for _ in range(3)], np.int32)], key=0)


@entry('nn.ExponentialBasis')
def _(e, r):
  d, n = r.pick(1, 0, 2), r.pick(3, 2)
  kw = r.maybe(initial_gamma=[0.5, 2.0])
  t = r.dtype('float32', 'bfloat16')
  if t is not None:
    kw['param_dtype'] = t
  f = getattr(e.nn, r.pick('exponential_bernstein', 'exponential_gaussian', 'exponential_chebyshev'))
  kw2 = r.maybe(cartesian_order=[True, False], return_norm=[True])
  a = angular(e, r)
  if a is not None:
    kw2['angular_fn'] = a

  def fn(k, x):
    m = e.nn.ExponentialBasis(**kw)
    a = dict(max_degree=d, num=n, radial_fn=f, **kw2)
    p = m.init(k, x, **a)
    return p, m.apply(p, x, **a)

  return Call(fn, [key(r), r.f(2, 3)])


# -- matrix --------------------------------------------------------------------------
@entry('matrix.init_matrix_irreps_weights')
def _(e, r):
  d = {l: r.pick(1, 1, 2) for l in range(r.pick(2, 1, 3))}
  n, m, s = r.pick(2, 1), r.pick(1, 2), r.pick(1.0, 0.5)
  return Call(lambda k: e.matrix.init_matrix_irreps_weights(k, n, d, m, s), [key(r)], key=0, mutable=(d,))


@entry('matrix.make_square_matrix')
def _(e, r):
  degs = list(r.pick((0, 1), (0,), (1,), (0, 1), (1, 1), (0, 0, 1)))
  m = r.pick(1, 2)
  md = max(1, max(degs)) if r.pick(True, False) else max(degs) * 2
  md = max(md, max(degs))
  cnt = {}
  for a in degs:
    for b in degs:
      for l in range(abs(a - b), min(a + b, md) + 1):
        cnt[l] = cnt.get(l, 0) + m * m
  irr = [r.f(2 * l + 1, cnt.get(l, m * m)) for l in range(md + 1)]
  shift = r.pick(False, True)
  prec = r.pick(None, 'high', 'highest')
  return Call(lambda *irr: e.matrix.make_square_matrix(list(irr), degs, m, md, shift, prec), irr, mutable=(degs,))


@entry('matrix.combine_irreps')
def _(e, r):
  d = r.pick(1, 0, 2)
  f, m = r.pick(2, 1), r.pick(2, 3)
  prec = r.pick(None, 'high', 'highest')
  ws = [r.f(f, m) for _ in range(d + 1)]
  return Call(lambda x, *w: e.matrix.matmat.combine_irreps(x, list(w), prec), [r.f(*r.pick((), (2,)), (d + 1) ** 2, f)] + ws)


@entry('matrix.make_dict_irreps_mult')
def _(e, r):
  degs = list(r.pick((0, 1), (0,), (1, 1), (0, 1, 2)))
  kw = r.maybe(max_degree=[0, 1, 2])

  def fn():
    d = e.matrix.matmat.make_dict_irreps_mult(degs, **kw)
    return [np.asarray(x, np.int32) for x in sorted(dict(d).items())]

  return Call(fn, [], mutable=(degs,))


@entry('matrix.get_traces')
def _(e, r):
  degs = list(r.pick((0, 1), (0,), (1,), (0, 0, 1)))
  m, shift = r.pick(1, 2), r.pick(False, True)
  n = sum(2 * l + 1 for l in degs) * m
  return Call(lambda x: e.matrix.matmat.get_traces(x, degs, m, shift), [r.f(n, n)], mutable=(degs,))


# -- user-supplied callbacks that fail ----------------------------------------------
class Boom(Exception):
  """Raised by user-supplied callbacks and by aborted traces."""


def boom(*a, **kw):
  raise Boom('callback failed')


CALLBACKS = {}


def callback(name):
  def deco(f):
    CALLBACKS[name] = f
    return f
  return deco


def _basis_cb(which):
  def build(e, r):
    kw = dict(max_degree=r.pick(1, 0, 2), num=2, radial_fn=e.nn.basic_bernstein)
    kw.update(r.maybe(cartesian_order=[True, False], return_norm=[True, False], damping_fn=[e.nn.smooth_damping], cutoff_fn=[e.nn.smooth_cutoff]))
    kw[which] = boom
    return Call(lambda x: e.nn.basis(x, **kw), [r.f(2, 3)])
  return build


for _w in ('radial_fn', 'angular_fn', 'cutoff_fn', 'damping_fn'):
  CALLBACKS['cb.basis.' + _w] = _basis_cb(_w)


@callback('cb.ExponentialBasis.radial_fn')
def _(e, r):
  kw = r.maybe(cartesian_order=[True, False])
  which = r.pick('radial_fn', 'angular_fn', 'cutoff_fn', 'damping_fn')
  kw2 = dict(max_degree=1, num=2, radial_fn=e.nn.exponential_bernstein)
  kw2[which] = boom
  return Call(lambda x: e.nn.ExponentialBasis().init(np.asarray([0, 1], np.uint32), x, **kw2, **kw), [r.f(2, 3)])


def _mod_cb(cls, which, n):
  def build(e, r):
    kw = {'features': 2} if cls == 'Dense' else {}
    if cls == 'Embed':
      kw = dict(num_embeddings=3, features=2)
    elif cls != 'Dense':
      kw.update(r.maybe(cartesian_order=[True, False], max_degree=[0, 1]))
    if cls in ('TensorDense', 'MessagePass', 'SelfAttention') and not which.startswith('tensor'):
      kw.update(r.maybe(use_fused_tensor=[True, False]))
    kw[which] = boom
    x = r.f(2, 1, 4, 2) if cls != 'Embed' else np.asarray([0, 1])
    args = [x] * n
    akw = {}
    if cls in ('MessagePass', 'SelfAttention'):
      args = [x, r.f(2, 1, 1, 4, 2)]
      akw = dict(adj_idx=np.asarray([[1], [0]]))
    return Call(lambda *a: getattr(e.nn, cls)(**kw).init(np.asarray([0, 1], np.uint32), *a, **akw), args)
  return build


for _c, _w, _n in (('Dense', 'kernel_init', 1), ('Dense', 'bias_init', 1), ('Tensor', 'kernel_init', 2), ('FusedTensor', 'kernel_init', 2),
                   ('TensorDense', 'tensor_kernel_init', 1), ('TensorDense', 'dense_kernel_init', 1), ('Embed', 'embedding_init', 1),
                   ('MessagePass', 'tensor_kernel_init', 1), ('MessagePass', 'dense_kernel_init', 1), ('SelfAttention', 'query_kernel_init', 1),
                   ('SelfAttention', 'tensor_kernel_init', 1), ('SelfAttention', 'output_kernel_init', 1)):
  CALLBACKS['cb.%s.%s' % (_c, _w)] = _mod_cb(_c, _w, _n)


@callback('cb.evaluate_derivatives')
def _(e, r):
  return Call(lambda x: e.ops.evaluate_derivatives(boom, x, 1), [r.f(3)])


NAMES = sorted(ENTRIES)
CBS = sorted(CALLBACKS)
MODULES = [n for n in NAMES if n.startswith('nn.') and n[3].isupper()]
RANDOM = [n for n in NAMES if n.startswith('init.')] + ['so3.random_rotation', 'matrix.init_matrix_irreps_weights', 'nn.model'] + MODULES
TABLED = ['so3.spherical_harmonics', 'so3.solid_harmonics', 'so3.clebsch_gordan', 'so3.clebsch_gordan_for_degrees', 'so3.wigner_d',
          'so3.tensor_to_irreps', 'so3.irreps_to_tensor', 'nn.basis', 'matrix.make_square_matrix']
CHEAP = [n for n in NAMES if n not in MODULES and n != 'nn.model']
CONFIGURED = TABLED + ['nn.ExponentialBasis', 'nn.Tensor', 'nn.FusedTensor', 'nn.TensorDense', 'nn.MessagePass', 'nn.SelfAttention',
                       'nn.MultiHeadAttention', 'nn.model']


def weight(n):
  """How often an entry is the focus of a run."""
  if n in ('so3.lebedev_quadrature', 'so3.delley_quadrature', 'so3.random_rotation'):
    return 6
  if n in TABLED:
    return 12
  if n == 'nn.ExponentialBasis':
    return 8
  if n.startswith('matrix.'):
    return 6
  if n in MODULES or n == 'nn.model':
    return 6
  if n.startswith(('so3.', 'ops.', 'init.')):
    return 4
  if n in ('nn.rotate', 'nn.reflect', 'nn.add', 'nn.change_max_degree_or_type', 'nn.even_degree_mask', 'nn.odd_degree_mask'):
    return 4
  return 1  # activations and radial functions


HEAVY = {'nn.SelfAttention', 'nn.MultiHeadAttention', 'nn.MessagePass', 'nn.model'}
NG = 8  # groups of names; the runs of one group are made by one worker, which compiles their kernels once


def groups():
  """Names by group: functions with tables together, the rest by estimated cost."""
  gs = [list(TABLED[:2]) + ['nn.basis', 'so3.tensor_to_irreps', 'so3.irreps_to_tensor'],
        ['so3.clebsch_gordan', 'so3.clebsch_gordan_for_degrees', 'so3.wigner_d', 'matrix.make_square_matrix']] + [[] for _ in range(NG - 2)]
  cost = [9 * len(g) for g in gs]
  def unit(n):
    return 30 if n in HEAVY else 14 if n in MODULES or n == 'nn.ExponentialBasis' else 3 if weight(n) > 1 else 1
  for n in sorted((n for n in NAMES if n not in TABLED), key=lambda n: (-unit(n), n)):
    i = min(range(NG), key=lambda i: cost[i])
    gs[i].append(n)
    cost[i] += unit(n)
  return gs


def rounds(names, k):
  """A fixed order that visits every name once, then heavier ones more often."""
  r = random.Random('rounds/%d/%s' % (k, names[0]))
  out = list(names)
  r.shuffle(out)
  more = [n for n in names for _ in range(weight(n) // 2)]
  r.shuffle(more)
  return out + more


def build(e, name, v, tw=None):
  r = Rv(name, v, tw)
  call = (CALLBACKS if name in CALLBACKS else ENTRIES)[name](e, r)
  call.half = r.half
  call.choices = r.n
  return call


def of(e, op):
  """The call of an operation."""
  return build(e, op['fn'], op['v'], op.get('tw'))
