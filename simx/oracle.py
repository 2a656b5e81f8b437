"""Independent numpy oracles for the quantities computed from lookup tables.

None of this uses e3x.  Spherical harmonics come from associated Legendre
recurrences, Clebsch-Gordan coefficients from Racah's formula with a complex to
real change of basis, Wigner-D matrices from a linear solve over sampled
spherical harmonics, tensor conversion from the defining relation between
harmonics and the symmetric traceless part of r x r x ... x r.
"""
import functools
import itertools
import math

import numpy as np


def cart_perm(l):
  """Position i of Cartesian order holds m-index p[i]: m=l,-l,l-1,-(l-1),...,0."""
  p = []
  for m in range(l, 0, -1):
    p += [l + m, l - m]
  return p + [l]


@functools.lru_cache(None)
def cart_perm_all(L):
  return np.concatenate([np.array(cart_perm(l)) + l * l for l in range(L + 1)])


def norm_const(normalization, l):
  if normalization == '4pi':
    return math.sqrt(2 * l + 1)
  if normalization == 'orthonormal':
    return math.sqrt((2 * l + 1) / (4 * math.pi))
  return 1.0


def solid_m_order(r, L):
  """Real solid harmonics, Racah normalisation, m order; r: (n,3) float64."""
  r = np.asarray(r, np.longdouble)
  x, y, z = r[:, 0], r[:, 1], r[:, 2]
  r2 = x * x + y * y + z * z
  n = r.shape[0]
  out = np.zeros((n, (L + 1) ** 2), np.longdouble)
  # Q[l][m]: associated Legendre without (1-z^2)^(m/2), homogenised.
  Q = {}
  for m in range(L + 1):
    v = np.full(n, np.longdouble(1.0))
    for k in range(1, m + 1):
      v = v * (2 * k - 1)
    Q[(m, m)] = v
    if m + 1 <= L:
      Q[(m + 1, m)] = z * (2 * m + 1) * Q[(m, m)]
    for l in range(m + 2, L + 1):
      Q[(l, m)] = ((2 * l - 1) * z * Q[(l - 1, m)] - (l + m - 1) * r2 * Q[(l - 2, m)]) / (l - m)
  c, s = [np.ones(n, np.longdouble)], [np.zeros(n, np.longdouble)]
  for m in range(1, L + 1):
    c.append(x * c[-1] - y * s[-1])
    s.append(x * s[-1] + y * c[-2])
  for l in range(L + 1):
    for m in range(l + 1):
      f = np.longdouble(1.0)
      for k in range(l - m + 1, l + m + 1):
        f = f / k
      f = np.sqrt(f)
      if m == 0:
        out[:, l * l + l] = Q[(l, 0)]
      else:
        out[:, l * l + l + m] = np.sqrt(np.longdouble(2)) * f * Q[(l, m)] * c[m]
        out[:, l * l + l - m] = np.sqrt(np.longdouble(2)) * f * Q[(l, m)] * s[m]
  return np.asarray(out, np.float64)


def spherical(r, L, cart, normalization, normalized=False):
  r = np.asarray(r, np.float64)
  if not normalized:
    n = np.linalg.norm(r, axis=-1, keepdims=True)
    r = r / np.where(n == 0, 1, n)
  y = solid_m_order(r, L)
  for l in range(L + 1):
    y[:, l * l:(l + 1) ** 2] *= norm_const(normalization, l)
  return y[:, cart_perm_all(L)] if cart else y


# -- Clebsch-Gordan ------------------------------------------------------------
@functools.lru_cache(None)
def _cg_complex(j1, m1, j2, m2, j3, m3):
  if m1 + m2 != m3 or j3 < abs(j1 - j2) or j3 > j1 + j2 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
    return 0.0
  f = math.factorial
  from fractions import Fraction
  pre = Fraction((2 * j3 + 1) * f(j3 + j1 - j2) * f(j3 - j1 + j2) * f(j1 + j2 - j3), f(j1 + j2 + j3 + 1))
  pre *= f(j3 + m3) * f(j3 - m3) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2)
  t = Fraction(0)
  for k in range(0, j1 + j2 + j3 + 1):
    d = (k, j1 + j2 - j3 - k, j1 - m1 - k, j2 + m2 - k, j3 - j2 + m1 + k, j3 - j1 - m2 + k)
    if min(d) < 0:
      continue
    q = 1
    for v in d:
      q *= f(v)
    t += Fraction((-1) ** k, q)
  return math.copysign(math.sqrt(float(pre * t * t)), t) if t else 0.0


def _real_basis(l):
  """U[m_real, m_complex] with Y_real = U Y_complex (Condon-Shortley complex)."""
  U = np.zeros((2 * l + 1, 2 * l + 1), complex)
  for m in range(-l, l + 1):
    if m > 0:
      U[l + m, l + m] = (-1) ** m / math.sqrt(2)
      U[l + m, l - m] = 1 / math.sqrt(2)
    elif m < 0:
      U[l + m, l + m] = 1j / math.sqrt(2)
      U[l + m, l - m] = -1j * (-1) ** m / math.sqrt(2)
    else:
      U[l, l] = 1
  return U


@functools.lru_cache(None)
def cg_block(l1, l2, l3):
  """Real coefficients in m order; zero block if the triangle rule fails."""
  out = np.zeros((2 * l1 + 1, 2 * l2 + 1, 2 * l3 + 1))
  if l3 < abs(l1 - l2) or l3 > l1 + l2:
    return out
  C = np.zeros(out.shape, complex)
  for m1 in range(-l1, l1 + 1):
    for m2 in range(-l2, l2 + 1):
      m3 = m1 + m2
      if abs(m3) <= l3:
        C[l1 + m1, l2 + m2, l3 + m3] = _cg_complex(l1, m1, l2, m2, l3, m3)
  R = np.einsum('am,bn,co,mno->abc', _real_basis(l1), _real_basis(l2), _real_basis(l3).conj(), C)
  R = R * (1j) ** (l1 + l2 - l3)
  assert np.abs(R.imag).max() < 1e-10, (l1, l2, l3)
  return R.real


def cg(L1, L2, L3, cart):
  out = np.zeros(((L1 + 1) ** 2, (L2 + 1) ** 2, (L3 + 1) ** 2))
  for a in range(L1 + 1):
    for b in range(L2 + 1):
      for c in range(L3 + 1):
        out[a * a:(a + 1) ** 2, b * b:(b + 1) ** 2, c * c:(c + 1) ** 2] = cg_block(a, b, c)
  if cart:
    out = out[cart_perm_all(L1)][:, cart_perm_all(L2)][:, :, cart_perm_all(L3)]
  return out


def cg_degrees(a, b, c, cart):
  x = cg_block(a, b, c)
  if cart:
    x = x[cart_perm(a)][:, cart_perm(b)][:, :, cart_perm(c)]
  return x


# -- Wigner-D --------------------------------------------------------------------
_pts = np.random.RandomState(7).normal(size=(160, 3))
_pts /= np.linalg.norm(_pts, axis=1, keepdims=True)


def wigner(rot, L, cart):
  """D with Y(r) D = Y(r rot), block by block."""
  rot = np.asarray(rot, np.float64)
  out = np.zeros(((L + 1) ** 2,) * 2)
  A = spherical(_pts, L, cart, 'racah', True)
  B = spherical(_pts @ rot, L, cart, 'racah', True)
  for l in range(L + 1):
    s = slice(l * l, (l + 1) ** 2)
    out[s, s] = np.linalg.lstsq(A[:, s], B[:, s], rcond=None)[0]
  return out


# -- tensor conversion -------------------------------------------------------------
@functools.lru_cache(None)
def _sym_traceless_of(l):
  """Matrix S (m order, Racah) with tensor(x) = x @ S, S: (2l+1, 3**l).

  The map is fixed by: the irreps Y(r) (Racah) of a unit vector correspond to
  the symmetric traceless part of the l-fold outer product of r, whose
  contraction with l copies of another unit vector s is proportional to
  Legendre's P_l(r.s); the projection fixes the factor l!/(2l-1)!!.
  """
  r = _pts[: 4 * l + 12]
  Y = solid_m_order(r, l)[:, l * l:]
  # T(r)[i1..il]: coefficients of the polynomial s -> c_l * sum_m Y_m(r) Y_m(s)
  # (addition theorem: sum_m Y_m(r)Y_m(s) = P_l(r.s)), c_l = l!/(2l-1)!!.
  c = math.factorial(l) / math.prod(range(1, 2 * l, 2))
  # symmetric tensor of polynomial Y_m(s): solve from samples on monomials
  mono = list(itertools.combinations_with_replacement(range(3), l))
  s = np.random.RandomState(11).normal(size=(3 * len(mono) + 10, 3))
  M = np.stack([np.prod(s[:, list(t)], axis=1) if t else np.ones(len(s)) for t in mono], 1)
  Ys = solid_m_order(s, l)[:, l * l:]
  coef = np.linalg.lstsq(M, Ys, rcond=None)[0]  # (nmono, 2l+1)
  S = np.zeros((2 * l + 1, 3 ** l))
  index = {t: i for i, t in enumerate(mono)}
  count = {}
  allidx = list(itertools.product(range(3), repeat=l))
  for t in allidx:
    k = tuple(sorted(t))
    count[k] = count.get(k, 0) + 1
  for j, t in enumerate(allidx):
    k = tuple(sorted(t))
    S[:, j] = c * coef[index[k]] / count[k]
  return S


def irreps_to_tensor(x, l, cart, normalization):
  S = _sym_traceless_of(l) / norm_const(normalization, l)
  if cart:
    S = S[cart_perm(l)]
  y = np.asarray(x, np.float64) @ S
  return y.reshape(y.shape[:-1] + ((3,) * l if l else (1,)))


@functools.lru_cache(None)
def _t2s(l):
  """Inverse on traceless symmetric tensors."""
  S = _sym_traceless_of(l)
  return S.T @ np.linalg.inv(S @ S.T)


def tensor_to_irreps(t, l, cart, normalization):
  t = np.asarray(t, np.float64)
  batch = t.shape[:-l] if l else t.shape[:-1]
  T = _t2s(l) * norm_const(normalization, l)
  if cart:
    T = T[:, cart_perm(l)]
  return t.reshape(batch + (3 ** l if l else 1,)) @ T


def traceless_tensor(l, seed):
  """A deterministic traceless symmetric tensor (batch 2)."""
  x = np.random.RandomState(seed).normal(size=(2, 2 * l + 1))
  return irreps_to_tensor(x, l, False, 'racah')
