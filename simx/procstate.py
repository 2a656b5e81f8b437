"""State of the process that the library does not own (C17)."""
import decimal
import gc
import locale
import logging
import math
import multiprocessing
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from . import simfs


def _callable(f):
  return getattr(f, '__qualname__', None) or repr(type(f))


class Attributes(dict):
  """What the names of a module refer to; names may be added (lazily imported parts)."""

  def __eq__(self, other):
    return all(other.get(k, v) == v for k, v in self.items())

  def __ne__(self, other):
    return not self == other

  __hash__ = None


OTHERS = ('builtins', 'os', 'io', 'sys', 'math', 'time', 'random', 'zipfile', 'pickle', 'pathlib', 'tempfile', 'functools', 'itertools', 'operator', 'warnings',
          'logging', 'threading', 'multiprocessing', 'numpy', 'numpy.linalg', 'numpy.random', 'jax', 'jax.numpy', 'jax.lax', 'jax.random', 'jax.nn',
          'jax.config', 'flax.linen', 'sympy', 'etils.epath', 'pkgutil')


def attributes():
  out = Attributes()
  for m in OTHERS:
    for k, v in list(vars(sys.modules.get(m, math)).items()):
      if callable(v) and not k.startswith('__'):
        out[m, k] = id(v)
  return out


def shared():
  """{name: value} of what all threads of the process share."""
  import jax
  import absl.logging
  import mpmath
  if not logging.root.handlers:  # what the first message ever logged does
    logging.basicConfig()
  st = np.random.get_state()
  um = os.umask(0o22)
  os.umask(um)
  d = {
      'random': hash(random.getstate()),
      'numpy.random': hash((st[0], st[1].tobytes(), st[2:])),
      'warnings.filters': str(warnings.filters),
      'warnings.showwarning': _callable(warnings.showwarning),
      'logging.root': (logging.root.level, logging.root.manager.disable, len(logging.root.handlers), logging.root.disabled),
      'absl.logging': absl.logging.get_verbosity(),
      'environment': hash(tuple(sorted(os.environ.items()))),
      'directory': simfs._real['getcwd'](),
      'umask': um,
      'sys.path': tuple(sys.path),
      'sys.settings': (sys.getrecursionlimit(), sys.getswitchinterval(), sys.get_int_max_str_digits(), sys.dont_write_bytecode),
      'sys.hooks': tuple(_callable(getattr(sys, k)) for k in ('excepthook', 'displayhook', 'unraisablehook', 'breakpointhook')) + (
          _callable(threading.excepthook),),
      'sys.streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
      'signals': tuple(_callable(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1, signal.SIGCHLD)),
      'garbage collector': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
      'locale': locale.setlocale(locale.LC_ALL),
      'process start method': multiprocessing.get_start_method(allow_none=True),
      'tempfile': (tempfile.tempdir, tempfile.template),
      'functions of other modules': attributes(),
      'mpmath': (mpmath.mp.prec, mpmath.mp.dps),
      'numpy print options': str(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
  }
  for k, v in jax.config.values.items():
    d['jax ' + k] = str(v)
  return d


def own():
  """{name: value} of what belongs to the calling thread."""
  import jax
  return {
      'numpy error handling': str(sorted(np.geterr().items())),
      'decimal context': str(decimal.getcontext()),
      'jax precision mode': (jax.config.jax_enable_x64, str(jax.config.jax_default_matmul_precision), jax.config.jax_disable_jit,
                             jax.config.jax_debug_nans, str(jax.config.jax_numpy_dtype_promotion), str(jax.config.jax_default_device)),
      'tracing': (sys.gettrace(), sys.getprofile()),
  }


def diff(a, b):
  return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


AMBIENT = ('numpy', 'recursion', 'warnings', 'jax_debug_nans', 'jax_default_matmul_precision', 'jax_numpy_rank_promotion', 'jax_enable_x64', 'signal',
           'environment', 'umask', 'switch', 'logging', 'absl', 'decimal')
_JAX = {'jax_debug_nans': True, 'jax_default_matmul_precision': 'highest', 'jax_numpy_rank_promotion': 'warn', 'jax_enable_x64': True}


def apply(ambient):
  """Puts the process into unusual but legitimate states; returns the undo list."""
  import jax
  import absl.logging
  undo = []
  for k in ambient:
    if k == 'recursion':
      undo.append((sys.setrecursionlimit, sys.getrecursionlimit()))
      sys.setrecursionlimit(sys.getrecursionlimit() + 777)
    elif k == 'warnings':
      saved = list(warnings.filters)
      def back(saved=saved):
        warnings.filters[:] = saved
        warnings._filters_mutated()
      undo.append((back,))
      warnings.simplefilter('error', category=BytesWarning)
    elif k in _JAX:
      undo.append((jax.config.update, k, jax.config.values[k]))
      jax.config.update(k, _JAX[k])
    elif k == 'signal':
      undo.append((signal.signal, signal.SIGUSR1, signal.getsignal(signal.SIGUSR1)))
      signal.signal(signal.SIGUSR1, signal.SIG_IGN)
    elif k == 'environment':
      undo.append((os.environ.pop, 'OMP_NUM_THREADS_SIMX', None))
      os.environ['OMP_NUM_THREADS_SIMX'] = '3'
    elif k == 'umask':
      undo.append((os.umask, os.umask(0o077)))
    elif k == 'switch':
      undo.append((sys.setswitchinterval, sys.getswitchinterval()))
      sys.setswitchinterval(0.0123)
    elif k == 'logging':
      undo.append((logging.disable, logging.root.manager.disable))
      logging.disable(logging.DEBUG)
    elif k == 'absl':
      undo.append((absl.logging.set_verbosity, absl.logging.get_verbosity()))
      absl.logging.set_verbosity(absl.logging.FATAL)
  return undo


def apply_own(ambient):
  """The part of the ambient state that belongs to a thread."""
  if 'numpy' in ambient:
    np.seterr(all='ignore', over='raise')
  if 'decimal' in ambient:
    decimal.getcontext().prec = 17


def restore(undo):
  for f, *a in reversed(undo):
    f(*a)
