"""Shares compiled kernels between the processes of one check (speed only).

XLA compiles deterministically, so where a kernel comes from has no influence on a
simulated execution.  The directory belongs to one run of a check and is removed
with it; without it (replay) everything is compiled.
"""
import os

_open, _exists, _rename = open, os.path.exists, os.replace  # before the simulated file system is installed


class Cache:

  def __init__(self, path):
    self._path = path
    self.hits = self.puts = 0

  def get(self, key):
    try:
      with _open(os.path.join(self._path, key), 'rb') as f:
        b = f.read()
      self.hits += 1
      return b
    except OSError:
      return None

  def put(self, key, value):
    p = os.path.join(self._path, key)
    tmp = '%s.%d' % (p, os.getpid())
    try:
      with _open(tmp, 'wb') as f:
        f.write(value)
      _rename(tmp, p)
      self.puts += 1
    except OSError:
      pass

  def clear(self):
    pass


PATH = os.environ.pop('SIMX_JITCACHE', None)  # not part of what a run sees of its environment


def install():
  path = PATH
  if not path or not _exists(path):
    return None
  import jax
  from jax._src import compilation_cache as cc
  jax.config.update('jax_persistent_cache_min_compile_time_secs', 0.0)
  jax.config.update('jax_persistent_cache_min_entry_size_bytes', -1)
  c = Cache(path)
  cc._cache = c
  cc._cache_initialized = cc._cache_checked = cc._cache_used = True
  return c
