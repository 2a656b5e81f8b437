"""Simulated processes: fresh copies of the real e3x modules, and their seams."""
import ast
import concurrent.futures
import copy
import gc
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import json
import multiprocessing
import multiprocessing.pool
import os
import pickle
import random
import runpy
import sys
import threading
import types
import warnings
import weakref

REPO = os.environ.get('VERIF_REPO', '/repo')
E3X = os.path.join(REPO, 'e3x')
PKG = os.path.join(E3X, 'so3')
HERE = os.path.dirname(os.path.abspath(__file__))

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('JAX_DISABLE_MOST_OPTIMIZATIONS', '1')
os.environ.setdefault('XLA_FLAGS', '--xla_cpu_multi_thread_eigen=false')
sys.dont_write_bytecode = True

from . import core  # pylint: disable=g-import-not-at-top
from . import direct
from . import jitcache
from . import simfs

DIRECTION = direct.of(REPO)
_codes = {}


class Loader(importlib.machinery.SourceFileLoader):
  """Loads e3x from /repo's working tree; compiles each source once."""

  def get_code(self, fullname):
    path = self.path
    c = _codes.get(path)
    if c is None:
      with simfs._real.get('open', open)(path, 'rb') as f:
        src = f.read()
      c = compile(src, path, 'exec', dont_inherit=True)
      _codes[path] = c
      tree = ast.parse(src)
      SHIELD[path[len(E3X) + 1:]] = shielded(tree)
      HOT[path[len(E3X) + 1:]] = hot(tree)
      instrument(c)
    return c


# Lines of each file at which no exception is injected.
SHIELD = {}


def shielded(tree):
  """Lines at which no Python code can protect itself against an exception.

  The line events of a with statement also occur after its body and before its
  exit, that of a try statement between the acquisition before it and its body;
  handlers and finally clauses are themselves the protection.
  """
  out = set()
  for n in ast.walk(tree):
    if isinstance(n, (ast.With, ast.AsyncWith)):
      out.update(range(n.lineno, n.body[0].lineno))
    elif isinstance(n, (ast.Try, ast.TryStar)):
      out.add(n.lineno)
      for x in n.handlers:
        out.update(range(x.lineno, x.end_lineno + 1))
      for x in n.finalbody:
        out.update(range(x.lineno, x.end_lineno + 1))
    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ('__exit__', '__aexit__', '__del__', 'release', 'close'):
      out.update(range(n.lineno, n.end_lineno + 1))
  return out


# Lines of each file at which preemption is tried more often.
HOT = {}


def hot(tree):
  """Lines that touch state which outlives the call: an exploration hint only."""
  shared = {'Config', 'self'}
  for n in tree.body:
    for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign)) else []:
      if isinstance(t, ast.Name) and not t.id[:1].isupper():
        shared.add(t.id)
  out = set()
  for f in ast.walk(tree):
    if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
      continue
    for n in f.body if isinstance(f.body, list) else [f.body]:
      for x in ast.walk(n):
        if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
          out.add(x.lineno)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
          shared.update(x.names)
        elif isinstance(x, ast.Name) and x.id in shared and x.id != 'self':
          out.add(x.lineno)
  return out


class Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, fullname, path=None, target=None):
    if fullname != 'e3x' and not fullname.startswith('e3x.'):
      return None
    base = os.path.join(REPO, *fullname.split('.'))
    st = simfs._real.get('exists', os.path.exists)
    if st(os.path.join(base, '__init__.py')):
      f = os.path.join(base, '__init__.py')
      return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f), submodule_search_locations=[base])
    if st(base + '.py'):
      return importlib.util.spec_from_file_location(fullname, base + '.py', loader=Loader(fullname, base + '.py'))
    return None


def is_e3x(name):
  return name == 'e3x' or name.startswith('e3x.')


# -- sympy seam: memoised (results are sympy's own) and counted ----------------
class Memo:
  """Memo of sympy.simplify / clebsch_gordan keyed by their exact argument."""

  def __init__(self):
    self.simplify = {}
    self.cg = {}
    self.calls = 0
    self.miss = 0
    self.srepr = {}
    self.new = {}


MEMO = Memo()
MEMO_FILE = os.path.join(HERE, 'data', 'sympy_memo.json.gz')


def install_sympy():
  import sympy
  import sympy.physics.wigner as w
  real_simplify = sympy.simplify
  real_cg = w.clebsch_gordan

  if os.path.exists(MEMO_FILE):
    import gzip
    with gzip.open(MEMO_FILE, 'rt') as f:
      d = json.load(f)
    if d.get('sympy') == sympy.__version__:
      MEMO.srepr = d['simplify']

  def key_of(e):
    return hashlib.sha256(sympy.srepr(e).encode()).hexdigest()[:24]

  def simplify(expr, *a, **kw):
    MEMO.calls += 1
    act = core.current()
    if act is not None:
      act.xn += 1
    if a or kw:
      return real_simplify(expr, *a, **kw)
    try:
      k = expr if not isinstance(expr, sympy.MatrixBase) else expr.as_immutable()
      mat = k is not expr
      hash(k)
    except TypeError:
      return real_simplify(expr)
    try:
      v = MEMO.simplify.get((type(expr), k))
    except TypeError:
      return real_simplify(expr)
    if v is None:
      sk = None
      if MEMO.srepr is not None:
        sk = key_of(k)
        t = MEMO.srepr.get(sk)
        if t is not None:
          v = sympy.sympify(eval(t, _srepr_ns()))  # pylint: disable=eval-used
      if v is None:
        MEMO.miss += 1
        v = real_simplify(expr)
        if mat:
          v = v.as_immutable()
        MEMO.new[sk] = sympy.srepr(v)
      MEMO.simplify[(type(expr), k)] = v
    return v.as_mutable() if mat and not isinstance(expr, sympy.ImmutableDenseMatrix) else v

  ns = {}

  def _srepr_ns():
    if not ns:
      exec('from sympy import *', ns)  # pylint: disable=exec-used
    return ns

  def clebsch_gordan(*args):
    MEMO.calls += 1
    act = core.current()
    if act is not None:
      act.xn += 1
    try:
      v = MEMO.cg.get(args)
    except TypeError:
      return real_cg(*args)
    if v is None:
      v = real_cg(*args)
      MEMO.cg[args] = v
    return v

  sympy.simplify = simplify
  w.clebsch_gordan = clebsch_gordan


# -- line-level schedule points ------------------------------------------------
TOOL = 3


def instrument(code):
  """Requests line events for a code object and everything nested in it."""
  if code.co_name != '<module>':
    sys.monitoring.set_local_events(TOOL, code, sys.monitoring.events.LINE)
  for c in code.co_consts:
    if isinstance(c, types.CodeType):
      instrument(c)


def install_monitoring():
  import jax
  jaxdir = os.path.dirname(jax.__file__)
  filters = os.path.join(jaxdir, '_src', 'traceback_util.py')  # wraps Flax methods, holds nothing
  coredir = os.path.join(HERE, '')
  mon = sys.monitoring
  mon.use_tool_id(TOOL, 'simx')
  E = mon.events
  def line(code, lineno):
    s = core.SIM
    if s is None:
      return
    a = s.cur
    if a is None or a.quiet or not s.lines_on or a.ident != threading.get_ident():
      return
    f = sys._getframe(1).f_back
    kind = 'l'
    while f is not None:
      fn = f.f_code.co_filename
      if fn.startswith(jaxdir) and fn != filters:
        # Called by JAX (custom derivative rules, vectorize, ...): its caches
        # may hold real locks, so nobody else may run here; exceptions may occur.
        kind = 'j'
        break
      if fn.startswith(coredir):
        break
      f = f.f_back
    if kind == 'j' and not s.jax_lines:
      return
    s.point(a, kind, (code.co_filename[len(E3X) + 1:], lineno))

  mon.register_callback(TOOL, E.LINE, line)


# -- simulated process pool -----------------------------------------------------
class RemoteError(Exception):
  pass


def _snapshot_state(src_mods, dst_mods):
  """fork(): plain data in module globals / class attributes is inherited."""
  plain = (bool, int, float, str, bytes, type(None), tuple, list, dict, set, os.PathLike)

  def ok(v):
    return isinstance(v, plain)

  for name, m in src_mods.items():
    d = dst_mods.get(name)
    if d is None or m is None:
      continue
    for k, v in list(vars(m).items()):
      if k.startswith('__'):
        continue
      if ok(v):
        try:
          vars(d)[k] = copy.deepcopy(v)
        except Exception:  # pylint: disable=broad-except
          pass
      elif isinstance(v, type) and v.__module__ == name and k in vars(d) and isinstance(vars(d)[k], type):
        for ck, cv in list(vars(v).items()):
          if not ck.startswith('__') and ok(cv):
            try:
              if vars(vars(d)[k]).get(ck) != cv:
                setattr(vars(d)[k], ck, copy.deepcopy(cv))
            except Exception:  # pylint: disable=broad-except
              pass


POOLS = weakref.WeakSet()


class SimPool:
  """multiprocessing.Pool: pickled tasks, workers are forked module copies."""

  def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
    a = core.current()
    if a is None:
      raise core.HarnessError('Pool outside a simulated process')
    if processes is None:
      processes = os.cpu_count() or 1
    if processes < 1:
      raise ValueError('Number of processes must be at least 1')
    self.n = processes
    self.parent = a.proc
    self.workers = {}
    self.initializer = (initializer, initargs)
    self.state = 'RUN'
    self.owner = (a.name, a.opid)
    POOLS.add(self)
    a.quiet += 1
    try:
      self.forked = dict(WORLD.modules_now())
      self.state_copy = {k: {kk: vv for kk, vv in vars(m).items()} for k, m in self.forked.items() if m is not None}
    finally:
      a.quiet -= 1
    core.SIM.stat('pool.created')

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.terminate()

  def close(self):
    self.state = 'CLOSE'

  def terminate(self):
    self.state = 'TERMINATE'

  def join(self):
    if self.state == 'RUN':
      raise ValueError('Pool is still running')

  def _worker(self, i):
    if i not in self.workers:
      a = core.current()
      a.quiet += 1
      try:
        mods = WORLD.load_modules()
        main = self.forked.get('__main__')
        if main is not None and getattr(main, '__file__', None) and str(main.__file__).startswith(E3X):
          spec_name = main.__spec__.name
          m = types.ModuleType('__main__')
          m.__dict__.update(__file__=main.__file__, __spec__=main.__spec__, __package__=main.__package__, __loader__=main.__loader__)
          code = Loader(spec_name, main.__file__).get_code(spec_name)
          saved = WORLD.modules_now()
          WORLD.set_modules(mods)
          m.__dict__['__name__'] = '__mp_main__'
          try:
            exec(code, m.__dict__)  # pylint: disable=exec-used
          finally:
            WORLD.set_modules(saved)
          m.__dict__['__name__'] = '__main__'
          mods['__main__'] = m
        _snapshot_state(self.forked, mods)
      finally:
        a.quiet -= 1
      self.workers[i] = mods
      if self.initializer[0]:
        self._in(i, lambda: self.initializer[0](*self.initializer[1]))
    return self.workers[i]

  def _in(self, i, f):
    mods = self._worker(i)
    saved = WORLD.modules_now()
    WORLD.set_modules(mods)
    try:
      return f()
    finally:
      WORLD.set_modules(saved)

  def _run_chunk(self, func, chunk, star):
    """Runs one chunk of tasks in a worker chosen by the scheduler."""
    a = core.current()
    s = core.SIM
    w = s.choose(a, min(self.n, 4))
    s.stat('pool.chunks')
    payload = pickle.dumps((func, chunk))
    self._worker(w)
    saved = WORLD.modules_now()
    WORLD.set_modules(self.workers[w])
    pid, a.proc.pid = a.proc.pid, a.proc.pid * 100 + w
    try:
      k = a.cnt.get('task', 0)
      a.cnt['task'] = k + 1
      for act in s.decider.point(s, a, 'task', k, None):
        if act[0] == 'exc':
          s.stat('fault.worker_' + act[1])
          s.ev('worker-exc', a.name, k, act[1])
          a.injected = core.EXC[act[1]]('injected in worker')
          raise a.injected
      f, args = pickle.loads(payload)
      res = [f(*x) if star else f(x) for x in args]
      out = pickle.dumps((True, res))
    except (core.SimKill, core.StepLimit):
      raise
    except core.HarnessError:
      raise
    except Exception as e:  # pylint: disable=broad-except
      try:
        out = pickle.dumps((False, e))
      except Exception:  # pylint: disable=broad-except
        out = pickle.dumps((False, RuntimeError(repr(e))))
    finally:
      a.proc.pid = pid
      WORLD.set_modules(saved)
    return pickle.loads(out)

  def _execute(self, func, items, chunksize, star):
    """Executes all chunks; returns [(index, ok, results)] in completion order."""
    if self.state != 'RUN':
      raise ValueError('Pool not running')
    a = core.current()
    s = core.SIM
    items = list(items)
    if chunksize is None:
      chunksize, extra = divmod(len(items), self.n * 4)
      if extra:
        chunksize += 1
    chunksize = max(1, chunksize)
    chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
    pending = list(range(len(chunks)))
    done = []
    while pending:
      # Up to n chunks are in flight; which of them finishes next is a choice.
      j = pending.pop(s.choose(a, min(self.n, len(pending))))
      s.point(a, 'f', ('task', '', 0))
      ok, res = self._run_chunk(func, chunks[j], star)
      done.append((j, ok, res))
    s.trail.update(repr([d[0] for d in done]).encode())
    return done

  def _ordered(self, func, items, chunksize, star):
    done = self._execute(func, items, chunksize, star)
    for _, ok, res in done:
      if not ok:
        raise res
    out = []
    for _, _, res in sorted(done, key=lambda d: d[0]):
      out.extend(res)
    return out

  def map(self, func, iterable, chunksize=None):
    return self._ordered(func, iterable, chunksize, False)

  def starmap(self, func, iterable, chunksize=None):
    return self._ordered(func, iterable, chunksize, True)

  def imap(self, func, iterable, chunksize=1):
    done = self._execute(func, iterable, chunksize, False)
    for _, ok, res in sorted(done, key=lambda d: d[0]):
      if not ok:
        raise res
      yield from res

  def imap_unordered(self, func, iterable, chunksize=1):
    for _, ok, res in self._execute(func, iterable, chunksize, False):
      if not ok:
        raise res
      yield from res

  def apply(self, func, args=(), kwds=None):
    return self.apply_async(func, args, kwds).get()

  def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
    if kwds:
      import functools
      func = functools.partial(func, **kwds)
    return self._async(lambda: self._ordered(func, [tuple(args)], 1, True)[0], callback, error_callback)

  def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
    return self._async(lambda: self.map(func, iterable, chunksize), callback, error_callback)

  def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
    return self._async(lambda: self.starmap(func, iterable, chunksize), callback, error_callback)

  def _async(self, thunk, callback, error_callback):
    class R:
      def __init__(self):
        try:
          self.v = (True, thunk())
          if callback:
            callback(self.v[1])
        except Exception as e:  # pylint: disable=broad-except
          self.v = (False, e)
          if error_callback:
            error_callback(e)

      def get(self, timeout=None):
        if self.v[0]:
          return self.v[1]
        raise self.v[1]

      def wait(self, timeout=None):
        pass

      def ready(self):
        return True

      def successful(self):
        return self.v[0]

    return R()


class SimExecutor:
  """concurrent.futures.ProcessPoolExecutor."""

  def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
    self.pool = SimPool(max_workers, initializer, initargs)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.pool.terminate()

  def shutdown(self, wait=True, *, cancel_futures=False):
    self.pool.terminate()

  def map(self, fn, *iterables, timeout=None, chunksize=1):
    return iter(self.pool.starmap(fn, list(zip(*iterables)), chunksize))

  def submit(self, fn, /, *args, **kw):
    f = concurrent.futures.Future()
    try:
      f.set_result(self.pool.apply(fn, args, kw))
    except Exception as e:  # pylint: disable=broad-except
      f.set_exception(e)
    return f


class InlineExecutor:
  """concurrent.futures.ThreadPoolExecutor: tasks run when submitted."""

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass

  def shutdown(self, wait=True, *, cancel_futures=False):
    pass

  def submit(self, fn, /, *args, **kw):
    f = concurrent.futures.Future()
    try:
      f.set_result(fn(*args, **kw))
    except Exception as e:  # pylint: disable=broad-except
      f.set_exception(e)
    return f

  def map(self, fn, *iterables, timeout=None, chunksize=1):
    return iter([fn(*x) for x in zip(*iterables)])


class World:
  """Owner of the module tables of the simulated processes."""

  def __init__(self):
    self.ready = False
    self._probe = None
    self.cpu = 4

  def setup(self, x64=True):
    if self.ready:
      return
    sys.path.insert(0, REPO)
    import logging
    import jax
    import flax  # pylint: disable=unused-import
    import numpy  # pylint: disable=unused-import
    import etils.epath  # pylint: disable=unused-import
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    jax.config.update('jax_enable_x64', x64)
    jitcache.install()
    sys.meta_path.insert(0, Finder())
    install_sympy()
    simfs.install()
    install_monitoring()
    self._install_mp()
    self._install_locks()
    self._install_threads()
    self.harness_main = sys.modules['__main__']
    self.argv = sys.argv
    self.ready = True

  def _install_mp(self):
    real_pool = multiprocessing.Pool
    real_ctx = multiprocessing.get_context
    real_cpu = os.cpu_count

    def pool(*a, **kw):
      if core.current() is None:
        return real_pool(*a, **kw)
      return SimPool(*a, **kw)

    class Ctx:
      Pool = staticmethod(SimPool)
      cpu_count = staticmethod(lambda: self.cpu)

      def get_start_method(self, allow_none=False):
        return 'fork'

    def get_context(method=None):
      if core.current() is None:
        return real_ctx(method)
      return Ctx()

    def cpu_count():
      return self.cpu if core.current() is not None else real_cpu()

    multiprocessing.Pool = pool
    multiprocessing.get_context = get_context
    multiprocessing.cpu_count = cpu_count
    os.cpu_count = cpu_count
    real_cls = multiprocessing.pool.Pool

    class PoolProxy(real_cls):
      def __new__(cls, *a, **kw):
        if core.current() is not None:
          return SimPool(*a, **kw)
        return object.__new__(cls)

    multiprocessing.pool.Pool = PoolProxy
    real_exec = concurrent.futures.ProcessPoolExecutor

    def executor(*a, **kw):
      return SimExecutor(*a, **kw) if core.current() is not None else real_exec(*a, **kw)

    concurrent.futures.ProcessPoolExecutor = executor

  def _install_locks(self):
    for n, re in (('Lock', False), ('RLock', True)):
      real = getattr(threading, n)

      def make(*a, _real=real, _re=re, **kw):
        f = sys._getframe(1)
        for _ in range(3):
          if f is None:
            break
          if f.f_code.co_filename.startswith(E3X):
            return core.SimLock(_re)
          if os.path.basename(f.f_code.co_filename) != 'threading.py':
            break
          f = f.f_back
        return _real(*a, **kw)

      setattr(threading, n, make)

  def _install_threads(self):
    """Threads that e3x itself starts run under the scheduler."""
    T = threading.Thread
    real_start, real_join = T.start, T.join

    def start(self):
      a = core.current()
      if a is None or not sys._getframe(1).f_code.co_filename.startswith(E3X):
        return real_start(self)
      core.SIM.adopt(a, self, real_start)
      core.SIM.point(a, 'f', ('thread', '', 0))

    def join(self, timeout=None):
      a = core.current()
      c = self.__dict__.get('simactor')
      if a is None or c is None:
        return real_join(self, timeout)
      core.SIM.point(a, 'f', ('join', '', 0))
      while c.state != 'done' and timeout is None:
        core.SIM.block(a, c)

    T.start, T.join = start, join
    real_tpe = concurrent.futures.ThreadPoolExecutor

    def tpe(*a, **kw):
      if core.current() is not None and sys._getframe(1).f_code.co_filename.startswith(E3X):
        return InlineExecutor()
      return real_tpe(*a, **kw)

    concurrent.futures.ThreadPoolExecutor = tpe

  # -- module tables -----------------------------------------------------------
  def modules_now(self):
    d = {k: v for k, v in sys.modules.items() if is_e3x(k)}
    d['__main__'] = sys.modules['__main__']
    return d

  def set_modules(self, mods):
    for k in [k for k in sys.modules if is_e3x(k)]:
      del sys.modules[k]
    for k, v in mods.items():
      sys.modules[k] = v

  def load_modules(self):
    """A fresh import of e3x from /repo's working tree."""
    saved = self.modules_now()
    self.set_modules({})
    sys.modules['__main__'] = self.harness_main
    try:
      import e3x  # pylint: disable=unused-import,g-import-not-at-top
      return self.modules_now()
    finally:
      self.set_modules(saved)

  def probe_e3x(self):
    """A copy of e3x that only serves to build argument lists."""
    if self._probe is None:
      self._probe = self.load_modules()['e3x']
    return self._probe

  def new_proc(self, sim, name):
    sim.pids += 1
    p = core.Proc(name, sim.pids)
    p.modules = self.load_modules()
    p.e3x = p.modules['e3x']
    return p

  def on_switch(self, prev, nxt):
    if prev is not None:
      if prev.proc is nxt.proc:
        return
      prev.proc.modules = self.modules_now()
      prev.proc.argv = sys.argv
    self.set_modules(nxt.proc.modules)
    sys.argv = nxt.proc.argv


WORLD = World()


def start_sim(decider, fs, lines=False, max_steps=4_000_000):
  """Creates and activates a simulation."""
  s = core.Sim(decider, fs, max_steps)
  s.lines_on = lines
  s.shield = SHIELD
  s.hot = HOT
  s.near = DIRECTION.lines
  s.jax_lines = False
  s.on_switch = WORLD.on_switch
  core.SIM = s
  random.seed(0)
  import numpy as np
  np.random.seed(0)
  return s


def end_sim(s):
  """Deactivates the simulation."""
  core.SIM = None
  WORLD.set_modules({})
  sys.modules['__main__'] = WORLD.harness_main
  sys.argv = WORLD.argv
