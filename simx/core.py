"""Deterministic scheduler: real threads, parked and released one at a time.

Exactly one actor (a thread of a simulated process) runs at any moment; the
choice of who runs next, and every fault, is taken by a Decider.  In 'random'
mode a seeded PRNG takes the decisions and every decision that departs from the
default (keep running, no fault) is recorded under the key

    (actor, operation id, point kind, per-operation counter)

In 'replay' mode the recorded decisions are looked up, so a run is a pure
function of (plan, decisions, code).
"""
import hashlib
import random
import sys
import threading
import weakref

STALL_LIMIT = 20_000

SIM = None  # The active simulation (at most one per OS process).


class SimKill(BaseException):
  """The simulated process was killed; nothing it does has any effect."""


class StepLimit(BaseException):
  """The run exceeded its step budget (a call that never returns)."""


class HarnessError(Exception):
  """A fault of the machinery itself; never reported as a violation."""


class Proc:
  """A simulated process: its own copy of the e3x modules, pid and fds."""

  def __init__(self, name, pid):
    self.name = name
    self.pid = pid
    self.alive = True
    self.modules = {}
    self.argv = ['sim']
    self.main = None
    self.e3x = None
    self.xcount = {}
    self.stalled = False  # stopped (SIGSTOP, a hung machine): does not run, keeps what it holds
    self.exited = False


class Actor:
  """A thread of a simulated process."""

  def __init__(self, name, proc, body, faults=True):
    self.name = name
    self.proc = proc
    self.body = body  # callable(actor)
    self.faults = faults
    self.sem = threading.Semaphore(0)
    self.state = 'ready'
    self.waiting = None
    self.thread = None
    self.ident = None
    self.opid = '-'
    self.opn = 0
    self.washot = False
    self.cnt = {}
    self.quiet = 0  # >0: no schedule points (harness code)
    self.visits = {}
    self.error = None
    self.last = None
    self.injected = None
    self.xn = 0  # symbolic computations started
    self.daemon = False  # a background thread that dies with its process
    self.dead = False
    self.nbg = 0
    self.met_error = False

  def begin_op(self, opid):
    self.opid = opid
    self.opn += 1
    self.cnt = {}
    self.visits = {}


class Decider:
  """Takes (random mode) or looks up (replay mode) all decisions."""

  def __init__(self, seed=None, policy=None, decisions=None):
    self.random = decisions is None
    self.rng = random.Random(seed)
    self.policy = policy or {}
    self.made = []
    self.table = {}
    self.enabled = True
    self.nfaults = 0
    self.near = random.Random('near/%s' % seed).choice([0, 5, 30])
    self.hold = None  # (actor, number of operations it may start before it can be preempted again)
    if decisions is not None:
      for d in decisions:
        self.table.setdefault(tuple(d[:4]), []).append(list(d[4:]))

  def record(self, key, act):
    self.made.append([*key, *act])

  def point(self, sim, actor, kind, k, info):
    """Returns the actions at a schedule point."""
    key = (actor.name, actor.opid, kind, k)
    if not self.random:
      acts = self.table.get(key, ())
      for a in acts:
        self.record(key, a)
      return acts
    if not self.enabled:
      return ()
    acts = self.policy_point(sim, actor, kind, k, info)
    for a in acts:
      self.record(key, a)
    return acts

  def switch(self, sim, actor):
    """Preempts the actor; sometimes the other one then runs on for a while."""
    others = sim.others(actor)
    if not others:
      return []
    o = self.rng.choice(others)
    if self.rng.random() < self.policy.get('hold', 0.0):
      self.hold = (o, o.opn + self.rng.choice([0, 1, 1, 2]))
    return [['sw', o.name]]

  def policy_point(self, sim, actor, kind, k, info):
    """Default random policy."""
    p = self.policy
    r = self.rng
    acts = []
    others = None
    held = self.hold is not None and self.hold[0] is actor
    if held and actor.opn > self.hold[1]:
      self.hold, held = None, False
    near = 1.0  # probabilities are higher around changed statements
    if sim.near and kind in 'jl' and self.near and info[1] in sim.near.get(info[0], ()):
      near = self.near
    if kind == 'j':
      n = actor.visits.get(info, 0) + 1
      actor.visits[info] = n
      q = min(0.5, near * p.get('exc_l', 0.0) / n) if info[1] not in sim.shield.get(info[0], ()) else 0
      if q and actor.faults and self.nfaults < p.get('max_faults', 0) and r.random() < q:
        self.nfaults += 1
        acts.append(['exc', r.choice(p.get('excs', ['KeyboardInterrupt']))])
      return acts
    if kind == 'l':
      n = actor.visits.get(info, 0) + 1
      actor.visits[info] = n
      psw = p.get('sw_l', 0.0)
      if psw and not held:
        psw = psw / n + p.get('sw_l0', 0.0)
        boost = p.get('hot', 0)
        if boost:  # before and after lines that touch shared state
          was, actor.washot = actor.washot, info[1] in sim.hot.get(info[0], ())
          if was or actor.washot:
            psw = min(max(psw, 0.5 / n), psw * boost)
        if near > 1:
          psw = min(max(psw, 0.5), psw * near)
        if r.random() < psw:
          acts += self.switch(sim, actor)
      if actor.faults and self.nfaults < p.get('max_faults', 0):
        q = min(0.5, near * p.get('kill_l', 0.0) / n)
        if q and r.random() < q:
          self.nfaults += 1
          acts.append(['kill'])
          return acts
        q = min(0.5, near * p.get('exc_l', 0.0) / n) if info[1] not in sim.shield.get(info[0], ()) else 0
        if q and r.random() < q:
          self.nfaults += 1
          acts.append(['exc', r.choice(p.get('excs', ['KeyboardInterrupt']))])
          return acts
        q = min(0.5, near * p.get('stall_l', 0.0) / n)
        if q and r.random() < q:
          self.nfaults += 1
          acts.append(['stall'])
          return acts
        q = p.get('ext', 0.0) * 0.3 / n
        if q and r.random() < q:
          e = sim.pick_ext(r, actor, kind, info)
          if e:
            self.nfaults += 1
            acts.append(['ext', *e])
      return acts
    if kind == 'f':
      if p.get('sw_f', 0.0) and not held and r.random() < p['sw_f']:
        acts += self.switch(sim, actor)
      if actor.faults and self.nfaults < p.get('max_faults', 0):
        name = info[0]
        boost = 4.0 if name in ('write', 'close', 'rename', 'openw', 'fsync', 'unlink', 'lock') else 1.0
        if p.get('stall_f') and r.random() < p['stall_f'] * boost:
          self.nfaults += 1
          acts.append(['stall'])
          return acts
        if p.get('kill_f') and r.random() < p['kill_f'] * boost:
          self.nfaults += 1
          how = r.choice(['kill', 'killafter', 'kill', 'torn'] if name == 'write' else ['kill', 'killafter'])
          acts.append([how] if how != 'torn' else ['torn', r.randrange(0, max(1, info[2] or 1))])
          return acts
        if p.get('exc_f') and r.random() < p['exc_f'] * boost:
          self.nfaults += 1
          acts.append(['exc', r.choice(p.get('excs', ['KeyboardInterrupt']))])
          return acts
        if p.get('err') and r.random() < p['err'] * boost:
          errs = p.get('errs', {}).get(name) or ()
          if errs and sim.fs.faultable(info[1], p.get('err_where', 'any')):
            self.nfaults += 1
            acts.append(['err', r.choice(errs)])
            return acts
        if p.get('sticky') and r.random() < p['sticky'] * boost:
          self.nfaults += 1
          acts.append(['sticky', r.choice(p['stickies'])])
        if p.get('ext') and r.random() < p['ext']:
          e = sim.pick_ext(r, actor, kind, info)
          if e:
            self.nfaults += 1
            acts.append(['ext', *e])
      if p.get('short') and name_in(info[0], ('read', 'write')) and (info[2] or 0) > 1 and r.random() < p['short']:
        acts.append(['short', r.randrange(1, info[2])])
      return acts
    if kind == 'choice':  # info = number of alternatives
      v = r.randrange(info)
      return [['pick', v]] if v else []
    if kind == 'task':  # worker task
      if actor.faults and self.nfaults < p.get('max_faults', 0):
        if p.get('task_exc') and r.random() < p['task_exc']:
          self.nfaults += 1
          return [['exc', r.choice(p.get('task_excs', ['MemoryError']))]]
      return []
    return acts


def name_in(n, names):
  return n in names


EXC = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'RuntimeError': RuntimeError,
    'RecursionError': RecursionError,
    'SystemExit': SystemExit,
    'OSError': OSError,
}


class Sim:
  """One simulated execution."""

  def __init__(self, decider, fs=None, max_steps=4_000_000):
    self.decider = decider
    self.fs = fs
    self.cur = None
    self.actors = {}
    self.main_sem = threading.Semaphore(0)
    self.log = []
    self.steps = 0
    self.max_steps = max_steps
    self.seq = 0
    self.clock = 1_700_000_000.0
    self.deadlock = False
    self.limit_hit = False
    self.stats = {}
    self.trail = hashlib.sha256()
    self.switches = 0
    self.pids = 1000
    self.ext_picker = None
    self.ext_apply = None
    self.entropy = random.Random(12345)
    self.abort = False
    self.on_switch = None
    self.harness_error = None
    self.choice_k = {}
    self.jax_lines = False
    self.stuck = []  # what went wrong while processes were stalled
    self.fsteps = 0  # file operations, waits and the like
    self.stall_at = None
    self.op_limit = None  # most of them one operation may take

  # -- bookkeeping ---------------------------------------------------------
  def stat(self, k, n=1):
    self.stats[k] = self.stats.get(k, 0) + n

  def ev(self, *a):
    self.log.append(a)

  def digest(self):
    h = hashlib.sha256()
    for e in self.log:
      h.update(repr(e).encode())
    return h.hexdigest()

  def tick(self):
    self.seq += 1
    return self.seq

  def others(self, actor):
    return [a for a in self.actors.values() if a is not actor and a.state == 'ready' and not a.proc.stalled]

  def pick_ext(self, r, actor, kind, info):
    return self.ext_picker(r, actor, kind, info) if self.ext_picker else None

  # -- the baton ------------------------------------------------------------
  def run_phase(self, actors):
    """Runs the actors to completion under the scheduler."""
    self.actors = {a.name: a for a in actors}
    for a in actors:
      a.thread = threading.Thread(target=self._main, args=(a,), daemon=True)
      a.thread.start()
    first = actors[0]
    if len(actors) > 1:
      v = self.choice_raw('start', len(actors))
      first = actors[v]
    self._activate(first)
    first.sem.release()
    self.main_sem.acquire()
    for a in list(self.actors.values()):
      a.thread.join()
    self.cur = None
    self.actors = {}
    if self.harness_error:
      raise HarnessError(self.harness_error)

  def choice_raw(self, name, n):
    class _A:  # pseudo actor
      pass

    a = _A()
    a.name, a.opid, a.faults = 'sched', name, False
    k = self.choice_k.get(name, 0)
    self.choice_k[name] = k + 1
    acts = self.decider.point(self, a, 'choice', k, n)
    for x in acts:
      if x[0] == 'pick':
        return x[1] % n
    return 0

  def choose(self, actor, n):
    """A recorded n-way choice made on behalf of an actor."""
    if n <= 1:
      return 0
    k = actor.cnt.get('choice', 0)
    actor.cnt['choice'] = k + 1
    for x in self.decider.point(self, actor, 'choice', k, n):
      if x[0] == 'pick':
        return x[1] % n
    return 0

  def _activate(self, a):
    prev = self.cur
    self.cur = a
    if self.on_switch:
      self.on_switch(prev, a)

  def _main(self, a):
    a.ident = threading.get_ident()
    a.sem.acquire()
    try:
      if not self.abort and not a.dead:
        a.body(a)
    except SimKill:
      pass
    except StepLimit:
      pass
    except BaseException as e:  # pylint: disable=broad-except
      import traceback
      self.harness_error = 'actor %s: %s' % (a.name, ''.join(traceback.format_exception(e)))
    a.quiet += 1
    a.state = 'done'
    for x in self.actors.values():
      if x.state == 'blocked' and x.waiting is a:
        x.state = 'ready'
    mine = [x for x in self.actors.values() if x.proc is a.proc and x.state != 'done']
    if not [x for x in mine if not x.daemon]:
      a.proc.exited = True
      self.wake_ints()
    if mine and all(x.daemon for x in mine):  # the process exits
      for x in mine:
        x.dead = True
        if x.state == 'blocked':
          x.state = 'ready'
    self._next(a)

  def adopt(self, parent, thread, real_start):
    """A thread started by the code under test becomes an actor."""
    parent.nbg += 1
    run = thread.run

    def body(actor):
      try:
        run()
      except Exception as e:  # pylint: disable=broad-except
        self.ev('thread-exc', actor.name, type(e).__name__)

    c = Actor('%s.b%d' % (parent.name, parent.nbg), parent.proc, body, faults=parent.faults)
    c.opid = parent.opid
    c.daemon = thread.daemon
    c.thread = thread
    thread.simactor = c
    thread.run = lambda: self._main(c)
    self.actors[c.name] = c
    self.stat('threads.started')
    real_start(thread)
    return c

  def _next(self, a):
    """Called by an actor that ends or blocks: hand the baton on."""
    ready = [x for x in self.actors.values() if x.state == 'ready' and not x.proc.stalled]
    if not ready and any(x.proc.stalled for x in self.actors.values()):
      # Everybody who was not stalled has finished, or waits for a stalled process.
      waits = [x.name for x in self.actors.values() if x.state == 'blocked' and not x.proc.stalled]
      if waits:
        self.stuck.append('waits forever for a stalled process')
        self.ev('stuck', waits)
      self.resume_all()
      ready = [x for x in self.actors.values() if x.state == 'ready']
    if ready:
      n = ready[0] if len(ready) == 1 else ready[self.choice_raw('next:' + a.name, len(ready))]
      self._activate(n)
      n.sem.release()
      return True
    blocked = [x for x in self.actors.values() if x.state == 'blocked']
    if blocked:
      self.deadlock = True
      self.abort = True
      self.ev('deadlock', [b.name for b in blocked])
      n = blocked[0]
      n.state = 'ready'
      self._activate(n)
      n.sem.release()
      return True
    self.cur = None
    self.main_sem.release()
    return False

  def switch_to(self, a, target):
    if target is a or target.state != 'ready' or target.proc.stalled:
      return
    self.switches += 1
    self.stat('switches')
    self.trail.update(('%s>%s@%s' % (a.name, target.name, a.last)).encode())
    self._activate(target)
    target.sem.release()
    a.sem.acquire()
    self.after_resume(a)

  def after_resume(self, a):
    if self.abort or not a.proc.alive or a.dead:
      raise SimKill()

  def block(self, a, what):
    """Blocks actor a until unblock(); deadlock is detected."""
    a.state = 'blocked'
    a.waiting = what
    self._next(a)
    a.sem.acquire()
    a.waiting = None
    self.after_resume(a)

  def stall(self, a):
    """The process of the running actor stops; the others go on."""
    if not [x for x in self.actors.values() if x.proc is not a.proc and x.state != 'done']:
      return
    a.proc.stalled = True
    self.stall_at = self.fsteps
    self.stat('fault.stall')
    self.ev('stall', a.proc.name, a.opid, str(a.last))
    self.trail.update(('stall %s@%s' % (a.name, a.last)).encode())
    self._next(a)
    a.sem.acquire()
    self.after_resume(a)

  def resume_all(self):
    for x in self.actors.values():
      if x.proc.stalled:
        x.proc.stalled = False
        self.ev('resume', x.proc.name)
    self.stall_at = None

  def progress(self, a, k):
    """Bounds the file operations and waits of one operation and during a stall."""
    self.fsteps += 1
    if self.stall_at is not None and self.fsteps - self.stall_at > STALL_LIMIT:
      self.stuck.append('makes no progress while another process is stalled')
      self.ev('stuck', a.name)
      self.resume_all()
    if self.op_limit and k > self.op_limit:
      self.stuck.append('an operation does not come to an end')
      self.ev('endless', a.name)
      self.op_limit = None
      self.abort = True
      raise StepLimit()

  def wake_ints(self):
    for x in self.actors.values():
      if x.state == 'blocked' and isinstance(x.waiting, int):
        x.state = 'ready'

  def kill_proc(self, proc):
    proc.alive = False
    self.wake_ints()
    self.ev('killed', proc.name)
    for x in self.actors.values():
      if x.proc is proc and x.state == 'blocked':
        x.state = 'ready'

  # -- schedule points --------------------------------------------------------
  def point(self, a, kind, info):
    """A schedule point of the running actor. Returns fs-level actions."""
    if not a.proc.alive or self.abort or a.dead:
      raise SimKill()
    self.steps += 1
    if self.steps > self.max_steps:
      self.limit_hit = True
      self.abort = True
      raise StepLimit()
    k = a.cnt.get(kind, 0)
    a.cnt[kind] = k + 1
    a.last = info
    if kind == 'f':
      self.progress(a, k)
    acts = self.decider.point(self, a, kind, k, info)
    if not acts:
      return ()
    rest = []
    for act in acts:
      t = act[0]
      if t == 'sw':
        target = self.actors.get(act[1])
        if target is not None:
          self.ev('sw', a.name, a.opid, kind, k, target.name)
          self.switch_to(a, target)
      elif t == 'stall':
        self.stall(a)
      elif t == 'kill':
        self.stat('fault.kill')
        self.ev('kill', a.name, a.opid, kind, k, str(info))
        self.kill_proc(a.proc)
        raise SimKill()
      elif t == 'exc':
        f = sys._getframe(1)
        while f is not None and f.f_code.co_name not in ('__del__', '_finalize'):
          f = f.f_back
        if f is not None:  # an exception in a destructor reaches nobody
          continue
        self.stat('fault.' + act[1])
        self.ev('exc', a.name, a.opid, kind, k, act[1], str(info))
        a.injected = EXC[act[1]]('injected')
        raise a.injected
      elif t == 'ext':
        self.ev('ext', a.name, a.opid, kind, k, act[1:])
        self.ext_apply(act[1:])
      else:
        rest.append(act)
    return rest


def current():
  """The running actor, if the calling thread is one."""
  s = SIM
  if s is None:
    return None
  a = s.cur
  if a is None or a.ident != threading.get_ident() or a.quiet:
    return None
  return a


LOCKS = weakref.WeakSet()


class SimLock:
  """threading.Lock / RLock for code under test."""

  def __init__(self, reentrant=False):
    self.re = reentrant
    self.owner = None
    self.n = 0
    self._real = threading._allocate_lock()
    self.sim = SIM
    LOCKS.add(self)

  def acquire(self, blocking=True, timeout=-1):
    a = current()
    me = a.name if a else 'main'
    if self.re and self.owner == me:
      self.n += 1
      return True
    if a is None:
      if self.owner is not None:
        raise HarnessError('lock held outside simulation')
      self.owner = me
      self.n = 1
      return True
    SIM.point(a, 'f', ('lock', '', 0))
    while self.owner is not None:
      if not blocking or (timeout is not None and timeout >= 0):
        return False
      SIM.block(a, self)
    self.owner = me
    self.n = 1
    return True

  def release(self):
    if self.owner is None:
      raise RuntimeError('release unlocked lock')
    self.n -= 1
    if self.n == 0:
      self.owner = None
      s = SIM
      if s:
        for x in s.actors.values():
          if x.state == 'blocked' and x.waiting is self:
            x.state = 'ready'

  def locked(self):
    return self.owner is not None

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *a):
    self.release()

  # Condition protocol
  def _is_owned(self):
    a = current()
    return self.owner == (a.name if a else 'main')
