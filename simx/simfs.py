"""Simulated file system behind the builtin/os/io seam.

Everything an actor does to files goes through here.  Paths below /simdisk and
the data files shipped with the package live in memory; other real files can be
read (source code etc.) but never modified: a write to a real path lands in the
in-memory overlay and is recorded.
"""
import builtins
import errno
import io
import _io
import os
import posixpath
import random
import stat as statmod
import sys
import tempfile
import time
import zlib

from . import core

VROOT = '/simdisk'
FD0 = 1 << 20

ERR = {n: getattr(errno, n) for n in ('EIO', 'ENOSPC', 'EACCES', 'EROFS', 'ESTALE', 'EMFILE', 'ENFILE',
                                      'EDQUOT', 'ENOENT', 'EBUSY', 'EXDEV', 'EPERM', 'EFBIG', 'ENOMEM', 'ETIMEDOUT')}

# Which errors a file operation may meet.
ERRS = {
    'stat': ['EACCES', 'ESTALE', 'EIO'],
    'openr': ['EACCES', 'EIO', 'ESTALE', 'EMFILE', 'ENFILE', 'ENOMEM'],
    'openw': ['EACCES', 'EROFS', 'ENOSPC', 'EDQUOT', 'EMFILE', 'EIO', 'EPERM'],
    'read': ['EIO', 'ESTALE', 'ETIMEDOUT'],
    'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG', 'EIO'],
    'close': ['EIO', 'ENOSPC', 'EDQUOT'],
    'rename': ['EACCES', 'EIO', 'ENOSPC', 'EROFS', 'EBUSY', 'EPERM'],
    'unlink': ['EACCES', 'EIO', 'EBUSY', 'EROFS'],
    'fsync': ['EIO', 'ENOSPC', 'EDQUOT'],
    'mkdir': ['EACCES', 'EROFS', 'ENOSPC'],
    'truncate': ['EIO', 'ENOSPC'],
    'listdir': ['EACCES', 'EIO'],
    'chmod': ['EPERM', 'EIO'],
}


class Inode:
  __slots__ = ('data', 'dur', 'pend', 'ino', 'mode', 'mtime', 'nlink')

  def __init__(self, ino, data=b'', durable=False):
    self.data = bytearray(data)
    self.dur = bytes(data) if durable else b''
    self.pend = []
    self.ino = ino
    self.mode = statmod.S_IFREG | 0o644
    self.nlink = 1
    self.touch()

  def touch(self):
    s = core.SIM
    self.mtime = s.clock if s is not None else 1_690_000_000.0

  def stat(self):
    t, ns = int(self.mtime), int(self.mtime * 1e9)
    f = {}
    for k in ('st_atime', 'st_mtime', 'st_ctime'):
      f[k], f[k + '_ns'] = self.mtime, ns
    return os.stat_result((self.mode, self.ino, 77, self.nlink, 0, 0, len(self.data), t, t, t), f)


class OpenFile:
  __slots__ = ('inode', 'pos', 'path', 'proc', 'readable', 'writable', 'append', 'dir', 'owner')

  def __init__(self, inode, path, proc, readable, writable, append, isdir=False):
    self.inode = inode
    self.pos = 0
    self.path = path
    self.proc = proc
    self.readable = readable
    self.writable = writable
    self.append = append
    self.dir = isdir
    a = core.current()
    self.owner = (a.name, a.opid) if a is not None else None


class SimFS:
  """State of the simulated disk."""

  def __init__(self, pkgdir):
    self.pkgdir = pkgdir
    self.files = {}
    self.dirs = {VROOT}
    self.ns_dur = {}
    self.dirs_dur = {VROOT}
    self.nsj = []
    self.fds = {}
    self.nfd = FD0
    self.nino = 1
    self.capacity = None
    self.readonly = False
    self.deny = set()  # unreadable/unwritable path prefixes
    self.bufsize = 8192
    self.mutations = []  # (seq, actor, op, path)
    self.watch = {}  # path -> list of contents seen (bytes or None), deduplicated
    self.gone = set()  # whiteouts of real files

  # -- harness side ---------------------------------------------------------
  def put(self, path, data, durable=True):
    self.nino += 1
    ino = Inode(self.nino, data, durable)
    self.files[path] = ino
    if durable:
      self.ns_dur[path] = ino
    self.gone.discard(path)
    self._note(path)
    return ino

  def get(self, path):
    i = self.files.get(path)
    return bytes(i.data) if i is not None else None

  def delete(self, path):
    self.files.pop(path, None)
    self.ns_dur.pop(path, None)
    self._note(path)

  def mkdirs(self, path):
    while path and path != '/' and path not in self.dirs:
      self.dirs.add(path)
      self.dirs_dur.add(path)
      path = posixpath.dirname(path)

  def sync_all(self):
    for i in self.files.values():
      i.dur = bytes(i.data)
      i.pend = []
    self.ns_dur = dict(self.files)
    self.dirs_dur = set(self.dirs)
    self.nsj = []

  def is_pkg(self, p):
    return p.startswith(self.pkgdir) and p.endswith('.npz')

  def faultable(self, path, where):
    if not path:
      return False
    if where == 'any':
      return True
    if where == 'cache':
      return path.startswith(VROOT)
    return self.is_pkg(path)

  def watch_path(self, p):
    if p not in self.watch:
      self.watch[p] = [(self.get(p), 'ext')]

  def _note(self, p, who='ext'):
    w = self.watch.get(p)
    if w is not None:
      c = self.get(p)
      if w[-1][0] != c or (who == 'ext') != (w[-1][1] == 'ext'):
        w.append((c, who))

  def used(self):
    seen = {}
    for i in self.files.values():
      seen[i.ino] = len(i.data)
    return sum(seen.values())

  def litter(self, allowed):
    """Files that exist now and are neither allowed nor package data."""
    return sorted(p for p in self.files if p not in allowed)

  def power_loss(self, rng, block=512):
    """Applies a power failure: unsynced data/metadata are partly lost."""
    # Metadata: a prefix of the journal survives.
    ns = dict(self.ns_dur)
    dirs = set(self.dirs_dur)
    k = rng.randrange(len(self.nsj) + 1)
    if rng.random() < 0.4:
      k = len(self.nsj)
    for op in self.nsj[:k]:
      if op[0] == 'create':
        ns[op[1]] = op[2]
      elif op[0] == 'rename':
        if op[1] in ns:
          ns[op[2]] = ns.pop(op[1])
      elif op[0] == 'unlink':
        ns.pop(op[1], None)
      elif op[0] == 'mkdir':
        dirs.add(op[1])
    done = set()
    lost = 0
    for i in ns.values():
      if i.ino in done:
        continue
      done.add(i.ino)
      data = bytearray(i.dur)
      mode = rng.choice(['none', 'prefix', 'subset', 'all', 'sizeonly'])
      for n, (t, off, b) in enumerate(i.pend):
        if mode == 'none':
          lost += 1
          continue
        if mode == 'prefix' and n >= len(i.pend) // 2:
          lost += 1
          continue
        if t == 't':
          if off < len(data):
            del data[off:]
          else:
            data.extend(b'\0' * (off - len(data)))
          continue
        if len(data) < off + len(b):
          data.extend(b'\0' * (off + len(b) - len(data)))
        if mode == 'sizeonly':
          lost += 1
          continue
        for o in range(0, len(b), block):
          if mode == 'subset' and rng.random() < 0.5:
            lost += 1
            continue
          data[off + o:off + o + len(b[o:o + block])] = b[o:o + block]
      i.data = data
      i.dur = bytes(data)
      i.pend = []
    self.files = ns
    self.ns_dur = dict(ns)
    self.dirs = dirs
    self.dirs_dur = set(dirs)
    self.nsj = []
    for p in self.watch:
      self._note(p)
    return (k, lost)

  # -- seam side --------------------------------------------------------------
  def norm(self, path):
    p = os.fspath(path)
    if isinstance(p, bytes):
      p = p.decode()
    return posixpath.normpath(posixpath.join(_real['getcwd'](), p))

  def virtual(self, p):
    return p.startswith(VROOT) or self.is_pkg(p) or p in self.files or p in self.gone or (p in self.dirs)

  def exists_dir(self, d):
    return d in self.dirs or (not d.startswith(VROOT) and _real['stat_isdir'](d))

  def op(self, a, name, path, n=0):
    """Schedule point + fault decision for one file operation."""
    s = core.SIM
    if not a.proc.alive:
      raise core.SimKill()
    acts = s.point(a, 'f', (name, path, n))
    s.ev('fs', a.name, name, path, n)
    s.stat('fsop.' + name)
    s.clock += 0.001
    after = None
    limit = None
    for act in acts:
      t = act[0]
      if t == 'err':
        s.stat('fault.%s.%s' % (name, act[1]))
        s.ev('err', a.name, name, path, act[1])
        a.met_error = True
        raise OSError(ERR[act[1]], os.strerror(ERR[act[1]]), path)
      if t == 'short':
        limit = act[1]
        s.stat('fault.short_' + name)
      elif t == 'killafter':
        after = 'kill'
      elif t == 'torn':
        after, limit = 'kill', act[1]
        s.stat('fault.torn_write')
      elif t == 'sticky':
        s.stat('fault.' + act[1])
        if act[1] == 'rofs':
          self.readonly = True
        elif act[1] == 'full':
          self.capacity = self.used()
        elif act[1] == 'nearfull':
          self.capacity = self.used() + 700
        elif act[1] == 'deny':
          self.deny.add(VROOT)
        elif act[1] == 'heal':
          self.readonly, self.capacity, self.deny = False, None, set()
    if self.deny and name in ('openr', 'openw', 'rename', 'unlink', 'mkdir', 'listdir') and any(path.startswith(d) for d in self.deny):
      a.met_error = True
      raise PermissionError(errno.EACCES, 'Permission denied', path)
    if self.readonly and name in ('openw', 'rename', 'unlink', 'mkdir', 'truncate', 'chmod') and not self.is_pkg(path):
      a.met_error = True
      raise OSError(errno.EROFS, os.strerror(errno.EROFS), path)
    return limit, after

  def finish(self, a, after):
    if after == 'kill':
      s = core.SIM
      s.stat('fault.kill')
      s.kill_proc(a.proc)
      raise core.SimKill()

  def mutated(self, a, name, path):
    s = core.SIM
    self.mutations.append((s.tick(), a.name, a.opid, name, path))
    self._note(path, a.opid)

  # open -----------------------------------------------------------------------
  def open_of(self, a, path, readable, writable, create, trunc, excl, append):
    w = writable or create
    _, after = self.op(a, 'openw' if w else 'openr', path)
    if path in self.dirs or (not path.startswith(VROOT) and path not in self.files and _real['stat_isdir'](path)):
      if w:
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
      of = OpenFile(None, path, a.proc, True, False, False, True)
      self.finish(a, after)
      return of
    ino = self.files.get(path)
    if ino is None and w and not self.virtual(path) and _real['exists'](path):
      # Copy-up of a real file that is opened for writing.
      with _real['open'](path, 'rb') as f:
        ino = self.put(path, f.read())
    if ino is None:
      if not create:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
      parent = posixpath.dirname(path)
      if not self.exists_dir(parent):
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
      self.nino += 1
      ino = Inode(self.nino)
      self.files[path] = ino
      self.gone.discard(path)
      self.nsj.append(('create', path, ino))
      self.mutated(a, 'create', path)
    elif excl:
      raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
    elif trunc and len(ino.data):
      ino.data = bytearray()
      ino.pend.append(('t', 0, b''))
      ino.touch()
      self.mutated(a, 'trunc', path)
    of = OpenFile(ino, path, a.proc, readable, writable, append)
    self.finish(a, after)
    return of

  def new_fd(self, of):
    self.nfd += 1
    self.fds[self.nfd] = of
    return self.nfd

  def read(self, a, of, n):
    avail = max(0, len(of.inode.data) - of.pos)
    n = avail if n is None or n < 0 else min(n, avail)
    limit, after = self.op(a, 'read', of.path, n)
    if limit is not None:
      n = min(n, limit)
    b = bytes(of.inode.data[of.pos:of.pos + n])
    of.pos += len(b)
    self.finish(a, after)
    return b

  def write(self, a, of, b):
    limit, after = self.op(a, 'write', of.path, len(b))
    if limit is not None and limit < len(b):
      b = b[:limit] if (limit or after) else b[:1]
    i = of.inode
    if of.append:
      of.pos = len(i.data)
    if self.capacity is not None:
      grow = max(0, of.pos + len(b) - len(i.data))
      room = max(0, self.capacity - self.used())
      if grow > room:
        b = b[:max(0, len(b) - (grow - room))]
        core.SIM.stat('fault.enospc_capacity')
        a.met_error = True
        if not b:
          raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
    if of.pos > len(i.data):
      i.data.extend(b'\0' * (of.pos - len(i.data)))
    i.data[of.pos:of.pos + len(b)] = b
    i.pend.append(('w', of.pos, bytes(b)))
    i.touch()
    of.pos += len(b)
    if self.files.get(of.path) is i:
      self.mutated(a, 'write', of.path)
    else:
      for p, j in self.files.items():
        if j is i:
          self.mutated(a, 'write', p)
          break
    self.finish(a, after)
    return len(b)

  def truncate(self, a, of, size):
    _, after = self.op(a, 'truncate', of.path, size)
    i = of.inode
    if size < len(i.data):
      del i.data[size:]
    else:
      i.data.extend(b'\0' * (size - len(i.data)))
    i.pend.append(('t', size, b''))
    i.touch()
    self.mutated(a, 'truncate', of.path)
    self.finish(a, after)

  def close_of(self, a, of):
    _, after = self.op(a, 'close', of.path)
    if 'locktable' in self.__dict__:
      for k in [k for k, v in self.locktable.items() if v[0] is of]:
        del self.locktable[k]
      core.SIM.wake_ints()
    self.finish(a, after)

  def fsync(self, a, of):
    _, after = self.op(a, 'fsync', of.path)
    if of.inode is not None:
      of.inode.dur = bytes(of.inode.data)
      of.inode.pend = []
    self.ns_dur = dict(self.files)
    self.dirs_dur = set(self.dirs)
    self.nsj = []
    self.finish(a, after)

  # namespace ------------------------------------------------------------------
  def stat(self, a, path):
    _, after = self.op(a, 'stat', path)
    if self.deny and any(path.startswith(d + '/') for d in self.deny):
      pass  # stat of a file in an unreadable file needs only search permission
    r = self.stat_path(path)
    self.finish(a, after)
    return r

  def stat_path(self, path):
    i = self.files.get(path)
    if i is not None:
      return i.stat()
    if path in self.dirs:
      return os.stat_result((statmod.S_IFDIR | 0o755, 1, 77, 2, 0, 0, 4096, 0, 0, 0))
    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)

  def rename(self, a, src, dst):
    _, after = self.op(a, 'rename', dst)
    if self.readonly:
      raise OSError(errno.EROFS, os.strerror(errno.EROFS), dst)
    i = self.files.get(src)
    if i is None:
      if src in self.dirs:
        raise HarnessUnsupported('rename of a directory')
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), src)
    if dst in self.dirs:
      raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), dst)
    if not self.exists_dir(posixpath.dirname(dst)):
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), dst)
    del self.files[src]
    self.files[dst] = i
    self.gone.discard(dst)
    self.nsj.append(('rename', src, dst))
    self.mutated(a, 'renamed-away', src)
    self.mutated(a, 'rename', dst)
    self.finish(a, after)

  def unlink(self, a, path):
    _, after = self.op(a, 'unlink', path)
    if path in self.dirs:
      raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
    if path not in self.files:
      if not self.virtual(path) and _real['exists'](path):
        self.gone.add(path)
        self.mutated(a, 'unlink', path)
        self.finish(a, after)
        return
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    del self.files[path]
    self.nsj.append(('unlink', path))
    self.mutated(a, 'unlink', path)
    self.finish(a, after)

  def mkdir(self, a, path):
    _, after = self.op(a, 'mkdir', path)
    if path in self.dirs or path in self.files:
      raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
    if not self.exists_dir(posixpath.dirname(path)):
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    self.dirs.add(path)
    self.nsj.append(('mkdir', path))
    self.mutated(a, 'mkdir', path)
    self.finish(a, after)

  def listdir(self, a, path):
    _, after = self.op(a, 'listdir', path)
    if path not in self.dirs:
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    pre = path.rstrip('/') + '/'
    out = sorted({p[len(pre):].split('/')[0] for p in list(self.files) + list(self.dirs) if p.startswith(pre)})
    self.finish(a, after)
    return out


class HarnessUnsupported(core.HarnessError):
  pass


class SimRaw(io.RawIOBase):
  """Raw file object on the simulated disk."""

  def __init__(self, fs, of, fd, name, mode):
    self._fs = fs
    self._of = of
    self._fd = fd
    self.name = name
    self.mode = mode
    self._done = False

  def _actor(self):
    return core.current()

  def readable(self):
    return self._of.readable

  def writable(self):
    return self._of.writable

  def seekable(self):
    return True

  def fileno(self):
    return self._fd

  def isatty(self):
    return False

  def readinto(self, b):
    if self.closed:
      raise ValueError('I/O operation on closed file')
    if not self._of.readable:
      raise io.UnsupportedOperation('read')
    a = self._actor()
    if a is None:
      if self._of.proc.alive and core.SIM is not None and core.SIM.cur is not None and core.SIM.cur.quiet == 0:
        raise core.HarnessError('read outside an actor')
      return 0
    d = self._fs.read(a, self._of, len(b))
    b[:len(d)] = d
    return len(d)

  def write(self, b):
    if self.closed:
      raise ValueError('I/O operation on closed file')
    if not self._of.writable:
      raise io.UnsupportedOperation('write')
    a = self._actor()
    b = bytes(b)
    if a is None or not self._of.proc.alive:
      return len(b)
    return self._fs.write(a, self._of, b)

  def seek(self, off, whence=0):
    if self.closed:
      raise ValueError('I/O operation on closed file')
    of = self._of
    of.pos = off if whence == 0 else (of.pos + off if whence == 1 else len(of.inode.data) + off)
    if of.pos < 0:
      of.pos = 0
      raise OSError(errno.EINVAL, 'Invalid argument')
    return of.pos

  def tell(self):
    return self._of.pos

  def truncate(self, size=None):
    a = self._actor()
    if size is None:
      size = self._of.pos
    if a is not None and self._of.proc.alive:
      self._fs.truncate(a, self._of, size)
    return size

  def close(self):
    if self.closed or self._done:
      return
    self._done = True
    try:
      a = self._actor()
      if a is not None and self._of.proc is a.proc and a.proc.alive:
        self._fs.close_of(a, self._of)
    finally:
      self._fs.fds.pop(self._fd, None)
      io.RawIOBase.close(self)

  def __del__(self):
    try:
      self._fs.fds.pop(self._fd, None)
    except Exception:  # pylint: disable=broad-except
      pass


_real = {}


def _isdir(d):
  try:
    return statmod.S_ISDIR(_real['stat'](d).st_mode)
  except OSError:
    return False


def _exists(d):
  try:
    _real['stat'](d)
    return True
  except OSError:
    return False


def install():
  """Installs the seam (once per OS process)."""
  if _real:
    return
  r = _real
  r['open'] = builtins.open
  r['open_code'] = _io.open_code
  r['getcwd'] = os.getcwd
  for n in ('stat', 'lstat', 'close', 'read', 'write', 'pread', 'pwrite', 'fsync', 'fdatasync', 'fstat', 'lseek',
            'ftruncate', 'truncate', 'replace', 'rename', 'link', 'symlink', 'remove', 'unlink', 'mkdir', 'rmdir',
            'listdir', 'scandir', 'access', 'utime', 'chmod', 'getpid', 'urandom', 'sendfile', 'readlink'):
    r[n] = getattr(os, n)
  r['os_open'] = os.open
  r['stat_isdir'] = _isdir
  r['exists'] = _exists

  def ctx():
    a = core.current()
    if a is None:
      return None, None
    return a, core.SIM.fs

  def wants(fs, path, writing=False):
    """Normalised path if the simulated disk handles it, else None."""
    if isinstance(path, int):
      return None
    try:
      p = fs.norm(path)
    except TypeError:
      return None
    if p.startswith('/dev/') or p.startswith('/proc/'):
      return None
    if fs.virtual(p) or writing:
      return p
    return None

  def build(fs, of, fd, name, mode, buffering, encoding, errors, newline):
    raw = SimRaw(fs, of, fd, name, mode)
    binary = 'b' in mode
    if buffering == 0:
      if not binary:
        raise ValueError("can't have unbuffered text I/O")
      return raw
    size = fs.bufsize if buffering in (-1, 1) else buffering
    if of.readable and of.writable:
      buf = io.BufferedRandom(raw, size)
    elif of.writable:
      buf = io.BufferedWriter(raw, size)
    else:
      buf = io.BufferedReader(raw, size)
    if binary:
      return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
    t.mode = mode
    return t

  def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    a, fs = ctx()
    if a is None:
      return r['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
      of = fs.fds.get(file)
      if of is None:
        return r['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
      return build(fs, of, file, file, mode, buffering, encoding, errors, newline)
    m = set(mode)
    writing = bool(m & set('wax+'))
    p = wants(fs, file, writing)
    if p is None:
      return r['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if opener is not None:
      flags = os.O_RDONLY
      if writing:
        flags = (os.O_RDWR if '+' in m else os.O_WRONLY) | os.O_CREAT
        if 'w' in m:
          flags |= os.O_TRUNC
        if 'x' in m:
          flags |= os.O_EXCL
        if 'a' in m:
          flags |= os.O_APPEND
      fd = opener(file, flags)
      of = fs.fds.get(fd)
      if of is None:
        raise HarnessUnsupported('opener returned a real fd')
    else:
      of = fs.open_of(a, p, readable='r' in m or '+' in m, writable=writing, create=bool(m & set('wax')),
                      trunc='w' in m, excl='x' in m, append='a' in m)
      if of.dir:
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), p)
      fd = fs.new_fd(of)
    return build(fs, of, fd, file, mode, buffering, encoding, errors, newline)

  builtins.open = sim_open
  io.open = sim_open
  _io.open = sim_open

  def sim_open_code(path):
    a, fs = ctx()
    if a is None or wants(fs, path) is None:
      return r['open_code'](path)
    return sim_open(path, 'rb')

  io.open_code = sim_open_code
  _io.open_code = sim_open_code

  def os_open(path, flags, mode=0o777, *, dir_fd=None):
    a, fs = ctx()
    if a is None or dir_fd is not None:
      return r['os_open'](path, flags, mode, dir_fd=dir_fd)
    acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
    writing = acc != os.O_RDONLY or bool(flags & os.O_CREAT)
    p = wants(fs, path, writing)
    if p is None:
      return r['os_open'](path, flags, mode, dir_fd=dir_fd)
    of = fs.open_of(a, p, acc in (os.O_RDONLY, os.O_RDWR), acc in (os.O_WRONLY, os.O_RDWR), bool(flags & os.O_CREAT),
                    bool(flags & os.O_TRUNC), bool(flags & os.O_EXCL) and bool(flags & os.O_CREAT), bool(flags & os.O_APPEND))
    return fs.new_fd(of)

  os.open = os_open

  def fdop(name, f):
    real = r[name]

    def g(fd, *args, **kw):
      if isinstance(fd, int) and fd >= FD0:
        a, fs = ctx()
        if a is None:
          if name == 'close':
            return None
          raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        of = fs.fds.get(fd)
        if of is None:
          raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return f(a, fs, of, fd, *args, **kw)
      return real(fd, *args, **kw)

    g.__name__ = name
    setattr(os, name, g)

  def f_close(a, fs, of, fd):
    fs.fds.pop(fd, None)
    fs.close_of(a, of)

  def f_lseek(a, fs, of, fd, off, whence):
    of.pos = off if whence == 0 else (of.pos + off if whence == 1 else len(of.inode.data) + off)
    return of.pos

  def f_fstat(a, fs, of, fd):
    if of.dir:
      return fs.stat_path(of.path)
    i = of.inode
    return i.stat()

  def f_pread(a, fs, of, fd, n, off):
    old, of.pos = of.pos, off
    try:
      return fs.read(a, of, n)
    finally:
      of.pos = old

  def f_pwrite(a, fs, of, fd, b, off):
    old, of.pos = of.pos, off
    try:
      return fs.write(a, of, bytes(b))
    finally:
      of.pos = old

  fdop('close', f_close)
  fdop('read', lambda a, fs, of, fd, n: fs.read(a, of, n))
  fdop('write', lambda a, fs, of, fd, b: fs.write(a, of, bytes(b)))
  fdop('pread', f_pread)
  fdop('pwrite', f_pwrite)
  fdop('fsync', lambda a, fs, of, fd: fs.fsync(a, of))
  fdop('fdatasync', lambda a, fs, of, fd: fs.fsync(a, of))
  fdop('fstat', f_fstat)
  fdop('lseek', f_lseek)
  fdop('ftruncate', lambda a, fs, of, fd, n: fs.truncate(a, of, n))

  def sendfile(out, in_, *args, **kw):
    if out >= FD0 or in_ >= FD0:
      raise OSError(errno.ENOTSOCK, os.strerror(errno.ENOTSOCK))
    return r['sendfile'](out, in_, *args, **kw)

  os.sendfile = sendfile

  def pathop(name, f, writing=False):
    real = r[name]

    def g(path, *args, **kw):
      a, fs = ctx()
      if a is None:
        return real(path, *args, **kw)
      if isinstance(path, int):
        if path >= FD0 and name in ('stat', 'chmod', 'utime', 'listdir', 'truncate'):
          of = fs.fds.get(path)
          if of is None:
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
          return f(a, fs, of.path, *args, **kw)
        return real(path, *args, **kw)
      p = wants(fs, path, writing)
      if p is None or kw.get('dir_fd') is not None:
        return real(path, *args, **kw)
      return f(a, fs, p, *args, **kw)

    g.__name__ = name
    setattr(os, name, g)

  def p_access(a, fs, p, mode, **kw):
    try:
      fs.stat(a, p)
    except OSError:
      return False
    if mode & os.W_OK and fs.readonly:
      return False
    return not (mode & (os.R_OK | os.W_OK) and any(p.startswith(d) for d in fs.deny))

  def p_chmod(a, fs, p, mode, **kw):
    fs.op(a, 'chmod', p)
    i = fs.files.get(p)
    if i is not None:
      i.mode = statmod.S_IFREG | mode
      fs.mutated(a, 'chmod', p)

  def p_utime(a, fs, p, *args, **kw):
    fs.op(a, 'chmod', p)

  def p_trunc(a, fs, p, n):
    of = fs.open_of(a, p, False, True, False, False, False, False)
    fs.truncate(a, of, n)

  def p_rmdir(a, fs, p, **kw):
    fs.op(a, 'unlink', p)
    if p not in fs.dirs:
      raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    if any(q.startswith(p + '/') for q in list(fs.files) + list(fs.dirs)):
      raise OSError(errno.ENOTEMPTY, os.strerror(errno.ENOTEMPTY), p)
    fs.dirs.discard(p)
    fs.mutated(a, 'rmdir', p)

  pathop('stat', lambda a, fs, p, **kw: fs.stat(a, p))
  pathop('lstat', lambda a, fs, p, **kw: fs.stat(a, p))
  pathop('remove', lambda a, fs, p, **kw: fs.unlink(a, p), True)
  pathop('unlink', lambda a, fs, p, **kw: fs.unlink(a, p), True)
  pathop('mkdir', lambda a, fs, p, *x, **kw: fs.mkdir(a, p), True)
  pathop('rmdir', p_rmdir, True)
  pathop('listdir', lambda a, fs, p: fs.listdir(a, p))
  pathop('access', p_access)
  pathop('chmod', p_chmod, True)
  pathop('utime', p_utime, True)
  pathop('truncate', p_trunc, True)

  class Entry:
    def __init__(self, d, n):
      self.name = n
      self.path = posixpath.join(d, n)

    def is_file(self, **kw):
      return statmod.S_ISREG(os.stat(self.path).st_mode)

    def is_dir(self, **kw):
      return statmod.S_ISDIR(os.stat(self.path).st_mode)

    def stat(self, **kw):
      return os.stat(self.path)

    def is_symlink(self):
      return False

    def __fspath__(self):
      return self.path

  class Scan(list):
    def __enter__(self):
      return self

    def __exit__(self, *a):
      pass

    def close(self):
      pass

  def scandir(path='.'):
    a, fs = ctx()
    if a is not None and not isinstance(path, int):
      p = wants(fs, path)
      if p is not None:
        return Scan(Entry(p, n) for n in fs.listdir(a, p))
    return r['scandir'](path)

  os.scandir = scandir

  def two(name):
    real = r[name]

    def g(src, dst, **kw):
      a, fs = ctx()
      if a is None:
        return real(src, dst, **kw)
      ps, pd = wants(fs, src, True), wants(fs, dst, True)
      if ps is None or pd is None:
        return real(src, dst, **kw)
      if name in ('link', 'symlink'):
        _, after = fs.op(a, 'openw', pd)
        if pd in fs.files:
          raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), pd)
        if ps not in fs.files:
          raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), ps)
        fs.files[pd] = fs.files[ps]
        fs.nsj.append(('create', pd, fs.files[pd]))
        fs.mutated(a, 'link', pd)
        return fs.finish(a, after)
      return fs.rename(a, ps, pd)

    g.__name__ = name
    setattr(os, name, g)

  for n in ('replace', 'rename', 'link', 'symlink'):
    two(n)

  def getpid():
    a = core.current()
    return a.proc.pid if a is not None else r['getpid']()

  os.getpid = getpid

  def urandom(n):
    a = core.current()
    if a is None:
      return r['urandom'](n)
    core.SIM.stat('read.urandom')
    return core.SIM.entropy.randbytes(n)

  os.urandom = urandom
  r['random_urandom'] = random._urandom
  random._urandom = urandom

  # Temporary names: deterministic inside a simulation.
  r['cand'] = tempfile._get_candidate_names

  def cand():
    a = core.current()
    if a is None:
      return r['cand']()
    s = core.SIM

    class It:
      def __iter__(self):
        return self

      def __next__(self):
        return '%08x' % s.entropy.getrandbits(32)

    return It()

  tempfile._get_candidate_names = cand

  # Clocks.
  for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'perf_counter_ns', 'sleep'):
    r['t_' + n] = getattr(time, n)

  def clock(n):
    real = r['t_' + n]

    def g():
      a = core.current()
      if a is None:
        return real()
      s = core.SIM
      s.stat('read.clock')
      s.clock += 1e-6
      return int(s.clock * 1e9) if n.endswith('_ns') else s.clock

    g.__name__ = n
    setattr(time, n, g)

  for n in ('time', 'monotonic', 'perf_counter', 'time_ns', 'monotonic_ns', 'perf_counter_ns'):
    clock(n)

  def sleep(t):
    a = core.current()
    if a is None:
      return r['t_sleep'](t)
    core.SIM.clock += t
    core.SIM.point(a, 'f', ('sleep', '', 0))

  time.sleep = sleep

  import fcntl
  r['flock'], r['lockf'] = fcntl.flock, fcntl.lockf
  locks = {}

  def mk(name):
    real = r[name]

    def g(fd, op, *args):
      if hasattr(fd, 'fileno'):
        fd = fd.fileno()
      if fd < FD0:
        return real(fd, op, *args)
      a, fs = ctx()
      if a is None:
        return None
      of = fs.fds.get(fd)
      table = fs.__dict__.setdefault('locktable', {})
      key = of.inode.ino if of.inode is not None else -zlib.crc32(of.path.encode()) - 1
      fs.op(a, 'lock', of.path)
      if op & fcntl.LOCK_UN:
        table.pop(key, None)
        for x in core.SIM.actors.values():
          if x.state == 'blocked' and x.waiting == key:
            x.state = 'ready'
        return None
      while key in table and table[key][0] is not of and table[key][1].alive and not table[key][1].exited and any(o is table[key][0] for o in fs.fds.values()):
        if op & fcntl.LOCK_NB:
          raise BlockingIOError(errno.EAGAIN, os.strerror(errno.EAGAIN))
        core.SIM.block(a, key)
      table[key] = (of, a.proc)
      return None

    setattr(fcntl, name, g)

  mk('flock')
  mk('lockf')
