"""Disk faults for code that writes real files, confined to a scratch folder.

* quota(n): no file may grow beyond n bytes (RLIMIT_FSIZE): a full disk, seen
  by Python and by TensorFlow's C++ writers alike, including short writes.
* Faults(root): counts file-system operations below root through the
  interpreter's audit events and fails the k-th one.  With `crash`, the k-th
  operation raises Crash and every later one fails too until revive(): what the
  process still tries to do after the crash reaches no disk.
* flip/truncate: damage at rest.
"""
import contextlib
import os
import resource
import signal
import sys


class Crash(BaseException):
  """The simulated process died here."""


_state = {'faults': None, 'installed': False}

_PATH_EVENTS = {
    'open': (0,), 'os.mkdir': (0,), 'os.rename': (0, 1), 'os.remove': (0,),
    'os.rmdir': (0,), 'os.truncate': (0,), 'os.link': (0, 1),
    'os.symlink': (0, 1), 'os.listdir': (0,), 'os.scandir': (0,),
    'shutil.copyfile': (0, 1), 'shutil.move': (0, 1), 'shutil.rmtree': (0,),
    'os.utime': (0,), 'os.chmod': (0,),
}
_DIR_FD = {'os.mkdir': 2, 'os.remove': 1, 'os.rmdir': 1, 'os.rename': 2}
_WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _hook(event, args):
  f = _state['faults']
  if f is None or f.busy:
    return
  idx = _PATH_EVENTS.get(event)
  if idx is None:
    return
  f.busy = True
  try:
    f.seen(event, args, idx)
  finally:
    f.busy = False


class Faults:
  """Fails chosen file-system operations below `root`."""

  def __init__(self, root, *, fail_at=None, crash=False, writes_only=True,
               errno=28, match=None):
    self.root = os.path.realpath(root) + os.sep
    self.fail_at = fail_at
    self.crash = crash
    self.writes_only = writes_only
    self.errno = errno
    self.match = match
    self.ops = []
    self.dead = False
    self.fired = None
    self.busy = False

  def seen(self, event, args, idx):
    path = None
    fd = _DIR_FD.get(event)
    if fd is not None and len(args) > fd and args[fd] not in (-1, None):
      # A step of shutil.rmtree (an event of its own), in an order that is up
      # to the file system.
      if self.dead:
        raise OSError(5, 'Input/output error (after the crash)')
      return
    for i in idx:
      try:
        p = os.fspath(args[i])
      except (TypeError, IndexError):
        continue
      if isinstance(p, bytes):
        p = os.fsdecode(p)
      if not isinstance(p, str):
        continue
      p = os.path.join(os.path.realpath(os.path.dirname(p) or '.'),
                       os.path.basename(p))
      if (p + os.sep).startswith(self.root):
        path = p
        break
    if path is None:
      return
    if event == 'open' and self.writes_only:
      mode, flags = args[1], args[2]
      w = (isinstance(mode, str) and any(c in mode for c in 'wax+'))
      w = w or (mode is None and bool(flags & _WRITE_FLAGS))
      if not w:
        return
    elif self.writes_only and event in ('os.listdir', 'os.scandir'):
      return
    if self.match and self.match not in path:
      return
    if self.dead:
      raise OSError(5, 'Input/output error (after the crash)', path)
    self.ops.append((event, os.path.relpath(path, self.root)))
    if self.fail_at is not None and len(self.ops) == self.fail_at:
      self.fired = self.ops[-1]
      if self.crash:
        self.dead = True
        raise Crash(f'{event} {path}')
      raise OSError(self.errno, os.strerror(self.errno), path)

  def __enter__(self):
    if not _state['installed']:
      sys.addaudithook(_hook)
      _state['installed'] = True
    _state['faults'] = self
    return self

  def __exit__(self, *a):
    _state['faults'] = None


@contextlib.contextmanager
def quota(nbytes):
  """No regular file may grow beyond nbytes."""
  old_sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
  soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
  resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, hard))
  try:
    yield
  finally:
    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    signal.signal(signal.SIGXFSZ, old_sig)


def truncate(path, keep):
  with open(path, 'r+b') as f:
    f.truncate(keep)


def flip(path, bit):
  with open(path, 'r+b') as f:
    f.seek(bit // 8)
    b = f.read(1)
    f.seek(bit // 8)
    f.write(bytes([b[0] ^ (1 << (bit % 8))]))


def tree(root):
  """All files below root with their bytes (relative path -> bytes)."""
  out = {}
  for d, _, fs in os.walk(root):
    for f in fs:
      p = os.path.join(d, f)
      with open(p, 'rb') as fh:
        out[os.path.relpath(p, root)] = fh.read()
  return out


def cleanup():
  _state['faults'] = None
