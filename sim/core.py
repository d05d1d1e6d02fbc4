"""Plans, runs, oracles' context, minimisation.

A *plan* is a JSON object: configuration plus an 'ops' list holding every
operation, scheduling decision, delay and fault of one simulated run.  It is
generated from a seed; executing it is a pure function of plan + code.
"""
import contextlib
import copy
import faulthandler
import hashlib
import io
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import traceback

import numpy as np

from sim import boot


class Violation(Exception):

  def __init__(self, sig, msg):
    super().__init__(f'[{sig}] {msg}')
    self.sig = sig
    self.msg = msg


class HarnessError(Exception):
  """The harness itself is wrong; never reported as a violation."""


class RunTimeout(BaseException):
  """The run exceeded its real-time bound (no progress)."""


class InjectedFault(Exception):
  """Raised by stubs on behalf of the fault injector."""


def _feed(h, x):
  """Feeds a canonical encoding of x into hash h."""
  if x is None or isinstance(x, (bool, int, str)):
    h.update(repr(x).encode() + b';')
  elif isinstance(x, float):
    h.update(b'f' + np.float64(x).tobytes())
  elif isinstance(x, np.ndarray):
    h.update(f'a{x.dtype.str}{x.shape}'.encode())
    h.update(np.ascontiguousarray(x).tobytes())
  elif isinstance(x, np.generic):
    _feed(h, np.asarray(x))
  elif isinstance(x, bytes):
    h.update(b'b' + x)
  elif isinstance(x, dict):
    h.update(b'{')
    for k in sorted(x, key=str):
      _feed(h, str(k))
      _feed(h, x[k])
    h.update(b'}')
  elif isinstance(x, (list, tuple)):
    h.update(b'[')
    for y in x:
      _feed(h, y)
    h.update(b']')
  elif isinstance(x, (set, frozenset)):
    h.update(b'<')
    for y in sorted(x, key=str):
      _feed(h, y)
    h.update(b'>')
  else:
    h.update(str(x).encode() + b';')


def digest(x):
  h = hashlib.sha256()
  _feed(h, x)
  return h.hexdigest()[:16]


class Ctx:
  """What a running plan may use: event log, oracle verdicts, accounting."""

  def __init__(self):
    self.h = hashlib.sha256()
    self.n_events = 0
    self.faults = {}
    self.states = set()
    self.sim_seconds = 0.0
    self.counts = {}
    self.trace = []
    self.nontrivial = False
    self._scratch = None
    self.keep_trace = False

  # -- history -------------------------------------------------------------
  def log(self, kind, *data):
    self.n_events += 1
    _feed(self.h, kind)
    _feed(self.h, list(data))
    if self.keep_trace and len(self.trace) < 400:
      self.trace.append([kind] + [_short(d) for d in data])

  # -- verdicts ------------------------------------------------------------
  def violate(self, sig, msg):
    raise Violation(sig, msg)

  def check(self, cond, sig, msg=''):
    self.count('oracle_checks')
    if not cond:
      raise Violation(sig, msg() if callable(msg) else str(msg))

  def must(self, what, fn, *a, **k):
    """Calls code under test that has to succeed."""
    try:
      return fn(*a, **k)
    except (Violation, HarnessError, RunTimeout, InjectedFault):
      raise
    except Exception as e:  # pylint: disable=broad-except
      if _through_repo(e):
        raise Violation(
            f'raised:{what}:{type(e).__name__}',
            f'{what} raised {type(e).__name__}: {str(e)[:300]}\n'
            + _repo_frames(e),
        ) from e
      raise

  # -- accounting ----------------------------------------------------------
  def fault(self, kind, n=1):
    self.faults[kind] = self.faults.get(kind, 0) + n
    self.nontrivial = True

  def count(self, kind, n=1):
    self.counts[kind] = self.counts.get(kind, 0) + n

  def state(self, *key):
    self.states.add(digest(list(key)))

  def simtime(self, seconds):
    self.sim_seconds += float(seconds)

  def scratch(self):
    if self._scratch is None:
      self._scratch = tempfile.mkdtemp(
          prefix='run_', dir=os.environ['VERIF_SCRATCH']
      )
    return self._scratch

  def close(self):
    if self._scratch is not None:
      shutil.rmtree(self._scratch, ignore_errors=True)
      self._scratch = None


def _short(d):
  if isinstance(d, np.ndarray):
    return f'array{d.shape}#{digest(d)[:8]}'
  if isinstance(d, (bytes,)):
    return f'bytes[{len(d)}]'
  s = d if isinstance(d, (int, float, bool, type(None))) else str(d)
  if isinstance(s, str) and len(s) > 200:
    s = s[:200] + '…'
  return s


def _frames(e):
  out = []
  tb = e.__traceback__
  while tb is not None:
    out.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno,
                tb.tb_frame.f_code.co_name))
    tb = tb.tb_next
  return out


def _through_repo(e):
  pre = os.path.join(boot.REPO, 'putting_dune') + os.sep
  return any(f[0].startswith(pre) for f in _frames(e))


def _repo_frames(e):
  pre = os.path.join(boot.REPO, 'putting_dune') + os.sep
  fr = [f for f in _frames(e) if f[0].startswith(pre)][-4:]
  return '\n'.join(f'    at {f[0]}:{f[1]} {f[2]}' for f in fr)


def seed_for(prop, base_seed, index):
  s = hashlib.sha256(f'{base_seed}:{prop}:{index}'.encode()).hexdigest()
  return int(s[:15], 16)


class Result:

  def __init__(self):
    self.violation = None  # (sig, msg)
    self.error = None


def run_plan(check, plan, keep_trace=False, timeout=None):
  """Executes one plan. Returns a dict describing the outcome."""
  ctx = Ctx()
  ctx.keep_trace = keep_trace
  timeout = timeout or getattr(check, 'run_timeout', 60)
  out = {'violation': None, 'error': None}
  boot.clock.reset()
  np_seed = int(plan.get('np_seed', 0)) & 0xFFFFFFFF
  np.random.seed(np_seed)
  random.seed(np_seed)

  def on_alarm(signum, frame):
    del signum, frame
    raise RunTimeout()

  old = signal.signal(signal.SIGALRM, on_alarm)
  signal.setitimer(signal.ITIMER_REAL, timeout)
  # Code that hangs outside the interpreter ends the process instead.
  faulthandler.dump_traceback_later(timeout + 10, exit=True)
  cwd = os.getcwd()
  try:
    try:
      check.execute(copy.deepcopy(plan), ctx)
    finally:
      signal.setitimer(signal.ITIMER_REAL, 0)
  except Violation as v:
    out['violation'] = [v.sig, v.msg]
  except RunTimeout:
    out['violation'] = [
        'no-progress', f'the run made no progress within {timeout} s'
    ]
  except HarnessError as e:
    out['error'] = f'HarnessError: {e}\n{traceback.format_exc()[-3000:]}'
  except Exception as e:  # pylint: disable=broad-except
    if _through_repo(e) and not isinstance(e, InjectedFault):
      out['violation'] = [
          f'raised:{type(e).__name__}',
          f'unexpected {type(e).__name__}: {str(e)[:300]}\n' + _repo_frames(e),
      ]
      if keep_trace:
        out['tb'] = traceback.format_exc()[-3000:]
    else:
      out['error'] = traceback.format_exc()[-4000:]
  finally:
    signal.signal(signal.SIGALRM, old)
    faulthandler.cancel_dump_traceback_later()
    boot.clock.active = False
    os.chdir(cwd)
    try:
      check.cleanup()
    except Exception:  # pylint: disable=broad-except
      out['error'] = 'cleanup failed:\n' + traceback.format_exc()[-3000:]
    ctx.close()
  out.update(
      digest=ctx.h.hexdigest()[:16],
      events=ctx.n_events,
      faults=ctx.faults,
      counts=ctx.counts,
      sim_seconds=ctx.sim_seconds + boot.clock.total,
      states=sorted(ctx.states),
      nontrivial=bool(ctx.nontrivial),
  )
  if keep_trace:
    out['trace'] = ctx.trace
  return out


class Check:
  """Base class of the per-property checks."""

  id = ''
  title = ''
  quick_runs = 64
  thorough_runs = 2000
  run_timeout = 60
  nontrivial_rule = ''
  real = []
  stubs = []
  assumptions = []
  state_measure = ''
  imports = ()
  fault_kinds = ()

  def load(self):
    """Imports the code under test (once per process)."""

  def generate(self, rnd, tier):
    raise NotImplementedError

  def execute(self, plan, ctx):
    raise NotImplementedError

  def cleanup(self):
    pass

  def shrink(self, plan):
    """Yields simpler plans (besides dropping ops)."""
    return iter(())

  def finalize(self, outs):
    """Cross-run oracle in the parent. Returns a list of (sig, msg)."""
    return []


def isolated(ctx, fn):
  """Runs fn() in a forked child; returns its value.

  The child's state (module-level caches, patched globals) dies with it, so
  the calling process keeps the state it had before any code under test ran.
  """
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 0
    try:
      os.close(r)
      sub = Ctx()
      boot.clock.total = 0.0
      out = {'value': None}
      try:
        out['value'] = fn(sub)
      except Violation as v:
        out['violation'] = (v.sig, v.msg)
      except RunTimeout:
        out['violation'] = ('no-progress', 'the run made no progress')
      except BaseException as e:  # pylint: disable=broad-except
        if _through_repo(e) and not isinstance(e, InjectedFault):
          out['violation'] = (
              f'raised:{type(e).__name__}',
              f'unexpected {type(e).__name__}: {str(e)[:300]}\n'
              + _repo_frames(e))
        else:
          out['error'] = traceback.format_exc()[-3000:]
      out.update(faults=sub.faults, counts=sub.counts, sim=sub.sim_seconds,
                 states=sub.states, nontrivial=sub.nontrivial,
                 clock=boot.clock.total)
      if sub._scratch:
        shutil.rmtree(sub._scratch, ignore_errors=True)
      with os.fdopen(w, 'wb') as f:
        pickle.dump(out, f)
    except BaseException:  # pylint: disable=broad-except
      code = 3
    os._exit(code)
  os.close(w)
  try:
    with os.fdopen(r, 'rb') as f:
      data = f.read()
  except BaseException:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    raise
  _, status = os.waitpid(pid, 0)
  if not data:
    raise HarnessError(f'isolated child ended with status {status}')
  out = pickle.loads(data)
  if 'error' in out:
    raise HarnessError(out['error'])
  for k, n in out['faults'].items():
    ctx.fault(k, n)
  for k, n in out['counts'].items():
    ctx.count(k, n)
  ctx.states |= out['states']
  ctx.sim_seconds += out['sim'] + out['clock']
  ctx.nontrivial = ctx.nontrivial or out['nontrivial']
  if 'violation' in out:
    raise Violation(*out['violation'])
  return out['value']


def make_plan(check, base_seed, index, tier):
  seed = seed_for(check.id, base_seed, index)
  rnd = random.Random(seed)
  plan = check.generate(rnd, tier)
  plan.setdefault('np_seed', rnd.randrange(2**32))
  plan['seed'] = seed
  return json.loads(json.dumps(plan))


def minimise(check, plan, sig, budget_s=25.0):
  """ddmin over plan['ops'], then the check's own shrinkers."""
  t0 = boot.real_perf()
  tries = 0

  def fails(p):
    nonlocal tries
    if boot.real_perf() - t0 > budget_s:
      return False
    tries += 1
    r = run_plan(check, p, timeout=min(check.run_timeout, 15))
    return r['violation'] is not None and r['violation'][0] == sig

  cur = plan
  if not fails(cur):
    return plan, tries, False  # not reproducible in this process
  changed = True
  while changed and boot.real_perf() - t0 < budget_s:
    changed = False
    ops = cur.get('ops') or []
    n = 2
    while len(ops) >= 1 and boot.real_perf() - t0 < budget_s:
      size = max(1, len(ops) // n)
      done = False
      for i in range(0, len(ops), size):
        cand = dict(cur, ops=ops[:i] + ops[i + size:])
        if fails(cand):
          cur, ops, done, changed = cand, cand['ops'], True, True
          n = max(2, n - 1)
          break
      if not done:
        if size == 1:
          break
        n = min(len(ops), n * 2)
    progress = True
    while progress and boot.real_perf() - t0 < budget_s:
      progress = False
      for cand in check.shrink(cur):
        if cand != cur and fails(cand):
          cur, progress, changed = cand, True, True
          break
  return cur, tries, True


@contextlib.contextmanager
def quiet():
  """Silences stdout/stderr chatter of code under test."""
  with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
      io.StringIO()
  ):
    yield
