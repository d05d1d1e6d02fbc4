"""Process set-up: environment, simulated clock, protocol buffers, imports.

Everything runs the real code of /repo (never a copy).  The only generated
artefact, putting_dune_pb2.py, is rebuilt from /repo's current .proto into a
scratch directory and injected, so a stale or missing build product in /repo
cannot influence a check.
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
import time as _time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENV = {
    'JAX_PLATFORMS': 'cpu',
    'TF_CPP_MIN_LOG_LEVEL': '3',
    'MPLBACKEND': 'Agg',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'TF_NUM_INTRAOP_THREADS': '1',
    'TF_NUM_INTEROP_THREADS': '1',
    'XLA_FLAGS': (
        '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
    ),
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONHASHSEED': '0',
    'CUDA_VISIBLE_DEVICES': '',
}

# Real time functions, for the framework's own use.
real_perf = _time.perf_counter
real_time = _time.time
real_sleep = _time.sleep


class SimClock:
  """The simulated clock behind the `time` module.

  While `active`, every reading of the process clock made by the code under
  test comes from here.  `mono` only moves forward (perf_counter / monotonic
  semantics); `wall` may additionally be skewed or jump (time.time semantics).
  """

  def __init__(self):
    self.active = False
    self.mono = 0.0
    self.wall_offset = 1.7e9
    self.reads = 0
    self.total = 0.0
    self.jitter = None  # optional callable -> seconds added per reading

  def reset(self):
    self.active = False
    self.mono = 1000.0
    self.wall_offset = 1.7e9
    self.reads = 0
    self.total = 0.0
    self.jitter = None

  def advance(self, seconds):
    assert seconds >= 0
    self.mono += seconds
    self.total += seconds

  def jump_wall(self, seconds):
    self.wall_offset += seconds

  def read_mono(self):
    self.reads += 1
    if self.jitter is not None:
      self.advance(self.jitter())
    return self.mono

  def read_wall(self):
    self.reads += 1
    return self.mono + self.wall_offset


clock = SimClock()


def install_clock():
  """Puts the simulated clock behind the time module (idempotent)."""
  if getattr(_time, '_verif_clock', False):
    return
  real = {
      n: getattr(_time, n)
      for n in (
          'perf_counter', 'monotonic', 'time', 'process_time', 'thread_time',
          'perf_counter_ns', 'monotonic_ns', 'time_ns', 'process_time_ns',
          'sleep',
      )
  }

  def make(name, reader, ns):
    r = real[name]

    def f():
      if clock.active:
        v = reader()
        return int(v * 1e9) if ns else v
      return r()

    f.__name__ = name
    return f

  for n in ('perf_counter', 'monotonic', 'process_time', 'thread_time'):
    setattr(_time, n, make(n, clock.read_mono, False))
  for n in ('perf_counter_ns', 'monotonic_ns', 'process_time_ns'):
    setattr(_time, n, make(n, clock.read_mono, True))
  _time.time = make('time', clock.read_wall, False)
  _time.time_ns = make('time_ns', clock.read_wall, True)

  def sleep(s):
    if clock.active:
      clock.advance(max(0.0, s))
    else:
      real['sleep'](s)

  _time.sleep = sleep
  _time._verif_clock = True


def build_protos(outdir):
  """Compiles /repo's .proto files into outdir. Returns the pb2 path or None."""
  inc = None
  for p in sys.path:
    c = os.path.join(p, 'tensorflow', 'include')
    if os.path.isdir(c):
      inc = c
      break
  protoc = shutil.which('protoc') or '/usr/bin/protoc'
  proto_dir = os.path.join(REPO, 'putting_dune')
  protos = sorted(
      os.path.join('putting_dune', f)
      for f in os.listdir(proto_dir)
      if f.endswith('.proto')
  )
  subprocess.run(
      [protoc, f'-I={inc}', '-I=.', f'--python_out={outdir}'] + protos,
      cwd=REPO, check=True, capture_output=True,
  )
  return os.path.join(outdir, 'putting_dune')


def setup(proto_dir):
  """Imports putting_dune from /repo with the generated protos injected."""
  if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
  install_clock()
  import putting_dune  # pylint: disable=g-import-not-at-top

  got = os.path.dirname(os.path.abspath(putting_dune.__file__))
  if os.path.realpath(got) != os.path.realpath(
      os.path.join(REPO, 'putting_dune')
  ):
    raise RuntimeError(f'putting_dune imported from {got}, not {REPO}')
  if proto_dir:
    for f in sorted(os.listdir(proto_dir)):
      if not f.endswith('_pb2.py'):
        continue
      mod = 'putting_dune.' + f[:-3]
      spec = importlib.util.spec_from_file_location(
          mod, os.path.join(proto_dir, f)
      )
      m = importlib.util.module_from_spec(spec)
      sys.modules[mod] = m
      spec.loader.exec_module(m)
      setattr(putting_dune, f[:-3], m)
  return putting_dune
