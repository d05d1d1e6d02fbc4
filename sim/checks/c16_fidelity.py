"""C16: recorded data means the same after storage, any number of times."""
import dataclasses
import datetime as dt
import os

import numpy as np

from sim import core
from sim import disk

DTYPES = ['float32', 'float64', 'uint8', 'int32', 'int64', 'bool', 'float16']
KINDS = ['grid', 'control', 'fov', 'observation', 'transition', 'trajectory',
         'drift', 'labeled']


class C16(core.Check):
  id = 'C16'
  quick_runs = 320
  thorough_runs = 10000
  nontrivial_rule = (
      'a seeded set of observations, transitions, trajectories, drifts, ... '
      'pushed through a chain of storage hops (messages, record files, '
      'containers) with full disks and retries in between; non-trivial if an '
      'object with optional parts took at least one hop through a file.')
  state_measure = ('distinct (kind, which optional parts are present, dtypes, '
                   'hop kinds) tuples')
  real = ['all ProtoModel classes', 'putting_dune.proto', 'io', 'TensorFlow '
          'tensor messages and record files']
  stubs = ['disk quota']
  fault_kinds = ('disk_full', 'restart')

  def load(self):
    from putting_dune import geometry
    from putting_dune import io as pdio
    from putting_dune import microscope_utils
    self.pdio, self.mu, self.ge = pdio, microscope_utils, geometry

  def cleanup(self):
    disk.cleanup()

  def generate(self, rnd, tier):
    ops = []
    for _ in range(rnd.randrange(2, 12)):
      hops = [rnd.choice(['msg', 'file', 'file', 'nest', 'full'])
              for _ in range(rnd.randrange(1, 5))]
      ops.append({'kind': rnd.choice(KINDS), 's': rnd.randrange(10**9),
                  'hops': hops, 'n': rnd.choice([0, 1, 2, 7, 40]),
                  'none': rnd.random() < 0.01})
    return {'ops': ops}

  # -- random objects ---------------------------------------------------
  def image(self, r):
    if r.random() < 0.4:
      return None
    d = DTYPES[int(r.integers(len(DTYPES)))]
    shape = [(4, 6, 1), (3,), (5, 5), (1, 1), (0, 3), ()][int(r.integers(6))]
    x = r.random(shape) * 200
    if r.random() < 0.2:
      x = np.full(shape, 7.0)
    x = np.asarray(x > 100 if d == 'bool' else x).astype(d)
    if r.random() < 0.2 and x.ndim == 2:
      x = np.asfortranarray(x)
    return x

  def grid(self, r, n):
    dtype = [np.float32, np.float64][int(r.integers(2))]
    return self.mu.AtomicGrid(
        r.normal(0, 30, (n, 2)).astype(dtype),
        r.choice([6, 14, 7, 118], n).astype(
            [np.int32, np.int64][int(r.integers(2))]))

  def pt(self, r, scale=30):
    return self.ge.Point(float(r.normal(0, scale)), float(r.normal(0, scale)))

  def control(self, r, none=False):
    kw = {}
    c = r.random()
    if c < 0.4:
      kw = dict(voltage_kv=float(r.choice([30, 60.5, 100, 0.0])),
                current_na=float(r.choice([0.05, 0.1, 0.0, 3.0])))
    if none:
      kw[['voltage_kv', 'current_na'][int(r.integers(2))]] = None
    return self.mu.BeamControl(
        self.pt(r, 1), dt.timedelta(seconds=float(
            r.choice([0, 1e-6, 1.5, 0.123456, 3600.25, 1e6]))), **kw)

  def fov(self, r):
    a = self.pt(r)
    return self.mu.MicroscopeFieldOfView(
        a, self.ge.Point(a.x + r.uniform(1, 40), a.y + r.uniform(1, 40)))

  def observation(self, r, n, none=False):
    return self.mu.MicroscopeObservation(
        grid=self.grid(r, n), fov=self.fov(r), controls=tuple(
            self.control(r, none) for _ in range(
                max(int(none), int(r.integers(4))))),
        elapsed_time=dt.timedelta(seconds=float(r.choice([0, 2, 12.345678, 4000.5, 90000.25, 1e6]))),
        image=self.image(r), label_image=self.image(r))

  def drift(self, r, n):
    return self.mu.Drift(jitter=r.normal(0, 1, (n, 2)), drift=r.normal(
        0, 4, 2).astype([np.float32, np.float64][int(r.integers(2))]))

  def make(self, op):
    r = np.random.default_rng(op['s'])
    k, n, none = op['kind'], op['n'], op['none']
    few = min(n, 3)
    if k == 'grid':
      return self.grid(r, n)
    if k == 'control':
      return self.control(r, none)
    if k == 'fov':
      return self.fov(r)
    if k == 'observation':
      return self.observation(r, n, none)
    if k == 'trajectory':
      return self.mu.Trajectory([self.observation(r, n, none)
                                 for _ in range(few)])
    if k == 'drift':
      return self.drift(r, n)
    if k == 'labeled':
      return self.mu.LabeledAlignmentTrajectory(
          self.mu.Trajectory([self.observation(r, n) for _ in range(few)]),
          [self.drift(r, n) for _ in range(few)])
    return self.mu.Transition(
        grid_before=self.grid(r, n), grid_after=self.grid(r, n),
        fov_before=self.fov(r), fov_after=self.fov(r),
        controls=tuple(self.control(r, none) for _ in range(
            max(int(none), int(r.integers(4))))),
        image_before=self.image(r), image_after=self.image(r),
        label_image_before=self.image(r), label_image_after=self.image(r))

  # -- comparison -------------------------------------------------------
  def same(self, ctx, a, b, path, exact):
    """a: before storage, b: after."""
    if a is None or b is None:
      if path.rsplit('.', 1)[-1] in ('voltage_kv', 'current_na'):
        ctx.check((a is None) == (b is None), 'unset-beam-setting'
                  if a is None and b == 0.0 else 'beam-setting-presence',
                  f'{path}: {a} became {b}')
      else:
        ctx.check((a is None) == (b is None), 'presence',
                  f'{path}: {"absent" if a is None else "present"} before, '
                  f'{"absent" if b is None else "present"} after')
      return
    if dataclasses.is_dataclass(a):
      ctx.check(type(a) is type(b), 'type', f'{path}: {type(b)}')
      for f in dataclasses.fields(a):
        self.same(ctx, getattr(a, f.name), getattr(b, f.name),
                  f'{path}.{f.name}', exact)
    elif isinstance(a, dt.timedelta):
      x, y = a.total_seconds(), b.total_seconds()
      ctx.check(x == y if exact else abs(x - y) <= 1e-6 * abs(x) + 1e-6,
                'time', f'{path}: {x} s became {y} s')
    elif isinstance(a, np.ndarray):
      ctx.check(a.shape == b.shape, 'shape', f'{path}: {a.shape} {b.shape}')
      if 'image' in path:
        ctx.check(a.dtype == b.dtype and np.array_equal(a, b), 'image',
                  f'{path}: pixels or type {a.dtype} -> {b.dtype} changed')
      elif exact:
        ctx.check(np.array_equal(a, b), 'unstable', f'{path} changed')
      else:
        ctx.check(np.allclose(a, b, rtol=1e-6, atol=1e-6), 'values',
                  f'{path}: {a.reshape(-1)[:6]} became {b.reshape(-1)[:6]}')
    elif hasattr(a, 'coords'):
      x, y = (a.x, a.y), (b.x, b.y)
      ctx.check(x == y if exact else np.allclose(x, y, rtol=1e-6, atol=1e-6),
                'point', f'{path}: {x} became {y}')
    elif isinstance(a, (list, tuple)):
      ctx.check(len(a) == len(b), 'length', f'{path}: {len(a)} {len(b)}')
      for i, (x, y) in enumerate(zip(a, b)):
        self.same(ctx, x, y, f'{path}[{i}]', exact)
    else:
      x, y = float(a), float(b)
      ctx.check(x == y if exact else abs(x - y) <= 1e-6 * abs(x) + 1e-9,
                'number', f'{path}: {x} became {y}')

  def execute(self, plan, ctx):
    d = ctx.scratch()
    n = [0]

    def path():
      n[0] += 1
      return os.path.join(d, f'{n[0]}.tfrecords')

    for op in plan['ops']:
      obj = self.make(op)
      ref = self.make(op)
      typ = type(obj)
      cur = obj
      for h, hop in enumerate(op['hops']):
        if hop == 'msg':
          nxt = ctx.must('message', lambda: typ.from_proto_string(
              cur.to_proto().SerializeToString()))
        elif hop == 'nest' and op['kind'] == 'observation':
          nxt = ctx.must('nest', lambda: self.mu.Trajectory.from_proto(
              self.mu.Trajectory([cur, cur]).to_proto())).observations[1]
        elif hop == 'nest' and op['kind'] in ('trajectory', 'drift'):
          t = cur if op['kind'] == 'trajectory' else self.mu.Trajectory([])
          ds = [cur] if op['kind'] == 'drift' else []
          lab = ctx.must(
              'nest', lambda: self.mu.LabeledAlignmentTrajectory.from_proto(
                  self.mu.LabeledAlignmentTrajectory(t, ds).to_proto()))
          nxt = lab.trajectory if op['kind'] == 'trajectory' else lab.drifts[0]
        else:
          p = path()
          if hop == 'full':
            try:
              with disk.quota(20):
                self.pdio.write_records(p, [cur, cur])
            except Exception:  # pylint: disable=broad-except
              ctx.fault('disk_full')
          ctx.must('write', self.pdio.write_records, p, [cur, cur, cur])
          got = ctx.must('read', lambda: list(
              self.pdio.read_records(p, typ)))
          ctx.check(len(got) == 3, 'records', f'{len(got)} of 3 records')
          ctx.fault('restart')
          nxt = got[2]
          self.same(ctx, got[0], nxt, op['kind'], True)
        self.same(ctx, cur, nxt, op['kind'], h > 0)
        cur = nxt
      # Storing must not have changed what the caller holds.
      self.same(ctx, ref, obj, op['kind'], True)
      ctx.log(op['kind'], core.digest(cur.to_proto().SerializeToString(
          deterministic=True)))
      ctx.state(op['kind'], op['hops'], [
          (f.name, getattr(obj, f.name) is None)
          for f in dataclasses.fields(obj) if 'image' in f.name])


CHECK = C16()
