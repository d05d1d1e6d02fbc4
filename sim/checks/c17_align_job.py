"""C17: the alignment job removes the drift and nothing else."""
import dataclasses
import datetime as dt
import os

import numpy as np

from sim import core
from sim import disk
from sim import listing
from sim import world

SIDE = 512


class Oracle:
  """What the simulated network knows: every image and where it was taken."""

  def __init__(self, ctx, history, smoothing, noise, seed):
    self.ctx = ctx
    self.scenes = []
    self.equalize = False
    self.reach = {}
    self.history = history
    self.smoothing = smoothing
    self.noise = noise
    self.rng = np.random.default_rng(seed)
    self.calls = 0
    self.fail_at = None
    self.hybrid = False
    self.new_run()

  def new_run(self):
    self.seen = []      # (key, frame, claimed fov) in this pass of a session
    self.order = []     # (reset?, key) over the whole job

  def learn(self, key, image, fov, grid):
    f = np.asarray(image, dtype=np.float32)
    f = f.reshape(f.shape[:2])
    if f.max() == f.min():
      return  # A frame without a picture is known by being blank.
    if self.equalize:
      from skimage import exposure
      f = (f - f.min()) / (f.max() - f.min())
      f = exposure.equalize_adapthist(f)
    f = np.repeat(np.repeat(f, SIDE // f.shape[0], 0), SIDE // f.shape[1], 1)
    f = (f - f.min()) / (f.max() - f.min())
    self.scenes.append((f[::4, ::4], (key, fov, grid)))

  def recognise(self, frame):
    frame = np.asarray(frame, float)[::4, ::4]
    for f, scene in self.scenes:
      # A step of the equalization is 1/256.
      if np.abs(f - frame).mean() < (0.02 if self.equalize else 1e-3):
        return scene
    return None

  def signature(self, image):
    """Stands in for the trained network."""
    self.calls += 1
    if self.fail_at is not None and self.calls == self.fail_at:
      raise core.InjectedFault('the network failed')
    x = np.asarray(image)
    ctx = self.ctx
    ctx.check(x.shape == (SIDE, SIDE, self.history), 'stack-shape',
              f'the network was given {x.shape}, history {self.history}')
    cur = x[..., -1]
    ctx.check(bool(np.isfinite(x).all()), 'not-finite', 'the network was given '
              'values that are not finite')
    scene = self.recognise(cur)
    blank_now = not cur.any()
    if blank_now and self.seen:
      # Nothing in it: the drift cannot be measured.
      scene = (self.seen[-1][0][0], 'blank'), np.array(self.claimed), None
    ctx.check(scene is not None, 'current-frame', 'the newest frame given to '
              'the network is not the recorded image')
    key, truth, grid = scene
    claimed = self.claimed
    if key[1] == 0:
      self.seen = []  # A pass over a session begins with its first image.
    past = self.seen[max(0, len(self.seen) - (self.history - 1)):]
    blank = self.history - 1 - len(past)
    for j in range(self.history - 1):
      if j < blank:
        ctx.check(not x[..., j].any(), 'stale-history',
                  f'at {key} the network saw a frame from before the session '
                  'began')
        continue
      pkey, pframe, pfov = past[j - blank]
      err = crop_error(pframe, pfov, claimed, x[..., j])
      ctx.check(err < 0.02, 'history-frame',
                f'at {key} history frame {j} is not the view of {pkey} at the '
                f'present field of view ({err:.0%} of the pixels differ)')
    self.seen.append((key, cur.copy(), claimed))
    self.order.append(key)
    # The measured drift: where the image claims to be minus where it is.
    drift = np.array([claimed[0] - truth[0], claimed[1] - truth[1]])
    if not blank_now:
      drift = drift + self.rng.uniform(-self.noise, self.noise, 2)
    # Like any trained network it only measures drifts up to some size: a half
    # more than it has to when every shift measured is used for what follows.
    reach = self.reach[key[0]]
    if np.abs(drift).max() > reach:
      self.ctx.count('out_of_reach')
      drift = np.clip(drift, -reach, reach)
    logits = np.full((SIDE, SIDE, 3), -30.0, dtype=np.float32)
    logits[..., 0] = 30.0
    for (px, py), z in (zip(grid.atom_positions, grid.atomic_numbers)
                        if grid is not None else ()):
      draw(logits, px, py, 2 if z == world.SI else 1)
    t = self.history if self.smoothing else 1
    out0 = np.zeros((SIDE, SIDE, t, 3), dtype=np.float32)
    out0[:, :, :-1, 1] = 9.0
    out0[:, :, -1] = logits
    td = max(t - 1, 1)
    out1 = np.full((td, 2), 7.7)
    out1[-1] = drift
    import tensorflow as tf
    return {'output_0': tf.constant(out0.reshape(SIDE, SIDE, t * 3)),
            'output_1': tf.constant(out1.reshape(td * 2))}

  @property
  def signatures(self):
    return {'serving_default': self.signature}


def reach(offsets, blank, iterations, base):
  """The largest drift iterative alignment has to measure in a session."""
  left = [np.array(o) for o in offsets]
  most = 0.0
  for i in range(1, iterations + 1):
    step = base + (1 - base) * i / iterations
    shift = np.zeros(2)
    nxt = []
    for o, b in zip(left, blank):
      e = o - shift
      if not b:
        most = max(most, float(np.abs(e).max()))
        shift = shift + step * e
      nxt.append(o - shift)
    left = nxt
  return most


def draw(logits, px, py, cls):
  cx, cy = px * SIDE, (1 - py) * SIDE
  r = 7.0
  x0, x1 = int(max(0, cx - r)), int(min(SIDE, cx + r + 1))
  y0, y1 = int(max(0, cy - r)), int(min(SIDE, cy + r + 1))
  if x0 >= x1 or y0 >= y1:
    return
  yy, xx = np.mgrid[y0:y1, x0:x1]
  m = (xx - cx) ** 2 + (yy - cy) ** 2 <= r * r
  block = logits[y0:y1, x0:x1]
  block[m] = -30.0
  block[m, cls] = 30.0


def crop_error(frame, old, new, got):
  """Share of pixels of `got` that are not `frame` seen at field of view new."""
  n = SIDE
  wn, hn = new[2] - new[0], new[3] - new[1]
  wo, ho = old[2] - old[0], old[3] - old[1]
  x = new[0] + (np.arange(n) + 0.5) / n * wn
  y = new[3] - (np.arange(n) + 0.5) / n * hn
  c = (x - old[0]) / wo * n - 0.5
  r = (old[3] - y) / ho * n - 0.5
  ok = np.zeros((n, n), dtype=bool)
  sx, sy = 1.0 * max(1.0, wn / wo), 1.0 * max(1.0, hn / ho)
  for dr in (-sy, 0, sy):
    for dc in (-sx, 0, sx):
      ci, ri = np.round(c + dc).astype(int), np.round(r + dr).astype(int)
      inside = ((ri >= 0) & (ri < n))[:, None] & ((ci >= 0) & (ci < n))[None]
      v = frame[np.clip(ri, 0, n - 1)][:, np.clip(ci, 0, n - 1)]
      ok |= np.abs(np.where(inside, v, 0.0) - got) < 1e-4
  return 1.0 - ok.mean()


class C17(core.Check):
  id = 'C17'
  quick_runs = 110
  thorough_runs = 3000
  run_timeout = 150
  nontrivial_rule = (
      'recorded sessions whose recorded fields of view wander away from the '
      'true ones, aligned by the real job with a network that can measure '
      'where each image was taken; non-trivial if at least one session drifted '
      'or a fault fired.')
  state_measure = ('distinct (source layout, history length, iterations, '
                   'hybrid, relabel, drift kind) tuples')
  real = ['align_trajectories.main and do_alignment', 'ImageAligner',
          'IterativeAlignmentFiltering (hybrid runs)',
          'pad_and_crop_images_by_fov', 'record store', 'simulator']
  stubs = ['the trained network (a stand-in that recognises each image and '
           'measures its drift)', 'directory listing order']
  fault_kinds = ('drift', 'jump', 'zoom', 'network_failed', 'disk_full',
                 'listing_shuffled', 'source_damaged',
                 'blank_frame')

  def load(self):
    self.m = world.mods()
    from etils import epath
    from putting_dune import alignment
    from putting_dune import io as pdio
    from putting_dune.pipeline import align_trajectories
    self.epath, self.al, self.pdio, self.job = (
        epath, alignment, pdio, align_trajectories)
    self.original = alignment.ImageAligner.__dict__['from_path']

  def cleanup(self):
    self.al.ImageAligner.from_path = self.original
    disk.cleanup()

  def generate(self, rnd, tier):
    sessions = []
    for _ in range(rnd.choice([1, 1, 2, 3] if tier == 'quick'
                              else [1, 2, 3, 4, 5])):
      sessions.append({
          'drift': rnd.choice(['none', 'walk', 'walk', 'walk', 'jump', 'zoom']),
          'scale': rnd.choice([0.1, 0.5, 1.5]),
          'n': rnd.choice([1, 2, 3, 4, 6] if tier == 'quick'
                          else [1, 2, 3, 5, 8, 12]),
          'first_off': rnd.random() < 0.5,
          'label_image': rnd.random() < 0.2,
          'blank': rnd.choice([0.0, 0.0, 0.0, 0.3]),
          'seed': rnd.randrange(10**6)})
    return {
        'ops': sessions, 'rng': rnd.randrange(2**31),
        'history': rnd.choice([2, 3, 5, 5]),
        'iterations': rnd.choice([1, 1, 2, 3]),
        'step': rnd.choice([1.0, 0.5, 0.25]),
        'hybrid': rnd.random() < 0.25, 'relabel': rnd.random() < 0.5,
        'smoothing': rnd.random() < 0.4,
        'noise': rnd.choice([0.0, 0.0, 0.05]),
        'side': rnd.choice([32, 64, 128]),
        'dtype': rnd.choice(['uint8', 'float32', 'float32']),
        'gain': rnd.choice([[1.0, 0.0], [1.0, 0.0], [0.02, 3.0],
                            [4000.0, -300.0], [1e-5, 0.0]]),
        'equalize': rnd.random() < 0.6,
        'layout': rnd.choice(['object', 'file', 'file', 'dir', 'dir',
                              'drifts']),
        'files': rnd.choice([1, 2, 3]), 'listing': rnd.randrange(999),
        'fault': rnd.choice([None] * 4 + ['network', 'quota', 'damage']),
        'fault_at': rnd.random(),
    }

  def resized(self, fov, w, h):
    x0, y0, x1, y1 = world.enc_fov(fov)
    cx, cy, w, h = (x0 + x1) / 2, (y0 + y1) / 2, w * (x1 - x0), h * (y1 - y0)
    return world.dec_fov(self.m, (cx - w / 2, cy - h / 2,
                                  cx + w / 2, cy + h / 2))

  def session(self, ctx, plan, s):
    """One recorded session with fields of view that wandered off."""
    m = self.m
    mu = m.microscope_utils
    r = np.random.default_rng(s['seed'])
    mat = world.make_material(m, {'rates': {'kind': 'simple'}, 'columns': 50})
    sim = m.simulator.PuttingDuneSimulator(mat)
    obs = sim.reset(r)
    out = []
    off = np.zeros(2)
    if s['first_off']:
      off = r.uniform(-s['scale'], s['scale'], 2)
    for i in range(s['n']):
      if i:
        p = r.uniform(0.4, 0.6, 2)
        c = mu.BeamControl(m.geometry.Point(*p),
                           dt.timedelta(seconds=1.5), 60.0, 0.1)
        obs = sim.step_and_image(r, [c])
        if s['drift'] in ('walk', 'zoom'):
          off = off + r.uniform(-s['scale'], s['scale'], 2)
        elif s['drift'] == 'jump' and r.random() < 0.4:
          off = off + r.choice([-1, 1], 2) * r.uniform(3, 30, 2)
          ctx.fault('jump')
      if s['drift'] != 'none':
        ctx.fault('drift')
      o = obs
      if s['drift'] == 'zoom' and r.random() < 0.4:
        z = r.choice([0.8, 1.3])
        f2 = self.resized(obs.fov, 1 / z, 1 / z * r.choice([1.0, 0.8, 1.25]))
        g = f2.material_frame_to_microscope_frame(
            obs.fov.microscope_frame_to_material_frame(obs.grid))
        pos = np.asarray(g.atom_positions)
        keep = ((pos >= 0) & (pos < 1)).all(1)
        g = mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(
            pos[keep], np.asarray(g.atomic_numbers)[keep]))
        o = dataclasses.replace(obs, fov=f2, grid=g)
        ctx.fault('zoom')
      img = r.integers(0, 256, (plan['side'], plan['side'], 1))
      img = img.astype(plan['dtype'])
      if plan['dtype'] == 'float32':
        img = img / np.float32(255)
        img = img * np.float32(plan['gain'][0]) + np.float32(plan['gain'][1])
      if i and r.random() < s['blank']:
        img = np.full_like(img, img.flat[0])
        ctx.fault('blank_frame')
      lab = (r.integers(0, 15, (8, 8, 1)).astype(np.uint8)
             if s['label_image'] else None)
      true = world.enc_fov(o.fov)
      claimed = world.dec_fov(m, np.array(true) + np.tile(off, 2))
      rec = dataclasses.replace(o, fov=claimed, image=img, label_image=lab)
      out.append((rec, true, o.grid))
    return out

  def execute(self, plan, ctx):
    m, mu = self.m, self.m.microscope_utils
    sessions = [self.session(ctx, plan, s) for s in plan['ops']]
    if not sessions:
      return
    oracle = Oracle(ctx, plan['history'], plan['smoothing'], plan['noise'],
                    plan['rng'])
    if plan['layout'] == 'drifts':
      self.recorded_drifts(ctx, plan, sessions)
      return
    oracle.equalize = plan['equalize']
    for i, s in enumerate(sessions):
      for j, (o, true, grid) in enumerate(s):
        oracle.learn((i, j), o.image, true, grid)
    for i, s in enumerate(sessions):
      oracle.reach[i] = 1.5 * reach(
          [np.subtract(world.enc_fov(o.fov), true)[:2] for o, true, _ in s],
          [np.ptp(np.asarray(o.image)) == 0 for o, _, _ in s],
          plan['iterations'], plan['step']) + 0.5 + 4 * plan['noise']
    al = self.al

    class Aligner(al.ImageAligner):
      """The real aligner with the simulated network plugged in."""

      adaptive_normalization = plan['equalize']

      @property
      def model(self):
        return oracle

      def __call__(self, image, fov, *a, **k):
        oracle.claimed = world.enc_fov(fov)
        return super().__call__(image, fov, *a, **k)

    al.ImageAligner.from_path = classmethod(
        lambda cls, path, workdir=None, reload=False, **kw: Aligner(
            model_path=path, **kw))
    trajs = [mu.Trajectory(observations=[x[0] for x in s]) for s in sessions]
    d = ctx.scratch()
    args = self.job.Args(
        source_path=self.epath.Path(d) / 'in',
        target_path=self.epath.Path(d) / 'out.tfrecords',
        aligner_path=self.epath.Path(d) / 'model.zip',
        history_length=plan['history'],
        alignment_iterations=plan['iterations'],
        base_step_size=plan['step'], hybrid=plan['hybrid'],
        relabel=plan['relabel'])
    ctx.state(plan['layout'], plan['history'], plan['iterations'],
              plan['hybrid'], plan['relabel'],
              *sorted({s['drift'] for s in plan['ops']}))
    ctx.nontrivial = any(s['drift'] != 'none' for s in plan['ops'])

    if plan['layout'] == 'object':
      before = core.digest([[world.enc_obs(o) for o in t.observations]
                            for t in trajs])
      aligner = Aligner(model_path=args.aligner_path, hybrid=plan['hybrid'])
      got = []
      with core.quiet():
        for i, t in enumerate(trajs):
          if plan['fault'] == 'network' and i == int(
              plan['fault_at'] * len(trajs)):
            # The network fails in the middle of a session; it is done again.
            oracle.fail_at = oracle.calls + 1 + int(
                plan['fault_at'] * len(t.observations))
            try:
              self.job.do_alignment(t, args, aligner)
            except core.InjectedFault:
              ctx.fault('network_failed')
            oracle.fail_at = None
          got.append(ctx.must('do_alignment', self.job.do_alignment, t, args,
                              aligner))
      ctx.check(before == core.digest(
          [[world.enc_obs(o) for o in t.observations] for t in trajs]),
                'input-mutated', 'alignment changed the recorded sessions')
      exact = True
    else:
      got = self.run_job(ctx, plan, args, trajs, oracle)
      if got is None:
        return
      exact = False
    self.compare(ctx, plan, sessions, got, exact)
    ctx.log('out', [[world.enc_fov(o.fov) for o in t.observations]
                    for t in got])

  def recorded_drifts(self, ctx, plan, sessions):
    """Drifts that were recorded along with the sessions are taken out."""
    m, mu = self.m, self.m.microscope_utils
    r = np.random.default_rng(plan['rng'])
    d = ctx.scratch()
    ctx.nontrivial = True
    ctx.state('drifts', len(sessions), *sorted(len(s) for s in sessions))
    records, truths = [], []
    for s in sessions:
      total, drifts, seen, want = np.zeros(2), [], [], []
      for o, _, _ in s:
        n = len(o.grid.atomic_numbers)
        step = r.normal(0, 1, 2).astype(np.float32)
        jitter = r.normal(0, 0.01, (n, 2)).astype(np.float32)
        total = total + step
        ctx.fault('drift')
        drifts.append(mu.Drift(drift=step, jitter=jitter))
        # It was taken at the true place and believed to be elsewhere.
        fov = np.array(world.enc_fov(o.fov))
        pos = np.asarray(o.grid.atom_positions, float)
        seen.append(dataclasses.replace(
            o, fov=world.dec_fov(m, fov - np.tile(total, 2)),
            grid=mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(
                pos + jitter, np.asarray(o.grid.atomic_numbers)))))
        want.append((o, fov, pos))
      records.append(mu.LabeledAlignmentTrajectory(
          trajectory=mu.Trajectory(observations=seen), drifts=drifts))
      truths.append(want)
    p = self.epath.Path(d) / 'labeled.tfrecords'
    self.pdio.write_records(p, records)
    records = list(self.pdio.read_records(p, mu.LabeledAlignmentTrajectory))
    ctx.check(len(records) == len(truths), 'sessions', f'{len(records)}')
    for i, (rec, want) in enumerate(zip(records, truths)):
      obs = rec.trajectory.observations
      ctx.check(len(rec.drifts) == len(obs) == len(want),
                'observations', f'session {i}')
      total = None
      for j, (dr, o, (w, fov, pos)) in enumerate(zip(
          rec.drifts, obs, want)):
        total = dr if total is None else dr.cumulate_drift(total)
        before = core.digest(world.enc_obs(o))
        a = ctx.must('apply_to_observation', total.apply_to_observation, o)
        what = f'observation {j} of session {i}'
        ctx.check(core.digest(world.enc_obs(o)) == before, 'input-mutated',
                  what)
        ctx.check(np.abs(np.subtract(world.enc_fov(a.fov), fov)).max() < 1e-3,
                  'misaligned', f'{what}: {world.enc_fov(a.fov)} instead of '
                  f'{fov.tolist()}')
        ctx.check(np.allclose(a.grid.atom_positions, pos, atol=1e-5)
                  and np.array_equal(a.grid.atomic_numbers,
                                     w.grid.atomic_numbers), 'grid', what)
        ctx.check(self.same_rest(o, a), 'collateral',
                  f'taking out the drift changed more of {what}')

  def same_rest(self, o, a):
    flat = lambda x: np.asarray(x).reshape(-1)
    return bool(
        a.elapsed_time == o.elapsed_time
        and a.image is not None and np.array_equal(flat(a.image),
                                                   flat(o.image))
        and (a.label_image is None) == (o.label_image is None)
        and (a.label_image is None or np.array_equal(flat(a.label_image),
                                                     flat(o.label_image)))
        and len(a.controls) == len(o.controls)
        and all(np.allclose(np.array(world.enc_control(x), dtype=float),
                            np.array(world.enc_control(y), dtype=float))
                for x, y in zip(a.controls, o.controls)))

  def run_job(self, ctx, plan, args, trajs, oracle):
    n = min(plan['files'], len(trajs)) if plan['layout'] == 'dir' else 1
    src = args.source_path
    names = []
    if plan['layout'] == 'dir':
      os.mkdir(src)
      for k in range(n):
        names.append(src / f'part{k}.tfrecords')
      with open(src / 'README.txt', 'w', encoding='utf8') as f:
        f.write('not a recording')
    else:
      src = args.source_path = self.epath.Path(str(src) + '.tfrecords')
      names = [src]
    for k in np.random.default_rng(plan['listing']).permutation(n):
      self.pdio.write_records(
          names[k], [t for i, t in enumerate(trajs)
                     if i * n // len(trajs) == k])
    inputs = {p: open(p, 'rb').read() for p in names}
    target = str(args.target_path)

    def job(seed):
      with core.quiet(), listing.shuffled(seed):
        self.job.main(args)

    if n > 1:
      ctx.fault('listing_shuffled')
    total = sum(len(t.observations) for t in trajs)
    if plan['fault'] == 'damage':
      p = names[int(plan['fault_at'] * n)]
      disk.flip(p, int(plan['fault_at'] * (os.path.getsize(p) * 8 - 1)))
      ctx.fault('source_damaged')
      try:
        job(plan['listing'])
      except Exception:  # pylint: disable=broad-except
        return None
      ctx.violate('damage-hidden', 'a damaged recording was aligned without an '
                  'error')
    if plan['fault'] == 'network':
      with open(target, 'wb') as f:
        f.write(b'earlier result')
      oracle.fail_at = 1 + int(plan['fault_at'] * total)
      try:
        job(plan['listing'])
      except core.InjectedFault:
        ctx.fault('network_failed')
        ctx.check(open(target, 'rb').read() == b'earlier result',
                  'target-clobbered', 'a job that failed before it had a '
                  'result overwrote the earlier result')
      else:
        ctx.violate('failure-hidden', 'the network failed, the job did not')
      oracle.fail_at = None
    elif plan['fault'] == 'quota':
      try:
        with disk.quota(int(plan['fault_at'] * sum(
            len(v) for v in inputs.values()))):
          job(plan['listing'])
      except Exception:  # pylint: disable=broad-except
        ctx.fault('disk_full')
      else:
        # It fitted, or the job believes so: what is on disk decides.
        return list(self.pdio.read_records(
            target, self.m.microscope_utils.Trajectory))
    ctx.must('align_trajectories.main', job, plan['listing'] + 1)
    ctx.check(all(open(p, 'rb').read() == v for p, v in inputs.items()),
              'source-changed', 'the job changed its source files')
    return list(self.pdio.read_records(
        target, self.m.microscope_utils.Trajectory))

  def compare(self, ctx, plan, sessions, got, exact):
    ctx.check(len(got) == len(sessions), 'sessions',
              f'{len(sessions)} sessions recorded, {len(got)} aligned')
    tol = plan['noise'] + (1e-6 if exact else 1e-3)
    if plan['hybrid']:
      tol += 0.75
    for i, (s, t) in enumerate(zip(sessions, got)):
      ctx.check(len(t.observations) == len(s), 'observations',
                f'session {i} had {len(s)} observations, '
                f'{len(t.observations)} came out')
      for j, ((o, true, grid), a) in enumerate(zip(s, t.observations)):
        f = np.array(world.enc_fov(a.fov))
        blank = np.ptp(np.asarray(o.image)) == 0
        ctx.check(np.isfinite(f).all() and (
            blank or np.abs(f - true).max() <= tol),
                  'misaligned', f'observation {j} of session {i}: recorded at '
                  f'{world.enc_fov(o.fov)}, taken at {true}, aligned to '
                  f'{f.tolist()}')
        ctx.check(
            a.elapsed_time == o.elapsed_time
            and a.image is not None
            and np.allclose(np.asarray(a.image).reshape(-1),
                            np.asarray(o.image).reshape(-1), atol=1e-6)
            and (a.label_image is None) == (o.label_image is None)
            and (a.label_image is None or np.array_equal(
                np.asarray(a.label_image).reshape(-1),
                np.asarray(o.label_image).reshape(-1)))
            and len(a.controls) == len(o.controls)
            and all(np.allclose(
                np.array(world.enc_control(x), dtype=float),
                np.array(world.enc_control(y), dtype=float), atol=1e-4)
                    for x, y in zip(a.controls, o.controls)),
            'collateral', f'alignment changed more than the position of '
            f'observation {j} of session {i}')
        if not plan['relabel']:
          ctx.check(
              np.allclose(a.grid.atom_positions, o.grid.atom_positions,
                          atol=1e-5)
              and np.array_equal(a.grid.atomic_numbers, o.grid.atomic_numbers),
              'grid', f'the recorded atoms of observation {j} of session {i} '
              'changed without relabelling')
        elif not blank:
          self.atoms(ctx, plan, f'{j} of session {i}', grid, a.grid)
    ctx.count('observations', sum(len(s) for s in sessions))

  def atoms(self, ctx, plan, what, want, got):
    """Relabelled: the atoms that are in the image, where they are."""
    wp, wn = np.asarray(want.atom_positions), np.asarray(want.atomic_numbers)
    gp, gn = np.asarray(got.atom_positions), np.asarray(got.atomic_numbers)
    slack = 0.012 if not plan['hybrid'] else 0.06
    inner = ((wp > 0.07) & (wp < 0.93)).all(1)
    if not len(gp):
      ctx.check(not inner.any(), 'relabel', f'observation {what} has no atoms')
      return
    d = np.abs(wp[:, None] - gp[None]).max(-1)
    for k in np.flatnonzero(inner):
      hits = np.flatnonzero(d[k] <= slack)
      ctx.check(len(hits) >= 1, 'relabel', f'atom at {wp[k]} of observation '
                f'{what} is missing')
      if not plan['hybrid']:
        ctx.check(len(hits) == 1 and gn[hits[0]] == wn[k], 'relabel',
                  f'atom {wn[k]} at {wp[k]} of observation {what} came out as '
                  f'{gn[hits].tolist()}')
      elif wn[k] == world.SI:
        ctx.check((gn[hits] == world.SI).any(), 'relabel',
                  f'the silicon of observation {what} was lost')
    if not plan['hybrid']:
      ctx.check((d.min(0) <= slack).all(), 'relabel',
                f'observation {what} has atoms that are not in its image')


CHECK = C17()
