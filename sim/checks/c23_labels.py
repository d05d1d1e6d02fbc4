"""C23: training examples show what happened in the recorded sessions."""
import dataclasses
import datetime as dt
import math
import os

import numpy as np

from sim import core
from sim import disk
from sim import listing
from sim import world

STYLES = ('near', 'chase', 'away', 'wild')


class C23(core.Check):
  id = 'C23'
  quick_runs = 160
  thorough_runs = 6000
  run_timeout = 120
  nontrivial_rule = (
      'one to four recorded sessions of a simulated sample (in either '
      'recording convention, seen through a faulty detector), stored in one or '
      'several files, listed in any order, loaded and converted to training '
      'examples; non-trivial if a silicon hop became an example or a fault '
      'fired.')
  state_measure = ('distinct (recording convention, detector fault, label or '
                   'exclusion, number of controls) tuples')
  real = ['trajectories_to_transitions', 'load_trajectories_from_records',
          'transitions_to_datapoints', 'standardize_beam_and_neighbors',
          'stack_data', 'augment_data, dataset splits (part of the runs)',
          'plot_transition (part of the runs)', 'record store', 'simulator',
          'material']
  stubs = ['detector faults', 'directory listing order', 'rates chosen by the '
           'plan']
  fault_kinds = ('detector_lost_silicon', 'detector_extra_silicon',
                 'detector_permuted', 'detector_jitter', 'detector_lost_atom',
                 'detector_sparse', 'sample_exchanged', 'file_damaged', 'listing_shuffled',
                 'disk_full')

  def load(self):
    self.m = world.mods()
    from putting_dune import io as pdio
    from putting_dune.pipeline import train_rate_learner
    from putting_dune.pipeline import trajectories_to_transitions
    from putting_dune.rate_learning import data_utils
    from putting_dune.rate_learning import learn_rates
    from etils import epath
    self.pdio, self.trl, self.t2t = (pdio, train_rate_learner,
                                     trajectories_to_transitions)
    self.du, self.lr, self.epath = data_utils, learn_rates, epath

  def cleanup(self):
    disk.cleanup()

  # -------------------------------------------------------------- plans ----
  def generate(self, rnd, tier):
    trajs = []
    for _ in range(rnd.choice([1, 1, 2, 3, 4])):
      steps = []
      for _ in range(rnd.randrange(1, 14 if tier == 'quick' else 40)):
        f = rnd.choice(['ok'] * 8 + ['lost', 'extra', 'permute', 'jitter',
                                     'lost_atom', 'exchange', 'sparse'])
        cs = [{'style': rnd.choice(STYLES), 'dwell': rnd.choice(
            [0.001, 0.5, 1.5, 1.5, 4.0]), 'a': rnd.random(), 'b': rnd.random(),
               'kv': rnd.choice([60.0, 80.0]), 'na': rnd.choice([0.1, 0.5])}
              for _ in range(rnd.choice([1] * 8 + [0, 2]))]
        steps.append({'fault': f, 'seed': rnd.randrange(999), 'cs': cs})
      trajs.append({
          'rates': rnd.choice([
              {'kind': 'const', 'rates': [round(10 ** rnd.uniform(-2, .3), 4)
                                          for _ in range(3)]},
              {'kind': 'simple'}]),
          'columns': rnd.choice([50, 40, 30]), 'steps': steps,
          'first': rnd.choice(['ok', 'ok', 'ok', 'ok', 'lost', 'permute',
                               'sparse']),
          'image': rnd.random() < 0.1})
    return {
        'ops': trajs, 'rng': rnd.randrange(2**31),
        'previous': rnd.random() < 0.5,
        'store': rnd.choice(['none', 'file', 'dir', 'dir', 'list']),
        'files': rnd.choice([1, 2, 3, 5]), 'listing': rnd.randrange(999),
        'damage': rnd.random() < 0.12, 'damage_at': rnd.random(),
        'main': rnd.choice([None] * 6 + ['ok', 'quota']),
        'quota': rnd.choice([0, 50, 500, 5000]),
        'plot': rnd.random() < 0.04,
        'augment': rnd.random() < 0.12,
        'examples': rnd.choice([1, 2, 3, 5, 8, 8]),
        'cutoff': rnd.choice([0.71, 0.71, 0.3]),
    }

  # ---------------------------------------------------------- recording ----
  def detect(self, ctx, o, fault, seed):
    mu = self.m.microscope_utils
    pos = np.array(o.grid.atom_positions, dtype=float)
    num = np.array(o.grid.atomic_numbers)
    r = np.random.default_rng(seed)
    si = world.si_index(o.grid)[0]
    if fault == 'lost':
      num[:] = world.C
      ctx.fault('detector_lost_silicon')
    elif fault == 'extra':
      num[r.integers(len(num))] = world.SI
      ctx.fault('detector_extra_silicon')
    elif fault == 'permute':
      p = r.permutation(len(num))
      pos, num = pos[p], num[p]
      ctx.fault('detector_permuted')
    elif fault == 'jitter':
      pos = pos + r.uniform(-0.08, 0.08, pos.shape) / o.fov.width
      ctx.fault('detector_jitter')
    elif fault == 'sparse':
      # A handful of atoms, most of them around the silicon, or none at all.
      near = np.argsort(np.linalg.norm(pos - pos[si], axis=1), kind='stable')
      near = near[:r.choice([0, 1, 2, 3, 4, 5, 8, 9, 10, 11])]
      if r.random() < 0.2:
        near = near[1:]
      pos, num = pos[near], num[near]
      ctx.fault('detector_sparse')
    elif fault == 'lost_atom':
      k = r.integers(len(num))
      if r.random() < 0.5:
        d = np.linalg.norm(pos - pos[si], axis=1)
        k = np.argsort(d)[r.integers(1, 12)]
      if k != si:
        pos, num = np.delete(pos, k, 0), np.delete(num, k)
      ctx.fault('detector_lost_atom')
    return dataclasses.replace(o, grid=mu.AtomicGrid(pos, num))

  def beam(self, obs, c):
    """A control aimed relative to the silicon, in the microscope frame."""
    pos = np.asarray(obs.grid.atom_positions, dtype=float) * obs.fov.width
    si = pos[world.si_index(obs.grid)[0]]
    order = np.argsort(np.linalg.norm(pos - si, axis=1))
    nb = pos[order[1 + int(c['a'] * 3) % 3]]
    if c['style'] == 'near':
      ang = 2 * math.pi * c['a']
      p = si + 2.0 * c['b'] * np.array([math.cos(ang), math.sin(ang)])
    elif c['style'] == 'chase':
      p = nb + 0.2 * (c['b'] - 0.5)
    elif c['style'] == 'away':
      p = si - (nb - si) * (0.5 + c['b'])
    else:
      p = np.array([c['a'], c['b']]) * obs.fov.width
    p = p / obs.fov.width
    m = self.m
    return m.microscope_utils.BeamControl(
        m.geometry.Point(float(p[0]), float(p[1])),
        dt.timedelta(seconds=c['dwell']), c['kv'], c['na'])

  def record(self, ctx, plan, t, rng):
    """Plays one session. Returns (reported observations, true silicon)."""
    m = self.m
    mat = world.make_material(m, t)
    sim = m.simulator.PuttingDuneSimulator(mat)
    # observation: what the sample looks like; reported: what is recorded.
    obs = sim.reset(rng, return_image=t['image'])
    rep, truth, applied = [self.detect(ctx, obs, t['first'], 1)], [], []
    truth.append(np.asarray(mat.get_silicon_position()).reshape(2).copy())
    for s in t['steps']:
      cs = [self.beam(obs, c) for c in s['cs']]
      applied.append(cs)
      if s['fault'] == 'exchange':
        obs = sim.reset(rng, return_image=t['image'])
        obs = dataclasses.replace(obs, controls=tuple(cs))
        ctx.fault('sample_exchanged')
      else:
        obs = sim.step_and_image(rng, cs, return_image=t['image'])
      ctx.simtime(obs.elapsed_time.total_seconds())
      rep.append(self.detect(ctx, obs, s['fault'], s['seed']))
      truth.append(np.asarray(mat.get_silicon_position()).reshape(2).copy())
    if not plan['previous']:
      # A live session is recorded with the controls about to be applied.
      rep = [dataclasses.replace(o, controls=tuple(c))
             for o, c in zip(rep, applied + [[]])]
    mu = m.microscope_utils
    return mu.Trajectory(observations=rep), truth, applied

  # ------------------------------------------------------------- oracle ----
  def expected(self, before, after, control, cutoff):
    """What a pair of observations should become.

    Returns (must include, must exclude, checker) where checker tells whether
    a data point is right.
    """
    def mat(o):
      f = o.fov
      ll = np.array([f.lower_left.x, f.lower_left.y])
      sz = np.array([f.width, f.height])
      return np.asarray(o.grid.atom_positions, float) * sz + ll, np.asarray(
          o.grid.atomic_numbers), ll, sz

    pb, nb, ll, sz = mat(before)
    pa, na, _, _ = mat(after)
    ib, ia = np.flatnonzero(nb == world.SI), np.flatnonzero(na == world.SI)
    if len(ib) != 1 or len(ia) != 1:
      return False, True, None
    if len(pb) < 10 or len(pa) < 4:
      return False, True, None
    s0, s1 = pb[ib[0]], pa[ia[0]]
    d = np.linalg.norm(pb - s0, axis=1)
    order = np.argsort(d, kind='stable')
    dd = d[order]
    # Three neighbours and no more: clear, clearly not, or marginal.
    three = dd[3] < 1.95 and dd[4] > 2.05 and dd[4] - dd[1] > 0.55
    not_three = dd[3] > 2.05 or dd[4] < 1.95 or dd[4] - dd[1] < 0.45
    if not_three:
      return False, True, None
    da = np.linalg.norm(pa - s0, axis=1)
    rank = int((da < da[ia[0]] - 1e-3).sum())
    rank_hi = int((da < da[ia[0]] + 1e-3).sum()) - 1
    if rank >= 4:
      return False, True, None
    four = pa[np.argsort(da, kind='stable')[:4]]
    q = pb[order[:4]]
    drift = np.linalg.norm(q[:, None] - four[None], axis=-1).min(-1).mean()
    if drift > cutoff + 1e-3:
      return False, True, None
    must = three and rank_hi < 4 and drift < cutoff - 1e-3

    beam = np.array([control.position.x, control.position.y]) * sz + ll - s0
    rel = pb[order[1:4]] - s0
    near = np.linalg.norm(rel - beam, axis=1)
    tie = np.sort(near)[1] - np.sort(near)[0] < 1e-3
    to = np.linalg.norm(q - s1, axis=1)
    tie_to = np.sort(to)[1] - np.sort(to)[0] < 1e-3
    options = []
    for k in range(3):
      if near[k] > near.min() + 1e-3:
        continue
      a0 = math.atan2(rel[k][1], rel[k][0])
      ang = [(math.atan2(v[1], v[0]) - a0) % (2 * math.pi) for v in rel]
      ang[k] = 0.0
      c, s = math.cos(-a0), math.sin(-a0)
      pos = np.array([c * beam[0] - s * beam[1], s * beam[0] + c * beam[1]])
      hop = int(to.argmin())
      label = 0 if hop == 0 else 1 + int(
          np.sum(np.asarray(ang) < ang[hop - 1] - 1e-9))
      options.append((label, pos))

    def check(p):
      got = np.asarray(p['beam_pos'], float).reshape(-1)
      if got.shape != (2,):
        return f'beam position {got}'
      for label, pos in options:
        if np.abs(got - pos).max() < 2e-3 and (
            int(p['next_state']) == label or tie_to):
          break
      else:
        return (f'label {p["next_state"]} with beam at {got}, expected '
                f'{[(a, b.tolist()) for a, b in options]}')
      if abs(p['seconds_between'] - control.dwell_time.total_seconds()) > 2e-6:
        return f'dwell time {p["seconds_between"]}'
      if abs(p['current'] - control.current_na) > 1e-6:
        return f'current {p["current"]}'
      if abs(p['voltage'] - control.voltage_kv) > 1e-4:
        return f'voltage {p["voltage"]}'
      return None

    del tie
    return must, False, check

  def load_back(self, ctx, plan, trajs):
    """Stores the sessions and loads them again."""
    m = self.m
    if plan['store'] == 'none':
      return trajs, None
    d = os.path.join(ctx.scratch(), 'records')
    os.mkdir(d)
    n = 1 if plan['store'] == 'file' else min(plan['files'], len(trajs))
    groups = [[] for _ in range(n)]
    for i, t in enumerate(trajs):
      groups[i * n // len(trajs)].append(t)
    names = [f'day{i:03d}.tfrecords' for i in range(n)]
    r = np.random.default_rng(plan['listing'])
    for i in r.permutation(n):
      ctx.must('write_records', self.pdio.write_records,
               os.path.join(d, names[i]), groups[i])
    if plan['damage']:
      p = os.path.join(d, names[int(plan['damage_at'] * n)])
      size = os.path.getsize(p)
      disk.flip(p, int(plan['damage_at'] * (size * 8 - 1)))
      ctx.fault('file_damaged')
    path = self.epath.Path(d)
    if plan['store'] == 'file':
      path = path / names[0]
    elif plan['store'] == 'list':
      path = [path / x for x in names]

    def load(seed):
      with listing.shuffled(seed):
        return self.trl.load_trajectories_from_records(path)

    if plan['damage']:
      try:
        load(0)
      except Exception:  # pylint: disable=broad-except
        return None, None
      ctx.violate('damage-hidden', 'a damaged recording was loaded without an '
                  'error')
    a = ctx.must('load_trajectories_from_records', load, plan['listing'])
    if plan['store'] == 'dir' and n > 1:
      ctx.fault('listing_shuffled')
      b = load(plan['listing'] + 1)
      key = lambda ts: [core.digest([world.enc_obs(o) for o in t.observations])
                        for t in ts]
      ctx.check(key(a) == key(b), 'listing-order', 'the loaded sessions depend '
                'on the order in which the file system lists the files')
    # Every session exactly once, in the order they were recorded in.
    ctx.check(len(a) == len(trajs), 'sessions',
              f'{len(trajs)} sessions stored, {len(a)} loaded')
    for i, (x, y) in enumerate(zip(trajs, a)):
      ctx.check(len(x.observations) == len(y.observations), 'session-length',
                f'session {i} has {len(x.observations)} observations, '
                f'{len(y.observations)} loaded')
      for j, (o, p) in enumerate(zip(x.observations, y.observations)):
        ctx.check(
            np.allclose(o.grid.atom_positions, p.grid.atom_positions,
                        atol=1e-5)
            and np.array_equal(o.grid.atomic_numbers, p.grid.atomic_numbers)
            and np.allclose(world.enc_fov(o.fov), world.enc_fov(p.fov),
                            atol=1e-4)
            and len(o.controls) == len(p.controls), 'session-content',
            f'observation {j} of session {i} changed in storage')
    del m
    return a, d

  def execute(self, plan, ctx):
    m = self.m
    rng = np.random.default_rng(plan['rng'])
    rec = [self.record(ctx, plan, t, rng) for t in plan['ops']]
    trajs, _ = self.load_back(ctx, plan, [x[0] for x in rec])
    if trajs is None:
      return
    before = [core.digest([world.enc_obs(o) for o in t.observations])
              for t in trajs]
    tr = ctx.must('trajectories_to_transitions',
                  self.t2t.trajectories_to_transitions, trajs,
                  previous_controls_at_current_timestep=plan['previous'])
    # One transition per adjacent pair, never across sessions.
    pairs = []
    for (traj, truth, applied), loaded, t in zip(rec, trajs, plan['ops']):
      for i in range(len(traj.observations) - 1):
        pairs.append((traj.observations[i], traj.observations[i + 1],
                      applied[i], loaded.observations[i],
                      loaded.observations[i + 1], truth[i], truth[i + 1],
                      t['steps'][i], t['steps'][i - 1]['fault'] if i else
                      t['first']))
    ctx.check(len(tr) == len(pairs), 'transition-count',
              f'{len(pairs)} adjacent pairs, {len(tr)} transitions')
    for i, (t, p) in enumerate(zip(tr, pairs)):
      o0, o1 = p[3], p[4]
      ctx.check(
          core.digest([world.enc_fov(t.fov_before), world.enc_fov(t.fov_after),
                       np.asarray(t.grid_before.atom_positions),
                       np.asarray(t.grid_after.atom_positions),
                       np.asarray(t.grid_before.atomic_numbers),
                       np.asarray(t.grid_after.atomic_numbers),
                       t.image_before, t.image_after])
          == core.digest([world.enc_fov(o0.fov), world.enc_fov(o1.fov),
                          np.asarray(o0.grid.atom_positions),
                          np.asarray(o1.grid.atom_positions),
                          np.asarray(o0.grid.atomic_numbers),
                          np.asarray(o1.grid.atomic_numbers),
                          o0.image, o1.image]),
          'transition-content', f'transition {i} is not the step from its '
          'observation to the next')
      got = [world.enc_control(c) for c in t.controls]
      want = [world.enc_control(c) for c in p[2]]
      ok = len(got) == len(want) and all(
          np.allclose(np.asarray(a, float), np.asarray(b, float), atol=1e-4)
          for a, b in zip(got, want))
      ctx.check(ok, 'transition-controls',
                f'transition {i} carries controls {got}, between its '
                f'observations {want} were applied')
    self.run_main(ctx, plan, trajs)

    args = self.trl.Args(source_path=None, workdir=None,
                         neighbor_distance_cutoff=plan['cutoff'])
    points = []
    with core.quiet():
      plots = None
      if plan['plot']:
        tr_plot = tr[:3]
        plots = os.path.join(ctx.scratch(), 'plots')
        got = ctx.must('transitions_to_datapoints with plots',
                       self.trl.transitions_to_datapoints, tr_plot, args, True,
                       plots)
        n = [f for _, _, fs in os.walk(plots) for f in fs
             if f.endswith('_transition.png')]
        ctx.check(len(n) == len(got), 'plots',
                  f'{len(got)} examples, {len(n)} plots')
      for i, (t, p) in enumerate(zip(tr, pairs)):
        out = ctx.must('transitions_to_datapoints',
                       self.trl.transitions_to_datapoints, [t], args)
        step = p[7]
        if len(p[2]) != 1:
          must, never, check = False, True, None
        else:
          must, never, check = self.expected(p[0], p[1], p[2][0],
                                             plan['cutoff'])
        what = (f'step {i} ({len(p[2])} controls, detector {p[8]} then '
                f'{step["fault"]})')
        ctx.check(len(out) <= 1, 'one-example', f'{what} became {len(out)} '
                  'examples')
        if never:
          ctx.check(not out, 'should-be-excluded', f'{what} is not usable but '
                    f'became {out}')
        if must:
          ctx.check(bool(out), 'excluded', f'{what} is usable but was excluded')
        if out and check is not None:
          err = check(out[0])
          ctx.check(err is None, 'label', f'{what}: {err}')
          moved = float(np.linalg.norm(p[6] - p[5])) > 0.1
          if step['fault'] not in ('exchange', 'jitter', 'extra') and (
              p[8] not in ('jitter', 'extra')):
            ctx.check((int(out[0]['next_state']) != 0) == moved, 'truth',
                      f'{what}: label {out[0]["next_state"]}, silicon moved: '
                      f'{moved}')
          if int(out[0]['next_state']):
            ctx.nontrivial = True
            ctx.count('hops_labelled')
        ctx.state(plan['previous'], step['fault'], p[8], len(p[2]),
                  int(out[0]['next_state']) if out else -1)
        points += out
      whole = ctx.must('transitions_to_datapoints',
                       self.trl.transitions_to_datapoints, tr, args)
    enc = lambda ps: core.digest([sorted((k, np.asarray(v)) for k, v in
                                         p.items()) for p in ps])
    ctx.check(enc(whole) == enc(points), 'batch', 'converting all transitions '
              'at once differs from converting them one by one')
    after = [core.digest([world.enc_obs(o) for o in t.observations])
             for t in trajs]
    ctx.check(before == after, 'input-mutated',
              'converting changed the loaded sessions')
    ctx.count('examples', len(points))
    ctx.log('points', [[int(p['next_state']), np.asarray(p['beam_pos'])]
                       for p in points])
    if points:
      self.dataset(ctx, plan, points)

  def run_main(self, ctx, plan, trajs):
    """The command-line conversion: files in, files out."""
    if plan['main'] is None:
      return
    d = ctx.scratch()
    src, dst = os.path.join(d, 'src.tfrecords'), os.path.join(
        d, 'dst.tfrecords')
    self.pdio.write_records(src, trajs)
    args = self.t2t.Args(source_path=src, target_path=dst)
    if plan['main'] == 'quota':
      try:
        with disk.quota(plan['quota']):
          self.t2t.main(args)
      except Exception:  # pylint: disable=broad-except
        ctx.fault('disk_full')
        # Retried with room.
        self.t2t.main(args)
    else:
      ctx.must('trajectories_to_transitions.main', self.t2t.main, args)
    mu = self.m.microscope_utils
    got = list(self.pdio.read_records(dst, mu.Transition))
    want = self.t2t.trajectories_to_transitions(trajs)
    ctx.check(len(got) == len(want), 'main-count',
              f'{len(want)} transitions, {len(got)} in the target file')
    for i, (a, b) in enumerate(zip(got, want)):
      ctx.check(
          np.allclose(a.grid_before.atom_positions,
                      b.grid_before.atom_positions, atol=1e-5)
          and np.allclose(a.grid_after.atom_positions,
                          b.grid_after.atom_positions, atol=1e-5)
          and len(a.controls) == len(b.controls), 'main-content',
          f'transition {i} in the target file differs')

  def dataset(self, ctx, plan, points):
    """Stacking, augmentation and splits."""
    for use_c in (False, True):
      for use_v in (False, True):
        for use_d in (False, True):
          ds = ctx.must('stack_data', self.trl.stack_data, points, use_c,
                        use_v, use_d)
          cols = []
          if use_c:
            cols.append([p['current'] for p in points])
          if use_v:
            cols.append([p['voltage'] for p in points])
          if use_d:
            cols.append([p['seconds_between'] for p in points])
          ok = (np.array_equal(ds['next_state'],
                               [p['next_state'] for p in points])
                and np.array_equal(ds['position'],
                                   [p['beam_pos'] for p in points])
                and np.array_equal(ds['dt'],
                                   [p['seconds_between'] for p in points]))
          if cols:
            ok = ok and np.array_equal(ds['context'], np.array(cols).T)
          else:
            ok = ok and ds['context'] is None
          ctx.check(ok, 'stacked', 'the stacked dataset is not the list of '
                    'examples')
    if plan['augment']:
      n = plan.get('examples', 8)
      idx = np.arange(n) % len(points)
      r = np.random.default_rng(plan['rng'])
      data = {
          'next_state': np.array([points[i]['next_state'] for i in idx]),
          'dt': np.arange(n) + 1.0,  # Doubles as the identity of the example.
          'rates': r.uniform(0.1, 1.0, (n, 3)),
          'position': np.array([points[i]['beam_pos'] for i in idx]),
          'context': r.uniform(0, 1, (n, 2)),
      }
      self.augmented(ctx, data)
      self.splits(ctx, plan, data)

  def augmented(self, ctx, data):
    """Every example appears in its six symmetric forms, physics intact."""
    self_data = {k: np.array(v) for k, v in data.items()}
    out = ctx.must('augment_data', self.du.augment_data,
                   **{k: np.asarray(v) for k, v in data.items()})
    out = {k: np.asarray(v) for k, v in out.items()}
    n = len(data['dt'])
    ctx.check(all(len(v) == 6 * n for v in out.values()), 'augment-size',
              f'{n} examples became {[len(v) for v in out.values()]}')
    dirs = [np.array([math.cos(2 * math.pi * k / 3),
                      math.sin(2 * math.pi * k / 3)]) for k in range(3)]
    bad = [k for k in out if not np.isfinite(np.asarray(
        out[k], dtype=float)).all()]
    ctx.check(not bad, 'augment-physics', f'not finite: {bad}')
    for i in range(n):
      rows = np.flatnonzero(np.abs(out['dt'].reshape(-1) - data['dt'][i])
                            < 1e-4)
      ctx.check(len(rows) == 6, 'augment-copies',
                f'example {i} appears {len(rows)} times')
      want = []
      for flip in (1, -1):
        for k in range(3):
          c, s = math.cos(2 * math.pi * k / 3), math.sin(2 * math.pi * k / 3)
          g = np.array([[c, -s], [s, c]]) @ np.diag([1, flip])
          perm = [int(np.argmin([np.linalg.norm(g @ dirs[a] - dirs[b])
                                 for b in range(3)])) for a in range(3)]
          st = int(data['next_state'][i])
          rates = np.zeros(3)
          for a in range(3):
            rates[perm[a]] = data['rates'][i][a]
          want.append((g @ data['position'][i],
                       0 if st == 0 else perm[st - 1] + 1, rates))
      left = list(rows)
      for pos, st, rates in want:
        hit = [r for r in left
               if np.abs(out['position'][r] - pos).max() < 1e-3
               and int(out['next_state'][r]) == st
               and np.abs(out['rates'][r] - rates).max() < 1e-3
               and np.abs(out['context'][r] - data['context'][i]).max() < 1e-4]
        ctx.check(bool(hit), 'augment-physics',
                  f'no augmented copy of example {i} with beam {pos}, label '
                  f'{st}, rates {rates}: {[(out["position"][r].tolist(), int(out["next_state"][r])) for r in left]}')
        left.remove(hit[0])
    ctx.check(all(np.array_equal(self_data[k], data[k]) for k in data),
              'augment-mutates', 'augmentation changed its input')
    ctx.count('augmented')

  def splits(self, ctx, plan, data):
    import jax
    key = jax.random.PRNGKey(plan['rng'] % 1000)
    n = len(data['dt'])

    def ids(d):
      x = np.asarray(d['dt']).reshape(-1)
      for k in data:
        v = np.asarray(d[k])
        ctx.check(len(v) == len(x), 'split-columns', f'{k} has another length')
        for j, t in enumerate(x):
          ctx.check(np.allclose(v[j], data[k][int(round(t)) - 1], atol=1e-5),
                    'split-rows', 'a split mixes columns of different examples')
      return [int(round(t)) for t in x]

    for f in (0.25, 0.5):
      a, b = ctx.must('split_dataset', self.du.split_dataset, data, key, f)
      ta, tb = ids(a), ids(b)
      ctx.check(sorted(ta + tb) == list(range(1, n + 1)) and len(tb) == int(
          n * f), 'split-partition', f'train {ta}, test {tb}')
    a, b = ctx.must('bootstrap_dataset', self.du.bootstrap_dataset, data, key)
    ta, tb = ids(a), ids(b)
    ctx.check(len(ta) == n and set(tb) == set(range(1, n + 1)) - set(ta)
              and len(tb) == len(set(tb)), 'bootstrap-partition',
              f'train {ta}, test {tb}')
    for boot, frac in ((True, 0.0), (False, 0.5), (False, 0.0)):
      tr, te = ctx.must('create_dataset_splits', self.lr.create_dataset_splits,
                        data, 3, key, bootstrap=boot, augment_data=False,
                        test_fraction=frac)
      sets = []
      for j in range(3):
        x = [int(round(t)) for t in np.asarray(tr['dt'][j]).reshape(-1)]
        y = [int(round(t)) for t in np.asarray(te['dt'][j]).reshape(-1)]
        sets.append(tuple(x))
        if boot or frac:
          ctx.check(not set(x) & set(y), 'split-leak',
                    f'model {j} is tested on its training data: {x} {y}')
        for d, ii in ((tr, x), (te, y)):
          for row, t in enumerate(ii):
            want = np.concatenate([data['context'][t - 1],
                                   data['position'][t - 1]])
            ctx.check(np.allclose(np.asarray(d['context'][j][row]), want,
                                  atol=1e-5)
                      and int(d['next_state'][j][row])
                      == int(data['next_state'][t - 1]), 'split-rows',
                      'a split mixes columns of different examples')
      if boot and n > 4:
        ctx.check(len(set(sets)) > 1, 'split-same', 'all models are trained on '
                  'the same bootstrap sample')
    ctx.count('splits')


CHECK = C23()
