"""C21: reconciling successive observations finds the drift and the atoms."""
import datetime as dt

import numpy as np

from sim import core
from sim import world


class C21(core.Check):
  id = 'C21'
  quick_runs = 160
  thorough_runs = 8000
  run_timeout = 120
  nontrivial_rule = (
      'a history of observations of one drifting sample (seen through a faulty '
      'detector), of resets and of shifts of the state, reconciled one after '
      'the other; non-trivial if the sample drifted or a fault fired.')
  state_measure = ('distinct (merging, accumulation, history length, position '
                   'in the history, detector fault) tuples')
  real = ['IterativeAlignmentFiltering', 'align_latest', 'naive_merge',
          'clique_merge', 'propagate_atomic_numbers', 'lattice classification',
          'simulator and material']
  stubs = ['detector faults']
  fault_kinds = ('drift', 'detector_lost_atoms', 'detector_extra_atom',
                 'detector_permuted', 'detector_jitter', 'detector_lost_silicon',
                 'reset', 'state_shifted')

  def load(self):
    self.m = world.mods()
    from putting_dune import alignment
    self.al = alignment

  def generate(self, rnd, tier):
    ops = []
    for _ in range(rnd.choice([2, 3, 4, 6, 9] if tier == 'quick'
                              else [3, 6, 12, 25])):
      k = rnd.choice(['observe'] * 8 + ['reset', 'shift'])
      op = {'op': k, 'a': rnd.random(), 'b': rnd.random(),
            'seed': rnd.randrange(999)}
      if k == 'observe':
        op['fault'] = rnd.choice(['ok'] * 5 + [
            'lost', 'extra', 'permute', 'jitter', 'lost_si', 'single'])
        op['hop'] = rnd.random() < 0.4
      ops.append(op)
    return {
        'ops': ops, 'rng': rnd.randrange(2**31),
        'history': rnd.choice([1, 2, 3, 10]),
        'iterations': rnd.choice([5, 20]),
        'clique': rnd.random() < 0.4, 'accumulate': rnd.random() < 0.4,
        'trim': rnd.choice([0.0, 0.0, 0.25]),
        'drift': rnd.choice([0.0, 0.2, 0.5]),
        'latest': rnd.random() < 0.5,
    }

  def make(self, plan):
    return self.al.IterativeAlignmentFiltering(
        history_length=plan['history'],
        alignment_iterations=plan['iterations'],
        noise_scale=0.0, max_shift=2.0, merge_cutoff=1.1,
        accumulate_merged=plan['accumulate'], clique_merging=plan['clique'],
        trim=plan['trim'])

  def execute(self, plan, ctx):
    m, mu = self.m, self.m.microscope_utils
    rng = np.random.default_rng(plan['rng'])
    mat = world.make_material(m, {'rates': {'kind': 'const',
                                            'rates': [.5, .5, .5]},
                                  'columns': 50})
    sim = m.simulator.PuttingDuneSimulator(mat)
    obs = sim.reset(rng)
    agent = self.make(plan)
    frame = np.zeros(2)    # where the state of the aligner sits
    noisy = False          # a noisy observation is part of the state
    seen = 0
    kept = []
    trace = []
    for n, op in enumerate(plan['ops']):
      r = np.random.default_rng(op['seed'])
      if op['op'] == 'reset':
        agent.reset()
        frame, noisy, seen = np.zeros(2), False, 0
        ctx.fault('reset')
        continue
      if op['op'] == 'shift':
        v = np.array([op['a'] - .5, op['b'] - .5]) * 2
        ctx.must('apply_shift', agent.apply_shift, v)
        if seen:
          frame = frame + v
        ctx.fault('state_shifted')
        continue
      if op['hop']:
        g = obs.grid
        p = np.asarray(g.atom_positions)[world.si_index(g)[0]]
        c = mu.BeamControl(m.geometry.Point(*(p + 0.05 * (r.random(2) - .5))),
                           dt.timedelta(seconds=1.5), 60.0, 0.1)
        obs = sim.step_and_image(rng, [c])
        ctx.simtime(obs.elapsed_time.total_seconds())
      g = obs.fov.microscope_frame_to_material_frame(obs.grid)
      pos = np.array(g.atom_positions, dtype=float)
      num = np.array(g.atomic_numbers)
      off = np.zeros(2)
      if plan['drift']:
        off = (np.array([op['a'], op['b']]) * 2 - 1) * plan['drift']
        ctx.fault('drift')
      f = op['fault']
      noise = 0.0
      if f == 'lost':
        keep = r.random(len(num)) > 0.05
        keep |= num == world.SI
        pos, num = pos[keep], num[keep]
        ctx.fault('detector_lost_atoms')
      elif f == 'single':
        k = r.integers(len(num))
        if num[k] != world.SI:
          pos, num = np.delete(pos, k, 0), np.delete(num, k)
        ctx.fault('detector_lost_atoms')
      elif f == 'permute':
        q = r.permutation(len(num))
        pos, num = pos[q], num[q]
        ctx.fault('detector_permuted')
      elif f == 'jitter':
        noise = 0.06
        pos = pos + r.uniform(-noise, noise, pos.shape)
        ctx.fault('detector_jitter')
      elif f == 'lost_si':
        num[:] = world.C
        ctx.fault('detector_lost_silicon')
      true = pos.copy()
      if f == 'extra':
        # A spurious atom in the middle of a hexagon.
        d = np.linalg.norm(pos - pos.mean(0), axis=1)
        i = int(d.argmin())
        e = pos[i] + (pos[i] - pos[np.argsort(
            np.linalg.norm(pos - pos[i], axis=1))[1]])
        pos, num = np.vstack([pos, e]), np.append(num, world.C)
        ctx.fault('detector_extra_atom')
      given = pos + off + frame
      arr, nums = given.copy(), num.copy()
      grid = mu.AtomicGridMaterialFrame(mu.AtomicGrid(arr, nums))
      with core.quiet():
        out, drift = ctx.must('alignment', agent, grid)
      kept.append((n, arr, nums, given, num.copy()))
      what = f'observation {n} (detector {f}, {seen} before it)'
      if seen == 0:
        # The first observation defines the frame.
        frame, expect = off.copy(), np.zeros(2)
      else:
        expect = off
      # Noise and many missing atoms make the lattice classification, hence the estimate, unreliable
      # in some orientations: only sanity is asked for after it.
      noisy = noisy or noise > 0 or f == 'lost'
      tol = 0.12 + (0.03 * seen if plan['history'] < 10 else 0)
      drift = np.asarray(drift, dtype=float).reshape(-1)
      ctx.check(drift.shape == (2,) and np.linalg.norm(drift) <= 2 + 1e-6,
                'drift', f'{what}: reported {drift}')
      # The lattice classification behind the estimate misjudges a few atoms
      # once in a while; gross errors are never right, fine ones are counted.
      err = float(np.abs(drift - expect).max())
      if not noisy:
        ctx.check(err <= 0.7, 'drift', f'{what} drifted by {expect}, reported '
                  f'{drift}')
        ctx.count('exact_steps')
        if err <= tol:
          ctx.count('fine_steps')
      self.grid(ctx, what, true + frame, num[:len(true)],
                np.asarray(out.atom_positions, dtype=float),
                np.asarray(out.atomic_numbers),
                tol + 0.15, noisy or err > tol)
      seen += 1
      ctx.check(len(agent.recent_observations) <= plan['history'],
                'history-length', f'the state holds '
                f'{len(agent.recent_observations)} observations')
      # What the caller handed over, now or earlier, stays as it was.
      for k, a, b, a0, b0 in kept:
        ctx.check(np.array_equal(a, a0) and np.array_equal(b, b0),
                  'input-mutated', f'{what} changed the caller\'s observation '
                  f'{k}')
      ctx.state(plan['clique'], plan['accumulate'], plan['history'],
                min(seen, 4), f)
      trace.append((drift.round(3), len(out.atomic_numbers)))
    ctx.nontrivial = bool(ctx.faults)
    ctx.log('trace', [t[0] for t in trace])
    if plan['latest'] and len(kept) > 1:
      self.latest(ctx, plan, kept)

  def finalize(self, outs):
    n = sum(o['counts'].get('exact_steps', 0) for o in outs)
    k = sum(o['counts'].get('fine_steps', 0) for o in outs)
    if n >= 100 and k < 0.95 * n:
      return [('drift-precision', f'only {k} of {n} clean observations had '
               'their drift estimated to 0.12 Å')]
    return []

  def grid(self, ctx, what, pos, num, got, gnum, tol, noisy):
    if noisy:
      return
    want = int((num == world.SI).sum())
    si = np.flatnonzero(gnum == world.SI)
    ctx.check(len(si) == want, 'silicon-count', f'{what}: {want} silicon seen, '
              f'{len(si)} in the reconciled grid')
    d = np.linalg.norm(pos[:, None] - got[None], axis=-1)
    near = d.min(1)
    ctx.check(near.max() <= tol, 'atom-lost', f'{what}: the atom at '
              f'{pos[near.argmax()]} is {near.max():.2f} Å from any atom of '
              'the reconciled grid')
    hits = (d <= tol).sum(1)
    ctx.check(hits.max() <= 1, 'atom-doubled', f'{what}: the atom at '
              f'{pos[hits.argmax()]} appears {hits.max()} times')
    if want == 1:
      p = pos[np.flatnonzero(num == world.SI)[0]]
      ctx.check(np.linalg.norm(got[si[0]] - p) <= tol, 'silicon-place',
                f'{what}: silicon at {p}, reconciled at {got[si[0]]}')

  def latest(self, ctx, plan, kept):
    """align_latest answers the same, whatever it was asked before."""
    _, a, _, _, _ = kept[0]
    ref = a.copy()
    zeros = np.zeros(len(ref), dtype=int)
    answers = []
    shifts = [np.array([0.3, -0.2]), np.array([-0.25, 0.1]),
              np.array([0.3, -0.2])]
    for s in shifts:
      init = np.zeros(2)
      with core.quiet():
        x = ctx.must('align_latest', self.al.align_latest, ref + s, ref, zeros,
                     zeros, 1)
        y = ctx.must('align_latest', self.al.align_latest, ref + s, ref, zeros,
                     zeros, 1, init_shift=init)
      ctx.check(not init.any(), 'input-mutated',
                f'align_latest changed its caller\'s initial shift to {init}')
      ctx.check(np.abs(np.asarray(x) - np.asarray(y)).max() < 1e-9,
                'history-dependent', f'aligning a shift of {s} answered {x} '
                f'and, told to start from zero, {y}')
      answers.append(np.array(x))
    ctx.check(np.abs(answers[0] - answers[2]).max() < 1e-9, 'history-dependent',
              f'the same question was answered {answers[0]} and {answers[2]}')
    ctx.check(np.abs(answers[0] + shifts[0]).max() < 0.02, 'drift',
              f'a shift of {shifts[0]} was answered by {answers[0]}')
    before = [x[1].copy() for x in kept[:3]]
    arrs = [x.copy() for x in before]
    ctx.must('naive_merge', self.al.naive_merge, arrs, 1.1)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(before, arrs)),
              'input-mutated', 'merging changed the merged coordinates')


CHECK = C21()
