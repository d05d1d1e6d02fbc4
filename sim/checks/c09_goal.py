"""C09: goal semantics of single-silicon goal reaching."""
import math

import numpy as np

from sim import core
from sim import world

GAMMA = 0.9967


class C09(core.Check):
  id = 'C09'
  quick_runs = 320
  thorough_runs = 10000
  nontrivial_rule = (
      'a seeded multi-episode history (random, aimed and away actions; goal '
      'ranges from one bond to the whole view; failed resets; crashes in the '
      'middle of steps); non-trivial if the silicon moved or a fault fired.')
  state_measure = ('distinct (goal distance in half bonds capped at 20, '
                   'terminal or not, re-centred or not)')
  real = ['SingleSiliconGoalReaching', 'PuttingDuneEnvironment', 'simulator',
          'material', 'adapters', 'feature constructors']
  stubs = ['part of the runs: rates chosen by the plan',
           'rate-function crash injector', 'detector faults in synthetic '
           'observations']
  fault_kinds = ('reset_no_valid_goal', 'step_crash', 'detector_lost_silicon',
                 'detector_extra_silicon', 'detector_displaced')

  def load(self):
    self.m = world.mods()

  def generate(self, rnd, tier):
    env = world.gen_env(rnd, image_p=0.0,
                        adapters=('direct', 'rel', 'rel_mat', 'rel_mat'),
                        rates=('simple', 'const', 'gmm'))
    g = rnd.random()
    far = rnd.random() < 0.3
    if far:
      # The silicon has to be walked across the view, which re-centres.
      env['goal_range'] = rnd.choice([[6.0, 9.0], [8.0, 14.0]])
      env['rates'] = {'kind': 'simple'}
    elif g < 0.5:
      env['goal_range'] = [1.0, rnd.choice([1.6, 3.0])]
      env['rates'] = rnd.choice([
          {'kind': 'simple'}, {'kind': 'const', 'rates': [1.0, 1.0, 1.0]},
          {'kind': 'const', 'rates': [0.1, 0.2, 0.1]}])
    elif g < 0.6:
      env['goal_range'] = rnd.choice([[1.5, 2.0], [40.0, 50.0], [0.0, 1.0],
                                      [12.0, 14.0]])
    elif g < 0.8:
      env['goal_range'] = [0.1, 50.0]
    ops = []
    for _ in range(rnd.randrange(6, 60 if tier == 'quick' else 140)):
      r = rnd.random()
      if r < 0.10:
        ops.append({'op': 'reset'})
      elif r < 0.14:
        ops.append({'op': 'crash'})
      elif r < 0.17:
        ops.append({'op': 'displaced', 'bonds': rnd.choice(
            [0.0, 0.25, 0.45, 0.48, 0.52, 0.55, 0.7, 1.5, 4.0]),
                    'angle': rnd.uniform(0, 6.28),
                    'seconds': rnd.choice([0.1, 2.0, 5.5, 60.0]),
                    'fov': [rnd.uniform(0.5, 2.0), rnd.uniform(-9, 9),
                            rnd.uniform(-9, 9)]})
      elif r < 0.21:
        ops.append({'op': 'synthetic', 'n': rnd.choice([0, 2, 3])})
      else:
        ops.append({'op': 'step',
                    'mode': 'toward' if far else rnd.choice(
                        ['uniform', 'toward', 'toward'])})
    return {'env': env, 'rng': rnd.randrange(2**31), 'ops': ops}

  def execute(self, plan, ctx):
    m = self.m
    mat = world.make_material(m, plan['env'], failing=[])
    rf = mat.verif_rates
    env = world.make_env(m, plan['env'], material=mat)
    env.seed(plan['rng'])
    r = np.random.default_rng(plan['rng'] + 3)
    r2 = np.random.default_rng(plan['rng'] + 4)
    lo, hi = plan['env'].get('goal_range', (0.1, 50.0))
    st = {'on': False, 'goal': None, 'need': True}

    def si_true():
      return np.asarray(mat.get_silicon_position(), dtype=float).reshape(2)

    def candidates(obs):
      fov = obs.fov
      ll = np.array([fov.lower_left.x, fov.lower_left.y])
      sz = np.array([fov.width, fov.height])
      p = np.asarray(obs.grid.atom_positions) * sz + ll
      i = world.si_index(obs.grid)[0]
      d = np.linalg.norm(p - p[i], axis=1)
      return p, d, i

    def ranks(p, d, j):
      """Ranks of the chosen atom among the eligible: uniform when pooled."""
      ok = np.flatnonzero((d > lo) & (d < hi))
      if len(ok) < 30:
        return
      ctx.count('rank_n')
      for name, key in (('distance', d), ('x', p[:, 0]), ('y', p[:, 1]),
                        ('index', np.arange(len(p), dtype=float))):
        v = key[ok]
        w = float(((v < key[j] - 1e-6).sum() + (v < key[j] + 1e-6).sum())
                  / 2 / len(v))
        ctx.count(f'rank_{name}_milli', int(round(w * 1000)))
        ctx.count(f'rank_{name}_spread_milli',
                  int(round((w - .5) ** 2 * 12000)))

    def reset(step=False):
      try:
        ts = ctx.must('reset', env.step if step else env.reset,
                      *([world.sample_action(env.action_spec(), r, 'uniform')]
                        if step else []))
      except core.Violation as v:
        if 'RuntimeError' not in v.sig:
          raise
        # Only allowed when no visible atom lies in the range.
        st['on'] = False
        st['need'] = True
        obs = env.last_microscope_observation
        p, d, i = candidates(obs)
        sure = (d > lo + 1e-6) & (d < hi - 1e-6)
        ctx.check(int(sure.sum()) == 0, 'goal-refused',
                  f'reset failed with {int(sure.sum())} eligible goal atoms: '
                  + v.msg)
        ctx.fault('reset_no_valid_goal')
        return
      obs = env.last_microscope_observation
      goal = np.asarray(env.goal.goal_position_material_frame,
                        dtype=float).reshape(2)
      cg = env.goal.current_goal
      ctx.check(abs(cg.x - goal[0]) < 1e-9 and abs(cg.y - goal[1]) < 1e-9,
                'goal-point', 'current_goal is not the goal position')
      p, d, i = candidates(obs)
      dist = np.linalg.norm(p - goal, axis=1)
      j = int(dist.argmin())
      ctx.check(dist[j] < 1e-4, 'goal-not-an-atom',
                f'goal {goal} is {dist[j]:.3f} A from the nearest visible atom')
      full = np.asarray(mat.grid.atom_positions)
      ctx.check(np.linalg.norm(full - goal, axis=1).min() < 1e-4,
                'goal-not-an-atom', 'goal is not an atom of the material')
      ctx.check(j != i, 'goal-is-silicon', 'the goal is where the silicon is')
      ctx.check(lo - 1e-6 < d[j] < hi + 1e-6, 'goal-range',
                f'goal {d[j]:.3f} A away, range ({lo}, {hi})')
      n = int(((d > lo) & (d < hi)).sum())
      ranks(p, d, j)
      # More goals from the same picture, with a stream of their own.
      g2 = m.goals.SingleSiliconGoalReaching()
      g2.goal_range_angstroms = tuple(env.goal.goal_range_angstroms)
      for _ in range(12):
        ctx.must('goal reset', g2.reset, r2, obs)
        dist = np.linalg.norm(p - np.asarray(
            g2.goal_position_material_frame, dtype=float).reshape(2), axis=1)
        j = int(dist.argmin())
        ctx.check(dist[j] < 1e-4 and lo - 1e-6 < d[j] < hi + 1e-6,
                  'goal-range', 'a goal that is no atom in the range')
        ranks(p, d, j)
      st.update(on=True, goal=goal.copy(), need=False,
                fov0=world.enc_fov(obs.fov))
      ctx.log('reset', goal, n)

    def fixed_goal(what):
      g = np.asarray(env.goal.goal_position_material_frame).reshape(2)
      ctx.check(bool(np.all(g == st['goal'])), 'goal-moved',
                f'the goal moved during the episode ({what})')

    def action(mode):
      a = world.sample_action(env.action_spec(), r, 'uniform')
      k = plan['env']['adapter']['kind']
      if mode != 'toward':
        return a
      pos = np.asarray(mat.grid.atom_positions)
      si = si_true()
      nb = sorted(world.three_nearest(
          pos, int(np.argmin(np.linalg.norm(pos - si, axis=1)))))
      t = pos[min(nb, key=lambda q: np.linalg.norm(pos[q] - st['goal']))]
      if k == 'rel_mat':
        a[:2] = t - si
      elif k == 'rel':
        a[:2] = (t - si) / plan['env']['adapter']['max_dist']
      else:
        f = env.last_microscope_observation.fov
        a[:2] = (t - np.array([f.lower_left.x, f.lower_left.y])) / np.array(
            [f.width, f.height])
      return a

    reset()
    for op in plan['ops']:
      k = op['op']
      if k == 'reset':
        reset()
        continue
      if not st['on']:
        continue
      if k == 'crash':
        if st['need']:
          continue
        rf.fail_at = {rf.calls + 1}
        try:
          env.step(action('uniform'))
        except core.InjectedFault:
          ctx.fault('step_crash')
          fixed_goal('crashed step')
          st['on'] = False  # The user resets after a failed step.
          reset()
        else:
          rf.fail_at = set()
          st['on'] = False
          reset()
        rf.fail_at = set()
        continue
      if k == 'synthetic':
        self.synthetic(ctx, env, op['n'], st)
        continue
      if k == 'displaced':
        self.displaced(ctx, env, op, st)
        continue
      if st['need']:
        reset(step=True)
        continue
      before = si_true()
      fov0 = env.last_microscope_observation.fov
      ts = ctx.must('step', env.step, action(op['mode']))
      obs = env.last_microscope_observation
      ctx.simtime(obs.elapsed_time.total_seconds())
      fixed_goal('step')
      dist = float(np.linalg.norm(si_true() - st['goal']))
      if np.linalg.norm(si_true() - before) > 0.1:
        ctx.nontrivial = True
      at_goal = dist < world.BOND / 2
      terminal = ts.step_type == 2 and ts.discount == 0.0
      ctx.check(terminal == at_goal, 'terminal',
                f'silicon {dist:.3f} A from the goal; terminal={terminal}')
      el = obs.elapsed_time.total_seconds()
      want = GAMMA ** el if at_goal else 0.0
      ctx.check(world.close(float(ts.reward), want, 1e-6), 'reward',
                f'reward {ts.reward}, expected {want} (silicon {dist:.3f} A '
                f'from the goal, {el}s)')
      ctx.check(ts.step_type != 2 or terminal, 'spurious-last',
                'the episode ended without reaching the goal')
      if terminal:
        ctx.count('goals_reached')
        if world.enc_fov(obs.fov) != st['fov0']:
          ctx.count('goals_reached_in_another_view')
        st['need'] = True
      o = np.asarray(ts.observation, dtype=float)
      delta = st['goal'] - si_true()
      ctx.check(np.allclose(o[-2:], delta, atol=1e-3), 'goal-delta',
                f'the agent is told the goal is at {o[-2:]} A, it is at {delta}')
      moved = fov0.lower_left.x != obs.fov.lower_left.x
      ctx.state(min(20, int(dist / 0.71)), terminal, moved)
      ctx.log('step', dist, terminal, float(ts.reward))

  def synthetic(self, ctx, env, n, st):
    """A detector that loses the silicon or reports several."""
    m = self.m
    obs = env.last_microscope_observation
    pos = np.array(obs.grid.atom_positions, copy=True)
    num = np.full(len(pos), world.C)
    if n:
      # The first of the extras sits nearest the centre of the view.
      c = np.argsort(np.linalg.norm(pos - 0.5, axis=1), kind='stable')
      num[c[:n]] = world.SI
    import dataclasses
    o = dataclasses.replace(obs, grid=m.microscope_utils.AtomicGrid(pos, num))
    goal = m.goals.SingleSiliconGoalReaching()
    goal.goal_position_material_frame = np.asarray(
        env.goal.goal_position_material_frame)
    if n == 0:
      ctx.fault('detector_lost_silicon')
      for fn in (lambda: goal.calculate_reward_and_terminal(o),
                 lambda: goal.reset(np.random.default_rng(0), o)):
        try:
          fn()
        except m.graphene.SiliconNotFoundError:
          continue
        ctx.violate('silicon-not-found', 'no error without a silicon atom')
      return
    ctx.fault('detector_extra_silicon')
    c = pos[np.argsort(np.linalg.norm(pos - 0.5, axis=1), kind='stable')[0]]
    f = obs.fov
    true = c * np.array([f.width, f.height]) + np.array(
        [f.lower_left.x, f.lower_left.y])
    g = ctx.must('goal with extra silicon', goal.calculate_reward_and_terminal,
                 o)
    d = float(np.linalg.norm(
        true - np.asarray(goal.goal_position_material_frame).reshape(2)))
    ctx.check(g.is_terminal == (d < world.BOND / 2), 'extra-silicon',
              f'with {n} silicon atoms reported the one nearest the centre '
              f'({d:.3f} A from the goal) must decide; terminal='
              f'{g.is_terminal}')

  def displaced(self, ctx, env, op, st):
    """A detector that is off, seen through another field of view."""
    m = self.m
    obs = env.last_microscope_observation
    i = world.si_index(obs.grid)[0]
    f = obs.fov
    ll, sz = np.array([f.lower_left.x, f.lower_left.y]), np.array(
        [f.width, f.height])
    pos = np.asarray(obs.grid.atom_positions) * sz + ll
    d = op['bonds'] * world.BOND
    pos[i] = st['goal'] + d * np.array(
        [np.cos(op['angle']), np.sin(op['angle'])])
    scale, dx, dy = op['fov']
    ll, sz = ll + np.array([dx, dy]), sz * scale
    mu, ge = m.microscope_utils, m.geometry
    fov = mu.MicroscopeFieldOfView(
        ge.PointMaterialFrame(ge.Point(float(ll[0]), float(ll[1]))),
        ge.PointMaterialFrame(ge.Point(*(float(v) for v in ll + sz))))
    import dataclasses
    import datetime as dt
    o = dataclasses.replace(
        obs, fov=fov, elapsed_time=dt.timedelta(seconds=op['seconds']),
        grid=mu.AtomicGridMicroscopeFrame(mu.AtomicGrid(
            (pos - ll) / sz, np.array(obs.grid.atomic_numbers))))
    goal = m.goals.SingleSiliconGoalReaching()
    goal.goal_position_material_frame = st['goal'].copy()
    ctx.fault('detector_displaced')
    g = ctx.must('goal, displaced', goal.calculate_reward_and_terminal, o)
    at = op['bonds'] < 0.5
    ctx.check(bool(g.is_terminal) == at and not g.is_truncated, 'terminal',
              f'silicon seen {op["bonds"]} bonds from the goal; terminal='
              f'{g.is_terminal}, truncated={g.is_truncated}')
    want = GAMMA ** op['seconds'] if at else 0.0
    ctx.check(world.close(float(g.reward), want, 1e-6), 'reward',
              f'reward {g.reward} after {op["seconds"]}s with the silicon '
              f'{op["bonds"]} bonds from the goal, expected {want}')

  def finalize(self, outs):
    """Goals are sampled uniformly over the eligible atoms (pooled)."""
    total = lambda k: sum(o['counts'].get(k, 0) for o in outs)
    n = total('rank_n')
    if n < 200:
      return []
    for name in ('distance', 'x', 'y', 'index'):
      m1 = total(f'rank_{name}_milli') / 1000.0 / n
      # The mean of 12 (u - 1/2)^2 is 1 and its variance 144 / 180.
      m2 = total(f'rank_{name}_spread_milli') / 1000.0 / n
      z1 = (m1 - 0.5) * math.sqrt(12.0 * n)
      z2 = (m2 - 1.0) / math.sqrt(0.8 / n)
      # Atoms at the same distance make the spread a little smaller.
      if abs(z1) > 6 or (abs(z2) > 6 and abs(m2 - 1.0) > 0.06):
        return [('goal-sampling', f'over {n} goals the chosen one has mean '
                 f'{name} rank {m1:.3f} (z={z1:.1f}) and {m2:.3f} of the '
                 f'spread (z={z2:.1f}) of uniform sampling')]
    return []


CHECK = C09()
