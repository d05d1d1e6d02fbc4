"""C28: a greedy agent finds its aim and brings the silicon to its goal."""
import dataclasses
import datetime as dt
import math

import dm_env
import numpy as np
import scipy.linalg

from sim import core
from sim import physics
from sim import world

B = world.BOND
NBS = B * np.array([[1.0, 0.0], [-.5, 3 ** .5 / 2], [-.5, -3 ** .5 / 2]])
LOST = 1e-11  # An episode this unlikely to last so long has no progress.


def sheet(radius):
  """A pristine sheet; atom 0 is at the origin with a neighbour along +x."""
  out = []
  n = int(radius / B) + 3
  for i in range(-n, n + 1):
    for j in range(-n, n + 1):
      for o in (0.0, B):
        p = (1.5 * B * (i + j) + o, 3 ** .5 / 2 * B * (i - j))
        if math.hypot(*p) <= radius:
          out.append(p)
  out.sort(key=lambda p: (round(math.hypot(*p), 6), p))
  return np.array(out)


class C28(core.Check):
  id = 'C28'
  quick_runs = 240
  thorough_runs = 8000
  run_timeout = 120
  nontrivial_rule = (
      'several episodes of a greedy agent with one rate model, in the '
      'environment or live behind a detector that loses the silicon, with '
      'crashing exposures, resets and interleaved agents; the steps to the '
      'goal are compared with the exact distribution for the reference policy '
      'and physics. Non-trivial if a goal was reached or a fault fired.')
  state_measure = ('distinct (rates, way to the aim, loop, goal distance in '
                   'bonds, steps needed capped at 12) tuples')
  real = ['GreedyAgent', 'MicroscopeAgent', 'PuttingDuneEnvironment',
          'RelativeToSiliconMaterialFrameActionAdapter',
          'SingleSiliconMaterialFrameFeatureConstructor',
          'SingleSiliconGoalReaching', 'simulator', 'rate functions']
  stubs = ['the detector in live runs', 'transition functions given to the '
           'agent (the documented formulas, in the harness)']
  fault_kinds = ('silicon_lost', 'atoms_permuted', 'rate_function_crash',
                 'transition_function_failed', 'reset_midway',
                 'interleaved_agent')

  def load(self):
    self.m = world.mods()
    from putting_dune import microscope_agent
    from putting_dune.agents import agent_lib
    from putting_dune.experiments import experiments
    self.lib, self.ma, self.exp = agent_lib, microscope_agent, experiments
    self.kernels = {}

  def generate(self, rnd, tier):
    kind = rnd.choice(['simple', 'simple', 'human', 'gmm'])
    rates = {'kind': kind}
    if kind == 'gmm':
      rates['seed'] = rnd.randrange(10**6)
    if kind == 'human':
      rates['max_rate'] = rnd.choice([0.23, 1.0])
    d = rnd.choice([0.5, 1.5, 5.0])
    lo = rnd.choice([0.5, 1.0, 2.0])
    p = {'rng': rnd.randrange(2**31), 'agent_seed': rnd.randrange(2**31),
         'env': {'rates': rates, 'columns': rnd.choice([50, 50, 40]),
                 'adapter': {'kind': 'rel_mat', 'dwell': [d, d],
                             'max_dist': 4.26},
                 'features': 'material', 'image_s': rnd.choice([0.5, 2.0]),
                 'goal_range': [lo, lo + rnd.choice([1.5, 4.0, 6.0])]},
         'via': rnd.choice(['env', 'env', 'live']),
         'aim': rnd.choice(['function', 'function', 'argmax', 'offset',
                            'default']),
         'resolution': rnd.choice([0.05, 0.05, 0.1, 0.2]),
         'bounds': rnd.choice(['scalar', 'scalar', 'axes', 'narrow']),
         'fail': rnd.random() < 0.2, 'noise': 0.0,
         'episodes': rnd.choice([2, 4, 8])}
    if rnd.random() < 0.25:
      p['noise'] = rnd.choice([0.05, 0.3])
    if p['bounds'] == 'narrow':
      p['resolution'] = rnd.choice([0.02, 0.1])
    p['other'] = rnd.random() < 0.3
    p['lost'] = rnd.choice([0.0, 0.2, 0.5]) if p['via'] == 'live' else 0.0
    p['permute'] = p['via'] == 'live' and rnd.random() < 0.5
    p['crash'] = rnd.choice([0.0, 0.0, 0.03])
    p['reset'] = rnd.choice([0.0, 0.0, 0.03])
    return p

  # ----------------------------------------------------------- reference ----
  def reference(self, plan):
    r = plan['env']['rates']
    if r['kind'] == 'simple':
      return physics.simple
    if r['kind'] == 'human':
      return lambda *a: physics.human(*a, max_rate=r['max_rate'])
    f = self.m.graphene.GaussianMixtureRateFunction.sample_new(
        np.random.default_rng(r['seed']))
    p = (float(f.max_rate), np.asarray(f.mixture_weights, float),
         np.asarray(f.loc_distances, float), np.asarray(f.variances, float))
    return lambda *a: physics.gmm(p, *a)

  def kernel(self, ref, aim, dwell):
    """Where an exposure leaves the silicon: patch positions, probabilities."""
    pos = sheet(11.0)
    n = len(pos)
    d = np.linalg.norm(pos[:, None] - pos[None], axis=-1)
    nbs = [[j for j in np.argsort(d[i])[1:4] if d[i, j] < 1.2 * B]
           for i in range(n)]
    q = np.zeros((n, n))
    for i in range(n):
      if len(nbs[i]) == 3:
        r = ref(pos[i], pos[nbs[i]], aim)
        q[i, nbs[i]] = r
        q[i, i] = -r.sum()
    row = scipy.linalg.expm(q * dwell)[0]
    keep = row > 1e-15
    return pos[keep], row[keep]

  def chain(self, pos, goal, kernel):
    """Transition matrix of the reference policy on the sheet around goal."""
    g = np.linalg.norm(pos - goal, axis=1)
    ids = np.flatnonzero(g < 20.0)
    pos = pos[ids]
    n = len(pos)
    d = np.linalg.norm(pos[:, None] - pos[None], axis=-1)
    g = g[ids]
    gi = int(g.argmin())
    if g[gi] > 1e-3:
      return None
    import scipy.spatial
    tree = scipy.spatial.cKDTree(pos)
    rows = np.zeros((n, n))
    kp, kw = kernel
    for s in range(n):
      if s == gi:
        rows[s, s] = 1.0
        continue
      nb = [j for j in np.argsort(d[s])[1:4] if d[s, j] < 1.2 * B]
      if len(nb) < 3:
        rows[s, s] = 1.0
        continue
      k = nb[int(np.argmin(np.round(g[nb], 5)))]
      e = physics.unit(pos[k] - pos[s])
      at = pos[s] + kp @ np.array([e, [-e[1], e[0]]])
      dist, j = tree.query(at)
      ok = dist < 0.2
      np.add.at(rows[s], j[ok], kw[ok])
      rows[s, s] += 1.0 - rows[s].sum()
    return ids, rows, gi

  # --------------------------------------------------------------- agents ----
  def make_agent(self, plan, ctx, ref, rng):
    kw = {'rng': rng, 'position_noise_sigma': plan['noise']}
    lo, hi = -4.26, 4.26
    if plan['bounds'] == 'axes':
      lo, hi = np.array([-2.0, -4.26]), np.array([4.26, 3.0])
    elif plan['bounds'] == 'narrow':
      lo, hi = np.array([0.2, -0.8]), np.array([2.2, 0.8])
    f = lambda x: ref(np.zeros(2), NBS, np.asarray(x, float))
    how = plan['aim']
    if how == 'function':
      if plan['fail']:
        n = [0]

        def failing(x):
          n[0] += 1
          if n[0] == 40:
            raise core.InjectedFault('transition function')
          return f(x)
        try:
          self.lib.GreedyAgent(transition_function=failing, low=lo, high=hi,
                               **kw)
        except core.InjectedFault:
          ctx.fault('transition_function_failed')
      a = ctx.must('GreedyAgent', self.lib.GreedyAgent, transition_function=f,
                   argmax_resolution=plan['resolution'], low=lo, high=hi, **kw)
    elif how == 'argmax':
      a = ctx.must('GreedyAgent', self.lib.GreedyAgent,
                   argmax=np.array([1.1, 0.0]), **kw)
    elif how == 'offset':
      a = ctx.must('GreedyAgent', self.lib.GreedyAgent,
                   argmax=np.array([1.0, 0.3]),
                   fixed_offset=np.array([0.3, -0.3]), low=lo, high=hi, **kw)
    else:
      a = ctx.must('GreedyAgent', self.lib.GreedyAgent, **kw)
    return a, f, np.broadcast_to(lo, 2), np.broadcast_to(hi, 2)

  def aim_of(self, ctx, plan, ref):
    """The aim of a noiseless agent like this one, judged."""
    quiet = dict(plan, noise=0.0, fail=False)
    agent, f, lo, hi = self.make_agent(quiet, ctx, ref,
                                       np.random.default_rng(0))
    obs = np.concatenate([[0, 0], NBS.reshape(-1), 3 * NBS[0]]).astype(
        np.float32)
    aim = np.asarray(ctx.must('step', agent.step, dm_env.restart(obs)), float)
    how = plan['aim']
    if how == 'function':
      # No worse than anything within a cell of the best point there is.
      xs, ys = (np.linspace(lo[i], hi[i], 70) for i in range(2))
      v = np.array([[f(np.array([x, y]))[0] for x in xs] for y in ys])
      j, i = np.unravel_index(v.argmax(), v.shape)
      best = np.array([xs[i], ys[j]])
      for step in (0.06, 0.03, 0.01, 0.003):
        for _ in range(30):
          c = [np.clip(best + step * np.array(o), lo, hi)
               for o in ((1, 0), (-1, 0), (0, 1), (0, -1))]
          k = max(c, key=lambda x: f(x)[0])
          if f(k)[0] <= f(best)[0]:
            break
          best = k
      reach = 0.75 * plan['resolution'] * 1.1
      ring = [f(best + reach * np.array([math.cos(t), math.sin(t)]))[0]
              for t in np.linspace(0, 2 * math.pi, 24)]
      got, want = f(aim)[0], min(ring)
      ctx.check(got >= want * (1 - 1e-5) - 1e-9, 'aim', f'the agent aims at '
                f'{np.round(aim, 3)}, rate {got:.5f}; {np.round(best, 3)} has '
                f'{f(best)[0]:.5f} (search resolution {plan["resolution"]})')
      ctx.check(bool(np.all(aim >= lo - 1e-5) and np.all(aim <= hi + 1e-5)),
                'aim-bounds', f'{aim} is outside {lo} {hi}')
    else:
      want = {'argmax': (1.1, 0.0), 'offset': (1.3, 0.0),
              'default': (1.42, 0.0)}[how]
      ctx.check(np.allclose(aim, want, atol=1e-4), 'aim',
                f'the agent aims at {aim}, it was told {want}')
    return aim

  # ------------------------------------------------------------------ run ----
  def execute(self, plan, ctx):
    ref = self.reference(plan)
    aim = self.aim_of(ctx, plan, ref)
    dwell = plan['env']['adapter']['dwell'][0]
    kernel = self.kernel(ref, aim, dwell)
    agent, _, _, _ = self.make_agent(
        plan, ctx, ref, np.random.default_rng(plan['agent_seed']))
    s = (Live if plan['via'] == 'live' else Env)(self, plan, ctx, agent)
    r = np.random.default_rng(plan['rng'] + 5)
    other = None
    if plan['other']:
      other = self.lib.GreedyAgent(rng=np.random.default_rng(1),
                                   position_noise_sigma=0.2,
                                   argmax=np.array([0.4, 0.9]))
    # Off the axis, ties between neighbours are not symmetric.
    exact = plan['noise'] == 0 and abs(aim[1]) < 0.06
    for _ in range(plan['episodes']):
      if not s.reset():
        continue
      pos = np.array(s.mat.grid.atom_positions, float)
      goal = s.goal_position()
      c = self.chain(pos, goal, kernel)
      if c is None:
        continue
      ids, rows, gi = c
      start = int(world.si_index(s.mat.grid)[0])
      where = {int(a): k for k, a in enumerate(ids)}
      dist = np.zeros(len(ids))
      dist[where[start]] = 1.0
      before, now, steps, done = 0.0, 0.0, 0, False
      d0 = float(np.linalg.norm(pos[start] - goal))
      while True:
        if other is not None and r.random() < 0.3:
          other.step(dm_env.restart(r.normal(size=10).astype(np.float32)))
          ctx.fault('interleaved_agent')
        if plan['reset'] and r.random() < plan['reset']:
          ctx.fault('reset_midway')
          break
        out = s.step(r, aim)
        if out == 'lost':
          continue
        if out == 'crashed':
          break
        steps += 1
        dist = dist @ rows
        now = float(dist[gi])
        if out == 'goal':
          done = True
          break
        limit = LOST if exact else LOST / 1e4
        if (exact or plan['noise'] <= 0.05) and 1.0 - now < limit:
          ctx.check(False, 'no-progress', f'after {steps} exposures of {dwell}s '
                    f'the silicon, {d0:.1f} A from its goal at first, has not '
                    f'got there (probability {1 - now:.1g})')
        if steps > 400:
          ctx.count('episodes_given_up')
          break
        before = now
      if done:
        ctx.nontrivial = True
        ctx.count('goals_reached')
        ctx.state(plan['env']['rates']['kind'], plan['aim'], plan['via'],
                  int(d0 / B + .5), min(steps, 12))
        ctx.log('goal', steps, round(now, 9))
      if exact:
        # Where the episode falls in the reference distribution; one cut short
        # falls anywhere in what was left of it.
        u = (before + r.random() * (now - before) if done
             else now + r.random() * (1 - now))
        ctx.check(not done or now > 1e-11, 'too-fast', f'the silicon was '
                  f'{d0:.1f} A away and reached its goal in {steps} exposures '
                  f'(probability {now:.1g})')
        g = 'fast' if d0 < 1.1 * B else 'far'
        for name in ('', '_' + g):
          ctx.count(f'u{name}_n')
          ctx.count(f'u{name}_milli', int(round(1000 * u)))
          ctx.count(f'u{name}_spread_milli', int(round(12000 * (u - .5) ** 2)))
      dist = None

  def judge_action(self, ctx, plan, action, aim, si, nbs, goal):
    """The action is the aim, turned to the neighbour nearest the goal."""
    d = np.linalg.norm(nbs - goal, axis=1)
    res = []
    for k in np.flatnonzero(d < d.min() + 1e-3):
      e = physics.unit(nbs[k] - si)
      res.append(np.array([action @ e, action @ np.array([-e[1], e[0]])]) - aim)
    x = min(res, key=np.linalg.norm)
    if plan['noise'] == 0:
      ctx.check(np.linalg.norm(x) < 5e-3, 'action', f'the agent moves the beam '
                f'{np.round(x, 3)} A beside its aim at the neighbour nearest '
                'the goal')
    elif len(res) == 1:
      x = x / plan['noise']
      ctx.count('noise_n', 2)
      ctx.count('noise_sum_milli', int(round(1000 * x.sum())))
      ctx.count('noise_square_milli', int(round(1000 * (x @ x))))
      ctx.count('noise_cross_milli', int(round(1000 * x[0] * x[1])))
      ctx.count('noise_fourth_milli', int(round(1000 * (x ** 4).sum())))
      ctx.check(np.abs(x).max() < 7.5, 'noise', f'{x} standard deviations')

  def finalize(self, outs):
    tot = lambda k: sum(o['counts'].get(k, 0) for o in outs)
    for g in ('', '_fast', '_far'):
      n = tot(f'u{g}_n')
      if n < 100:
        continue
      m1 = tot(f'u{g}_milli') / 1000.0 / n
      m2 = tot(f'u{g}_spread_milli') / 1000.0 / n
      z1, z2 = (m1 - .5) * math.sqrt(12 * n), (m2 - 1) / math.sqrt(.8 / n)
      if abs(z1) > 6 or abs(z2) > 6:
        return [('time-to-goal', f'over {n} episodes{g.replace("_", " ")} the '
                 'numbers of exposures to the goal are not those of the '
                 f'reference policy (mean quantile {m1:.3f}, z={z1:.1f}; '
                 f'spread {m2:.3f}, z={z2:.1f})')]
    n = tot('noise_n')
    if n >= 200:
      z = [tot('noise_sum_milli') / 1000 / math.sqrt(n),
           (tot('noise_square_milli') / 1000 - n) / math.sqrt(2 * n),
           tot('noise_cross_milli') / 1000 / math.sqrt(n / 2),
           (tot('noise_fourth_milli') / 1000 - 3 * n) / math.sqrt(96 * n)]
      if max(abs(x) for x in z[:3]) > 6 or abs(z[3]) > 12:
        return [('noise', f'over {n} coordinates the noise of the aim is not '
                 f'normal with the given deviation: z={np.round(z, 1)}')]
    return []


class Env:
  """The agent in the environment."""

  def __init__(self, check, plan, ctx, agent):
    self.c, self.plan, self.ctx, self.agent = check, plan, ctx, agent
    self.mat = world.make_material(check.m, plan['env'], set())
    self.rf = self.mat.verif_rates
    self.env = world.make_env(check.m, plan['env'], material=self.mat)
    self.env.seed(plan['rng'])
    self.ts = None

  def goal_position(self):
    return np.asarray(self.env.goal.goal_position_material_frame,
                      float).reshape(2)

  def reset(self):
    try:
      self.ts = self.ctx.must('reset', self.env.reset)
    except core.Violation as v:
      if 'RuntimeError' in v.sig:
        return False
      raise
    return True

  def situation(self):
    pos = np.asarray(self.mat.grid.atom_positions, float)
    i = int(world.si_index(self.mat.grid)[0])
    nb = sorted(world.three_nearest(pos, i))
    return pos[i], (pos[nb] if len(nb) == 3 else None)

  def act(self, action, aim):
    si, nbs = self.situation()
    if nbs is not None:
      self.c.judge_action(self.ctx, self.plan, np.asarray(action, float), aim,
                          si, nbs, self.goal_position())

  def step(self, r, aim):
    a = self.ctx.must('GreedyAgent.step', self.agent.step, self.ts)
    self.act(a, aim)
    if self.plan['crash'] and r.random() < self.plan['crash']:
      self.rf.fail_at.add(self.rf.calls + 1)
      try:
        self.env.step(a)
      except core.InjectedFault:
        self.ctx.fault('rate_function_crash')
      self.rf.fail_at.clear()
      return 'crashed'
    self.ts = self.ctx.must('step', self.env.step, a)
    self.ctx.simtime(
        self.env.last_microscope_observation.elapsed_time.total_seconds())
    return 'goal' if self.ts.last() and self.ts.discount == 0 else 'on'


class Live(Env):
  """The agent at a microscope whose detector fails."""

  def __init__(self, check, plan, ctx, agent):
    self.c, self.plan, self.ctx = check, plan, ctx
    m = check.m
    self.mat = world.make_material(m, plan['env'], set())
    self.rf = self.mat.verif_rates
    self.sim = m.simulator.PuttingDuneSimulator(
        self.mat,
        image_duration=dt.timedelta(seconds=plan['env']['image_s']))
    self.rng = np.random.default_rng(plan['rng'])
    self.seen = []
    live = self

    class Watched(check.lib.Agent):
      def step(self, time_step):
        a = agent.step(time_step)
        live.seen.append(a)
        return a

      def set_mode(self, mode):
        agent.set_mode(mode)

    self.agent = check.ma.MicroscopeAgent(
        np.random.default_rng(0), check.exp.MicroscopeExperiment(
            get_agent=lambda rng, ag: Watched(),
            get_adapters_and_goal=lambda: check.exp.AdaptersAndGoal(
                action_adapter=world.make_adapter(m, plan['env']['adapter']),
                feature_constructor=world.make_features(m, 'material'),
                goal=world.make_goal(m, plan['env']))))

  def goal_position(self):
    return np.asarray(self.agent.goal.goal_position_material_frame,
                      float).reshape(2)

  def reset(self):
    self.obs = self.sim.reset(self.rng, return_image=False)
    try:
      self.ctx.must('reset', self.agent.reset, self.rng, self.obs)
    except core.Violation as v:
      if 'RuntimeError' in v.sig:
        return False
      raise
    return True

  def step(self, r, aim):
    o = self.obs
    mu = self.c.m.microscope_utils
    pos, num = np.array(o.grid.atom_positions), np.array(o.grid.atomic_numbers)
    lost = r.random() < self.plan['lost']
    if lost:
      self.ctx.fault('silicon_lost')
      num[:] = world.C
    elif self.plan['permute']:
      self.ctx.fault('atoms_permuted')
      p = r.permutation(len(num))
      pos, num = pos[p], num[p]
    n = len(self.seen)
    controls = self.ctx.must(
        'MicroscopeAgent.step', self.agent.step,
        dataclasses.replace(o, grid=mu.AtomicGrid(pos, num)))
    if lost:
      self.ctx.check(len(self.seen) == n, 'acted-blindly',
                     'the agent acted on an observation without silicon')
      self.obs = self.sim.step_and_image(self.rng, list(controls))
      return 'lost'
    if len(self.seen) == n:
      self.ctx.check(False, 'no-action', 'the agent was not asked')
    if self.agent.last_goal_return.is_terminal:
      return 'goal'
    self.act(self.seen[-1], aim)
    if self.plan['crash'] and r.random() < self.plan['crash']:
      self.rf.fail_at.add(self.rf.calls + 1)
      try:
        self.sim.step_and_image(self.rng, list(controls))
      except core.InjectedFault:
        self.ctx.fault('rate_function_crash')
      self.rf.fail_at.clear()
      return 'crashed'
    self.obs = self.ctx.must('step_and_image', self.sim.step_and_image,
                             self.rng, list(controls))
    self.ctx.simtime(self.obs.elapsed_time.total_seconds())
    # Reached now, though the agent only sees it next time.
    si, _ = self.situation()
    if np.linalg.norm(si - self.goal_position()) < B / 2:
      f = self.ctx.must('MicroscopeAgent.step', self.agent.step, self.obs)
      self.ctx.check(self.agent.last_goal_return.is_terminal, 'goal-unseen',
                     'the silicon is at the goal, the agent does not say so')
      del f
      return 'goal'
    return 'on'


CHECK = C28()
