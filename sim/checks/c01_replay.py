"""C01: a seed fixes an episode, whatever happened before or meanwhile."""
import numpy as np

from sim import boot
from sim import core
from sim import simwalk
from sim import world


def gen_agent(rnd):
  return {'kind': rnd.choice(['actions', 'actions', 'random']),
          'seed': rnd.randrange(2**31),
          'mode': rnd.choice(['uniform', 'corner', 'outside', 'center'])}


class Episode:
  """Drives one environment; records everything a user can see."""

  def __init__(self, m, env, seed, agent_spec, agent_lib):
    self.m, self.env, self.seed = m, env, seed
    self.spec = agent_spec
    self.trace = []
    sp = env.action_spec()
    rng = np.random.default_rng(agent_spec['seed'])
    if agent_spec['kind'] == 'random':
      self.agent = agent_lib.UniformRandomAgent(
          rng, sp.minimum, sp.maximum, sp.shape)
    else:
      self.agent = None
      self.rng = rng

  def record(self, ts):
    env = self.env
    o = env.last_microscope_observation
    g = getattr(env.goal, 'goal_position_material_frame', None)
    self.trace.append(core.digest([
        world.enc_ts(ts), world.enc_obs(o), np.asarray(g)]))
    self.ts = ts
    return o.elapsed_time.total_seconds()

  def start(self, ctx):
    self.env.seed(self.seed)
    return self.record(ctx.must('reset', self.env.reset))

  def step(self, ctx):
    if self.agent is not None:
      a = ctx.must('agent.step', self.agent.step, self.ts)
    else:
      a = world.sample_action(self.env.action_spec(), self.rng,
                              self.spec['mode'])
    return self.record(ctx.must('step', self.env.step, a))

  def reset(self, ctx):
    return self.record(ctx.must('reset', self.env.reset))


class C01(core.Check):
  id = 'C01'
  quick_runs = 240
  thorough_runs = 8000
  cross_process = 16
  cross_process_violates = True
  nontrivial_rule = (
      'one environment configuration, seed and action sequence executed twice: '
      'in a fresh environment, and in one with a polluted past (other seeds, '
      'abandoned episodes, crashes in the middle of steps) and a disturbed '
      'present (global RNG draws, clock jumps, observers); non-trivial if at '
      'least one disturbance was applied.')
  state_measure = 'distinct (time step, observation, goal) records'
  real = ['PuttingDuneEnvironment', 'StepLimitWrapper', 'simulator', 'material',
          'rate functions', 'action adapters', 'feature constructors', 'goals',
          'imaging', 'UniformRandomAgent']
  stubs = ['part of the runs: rates chosen by the plan',
           'rate-function crash injector', 'process clock']
  fault_kinds = ('global_rng_draw', 'clock_jump', 'step_crash',
                 'reset_crash', 'reseed', 'abandoned_episode',
                 'observer_attached', 'observer_detached',
                 'other_environment_before')

  def load(self):
    self.m = world.mods()
    from putting_dune.agents import agent_lib
    self.agent_lib = agent_lib

  def generate(self, rnd, tier):
    env = world.gen_env(rnd, image_p=0.08)
    n = rnd.randrange(3, 14) if env['features'] != 'image' else 3
    if tier == 'thorough':
      n *= 2

    def noise():
      k = rnd.choice(['reset', 'step', 'step', 'steps', 'seed', 'global',
                      'clock', 'crash', 'goalcrash', 'add', 'rm'])
      d = {'k': k, 'n': rnd.randrange(1, 6)}
      if k == 'seed':
        d['s'] = rnd.choice([None, rnd.randrange(1000)])
      if k == 'clock':
        d['dt'] = rnd.choice([0.5, 3600.0, -86400.0])
      return d

    def during():
      k = rnd.choice(['global', 'clock', 'add', 'rm'])
      d = {'k': k, 'n': rnd.randrange(1, 6)}
      if k == 'clock':
        d['dt'] = rnd.choice([0.5, 3600.0, -86400.0])
      return d

    aliens = []
    for _ in range(rnd.choice([0, 0, 1, 2])):
      alien = world.gen_env(rnd, image_p=0.0)
      alien['columns'] = max(12, env['columns'] + rnd.choice([-1, 0, 1, -20]))
      aliens.append({'env': alien, 'seed': rnd.randrange(1000),
                     'n': rnd.randrange(0, 6)})
    ops = [{'op': 'before', **noise()} for _ in range(rnd.randrange(0, 10))]
    ops.append({'op': 'start'})
    for _ in range(n):
      if rnd.random() < 0.3:
        ops.append({'op': 'during', **during()})
      ops.append({'op': 'reset' if rnd.random() < 0.05 else 'step'})
    return {'env': env, 'seed_env': rnd.randrange(2**31),
            'aliens': aliens, 'agent': gen_agent(rnd),
            'wrap': rnd.choice([None, None, 3, 50]),
            'ops': ops}

  def env(self, plan, noisy):
    crash = [] if noisy else None
    mat = world.make_material(self.m, plan['env'], failing=crash)
    env = world.make_env(self.m, plan['env'], material=mat)
    if plan['wrap']:
      env = self.m.run_helpers.StepLimitWrapper(env, step_limit=plan['wrap'])
    return env, mat

  def execute(self, plan, ctx):
    # Reference execution: a fresh environment in a process of its own.
    def reference(sub):
      env, _ = self.env(plan, False)
      ref = Episode(self.m, env, plan['seed_env'], plan['agent'],
                    self.agent_lib)
      for op in plan['ops']:
        if op['op'] == 'start':
          ref.start(sub)
        elif op['op'] in ('step', 'reset') and ref.trace:
          getattr(ref, op['op'])(sub)
      return ref.trace

    ref_trace = core.isolated(ctx, reference)
    np.random.seed((plan['np_seed'] + 17) & 0xFFFFFFFF)

    # Disturbed execution, in a process of its own too.
    trace = core.isolated(
        ctx, lambda sub: self.disturbed(plan, sub, ref_trace))
    for t in trace:
      ctx.state(t)
    ctx.log('episode', trace)

  def disturbed(self, plan, ctx, ref_trace):
    """The same episode in a process with a past and a restless present."""
    for alien in plan.get('aliens', []):
      other = world.make_env(self.m, alien['env'])
      e = Episode(self.m, other, alien['seed'],
                  {'kind': 'actions', 'seed': 1, 'mode': 'uniform'},
                  self.agent_lib)
      e.start(ctx)
      for _ in range(alien['n']):
        e.step(ctx)
      ctx.fault('other_environment_before')
    env, mat = self.env(plan, True)
    ep = Episode(self.m, env, plan['seed_env'], plan['agent'], self.agent_lib)
    boot.clock.active = True
    observers = []
    rf = mat.verif_rates
    noise_rng = np.random.default_rng(plan['seed_env'] + 5)
    started = [False]
    goal_range = env.goal.goal_range_angstroms

    def disturb(op):
      k = op['k']
      if k == 'global':
        np.random.uniform(size=op['n'])
        ctx.fault('global_rng_draw')
      elif k == 'clock':
        boot.clock.advance(abs(op['dt']))
        boot.clock.jump_wall(op['dt'])
        ctx.fault('clock_jump')
      elif k == 'add':
        r = simwalk.Recorder('x', self.m.microscope_utils.SimulatorObserver)
        env.sim.add_observer(r.obs)
        observers.append(r.obs)
        ctx.fault('observer_attached')
      elif k == 'rm' and observers:
        env.sim.remove_observer(observers.pop())
        ctx.fault('observer_detached')
      elif k == 'seed':
        env.seed(op['s'])
        ctx.fault('reseed')
      elif k == 'reset':
        env.reset()
        started[0] = True
        ctx.fault('abandoned_episode')
      elif k in ('step', 'steps') and started[0]:
        for _ in range(op['n'] if k == 'steps' else 1):
          env.step(world.sample_action(env.action_spec(), noise_rng,
                                       'uniform'))
      elif k == 'crash' and started[0] and hasattr(rf, 'fail_at'):
        rf.fail_at = {rf.calls + 1 + op['n'] % 2}
        try:
          env.step(world.sample_action(env.action_spec(), noise_rng,
                                       'uniform'))
        except core.InjectedFault:
          ctx.fault('step_crash')
        rf.fail_at = set()
      elif k == 'goalcrash':
        env.goal.goal_range_angstroms = (1e6, 2e6)
        try:
          env.reset()
        except RuntimeError:
          ctx.fault('reset_crash')
        env.goal.goal_range_angstroms = goal_range

    for op in plan['ops']:
      if op['op'] == 'before' or op['op'] == 'during':
        if op['op'] == 'during' and not ep.trace:
          continue
        disturb(op)
      elif op['op'] == 'start':
        ctx.simtime(ep.start(ctx))
      elif ep.trace:
        ctx.simtime(getattr(ep, op['op'])(ctx))
      i = len(ep.trace) - 1
      if i >= 0:
        ctx.check(ep.trace[i] == ref_trace[i], 'diverged',
                  f'record {i} of the episode differs from the one the same '
                  f'seed gave in a fresh environment (after {op})')
    return ep.trace


CHECK = C01()
