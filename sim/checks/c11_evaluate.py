"""C11: evaluation reports what happened."""
import contextlib
import datetime as dt
import json
import math
import os

import numpy as np

from sim import boot
from sim import core
from sim import world


class StubAnim:
  """Stands in for the matplotlib animation: saves a digest of its input."""
  _fig = None

  def __init__(self, payload):
    self.payload = payload

  def save(self, path, *a, **k):
    with open(path, 'wb') as f:
      f.write(b'STUBANIM' + json.dumps(self.payload).encode())


class C11(core.Check):
  id = 'C11'
  quick_runs = 200
  thorough_runs = 6000
  run_timeout = 120
  nontrivial_rule = (
      'one evaluation of a suite of seeds with an agent whose latency, failures '
      'and clock disturbances are chosen by the plan; non-trivial if an episode '
      'ended by goal, timeout or step limit after at least one action, or a '
      'failure was injected.')
  state_measure = ('distinct (how each episode ended, actions capped at 6, '
                   'video, failure) tuples')
  real = ['eval_lib.evaluate', 'eval_lib.aggregate_results',
          'PuttingDuneEnvironment', 'StepLimitWrapper', 'EventObserver',
          'simulator', 'material', 'GreedyAgent', 'plotting_utils (few runs)']
  stubs = ['process clock', 'agents with scripted latency', 'video rendering '
           '(replaced by a digest writer in most video runs)',
           'part of the runs: rates chosen by the plan']
  fault_kinds = ('slow_agent', 'stalled_environment', 'wall_clock_jump',
                 'agent_crash', 'environment_crash', 'disk_error_video')

  def load(self):
    self.m = world.mods()
    from putting_dune import eval_lib
    from putting_dune import plotting_utils
    from putting_dune.agents import agent_lib
    self.eval_lib, self.agent_lib = eval_lib, agent_lib
    self.plotting = plotting_utils

  def generate(self, rnd, tier):
    greedy = rnd.random() < 0.6
    env = world.gen_env(rnd, image_p=0.0,
                        rates=('simple', 'const', 'const', 'gmm'),
                        adapters=('rel_mat',) if greedy else
                        ('direct', 'delta', 'rel', 'rel_mat'))
    if greedy:
      env['features'] = 'material'
    if rnd.random() < 0.7:
      env['goal_range'] = [1.0, rnd.choice([1.6, 3.0, 6.0])]
      env['rates'] = rnd.choice([
          {'kind': 'simple'}, {'kind': 'const', 'rates': [1.0, 1.0, 1.0]},
          {'kind': 'const', 'rates': [0.3, 0.2, 0.1]}])
    if rnd.random() < 0.25:
      env['truncate'] = rnd.choice([3, 6, 12])
    n = rnd.choice([1, 2, 3, 5])
    seeds = [rnd.choice([rnd.randrange(5), rnd.randrange(2**31)])
             for _ in range(n)]
    ops = []
    for _ in range(rnd.randrange(1, 30)):
      ops.append({'lat': rnd.choice([0.0, 0.001, 0.25, 1.0, 7.5,
                                     round(rnd.uniform(0, 3), 4)]),
                  'jump': rnd.choice([0, 0, 0, 3600.0, -86400.0, 5.5]),
                  'stall': rnd.choice([0, 0, 0.5, 30.0])})
    fail = None
    if rnd.random() < 0.3:
      fail = {'how': rnd.choice(['agent', 'env', 'disk']),
              'at': rnd.randrange(1, 12)}
    img = env['image_s']
    return {'env': env, 'seeds': seeds, 'greedy': greedy,
            'timeout': rnd.choice([0.0, img, img + 0.01, 5.0, 20.0, 60.0,
                                   600.0, 600.0, 600.0]),
            'wrap': rnd.choice([None, None, 1, 3, 20, 600]),
            'video': rnd.choice([None, None, 'stub', 'stub', 'stub',
                                 'real' if rnd.random() < 0.1 else 'stub']),
            'rng': rnd.randrange(2**31), 'fail': fail, 'ops': ops}

  def build(self, plan):
    m = self.m
    mat = world.make_material(m, plan['env'], failing=[])
    env = world.make_env(m, plan['env'], material=mat)
    if plan['wrap']:
      env = m.run_helpers.StepLimitWrapper(env, step_limit=plan['wrap'])
    return env, mat.verif_rates

  def agent(self, plan, env, ctx, state):
    lib = self.agent_lib
    check = self

    class Scripted(lib.Agent):
      """Acts as a function of the episode so far; latency from the plan."""

      def __init__(self):
        self.i = 0
        self.calls = 0
        self.mode = None
        self.inner = None

      def set_mode(self, mode):
        self.mode = mode

      def step(self, time_step):
        self.calls += 1
        if time_step.first():
          self.i = 0
          if plan['greedy']:
            self.inner = lib.GreedyAgent(
                rng=np.random.default_rng(plan['rng']),
                argmax=np.array([0.8, 0.1]), position_noise_sigma=0.05)
          self.r = np.random.default_rng(plan['rng'] + 1)
        op = plan['ops'][self.i % len(plan['ops'])]
        self.i += 1
        if state['crash_agent'] == self.calls:
          ctx.fault('agent_crash')
          raise core.InjectedFault('agent')
        if op['lat']:
          boot.clock.advance(op['lat'])
          if not state['reference']:
            ctx.fault('slow_agent')
        if op['jump'] and not state['reference']:
          boot.clock.jump_wall(op['jump'])
          ctx.fault('wall_clock_jump')
        state['stall'] = op['stall']
        state['lat'] = op['lat']
        sp = env.action_spec()
        if self.inner is not None:
          a = self.inner.step(time_step)
          if sp.shape[0] == 3:
            a = np.concatenate([a, [0.5]])
          return a
        return world.sample_action(sp, self.r, 'uniform')

    del check
    return Scripted()

  def reference(self, plan, ctx):
    """An independent evaluation loop over a fresh environment."""
    env, _ = self.build(plan)
    st = {'crash_agent': None, 'reference': True, 'stall': 0, 'lat': 0}
    ag = self.agent(plan, env, ctx, st)
    ev = self.m.simulator_observers.EventObserver()
    env.sim.add_observer(ev)
    out = []
    for seed in plan['seeds']:
      env.seed(seed)
      ts = env.reset()
      env_t = env.last_microscope_observation.elapsed_time
      ag_t = dt.timedelta(0)
      n, rew, marginal = 0, 0.0, False
      limit = dt.timedelta(seconds=plan['timeout'])
      while True:
        gap = (limit - ag_t - env_t).total_seconds()
        if abs(gap) < 1e-4 and n > 0:
          marginal = True
        if gap <= 0:
          how = 'timeout'
          break
        a = ag.step(ts)
        ts = env.step(a)
        ag_t += dt.timedelta(seconds=st['lat'])
        env_t += env.last_microscope_observation.elapsed_time
        rew += ts.reward
        n += 1
        if ts.last():
          how = 'goal' if ts.discount == 0.0 else 'limit'
          break
      out.append(dict(seed=seed, how=how, n=n, reward=rew, marginal=marginal,
                      env_t=env_t.total_seconds(), ag_t=ag_t.total_seconds(),
                      events=self.enc_events(ev.events),
                      goal=self.goal_of(env)))
    return out

  def goal_of(self, env):
    return core.digest(np.asarray(env.goal.goal_position_material_frame,
                                  dtype=float))

  def enc_events(self, events):
    out = []
    for e in events:
      d = e.event_data
      row = [e.event_type.name]
      for k in sorted(d):
        v = d[k]
        if hasattr(v, 'atom_positions'):
          v = [np.asarray(v.atom_positions), np.asarray(v.atomic_numbers)]
        elif hasattr(v, 'lower_left'):
          v = world.enc_fov(v)
        elif hasattr(v, 'coords'):
          v = world.pt(v)
        elif isinstance(v, dt.timedelta):
          v = v.total_seconds()
        row.append((k, core.digest(v)))
      out.append(row)
    return core.digest(out)

  @contextlib.contextmanager
  def patched_video(self, mode, ctx, fail_at):
    orig = self.plotting.generate_video_from_simulator_events
    calls = [0]

    def stub(events, goal_position):
      calls[0] += 1
      if fail_at and calls[0] == fail_at:
        ctx.fault('disk_error_video')
        raise OSError(28, 'No space left on device')
      return StubAnim([self.enc_events(events),
                       core.digest(np.asarray(goal_position, dtype=float))])

    if mode == 'stub':
      self.plotting.generate_video_from_simulator_events = stub
    try:
      yield
    finally:
      self.plotting.generate_video_from_simulator_events = orig

  def execute(self, plan, ctx):
    if plan['video'] == 'real':
      plan['seeds'] = plan['seeds'][:1]
      plan['timeout'] = min(plan['timeout'], 20.0)
    boot.clock.active = True
    want = self.reference(plan, ctx)
    boot.clock.reset()
    boot.clock.active = True
    env, rf = self.build(plan)
    st = {'crash_agent': None, 'reference': False, 'stall': 0, 'lat': 0}
    ag = self.agent(plan, env, ctx, st)

    # A stalled simulator is not the agent's fault.
    class Staller(self.m.microscope_utils.SimulatorObserver):

      def observe_apply_control(self, control):
        if st['stall']:
          boot.clock.advance(st['stall'])
          ctx.fault('stalled_environment')
          st['stall'] = 0

    env.sim.add_observer(Staller())
    attached = []
    add, remove = env.sim.add_observer, env.sim.remove_observer

    def add_(o, *a, **k):
      attached.append(o)
      return add(o, *a, **k)

    def remove_(o, *a, **k):
      if o in attached:
        attached.remove(o)
      return remove(o, *a, **k)

    env.sim.add_observer, env.sim.remove_observer = add_, remove_
    video_dir = (os.path.join(ctx.scratch(), 'vid', 'eos')
                 if plan['video'] else None)
    suite = self.eval_lib.EvalSuite(tuple(plan['seeds']))
    timeout = dt.timedelta(seconds=plan['timeout'])

    def run(disk=None):
      with self.patched_video(plan['video'], ctx, disk):
        return self.eval_lib.evaluate(ag, env, suite, timeout=timeout,
                                      video_save_dir=video_dir)

    fail = plan['fail']
    if fail:
      disk = None
      if fail['how'] == 'agent':
        st['crash_agent'] = fail['at']
      elif fail['how'] == 'env':
        rf.fail_at = {rf.calls + fail['at']}
      elif plan['video'] == 'stub':
        disk = fail['at'] % (len(plan['seeds']) + 1)
      try:
        run(disk)
        ctx.log('fault not reached')
      except core.InjectedFault:
        ctx.log('crashed')
        if fail['how'] == 'env':
          ctx.fault('environment_crash')
      except OSError as e:
        if disk is None:
          raise
        ctx.log('crashed', str(e))
      ctx.check(not attached, 'observers-left',
                f'after a failed evaluation {len(attached)} of its observers '
                'are still attached to the environment')
      st['crash_agent'] = None
      rf.fail_at = set()
    got = ctx.must('evaluate', run)
    ctx.check(not attached, 'observers-left',
              'an observer is still attached after evaluation')
    ctx.check(ag.mode == self.agent_lib.AgentMode.EVAL, 'agent-mode',
              f'the agent was evaluated in mode {ag.mode}')
    ctx.check([g.seed for g in got] == plan['seeds'], 'result-order',
              f'results for {[g.seed for g in got]}, asked {plan["seeds"]}')
    for g, w in zip(got, want):
      if w['marginal']:
        ctx.log('marginal')
        continue
      who = f'seed {g.seed}'
      ctx.check(bool(g.reached_goal) == (w['how'] == 'goal'), 'reached-goal',
                f'{who}: reported {g.reached_goal}, episode ended by '
                f'{w["how"]}')
      ctx.check(g.num_actions_taken == w['n'], 'num-actions',
                f'{who}: {g.num_actions_taken} actions reported, {w["n"]} '
                'taken')
      ctx.check(abs(g.total_reward - w['reward']) < 1e-9, 'total-reward',
                f'{who}: {g.total_reward} != {w["reward"]}')
      if w['how'] == 'goal':
        ctx.check(abs(g.environment_seconds_to_goal - w['env_t']) < 1e-4,
                  'environment-seconds',
                  f'{who}: {g.environment_seconds_to_goal} reported, '
                  f'{w["env_t"]} simulated')
        ctx.check(abs(g.agent_seconds_to_goal - w['ag_t']) < 1e-4,
                  'agent-seconds', f'{who}: {g.agent_seconds_to_goal} '
                  f'reported, the agent took {w["ag_t"]}')
        ctx.check(abs(g.seconds_to_goal - w['ag_t'] - w['env_t']) < 2e-4,
                  'total-seconds', f'{who}: {g.seconds_to_goal}')
      else:
        ctx.check(math.isnan(g.agent_seconds_to_goal)
                  and math.isnan(g.environment_seconds_to_goal)
                  and math.isnan(g.seconds_to_goal), 'time-of-failure',
                  f'{who}: a time to goal for an episode that missed it')
      if w['n']:
        ctx.nontrivial = True
      ctx.state(w['how'], min(w['n'], 6), plan['video'], fail and fail['how'])
      ctx.log('episode', w['how'], w['n'], w['env_t'], w['ag_t'])
      ctx.simtime(w['env_t'])
    if video_dir:
      names = sorted(os.listdir(video_dir)) if os.path.isdir(video_dir) else []
      expect = sorted({f'{s}.gif' for s in plan['seeds']})
      ctx.check(names == expect, 'video-files', f'{names} instead of {expect}')
      for w in want:
        if w['marginal']:
          continue
        data = open(os.path.join(video_dir, f'{w["seed"]}.gif'), 'rb').read()
        if data.startswith(b'STUBANIM'):
          ctx.check(json.loads(data[8:]) == [w['events'], w['goal']],
                    'video-content', f'the video of seed {w["seed"]} does not '
                    'show its episode')
        else:
          ctx.check(data[:4] == b'GIF8', 'video-format',
                    f'{len(data)} bytes that are no GIF')
    if not any(w['marginal'] for w in want):
      self.aggregate(ctx, got, want)

  def aggregate(self, ctx, got, want):
    a = ctx.must('aggregate_results', self.eval_lib.aggregate_results, got)
    ok = [w for w in want if w['how'] == 'goal']
    d = max(len(ok), 1)
    for name, v in (
        ('average_num_times_reached_goal', len(ok) / len(want)),
        ('average_num_actions_taken', sum(w['n'] for w in ok) / d),
        ('average_agent_seconds_to_goal', sum(w['ag_t'] for w in ok) / d),
        ('average_environment_seconds_to_goal',
         sum(w['env_t'] for w in ok) / d),
        ('average_total_reward', sum(w['reward'] for w in ok) / d),
        ('average_seconds_to_goal',
         sum(w['ag_t'] + w['env_t'] for w in ok) / d)):
      x = getattr(a, name)
      ctx.check(abs(x - v) < 1e-3, 'aggregate', f'{name} = {x}, should be {v}')


CHECK = C11()
