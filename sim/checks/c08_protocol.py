"""C08: the environment obeys the dm_env episode protocol, faults included."""
import numpy as np

from sim import boot
from sim import core
from sim import world

FIRST, MID, LAST = 0, 1, 2


class C08(core.Check):
  id = 'C08'
  quick_runs = 320
  thorough_runs = 10000
  nontrivial_rule = (
      'a seeded history of reset/step calls (with and without the step-limit '
      'wrapper) in which resets and steps fail at chosen points; non-trivial '
      'if an episode ended or a failure was injected.')
  state_measure = ('distinct (model state, operation, outcome) transitions of '
                   'the protocol automaton, with steps-to-limit capped at 5')
  real = ['PuttingDuneEnvironment', 'StepLimitWrapper', 'EnvironmentWrapper',
          'create_putting_dune_env', 'simulator', 'material', 'goals',
          'adapters', 'feature constructors']
  stubs = ['part of the runs: rates chosen by the plan',
           'failures injected through the rate function, the goal range, the '
           'action adapter and the feature constructor']
  fault_kinds = ('step_crash', 'reset_crash_goal', 'reset_crash_features',
                 'step_crash_adapter', 'step_crash_features',
                 'goal_truncated')

  def load(self):
    self.m = world.mods()

  def generate(self, rnd, tier):
    env = world.gen_env(rnd, image_p=0.02,
                        rates=('simple', 'const', 'const', 'gmm'))
    if rnd.random() < 0.6:
      # Goals a hop or two away, so that episodes terminate.
      env['goal_range'] = [1.0, rnd.choice([1.6, 3.0])]
      env['rates'] = rnd.choice([
          {'kind': 'simple'}, {'kind': 'const', 'rates': [1.0, 1.0, 1.0]},
          {'kind': 'const', 'rates': [0.3, 0.2, 0.1]}])
    if rnd.random() < 0.3:
      env['truncate'] = rnd.choice([2, 4, 9])
    ops = []
    for _ in range(rnd.randrange(6, 60 if tier == 'quick' else 150)):
      r = rnd.random()
      if r < 0.06:
        ops.append({'op': 'reset'})
      elif r < 0.10:
        ops.append({'op': rnd.choice(['bad_reset', 'bad_auto']),
                    'how': rnd.choice(['goal', 'features'])})
      elif r < 0.14:
        ops.append({'op': 'bad_step', 'how': rnd.choice(
            ['rates', 'adapter', 'features'])})
      elif r < 0.16:
        ops.append({'op': 'seed', 's': rnd.randrange(1000)})
      else:
        ops.append({'op': 'step', 'mode': rnd.choice(
            ['uniform', 'corner', 'outside', 'toward'])})
    return {'env': env, 'wrap': rnd.choice([None, 1, 2, 3, 5, 17]),
            'first': rnd.choice(['reset', 'step']), 'rng': rnd.randrange(2**31),
            'factory': rnd.random() < 0.3, 'ops': ops}

  def execute(self, plan, ctx):
    m = self.m
    mat = world.make_material(m, plan['env'], failing=[])
    rf = mat.verif_rates
    limit = plan['wrap']
    goal = world.make_goal(m, plan['env'])
    adapter = world.make_adapter(m, plan['env']['adapter'])
    feats = world.make_features(m, plan['env']['features'])
    faults = {'adapter': False, 'features': False}

    class Adapter:  # fails on command, otherwise the real adapter

      def __init__(self, inner):
        object.__setattr__(self, 'inner', inner)

      def __getattr__(self, n):
        return getattr(self.inner, n)

      def __setattr__(self, n, v):
        setattr(self.inner, n, v)

      def get_action(self, *a, **k):
        if faults['adapter']:
          raise core.InjectedFault('adapter')
        return self.inner.get_action(*a, **k)

    class Features:

      def __init__(self, inner):
        self.inner = inner

      def __getattr__(self, n):
        return getattr(self.inner, n)

      def get_features(self, *a, **k):
        if faults['features']:
          raise core.InjectedFault('features')
        return self.inner.get_features(*a, **k)

    import datetime as dt
    if plan['factory'] and limit is not None:
      class AG:
        pass
      ag = AG()
      ag.action_adapter = Adapter(adapter)
      ag.feature_constructor = Features(feats)
      ag.goal = goal
      sc = AG()
      sc.material = mat
      sc.image_duration = dt.timedelta(seconds=plan['env']['image_s'])
      env = m.run_helpers.create_putting_dune_env(
          plan['rng'], get_adapters_and_goal=lambda: ag,
          get_simulator_config=lambda: sc, step_limit=limit)
    else:
      env = m.putting_dune_environment.PuttingDuneEnvironment(
          material=mat, action_adapter=Adapter(adapter),
          feature_constructor=Features(feats), goal=goal,
          image_duration=dt.timedelta(seconds=plan['env']['image_s']))
      if limit is not None:
        env = m.run_helpers.StepLimitWrapper(env, step_limit=limit)
      env.seed(plan['rng'])
    r = np.random.default_rng(plan['rng'] + 9)
    obs_spec = env.observation_spec()
    act_spec = env.action_spec()
    reward_spec = env.reward_spec()
    disc_spec = env.discount_spec()

    # Reference model of the protocol.
    st = {'need': True, 'steps': 0, 'broken': False}
    last = [None]

    def conforms(ts):
      o = ts.observation
      items = o.items() if isinstance(o, dict) else [(None, o)]
      specs_ = obs_spec if isinstance(obs_spec, dict) else {None: obs_spec}
      ctx.check(set(dict(items)) == set(specs_), 'observation-keys',
                'observation and spec have different keys')
      for k, v in items:
        s = specs_[k]
        v = np.asarray(v)
        ctx.check(v.shape == s.shape and v.dtype == s.dtype,
                  'observation-spec', f'{k}: {v.shape} {v.dtype} for {s}')
        ctx.check(bool(np.isfinite(v).all()), 'observation-finite',
                  f'{k} is not finite')
      ctx.check(isinstance(float(ts.reward), float)
                and np.isfinite(ts.reward), 'reward', f'{ts.reward}')
      ctx.check(0.0 <= ts.discount <= 1.0, 'discount-range', f'{ts.discount}')

    def got_first(ts, why):
      ctx.check(ts.step_type == FIRST, 'expected-first',
                f'{why} returned step type {int(ts.step_type)}, not FIRST')
      ctx.check(float(ts.reward) == 0.0, 'first-reward',
                f'reward {ts.reward} on a FIRST time step')
      ctx.check(not ts.discount == 0.0, 'first-discount', 'zero discount')
      conforms(ts)
      st.update(need=False, steps=0, broken=False)

    def action(mode):
      if mode == 'toward' and last[0] is not None and plan['env']['adapter'][
          'kind'] in ('rel', 'rel_mat') and not isinstance(
              last[0].observation, dict):
        a = world.sample_action(act_spec, r, 'uniform')
        d = np.asarray(last[0].observation[-2:], dtype=float)
        d = d / max(1e-6, np.linalg.norm(d))
        a[:2] = d * (1.42 if plan['env']['adapter']['kind'] == 'rel_mat'
                     else 1.42 / plan['env']['adapter']['max_dist'])
        if len(a) == 3:
          a[2] = 1.0
        return a
      return world.sample_action(act_spec, r, mode
                                 if mode != 'toward' else 'uniform')

    def clear():
      faults.update(adapter=False, features=False)
      rf.fail_at = set()
      goal.goal_range_angstroms = tuple(
          plan['env'].get('goal_range', (0.1, 50.0)))

    def try_reset():
      try:
        ts = ctx.must('reset', env.reset)
      except core.Violation as v:
        if 'RuntimeError' in v.sig and "valid goals" in v.msg:
          # No atom in the configured range is in view: a documented error.
          ctx.fault('reset_no_valid_goal')
          st.update(need=True, steps=0)
          return
        raise
      got_first(ts, 'reset')
      last[0] = ts
      ctx.log('reset', world.enc_ts(ts))

    def try_step(mode):
      need = st['need']
      try:
        ts = ctx.must('step', env.step, action(mode))
      except core.Violation as v:
        if need and 'RuntimeError' in v.sig and 'valid goals' in v.msg:
          ctx.fault('reset_no_valid_goal')
          return
        raise
      last[0] = ts
      el = env.last_microscope_observation.elapsed_time.total_seconds()
      ctx.simtime(el)
      ctx.log('step', world.enc_ts(ts))
      if need:
        got_first(ts, 'a step with no episode under way')
        ctx.state('need', 'step', 'first')
        return
      ctx.check(ts.step_type != FIRST, 'unexpected-first',
                'a step inside an episode returned FIRST')
      conforms(ts)
      st['steps'] += 1
      gamma = 0.9967 ** el
      gave_up = world.gives_up(plan['env'], env.last_microscope_observation)
      at_limit = limit is not None and st['steps'] >= limit
      if ts.step_type == LAST:
        st['need'] = True
        ctx.nontrivial = True
        if ts.discount == 0.0:
          ctx.count('terminations')
        else:
          ctx.count('truncations')
          if gave_up:
            ctx.fault('goal_truncated')
          ctx.check(at_limit or gave_up, 'early-truncation',
                    f'truncated after {st["steps"]} steps, limit {limit}')
          ctx.check(world.close(ts.discount, gamma, 1e-6),
                    'truncation-discount',
                    f'truncation discount {ts.discount}, {gamma} expected')
      else:
        ctx.check(not gave_up, 'truncation-missed',
                  'the goal was truncated, the episode goes on')
        ctx.check(not at_limit, 'limit-missed',
                  f'no LAST after {st["steps"]} steps with limit {limit}')
        ctx.check(0.0 < ts.discount <= 1.0, 'mid-discount', f'{ts.discount}')
        ctx.check(float(ts.reward) == 0.0, 'mid-reward',
                  f'reward {ts.reward} on a step that did not end the episode')
      ctx.state('run', 'step', int(ts.step_type), float(ts.discount) == 0.0,
                min(5, (limit or 99) - st['steps']))

    def attempt(fn, kind, after):
      """A call that is expected to fail because of an injected fault."""
      try:
        fn()
      except (core.InjectedFault, RuntimeError):
        ctx.fault(kind)
        after()
        return
      finally:
        clear()
      # The fault was not reached (e.g. no exposure happened): treat the call
      # as an ordinary one that we did not look at, and start over.
      ctx.count('fault_not_reached')
      st['broken'] = True

    if plan['first'] == 'reset':
      try_reset()
    for op in plan['ops']:
      k = op['op']
      if st['broken'] and k not in ('reset', 'bad_reset', 'seed'):
        # After a step that failed half-way the only promise we hold the
        # environment to is that a reset starts a new, correct episode.
        continue
      if k == 'reset':
        st['broken'] = False
        try_reset()
      elif k == 'step':
        try_step(op['mode'])
      elif k == 'seed':
        env.seed(op['s'])
        st['broken'] = True
      elif k in ('bad_reset', 'bad_auto'):
        if k == 'bad_auto' and not st['need']:
          continue
        if op['how'] == 'goal':
          goal.goal_range_angstroms = (1e6, 2e6)
        else:
          faults['features'] = True
        fn = (env.reset if k == 'bad_reset'
              else lambda: env.step(action('uniform')))

        def after():
          # No episode was started: the next step must begin one.
          st.update(need=True, steps=0, broken=False)
          ctx.state('failed-reset', k, op['how'])

        attempt(fn, 'reset_crash_' + op['how'], after)
      elif k == 'bad_step' and not st['need']:
        if op['how'] == 'rates':
          rf.fail_at = {rf.calls + 1}
        else:
          faults[op['how']] = True

        def after2():
          st['broken'] = True

        attempt(lambda: env.step(action('uniform')),
                'step_crash' if op['how'] == 'rates'
                else 'step_crash_' + op['how'], after2)


CHECK = C08()
