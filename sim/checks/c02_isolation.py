"""C02: several environments and agents interleaved behave as if alone."""
import numpy as np

from sim import core
from sim import world
from sim.checks import c01_replay as c01


class C02(core.Check):
  id = 'C02'
  quick_runs = 128
  thorough_runs = 5000
  nontrivial_rule = (
      '2-4 environments with their own agents, executed alone and then '
      'interleaved step by step by a seeded scheduler, one or more of them '
      'crashing in the middle of steps; non-trivial if the schedule switches '
      'between environments at least twice. Distinct also counts interleavings.')
  state_measure = 'distinct interleavings (schedule prefixes of length 6)'
  real = c01.C01.real + ['registry environment configurations',
                         'run_helpers.create_putting_dune_env']
  stubs = ['part of the runs: rates chosen by the plan',
           'rate-function crash injector']
  fault_kinds = ('neighbour_step_crash', 'context_switch')

  def load(self):
    self.m = world.mods()
    from putting_dune.agents import agent_lib
    from putting_dune.experiments import registry
    self.agent_lib = agent_lib
    self.registry = registry

  def generate(self, rnd, tier):
    n = rnd.choice([2, 2, 3, 4])
    worlds = []
    for _ in range(n):
      if rnd.random() < 0.3:
        w = {'registry': rnd.choice(
            ['relative_simple_rates', 'direct_simple_rates_from_images',
             'relative_simple_rates_from_images_variable_time'])}
      else:
        w = {'env': world.gen_env(rnd, image_p=0.05)}
      w['seed'] = rnd.choice([7, rnd.randrange(2**31)])
      w['agent'] = c01.gen_agent(rnd)
      w['wrap'] = rnd.choice([None, 4, 50])
      w['victim'] = rnd.random() < 0.2
      worlds.append(w)
    if rnd.random() < 0.6:
      # Sheets of nearly the same size, silicon hopping fast: their walks
      # visit the same atom indices, which are different places.
      base = rnd.choice([12, 16, 20, 30, 48])
      for w in worlds:
        if 'env' in w:
          w['env']['columns'] = base + rnd.choice([0, 1, 2])
          if rnd.random() < 0.6:
            w['env']['rates'] = {
                'kind': 'const',
                'rates': [round(rnd.uniform(0.5, 3), 3) for _ in range(3)]}
    if rnd.random() < 0.35:
      # Mixtures of the same size and maximum rate, of different widths.
      seed = rnd.randrange(10**6)
      for w in worlds:
        if 'env' in w:
          w['env']['rates'] = {'kind': 'gmm', 'seed': seed,
                               'wider': rnd.choice([0.3, 1.0, 4.0])}
    if rnd.random() < 0.4:
      # Identical twins are the sharpest probe for shared state.
      worlds[1] = dict(worlds[0], victim=False)
      worlds[0]['victim'] = False
    ops = []
    for _ in range(rnd.randrange(12, 60)):
      op = {'w': rnd.randrange(n), 'op': 'step'}
      r = rnd.random()
      if r < 0.06:
        op['op'] = 'reset'
      elif r < 0.12:
        op['op'] = 'crash'
      ops.append(op)
    return {'worlds': worlds, 'ops': ops}

  def build(self, w):
    m = self.m
    if 'registry' in w:
      ex = self.registry.create_train_experiment(w['registry'])
      env = m.run_helpers.create_putting_dune_env(
          w['seed'], get_adapters_and_goal=ex.get_adapters_and_goal,
          get_simulator_config=ex.get_simulator_config,
          step_limit=w['wrap'] or 600)
      rf = None
    else:
      mat = world.make_material(m, w['env'], failing=[])
      rf = mat.verif_rates
      env = world.make_env(m, w['env'], material=mat)
      if w['wrap']:
        env = m.run_helpers.StepLimitWrapper(env, step_limit=w['wrap'])
    return [env, rf, None]

  def do(self, ctx, w, cell, op, fault):
    env, rf, ep = cell
    if ep is None:
      cell[2] = ep = c01.Episode(self.m, env, w['seed'], w['agent'],
                                 self.agent_lib)
      ep.start(ctx)
      return
    if op == 'reset':
      ep.reset(ctx)
    elif op == 'crash' and w['victim'] and hasattr(rf, 'fail_at'):
      rf.fail_at = {rf.calls + 1}
      try:
        ep.step(ctx)
      except core.InjectedFault:
        if fault:
          ctx.fault('neighbour_step_crash')
        ep.trace.append('crashed')
      rf.fail_at = set()
    else:
      ep.step(ctx)

  def execute(self, plan, ctx):
    worlds = plan['worlds']

    def interleaved(sub):
      cells = [self.build(w) for w in worlds]
      last = None
      for op in plan['ops']:
        if op['w'] >= len(worlds):
          continue
        if last is not None and last != op['w']:
          sub.fault('context_switch')
        last = op['w']
        self.do(sub, worlds[op['w']], cells[op['w']], op['op'], True)
      return [c[2].trace if c[2] else [] for c in cells]

    def alone(i):
      def run(sub):
        cell = self.build(worlds[i])
        for op in plan['ops']:
          if op['w'] == i:
            self.do(sub, worlds[i], cell, op['op'], False)
        return cell[2].trace if cell[2] else []
      return run

    # Every execution gets a process of its own, forked from one in which no
    # environment ever ran: module-level state cannot hide a difference.
    b = [core.isolated(ctx, alone(i)) for i in range(len(worlds))]
    a = core.isolated(ctx, interleaved)
    for i, (x, y) in enumerate(zip(a, b)):
      ctx.check(len(x) == len(y), 'interference', f'environment {i}: '
                f'{len(x)} records interleaved, {len(y)} alone')
      for j, (p, q) in enumerate(zip(x, y)):
        ctx.check(p == q, 'interference',
                  f'environment {i}, record {j}: interleaved with '
                  f'{len(worlds) - 1} others it differs from running alone')
    ws = [o['w'] for o in plan['ops']]
    for i in range(0, max(0, len(ws) - 6)):
      ctx.state(ws[i:i + 6])
    ctx.log('traces', a)


CHECK = C02()
