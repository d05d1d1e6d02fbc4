"""C13: the live microscope agent survives detector faults."""
import numpy as np

from sim import core
from sim import scope
from sim import world

GAMMA = 0.9967


class C13(core.Check):
  id = 'C13'
  quick_runs = 400
  thorough_runs = 12000
  nontrivial_rule = (
      'one live session: simulated sample, detector with faults (silicon lost, '
      'atoms permuted), agent resets, failing agent; non-trivial if a detector '
      'or agent fault fired between two proper steps.')
  state_measure = ('distinct (agent phase, detector fault, step type issued, '
                   'adapter) tuples')
  real = ['MicroscopeAgent', 'action adapters', 'feature constructors', 'goals',
          'simulator and material as the sample', 'relative_random agent']
  stubs = ['detector faults', 'scripted inner agent in part of the runs']
  fault_kinds = ('detector_lost_silicon', 'atoms_permuted', 'agent_crash',
                 'reset_without_silicon', 'goal_truncated')

  def load(self):
    scope.load(self)

  def generate(self, rnd, tier):
    plan = scope.gen_session(rnd, tier)
    if rnd.random() < 0.3:
      plan['env']['truncate'] = rnd.choice([2, 4, 9])
    return plan

  def execute(self, plan, ctx):
    m = self.m
    s = scope.Session(m, plan)
    agent, inner = scope.build_agent(m, plan, self.modules)
    # Twins of the stateful parts, driven by the reference.
    ref_goal = world.make_goal(m, plan['env'])
    ref_feat = world.make_features(m, plan['env']['features'])
    r1 = np.random.default_rng(plan['rng'] + 1)
    r2 = np.random.default_rng(plan['rng'] + 1)
    phase = None  # None: not reset; 'first' | 'running'
    gaps = False

    def reset(op):
      nonlocal phase
      if op.get('new'):
        s.new_sample()
      obs = s.detect(op['fault'], 0)
      if op['fault'] == 'lost':
        ctx.fault('reset_without_silicon')
        try:
          agent.reset(r1, obs)
        except m.graphene.SiliconNotFoundError:
          phase = None
          try:
            ref_goal.reset(r2, obs)
          except m.graphene.SiliconNotFoundError:
            pass
          return
        ctx.violate('reset-without-silicon',
                    'an episode was started without a silicon atom')
      try:
        agent.reset(r1, obs)
      except RuntimeError as e:
        if 'goal' in str(e).lower() and 'goal_range' in plan['env']:
          phase = None
          try:
            ref_goal.reset(r2, obs)
          except RuntimeError:
            pass
          ctx.log('no goal in range')
          return
        raise
      ref_goal.reset(r2, obs)
      phase = 'first'
      ctx.check(np.array_equal(np.asarray(
          agent.goal.goal_position_material_frame),
          ref_goal.goal_position_material_frame), 'goal',
          'the goal does not follow from the generator and the observation')
      ctx.log('reset', world.enc_fov(obs.fov))

    reset({'fault': 'ok'})
    for op in plan['ops']:
      k = op['op']
      if k == 'reset':
        reset(op)
        continue
      if phase is None:
        reset({'fault': 'ok'})
        if phase is None:
          continue
      if k == 'agent_crash':
        obs = s.detect('ok', 0)
        inner.fail = True
        ctx.fault('agent_crash')
        try:
          agent.step(obs)
        except core.InjectedFault:
          ctx.log('agent crashed')
          # The goal may or may not have counted this observation; with one
          # required step that makes no difference.
          continue
        ctx.violate('agent-failure-hidden', 'the failure of the agent was '
                    'swallowed')
      obs = s.detect(op['fault'], op['seed'])
      n0 = len(inner.seen)
      pos0 = np.array(obs.grid.atom_positions)
      controls = ctx.must('MicroscopeAgent.step', agent.step, obs)
      ctx.check(np.array_equal(pos0, obs.grid.atom_positions),
                'observation-mutated', 'the observation was modified')
      new = inner.seen[n0:]
      if op['fault'] == 'lost':
        ctx.fault('detector_lost_silicon')
        gaps = True
        ctx.check(not new, 'acted-blind',
                  'the agent was asked for an action without a silicon')
        ctx.check(len(controls) == 1
                  and controls[0].dwell_time.total_seconds() == 0,
                  'rescan', f'expected one zero-dwell rescan, got {controls}')
        ctx.check(world.pt(controls[0].position) == (0.0, 0.0), 'rescan',
                  f'rescan at {world.pt(controls[0].position)}')
        ctx.state(phase, 'lost', 'rescan', plan['env']['adapter']['kind'])
      else:
        if op['fault'] == 'permute':
          ctx.fault('atoms_permuted')
        ctx.check(len(new) == 1, 'agent-steps',
                  f'the agent was stepped {len(new)} times')
        ts = new[0]
        gr = ref_goal.calculate_reward_and_terminal(obs)
        el = obs.elapsed_time.total_seconds()
        fv = ref_feat.get_features(obs, ref_goal)
        ctx.check(np.allclose(np.asarray(ts.observation), np.asarray(fv),
                              atol=1e-6), 'features',
                  'the agent saw other features than the observation has')
        if gr.is_terminal:
          want = (2, 0.0, gr.reward)
        elif gr.is_truncated:
          ctx.fault('goal_truncated')
          want = (2, GAMMA ** el, gr.reward)
        elif phase == 'first':
          want = (0, None, None)
        else:
          want = (1, GAMMA ** el, gr.reward)
        got = (int(ts.step_type), ts.discount, ts.reward)
        ok = got[0] == want[0]
        for g, w in zip(got[1:], want[1:]):
          ok = ok and (g is None) == (w is None) and (
              w is None or abs(g - w) < 1e-9)
        ctx.check(ok, 'time-step', f'agent got (type, discount, reward) {got}, '
                  f'expected {want} in phase {phase}')
        ref_ad = agent.action_adapter
        kind = plan['env']['adapter']['kind']
        if kind not in ('delta',):
          wc = ref_ad.get_action(obs, np.array(inner.last_action))
          ctx.check([world.enc_control(c) for c in controls]
                    == [world.enc_control(c) for c in wc], 'command',
                    f'issued {controls}, the action means {wc}')
        else:
          ctx.check(len(controls) == 1, 'command', f'{controls}')
        ctx.state(phase, op['fault'], got[0], kind)
        if gaps or op['fault'] == 'permute':
          ctx.nontrivial = True
        phase = 'running'
      ctx.log(k, [world.enc_control(c) for c in controls])
      ctx.simtime(sum(c.dwell_time.total_seconds() for c in controls))
      if k == 'step':
        s.apply(list(controls))


CHECK = C13()
