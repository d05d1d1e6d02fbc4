"""C12: every named experiment runs and does what it is named for."""
import datetime as dt
import logging
import math
import os

import numpy as np

from sim import boot
from sim import core
from sim import physics
from sim import savedmodels
from sim import web
from sim import world

B = 1.42
URL = 'https://storage.googleapis.com/spr_data_bucket_public/'
MODELS = {
    'ppo_simple_images_tf': ('ppo_simple_images_tf', 1, 2, True),
    'ppo_learned_tf_2s': ('230127_from_state_2s', 2, 3, False),
    'ppo_learned_tf_3s': ('230127_from_state_3s', 3, 3, False),
    'ppo_learned_tf_4s': ('230127_from_state_4s', 4, 3, False),
    'ppo_v3_2s': ('230422_ppo_v3_2s', 5, 3, False),
    'ppo_v3_3s': ('230422_ppo_v3_3s', 6, 3, False),
    'ppo_v3_4s': ('230422_ppo_v3_4s', 7, 3, False),
}
# agent, frame of the action, dwell range, reach (angstroms), observation
LIVE = {
    'relative_random': ('random', 'rel', (1.5, 1.5), B, 'state'),
    'relative_random_long': ('random', 'rel', (1, 5), 2 * B, 'state'),
    'relative_random_extra_long': ('random', 'rel', (1, 5), 3 * B, 'state'),
    'ppo_simple_images_tf': ('tf', 'rel', (1.5, 1.5), B, 'image'),
}
GREEDY = {
    'greedy_on_neighbor': (1.42, 0.0),
    'greedy_short_of_neighbor': (0.58, 0.0),
    'greedy_on_neighbor_offset_horizontally': (1.42, 0.42),
    'greedy_from_learned_rates_v3': (1.8686869, 0.0),
    'greedy_from_learned_rates_v5': (2.1717172, -0.15151516),
}
for _n in GREEDY:
  LIVE[_n] = ('greedy', 'mat', (5, 5), None, 'state')
for _s in (2, 3, 4):
  LIVE[f'ppo_learned_tf_{_s}s'] = ('tf', 'rel', (1, 10), B, 'state')
  LIVE[f'ppo_v3_{_s}s'] = ('tf', 'rel', (1.5, 20), 3 * B, 'state')
TRAIN = {
    'relative_simple_rates': (None, 'rel', (1.5, 1.5), B, 'state', 'simple'),
    'relative_prior_rates': (None, 'rel', (1.5, 1.5), B, 'state', 'human'),
    'relative_simple_rates_from_images':
        (None, 'rel', (1.5, 1.5), B, 'image', 'simple'),
    'relative_simple_rates_from_images_variable_time':
        (None, 'rel', (1, 10), B, 'image', 'simple'),
    'direct_simple_rates_from_images':
        (None, 'direct', (1.5, 1.5), None, 'image', 'simple'),
}
EVAL = {
    'relative_random_simple':
        ('random', 'rel', (1.5, 1.5), B, 'state', 'simple'),
    'relative_random_prior_rates':
        ('random', 'rel', (1.5, 1.5), B, 'state', 'human'),
    'ppo_simple_images_tf': ('tf', 'rel', (1.5, 1.5), B, 'image', 'simple'),
}
TABLE = {'live': LIVE, 'train': TRAIN, 'eval': EVAL}
NET = ('refused', 'http', 'garbage', 'cut', 'short', 'reset')


class C12(core.Check):
  id = 'C12'
  quick_runs = 130
  thorough_runs = 4000
  run_timeout = 120
  nontrivial_rule = (
      'two or three sessions of named experiments (live microscope, training, '
      'evaluation) in one process, their steps interleaved with registrations '
      'and unknown names, downloads failing at first; one session is repeated '
      'alone; part of the runs drive eval.main; non-trivial if sessions '
      'interleaved or a fault fired.')
  state_measure = 'distinct (experiment, event, fixed or variable dwell) tuples'
  real = ['every entry of the experiment registry', 'agents (random, greedy, '
          'SavedModel)', 'MicroscopeAgent', 'create_putting_dune_env',
          'eval.main', 'evaluate', 'simulator', 'rate functions', 'urllib',
          'TensorFlow SavedModel loading']
  stubs = ['the web', 'the trained policies (a small function of the '
           'observation)', 'the microscope is the simulator']
  fault_kinds = tuple('net_' + n for n in NET) + (
      'agent_abandoned', 'atoms_permuted', 'silicon_lost', 'registration',
      'unknown_name')

  def load(self):
    self.m = world.mods()
    from putting_dune import eval as pd_eval
    from putting_dune import eval_lib
    from putting_dune import microscope_agent
    from putting_dune.experiments import experiments
    from putting_dune.experiments import registry
    self.eval, self.eval_lib, self.ma = pd_eval, eval_lib, microscope_agent
    self.exp, self.reg = experiments, registry
    self.file = registry.__file__
    self.suites = eval_lib.EVAL_SUITES
    self.web = None
    self.names = 0
    self.u = {}

  def cleanup(self):
    self.reg.__file__ = self.file
    self.eval_lib.EVAL_SUITES = self.suites
    boot.clock.active = False
    if self.web is not None:
      self.web.remove()
      self.web = None

  # -------------------------------------------------------------- plans ----
  def generate(self, rnd, tier):
    sessions = []
    for _ in range(rnd.choice([1, 2, 2, 3])):
      group = rnd.choice(['live', 'live', 'live', 'train', 'eval', 'eval'])
      name = rnd.choice(sorted(TABLE[group]))
      if sessions and rnd.random() < 0.3:
        group, name = sessions[0]['group'], sessions[0]['name']
      sessions.append({'group': group, 'name': name,
                       'rng': rnd.randrange(2**31),
                       'world': rnd.randrange(2**31)})
      if rnd.random() < 0.25 and name in MODELS:
        sessions[-1]['net'] = rnd.choice(NET)
        sessions[-1]['cut'] = rnd.random()
    ops = []
    for _ in range(rnd.randrange(4, 24 if tier == 'quick' else 90)):
      r = rnd.random()
      i = rnd.randrange(len(sessions))
      if r < 0.08:
        ops.append({'op': 'reset', 's': i})
      elif r < 0.12:
        ops.append({'op': rnd.choice(['register', 'unknown', 'abandon']),
                    's': i})
      else:
        ops.append({'op': 'step', 's': i, 'see': rnd.choice(
            ['ok'] * 5 + ['permute', 'lost']), 'seed': rnd.randrange(99),
                    'mode': rnd.choice(['uniform', 'corner', 'outside'])})
    main = None
    if rnd.random() < (0.07 if tier == 'quick' else 0.12):
      main = {'name': rnd.choice(sorted(EVAL)),
              'seeds': [rnd.randrange(1000) for _ in range(rnd.choice([1, 2]))]}
    return {'sessions': sessions, 'ops': ops, 'main': main}

  # ----------------------------------------------------------- sessions ----
  def execute(self, plan, ctx):
    d = ctx.scratch()
    self.reg.__file__ = os.path.join(d, 'registry.py')
    self.web = w = web.Web()
    w.install()
    for name, (model, v, out, pixels) in MODELS.items():
      w.pages[URL + model + '.zip'] = None
    used = {s['name'] for s in plan['sessions']}
    if plan['main']:
      used.add(plan['main']['name'])
    for name in sorted(used):
      if name in MODELS:
        model, v, out, pixels = MODELS[name]
        w.pages[URL + model + '.zip'] = savedmodels.policy_archive(
            model, v, out, pixels)
    for u in [u for u, p in w.pages.items() if p is None]:
      del w.pages[u]
    ss = [self.start(ctx, s, ctx) for s in plan['sessions']]
    for op in plan['ops']:
      self.one(ctx, ss, op)
    ctx.nontrivial = ctx.nontrivial or len(ss) > 1
    # One of them again, alone.
    k = plan['ops'][0]['s']
    again = self.start(ctx, plan['sessions'][k], None)
    for op in plan['ops']:
      if op['s'] == k and op['op'] in ('reset', 'step'):
        self.act(ctx, again, op, None)
    ctx.check(again['trace'] == ss[k]['trace'], 'not-reproducible',
              lambda: f'{ss[k]["group"]} experiment {ss[k]["name"]} with the '
              'same seeds went differently beside other experiments: '
              f'{again["trace"]} vs {ss[k]["trace"]}')
    if plan['main']:
      self.main(ctx, plan['main'])
    ctx.log('traces', [s['trace'] for s in ss])

  def one(self, ctx, ss, op):
    if op['op'] == 'register':
      self.names += 1
      name = f'verif_{os.getpid()}_{self.names}'
      e = self.reg.create_eval_experiment('relative_random_simple')
      f = self.reg.create_eval_experiment('relative_random_prior_rates')
      self.reg.register_eval_experiment(name, f)
      self.reg.register_eval_experiment('relative_random_simple', f)
      ctx.check(self.reg.create_eval_experiment(name) is f, 'registration',
                'a registered experiment is not the one that is created')
      ctx.check(self.reg.create_eval_experiment('relative_random_simple') is e,
                'registration', 'registering an experiment replaced another')
      ctx.fault('registration')
    elif op['op'] == 'unknown':
      for make in (self.reg.create_eval_experiment,
                   self.reg.create_train_experiment,
                   self.reg.create_microscope_experiment):
        try:
          make('relative_randm')
        except ValueError as e:
          ctx.check('relative_randm' in str(e), 'unknown-name',
                    f'the error does not say which name: {e}')
        else:
          ctx.violate('unknown-name', 'an unknown name was accepted')
      ctx.fault('unknown_name')
    elif op['op'] == 'abandon':
      # Another user builds the same experiment and drops it half way.
      s = ss[op['s']]
      other = self.start(ctx, dict(s['spec'], rng=5, world=6), None)
      self.act(ctx, other, {'op': 'step', 'see': 'ok', 'seed': 1,
                            'mode': 'uniform'}, None)
      ctx.fault('agent_abandoned')
    else:
      self.act(ctx, ss[op['s']], op, ctx)

  def start(self, ctx, spec, record):
    m, reg = self.m, self.reg
    group, name = spec['group'], spec['name']
    s = {'spec': spec, 'group': group, 'name': name, 'trace': [],
         'table': TABLE[group][name]}
    make = {'live': reg.create_microscope_experiment,
            'train': reg.create_train_experiment,
            'eval': reg.create_eval_experiment}[group]
    e = ctx.must('create experiment', make, name)
    rng = np.random.default_rng(spec['rng'])
    s['rng'] = np.random.default_rng(spec['world'])
    w = self.web
    if 'net' in spec and record is not None:
      w.fired, w.fault, w.cut = None, spec['net'], spec['cut']
      try:
        with core.quiet():
          e.get_agent(np.random.default_rng(0), e.get_adapters_and_goal())
      except Exception:  # pylint: disable=broad-except
        ctx.check(w.fired, 'cannot-build', f'{name} failed without a fault')
      w.fault = None
      if w.fired:
        ctx.fault('net_' + spec['net'])
    with core.quiet():
      if group == 'live':
        s['agent'] = ctx.must(f'build {name}', self.ma.MicroscopeAgent, rng, e)
        s['sim'] = m.simulator.PuttingDuneSimulator(
            m.graphene.PristineSingleDopedGraphene(),
            image_duration=dt.timedelta(seconds=2))
        s['inner'] = s['agent'].agent
        s['adapter'] = s['agent'].action_adapter
        s['features'] = s['agent'].feature_constructor
      else:
        s['env'] = ctx.must(f'build {name}',
                            m.run_helpers.create_putting_dune_env,
                            spec['world'],
                            get_adapters_and_goal=e.get_adapters_and_goal,
                            get_simulator_config=e.get_simulator_config)
        s['inner'] = None
        if group == 'eval':
          s['inner'] = ctx.must(f'build {name}', e.get_agent, rng,
                                e.get_adapters_and_goal())
        s['ar'] = np.random.default_rng(spec['rng'])
    self.reset(ctx, s)
    return s

  def reset(self, ctx, s):
    image = s['table'][4] == 'image'
    if s['group'] == 'live':
      s['obs'] = s['sim'].reset(s['rng'], return_image=image)
      ctx.must('MicroscopeAgent.reset', s['agent'].reset, s['rng'], s['obs'])
      s['goal'] = s['agent'].goal
    else:
      s['ts'] = ctx.must('reset', s['env'].reset)
      s['obs'] = s['env'].last_microscope_observation
      s['goal'] = s['env'].goal
      ctx.check(s['obs'].elapsed_time == dt.timedelta(seconds=2),
                'image-duration', f'{s["name"]}: an image takes '
                f'{s["obs"].elapsed_time}')
    s['trace'].append(core.digest(world.enc_obs(s['obs'])))

  # ---------------------------------------------------------------- steps ----
  def act(self, ctx, s, op, record):
    if op['op'] == 'reset':
      self.reset(ctx, s)
      return
    name, group = s['name'], s['group']
    m = self.m
    obs = s['obs']
    see = op['see'] if group == 'live' else 'ok'
    if see != 'ok':
      obs = self.seen(ctx, obs, see, op['seed'], record)
    if group == 'live':
      box = []
      s['agent'].agent = _Record(s['inner'], box)
      controls = ctx.must(f'{name}: MicroscopeAgent.step', s['agent'].step, obs)
      if see == 'lost':
        ctx.check(not box and len(controls) == 1 and not controls[0].dwell_time,
                  'acted-blind', f'{name} acted without seeing a silicon')
      else:
        ctx.check(len(box) == 1, 'agent-steps', f'{len(box)} agent steps')
        o, a = box[0]
        self.judge_action(ctx, s, obs, o, a, s['adapter'].action_spec)
        self.judge_controls(ctx, s, obs, a, controls)
      if see != 'ok' and record is not None:
        ctx.fault('silicon_lost' if see == 'lost' else 'atoms_permuted')
      s['obs'] = s['sim'].step_and_image(
          s['rng'], list(controls), return_image=s['table'][4] == 'image')
      ctx.simtime(s['obs'].elapsed_time.total_seconds())
      s['trace'].append(core.digest([world.enc_control(c) for c in controls]))
    else:
      env = s['env']
      spec = env.action_spec()
      o = s['ts'].observation
      if s['ts'].last():
        self.reset(ctx, s)
        return
      if s['inner'] is not None:
        a = ctx.must(f'{name}: agent.step', s['inner'].step, s['ts'])
        self.judge_action(ctx, s, obs, o, a, spec)
      else:
        a = world.sample_action(spec, s['ar'], op['mode'])
        self.judge_observation(ctx, s, obs, o)
        n = 2 + (s['table'][2][0] != s['table'][2][1])
        ctx.check(tuple(spec.shape) == (n,), 'action-shape',
                  f'{name}: actions have shape {spec.shape}')
      self.judge_rates(ctx, s)
      s['ts'] = ctx.must(f'{name}: step', env.step, a)
      new = env.last_microscope_observation
      self.judge_controls(ctx, s, obs, a, new.controls)
      s['obs'] = new
      ctx.simtime(new.elapsed_time.total_seconds())
      s['trace'].append(core.digest([world.enc_ts(s['ts']),
                                     world.enc_obs(new)]))
    t = s['table']
    ctx.state(group, name, see, op.get('mode') if t[0] is None else '')

  def seen(self, ctx, o, see, seed, record):
    import dataclasses
    pos = np.array(o.grid.atom_positions)
    num = np.array(o.grid.atomic_numbers)
    if see == 'lost':
      num[:] = world.C
    else:
      p = np.random.default_rng(seed).permutation(len(num))
      pos, num = pos[p], num[p]
    return dataclasses.replace(
        o, grid=self.m.microscope_utils.AtomicGridMicroscopeFrame(
            self.m.microscope_utils.AtomicGrid(pos, num)))

  def frame(self, obs):
    """Silicon and atoms in the material frame (angstroms)."""
    f = obs.fov
    lo = np.array(world.pt(f.lower_left))
    size = np.array(world.pt(f.upper_right)) - lo
    pos = np.asarray(obs.grid.atom_positions) * size + lo
    return lo, size, pos, int(world.si_index(obs.grid)[0])

  def judge_observation(self, ctx, s, obs, o):
    lo, size, pos, si = self.frame(obs)
    gd = np.asarray(s['goal'].goal_position_material_frame) - pos[si]
    if s['table'][4] == 'image':
      ctx.check(isinstance(o, dict) and np.shape(o['image']) == (128, 128, 1),
                'observation', f'{s["name"]}: no 128 x 128 image')
      got = np.asarray(o['goal_delta_angstroms'])
    else:
      ctx.check(np.shape(o) == (10,), 'observation', f'{s["name"]}: '
                f'observation of shape {np.shape(o)}')
      got = np.asarray(o)[-2:]
    ctx.check(np.allclose(got, gd, atol=2e-3), 'goal-seen', f'{s["name"]}: the '
              f'goal is {gd} away, the agent sees {got}')

  def judge_action(self, ctx, s, obs, o, a, spec):
    kind, frame, (d0, d1), reach, feat = s['table'][:5]
    name = s['name']
    self.judge_observation(ctx, s, obs, o)
    a = np.asarray(a)
    n = 2 + (d0 != d1)
    ctx.check(tuple(spec.shape) == (n,) and a.shape == (n,), 'action-shape',
              f'{name}: action {a.shape}, spec {spec.shape}, expected ({n},)')
    ctx.check(np.isfinite(a).all(), 'action-finite', f'{name}: {a}')
    if kind == 'random':
      lo = np.array([-1, -1, 0][:n])
      ctx.check((a >= lo).all() and (a <= 1).all(), 'action-range',
                f'{name}: {a}')
      u = (a - lo) / (1 - lo)
      for i, x in enumerate(u):
        ctx.count(f'u{i}_n')
        for q in range(4):
          ctx.count(f'u{i}_{q}', int(q / 4 <= x < (q + 1) / 4))
    elif kind == 'tf':
      want = savedmodels.policy_action(MODELS[name][1], n, o)
      ctx.check(np.allclose(a, want, atol=1e-3), 'wrong-policy', f'{name}: '
                f'action {a}, its policy says {want}')
    elif kind == 'greedy':
      lo, size, pos, si = self.frame(obs)
      nb = physics.neighbours(pos, si)
      if nb is None:
        return
      goal = np.asarray(s['goal'].goal_position_material_frame) - pos[si]
      ds = pos[nb] - pos[si]
      score = np.linalg.norm(ds - goal, axis=1)
      ok = []
      for k in np.flatnonzero(score <= score.min() + 5e-3):
        e1 = physics.unit(ds[k])
        e2 = np.array([-e1[1], e1[0]])
        x, y = GREEDY[name]
        ok.append(x * e1 + y * e2)
      ctx.check(any(np.allclose(a, w, atol=5e-3) for w in ok), 'greedy-aim',
                f'{name}: aims {a} from the silicon, expected one of {ok} '
                f'(neighbours {ds.tolist()}, goal {goal})')

  def judge_controls(self, ctx, s, obs, a, controls):
    kind, frame, (d0, d1), reach, feat = s['table'][:5]
    name = s['name']
    ctx.check(len(controls) == 1, 'controls', f'{name}: {len(controls)}')
    c = controls[0]
    a = np.asarray(a, dtype=float)
    lo, size, pos, si = self.frame(obs)
    p = np.asarray(obs.grid.atom_positions)[si]
    if frame == 'direct':
      want = np.clip(a[:2], 0, 1)
    elif frame == 'mat':
      want = np.clip(p + a[:2] / size, 0, 1)
    else:
      want = np.clip(p + np.clip(a[:2], -1, 1) * reach / size, 0, 1)
    got = np.array(world.pt(c.position))
    ctx.check(np.allclose(got, want, atol=2e-3), 'beam-position', f'{name}: '
              f'action {a} put the beam at {got} of the field of view, '
              f'expected {want}')
    dwell = d0 if d0 == d1 else d0 + np.clip(a[2], 0, 1) * (d1 - d0)
    ctx.check(abs(c.dwell_time.total_seconds() - dwell) < 1e-3, 'dwell',
              f'{name}: action {a} dwells {c.dwell_time}, expected {dwell} s')

  def judge_rates(self, ctx, s):
    """The simulated physics is the one in the experiment's name."""
    env = s['env']
    mat = env.sim.material
    pos = np.asarray(mat.grid.atom_positions)
    si = int(world.si_index(mat.grid)[0])
    nb = physics.neighbours(pos, si)
    if nb is None or not hasattr(mat, '_rate_function'):
      return
    e = pos[nb[0]] - pos[si]
    beam = pos[si] + 0.9 * e + 0.2 * np.array([-e[1], e[0]])
    r = mat._rate_function(mat.grid, self.m.geometry.PointMaterialFrame(
        self.m.geometry.Point(beam)))
    got = {int(world.si_index(x.grid)[0]): float(x.rate)
           for x in r.successor_states}
    want = getattr(physics, s['table'][5])(pos[si], pos[nb], beam)
    have = np.array([got.get(int(k), np.nan) for k in nb])
    ctx.check(np.allclose(have, want, atol=1e-4), 'physics', f'{s["name"]}: '
              f'rates {have}, the {s["table"][5]} rates are {want}')

  # ------------------------------------------------------------ eval.main ----
  def main(self, ctx, p):
    lib = self.eval_lib
    e = self.reg.create_eval_experiment(p['name'])
    rng = np.random.default_rng(0)
    with core.quiet():
      agent = e.get_agent(rng, e.get_adapters_and_goal())
      env = self.m.run_helpers.create_putting_dune_env(
          99, get_adapters_and_goal=e.get_adapters_and_goal,
          get_simulator_config=e.get_simulator_config)
    goals, acts, secs, rew = 0, 0, 0.0, 0.0
    for seed in p['seeds']:
      env.seed(seed)
      ts = env.reset()
      t = env.last_microscope_observation.elapsed_time.total_seconds()
      n, r = 0, 0.0
      while t < 600.0:
        ts = env.step(agent.step(ts))
        t += env.last_microscope_observation.elapsed_time.total_seconds()
        n, r = n + 1, r + ts.reward
        if ts.last():
          break
      if ts.last() and ts.discount == 0:
        goals, acts, secs, rew = goals + 1, acts + n, secs + t, rew + r
      ctx.simtime(t)
    den = max(goals, 1)
    want = {'Proportion successful runs': goals / len(p['seeds']),
            'Average number of actions taken': acts / den,
            'Average environment seconds to goal': secs / den,
            'Average agent seconds to goal': 0.0,
            'Average seconds to goal': secs / den,
            'Average total reward': rew / den}
    lines = []

    class H(logging.Handler):

      def emit(self, rec):
        lines.append(rec.getMessage())

    from absl import logging as alog
    h = H()
    logger, lv = alog.get_absl_logger(), alog.get_verbosity()
    lib.EVAL_SUITES = dict(self.suites, verif=lib.EvalSuite(tuple(p['seeds'])))
    logger.addHandler(h)
    alog.set_verbosity(alog.INFO)
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    boot.clock.active = True
    try:
      with core.quiet():
        ctx.must('eval.main', self.eval.main, self.eval.Args(
            experiment_name=p['name'], eval_suite='verif'))
    finally:
      boot.clock.active = False
      logging.disable(off)
      logger.removeHandler(h)
      alog.set_verbosity(lv)
      lib.EVAL_SUITES = self.suites
    for k, v in want.items():
      got = [x for x in lines if x.startswith(k + ':')]
      ctx.check(len(got) == 1, 'report', f'{k}: reported {got}')
      g = float(got[0].split(':')[1])
      ctx.check(abs(g - v) <= 0.0051 + 1e-6 * abs(v), 'report',
                f'{p["name"]} on seeds {p["seeds"]}: reported {got[0]}, '
                f'but it was {v}')
    ctx.count('main_runs')
    ctx.state('main', p['name'], goals)
    ctx.log('main', p['name'], want)

  def finalize(self, outs):
    counts = {}
    for o in outs:
      for k, v in o['counts'].items():
        counts[k] = counts.get(k, 0) + v
    for i in range(3):
      n = counts.get(f'u{i}_n', 0)
      if n < 200:
        continue
      for q in range(4):
        k = counts.get(f'u{i}_{q}', 0)
        z = (k - n / 4) / math.sqrt(n * 3 / 16)
        if abs(z) > 6:
          return [('random-uniform', f'{k} of {n} random actions have component '
                   f'{i} in quarter {q} of its range (z = {z:.1f})')]
    return []


class _Record:
  """Notes what the real agent saw and did."""

  def __init__(self, inner, box):
    self.inner, self.box = inner, box

  def step(self, ts):
    a = self.inner.step(ts)
    self.box.append((ts.observation, np.array(a)))
    return a

  def set_mode(self, mode):
    self.inner.set_mode(mode)


CHECK = C12()
