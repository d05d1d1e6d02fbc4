"""C14: the session log on disk is the session that happened."""
import ast
import csv
import os

import numpy as np

from sim import core
from sim import disk
from sim import scope
from sim import world


class C14(core.Check):
  id = 'C14'
  quick_runs = 320
  thorough_runs = 8000
  nontrivial_rule = (
      'one live session driven twice, bare and wrapped in the logger, with '
      'detector faults, agent failures, repeated flushes and full or failing '
      'disks; non-trivial if something was written and a fault fired or two '
      'episodes were logged.')
  state_measure = ('distinct (episodes logged capped at 5, flushes, outcome of '
                   'each flush, fault) tuples')
  real = ['MicroscopeAgentLogger', 'MicroscopeAgent', 'io.write_records', 'TensorFlow '
          'record writer', 'csv', 'data model', 'goals', 'simulator as sample']
  stubs = ['detector faults', 'scripted inner agent in part of the runs',
           'disk quota and failing file operations']
  fault_kinds = ('disk_full', 'disk_error', 'detector_lost_silicon',
                 'agent_crash', 'flush_twice', 'body_raised')

  def load(self):
    scope.load(self)

  def cleanup(self):
    disk.cleanup()

  def generate(self, rnd, tier):
    p = scope.gen_session(rnd, tier)
    ops = p['ops']
    for _ in range(rnd.choice([0, 0, 1, 2])):
      ops.insert(rnd.randrange(len(ops) + 1), {
          'op': 'flush', 'disk': rnd.choice(['ok', 'ok', 'quota', 'error'])})
    for o in ops:
      if o['op'] == 'flush':
        o['n'] = rnd.choice([0, 10, 100, 400, 2000])
        o['k'] = rnd.randrange(1, 4)
    p['end'] = rnd.choice(['ok', 'ok', 'quota', 'error', 'raise', 'twice'])
    p['end_n'] = rnd.choice([0, 10, 100, 400, 2000])
    p['end_k'] = rnd.randrange(1, 4)
    return p

  # One pass over the plan; returns the controls issued and what happened.
  def drive(self, plan, ctx, agent, inner, s, model, flush):
    m = self.m
    r = np.random.default_rng(plan['rng'] + 1)
    out = []
    live = False
    cur = {'steps': [], 'goal': None}

    def reset(op):
      nonlocal live, cur
      if op.get('new'):
        s.new_sample()
      obs = s.detect(op['fault'], 0)
      if cur['steps']:
        model.append(cur)
      cur = {'steps': [], 'goal': None}
      try:
        agent.reset(r, obs)
      except RuntimeError as e:
        out.append(('reset failed', type(e).__name__))
        live = False
        return
      live = True
      cur['goal'] = tuple(float(x) for x in
                          agent.goal.goal_position_material_frame)

    reset({'fault': 'ok'})
    for op in plan['ops']:
      k = op['op']
      if k == 'flush':
        if flush is not None:
          flush(op['disk'], op['n'], op['k'], model + (
              [cur] if cur['steps'] else []))
        continue
      if k == 'reset':
        reset(op)
        continue
      if not live:
        reset({'fault': 'ok'})
        if not live:
          continue
      obs = s.detect(op.get('fault', 'ok'), op.get('seed', 0))
      if k == 'agent_crash':
        inner.fail = True
        try:
          agent.step(obs)
          out.append(('no crash',))
        except core.InjectedFault:
          out.append(('agent crashed',))
          if flush is not None:
            ctx.fault('agent_crash')
        continue
      try:
        controls = agent.step(obs)
      except m.graphene.SiliconNotFoundError:
        out.append(('silicon not found',))
        continue
      out.append(('step', [world.enc_control(c) for c in controls]))
      if op['fault'] == 'lost':
        if flush is not None:
          ctx.fault('detector_lost_silicon')
        reward, terminal = 0.0, False
      else:
        g = np.asarray(cur['goal'])
        i = world.si_index(obs.grid)[0]
        si = obs.fov.microscope_frame_to_material_frame(
            np.asarray(obs.grid.atom_positions[i]))
        d = float(np.linalg.norm(np.asarray(si).reshape(2) - g))
        terminal = d < 0.71
        if abs(d - 0.71) < 1e-6:
          raise core.HarnessError('marginal goal distance')
        reward = 0.9967 ** obs.elapsed_time.total_seconds() if terminal else 0.0
      cur['steps'].append((obs, reward, terminal))
      if k == 'step':
        s.apply(list(controls))
    if cur['steps']:
      model.append(cur)
    return out

  def execute(self, plan, ctx):
    m = self.m
    s0 = scope.Session(m, plan)
    agent, inner = scope.build_agent(m, plan, self.modules)
    bare = self.drive(plan, ctx, agent, inner, s0, [], None)

    s = scope.Session(m, plan)
    agent, inner = scope.build_agent(m, plan, self.modules)
    logdir = os.path.join(ctx.scratch(), 'log')
    os.makedirs(logdir)
    model = []
    n_flush = [0]
    logger = self.microscope_agent.MicroscopeAgentLogger(agent, logdir=logdir)

    def faulty(how, n, k, fn):
      if how == 'quota':
        with disk.quota(n):
          return fn()
      if how == 'error':
        with disk.Faults(logdir, fail_at=k) as f:
          try:
            return fn()
          finally:
            if f.fired:
              ctx.fault('disk_error')
      return fn()

    def flush(how, n, k, sofar):
      n_flush[0] += 1
      if n_flush[0] > 1:
        ctx.fault('flush_twice')
      try:
        faulty(how, n, k, logger.flush)
      except Exception as e:  # pylint: disable=broad-except
        if how == 'ok':
          raise
        if how == 'quota':
          ctx.fault('disk_full')
        ctx.log('flush failed', type(e).__name__)
        ctx.state(min(len(sofar), 5), n_flush[0], how, 'failed')
        return
      self.verify(ctx, logdir, sofar, how)
      ctx.state(min(len(sofar), 5), n_flush[0], how, 'ok')

    end = plan['end']

    def body():
      with logger as a:
        logged = self.drive(plan, ctx, a, inner, s, model, flush)
        ctx.check(logged == bare, 'logging-perturbs', lambda: self.diff(
            bare, logged))
        if end == 'raise':
          ctx.fault('body_raised')
          raise core.InjectedFault('session aborted')

    try:
      faulty(end if end in ('quota', 'error') and not plan_has_flush(plan)
             else 'ok', plan['end_n'], plan['end_k'], body)
    except core.InjectedFault:
      ctx.check(end == 'raise', 'foreign-fault', 'an injected fault escaped')
      logger.flush()
    except core.Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      if end not in ('quota', 'error'):
        raise
      ctx.fault('disk_full' if end == 'quota' else 'disk_error')
      ctx.log('exit failed', type(e).__name__)
      # Space was freed: saving again has to save everything.
      logger.flush()
    else:
      ctx.check(end != 'raise', 'exception-swallowed',
                'the exception that ended the session disappeared')
    if end == 'twice':
      ctx.fault('flush_twice')
      logger.flush()
    self.verify(ctx, logdir, model, end)
    if len(model) >= 2 or (model and ctx.faults):
      ctx.nontrivial = True
    ctx.log('session', bare, [len(e['steps']) for e in model])
    for e in model:
      ctx.simtime(sum(o.elapsed_time.total_seconds() for o, _, _ in e['steps']))

  def diff(self, a, b):
    for i, (x, y) in enumerate(zip(a, b)):
      if x != y:
        return f'event {i}: without logger {x}, with logger {y}'
    return f'{len(a)} events without logger, {len(b)} with'

  def verify(self, ctx, logdir, model, how):
    def rows(name):
      with open(os.path.join(logdir, name), newline='') as f:
        return list(csv.DictReader(f))

    when = f'(after a flush with disk={how})'
    steps = rows('steps.csv')
    n = sum(len(e['steps']) for e in model)
    ctx.check(len(steps) == n, 'step-rows',
              f'{len(steps)} step rows for {n} steps {when}')
    i = 0
    ids = []
    for e in model:
      eid = steps[i]['episode']
      ids.append(eid)
      for j, (obs, reward, terminal) in enumerate(e['steps']):
        row = steps[i]
        i += 1
        ctx.check(row['episode'] == eid, 'step-episode',
                  f'row {i}: episode {row["episode"]} instead of {eid} {when}')
        ctx.check(int(row['episode_step']) - int(steps[i - 1 - j][
            'episode_step']) == j, 'step-number', f'row {i}: {row}')
        ctx.check(abs(float(row['reward']) - reward) < 1e-9, 'step-reward',
                  f'row {i}: reward {row["reward"]}, was {reward} {when}')
        ctx.check(abs(float(row['elapsed_seconds'])
                      - obs.elapsed_time.total_seconds()) < 1e-9,
                  'step-elapsed', f'row {i}: {row}')
        ctx.check(row['terminal'] == str(terminal), 'step-terminal',
                  f'row {i}: {row["terminal"]}, was {terminal}')
    ctx.check(len(set(ids)) == len(ids), 'episode-ids',
              f'episodes share an id: {ids}')
    ctx.check([int(x) for x in ids] == list(range(len(ids))), 'episode-ids',
              f'trajectory number k is not episode number k: {ids}')
    eps = rows('episodes.csv')
    ctx.check(len(eps) == len(model), 'episode-rows',
              f'{len(eps)} episode rows for {len(model)} episodes {when}')
    for row, e, eid in zip(eps, model, ids):
      ctx.check(row['episode'] == eid, 'episode-id',
                f'episode row {row["episode"]} describes the episode whose '
                f'steps are logged as {eid} {when}')
      ctx.check(int(row['episode_steps']) == len(e['steps']), 'episode-steps',
                f'{row}: had {len(e["steps"])} steps')
      ret = sum(r for _, r, _ in e['steps'])
      ctx.check(abs(float(row['episode_return']) - ret) < 1e-9,
                'episode-return', f'{row}: return was {ret}')
      goal = ast.literal_eval(row['episode_goal'])
      ctx.check(np.allclose(goal, e['goal'], atol=1e-6), 'episode-goal',
                f'{row}: goal was {e["goal"]}')
    recs = list(self.pdio.read_records(
        os.path.join(logdir, 'trajectories.tfrecords'),
        self.m.microscope_utils.Trajectory))
    ctx.check(len(recs) == len(model), 'trajectories',
              f'{len(recs)} trajectories for {len(model)} episodes {when}')
    for t, e in zip(recs, model):
      ctx.check(len(t.observations) == len(e['steps']), 'trajectory-length',
                f'{len(t.observations)} observations, {len(e["steps"])} steps')
      for a, (b, _, _) in zip(t.observations, e['steps']):
        same_observation(ctx, a, b)


def same_observation(ctx, a, b):
  """a was read back, b was recorded (float32 precision on disk)."""
  ctx.check(np.allclose(a.grid.atom_positions, b.grid.atom_positions,
                        rtol=1e-6, atol=1e-6)
            and np.array_equal(a.grid.atomic_numbers, b.grid.atomic_numbers),
            'stored-grid', 'the stored atoms differ')
  ctx.check(np.allclose(world.enc_fov(a.fov), world.enc_fov(b.fov), rtol=1e-6,
                        atol=1e-5), 'stored-fov', f'{a.fov} {b.fov}')
  ctx.check(abs(a.elapsed_time.total_seconds() - b.elapsed_time.total_seconds())
            <= 2e-6 + 1e-6 * b.elapsed_time.total_seconds(), 'stored-elapsed',
            f'{a.elapsed_time} {b.elapsed_time}')
  ca = [world.enc_control(c) for c in a.controls]
  cb = [world.enc_control(c) for c in b.controls]
  ctx.check(len(ca) == len(cb) and all(
      np.allclose(x, y, rtol=1e-6, atol=2e-6) for x, y in zip(ca, cb)),
      'stored-controls', f'{ca} {cb}')
  for f in ('image', 'label_image'):
    x, y = getattr(a, f), getattr(b, f)
    ctx.check((x is None) == (y is None) and (
        y is None or (x.dtype == y.dtype and np.array_equal(x, y))),
        f'stored-{f}', f'{f} differs')


def plan_has_flush(plan):
  return any(o['op'] == 'flush' for o in plan['ops'])


CHECK = C14()
