"""Simulator-level histories: plan generation and a full recording.

A walk drives PuttingDuneSimulator over a seeded history of resets, multi-
control exposures, imaging, observer churn and injected rate-function crashes,
and records everything any observer or caller could see.
"""
import datetime as dt

import numpy as np

from sim import core
from sim import world


def gen_plan(rnd, tier, *, images=0.05, faults=True, observers=True,
             rates=('simple', 'gmm', 'const', 'const'), long=False):
  n_steps = rnd.randrange(4, 40 if tier == 'quick' else 90)
  if long:
    n_steps *= 2
  env = {
      'rates': world.gen_rates(rnd, rates),
      'columns': rnd.choice([50, 50, 40, 30, 24]),
  }
  if rnd.random() < 0.06 and tier == 'thorough':
    env['rates'] = {'kind': 'human', 'max_rate': 1.0}
    n_steps = min(n_steps, 8)
  image_s = rnd.choice([2.0, 2.0, 0.0, 0.5, 3.25, 1e-3])
  use_images = rnd.random() < images
  if use_images:
    n_steps = min(n_steps, 6)
  ops = [{'op': 'reset', 'image': use_images}]
  styles = rnd.choice([
      ['near'], ['near', 'far'], ['near', 'abs'], ['abs'], ['chase'],
      ['near', 'chase', 'abs', 'far'],
  ])
  dwells = rnd.choice([
      [0.5, 1.5, 5.0], [1.5], [0.0, 0.01, 1.5], [10.0, 60.0],
      [0.000001, 3.3333333, 0.1],
  ])
  top = (sum(env['rates']['rates']) if env['rates']['kind'] == 'const' else
         1.5)
  dwells = [d for d in dwells if d * top <= 12] or [round(8 / top, 3)]
  for _ in range(n_steps):
    r = rnd.random()
    if r < 0.04:
      ops.append({'op': 'reset', 'image': use_images and rnd.random() < 0.5})
      continue
    if observers and r < 0.10:
      ops.append({'op': rnd.choice(['add', 'rm']), 'kind': rnd.choice(
          ['rec', 'event'])})
      continue
    k = rnd.choice([0, 1, 1, 1, 1, 2, 3, 5])
    cs = []
    for _ in range(k):
      st = rnd.choice(styles)
      c = {'at': st, 'dwell': rnd.choice(dwells)}
      if st == 'abs':
        c['x'], c['y'] = rnd.uniform(-0.2, 1.2), rnd.uniform(-0.2, 1.2)
      elif st == 'near':
        c['x'], c['y'] = rnd.gauss(0, 1.2), rnd.gauss(0, 1.2)
      elif st == 'far':
        c['x'], c['y'] = rnd.gauss(0, 6), rnd.gauss(0, 6)
      else:
        # Chase: drag the silicon in one direction, towards the edge.
        c['x'], c['y'] = 1.42, 0.0
        c['dir'] = rnd.choice([0, 0, 0, 1])
      if rnd.random() < 0.3:
        c['v'], c['c'] = rnd.choice([30.0, 60.0, 80.0, 100.0]), rnd.choice(
            [0.05, 0.1, 0.5])
      cs.append(c)
    ops.append({
        'op': 'step', 'controls': cs,
        'image': use_images and rnd.random() < 0.7,
    })
  plan = {
      'env': env, 'image_s': image_s, 'rng': rnd.randrange(2**31),
      'heading': rnd.uniform(0, 6.283), 'ops': ops,
      'init_obs': rnd.choice(['rec', 'rec', 'event', 'both', 'rec2']),
  }
  if faults and rnd.random() < 0.35:
    plan['fail_at'] = sorted(
        rnd.sample(range(1, 60), rnd.choice([1, 2, 4])))
  return plan


class Recorder:
  """A simulator observer that records every notification it receives."""

  def __init__(self, name, base):
    self.name = name
    self.events = []

    rec = self

    class Obs(base):

      def observe_reset(self, grid, fov):
        rec.events.append(('reset', grid, fov))

      def observe_apply_control(self, control):
        rec.events.append(('control', control))

      def observe_transition(self, time_since_control_was_applied, grid):
        rec.events.append(('transition', time_since_control_was_applied, grid))

      def observe_fov_change(self, fov):
        rec.events.append(('fov', fov))

      def observe_take_image(self, duration, fov):
        rec.events.append(('take', duration, fov))

      def observe_generated_image(self, image):
        rec.events.append(('image', image))

    self.obs = Obs()


class Walk:
  """Runs a plan against the real simulator; one entry per op in .log."""

  def __init__(self, m, plan, with_observers=True):
    self.m = m
    self.plan = plan
    self.with_observers = with_observers
    self.material = world.make_material(
        m, plan['env'], failing=plan.get('fail_at'))
    self.recorders = []
    self.event_observers = []
    self.all_recorders = []
    init = []
    self.main = Recorder('main', m.microscope_utils.SimulatorObserver)
    if with_observers:
      init.append(self.main.obs)
      kind = plan.get('init_obs', 'rec')
      if kind in ('event', 'both'):
        e = m.simulator_observers.EventObserver()
        self.event_observers.append(e)
        init.append(e)
      if kind in ('rec2', 'both'):
        r = Recorder('r0', m.microscope_utils.SimulatorObserver)
        self.recorders.append(r)
        self.all_recorders.append(r)
        init.append(r.obs)
    self.sim = m.simulator.PuttingDuneSimulator(
        self.material,
        image_duration=dt.timedelta(seconds=plan['image_s']),
        observers=init,
    )
    self.rng = np.random.default_rng(plan['rng'])
    self.last = None
    self.prev_fov = None

  def controls(self, op):
    """Resolves symbolic controls against the true silicon position."""
    out = []
    mu, ge = self.m.microscope_utils, self.m.geometry
    fov = self.last.fov
    ll = np.array([fov.lower_left.x, fov.lower_left.y])
    ur = np.array([fov.upper_right.x, fov.upper_right.y])
    si = np.asarray(self.material.get_silicon_position()).reshape(-1)[:2]
    for c in op['controls']:
      if c['at'] == 'abs':
        p = np.array([c['x'], c['y']])
      else:
        d = np.array([c['x'], c['y']])
        if c['at'] == 'chase':
          pos = self.material.grid.atom_positions
          idx = [j for j in world.three_nearest(
              pos, int(np.argmin(np.linalg.norm(pos - si, axis=1))))]
          idx.sort()
          h = self.plan['heading'] + 3.1 * c.get('dir', 0)
          hv = np.array([np.cos(h), np.sin(h)])
          best = max(idx, key=lambda j: float((pos[j] - si) @ hv))
          d = pos[best] - si
        p = (si + d - ll) / (ur - ll)
      kw = {}
      if 'v' in c:
        kw = dict(voltage_kv=c['v'], current_na=c['c'])
      out.append(mu.BeamControlMicroscopeFrame(mu.BeamControl(
          ge.Point(float(p[0]), float(p[1])),
          dt.timedelta(seconds=c['dwell']), **kw)))
    return out

  def run(self, ctx, visit):
    """Executes the ops; visit(kind, op, info) is called after each."""
    plan, sim = self.plan, self.sim
    started = False
    need_reset = False
    for op in plan['ops']:
      k = op['op']
      mark = len(self.main.events)
      if k == 'reset':
        obs = ctx.must('reset', sim.reset, self.rng,
                       return_image=op['image'])
        self.prev_fov = None
        self.last = obs
        started = True
        need_reset = False
        visit('reset', op, dict(obs=obs, events=self.main.events[mark:],
                                rng_state=str(self.rng.bit_generator.state)))
      elif k == 'step':
        if not started:
          continue
        controls = self.controls(op)
        self.prev_fov = self.last.fov
        pre_grid = self.material.grid
        try:
          obs = ctx.must('step_and_image', sim.step_and_image, self.rng,
                         controls, return_image=op['image'])
        except core.InjectedFault:
          ctx.fault('rate_function_crash_mid_exposure')
          visit('crash', op, dict(controls=controls, pre_grid=pre_grid,
                                  events=self.main.events[mark:]))
          continue
        self.last = obs
        ctx.simtime(obs.elapsed_time.total_seconds())
        visit('step', op, dict(
            obs=obs, controls=controls, pre_grid=pre_grid,
            prev_fov=self.prev_fov, events=self.main.events[mark:],
            rng_state=str(self.rng.bit_generator.state)))
      elif k == 'add' and self.with_observers:
        if op['kind'] == 'rec':
          r = Recorder(f'r{len(self.all_recorders)}',
                       self.m.microscope_utils.SimulatorObserver)
          self.recorders.append(r)
          self.all_recorders.append(r)
          r.base = len(self.main.events)
          sim.add_observer(r.obs)
        else:
          e = self.m.simulator_observers.EventObserver()
          e.verif_base = len(self.main.events)
          self.event_observers.append(e)
          sim.add_observer(e)
        ctx.fault('observer_attached_mid_run')
        visit('add', op, {})
      elif k == 'rm' and self.with_observers:
        if op['kind'] == 'rec' and self.recorders:
          r = self.recorders.pop(0)
          r.end = len(self.main.events)
          sim.remove_observer(r.obs)
          ctx.fault('observer_detached_mid_run')
        elif op['kind'] == 'event' and self.event_observers:
          e = self.event_observers.pop(0)
          sim.remove_observer(e)
          ctx.fault('observer_detached_mid_run')
        visit('rm', op, {})


def shrink(plan):
  if plan.get('fail_at'):
    for i in range(len(plan['fail_at'])):
      yield dict(plan, fail_at=plan['fail_at'][:i] + plan['fail_at'][i + 1:])
  for i, op in enumerate(plan['ops']):
    if op['op'] == 'step' and op['controls']:
      for j in range(len(op['controls'])):
        o = dict(op, controls=op['controls'][:j] + op['controls'][j + 1:])
        yield dict(plan, ops=plan['ops'][:i] + [o] + plan['ops'][i + 1:])
  for i, op in enumerate(plan['ops']):
    if op.get('image'):
      o = dict(op, image=False)
      yield dict(plan, ops=plan['ops'][:i] + [o] + plan['ops'][i + 1:])
