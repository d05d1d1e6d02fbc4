"""C05: simulated time is accounted for exactly."""
import math

from sim import core
from sim import simwalk
from sim import world

GAMMA = 0.9967


class C05(core.Check):
  id = 'C05'
  quick_runs = 480
  thorough_runs = 12000
  nontrivial_rule = (
      'a seeded history of exposures (zero-length, microsecond, fractional and '
      'long dwells, 0-5 controls between images), re-centred images, resets '
      'and injected crashes; non-trivial if at least one non-zero exposure ran.')
  state_measure = ('distinct (controls in the step, images taken, transitions '
                   'in the step, dwell class) tuples')
  real = ['PuttingDuneSimulator', 'PristineSingleDopedGraphene',
          'PuttingDuneEnvironment', 'SimulatorObserver protocol']
  stubs = ['part of the runs: rates chosen by the plan',
           'rate-function crash injector',
           'process clock (simulated, jumps and stalls)']
  fault_kinds = ('rate_function_crash_mid_exposure', 'wall_clock_jump',
                 'observer_attached_mid_run', 'observer_detached_mid_run')

  def load(self):
    self.m = world.mods()

  def generate(self, rnd, tier):
    if rnd.random() < 0.25:
      return {
          'mode': 'env', 'env': world.gen_env(rnd, image_p=0.03),
          'rng': rnd.randrange(2**31),
          'ops': [{'op': rnd.choice(['step'] * 12 + ['reset', 'clock']),
                   'mode': rnd.choice(['uniform', 'corner', 'outside']),
                   'dt': rnd.choice([1e-3, 5.0, 3600.0, -7200.0])}
                  for _ in range(rnd.randrange(5, 40))],
      }
    p = simwalk.gen_plan(rnd, tier, images=0.02)
    p['mode'] = 'sim'
    return p

  def shrink(self, plan):
    if plan['mode'] == 'sim':
      yield from simwalk.shrink(plan)

  def execute(self, plan, ctx):
    if plan['mode'] == 'env':
      return self.exec_env(plan, ctx)
    w = simwalk.Walk(self.m, plan)
    image_s = plan['image_s']

    def by_control(events, controls, crashed):
      """Splits a step's events into per-control transition lists."""
      out, cur = [], None
      for e in events:
        if e[0] == 'control':
          cur = []
          out.append((e[1], cur))
        elif e[0] == 'transition':
          ctx.check(cur is not None, 'transition-outside-exposure',
                    'a transition was reported before any control')
          cur.append(e)
      if not crashed:
        ctx.check(len(out) == len(controls), 'controls-reported',
                  f'{len(out)} of {len(controls)} controls were announced')
      return out

    def visit(kind, op, info):
      if kind in ('add', 'rm'):
        return
      takes = [e for e in info['events'] if e[0] == 'take']
      for e in takes:
        ctx.check(e[1].total_seconds() == image_s, 'image-duration',
                  f'image event lasts {e[1]}, configured {image_s}s')
      if kind == 'reset':
        el = info['obs'].elapsed_time.total_seconds()
        ctx.check(len(takes) == 1, 'reset-images',
                  f'a reset took {len(takes)} images')
        ctx.check(world.close(el, image_s), 'reset-elapsed',
                  f'reset elapsed {el}, one image is {image_s}')
        ctx.check(len(info['obs'].controls) == 0, 'reset-controls',
                  'a reset observation carries controls')
        ctx.log('reset', el)
        return
      controls = info['controls']
      groups = by_control(info['events'], controls, kind == 'crash')
      n_tr = 0
      for ctl, trs in groups:
        dwell = ctl.dwell_time.total_seconds()
        prev = 0.0
        for e in trs:
          t = e[1].total_seconds()
          ctx.check(t >= prev, 'time-order',
                    f'transition at {t}s after one at {prev}s')
          ctx.check(0 <= t <= dwell, 'transition-after-dwell',
                    f'transition {t}s into an exposure of {dwell}s')
          prev = t
          n_tr += 1
      if kind == 'crash':
        ctx.log('crash', n_tr)
        return
      for (ctl, _), c in zip(groups, controls):
        ctx.check(ctl.dwell_time == c.dwell_time, 'dwell-changed',
                  f'announced dwell {ctl.dwell_time} for {c.dwell_time}')
      fovs = [e for e in info['events'] if e[0] == 'fov']
      ctx.check(len(takes) == 1 + len(fovs) and len(fovs) <= 1, 'image-count',
                f'{len(takes)} images for {len(fovs)} re-centrings')
      total = sum(c.dwell_time.total_seconds() for c in controls)
      want = total + image_s * len(takes)
      el = info['obs'].elapsed_time.total_seconds()
      ctx.check(abs(el - want) < 2e-6, 'elapsed',
                f'step reports {el}s; dwell {total}s + {len(takes)} images of '
                f'{image_s}s = {want}s')
      if total > 0:
        ctx.nontrivial = True
      ctx.count('images', len(takes))
      ctx.count('transitions', n_tr)
      ctx.state(len(controls), len(takes), n_tr,
                int(math.log10(total + 1e-9)))
      ctx.log('step', el, len(takes), n_tr)

    w.run(ctx, visit)

  def exec_env(self, plan, ctx):
    from sim import boot
    import numpy as np
    env = world.make_env(self.m, plan['env'])
    rec = simwalk.Recorder('r', self.m.microscope_utils.SimulatorObserver)
    env.sim.add_observer(rec.obs)
    env.seed(plan['rng'])
    r = np.random.default_rng(plan['rng'] + 1)
    boot.clock.active = True
    image_s = plan['env']['image_s']

    def one(what, fn, *a):
      mark = len(rec.events)
      ts = ctx.must(what, fn, *a)
      ev = rec.events[mark:]
      takes = sum(1 for e in ev if e[0] == 'take')
      dwell = sum(e[1].dwell_time.total_seconds()
                  for e in ev if e[0] == 'control')
      obs = env.last_microscope_observation
      el = obs.elapsed_time.total_seconds()
      ctx.check(abs(el - (dwell + takes * image_s)) < 2e-6, 'elapsed',
                f'{what}: elapsed {el}, dwell {dwell} + {takes} images')
      ctx.simtime(el)
      if ts.step_type == 2 and ts.discount == 0.0:
        pass
      else:
        ctx.check(world.close(ts.discount, GAMMA ** el, 1e-6), 'discount',
                  f'discount {ts.discount} for {el}s, expected {GAMMA ** el}')
      if ts.step_type == 2 and ts.discount == 0.0:
        ctx.check(world.close(ts.reward, GAMMA ** el, 1e-6),
                  'terminal-reward',
                  f'terminal reward {ts.reward} for {el}s')
      ctx.nontrivial = True
      ctx.log(what, el, takes, ts.discount)
      return ts

    one('env.reset', env.reset)
    for op in plan['ops']:
      if op['op'] == 'clock':
        ctx.fault('wall_clock_jump')
        boot.clock.advance(abs(op['dt']))
        boot.clock.jump_wall(op['dt'])
      elif op['op'] == 'reset':
        one('env.reset', env.reset)
      else:
        a = world.sample_action(env.action_spec(), r, op['mode'])
        one('env.step', env.step, a)


CHECK = C05()
