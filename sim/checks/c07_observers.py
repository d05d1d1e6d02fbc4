"""C07: observers see a faithful, complete, non-perturbing history."""
import numpy as np

from sim import core
from sim import simwalk
from sim import world


class C07(core.Check):
  id = 'C07'
  quick_runs = 320
  thorough_runs = 8000
  nontrivial_rule = (
      'a seeded history with several observers attached and detached at '
      'arbitrary points, executed twice (with and without observers); '
      'non-trivial if a transition, crash or observer change occurred.')
  state_measure = ('distinct event-kind sequences of a step (n controls, '
                   'transitions per control capped at 3, re-centred, image)')
  real = ['PuttingDuneSimulator', 'PristineSingleDopedGraphene',
          'EventObserver', 'MicroscopeFieldOfView']
  stubs = ['recording observers', 'part of the runs: rates from the plan',
           'rate-function crash injector']
  fault_kinds = ('rate_function_crash_mid_exposure',
                 'observer_attached_mid_run', 'observer_detached_mid_run')

  def load(self):
    self.m = world.mods()

  def generate(self, rnd, tier):
    return simwalk.gen_plan(rnd, tier, images=0.06)

  def shrink(self, plan):
    return simwalk.shrink(plan)

  def execute(self, plan, ctx):
    m = self.m
    w = simwalk.Walk(m, plan)
    bare = simwalk.Walk(m, plan, with_observers=False)
    hist = []
    st = {'grid': None, 'fov': None}

    def visit(kind, op, info):
      if kind in ('add', 'rm'):
        ctx.nontrivial = True
        return
      ev = info['events']
      if kind == 'reset':
        obs = info['obs']
        kinds = [e[0] for e in ev]
        ctx.check(bool(kinds) and kinds[0] == 'reset', 'reset-event',
                  f'events of a reset: {kinds}')
        st['grid'] = ev[0][1]
        st['fov'] = ev[0][2]
        want = ['reset', 'fov', 'take'] + (['image'] if op['image'] else [])
        ctx.check(kinds == want, 'reset-events', f'{kinds} != {want}')
        ctx.check(world.enc_fov(ev[0][2]) == world.enc_fov(obs.fov),
                  'reset-fov', 'the announced field of view is not the one '
                  'observed')
      else:
        self.step_events(ctx, kind, op, info, st)
      # Replaying the notifications reconstructs the material.
      g = w.material.grid
      ctx.check(
          np.array_equal(st['grid'].atom_positions, g.atom_positions)
          and np.array_equal(st['grid'].atomic_numbers, g.atomic_numbers),
          'history-incomplete',
          f'replaying the reported events after {kind} does not give the '
          'current material')
      if 'obs' in info:
        hist.append((kind, world.enc_obs(info['obs']), info['rng_state']))
        ctx.log(kind, hist[-1])
      else:
        hist.append((kind, None, None))

    w.run(ctx, visit)

    # The same plan with no observer attached gives the same observations.
    hist2 = []

    def visit2(kind, op, info):
      if kind in ('add', 'rm'):
        return
      if 'obs' in info:
        hist2.append((kind, world.enc_obs(info['obs']), info['rng_state']))
      else:
        hist2.append((kind, None, None))

    sub = core.Ctx()
    bare.run(sub, visit2)
    ctx.check(len(hist) == len(hist2), 'observer-perturbs',
              'observers changed which steps succeed')
    for i, (a, b) in enumerate(zip(hist, hist2)):
      ctx.check(core.digest(a) == core.digest(b), 'observer-perturbs',
                f'entry {i} ({a[0]}) differs when observers are attached')

    # Every recording observer saw exactly the shared stream while attached.
    def enc(e):
      if e[0] == 'reset':
        return ('reset', np.asarray(e[1].atom_positions),
                np.asarray(e[1].atomic_numbers), world.enc_fov(e[2]))
      if e[0] == 'control':
        return ('control', world.enc_control(e[1]))
      if e[0] == 'transition':
        return ('transition', e[1].total_seconds(),
                np.asarray(e[2].atomic_numbers),
                np.asarray(e[2].atom_positions))
      if e[0] == 'fov':
        return ('fov', world.enc_fov(e[1]))
      if e[0] == 'take':
        return ('take', e[1].total_seconds(), world.enc_fov(e[2]))
      return ('image', np.asarray(e[1]))

    main = [core.digest(enc(e)) for e in w.main.events]
    for r in w.all_recorders:
      b = getattr(r, 'base', 0)
      e = getattr(r, 'end', len(main))
      got = [core.digest(enc(x)) for x in r.events]
      ctx.check(got == main[b:e], 'observer-stream',
                f'observer {r.name}, attached for events {b}..{e}, saw '
                f'{len(got)} events that differ from the shared stream')
    # The shipped EventObserver keeps the events since the last reset.
    et = m.simulator_observers.SimulatorEventType
    for o in w.event_observers:
      b = getattr(o, 'verif_base', 0)
      ev = w.main.events[b:]
      last = max([i for i, e in enumerate(ev) if e[0] == 'reset'] + [0])
      ev = [e for e in ev[last:] if e[0] != 'fov']
      got = []
      for e in o.events:
        d = e.event_data
        if e.event_type == et.RESET:
          got.append(('reset', np.asarray(d['grid'].atom_positions),
                      np.asarray(d['grid'].atomic_numbers),
                      world.enc_fov(d['fov'])))
        elif e.event_type == et.TRANSITION:
          got.append(('transition',
                      d['time_since_control_was_applied'].total_seconds(),
                      np.asarray(d['grid'].atomic_numbers),
                      np.asarray(d['grid'].atom_positions)))
        elif e.event_type == et.APPLY_CONTROL:
          got.append(('control', d['position'].x, d['position'].y,
                      d['dwell_time'].total_seconds()))
        elif e.event_type == et.TAKE_IMAGE:
          got.append(('take', d['duration'].total_seconds(),
                      world.enc_fov(d['fov'])))
        else:
          got.append(('image', np.asarray(d['image'])))
      want = []
      for e in ev:
        x = enc(e)
        if x[0] == 'control':
          x = ('control', e[1].position.x, e[1].position.y,
               e[1].dwell_time.total_seconds())
        want.append(x)
      ctx.check(core.digest(got) == core.digest(want), 'event-observer',
                'the event log differs from the events that happened: '
                f'{[g[0] for g in got]} vs {[x[0] for x in want]}')

  def step_events(self, ctx, kind, op, info, st):
    ev = list(info['events'])
    controls = info['controls']
    pf = info.get('prev_fov')
    i = 0
    sig = []
    for j, c in enumerate(controls):
      if kind == 'crash' and i >= len(ev):
        break
      ctx.check(i < len(ev) and ev[i][0] == 'control', 'control-order',
                f'expected the announcement of control {j}, got '
                f'{[e[0] for e in ev]}')
      a = ev[i][1]
      i += 1
      if pf is not None:
        sx = pf.upper_right.x - pf.lower_left.x
        sy = pf.upper_right.y - pf.lower_left.y
        wx = c.position.x * sx + pf.lower_left.x
        wy = c.position.y * sy + pf.lower_left.y
        ctx.check(abs(a.position.x - wx) < 1e-6
                  and abs(a.position.y - wy) < 1e-6, 'control-frame',
                  f'control {j} announced at ({a.position.x}, {a.position.y}) '
                  f'A, commanded ({wx}, {wy}) A')
      ctx.check(a.dwell_time == c.dwell_time, 'control-dwell',
                f'control {j} announced with dwell {a.dwell_time}')
      ctx.check(a.voltage_kv == c.voltage_kv and a.current_na == c.current_na,
                'control-beam',
                f'control {j} announced with {a.voltage_kv} kV / '
                f'{a.current_na} nA, commanded {c.voltage_kv} kV / '
                f'{c.current_na} nA')
      n = 0
      while i < len(ev) and ev[i][0] == 'transition':
        st['grid'] = ev[i][2]
        n += 1
        i += 1
        ctx.nontrivial = True
      sig.append(min(n, 3))
    rest = [e[0] for e in ev[i:]]
    if kind == 'crash':
      ctx.check(rest == [], 'crash-events',
                f'a crashed exposure was followed by {rest}')
      ctx.state('crash', sig)
      return
    img = ['image'] if op['image'] else []
    ok = (rest == ['take'] + img or rest == ['take', 'fov', 'take'] + img)
    ctx.check(ok, 'imaging-events', f'after the controls: {rest}')
    obs = info['obs']
    takes = [e for e in ev if e[0] == 'take']
    ctx.check(world.enc_fov(takes[-1][2]) == world.enc_fov(obs.fov),
              'image-fov', 'the last image was not taken with the reported '
              'field of view')
    if pf is not None:
      ctx.check(world.enc_fov(takes[0][2]) == world.enc_fov(pf),
                'image-fov', 'the first image was not taken with the field '
                'of view in force')
    if op['image']:
      ctx.check(np.array_equal(ev[-1][1], obs.image), 'image-event',
                'the announced image is not the observed image')
    ctx.check([world.enc_control(c) for c in obs.controls]
              == [world.enc_control(c) for c in controls], 'obs-controls',
              'the observation does not carry the commanded controls')
    ctx.state(sig, len(takes), bool(op['image']))


CHECK = C07()
