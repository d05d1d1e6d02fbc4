"""C19: the physics is the same in every orientation, in every part."""
import datetime as dt
import functools
import math
import os

import numpy as np

from sim import core
from sim import disk
from sim import physics
from sim import world


class C19(core.Check):
  id = 'C19'
  quick_runs = 250
  thorough_runs = 8000
  run_timeout = 60
  nontrivial_rule = (
      'an episode of exposures on a simulated sample; every call of the rate '
      'function on the way is compared with an independent formula and with '
      'the same situation turned, moved, mirrored and renumbered; a Gaussian '
      'mixture is saved and loaded on the way under disk faults; non-trivial '
      'if the beam came within three bonds of the silicon or a fault fired.')
  state_measure = ('distinct (rate function, direction of the beam from the '
                   'nearest neighbour, distance from the silicon) cells')
  real = ['simple_canonical_rate_function', 'HumanPriorRatePredictor',
          'GaussianMixtureRateFunction and its files',
          'PristineSingleSiGrRatePredictor', 'PristineSingleDopedGraphene',
          'generate_synthetic_data, augment_data (part of the runs)']
  stubs = ['exposure positions chosen by the plan']
  fault_kinds = ('crash', 'io_error', 'disk_full', 'file_damaged',
                 'rate_function_failure')

  def load(self):
    self.m = world.mods()
    from putting_dune.rate_learning import data_utils
    self.du = data_utils

  def cleanup(self):
    disk.cleanup()

  def generate(self, rnd, tier):
    kind = rnd.choice(['simple', 'human', 'human', 'gmm', 'gmm'])
    plan = {'kind': kind, 'rng': rnd.randrange(2**31),
            'columns': rnd.choice([50, 30, 20]), 'ops': []}
    if kind == 'human' and rnd.random() < 0.6:
      a, b, t = (rnd.uniform(0.03, 0.4), rnd.uniform(0.03, 0.4),
                 rnd.uniform(0, 3.14))
      plan['human'] = {'mean': [rnd.uniform(-1, 1.5), rnd.uniform(-1, 1)],
                       'axes': [a, b, t], 'max_rate': rnd.uniform(0.05, 3)}
    if kind == 'gmm':
      plan['gmm'] = rnd.randrange(10**6)
    for _ in range(rnd.randrange(3, 12 if tier == 'quick' else 40)):
      r = rnd.random()
      if kind == 'gmm' and r < 0.35:
        f = rnd.choice([None, 'crash', 'io_error', 'disk_full', 'damage'])
        plan['ops'].append({'op': 'save', 'fault': f, 'k': rnd.randrange(1, 6),
                            'cut': rnd.random(), 'other': rnd.random() < 0.4,
                            'quota': rnd.choice([0, 30, 120])})
      elif r < 0.42:
        plan['ops'].append({'op': 'reset'})
      elif kind == 'gmm' and r < 0.5:
        plan['ops'].append({'op': 'switch',
                            'wider': rnd.choice([0.3, 0.5, 2.0])})
      else:
        plan['ops'].append({
            'op': 'expose', 'dwell': rnd.choice([0.2, 1.5, 5.0, 20.0]),
            'where': rnd.choice(['near', 'near', 'mean', 'on', 'far', 'si']),
            'n': rnd.randrange(3), 'd': rnd.uniform(0, 4), 'a': rnd.random(),
            'turn': rnd.uniform(-7, 7), 'shift': [rnd.uniform(-30, 30),
                                                  rnd.uniform(-30, 30)],
            'mirror': rnd.random() < 0.3, 'perm': rnd.randrange(999),
            'fail': rnd.random() < 0.06})
    plan['synthetic'] = None
    if rnd.random() < 0.03:
      plan['synthetic'] = {'seed': rnd.randrange(2**31),
                           'reflect': rnd.random() < 0.5}
    return plan

  # ------------------------------------------------------------- oracles ----
  def params(self, g):
    return (float(g.max_rate), np.asarray(g.mixture_weights, float),
            np.asarray(g.loc_distances, float), np.asarray(g.variances, float))

  def build(self, plan):
    g = self.m.graphene
    k = plan['kind']
    if k == 'simple':
      f = g.PristineSingleSiGrRatePredictor(
          canonical_rate_prediction_fn=g.simple_canonical_rate_function)
      return f, lambda *a: physics.simple(*a), 1.0, False
    if k == 'human':
      h = plan.get('human')
      if h is None:
        f = g.HumanPriorRatePredictor()
        ref = lambda *a: physics.human(*a)
        top, mirror = math.log(2) / 3, False
      else:
        a, b, t = h['axes']
        R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
        cov = R @ np.diag([a, b]) @ R.T
        f = g.HumanPriorRatePredictor(
            mean=np.asarray(h['mean']), cov=cov, max_rate=h['max_rate'])
        ref = lambda *x: physics.human(*x, mean=h['mean'], cov=cov,
                                       max_rate=h['max_rate'])
        top, mirror = h['max_rate'], True
      return g.PristineSingleSiGrRatePredictor(
          canonical_rate_prediction_fn=f.predict), ref, top, mirror
    f = g.GaussianMixtureRateFunction.sample_new(
        np.random.default_rng(plan['gmm']))
    # All components of a mixture may peak at the same place.
    p = self.params(f)
    return f, lambda *a: physics.gmm(p, *a), len(p[1]) * p[0], False

  def rates_of(self, rates, pos):
    """The rates by destination atom; checks the successor states."""
    out = {}
    for s in rates.successor_states:
      if not np.array_equal(np.asarray(s.grid.atom_positions), pos):
        return None
      i = world.si_index(s.grid)
      if len(i) != 1:
        return None
      out[int(i[0])] = float(s.rate)
    return out if len(out) == len(rates.successor_states) else None

  def move(self, plan, op, x):
    t = op['turn']
    y = np.array(x, dtype=float)
    if op['mirror']:
      y = y * np.array([1.0, -1.0])
    R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    return y @ R.T + np.asarray(op['shift'])

  def execute(self, plan, ctx):
    m = self.m
    fn, ref, top, chiral = self.build(plan)
    check = self
    state = {'op': None, 'fail': False, 'fn': fn, 'ref': ref}
    tol = lambda w: 2e-4 * np.abs(w) + 3e-6 * top

    class Watched:
      """Every call the exposure makes is judged."""

      def __call__(self, grid, beam_position):
        op = state['op']
        if state['fail']:
          state['fail'] = False
          ctx.fault('rate_function_failure')
          raise core.InjectedFault('rates')
        pos = np.asarray(grid.atom_positions)
        num = np.asarray(grid.atomic_numbers)
        beam = np.array(world.pt(beam_position))
        pos0, num0 = pos.copy(), num.copy()
        rates = ctx.must('rate function', state['fn'], grid, beam_position)
        ctx.check(np.array_equal(pos, pos0) and np.array_equal(num, num0),
                  'grid-mutated', 'predicting rates changed the material')
        got = check.rates_of(rates, pos)
        ctx.check(got is not None, 'successors', 'a successor state is not '
                  'the same sheet with one silicon')
        si = int(world.si_index(grid)[0])
        nb = physics.neighbours(pos, si)
        if nb is None:
          return rates
        ctx.check(set(got) == set(map(int, nb)), 'successors',
                  f'rates for atoms {sorted(got)}, the neighbours are '
                  f'{sorted(map(int, nb))}')
        want = state['ref'](pos[si], pos[nb], beam)
        have = np.array([got[int(k)] for k in nb])
        bad = ~(np.abs(have - want) <= tol(want))
        ctx.check(not bad.any(), 'rate-formula', lambda: f'{plan["kind"]}: beam '
                  f'{np.round((beam - pos[si]) / world.BOND, 3)} bonds from the '
                  f'silicon, neighbours {np.round((pos[nb] - pos[si]) / world.BOND, 3).tolist()}'
                  f': rates {have}, expected {want}')
        ctx.check(abs(float(rates.total_rate) - want.sum())
                  <= tol(want).sum(), 'total-rate',
                  f'total {rates.total_rate}, expected {want.sum()}')
        # The same situation elsewhere.
        if not (chiral and op['mirror']):
          p = np.random.default_rng(op['perm']).permutation(len(num))
          g2 = m.microscope_utils.AtomicGridMaterialFrame(
              m.microscope_utils.AtomicGrid(check.move(plan, op, pos)[p],
                                            num[p]))
          b2 = m.geometry.PointMaterialFrame(
              m.geometry.Point(check.move(plan, op, beam[None])[0]))
          r2 = ctx.must('rate function', state['fn'], g2, b2)
          got2 = check.rates_of(r2, np.asarray(g2.atom_positions))
          ctx.check(got2 is not None, 'successors', 'successor states of the '
                    'moved sheet')
          inv = np.argsort(p)
          have2 = np.array([got2.get(int(inv[k]), np.nan) for k in nb])
          bad = ~(np.abs(have2 - have) <= tol(have))
          ctx.check(not bad.any(), 'rate-symmetry', lambda: f'{plan["kind"]}: '
                    f'rates {have}, but {have2} when the same situation is '
                    f'turned by {op["turn"]:.2f}, moved by {op["shift"]}'
                    f'{", mirrored" if op["mirror"] else ""} and renumbered')
        ctx.count('rate_calls')
        d = beam - pos[si]
        r = np.linalg.norm(d) / world.BOND
        if r < 3:
          ctx.nontrivial = True
        a = np.arctan2(d[1], d[0]) - np.arctan2(*(pos[nb[0]] - pos[si])[::-1])
        ctx.state(plan['kind'], int(min(r, 4) * 4), int(a * 6))
        return rates

    mat = m.graphene.PristineSingleDopedGraphene(
        rate_function=Watched(), grid_columns=plan['columns'])
    rng = np.random.default_rng(plan['rng'])
    mat.reset(rng)
    self.saved = None  # parameters known to be in the directory, if any
    for i, op in enumerate(plan['ops']):
      if op['op'] == 'reset':
        mat.reset(rng)
        continue
      if op['op'] == 'switch':
        # The episode goes on with another mixture of the same size.
        f = world.sibling(state['fn'], op['wider'])
        state['fn'] = f
        state['ref'] = functools.partial(physics.gmm, self.params(f))
        continue
      if op['op'] == 'save':
        state['fn'] = self.save(plan, ctx, i, op, state['fn'])
        continue
      pos = np.asarray(mat.grid.atom_positions)
      si = int(world.si_index(mat.grid)[0])
      o = np.argsort(np.linalg.norm(pos - pos[si], axis=1))
      nb = pos[o[1 + op['n']]] - pos[si]
      w = op['where']
      e = physics.unit(nb)
      off = {'near': op['d'] * np.array([math.cos(6.3 * op['a']),
                                         math.sin(6.3 * op['a'])]),
             'mean': 0.85 * world.BOND * e, 'on': nb,
             'far': 30 * (op['a'] + .3) * e, 'si': 0 * e}[w]
      state['op'] = op
      state['fail'] = op['fail']
      c = m.microscope_utils.BeamControlMaterialFrame(
          m.microscope_utils.BeamControl(
              m.geometry.Point(pos[si] + off),
              dt.timedelta(seconds=op['dwell'])))
      try:
        ctx.must('apply_control', mat.apply_control, rng, c)
      except core.InjectedFault:
        pass
      ctx.simtime(op['dwell'])
      ctx.log('expose', world.si_index(mat.grid), mat.grid.atom_positions[si])
    if plan['synthetic']:
      self.synthetic(plan['synthetic'], ctx)

  # ---------------------------------------------------------- GMM files ----
  def save(self, plan, ctx, i, op, fn):
    g = self.m.graphene.GaussianMixtureRateFunction
    d = os.path.join(ctx.scratch(), 'rates', 'gmm')
    obj = fn
    if op['other']:
      obj = g.sample_new(np.random.default_rng(plan['gmm'] + i + 1))
    fault, fired, err = op['fault'], False, None
    before = self.saved
    try:
      with core.quiet():
        if fault in ('crash', 'io_error'):
          f = disk.Faults(ctx.scratch(), fail_at=op['k'],
                          crash=fault == 'crash')
          try:
            with f:
              obj.serialize_to_directory(d)
          finally:
            fired = f.fired
        elif fault == 'disk_full':
          with disk.quota(op['quota']):
            obj.serialize_to_directory(d)
        else:
          obj.serialize_to_directory(d)
    except (Exception, disk.Crash) as e:  # pylint: disable=broad-except
      err = e
    if fault == 'disk_full':
      fired = err is not None
    if fired:
      ctx.fault(fault)
    ctx.check(err is None or fired, 'save-failed', f'saving failed without a '
              f'fault: {err!r}')
    damaged = False
    if fault == 'damage' and err is None:
      names = [os.path.join(r, x) for r, _, fs in os.walk(d) for x in fs]
      for n in names:
        with open(n, 'rb') as f:
          data = f.read()
        with open(n, 'wb') as f:
          f.write(data[:int(len(data) * op['cut'])])
      damaged = True
      ctx.fault('file_damaged')
    if err is None and not damaged:
      allowed = [self.params(obj)]
    else:
      allowed = [self.params(obj)] + ([before] if before else [])
    try:
      with core.quiet():
        back = g.deserialize_from_directory(d)
        got = self.params(back)
    except Exception as e:  # pylint: disable=broad-except
      ctx.check(err is not None or damaged, 'cannot-load', 'a rate function '
                f'that was saved cannot be loaded: {e!r}')
      self.saved = None
      ctx.log('unreadable')
      return fn
    same = [all(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-6)
                for a, b in zip(got, p)) for p in allowed]
    ctx.check(any(same), 'other-rates', f'loaded {got}, saved {allowed}')
    self.saved = got
    ctx.check((back == obj) == same[0], 'equality',
              'the loaded rate function does not compare as it should')
    ctx.log('saved', same[0])
    if not op['other'] and same[0]:
      return back  # the episode goes on with the loaded function
    return fn

  # ------------------------------------------------------ synthetic data ----
  def synthetic(self, s, ctx):
    du = self.du
    train, test = ctx.must('generate_synthetic_data',
                           du.generate_synthetic_data, 200, data_seed=s['seed'])
    nbs = [np.array([math.cos(a), math.sin(a)]) * world.BOND
           for a in (0, 2 * math.pi / 3, 4 * math.pi / 3)]
    aug = ctx.must('augment_data', du.augment_data, **train,
                   reflect=s['reflect'])
    hits = 0
    for what, data in (('train', train), ('test', test), ('augmented', aug)):
      pos = np.asarray(data['position'], float)
      want = np.stack([physics.human(np.zeros(2), nbs, p * world.BOND)
                       for p in pos])
      have = np.asarray(data['rates'], float)
      bad = np.abs(have - want).max(axis=1) > 1e-4
      ctx.check(not bad.any(), 'synthetic-rates', lambda: f'{what}: '
                f'{int(bad.sum())} of {len(bad)} synthetic examples carry rates '
                'that do not belong to their beam position, e.g. beam '
                f'{pos[bad][0]} bonds: {have[bad][0]}, expected {want[bad][0]}')
      st = np.asarray(data['next_state']).reshape(-1)
      ctx.check(((st >= 0) & (st <= 3)).all(), 'synthetic-states', f'{set(st)}')
      hop = st > 0
      hits += int(hop.sum())
      # The labels follow the rates: mean probability of the chosen neighbour.
      p = have / have.sum(1, keepdims=True)
      chosen = p[hop, st[hop] - 1]
      exp = (p[hop] ** 2).sum(1)
      var = ((p[hop] ** 3).sum(1) - exp ** 2).sum() + 1e-3
      # Augmented rows repeat the same draws six times.
      rep = 1 if what != 'augmented' else (6 if s['reflect'] else 3)
      z = abs(chosen.sum() - exp.sum()) / math.sqrt(var * rep)
      ctx.check(z < 7 or abs(chosen.sum() - exp.sum()) < 6 * rep,
                'synthetic-labels', f'{what}: the labels do not follow the '
                f'rates (z = {z:.1f}, {hop.sum()} hops)')
    ctx.check(len(np.asarray(aug['dt'])) == 200 * 3 * (1 + s['reflect']),
              'augmented', f'{len(np.asarray(aug["dt"]))} rows')
    ctx.count('synthetic_examples', 400)
    ctx.nontrivial = True
    ctx.log('synthetic', hits)


CHECK = C19()
