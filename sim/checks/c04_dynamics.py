"""C04: transitions happen at the configured rates (statistical)."""
import datetime as dt
import math

import numpy as np

from sim import core
from sim import physics
from sim import world

Z = 6.0


class C04(core.Check):
  id = 'C04'
  quick_runs = 240
  thorough_runs = 3000
  run_timeout = 120
  nontrivial_rule = (
      'one run = several hundred seeded executions of one exposure schedule; '
      'the counts, waiting times and destinations of all transitions are '
      'compared with the configured rates at |z| <= 6 (two-sided tail 2e-9 per '
      'comparison). Non-trivial if at least one transition occurred.')
  state_measure = 'distinct (rate regime, schedule shape, mode) tuples'
  real = ['PristineSingleDopedGraphene.apply_control', 'rate functions '
          '(simple, Gaussian mixture)', 'PristineSingleSiGrRatePredictor',
          'PuttingDuneSimulator (part of the runs)']
  stubs = ['in the rates=const runs the canonical rate predictor']
  assumptions = ['with the fixed VERIF_SEED the verdict on unchanged code is '
                 'deterministic; for other random streams a false alarm has '
                 'probability below 1e-5 per check run']

  def load(self):
    self.m = world.mods()

  def generate(self, rnd, tier):
    mode = rnd.choice(['count', 'count', 'split', 'dest', 'wait', 'zero',
                       'geom', 'geom', 'tiny', 'gmm', 'burst', 'burst',
                       'walk', 'walk'])
    p = {'mode': mode, 'rng': rnd.randrange(2**31), 'via': rnd.choice(
        ['material', 'material', 'simulator']), 'ops': []}
    if mode in ('count', 'split', 'dest', 'wait'):
      r = [10 ** rnd.uniform(-1.5, 0.3) for _ in range(3)]
      if rnd.random() < 0.3:
        r[rnd.randrange(3)] = 0.0
      p['rates'] = [round(x, 5) for x in r]
      p['dwell'] = round(rnd.uniform(0.3, 2.5) / sum(r), 5)
      p['pieces'] = rnd.choice([2, 3, 7])
      p['n'] = 260
    elif mode == 'burst':
      # Very many very short exposures (a scanning beam).
      r = [rnd.uniform(0.3, 1.0) for _ in range(3)]
      piece = round(10 ** rnd.uniform(-3, -0.8), 4)
      p['pieces'] = rnd.choice([40, 100, 200])
      lam = rnd.uniform(3.0, 12.0)
      scale = lam / (sum(r) * piece * p['pieces'])
      p['rates'] = [round(x * scale, 5) for x in r]
      p['dwell'] = round(piece * p['pieces'], 6)
      p['n'] = max(6, 1200 // p['pieces'])
    elif mode == 'tiny':
      r = [10 ** rnd.uniform(-8, -5) for _ in range(3)]
      p['rates'] = r
      # Expected number of transitions about 1e-3 .. 3 over minutes to weeks.
      p['dwell'] = round(
          min(rnd.choice([1e-3, 0.3, 1.0, 3.0]) / sum(r), 3e6), 3)
      p['n'] = 200
    elif mode == 'zero':
      p['dwell'] = rnd.choice([1.5, 3599.0, 3600.0, 3601.0, 86400.0, 1e7])
      p['n'] = 20
    elif mode == 'geom':
      p['f'] = rnd.choice([0.0, 0.5, 1.0, 1.5, 3.0])
      p['off'] = rnd.choice([0.0, 0.5])
      p['dwell'] = rnd.choice([0.3, 1.0, 2.0])
      p['n'] = 260
    elif mode == 'walk':
      p['kind'] = rnd.choice(['simple', 'simple', 'human', 'gmm'])
      p['gmm'] = rnd.randrange(10**6)
      p['columns'] = rnd.choice([20, 30, 50])
      p['dwell'] = round(10 ** rnd.uniform(0.3, 1.7), 3)
      p['exposures'] = rnd.choice([1, 2, 5])
      p['n'] = rnd.choice([12, 24])
    else:
      p['gmm'] = rnd.randrange(10**6)
      p['f'] = rnd.choice([0.0, 0.5, 1.0, 1.5])
      p['n'] = 200
    return p

  def expose(self, mat, rng, pos, dwell, sim=None):
    m = self.m
    events = []

    class Obs(m.microscope_utils.SimulatorObserver):

      def observe_transition(self, time_since_control_was_applied, grid):
        events.append((time_since_control_was_applied.total_seconds(), grid))

    if sim is not None:
      o = Obs()
      sim.add_observer(o)
      c = m.microscope_utils.BeamControl(
          m.geometry.Point(0.5, 0.5), dt.timedelta(seconds=dwell))
      sim.step_and_image(rng, [c])
      sim.remove_observer(o)
      return events
    mat.apply_control(
        rng, m.microscope_utils.BeamControl(
            m.geometry.Point(float(pos[0]), float(pos[1])),
            dt.timedelta(seconds=dwell)), [Obs()])
    return events

  def z(self, ctx, sig, obs, mean, var, what):
    if var <= 0:
      ctx.check(abs(obs - mean) < 1e-9, sig, f'{what}: {obs} vs {mean}')
      return
    zz = (obs - mean) / math.sqrt(var)
    ctx.check(abs(zz) <= Z, sig,
              f'{what}: observed {obs:.4g}, expected {mean:.4g} '
              f'+- {math.sqrt(var):.3g} (z={zz:.1f})')

  def execute(self, plan, ctx):
    m = self.m
    rng = np.random.default_rng(plan['rng'])
    n = plan['n']
    mode = plan['mode']
    if mode == 'zero':
      rates = [0.0, 0.0, 0.0]
    else:
      rates = plan.get('rates')
    if mode == 'walk':
      return self.walk_mode(plan, ctx, rng)
    if rates is not None:
      mat = m.graphene.PristineSingleDopedGraphene(
          rate_function=world.make_rates(
              m, {'kind': 'const', 'rates': rates}), grid_columns=24)
    elif mode == 'gmm':
      mat = m.graphene.PristineSingleDopedGraphene(
          rate_function=m.graphene.GaussianMixtureRateFunction.sample_new(
              np.random.default_rng(plan['gmm'])), grid_columns=24)
    else:
      mat = m.graphene.PristineSingleDopedGraphene(
          rate_function=world.make_rates(m, {'kind': 'simple'}),
          grid_columns=24)
    sim = None
    if plan['via'] == 'simulator' and rates is not None:
      sim = m.simulator.PuttingDuneSimulator(mat)
    counts, firsts, dest = [], [], np.zeros(3)
    total = sum(rates) if rates is not None else None
    survive = 0
    if mode == 'gmm' or mode == 'geom':
      return self.geometry_mode(plan, ctx, mat, rng)
    dwell = plan['dwell']
    pieces = plan['pieces'] if mode in ('split', 'burst') else 1
    for _ in range(n):
      if sim is not None:
        sim.reset(rng)
      else:
        mat.reset(rng)
      k = 0
      si = int(world.si_index(mat.grid)[0])
      pos = np.asarray(mat.grid.atom_positions)
      for piece in range(pieces):
        ev = ctx.must('apply_control', self.expose, mat, rng, pos[si],
                      dwell / pieces, sim)
        if piece == 0 and ev:
          firsts.append(ev[0][0])
        for _, grid in ev:
          j = int(world.si_index(grid)[0])
          nb = sorted(world.three_nearest(pos, si))
          if len(nb) == 3 and j in nb:
            d = pos[nb] - pos[si]
            order = np.argsort(np.arctan2(d[:, 1], d[:, 0]))
            dest[[nb[o] for o in order].index(j)] += 1
          si = j
        k += len(ev)
      counts.append(k)
      ctx.simtime(dwell)
    c = np.asarray(counts, dtype=float)
    ctx.count('executions', n)
    ctx.count('transitions', int(c.sum()))
    ctx.log('stats', c, dest)
    ctx.state(mode, [round(math.log10(r + 1e-12)) for r in rates],
              plan['via'])
    if mode == 'zero':
      ctx.nontrivial = True
      ctx.check(c.sum() == 0, 'transition-at-zero-rate',
                f'{int(c.sum())} transitions in {n} exposures of {dwell}s at '
                'rate zero')
      return
    if c.sum():
      ctx.nontrivial = True
    lam = total * dwell
    # Number of transitions: Poisson(lam) per execution, however the dwell is
    # split over controls.
    # Skewed when n*lam is small; compare on the total with a continuity
    # margin.
    z_obs, z_mean = c.sum(), n * lam
    slack = 8.0
    if abs(z_obs - z_mean) > slack:
      self.z(ctx, 'count-mean', z_obs, z_mean, max(n * lam, 1.0),
             f'{n} exposures of {dwell}s at total rate {total:.4g} (in '
             f'{pieces} pieces): transitions')
    p0 = math.exp(-lam)
    zero = int((c == 0).sum())
    if abs(zero - n * p0) > slack:
      self.z(ctx, 'count-zero', zero, n * p0, max(n * p0 * (1 - p0), 1.0),
             f'exposures without transition (rate {total:.4g}, {dwell}s)')
    if lam > 0.3:
      v = float(np.var(c))
      # Variance of the sample variance of a Poisson: (lam + 2 lam^2)/n.
      self.z(ctx, 'count-variance', v, lam * (n - 1) / n,
             (lam + 2 * lam * lam) / n * 1.5, 'variance of the count')
    # Destinations proportional to the rates.
    s = dest.sum()
    if s >= 20:
      for i in range(3):
        p = rates[i] / total
        if p == 0:
          ctx.check(dest[i] == 0, 'destination-zero-rate',
                    f'{dest[i]} transitions along a direction with rate 0')
        else:
          self.z(ctx, 'destination', dest[i], s * p, max(s * p * (1 - p), 1),
                 f'transitions along direction {i} of {s}')
    # Waiting time to the first transition: truncated exponential.
    d1 = dwell / pieces
    l1 = total * d1
    if len(firsts) >= 30:
      u = (1 - np.exp(-total * np.asarray(firsts))) / (1 - math.exp(-l1))
      k = len(u)
      self.z(ctx, 'waiting-time', float(u.mean()), 0.5, 1 / 12 / k,
             'mean of the transformed waiting times')
      self.z(ctx, 'waiting-time-spread', float(((u - .5) ** 2).mean()),
             1 / 12, 1 / 180 / k, 'spread of the transformed waiting times')

  def geometry_mode(self, plan, ctx, mat, rng):
    """Real rate functions: first transition vs an independent reference."""
    m = self.m
    n = plan['n']
    f = plan['f']
    first, expected, var = 0, 0.0, 0.0
    dest_obs = np.zeros(3)
    dest_exp = np.zeros(3)
    dest_var = np.zeros(3)
    for _ in range(n):
      mat.reset(rng)
      pos = np.asarray(mat.grid.atom_positions)
      si = int(world.si_index(mat.grid)[0])
      nb = sorted(world.three_nearest(pos, si))
      if len(nb) != 3:
        continue
      d = pos[nb] - pos[si]
      e = d[0] / np.linalg.norm(d[0])
      beam = pos[si] + d[0] * f
      if 'off' in plan:
        beam = beam + np.array([-e[1], e[0]]) * plan['off']
      if plan['mode'] == 'geom':
        dist = np.linalg.norm(beam - pos[nb], axis=1) / world.BOND
        r = 1.0 / (16.0 * dist * dist + 1.0)
        dwell = plan['dwell']
      else:
        gm = mat.verif_rates if hasattr(mat, 'verif_rates') else None
        r = self.gmm_reference(plan['gmm'], pos[si], pos[nb], beam)
        dwell = min(1.0 / max(r.sum(), 1e-3), 50.0)
      R = float(r.sum())
      p = 1 - math.exp(-R * dwell)
      ev = ctx.must('apply_control', self.expose, mat, rng, beam, dwell)
      ctx.simtime(dwell)
      expected += p
      var += p * (1 - p)
      q = r / R * p
      dest_exp += q
      dest_var += q * (1 - q)
      if ev:
        first += 1
        j = int(world.si_index(ev[0][1])[0])
        ctx.check(j in nb, 'illegal-hop', 'first hop is not to a neighbour')
        dest_obs[nb.index(j)] += 1
    ctx.count('executions', n)
    ctx.count('transitions', first)
    ctx.nontrivial = first > 0
    ctx.state(plan['mode'], f, plan.get('off'), plan.get('dwell'),
              plan.get('gmm'))
    ctx.log('geom', first, expected, dest_obs)
    if abs(first - expected) > 6:
      self.z(ctx, 'rate-geometry', first, expected, max(var, 1.0),
             f'exposures with a transition, beam at {f} bonds towards a '
             'neighbour')
    for i in range(3):
      if abs(dest_obs[i] - dest_exp[i]) > 6:
        self.z(ctx, 'rate-geometry-destination', dest_obs[i], dest_exp[i],
               max(dest_var[i], 1.0), f'first hops to neighbour {i}')

  def walk_mode(self, plan, ctx, rng):
    """Long exposures with many hops, each judged where the silicon then was.

    With R(s) the reference rate in the state s, the number of hops minus the
    integral of R along the observed path is a martingale, and so is the count
    of every kind of destination minus the sum of its probabilities.
    """
    m = self.m
    kind = plan['kind']
    if kind == 'gmm':
      fn = m.graphene.GaussianMixtureRateFunction.sample_new(
          np.random.default_rng(plan['gmm']))
      par = (float(fn.max_rate), np.asarray(fn.mixture_weights, float),
             np.asarray(fn.loc_distances, float),
             np.asarray(fn.variances, float))
      ref = lambda *a: physics.gmm(par, *a)
    elif kind == 'human':
      fn = m.graphene.PristineSingleSiGrRatePredictor(
          canonical_rate_prediction_fn=(
              m.graphene.HumanPriorRatePredictor().predict))
      ref = physics.human
    else:
      fn = world.make_rates(m, {'kind': 'simple'})
      ref = physics.simple
    mat = m.graphene.PristineSingleDopedGraphene(
        rate_function=fn, grid_columns=plan['columns'])
    hops, integral = 0, 0.0
    first, first_integral = 0, 0.0
    got, want, var = np.zeros(3), np.zeros(3), np.zeros(3)

    def situation(pos, si, beam):
      nb = physics.neighbours(pos, si)
      return (None, None) if nb is None else (nb, ref(pos[si], pos[nb], beam))

    for _ in range(plan['n']):
      mat.reset(rng)
      for _ in range(plan['exposures']):
        pos = np.asarray(mat.grid.atom_positions)
        si = int(world.si_index(mat.grid)[0])
        nb, _ = situation(pos, si, pos[si])
        if nb is None:
          break
        beam = pos[si] + (pos[nb[rng.integers(3)]] - pos[si]) * rng.uniform(
            0, 1.6) + rng.normal(size=2) * 0.2
        ev = ctx.must('apply_control', self.expose, mat, rng, beam,
                      plan['dwell'])
        ctx.simtime(plan['dwell'])
        last = 0.0
        for k in range(len(ev) + 1):
          nb, r = situation(pos, si, beam)
          if nb is None or r.sum() <= 0:
            break
          t = ev[k][0] if k < len(ev) else plan['dwell']
          integral += float(r.sum()) * (t - last)
          if k == 0:
            first_integral += float(r.sum()) * t
          last = t
          if k == len(ev):
            break
          j = int(world.si_index(ev[k][1])[0])
          ctx.check(j in nb, 'illegal-hop', lambda: f'hop {k + 1} of an '
                    f'exposure goes {np.linalg.norm(pos[j] - pos[si]):.2f} A '
                    'far, to an atom that is no neighbour')
          hops += 1
          first += k == 0
          o = np.argsort(-r, kind='stable')
          q = r[o] / r.sum()
          want += q
          var += q * (1 - q)
          got[[int(nb[x]) for x in o].index(j)] += 1
          si = j
    ctx.count('executions', plan['n'] * plan['exposures'])
    ctx.count('transitions', hops)
    for name, v in (('hops', hops), ('later_hops', hops - first)):
      ctx.count(f'walk_{name}', v)
    for name, v in (('hops', integral),
                    ('later_hops', integral - first_integral)):
      ctx.count(f'walk_{name}_expected_milli', int(round(1000 * v)))
    for i in range(3):
      ctx.count(f'walk_to_{i}', int(got[i]))
      ctx.count(f'walk_to_{i}_expected_milli', int(round(1000 * want[i])))
    ctx.nontrivial = hops > 0
    ctx.state('walk', kind, round(math.log10(plan['dwell']) * 3),
              plan['exposures'], plan['columns'])
    ctx.log('walk', hops, round(integral, 6), got)
    if abs(hops - integral) > 8:
      self.z(ctx, 'walk-count', hops, integral, max(integral, 1.0),
             f'{kind}: hops of all exposures')
    later = integral - first_integral
    if abs(hops - first - later) > 8:
      self.z(ctx, 'walk-later-count', hops - first, later, max(later, 1.0),
             f'{kind}: hops after the first of their exposure')
    for i in range(3):
      if abs(got[i] - want[i]) > 8:
        self.z(ctx, 'walk-destination', got[i], want[i], max(var[i], 1.0),
               f'{kind}: hops to the neighbour with rate number {i}')

  def finalize(self, outs):
    """The walks of all runs together."""
    total = lambda k: sum(o['counts'].get(k, 0) for o in outs)
    for name in ('hops', 'later_hops', 'to_0', 'to_1', 'to_2'):
      n = total(f'walk_{name}')
      w = total(f'walk_{name}_expected_milli') / 1000.0
      if w < 100:
        continue
      z = (n - w) / math.sqrt(w)
      if abs(z) > Z:
        return [('walk-pooled', f'{name} of all walks: {n}, expected {w:.0f} '
                 f'(z={z:.1f})')]
    return []

  def gmm_reference(self, seed, si, nbs, beam):
    """Independent evaluation of a sampled Gaussian mixture."""
    g = self.m.graphene.GaussianMixtureRateFunction.sample_new(
        np.random.default_rng(seed))
    w = np.asarray(g.mixture_weights, dtype=float)
    loc = np.asarray(g.loc_distances, dtype=float)
    var = np.asarray(g.variances, dtype=float)
    # Peak density of each component is w / (2 pi sqrt(v1 v2)).
    peak = (w / (2 * math.pi * np.sqrt(var[:, 0] * var[:, 1]))).max()
    out = []
    for nb in nbs:
      d = nb - si
      e1 = d / np.linalg.norm(d)
      e2 = np.array([-e1[1], e1[0]])
      tot = 0.0
      for k in range(len(w)):
        x = beam - (si + d * loc[k])
        q = (x @ e1) ** 2 / var[k, 0] + (x @ e2) ** 2 / var[k, 1]
        tot += (w[k] * math.exp(-q / 2)
                / (2 * math.pi * math.sqrt(var[k, 0] * var[k, 1])))
      out.append(tot * g.max_rate / peak)
    return np.asarray(out)


CHECK = C04()
