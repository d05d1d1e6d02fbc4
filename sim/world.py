"""Builders and recorders shared by the checks.

Everything built here is the real code of /repo, except where a name starts
with `Stub`.
"""
import dataclasses
import datetime as dt
import math
import zlib

import numpy as np

from sim import core


def mods():
  """Imports the simulator-side modules of putting_dune."""
  from putting_dune import action_adapters
  from putting_dune import constants
  from putting_dune import feature_constructors
  from putting_dune import geometry
  from putting_dune import goals
  from putting_dune import graphene
  from putting_dune import microscope_utils
  from putting_dune import putting_dune_environment
  from putting_dune import run_helpers
  from putting_dune import simulator
  from putting_dune import simulator_observers

  class M:
    pass

  m = M()
  m.__dict__.update({k: v for k, v in locals().items() if k not in ('M', 'm')})
  return m


# --------------------------------------------------------------- rates ----


class StubConstRates:
  """Rates fixed per destination, ordered by the destination's angle.

  Stands in for a canonical rate predictor; the transition loop, successor
  construction and sampling stay real.
  """

  def __init__(self, rates, fail_at=(), on_call=None):
    self.rates = np.asarray(rates, dtype=np.float64)
    self.fail_at = set(fail_at)
    self.calls = 0
    self.on_call = on_call

  def __call__(self, grid, beam_position, silicon_position, neighbor_indices):
    self.calls += 1
    if self.on_call is not None:
      self.on_call()
    if self.calls in self.fail_at:
      raise core.InjectedFault('rate function failed')
    idx = np.asarray(neighbor_indices).reshape(-1)
    delta = grid.atom_positions[idx] - np.asarray(silicon_position).reshape(1, 2)
    order = np.argsort(np.arctan2(delta[:, 1], delta[:, 0]))
    out = np.zeros(3, dtype=np.float64)
    for rank, i in enumerate(order):
      out[i] = self.rates[rank]
    return out


class FailingRates:
  """Wraps a real rate function; raises at chosen calls."""

  def __init__(self, inner, fail_at):
    self.inner = inner
    self.fail_at = set(fail_at)
    self.calls = 0

  def __call__(self, grid, beam_position):
    self.calls += 1
    if self.calls in self.fail_at:
      raise core.InjectedFault('rate function failed')
    return self.inner(grid, beam_position)


def make_rates(m, spec):
  g = m.graphene
  k = spec['kind']
  if k == 'simple':
    f = g.PristineSingleSiGrRatePredictor(
        canonical_rate_prediction_fn=g.simple_canonical_rate_function)
  elif k == 'human':
    f = g.PristineSingleSiGrRatePredictor(
        canonical_rate_prediction_fn=g.HumanPriorRatePredictor(
            max_rate=spec.get('max_rate', 0.23)).predict)
  elif k == 'gmm':
    f = g.GaussianMixtureRateFunction.sample_new(
        np.random.default_rng(spec['seed']))
    if 'wider' in spec:
      f = sibling(f, spec['wider'])
  elif k == 'const':
    f = g.PristineSingleSiGrRatePredictor(
        canonical_rate_prediction_fn=StubConstRates(spec['rates']))
  else:
    raise core.HarnessError(k)
  return f


def sibling(f, wider):
  """Another mixture of the same size and maximum rate, of another width."""
  return dataclasses.replace(f, variances=np.asarray(f.variances) * wider)


def gen_rates(rnd, allow=('simple', 'gmm', 'const')):
  k = rnd.choice(allow)
  if k == 'gmm':
    return {'kind': 'gmm', 'seed': rnd.randrange(10**6)}
  if k == 'const':
    style = rnd.choice(['fast', 'slow', 'one', 'mixed', 'uneven'])
    r = {
        'fast': [rnd.uniform(0.5, 3) for _ in range(3)],
        'slow': [rnd.uniform(1e-4, 1e-2) for _ in range(3)],
        'one': [0.0, 0.0, 0.0],
        'mixed': [rnd.uniform(0.01, 1.0) for _ in range(3)],
        'uneven': [10 ** rnd.uniform(-3, 0.5) for _ in range(3)],
    }[style]
    if style == 'one':
      r[rnd.randrange(3)] = rnd.uniform(0.2, 2.0)
    return {'kind': 'const', 'rates': [round(x, 6) for x in r]}
  if k == 'human':
    return {'kind': 'human', 'max_rate': rnd.choice([0.23, 1.0, 5.0])}
  return {'kind': k}


def make_material(m, spec, failing=None):
  rf = make_rates(m, spec['rates'])
  if failing is not None:
    rf = FailingRates(rf, failing)
  mat = m.graphene.PristineSingleDopedGraphene(
      rate_function=rf, grid_columns=spec.get('columns', 50))
  mat.verif_rates = rf  # the harness' handle on its own fault injector
  return mat


# ------------------------------------------------------------ adapters ----


def gen_adapter(rnd, kinds=('direct', 'delta', 'rel', 'rel_mat')):
  k = rnd.choice(kinds)
  s = {'kind': k}
  if k in ('rel', 'rel_mat'):
    if rnd.random() < 0.5:
      lo = rnd.choice([0.5, 1.0, 1.5])
      s['dwell'] = [lo, lo + rnd.choice([0.5, 4.0, 10.0, 20.0])]
    else:
      d = rnd.choice([1.5, 5.0, 0.25])
      s['dwell'] = [d, d]
    s['max_dist'] = rnd.choice([1.42, 2.84, 4.26])
  return s


def make_adapter(m, spec):
  a = m.action_adapters
  k = spec['kind']
  if k == 'direct':
    return a.DirectActionAdapter()
  if k == 'delta':
    return a.DeltaPositionActionAdapter(np.random.default_rng(0))
  cls = (a.RelativeToSiliconActionAdapter if k == 'rel'
         else a.RelativeToSiliconMaterialFrameActionAdapter)
  lo, hi = spec['dwell']
  return cls(
      dwell_time_range=(dt.timedelta(seconds=lo), dt.timedelta(seconds=hi)),
      max_distance_angstroms=spec['max_dist'])


def make_features(m, kind):
  f = m.feature_constructors
  return {
      'single': f.SingleSiliconPristineGrapheneFeatureConstuctor,
      'material': f.SingleSiliconMaterialFrameFeatureConstructor,
      'image': f.ImageFeatureConstructor,
  }[kind]()


def gen_env(rnd, image_p=0.1, rates=('simple', 'gmm', 'const'),
            adapters=('direct', 'delta', 'rel', 'rel_mat')):
  s = {
      'rates': gen_rates(rnd, rates),
      'columns': rnd.choice([50, 50, 50, 40, 30]),
      'adapter': gen_adapter(rnd, adapters),
      'features': ('image' if rnd.random() < image_p
                   else rnd.choice(['single', 'material'])),
      'image_s': rnd.choice([2.0, 2.0, 0.5, 3.75]),
  }
  if rnd.random() < 0.4:
    lo = rnd.choice([0.1, 1.0, 2.0, 3.0])
    s['goal_range'] = [lo, lo + rnd.choice([2.0, 4.0, 20.0])]
  return s


def make_goal(m, spec):
  goal = m.goals.SingleSiliconGoalReaching()
  if 'goal_range' in spec:
    goal.goal_range_angstroms = tuple(spec['goal_range'])
  if spec.get('truncate'):
    # A goal that gives up: on some observations, chosen by their content.
    judge = goal.calculate_reward_and_terminal

    def giving_up(observation):
      g = judge(observation)
      if gives_up(spec, observation):
        g = dataclasses.replace(g, is_truncated=True)
      return g

    goal.calculate_reward_and_terminal = giving_up
  return goal


def gives_up(spec, observation):
  data = np.asarray(observation.grid.atom_positions).round(6).tobytes()
  k = spec.get('truncate')
  return bool(k) and zlib.crc32(data) % k == 0


def make_env(m, spec, failing=None, material=None):
  mat = material or make_material(m, spec, failing)
  env = m.putting_dune_environment.PuttingDuneEnvironment(
      material=mat,
      action_adapter=make_adapter(m, spec['adapter']),
      feature_constructor=make_features(m, spec['features']),
      goal=make_goal(m, spec),
      image_duration=dt.timedelta(seconds=spec['image_s']),
  )
  return env


def sample_action(spec_, r, mode):
  """Draws an action for a dm_env BoundedArray spec."""
  lo = np.broadcast_to(np.asarray(spec_.minimum, dtype=np.float64), spec_.shape)
  hi = np.broadcast_to(np.asarray(spec_.maximum, dtype=np.float64), spec_.shape)
  if mode == 'corner':
    pick = r.integers(0, 2, size=spec_.shape).astype(bool)
    a = np.where(pick, hi, lo)
  elif mode == 'center':
    a = (lo + hi) / 2
  elif mode == 'outside':
    a = lo + (hi - lo) * r.uniform(-1.5, 2.5, size=spec_.shape)
  else:
    a = r.uniform(lo, hi)
  return np.asarray(a, dtype=np.float32)


# ----------------------------------------------------------- recording ----


def pt(p):
  return (float(p.x), float(p.y))


def enc_control(c):
  return (float(c.position.x), float(c.position.y),
          c.dwell_time.total_seconds(),
          None if c.voltage_kv is None else float(c.voltage_kv),
          None if c.current_na is None else float(c.current_na))


def enc_fov(f):
  return (*pt(f.lower_left), *pt(f.upper_right))


def dec_fov(m, v):
  P = lambda x, y: m.geometry.PointMaterialFrame(
      m.geometry.Point(float(x), float(y)))
  return m.microscope_utils.MicroscopeFieldOfView(P(v[0], v[1]), P(v[2], v[3]))


def enc_obs(o):
  return (
      np.asarray(o.grid.atom_positions), np.asarray(o.grid.atomic_numbers),
      enc_fov(o.fov), [enc_control(c) for c in o.controls],
      o.elapsed_time.total_seconds(),
      None if o.image is None else np.asarray(o.image),
      None if o.label_image is None else np.asarray(o.label_image),
  )


def enc_ts(ts):
  obs = ts.observation
  if isinstance(obs, dict):
    obs = {k: np.asarray(v) for k, v in obs.items()}
  else:
    obs = np.asarray(obs)
  return (int(ts.step_type),
          None if ts.reward is None else float(ts.reward),
          None if ts.discount is None else float(ts.discount), obs)


SI, C = 14, 6
BOND = 1.42


def si_index(grid):
  i = np.flatnonzero(np.asarray(grid.atomic_numbers) == SI)
  return i


def three_nearest(pos, i):
  """Indices whose distance to atom i is among the three smallest.

  Returns (mandatory, allowed): ties at the third distance widen `allowed`.
  """
  d = np.linalg.norm(pos - pos[i], axis=1)
  d[i] = np.inf
  order = np.argsort(d, kind='stable')
  third = d[order[2]]
  return set(np.flatnonzero(d <= third + 1e-6).tolist())


def close(a, b, tol=1e-9):
  return math.isclose(a, b, rel_tol=tol, abs_tol=tol)
