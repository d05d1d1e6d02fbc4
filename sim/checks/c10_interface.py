"""C10: commands and features over adapter histories."""
import dataclasses
import datetime as dt

import numpy as np

from sim import core
from sim import world


class C10(core.Check):
  id = 'C10'
  quick_runs = 480
  thorough_runs = 15000
  nontrivial_rule = (
      'a seeded history of observations and actions (inside, at the corners '
      'and far outside the action bounds; moving and non-square fields of '
      'view; detector faults; adapter resets and re-seeding) fed to an action '
      'adapter and the feature constructors; non-trivial if at least three '
      'commands were issued.')
  state_measure = ('distinct (adapter, action style, clipped axes, fault) '
                   'tuples')
  real = ['action adapters', 'feature constructors', 'MicroscopeFieldOfView',
          'goals', 'simulator and material as the source of observations',
          'GreedyAgent']
  stubs = ['detector faults (lost/extra silicon, permuted atoms)']
  fault_kinds = ('detector_lost_silicon', 'detector_extra_silicon',
                 'atoms_permuted', 'fov_jump')

  def load(self):
    self.m = world.mods()
    from putting_dune.agents import agent_lib
    self.agent_lib = agent_lib

  def generate(self, rnd, tier):
    ops = []
    for _ in range(rnd.randrange(6, 50)):
      r = rnd.random()
      if r < 0.08:
        ops.append({'op': 'reset'})
      elif r < 0.16:
        ops.append({'op': 'fov', 'w': rnd.choice([8.0, 15.0, 20.0, 30.0, 60.0]),
                    'h': rnd.choice([8.0, 15.0, 22.0, 30.0]),
                    'dx': rnd.uniform(-0.45, 0.45),
                    'dy': rnd.uniform(-0.45, 0.45)})
      elif r < 0.24:
        ops.append({'op': 'fault', 'k': rnd.choice(['none', 'extra',
                                                    'permute', 'ok'])})
      elif r < 0.28:
        ops.append({'op': 'hop', 'i': rnd.randrange(3)})
      else:
        ops.append({'op': 'act', 'mode': rnd.choice(
            ['uniform', 'corner', 'outside', 'center', 'greedy'])})
    return {'adapter': world.gen_adapter(rnd), 'rng': rnd.randrange(2**31),
            'ops': ops}

  def execute(self, plan, ctx):
    m = self.m
    r = np.random.default_rng(plan['rng'])
    spec = plan['adapter']
    kind = spec['kind']
    ad = world.make_adapter(m, spec)
    if kind == 'delta':
      ad.rng = np.random.default_rng(plan['rng'] + 1)
      ad.reset()
    # The actions offered: everything in reach, in every direction.
    lo, hi = (np.broadcast_to(np.asarray(v, dtype=float), ad.action_spec.shape)
              for v in (ad.action_spec.minimum, ad.action_spec.maximum))
    timed = kind in ('rel', 'rel_mat') and spec['dwell'][0] < spec['dwell'][1]
    ctx.check(len(lo) == 2 + timed, 'action-spec', f'{len(lo)} inputs')
    if kind == 'direct':
      ok = (lo == 0).all() and (hi == 1).all()
    elif kind == 'delta':
      ok = (lo[:2] == -hi[:2]).all() and (hi > 0).all()
    else:
      ok = ((lo[:2] == -1).all() and (hi == 1).all() and (lo[2:] == 0).all())
    ctx.check(ok, 'action-spec', f'actions from {lo} to {hi}')
    sheet = m.graphene.generate_pristine_graphene(r, 30)
    st = {'si': int(np.argmin(np.linalg.norm(sheet, axis=1))), 'w': 20.0,
          'h': 20.0, 'dx': 0.0, 'dy': 0.0, 'fault': 'ok'}
    goal = m.goals.SingleSiliconGoalReaching()
    goal.goal_position_material_frame = sheet[
        int(r.integers(0, len(sheet)))].copy()
    feats = {k: world.make_features(m, k) for k in ('single', 'material')}
    beam = [None]
    issued = []

    def observation():
      mu, ge = m.microscope_utils, m.geometry
      c = sheet[st['si']] + np.array([st['dx'] * st['w'], st['dy'] * st['h']])
      half = np.array([st['w'], st['h']]) / 2
      ll, ur = c - half, c + half
      inside = np.flatnonzero(np.all((sheet >= ll) & (sheet <= ur), axis=1))
      num = np.full(len(inside), world.C)
      num[inside == st['si']] = world.SI
      if st['fault'] == 'none':
        num[:] = world.C
      elif st['fault'] == 'extra':
        num[int(r.integers(0, len(num)))] = world.SI
      if st['fault'] == 'permute':
        p = r.permutation(len(inside))
        inside, num = inside[p], num[p]
      return mu.MicroscopeObservation(
          grid=mu.AtomicGrid((sheet[inside] - ll) / (ur - ll), num),
          fov=mu.MicroscopeFieldOfView(ge.Point(*ll), ge.Point(*ur)),
          controls=(), elapsed_time=dt.timedelta(seconds=2)), ll, ur

    def features(obs, ll, ur, nsi):
      if nsi == 0:
        for k, f in feats.items():
          try:
            f.get_features(obs, goal)
          except m.graphene.SiliconNotFoundError:
            continue
          ctx.violate('features-without-silicon',
                      f'{k}: no error without a silicon atom')
        return None
      if nsi > 1:
        return None
      si = sheet[st['si']]
      inside = sheet[np.all((sheet >= ll) & (sheet <= ur), axis=1)]
      d = np.linalg.norm(inside - si, axis=1)
      order = np.argsort(d, kind='stable')[1:4]
      ok_ties = len(d) > 4 and d[np.argsort(d)[4]] - d[np.argsort(d)[3]] > 1e-3
      out = {}
      for k, f in feats.items():
        v = np.asarray(ctx.must('get_features', f.get_features, obs, goal))
        s = f.observation_spec()
        ctx.check(v.shape == s.shape and v.dtype == s.dtype, 'feature-spec',
                  f'{k}: {v.shape} {v.dtype}')
        want_si = (si - ll) / (ur - ll) if k == 'single' else si
        ctx.check(np.allclose(v[:2], want_si, atol=1e-3), 'feature-silicon',
                  f'{k}: silicon at {v[:2]}, is at {want_si}')
        ctx.check(np.allclose(v[-2:], goal.goal_position_material_frame - si,
                              atol=1e-3), 'feature-goal',
                  f'{k}: goal delta {v[-2:]}')
        square = abs(st['w'] - st['h']) < 1e-9
        if ok_ties and (square or k == 'material'):
          want = inside[order] - si
          if k == 'single':
            want = want / np.linalg.norm(want, axis=1, keepdims=True)
          got = v[2:-2].reshape(3, 2)
          dd = np.linalg.norm(got[:, None] - want[None], axis=-1)
          ctx.check(bool((dd.min(axis=1) < 1e-3).all()
                         and (dd.min(axis=0) < 1e-3).all()),
                    'feature-neighbours',
                    f'{k}: neighbour vectors {got.tolist()}, expected '
                    f'{want.tolist()}')
        out[k] = v
      return out

    for op in plan['ops']:
      k = op['op']
      if k == 'reset':
        ad.reset()
        beam[0] = None
        ctx.log('reset')
        continue
      if k == 'fov':
        st.update(w=op['w'], h=op['h'], dx=op['dx'], dy=op['dy'])
        ctx.fault('fov_jump')
        continue
      if k == 'fault':
        st['fault'] = op['k']
        continue
      if k == 'hop':
        nb = sorted(world.three_nearest(sheet, st['si']))
        st['si'] = nb[op['i'] % len(nb)]
        continue
      obs, ll, ur = observation()
      if len(obs.grid.atom_positions) < 5:
        continue
      n_si = len(world.si_index(obs.grid))
      if st['fault'] == 'none':
        ctx.fault('detector_lost_silicon')
      elif n_si > 1:
        ctx.fault('detector_extra_silicon')
      elif st['fault'] == 'permute':
        ctx.fault('atoms_permuted')
      fv = features(obs, ll, ur, n_si)
      mode = op['mode']
      if mode == 'greedy':
        if kind != 'rel_mat' or fv is None:
          mode = 'uniform'
        else:
          a = self.greedy(ctx, fv['material'], goal)
      if mode != 'greedy':
        a = world.sample_action(ad.action_spec, r, mode)
      elif len(ad.action_spec.shape) and ad.action_spec.shape[0] == 3:
        a = np.concatenate([a, [0.5]])
      a = np.asarray(a, dtype=np.float32)
      a0 = a.copy()
      pos0 = obs.grid.atom_positions.copy()
      try:
        out = ctx.must('get_action', ad.get_action, obs, a)
      except core.Violation as v:
        if kind in ('rel', 'rel_mat') and n_si != 1 and 'RuntimeError' in v.sig:
          ctx.log('refused')
          ctx.state(kind, 'refused', n_si)
          continue
        raise
      ctx.check(np.array_equal(a, a0)
                and np.array_equal(pos0, obs.grid.atom_positions),
                'inputs-mutated', 'the action or observation was modified')
      if kind in ('rel', 'rel_mat'):
        ctx.check(n_si == 1, 'ambiguous-silicon',
                  f'a command was issued with {n_si} silicon atoms in view')
      ctx.check(len(out) == 1, 'command-count', f'{len(out)} commands')
      c = out[0]
      p = np.array([c.position.x, c.position.y])
      dwell = c.dwell_time.total_seconds()
      ctx.check(bool(np.all((p >= 0) & (p <= 1))), 'command-outside-fov',
                f'command at {p}')
      af = a.astype(float)
      si_mic = (sheet[st['si']] - ll) / (ur - ll)
      if kind == 'direct':
        want = np.clip(af, 0, 1)
        wd = 1.5
      elif kind == 'delta':
        if beam[0] is None:
          # The start is random but inside the view.
          start = p - af
          ok = (((start >= -1e-5) | (p == 1))
                & ((start <= 1 + 1e-5) | (p == 0)))
          ctx.check(bool(np.all(ok)), 'delta-start',
                    f'first beam move from {start}, outside the view')
          want = p
        else:
          want = np.clip(beam[0] + af, 0, 1)
        beam[0] = p.copy()
        wd = 1.5
      elif kind == 'rel':
        want = np.clip(si_mic + np.clip(af[:2], -1, 1) * spec['max_dist']
                       / (ur - ll), 0, 1)
      else:
        want = np.clip((sheet[st['si']] + af[:2] - ll) / (ur - ll), 0, 1)
      if kind in ('rel', 'rel_mat'):
        lo, hi = spec['dwell']
        wd = lo if lo == hi else lo + float(np.clip(af[2], 0, 1)) * (hi - lo)
        ctx.check(lo - 1e-6 <= dwell <= hi + 1e-6, 'dwell-range',
                  f'dwell {dwell} outside [{lo}, {hi}]')
        if kind == 'rel':
          reach = np.abs(p - si_mic) * (ur - ll)
          ctx.check(bool(np.all(reach <= spec['max_dist'] + 1e-4)),
                    'max-distance', f'beam {reach} A from the silicon')
      ctx.check(np.allclose(p, want, atol=1e-5), 'command-position',
                f'{kind}: action {af} gave {p}, expected {want}')
      ctx.check(abs(dwell - wd) < 1e-5, 'command-dwell',
                f'{kind}: dwell {dwell}, expected {wd}')
      issued.append((c, p.copy(), dwell))
      ctx.state(kind, mode, (p == 0).tolist(), (p == 1).tolist(), st['fault'])
      ctx.simtime(dwell)
      ctx.log('act', p, dwell)
    for c, p, d in issued:
      ctx.check(c.position.x == p[0] and c.position.y == p[1]
                and c.dwell_time.total_seconds() == d, 'command-mutated',
                'a command issued earlier changed later')
    if len(issued) >= 3:
      ctx.nontrivial = True

  def greedy(self, ctx, fv, goal):
    """GreedyAgent aims at the neighbour nearest the goal."""
    import dm_env
    ag = self.agent_lib.GreedyAgent(rng=np.random.default_rng(0),
                                    argmax=np.array([1.42, 0.0]))
    a = np.asarray(ctx.must('GreedyAgent.step', ag.step, dm_env.transition(
        0.0, fv, 1.0)))
    nd = fv[2:-2].reshape(3, 2).astype(float)
    gd = fv[-2:].astype(float)
    dist = np.linalg.norm(nd - gd, axis=1)
    best = np.flatnonzero(dist <= dist.min() + 1e-4)
    err = min(np.linalg.norm(a - 1.42 * nd[b] / np.linalg.norm(nd[b]))
              for b in best)
    ctx.check(err < 0.05, 'greedy-aim',
              f'greedy action {a} is {err:.3f} A from one bond towards the '
              'neighbour nearest the goal')
    return a


CHECK = C10()
