"""C06: the field of view tracks the silicon and shows what is there."""
import dataclasses
import datetime as dt

import numpy as np

from sim import core
from sim import simwalk
from sim import world


class C06(core.Check):
  id = 'C06'
  quick_runs = 480
  thorough_runs = 12000
  nontrivial_rule = (
      'a seeded history dragging the silicon by exposures (near, far, outside '
      'the field of view, chasing the edge of the sheet) with crashes in the '
      'middle of exposures; non-trivial if the silicon moved at least once.')
  state_measure = ('distinct (field-of-view size class, observed silicon '
                   'position on a 20x20 raster, re-centred or not)')
  real = ['PuttingDuneSimulator', 'PristineSingleDopedGraphene',
          'MicroscopeFieldOfView', 'imaging']
  stubs = ['part of the runs: rates chosen by the plan',
           'rate-function crash injector']
  fault_kinds = ('rate_function_crash_mid_exposure',)

  def load(self):
    self.m = world.mods()

  def generate(self, rnd, tier):
    return simwalk.gen_plan(rnd, tier, images=0.04, observers=False,
                            rates=('simple', 'gmm', 'const', 'const', 'const'),
                            long=True)

  def shrink(self, plan):
    return simwalk.shrink(plan)

  def execute(self, plan, ctx):
    w = simwalk.Walk(self.m, plan)
    st = {'frames': np.random.default_rng(int(plan.get('np_seed', 0)))}

    def visit(kind, op, info):
      if kind == 'crash':
        ctx.log('crash')
        return
      obs = info['obs']
      fov = obs.fov
      ll = np.array([fov.lower_left.x, fov.lower_left.y])
      ur = np.array([fov.upper_right.x, fov.upper_right.y])
      size = ur - ll
      si = np.asarray(w.material.get_silicon_position()).reshape(2)
      fovs = [e for e in info['events'] if e[0] == 'fov']
      if kind == 'reset':
        ctx.check(15 - 1e-9 <= size[0] <= 30 + 1e-9, 'fov-size',
                  f'field of view is {size[0]} A wide')
        ctx.check(abs(size[0] - size[1]) < 1e-6, 'fov-square',
                  f'field of view is {size}')
        ctx.check(np.allclose((ll + ur) / 2, si, atol=1e-6), 'fov-centre',
                  'the reset field of view is not centred on the silicon')
        st['size'] = size
        recentred = True
      else:
        ctx.check(np.allclose(size, st['size'], atol=1e-6), 'fov-resized',
                  f'field of view size changed within an episode: '
                  f'{st["size"]} -> {size}')
        pf = info['prev_fov']
        pll = np.array([pf.lower_left.x, pf.lower_left.y])
        pur = np.array([pf.upper_right.x, pf.upper_right.y])
        rel = (si - pll) / (pur - pll)
        safe = bool(np.all((rel >= 0.25) & (rel <= 0.75)))
        marginal = bool(np.any(np.abs(rel - 0.25) < 1e-6)
                        or np.any(np.abs(rel - 0.75) < 1e-6))
        moved = not (np.array_equal(pll, ll) and np.array_equal(pur, ur))
        recentred = moved
        if not marginal:
          ctx.check(moved == (not safe), 'recentre-decision',
                    f'silicon at {rel} of the old field of view; '
                    f'the field of view was {"" if moved else "not "}moved')
        if moved:
          ctx.check(np.allclose((ll + ur) / 2, si, atol=1e-6),
                    'recentre-position',
                    f're-centred at {(ll + ur) / 2}, silicon at {si}')
          ctx.count('recentred')
        ctx.check(bool(fovs) == moved, 'fov-notification',
                  'field-of-view change and its notification disagree')
        if len(info['events']) and any(
            e[0] == 'transition' for e in info['events']):
          ctx.nontrivial = True
      # One silicon, in the safe central area.
      idx = world.si_index(obs.grid)
      ctx.check(len(idx) == 1, 'silicon-in-view',
                f'{len(idx)} silicon atoms in view')
      p = np.asarray(obs.grid.atom_positions)[idx[0]]
      ctx.check(bool(np.all((p >= 0.25 - 1e-6) & (p <= 0.75 + 1e-6))),
                'silicon-not-safe', f'silicon observed at {p}')
      # The observed grid is exactly the material inside the field of view.
      mp = np.asarray(w.material.grid.atom_positions)
      mn = np.asarray(w.material.grid.atomic_numbers)
      inside = np.all((mp >= ll - 1e-7) & (mp <= ur + 1e-7), axis=1)
      surely = np.all((mp >= ll + 1e-7) & (mp <= ur - 1e-7), axis=1)
      got = np.asarray(obs.grid.atom_positions) * size + ll
      gn = np.asarray(obs.grid.atomic_numbers)
      ctx.check(int(surely.sum()) <= len(got) <= int(inside.sum()),
                'view-atom-count', f'{len(got)} atoms in view, material has '
                f'{int(inside.sum())} there')
      ci = np.flatnonzero(inside)
      dist = np.linalg.norm(got[:, None, :] - mp[ci][None, :, :], axis=-1)
      near = dist.argmin(axis=1)
      ctx.check(bool(np.all(dist[np.arange(len(got)), near] < 1e-5)),
                'view-positions', 'observed atoms are not where the '
                'material has atoms')
      ctx.check(len(set(near.tolist())) == len(got), 'view-duplicates',
                'an atom is observed twice')
      ctx.check(bool(np.all(gn == mn[ci][near])), 'view-numbers',
                'observed atomic numbers differ from the material')
      if st['frames'].random() < 0.3:
        self.frames(ctx, obs, w.material.grid, st['frames'])
      # Images exactly when asked for.
      ctx.check((obs.image is not None) == bool(op['image']), 'image-presence',
                f'image requested: {op["image"]}')
      if obs.image is not None:
        im = np.asarray(obs.image)
        ctx.count('rendered')
        ctx.check(im.ndim == 2 and im.shape[0] == im.shape[1]
                  and bool(np.isfinite(im).all()), 'image-shape',
                  f'image {im.shape}')
        ctx.check(0 <= im.min() and im.max() <= 1.0 + 1e-9 and im.std() > 0,
                  'image-range', f'image range {im.min()}..{im.max()}')
      ctx.state(int(size[0]), int(p[0] * 20), int(p[1] * 20), recentred)
      ctx.log(kind, ll, ur, p, len(got))

    w.run(ctx, visit)

  def frames(self, ctx, obs, material, r):
    """Views derived from this one show, and convert, the same things."""
    m = self.m
    mu, geo = m.microscope_utils, m.geometry
    fov = obs.fov
    lo = np.array([fov.lower_left.x, fov.lower_left.y])
    hi = np.array([fov.upper_right.x, fov.upper_right.y])
    for _ in range(int(r.integers(0, 4))):
      kind = r.integers(3)
      if kind == 0:
        d = r.uniform(-9, 9, 2)
        fov = fov.shift(geo.Point(*d))
        lo, hi = lo + d, hi + d
      elif kind == 1:
        z = r.uniform(0.4, 2.5)
        fov = fov.zoom(z)
        lo, hi = ((lo + hi) / 2 - (hi - lo) / 2 / z,
                  (lo + hi) / 2 + (hi - lo) / 2 / z)
      else:
        n = r.uniform(8, 40, 2)
        fov = fov.resize(*n)
        lo, hi = (lo + hi) / 2 - n / 2, (lo + hi) / 2 + n / 2
    size = hi - lo
    ctx.count('derived_views')

    def same(a, b, what):
      ctx.check(np.allclose(np.asarray(a).reshape(-1),
                            np.asarray(b).reshape(-1), atol=1e-6),
                'frames', f'{what} of {fov}: {a}, should be {b}')

    def xy(p):
      return np.array([p.x, p.y])

    same(xy(fov.lower_left), lo, 'lower left')
    same(xy(fov.upper_right), hi, 'upper right')
    same(xy(fov.offset), (lo + hi) / 2, 'offset')
    same([fov.width, fov.height], size, 'size')
    p = r.uniform(-0.5, 1.5, 2)
    q = p * size + lo
    many = r.uniform(-0.5, 1.5, (int(r.integers(1, 6)), 2))
    control = mu.BeamControl(geo.Point(*p), dt.timedelta(
        seconds=r.uniform(0, 9)), r.uniform(40, 80), r.uniform(0, 1))
    for name, go, a, b, arr in (
        ('to the material frame', fov.microscope_frame_to_material_frame,
         p, q, many * size + lo),
        ('to the microscope frame', fov.material_frame_to_microscope_frame,
         q, p, (many - lo) / size)):
      same(go(a), b, f'a vector {name}')
      ctx.check(go(a).shape == (2,), 'frames', f'a vector {name}')
      same(go(many), arr, f'vectors {name}')
      ctx.check(go(many).shape == many.shape, 'frames', f'vectors {name}')
      same(xy(go(geo.Point(*a))), b, f'a point {name}')
      c = dataclasses.replace(control, position=geo.Point(*a))
      d = go(c)
      same(xy(d.position), b, f'a control {name}')
      ctx.check((d.dwell_time, d.voltage_kv, d.current_na) ==
                (c.dwell_time, c.voltage_kv, c.current_na), 'frames',
                f'a control {name} turned from {c} into {d}')
      z = r.integers(1, 20, len(many))
      g = go(mu.AtomicGrid(many.copy(), z))
      same(g.atom_positions, arr, f'a grid {name}')
      ctx.check(np.array_equal(g.atomic_numbers, z), 'frames',
                f'a grid {name} has other atoms')
    shift = r.uniform(-3, 3, 2)
    same(xy(control.shift(geo.Point(*shift)).position), p + shift,
         'a shifted control')
    same(mu.AtomicGrid(many, np.ones(len(many))).shift(shift).atom_positions,
         many + shift, 'a shifted grid')
    # What lies in the view, give or take a margin.
    tol = float(r.choice([0.0, 0.0, 2.0, -1.5, 5.0]))
    pos = np.asarray(material.atom_positions)
    num = np.asarray(material.atomic_numbers)
    got = fov.get_atoms_in_bounds(material, tol)
    gap = np.minimum(pos - (lo - tol), (hi + tol) - pos).min(axis=1)
    have = [tuple(x) for x in np.asarray(got.atom_positions)]
    must = [tuple(x) for x in pos[gap > 1e-7]]
    may = {tuple(x): n for x, n in zip(pos[gap > -1e-7], num[gap > -1e-7])}
    ctx.check(len(set(have)) == len(have) and set(must) <= set(have)
              and all(may.get(x) == n
                      for x, n in zip(have, got.atomic_numbers)),
              'frames', f'{len(have)} atoms within {tol} A of {fov}, not '
              f'{len(must)}')


CHECK = C06()
