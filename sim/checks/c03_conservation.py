"""C03: one silicon, fixed atoms, single-bond hops."""
import numpy as np

from sim import core
from sim import simwalk
from sim import world


class C03(core.Check):
  id = 'C03'
  quick_runs = 480
  thorough_runs = 12000
  nontrivial_rule = (
      'a seeded history of resets, exposures, imaging and injected '
      'rate-function crashes; non-trivial if at least one transition or fault '
      'occurred.')
  state_measure = ('distinct (episode number, index of the atom that is '
                   'silicon, atoms in the sheet) triples')
  real = ['PuttingDuneSimulator', 'PristineSingleDopedGraphene', 'rate '
          'functions (simple, Gaussian mixture, human prior)', 'geometry',
          'numpy Generator (seeded)']
  stubs = ['for part of the runs the canonical rate predictor returns rates '
           'chosen by the plan', 'rate-function crash injector']
  fault_kinds = ('rate_function_crash_mid_exposure',
                 'observer_attached_mid_run', 'observer_detached_mid_run')

  def load(self):
    self.m = world.mods()

  def generate(self, rnd, tier):
    return simwalk.gen_plan(rnd, tier, images=0.01)

  def shrink(self, plan):
    return simwalk.shrink(plan)

  def execute(self, plan, ctx):
    m = self.m
    w = simwalk.Walk(m, plan)
    st = {'pos': None, 'si': None, 'ep': 0}
    snaps = []

    def one_si(grid, what):
      idx = world.si_index(grid)
      ctx.check(len(idx) == 1, 'silicon-count',
                f'{what}: {len(idx)} silicon atoms in the material')
      nums = np.asarray(grid.atomic_numbers)
      ctx.check(bool(np.all((nums == world.SI) | (nums == world.C))),
                'foreign-atom', f'{what}: atomic numbers {set(nums.tolist())}')
      ctx.check(nums.shape[0] == np.asarray(grid.atom_positions).shape[0],
                'shape', 'positions and numbers disagree')
      return int(idx[0])

    def fixed(grid, what):
      p = np.asarray(grid.atom_positions)
      ctx.check(p.shape == st['pos'].shape and np.array_equal(p, st['pos']),
                'atoms-moved', f'{what}: atom positions changed')

    def transitions(events):
      for e in events:
        if e[0] != 'transition':
          continue
        grid = e[2]
        fixed(grid, 'transition')
        i = one_si(grid, 'transition')
        ctx.check(i != st['si'], 'transition-to-self',
                  'a transition left the silicon in place')
        ok = world.three_nearest(st['pos'], st['si'])
        ctx.check(i in ok, 'illegal-hop', lambda: (
            f'silicon moved from atom {st["si"]} to atom {i} at distance '
            f'{np.linalg.norm(st["pos"][i] - st["pos"][st["si"]]):.3f} A, not '
            f'one of its three nearest neighbours {sorted(ok)}'))
        st['si'] = i
        ctx.nontrivial = True
        ctx.count('transitions')
        ctx.state(st['ep'], i, st['pos'].shape[0])
        snaps.append((grid, core.digest([grid.atom_positions,
                                         grid.atomic_numbers])))

    def visit(kind, op, info):
      if kind in ('add', 'rm'):
        return
      grid = w.material.grid
      if kind == 'reset':
        st['ep'] += 1
        st['pos'] = np.array(grid.atom_positions, copy=True)
        st['si'] = one_si(grid, 'reset')
        d = np.linalg.norm(st['pos'], axis=1)
        ctx.check(d[st['si']] <= d.min() + 1e-9, 'si-not-central',
                  'after a reset the silicon is not the atom nearest the '
                  'centre of the sheet')
        # A pristine lattice: every atom has a neighbour at exactly one bond
        # length and none closer.
        dd = np.linalg.norm(
            st['pos'][None, :, :] - st['pos'][::7][:, None, :], axis=-1)
        dd[dd < 1e-9] = np.inf
        mn = dd.min(axis=1)
        ctx.check(bool(np.all(mn > world.BOND - 1e-4)), 'overlap',
                  lambda: f'atoms closer than a bond: {mn.min()}')
        ctx.check(float(np.abs(mn - world.BOND).max()) < 1e-3, 'lattice',
                  lambda: f'nearest neighbour at {mn.max()} A, not one bond')
        snaps.append((grid, core.digest([grid.atom_positions,
                                         grid.atomic_numbers])))
        ctx.log('reset', st['si'], st['pos'])
      else:
        transitions(info['events'])
        ctx.log(kind, st['si'])
      # The material is what the transitions say it is, at every point.
      fixed(grid, kind)
      i = one_si(grid, kind)
      ctx.check(i == st['si'], 'unreported-change',
                f'after {kind} the silicon is atom {i}, but the transitions '
                f'reported leave it at atom {st["si"]}')
      if kind in ('reset', 'step'):
        obs = info['obs']
        n = len(world.si_index(obs.grid))
        ctx.check(n == 1, 'observed-silicon-count',
                  f'the observation shows {n} silicon atoms')
        sp = np.asarray(w.material.get_silicon_position()).reshape(-1)
        ctx.check(sp.shape == (2,) and np.array_equal(sp, st['pos'][i]),
                  'silicon-position', 'reported silicon position is wrong')

    w.run(ctx, visit)
    # Histories handed out earlier must not have been rewritten.
    for grid, dg in snaps:
      ctx.check(core.digest([grid.atom_positions, grid.atomic_numbers]) == dg,
                'history-mutated', 'a grid captured earlier changed later')
    self.equality(ctx, [g for g, _ in snaps], plan)

  def equality(self, ctx, grids, plan):
    """Grids are equal if they show the same atoms, in whatever order."""
    r = np.random.default_rng(int(plan.get('np_seed', 0)))
    grid_type = self.m.microscope_utils.AtomicGrid

    def same(a, b, want, what):
      ctx.count('comparisons')
      ctx.check((a == b) is want and (b == a) is want, 'grid-equality',
                f'{what}: a == b is {a == b}, b == a is {b == a}')

    for _ in range(min(4, len(grids))):
      i = int(r.integers(0, len(grids)))
      a = grids[i]
      pos, num = np.asarray(a.atom_positions), np.asarray(a.atomic_numbers)
      p = r.permutation(len(num))
      b = grid_type(pos[p], num[p])
      same(a, b, True, 'the same atoms in another order')
      ctx.check(hash(a) == hash(b), 'grid-hash', 'equal grids, other hashes')
      same(a, grid_type(pos[p] + r.uniform(-2e-4, 2e-4, 2), num[p]), True,
           'the same atoms, give or take a rounding error')
      same(a, grid_type(pos + r.uniform(.05, .4, 2), num), False,
           'a sheet that moved')
      k = int(r.integers(1, len(num)))
      same(a, grid_type(pos[p][:-k], num[p][:-k]), False, 'atoms are missing')
      twice = p.copy()
      twice[0] = twice[1]
      if num[p[0]] == num[p[1]]:
        same(a, grid_type(pos[twice], num[twice]), False,
             'one atom is there twice, another one missing')
      none = grid_type(pos[:0], num[:0])
      same(none, grid_type(pos[:0], num[:0]), True, 'no atoms')
      same(a, none, False, 'atoms and none')
      other = num.copy()
      j = int(r.integers(0, len(num)))
      other[j] = world.SI if num[j] == world.C else world.C
      same(a, grid_type(pos[p], other[p]), False, 'another kind of atom')
      if i:
        prev = grids[i - 1]
        if np.array_equal(pos, prev.atom_positions):
          same(a, prev, bool(np.array_equal(num, prev.atomic_numbers)),
               'consecutive grids')


CHECK = C03()
