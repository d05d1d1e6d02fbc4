"""C24: the detector reports the atoms an image shows, each once."""
import dataclasses
import os

import numpy as np

from sim import core
from sim import savedmodels
from sim import scope
from sim import web
from sim import world

FAULTS = ('no_silicon', 'no_carbon', 'blank', 'speck', 'extra_silicon',
          'lost_atoms', 'dead_rows', 'gain')


class C24(core.Check):
  id = 'C24'
  quick_runs = 130
  thorough_runs = 5000
  run_timeout = 120
  nontrivial_rule = (
      'a session in which the live agent sees a simulated sample only through '
      'camera frames and the detector; frames are degraded by the plan; '
      'non-trivial if a frame was degraded or the silicon moved.')
  state_measure = 'distinct (frame fault, frame size, dtype, blob size) tuples'
  real = ['AtomDetector', 'compute_centroids', 'MicroscopeAgent', 'simulator',
          'material', 'TensorFlow SavedModel loading']
  stubs = ['the segmentation net (knows an atom by its brightness)',
           'the camera (one disc per atom)', 'the web']
  fault_kinds = tuple('frame_' + f for f in FAULTS)

  def load(self):
    scope.load(self)
    from etils import epath
    from putting_dune import atom_detector
    self.epath, self.ad = epath, atom_detector
    self.resource_path = epath.resource_path
    self.web = None

  def cleanup(self):
    self.epath.resource_path = self.resource_path
    if self.web is not None:
      self.web.remove()
      self.web = None

  def generate(self, rnd, tier):
    plan = scope.gen_session(rnd, tier, kinds=('rel', 'rel_mat', 'direct'))
    plan['env']['features'] = rnd.choice(['single', 'material'])
    plan['env']['rates'] = {'kind': 'const', 'rates': [0.3, 0.3, 0.3]}
    plan['ops'] = [{
        'op': 'step', 'fault': rnd.choice(['ok'] * 8 + list(FAULTS)),
        'seed': rnd.randrange(9999),
        'size': rnd.choice([[256, 256], [512, 512], [512, 512], [300, 200],
                            [128, 128], [1024, 1024]]),
        'r': rnd.choice([1.6, 2.5, 3.5, 4.5, 5.5, 6.5]),
        'dtype': rnd.choice(['float32', 'float32', 'uint8']),
        'levels': rnd.choice([[0, 250], [0, 255], [0, 120], [100, 60]]),
        'gain': [rnd.uniform(0.01, 50), rnd.uniform(-20, 20)],
    } for _ in range(rnd.randrange(2, 9 if tier == 'quick' else 30))]
    plan['margin'] = rnd.choice([30.0, 30.0, 120.0])
    return plan

  def paint(self, ctx, op, grid):
    """A camera frame: discs of brightness 0.45 and 0.72 (silicon) on 0.1."""
    h, w = op['size'][1], op['size'][0]
    r = np.random.default_rng(op['seed'])
    pos = np.array(grid.atom_positions, dtype=float)
    num = np.array(grid.atomic_numbers)
    f = op['fault']
    if f == 'no_silicon':
      pos, num = pos[num != world.SI], num[num != world.SI]
    elif f == 'no_carbon':
      pos, num = pos[num == world.SI], num[num == world.SI]
    elif f == 'extra_silicon':
      num[r.integers(len(num))] = world.SI
    elif f == 'lost_atoms':
      keep = (r.random(len(num)) < 0.7) | (num == world.SI)
      pos, num = pos[keep], num[keep]
    elif f == 'blank':
      pos, num = pos[:0], num[:0]
    img = np.full((h, w), 0.1)
    ys, xs = np.mgrid[:h, :w]
    # Positions of the pixel centres in the field of view; y points up.
    px, py = (xs + 0.5) / w, 1.0 - (ys + 0.5) / h
    rad = op['r'] / 256
    for p, z in zip(pos, num):
      d2 = (px - p[0]) ** 2 + (py - p[1]) ** 2
      img[d2 <= rad * rad] = 0.72 if z == world.SI else 0.45
    specks = []
    if f == 'speck':
      # Single bright pixels between the atoms.
      for _ in range(3):
        y, x = r.integers(5, h - 5), r.integers(5, w - 5)
        q = np.array([(x + 0.5) / w, 1 - (y + 0.5) / h])
        if np.linalg.norm(pos - q, axis=1).min() > rad + 6 / min(h, w, 256):
          img[y, x] = 0.45
          specks.append(q)
    if f == 'dead_rows':
      y = int(r.integers(0, h - h // 8))
      img[y:y + h // 8] = 0.1
    if f != 'ok':
      ctx.fault('frame_' + f)
    # Anchors, so that the frame always spans its full range.
    if f != 'blank':
      by, bx = -(-2 * h // 256), -(-2 * w // 256)
      img[:by, :bx], img[:by, bx:2 * bx] = 0.0, 1.0
    if op['dtype'] == 'uint8':
      lo, span = op['levels']
      img = np.round(img * span + lo).astype(np.uint8)
    elif f == 'gain':
      img = img * op['gain'][0] + op['gain'][1]
    dead = (1 - (y + h // 8) / h, 1 - y / h) if f == 'dead_rows' else None
    return img.astype(op['dtype'])[:, :, None], pos, num, specks, dead

  def execute(self, plan, ctx):
    m = self.m
    d = ctx.scratch()
    os.mkdir(os.path.join(d, 'pkg'))
    self.epath.resource_path = lambda *a: self.epath.Path(d) / 'pkg'
    self.web = w = web.Web()
    w.install()
    w.pages['https://models.invalid/detector.zip'] = (
        savedmodels.detector_archive(plan['margin']))
    with core.quiet():
      det = ctx.must('from_url', self.ad.AtomDetector.from_url,
                     'https://models.invalid/detector.zip')
    s = scope.Session(m, plan)
    agent, inner = scope.build_agent(m, plan, self.modules)
    started = False
    for i, op in enumerate(plan['ops']):
      if not started and op['fault'] not in ('gain',):
        op = dict(op, fault='ok')
      # Blobs stay apart, also after the frame was reduced.
      bond = 256 * world.BOND / s.obs.fov.width
      gap = max(3 * 256 / min(op['size'] + [256]), 7)
      op = dict(op, r=min(op['r'], (bond - gap) / 2))
      img, pos, num, specks, dead = self.paint(ctx, op, s.obs.grid)
      before = img.copy()
      grid = ctx.must(f'AtomDetector (frame: {op["fault"]})', det, img)
      ctx.check(np.array_equal(img, before), 'image-mutated',
                'detection changed the image')
      self.judge(ctx, i, op, grid, pos, num, specks, dead)
      obs = dataclasses.replace(s.obs, grid=grid)
      # What was detected can be recorded.
      kept = ctx.must(
          'storing the observation',
          lambda o=obs: type(o).from_proto_string(
              o.to_proto().SerializeToString()))
      ctx.check(np.array_equal(kept.grid.atomic_numbers, grid.atomic_numbers)
                and np.allclose(kept.grid.atom_positions, grid.atom_positions,
                                atol=1e-6), 'recorded-atoms',
                f'frame {i} ({op["fault"]}): other atoms were recorded')
      n_si = int((np.asarray(grid.atomic_numbers) == world.SI).sum())
      if not started:
        # Only a sample with the silicon and its bonds in view can start one.
        try:
          agent.reset(np.random.default_rng(plan['rng']), obs)
        except (RuntimeError, ValueError):
          ctx.log('cannot start')
          return
        started = True
      if n_si > 1 or (n_si and len(grid.atomic_numbers) < 4):
        ctx.log('skipped', n_si)
        controls = []
      else:
        seen = len(inner.seen)
        controls = ctx.must('MicroscopeAgent.step', agent.step, obs)
        ctx.check((len(inner.seen) > seen) == (n_si == 1), 'acted-blind',
                  f'frame {i} ({op["fault"]}): {n_si} silicon detected, the '
                  f'agent acted: {len(inner.seen) > seen}')
      si0 = world.si_index(s.mat.grid)[0]
      if controls:
        s.apply(list(controls))
      if world.si_index(s.mat.grid)[0] != si0:
        ctx.nontrivial = True
      ctx.simtime(s.obs.elapsed_time.total_seconds())
      ctx.state(op['fault'], op['size'], op['dtype'], int(2 * op['r']))
      ctx.log('frame', op['fault'], len(grid.atomic_numbers), n_si)

  def judge(self, ctx, i, op, grid, pos, num, specks, dead):
    got = np.asarray(grid.atom_positions, dtype=float)
    gnum = np.asarray(grid.atomic_numbers)
    what = f'frame {i} ({op["fault"]}, {op["size"]}, {op["dtype"]}, blobs of {op["r"]})'
    ctx.check(got.ndim == 2 and got.shape == (len(gnum), 2), 'grid-shape',
              f'{what}: positions {got.shape}, numbers {gnum.shape}')
    ctx.check(set(gnum) <= {world.C, world.SI}, 'elements', f'{set(gnum)}')
    pix = 1 / min(op['size'] + [256])
    rad = op['r'] / 256
    edge = rad + 2 * pix
    tol = 1.5 * pix + 1 / 256
    used = np.zeros(len(gnum), dtype=bool)
    for p, z in zip(pos, num):
      inside = ((p > edge) & (p < 1 - edge)).all()
      if p[0] < 8 * pix + rad and p[1] > 1 - 8 * pix - rad:
        inside = False  # cut by the anchors
      if dead is not None and dead[0] - edge < p[1] < dead[1] + edge:
        inside = False
      dist = np.linalg.norm(got - p, axis=1)
      near = np.flatnonzero(dist < rad + tol)
      used[near] = True
      if not inside:
        continue
      same = [k for k in near if gnum[k] == z]
      name = 'silicon' if z == world.SI else 'carbon'
      ctx.check(len(same) > 0, f'missed-{name}', f'{what}: the {name} at '
                f'{np.round(p, 3)} was not reported')
      ctx.check(len(near) == 1, f'reported-{len(near)}-times', f'{what}: the '
                f'{name} at {np.round(p, 3)} was reported as '
                f'{[(int(gnum[k]), np.round(got[k], 3).tolist()) for k in near]}')
      ctx.check(dist[same[0]] <= tol, f'misplaced-{name}', f'{what}: the {name} '
                f'at {np.round(p, 4)} was reported at {np.round(got[same[0]], 4)}')
    for q in specks:
      dist = np.linalg.norm(got - q, axis=1) if len(got) else np.zeros(0)
      used |= dist < 2 * pix + 1 / 256
    ctx.check(used.all(), 'phantom', lambda: f'{what}: reported atoms where '
              f'there are none: {got[~used].tolist()} {gnum[~used].tolist()}')


CHECK = C24()
