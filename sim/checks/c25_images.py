"""C25: images and masks show the atoms that are there, where they are."""

import numpy as np

from sim import core
from sim import simwalk
from sim import world

SIZES = (64, 96, 128, 200, 256, 512)


def spots(positions, numbers, shape, sigma_px, exponent, lo=0.0, hi=1.0):
  """Independent rendering: one Gaussian spot per atom, y pointing up."""
  h, w = shape
  pos = np.asarray(positions, float)
  num = np.asarray(numbers)
  cx = np.floor((pos[:, 0] - lo) / (hi - lo) * w)
  cy = h - 1 - np.floor((pos[:, 1] - lo) / (hi - lo) * h)
  gx = np.exp(-0.5 * ((np.arange(w) - cx[:, None]) / sigma_px[0]) ** 2)
  gy = np.exp(-0.5 * ((np.arange(h) - cy[:, None]) / sigma_px[1]) ** 2)
  return np.einsum('a,ai,aj->ij', num.astype(float) ** exponent, gy, gx)


def corr(a, b):
  a = a - a.mean()
  b = b - b.mean()
  d = np.sqrt((a * a).sum() * (b * b).sum())
  return float((a * b).sum() / d) if d else 0.0


class C25(core.Check):
  id = 'C25'
  quick_runs = 240
  thorough_runs = 9000
  run_timeout = 120
  nontrivial_rule = (
      'a session of exposures and images (with crashes during exposures and '
      'while an image is rendered), each image compared with an independent '
      'rendering of the true sample; or a history of images and masks of '
      'arbitrary samples rendered by interleaved users. Non-trivial if the '
      'silicon moved, a fault fired or renderings interleaved.')
  state_measure = ('distinct (mode, image size, field of view shape, number of '
                   'atoms class, silicon on a 12x12 raster, fault) tuples')
  real = ['imaging', 'PuttingDuneSimulator', 'PristineSingleDopedGraphene',
          'MicroscopeFieldOfView']
  stubs = ['rates chosen by the plan', 'rate-function crash injector',
           'failing contrast enhancement (out of memory)']
  fault_kinds = ('rate_function_crash_mid_exposure', 'rendering_failed',
                 'interleaved_renderings', 'field_of_view_without_atoms')

  def load(self):
    self.m = world.mods()
    from putting_dune import imaging
    import skimage.exposure
    self.im = imaging
    self.exposure = skimage.exposure

  # -- plans -----------------------------------------------------------------
  def generate(self, rnd, tier):
    if rnd.random() < 0.5:
      plan = simwalk.gen_plan(rnd, tier, images=1.0, observers=False,
                              rates=('simple', 'gmm', 'const', 'const'))
      plan['mode'] = 'session'
      plan['fail_render'] = (sorted(rnd.sample(range(1, 8), 2))
                             if rnd.random() < 0.3 else [])
      return plan
    ops = []
    for _ in range(rnd.choice([2, 3, 4, 6] if tier == 'quick'
                              else [3, 6, 10, 16])):
      ops.append({
          'op': rnd.choice(['clean', 'clean', 'mask', 'mask', 'stem', 'noise']),
          'seed': rnd.randrange(2**31),
          'sample': rnd.choice(['graphene', 'graphene', 'random', 'sparse',
                                'one', 'empty', 'line']),
          'size': rnd.choice(SIZES[:5] if tier == 'quick' else SIZES),
          'size2': rnd.choice(SIZES[:5]),
          'fov': [rnd.uniform(5, 30), rnd.uniform(5, 30)],
          'square': rnd.random() < 0.5,
          'origin': [rnd.uniform(-40, 40), rnd.uniform(-40, 40)],
          'exponent': rnd.choice([1.7, rnd.uniform(1.4, 2.0)]),
          'buffer': rnd.choice([0.0, 0.0, 0.125, 0.25, rnd.uniform(0, 0.3)]),
          'noisy': rnd.random() < 0.4, 'user': rnd.randrange(2),
          'kind': rnd.randrange(8),
      })
    return {'mode': 'render', 'ops': ops, 'rng': rnd.randrange(2**31)}

  def shrink(self, plan):
    if plan['mode'] == 'session':
      yield from simwalk.shrink(plan)
      for i in range(len(plan['fail_render'])):
        yield dict(plan, fail_render=(plan['fail_render'][:i]
                                      + plan['fail_render'][i + 1:]))
      return
    for i, op in enumerate(plan['ops']):
      for k, v in (('buffer', 0.0), ('square', True), ('noisy', False),
                   ('size', 64), ('exponent', 1.7)):
        if op[k] != v:
          o = dict(op)
          o[k] = v
          yield dict(plan, ops=plan['ops'][:i] + [o] + plan['ops'][i + 1:])

  def execute(self, plan, ctx):
    getattr(self, 'run_' + plan['mode'])(plan, ctx)

  # -- images of a session -----------------------------------------------------
  def run_session(self, plan, ctx):
    w = simwalk.Walk(self.m, plan)
    real = self.exposure.equalize_adapthist
    calls = [0]

    def failing(*a, **k):
      calls[0] += 1
      if calls[0] in plan['fail_render']:
        raise core.InjectedFault('out of memory while rendering')
      return real(*a, **k)

    def visit(kind, op, info):
      if kind == 'crash':
        ctx.log('crash')
        ctx.state('session', 'crash')
        return
      obs = info['obs']
      if any(e[0] == 'transition' for e in info['events']):
        ctx.nontrivial = True
      if obs.image is None:
        return
      self.judge_noisy(ctx, np.asarray(obs.image),
                       np.asarray(w.material.grid.atom_positions),
                       np.asarray(w.material.grid.atomic_numbers), obs.fov,
                       jitter=None, what='session')
      ctx.log(kind, np.asarray(obs.image))

    self.exposure.equalize_adapthist = failing
    # A reset whose image fails leaves the walk without an observation.
    ops = plan['ops']
    try:
      i = 0
      while i < len(ops) and calls[0] < 1000:
        before = calls[0]
        try:
          w.run(ctx, visit)
          break
        except core.InjectedFault:
          # The caller gives up on that image and carries on with the session.
          ctx.fault('rendering_failed')
          ctx.log('render-failed')
          i += 1
          if w.last is None or calls[0] == before:
            break
          rest = self.after_failure(ctx, w, visit, ops)
          w.plan = dict(plan, ops=rest)
          if not rest:
            break
    finally:
      self.exposure.equalize_adapthist = real

  def after_failure(self, ctx, w, visit, ops):
    """Takes an image without exposing, then goes on with a fresh episode."""
    try:
      obs = ctx.must('step_and_image', w.sim.step_and_image, w.rng, [],
                     return_image=True)
    except core.InjectedFault:
      ctx.fault('rendering_failed')
      return []
    w.last = obs
    visit('step', {'op': 'step', 'image': True, 'controls': []},
          dict(obs=obs, events=[]))
    return [dict(o) for o in ops[:3]]

  def judge_noisy(self, ctx, image, mpos, mnum, fov, jitter, what):
    ctx.count('images_judged')
    ll = np.array([fov.lower_left.x, fov.lower_left.y])
    ur = np.array([fov.upper_right.x, fov.upper_right.y])
    size = ur - ll
    ctx.check(image.ndim == 2 and bool(np.isfinite(image).all()),
              'image-broken', f'{what}: image {image.shape}')
    ctx.check(image.min() >= 0 and image.max() <= 1 + 1e-9, 'image-range',
              f'{what}: values {image.min()}..{image.max()}')
    h, w = image.shape
    rel = (mpos - ll) / size
    inside = np.all((rel >= 0) & (rel < 1), axis=1)
    if inside.sum() < 3:
      return
    ref = spots(rel[inside], mnum[inside], (h, w),
                (w / 2.15 / size[0], h / 2.15 / size[1]), 1.7)
    # Scan lines are displaced by a few pixels at random: search for the best
    # horizontal displacement.
    f = np.fft.rfft2(ref - ref.mean())
    g = np.fft.rfft2(image - image.mean())
    norm = (np.sqrt(((ref - ref.mean()) ** 2).sum())
            * np.sqrt(((image - image.mean()) ** 2).sum()))
    ctx.check(norm > 0, 'image-blank', f'{what}: the image is blank')
    xc = np.fft.irfft2(g * np.conj(f), s=(h, w)) / norm
    reach = 12
    win = np.roll(np.roll(xc, reach, 0), reach, 1)[:2 * reach + 1,
                                                   :2 * reach + 1]
    k = np.unravel_index(win.argmax(), win.shape)
    dy, dx = k[0] - reach, k[1] - reach
    best = float(win.max())
    ctx.check(best > 0.035, 'image-unrelated',
              f'{what}: the image does not show the sample (correlation with '
              f'its rendering {best:.3f})')
    ctx.check(abs(dy) <= 3 and -3 <= dx <= 8, 'image-displaced',
              f'{what}: the image is displaced by ({dx}, {dy}) pixels')
    shown = np.roll(ref, (0, dx), (0, 1))
    names = ['upside down', 'left-right flipped', 'transposed', 'rotated']
    alts = [shown[::-1], shown[:, ::-1], shown.T, shown[::-1, ::-1]]
    for name, a in zip(names, alts):
      if a.shape != image.shape or corr(a, shown) > 0.6:
        continue
      c = corr(image, a)
      ctx.check(c < best, 'image-orientation',
                f'{what}: the image matches the sample {name} better '
                f'({c:.3f} > {best:.3f})')
    si = np.flatnonzero((mnum == 14) & inside)
    s = rel[si[0]] if len(si) else (0, 0)
    ctx.state(what, int(size[0]), int(s[0] * 12), int(s[1] * 12))

  # -- renderings of arbitrary samples ------------------------------------------
  def scene(self, op):
    """(grid in microscope frame, field of view, atoms beyond it included)."""
    m = self.m
    rng = np.random.default_rng(op['seed'])
    wd = np.array(op['fov'])
    if op['square']:
      wd = np.array([wd[0], wd[0]])
    ll = np.array(op['origin'])
    reach = 0.5 if op['buffer'] else 0.0
    kind = op['sample']
    if kind == 'graphene':
      ang = rng.uniform(0, 2 * np.pi)
      a = 1.42
      base = []
      for i in range(-40, 41):
        for j in range(-40, 41):
          o = (i * np.array([1.5 * a, a * np.sqrt(3) / 2])
               + j * np.array([0, a * np.sqrt(3)]))
          base += [o, o + np.array([a, 0])]
      r = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
      pos = np.array(base) @ r.T + ll + wd / 2
    elif kind == 'empty':
      pos = np.zeros((0, 2))
    elif kind == 'line':
      t = np.linspace(0, 1, 9)[:, None]
      pos = ll + wd * np.array([0.3, 0.1]) + t * wd * np.array([0.0, 0.8])
    else:
      n = {'random': 30, 'sparse': 4, 'one': 1}[kind]
      pos = ll + wd * rng.uniform(0.02, 0.98, size=(n, 2))
      if reach:
        pos = np.concatenate([pos, ll + wd * rng.uniform(-.3, 1.3, (10, 2))])
    rel = (pos - ll) / wd
    keep = np.all((rel > -reach) & (rel < 1 + reach), axis=1)
    rel = rel[keep].astype(rng.choice(['float32', 'float64']))
    num = np.full(len(rel), 6)
    if len(rel):
      num[rng.choice(len(rel), size=max(1, len(rel) // 9), replace=False)] = 14
      if rng.random() < 0.3:
        num[rng.integers(len(rel))] = rng.integers(3, 80)
    fov = m.microscope_utils.MicroscopeFieldOfView(
        m.geometry.Point(ll), m.geometry.Point(ll + wd))
    return m.microscope_utils.AtomicGrid(rel, num), fov, wd

  def params(self, op, rng):
    im = self.im
    if op['noisy']:
      return im.sample_noisy_image_parameters(rng, image_size=op['size'])
    return im.sample_image_parameters(rng, image_size=op['size'])

  def run_render(self, plan, ctx):
    im = self.im
    users = [np.random.default_rng(plan['rng'] + u) for u in range(2)]
    solo = {0: [], 1: []}
    served = set()
    for op in plan['ops']:
      grid, fov, wd = self.scene(op)
      served.add(op['user'])
      if len(served) > 1:
        ctx.faults['interleaved_renderings'] = ctx.faults.get(
            'interleaved_renderings', 0) + 1
        ctx.nontrivial = True
      if not len(grid.atomic_numbers):
        ctx.fault('field_of_view_without_atoms')
      before = core.digest([grid.atom_positions, grid.atomic_numbers])
      glob = core.digest([np.asarray(x) if not isinstance(x, str) else x
                          for x in np.random.get_state()])
      rng = users[op['user']]
      out = self.render(op, grid, fov, wd, rng, ctx)
      ctx.check(core.digest([grid.atom_positions, grid.atomic_numbers])
                == before, 'sample-modified',
                f'{op["op"]} changed the sample it renders')
      ctx.check(core.digest([np.asarray(x) if not isinstance(x, str) else x
                             for x in np.random.get_state()]) == glob,
                'global-randomness', f'{op["op"]} used global randomness')
      if out is not None:
        solo[op['user']].append((op, core.digest(out)))
      ctx.log(op['op'], out)
      ctx.state(op['op'], op['sample'], op['size'], op['square'],
                bool(op['buffer']), op['kind'] if op['op'] == 'noise' else 0)
    # Each user alone gets the very same images.
    for u in sorted(solo):
      rng = np.random.default_rng(plan['rng'] + u)
      quiet = core.Ctx()
      for op, want in solo[u]:
        grid, fov, wd = self.scene(op)
        out = self.render(op, grid, fov, wd, rng, quiet, judge=False)
        ctx.check(core.digest(out) == want, 'not-reproducible',
                  f'{op["op"]} rendered again from the same generator state '
                  'differs')

  def render(self, op, grid, fov, wd, rng, ctx, judge=True):
    return getattr(self, 'do_' + op['op'])(op, grid, fov, wd, rng, ctx, judge)

  def do_clean(self, op, grid, fov, wd, rng, ctx, judge):
    n, b, p = op['size'], op['buffer'], op['exponent']
    kw = dict(intensity_exponent=p, image_size=n)
    if b:
      kw['buffer_size'] = b
    out = np.asarray(ctx.must('generate_clean_image',
                              self.im.generate_clean_image, grid, fov, **kw))
    if not judge:
      return out
    ctx.count('clean_images')
    ctx.check(out.shape == (n, n), 'clean-shape', f'{out.shape} for {n}')
    ctx.check(bool(np.isfinite(out).all()), 'clean-nan',
              'the clean image is not finite')
    pos = np.asarray(grid.atom_positions, float)
    num = np.asarray(grid.atomic_numbers)
    sel = (np.all((pos >= -b) & (pos < 1 + b), axis=1) if len(pos)
           else np.zeros(0, bool))
    if not sel.any():
      ctx.check(float(np.abs(out).max()) == 0.0, 'clean-invented',
                'an image without atoms is not blank')
      return out
    sig = (n / 2.15 / wd[0], n / 2.15 / wd[1])
    want = spots(pos[sel], num[sel], (n, n), sig, p)
    if not want.max() > 0:
      return out
    inner = sel & (np.all((pos >= 0) & (pos < 1), axis=1))
    if not inner.any():
      return out  # Only the tails of unseen atoms: nothing to compare.
    want = want / want.max()
    ctx.check(abs(float(out.max()) - 1.0) < 1e-6 and float(out.min()) >= 0.0,
              'clean-range', f'values {out.min()}..{out.max()}')
    frac = np.abs((pos[sel] * n) % 1.0)
    borderline = bool(np.any((frac < 1e-4) | (frac > 1 - 1e-4)))
    diff = float(np.abs(out - want).max())
    if b or borderline:
      # Pixel rounding depends on how the border is built: one pixel either way.
      slack = 1.5 * 0.61 / min(sig) * 3
      ctx.check(corr(out, want) > np.exp(-2 / min(sig) ** 2) - 0.05,
                'clean-image', f'clean image (buffer {b}) correlates '
                f'{corr(out, want):.3f} with the sample')
      if slack < 0.5:
        ctx.check(diff < slack, 'clean-image',
                  f'clean image (buffer {b}) differs by {diff:.3f}')
    else:
      ctx.check(diff < 4e-3, 'clean-image',
                f'clean image ({n} px, field of view {wd}) differs from the '
                f'rendering of its atoms by {diff:.3f}')
    return out

  def do_mask(self, op, grid, fov, wd, rng, ctx, judge):
    dims = ((op['size'], op['size']) if op['square']
            else (op['size'], op['size2']))
    kw = dict(intensity_exponent=op['exponent'], image_dimensions=dims)
    out = np.asarray(ctx.must('generate_grid_mask', self.im.generate_grid_mask,
                              grid, fov, **kw))
    if not judge:
      return out
    ctx.count('masks')
    w, h = dims
    ctx.check(out.shape == (h, w), 'mask-shape',
              f'mask of a {w}x{h} image has shape {out.shape}')
    pos = np.asarray(grid.atom_positions, float)
    num = np.asarray(grid.atomic_numbers)
    # Pixel centres, row 0 at the top.
    px = (np.arange(w) + 0.5) / w
    py = 1 - (np.arange(h) + 0.5) / h
    sure = np.zeros((h, w), bool)
    maybe = np.zeros((h, w), bool)
    agree = np.zeros((h, w), bool)
    for q, z in zip(pos, num):
      d2 = (((px[None, :] - q[0]) * wd[0]) ** 2
            + ((py[:, None] - q[1]) * wd[1]) ** 2)
      r2 = (z / 6) ** op['exponent'] * 0.1
      sure |= d2 < r2 * (1 - 1e-3) - 1e-5
      inside = d2 < r2 * (1 + 1e-3) + 1e-5
      maybe |= inside
      agree |= inside & (out == z)
    ctx.check(not bool((out[~maybe] != 0).any()), 'mask-invented',
              'the mask shows atoms where there are none')
    ctx.check(not bool((out[sure] == 0).any()), 'mask-missing',
              'the mask misses an atom (or a part of it)')
    ctx.check(bool(agree[out != 0].all()), 'mask-species',
              'the mask shows an atomic number that no atom there has')
    return out

  def do_stem(self, op, grid, fov, wd, rng, ctx, judge):
    prm = self.params(op, rng)
    frozen = core.digest(repr(prm))
    kw = {'buffer_size': op['buffer']} if op['buffer'] else {}
    out = np.asarray(ctx.must('generate_stem_image', self.im.generate_stem_image,
                              grid, fov, prm, rng, **kw))
    if not judge:
      return out
    ctx.count('stem_images')
    n = op['size']
    ctx.check(out.shape == (n, n), 'stem-shape', f'{out.shape} for {n}')
    ctx.check(bool(np.isfinite(out).all()), 'stem-nan',
              'the image is not finite')
    ctx.check(out.min() >= 0 and out.max() <= 1 + 1e-9, 'stem-range',
              f'values {out.min()}..{out.max()}')
    ctx.check(core.digest(repr(prm)) == frozen, 'parameters-modified', '')
    return out

  def do_noise(self, op, grid, fov, wd, rng, ctx, judge):
    im, n = self.im, op['size']
    src = np.random.default_rng(op['seed'] + 1)
    image = src.uniform(0, 1, size=(n, n))
    if op['sample'] == 'empty':
      image[:] = 0.0
    keep = image.copy()
    k = op['kind']
    amount = float(src.uniform(0.0, 1.0))
    fn, args = [
        (im.apply_gaussian_noise, (amount * 0.3, rng)),
        (im.apply_jitter, (amount * 6, rng)),
        (im.apply_poisson_noise, (1 + amount * 40, rng)),
        (im.apply_salt_and_pepper_noise, (amount * 0.1, rng)),
        (im.apply_blur, (amount * 3,)),
        (im.apply_contrast, (0.5 + amount,)),
        (im.apply_exponential_noise, (amount * .25, rng)),
        (im.apply_uniform_noise, (amount * .25, rng)),
    ][k]
    out = np.asarray(ctx.must(fn.__name__, fn, image, *args))
    if not judge:
      return out
    name = fn.__name__
    ctx.count('noise_steps')
    ctx.check(np.array_equal(image, keep), 'noise-in-place',
              f'{name} changed the image it was given')
    ctx.check(out.shape == image.shape, 'noise-shape', f'{name}: {out.shape}')
    ctx.check(bool(np.isfinite(out).all()), 'noise-nan',
              f'{name} produced values that are not finite')
    ctx.check(out.min() >= 0 and out.max() <= 1 + 1e-9, 'noise-range',
              f'{name}: values {out.min()}..{out.max()}')
    if op['sample'] == 'empty':
      return out
    if k == 1:
      for r in range(n):
        ctx.check(np.array_equal(np.sort(out[r]), np.sort(image[r])),
                  'jitter-content', 'a scan line lost or gained content')
      s = [int(np.argmax(np.fft.irfft(np.fft.rfft(out[r] - .5)
                                      * np.conj(np.fft.rfft(image[r] - .5)),
                                      n=n))) for r in range(n)]
      lam = amount * 6
      ctx.check(max(s) <= lam + 8 * np.sqrt(lam) + 8, 'jitter-size',
                f'a scan line moved {max(s)} pixels at a rate of {lam:.1f}')
      mean = float(np.mean(s))
      ctx.check(abs(mean - lam) <= 6 * np.sqrt(lam / n) + 0.1, 'jitter-rate',
                f'scan lines moved {mean:.2f} pixels on average, not {lam:.2f}')
    elif k == 3:
      changed = float((out != image).mean())
      amt = amount * .1
      ctx.check(changed <= amt + 6 * np.sqrt(amt / n / n) + 1e-3,
                'salt-amount', f'{changed:.4f} of the pixels were replaced at '
                f'an amount of {amt:.4f}')
    elif k == 5:
      o = np.argsort(image.ravel())
      ctx.check(bool(np.all(np.diff(out.ravel()[o]) >= -1e-12)),
                'contrast-order', 'contrast reordered the brightness')
    else:
      c = corr(out, image)
      ctx.check(c > {0: 0.2, 2: 0.4, 4: 0.1, 6: 0.6, 7: 0.8}[k],
                'noise-drowns', f'{name}({amount:.2f}) left a correlation of '
                f'{c:.3f}')
    return out


CHECK = C25()
