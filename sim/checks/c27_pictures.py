"""C27: renderings, videos and rate plots show what truly happened."""
import datetime as dt
import os
import re

import numpy as np

from sim import core
from sim import world


class C27(core.Check):
  id = 'C27'
  quick_runs = 110
  thorough_runs = 5000
  run_timeout = 150
  nontrivial_rule = (
      'sessions of one or two environments that are rendered, filmed and '
      'evaluated with videos at arbitrary points, with failing rates, failing '
      'drawing and interleaved figures of other users; non-trivial if a '
      'picture was taken of a state that changed or a fault fired.')
  state_measure = ('distinct (picture, images in the events, transitions, '
                   're-centred, frames capped at 8) tuples')
  real = ['PuttingDuneEnvironment.render', 'EventObserver',
          'generate_video_from_simulator_events', 'evaluate',
          'plot_rate_along_neighbor_vector3', 'plot_rate_along_arc3',
          'simulator', 'matplotlib (Agg)']
  stubs = ['the movie writer (keeps the frames); evaluation runs write GIFs']
  fault_kinds = ('rate_function_crash', 'drawing_failed', 'foreign_figure',
                 'interleaved_environment')

  def load(self):
    self.m = world.mods()
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import animation
    from matplotlib import pyplot
    from putting_dune import eval_lib
    from putting_dune import plotting_utils
    from putting_dune.agents import agent_lib
    import PIL.Image
    self.plt, self.pu, self.anim = pyplot, plotting_utils, animation
    self.ev, self.al, self.pil = eval_lib, agent_lib, PIL.Image

  def generate(self, rnd, tier):
    n = rnd.choice([1, 1, 2])
    envs = []
    for _ in range(n):
      e = world.gen_env(rnd, image_p=0.25)
      if e['features'] == 'image':
        e['columns'] = 30
      if rnd.random() < 0.2:
        e['image_s'] = 1503.25  # Sessions of hours.
      envs.append({'env': e, 'seed': rnd.randrange(10**6)})
    ops = []
    for _ in range(rnd.randint(4, 10 if tier == 'quick' else 30)):
      k = rnd.choice(['step'] * 6 + ['render', 'render', 'reset', 'rates',
                                     'foreign'])
      op = {'op': k, 'env': rnd.randrange(n)}
      if k == 'step':
        op['mode'] = rnd.choice(['corner', 'center', 'any', 'any', 'outside'])
        op['fail'] = rnd.random() < 0.05
      if k == 'render':
        op['fail'] = rnd.random() < 0.1
      if k == 'rates':
        op['plot'] = rnd.choice(['vector', 'arc'])
        op['radius'] = rnd.choice([0.5, 1.0, 1.7])
        op['strain'] = rnd.choice([None, [1.08, 1.0], [0.95, 1.1]])
      ops.append(op)
    for i in range(n):
      ops.append({'op': 'video', 'env': i})
    if rnd.random() < 0.12:
      ops.append({'op': 'evaluate', 'env': 0, 'steps': rnd.choice([2, 3, 5]),
                  'seeds': [rnd.randrange(999) for _ in range(2)]})
    return {'envs': envs, 'ops': ops}

  # -- what a picture shows ------------------------------------------------
  def box(self, ctx, img):
    """The frame of the axes, found in the picture."""
    dark = img.astype(int).max(axis=2) < 60
    rows = np.flatnonzero(dark.sum(1) > 0.5 * img.shape[1])
    cols = np.flatnonzero(dark.sum(0) > 0.5 * img.shape[0])
    ctx.check(len(rows) >= 2 and len(cols) >= 2, 'no-frame',
              'no axes are drawn')
    return cols.min(), rows.min(), cols.max(), rows.max()

  def look(self, ctx, what, img, box, sp, num, goal, beam, sizes):
    """Compares a region of a picture with positions within it (unit frame).

    sizes: radius in pixels of carbon, silicon, goal and beam.
    """
    x0, y0, x1, y1 = [float(v) for v in box]
    a = img.astype(int)
    r, g, b = a[..., 0], a[..., 1], a[..., 2]
    rc, rs, rg, rb = sizes

    def px(p):
      return np.array([x0 + p[0] * (x1 - x0), y1 - p[1] * (y1 - y0)])

    iy, ix = np.mgrid[:a.shape[0], :a.shape[1]]
    inner = ((ix > x0 + 3) & (ix < x1 - 3) & (iy > y0 + 3) & (iy < y1 - 3))

    def near(p, d):
      q = px(p)
      return (ix + .5 - q[0]) ** 2 + (iy + .5 - q[1]) ** 2 < d ** 2

    def inside(p):
      q = px(p)
      return x0 + 5 < q[0] < x1 - 5 and y0 + 5 < q[1] < y1 - 5

    def far(p, others):
      return all(o is None or not np.all(np.isfinite(o)) or
                 np.linalg.norm(px(p) - px(o)) > d for o, d in others)

    si = [p for p, n in zip(sp, num) if n == 14]
    red = (r > 150) & (g < 90) & (b < 90) & inner
    green = (g > 90) & (r < 60) & (b < 60) & inner
    black = (a.max(2) < 50) & inner
    blue = (b > 150) & (b > r + 35) & inner
    # A beam that is not judged may lie on top of anything.
    cover = black if beam is None else np.zeros_like(red)
    over = [(goal, rg + rs + 2), (beam, rb + rs + 2)]
    for p in si:
      if inside(p) and far(p, over):
        ctx.check(((red | cover) & near(p, 3)).any(), f'{what}-silicon',
                  f'no silicon is drawn at {np.round(p, 3)}')
    m = np.zeros_like(red)
    for p in si:
      m |= near(p, rs + 5)
    ctx.check(not (red & ~m).any(), f'{what}-silicon',
              lambda: f'silicon is drawn at pixel '
              f'{[int(v[0]) for v in np.nonzero(red & ~m)]}, it is at '
              f'{[px(p).round().tolist() for p in si]}')
    if goal is not None:
      if inside(goal) and far(goal, [(beam, rb + 3)]):
        ctx.check(((green | cover) & near(goal, 4)).any(), f'{what}-goal',
                  f'no goal is drawn at {np.round(goal, 3)}')
      m = near(goal, rg + 5)
      ctx.check(not (green & ~m).any(), f'{what}-goal',
                'the goal is drawn elsewhere')
    if beam is not None and np.all(np.isfinite(beam)):
      if inside(beam):
        ctx.check((black & near(beam, 4)).any(), f'{what}-beam',
                  f'no beam is drawn at {np.round(beam, 3)}')
      ctx.check(not (black & ~near(beam, rb + 5)).any(), f'{what}-beam',
                'the beam is drawn elsewhere')
    elif beam is not None:
      ctx.check(not black.any(), f'{what}-beam', 'a beam is drawn before any '
                'exposure')
    if rc:
      m = np.zeros_like(red)
      over = [(goal, rg + rc), (beam, rb + rc)] + [(p, rs + rc) for p in si]
      for p, n in zip(sp, num):
        m |= near(p, rc + 5)
        if n == 6 and inside(p) and far(p, over):
          ctx.check(((blue | cover) & near(p, 3)).any(), f'{what}-carbon',
                    f'no carbon is drawn at {np.round(p, 3)}')
      ctx.check(not (blue & ~m).any(), f'{what}-carbon',
                'atoms are drawn that are not there')

  @staticmethod
  def rel(fov, p):
    lo = np.array([fov[0], fov[1]])
    hi = np.array([fov[2], fov[3]])
    return (np.asarray(p) - lo) / (hi - lo)

  def fov_of(self, env):
    f = env.last_microscope_observation.fov
    return (float(f.lower_left.x), float(f.lower_left.y),
            float(f.upper_right.x), float(f.upper_right.y))

  def truth(self, s):
    g = s['e'].sim.material.grid
    return (np.array(g.atom_positions, float), np.array(g.atomic_numbers))

  # -- a run -----------------------------------------------------------------
  def execute(self, plan, ctx):
    plt = self.plt
    plt.close('all')
    ss = []
    for spec in plan['envs']:
      env = world.make_env(self.m, spec['env'], set())
      twin = world.make_env(self.m, spec['env'])
      for e in (env, twin):
        e.seed(spec['seed'])
      obs = self.m.simulator_observers.EventObserver()
      env.sim.add_observer(obs)
      s = {'e': env, 'twin': twin, 'obs': obs,
           'rf': env.sim.material.verif_rates, 'frames': [], 'beam': None,
           'rng': np.random.default_rng(spec['seed']), 'broken': False,
           'clock': 0.0, 'image': None, 'fov_beam': None, 'hops': 0,
           'moved': False}
      ss.append(s)
      self.restart(ctx, s)
    last = None
    for op in plan['ops']:
      s = ss[op['env']]
      if last is not None and last is not s:
        ctx.fault('interleaved_environment')
      last = s
      getattr(self, 'do_' + op['op'])(ctx, s, op)
    ctx.log('done', [len(s['frames']) for s in ss], plt.get_fignums())
    plt.close('all')

  def restart(self, ctx, s):
    if s['broken']:
      seed = int(s['rng'].integers(10**6))
      s['e'].seed(seed)
      s['twin'].seed(seed)
    a = ctx.must('reset', s['e'].reset)
    b = s['twin'].reset()
    ctx.check(core.digest(world.enc_ts(a)) == core.digest(world.enc_ts(b)), 'disturbed',
              'pictures changed the episode')
    s.update(last=False, frames=[], beam=None, fov_beam=None, broken=False, hops=0,
             moved=False, image=s['e'].last_microscope_observation.image,
             clock=s['e'].last_microscope_observation.elapsed_time
             .total_seconds())

  def do_reset(self, ctx, s, op):
    self.restart(ctx, s)

  def do_foreign(self, ctx, s, op):
    """Somebody else is drawing as well."""
    ctx.fault('foreign_figure')
    f = self.plt.figure(figsize=(2, 2))
    f.subplots().plot([0, 1], [0, 1], 'r')

  def do_step(self, ctx, s, op):
    if s['broken']:
      return
    env, twin = s['e'], s['twin']
    act = world.sample_action(env.action_spec(), s['rng'], op['mode'])
    if s['last']:
      self.restart(ctx, s)
      return
    fov, before = self.fov_of(env), self.truth(s)
    if op['fail']:
      s['rf'].fail_at.add(s['rf'].calls + 1)
    try:
      a = env.step(act.copy())
    except core.InjectedFault:
      ctx.fault('rate_function_crash')
      s['broken'] = True
      return
    if op['fail']:
      s['rf'].fail_at.clear()
    b = twin.step(act.copy())
    ctx.check(core.digest(world.enc_ts(a)) == core.digest(world.enc_ts(b)), 'disturbed',
              'pictures changed the episode')
    s['last'] = a.last()
    o = env.last_microscope_observation
    t = s['clock']
    for c in o.controls:
      p = np.array([c.position.x, c.position.y], float)
      at = np.array(fov[:2]) + p * (np.array(fov[2:]) - np.array(fov[:2]))
      s['frames'].append((before, fov, at, t, s['image']))
      t += c.dwell_time.total_seconds()
      s['beam'] = at
      s['fov_beam'] = (p, fov)
    s['clock'] += o.elapsed_time.total_seconds()
    s['image'] = o.image
    if not np.array_equal(before[1], self.truth(s)[1]):
      s['hops'] += 1
    s['moved'] |= fov != self.fov_of(env)
    ctx.simtime(o.elapsed_time.total_seconds())

  def goal(self, s):
    return np.asarray(s['e'].goal.goal_position_material_frame,
                      float).reshape(-1)

  def do_render(self, ctx, s, op):
    plt = self.plt
    figs = set(plt.get_fignums())
    if op['fail']:
      from matplotlib.backends import backend_agg
      orig = backend_agg.FigureCanvasAgg.draw

      def broken(*a, **k):
        raise core.InjectedFault('drawing failed')
      backend_agg.FigureCanvasAgg.draw = broken
      try:
        s['e'].render()
      except core.InjectedFault:
        ctx.fault('drawing_failed')
      finally:
        backend_agg.FigureCanvasAgg.draw = orig
      for n in set(plt.get_fignums()) - figs:
        plt.close(n)
      return
    img = ctx.must('render', s['e'].render)
    ctx.check(isinstance(img, np.ndarray) and img.ndim == 3 and
              img.shape[2] == 3 and img.dtype == np.uint8, 'render-type',
              f'{getattr(img, "shape", None)}')
    ctx.check(set(plt.get_fignums()) == figs, 'figure-left',
              f'rendering left figures open: '
              f'{sorted(set(plt.get_fignums()) - figs)}, or closed those of '
              f'others: {sorted(figs - set(plt.get_fignums()))}')
    if s['broken']:
      return  # A crashed step; nothing is promised about its picture.
    fov = self.fov_of(s['e'])
    pos, num = self.truth(s)
    rp = self.rel(fov, pos)
    keep = np.all((rp > -0.1) & (rp < 1.1), axis=1)
    beam = np.full(2, np.nan)
    if s['fov_beam']:
      # Seen in the field of view of the exposure: see DESIGN.md.
      beam = (s['fov_beam'][0] if s['fov_beam'][1] == fov else None)
    k = self.box(ctx, img)
    self.look(ctx, 'render', img, k, rp[keep], num[keep],
              self.rel(fov, self.goal(s)), beam, (5, 6.5, 11, 4))
    if beam is None:
      ctx.count('renderings_after_recentring')
    ctx.nontrivial |= s['hops'] > 0
    ctx.state('render', s['hops'] > 0, s['moved'], bool(s['fov_beam']))
    ctx.log('render', img)

  def film(self, ctx, s):
    """All frames of the video: pictures, axes boxes and texts."""
    frames = []
    base = self.anim.AbstractMovieWriter

    class Writer(base):

      def setup(self, fig, outfile, dpi=None):
        super().setup(fig, outfile, dpi=dpi)

      def grab_frame(self, **kw):
        f = self.fig
        f.canvas.draw()
        img = np.array(f.canvas.buffer_rgba())[..., :3]
        h = img.shape[0]
        boxes, trans, pics, texts = [], [], [], []
        for ax in f.axes:
          e = ax.get_window_extent()
          boxes.append((e.x0, h - e.y1, e.x1, h - e.y0))
          trans.append((ax.get_xlim(), ax.get_ylim()))
          pics.append([np.array(i.get_array()) for i in ax.images])
          texts += [t.get_text() for t in ax.texts]
        frames.append((img, boxes, trans, pics, texts))

      def finish(self):
        pass

    a = self.pu.generate_video_from_simulator_events(
        list(s['obs'].events), self.goal(s))
    a.save(os.path.join(ctx.scratch(), 'x'), writer=Writer(fps=5), dpi=100)
    self.plt.close('all')
    return frames

  def do_video(self, ctx, s, op):
    if s['broken']:
      return
    frames = ctx.must('video', self.film, ctx, s)
    want = list(s['frames'])
    beam = s['beam'] if s['beam'] is not None else np.full(2, np.nan)
    want.append((self.truth(s), self.fov_of(s['e']), beam, s['clock'],
                 s['image']))
    ctx.check(len(frames) == len(want), 'video-length',
              f'{len(frames)} frames for {len(want) - 1} exposures')
    for i, ((img, boxes, lims, pics, texts), (g, fov, at, t, image)) in enumerate(
        zip(frames, want)):
      self.frame(ctx, i, img, boxes, lims, pics, texts, g, fov, at, t, image,
                 self.goal(s))
    ctx.nontrivial |= s['hops'] > 0
    ctx.state('video', s['image'] is not None, min(s['hops'], 2), s['moved'],
              min(len(frames), 8))
    ctx.log('video', [f[0] for f in frames])

  def frame(self, ctx, i, img, boxes, lims, pics, texts, g, fov, at, t, image,
            goal):
    pos, num = g
    ctx.check(len(boxes) >= 2, 'video-axes', 'there are no two views')
    # The microscope's view.
    rp = self.rel(fov, pos)
    keep = np.all((rp > -0.1) & (rp < 1.1), axis=1)
    ctx.check(np.allclose(lims[1], [(0, 1), (0, 1)]), 'video-limits',
              f'{lims[1]}')
    self.look(ctx, 'video', img, boxes[1], rp[keep], num[keep],
              self.rel(fov, goal), self.rel(fov, at), (5, 6.5, 11, 4))
    # The whole sheet.
    (ax0, ax1), (ay0, ay1) = lims[0]
    ctx.check(ax0 <= pos[:, 0].min() and ax1 >= pos[:, 0].max() and
              ay0 <= pos[:, 1].min() and ay1 >= pos[:, 1].max(),
              'video-sheet', 'parts of the sheet are not shown')
    x0, y0, x1, y1 = boxes[0]

    def px(p):
      return (x0 + (p[0] - ax0) / (ax1 - ax0) * (x1 - x0),
              y1 - (p[1] - ay0) / (ay1 - ay0) * (y1 - y0))
    # The rectangle of the field of view.
    for j in range(4):
      p = (fov[0 if j < 2 else 2], fov[1 if j % 2 else 3])
      cx, cy = px(p)
      if not (x0 + 4 < cx < x1 - 4 and y0 + 4 < cy < y1 - 4):
        continue
      near = img[int(cy) - 3:int(cy) + 4, int(cx) - 3:int(cx) + 4].astype(int)
      ctx.check(((near[..., 0] > 140) & (near[..., 1] < 130)).any() or
                (np.hypot(*(np.array(px(goal)) - (cx, cy))) < 10) or
                (near.max(2) < 60).any(),
                'video-fov', f'no corner of the field of view at {p} in frame '
                f'{i}')
    clock = [x for x in texts if re.fullmatch(r'\d+:\d\d:\d\d', x)]
    ctx.check(len(clock) == 1, 'video-clock', f'{texts}')
    mm, sec, cs = [int(v) for v in clock[0].split(':')]
    ctx.check(sec < 60 and abs(mm * 60 + sec + cs / 100 - t) < 0.0101,
              'video-clock', f'frame {i} shows {clock[0]}, the time is {t:.3f}')
    if image is not None:
      ctx.check(len(boxes) >= 3 and len(pics[2]) == 1 and
                np.array_equal(np.asarray(pics[2][0], np.float32),
                               np.asarray(image, np.float32)), 'video-image',
                f'frame {i} does not show the image that was last taken')
    else:
      ctx.check(len(boxes) == 2 or not pics[2], 'video-image',
                f'frame {i} shows an image that was not taken')

  def do_rates(self, ctx, s, op):
    """Plots of the rate function tell the rates."""
    if s['broken']:
      return
    g = s['e'].sim.material.grid
    rf = s['rf'].inner
    pos, num = self.truth(s)
    if op['strain']:
      # Any sheet will do, also one that is stretched.
      pos = pos * np.array(op['strain'])
      mu = self.m.microscope_utils
      g = mu.AtomicGridMaterialFrame(mu.AtomicGrid(pos, num))
    si = pos[num == 14][0]
    i = int(np.flatnonzero(num == 14)[0])
    nb = sorted(world.three_nearest(pos, i))
    if len(nb) != 3:
      return
    pt = self.m.geometry.Point

    def rates_at(p):
      out = {}
      for x in rf(g, self.m.geometry.PointMaterialFrame(
          pt((float(p[0]), float(p[1]))))).successor_states:
        out[int(np.flatnonzero(np.asarray(x.grid.atomic_numbers) == 14)[0])] = (
            float(x.rate))
      return out
    figs = set(self.plt.get_fignums())
    fig = self.plt.figure()
    ax = fig.subplots()
    state = np.random.get_state()[1].copy()
    before = (pos.copy(), num.copy())
    if op['plot'] == 'vector':
      ctx.must('rate plot', self.pu.plot_rate_along_neighbor_vector3, ax, rf, g,
               extent=(-2.0, 3.0), num_points=11)
      xy = [l.get_xydata() for l in ax.lines if len(l.get_xydata()) == 11]
      ctx.check(len(xy) == 1, 'rate-plot', f'{len(ax.lines)} curves')
      xy = np.asarray(xy[0], float)
      ok = False
      for k in nb:
        vec = pos[k] - si
        want = [rates_at(si + a * vec)[k] for a in xy[:, 0]]
        ok |= np.allclose(want, xy[:, 1], rtol=1e-4, atol=1e-7)
      ctx.check(ok and np.allclose(xy[:, 0], np.linspace(-2, 3, 11)),
                'rate-plot', f'the curve {np.round(xy, 4).tolist()} is not the '
                'rate towards any neighbour')
    else:
      ctx.must('rate plot', self.pu.plot_rate_along_arc3, ax, rf, g,
               normalized_radius=op['radius'], num_points=9)
      xy = [np.asarray(l.get_xydata(), float) for l in ax.lines
            if len(l.get_xydata()) == 9]
      ctx.check(len(xy) == 4, 'rate-plot', f'{len(xy)} curves instead of 4')
      ang = xy[0][:, 0]
      ctx.check(np.allclose(ang, np.linspace(0, 2 * np.pi, 9)), 'rate-plot',
                f'angles {ang}')
      r = op['radius'] * np.mean([np.linalg.norm(pos[k] - si) for k in nb])
      ok = False
      # The direction of angle 0 is not documented; either is accepted.
      for conv in (lambda a: (np.sin(a), np.cos(a)),
                   lambda a: (np.cos(a), np.sin(a))):
        at = [rates_at(si + r * np.array(conv(a))) for a in ang]
        want = [[v[k] for v in at] for k in nb]
        want.append(np.sum(want, axis=0))
        left = list(range(4))
        for c in xy:
          hit = [j for j in left if np.allclose(want[j], c[:, 1], rtol=1e-4,
                                                atol=1e-7)]
          if hit:
            left.remove(hit[0])
        ok |= not left
      ctx.check(ok, 'rate-plot', 'the curves are not the rates towards the '
                'neighbours and their sum')
    self.plt.close(fig)
    ctx.check(set(self.plt.get_fignums()) <= figs, 'figure-left', 'a figure '
              'was left open')
    after = (np.asarray(g.atom_positions), np.asarray(g.atomic_numbers))
    ctx.check(np.array_equal(before[0], after[0]) and
              np.array_equal(before[1], after[1]), 'disturbed',
              'plotting rates changed the material')
    del state
    ctx.state('rates', op['plot'], op['radius'], bool(op['strain']))

  def do_evaluate(self, ctx, s, op):
    if s['broken']:
      return
    env = s['e']
    steps = op['steps']
    al, ts = self.al, []

    class Agent(al.Agent):
      n = 0
      r = np.random.default_rng(op['seeds'][0])

      def step(self, time_step):
        self.n += 1
        return world.sample_action(env.action_spec(), self.r, 'any')

      def set_mode(self, mode):
        pass

    d = os.path.join(ctx.scratch(), 'v')
    wrap = self.m.run_helpers.StepLimitWrapper(env, step_limit=steps)
    figs = set(self.plt.get_fignums())
    res = ctx.must('evaluate', self.ev.evaluate, Agent(), wrap,
                   self.ev.EvalSuite(tuple(op['seeds'])), video_save_dir=d,
                   timeout=dt.timedelta(days=9))
    ctx.check(set(self.plt.get_fignums()) == figs, 'figure-left',
              'evaluation left the figures of its videos open')
    ctx.nontrivial = True
    if len(set(op['seeds'])) < 2:
      return
    for r in res:
      f = os.path.join(d, f'{r.seed}.gif')
      ctx.check(os.path.exists(f), 'video-file', f'there is no {r.seed}.gif')
      im = self.pil.open(f)
      n = getattr(im, 'n_frames', 1)
      ctx.check(1 <= n <= r.num_actions_taken + 1, 'video-length',
                f'{n} frames for {r.num_actions_taken} actions')
    # The last frame of the last video is the state that is there now.
    im.seek(n - 1)
    img = np.asarray(im.convert('RGB'))
    fov = self.fov_of(env)
    pos, num = self.truth(s)
    rp = self.rel(fov, pos)
    keep = np.all((rp > -0.1) & (rp < 1.1), axis=1)
    # The microscope's view is the second box in the row.
    w = img.shape[1] // (3 if s['image'] is not None else 2)
    dark = img.astype(int).max(2) < 90
    col = dark.sum(0)
    edges = np.flatnonzero(col > 0.6 * img.shape[0])
    groups = np.split(edges, np.flatnonzero(np.diff(edges) > 4) + 1)
    cols = [float(np.mean(x)) for x in groups if len(x)]
    if len(cols) >= 4:
      rows = np.flatnonzero(dark[:, int(cols[2]) + 3:int(cols[3]) - 3].sum(1)
                            > 0.6 * (cols[3] - cols[2]))
      if len(rows) >= 2:
        red = ((img[..., 0] > 150) & (img[..., 1] < 90) & (img[..., 2] < 90))
        x0, x1, y0, y1 = cols[2], cols[3], rows.min(), rows.max()
        ys, xs = np.nonzero(red)
        sel = (xs > x0 + 3) & (xs < x1 - 3) & (ys > y0 + 3) & (ys < y1 - 3)
        si = rp[num == 14][0]
        q = np.array([x0 + si[0] * (x1 - x0), y1 - si[1] * (y1 - y0)])
        if sel.any():
          dd = np.hypot(xs[sel] - q[0], ys[sel] - q[1])
          ctx.check(dd.max() < 14, 'video-end', 'the last frame of the video '
                    'is not the end of the episode')
          ctx.count('gif_ends_compared')
    ctx.state('evaluate', n, s['image'] is not None)
    del w, keep, ts
    s['broken'] = True


CHECK = C27()
