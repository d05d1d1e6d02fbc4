"""C29: an exported model is the best checkpoint, ready to be loaded."""
import functools
import os
import re
import shutil
import tempfile
import types
import warnings

import numpy as np

from sim import core
from sim import disk
from sim import web
from sim import world

URL = 'https://models.invalid/detector.zip'
KINDS = {'detector': 'atom-detection-model', 'aligner': 'image-alignment-model'}


class Spy:
  """A loaded model whose calls are recorded."""

  def __init__(self, model):
    self.model, self.calls = model, []

  @property
  def signatures(self):
    return {k: functools.partial(self.call, v)
            for k, v in self.model.signatures.items()}

  def call(self, f, *a, **k):
    out = f(*a, **k)
    (x,) = list(a) + list(k.values())
    self.calls.append((np.asarray(x), {n: np.asarray(v)
                                       for n, v in out.items()}))
    return out


class C29(core.Check):
  id = 'C29'
  quick_runs = 44
  thorough_runs = 2000
  run_timeout = 200
  nontrivial_rule = (
      'trainings of detectors and aligners that left histories of checkpoints '
      '(some interrupted), exported in any order, some exports meeting disk '
      'faults, crashes and earlier archives; what comes out is loaded by the '
      'real detector and aligner; non-trivial if an export had several '
      'checkpoints to choose from or a fault fired.')
  state_measure = ('distinct (kind, checkpoints, best one, options, fault) '
                   'tuples')
  real = ['atom_detection.save_model.save', 'image_alignment.save_model.save',
          'UNet and GlobalLocalUNet', 'orbax CheckpointManager', 'jax2tf and '
          'TensorFlow SavedModel', 'extract_model', 'AtomDetector',
          'ImageAligner']
  stubs = ['the web (simulated connections below urllib)', 'the training '
           '(checkpoints of random parameters; networks with few features)',
           'jax.tree is provided where the installed jax lacks it']
  fault_kinds = ('disk_full', 'io_error', 'crash', 'interrupted_checkpoint',
                 'earlier_archive')

  def load(self):
    self.m = world.mods()
    import jax
    if not hasattr(jax, 'tree'):
      t = jax.tree_util
      jax.tree = types.SimpleNamespace(
          map=t.tree_map, leaves=t.tree_leaves, structure=t.tree_structure,
          flatten=t.tree_flatten, unflatten=t.tree_unflatten, all=t.tree_all,
          reduce=t.tree_reduce, transpose=t.tree_transpose)
    warnings.filterwarnings('ignore')
    import optax
    from etils import epath
    from orbax import checkpoint
    from putting_dune import alignment
    from putting_dune import atom_detector
    from putting_dune.atom_detection import model as detector_net
    from putting_dune.image_alignment import model as aligner_net
    # The networks at a size that can be tried out many times.
    self.nets = {
        'detector': functools.partial(detector_net.UNet, features=(4, 6)),
        'aligner': functools.partial(aligner_net.GlobalLocalUNet,
                                     features=(4, 6))}
    detector_net.UNet = self.nets['detector']
    aligner_net.GlobalLocalUNet = self.nets['aligner']
    from putting_dune.atom_detection import save_model as detector
    from putting_dune.image_alignment import save_model as aligner
    self.jax, self.optax, self.ckpt, self.epath = jax, optax, checkpoint, epath
    self.al, self.ad = alignment, atom_detector
    self.export = {'detector': detector, 'aligner': aligner}
    self.resource_path = epath.resource_path
    self.cwd = os.getcwd()
    self.tempdir = tempfile.tempdir
    self.web = None

  def cleanup(self):
    os.chdir(self.cwd)
    tempfile.tempdir = self.tempdir
    self.epath.resource_path = self.resource_path
    if self.web is not None:
      self.web.remove()
      self.web = None
    disk.cleanup()

  def generate(self, rnd, tier):
    def training():
      n = rnd.choice([1, 2, 3, 4])
      t = {'kind': rnd.choice(['detector', 'aligner']),
           'steps': [{'seed': rnd.randrange(10**6),
                      'acc': rnd.random(), 'loss': 3 * rnd.random(),
                      'drift': 2 * rnd.random(), 'train': rnd.random()}
                     for _ in range(n)],
           'first': rnd.choice([0, 0, 7]),
           'unfinished': rnd.random() < 0.4, 'final': rnd.random() < 0.6,
           'length': rnd.choice([2, 3, 5]), 'final_only': rnd.random() < 0.6}
      return t
    ts = [training() for _ in range(rnd.choice([1, 2, 2]))]
    ops = []
    for _ in range(rnd.choice([1, 2, 3] if tier == 'quick' else [2, 4, 6])):
      ops.append({'which': rnd.randrange(len(ts)),
                  'fault': rnd.choice([None, None, None, 'disk_full',
                                       'io_error', 'crash']),
                  'k': rnd.randrange(1, 40), 'quota': rnd.choice(
                      [0, 300, 3000, 9000, 20000, 40000]),
                  'name': rnd.choice([None, 'a.zip', 'a.zip', 'b.zip']),
                  'relative': rnd.random() < 0.4,
                  'overwrite': rnd.random() < 0.7,
                  'image': rnd.randrange(10**6), 'more': rnd.random() < 0.3})
    if rnd.random() < 0.4:
      # The same archive is exported once more, which may not overwrite it.
      ops.append(dict(ops[-1], overwrite=rnd.random() < 0.3, fault=None))
    return {'trainings': ts, 'ops': ops}

  # -------------------------------------------------------------- training ----
  def net(self, t):
    if t['kind'] == 'detector':
      return self.nets['detector']()
    a, b = ((3, 2) if t['final_only'] else
            (3 * t['length'], 2 * (t['length'] - 1)))
    return self.nets['aligner'](local_output_size=a, global_output_size=b)

  def example(self, t):
    return np.zeros((256, 256, 1) if t['kind'] == 'detector'
                    else (32, 32, t['length']), np.float32)

  def train(self, ctx, t, where):
    """Leaves the checkpoints of a training. Returns the best parameters."""
    jax, ex = self.jax, self.export[t['kind']]
    net = self.net(t)
    w = self.epath.Path(where)
    manager = self.ckpt.CheckpointManager(
        w, checkpointers=self.ckpt.PyTreeCheckpointer(),
        options=self.ckpt.CheckpointManagerOptions(
            best_fn=lambda m: m['eval/accuracy'], create=True))
    best = None
    for i, s in enumerate(t['steps']):
      key = jax.random.PRNGKey(s['seed'])
      params = net.init(key, self.example(t))
      state = ex.TrainState.create(
          apply_fn=net.apply, params=params, tx=self.optax.adamw(1e-3),
          metrics=ex.TrainMetrics.empty())
      metrics = {'eval/accuracy': s['acc'], 'eval/loss': s['loss'],
                 'train/accuracy': s['train'], 'train/loss': 1 - s['train']}
      if t['kind'] == 'aligner':
        metrics['eval/drift_error'] = s['drift']
        metrics['train/drift_error'] = s['train']
      score = s['acc'] if t['kind'] == 'detector' else -s['loss'] - s['drift']
      manager.save(step=t['first'] + i, items=state, metrics=metrics)
      if best is None or score > best[0]:
        best = (score, i, params)
    if t['final']:
      # A training ends with a checkpoint of the last state, without metrics.
      manager.save(step=t['first'] + len(t['steps']), items=state)
    manager.wait_until_finished()
    manager.close()
    if t['unfinished']:
      src = w / str(t['first'])
      shutil.copytree(src, w / f'{t["first"] + 99}.orbax-checkpoint-tmp-17000')
      ctx.fault('interrupted_checkpoint')
    return best[1], best[2]

  # ---------------------------------------------------------------- loading ----
  def use(self, ctx, t, archive, seed):
    """Loads an archive as users do. Returns what the network was asked."""
    r = np.random.default_rng(seed)
    home = tempfile.mkdtemp(dir=ctx.scratch())
    if t['kind'] == 'detector':
      self.web.pages[URL] = open(archive, 'rb').read()
      self.epath.resource_path = lambda *a: self.epath.Path(home)
      d = self.ad.AtomDetector.from_url(URL)
      spy = Spy(d.model)
      d.__dict__['model'] = spy
      d(r.uniform(0, 1, (*r.choice([64, 256, 300], 2), 1)).astype(np.float32))
      return spy, []
    a = self.al.ImageAligner.from_path(self.epath.Path(archive), workdir=home)
    spy = Spy(a.model)
    a.__dict__['model'] = spy
    a.reset(history_length=t['length'])
    out = []
    for i in range(2):
      fov = world.dec_fov(self.m, np.array([0, 0, 20, 20.0]) + i)
      out.append(a(r.uniform(0, 1, (64, 64, 1)).astype(np.float32), fov))
    return spy, out

  def judge(self, ctx, what, t, best, archive, seed):
    try:
      spy, out = self.use(ctx, t, archive, seed)
    except core.Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      ctx.violate('unusable', f'{what}: the archive cannot be used: {e!r}')
    net = self.net(t)
    for x, y in spy.calls:
      want = net.apply(best[1], x)
      want = want if isinstance(want, tuple) else (want,)
      ctx.check(len(y) == len(want), 'outputs', f'{what}: {list(y)}')
      for k, v in enumerate(want):
        v = np.asarray(v)
        g = y[f'output_{k}']
        ctx.check(g.shape == v.shape and np.allclose(g, v, atol=2e-3,
                                                     rtol=2e-3),
                  'wrong-model', f'{what}: output {k} is not that of '
                  f'checkpoint {t["first"] + best[0]}')
    for (x, y), (_, drift, probs) in zip(spy.calls, out):
      d = y['output_1'].reshape(-1, 2)[-1]
      ctx.check(np.allclose(drift, d, atol=1e-5), 'drift',
                f'{what}: drift {drift}, the network says {d}')
      z = y['output_0'].reshape(*y['output_0'].shape[:2], -1, 3)[:, :, -1]
      e = np.exp(z - z.max(-1, keepdims=True))
      ctx.check(np.allclose(probs, e / e.sum(-1, keepdims=True), atol=1e-5),
                'probabilities', what)

  # ------------------------------------------------------------------- run ----
  def execute(self, plan, ctx):
    d = os.path.realpath(ctx.scratch())
    for x in ('tmp', 'cwd', 'out', 'cwd/out'):
      os.mkdir(os.path.join(d, x))
    self.web = web.Web()
    self.web.install()
    tempfile.tempdir = os.path.join(d, 'tmp')
    os.chdir(os.path.join(d, 'cwd'))
    best = []
    with core.quiet():
      for i, t in enumerate(plan['trainings']):
        best.append(self.train(ctx, t, os.path.join(d, f'train{i}')))
    ctx.nontrivial = any(len(t['steps']) > 1 for t in plan['trainings'])
    held = {}  # archive -> trainings it may hold
    for i, op in enumerate(plan['ops']):
      self.one(ctx, d, f'export {i}', plan['trainings'], best, op, held)

  def one(self, ctx, d, what, trainings, best, op, held):
    t, b = trainings[op['which']], best[op['which']]
    what = f'{what} ({t["kind"]} {op["which"]}, fault {op["fault"]})'
    ex = self.export[t['kind']]
    rel = 'out' if op['relative'] else os.path.join(d, 'out')
    out = os.path.join(d, 'cwd', 'out') if op['relative'] else rel
    work = os.path.join(d, f'train{op["which"]}')
    kw = dict(workdir=self.epath.Path(work), save_path=self.epath.Path(rel),
              model_name=op['name'], overwrite=op['overwrite'])
    if t['kind'] == 'aligner':
      kw.update(final_step_only=t['final_only'], sequence_length=t['length'])
    config = ex.Config(**kw)
    before = disk.tree(out)
    steps = sorted(x for x in os.listdir(work) if x.isdigit())
    fired = err = None
    ctx.state(t['kind'], len(t['steps']), b[0], op['relative'],
              op['overwrite'], op['fault'] or '')
    try:
      with core.quiet():
        if op['fault'] in ('crash', 'io_error'):
          f = disk.Faults(d, fail_at=op['k'], crash=op['fault'] == 'crash')
          try:
            with f:
              ex.save(config)
          finally:
            fired = f.fired
        elif op['fault'] == 'disk_full':
          with disk.quota(op['quota']):
            ex.save(config)
        else:
          ex.save(config)
    except (Exception, disk.Crash) as e:  # pylint: disable=broad-except
      err = e
    if op['fault'] == 'disk_full':
      fired = err
    if fired is not None:
      ctx.fault(op['fault'])
      ctx.nontrivial = True
    cwd = os.path.join(d, 'cwd')
    ctx.check(os.path.exists(cwd) and os.getcwd() == cwd, 'cwd',
              f'{what}: the working directory changed')
    ctx.check(sorted(x for x in os.listdir(work) if x.isdigit()) == steps,
              'checkpoints', f'{what}: the checkpoints changed')
    left = [x for x in os.listdir(os.path.join(d, 'tmp'))
            if os.path.isdir(os.path.join(d, 'tmp', x))]
    if op['fault'] is None:
      ctx.check(not left, 'left-behind', f'{what}: {left}')
    for x in left:
      shutil.rmtree(os.path.join(d, 'tmp', x), ignore_errors=True)
    after = disk.tree(out)
    changed = [k for k in after if after[k] != before.get(k)]
    ctx.check(set(before) <= set(after), 'lost', f'{what}: '
              f'{sorted(set(before) - set(after))} disappeared')
    if before:
      ctx.fault('earlier_archive')
    # The names of exports without one carry the day.
    ctx.log('export', op['which'],
            sorted(re.sub(r'^\d{8}', 'day', k) for k in after), err is None)
    name = op['name']
    if name is None:
      pat = r'\d{8}-(atom-detector|image-aligner)\.zip'
      names = [k for k in after if re.fullmatch(pat, k)]
      kind = {'detector': 'atom-detector', 'aligner': 'image-aligner'}
      names = [k for k in names if kind[t['kind']] in k]
      names.sort(key=lambda k: k in changed)
      name = names[-1] if names else None
    ctx.check(all(k == name for k in changed), 'collateral',
              f'{what}: wrote {changed}')
    if err is None:
      ctx.check(name in after, 'missing', f'{what}: {sorted(after)}')
      if name in before and not op['overwrite']:
        ctx.check(not changed, 'overwrote', f'{what}: the earlier {name} was '
                  'overwritten')
        return
      held[(out, name)] = [op['which']]
      self.judge(ctx, what, t, b, os.path.join(out, name), op['image'])
      return
    refused = name in before and not op['overwrite']
    if fired is None and not refused:
      ctx.violate(f'raised-{type(err).__name__}', f'{what} failed: {err!r}')
    if refused and op['fault'] is None:
      ctx.check(not changed, 'overwrote', f'{what}: refused, but {changed}')
    if name in after and name in changed:
      # Whatever an interrupted export leaves is a whole model or none.
      try:
        self.use(ctx, t, os.path.join(out, name), 1)
      except Exception:  # pylint: disable=broad-except
        os.remove(os.path.join(out, name))
        return
      self.judge(ctx, what, t, b, os.path.join(out, name), op['image'])


CHECK = C29()
