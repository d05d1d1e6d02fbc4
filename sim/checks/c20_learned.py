"""C20: a learned rate model is the model that was trained, wherever used."""
import datetime as dt
import itertools
import json
import math
import os

import numpy as np

from sim import core
from sim import disk
from sim import listing
from sim import physics
from sim import world

PI = math.pi


class C20(core.Check):
  id = 'C20'
  quick_runs = 72
  quick_cap = 330
  thorough_runs = 1500
  run_timeout = 240
  nontrivial_rule = (
      'a history of training, distilling, saving, loading and predicting with '
      'one rate model inside simulated exposures, or a run of the training '
      'program on recorded sessions followed by a restart that loads what it '
      'left; non-trivial if a model was loaded or predicted a rate.')
  state_measure = ('distinct (operation, configuration class, trained, '
                   'distilled, loaded, fault) tuples')
  real = ['LearnedTransitionRatePredictor', 'train_rate_learner.main',
          'augmentation and splits', 'jax, haiku, optax, TensorFlow files',
          'PristineSingleSiGrRatePredictor', 'material', 'simulator']
  stubs = ['small networks and few epochs', 'exposures chosen by the plan']
  fault_kinds = ('crash', 'io_error', 'disk_full', 'file_truncated',
                 'file_missing', 'listing_shuffled')

  def load(self):
    self.m = world.mods()
    from ml_collections import config_dict
    from etils import epath
    import jax
    import jax.numpy as jnp
    import joblib
    from putting_dune import io as pdio
    from putting_dune.pipeline import train_rate_learner
    from putting_dune.rate_learning import data_utils
    from putting_dune.rate_learning import learn_rates
    self.cd, self.epath, self.jax, self.jnp = config_dict, epath, jax, jnp
    self.joblib, self.pdio, self.trl = joblib, pdio, train_rate_learner
    self.lr, self.du = learn_rates, data_utils

  def cleanup(self):
    disk.cleanup()

  # -------------------------------------------------------------- plans ----
  def generate(self, rnd, tier):
    cfg = {
        'num_models': rnd.choice([1, 2, 2, 3]), 'epochs': rnd.choice([1, 3]),
        'batch_size': rnd.choice([8, 16]),
        'hidden_dimensions': rnd.choice([[8], [16, 8]]),
        'batchnorm': rnd.random() < 0.7,
        'dropout_rate': rnd.choice([0.0, 0.0, 0.3]),
        'use_voltage': rnd.random() < 0.6, 'use_current': rnd.random() < 0.6,
        'augment_data': rnd.random() < 0.7, 'bootstrap': rnd.random() < 0.5,
        'learning_rate': rnd.choice([1e-3, 3e-2]),
        'weight_decay': rnd.choice([1e-3, 1e-1]),
    }
    plan = {'config': cfg, 'seed': rnd.randrange(2**31), 'ops': []}
    r = rnd.random()
    if r < 0.42:
      plan['mode'] = 'main'
      plan['learner'] = rnd.choice(
          ['rate_network'] * 4 + ['classification_network', 'random_forest',
                                  'svm', 'knn', 'sklearn_mlp'])
      plan['sessions'] = [rnd.randrange(2**31)
                          for _ in range(rnd.choice([1, 2, 3]))]
      plan['length'] = rnd.choice([30, 45])
      plan['listing'] = rnd.randrange(999)
      plan['again'] = rnd.random() < 0.5
      plan['visualize'] = rnd.random() < 0.15
      plan['plot_metrics'] = rnd.random() < 0.15
      plan['quota'] = rnd.choice([None] * 9 + [0, 500, 5000, 20000])
      plan['val_frac'] = rnd.choice([0.0, 0.2])
      if plan['learner'] == 'rate_network' and rnd.random() < 0.5:
        cfg.update(use_voltage=False, use_current=False)
      return plan
    if r < 0.54:
      plan['mode'] = 'learn'
      plan['synthetic'] = rnd.random() < 0.3
      if rnd.random() < 0.7:
        cfg.update(use_current=True, use_voltage=False)
      # Voltages are far from the scale of the other inputs.
      cfg['batchnorm'] = cfg['batchnorm'] or cfg['use_voltage']
      return plan
    plan['mode'] = 'history'
    ops = plan['ops']
    if r < 0.62:
      # Checkpoints of one training run, side by side in one directory.
      for step in rnd.sample([0, 1, 2, 3, 7, 10, 12, 100], rnd.choice([2, 3])):
        ops.append({'op': 'train', 'data': rnd.randrange(3),
                    'key': rnd.randrange(99), 'repeat': False})
        ops.append({'op': 'save', 'step': step, 'fresh': False, 'fixed': False,
                    'fault': rnd.choice([None] * 6 + ['io_error']),
                    'k': rnd.randrange(1, 14), 'cut': .5, 'quota': 0,
                    'continue': rnd.random() < 0.2})
      return plan
    ops.append({'op': 'train', 'data': rnd.randrange(3), 'key': rnd.randrange(
        99), 'repeat': rnd.random() < 0.2})
    for _ in range(rnd.randrange(3, 7 if tier == 'quick' else 14)):
      x = rnd.random()
      if x < 0.1:
        ops.append({'op': 'train', 'data': rnd.randrange(3),
                    'key': rnd.randrange(99), 'repeat': False})
      elif x < 0.25:
        ops.append({'op': 'distill', 'data': rnd.randrange(3)})
      elif x < 0.55:
        ops.append({'op': 'expose', 'n': rnd.choice([1, 3]),
                    'seed': rnd.randrange(999)})
      else:
        ops.append({
            'op': 'save', 'step': rnd.choice([0, 0, 1, 7]),
            'fresh': rnd.random() < 0.6, 'fixed': rnd.random() < 0.35,
            'fault': rnd.choice([None] * 4 + ['crash', 'io_error', 'disk_full',
                                              'truncated', 'missing']),
            'k': rnd.randrange(1, 14), 'cut': rnd.random(),
            'quota': rnd.choice([0, 100, 3000, 10000, 30000]),
            'continue': rnd.random() < 0.5})
    if not any(o['op'] == 'save' for o in ops):
      ops.append({'op': 'save', 'step': 0, 'fresh': True, 'fixed': False,
                  'fault': None, 'k': 1, 'cut': .5, 'quota': 0,
                  'continue': True})
    return plan

  # ------------------------------------------------------------ material ----
  def config(self, plan, **kw):
    c = dict(self.lr.rate_learning_defaults)
    c.update(plan['config'])
    c['hidden_dimensions'] = tuple(c['hidden_dimensions'])
    c.update(kw)
    return self.cd.FrozenConfigDict(c)

  def dataset(self, plan, seed, n=40, switch=False):
    """Examples in the standard orientation: the near neighbour at angle 0."""
    r = np.random.default_rng([plan['seed'] % 10**6, seed])
    near = r.random(n) < 0.6
    ang = r.uniform(-PI / 3.2, PI / 3.2, n)
    rad = np.where(near, r.uniform(0.8, 1.8, n), r.uniform(4.0, 6.0, n))
    ang = np.where(near, ang * 0.3, ang)
    pos = rad[:, None] * np.stack([np.cos(ang), np.sin(ang)], 1)
    hop = near & (r.random(n) < 0.9)
    c = []
    if plan['config']['use_current']:
      c.append(r.choice([0.1, 0.5], n))
    if plan['config']['use_voltage']:
      c.append(r.choice([60.0, 80.0], n))
    if switch:
      # Nothing happens without current.
      c[0] = r.choice([0.0, 1.0], n)
      hop &= c[0] > 0.5
    ctx = np.stack(c, -1) if c else np.zeros((n, 0))
    return {'next_state': hop.astype(np.int32),
            'dt': r.uniform(1.0, 3.0, n).astype(np.float32),
            'rates': np.zeros((n, 3), np.float32),
            'context': ctx.astype(np.float32),
            'position': pos.astype(np.float32)}

  def probes(self, plan, n=7):
    """Inputs in the layout the network is documented to take."""
    r = np.random.default_rng([plan['seed'] % 10**6, 77])
    k = plan['config']['use_current'] + plan['config']['use_voltage']
    c = []
    if plan['config']['use_current']:
      c.append(r.choice([0.1, 0.5], n))
    if plan['config']['use_voltage']:
      c.append(r.choice([60.0, 80.0], n))
    c += list(r.normal(size=(2, n)) * 2)
    assert len(c) == k + 2
    return np.stack(c, -1).astype(np.float32)

  def ask(self, ctx, p, x):
    out = np.asarray(ctx.must('apply_model', p.apply_model, x))
    ctx.check(out.shape == (len(x), 3), 'rates-shape', f'{out.shape}')
    ctx.check(np.isfinite(out).all() and (out >= 0).all(), 'rates-invalid',
              f'rates {out}')
    return out

  def same(self, a, b, tol=1e-4):
    return np.shape(a) == np.shape(b) and bool(
        (np.abs(np.asarray(a) - b) <= tol * np.abs(b) + 1e-6).all())

  def consistent(self, ctx, plan, p, x):
    """Rates belong to the model and the input, to nothing else."""
    out = self.ask(ctx, p, x)
    again = self.ask(ctx, p, x)
    ctx.check(self.same(again, out), 'not-a-function', 'asking again gives '
              f'other rates: {out[0]}, {again[0]}')
    perm = np.arange(len(x))[::-1]
    ctx.check(self.same(self.ask(ctx, p, x[perm][:3]), out[perm][:3]),
              'batch-dependent', 'the rates of an input depend on the inputs '
              'it is asked with')
    return out

  # ---------------------------------------------------------- histories ----
  def execute(self, plan, ctx):
    with core.quiet():
      getattr(self, 'run_' + plan['mode'])(plan, ctx)

  def run_history(self, plan, ctx):
    lr, jax, jnp = self.lr, self.jax, self.jnp
    x = self.probes(plan)
    cfg = self.config(plan)
    p = ctx.must('LearnedTransitionRatePredictor',
                 lr.LearnedTransitionRatePredictor, config=cfg)
    st = {'trained': False, 'distilled': False, 'loaded': False, 'models': (
        cfg.num_models)}
    stored = {}  # what each directory holds, as far as known
    n_dirs = 0
    for i, op in enumerate(plan['ops']):
      ctx.state(op['op'], cfg.num_models, cfg.batchnorm, st['trained'],
                st['distilled'], st['loaded'], op.get('fault'))
      if op['op'] == 'train':
        data = {k: jnp.asarray(v) for k, v in self.dataset(
            plan, op['data']).items()}
        key = jax.random.PRNGKey(op['key'])
        met = ctx.must('train', p.train, data, key, bootstrap=cfg.bootstrap)
        for k, v in met.items():
          ctx.check(np.shape(v) == (cfg.num_models, cfg.epochs),
                    'training-metrics', f'{k}: {np.shape(v)}')
        out = self.consistent(ctx, plan, p, x)
        if op['repeat']:
          q = lr.LearnedTransitionRatePredictor(
              jax.random.PRNGKey(1234), config=cfg)
          ctx.must('train', q.train, data, key, bootstrap=cfg.bootstrap)
          ctx.check(self.same(self.ask(ctx, q, x), out, 1e-3),
                    'not-reproducible', 'training again with the same data and '
                    'key gives another model')
        if cfg.num_models > 1:
          each = np.stack([np.asarray(p.apply_model(x, model_index=k))
                           for k in range(cfg.num_models)])
          ctx.check(self.same(each.mean(0), out), 'ensemble', 'the rates of '
                    'the ensemble are not the mean of its models')
        st.pop('packaged', None)
        st.update(trained=True, distilled=False, models=cfg.num_models)
      elif op['op'] == 'distill':
        data = self.dataset(plan, op['data'])
        met = ctx.must('distill', p.distill, data, self.cd.FrozenConfigDict(
            {'batch_size': 16, 'epochs': 2, 'batches_per_epoch': 2}))
        ctx.check(np.shape(met['distill_loss']) == (2,) and np.isfinite(
            met['distill_loss']).all(), 'training-metrics', f'{met}')
        self.consistent(ctx, plan, p, x)
        st.pop('packaged', None)
        st.update(distilled=True, models=1)
      elif op['op'] == 'expose':
        self.expose(plan, ctx, p, op, context=st.get('packaged'))
      else:
        if op['fresh']:
          n_dirs += 1
        d = os.path.join(ctx.scratch(), f'model{n_dirs}')
        q = self.save(plan, ctx, p, op, d, stored, x, i)
        if op['fixed']:
          # Packaging for one context may make the saved predictor predict for
          # that context from now on.
          k = cfg.use_current + cfg.use_voltage
          st['packaged'] = st.get('packaged', (self.default_context(plan),)) + (
              [float(v) for v in self.probes(plan)[i % 7, :k]],)
        if q is not None and op['continue']:
          st.pop('packaged', None)
          p = q
          st['loaded'] = True
      ctx.log(op['op'], i, np.round(self.ask(ctx, p, x), 4))

  def expected(self, ctx, p, pos, si, nb, beam, context):
    """Rates per neighbour, by the model itself in the standard orientation."""
    rel = pos[nb] - pos[si]
    b = beam - pos[si]
    dist = np.linalg.norm(rel - b, axis=1)
    k = int(dist.argmin())
    if np.sort(dist)[1] - dist[k] < 1e-3:
      return None
    a0 = math.atan2(rel[k][1], rel[k][0])
    ang = [(math.atan2(v[1], v[0]) - a0) % (2 * PI) for v in rel]
    ang[k] = 0.0
    c, s = math.cos(-a0), math.sin(-a0)
    inp = np.array([[*context, c * b[0] - s * b[1], s * b[0] + c * b[1]]],
                   np.float32)
    rates = np.asarray(p.apply_model(inp))[0]
    out = np.zeros(3)
    for rank, j in enumerate(np.argsort(ang)):
      out[j] = rates[rank]
    return out

  def default_context(self, plan):
    c = plan['config']
    return ([0.1] if c['use_current'] else []) + (
        [60.0] if c['use_voltage'] else [])

  def expose(self, plan, ctx, p, op, context=None):
    """Exposures of a sample whose rates the model predicts."""
    m = self.m
    if context is None:
      context = self.default_context(plan)
    check = self
    # Contexts the model may have been packaged with; predictions narrow them.
    contexts = list(context) if isinstance(context, tuple) else [context]

    def predict(grid, beam_position, silicon_position, neighbor_indices):
      pos = np.asarray(grid.atom_positions)
      before = pos.copy()
      got = np.asarray(ctx.must('predict', p.predict, grid, beam_position,
                                silicon_position, neighbor_indices), float)
      ctx.check(np.array_equal(pos, before), 'grid-mutated', 'predicting '
                'changed the sample')
      ctx.check(got.shape == (3,), 'predict-shape', f'{got.shape}')
      si = int(world.si_index(grid)[0])
      wants = [check.expected(ctx, p, pos, si, np.asarray(neighbor_indices),
                              np.array(world.pt(beam_position)), x)
               for x in contexts]
      want = wants[0]
      if want is not None and len(contexts) > 1:
        ok = [j for j in range(len(wants)) if check.same(got, wants[j], 1e-3)]
        if ok:
          contexts[:] = [contexts[j] for j in ok]
          want = wants[ok[0]]
      ctx.nontrivial = True
      ctx.count('predictions')
      if want is not None:
        ctx.check(check.same(got, want, 1e-3), 'predict', lambda: 'beam '
                  f'{np.round(np.array(world.pt(beam_position)) - pos[si], 3)} '
                  'Å from the silicon, neighbours at '
                  f'{np.round(pos[neighbor_indices] - pos[si], 2).tolist()}: '
                  f'predicted {got}, the model says {want}')
      # The neighbours may come in any order.
      o = np.array([2, 0, 1])
      turned = np.asarray(p.predict(grid, beam_position, silicon_position,
                                    np.asarray(neighbor_indices)[o]), float)
      if want is not None:
        ctx.check(check.same(turned, got[o], 1e-4), 'predict-order',
                  f'rates {got}, {turned} for the neighbours in order {o}')
      return np.maximum(got, 0)

    mat = m.graphene.PristineSingleDopedGraphene(
        rate_function=m.graphene.PristineSingleSiGrRatePredictor(
            canonical_rate_prediction_fn=predict), grid_columns=20)
    rng = np.random.default_rng(op['seed'])
    mat.reset(rng)
    for _ in range(op['n']):
      si = int(world.si_index(mat.grid)[0])
      at = np.asarray(mat.grid.atom_positions)[si] + rng.normal(size=2) * 1.5
      c = m.microscope_utils.BeamControlMaterialFrame(
          m.microscope_utils.BeamControl(
              m.geometry.Point(float(at[0]), float(at[1])),
              dt.timedelta(seconds=1.0)))
      ctx.must('apply_control', mat.apply_control, rng, c)
      ctx.simtime(1.0)

  # -------------------------------------------------------------- files ----
  def save(self, plan, ctx, p, op, d, stored, x, i):
    """Saves p, then loads like a new process would. Returns what it loaded."""
    c = plan['config']
    k = c['use_current'] + c['use_voltage']
    fixed = None
    if op['fixed']:
      fixed = self.probes(plan)[i % 7, :k]
    out = self.ask(ctx, p, x)
    now = {'out': out, 'fixed': None if fixed is None else fixed.copy()}
    err, fired = None, False
    name = os.path.join(d, f'{op["step"]}.ckpt')
    prev = stored.get(d)
    try:
      if op['fault'] in ('crash', 'io_error'):
        f = disk.Faults(ctx.scratch(), fail_at=op['k'],
                        crash=op['fault'] == 'crash')
        try:
          with f:
            p.save(d, step=op['step'], fixed_context=fixed)
        finally:
          fired = f.fired
      elif op['fault'] == 'disk_full':
        with disk.quota(op['quota']):
          p.save(d, step=op['step'], fixed_context=fixed)
      else:
        p.save(d, step=op['step'], fixed_context=fixed)
    except (Exception, disk.Crash) as e:  # pylint: disable=broad-except
      err = e
    if op['fault'] == 'disk_full':
      fired = err is not None
    if fired:
      ctx.fault(op['fault'])
    ctx.check(err is None or fired, 'save-failed',
              f'saving failed without a fault: {err!r}')
    hurt = None
    if err is None and op['fault'] == 'truncated':
      disk.truncate(name, int(os.path.getsize(name) * op['cut'] * 0.98))
      hurt = 'file_truncated'
    if err is None and op['fault'] == 'missing':
      files = sorted(disk.tree(d))
      files = [f for f in files if f.endswith(('.ckpt', 'config.json',
                                               'saved_model.pb'))
               and (not f.endswith('.ckpt') or f == f'{op["step"]}.ckpt')]
      gone = files[int(op['cut'] * len(files))]
      os.remove(os.path.join(d, gone))
      hurt = 'file_missing'
    if hurt:
      ctx.fault(hurt)
    steps = dict(prev['steps']) if prev else {}
    whole = err is None and not hurt
    # Older checkpoints in the same directory stay what they are.
    if whole:
      steps[op['step']] = [out]
    else:
      steps[op['step']] = steps.get(op['step'], []) + [out]
    stored[d] = {'steps': steps, 'whole': whole and (
        prev is None or True)}
    q = self.lr.LearnedTransitionRatePredictor(
        self.jax.random.PRNGKey(i + 5), config=self.config(plan))
    try:
      q.load(d, step=op['step'])
    except Exception as e:  # pylint: disable=broad-except
      ctx.check(not whole, 'cannot-load',
                f'a model that was saved cannot be loaded: {e!r}')
      ctx.log('unreadable', i)
      stored[d]['steps'].pop(op['step'], None)
      return None
    ctx.check(hurt is None, 'damage-hidden',
              f'a model with a {hurt} was loaded without an error')
    got = self.ask(ctx, q, x)
    ok = any(self.same(got, o, 1e-5) for o in steps[op['step']])
    ctx.check(ok, 'other-model', f'saved a model with rates {out[0]}, loaded '
              f'one with {got[0]} (step {op["step"]}, models '
              f'{plan["config"]["num_models"]})')
    ctx.nontrivial = True
    if not whole:
      if prev is None:
        ctx.check(self.same(got, out, 1e-5), 'other-model', 'after a failed '
                  'save another model was loaded')
      return None
    ctx.check(tuple(q.config.hidden_dimensions) == tuple(
        c['hidden_dimensions']) and all(
            q.config[n] == v for n, v in c.items()
            if n != 'hidden_dimensions'), 'other-config',
              f'loaded configuration {q.config}, saved {c}')
    # The packaged model, which needs no code of ours, says the same.
    for row in x[:2]:
      if fixed is not None:
        full = np.concatenate([now['fixed'], row[k:]])
        sent = row[k:]
      else:
        full = sent = row
      pk = np.asarray(q.packaged_model(sent[None].astype(np.float32)))
      ctx.check(pk.ndim == 2 and len(pk) == 1, 'packaged', f'{pk.shape}')
      want = np.asarray(q.apply_model(full[None].astype(np.float32)))
      if pk.shape[1] == 4:
        w = np.exp(pk[:, :3] - pk[:, :3].max())
        pk = pk[:, 3:] * w / w.sum()
      ctx.check(self.same(pk, want, 1e-3), 'packaged', 'the packaged model '
                f'says {pk}, the model {want}')
    # Other steps are untouched.
    for s, outs in steps.items():
      if s == op['step']:
        continue
      r = self.lr.LearnedTransitionRatePredictor(config=self.config(plan))
      try:
        r.load(d, step=s)
      except Exception as e:  # pylint: disable=broad-except
        ctx.check(len(outs) > 1, 'cannot-load', f'saving step {op["step"]} '
                  f'made step {s} unreadable: {e!r}')
        continue
      ctx.check(any(self.same(self.ask(ctx, r, x), o, 1e-5) for o in outs),
                'other-model', f'saving step {op["step"]} changed step {s}')
    self.expose(plan, ctx, q, {'n': 1, 'seed': i},
                context=None if fixed is None else [float(v) for v in fixed])
    if fixed is not None:
      return None  # its predictions are for one context only
    return q

  # ------------------------------------------------------------ learning ----
  def run_learn(self, plan, ctx):
    """From clear examples a model learns which neighbour is hit, and when."""
    jnp = self.jnp
    cfg = self.config(plan, epochs=150, batch_size=32, num_models=2,
                      hidden_dimensions=(32,), learning_rate=1e-2,
                      augment_data=True, weight_decay=1e-3, dropout_rate=0.0,
                      bootstrap=True)
    n_ctx = int(cfg.use_current) + int(cfg.use_voltage)
    if plan['synthetic']:
      data, _ = ctx.must('generate_synthetic_data',
                         self.du.generate_synthetic_data, 240,
                         data_seed=plan['seed'], context_dim=n_ctx)
      near, far = 0.85, None
      context = np.zeros((1, n_ctx), np.float32)
    else:
      # Voltages are far from the scale of the other inputs: left out here.
      switch = bool(cfg.use_current) and not cfg.use_voltage
      data = {k: jnp.asarray(v) for k, v in self.dataset(
          plan, 0, n=320 if switch else 160, switch=switch).items()}
      near, far = 1.3, 5.0
      context = np.asarray(data['context'])[:1]
      if switch:
        context = np.ones((1, 1), np.float32)
    p = self.lr.LearnedTransitionRatePredictor(config=cfg)
    met = ctx.must('train', p.train, data, self.jax.random.PRNGKey(
        plan['seed'] % 1000))
    at = lambda r, k: np.concatenate([context, [[
        r * math.cos(2 * PI * k / 3), r * math.sin(2 * PI * k / 3)]]],
                                     axis=1).astype(np.float32)
    rates = np.concatenate([self.ask(ctx, p, at(near, k)) for k in range(3)])
    for k in range(3):
      ctx.check(rates[k].argmax() == k and rates[k][k] > 2 * np.delete(
          rates[k], k).max(), 'not-learned', f'after training, with the beam '
                f'at neighbour {k} the rates are {rates[k]}')
    if not plan['synthetic'] and switch:
      context = np.zeros((1, 1), np.float32)
      off = np.concatenate([self.ask(ctx, p, at(near, k)) for k in range(3)])
      ctx.check(off.sum(1).max() < 0.5 * rates.sum(1).min(), 'not-learned',
                f'total rates with current {rates.sum(1)}, without '
                f'{off.sum(1)}')
      ctx.count('context_learned')
      context = np.ones((1, 1), np.float32)
    if far is not None:
      away = np.concatenate([self.ask(ctx, p, at(far, k)) for k in range(3)])
      ctx.check(away.sum(1).max() < 0.5 * rates.sum(1).min(), 'not-learned',
                f'after training, total rates near {rates.sum(1)}, far '
                f'{away.sum(1)}')
      # Nine in ten exposures of two seconds end in a hop.
      ctx.check((rates.sum(1) > 0.3).all() and (rates.sum(1) < 12).all(),
                'not-learned', f'total rates {rates.sum(1)}')
    loss = np.asarray(met['train_loss'])
    ctx.check(loss.shape == (2, 150) and np.isfinite(loss).all() and (
        loss[:, -1] < loss[:, 0]).all(), 'loss', f'training loss {loss[:, 0]} '
              f'to {loss[:, -1]}')
    ctx.nontrivial = True
    ctx.log('learned', np.round(rates, 2))

  # ----------------------------------------------------- training program ----
  def record(self, ctx, seed, n):
    m = self.m
    rng = np.random.default_rng(seed)
    mat = world.make_material(m, {'rates': {'kind': 'simple'}, 'columns': 30})
    sim = m.simulator.PuttingDuneSimulator(mat)
    obs = sim.reset(rng, return_image=False)
    out = [obs]
    for _ in range(n):
      pos = np.asarray(obs.grid.atom_positions, float) * obs.fov.width
      i = world.si_index(obs.grid)[0]
      o = np.argsort(np.linalg.norm(pos - pos[i], axis=1))
      b = pos[o[1 + rng.integers(3)]] + rng.normal(size=2) * 0.3
      b = b / obs.fov.width
      c = m.microscope_utils.BeamControl(
          m.geometry.Point(float(b[0]), float(b[1])), dt.timedelta(
              seconds=float(rng.choice([0.5, 1.5]))),
          float(rng.choice([60.0, 80.0])), float(rng.choice([0.1, 0.5])))
      obs = sim.step_and_image(rng, [c], return_image=False)
      ctx.simtime(obs.elapsed_time.total_seconds())
      out.append(obs)
    return m.microscope_utils.Trajectory(observations=out)

  def run_main(self, plan, ctx):
    trl, epath = self.trl, self.epath
    d = os.path.join(ctx.scratch(), 'records')
    os.mkdir(d)
    trajs = [self.record(ctx, s, plan['length']) for s in plan['sessions']]
    for i, t in enumerate(trajs):
      self.pdio.write_records(os.path.join(d, f'{i}.tfrecords'), [t])
    c = plan['config']
    learner = plan['learner']

    def run(name, order):
      w = os.path.join(ctx.scratch(), name)
      os.mkdir(w)
      args = trl.Args(
          source_path=epath.Path(d), workdir=epath.Path(w), log_metrics=True,
          plot_metrics=plan['plot_metrics'], visualize_rates=plan['visualize'],
          batch_size=8, epochs=c['epochs'], num_models=c['num_models'],
          bootstrap=c['bootstrap'],
          hidden_dimensions=tuple(c['hidden_dimensions']),
          weight_decay=c['weight_decay'], learning_rate=c['learning_rate'],
          val_frac=0.0 if c['bootstrap'] else plan['val_frac'],
          seed=plan['seed'] % 1000, distill=False,
          augment_data=c['augment_data'], use_voltage=c['use_voltage'],
          use_current=c['use_current'], batchnorm=c['batchnorm'],
          dropout_rate=c['dropout_rate'],
          previous_controls_at_current_timestep=True, learner_type=learner)
      with listing.shuffled(order):
        trl.main(args)
      return w

    if plan['quota'] is not None:
      err = None
      try:
        with disk.quota(plan['quota']):
          w = run('full', plan['listing'])
      except Exception as e:  # pylint: disable=broad-except
        err = e
      if err is not None:
        ctx.fault('disk_full')
        ctx.nontrivial = True
        ctx.log('full', type(err).__name__)
      else:
        # Whatever did not fail is complete.
        self.check_files(plan, ctx, w, trajs)
      return
    ctx.fault('listing_shuffled')
    w = ctx.must('train_rate_learner.main', run, 'a', plan['listing'])
    first = self.check_files(plan, ctx, w, trajs)
    if plan['again'] and learner != 'random_forest':
      w2 = ctx.must('train_rate_learner.main', run, 'b', plan['listing'] + 1)
      second = self.check_files(plan, ctx, w2, trajs)
      if learner in ('rate_network', 'classification_network', 'knn'):
        ctx.check(self.same(second, first, 1e-3), 'not-reproducible',
                  'training again with the same recordings and seed gives '
                  f'another model: {first[0]}, {second[0]}')
    ctx.nontrivial = True

  def check_files(self, plan, ctx, w, trajs):
    c, learner = plan['config'], plan['learner']
    cl = learner != 'rate_network'
    # The model is packaged with the median context of the transitions it was
    # trained with, which lies between the extremes of the recordings.
    tc = []
    for t in trajs:
      for o in t.observations:
        for b in o.controls:
          tc.append(([b.current_na] if c['use_current'] else [])
                    + ([b.voltage_kv] if c['use_voltage'] else [])
                    + ([b.dwell_time.total_seconds()] if cl else []))
    med = np.median(np.array(tc), axis=0) if tc[0] else np.zeros(0)
    levels = [sorted({t[i] for t in tc}) for i in range(len(med))]
    levels = [sorted(set(v) | {(a + b) / 2 for a in v for b in v})
              for v in levels]
    cands = [list(v) for v in itertools.product(*levels)]
    cands.sort(key=lambda v: float(np.abs(np.array(v) - med).sum()))
    r = np.random.default_rng(3)
    beam = r.normal(size=(5, 2)) * 1.5
    x = np.concatenate([np.repeat(med[None], 5, 0), beam], 1).astype(np.float32)
    met = np.load(os.path.join(w, 'metrics.npz'))
    if learner in ('rate_network', 'classification_network'):
      for k in met.files:
        ctx.check(met[k].shape == (c['num_models'], c['epochs']), 'metrics',
                  f'{k}: {met[k].shape}')
      with open(os.path.join(w, 'config.json')) as f:
        conf = json.load(f)
      for k, v in c.items():
        if k != 'batch_size':
          ctx.check(conf[k] == v, 'other-config', f'{k}: {conf[k]}, not {v}')
      kw = {'dwell_time_in_context': True} if cl else {}
      q = self.lr.LearnedTransitionRatePredictor(config=self.config(plan, **kw))
      ctx.must('load', q.load, w)
      out = self.ask(ctx, q, x)
      self.expose(plan, ctx, q, {'n': 2, 'seed': 5},
                  context=tuple([float(v) for v in cand] for cand in cands))
    else:
      models = [self.joblib.load(os.path.join(w, f'{learner}_{i}.joblib'))
                for i in range(c['num_models'])]
      both = self.joblib.load(os.path.join(w, f'{learner}_ensemble.joblib'))
      for k in ('train_accuracy', 'test_accuracy'):
        v = met[k].reshape(-1)
        ctx.check(len(v) == c['num_models'] and ((v >= 0) & (v <= 1)).all(),
                  'metrics', f'{k}: {v}')
      out = np.asarray(both.predict_proba(x))
      # Columns are the outcomes: all of them, or those in the recordings.
      cls = (np.arange(4) if out.shape[1] == 4 else
             np.unique(np.concatenate([m.classes_ for m in models])))
      ctx.check(out.shape == (5, len(cls)), 'ensemble', f'{out.shape}')
      want = np.zeros(out.shape)
      for m in models:
        want[:, np.searchsorted(cls, m.classes_)] += (
            m.predict_proba(x) / len(models))
      ctx.check(self.same(out, want), 'ensemble', 'the ensemble is not the '
                'mean of its members')
      if len({tuple(m.classes_) for m in models}) > 1:
        ctx.count('members_saw_different_outcomes')
    ctx.nontrivial = True
    ctx.log('files', sorted(os.listdir(w)), np.round(out, 3))
    return out


CHECK = C20()
