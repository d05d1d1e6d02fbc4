"""C26: uploading recordings keeps every session, as it was recorded."""
import contextlib
import datetime as dt
import io
import json
import os
import pathlib
import sys
import types
import zipfile

import numpy as np

from sim import core
from sim import disk
from sim import listing
from sim import world


class StubRiegeli:
  """Record files: length-prefixed records, complete once closed."""

  class RecordWriter:

    def __init__(self, fp):
      self.fp, self.records, self.open = fp, [], True

    def write_record(self, data):
      assert self.open
      self.records.append(bytes(data))

    def close(self):
      self.open = False
      for r in self.records:
        self.fp.write(len(r).to_bytes(8, 'big') + r)
      self.fp.write(b'END')

    def __enter__(self):
      return self

    def __exit__(self, *a):
      self.close()

  @staticmethod
  def read(data):
    out, i = [], 0
    while data[i:] != b'END':
      n = int.from_bytes(data[i:i + 8], 'big')
      if len(data) < i + 8 + n:
        return None
      out.append(data[i + 8:i + 8 + n])
      i += 8 + n
    return out


class StubStorage:
  """A bucket that survives the uploading process; uploads may fail."""

  def __init__(self, fail_at):
    self.blobs, self.calls, self.fail_at = {}, 0, set(fail_at)
    self.fired = 0
    self.history = []

  def Client(self):  # pylint: disable=invalid-name
    return self

  def get_bucket(self, name):
    return self

  bucket = get_bucket

  def blob(self, name):
    store = self

    class Blob:

      def upload_from_file(self, fp, *a, **k):
        store.put(str(name), fp.read())

      def upload_from_string(self, data, *a, **k):
        store.put(str(name), data)

    return Blob()

  def put(self, name, data):
    self.calls += 1
    if self.calls in self.fail_at:
      self.fired += 1
      raise ConnectionError('upload failed')
    self.history.append(name)
    self.blobs[name] = data


PARTS = ['scan1', 'scan2', '2022.10.05', '2022.10.06', '2022.10.05 b', 'Sheet A',
         'run.1', 'run.2', 'run.10', 'B7', 'v1.0-final', 'v1.1-final', 'x',
         'Area_3']


class C26(core.Check):
  id = 'C26'
  quick_runs = 1200
  thorough_runs = 8000
  nontrivial_rule = (
      'recordings of simulated sessions (silicon moved by exposures, the stage '
      'drifting, detectors of another resolution, padded stacks, frames '
      'without silicon) written to disk in the format of the microscope and '
      'uploaded, with unreadable recordings, read errors, a failing network '
      'and repeated uploads; non-trivial if there are several recordings or a '
      'fault fired.')
  state_measure = ('distinct (recordings, nesting depth, names with dots, '
                   'faults, frames without silicon, drift) tuples')
  real = ['upload_microscope_data.main / load_dataset / '
          'convert_dataset_to_proto', 'Trajectory and its protos',
          'trajectories_to_transitions', 'transitions_to_datapoints',
          'simulator and material that produce the recordings']
  stubs = ['riegeli (not installed): a record writer', 'the storage bucket']
  fault_kinds = ('unreadable_recording', 'read_error', 'upload_failed',
                 'uploaded_again', 'listing_shuffled', 'padded_stack',
                 'frame_without_silicon', 'stage_drift')

  def load(self):
    try:
      import riegeli  # pylint: disable=unused-import
    except ImportError:
      sys.modules['riegeli'] = types.ModuleType('riegeli')
    sys.modules['riegeli'].RecordWriter = StubRiegeli.RecordWriter
    self.m = world.mods()
    from putting_dune.pipeline import train_rate_learner
    from putting_dune.pipeline import trajectories_to_transitions
    from putting_dune.pipeline import upload_microscope_data
    self.up = upload_microscope_data
    self.t2t = trajectories_to_transitions.trajectories_to_transitions
    self.trl = train_rate_learner

  def cleanup(self):
    disk.cleanup()

  def generate(self, rnd, tier):
    names = set()
    recs = []
    for _ in range(rnd.choice([1, 2, 2, 3, 4] if tier == 'quick'
                              else [2, 4, 6, 9])):
      parts = [rnd.choice(PARTS) for _ in range(rnd.choice([1, 1, 2, 3]))]
      if names and rnd.random() < 0.5:
        # Like another one, but for one directory.
        parts = rnd.choice(sorted(names)).split('/')
        parts[rnd.randrange(len(parts))] = rnd.choice(PARTS)
      key = '/'.join(parts)
      if key in names or any(k.startswith(key + '/') or key.startswith(k + '/')
                             for k in names):
        continue
      names.add(key)
      recs.append({
          'op': 'record', 'dir': key, 'seed': rnd.randrange(2**31),
          'frames': rnd.choice([4, 4, 5, 7]),
          'image': rnd.choice([16, 32]), 'label': rnd.choice([8, 16, 32]),
          'pad': rnd.choice([0, 0, 1, 3]),
          'drift': rnd.choice([0.0, 0.3, 2.0]),
          'blank': [rnd.random() < rnd.choice([0, 0, .3]) for _ in range(8)],
          'blind': [rnd.random() < rnd.choice([0, 0, .3]) for _ in range(8)],
          'hidden': [rnd.random() < 0.15 for _ in range(8)],
          'damage': rnd.choice([None] * 7 + [
              'adf_truncated', 'label_truncated', 'label_missing', 'empty',
              'no_readout', 'not_json', 'no_frames', 'gap', 'gap']),
          'cut': rnd.random(), 'fov': rnd.uniform(1.5, 3.0),
      })
      if recs[-1]['damage'] == 'gap':
        recs[-1]['frames'] = 7  # Those of three frames are not kept.
    return {
        'ops': recs, 'listing': rnd.randrange(999),
        'fail_upload': (sorted(rnd.sample(range(1, 6), 1))
                        if rnd.random() < 0.25 else []),
        'read_error': rnd.choice([None] * 3 + [rnd.randrange(1, 7)]),
        'again': rnd.random() < 0.4,
    }

  def shrink(self, plan):
    for k, v in (('fail_upload', []), ('read_error', None), ('again', False)):
      if plan[k]:
        yield dict(plan, **{k: v})
    for i, op in enumerate(plan['ops']):
      for k, v in (('damage', None), ('drift', 0.0), ('pad', 0),
                   ('hidden', [False] * 8), ('blank', [False] * 8),
                   ('blind', [False] * 8), ('frames', 4)):
        if op[k] != v and (k != 'frames' or op['damage'] != 'gap'):
          o = dict(op)
          o[k] = v
          yield dict(plan, ops=plan['ops'][:i] + [o] + plan['ops'][i + 1:])

  # -- recordings --------------------------------------------------------------
  def session(self, op):
    """A session as it truly happened, in the terms of the recording."""
    rng = np.random.default_rng(op['seed'])
    mat = world.make_material(
        self.m, {'rates': {'kind': 'simple'}, 'columns': 24})
    mat.reset(rng)
    s = op['fov'] * 10.0
    si = np.asarray(mat.get_silicon_position()).reshape(-1)[:2]
    ll = si - s * rng.uniform(0.4, 0.6, 2)
    origin = ll.copy()
    frames = []
    mu, ge = self.m.microscope_utils, self.m.geometry
    for t in range(op['frames']):
      shift = np.zeros(2)
      hidden = op['hidden'][t]
      if t and not hidden and op['drift']:
        shift = rng.normal(size=2) * op['drift']
      ll = ll + shift
      pos = np.asarray(mat.grid.atom_positions, float)
      num = np.asarray(mat.grid.atomic_numbers)
      rel = (pos - ll) / s
      keep = np.all((rel > 0) & (rel < 1), axis=1)
      order = rng.permutation(np.flatnonzero(keep))
      f = {'rel': rel[order], 'num': num[order], 'll': ll - origin,
           'shift': shift / s, 'beam': None, 'dwell': None}
      f['blind'] = op['blind'][t] and not hidden
      if hidden:
        f['num'] = np.full(len(order), 6)
        if op['blank'][t]:
          # Nothing at all was detected.
          f['rel'], f['num'] = f['rel'][:0], f['num'][:0]
      else:
        d = rng.normal(size=2) * 1.2
        b = (np.asarray(mat.get_silicon_position()).reshape(-1)[:2] + d - ll) / s
        f['beam'] = b
        f['dwell'] = float(rng.choice([0.5, 1.5, 3.25]))
        at = ll + b * s
        c = mu.BeamControlMaterialFrame(mu.BeamControl(
            ge.Point(float(at[0]), float(at[1])),
            dt.timedelta(seconds=f['dwell'])))
        mat.apply_control(rng, c)
      f['image'] = rng.uniform(size=(op['image'],) * 2).astype(np.float32)
      frames.append(f)
    for f in frames:
      if f['blind']:
        # An exposure, with no silicon detected.
        f['num'] = np.full(len(f['num']), 6)
      elif f['beam'] is not None and not (f['num'] == 14).any():
        f['beam'] = f['dwell'] = None
    # Drift of frames whose silicon is out of view is not recorded; start the
    # account anew there.
    base = np.zeros(2)
    for f in frames:
      if f['beam'] is None:
        f['recorded_shift'] = np.zeros(2)
      else:
        f['recorded_shift'] = f['shift']
      base = base + f['recorded_shift'] * s
      f['corner'] = base.copy()
    return frames, s

  def write(self, ctx, root, op):
    frames, s = self.session(op)
    n, h, w = len(frames), op['image'], op['label']
    d = os.path.join(root, *op['dir'].split('/'))
    os.makedirs(d)
    pad = op['pad']
    imgs = np.concatenate([np.stack([f['image'] for f in frames]),
                           np.zeros((pad, h, h), np.float32)])
    labels = np.zeros((n + pad, w, w), np.uint8)
    meta = {}
    for t, f in enumerate(frames):
      xy = f['rel'] * w
      cls = (f['num'] == 14).astype(float)
      v = {'All coordinates': {'0': np.concatenate(
          [xy, cls[:, None]], axis=1).tolist()},
           'All parameters': {'image_parameters': [op['fov'], 'x']}}
      if f['beam'] is not None:
        v['Blast coordinates'] = {'Dopants': xy[f['num'] == 14].tolist()}
        v['Beam location'] = (f['beam'] * w).tolist()
        v['Beam dwelltime'] = f['dwell']
        v['ADF intensities'] = [0.1, 0.2]
        v['Pixelshifts'] = (f['recorded_shift'] * h).tolist()
      elif ctx is not None:
        ctx.fault('frame_without_silicon')
      if t == 0 or t % 2:
        v['ADF readouttime'] = 0.1
      if op['damage'] == 'no_readout':
        v.pop('ADF readouttime', None)
      if op['damage'] == 'no_frames':
        v.pop('All coordinates')
      meta[str(t)] = v
    if pad and ctx is not None:
      ctx.fault('padded_stack')
    if op['drift'] and ctx is not None:
      ctx.fault('stage_drift')
    if op['damage'] == 'gap':
      # A frame in the middle is missing from the metadata.
      del meta[str(1 + int(op['cut'] * (n - 2)))]
    text = json.dumps({'metadata': meta})
    if op['damage'] == 'not_json':
      text = text[:len(text) // 2]

    def ndata(path, data):
      with zipfile.ZipFile(path, 'w') as z:
        b = io.BytesIO()
        np.save(b, data)
        z.writestr('data.npy', b.getvalue())
        z.writestr('metadata.json', text)

    adf = os.path.join(d, 'ADF-stack-000.ndata1')
    lab = os.path.join(d, 'Label-stack-000.ndata1')
    ndata(adf, imgs)
    ndata(lab, labels)
    k = op['damage']
    if k == 'adf_truncated':
      disk.truncate(adf, int(os.path.getsize(adf) * op['cut'] * 0.99))
    elif k == 'label_truncated':
      disk.truncate(lab, int(os.path.getsize(lab) * op['cut'] * 0.99))
    elif k == 'empty':
      disk.truncate(lab, 0)
    elif k == 'label_missing':
      os.remove(lab)
    if k and ctx is not None:
      ctx.fault('unreadable_recording')
    return frames, s

  # -- a run -------------------------------------------------------------------
  def execute(self, plan, ctx):
    if not plan['ops']:
      return
    root = os.path.join(ctx.scratch(), 'recordings')
    os.mkdir(root)
    truth = {}
    for op in plan['ops']:
      truth[op['dir']] = self.write(ctx, root, op) + (op,)
    good = [k for k in truth if truth[k][2]['damage'] is None]
    if len(plan['ops']) > 1:
      ctx.nontrivial = True
    self.nothing(ctx)
    store = StubStorage(plan['fail_upload'])
    self.attempt(plan, ctx, store, root, plan['listing'], faulty=True)
    clean = store.fired == 0 and not self.read_failed
    if store.fired:
      ctx.fault('upload_failed')
    # What is in the bucket is whole, whatever happened.
    seen = self.judge(ctx, store, truth, good, complete=clean)
    if not clean or plan['again']:
      before = dict(store.blobs)
      ctx.fault('uploaded_again')
      self.attempt(plan, ctx, store, root, plan['listing'] + 7, faulty=False)
      self.judge(ctx, store, truth, good, complete=True)
      for name, data in before.items():
        ctx.check(store.blobs[name] == data, 'changed-by-repeat',
                  f'uploading again changed {name}')
    ctx.log('bucket', sorted(store.blobs), [core.digest(store.blobs[n]) for n in
                                            sorted(store.blobs)], seen)

  def nothing(self, ctx):
    """A directory without recordings is reported, nothing is uploaded."""
    d = os.path.join(ctx.scratch(), 'nothing')
    os.makedirs(os.path.join(d, 'scan1'), exist_ok=True)
    with open(os.path.join(d, 'scan1', 'notes.txt'), 'w') as f:
      f.write('no microscope data')
    up, store = self.up, StubStorage([])
    real, up.storage = up.storage, store
    code = 0
    try:
      with contextlib.redirect_stderr(io.StringIO()):
        up.main(up.Args(directory=pathlib.Path(d)))
    except SystemExit as e:
      code = e.code
    finally:
      up.storage = real
    ctx.check(code not in (0, None), 'nothing-to-upload',
              'an upload without recordings succeeded')
    ctx.check(not store.blobs, 'nothing-to-upload',
              f'{sorted(store.blobs)} were uploaded from nothing')

  def attempt(self, plan, ctx, store, root, order, faulty):
    up = self.up
    real = up.storage
    self.read_failed = False
    fail_at, store.fail_at = store.fail_at, (store.fail_at if faulty else set())
    f = None
    if faulty and plan['read_error']:
      f = disk.Faults(root, fail_at=plan['read_error'], writes_only=False,
                      errno=5, match='-stack-000.ndata1')
    up.storage = store
    err = None
    try:
      with listing.shuffled(order):
        ctx.fault('listing_shuffled')
        with f or contextlib.nullcontext():
          up.main(up.Args(directory=pathlib.Path(root)))
    except SystemExit as e:
      err = e
    except (ConnectionError, OSError) as e:
      ctx.check(store.fired > 0 or (f is not None and f.fired), 'upload-ended',
                f'the upload ended with {e!r}')
      ctx.check(store.fired > 0, 'upload-ended',
                f'one unreadable recording ended the upload: {e!r}')
      err = e
    except core.Violation:
      raise
    except Exception as e:  # pylint: disable=broad-except
      if not core._through_repo(e):  # pylint: disable=protected-access
        raise
      ctx.violate('upload-ended', f'one recording ended the upload: {e!r}\n'
                  + core._repo_frames(e))  # pylint: disable=protected-access
    finally:
      up.storage = real
      store.fail_at = fail_at
    if f is not None and f.fired:
      ctx.fault('read_error')
      self.read_failed = True
    if isinstance(err, SystemExit):
      ctx.violate('upload-exited', f'the upload exited ({err.code}) although '
                  'there are recordings')
    return err

  def judge(self, ctx, store, truth, good, complete):
    """Every blob is one session; every session is in one blob."""
    mu = self.m.microscope_utils
    found = {}
    for name, data in sorted(store.blobs.items()):
      recs = StubRiegeli.read(data)
      ctx.check(recs is not None and len(recs) == 1, 'blob-broken',
                f'{name} holds {None if recs is None else len(recs)} records')
      traj = mu.Trajectory.from_proto_string(recs[0])
      who = [k for k in good if self.matches(traj, truth[k][0])]
      ctx.check(len(who) == 1, 'unknown-session',
                f'{name} holds {len(traj.observations)} frames that belong to '
                f'{who or "none of the recordings"}')
      ctx.check(who[0] not in found, 'uploaded-twice',
                f'{who[0]} is in {name} and in {found.get(who[0])}')
      found[who[0]] = name
      self.compare(ctx, traj, who[0], *truth[who[0]])
    if complete:
      for k in good:
        ctx.check(k in found, 'session-lost',
                  f'the recording {k!r} is not in the bucket, which holds '
                  f'{sorted(store.blobs)}')
    ctx.state(len(truth), len(good), complete,
              max(k.count('/') for k in truth), any('.' in k for k in truth))
    return sorted(found)

  def matches(self, traj, frames):
    im = [o.image for o in traj.observations if o.image is not None]
    return bool(im) and any(
        f['image'].shape == np.asarray(im[0]).shape
        and np.allclose(f['image'], im[0], atol=1e-6) for f in frames)

  def compare(self, ctx, traj, name, frames, s, op):
    ctx.count('sessions_compared')
    ob = traj.observations
    ctx.check(len(ob) == len(frames), 'frames', f'{name}: {len(ob)} frames of '
              f'{len(frames)}')
    o0 = np.array(world.pt(ob[0].fov.lower_left)) - frames[0]['corner']
    for t, (o, f) in enumerate(zip(ob, frames)):
      ctx.count('frames_compared')
      where = f'{name} frame {t}'
      ctx.check(np.allclose(o.image, f['image'], atol=1e-6), 'frame-image',
                f'{where}: another image')
      p = np.asarray(o.grid.atom_positions, float)
      ctx.check(p.shape == f['rel'].shape and np.allclose(
          p, f['rel'], atol=1e-5), 'frame-atoms', f'{where}: other atoms')
      want = f['num'] if f['beam'] is not None else np.full(len(p), 6)
      ctx.count('frames_without_atoms', int(not len(p)))
      ctx.check(np.array_equal(o.grid.atomic_numbers, want), 'frame-dopants',
                f'{where}: {np.sum(np.asarray(o.grid.atomic_numbers) == 14)} '
                f'silicon atoms, {np.sum(want == 14)} were recorded')
      ll = np.array(world.pt(o.fov.lower_left)) - o0
      ur = np.array(world.pt(o.fov.upper_right)) - o0
      ctx.check(np.allclose(ur - ll, s, atol=1e-3), 'frame-fov-size',
                f'{where}: field of view of {ur - ll} Å, recorded {s}')
      ctx.check(np.allclose(ll, f['corner'], atol=1e-3), 'frame-drift',
                f'{where}: drifted by {ll}, the recorded shifts sum to '
                f'{f["corner"]}')
      if f['beam'] is None:
        ctx.check(len(o.controls) == 0, 'frame-control',
                  f'{where}: a control was invented')
      else:
        ctx.check(len(o.controls) == 1, 'frame-control',
                  f'{where}: {len(o.controls)} controls')
        c = o.controls[0]
        b = np.array(world.pt(c.position))
        ctx.check(np.allclose(b, f['beam'], atol=1e-5), 'frame-beam',
                  f'{where}: beam at {b} of the field of view, recorded '
                  f'{f["beam"]}')
        ctx.check(abs(c.dwell_time.total_seconds() - f['dwell']) < 1e-6,
                  'frame-dwell', f'{where}: dwell {c.dwell_time}')
        ctx.simtime(f['dwell'])
      least = f['dwell'] or 0.0
      ctx.check(o.elapsed_time.total_seconds() >= least, 'frame-time',
                f'{where}: {o.elapsed_time} elapsed, dwell {least}')
    # What is learned from: the beam as far from the silicon as it was.
    tr = self.t2t([traj])
    ctx.check(len(tr) == len(frames) - 1, 'transitions', f'{len(tr)}')
    for t, x in enumerate(tr):
      f = frames[t]
      if f['beam'] is None or f['blind']:
        continue
      pts = self.trl.transitions_to_datapoints(
          [x], self.trl.Args(source_path=None, workdir=None))
      for q in pts:
        ctx.count('datapoints_compared')
        si = f['rel'][f['num'] == 14][0]
        want = float(np.linalg.norm((f['beam'] - si) * s))
        got = float(np.linalg.norm(np.asarray(q['beam_pos']).reshape(-1)))
        ctx.check(abs(got - want) < 1e-2, 'learned-beam',
                  f'{name} transition {t}: learned with the beam {got:.3f} Å '
                  f'from the silicon, it was {want:.3f} Å away')


CHECK = C26()
