"""Tiny real SavedModels that answer with their version, zipped."""
import io
import os
import shutil
import tempfile
import zipfile

_cache = {}


def archive(name, version, scale=None):
  """The bytes of a zip with SavedModel directory `name` in it.

  The model ignores its input and answers `version`; with scale, it maps any
  observation to that action instead.
  """
  key = (name, version, scale)
  if key in _cache:
    return _cache[key]
  import numpy as np
  import tensorflow as tf

  class Model(tf.Module):

    def __init__(self):
      super().__init__()
      out = scale if scale is not None else (float(version),)
      self.v = tf.Variable(np.asarray(out, dtype=np.float32))
      self.pad = tf.Variable(np.arange(600, dtype=np.float32) + version)

    @tf.function(input_signature=[tf.TensorSpec(shape=None, dtype=tf.float32)])
    def __call__(self, x):
      return self.v + 0.0 * tf.reduce_sum(self.pad)

  d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
  try:
    m = Model()
    tf.saved_model.save(m, os.path.join(d, name), signatures=m.__call__)
    _cache[key] = _zip(d, name)
  finally:
    shutil.rmtree(d, ignore_errors=True)
  return _cache[key]


def policy_archive(name, version, out, pixels):
  """A zip with a policy whose action is policy_action() of its observation."""
  key = (name, version, out, pixels)
  if key in _cache:
    return _cache[key]
  import numpy as np
  import tensorflow as tf

  spec = ({'image': tf.TensorSpec((128, 128, 1), tf.float32),
           'goal_delta_angstroms': tf.TensorSpec((2,), tf.float32)}
          if pixels else tf.TensorSpec((10,), tf.float32))

  class Policy(tf.Module):

    def __init__(self):
      super().__init__()
      self.w = tf.Variable(np.float32(_weight(version)))

    @tf.function(input_signature=[spec])
    def __call__(self, x):
      if pixels:
        delta, extra = x['goal_delta_angstroms'], tf.reduce_mean(x['image'])
      else:
        delta, extra = x[-2:], x[0]
      a = tf.tanh(self.w * delta)
      if out == 3:
        a = tf.concat([a, [tf.sigmoid(extra)]], 0)
      return a

  d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
  try:
    p = Policy()
    tf.saved_model.save(p, os.path.join(d, name))
    _cache[key] = _zip(d, name)
  finally:
    shutil.rmtree(d, ignore_errors=True)
  return _cache[key]


def detector_archive(margin):
  """A segmentation net that knows an atom by its brightness."""
  key = ('detector', margin)
  if key in _cache:
    return _cache[key]
  import tensorflow as tf

  class Net(tf.Module):

    @tf.function(input_signature=[tf.TensorSpec(
        (256, 256, 1), tf.float32, name='preprocessed_inputs_0')])
    def __call__(self, preprocessed_inputs_0):
      # Exported networks take images of this size only.
      x = tf.reshape(preprocessed_inputs_0, (256, 256))
      carbon = tf.logical_and(x > 0.3, x < 0.6)
      silicon = tf.logical_and(x >= 0.6, x < 0.85)
      nothing = tf.logical_not(tf.logical_or(carbon, silicon))
      return {'output_0': margin * tf.cast(
          tf.stack([nothing, carbon, silicon], -1), tf.float32)}

  d = tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH'])
  try:
    net = Net()
    name = 'atom-detection-model'
    tf.saved_model.save(net, os.path.join(d, name), signatures=net.__call__)
    _cache[key] = _zip(d, name)
  finally:
    shutil.rmtree(d, ignore_errors=True)
  return _cache[key]


def _weight(version):
  return 0.15 + 0.05 * version


def policy_action(version, out, obs):
  """What the policy does, independently of TensorFlow."""
  import numpy as np
  if isinstance(obs, dict):
    delta, extra = obs['goal_delta_angstroms'], np.mean(obs['image'])
  else:
    delta, extra = obs[-2:], obs[0]
  a = np.tanh(np.float32(_weight(version)) * np.asarray(delta, np.float32))
  if out == 3:
    a = np.concatenate([a, [1 / (1 + np.exp(-np.float32(extra)))]])
  return a


def _zip(d, name):
  buf = io.BytesIO()
  with zipfile.ZipFile(buf, 'w') as z:
    for r, ds, fs in sorted(os.walk(os.path.join(d, name))):
      ds.sort()
      z.write(r, os.path.relpath(r, d))
      for f in sorted(fs):
        z.write(os.path.join(r, f), os.path.relpath(os.path.join(r, f), d))
  return buf.getvalue()


def version_of(model):
  import numpy as np
  import tensorflow as tf
  if callable(model):
    return int(np.asarray(model(tf.constant(0.0)))[0])
  out = model.signatures['serving_default'](tf.constant(0.0))
  return int(np.asarray(list(out.values())[0])[0])
