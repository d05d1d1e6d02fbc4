"""The order in which the file system lists a directory, chosen by the plan."""
import contextlib
import os

import numpy as np


@contextlib.contextmanager
def shuffled(seed):
  """os.listdir and os.scandir list every directory in a seeded order."""
  real_list, real_scan = os.listdir, os.scandir
  rr = np.random.default_rng(seed)

  def listdir(p='.'):
    out = sorted(real_list(p))
    return [out[i] for i in rr.permutation(len(out))]

  class Scan:

    def __init__(self, p='.'):
      with real_scan(p) as it:
        es = sorted(it, key=lambda e: e.name)
      self.es = iter([es[i] for i in rr.permutation(len(es))])

    def __iter__(self):
      return self.es

    def __next__(self):
      return next(self.es)

    def __enter__(self):
      return self

    def __exit__(self, *a):
      pass

    def close(self):
      pass

  os.listdir, os.scandir = listdir, Scan
  try:
    yield
  finally:
    os.listdir, os.scandir = real_list, real_scan
