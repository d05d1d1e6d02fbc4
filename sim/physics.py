"""Independent formulas for the rate functions, from their documentation."""
import math

import numpy as np

BOND = 1.42


def unit(d):
  return d / np.linalg.norm(d)


def simple(si, nbs, beam):
  """Rate 1 on the neighbour, inverse square falloff (quarter bonds)."""
  d = np.linalg.norm(np.asarray(nbs) - np.asarray(beam), axis=1) / BOND
  return 1.0 / (16.0 * d * d + 1.0)


def gauss(x, mean, cov):
  d = np.asarray(x) - mean
  return math.exp(-0.5 * float(d @ np.linalg.inv(cov) @ d))


def human(si, nbs, beam, mean=(0.85, 0.0), cov=((0.1, 0), (0, 0.1)),
          max_rate=math.log(2) / 3):
  """Gaussian around `mean`, given in bonds for a neighbour at (1, 0)."""
  mean, cov = np.asarray(mean, float), np.asarray(cov, float)
  out = []
  for nb in nbs:
    e1 = unit(np.asarray(nb) - si)
    e2 = np.array([-e1[1], e1[0]])
    b = (np.asarray(beam) - si) / BOND
    out.append(max_rate * gauss(np.array([b @ e1, b @ e2]), mean, cov))
  return np.asarray(out)


def gmm(p, si, nbs, beam):
  """p: max_rate, weights, locs (fractions of the bond), variances."""
  max_rate, w, loc, var = p
  peak = max(w[k] / (2 * math.pi * math.sqrt(var[k][0] * var[k][1]))
             for k in range(len(w)))
  out = []
  for nb in nbs:
    d = np.asarray(nb) - si
    e1 = unit(d)
    e2 = np.array([-e1[1], e1[0]])
    tot = 0.0
    for k in range(len(w)):
      x = np.asarray(beam) - (si + d * loc[k])
      q = (x @ e1) ** 2 / var[k][0] + (x @ e2) ** 2 / var[k][1]
      tot += w[k] * math.exp(-q / 2) / (
          2 * math.pi * math.sqrt(var[k][0] * var[k][1]))
    out.append(tot * max_rate / peak)
  return np.asarray(out)


def neighbours(pos, i):
  """Indices of the three nearest atoms, or None if that is ambiguous."""
  d = np.linalg.norm(pos - pos[i], axis=1)
  d[i] = np.inf
  o = np.argsort(d, kind='stable')
  if d[o[3]] - d[o[2]] < 1e-4:
    return None
  return o[:3]
