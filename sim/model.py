"""Independent dense model of TT objects and of every library call (numpy only).

A TT object is described by a JSON spec and represented in the model by the dense
array it stands for: [batch,] modes... for tensors, [batch,] rows, cols for
matrices.
"""
import numpy as np


def prod(xs):
  r = 1
  for x in xs:
    r *= int(x)
  return r


def dense_from_cores(cores, is_matrix, is_batch):
  """Contracts numpy cores into the dense array (float64)."""
  cores = [np.asarray(c, dtype=np.float64) for c in cores]
  if is_batch:
    if not cores[0].shape[0]:
      one = dense_from_cores([np.zeros(c.shape[1:]) for c in cores], is_matrix,
                             False)
      return np.zeros((0,) + one.shape)
    return np.stack([dense_from_cores([c[i] for c in cores], is_matrix, False)
                     for i in range(cores[0].shape[0])])
  res = cores[0].reshape(-1, cores[0].shape[-1])
  for c in cores[1:]:
    res = res.dot(c.reshape(c.shape[0], -1)).reshape(-1, c.shape[-1])
  modes = []
  for c in cores:
    modes.extend(c.shape[1:-1])
  res = res.reshape(modes)
  if is_matrix:
    d = len(cores)
    perm = list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2))
    rows = prod(c.shape[1] for c in cores)
    cols = prod(c.shape[2] for c in cores)
    res = res.transpose(perm).reshape(rows, cols)
  return res


def make_cores(spec):
  """numpy cores for an object spec."""
  rs = np.random.RandomState(spec['seed'] % (2 ** 32))
  ranks = spec['ranks']
  d = len(ranks) - 1
  b = spec.get('b')
  cores = []
  for i in range(d):
    if spec['k'] == 'matrix':
      mode = (spec['shape'][0][i], spec['shape'][1][i])
    else:
      mode = (spec['shape'][0][i],)
    shape = (ranks[i],) + mode + (ranks[i + 1],)
    if b is not None:
      shape = (b,) + shape
    core = rs.randn(*shape) / np.sqrt(ranks[i + 1])
    if spec.get('spd'):
      m = core.reshape(-1, mode[0], mode[1])
      m = 0.2 * np.einsum('bij,bkj->bik', m, m) + np.eye(mode[0])
      core = m.reshape(shape)
    cores.append(core.astype(spec['dt']))
  return cores


# ------------------------------------------------ tensor <-> merged-mode views
def to_modes(dense, shape, is_matrix):
  """Dense non-batch array -> one axis per core (row/col modes merged)."""
  if not is_matrix:
    return dense.reshape([int(n) for n in shape[0]])
  d = len(shape[0])
  x = dense.reshape(list(shape[0]) + list(shape[1]))
  perm = []
  for i in range(d):
    perm += [i, d + i]
  return x.transpose(perm).reshape([int(m) * int(n) for m, n in zip(*shape)])


def from_modes(x, shape, is_matrix):
  if not is_matrix:
    return x.reshape([int(n) for n in shape[0]])
  d = len(shape[0])
  inter = []
  for m, n in zip(*shape):
    inter += [int(m), int(n)]
  x = x.reshape(inter)
  perm = list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2))
  return x.transpose(perm).reshape(prod(shape[0]), prod(shape[1]))


def truncate(x, caps, right_to_left):
  """Sequential SVD truncation at every bond. Returns (array, min rel. gap)."""
  d = x.ndim
  gap = 1.0
  bonds = range(d - 1, 0, -1) if right_to_left else range(1, d)
  for k in bonds:
    m = x.reshape(prod(x.shape[:k]), -1)
    u, s, v = np.linalg.svd(m, full_matrices=False)
    r = min(caps[k], len(s))
    if r < len(s) and s[0] > 0:
      gap_here = (s[r - 1] - s[r]) / s[0]
      # A truncated part that is numerically zero does not matter.
      if s[r] > 1e-9 * s[0]:
        gap = min(gap, gap_here)
    m = (u[:, :r] * s[:r]).dot(v[:r])
    x = m.reshape(x.shape)
  return x, gap


def true_ranks(x):
  res = [1]
  for k in range(1, x.ndim):
    s = np.linalg.svd(x.reshape(prod(x.shape[:k]), -1), compute_uv=False)
    res.append(int(np.sum(s > 1e-9 * max(s[0], 1e-300))))
  return res + [1]


def tangent_projector(where, ranks):
  """Function projecting merged-mode arrays on the tangent space at `where`."""
  d = where.ndim
  left, right = [None] * d, [None] * d  # left[k]: projector on first k modes.
  for k in range(1, d):
    m = where.reshape(prod(where.shape[:k]), -1)
    u, _, v = np.linalg.svd(m, full_matrices=False)
    u, v = u[:, :ranks[k]], v[:ranks[k]]
    left[k] = u.dot(u.T)
    right[k] = v.T.dot(v)

  def apply(z):
    res = np.zeros_like(z)
    for i in range(d):
      y = z
      if i + 1 < d:
        m = y.reshape(prod(y.shape[:i + 1]), -1)
        y = m.dot(right[i + 1]).reshape(z.shape)
      full_left = y
      if i > 0:
        m = y.reshape(prod(y.shape[:i]), -1)
        full_left = left[i].dot(m).reshape(z.shape)
      res = res + full_left
      if i + 1 < d:
        m = y.reshape(prod(y.shape[:i + 1]), -1)
        res = res - left[i + 1].dot(m).reshape(z.shape)
    return res

  return apply
