"""The catalogue of library calls: how to generate, perform and model each one.

An object spec:  {'id','k','b','shape','ranks','dt','seed'[,'spd']}
A call instance: {'op','a':[object ids],'p':{...}}

Each entry defines
  gen(g)             -> (args, params) or None, using the generator `g`,
  call(c, a, p)      -> the library's result; `c` is a CallEnv,
  model(m, a, p)     -> Expect(...), dense expectation; `m` holds dense arrays.
"""
import threading

import numpy as np

from sim import model

CATALOG = {}


class Expect(object):
  """What a call must return."""

  def __init__(self, value=None, mag=None, kind='dense', shape=None, check=None,
               max_ranks=None, fuzzy=False):
    self.value = value        # expected dense array (or list of arrays)
    self.mag = mag            # magnitude for the tolerance
    self.kind = kind          # dense | tensor | matrix | list
    self.shape = shape        # raw shape for TT results
    self.check = check        # extra check(result arrays) -> message or None
    self.max_ranks = max_ranks
    self.fuzzy = fuzzy        # value not determined (ill-conditioned): skip


class Dense(object):
  """Model-side view of an object."""

  def __init__(self, spec, value):
    self.spec = spec
    self.v = value
    self.v.setflags(write=False)
    self.is_matrix = spec['k'] == 'matrix'
    self.b = spec.get('b')
    self.shape = spec['shape']
    self.ranks = spec.get('ranks')

  def modes(self, i=None):
    v = self.v if i is None else self.v[i]
    return model.to_modes(v, self.shape, self.is_matrix)

  def norm(self):
    return float(np.sqrt((self.v ** 2).sum())) + 1.0


def _reg(cls):
  CATALOG[cls.name] = cls
  return cls


def _nz(*dense):
  r = 1.0
  for x in dense:
    r *= x.norm()
  return r


def tt_expect(ref, value, mag=None, shape=None, matrix=None, **kw):
  is_matrix = ref.is_matrix if matrix is None else matrix
  return Expect(value, mag, 'matrix' if is_matrix else 'tensor',
                shape if shape is not None else ref.shape, **kw)


class Op(object):
  name = None
  weight = 1.0
  deterministic = True
  has_callback = False
  advances_rng = False
  eager_only = False     # creates variables

  @staticmethod
  def gen(g):
    raise NotImplementedError


# ------------------------------------------------------------------ ops.py
@_reg
class Full(Op):
  name = 'full'
  weight = 2.0

  @staticmethod
  def gen(g):
    return [g.obj()], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.full(a[0])

  @staticmethod
  def model(a, p):
    return Expect(a[0].v)


def _pair(g, **kw):
  x = g.obj(**kw)
  if x is None:
    return None
  y = g.obj(like=x)
  return x, y


def _bc(x, y):
  """Broadcast two model values over the batch dimension."""
  xv, yv = x.v, y.v
  if x.b is not None and y.b is None:
    yv = yv[None]
  if y.b is not None and x.b is None:
    xv = xv[None]
  return xv, yv


@_reg
class Add(Op):
  name = 'add'
  weight = 2.0

  @staticmethod
  def gen(g):
    x, y = _pair(g)
    return [x, y], {'how': g.rng.choice(['fn', 'operator'])}

  @staticmethod
  def call(c, a, p):
    return a[0] + a[1] if p['how'] == 'operator' else c.t3f.add(a[0], a[1])

  @staticmethod
  def model(a, p):
    xv, yv = _bc(*a)
    return tt_expect(a[0], xv + yv, a[0].norm() + a[1].norm())


@_reg
class Sub(Op):
  name = 'sub'

  @staticmethod
  def gen(g):
    x, y = _pair(g)
    return [x, y], {}

  @staticmethod
  def call(c, a, p):
    return a[0] - a[1]

  @staticmethod
  def model(a, p):
    xv, yv = _bc(*a)
    return tt_expect(a[0], xv - yv, a[0].norm() + a[1].norm())


@_reg
class Neg(Op):
  name = 'neg'

  @staticmethod
  def gen(g):
    return [g.obj()], {}

  @staticmethod
  def call(c, a, p):
    return -a[0]

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], -a[0].v, a[0].norm())


@_reg
class MulNumber(Op):
  name = 'multiply_number'
  weight = 1.5

  @staticmethod
  def gen(g):
    return [g.obj()], {'c': g.number(), 'how': g.rng.choice(['l', 'r', 'fn', 'tf'])}

  @staticmethod
  def call(c, a, p):
    k = p['c']
    if p['how'] == 'l':
      return k * a[0]
    if p['how'] == 'r':
      return a[0] * k
    if p['how'] == 'tf':
      return c.t3f.multiply(a[0], c.tf.constant(k, dtype=a[0].dtype))
    return c.t3f.multiply(a[0], k)

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], p['c'] * a[0].v, a[0].norm() * (1 + abs(p['c'])))


@_reg
class Multiply(Op):
  name = 'multiply'
  weight = 1.5

  @staticmethod
  def gen(g):
    x, y = _pair(g)
    return [x, y], {'how': g.rng.choice(['fn', 'operator'])}

  @staticmethod
  def call(c, a, p):
    return a[0] * a[1] if p['how'] == 'operator' else c.t3f.multiply(a[0], a[1])

  @staticmethod
  def model(a, p):
    xv, yv = _bc(*a)
    return tt_expect(a[0], xv * yv, _nz(*a))


@_reg
class MatmulTT(Op):
  name = 'matmul'
  weight = 2.0

  @staticmethod
  def gen(g):
    x = g.obj(k='matrix')
    y = g.obj(k='matrix', rows=g.spec(x)['shape'][1], dt=g.spec(x)['dt'])
    if y is None:
      return None
    if g.spec(x).get('b') and g.spec(y).get('b') and \
        g.spec(x)['b'] != g.spec(y)['b']:
      return None
    return [x, y], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.matmul(a[0], a[1])

  @staticmethod
  def model(a, p):
    shape = [a[0].shape[0], a[1].shape[1]]
    return tt_expect(a[0], np.matmul(*_bc(*a)), _nz(*a), shape=shape)


@_reg
class MatmulTTDense(Op):
  name = 'matmul_tt_dense'

  @staticmethod
  def gen(g):
    x = g.obj(k='matrix', batch=False)
    return [x], {'cols': g.rng.randint(1, 4), 'seed': g.seed()}

  @staticmethod
  def dense(a, p):
    n = model.prod(a.shape[1])
    return np.random.RandomState(p['seed']).randn(n, p['cols']).astype(
        a.spec['dt'])

  @staticmethod
  def call(c, a, p):
    d = MatmulTTDense.dense(c.dense[0], p)
    return c.t3f.matmul(a[0], c.tf.constant(d))

  @staticmethod
  def model(a, p):
    d = MatmulTTDense.dense(a[0], p).astype(np.float64)
    return Expect(a[0].v.dot(d), a[0].norm() * (1 + np.linalg.norm(d)))


@_reg
class MatmulDenseTT(Op):
  name = 'matmul_dense_tt'

  @staticmethod
  def gen(g):
    x = g.obj(k='matrix', batch=False)
    return [x], {'rows': g.rng.randint(1, 4), 'seed': g.seed()}

  @staticmethod
  def dense(a, p):
    n = model.prod(a.shape[0])
    return np.random.RandomState(p['seed']).randn(p['rows'], n).astype(
        a.spec['dt'])

  @staticmethod
  def call(c, a, p):
    d = MatmulDenseTT.dense(c.dense[0], p)
    return c.t3f.matmul(c.tf.constant(d), a[0])

  @staticmethod
  def model(a, p):
    d = MatmulDenseTT.dense(a[0], p).astype(np.float64)
    return Expect(d.dot(a[0].v), a[0].norm() * (1 + np.linalg.norm(d)))


def _flat(x):
  return x.v.reshape(x.b, -1) if x.b is not None else x.v.reshape(1, -1)


@_reg
class FlatInner(Op):
  name = 'flat_inner'
  weight = 2.0

  @staticmethod
  def gen(g):
    x, y = _pair(g)
    return [x, y], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.flat_inner(a[0], a[1])

  @staticmethod
  def model(a, p):
    return Expect((_flat(a[0]) * _flat(a[1])).sum(1).squeeze(), _nz(*a))


@_reg
class FlatInnerSparse(Op):
  name = 'flat_inner_sparse'

  @staticmethod
  def gen(g):
    x = g.obj(batch=False)
    return [x], {'n': g.rng.randint(1, 5), 'seed': g.seed()}

  @staticmethod
  def sparse(a, p):
    rs = np.random.RandomState(p['seed'])
    total = a.v.size
    n = min(p['n'], total)
    lin = np.sort(rs.choice(total, n, replace=False))
    idx = np.stack(np.unravel_index(lin, a.v.shape), 1).astype(np.int64)
    return idx, rs.randn(n).astype(a.spec['dt'])

  @staticmethod
  def call(c, a, p):
    idx, val = FlatInnerSparse.sparse(c.dense[0], p)
    sp = c.tf.SparseTensor(idx, val, c.dense[0].v.shape)
    return c.t3f.flat_inner(a[0], sp)

  @staticmethod
  def model(a, p):
    idx, val = FlatInnerSparse.sparse(a[0], p)
    return Expect((a[0].v[tuple(idx.T)] * val.astype(np.float64)).sum(),
                  a[0].norm() * (1 + np.linalg.norm(val)))


@_reg
class NormSq(Op):
  name = 'frobenius_norm_squared'

  @staticmethod
  def gen(g):
    return [g.obj()], {'diff': g.rng.random() < 0.5}

  @staticmethod
  def call(c, a, p):
    return c.t3f.frobenius_norm_squared(a[0], differentiable=p['diff'])

  @staticmethod
  def model(a, p):
    return Expect((_flat(a[0]) ** 2).sum(1).squeeze(), a[0].norm() ** 2)


@_reg
class Norm(Op):
  name = 'frobenius_norm'

  @staticmethod
  def gen(g):
    return [g.obj()], {'diff': g.rng.random() < 0.5,
                       'eps': g.rng.choice([1e-5, 1e-2, 0.0])}

  @staticmethod
  def call(c, a, p):
    return c.t3f.frobenius_norm(a[0], epsilon=p['eps'], differentiable=p['diff'])

  @staticmethod
  def model(a, p):
    return Expect(np.sqrt((_flat(a[0]) ** 2).sum(1) + p['eps']).squeeze(),
                  a[0].norm())


@_reg
class Transpose(Op):
  name = 'transpose'

  @staticmethod
  def gen(g):
    return [g.obj(k='matrix')], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.transpose(a[0])

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], np.swapaxes(a[0].v, -1, -2), a[0].norm(),
                     shape=[a[0].shape[1], a[0].shape[0]])


@_reg
class Bilinear(Op):
  name = 'bilinear_form'
  weight = 1.5

  @staticmethod
  def gen(g):
    A = g.obj(k='matrix', batch=False)
    s = g.spec(A)['shape']
    b = g.vec(s[0], dt=g.spec(A)['dt'])
    c = g.vec(s[1], dt=g.spec(A)['dt'])
    if b is None or c is None:
      return None
    return [A, b, c], {'old': g.rng.random() < 0.1}

  @staticmethod
  def call(c, a, p):
    f = c.t3f.quadratic_form if p.get('old') else c.t3f.bilinear_form
    return f(a[0], a[1], a[2])

  @staticmethod
  def model(a, p):
    A, b, c = a
    val = np.einsum('pi,ij,pj->p', _flat(b), A.v, _flat(c)).squeeze()
    return Expect(val, _nz(A, b, c))


@_reg
class Bilinear2(Op):
  name = 'bilinear_form_two_mat'

  @staticmethod
  def gen(g):
    A = g.obj(k='matrix', batch=False)
    s = g.spec(A)['shape']
    dt = g.spec(A)['dt']
    B = g.obj(k='matrix', batch=False, rows=s[1], dt=dt)
    if B is None:
      return None
    x = g.vec(s[0], dt=dt)
    y = g.vec(g.spec(B)['shape'][1], dt=dt)
    if x is None or y is None:
      return None
    return [x, A, B, y], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.ops.bilinear_form_two_mat(*a)

  @staticmethod
  def model(a, p):
    x, A, B, y = a
    val = np.einsum('pi,ij,jk,pk->p', _flat(x), A.v, B.v, _flat(y)).squeeze()
    return Expect(val, _nz(*a))


@_reg
class Cast(Op):
  name = 'cast'

  @staticmethod
  def gen(g):
    return [g.obj()], {'dt': g.rng.choice(['float32', 'float64'])}

  @staticmethod
  def call(c, a, p):
    return c.t3f.cast(a[0], getattr(c.tf, p['dt']))

  @staticmethod
  def model(a, p):
    e = tt_expect(a[0], a[0].v, a[0].norm())
    if p['dt'] == 'float32':
      e.mag = e.mag * 1e4  # Compared in single precision.
    return e


@_reg
class GatherNd(Op):
  name = 'gather_nd'

  @staticmethod
  def gen(g):
    return [g.obj(k='tensor')], {'n': g.rng.randint(1, 5), 'seed': g.seed(),
                                 'tf': g.rng.random() < 0.4,
                                 'neg': g.rng.random() < 0.2}

  @staticmethod
  def idx(a, p):
    rs = np.random.RandomState(p['seed'])
    idx = np.stack([rs.randint(0, n, p['n']) for n in a.v.shape],
                   1).astype(np.int64)
    if p['neg']:
      idx[rs.randint(p['n']), rs.randint(idx.shape[1])] -= a.v.shape[0]
    return idx

  @staticmethod
  def call(c, a, p):
    idx = c.own(GatherNd.idx(c.dense[0], p))
    return c.t3f.gather_nd(a[0], c.tf.constant(idx) if p['tf'] else idx)

  @staticmethod
  def model(a, p):
    return Expect(a[0].v[tuple(GatherNd.idx(a[0], p).T)], a[0].norm())


@_reg
class Renormalize(Op):
  name = 'renormalize_tt_cores'

  @staticmethod
  def gen(g):
    return [g.obj()], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.renormalize_tt_cores(a[0])

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], a[0].v, a[0].norm())


# ------------------------------------------------------------ decompositions
def _caps(p, d):
  r = p['rank']
  return [r] * (d + 1) if not isinstance(r, list) else list(r)


def _round_expect(x, p, right_to_left=True):
  d = len(x.shape[0])
  caps = _caps(p, d)
  vals, gap = [], 1.0
  for i in (range(x.b) if x.b is not None else [None]):
    y, g_ = model.truncate(x.modes(i), caps, right_to_left)
    gap = min(gap, g_)
    vals.append(model.from_modes(y, x.shape, x.is_matrix))
  value = np.stack(vals) if x.b is not None else vals[0]
  return tt_expect(x, value, x.norm() / max(gap, 1e-12), max_ranks=caps,
                   fuzzy=gap < 1e-3)


def _rank_param(g, x, allow_list=True):
  d = len(g.spec(x)['shape'][0])
  r = g.rng.random()
  if r < 0.25 and allow_list:
    return [1] + [g.rng.randint(1, 4) for _ in range(d - 1)] + [1]
  if r < 0.6:
    return g.rng.randint(1, 3)
  return g.rng.choice([4, 8, 20])


@_reg
class Round(Op):
  name = 'round'
  weight = 3.0

  @staticmethod
  def gen(g):
    x = g.obj(batch=g.rng.random() < 0.4)
    return [x], {'rank': _rank_param(g, x, g.spec(x).get('b') is None)}

  @staticmethod
  def call(c, a, p):
    r = p['rank']
    return c.t3f.round(a[0], c.own(list(r)) if isinstance(r, list) else r)

  @staticmethod
  def model(a, p):
    return _round_expect(a[0], p)


@_reg
class RoundSum(Op):
  name = 'round_sum'
  weight = 2.0

  @staticmethod
  def gen(g):
    x, y = _pair(g)
    if (g.spec(x).get('b') is None) != (g.spec(y).get('b') is None):
      return None
    return [x, y], {'rank': _rank_param(g, x, False)}

  @staticmethod
  def call(c, a, p):
    return c.t3f.round(a[0] + a[1], p['rank'])

  @staticmethod
  def model(a, p):
    s = Dense(dict(a[0].spec), a[0].v + a[1].v)
    e = _round_expect(s, p)
    e.mag = e.mag * 1.0 + (a[0].norm() + a[1].norm()) * (e.mag / s.norm())
    return e


@_reg
class Orthogonalize(Op):
  name = 'orthogonalize_tt_cores'
  weight = 1.5

  @staticmethod
  def gen(g):
    x = g.obj()
    # Right to left is documented as not supported for batches.
    return [x], {'l2r': g.spec(x)['b'] is not None or g.rng.random() < 0.5}

  @staticmethod
  def call(c, a, p):
    return c.t3f.orthogonalize_tt_cores(a[0], left_to_right=p['l2r'])

  @staticmethod
  def model(a, p):
    l2r, is_batch = p['l2r'], a[0].b is not None

    def check(cores):
      todo = cores[:-1] if l2r else cores[1:]
      for core in todo:
        for cc in (core if is_batch else [core]):
          m = cc.reshape(-1, cc.shape[-1]) if l2r else \
              cc.reshape(cc.shape[0], -1).T
          err = np.abs(m.T.dot(m) - np.eye(m.shape[1])).max()
          if not err < 1e-3:
            return 'core is not orthogonal (error %.2g)' % err
      return None

    return tt_expect(a[0], a[0].v, a[0].norm(), check=check)


@_reg
class ToTTTensor(Op):
  name = 'to_tt_tensor'
  weight = 1.5

  @staticmethod
  def gen(g):
    x = g.obj(k='tensor', batch=False)
    return [x], {'rank': _rank_param(g, x), 'np': g.rng.random() < 0.5}

  @staticmethod
  def call(c, a, p):
    d = c.own(np.array(c.dense[0].v, dtype=c.dense[0].spec['dt']))
    r = p['rank']
    r = c.own(list(r)) if isinstance(r, list) else r
    return c.t3f.to_tt_tensor(d if p['np'] else c.tf.constant(d), max_tt_rank=r)

  @staticmethod
  def model(a, p):
    return _round_expect(a[0], p, right_to_left=False)


@_reg
class ToTTMatrix(Op):
  name = 'to_tt_matrix'
  weight = 1.5

  @staticmethod
  def gen(g):
    x = g.obj(k='matrix', batch=False)
    return [x], {'rank': _rank_param(g, x),
                 'none': g.rng.random() < 0.7}

  @staticmethod
  def call(c, a, p):
    m = c.dense[0]
    d = c.own(np.array(m.v, dtype=m.spec['dt']))
    shape = [list(m.shape[0]), list(m.shape[1])]
    if p['none']:
      for i in (0, 1):
        if all(n == 1 for n in shape[i]):
          shape[i] = None
          break
    r = p['rank']
    r = c.own(list(r)) if isinstance(r, list) else r
    return c.t3f.to_tt_matrix(d, c.own(shape), max_tt_rank=r)

  @staticmethod
  def model(a, p):
    return _round_expect(a[0], p, right_to_left=False)


# ------------------------------------------------------------------ indexing
@_reg
class GetItem(Op):
  name = 'getitem'

  @staticmethod
  def gen(g):
    x = g.obj(k='tensor')
    s = g.spec(x)
    idx = []
    if s.get('b') is not None:
      idx.append(g.rng.choice([None, g.rng.randrange(s['b'])]))
    kept = 0
    for n in s['shape'][0]:
      if g.rng.random() < 0.5:
        idx.append(g.rng.randrange(n))
      else:
        lo = g.rng.randrange(n)
        idx.append([lo, g.rng.randint(lo + 1, n)] if g.rng.random() < .5
                   else None)
        kept += 1
    if not kept:
      idx[-1] = None
    return [x], {'idx': idx}

  @staticmethod
  def index(p):
    return tuple(slice(None) if i is None else
                 slice(i[0], i[1]) if isinstance(i, list) else i
                 for i in p['idx'])

  @staticmethod
  def call(c, a, p):
    return a[0][GetItem.index(p)]

  @staticmethod
  def model(a, p):
    value = a[0].v[GetItem.index(p)]
    return Expect(value, a[0].norm(), 'tensor', None)


@_reg
class BatchItem(Op):
  name = 'batch_getitem'

  @staticmethod
  def gen(g):
    x = g.obj(batch=True)
    if x is None:
      return None
    b = g.spec(x)['b']
    i = g.rng.randrange(b)
    if g.rng.random() < 0.4:
      return [x], {'i': [i, g.rng.randint(i + 1, b)]}
    return [x], {'i': i}

  @staticmethod
  def call(c, a, p):
    i = p['i']
    return a[0][i[0]:i[1]] if isinstance(i, list) else a[0][i]

  @staticmethod
  def model(a, p):
    i = p['i']
    v = a[0].v[i[0]:i[1]] if isinstance(i, list) else a[0].v[i]
    return tt_expect(a[0], v, a[0].norm())


# ----------------------------------------------------------------- batch ops
@_reg
class Concat(Op):
  name = 'concat_along_batch_dim'

  @staticmethod
  def gen(g):
    x = g.obj(batch=True)
    if x is None:
      return None
    y = g.obj(like=x, batch=True, same_ranks=True)
    return [x] + [y] * g.rng.choice([0, 1, 1, 2, 2, 4]), {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.concat_along_batch_dim(c.own(list(a)))

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], np.concatenate([x.v for x in a]),
                     sum(x.norm() for x in a))


@_reg
class MulBatch(Op):
  name = 'multiply_along_batch_dim'

  @staticmethod
  def gen(g):
    x = g.obj(batch=True)
    if x is None:
      return None
    return [x], {'w': [g.number() for _ in range(g.spec(x)['b'])],
                 'np': g.rng.random() < 0.5}

  @staticmethod
  def call(c, a, p):
    w = c.own(np.array(p['w']) if p['np'] else list(p['w']))
    return c.t3f.multiply_along_batch_dim(a[0], w)

  @staticmethod
  def model(a, p):
    w = np.array(p['w'])
    return tt_expect(a[0], a[0].v * w.reshape([-1] + [1] * (a[0].v.ndim - 1)),
                     a[0].norm() * (1 + np.abs(w).max()))


@_reg
class Gram(Op):
  name = 'gram_matrix'

  @staticmethod
  def gen(g):
    x = g.obj(batch=True, nofactor=True)
    if x is None:
      return None
    return [x], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.gram_matrix(a[0])

  @staticmethod
  def model(a, p):
    f = _flat(a[0])
    return Expect(f.dot(f.T).squeeze(), a[0].norm() ** 2)


@_reg
class PairwiseInner(Op):
  name = 'pairwise_flat_inner'

  @staticmethod
  def gen(g):
    x = g.obj(batch=True)
    if x is None:
      return None
    y = g.obj(like=x, batch=True)
    return [x, y], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.pairwise_flat_inner(a[0], a[1])

  @staticmethod
  def model(a, p):
    return Expect(_flat(a[0]).dot(_flat(a[1]).T).squeeze(), _nz(*a))


@_reg
class PairwiseMatrix(Op):
  name = 'pairwise_flat_inner_matrix'

  @staticmethod
  def gen(g):
    A = g.obj(k='matrix', batch=False, nonvec=True)
    if A is None:
      return None
    s = g.spec(A)['shape']
    x = g.vec(s[0], batch=True, dt=g.spec(A)['dt'])
    y = g.vec(s[1], batch=True, dt=g.spec(A)['dt'])
    if x is None or y is None:
      return None
    if model.prod(s[0]) == 1 or model.prod(s[1]) == 1:
      return None
    return [x, y, A], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.pairwise_flat_inner(a[0], a[1], a[2])

  @staticmethod
  def model(a, p):
    x, y, A = a
    return Expect(_flat(x).dot(A.v).dot(_flat(y).T).squeeze(), _nz(*a))


# --------------------------------------------------------------- approximate
@_reg
class ApproxAddN(Op):
  name = 'approximate_add_n'
  weight = 1.5

  @staticmethod
  def gen(g):
    x = g.obj(batch=False)
    # The sum of one object is that object (a live view if it is a variable).
    n = g.rng.choice([0 if g.wide else 1, 1, 1, 2, 2, 3, 4, 6])
    xs = [x] + [g.obj(like=x, batch=False) for _ in range(n)]
    return xs, {'rank': g.rng.choice([40, 40, 40, 1, 2, 3])}

  @staticmethod
  def call(c, a, p):
    return c.t3f.approximate.add_n(c.own(list(a)), p['rank'])

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], sum(x.v for x in a), sum(x.norm() for x in a) *
                     (1 if p['rank'] == 40 else 1e3))


@_reg
class ReduceSumBatch(Op):
  name = 'approximate_reduce_sum_batch'
  weight = 1.5

  @staticmethod
  def gen(g):
    x = g.obj(batch=True)
    if x is None:
      return None
    b = g.spec(x)['b']
    mode = g.rng.choice(['none', 'vec', 'mat'])
    p = {'rank': g.rng.choice([40, 40, 40, 1, 2, 3]), 'mode': mode,
         'np': g.rng.random() < 0.5}
    if mode == 'vec':
      p['coef'] = [g.number() for _ in range(b)]
    elif mode == 'mat':
      n = g.rng.randint(2, 3)
      p['coef'] = [[g.number() for _ in range(n)] for _ in range(b)]
    return [x], p

  @staticmethod
  def call(c, a, p):
    coef = None
    if p['mode'] != 'none':
      coef = c.own(np.array(p['coef']) if p['np'] else
                   [list(r) if isinstance(r, list) else r for r in p['coef']])
    return c.t3f.approximate.reduce_sum_batch(a[0], p['rank'], coef)

  @staticmethod
  def model(a, p):
    v = a[0].v
    if p['mode'] == 'none':
      res, m = v.sum(0), 1.0
    else:
      w = np.array(p['coef'])
      m = 1 + np.abs(w).max()
      res = np.tensordot(w.T, v, 1)
    return tt_expect(a[0], res, a[0].norm() * m * (3 if p['rank'] == 40
                                                   else 3e3))


# ----------------------------------------------------------------- kronecker
def _kron(g):
  return g.obj(kron=True)


@_reg
class KronDet(Op):
  name = 'kronecker_determinant'

  @staticmethod
  def gen(g):
    x = _kron(g)
    return None if x is None else ([x], {})

  @staticmethod
  def call(c, a, p):
    return c.t3f.kronecker.determinant(a[0])

  @staticmethod
  def model(a, p):
    d = np.linalg.det(a[0].v)
    return Expect(d, np.abs(d).max() + 1, fuzzy=np.abs(d).max() > 1e30)


@_reg
class KronSlog(Op):
  name = 'kronecker_slog_determinant'

  @staticmethod
  def gen(g):
    x = _kron(g)
    return None if x is None else ([x], {})

  @staticmethod
  def call(c, a, p):
    return list(c.t3f.kronecker.slog_determinant(a[0]))

  @staticmethod
  def model(a, p):
    s, l = np.linalg.slogdet(a[0].v)
    return Expect([s, l], np.abs(l).max() + 1, kind='list')


@_reg
class KronInv(Op):
  name = 'kronecker_inv'

  @staticmethod
  def gen(g):
    x = _kron(g)
    return None if x is None else ([x], {})

  @staticmethod
  def call(c, a, p):
    return c.t3f.kronecker.inv(a[0])

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], np.linalg.inv(a[0].v), 10.0)


@_reg
class KronChol(Op):
  name = 'kronecker_cholesky'

  @staticmethod
  def gen(g):
    x = _kron(g)
    return None if x is None else ([x], {})

  @staticmethod
  def call(c, a, p):
    return c.t3f.kronecker.cholesky(a[0])

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], np.linalg.cholesky(a[0].v), a[0].norm())


# ---------------------------------------------------------------- riemannian
def _proj(where):
  return model.tangent_projector(where.modes(), where.ranks)


def _proj_all(where, what):
  pr = _proj(where)
  res = []
  for i in (range(what.b) if what.b is not None else [None]):
    res.append(model.from_modes(pr(what.modes(i)), where.shape,
                                where.is_matrix))
  return np.stack(res) if what.b is not None else res[0]


def _cond(where):
  """Conditioning of the tangent space: smallest relevant singular value."""
  x = where.modes()
  worst = 1.0
  for k in range(1, x.ndim):
    s = np.linalg.svd(x.reshape(model.prod(x.shape[:k]), -1), compute_uv=False)
    worst = min(worst, s[where.ranks[k] - 1] / max(s[0], 1e-300))
  return worst


def _riem_expect(where, value, mag, **kw):
  cond = _cond(where)
  return tt_expect(where, value, mag / max(cond, 1e-9), fuzzy=cond < 1e-3, **kw)


@_reg
class Project(Op):
  name = 'project'
  weight = 2.0

  @staticmethod
  def gen(g):
    w = g.obj(batch=False, base=True)
    x = g.obj(like=w)
    return [x, w], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.project(a[0], a[1])

  @staticmethod
  def model(a, p):
    return _riem_expect(a[1], _proj_all(a[1], a[0]), a[0].norm())


@_reg
class ProjectSum(Op):
  name = 'project_sum'
  weight = 1.5

  @staticmethod
  def gen(g):
    w = g.obj(batch=False, base=True)
    x = g.obj(like=w, batch=True)
    if x is None:
      return None
    p = {'w': None, 'np': g.rng.random() < 0.5}
    if g.rng.random() < 0.6:
      p['w'] = [g.number() for _ in range(g.spec(x)['b'])]
      if g.rng.random() < 0.4:
        n = g.rng.randint(2, 3)
        p['w'] = [[g.number() for _ in range(n)] for _ in p['w']]
    return [x, w], p

  @staticmethod
  def call(c, a, p):
    if p['w'] is None:
      return c.t3f.project_sum(a[0], a[1])
    w = c.own(np.array(p['w']) if p['np'] else
              [list(r) if isinstance(r, list) else r for r in p['w']])
    return c.t3f.project_sum(a[0], a[1], w)

  @staticmethod
  def model(a, p):
    w = np.ones(a[0].b) if p['w'] is None else np.array(p['w'])
    v = np.tensordot(w.T, _proj_all(a[1], a[0]), 1)
    return _riem_expect(a[1], v, a[0].norm() * (1 + np.abs(w).max()))


@_reg
class ProjectMatmul(Op):
  name = 'project_matmul'
  weight = 1.5

  @staticmethod
  def gen(g):
    A = g.obj(k='matrix', batch=False, square=True)
    if A is None:
      return None
    s = g.spec(A)['shape']
    w = g.vec(s[0], batch=False, base=True, dt=g.spec(A)['dt'])
    x = g.vec(s[1], batch=True, dt=g.spec(A)['dt'])
    if w is None or x is None:
      return None
    return [x, w, A], {}

  @staticmethod
  def call(c, a, p):
    return c.t3f.project_matmul(a[0], a[1], a[2])

  @staticmethod
  def model(a, p):
    x, w, A = a
    y = Dense(dict(x.spec, shape=w.shape), np.matmul(A.v, x.v))
    return _riem_expect(w, _proj_all(w, y), _nz(x, A))


@_reg
class PairwiseProjected(Op):
  name = 'pairwise_flat_inner_projected'
  weight = 1.5

  @staticmethod
  def gen(g):
    w = g.obj(batch=False, base=True)
    x = g.obj(like=w, batch=True)
    y = g.obj(like=w, batch=True)
    if x is None or y is None:
      return None
    return [x, y, w], {}

  @staticmethod
  def call(c, a, p):
    t = c.t3f
    return t.pairwise_flat_inner_projected(t.project(a[0], a[2]),
                                           t.project(a[1], a[2]))

  @staticmethod
  def model(a, p):
    x = _proj_all(a[2], a[0]).reshape(a[0].b, -1)
    y = _proj_all(a[2], a[1]).reshape(a[1].b, -1)
    cond = _cond(a[2])
    return Expect(x.dot(y.T), _nz(a[0], a[1]) / max(cond, 1e-9),
                  fuzzy=cond < 1e-3)


@_reg
class AddNProjected(Op):
  name = 'add_n_projected'
  weight = 1.5

  @staticmethod
  def gen(g):
    w = g.obj(batch=False, base=True)
    n = g.rng.randint(2, 3)
    xs = [g.obj(like=w, batch=False) for _ in range(n)]
    coef = [g.number() for _ in range(n)] if g.rng.random() < 0.6 else None
    return xs + [w], {'coef': coef}

  @staticmethod
  def call(c, a, p):
    ps = c.own([c.t3f.project(x, a[-1]) for x in a[:-1]])
    coef = None if p['coef'] is None else c.own(list(p['coef']))
    return c.t3f.add_n_projected(ps, coef)

  @staticmethod
  def model(a, p):
    w = a[-1]
    coef = p['coef'] or [1.0] * (len(a) - 1)
    v = sum(k * _proj_all(w, x) for k, x in zip(coef, a[:-1]))
    return _riem_expect(w, v, sum(x.norm() for x in a) *
                        (1 + max(abs(k) for k in coef)))


@_reg
class TangentDeltas(Op):
  name = 'tangent_space_to_deltas'

  @staticmethod
  def gen(g):
    w = g.obj(batch=False, base=True)
    x = g.obj(like=w, batch=False)
    return [x, w], {}

  @staticmethod
  def call(c, a, p):
    deltas = c.t3f.tangent_space_to_deltas(c.t3f.project(a[0], a[1]))
    res = c.tf.add_n([c.tf.reduce_sum(d ** 2) for d in deltas])
    if isinstance(deltas, list):
      deltas[:] = []
    return res

  @staticmethod
  def model(a, p):
    v = _proj_all(a[1], a[0])
    cond = _cond(a[1])
    return Expect((v ** 2).sum(), a[0].norm() ** 2 / max(cond, 1e-9),
                  fuzzy=cond < 1e-3)


@_reg
class TangentDeltasList(Op):
  # The list itself, so that its later fate is observed.
  name = 'tangent_space_to_deltas_list'
  gen = staticmethod(TangentDeltas.gen)

  @staticmethod
  def call(c, a, p):
    return c.t3f.tangent_space_to_deltas(c.t3f.project(a[0], a[1]))

  @staticmethod
  def model(a, p):
    return Expect(None, a[0].norm() / max(_cond(a[1]), 1e-9), 'list',
                  fuzzy=_cond(a[1]) < 1e-3)


# ------------------------------------------------------------------ autodiff
def _egrad(p, x, t):
  """Dense gradient, and Hessian as a function, of the test functions."""
  if p['f'] == 'inner_sq':
    ip = (x * t).sum()
    return ip * t, lambda v: (t * v).sum() * t
  if p['f'] == 'inner':
    return t, lambda v: np.zeros_like(v)
  if p['f'] == 'norm':
    return x, lambda v: v
  if p['f'] == 'shifted':
    return x - t, lambda v: v
  raise ValueError(p['f'])


def _func(c, p, t):
  t3f = c.t3f
  cb = c.callback

  def f(x):
    cb(x, t)
    if p['f'] == 'inner_sq':
      return 0.5 * t3f.flat_inner(x, t) ** 2
    if p['f'] == 'inner':
      return t3f.flat_inner(x, t)
    if p['f'] == 'norm':
      return 0.5 * t3f.frobenius_norm_squared(x, differentiable=True)
    if p['f'] == 'cores':
      # Depends on the representation: must be refused.
      return c.tf.reduce_sum(x.tt_cores[0] ** 2)
    return 0.5 * t3f.frobenius_norm_squared(x - t, differentiable=True)

  return f


@_reg
class Gradients(Op):
  name = 'gradients'
  weight = 2.0
  has_callback = True

  @staticmethod
  def gen(g):
    w = g.obj(batch=False, base=True, nonscalar=True)
    if w is None:
      return None
    t = g.obj(like=w, batch=False)
    f = g.rng.choice(['inner_sq', 'inner', 'norm', 'shifted', 'cores'])
    if f == 'cores':
      return [w, t], {'f': f, 'check': True}
    # The relative run-time check is meaningless for a function value of 0.
    return [w, t], {'f': f, 'check': g.rng.random() < 0.5 and
                    (f != 'shifted' or t != w)}

  @staticmethod
  def call(c, a, p):
    return c.t3f.gradients(_func(c, p, a[1]), a[0], runtime_check=p['check'])

  @staticmethod
  def model(a, p):
    w, t = a
    grad, _ = _egrad(p, w.v, t.v)
    z = Dense(dict(w.spec), grad.copy())
    return _riem_expect(w, _proj_all(w, z), (w.norm() * t.norm()) ** 2)


@_reg
class Hessian(Op):
  name = 'hessian_vector_product'
  weight = 1.5
  has_callback = True

  @staticmethod
  def gen(g):
    w = g.obj(batch=False, base=True, nonscalar=True)
    if w is None:
      return None
    t = g.obj(like=w, batch=False)
    v = g.obj(like=w, batch=False)
    f = g.rng.choice(['inner_sq', 'norm', 'shifted', 'cores'])
    if f == 'cores':
      return [w, t, v], {'f': f, 'check': True}
    return [w, t, v], {'f': f, 'check': g.rng.random() < 0.5 and
                       (f != 'shifted' or t != w)}

  @staticmethod
  def call(c, a, p):
    return c.t3f.hessian_vector_product(_func(c, p, a[1]), a[0], a[2],
                                        runtime_check=p['check'])

  @staticmethod
  def model(a, p):
    w, t, v = a
    _, hess = _egrad(p, w.v, t.v)
    pv = _proj_all(w, v)
    z = Dense(dict(w.spec), np.array(hess(pv)))
    return _riem_expect(w, _proj_all(w, z),
                        (w.norm() * t.norm()) ** 2 * v.norm())


# -------------------------------------------------------------- initializers
@_reg
class Like(Op):
  name = 'like'

  @staticmethod
  def gen(g):
    return [g.obj(batch=False)], {'one': g.rng.random() < 0.5}

  @staticmethod
  def call(c, a, p):
    return (c.t3f.ones_like if p['one'] else c.t3f.zeros_like)(a[0])

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], np.full(a[0].v.shape, float(p['one'])), 1.0)


@_reg
class Constants(Op):
  name = 'constants'

  @staticmethod
  def gen(g):
    x = g.obj(batch=False)
    return [x], {'what': g.rng.choice(['ones', 'zeros', 'eye']),
                 'form': g.rng.choice(['list', 'tuple', 'np']),
                 'none': g.rng.random() < 0.7}

  @staticmethod
  def call(c, a, p):
    m = c.dense[0]
    dt = getattr(c.tf, m.spec['dt'])

    def form(x):
      if p['form'] == 'np':
        return c.own(np.array(x))
      if p['form'] == 'tuple':
        return tuple(tuple(y) if isinstance(y, list) else y for y in x)
      return c.own([list(y) if isinstance(y, list) else y for y in x])

    if p['what'] == 'eye':
      return c.t3f.eye(form(m.shape[0]), dtype=dt)
    if not m.is_matrix:
      f = c.t3f.tensor_ones if p['what'] == 'ones' else c.t3f.tensor_zeros
      return f(form(m.shape[0]), dtype=dt)
    shape = [list(m.shape[0]), list(m.shape[1])]
    if p['none'] and p['form'] == 'list':
      for i in (0, 1):
        if all(n == 1 for n in shape[i]):
          shape[i] = None
          break
    f = c.t3f.matrix_ones if p['what'] == 'ones' else c.t3f.matrix_zeros
    return f(form(shape), dtype=dt)

  @staticmethod
  def model(a, p):
    if p['what'] == 'eye':
      n = model.prod(a[0].shape[0])
      return Expect(np.eye(n), 1.0, 'matrix', [a[0].shape[0], a[0].shape[0]])
    return tt_expect(a[0], np.full(a[0].v.shape, float(p['what'] == 'ones')),
                     1.0)


# -------------------------------------------------------------------- shapes
def spoil(x):
  """What the library returned belongs to the caller, who overwrites it."""
  if isinstance(x, (list, tuple)):
    for y in x:
      spoil(y)
  if isinstance(x, list):
    x[:] = [None] * (len(x) + 1)
  elif isinstance(x, np.ndarray) and x.flags.writeable:
    x[...] = 99


@_reg
class Shapes(Op):
  name = 'shapes'
  weight = 1.5

  @staticmethod
  def gen(g):
    return [g.obj()], {}

  @staticmethod
  def call(c, a, p):
    t = c.t3f
    x = a[0]
    got = [t.shape(x), t.tt_ranks(x), t.raw_shape(x),
           t.lazy_shape(x), t.lazy_tt_ranks(x), t.lazy_raw_shape(x)]
    res = [got[0], got[1], got[2][0], got[2][-1], list(got[3]), list(got[4]),
           list(got[5][0]), list(got[5][-1])]
    if c.dense[0].b is not None:
      res += [t.batch_size(x), t.lazy_batch_size(x)]
    res = [np.array(r) for r in res]
    for r in got:
      spoil(r)
    return res

  @staticmethod
  def model(a, p):
    x = a[0]
    if x.ranks is None:
      return Expect([], kind='list', fuzzy=True)
    sh = list(x.v.shape)
    res = [sh, x.ranks, x.shape[0], x.shape[-1]] * 2
    if x.b is not None:
      res += [x.b, x.b]
    return Expect([np.array(r, dtype=float) for r in res], 1.0, kind='list')


@_reg
class ExpandSqueeze(Op):
  name = 'expand_squeeze_batch_dim'

  @staticmethod
  def gen(g):
    return [g.obj(batch=False)], {'squeeze': g.rng.random() < 0.5}

  @staticmethod
  def call(c, a, p):
    r = c.t3f.expand_batch_dim(a[0])
    return c.t3f.squeeze_batch_dim(r) if p['squeeze'] else r

  @staticmethod
  def model(a, p):
    v = a[0].v if p['squeeze'] else a[0].v[None]
    return tt_expect(a[0], v.copy(), a[0].norm())


_calling = {}


def _or_zero(r):
  return np.array(0.) if r is None else r


@_reg
class L2Reg(Op):
  name = 'l2_regularizer'

  @staticmethod
  def gen(g):
    return [g.obj(batch=False)], {'s': g.rng.choice([0.1, 0.5, 2.0, 0.0]),
                                  'scope': g.rng.choice([None, None, 'reg']),
                                  'shared': g.rng.random() < 0.5}

  @staticmethod
  def call(c, a, p):
    make = lambda: c.t3f.l2_regularizer(p['s'], p['scope'])
    reg = c.shared(('l2', p['s'], p['scope']), make) if p['shared'] else make()
    return _or_zero(reg(a[0]))

  @staticmethod
  def model(a, p):
    return Expect(p['s'] * (a[0].v ** 2).sum(), a[0].norm() ** 2 * (1 + p['s']))


@_reg
class CoresReg(Op):
  name = 'cores_regularizer'
  has_callback = True

  @staticmethod
  def gen(g):
    return [g.obj(batch=False, has_cores=True)], {
        's': g.rng.choice([0.1, 2.0, 0.0]),
        'scope': g.rng.choice([None, None, 'reg']),
        'shared': g.rng.random() < 0.5}

  @staticmethod
  def call(c, a, p):
    tf = c.tf
    me = threading.get_ident()

    def core_reg(core):
      # A shared regularizer: the call of this thread that is innermost.
      _calling[threading.get_ident()][-1].callback(a[0], a[0])
      return tf.reduce_sum(core ** 2)

    make = lambda: c.t3f.cores_regularizer(core_reg, p['s'], p['scope'])
    reg = c.shared(('cores', p['s'], p['scope']), make) if p['shared'] \
        else make()
    _calling.setdefault(me, []).append(c)
    try:
      return _or_zero(reg(a[0]))
    finally:
      _calling[me].pop()
      if not _calling[me]:
        del _calling[me]

  @staticmethod
  def model(a, p):
    cores = model.make_cores(a[0].spec)
    v = p['s'] * sum((x.astype(np.float64) ** 2).sum() for x in cores)
    return Expect(v, abs(v) + 1)


@_reg
class Construct(Op):
  """TensorTrain / TensorTrainBatch built by the caller from its own lists."""
  name = 'construct'

  @staticmethod
  def gen(g):
    return [g.obj(has_cores=True)], {'args': g.rng.random() < 0.6,
                                     'np': g.rng.random() < 0.5}

  @staticmethod
  def call(c, a, p):
    s = c.dense[0].spec
    cores = c.own(model.make_cores(s))
    if not p['np']:
      cores = [c.tf.constant(x) for x in cores]
      c.own(cores)
    kw = {}
    if p['args']:
      shape = [list(x) for x in s['shape']]
      kw['shape'] = c.own(shape if s['k'] == 'matrix' else shape[0])
      kw['tt_ranks'] = c.own(list(s['ranks']))
    if s.get('b') is not None:
      return c.t3f.TensorTrainBatch(cores, **kw)
    return c.t3f.TensorTrain(cores, **kw)

  @staticmethod
  def model(a, p):
    return tt_expect(a[0], a[0].v, a[0].norm())


# --------------------------------------------------- less usual ways of calling
@_reg
class Unsupported(Op):
  """Combinations that the library documents but refuses."""
  name = 'unsupported'
  weight = 0.3

  @staticmethod
  def gen(g):
    return [g.obj()], {'what': g.rng.choice(
        ['inner dense', 'dense inner', 'sparse inner', 'sparse matmul',
         'matmul sparse', 'matmul list', 'multiply str', 'not kron',
         'orth batch'])}

  @staticmethod
  def call(c, a, p):
    t, tf, x = c.t3f, c.tf, a[0]
    v = tf.constant(np.array(c.dense[0].v, dtype=c.dense[0].spec['dt']))
    what = p['what']
    if what == 'inner dense':
      return t.flat_inner(x, v)
    if what == 'dense inner':
      return t.flat_inner(v, x)
    if what == 'matmul list':
      return t.matmul(x, c.own([1., 2.]))
    if what == 'multiply str':
      return t.multiply(x, 'x')
    if what == 'not kron':
      return t.kronecker.determinant(x)
    if what == 'orth batch':
      return t.orthogonalize_tt_cores(x, left_to_right=False)
    sp = tf.sparse.from_dense(v)
    if what == 'sparse inner':
      return t.flat_inner(sp, x)
    if what == 'sparse matmul':
      return t.matmul(sp, x)
    return t.matmul(x, sp)

  @staticmethod
  def model(a, p):
    return Expect(np.zeros(1), a[0].norm() ** 2, fuzzy=False)


@_reg
class Methods(Op):
  """What a TT object tells about itself."""
  name = 'methods'

  @staticmethod
  def gen(g):
    return [g.obj()], {}

  @staticmethod
  def call(c, a, p):
    x = a[0]

    def static(s):
      return [-1 if n is None else n for n in s.as_list()]

    res = [static(x.get_shape()), static(x.get_tt_ranks()), x.ndims(),
           x.is_tt_matrix(), x.left_tt_rank_dim,
           [len(x.tt_cores), x.dtype.size], len(x.get_raw_shape())]
    res += [static(s) for s in x.get_raw_shape()]
    text = str(x).replace(' ', '')
    res.append([text.count(str(n)) for n in range(10)])
    if c.dense[0].b is not None:
      res.append(-1 if x.batch_size is None else x.batch_size)
    return [np.array(r) for r in res]

  @staticmethod
  def model(a, p):
    return Expect([], kind='list', fuzzy=False)


@_reg
class Variables(Op):
  """A variable of the calling thread: created, assigned, read."""
  name = 'variable'
  eager_only = True

  @staticmethod
  def gen(g):
    x = g.obj(base=True)
    y = g.obj(like=x, batch=g.spec(x)['b'] is not None, same_ranks=True)
    if y is None:
      return None
    return [x, y], {'name': g.rng.choice(['v', 'w', 'a/v']),
                    'times': g.rng.randint(0, 2)}

  @staticmethod
  def call(c, a, p):
    t = c.t3f
    v = t.get_variable(p['name'], initializer=a[0])
    res = [t.full(v)]
    for k in range(p['times']):
      r = t.assign(v, a[1 - k % 2])
      res += [t.full(v), t.full(r)]
    return res

  @staticmethod
  def model(a, p):
    return Expect([], a[0].norm() + a[1].norm(), kind='list')


@_reg
class Utils(Op):
  name = 'utils'
  weight = 0.5

  @staticmethod
  def gen(g):
    return [g.obj(k='tensor', batch=False)], {'seed': g.seed(),
                                              'n': g.rng.randint(1, 4)}

  @staticmethod
  def call(c, a, p):
    rs = np.random.RandomState(p['seed'])
    shape = c.dense[0].v.shape
    lin = rs.randint(0, model.prod(shape), p['n'])
    x = c.t3f.utils.unravel_index(c.tf.constant(lin),
                                  c.tf.constant(np.array(shape)))
    y = c.t3f.utils.robust_cumprod(c.tf.constant(rs.randint(1, 5, p['n'])))
    return [x, y]

  @staticmethod
  def model(a, p):
    return Expect([], 1.0, kind='list')


@_reg
class Layer(Op):
  """A layer with given weights, applied once."""
  name = 'layer'
  weight = 0.4
  advances_rng = True
  eager_only = True

  @staticmethod
  def gen(g):
    return [g.obj(k='matrix', batch=False, base=True)], {
        'seed': g.seed(), 'n': g.rng.randint(1, 3),
        'bias': g.rng.random() < 0.6,
        'act': g.rng.choice([None, 'relu', 'tanh'])}

  @staticmethod
  def call(c, a, p):
    m = c.dense[0]
    rs = np.random.RandomState(p['seed'])
    dims = c.own([list(m.shape[0]), list(m.shape[1])])
    layer = c.t3f.nn.KerasDense(dims[0], dims[1], tt_rank=2,
                                use_bias=p['bias'], activation=p['act'])
    for v in layer.matrix.tt_cores:
      v.assign(rs.randn(*v.shape.as_list()).astype('float32'))
    if p['bias']:
      layer.b.assign(rs.randn(*layer.b.shape.as_list()).astype('float32'))
    x = rs.randn(p['n'], model.prod(m.shape[0])).astype('float32')
    return layer(c.tf.constant(x))

  @staticmethod
  def model(a, p):
    return Expect(np.zeros(1), 1e4)
