"""Plan generation and execution helpers shared by the checks."""
import weakref

import numpy as np

from sim import catalog
from sim import focus as focus_lib
from sim import model
from sim.catalog import CATALOG, Dense


# --------------------------------------------------------------- generation
class Gen(object):
  """Random universe of compatible objects plus a call generator."""

  def __init__(self, rng, dtype=None, allow_f32=True, d=None, wide=False, focus=True):
    self.rng = rng
    self.focus = focus_lib.ops() if focus else []
    if self.focus and rng.random() < 0.5:
      self.focus = []
    self.wide = wide
    self.d = d or rng.choice([2, 2, 3, 3, 3, 3, 3, 4, 4] +
                             ([5, 6, 8, 1] if wide else []))
    d = self.d
    hi = {1: 9, 2: 5, 3: 4, 4: 3}.get(d, 2)
    self.top = 3
    side = 3 if d < 5 else 2
    if d in (2, 3) and rng.random() < 0.08:
      hi, side, self.top = 12 // (d - 1), 4, 7
    self.dt = dtype or ('float32' if allow_f32 and rng.random() < 0.15
                        else 'float64')
    self.n = [rng.randint(2, hi) for _ in range(d)]      # tensor modes
    if rng.random() < 0.1:
      self.n[rng.randrange(d)] = 1
    self.rows = [rng.randint(1, side) for _ in range(d)]
    self.cols = [rng.randint(1, side) for _ in range(d)]
    if d > 6:
      # Long trains, but still few entries.
      for x, k in ((self.n, 8), (self.rows, 3), (self.cols, 3)):
        for i in rng.sample(range(d), max(0, d - k)):
          x[i] = 1
    if model.prod(self.rows) == 1:
      self.rows[0] = 2
    if model.prod(self.cols) == 1:
      self.cols[0] = 2
    self.b = rng.choice([2, 2, 3, 3, 5])
    if rng.random() < 0.05 and d < 6 and self.top == 3:
      self.b = rng.choice([8, 12, 20])
    self.specs = {}
    self._universe()

  def seed(self):
    return self.rng.randrange(2 ** 31)

  def number(self):
    if self.rng.random() < 0.12:
      return self.rng.choice([1., 1., -1., 2., 1])
    return round(self.rng.choice([-1, 1]) * self.rng.uniform(0.2, 2.0), 3)

  def ranks(self, modes):
    d = len(modes)
    r = [1] * (d + 1)
    for i in range(1, d):
      cap = min(self.top, r[i - 1] * modes[i - 1], model.prod(modes[i:]))
      r[i] = self.rng.randint(1, max(1, cap))
    for i in range(d - 1, 0, -1):
      r[i] = min(r[i], r[i + 1] * modes[i])
    return r

  def add(self, id_, k, shape, b=None, ranks=None, spd=False, dt=None):
    modes = shape[0] if k == 'tensor' else [
        m * n for m, n in zip(shape[0], shape[1])]
    if ranks is None:
      ranks = self.ranks(modes)
    s = {'id': id_, 'k': k, 'b': b, 'shape': [list(x) for x in shape],
         'ranks': list(ranks), 'dt': dt or self.dt, 'seed': self.seed()}
    if spd:
      s['spd'] = True
    self.specs[id_] = s
    return s

  def twin(self, id_, of, dt=None):
    s = dict(self.specs[of])
    s['id'] = id_
    s['seed'] = self.seed()
    s['dt'] = dt or s['dt']
    self.specs[id_] = s

  def _universe(self):
    ones = [1] * self.d
    self.add('x0', 'tensor', [self.n])
    self.twin('x1', 'x0')           # same layout, other values
    self.add('x2', 'tensor', [self.n])
    self.add('xb0', 'tensor', [self.n], self.b)
    self.twin('xb1', 'xb0')
    if self.rng.random() < 0.4:
      self.add('xo0', 'tensor', [self.n], 1)
      self.add('Ao0', 'matrix', [self.rows, self.cols], 1)
    self.add('A0', 'matrix', [self.rows, self.cols])
    self.twin('A1', 'A0')
    self.add('Ab0', 'matrix', [self.rows, self.cols], self.b)
    self.add('S0', 'matrix', [self.cols, self.cols])
    self.add('v0', 'matrix', [self.cols, ones])
    self.twin('v1', 'v0')
    self.add('vb0', 'matrix', [self.cols, ones], self.b)
    self.add('u0', 'matrix', [self.rows, ones])
    self.add('ub0', 'matrix', [self.rows, ones], self.b)
    self.add('w0', 'matrix', [ones, self.cols])
    km = [self.rng.randint(1, 3 if self.d < 5 else 2) if i < 6 else 1
          for i in range(self.d)]
    self.add('K0', 'matrix', [km, km], ranks=[1] * (self.d + 1), spd=True)
    self.twin('K1', 'K0')
    self.add('Kb0', 'matrix', [km, km], self.b, ranks=[1] * (self.d + 1),
             spd=True)
    # Objects of the same kind but a different layout.
    n2 = [self.rng.randint(2, 3) if i < 6 else 1 for i in range(self.d)]
    self.add('y0', 'tensor', [n2])
    self.twin('y1', 'y0')
    if self.wide and self.rng.random() < 0.4:
      # Objects of the same layout but another element type.
      dt = 'float32' if self.dt == 'float64' else 'float64'
      for of in ('x0', 'x1', 'xb0', 'A0', 'S0', 'v0', 'v1', 'vb0', 'K0'):
        self.twin('%s_%s' % (of, dt), of, dt)

  def twin_of(self, id_):
    """Another object of the same layout, if there is one."""
    s = self.specs[id_]
    same = [i for i, t in self.specs.items() if i != id_ and all(
        t.get(k) == s.get(k) for k in ('k', 'b', 'shape', 'ranks', 'dt', 'spd',
                                       'derived'))]
    return self.rng.choice(same) if same else id_

  def spec(self, id_):
    return self.specs[id_]

  def obj(self, k=None, batch=None, like=None, rows=None, dt=None, kron=False,
          square=False, base=False, same_ranks=False, nofactor=False,
          nonvec=False, nonscalar=False, has_cores=False):
    ok = []
    if like is not None:
      dt = self.specs[like]['dt']
    for id_, s in self.specs.items():
      if dt is not None and s['dt'] != dt:
        continue
      if s.get('derived') and (base or same_ranks or has_cores):
        continue
      if k and s['k'] != k:
        continue
      if batch is not None and (s['b'] is not None) != batch:
        continue
      if like is not None:
        l = self.specs[like]
        if s['k'] != l['k'] or s['shape'] != l['shape']:
          continue
        if s['b'] is not None and l['b'] is not None and s['b'] != l['b'] \
            and batch is None and 1 not in (s['b'], l['b']):
          continue
        if same_ranks and s['ranks'] != l['ranks']:
          continue
      if rows is not None and s['shape'][0] != list(rows):
        continue
      if kron and not s.get('spd'):
        continue
      if (square or nonvec) and s['k'] == 'matrix':
        if square and s['shape'][0] != s['shape'][1]:
          continue
        if nonvec and (model.prod(s['shape'][0]) == 1 or
                       model.prod(s['shape'][1]) == 1):
          continue
      ok.append(id_)
    if not ok:
      return None
    return self.rng.choice(ok)

  def vec(self, rows, batch=None, base=False, dt=None):
    ok = [i for i, s in self.specs.items()
          if (dt is None or s['dt'] == dt) and s['k'] == 'matrix' and s['shape'][0] == list(rows) and
          all(c == 1 for c in s['shape'][1]) and
          (batch is None or (s['b'] is not None) == batch) and
          not (base and s.get('derived'))]
    return self.rng.choice(ok) if ok else None

  def call(self, names=None, exact=False):
    """A random call instance {'op','a','p'}."""
    if self.focus and not (names and exact) and self.rng.random() < 0.8:
      names = self.focus
    names = names or list(CATALOG)
    weights = [CATALOG[n].weight for n in names]
    for _ in range(50):
      name = self.rng.choices(names, weights)[0]
      got = CATALOG[name].gen(self)
      if got is None or any(x is None for x in got[0]):
        continue
      return {'op': name, 'a': got[0], 'p': got[1]}
    return {'op': 'full', 'a': [self.obj()], 'p': {}}


def used_specs(specs, calls):
  ids = []
  for c in calls:
    for i in c['a']:
      if i not in ids:
        ids.append(i)
  return [specs[i] for i in ids]


# ---------------------------------------------------------------- execution
def build(t3f, spec, how=0):
  """Creates the real TT object and its model."""
  cores = model.make_cores(spec)
  cls = t3f.TensorTrainBatch if spec['b'] is not None else t3f.TensorTrain
  kw = {}
  if how % 2:
    shape = spec['shape']
    kw['shape'] = tuple(map(tuple, shape)) if spec['k'] == 'matrix' else \
        tuple(shape[0])
    kw['tt_ranks'] = tuple(spec['ranks'])
  tt = cls(cores, **kw)
  value = model.dense_from_cores(cores, spec['k'] == 'matrix',
                                 spec['b'] is not None)
  return tt, Dense(spec, value)


def build_dense(spec, cores=None):
  cores = model.make_cores(spec) if cores is None else cores
  return Dense(spec, model.dense_from_cores(cores, spec['k'] == 'matrix',
                                            spec['b'] is not None))


_shared = weakref.WeakKeyDictionary()


class CallEnv(object):
  """What a catalogue entry needs to perform a call."""

  def __init__(self, t3f, tf, dense, callback=None):
    self.t3f = t3f
    self.tf = tf
    self.dense = dense
    self.owned = []
    self._callback = callback

  def own(self, container):
    """Registers a caller-owned container handed to the library."""
    self.owned.append(container)
    return container

  def shared(self, key, make):
    """An object of the caller that all calls of this library instance use."""
    table = _shared.setdefault(self.t3f, {})
    if key not in table:
      table[key] = make()
    return table[key]

  def callback(self, x, t):
    if self._callback is not None:
      self._callback(x, t)


TOL = {'float64': 1e-6, 'float32': 1e-2}


def is_tt(x):
  return hasattr(x, 'tt_cores')


def to_numpy(result):
  """Library result -> ('tt', cores, meta) | ('dense', array) | ('list', [...])."""
  if is_tt(result):
    return 'tt', [np.array(c) for c in result.tt_cores]
  if isinstance(result, (list, tuple)):
    return 'list', [np.array(r) for r in result]
  return 'dense', np.array(result)


def result_value(result, expect):
  """Dense value of a library result (for later re-reads)."""
  kind, val = to_numpy(result)
  if kind == 'tt':
    is_batch = hasattr(result, 'batch_size')
    return model.dense_from_cores(val, result.is_tt_matrix(), is_batch)
  return val


def _close(got, want, mag, dt):
  got = np.asarray(got, dtype=np.float64)
  want = np.asarray(want, dtype=np.float64)
  if got.shape != want.shape:
    if got.size != want.size or \
        [n for n in got.shape if n != 1] != [n for n in want.shape if n != 1]:
      return 'shape %s instead of %s' % (got.shape, want.shape)
    got = got.reshape(want.shape)
  if got.size == 0:
    return None
  if not np.all(np.isfinite(got)):
    return 'value is not finite'
  scale = max(float(np.abs(want).max()), 1e-3) + (mag or 0.0)
  err = float(np.abs(got - want).max())
  if not err <= TOL[dt] * scale:
    return 'value differs from the model by %.3g (scale %.3g)' % (err, scale)
  return None


def compare(result, expect, dt):
  """None if `result` is what the model expects, else a message."""
  kind, val = to_numpy(result)
  if expect.kind in ('tensor', 'matrix'):
    if kind != 'tt':
      return 'result is not a TT object'
    if result.is_tt_matrix() != (expect.kind == 'matrix'):
      return 'TT-matrix / TT-tensor confusion'
    is_batch = hasattr(result, 'batch_size')
    want = expect.value
    nd = 2 if expect.kind == 'matrix' else len(result.get_raw_shape()[0])
    if is_batch != (want.ndim == nd + 1):
      return 'batch / non-batch confusion'
    d = len(val)
    off = 1 if is_batch else 0
    for i, c in enumerate(val):
      for j, rs in enumerate(result.get_raw_shape()):
        if rs[i] is not None and c.shape[1 + off + j] != rs[i]:
          return 'declared shape does not match the cores'
      r = result.get_tt_ranks()
      if r is not None and r.rank is not None:
        if (r[i] is not None and r[i] != c.shape[off]) or \
            (r[i + 1] is not None and r[i + 1] != c.shape[-1]):
          return 'declared TT-ranks do not match the cores'
    if expect.shape is not None:
      got_shape = [list(s) for s in result.get_raw_shape()]
      if got_shape != [list(s) for s in expect.shape]:
        return 'raw shape %s instead of %s' % (got_shape, expect.shape)
    if expect.max_ranks is not None:
      for i in range(1, d):
        if val[i].shape[off] > expect.max_ranks[i]:
          return 'TT-rank %d exceeds the cap %d' % (val[i].shape[off],
                                                    expect.max_ranks[i])
    if expect.check is not None:
      msg = expect.check(val)
      if msg:
        return msg
    if expect.fuzzy:
      return None
    got = model.dense_from_cores(val, expect.kind == 'matrix', is_batch)
    return _close(got, want, expect.mag, dt)
  if kind == 'tt':
    return 'unexpected TT object'
  if expect.fuzzy:
    return None
  if expect.kind == 'list':
    if kind != 'list' or len(val) != len(expect.value):
      return 'result list of wrong length'
    for i, (g, w) in enumerate(zip(val, expect.value)):
      msg = _close(g, w, expect.mag, dt)
      if msg:
        return 'item %d: %s' % (i, msg)
    return None
  if kind == 'list':
    return 'unexpected list'
  return _close(val, expect.value, expect.mag, dt)


def expectation(inst, dense):
  return CATALOG[inst['op']].model(dense, inst['p'])


def perform(inst, env, args):
  return CATALOG[inst['op']].call(env, args, inst['p'])


def describe(inst):
  return '%s(%s) %s' % (inst['op'], ', '.join(inst['a']), inst['p'])


def mixed_dtype(inst, dense):
  """Tolerance class of a call."""
  if any(d.spec['dt'] == 'float32' for d in dense):
    return 'float32'
  return 'float64'
