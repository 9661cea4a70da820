"""Performing catalogue calls in eager, traced and graph mode, and the solo
oracle: the same call made alone, by freshly executed t3f modules."""
import contextlib
import io
import sys

import numpy as np

from sim import boot
from sim import catalog
from sim import model
from sim import sched as sched_lib
from sim import world

tf = boot.tf


class Snapshot(object):
  """A library result copied into numpy."""

  def __init__(self, kind, arrays, meta=None):
    self.kind = kind      # tt | list | dense | exc
    self.arrays = arrays
    self.meta = meta

  def dense(self):
    if self.kind != 'tt':
      return self.arrays
    return [model.dense_from_cores(self.arrays, self.meta['matrix'],
                                   self.meta['batch'])]

  def __str__(self):
    return '%s %s' % (self.kind, self.meta or '')


def _meta(tt):
  ranks = tt.get_tt_ranks()
  return {'matrix': bool(tt.is_tt_matrix()),
          'batch': hasattr(tt, 'batch_size'),
          'raw': [s.as_list() for s in tt.get_raw_shape()],
          'ranks': None if ranks is None or ranks.rank is None
                   else ranks.as_list(),
          'dtype': tf.as_dtype(tt.dtype).name}


def snapshot(result):
  if world.is_tt(result):
    return Snapshot('tt', [np.array(c) for c in result.tt_cores], _meta(result))
  if isinstance(result, (list, tuple)):
    return Snapshot('list', [np.array(r) for r in result])
  return Snapshot('dense', [np.array(result)])


def exc_snapshot(e):
  return Snapshot('exc', [], {'type': type(e).__name__})


# The oracle repeats the very same computation, so almost to the last digit.
TOL = {'float64': 1e-9, 'float32': 1e-4}


def differ(got, want, scale=0.0, fuzzy=False, dt='float64', tol=TOL):
  """None if two snapshots agree, else a message."""
  if got.kind != want.kind:
    if got.kind == 'exc':
      return 'raised %s instead of returning a result' % got.meta['type']
    if want.kind == 'exc':
      return 'returned a result instead of raising %s' % want.meta['type']
    return 'returned %s instead of %s' % (got.kind, want.kind)
  if got.kind == 'exc':
    if got.meta['type'] != want.meta['type']:
      return 'raised %s instead of %s' % (got.meta['type'], want.meta['type'])
    return None
  if got.meta != want.meta:
    diff = [k for k in want.meta if want.meta[k] != got.meta[k]]
    return 'result has %s instead of %s' % (
        {k: got.meta[k] for k in diff}, {k: want.meta[k] for k in diff})
  if len(got.arrays) != len(want.arrays):
    return 'result has %d parts instead of %d' % (len(got.arrays),
                                                  len(want.arrays))
  if fuzzy:
    return None
  for g, w in zip(got.dense(), want.dense()):
    if g.shape != w.shape:
      return 'result has shape %s instead of %s' % (g.shape, w.shape)
    if not g.size:
      continue
    with np.errstate(all='ignore'):
      g, w = g.astype(np.float64), w.astype(np.float64)
      if not np.all(np.isfinite(w)):
        continue
      err = np.abs(g - w).max()
      ref = np.abs(w).max() + 1e-6 + scale * 1e-3
    if not err <= tol[dt] * ref:
      return 'value differs by %.3g (largest expected entry %.3g)' % (
          err, np.abs(w).max())
  return None


@contextlib.contextmanager
def quiet():
  """t3f prints a warning; keep it out of the logs."""
  old = sys.stdout
  sys.stdout = io.StringIO()
  try:
    yield
  finally:
    sys.stdout = old


def make_object(t3f, spec, cores=None):
  """Builds the TT object of a spec; 'var' makes it a TT variable."""
  cores = model.make_cores(spec) if cores is None else cores
  cls = t3f.TensorTrainBatch if spec['b'] is not None else t3f.TensorTrain
  kw = {}
  if spec.get('how') and len(spec['ranks']) > 2:
    kw['shape'] = tuple(tuple(s) for s in spec['shape']) \
        if spec['k'] == 'matrix' else tuple(spec['shape'][0])
    kw['tt_ranks'] = tuple(spec['ranks'])
  if spec.get('var'):
    with tf.device('/cpu:0'):
      cores = [tf.Variable(c) for c in cores]
    return cls(cores, convert_to_tensors=False, **kw)
  return cls([tf.constant(c) for c in cores], **kw)


def dense_of(spec, cores):
  return catalog.Dense(spec, model.dense_from_cores(
      cores, spec['k'] == 'matrix', spec['b'] is not None))


def perform(t3f, inst, args, dense, callback=None, env=None, convert=True):
  """Makes one call in the mode the instance asks for; returns the result."""
  mode = inst.get('mode', 'eager')
  if env is None:
    env = world.CallEnv(t3f, tf, dense, callback)
  if mode == 'eager' or catalog.CATALOG[inst['op']].eager_only:
    return world.perform(inst, env, args)
  if mode == 'fn':
    box = {}

    def traced():
      r = world.perform(inst, env, args)
      box['r'] = r
      if world.is_tt(r):
        return list(r.tt_cores)
      return list(r) if isinstance(r, (list, tuple)) else r

    out = tf.function(traced, autograph=False)()
    return _Traced(box['r'], out)
  if mode == 'dyn':
    # Traced without any static shape information.
    objs = []
    for x in args:
      if not any(x is y for y in objs):
        objs.append(x)
    cores = [tf.convert_to_tensor(c) for x in objs for c in x.tt_cores]
    box = {}

    def traced_dyn(*flat):
      flat, new = list(flat), []
      for x in objs:
        mine, flat = flat[:len(x.tt_cores)], flat[len(x.tt_cores):]
        cls = t3f.TensorTrainBatch if hasattr(x, 'batch_size') else \
            t3f.TensorTrain
        new.append(cls(mine))
      at = [[y is x for y in objs].index(True) for x in args]
      r = world.perform(inst, env, [new[i] for i in at])
      box['r'] = r
      if world.is_tt(r):
        return list(r.tt_cores)
      return list(r) if isinstance(r, (list, tuple)) else r

    f = tf.function(traced_dyn, autograph=False, input_signature=[
        tf.TensorSpec([None] * c.shape.rank, c.dtype) for c in cores])
    out = f(*cores)
    return _Traced(box['r'], out)
  raise boot.SimError('unknown mode ' + mode)


class _Traced(object):
  """Evaluated result of a traced call."""

  def __init__(self, symbolic, value):
    self.symbolic = symbolic
    self.value = value


def take(result):
  """Snapshot of the result of perform()."""
  if isinstance(result, _Traced):
    if world.is_tt(result.symbolic):
      return Snapshot('tt', [np.array(c) for c in result.value],
                      _meta(result.symbolic))
    return snapshot(result.value)
  return snapshot(result)


def attempt(t3f, inst, args, dense, callback=None):
  """(snapshot, result or None): exceptions become 'exc' snapshots."""
  try:
    r = perform(t3f, inst, args, dense, callback)
    return take(r), r
  except Exception as e:
    return exc_snapshot(e), None


class Solo(object):
  """Oracle: results of calls made alone, by fresh modules and fresh arguments."""

  def result(self, inst, specs, cores=None, apart=False):
    """Snapshot for a call on objects given by specs (and numpy cores).

    With `apart`, an object given twice is built twice: only the values of the
    arguments matter, not whether they are one object."""
    cores = cores or [model.make_cores(s) for s in specs]
    with boot.other_instance() as t3f:
      args, dense, seen = [], [], {}
      for s, c in zip(specs, cores):
        if apart or s['id'] not in seen:
          seen[s['id']] = (make_object(t3f, s, c), dense_of(s, c))
        args.append(seen[s['id']][0])
        dense.append(seen[s['id']][1])
      with quiet():
        snap, _ = attempt(t3f, inst, args, dense)
      return snap


def scale_of(inst, dense):
  """(scale, fuzzy) from the dense model; tolerant if it does not apply."""
  try:
    e = world.expectation(inst, dense)
  except Exception:
    return 0.0, False
  mag = e.mag if e.mag is not None else 0.0
  return float(mag), bool(e.fuzzy)


def model_agrees(inst, dense, result, dt):
  """Does a solo result agree with the dense model? (sanity statistics)"""
  try:
    return world.compare(result, world.expectation(inst, dense), dt) is None
  except Exception:
    return False
