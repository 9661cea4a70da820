"""Observers of caller-owned data and of process-wide state."""
import gc
import logging
import os
import random
import sys
import warnings

import numpy as np

from sim import boot

tf = boot.tf
_context = boot.tf_context


# ----------------------------------------------------------- process-wide state
_MODULES = {'tf': tf, 'tf.linalg': tf.linalg, 'tf.math': tf.math,
            'tf.random': tf.random, 'tf.compat.v1': tf.compat.v1,
            'tf.compat.v1.linalg': tf.compat.v1.linalg,
            'tf.nn': tf.nn, 'tf.errors': tf.errors, 'tf.debugging': tf.debugging,
            'tf.compat.v1.nn': tf.compat.v1.nn, 'tf.sparse': tf.sparse,
            'np': np, 'np.linalg': np.linalg, 'np.random': np.random,
            'builtins': sys.modules['builtins']}
_CLASSES = {c.__name__: c for c in (
    tf.Tensor, type(tf.constant(0.)), tf.Variable,
    type(tf.Variable(0.)), tf.TensorShape, tf.SparseTensor, tf.GradientTape,
    tf.Graph)}


def _exports():
  res = {}
  for mname, mod in _MODULES.items():
    for k, v in list(vars(mod).items()):
      if not k.startswith('_'):
        res[mname, k] = v
  for cname, cls in _CLASSES.items():
    for k, v in list(vars(cls).items()):
      if k not in _CLASS_NOISE:
        res[cname, k] = v
  return res


# Bookkeeping of Python itself.
_CLASS_NOISE = ('__abstractmethods__', '_abc_impl', '__weakref__', '__dict__',
                '__annotations__', '__doc__')


def function_tables():
  """Name -> object for everything TensorFlow and numpy export."""
  return _exports()


def compare_tables(before, after):
  """Changed or removed names (lazily added names are fine)."""
  for k, v in before.items():
    if k not in after:
      return '%s.%s disappeared' % k
    if after[k] is not v:
      return '%s.%s was replaced' % k
  for k in after:
    if k in before:
      continue
    if k[1] == 'original_svd':
      return '%s.%s appeared' % k
    if k[0] in _CLASSES and any(k[1] in vars(base) for base in
                                _CLASSES[k[0]].__mro__[1:]):
      return '%s.%s was overridden' % k
  return None


def _rng_np():
  s = np.random.get_state()
  return s[0], s[1].tobytes(), s[2], s[3], s[4]


def light_state():
  """State that is cheap to read, as a dict of comparable values."""
  scope = tf.compat.v1.get_variable_scope()
  ctx = _context.context()
  state = {
      'numpy random state': _rng_np(),
      'python random state': random.getstate(),
      'TensorFlow global seed': _context.global_seed(),
      'name scope': tf.get_current_name_scope(),
      'variable scope': (scope.name, bool(scope.reuse), scope.dtype,
                         scope.regularizer, scope.initializer),
      'eager execution': tf.executing_eagerly(),
      'numpy error modes': tuple(sorted(np.geterr().items())),
      'numpy print options': str(sorted(np.get_printoptions().items())),
      'warning filters': tuple(warnings.filters),
      'environment': tuple(sorted(os.environ.items())),
      'working directory': os.getcwd(),
      'gradient tapes': bool(boot.pywrap_tfe.TFE_Py_TapeSetIsEmpty()),
      'device': ctx.device_name,
      'functions_run_eagerly': tf.config.functions_run_eagerly(),
      'soft placement': tf.config.get_soft_device_placement(),
      'floatx': tf.keras.backend.floatx(),
      'epsilon': tf.keras.backend.epsilon(),
      'recursion limit': sys.getrecursionlimit(),
      'logging level': (logging.getLogger().level, tf.get_logger().level),
      'garbage collector': gc.isenabled(),
  }
  state['module search path'] = tuple(sys.path)
  state['numpy error callback'] = np.geterrcall()
  state['logging handlers'] = (len(logging.getLogger().handlers),
                               len(tf.get_logger().handlers))
  state['precision policy'] = tf.keras.mixed_precision.global_policy().name
  state['traceback filtering'] = \
      tf.debugging.is_traceback_filtering_enabled()
  state['float32 execution mode'] = \
      tf.config.experimental.tensor_float_32_execution_enabled()
  state['threading configuration'] = (
      tf.config.threading.get_intra_op_parallelism_threads(),
      tf.config.threading.get_inter_op_parallelism_threads())
  state['switch interval'] = sys.getswitchinterval()
  state['operation callbacks'] = len(ctx.op_callbacks)
  graph = tf.compat.v1.get_default_graph()
  state['default graph seed'] = graph.seed
  if not tf.executing_eagerly():
    # Tracing a function leaves empty ones.
    state['graph collections'] = tuple(sorted(
        (str(k), len(graph.get_collection(k)))
        for k in graph.get_all_collection_keys() if graph.get_collection(k)))
    state['control dependencies'] = len(graph._control_dependencies_stack)
    state['graph finalized'] = graph.finalized
  return state


def identity_state():
  return {'default graph': tf.compat.v1.get_default_graph(),
          'stdout': sys.stdout, 'stderr': sys.stderr,
          'excepthook': sys.excepthook}


def tf_rng_state():
  rng = getattr(_context.context(), '_rng', None)
  return None if rng is None else rng.getstate()


class GlobalState(object):
  """A full snapshot; diff() names the first thing that changed."""

  def __init__(self, rng_may_advance=False):
    self.rng_may_advance = rng_may_advance
    self.light = light_state()
    self.ident = identity_state()
    self.rng = tf_rng_state()
    self.tables = function_tables()

  def diff(self, tables=True):
    now = light_state()
    for k, v in self.light.items():
      if now[k] != v:
        return '%s changed (%s -> %s)' % (k, _short(v), _short(now[k]))
    for k, v in identity_state().items():
      if v is not self.ident[k]:
        return '%s changed' % k
    if not self.rng_may_advance and tf_rng_state() != self.rng:
      return 'TensorFlow random state changed'
    if tables:
      return compare_tables(self.tables, function_tables())
    return None


def _short(v):
  s = str(v)
  return s if len(s) < 60 else s[:57] + '...'


def restore(state):
  """Puts back what can be put back, so that runs stay independent."""
  for (mname, k), v in state.tables.items():
    mod = _MODULES[mname] if mname in _MODULES else _CLASSES[mname]
    if vars(mod).get(k) is not v:
      setattr(mod, k, v)
  np.seterr(**dict(state.light['numpy error modes']))
  warnings.filters[:] = list(state.light['warning filters'])
  if hasattr(tf, 'original_svd'):
    del tf.original_svd


# ------------------------------------------------------------------- arguments
def _value(core):
  """Present value of a core; None for a symbolic one."""
  return np.array(core) if tf.executing_eagerly() else None


class TTState(object):
  """Public observables of one TT object."""

  def __init__(self, name, tt):
    self.name = name
    self.tt = tt
    self.cores = tuple(tt.tt_cores)
    self.values = [_value(c) for c in tt.tt_cores]
    self.meta = self._meta()
    self.public = self._public()

  def _meta(self):
    t = self.tt
    ranks = t.get_tt_ranks()
    return (str(t.get_raw_shape()), str(ranks), str(t.dtype), t.ndims(),
            t.is_tt_matrix(), t.is_variable(), str(t.get_shape()),
            str(getattr(t, 'batch_size', None)))

  def _public(self):
    # What the class itself provides (e.g. cached_property) may be filled in.
    return {k: v for k, v in getattr(self.tt, '__dict__', {}).items()
            if not k.startswith('_') and not hasattr(type(self.tt), k)}

  def diff(self, values_may_change=False):
    now = tuple(self.tt.tt_cores)
    if len(now) != len(self.cores) or any(
        a is not b for a, b in zip(now, self.cores)):
      return '%s has other TT-cores' % self.name
    if self._meta() != self.meta:
      return '%s reports other shapes or ranks' % self.name
    pub = self._public()
    if set(pub) != set(self.public) or any(
        pub[k] is not self.public[k] for k in pub):
      return 'public attributes of %s changed' % self.name
    if not values_may_change:
      for i, (c, v) in enumerate(zip(now, self.values)):
        if v is not None and not np.array_equal(np.array(c), v):
          return 'core %d of %s has another value' % (i, self.name)
    return None


def freeze(container):
  """A description of a caller-owned container that detects any change."""
  if isinstance(container, np.ndarray):
    return ('nd', container.shape, str(container.dtype), container.tobytes(),
            container.flags.writeable)
  if isinstance(container, (list, tuple)):
    return (type(container).__name__,
            tuple(('obj', id(x)) if not isinstance(
                x, (list, tuple, np.ndarray, int, float, str, type(None)))
                  else freeze(x) for x in container))
  if isinstance(container, dict):
    return ('dict', tuple((k, freeze(v)) for k, v in container.items()))
  return ('val', type(container).__name__, repr(container))


class Owned(list):
  """Caller-owned containers with their state at the time of the call."""

  def append(self, container):
    super().append((container, freeze(container)))

  def diff(self):
    for container, before in self:
      if freeze(container) != before:
        return 'a %s passed by the caller was changed (now %s)' % (
            type(container).__name__, _short(container))
    return None
