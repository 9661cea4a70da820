"""Process set-up: TensorFlow with one thread, t3f compiled from /repo, seams.

Everything the simulator controls is reached through this module:

* kernel seam: pywrap_tfe.TFE_Py_FastPathExecute / TFE_Py_Execute,
* line seam:   sys.settrace, installed by sched.py in simulated threads,
* lock seam:   locks created by t3f code, directly or inside a Condition,
  Semaphore, Event or Queue,
* module seam: every simulated execution starts from freshly executed t3f
  modules, so module-level state never leaks from one execution to the next.
"""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import threading
import weakref

REPO = '/repo'
PKG = os.path.join(REPO, 't3f')

os.environ['CUDA_VISIBLE_DEVICES'] = '-1'
os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
sys.dont_write_bytecode = True

import _thread  # noqa: E402

_real_Lock = threading.Lock
_real_RLock = threading.RLock

import warnings
warnings.simplefilter('ignore', SyntaxWarning)

import numpy as np  # noqa: E402
import tensorflow as tf  # noqa: E402

tf.get_logger().setLevel(41)   # no level anybody would set
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.config.threading.set_inter_op_parallelism_threads(1)

from tensorflow.python import pywrap_tfe  # noqa: E402
from tensorflow.python.eager import context as tf_context  # noqa: E402

# Force all lazily loaded parts of TensorFlow that t3f touches, before locks and
# traces are in place.
import tensorflow.keras.layers  # noqa: E402,F401
tf.compat.v1.get_variable_scope  # noqa: B018
PRISTINE_SVD = tf.linalg.svd


class SimError(Exception):
  """The harness itself is broken (never reported as a violation)."""


# ---------------------------------------------------------------- kernel seam
_orig_fast = pywrap_tfe.TFE_Py_FastPathExecute
_orig_exec = pywrap_tfe.TFE_Py_Execute
_kernel_hook = {}  # thread ident -> callable(op_name, call) -> result


def _fast(*args):
  hook = _kernel_hook.get(threading.get_ident())
  if hook is None:
    return _orig_fast(*args)
  return hook(args[1], _orig_fast, args)


def _exec(*args):
  hook = _kernel_hook.get(threading.get_ident())
  if hook is None:
    return _orig_exec(*args)
  return hook(args[2], _orig_exec, args)


pywrap_tfe.TFE_Py_FastPathExecute = _fast
pywrap_tfe.TFE_Py_Execute = _exec


def set_kernel_hook(hook):
  ident = threading.get_ident()
  if hook is None:
    _kernel_hook.pop(ident, None)
  else:
    _kernel_hook[ident] = hook


# ------------------------------------------------------------------ lock seam
_lock_owner_sched = [None]  # the active scheduler, if any


def set_active_scheduler(sched):
  _lock_owner_sched[0] = sched


class Deadlock(RuntimeError):
  """A library call waits for something that can never happen."""


class SimLock(object):
  """A lock whose waiting is decided by the simulated scheduler."""

  def __init__(self, reentrant):
    self._reentrant = reentrant
    self._owner = None
    self._count = 0

  def acquire(self, blocking=True, timeout=-1):
    me = threading.get_ident()
    if self._reentrant and self._owner == me:
      self._count += 1
      return True
    if _lock_owner_sched[0] is not None:
      _lock_owner_sched[0].yield_point('lock', True)
    while self._count:
      if not blocking or timeout == 0:
        return False
      timed = timeout is not None and timeout > 0
      sched = _lock_owner_sched[0]
      if sched is None or sched.me() is None:
        # Nobody else is running.
        if timed:
          return False
        raise Deadlock('waiting for a lock nobody is going to release')
      if not sched.block(self, timed):
        return False
    self._owner, self._count = me, 1
    return True

  def release(self):
    if not self._count:
      raise RuntimeError('release unlocked lock')
    self._count -= 1
    if not self._count:
      self._owner = None

  def locked(self):
    return bool(self._count)

  __enter__ = acquire

  def __exit__(self, *exc):
    self.release()

  # Used by threading.Condition.
  def _is_owned(self):
    return self._owner == threading.get_ident()

  def _release_save(self):
    state, self._count, self._owner = self._count, 0, None
    return state

  def _acquire_restore(self, state):
    self.acquire()
    self._count = state


# The lock of a tf.function is made on behalf of whoever made the function.
_TRACING = ('tensorflow.python.eager.polymorphic_function',
            'tensorflow.python.util')


def _called_by_t3f():
  frame = sys._getframe(2)
  while frame is not None:
    name = frame.f_globals.get('__name__', '')
    if isinstance(frame.f_locals.get('self'), threading.Thread):
      return False
    if name in ('threading', 'queue', 'functools', 'contextlib') or \
        name.startswith(_TRACING):
      frame = frame.f_back
      continue
    return name == 't3f' or name.startswith('t3f.')
  return False


def _Lock():
  return SimLock(False) if _called_by_t3f() else _real_Lock()


def _RLock(*args, **kwargs):
  return SimLock(True) if _called_by_t3f() else _real_RLock()


threading.Lock = _Lock
threading.RLock = _RLock
# Created by Condition, Semaphore, Event and Queue for every waiting thread.
threading._allocate_lock = _Lock
_thread.allocate_lock = _Lock
_thread.RLock = _RLock


# ---------------------------------------------------------------- module seam
_code_cache = {}


class Identities(object):
  """Simulated id(): identities of dead objects are reused at once."""

  def __init__(self):
    self.free = []
    self.next = 0
    self.by_real = {}

  def __call__(self, obj):
    real = _real_id(obj)
    got = self.by_real.get(real)
    if got is not None and got[0]() is obj:
      return got[1]
    try:
      number = self.free.pop() if self.free else None
      if number is None:
        self.next += 1
        number = 1000000 + 16 * self.next

      def gone(ref, real=real, number=number):
        if self.by_real.get(real, (None,))[0] is ref:
          del self.by_real[real]
        self.free.append(number)

      self.by_real[real] = (weakref.ref(obj, gone), number)
      return number
    except TypeError:
      return real


_real_id = id


class _Loader(importlib.machinery.SourceFileLoader):
  """Loads t3f from source, never from bytecode files."""

  def get_code(self, fullname):
    path = self.get_filename(fullname)
    if path not in _code_cache:
      with open(path, 'rb') as f:
        source = f.read()
      _code_cache[path] = self.source_to_code(source, path)
    return _code_cache[path]

  def exec_module(self, module):
    module.__dict__['id'] = _current[0].ids
    super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, fullname, path=None, target=None):
    if fullname != 't3f' and not fullname.startswith('t3f.'):
      return None
    rel = fullname.split('.')
    base = os.path.join(REPO, *rel)
    if os.path.isdir(base):
      filename = os.path.join(base, '__init__.py')
      return importlib.util.spec_from_file_location(
          fullname, filename, loader=_Loader(fullname, filename),
          submodule_search_locations=[base])
    filename = base + '.py'
    if os.path.exists(filename):
      return importlib.util.spec_from_file_location(
          fullname, filename, loader=_Loader(fullname, filename))
    return None


sys.meta_path.insert(0, _Finder())


_MISSING = object()
_current = [None]  # the active instance


class _Instance(object):
  """One execution of all t3f modules, with the global state it may change."""

  def __init__(self):
    self.modules = {}
    self.ids = Identities()
    self.svd = PRISTINE_SVD
    self.original_svd = _MISSING


def _t3f_modules():
  return {m: mod for m, mod in sys.modules.items()
          if m == 't3f' or m.startswith('t3f.')}


def _deactivate():
  inst = _current[0]
  mods = _t3f_modules()
  if inst is not None:
    inst.modules = mods
    inst.svd = tf.linalg.svd
    inst.original_svd = getattr(tf, 'original_svd', _MISSING)
  for m in mods:
    del sys.modules[m]
  _current[0] = None


def _enter(inst):
  _current[0] = inst
  sys.modules.update(inst.modules)
  tf.linalg.svd = inst.svd
  if inst.original_svd is not _MISSING:
    tf.original_svd = inst.original_svd
  elif hasattr(tf, 'original_svd'):
    del tf.original_svd


def fresh_t3f():
  """Executes all t3f modules anew and returns the package."""
  _deactivate()
  _enter(_Instance())
  import t3f
  if not t3f.__file__.startswith(PKG + os.sep):
    raise SimError('t3f was imported from %s' % t3f.__file__)
  return t3f


class other_instance(object):
  """with other_instance() as t3f: a fresh instance, then back to this one."""

  def __enter__(self):
    self.before = _current[0]
    return fresh_t3f()

  def __exit__(self, *exc):
    _deactivate()
    if self.before is not None:
      _enter(self.before)
    return False


_is_target_file = {}


def is_target_file(filename):
  """Is this a t3f source file (not a test)?"""
  res = _is_target_file.get(filename)
  if res is None:
    res = (filename.startswith(PKG + os.sep) and
           not filename.endswith('_test.py'))
    _is_target_file[filename] = res
  return res
