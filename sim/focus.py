"""Where to look: operations that touch state which outlives a call.

The present code keeps next to no such state. A change that introduces some (a
cache, a scratch buffer, a flag, a lock) concerns a few operations only, so half
of the generated worlds then concentrate on them. This decides what is tried,
never what is right.
"""
import json
import os
import random
import subprocess
import sys

from sim import boot, sched

# Attributes of the present code and its documented svd replacement.
USUAL = frozenset(['projection_on', 'svd', 'original_svd', 'is_np_svd',
                   '_counter'])

_lines = None
_ops = None


def lines():
  global _lines
  if _lines is None:
    _lines = set()
    for name in sorted(os.listdir(boot.PKG)):
      path = os.path.join(boot.PKG, name)
      if name.endswith('.py') and boot.is_target_file(path):
        _lines.update((path, n) for n in sched.find_shared_lines(
            path, USUAL, writes=True))
  return _lines


def ops():
  """Names of the catalogue operations that reach such lines."""
  global _ops
  if _ops is None:
    _ops = _ask() if lines() else []
  return _ops


def _ask():
  """In a process of its own: trying the operations may leave traces."""
  worker = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'worker.py')
  try:
    r = subprocess.run([sys.executable, worker, 'focus', '-'],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, timeout=150)
    return json.loads(r.stdout.decode().splitlines()[-1])['focus']
  except (subprocess.TimeoutExpired, ValueError, IndexError, KeyError):
    return []


def find_ops():
  from sim import engine, world
  from sim.catalog import CATALOG
  marked = lines()
  files = {f for f, _ in marked}
  res = []
  for name in CATALOG:
    hit = []

    def on_line(frame, event, arg):
      if (frame.f_code.co_filename, frame.f_lineno) in marked:
        hit.append(1)
      return on_line

    def on_call(frame, event, arg):
      return on_line if frame.f_code.co_filename in files else None

    for k in range(3):
      rng = random.Random('focus %s %d' % (name, k))
      g = world.Gen(rng, wide=True, focus=False)
      inst = g.call([name])
      if inst['op'] != name:
        continue
      args = [g.specs[i] for i in inst['a']]
      t3f = boot.fresh_t3f()
      objs = {s['id']: engine.make_object(t3f, s) for s in args}
      dense = [world.build_dense(s) for s in args]
      with engine.quiet():
        old = sys.gettrace()
        sys.settrace(on_call)
        try:
          engine.attempt(t3f, inst, [objs[s['id']] for s in args], dense)
        finally:
          sys.settrace(old)
      if hit:
        res.append(name)
        break
  return res
