"""Executes plans. Started by the driver; talks JSON lines over a private pipe.

  worker.py run CHECK TIER SEED START STRIDE TOTAL DEADLINE_S
  worker.py serve CHECK
"""
import gc
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback


def _private_channel():
  out = os.fdopen(os.dup(1), 'w', buffering=1)
  devnull = os.open(os.devnull, os.O_WRONLY)
  os.dup2(devnull, 1)
  os.close(devnull)
  return out


def plan_seed(seed, check, index):
  h = hashlib.sha256(('%d/%s/%d' % (seed, check, index)).encode()).digest()
  return int.from_bytes(h[:8], 'big')


def load(check):
  return importlib.import_module('sim.checks.' + check.lower())


def make_plan(mod, tier, seed, check, index):
  rng = random.Random(plan_seed(seed, check, index))
  plan = mod.gen(rng, tier)
  # Only what survives JSON may influence the execution.
  return json.loads(json.dumps(plan))


def _library_error(e):
  """Describes an error raised inside a library call; None if it is ours."""
  from sim import boot
  if isinstance(e, boot.SimError):
    return None
  frames = traceback.extract_tb(e.__traceback__)
  inside = [f for f in frames if boot.is_target_file(f.filename)]
  if not inside or ('/sim/' in frames[-1].filename and
                    not isinstance(e, boot.tf.errors.OpError)):
    return None
  return '%s raised %s: %s' % (inside[0].name, type(e).__name__, str(e)[:300])


def execute(mod, plan, keep_trace=False):
  """Runs a plan; returns the JSON-able outcome."""
  from sim import outcome
  run = outcome.Run()
  run.keep_trace = keep_trace
  violation, error = None, None
  try:
    mod.run(plan, run)
  except outcome.Violation as v:
    violation = {'kind': v.kind, 'what': v.what}
  except Exception as e:
    error = traceback.format_exc()
    what = _library_error(e)
    if what:
      violation, error = {'kind': 'unexpected error', 'what': what}, None
  res = {'violation': violation, 'error': error, 'stats': dict(run.stats),
         'sigs': sorted(run.sigs), 'log': run.digest(), 'events': run.events,
         'known': run.known, 'decisions': run.decisions}
  if keep_trace:
    res['trace'] = run.trace[-4000:]
  return res


def main():
  out = _private_channel()
  sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
  mode, check = sys.argv[1:3]
  gc.disable()
  if mode == 'focus':
    from sim import focus
    out.write(json.dumps({'focus': focus.find_ops()}) + '\n')
    out.flush()
    return
  mod = load(check)

  def send(msg):
    out.write(json.dumps(msg) + '\n')
    out.flush()

  send({'ready': True})
  if mode == 'run':
    tier = sys.argv[3]
    seed, start, stride, total = map(int, sys.argv[4:8])
    deadline = time.time() + float(sys.argv[8])
    stop = os.path.join(sys.argv[9], 'stop') if len(sys.argv) > 9 else None
    done = 0
    for i in range(start, total, stride):
      if time.time() > deadline:
        send({'late': i})
        break
      if stop and os.path.exists(stop):
        with open(stop) as f:
          text = f.read().strip()
        if text and i > int(text):
          break
      send({'start': i})
      plan = make_plan(mod, tier, seed, check, i)
      res = execute(mod, plan)
      res['i'] = i
      if res['violation'] or res['error']:
        res['plan'] = plan
      res.pop('decisions') if not res['violation'] else None
      send(res)
      done += 1
      if done % 25 == 0:
        gc.collect()
    send({'end': True})
  else:
    for line in sys.stdin:
      msg = json.loads(line)
      res = execute(mod, msg['plan'], msg.get('trace', False))
      send(res)


if __name__ == '__main__':
  main()
