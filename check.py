#!/usr/bin/env python
"""Entry point.

  check.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  check.py C01 --replay FILE      re-executes a replay file, prints its trace
  check.py C01 --determinism N    runs N seeds in several ways, compares logs
"""
import argparse
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import driver  # noqa: E402
from sim.registry import CHECKS  # noqa: E402


def determinism(meta, n, seed):
  """Same runs, other process layout and hash seed: logs must be identical."""
  prop = meta['property']
  logs = []
  for workers, hashseed in ((8, '0'), (3, '1'), (5, '4242')):
    scratch = tempfile.mkdtemp(prefix='verif-')
    try:
      results, _, problems, _ = driver.run_many(prop, 'quick', seed, n, workers,
                                                scratch, hashseed)
    finally:
      shutil.rmtree(scratch, ignore_errors=True)
    if problems:
      raise driver.HarnessError(str(problems))
    logs.append({i: (r['log'], r['events'], json.dumps(r['stats'], sort_keys=1))
                 for i, r in results.items()})
  bad = [i for i in range(n) if len(set(l.get(i) for l in logs)) != 1]
  print('%s: %d runs x %d layouts, %d differ %s' % (prop, n, len(logs),
                                                   len(bad), bad[:10]))
  return 1 if bad else 0


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED') or 1))
  ap.add_argument('--runs', type=int)
  ap.add_argument('--workers', type=int)
  ap.add_argument('--replay')
  ap.add_argument('--determinism', type=int)
  a = ap.parse_args()
  meta = CHECKS[a.property]
  if a.determinism:
    return determinism(meta, a.determinism, a.seed)
  if a.replay:
    rep, res = driver.replay(a.property, a.replay)
    for line in res.get('trace', []):
      print(line)
    if res['error']:
      print(res['error'])
      return 2
    if res['violation']:
      print('%s: %s' % (res['violation']['kind'], res['violation']['what']))
      print('event log %s (recorded %s)' % (res['log'], rep['log']))
      print('VIOLATION property=%s replay=%s' % (a.property, a.replay))
      return 1
    print('no violation')
    return 0
  return driver.main(meta, a.tier if a.tier in ('quick', 'thorough') else
                     'quick', a.seed, a.runs, a.workers)


if __name__ == '__main__':
  try:
    code = main()
  except driver.HarnessError as e:
    print('ERROR (harness): %s' % e, file=sys.stderr)
    code = 2
  sys.stdout.flush()
  sys.exit(code)
