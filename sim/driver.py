"""Runs one check: spreads seeded executions over processes, minimises and
replays violations, writes the evidence file. Does not import TensorFlow."""
import collections
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known_findings.txt')
PYTHON = sys.executable
WORKER = os.path.join(HERE, 'sim', 'worker.py')
SOFT_S = {'quick': 420.0, 'thorough': 5400.0}
HANG_S = 150.0
SHRINK_S = {'quick': 120.0, 'thorough': 600.0}


class HarnessError(Exception):
  pass


def _env(hashseed='0'):
  env = dict(os.environ)
  env.update({'PYTHONHASHSEED': hashseed, 'PYTHONDONTWRITEBYTECODE': '1',
              'CUDA_VISIBLE_DEVICES': '-1', 'TF_CPP_MIN_LOG_LEVEL': '3',
              'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
              'MKL_NUM_THREADS': '1', 'TF_ENABLE_ONEDNN_OPTS': '0'})
  return env


class Proc(object):
  """A worker process with line-wise, time-limited reading."""

  def __init__(self, args, scratch, hashseed='0'):
    self.err = tempfile.TemporaryFile(dir=scratch)
    self.p = subprocess.Popen([PYTHON, WORKER] + args, stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, stderr=self.err,
                              cwd=scratch, env=_env(hashseed),
                              start_new_session=True)
    self.buf = b''
    self.last = time.time()
    self.current = None
    self.queue = collections.deque()
    self.eof = False

  def fileno(self):
    return self.p.stdout.fileno()

  def pump(self):
    data = os.read(self.fileno(), 1 << 20)
    if not data:
      self.eof = True
      return
    self.last = time.time()
    self.buf += data
    *lines, self.buf = self.buf.split(b'\n')
    for l in lines:
      self.queue.append(json.loads(l))

  def recv(self, timeout):
    """Next message, or None on time-out or end of stream."""
    end = time.time() + timeout
    while not self.queue:
      left = end - time.time()
      if left <= 0 or self.eof:
        return None
      r, _, _ = select.select([self], [], [], left)
      if r:
        self.pump()
    return self.queue.popleft()

  def send(self, msg):
    self.p.stdin.write((json.dumps(msg) + '\n').encode())
    self.p.stdin.flush()

  def stderr(self):
    self.err.seek(0)
    return self.err.read().decode(errors='replace')[-3000:]

  def kill(self):
    try:
      os.killpg(self.p.pid, signal.SIGKILL)
    except ProcessLookupError:
      pass
    self.p.wait()
    for f in (self.p.stdout, self.p.stdin, self.err):
      try:
        f.close()
      except OSError:
        pass


class Server(object):
  """A serving worker that is restarted after a hang or a crash."""

  def __init__(self, check, scratch):
    self.check, self.scratch, self.proc = check, scratch, None

  def execute(self, plan, trace=False, timeout=HANG_S):
    if self.proc is None:
      self.proc = Proc(['serve', self.check], self.scratch)
      if self.proc.recv(300) is None:
        raise HarnessError('worker did not start: ' + self.proc.stderr())
    self.proc.send({'plan': plan, 'trace': trace})
    res = self.proc.recv(timeout)
    if res is None:
      crashed = self.proc.eof
      err = self.proc.stderr()
      self.close()
      if crashed:
        return {'violation': None, 'error': 'worker died: ' + err, 'log': ''}
      return {'violation': {'kind': 'hang', 'what':
                            'the execution does not terminate'},
              'error': None, 'log': 'hang', 'decisions': None}
    return res

  def close(self):
    if self.proc is not None:
      self.proc.kill()
      self.proc = None


def run_many(check, tier, seed, total, nworkers, scratch, hashseed='0'):
  """All executions; returns (results by index, lowest violating index)."""
  results = {}
  procs = []
  stop = os.path.join(scratch, 'stop')
  lowest = None
  problems = []
  late = False
  t0 = time.time()
  hard = t0 + SOFT_S[tier] + 2 * HANG_S
  try:
    for w in range(nworkers):
      procs.append(Proc(['run', check, tier, str(seed), str(w), str(nworkers),
                         str(total), str(SOFT_S[tier]), scratch], scratch,
                        hashseed))
    live = list(procs)
    while live:
      r, _, _ = select.select(live, [], [], 1.0)
      now = time.time()
      for p in r:
        p.pump()
        while p.queue:
          m = p.queue.popleft()
          if 'start' in m:
            p.current = m['start']
          elif 'i' in m:
            results[m['i']] = m
            p.current = None
            if m['violation'] and (lowest is None or m['i'] < lowest):
              lowest = m['i']
              with open(stop + '.new', 'w') as f:
                f.write(str(lowest))
              os.replace(stop + '.new', stop)
          elif 'late' in m:
            late = True
          elif 'end' in m:
            p.current = None
            p.finished = True
        if p.eof:
          live.remove(p)
          if not getattr(p, 'finished', False):
            problems.append((p.current, 'died', p.stderr()))
      for p in list(live):
        if now - p.last > HANG_S + (120 if not results else 0):
          problems.append((p.current, 'hang', p.stderr()))
          live.remove(p)
      if now > hard:
        for p in live:
          problems.append((p.current, 'hang', 'over the wall-clock cap'))
        break
  finally:
    for p in procs:
      p.kill()
  return results, lowest, problems, late


def make_plan(check, tier, seed, index):
  """Plan of a run, computed in a helper process (the checks import TF)."""
  code = ('import sys, json; sys.path.insert(0, %r); from sim import worker; '
          'm = worker.load(%r); print(json.dumps(worker.make_plan('
          'm, %r, %d, %r, %d)))' % (HERE, check, tier, seed, check, index))
  r = subprocess.run([PYTHON, '-c', code], capture_output=True, env=_env(),
                     cwd='/tmp', timeout=300)
  if r.returncode:
    raise HarnessError(r.stderr.decode()[-2000:])
  return json.loads(r.stdout.decode().strip().splitlines()[-1])


# ------------------------------------------------------------- minimisation
def _lists(plan, path=()):
  """Paths of all shrinkable lists: those under a key ending in '_'."""
  found = []
  if isinstance(plan, dict):
    for k, v in plan.items():
      if isinstance(v, list) and k.endswith('_'):
        found.append(path + (k,))
      found += _lists(v, path + (k,))
  elif isinstance(plan, list):
    for i, v in enumerate(plan):
      found += _lists(v, path + (i,))
  return found


def _get(plan, path):
  for p in path:
    plan = plan[p]
  return plan


def _with(plan, path, value):
  new = json.loads(json.dumps(plan))
  node = new
  for p in path[:-1]:
    node = node[p]
  node[path[-1]] = value
  return new


def minimise(server, plan, kind, budget, concretise=True):
  """Greedy delta debugging over the plan's lists and the schedule."""
  end = time.time() + budget
  best = plan
  tried = 0

  def bad(candidate):
    nonlocal tried
    tried += 1
    res = server.execute(candidate, timeout=60)
    v = res.get('violation')
    return res if v and v['kind'] == kind else None

  res = bad(best)
  if res is None:
    return plan, None, tried
  if concretise and res.get('decisions') is not None and 'sched' in best:
    cand = _with(best, ('sched',),
                 {'kind': 'explicit', 'decisions_': res['decisions']})
    r2 = bad(cand)
    if r2 is not None:
      best, res = cand, r2
  changed = True
  while changed and time.time() < end:
    changed = False
    for path in sorted(_lists(best), key=len):
      try:
        items = _get(best, path)
      except (KeyError, IndexError, TypeError):
        continue
      chunk = max(1, len(items) // 2)
      while chunk >= 1 and time.time() < end:
        i = 0
        while i < len(items) and time.time() < end:
          cand = _with(best, path, items[:i] + items[i + chunk:])
          r2 = bad(cand)
          if r2 is not None:
            best, res, changed = cand, r2, True
            items = _get(best, path)
          else:
            i += chunk
        chunk //= 2
  return best, res, tried


# ------------------------------------------------------------- known findings
def known_findings(prop):
  """[(key, text)] of the findings recorded for a property."""
  res = []
  if os.path.exists(KNOWN):
    with open(KNOWN) as f:
      for line in f:
        line = line.strip()
        if line.startswith('known: property=%s ' % prop):
          rest = line.split(' ', 2)[2]
          key, text = rest.split(' ', 1)
          res.append((key.split('=', 1)[1], text))
  return res


# ----------------------------------------------------------------------- main
def git_head():
  r = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'],
                     capture_output=True, text=True)
  return r.stdout.strip()


def replay(check, path):
  """Re-executes a replay file in a fresh process."""
  with open(path) as f:
    rep = json.load(f)
  scratch = tempfile.mkdtemp(prefix='verif-')
  server = Server(check, scratch)
  try:
    res = None
    for plan in rep['plans']:
      res = server.execute(plan, trace=True)
    return rep, res
  finally:
    server.close()
    shutil.rmtree(scratch, ignore_errors=True)


def main(meta, tier, seed, total=None, nworkers=None):
  """Runs a registered check; returns the exit code."""
  prop = meta['property']
  check = prop
  t0 = time.time()
  total = total or meta['runs'][tier]
  nworkers = nworkers or min(8, os.cpu_count() or 1, total)
  os.makedirs(os.path.join(EVIDENCE, 'replays'), exist_ok=True)
  scratch = tempfile.mkdtemp(prefix='verif-')
  try:
    return _main(meta, prop, check, tier, seed, total, nworkers, scratch, t0)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def _main(meta, prop, check, tier, seed, total, nworkers, scratch, t0):
  results, lowest, problems, late = run_many(check, tier, seed, total, nworkers,
                                             scratch)
  violation = None
  server = Server(check, scratch)
  try:
    errors = sorted(i for i, r in results.items() if r['error'])
    if lowest is None and problems:
      # A stuck execution is a violation if it is stuck on its own as well.
      for index, how, err in problems:
        if index is None:
          raise HarnessError('worker failed: %s %s' % (how, err))
        plan = make_plan(check, tier, seed, index)
        res = server.execute(plan)
        if res['violation'] and res['violation']['kind'] == 'hang':
          lowest = index
          results[index] = dict(res, i=index, plan=plan, stats={}, sigs=[],
                                events=0, known=[])
          break
        raise HarnessError('worker failed in run %s: %s %s' % (index, how, err))
    if lowest is None and errors:
      raise HarnessError('run %d: %s' % (errors[0],
                                         results[errors[0]]['error']))
    if lowest is not None:
      violation = _report(meta, prop, check, tier, seed, nworkers, server,
                          results, lowest)
    if lowest is None and len(results) < max(1, total // 10):
      raise HarnessError('only %d of %d runs finished in time' %
                         (len(results), total))
  finally:
    server.close()

  stats = collections.Counter()
  sigs = set()
  events = 0
  found = set()
  for r in results.values():
    stats.update(r['stats'])
    sigs.update(r['sigs'])
    events += r['events']
    found.update(r['known'])
  wall = time.time() - t0
  runs = len(results)
  coverage = {
      'evaluations': int(stats.get('evaluations', 0)),
      'distinct_nontrivial': len(sigs),
      'rule': meta['rule'],
      'samples': _samples(meta, results, check, tier, seed),
      'simulated_runs': runs,
      'planned_runs': total,
      'cut_by_time': bool(late),
      'run_indices': [min(results), max(results)] if results else [],
      'runs_per_hour': round(runs / max(wall, 1e-9) * 3600),
      'simulated_time': {'unit': 'scheduler steps (t3f lines/bytecodes, kernel '
                                 'calls and operations executed under control)',
                         'steps': int(stats.get('steps', 0))},
      'faults_injected': {k[6:]: v for k, v in sorted(stats.items())
                          if k.startswith('fault:')},
      'counters': {k: v for k, v in sorted(stats.items())
                   if not k.startswith('fault:')},
      'event_log_entries': events,
      'real_components': meta['real'],
      'stub_components': meta['stub'],
      'workers': nworkers,
      'repo_head': git_head(),
  }
  evidence = {
      'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'],
      'coverage': coverage, 'wall_s': round(wall, 2),
      'assumptions': meta['assumptions'],
      'violations': [violation] if violation else [],
  }
  known = known_findings(prop)
  for key, text in known:
    if key in found:
      print('KNOWN-FINDING: property=%s %s' % (prop, text))
  unknown = found - set(k for k, _ in known)
  if unknown and not violation:
    raise HarnessError('check reported unlisted findings %s' % sorted(unknown))
  path = os.path.join(EVIDENCE, prop + '.json')
  with open(path + '.new', 'w') as f:
    json.dump(evidence, f, indent=1, sort_keys=True)
    f.write('\n')
  os.replace(path + '.new', path)
  if violation:
    print('%s: %s' % (violation['kind'], violation['what']))
    print('VIOLATION property=%s replay=%s' % (prop, violation['replay']))
    return 1
  print('%s held: %d runs, %d evaluations, %d distinct situations, %.0f s' %
        (prop, runs, coverage['evaluations'], len(sigs), wall))
  return 0


def _samples(meta, results, check, tier, seed):
  """Digest of a few executions, enough to find them again."""
  out = []
  for i in sorted(results)[:5]:
    r = results[i]
    out.append('run %d: event log %s, %d events, %s' % (
        i, r['log'], r['events'],
        {k: v for k, v in sorted(r['stats'].items())[:8]}))
  return out


def _report(meta, prop, check, tier, seed, nworkers, server, results, lowest):
  """Minimises, verifies and stores the violation found at index `lowest`."""
  res = results[lowest]
  plan = res['plan']
  kind = res['violation']['kind']
  path = os.path.join(EVIDENCE, 'replays', '%s-seed%d-run%d.json' %
                      (prop, seed, lowest))
  best, best_res, tried = minimise(server, plan, kind, SHRINK_S[tier]) \
      if kind != 'hang' else (plan, res, 0)
  plans = [best]
  confirmed = None
  if best_res is not None:
    # Once more, in a fresh process.
    server.close()
    again = server.execute(best)
    if again.get('violation') and again['violation']['kind'] == kind:
      confirmed = again
      exact = again['log'] == best_res['log']
  if confirmed is None:
    # The execution needs the executions its process made before.
    server.close()
    mine = [i for i in sorted(results) if i <= lowest and
            i % nworkers == lowest % nworkers]
    for n in (1, 2, 5, 25, len(mine)):
      server.close()
      plans = []
      for i in mine[-n:]:
        p = results[i].get('plan') or make_plan(check, tier, seed, i)
        plans.append(p)
        again = server.execute(p)
      if again.get('violation') and again['violation']['kind'] == kind:
        confirmed, exact = again, again['log'] == res['log']
        break
  if confirmed is None:
    confirmed, exact, plans = res, False, [plan]
  trace = None
  server.close()
  if kind != 'hang':
    for p in plans:
      trace = server.execute(p, trace=True)
  rep = {'property': prop, 'tier': tier, 'seed': seed, 'run': lowest,
         'kind': kind, 'what': confirmed['violation']['what'],
         'log': confirmed['log'], 'minimised': best_res is not None,
         'shrink_attempts': tried, 'plans': plans, 'original_plan': plan,
         'repo_head': git_head(),
         'trace': (trace or {}).get('trace', [])[-300:]}
  with open(path, 'w') as f:
    json.dump(rep, f, indent=1)
    f.write('\n')
  return {'kind': kind, 'what': confirmed['violation']['what'], 'replay': path,
          'run': lowest, 'replayed_exactly': bool(exact),
          'shrink_attempts': tried}
