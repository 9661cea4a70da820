"""C03: an internal failure reaches the caller and leaves nothing behind."""
import builtins

import numpy as np

from sim import boot, engine, extra, genuine, monitors, sched, world
from sim.catalog import CATALOG
from sim.outcome import Violation
from sim.checks.c01 import schedule_spec

tf = boot.tf

KERNEL_ERRORS = ['InternalError', 'ResourceExhaustedError',
                 'InvalidArgumentError', 'UnavailableError', 'UnknownError',
                 'AbortedError', 'CancelledError', 'DataLossError',
                 'DeadlineExceededError', 'FailedPreconditionError',
                 'NotFoundError', 'OutOfRangeError', 'UnimplementedError']
CALLBACK_ERRORS = ['CallbackFault', 'CallbackFault', 'Interrupt', 'ValueError',
                   'TypeError', 'AttributeError', 'KeyError', 'AssertionError',
                   'NotImplementedError', 'StopIteration', 'SystemExit',
                   'ZeroDivisionError', 'InvalidArgumentError', 'MemoryError']
LINE_ERRORS = ['Interrupt', 'MemoryError']


def gen(rng, tier):
  g = world.Gen(rng, allow_f32=False, wide=True)
  for s in g.specs.values():
    if rng.random() < 0.25:
      s['var'] = True
  r = rng.random()
  if r < 0.22:
    target = extra.gen(g, rng)
  else:
    target = g.call()
    if rng.random() < 0.07:
      target['mode'] = rng.choice(['fn', 'fn', 'dyn'])
  faults = []
  types = rng.sample(range(40), 12)
  for _ in range(rng.randint(6, 16)):
    kind = rng.choices(['kernel', 'line', 'callback'], [6, 4, 2])[0]
    f = {'kind': kind, 'frac': rng.random()}
    if kind == 'kernel' and types and rng.random() < 0.8:
      f['by'] = types.pop()    # a kernel type first, then one of its calls
    f['others'] = rng.random() < 0.35
    f['cold'] = rng.random() < 0.3
    if kind == 'line':
      f['shared'] = rng.random() < 0.3
    f['error'] = rng.choice(KERNEL_ERRORS if kind == 'kernel' else
                            LINE_ERRORS if kind == 'line' else
                            CALLBACK_ERRORS)
    faults.append(f)
  other = [g.call([target['op']] if target['op'] in CATALOG and
                  rng.random() < 0.6 else None, exact=True) for _ in range(rng.randint(1, 2))]
  if rng.random() < 0.3:
    other.append(g.call())
  if target['op'] in CATALOG and CATALOG[target['op']].has_callback:
    # Is the run-time check still in force afterwards?
    for _ in range(20):
      c = g.call(['gradients', 'hessian_vector_product'], exact=True)
      if c['p']['f'] == 'cores':
        other.append(c)
        break
  beside = []
  if rng.random() < 0.3:
    beside = [g.call([target['op']] if target['op'] in CATALOG and
                     rng.random() < 0.6 else None, exact=True)
              for _ in range(rng.randint(1, 2))]
  calls = [target] + other + beside
  bad = [genuine.gen(g, rng)] if rng.random() < 0.15 else []
  return {'objects': world.used_specs(g.specs, calls), 'target': target,
          'genuine_': bad,
          'faults_': faults, 'other_': other, 'beside_': beside,
          'tfseed': rng.randrange(2 ** 31),
          'sched': schedule_spec(rng)}


def make_error(name):
  if name == 'Interrupt':
    return sched.Interrupt('injected')
  if name == 'CallbackFault':
    return sched.CallbackFault('injected')
  if hasattr(builtins, name):
    return getattr(builtins, name)('injected')
  return getattr(tf.errors, name)(None, None, 'injected')


def chained(e, injected):
  seen = []
  todo = [e]
  while todo:
    x = todo.pop()
    if x is None or any(x is y for y in seen):
      continue
    if x is injected:
      return True
    seen.append(x)
    todo += [x.__cause__, x.__context__]
  return False


class Bench(object):

  def __init__(self, plan, out):
    self.plan, self.out = plan, out
    self.specs = {s['id']: s for s in plan['objects']}
    self.dense = {i: world.build_dense(s) for i, s in self.specs.items()}
    self.solo = {}
    self.todo = []
    for c in [plan['target']] + plan['other_'] + plan['beside_']:
      if c['op'] in CATALOG:
        self.expect(c)
    self.renew()

  def renew(self):
    """A library and objects that no call has touched yet."""
    self.t3f = boot.fresh_t3f()
    self.objs = {i: engine.make_object(self.t3f, s)
                 for i, s in self.specs.items()}
    self.states = [monitors.TTState(i, o) for i, o in self.objs.items()]

  def expect(self, c):
    k = repr(c)
    if k not in self.solo:
      d = [self.dense[i] for i in c['a']]
      self.solo[k] = (engine.Solo().result(c, [self.specs[i] for i in c['a']]),
                      ) + engine.scale_of(c, d) + (world.mixed_dtype(c, d),)
    return self.solo[k]

  def judge(self, c, snap, when):
    want, scale, fuzzy, dt = self.solo[repr(c)]
    self.out.count('evaluations')
    msg = engine.differ(snap, want, scale, fuzzy, dt)
    if msg:
      raise Violation('wrong result', '%s %s: %s' % (world.describe(c), when,
                                                     msg))

  def args(self, c):
    return ([self.objs[i] for i in c['a']], [self.dense[i] for i in c['a']])

  def check_args(self, when):
    for st in self.states:
      msg = st.diff()
      if msg:
        raise Violation('argument changed', '%s: %s' % (when, msg))


def profile(b, c):
  """Numbers of kernels, lines and callbacks of a clean call."""
  args, dense = b.args(c)
  with sched.Call(None, sched.count_only()) as call:
    snap, _ = engine.attempt(b.t3f, c, args, dense,
                             lambda x, t: call.on_callback())
  return snap, {'kernel': call.kernels, 'line': call.places,
                'callback': call.callbacks, 'names': call.kernel_names,
                'shared': call.shared_places}


def make_fault(f, counts, kind, make):
  """The armed fault for one entry of the plan."""
  if kind == 'kernel' and f.get('by') is not None:
    names = sorted(counts['names'])
    name = names[f['by'] % len(names)]
    return sched.Fault(kind, int(f['frac'] * counts['names'][name]), make, name)
  if kind == 'line' and f.get('shared') and counts.get('shared'):
    places = counts['shared']
    return sched.Fault(kind, places[int(f['frac'] * len(places))], make)
  return sched.Fault(kind, int(f['frac'] * max(1, counts[kind])), make)


def run_catalog(b, plan, out):
  c = plan['target']
  snap, counts = profile(b, c)
  b.judge(c, snap, 'without any fault')
  name = world.describe(c)
  for f in plan['faults_']:
    if f.get('cold'):
      b.renew()
    args, dense = b.args(c)
    n = counts[f['kind']]
    kind = f['kind']
    if not n:
      kind, n = 'kernel', counts['kernel']
      if not n:
        kind, n = 'line', counts['line']
    error = f['error'] if kind == f['kind'] else \
        ('InternalError' if kind == 'kernel' else 'Interrupt')
    fault = make_fault(f, counts, kind, lambda: make_error(error))
    before = monitors.GlobalState(CATALOG[c['op']].advances_rng)
    env = world.CallEnv(b.t3f, tf, dense, lambda x, t: call.on_callback())
    env.owned = monitors.Owned()
    raised, result = None, None
    try:
      with sched.Call(None, fault) as call:
        result = engine.perform(b.t3f, c, args, dense, env=env)
    except sched.SimAbort:
      raise
    except BaseException as e:
      raised = e
    if fault.fired is None:
      out.count('faults that did not fire')
    else:
      out.count('fault:%s %s' % (kind, error))
      out.sig(c['op'], kind, fault.site, error)
    when = 'with %s at %s %d (%s)' % (error, kind, fault.at, fault.site)
    out.log(c['op'], kind, fault.at, fault.site, type(raised).__name__)
    out.count('steps', call.lines + call.kernels)
    if raised is None:
      b.judge(c, engine.take(result), when)
    elif fault.fired is not None and not chained(raised, fault.fired):
      raise Violation('failure masked', '%s %s: the caller sees an unrelated '
                      '%s: %s' % (name, when, type(raised).__name__,
                                  str(raised)[:150]))
    raised = None
    msg = before.diff()
    if msg:
      monitors.restore(before)
      raise Violation('state left behind', '%s %s: %s' % (name, when, msg))
    msg = env.owned.diff()
    if msg:
      raise Violation('argument changed', '%s %s: %s' % (name, when, msg))
    b.check_args('%s %s' % (name, when))
    # The same call again, then other calls.
    snap, _ = engine.attempt(b.t3f, c, args, dense)
    b.judge(c, snap, 'repeated after %s' % when)
    for o in plan['other_'] if f['others'] else ():
      oargs, odense = b.args(o)
      snap, _ = engine.attempt(b.t3f, o, oargs, odense)
      b.judge(o, snap, 'after %s failed %s' % (name, when))
  b.check_args('at the end')


def run_beside(b, plan, out):
  """The target fails in one thread while another thread is working."""
  c = plan['target']
  problems = []
  f = plan['faults_'][0] if plan['faults_'] else \
      {'kind': 'kernel', 'frac': 0.5, 'error': 'InternalError'}
  _, counts = profile(b, c)
  if f.get('cold'):
    b.renew()
  args, dense = b.args(c)
  kind = f['kind'] if counts[f['kind']] else 'line'
  error = f['error'] if kind == f['kind'] else 'Interrupt'
  fault = make_fault(f, counts, kind, lambda: make_error(error))

  def failing():
    try:
      with sched.Call(s, fault) as call:
        engine.perform(b.t3f, c, args, dense,
                       lambda x, t: call.on_callback())
    except sched.SimAbort:
      raise
    except BaseException:
      pass

  def working():
    for o in plan['beside_']:
      oargs, odense = b.args(o)
      with sched.Call(s) as call:
        snap, _ = engine.attempt(b.t3f, o, oargs, odense,
                                 lambda x, t: call.on_callback())
      try:
        b.judge(o, snap, 'while %s fails in another thread' %
                world.describe(c))
      except Violation as v:
        problems.append(v)

  s = sched.Scheduler(plan['sched'], [failing, working])
  abort = s.run()
  out.decisions = s.decisions
  out.count('steps', sum(s.step))
  if fault.fired is not None:
    out.count('fault:%s %s (other thread working)' % (kind, error))
  if abort:
    raise Violation('stuck', 'threads do not finish after a fault: ' + abort)
  if problems:
    raise problems[0]
  for o in plan['beside_'] + [c]:
    oargs, odense = b.args(o)
    snap, _ = engine.attempt(b.t3f, o, oargs, odense)
    b.judge(o, snap, 'after a failure in another thread')


def run(plan, out):
  tf.random.set_seed(plan['tfseed'])
  b = Bench(plan, out)
  problems = []

  def main():
    try:
      for p in plan['genuine_']:
        genuine.run(b, p, plan['other_'], out)
      if plan['target']['op'] in CATALOG:
        run_catalog(b, plan, out)
      else:
        extra.run_with_faults(b, plan, out, make_error, chained, make_fault)
    except Violation as v:
      problems.append(v)

  with engine.quiet():
    s = sched.Scheduler({'kind': 'none'}, [main])
    abort = s.run()
    if problems:
      raise problems[0]
    if abort:
      raise Violation('stuck', abort)
    if plan['beside_'] and plan['target']['op'] in CATALOG:
      run_beside(b, plan, out)
