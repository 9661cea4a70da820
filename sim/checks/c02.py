"""C02: a result depends only on the present values of the call's arguments."""
import gc

import numpy as np

from sim import boot, engine, model, monitors, sched, world
from sim.catalog import CATALOG
from sim.outcome import Violation

tf = boot.tf

# Calls whose TT result has the layout of the given argument.
SAME_LAYOUT = {'add': 0, 'sub': 0, 'neg': 0, 'multiply_number': 0,
               'multiply': 0, 'round': 0, 'orthogonalize_tt_cores': 0,
               'renormalize_tt_cores': 0, 'gradients': 0,
               'hessian_vector_product': 0, 'project_sum': 1,
               'approximate_add_n': 0, 'like': 0, 'add_n_projected': -1,
               'multiply_along_batch_dim': 0, 'round_sum': 0}


def gen(rng, tier):
  g = world.Gen(rng, wide=True)
  for s in g.specs.values():
    if rng.random() < 0.4:
      s['var'] = True
    if rng.random() < 0.3:
      s['how'] = 1
  objects = [dict(s) for s in g.specs.values()]
  names = list(CATALOG)
  swarm = rng.sample(names, rng.randint(1, 3)) if rng.random() < 0.6 else None
  steps = []
  n = rng.randint(6, 22) if rng.random() < 0.94 else rng.randint(30, 70)
  last_calls = []
  outs = 0
  for _ in range(n):
    r = rng.random()
    if r < 0.60 or not steps:
      if last_calls and rng.random() < 0.4:
        c = dict(rng.choice(last_calls))
        if rng.random() < 0.5:
          # Same call, other objects of the same layout.
          c['a'] = [g.obj(like=i, batch=g.spec(i)['b'] is not None,
                          same_ranks=not g.spec(i).get('derived'))
                    if rng.random() < 0.5 else i for i in c['a']]
          if any(i is None for i in c['a']):
            c = g.call(swarm)
        elif rng.random() < 0.4:
          # Same call, objects of the other element type.
          other = [_other_type(g, i) for i in c['a']]
          if all(other):
            c['a'] = other
      else:
        c = g.call(swarm)
      c.pop('mode', None)
      if rng.random() < (0.25 if g.focus else 0.08):
        c['mode'] = rng.choice(['fn', 'fn', 'dyn'])
      elif rng.random() < (0.12 if g.focus else 0.05) and c['op'] not in ('shapes', 'methods') and \
          not CATALOG[c['op']].eager_only:
        c['mode'] = 'graph'
      step = {'do': 'call', 'c': c}
      if c['op'] in SAME_LAYOUT and 'mode' not in c and rng.random() < 0.25:
        layout = g.spec(c['a'][SAME_LAYOUT[c['op']]])
        batch = layout['b']
        for i in c['a']:
          if g.spec(i)['b'] is not None and c['op'] in (
              'add', 'sub', 'multiply'):
            batch = g.spec(i)['b']
        new = {'id': 'r%d' % outs, 'k': layout['k'], 'b': batch,
               'shape': layout['shape'], 'ranks': layout['ranks'],
               'dt': layout['dt'], 'seed': 0, 'derived': True}
        outs += 1
        step['out'] = new
        g.specs[new['id']] = dict(new)
      steps.append(step)
      last_calls.append(c)
      if rng.random() < 0.2:
        steps.append({'do': 'scribble'})
    elif r < 0.72:
      ids = [i for i, s in g.specs.items() if not s.get('derived')]
      # Bias towards objects that have been used.
      used = [i for c in last_calls for i in c['a'] if i in ids]
      i = rng.choice(used if used and rng.random() < 0.8 else ids)
      steps.append({'do': 'new', 'id': i, 'seed': g.seed()})
    elif r < 0.84:
      ids = [i for i, s in g.specs.items() if s.get('var')]
      used = [i for c in last_calls for i in c['a'] if i in ids]
      if ids:
        steps.append({'do': 'set', 'id': rng.choice(
            used if used and rng.random() < 0.8 else ids), 'seed': g.seed(),
                      'via': rng.choice(['assign', 'core', 'one'])})
    elif r < 0.90:
      c = g.call(swarm)
      steps.append({'do': 'fail', 'c': c, 'fault':
                    {'kind': rng.choice(['kernel', 'kernel', 'line',
                                         'callback']),
                     'frac': rng.random()}})
    elif r < 0.95:
      c = g.call(swarm)
      c['a'] = [g.obj() if rng.random() < 0.5 else i for i in c['a']]
      steps.append({'do': 'bad', 'c': c})
    else:
      steps.append({'do': 'reread'})
  return {'objects': objects, 'steps_': steps}


def _other_type(g, i):
  for j in g.specs:
    if j.split('_')[0] == i.split('_')[0] and j != i and \
        g.specs[j]['dt'] != g.specs[i]['dt']:
      return j
  return None


def attempt_graph(t3f, inst, specs, cores):
  """The call in a graph of its own."""
  try:
    with tf.Graph().as_default():
      args, dense = [], []
      for s, c in zip(specs, cores):
        args.append(engine.make_object(t3f, dict(s, var=False), c))
        dense.append(engine.dense_of(s, c))
      env = world.CallEnv(t3f, tf, dense)
      r = world.perform(inst, env, args)
      fetch = list(r.tt_cores) if world.is_tt(r) else r
      config = tf.compat.v1.ConfigProto(intra_op_parallelism_threads=1,
                                        inter_op_parallelism_threads=1)
      with tf.compat.v1.Session(config=config) as sess:
        val = sess.run(fetch)
      if world.is_tt(r):
        return engine.Snapshot('tt', [np.array(v) for v in val],
                               engine._meta(r))
      return engine.snapshot(val)
  except Exception as e:
    return engine.exc_snapshot(e)


def _aliases(r):
  if isinstance(r, engine._Traced):
    return False
  parts = r.tt_cores if world.is_tt(r) else \
      r if isinstance(r, (list, tuple)) else [r]
  return any(isinstance(x, tf.Variable) for x in parts)


class History(object):
  """Executes the steps of a plan on one instance of the library."""

  def __init__(self, plan, out):
    self.plan, self.out = plan, out
    self.specs = {s['id']: s for s in plan['objects']}
    self.t3f = boot.fresh_t3f()
    self.solo = engine.Solo()
    self.objs, self.cores = {}, {}
    for i, s in self.specs.items():
      self.cores[i] = model.make_cores(s)
      self.objs[i] = engine.make_object(self.t3f, s)
    self.kept = []
    self.owned = []
    self.calls = 0
    self.problems = []

  def have(self, c):
    return all(i in self.objs for i in c['a'])

  def dense(self, c):
    return [engine.dense_of(self.specs[i], self.cores[i]) for i in c['a']]

  def step(self, st):
    do = st['do']
    if do == 'call':
      self.call(st)
    elif do == 'new':
      i = st['id']
      if i not in self.specs:
        return
      self.objs.pop(i, None)
      self.specs[i] = dict(self.specs[i], seed=st['seed'])
      gc.collect(0)
      self.cores[i] = model.make_cores(self.specs[i])
      self.objs[i] = engine.make_object(self.t3f, self.specs[i])
      self.out.count('objects freed and replaced')
    elif do == 'set':
      self.set(st)
    elif do == 'fail':
      self.fail(st)
    elif do == 'bad':
      c = st['c']
      if self.have(c):
        snap, _ = engine.attempt(self.t3f, c, [self.objs[i] for i in c['a']],
                                 self.dense(c))
        self.out.count('calls with mismatched arguments')
        if snap.kind == 'exc':
          self.out.count('calls that raised')
    elif do == 'scribble':
      self.scribble()
    elif do == 'reread':
      self.reread()

  def set(self, st):
    i = st['id']
    if i not in self.objs:
      return
    spec = dict(self.specs[i], seed=st['seed'])
    new = model.make_cores(spec)
    v = self.objs[i]
    if st['via'] == 'assign':
      self.t3f.assign(v, engine.make_object(self.t3f, dict(spec, var=False)))
    elif st['via'] == 'core':
      for c, n in zip(v.tt_cores, new):
        c.assign(n)
    else:
      k = st['seed'] % len(new)
      v.tt_cores[k].assign(new[k])
      new = [n if j == k else o
             for j, (n, o) in enumerate(zip(new, self.cores[i]))]
    self.cores[i] = new
    self.out.count('variables updated between calls')

  def fail(self, st):
    c = st['c']
    if not self.have(c):
      return
    kind = st['fault']['kind']
    if kind == 'callback' and not CATALOG[c['op']].has_callback:
      kind = 'kernel'
    dense = self.dense(c)
    with sched.Call(None, sched.count_only() if kind == 'line' else None) as prof:
      engine.attempt(self.t3f, c, [self.objs[i] for i in c['a']], dense,
                     lambda x, t: prof.on_callback())
    n = {'kernel': prof.kernels, 'line': prof.places,
         'callback': prof.callbacks}[kind]
    if not n:
      return
    fault = sched.Fault(kind, int(st['fault']['frac'] * n), {
        'kernel': lambda: tf.errors.InternalError(None, None, 'injected'),
        'line': lambda: sched.Interrupt('injected'),
        'callback': lambda: sched.CallbackFault('injected')}[kind])
    try:
      with sched.Call(None, fault) as call:
        engine.perform(self.t3f, c, [self.objs[i] for i in c['a']], dense,
                       lambda x, t: call.on_callback())
    except (Exception, sched.Interrupt):
      pass
    if fault.fired is not None:
      self.out.count('fault:' + kind)

  def call(self, st):
    c = st['c']
    if not self.have(c):
      return
    specs = [self.specs[i] for i in c['a']]
    cores = [self.cores[i] for i in c['a']]
    dense = self.dense(c)
    graph = c.get('mode') == 'graph'
    r = None
    if graph:
      snap = attempt_graph(self.t3f, c, specs, cores)
    else:
      env = world.CallEnv(self.t3f, tf, dense)
      try:
        r = engine.perform(self.t3f, c, [self.objs[i] for i in c['a']], dense,
                           env=env)
        snap = engine.take(r)
      except Exception as e:
        snap = engine.exc_snapshot(e)
      self.owned = env.owned
    if graph:
      with boot.other_instance() as alone:
        want = attempt_graph(alone, c, specs, cores)
    else:
      want = self.solo.result(c, specs, cores, apart=True)
    self.calls += 1
    self.out.log('call', c['op'], snap.kind, *snap.arrays)
    self.out.count('evaluations')
    self.out.count('mode ' + c.get('mode', 'eager'))
    scale, fuzzy = engine.scale_of(c, dense)
    msg = engine.differ(snap, want, scale, fuzzy, world.mixed_dtype(c, dense))
    if msg:
      raise Violation('wrong result', 'call %d of the history, %s: %s' % (
          self.calls, world.describe(c), msg))
    if r is not None:
      live = any(self.specs[i].get('var') for i in c['a'])
      # A result made of the variable's own cores is the variable itself.
      if not live or not _aliases(r):
        self.kept.append((c, r, snap))
      if 'out' in st and world.is_tt(r):
        new = st['out']
        ok = (snap.meta['matrix'] == (new['k'] == 'matrix') and
              snap.meta['batch'] == (new['b'] is not None) and
              snap.meta['raw'] == [list(s) for s in new['shape']])
        if ok and not live:
          self.specs[new['id']] = dict(new, ranks=snap.meta['ranks'])
          self.cores[new['id']] = snap.arrays
          self.objs[new['id']] = r

  def scribble(self):
    """The caller reuses the buffers it passed to the last call."""
    for x in self.owned:
      if isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 77
      elif isinstance(x, list):
        x[:] = [None] * (len(x) + 1)
    if self.owned:
      self.out.count('caller buffers overwritten', len(self.owned))
    self.owned = []

  def reread(self):
    for c, r, snap in self.kept:
      now = engine.take(r)
      self.out.count('results re-read')
      same = now.kind == snap.kind and now.meta == snap.meta and \
          len(now.arrays) == len(snap.arrays) and all(
          np.array_equal(a, b, equal_nan=True) if a.dtype.kind == 'f' else
          np.array_equal(a, b) for a, b in zip(now.arrays, snap.arrays))
      if not same:
        raise Violation('old result changed',
                        'the result of %s changed after it was returned' %
                        world.describe(c))


def run(plan, out):
  h = History(plan, out)
  prev = ['start']
  with engine.quiet():
    def main():
      for st in plan['steps_']:
        h.step(st)
        name = st['do'] + ':' + (st['c']['op'] if 'c' in st else '') + \
            st.get('c', {}).get('mode', '')
        prev.append(name)
        out.sig(*prev[-2:])
        out.count('steps')
      h.reread()

    s = sched.Scheduler({'kind': 'none'}, [_guard(main, h)])
    abort = s.run()
  if h.problems:
    raise h.problems[0]
  if abort:
    raise Violation('stuck', abort)


def _guard(main, h):
  def wrapped():
    try:
      main()
    except Violation as v:
      h.problems.append(v)
  return wrapped
