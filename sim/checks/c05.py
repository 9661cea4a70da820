"""C05: a TT variable behaves like one mutable tensor."""
import numpy as np

from sim import boot, engine, expr, model, sched, world
from sim.catalog import CATALOG
from sim.checks.c01 import schedule_spec
from sim.outcome import Violation

tf = boot.tf

PAIRS = {'x0': 'x1', 'x1': 'x0', 'xb0': 'xb1', 'xb1': 'xb0', 'A0': 'A1',
         'A1': 'A0', 'v0': 'v1', 'v1': 'v0', 'K0': 'K1', 'K1': 'K0',
         'y0': 'y1', 'y1': 'y0'}
CAN_BE = ['x0', 'x1', 'xb0', 'xb1', 'A0', 'A1', 'Ab0', 'S0', 'v0', 'v1', 'vb0',
          'K0', 'K1', 'y0', 'y1']
NAMES = ['v', 'v', 'w', 'a/v', 'core_0', 'layer/weights']


def gen_value(rng, g, v, own):
  """What is assigned to v: constants, another variable, or an expression."""
  r = rng.random()
  objs = [v] + ([PAIRS[v]] if v in PAIRS and own(PAIRS[v]) and
                g.specs[PAIRS[v]]['ranks'] == g.specs[v]['ranks'] else [])
  if r < 0.3:
    return ['const', g.seed()]
  if r < 0.55:
    return ['obj', rng.choice(objs[1:] or objs)]
  lay = dict(g.specs[v], square=g.specs[v]['k'] == 'matrix' and
             g.specs[v]['shape'][0] == g.specs[v]['shape'][1])
  return ['expr', gen_expr(rng, lay, objs, rng.randint(1, 2))]


def gen_expr(rng, lay, names, depth):
  """Expressions that keep the TT-ranks without rounding."""
  if depth == 0:
    return ['obj', rng.choice(names)]
  sub = lambda: gen_expr(rng, lay, names, depth - 1)
  ops = ['neg', 'scale', 'scaleby', 'renorm', 'orth', 'recores']
  if lay['b'] is not None:
    ops.append('along')
  if lay['square']:
    ops.append('transpose')
  k = rng.choice(ops)
  if k == 'scale':
    return [k, 1. if rng.random() < 0.15 else round(
        rng.choice([-1, 1]) * rng.uniform(0.5, 1.4), 3), sub()]
  if k in ('scaleby', 'along'):
    return [k, expr.gen_scalar(rng, lay, names), sub()]
  return [k, sub()]


def gen_program(rng, g, own, swarm, n):
  mine = [i for i in CAN_BE if g.specs[i].get('var') and own(i)]
  steps, calls = [], []
  for _ in range(n):
    r = rng.random()
    v = rng.choice(mine) if mine else None
    if r < 0.4 or v is None:
      for _ in range(10):
        if calls and rng.random() < 0.4:
          c = dict(rng.choice(calls))
          break
        c = g.call(swarm)
        if all(own(i) for i in c['a']):
          break
      if not all(own(i) for i in c['a']):
        continue
      c.pop('mode', None)
      if rng.random() < 0.06:
        c['mode'] = 'fn'
      calls.append(c)
      steps.append({'do': 'call', 'c': c})
      used = [i for i in set(c['a']) if g.specs[i].get('var') and i in mine]
      if used and rng.random() < 0.6:
        # Overwrite what the call has read.
        for i in sorted(used):
          if rng.random() < 0.5:
            steps.append({'do': 'assign', 'v': i, 'val': ['const', g.seed()]})
          else:
            steps.append({'do': 'core', 'v': i, 'k': rng.randrange(10),
                          'how': 'assign', 'seed': g.seed()})
    elif r < 0.6:
      st = {'do': 'assign', 'v': v, 'val': gen_value(rng, g, v, own)}
      if rng.random() < 0.15:
        st['via'] = 'fn'
      elif rng.random() < 0.2:
        st['fault'] = {'kind': rng.choice(['kernel', 'line']),
                       'frac': rng.random()}
      if rng.random() < 0.2:
        st['name'] = rng.choice(NAMES)
      steps.append(st)
    elif r < 0.75:
      steps.append({'do': 'core', 'v': v, 'k': rng.randrange(10),
                    'how': rng.choice(['assign', 'add', 'sub', 'scatter']),
                    'seed': g.seed()})
    elif r < 0.9:
      steps.append({'do': 'read', 'v': v, 'h': rng.randrange(10),
                    'via': rng.choice(['full', 'cores', 'traced', 'traced'])})
    elif r < 0.96:
      steps.append({'do': 'create', 'v': v,
                    'init': ['obj', PAIRS[v]] if v in PAIRS and own(PAIRS[v])
                            and rng.random() < 0.5 else ['const', g.seed()],
                    'name': rng.choice(NAMES)})
    else:
      steps.append({'do': 'reread'})
  return {'steps_': steps}


def gen(rng, tier):
  g = world.Gen(rng, allow_f32=rng.random() < 0.5,
                d=rng.choice([5, 7, 11]) if rng.random() < 0.06 else None)
  many = rng.random() < 0.35
  nthreads = rng.choice([2, 2, 3]) if many else 1
  owner = {}
  for i in CAN_BE:
    if rng.random() < 0.5:
      g.specs[i]['var'] = True
      owner[i] = rng.randrange(nthreads)
  if 'x0' in owner and 'x1' in owner and rng.random() < 0.5:
    owner['x1'] = owner['x0']
  swarm = rng.sample(list(CATALOG), 3) if rng.random() < 0.4 else None
  progs = [gen_program(rng, g, lambda i, t=t: owner.get(i, t) == t, swarm,
                       rng.randint(4, 8) if many else rng.randint(8, 24))
           for t in range(nthreads)]
  ids = set(owner)
  for p in progs:
    for st in p['steps_']:
      if st['do'] == 'call':
        ids.update(st['c']['a'])
      if 'v' in st and st['v'] in PAIRS:
        ids.add(PAIRS[st['v']])
  plan = {'objects': [g.specs[i] for i in g.specs if i in ids],
          'names': {i: rng.choice(NAMES) for i in owner},
          'trainable': {i: rng.random() < 0.8 for i in owner},
          'threads_': progs, 'opcodes': False}
  if many:
    plan['sched'] = schedule_spec(rng, nthreads)
  return plan


class World(object):
  """Objects of one execution with the model of their contents."""

  def __init__(self, plan, out):
    self.plan, self.out = plan, out
    self.specs = {s['id']: s for s in plan['objects']}
    self.t3f = boot.fresh_t3f()
    self.cores, self.objs, self.handles = {}, {}, {}
    self.kept = []     # (text, object, snapshot at the time)
    self.judge = []    # calls to compare with the solo oracle afterwards
    self.traced = {}
    self.sources = []  # values and initializers that must never change
    for i, s in self.specs.items():
      plain = dict(s, var=False)
      if s.get('var'):
        self.create(i, ['const', s['seed']], plan['names'][i],
                    plan['trainable'][i])
      else:
        self.objs[i] = engine.make_object(self.t3f, plain)
        self.cores[i] = model.make_cores(plain)

  def const(self, i, seed):
    s = dict(self.specs[i], var=False, seed=seed)
    obj = engine.make_object(self.t3f, s)
    self.sources.append(('a constant assigned or used as initializer', obj,
                         model.make_cores(s)))
    return obj

  def create(self, i, init, name, trainable=True):
    if init[0] == 'const':
      src, want = self.const(i, init[1]), model.make_cores(
          dict(self.specs[i], seed=init[1]))
    else:
      src, want = self.objs[init[1]], self.cores[init[1]]
    v = self.t3f.get_variable(name, initializer=src, trainable=trainable)
    # Results of earlier assignments belong to the variable that was replaced.
    self.objs[i] = v
    self.handles[i] = [v]
    self.traced.pop(i, None)
    self.cores[i] = [np.array(c) for c in want]

  def check_var(self, i, when, handles=None):
    for n, h in enumerate(self.handles[i] if handles is None else handles):
      what = 'variable %s' % i if n == 0 else \
          'the object assignment %d to %s returned' % (n, i)
      if len(h.tt_cores) != len(self.cores[i]):
        raise Violation('wrong contents', '%s: %s has %d cores' % (
            when, what, len(h.tt_cores)))
      for k, (c, w) in enumerate(zip(h.tt_cores, self.cores[i])):
        got = np.array(c)
        if got.shape != w.shape or not np.array_equal(got, w):
          raise Violation('wrong contents', '%s: core %d of %s is not what was '
                          'stored last' % (when, k, what))

  def check_all(self, when, own):
    for i in self.handles:
      if own(i):
        self.check_var(i, when)

  def check_sources(self):
    for what, obj, want in self.sources:
      for c, w in zip(obj.tt_cores, want):
        if not np.array_equal(np.array(c), w):
          raise Violation('source changed', '%s was changed' % what)

  def reread(self):
    for text, r, snap in self.kept:
      now = engine.take(r)
      self.out.count('results re-read')
      if now.kind != snap.kind or now.meta != snap.meta or not all(
          np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
          for a, b in zip(now.arrays, snap.arrays)):
        raise Violation('old result changed', 'the result of %s changed after '
                        'it was returned' % text)


def program(w, plan, t, s, out, problems):
  own = lambda i: True
  if len(plan['threads_']) > 1:
    mine = set()
    for st in plan['threads_'][t]['steps_']:
      mine.update([st['v']] if 'v' in st else [])
    own = lambda i: i in mine
  t3f = w.t3f

  def value(st):
    """(object to assign, what it must hold); None if it does not apply."""
    v, val = st['v'], st['val']
    if val[0] == 'const':
      return w.const(v, val[1]), model.make_cores(dict(w.specs[v],
                                                       seed=val[1]))
    if val[0] == 'obj':
      if val[1] not in w.objs:
        return None, None
      return w.objs[val[1]], [np.array(c) for c in w.cores[val[1]]]
    names = expr.objects(val[1])
    if not names <= set(w.objs):
      return None, None
    lay = dict(w.specs[v], r=None)
    obj = expr.evaluate(val[1], t3f, tf, w.objs, lay)
    want = [np.array(c) for c in obj.tt_cores]
    w.judge.append(('expr', val[1], lay, {n: w.cores[n] for n in names},
                    {n: w.specs[n] for n in names}, want))
    return obj, want

  def assign(st):
    v = st['v']
    kw = {'name': st['name']} if 'name' in st else {}
    var = w.objs[v]
    if st.get('via') == 'fn':
      # The value is computed inside the traced function.
      box, dense = {}, []
      if st['val'][0] == 'expr':
        if not expr.objects(st['val'][1]) <= set(w.objs):
          return
        names = expr.objects(st['val'][1])
        lay = dict(w.specs[v], r=None)
        make = lambda: expr.evaluate(st['val'][1], t3f, tf, w.objs, lay)
        before = {n: w.cores[n] for n in names}, {n: w.specs[n] for n in names}
      else:
        val, want = value(st)
        if val is None:
          return
        make, before = lambda: val, None

      def traced():
        res = t3f.assign(var, make(), **kw)
        return t3f.full(res), t3f.full(var)

      with sched.Call(s) as call:
        a, b = tf.function(traced, autograph=False)()
      now = [np.array(c) for c in var.tt_cores]
      if before is not None:
        w.judge.append(('expr', st['val'][1], lay) + before + (now,))
        want = now
      if not all(np.array_equal(x, y) for x, y in zip(now, want)):
        raise Violation('wrong contents', 'assign to %s inside tf.function did '
                        'not store the value' % v)
      w.cores[v] = want
      d = engine.dense_of(w.specs[v], want).v
      for what, got in (('the object returned by assign', a),
                        ('the variable', b)):
        if not np.allclose(np.array(got).reshape(d.shape), d, rtol=1e-3,
                           atol=1e-4 * (1 + np.abs(d).max())):
          raise Violation('wrong result', '%s, read inside the tf.function that '
                          'assigned %s, is not the assigned value' % (what, v))
      out.count('assignments in traced functions')
      return
    val, want = value(st)
    if val is None:
      return
    old = w.cores[v]
    fault = None
    if 'fault' in st:
      f = st['fault']
      # Half of the assignment's events: it has about two kernels per core.
      n = 2 * len(old) if f['kind'] == 'kernel' else 10 * len(old)
      fault = sched.Fault(f['kind'], int(f['frac'] * n),
                          lambda: sched.Interrupt('injected')
                          if f['kind'] == 'line' else
                          tf.errors.InternalError(None, None, 'injected'))
    res = None
    try:
      with sched.Call(s, fault) as call:
        res = t3f.assign(var, val, **kw)
    except (sched.Interrupt, tf.errors.InternalError):
      if fault is None or fault.fired is None:
        raise
    if fault is not None and fault.fired is not None:
      out.count('fault:%s' % f['kind'])
    if res is None:
      # Interrupted: every core is old or new.
      now = []
      for k, c in enumerate(var.tt_cores):
        got = np.array(c)
        if not np.array_equal(got, old[k]) and not np.array_equal(got, want[k]):
          raise Violation('wrong contents', 'after an interrupted assignment '
                          'core %d of %s is neither the old nor the new one' %
                          (k, v))
        now.append(got)
      w.cores[v] = now
      return
    w.cores[v] = want
    w.handles[v].append(res)
    if st['val'][0] == 'expr':
      w.sources.append(('an assigned value', val, want))

  def core(st):
    v = st['v']
    k = st['k'] % len(w.cores[v])
    old = w.cores[v][k]
    delta = np.round(np.random.RandomState(st['seed']).randn(*old.shape), 2)
    delta = delta.astype(old.dtype)
    var = w.objs[v].tt_cores[k]
    new = list(w.cores[v])
    if st['how'] == 'assign':
      var.assign(delta)
      new[k] = delta
    elif st['how'] == 'add':
      var.assign_add(delta)
      new[k] = old + delta
    elif st['how'] == 'sub':
      var.assign_sub(delta)
      new[k] = old - delta
    else:
      var.scatter_nd_update([[0] * old.ndim], [delta.flat[0]])
      new[k] = old.copy()
      new[k][(0,) * old.ndim] = delta.flat[0]
    w.cores[v] = new

  def read(st):
    v = st['v']
    h = w.handles[v][st['h'] % len(w.handles[v])]
    if st['via'] == 'cores':
      return w.check_var(v, 'read', [h])
    with sched.Call(s) as call:
      if st['via'] == 'full':
        got = t3f.full(h)
      else:
        # Traced once per variable, called again and again.
        if v not in w.traced:
          var = w.objs[v]
          w.traced[v] = tf.function(lambda: t3f.full(var), autograph=False)
        got = w.traced[v]()
    d = engine.dense_of(w.specs[v], w.cores[v]).v
    got = np.array(got)
    if not np.allclose(got.reshape(d.shape), d, rtol=1e-3,
                       atol=1e-4 * (1 + np.abs(d).max())):
      raise Violation('stale read', '%s of %s does not see the value stored '
                      'last' % ('full()' if st['via'] == 'full' else
                                'a traced function that reads', v))

  def call_(st):
    c = st['c']
    if not all(i in w.objs for i in c['a']):
      return
    specs = [w.specs[i] for i in c['a']]
    cores = [w.cores[i] for i in c['a']]
    dense = [engine.dense_of(sp, co) for sp, co in zip(specs, cores)]
    with sched.Call(s) as call:
      snap, r = engine.attempt(t3f, c, [w.objs[i] for i in c['a']], dense)
    w.judge.append(('call', c, specs, cores, snap))
    out.log(t, 'call', c['op'], snap.kind, *snap.arrays)
    if r is not None:
      w.kept.append((world.describe(c), r, snap))

  def main():
    prev = 'start'
    for st in plan['threads_'][t]['steps_']:
      do = st['do']
      if 'v' in st and st['v'] not in w.handles:
        continue
      if do == 'assign':
        assign(st)
      elif do == 'core':
        core(st)
      elif do == 'read':
        read(st)
      elif do == 'call':
        call_(st)
      elif do == 'create':
        if st['init'][0] == 'obj' and st['init'][1] not in w.objs:
          continue
        with sched.Call(s) as call:
          w.create(st['v'], st['init'], st['name'])
      else:
        w.reread()
      out.count('evaluations')
      out.count('step ' + do)
      name = (do, st.get('via'), st.get('how'), st.get('val', [''])[0],
              'fault' in st, st['c']['op'] if 'c' in st else None)
      out.sig(prev, name)
      prev = name
      if 'v' in st:
        out.log(t, do, st['v'], *w.cores[st['v']])
      w.check_all('after %s of %s by thread %d' % (do, st.get('v', ''), t), own)

  def wrapped():
    try:
      main()
    except Violation as v:
      problems.append(v)

  return wrapped


def run(plan, out):
  with engine.quiet():
    w = World(plan, out)
    problems = []
    progs = []
    n = len(plan['threads_'])
    s = sched.Scheduler(plan.get('sched', {'kind': 'none'}),
                        [lambda t=t: progs[t]() for t in range(n)] or
                        [lambda: None])
    progs = [program(w, plan, t, s, out, problems) for t in range(n)]
    abort = s.run()
    if 'sched' in plan:
      out.decisions = s.decisions
      out.count('preemptions', s.switches)
      for p in s.pairs:
        out.sig(*p)
    out.count('steps', sum(s.step))
    if problems:
      raise problems[0]
    if abort:
      raise Violation('stuck', abort)
    w.check_all('at the end', lambda i: True)
    w.reread()
    w.check_sources()
    solo = engine.Solo()
    for j in w.judge:
      if j[0] == 'call':
        _, c, specs, cores, snap = j
        want = solo.result(c, [dict(x, var=False) for x in specs], cores,
                           apart=True)
        dense = [engine.dense_of(sp, co) for sp, co in zip(specs, cores)]
        scale, fuzzy = engine.scale_of(c, dense)
        msg = engine.differ(snap, want, scale, fuzzy,
                            world.mixed_dtype(c, dense))
        if msg:
          raise Violation('wrong result', '%s on variables: %s' % (
              world.describe(c), msg))
      else:
        _, e, lay, cores, specs, got = j
        with boot.other_instance() as t3f:
          objs = {i: engine.make_object(t3f, dict(specs[i], var=False),
                                        cores[i]) for i in cores}
          val = expr.evaluate(e, t3f, tf, objs, lay)
          want = engine.dense_of(lay, [np.array(c) for c in val.tt_cores]).v
        d = engine.dense_of(lay, got).v
        tol = 1e-6 if lay['dt'] == 'float64' else 1e-2
        if not np.all(np.isfinite(want)):
          continue
        if not np.abs(d - want).max() <= tol * (np.abs(want).max() + 1e-3):
          raise Violation('wrong result', 'the value %s computed from variables '
                          'is not that of their contents' % expr.text(e))
      out.count('results compared')
