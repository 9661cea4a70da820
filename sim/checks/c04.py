"""C04: calls leave caller-owned data and process-wide state alone."""
import numpy as np

from sim import boot, engine, extra, model, monitors, sched, world
from sim.catalog import CATALOG
from sim.outcome import Violation

tf = boot.tf


def gen(rng, tier):
  g = world.Gen(rng, wide=True)
  for s in g.specs.values():
    if rng.random() < 0.25:
      s['var'] = True
  swarm = rng.sample(list(CATALOG), rng.randint(1, 4)) \
      if rng.random() < 0.5 else None
  steps = []
  for _ in range(rng.randint(4, 12)):
    r = rng.random()
    if r < 0.55:
      c = g.call(swarm)
      if rng.random() < 0.07:
        c['mode'] = rng.choice(['fn', 'fn', 'dyn'])
      steps.append({'do': 'call', 'c': c})
    elif r < 0.70:
      c = g.call(swarm)
      how = rng.choice(['swap', 'swap', 'rank', 'weights'])
      if how == 'rank' and 'rank' in c['p']:
        c['p'] = dict(c['p'], rank=rng.choice([0, -1, [1, 2]]))
      elif how == 'weights' and c['p'].get('w'):
        c['p'] = dict(c['p'], w=c['p']['w'] + [1.0, 2.0])
      else:
        c['a'] = [g.obj() if rng.random() < 0.6 else i for i in c['a']]
      steps.append({'do': 'call', 'c': c})
    elif r < 0.82:
      c = g.call(swarm)
      steps.append({'do': 'call', 'c': c, 'fault': {
          'kind': rng.choice(['kernel', 'line', 'callback']),
          'frac': rng.random()}})
    else:
      c = extra.gen(g, rng)
      if c['op'] == 'random' and rng.random() < 0.3:
        # An invalid request.
        c['p']['rank'] = rng.choice([0, [1, 2], [1, -1, 1]])
      steps.append({'do': 'extra', 'c': c})
  return {'objects': world.used_specs(g.specs, [s['c'] for s in steps]),
          'steps_': steps, 'tfseed': rng.randrange(2 ** 31),
          'npseed': rng.randrange(2 ** 31),
          'scope': rng.choice([None, None, 'outer', 'outer/inner']),
          'err': rng.choice([None, 'ignore', 'raise']),
          'graph': rng.random() < 0.15}


class Watch(object):

  def __init__(self, t3f, objs):
    self.states = [monitors.TTState(i, o) for i, o in objs.items()]

  def diff(self):
    for st in self.states:
      msg = st.diff()
      if msg:
        return msg
    return None


def do_extra(t3f, c, objs, specs, own):
  p = c['p']
  if c['op'] == 'random':
    return extra.do_random(t3f, p, own)
  if c['op'] == 'layer':
    dims = own([own(list(p['in'])), own(list(p['out']))])
    layer = t3f.nn.KerasDense(dims[0], dims[1], p['rank'], use_bias=p['bias'],
                              activation=p['act'])
    x = own(np.random.RandomState(p['seed']).randn(
        2, model.prod(p['in'])).astype('float32'))
    return layer(tf.constant(x))
  init = objs[c['a'][0]]
  v = t3f.get_variable(p['name'], initializer=init)
  if c['op'] == 'assign':
    value = engine.make_object(t3f, dict(specs[c['a'][0]], seed=p['seed'],
                                         var=False))
    st = monitors.TTState('the assigned value', value)
    t3f.assign(v, value)
    return st.diff()
  return None


def run(plan, out):
  tf.random.set_seed(plan['tfseed'])
  np.random.seed(plan['npseed'])
  import random
  random.seed(plan['npseed'])
  specs = {s['id']: s for s in plan['objects']}
  dense = {i: world.build_dense(s) for i, s in specs.items()}
  t3f = boot.fresh_t3f()
  objs = {}
  if not plan['graph']:
    objs = {i: engine.make_object(t3f, s) for i, s in specs.items()}
  problems = []

  def check(kind, msg, c, how):
    out.count('evaluations')
    if msg:
      raise Violation(kind, '%s (%s): %s' % (world.describe(c) if c['a'] else
                                            '%s %s' % (c['op'], c['p']), how,
                                            msg))

  def step(st):
    c = st['c']
    if not all(i in objs for i in c['a']):
      return
    is_extra = st['do'] == 'extra'
    owned = monitors.Owned()

    def own(x):
      owned.append(x)
      return x

    watch = Watch(t3f, objs)
    before = monitors.GlobalState(is_extra or
                                  CATALOG[c['op']].advances_rng)
    fault = None
    f = st.get('fault')
    args = [objs[i] for i in c['a']]
    ds = [dense[i] for i in c['a']]
    env = world.CallEnv(t3f, tf, ds, lambda x, t: on_callback())
    env.owned = owned
    how = 'returned'
    seen = []

    def on_callback():
      # Other threads and the callback itself see the process-wide functions.
      msg = monitors.compare_tables(before.tables, monitors.function_tables())
      if msg:
        seen.append(msg)
      now = monitors.light_state()
      for k in ('numpy random state', 'python random state', 'environment',
                'TensorFlow global seed', 'numpy error modes',
                'warning filters'):
        if now[k] != before.light[k]:
          seen.append(k + ' changed')
      call.on_callback()

    if f is not None:
      kind = f['kind'] if f['kind'] != 'callback' or \
          CATALOG[c['op']].has_callback else 'line'
      with sched.Call(None, sched.count_only()) as call:
        try:
          engine.perform(t3f, c, args, ds, env=env)
        except Exception:
          pass
      n = {'kernel': call.kernels, 'line': call.places,
           'callback': call.callbacks}[kind]
      owned[:] = []
      if n:
        fault = sched.Fault(kind, int(f['frac'] * n), {
            'kernel': lambda: tf.errors.InternalError(None, None, 'injected'),
            'line': lambda: sched.Interrupt('injected'),
            'callback': lambda: sched.CallbackFault('injected')}[kind])
    try:
      with sched.Call(None, fault) as call:
        if is_extra:
          msg = do_extra(t3f, c, objs, specs, own)
          if isinstance(msg, str):
            seen.append(msg)
        else:
          engine.perform(t3f, c, args, ds, env=env)
    except sched.SimAbort:
      raise
    except (Exception, sched.Interrupt) as e:
      how = 'raised %s' % type(e).__name__
      del e
    if fault is not None and fault.fired is not None:
      out.count('fault:' + fault.kind)
      fault.fired = None
    out.count('steps', call.kernels + 1)
    out.count(how.split()[0] if how == 'returned' else 'raised')
    out.log(c['op'], how, len(owned))
    out.sig(c['op'], c['p'].get('name'), how, c.get('mode'), len(owned))
    msg = before.diff()
    if msg:
      monitors.restore(before)
    check('state changed', msg, c, how)
    check('state changed', 'visible inside the callback: ' + seen[0]
          if seen else None, c, how)
    check('argument changed', watch.diff(), c, how)
    check('argument changed', owned.diff(), c, how)
    out.count('caller-owned containers watched', len(owned))

  def main():
    try:
      scope = plan['scope']
      if plan['graph']:
        with tf.Graph().as_default():
          for i, s in specs.items():
            objs[i] = engine.make_object(t3f, dict(s, var=False))
          for st in plan['steps_']:
            if st['do'] == 'call' and \
                not CATALOG[st['c']['op']].eager_only:
              step({k: dict(v, mode='eager') if k == 'c' else v
                    for k, v in st.items()})
        return
      with np.errstate(all=plan['err']) if plan['err'] else np.errstate():
        if scope is None:
          for st in plan['steps_']:
            step(st)
        else:
          with tf.compat.v1.variable_scope(scope), tf.name_scope('ns'):
            for st in plan['steps_']:
              step(st)
    except Violation as v:
      problems.append(v)

  with engine.quiet():
    s = sched.Scheduler({'kind': 'none'}, [main])
    abort = s.run()
  if problems:
    raise problems[0]
  if abort:
    raise Violation('stuck', abort)
