"""C07: graph-mode updates do not depend on the executor's order."""
import numpy as np

from sim import boot, engine, expr, graphsim, model
from sim.outcome import Violation

tf = boot.tf

FETCH = ['full', 'full', 'inner', 'norm', 'cores', 'sum', 'op', 'after', 'item']


def gen_order(rng):
  if rng.random() < 0.55:
    return {'kind': rng.choice(['uniform', 'assign_first', 'assign_last',
                                'read_last', 'read_first']),
            'seed': rng.randrange(2 ** 31)}
  return {'kind': 'moves',
          'early_': [rng.randrange(10 ** 6) for _ in range(rng.randint(0, 4))],
          'late_': [rng.randrange(10 ** 6) for _ in range(rng.randint(0, 4))]}


def gen(rng, tier):
  lay = expr.gen_layout(rng)
  if rng.random() < 0.15:
    lay['dt'] = 'float32'
  depth = 1 if lay['dt'] == 'float32' else 3
  names = ['v', 'v', 'v', 'x']
  if rng.random() < 0.5:
    names.append('u')
  updates = []
  for _ in range(rng.randint(1, 3)):
    u = {'to': 'u' if 'u' in names and rng.random() < 0.25 else 'v',
         'e': expr.gen(rng, lay, names, rng.randint(1, depth)),
         'fetch': rng.choice(FETCH)}
    if u['fetch'] == 'item' and lay['k'] == 'matrix':
      u['fetch'] = 'full'
    if rng.random() < 0.25:
      # A second assignment computed from the object the first one returned.
      # It runs the first one only if it depends on it.
      while 'res' not in expr.objects(u.get('then')):
        u['then'] = expr.gen(rng, lay, ['res', 'res', 'x'], rng.randint(1, min(2, depth)))
      u['then_to'] = u['to'] if rng.random() < 0.6 or 'u' not in names else 'u'
    updates.append(u)
  steps = []
  for _ in range(rng.randint(3, 8)):
    steps.append({'u': rng.randrange(len(updates)), 'order': gen_order(rng)})
  return {'lay': lay, 'seeds': {n: rng.randrange(2 ** 31)
                                for n in ('v', 'x', 'u')},
          'updates': updates, 'steps_': steps}


def _spec(plan, name):
  return dict(plan['lay'], id=name, seed=plan['seeds'].get(name, 0))


def dense(plan, cores):
  lay = plan['lay']
  return model.dense_from_cores(cores, lay['k'] == 'matrix',
                                lay['b'] is not None)


def reference(plan, e, state):
  """The value of an expression on the given contents, computed eagerly and
  alone by freshly executed modules."""
  with boot.other_instance() as t3f, engine.quiet():
    objs = {n: engine.make_object(t3f, _spec(plan, n), cores)
            for n, cores in state.items()}
    val = expr.evaluate(e, t3f, tf, objs, plan['lay'])
    return [np.array(c) for c in val.tt_cores]


def derived(t3f, kind, obj, var, x):
  """Tensors to fetch, computed from the object an assignment returned."""
  if kind == 'full':
    return [t3f.full(obj)]
  if kind == 'inner':
    return [t3f.flat_inner(obj, x)]
  if kind == 'norm':
    return [t3f.frobenius_norm_squared(obj, differentiable=True)]
  if kind == 'sum':
    return [t3f.full(obj + x)]
  if kind == 'op':
    return [obj.op]
  if kind == 'after':
    # The variable, read once the assignment is over.
    with tf.control_dependencies([obj.op]):
      return [t3f.full(var)]
  if kind == 'item':
    return [t3f.full(obj[first(obj)])]
  return [tf.identity(c) for c in obj.tt_cores]


def derived_model(plan, kind, val, x):
  d, dx = dense(plan, val), dense(plan, x)
  batch = plan['lay']['b'] is not None
  axes = tuple(range(1 if batch else 0, d.ndim))
  if kind == 'full':
    return [d]
  if kind == 'inner':
    return [(d * dx).sum(axes)]
  if kind == 'norm':
    return [(d * d).sum(axes)]
  if kind == 'sum':
    return [d + dx]
  if kind == 'item':
    return [d[(slice(None),) * batch + (slice(0, 1),)]]
  return [d]


def first(obj):
  """Index of the entries whose first index is 0."""
  batch = [slice(None)] if hasattr(obj, 'batch_size') else []
  return tuple(batch + [slice(0, 1)] + [slice(None)] * (obj.ndims() - 1))


def close(got, want, dt='float64'):
  got, want = np.asarray(got), np.asarray(want)
  if got.size != want.size:
    return False
  got = got.reshape(want.shape)
  tol = 1e-6 if dt == 'float64' else 2e-3
  return bool(np.all(np.abs(got - want) <= tol * (np.abs(want).max() + 1e-3)))


def run(plan, out):
  t3f = boot.fresh_t3f()
  lay = plan['lay']
  start = {n: model.make_cores(_spec(plan, n)) for n in ('v', 'x', 'u')}
  graph = tf.Graph()
  fetches, results = [], []
  with graph.as_default(), engine.quiet():
    x = engine.make_object(t3f, _spec(plan, 'x'))
    objs = {'x': x}
    for n in ('v', 'u'):
      objs[n] = t3f.get_variable(n, initializer=engine.make_object(
          t3f, _spec(plan, n)))
    for u in plan['updates']:
      val = expr.evaluate(u['e'], t3f, tf, objs, lay)
      res = t3f.assign(objs[u['to']], val)
      if 'then' in u:
        val = expr.evaluate(u['then'], t3f, tf, {'res': res, 'x': x}, lay)
        res = t3f.assign(objs[u['then_to']], val)
      fetches.append([f.name for f in derived(
          t3f, u['fetch'], res, objs[u.get('then_to', u['to'])], x)])
  p = graphsim.Process(graph)
  handles = {n: [c.handle.op.name for c in objs[n].tt_cores]
             for n in ('v', 'u')}
  state = {n: list(c) for n, c in start.items()}
  for n in ('v', 'u'):
    p.state.update(zip(handles[n], start[n]))
  for st in plan['steps_']:
    u = plan['updates'][st['u']]
    kind = u['fetch']
    want = reference(plan, u['e'], state)
    after = dict(state)
    after[u['to']] = want
    if 'then' in u:
      want = reference(plan, u['then'], {'res': want, 'x': state['x']})
      after[u['then_to']] = want
    wd = [dense(plan, after[n]) for n in ('v', 'u')]
    if not all(np.all(np.isfinite(d)) and 1e-4 < np.abs(d).max() < 1e4
               for d in wd):
      out.count('steps skipped (contents out of range)')
      break
    values, chain = p.run(fetches[st['u']], order=st['order'])
    text = 'assign(%s, %s)' % (u['to'], expr.text(u['e']))
    if 'then' in u:
      text += ' then assign(%s, %s)' % (u['then_to'], expr.text(u['then']))
    out.count('evaluations')
    out.count('steps', len(chain))
    out.count('executor orders forced')
    if p.moved:
      out.count('fault:reordered step')
    out.log(st['u'], *chain)
    out.sig(text, tuple(chain))
    now = {n: [np.array(p.state[h]) for h in handles[n]] for n in ('v', 'u')}
    if kind == 'cores':
      values = [dense(plan, values)]
    if kind != 'op':
      for got, w in zip(values, derived_model(plan, kind, want, state['x'])):
        if not close(got, w, lay['dt']):
          raise Violation('order-dependent result', '%s: fetching %s gives a '
                          'value that differs by %.3g from the newly assigned '
                          'one; order of the stateful operations: %s' % (
                              text, kind, np.abs(np.asarray(got).reshape(
                                  w.shape) - w).max(), ' '.join(chain)))
    for n, w in zip(('v', 'u'), wd):
      got = dense(plan, now[n])
      if not close(got, w, lay['dt']):
        raise Violation('order-dependent contents', '%s: afterwards %s differs '
                        'by %.3g from the value computed from the contents '
                        'before the step; order of the stateful operations: %s'
                        % (text, n, np.abs(got - w).max(), ' '.join(chain)))
    touched = {u['to'], u.get('then_to', u['to'])}
    for n in ('v', 'u'):
      if n not in touched and not all(
          np.array_equal(a, b) for a, b in zip(now[n], state[n])):
        raise Violation('other variable changed', '%s changed %s' % (text, n))
    out.log(*[c for n in ('v', 'u') for c in now[n]])
    state.update(now)
