"""C08: run-time guards hold under every executor order."""
import numpy as np

from sim import boot, engine, expr, graphsim, model
from sim.checks import c07
from sim.outcome import Violation

tf = boot.tf

BASE = ['inner2', 'norm2', 'mix', 'quartic', 'bilinear']
# Terms that see the representation and not only the represented tensor.
DEPENDENT = ['squares', 'sums', 'one', 'last', 'first', 'product']
FETCH = ['full', 'full', 'inner', 'norm', 'cores', 'round', 'sum', 'assign',
         'neg', 'assign_full', 'matrix']


def gen(rng, tier):
  if rng.random() < 0.35:
    return gen_multiply(rng)
  lay = expr.gen_layout(rng, batch=False)
  plan = {'what': rng.choice(['gradients', 'gradients', 'hvp']),
          'lay': lay, 'seeds': {n: rng.randrange(2 ** 31)
                                for n in ('x', 't', 'z', 'w')},
          'base': rng.choice(BASE), 'dep': rng.choice(DEPENDENT),
          'source': rng.choice(['var', 'var', 'const', 'fed']),
          'scale': [round(rng.uniform(0.5, 2.5), 3) for _ in lay['ranks'][1:]],
          'fetches': [rng.choice(FETCH) for _ in range(rng.randint(2, 3))],
          'default_check': rng.random() < 0.5}
  plan['steps_'] = [{'f': rng.randrange(len(plan['fetches'])),
                     'p': 0.0 if rng.random() < 0.4 else
                          round(rng.uniform(0.5, 3), 3),
                     'order': c07.gen_order(rng)}
                    for _ in range(rng.randint(3, 8))]
  plan['before_'] = gen_before(rng)
  return plan


def gen_before(rng):
  """Guarded calls made earlier, on the same objects or elsewhere."""
  r = rng.random()
  n = 0 if r < 0.5 else rng.randint(1, 3) if r < 0.97 else rng.randint(22, 36)
  some = {'where': ['same', 'other', 'eager'],
          'what': ['gradients', 'gradients', 'hvp']}
  if n > 3:
    some = {k: [rng.choice(v)] for k, v in some.items()}
  return [{'where': rng.choice(some['where']), 'what': rng.choice(some['what']),
           'base': rng.choice(BASE), 'dep': rng.choice(DEPENDENT),
           'p': rng.choice([None, 1.5]),
           'check': rng.choice([None, None, True, False]),
           'own': n < 4 and rng.random() < 0.5} for _ in range(n)]


def gen_multiply(rng):
  d = rng.choice([1, 2, 2, 3, 4])
  matrix = rng.random() < 0.45
  known = rng.choice([None, None, None, 'left', 'right'])
  sizes = [rng.randint(1, 4) for _ in range(2)]
  modes = [[rng.randint(1, 3) for _ in range(d)] for _ in range(1 + matrix)]
  ranks = [[1] + [rng.randint(1, 3) for _ in range(d - 1)] + [1]
           for _ in range(2)]
  steps = []
  for _ in range(rng.randint(4, 10)):
    a, b = rng.randint(1, 4), rng.randint(1, 4)
    if rng.random() < 0.4:
      b = a
    if known == 'left':
      a = sizes[0]
      b = a if rng.random() < 0.4 else b
    elif known == 'right':
      b = sizes[1]
      a = b if rng.random() < 0.4 else a
    steps.append({'f': rng.randrange(3), 'a': a, 'b': b,
                  'seed': rng.randrange(2 ** 31), 'order': c07.gen_order(rng)})
  return {'what': 'multiply', 'matrix': matrix, 'modes': modes, 'ranks': ranks,
          'known': known, 'sizes': sizes, 'op': rng.random() < 0.5,
          'via': rng.choice(['placeholder', 'stack']),
          'before_': [rng.choice(['same', 'square', 'other', 'eager']) for _ in
                      range(rng.choice([0, 0, 0, 1, 2, 12]))],
          'fetches': [rng.choice(['full', 'full', 'inner', 'norm', 'cores',
                                  'round', 'scaled', 'item', 'core'])
                      for _ in range(3)], 'steps_': steps}


def function(plan, t3f, t, m, p):
  """The function given to the library; p scales the dependent term."""

  def f(y):
    base = plan['base']
    if base == 'inner2':
      res = 0.5 * (t3f.flat_inner(y, t) + 0.3) ** 2
    elif base == 'norm2':
      res = t3f.frobenius_norm_squared(y, differentiable=True) + 0.5
    elif base == 'mix':
      res = (t3f.frobenius_norm_squared(y, differentiable=True) +
             t3f.flat_inner(y, t) ** 2 + 0.25)
    elif base == 'quartic':
      res = t3f.flat_inner(y, t) ** 2 * t3f.frobenius_norm_squared(
          y, differentiable=True) + 1.
    else:
      res = t3f.flat_inner(y * t, y) + 2.
    if p is not None:
      sq = [tf.reduce_sum(c ** 2) for c in y.tt_cores]
      dep = {'squares': lambda: tf.add_n(sq),
             'sums': lambda: tf.add_n([tf.reduce_sum(c ** 2 * (1. + 0.1 * i))
                                       for i, c in enumerate(y.tt_cores)]),
             'one': lambda: sq[len(sq) // 2],
             'last': lambda: sq[-1],
             'first': lambda: sq[0],
             'product': lambda: tf.sqrt(tf.reduce_prod(tf.stack(sq)))}
      # Relative to the value: the guard compares with a relative tolerance.
      res = res * (1. + p * dep[plan['dep']]())
    return res

  return f


def cores_of(plan, name):
  cores = model.make_cores(dict(plan['lay'], id=name,
                                seed=plan['seeds'][name]))
  if name == 'x':
    # Badly balanced cores.
    cores = [c * s for c, s in zip(cores, plan['scale'])]
  return cores


def call(plan, t3f, x, t, z, p, check):
  f = function(plan, t3f, t, None, p)
  kw = {} if check is None else {'runtime_check': check}
  if plan['what'] == 'gradients':
    return t3f.gradients(f, x, **kw)
  return t3f.hessian_vector_product(f, x, z, **kw)


def earlier(plan, t3f, x, t, z, mk):
  """An earlier call; in graph mode it is built, but never evaluated."""
  make = lambda: [mk(t3f, n) for n in 'xtz']
  if plan['where'] == 'same':
    if plan['own']:
      x, t, z = make()
    call(plan, t3f, x, t, z, plan['p'], plan['check'])
  elif plan['where'] == 'other':
    with tf.Graph().as_default():
      x, t, z = make()
      call(plan, t3f, x, t, z, plan['p'], plan['check'])
  else:
    with tf.init_scope():
      x, t, z = make()
      try:
        call(plan, t3f, x, t, z, plan['p'], plan['check'])
      except tf.errors.InvalidArgumentError:
        if plan['p'] is None or plan['check'] is False:
          raise


def fetch(plan, t3f, kind, res, x, w, var):
  r = plan['lay']['r']
  if kind == 'full':
    return [t3f.full(res)], lambda d, dw: d
  if kind == 'matrix':
    return [t3f.full(2. * res)], lambda d, dw: 2 * d
  if kind == 'neg':
    return [t3f.full(-res)], lambda d, dw: -d
  if kind == 'inner':
    return [t3f.flat_inner(res, w)], lambda d, dw: (d * dw).sum()
  if kind == 'norm':
    return ([t3f.frobenius_norm_squared(res, differentiable=True)],
            lambda d, dw: (d * d).sum())
  if kind == 'cores':
    return [tf.identity(c) for c in res.tt_cores], None
  if kind == 'round':
    return [t3f.full(t3f.round(res, 4 * r))], lambda d, dw: d
  if kind == 'sum':
    return [t3f.full(res + w)], lambda d, dw: d + dw
  new = t3f.assign(var, t3f.round(res + w, r))
  if kind == 'assign':
    return [new.op], None
  return [t3f.full(new)], None


def run(plan, out):
  if plan['what'] == 'multiply':
    return run_multiply(plan, out)
  t3f = boot.fresh_t3f()
  lay = plan['lay']
  matrix = lay['k'] == 'matrix'
  graph = tf.Graph()
  start = {n: cores_of(plan, n) for n in ('x', 't', 'z', 'w')}
  mk = lambda inst, n, cores=None: engine.make_object(
      inst, dict(lay, id=n, seed=0), start[n] if cores is None else cores)
  feed = {}
  with graph.as_default(), engine.quiet():
    if plan['source'] == 'var':
      x = t3f.get_variable('x', initializer=mk(t3f, 'x'))
    elif plan['source'] == 'fed':
      phs = [tf.compat.v1.placeholder(tf.float64, c.shape)
             for c in start['x']]
      feed = {p.name: c for p, c in zip(phs, start['x'])}
      x = t3f.TensorTrain(phs)
    else:
      x = mk(t3f, 'x')
    var = t3f.get_variable('out', initializer=mk(t3f, 'w'))
    t, z, w = mk(t3f, 't'), mk(t3f, 'z'), mk(t3f, 'w')
    p = tf.compat.v1.placeholder(tf.float64, [])
    for b in plan['before_']:
      earlier(dict(plan, **b), t3f, x, t, z, mk)
    res = call(plan, t3f, x, t, z, p, None if plan['default_check'] else True)
    fetches = [fetch(plan, t3f, k, res, x, w, var) for k in plan['fetches']]
    names = [[f.name for f in fs] for fs, _ in fetches]
  process = graphsim.Process(graph)
  handles = [c.handle.op.name for c in var.tt_cores]
  process.state.update(zip(handles, start['w']))
  if plan['source'] == 'var':
    process.state.update(zip([c.handle.op.name for c in x.tt_cores],
                             start['x']))
  # What a valid evaluation has to give: the same call alone, eagerly.
  with boot.other_instance() as other, engine.quiet():
    objs = {n: mk(other, n) for n in start}
    val = call(plan, other, objs['x'], objs['t'], objs['z'], None, False)
    want_tt = [np.array(c) for c in val.tt_cores]
    new = other.round(val + objs['w'], lay['r'])
    want_new = [np.array(c) for c in new.tt_cores]
  dense = lambda cores: model.dense_from_cores(cores, matrix, False)
  want, dw = dense(want_tt), dense(start['w'])
  for st in plan['steps_']:
    kind = plan['fetches'][st['f']]
    before = dict(process.state)
    error, values = None, None
    try:
      values, chain = process.run(names[st['f']], dict(feed, **{p.name: st['p']}),
                                  order=st['order'])
    except tf.errors.InvalidArgumentError as e:
      error = e
    chain = process.chain
    text = '%s of %s%s, fetching %s' % (
        plan['what'], plan['base'], ' * (1 + %s*%s(cores))' % (st['p'], plan['dep'])
        if st['p'] else '', kind)
    _account(out, process, chain, error, (
        plan['what'], plan['base'], plan['dep'], plan['source'], kind,
        len(plan['before_'])))
    order = ' '.join(chain)
    changed = [h for h in before
               if not np.array_equal(before[h], process.state[h])]
    if st['p']:
      if error is None:
        raise Violation('guard bypassed', '%s was evaluated although the '
                        'function depends on the representation; order of the '
                        'stateful operations: %s' % (text, order))
      if changed:
        raise Violation('guard failed late', '%s failed, but had already '
                        'written %s; order: %s' % (text, changed, order))
      continue
    if error is not None:
      raise Violation('valid evaluation refused', '%s failed: %s; order of the '
                      'stateful operations: %s' % (text, str(error)[:200],
                                                   order))
    f = fetches[st['f']][1]
    if kind in ('assign', 'assign_full'):
      got = [dense([process.state[h] for h in handles])]
      if kind == 'assign_full':
        got.append(values[0])
      wanted = dense(want_new)
    elif kind == 'cores':
      got, wanted = [dense(values)], want
    else:
      got, wanted = [values[0]], f(want, dw)
      if changed:
        raise Violation('other variable changed', '%s changed %s' % (text,
                                                                     changed))
    for g in got:
      if not c07.close(g, wanted):
        raise Violation('wrong value', '%s differs by %.3g from the correct '
                        'value; order of the stateful operations: %s' % (
                            text, np.abs(g - wanted).max(), order))
    process.state.update(before)


def _account(out, process, chain, error, what):
  out.count('evaluations')
  out.count('steps', len(chain))
  out.count('executor orders forced')
  if process.moved:
    out.count('fault:reordered step')
  if error is not None:
    out.count('fault:guarded condition violated')
  out.log(*chain)
  out.log(error is None)
  out.sig(what, error is None, tuple(chain))


def run_multiply(plan, out):
  t3f = boot.fresh_t3f()
  d = len(plan['modes'][0])
  graph = tf.Graph()
  sides = []
  with graph.as_default(), engine.quiet():
    for i, side in enumerate(('left', 'right')):
      size = plan['sizes'][i] if plan['known'] == side else None
      phs, cores = [], []
      for k in range(d):
        shape = [plan['ranks'][i][k]] + [m[k] for m in plan['modes']] + [
            plan['ranks'][i][k + 1]]
        ph = tf.compat.v1.placeholder(tf.float64, [size] + shape)
        phs.append(ph)
        cores.append(ph if plan['via'] == 'placeholder' else ph + 0.)
      sides.append((phs, t3f.TensorTrainBatch(cores)))
    a, b = sides[0][1], sides[1][1]
    for where in plan['before_']:
      if where == 'same':
        t3f.multiply(a, b)
      elif where == 'square':
        t3f.multiply(a, a)
      else:
        with (tf.Graph().as_default() if where == 'other' else
              tf.init_scope()):
          y = [t3f.TensorTrainBatch([tf.ones([2] + ph.shape.as_list()[1:],
                                             tf.float64) for ph in side[0]])
               for side in sides]
          t3f.multiply(y[0], y[1])
    res = a * b if plan['op'] else t3f.multiply(a, b)
    ones = t3f.TensorTrain([tf.ones([1] + [m[k] for m in plan['modes']] + [1],
                                    tf.float64) for k in range(d)])
    names = []
    for kind in plan['fetches']:
      if kind == 'full':
        fs = [t3f.full(res)]
      elif kind == 'scaled':
        fs = [t3f.full(2. * res)]
      elif kind == 'inner':
        fs = [t3f.flat_inner(res, ones)]
      elif kind == 'norm':
        fs = [t3f.frobenius_norm_squared(res, differentiable=True)]
      elif kind == 'core':
        fs = [tf.identity(res.tt_cores[-1])]
      elif kind == 'item':
        fs = [t3f.full(res[0])]
      elif kind == 'round':
        fs = [t3f.full(t3f.round(res, 9))] if d > 1 else [t3f.full(res)]
      else:
        fs = [tf.identity(c) for c in res.tt_cores]
      names.append([f.name for f in fs])
  process = graphsim.Process(graph)
  for st in plan['steps_']:
    kind = plan['fetches'][st['f']]
    rng = np.random.RandomState(st['seed'])
    feed, vals = {}, []
    for (phs, _), n in zip(sides, (st['a'], st['b'])):
      cores = [np.round(rng.randn(*([n] + ph.shape.as_list()[1:])), 3)
               for ph in phs]
      vals.append(model.dense_from_cores(cores, plan['matrix'], True))
      feed.update((ph.name, c) for ph, c in zip(phs, cores))
    error, values = None, None
    try:
      values, _ = process.run(names[st['f']], feed, order=st['order'])
    except tf.errors.InvalidArgumentError as e:
      error = e
    chain = process.chain
    text = 'product of batches of run-time sizes %d and %d, fetching %s' % (
        st['a'], st['b'], kind)
    _account(out, process, chain, error,
             ('multiply', plan['matrix'], d, plan['known'], kind,
              st['a'], st['b']))
    # A batch known to have one element is broadcast.
    one = plan['known'] and plan['sizes'][plan['known'] == 'right'] == 1
    if st['a'] != st['b'] and not one:
      if error is None:
        raise Violation('guard bypassed', '%s was evaluated' % text)
      continue
    if error is not None:
      raise Violation('valid evaluation refused', '%s failed: %s' % (
          text, str(error)[:200]))
    want = vals[0] * vals[1]
    axes = tuple(range(1, want.ndim))
    if kind == 'core':
      continue
    if kind == 'cores':
      got = model.dense_from_cores(values, plan['matrix'], True)
    else:
      got = values[0]
      if kind == 'norm':
        want = (want * want).sum(axes)
      elif kind == 'inner':
        want = want.sum(axes)
      elif kind == 'scaled':
        want = 2 * want
      elif kind == 'item':
        want = want[0]
    if not c07.close(got, want):
      raise Violation('wrong value', '%s differs by %.3g from the correct value'
                      % (text, np.abs(np.asarray(got).reshape(want.shape) -
                                      want).max()))
