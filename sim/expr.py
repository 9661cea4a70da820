"""Expressions over TT objects of one layout, evaluated by the library.

An expression is a JSON list [op, arg, ...]; its value has the layout (shape,
TT-ranks, batch size) of the variable it is meant for.
"""


def gen_layout(rng, batch=None):
  """A spec-like layout whose ranks survive rounding to `r`."""
  from sim import model
  wide = rng.random() < 0.06
  d = rng.choice([3, 5, 6] if wide else [2, 3, 3, 4])
  matrix = rng.random() < 0.45
  square = matrix and rng.random() < 0.6
  top = 3 if d < 5 else 2
  rows = [rng.randint(1 if matrix else 2, top) for _ in range(d)]
  cols = list(rows) if square else [rng.randint(1, top) for _ in range(d)]
  modes = [a * b for a, b in zip(rows, cols)] if matrix else rows
  r = rng.randint(1, 6 if wide else 3)
  ranks = [1]
  for i in range(1, d):
    ranks.append(max(1, min(r, model.prod(modes[:i]), model.prod(modes[i:]))))
  ranks.append(1)
  if batch is None:
    batch = rng.random() < 0.4
  return {'k': 'matrix' if matrix else 'tensor',
          'b': rng.randint(1, 8 if wide else 3) if batch else None,
          'shape': [rows, cols] if matrix else [rows],
          'ranks': ranks, 'r': r, 'dt': 'float64', 'square': square}


def gen_scalar(rng, lay, names):
  k = rng.choice(['inner', 'inv_norm2', 'inv_norm', 'norm'])
  if k == 'inner':
    return ['s_inner', ['obj', rng.choice(names)], ['obj', rng.choice(names)]]
  return ['s_' + k, ['obj', rng.choice(names)]]


def gen(rng, lay, names, depth=3):
  """A random expression over the named objects."""
  if depth == 0 or rng.random() < 0.1:
    return ['obj', rng.choice(names)]
  sub = lambda: gen(rng, lay, names, depth - 1)
  batch = lay['b'] is not None
  ops = ['neg', 'scale', 'orth', 'renorm', 'roundsum', 'roundsum', 'scaleby',
         'scaleby', 'roundsub', 'recores', 'mix', 'mix']
  if batch:
    ops += ['along', 'along', 'along']
  else:
    ops += ['orth_rl', 'step', 'roundmul', 'addn', 'grad']
  if lay['square']:
    ops += ['transpose', 'transpose']
    if not batch:
      ops += ['matsq']
  k = rng.choice(ops)
  if k in ('neg', 'orth', 'renorm', 'transpose', 'orth_rl', 'matsq', 'recores'):
    return [k, sub()]
  if k == 'mix':
    return [k, rng.randint(1, 3), round(rng.uniform(0.1, 0.5), 3), sub()]
  if k == 'scale':
    return [k, 1. if rng.random() < 0.15 else round(
        rng.choice([-1, 1]) * rng.uniform(0.3, 1.5), 3), sub()]
  if k in ('roundsum', 'roundsub', 'roundmul'):
    return [k, sub(), sub()]
  if k in ('scaleby', 'along'):
    return [k, gen_scalar(rng, lay, names), sub()]
  if k == 'step':
    return [k, round(rng.uniform(0.1, 0.6), 3), ['obj', rng.choice(names)],
            ['obj', rng.choice(names)], sub()]
  if k == 'grad':
    return [k, round(rng.uniform(0.1, 0.6), 3), ['obj', rng.choice(names)],
            ['obj', rng.choice(names)], rng.random() < 0.3]
  return ['addn', [sub() for _ in range(rng.randint(2, 3))]]


def evaluate(e, t3f, tf, objs, lay):
  """Builds (graph mode) or computes (eager mode) the value of e."""
  ev = lambda x: evaluate(x, t3f, tf, objs, lay)
  k = e[0]
  r = lay['r']
  if k == 'obj':
    return objs[e[1]]
  if k == 'neg':
    return -ev(e[1])
  if k == 'scale':
    return e[1] * ev(e[2])
  if k == 'orth':
    return t3f.orthogonalize_tt_cores(ev(e[1]))
  if k == 'orth_rl':
    return t3f.orthogonalize_tt_cores(ev(e[1]), left_to_right=False)
  if k == 'renorm':
    return t3f.renormalize_tt_cores(ev(e[1]))
  if k == 'transpose':
    return t3f.transpose(ev(e[1]))
  if k == 'recores':
    # The caller rebuilds the object from its cores.
    x = ev(e[1])
    cls = t3f.TensorTrain if lay['b'] is None else t3f.TensorTrainBatch
    return cls([c + 0. for c in x.tt_cores])
  if k == 'mix':
    # The caller computes every new core from two of the old ones.
    x = ev(e[3])
    cls = t3f.TensorTrain if lay['b'] is None else t3f.TensorTrainBatch
    n = x.ndims()
    return cls([x.tt_cores[i] + e[2] * tf.reduce_mean(x.tt_cores[(i + e[1]) % n])
                for i in range(n)])
  if k == 'roundsum':
    return t3f.round(ev(e[1]) + ev(e[2]), r)
  if k == 'roundsub':
    return t3f.round(ev(e[1]) - ev(e[2]), r)
  if k == 'roundmul':
    return t3f.round(ev(e[1]) * ev(e[2]) + ev(e[1]), r)
  if k == 'matsq':
    x = ev(e[1])
    return t3f.round(t3f.matmul(x, x) + x, r)
  if k == 'scaleby':
    s = ev(e[1])
    if lay['b'] is not None:
      s = tf.reduce_sum(s)
    return ev(e[2]) * s
  if k == 'along':
    return t3f.multiply_along_batch_dim(ev(e[2]), tf.reshape(ev(e[1]), [-1]))
  if k == 'step':
    return t3f.round(ev(e[4]) - e[1] * t3f.project(ev(e[2]), ev(e[3])), r)
  if k == 'grad':
    x, t = ev(e[2]), ev(e[3])
    # The runtime check compares values relatively: keep them away from zero
    # and out of the reach of single precision.
    g = t3f.gradients(lambda y: 1. + 0.5 * t3f.flat_inner(y, t) ** 2, x,
                      runtime_check=e[4] and lay['dt'] == 'float64')
    return t3f.round(x - e[1] * g, r)
  if k == 'addn':
    return t3f.approximate.add_n([ev(x) for x in e[1]], r)
  if k == 's_inner':
    return t3f.flat_inner(ev(e[1]), ev(e[2])) + 0.1
  if k == 's_inv_norm2':
    return 1. / (t3f.frobenius_norm_squared(ev(e[1])) + 0.1)
  if k == 's_inv_norm':
    return 1. / t3f.frobenius_norm(ev(e[1]), epsilon=0.1)
  if k == 's_norm':
    return t3f.frobenius_norm(ev(e[1]), epsilon=0.1, differentiable=True)
  raise ValueError(k)


def text(e):
  if isinstance(e, list):
    if e and e[0] == 'obj':
      return e[1]
    return '%s(%s)' % (e[0], ', '.join(text(x) for x in e[1:]))
  return str(e)


def objects(e):
  """Names of the objects an expression reads."""
  if not isinstance(e, list):
    return set()
  if e and e[0] == 'obj':
    return {e[1]}
  return set().union(*[objects(x) for x in e]) if e else set()
