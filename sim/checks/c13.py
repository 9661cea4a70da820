"""C13: vectors from different tangent spaces are never combined silently."""
import numpy as np

from sim import boot, engine, model, world
from sim.outcome import Violation

tf = boot.tf

REASSIGNED = 'variable-reassigned-between-projections'


def gen(rng, tier):
  g = world.Gen(rng)
  kind = rng.choice(['tensor', 'tensor', 'matrix', 'vector'])
  wide = rng.random() < 0.06
  d = rng.choice([3, 5, 6] if wide else [2, 3, 3, 4])
  if kind == 'tensor':
    shape = [[rng.randint(2, 3 if d < 5 else 2) for _ in range(d)]]
  elif kind == 'matrix':
    shape = [[rng.randint(1, 2) for _ in range(d)] for _ in range(2)]
    shape[0][0] = 2
  else:
    shape = [[rng.randint(2, 3 if d < 5 else 2) for _ in range(d)], [1] * d]
  modes = shape[0] if len(shape) == 1 else [a * b for a, b in zip(*shape)]
  ranks = g.ranks(modes)
  dt = 'float32' if rng.random() < 0.15 else 'float64'
  b = rng.randint(1, 9 if wide else 3)
  mode = rng.choices(['eager', 'graph', 'fn'], [7, 2, 1])[0]
  k = 'tensor' if kind == 'tensor' else 'matrix'

  def spec(batch=False, same_ranks=False):
    return {'id': 'o', 'k': k, 'b': b if batch else None, 'shape': shape,
            'ranks': ranks if same_ranks else g.ranks(modes), 'dt': dt,
            'seed': rng.randrange(2 ** 31)}

  steps, points = [], 0
  seeds = []
  for _ in range(rng.randint(6, 22)):
    r = rng.random()
    if r < 0.15 or not points:
      s = spec(same_ranks=True)
      if seeds and rng.random() < 0.4:
        s['seed'] = rng.choice(seeds)   # equal in value, another object
      seeds.append(s['seed'])
      if mode == 'eager' and rng.random() < 0.25:
        s['var'] = True
      st = {'do': 'point', 's': s}
      if points and 'var' not in s and rng.random() < 0.25:
        # Made of the cores of another point, except some.
        st['like'] = rng.randrange(100)
        st['but'] = sorted(rng.sample(range(d), rng.randint(1, d - 1)))
      steps.append(st)
      points += 1
    elif r < 0.5:
      batch = rng.random() < 0.4
      how = rng.choice(['project', 'project', 'sum', 'weighted', 'gradients'] +
                       (['matmul'] * 2 if kind == 'vector' else []))
      st = {'do': 'project', 'how': how, 'p': rng.randrange(100),
            's': spec(batch or how in ('weighted', 'matmul')),
            # What is projected may itself be a point or a projection.
            'reuse': rng.choice([None, None, None, 'point', 'vector']),
            'k': rng.randrange(100)}
      if how == 'weighted':
        st['w'] = [[round(rng.uniform(-1, 1), 2) for _ in range(b)]
                   for _ in range(b)]
        if b == 1 or rng.random() < 0.5:
          st['w'] = [round(rng.uniform(-1, 1), 2) for _ in range(b)]
      if how == 'matmul':
        st['m'] = {'id': 'm', 'k': 'matrix', 'b': None,
                   'shape': [shape[0], shape[0]], 'ranks': [1] + [
                       rng.randint(1, 2) for _ in range(d - 1)] + [1],
                   'dt': dt, 'seed': rng.randrange(2 ** 31)}
      steps.append(st)
    elif r < 0.56:
      steps.append({'do': 'raw', 's': spec(rng.random() < 0.3, True),
                    'of': rng.choice([None, 'scaled', 'copy', 'added']),
                    'k': rng.randrange(100)})
    elif r < 0.62:
      steps.append({'do': 'drop', 'p': rng.randrange(100),
                    'vectors': rng.random() < 0.7})
    elif r < 0.66:
      steps.append({'do': 'reassign', 'p': rng.randrange(100),
                    'seed': rng.randrange(2 ** 31)})
    elif r < 0.83:
      steps.append({'do': 'inner', 'v': [rng.randrange(100) for _ in range(2)],
                    'same': rng.random() < 0.5, 'twice': rng.random() < 0.15})
    else:
      n = rng.randint(1, 14 if wide else 5)
      st = {'do': 'add', 'v': [rng.randrange(100) for _ in range(n)],
            'same': rng.random() < 0.7, 'tuple': rng.random() < 0.3,
            'coef': None, 'spoil': None}
      if rng.random() < 0.4:
        # One foreign vector among many of one space, anywhere in the list.
        st['spoil'] = [rng.randrange(n + 1), rng.randrange(100)]
      if rng.random() < 0.4:
        st['coef'] = rng.randrange(2 ** 31)
      steps.append(st)
  return {'steps_': steps, 'mode': mode}


class Vector(object):

  def __init__(self, tt, point, epoch, uses):
    self.tt = tt
    self.point = point     # Point or None
    self.epoch = epoch
    self.batch = hasattr(tt, 'batch_size')
    self.size = tt.batch_size if self.batch else None
    self.matrix = tt.is_tt_matrix()
    self.cores = list(tt.tt_cores)
    self.uses = uses


class Point(object):

  def __init__(self, tt, s, serial):
    self.tt, self.s, self.serial = tt, s, serial
    self.epoch = 0


def make(t3f, s):
  return engine.make_object(t3f, s)


def project(t3f, st, points, vectors):
  p = points[st['p'] % len(points)]
  s = st['s']
  what = None
  how = st['how']
  if st['reuse'] == 'point' and how in ('project', 'sum', 'gradients'):
    what = points[st['k'] % len(points)].tt
  elif st['reuse'] == 'vector' and vectors and how in ('project', 'sum'):
    what = vectors[st['k'] % len(vectors)].tt
  if what is None:
    if how == 'gradients':
      s = dict(s, b=None)
    what = make(t3f, s)
  if how == 'project':
    tt = t3f.project(what, p.tt)
  elif how == 'sum':
    tt = t3f.project_sum(what, p.tt)
  elif how == 'weighted':
    tt = t3f.project_sum(what, p.tt, st['w'])
  elif how == 'matmul':
    tt = t3f.project_matmul(what, p.tt, make(t3f, st['m']))
  else:
    tt = t3f.gradients(lambda x: t3f.flat_inner(x, what), p.tt,
                       runtime_check=False)
  return Vector(tt, p, p.epoch, how)


def choose(st, vectors):
  """The operands of a combination."""
  if not vectors:
    return None
  first = vectors[st['v'][0] % len(vectors)]
  res = [first]
  for k in st['v'][1:]:
    pool = vectors
    if st['same']:
      pool = [v for v in vectors if v.point is first.point]
    res.append(pool[k % len(pool)])
  if st['do'] == 'add':
    # Sums are defined for objects of one batch size.
    res = [v for v in res if v.size == first.size]
    if st['spoil']:
      pool = [v for v in vectors if v.size == first.size and
              v.point is not first.point]
      if pool:
        res.insert(min(st['spoil'][0], len(res)),
                   pool[st['spoil'][1] % len(pool)])
  elif st['twice']:
    res[1] = res[0]
  return res


def run(plan, out):
  if plan['mode'] == 'eager':
    history(plan, out, lambda ts: [np.array(t) for t in ts])
    return
  if plan['mode'] == 'graph':
    graph = tf.Graph()
    with graph.as_default():
      def evaluate(ts):
        with tf.compat.v1.Session(graph=graph) as sess:
          return sess.run(ts)
      history(plan, out, evaluate)
    return
  box = {}

  def traced():
    box['checks'] = history(plan, out, None)
    return [t for c in box['checks'] for t in c['tensors']]

  values = [np.array(t) for t in tf.function(traced, autograph=False)()]
  judge(box['checks'], values, out)


def history(plan, out, evaluate):
  t3f = boot.fresh_t3f()
  points, vectors, checks, serial = [], [], [], 0
  for n, st in enumerate(plan['steps_']):
    do = st['do']
    out.count('steps')
    if do == 'point':
      serial += 1
      tt = make(t3f, st['s'])
      if 'like' in st and points:
        like = points[st['like'] % len(points)].tt
        if not like.is_variable():
          tt = t3f.TensorTrain([
              (tt if i in st['but'] else like).tt_cores[i]
              for i in range(tt.ndims())])
          out.count('points sharing cores')
        del like
      points.append(Point(tt, st['s'], serial))
      del tt
    elif do == 'project':
      if points:
        v = project(t3f, st, points, vectors)
        vectors.append(v)
        out.count('projections')
        out.sig('project', st['how'], v.batch, v.matrix, plan['mode'])
        del v
    elif do == 'raw':
      if st['of'] and vectors:
        v = vectors[st['k'] % len(vectors)]
        cls = t3f.TensorTrainBatch if v.batch else t3f.TensorTrain
        tt = {'scaled': lambda: 2. * v.tt, 'added': lambda: v.tt + v.tt,
              'copy': lambda: cls(v.tt.tt_cores)}[st['of']]()
        del v
      else:
        tt = make(t3f, st['s'])
      vectors.append(Vector(tt, None, 0, 'raw'))
      del tt
    elif do == 'drop':
      if points:
        i = st['p'] % len(points)
        if st['vectors']:
          vectors = [v for v in vectors if v.point is not points[i]]
        points[i].tt = None   # Only its projections keep it alive now.
        del points[i]
        out.count('base points dropped')
    elif do == 'reassign':
      vs = [p for p in points if p.s.get('var')]
      if vs:
        p = vs[st['p'] % len(vs)]
        t3f.assign(p.tt, make(t3f, {k: x for k, x in dict(
            p.s, seed=st['seed']).items() if k != 'var'}))
        p.epoch += 1
        out.count('variables reassigned')
        del p
      del vs
    else:
      ops = choose(st, vectors)
      if ops:
        checks.append(combine(t3f, st, ops, vectors, out, plan, n))
      del ops
  if evaluate is None:
    return checks
  flat = [t for c in checks for t in c['tensors']]
  judge(checks, evaluate(flat) if flat else [], out)
  return checks


def combine(t3f, st, ops, vectors, out, plan, n):
  """Makes one combination; returns what is to be compared later."""
  one = ops[0].point is not None and all(v.point is ops[0].point for v in ops)
  stale = one and len(set(v.epoch for v in ops)) > 1
  coef = None
  res, error = None, None
  try:
    if st['do'] == 'inner':
      res = t3f.pairwise_flat_inner_projected(ops[0].tt, ops[1].tt)
    else:
      if st['coef'] is not None:
        rs = np.random.RandomState(st['coef'])
        size = [len(ops)] + ([ops[0].size] if ops[0].batch else [])
        coef = np.round(rs.uniform(-1, 1, size), 3)
        if rs.rand() < 0.3:
          coef[rs.rand(*size) < 0.5] = 0.   # exact zeros, often whole vectors
          coef[rs.randint(size[0])] = 0.
      tts = [v.tt for v in ops]
      res = t3f.add_n_projected(tuple(tts) if st['tuple'] else tts,
                                None if coef is None else coef.tolist())
  except Exception as e:
    error = e
  out.count('evaluations')
  text = 'step %d, %s of %s' % (n, 'inner product' if st['do'] == 'inner' else
                                'sum', ', '.join(
      'a %s%s' % ('batch ' if v.batch else '',
                  'vector that is no projection' if v.point is None else
                  '%s onto point %d' % (v.uses, v.point.serial)) for v in ops))
  out.sig(st['do'], one, stale, len(ops), plan['mode'],
          tuple(v.point is ops[0].point for v in ops),
          tuple(v.uses for v in ops[:3]), coef is not None)
  out.log(text, type(error).__name__)
  if not one:
    out.count('fault:vectors of different spaces combined')
    if error is None:
      raise Violation('combined silently', text + ' was accepted')
    return {'tensors': []}
  if error is not None:
    if stale:
      return {'tensors': []}
    raise Violation('refused', '%s was refused: %s' % (text, str(error)[:200]))
  check = {'text': text, 'do': st['do'], 'coef': coef, 'stale': stale,
           'parts': [len(v.cores) for v in ops],
           'layout': [(v.matrix, v.batch) for v in ops],
           'f32': ops[0].tt.dtype == tf.float32,
           'tensors': [c for v in ops for c in v.cores]}
  if st['do'] == 'inner':
    check['tensors'] = check['tensors'] + [res]
  else:
    v = Vector(res, ops[0].point, ops[0].epoch, 'sum')
    if v.batch != ops[0].batch or v.size != ops[0].size:
      raise Violation('wrong kind', text + ' has another batch size')
    check['tensors'] = check['tensors'] + v.cores
    if not stale:
      vectors.append(v)
  return check


def judge(checks, values, out):
  at = 0
  for c in checks:
    mine = values[at:at + len(c['tensors'])]
    at += len(c['tensors'])
    if not mine:
      continue
    dense, k = [], 0
    for n, (matrix, batch) in zip(c['parts'], c['layout']):
      dense.append(model.dense_from_cores(
          mine[k:k + n], matrix, batch).astype(np.float64))
      k += n
    if c['do'] == 'inner':
      a, b = [x.reshape(x.shape[0] if l[1] else 1, -1)
              for x, l in zip(dense, c['layout'])]
      want, got = a.dot(b.T), np.array(mine[k])
      # The size of the summands, which may cancel.
      scale = np.abs(a).max() * np.abs(b).max() * a.shape[1]
    else:
      if c['coef'] is None:
        want = sum(dense)
      else:
        want = sum(np.reshape(f, np.shape(f) + (1,) * (x.ndim - np.ndim(f))) * x
                   for f, x in zip(c['coef'], dense))
      got = model.dense_from_cores(mine[k:], *c['layout'][0])
      scale = max(np.abs(x).max() for x in dense) * len(dense)
    out.count('combinations compared')
    out.log(c['text'], got)
    tol = 1e-3 if c['f32'] else 1e-8
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol,
                                                  atol=tol * scale):
      if c['stale']:
        out.finding(REASSIGNED)
        continue
      raise Violation('wrong value', '%s differs from the ordinary one by %.3g' %
                      (c['text'], np.abs(got - want).max() if
                       got.shape == want.shape else np.nan))
