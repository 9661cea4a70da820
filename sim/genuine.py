"""C03: kernels that fail by themselves, because the numbers they are given
have no result. The caller must see an error, or numbers that are visibly not
a result."""
import numpy as np

from sim import boot, engine, model, monitors, sched, world
from sim.outcome import Violation

tf = boot.tf

WHAT = ['inv', 'inv', 'cholesky', 'cholesky', 'gather_nd', 'getitem', 'round',
        'to_tt', 'orthogonalize']


def gen(g, rng):
  what = rng.choice(WHAT)
  b = rng.choice([None, None, g.b])
  if what in ('inv', 'cholesky'):
    n = [rng.randint(1, 3) for _ in range(min(g.d, 4))]
    spec = {'k': 'matrix', 'shape': [n, n], 'ranks': [1] * (len(n) + 1),
            'spd': True}
  else:
    spec = {'k': 'tensor', 'shape': [list(g.n)], 'ranks': g.ranks(g.n)}
    if what == 'to_tt' or (what == 'getitem' and b and rng.random() < 0.5):
      b = None
  spec.update(id='bad', b=b, dt='float64', seed=g.seed())
  if rng.random() < 0.3:
    spec['var'] = True
  return {'what': what, 'spec': spec, 'frac': rng.random(),
          'elem': rng.randrange(b or 1), 'pick': rng.randrange(1000),
          'over': rng.choice([0, 0, 1, 7]), 'fn': rng.random() < 0.2}


def spoiled(p):
  """The cores of the object whose operation has no result."""
  spec, what = p['spec'], p['what']
  cores = model.make_cores(spec)
  i = int(p['frac'] * len(cores))
  core = cores[i][p['elem']] if spec['b'] is not None else cores[i]
  if what in ('inv', 'cholesky'):
    k = p['pick'] % core.shape[1]
    if what == 'inv':
      core[0, k, :, 0] = 0
    else:
      core[0, k, k, 0] = -1
  elif what not in ('gather_nd', 'getitem'):
    core.reshape(-1)[p['pick'] % core.size] = np.nan
  return cores


def act(t3f, p, x):
  what, spec = p['what'], p['spec']
  shape = spec['shape'][0]
  if what == 'inv':
    return t3f.kronecker.inv(x)
  if what == 'cholesky':
    return t3f.kronecker.cholesky(x)
  if what == 'round':
    return t3f.round(x, 1 + p['pick'] % 2)
  if what == 'orthogonalize':
    return t3f.orthogonalize_tt_cores(x, left_to_right=p['pick'] % 2 == 0)
  if what == 'to_tt':
    return t3f.to_tt_tensor(tf.constant(model.dense_from_cores(
        spoiled(p), False, False)), 1 + p['pick'] % 2)
  index = [p['pick'] % n for n in shape]
  size = list(shape)
  if spec['b'] is not None:
    index = [p['elem']] + index
    size = [spec['b']] + size
  i = int(p['frac'] * len(index))
  index[i] = size[i] + p['over']
  if what == 'gather_nd':
    return t3f.gather_nd(x, np.array([[0] * len(index), index]))
  return x[tuple(index[:i + 1] + [slice(None)] * (len(index) - i - 1))]


def run(b, p, others, out):
  t3f = b.t3f
  spec = p['spec']
  x = engine.make_object(t3f, spec, spoiled(p))
  state = [np.array(c) for c in x.tt_cores]
  name = '%s of an argument for which it has no result' % p['what']
  before = monitors.GlobalState(False)
  raised, cores = None, None
  try:
    with sched.Call(None, sched.count_only()) as call:
      if p['fn']:
        cores = tf.function(lambda: parts(act(t3f, p, x)), autograph=False)()
      else:
        cores = parts(act(t3f, p, x))
      cores = [np.array(c) for c in cores]
  except sched.SimAbort:
    raise
  except Exception as e:
    raised = e
  out.count('evaluations')
  out.count('fault:%s without a result' % p['what'])
  out.count('steps', call.lines + call.kernels)
  out.sig('genuine', p['what'], spec['b'] is not None, p['fn'])
  out.log('genuine', p['what'], type(raised).__name__)
  if raised is None and (p['what'] in ('gather_nd', 'getitem') or
                         all(np.all(np.isfinite(c)) for c in cores)):
    raise Violation('failure hidden', '%s%s returned %d ordinary numbers' % (
        name, ', traced,' if p['fn'] else '', sum(c.size for c in cores)))
  raised = None
  msg = before.diff()
  if msg:
    monitors.restore(before)
    raise Violation('state left behind', '%s: %s' % (name, msg))
  if not all(np.array_equal(np.array(c), s, equal_nan=True)
             for c, s in zip(x.tt_cores, state)):
    raise Violation('argument changed', '%s changed its argument' % name)
  b.check_args(name)
  for o in others:
    oargs, odense = b.args(o)
    snap, _ = engine.attempt(t3f, o, oargs, odense)
    b.judge(o, snap, 'after %s' % name)


def parts(r):
  return list(r.tt_cores) if world.is_tt(r) else [r]
