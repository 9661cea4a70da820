"""Library calls that are not functions of their arguments: variable creation
and assignment, random initializers, layers."""
import numpy as np

from sim import boot, engine, model, monitors, sched, world
from sim.outcome import Violation

tf = boot.tf

EXTRA = ['assign', 'get_variable', 'random', 'layer']


def random_call(rng, g):
  """Parameters of a random initializer call."""
  name = rng.choice(['random_tensor', 'random_tensor_batch', 'random_matrix',
                     'random_matrix_batch', 'tensor_with_random_cores',
                     'tensor_batch_with_random_cores',
                     'matrix_with_random_cores',
                     'matrix_batch_with_random_cores', 'glorot_initializer',
                     'he_initializer', 'lecun_initializer'])
  matrix = 'matrix' in name or 'initializer' in name
  d = g.d
  shape = [list(g.rows), list(g.cols)] if matrix else list(g.n)
  none = None
  if matrix and rng.random() < 0.25:
    none = rng.randrange(2)
  rank = rng.choice([1, 2, 3, [1] + [2] * (d - 1) + [1],
                     [1] + [rng.randint(1, 3) for _ in range(d - 1)] + [1]])
  return {'name': name, 'shape': shape, 'none': none, 'rank': rank,
          'batch': rng.randint(1, 3) if 'batch' in name else None,
          'form': rng.choice(['list', 'list', 'tuple', 'np']),
          'rankform': rng.choice(['list', 'np']),
          'std': rng.choice([None, 0.5, 2.0]),
          'mean': rng.choice([None, 0.0, 0.7]) if 'cores' in name else None}


def do_random(t3f, p, own=lambda x: x, dtype=None):
  """Performs a random initializer call."""
  shape = [list(x) if isinstance(x, list) else x for x in p['shape']]
  if p['none'] is not None:
    shape[p['none']] = None
  if p['form'] == 'np' and p['none'] is None:
    shape = own(np.array(shape))
  elif p['form'] == 'tuple':
    shape = tuple(own(tuple(x)) if isinstance(x, list) else x for x in shape)
  else:
    shape = own(shape)
    for x in shape:
      if isinstance(x, list):
        own(x)
  rank = p['rank']
  if isinstance(rank, list):
    rank = own(np.array(rank) if p['rankform'] == 'np' else list(rank))
  kw = {'tt_rank': rank, 'dtype': dtype or tf.float64}
  if p['batch'] is not None:
    kw['batch_size'] = p['batch']
  if p['std'] is not None and 'initializer' not in p['name']:
    kw['stddev'] = p['std']
  if p['mean'] is not None:
    kw['mean'] = p['mean']
  return getattr(t3f, p['name'])(shape, **kw)


def gen(g, rng):
  op = rng.choice(EXTRA if g.d > 1 else EXTRA[:2])
  if op == 'random':
    return {'op': op, 'a': [], 'p': random_call(rng, g)}
  if op == 'layer':
    return {'op': op, 'a': [], 'p': {
        'in': list(g.rows), 'out': list(g.cols), 'rank': rng.randint(1, 2),
        'bias': rng.random() < 0.7, 'act': rng.choice([None, 'relu']),
        'seed': rng.randrange(2 ** 31)}}
  x = g.obj(base=True)
  return {'op': op, 'a': [x], 'p': {'seed': rng.randrange(2 ** 31),
                                    'name': rng.choice(['v', 'a/v', 'w'])}}


def run_with_faults(b, plan, out, make_error, chained, make_fault):
  """C03 for these calls: fail somewhere, then everything must still work."""
  c = plan['target']
  t3f, p = b.t3f, c['p']
  op = c['op']
  other = None
  if op in ('assign', 'get_variable'):
    spec = b.specs[c['a'][0]]
    init = b.objs[c['a'][0]]
    values = [np.array(x) for x in init.tt_cores]
    other = t3f.get_variable('other', initializer=engine.make_object(
        t3f, dict(spec, var=False)))
    other_state = monitors.TTState('another variable', other)
  if op == 'assign':
    var = t3f.get_variable(p['name'], initializer=init)
    new_spec = dict(spec, seed=p['seed'], var=False)
    new_value = engine.make_object(t3f, new_spec)
    new_cores = model.make_cores(new_spec)
    new_state = monitors.TTState('the assigned value', new_value)
  if op == 'layer':
    first = t3f.nn.KerasDense(p['in'], p['out'], p['rank'], use_bias=p['bias'],
                              activation=p['act'])
    x = np.random.RandomState(p['seed']).randn(2, model.prod(p['in'])).astype(
        'float32')
    y = np.array(first(tf.constant(x)))

  def act():
    if op == 'assign':
      return t3f.assign(var, new_value)
    if op == 'get_variable':
      return t3f.get_variable(p['name'], initializer=init)
    if op == 'random':
      return do_random(t3f, p)
    layer = t3f.nn.KerasDense(p['in'], p['out'], p['rank'], use_bias=p['bias'],
                              activation=p['act'])
    return layer, layer(tf.constant(x))

  def verify(res, when):
    out.count('evaluations')
    if op == 'assign':
      for i, (core, want) in enumerate(zip(var.tt_cores, new_cores)):
        if not np.array_equal(np.array(core), want):
          raise Violation('wrong result', 'assign %s: core %d does not hold '
                          'the assigned value' % (when, i))
      got = engine.take(res)
      if not all(np.array_equal(a, w) for a, w in zip(got.arrays, new_cores)):
        raise Violation('wrong result', 'the result of assign %s does not '
                        'read as the assigned value' % when)
    elif op == 'get_variable':
      got = engine.take(res)
      if not all(np.array_equal(a, w) for a, w in zip(got.arrays, values)):
        raise Violation('wrong result', 'a variable created %s does not hold '
                        'its initializer' % when)
    elif op == 'random':
      got = engine.take(res)
      if not all(np.all(np.isfinite(a)) for a in got.arrays):
        raise Violation('wrong result', '%s %s is not finite' % (p['name'],
                                                                 when))
    else:
      layer, yy = res
      w = model.dense_from_cores([np.array(k) for k in layer.matrix.tt_cores],
                                 True, False)
      want = x.astype(np.float64).dot(w)
      if layer.b is not None:
        want = want + np.array(layer.b)
      if p['act'] == 'relu':
        want = np.maximum(want, 0)
      if not np.allclose(want, np.array(yy), rtol=1e-3, atol=1e-4):
        raise Violation('wrong result', 'forward pass of a layer built %s' %
                        when)

  with sched.Call(None, sched.count_only()) as call:
    res = act()
  verify(res, 'without any fault')
  counts = {'kernel': call.kernels, 'line': call.places, 'callback': 0,
            'names': call.kernel_names}
  for f in plan['faults_']:
    kind = f['kind'] if counts[f['kind']] else 'line'
    error = f['error'] if kind == f['kind'] else 'Interrupt'
    if op == 'assign':
      # Back to a known value.
      for core, v in zip(var.tt_cores, values):
        core.assign(v)
    fault = make_fault(f, counts, kind, lambda: make_error(error))
    before = monitors.GlobalState(rng_may_advance=True)
    raised = None
    try:
      with sched.Call(None, fault) as call:
        res = act()
    except sched.SimAbort:
      raise
    except BaseException as e:
      raised = e
    if fault.fired is not None:
      out.count('fault:%s %s' % (kind, error))
      out.sig(op, p.get('name'), kind, fault.site, error)
    out.count('steps', call.lines + call.kernels)
    when = 'with %s at %s %d (%s)' % (error, kind, fault.at, fault.site)
    out.log(op, kind, fault.at, fault.site, type(raised).__name__)
    if raised is None:
      verify(res, when)
    elif fault.fired is not None and not chained(raised, fault.fired):
      raise Violation('failure masked', '%s %s: the caller sees an unrelated '
                      '%s: %s' % (op, when, type(raised).__name__,
                                  str(raised)[:150]))
    raised = None
    msg = before.diff()
    if msg:
      monitors.restore(before)
      raise Violation('state left behind', '%s %s: %s' % (op, when, msg))
    if other is not None:
      msg = other_state.diff()
      if msg:
        raise Violation('argument changed', '%s %s: %s' % (op, when, msg))
    if op == 'assign':
      msg = new_state.diff()
      if msg:
        raise Violation('argument changed', '%s %s: %s' % (op, when, msg))
      for i, core in enumerate(var.tt_cores):
        now = np.array(core)
        if not np.array_equal(now, values[i]) and \
            not np.array_equal(now, new_cores[i]):
          raise Violation('argument changed', 'assign %s: core %d holds '
                          'neither its old nor its new value' % (when, i))
    if op == 'layer':
      if not np.array_equal(np.array(first(tf.constant(x))), y):
        raise Violation('argument changed', 'layer construction %s changed '
                        'another layer' % when)
    b.check_args('%s %s' % (op, when))
    verify(act(), 'after a failure %s' % when)
    for o in plan['other_'] if f['others'] else ():
      oargs, odense = b.args(o)
      snap, _ = engine.attempt(t3f, o, oargs, odense)
      b.judge(o, snap, 'after %s failed %s' % (op, when))
