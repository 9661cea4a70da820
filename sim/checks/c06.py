"""C06: a rejected assignment changes nothing."""
import numpy as np

from sim import boot, engine, graphsim, model, monitors, sched
from sim.checks import c07
from sim.outcome import Violation

tf = boot.tf

BAD = ['ndims', 'ndims', 'mode', 'mode', 'rank', 'rank', 'dtype', 'batch_size',
       'batch', 'matrix', 'twist']


def gen_spec(rng, d=None):
  wide = rng.random() < 0.08
  d = d or rng.choice([5, 6, 8, 11, 12] if wide else [1, 2, 3, 3, 4])
  matrix = rng.random() < 0.5
  shape = [[rng.randint(1, 3) for _ in range(d)] for _ in range(1 + matrix)]
  ranks = [1] + [rng.randint(1, 7 if wide else 3) for _ in range(d - 1)] + [1]
  if rng.random() < 0.15:
    ranks = [1] * (d + 1)
  if rng.random() < 0.1:
    shape = [[1] * d for _ in shape]
  return {'id': 'o', 'k': 'matrix' if matrix else 'tensor',
          'b': rng.randint(1, 12 if wide else 3) if rng.random() < 0.4 else None,
          'shape': shape, 'ranks': ranks,
          'dt': rng.choice(['float64', 'float64', 'float32']),
          'seed': rng.randrange(2 ** 31)}


def spoil(rng, s, kind):
  """A spec that does not fit s; None if this way does not apply."""
  d = len(s['ranks']) - 1
  s = dict(s, shape=[list(x) for x in s['shape']], ranks=list(s['ranks']),
           seed=rng.randrange(2 ** 31))
  if kind == 'ndims':
    if rng.random() < 0.5 and d > 1:
      # A prefix of the cores fits.
      for x in s['shape']:
        x.pop()
      s['ranks'][-2:] = [1]
    else:
      for x in s['shape']:
        x.append(rng.randint(1, 2))
      s['ranks'].append(1)
  elif kind == 'mode':
    k = rng.choice([d - 1, rng.randrange(d)])
    x = rng.choice(s['shape'])
    x[k] += rng.choice([1, 2])
  elif kind == 'rank':
    if d == 1:
      return None
    k = rng.choice([d - 1, rng.randrange(1, d)])
    s['ranks'][k] += rng.choice([1, 2])
  elif kind == 'dtype':
    s['dt'] = 'float32' if s['dt'] == 'float64' else 'float64'
  elif kind == 'batch_size':
    if s['b'] is None:
      return None
    s['b'] += rng.randint(1, 2)
  elif kind == 'batch':
    s['b'] = None if s['b'] is not None else rng.randint(1, 2)
  elif kind == 'matrix':
    if s['k'] == 'matrix':
      s['k'], s['shape'] = 'tensor', [[a * b for a, b in zip(*s['shape'])]]
    else:
      s['k'], s['shape'] = 'matrix', [s['shape'][0], [1] * d]
  elif kind == 'twist':
    # Same core shapes, other meaning: a TT-matrix and a batch of TT-tensors.
    if any(r != 1 for r in s['ranks']):
      return None
    if s['k'] == 'matrix' and s['b'] is None and all(
        n == 1 for n in s['shape'][0]):
      s['k'], s['b'], s['shape'] = 'tensor', 1, [s['shape'][1]]
    elif s['k'] == 'tensor' and s['b'] == 1:
      s['k'], s['b'], s['shape'] = 'matrix', None, [[1] * d, s['shape'][0]]
    else:
      return None
  return s


def gen(rng, tier):
  v = gen_spec(rng)
  if rng.random() < 0.08:
    # Candidates for confusion between batches and matrices.
    v['ranks'] = [1] * len(v['ranks'])
    if rng.random() < 0.5:
      v.update(k='tensor', b=1, shape=v['shape'][:1])
    else:
      v.update(k='matrix', b=None, shape=[[1] * (len(v['ranks']) - 1),
                                          v['shape'][0]])
  v['id'] = 'v'
  other = dict(gen_spec(rng), id='u') if rng.random() < 0.5 else dict(
      v, id='u', seed=rng.randrange(2 ** 31))
  steps = []
  mode = rng.choice(['eager', 'eager', 'graph', 'graph'])
  for _ in range(rng.randint(4, 10)):
    r = rng.random()
    if r < 0.35:
      st = {'fit': True, 's': dict(v, seed=rng.randrange(2 ** 31))}
    else:
      kind = rng.choice(BAD)
      s = spoil(rng, v, kind)
      if s is None:
        continue
      if rng.random() < 0.25:
        again = rng.choice(BAD)
        twice = spoil(rng, s, again)
        # Two changes might cancel out.
        if twice and again != kind and {again, kind} & {'dtype', 'ndims'}:
          s, kind = twice, kind + '+' + again
      st = {'fit': False, 's': s, 'kind': kind}
    st['src'] = rng.choice(['const', 'const', 'var', 'expr'])
    st['how'] = rng.random() < 0.3 and len(st['s']['ranks']) > 2
    if mode == 'eager':
      st['via'] = rng.choice(['eager', 'eager', 'eager', 'fn'])
    else:
      # Values whose shapes are known only when they are fed.
      st['via'] = rng.choice(['static', 'fed', 'fed', 'fed'])
      st['unknown'] = [rng.random() for _ in range(8)]
      st['order'] = c07.gen_order(rng)
      st['fetch'] = rng.choice(['op', 'full', 'cores'])
    if rng.random() < 0.1:
      st['twice'] = True
    steps.append(st)
  return {'v': v, 'u': other, 'mode': mode, 'steps_': steps}


class _State(object):
  """Contents of everything around a refused assignment (eager)."""

  def __init__(self, *tts):
    self.all = [monitors.TTState(n, t) for n, t in tts]

  def diff(self, skip=None):
    for s in self.all:
      if s.name != skip:
        msg = s.diff()
        if msg:
          return msg
    return None


def run(plan, out):
  with engine.quiet():
    if plan['mode'] == 'eager':
      run_eager(plan, out)
    else:
      run_graph(plan, out)


def _note(out, plan, st, ok, extra=()):
  out.count('evaluations')
  out.count('steps')
  if not ok:
    out.count('fault:misfit ' + st['kind'])
  s = plan['v']
  out.sig(s['k'], s['b'], len(s['ranks']), st.get('kind'), st['src'], st['via'],
          *extra)


def run_eager(plan, out):
  t3f = boot.fresh_t3f()
  v = t3f.get_variable('v', initializer=engine.make_object(t3f, plan['v']))
  u = t3f.get_variable('u', initializer=engine.make_object(t3f, plan['u']))
  for st in plan['steps_']:
    s = dict(st['s'], var=st['src'] == 'var', how=st['how'])
    want = model.make_cores(s)
    value = engine.make_object(t3f, s)
    if st['src'] == 'expr':
      value = -(-value)
      want = [np.array(c) for c in value.tt_cores]
    glob = monitors.GlobalState()
    state = _State(('the variable', v), ('another variable', u),
                   ('the offered value', value))
    for _ in range(1 + ('twice' in st)):
      error, res = None, None
      try:
        with sched.Call(None) as call:
          if st['via'] == 'fn':
            tf.function(lambda: t3f.full(t3f.assign(v, value)),
                        autograph=False)()
          else:
            res = t3f.assign(v, value)
      except Exception as e:
        error = e
      out.log(st['via'], st.get('kind'), type(error).__name__)
      _note(out, plan, st, st['fit'])
      text = 'assigning %s to %s (%s)' % (_show(s), _show(plan['v']), st['via'])
      if st['fit']:
        if error is not None:
          raise Violation('fitting value refused', '%s raised %s: %s' % (
              text, type(error).__name__, str(error)[:200]))
        for k, (c, w) in enumerate(zip(v.tt_cores, want)):
          if not np.array_equal(np.array(c), w):
            raise Violation('wrong contents', '%s: core %d does not hold the '
                            'assigned value' % (text, k))
        if res is not None and not all(
            np.array_equal(np.array(c), w) for c, w in zip(res.tt_cores, want)):
          raise Violation('wrong contents', '%s: the result is not the assigned '
                          'value' % text)
        msg = state.diff(skip='the variable')
      else:
        if error is None:
          raise Violation('misfit accepted', '%s (%s) was not refused' % (
              text, st['kind']))
        msg = state.diff()
      msg = msg or glob.diff(tables=False)
      if msg:
        raise Violation('refused assignment had effects' if not st['fit'] else
                        'assignment had side effects', '%s: %s' % (text, msg))


def _show(s):
  return '%s %s%s, ranks %s, %s' % (
      'TT-' + s['k'], '' if s['b'] is None else 'batch of %d ' % s['b'],
      s['shape'], s['ranks'], s['dt'])


def run_graph(plan, out):
  t3f = boot.fresh_t3f()
  graph = tf.Graph()
  built = []
  with graph.as_default():
    v = t3f.get_variable('v', initializer=engine.make_object(t3f, plan['v']))
    u = t3f.get_variable('u', initializer=engine.make_object(t3f, plan['u']))
    for n, st in enumerate(plan['steps_']):
      s = st['s']
      cores = model.make_cores(s)
      feed, names = {}, []
      if st['via'] == 'static':
        value = engine.make_object(t3f, s)
      else:
        # Unknown sizes: ranks, modes or the batch size, as the plan says.
        bonds = [st['unknown'][k % 8] < 0.5 for k in range(len(s['ranks']))]
        unknown_batch = st['unknown'][3] < 0.4
        phs = []
        for k, c in enumerate(cores):
          shape = list(c.shape)
          if bonds[k] and k > 0:
            shape[-2 - len(s['shape'])] = None
          if bonds[k + 1] and k + 1 < len(cores):
            shape[-1] = None
          if st['unknown'][5] < 0.3:
            shape[-2] = None
          if s['b'] is not None and unknown_batch:
            shape[0] = None
          phs.append(tf.compat.v1.placeholder(c.dtype, shape))
        feed = {p.name: c for p, c in zip(phs, cores)}
        cls = t3f.TensorTrain if s['b'] is None else t3f.TensorTrainBatch
        value = cls(phs)
      error, res = None, None
      try:
        if st['src'] == 'expr' and st['via'] == 'static':
          value = -value
          cores = [-cores[0]] + cores[1:]
        res = t3f.assign(v, value)
        if st['fetch'] == 'op':
          fetches = [res.op]
        elif st['fetch'] == 'full':
          fetches = [t3f.full(res)]
        else:
          fetches = [tf.identity(c) for c in res.tt_cores]
        names = [f.name for f in fetches]
      except Exception as e:
        error = e
      built.append((feed, names, error, cores))
  p = graphsim.Process(graph)
  handles = {n: [c.handle.op.name for c in o.tt_cores]
             for n, o in (('v', v), ('u', u))}
  now = {n: model.make_cores(plan[n]) for n in ('v', 'u')}
  for n in now:
    p.state.update(zip(handles[n], now[n]))
  for st, (feed, names, error, cores) in zip(plan['steps_'], built):
    text = 'assigning %s to %s (graph mode, %s)' % (_show(st['s']),
                                                    _show(plan['v']), st['via'])
    chain = []
    if error is None:
      try:
        p.run(names, feed, order=st['order'])
      except tf.errors.OpError as e:
        error = e
      chain = p.chain
      out.count('executor orders forced')
      if p.moved:
        out.count('fault:reordered step')
    out.log(st['via'], st.get('kind'), type(error).__name__, *chain)
    _note(out, plan, st, st['fit'], (tuple(chain), st['fetch']))
    got = {n: [np.array(p.state[h]) for h in handles[n]] for n in now}
    if st['fit']:
      if error is not None:
        raise Violation('fitting value refused', '%s raised %s: %s' % (
            text, type(error).__name__, str(error)[:200]))
      dense = lambda cs: model.dense_from_cores(
          cs, plan['v']['k'] == 'matrix', plan['v']['b'] is not None)
      if not c07.close(dense(got['v']), dense(cores), plan['v']['dt']):
        raise Violation('wrong contents', '%s did not store the value; order '
                        'of the stateful operations: %s' % (text,
                                                            ' '.join(chain)))
      now['v'] = got['v']
    elif error is None:
      raise Violation('misfit accepted', '%s (%s) was not refused' % (
          text, st['kind']))
    for n in now:
      for k, (a, b) in enumerate(zip(got[n], now[n])):
        if not np.array_equal(a, b):
          raise Violation('refused assignment had effects', '%s failed (%s) but '
                          'changed core %d of %s; order of the stateful '
                          'operations: %s' % (text, type(error).__name__, k, n,
                                              ' '.join(chain)))
