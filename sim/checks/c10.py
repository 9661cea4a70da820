"""C10: random initializers use fresh draws at the documented scale."""
import numpy as np

from sim import boot, engine, model, sched
from sim.checks import c01
from sim.outcome import Violation

tf = boot.tf

# Random kernel -> (mean, deviation) of one draw.
KERNELS = {'RandomStandardNormal': (0., 1.),
           'TruncatedNormal': (0., 0.8796256610342398),
           'RandomUniform': (0.5, 12. ** -0.5),
           'StatelessRandomNormal': (0., 1.),
           'StatelessRandomNormalV2': (0., 1.),
           'StatelessTruncatedNormal': (0., 0.8796256610342398),
           'StatelessTruncatedNormalV2': (0., 0.8796256610342398),
           'StatelessRandomUniform': (0.5, 12. ** -0.5),
           'StatelessRandomUniformV2': (0.5, 12. ** -0.5)}
SPACING = 2. ** -9
MANY = 2 ** 15
BIG = 16000   # draws in one run

CORES = ['tensor_with_random_cores', 'tensor_batch_with_random_cores',
         'matrix_with_random_cores', 'matrix_batch_with_random_cores']
ENTRIES = ['random_tensor', 'random_tensor_batch', 'random_matrix',
           'random_matrix_batch']
LAYERS = ['glorot_initializer', 'he_initializer', 'lecun_initializer']


def gen_call(rng, like=None):
  if like is not None and rng.random() < 0.5:
    return dict(like)
  op = rng.choice(CORES + ENTRIES + LAYERS + ['KerasDense'])
  d = rng.choice([2, 2, 3, 4]) if op != 'KerasDense' else rng.choice([2, 3])
  top = 3 if d < 4 else 2
  big = rng.random() < 0.12
  if big:
    d = rng.choice([2, 3, 5, 7, 10]) if op != 'KerasDense' else d
    top = rng.choice([3, 6, 10])
  c = {'op': op, 'dt': rng.choice(['float32', 'float64']),
       'how': rng.choice(['list', 'tuple', 'array'])}
  low = rng.choice([1, top - 1]) if big else 1
  shape = [[rng.randint(low, top) for _ in range(d)] for _ in range(2)]
  if 'tensor' in op:
    c['shape'] = shape[:1]
  else:
    c['shape'] = shape
    r = rng.random()
    if op != 'KerasDense' and r < 0.25:
      c['shape'][int(r < 0.12)] = None
  rank = rng.choice([3, 6, 12]) if big else 3
  c['rank'] = rng.randint(1, rank) if rng.random() < 0.6 else \
      [1] + [rng.randint(1, rank) for _ in range(d - 1)] + [1]
  if 'batch' in op:
    c['b'] = rng.randint(1, rng.choice([5, 10, 40]) if big else 3)
  if size(c) > BIG // 3:
    return gen_call(rng, like)
  if op in CORES:
    c['mean'] = rng.choice([0., 0., 1.5, -0.75])
  if op in CORES + ENTRIES:
    c['stddev'] = rng.choice([1., 1., 0.5, 2.5])
  if op == 'KerasDense':
    c['kernel'] = rng.choice(['glorot', 'he', 'lecun'])
    c['dt'] = 'float32'
  return c


def size(c):
  """The number of entries of all the cores."""
  d = len(c['shape'][0] or c['shape'][1])
  rank = c['rank']
  if isinstance(rank, int):
    rank = [1] + [rank] * (d - 1) + [1]
  return c.get('b', 1) * sum(
      rank[i] * rank[i + 1] * model.prod([s[i] for s in c['shape'] if s])
      for i in range(d))


def gen(rng, tier):
  if rng.random() < 0.25:
    like = gen_call(rng)
    calls = [gen_call(rng, like) for _ in range(rng.randint(2, 5))]
    for c in calls:
      c['fn'] = c['op'] != 'KerasDense' and rng.random() < 0.4
    # All of them traced together: into one function, or one graph.
    together = rng.choice(['function', 'graph']) if rng.random() < 0.35 else None
    return {'kind': 'seeded', 'calls_': calls, 'together': together,
            'seed': rng.randrange(2 ** 31)}
  nthreads = rng.choice([1, 2, 2, 3, 4])
  like = gen_call(rng)
  threads, total = [], 0
  for _ in range(nthreads):
    calls = []
    for _ in range(rng.randint(1, 4)):
      c = gen_call(rng, like)
      if total + size(c) <= BIG:
        calls.append(c)
        total += size(c)
    for c in calls:
      if rng.random() < 0.08:
        c['fail'] = rng.randrange(3)
      c['keep'] = rng.random() < 0.5
    threads.append({'calls_': calls})
  opcodes = rng.random() < 0.15
  return {'kind': 'tagged', 'threads_': threads, 'opcodes': opcodes,
          'tag': rng.randrange(MANY), 'sched': c01.schedule_spec(
              rng, nthreads, opcodes)}


def perform(t3f, c):
  conv = {'list': list, 'tuple': tuple, 'array': np.array}[c['how']]
  shape = [None if s is None else conv(s) for s in c['shape']]
  rank = c['rank'] if isinstance(c['rank'], int) else conv(c['rank'])
  if c['op'] == 'KerasDense':
    return t3f.nn.KerasDense(shape[0], shape[1], tt_rank=rank,
                             kernel_initializer=c['kernel']).matrix
  kw = {'tt_rank': rank, 'dtype': getattr(tf, c['dt'])}
  for k, name in [('b', 'batch_size'), ('mean', 'mean'), ('stddev', 'stddev')]:
    if k in c:
      kw[name] = c[k]
  if 'tensor' in c['op']:
    shape = shape[0]
  return getattr(t3f, c['op'])(shape, **kw)


class Stream(object):
  """The random stream of TensorFlow, replaced by numbers we know."""

  def __init__(self, fill=None, tag=0):
    self.fill = fill      # constant instead of tagged draws
    self.tag = tag
    self.count = 0
    self.owner = {}       # number of a draw -> call it was handed to
    self.kinds = set()
    self.overflow = False    # more draws than distinct numbers
    self.stateless = {}

  def draws(self, shape, call):
    size = int(np.prod(shape))
    if self.fill is not None:
      return np.full(shape, self.fill)
    k = (self.tag + 1571 * np.arange(self.count, self.count + size)) % MANY
    self.count += size
    if self.count > MANY:
      self.overflow = True
    for i in k:
      self.owner[int(i)] = call
    return ((k - MANY // 2) * SPACING).reshape(shape)

  def filter(self, call_id):
    def on_kernel(name, call, args):
      res = call(*args)
      if name not in KERNELS:
        return res
      self.kinds.add(name)
      one = res[0] if isinstance(res, (list, tuple)) else res
      shape = one.shape.as_list()
      if name.startswith('Stateless') and self.fill is None:
        # Same key, same numbers.
        key = np.array(one).tobytes()
        if key not in self.stateless:
          self.stateless[key] = self.draws(shape, call_id)
        new = self.stateless[key]
      else:
        new = self.draws(shape, call_id)
      new = tf.constant(new, dtype=one.dtype)
      return [new] if isinstance(res, (list, tuple)) else new
    return on_kernel


def calibrate(c):
  """What the call does to one draw: (offset, factor, kinds) of each entry."""
  res = []
  for fill in (0., 1.):
    stream = Stream(fill)
    with boot.other_instance() as t3f:
      with sched.Call(kernel_filter=stream.filter(None)):
        tt = perform(t3f, c)
      res.append([np.array(x).astype(np.float64) for x in tt.tt_cores])
  batch = hasattr(tt, 'batch_size')
  offset = res[0]
  factor = [b - a for a, b in zip(*res)]
  return offset, factor, stream.kinds, batch, bool(tt.is_tt_matrix())


def check_scale(c, cal, out):
  offset, factor, kinds, batch, matrix = cal
  if len(kinds) != 1:
    # Not one of the known streams: nothing is known about its draws.
    out.count('calls with unknown random kernels')
    return False
  mean, dev = KERNELS[next(iter(kinds))]
  mean = [o + f * mean for o, f in zip(offset, factor)]
  dev = [np.abs(f) * dev for f in factor]
  out.count('scales compared')
  if c['op'] in CORES:
    for m, s in zip(mean, dev):
      if not np.allclose(m, c['mean'], atol=1e-5) or \
          not np.allclose(s, c['stddev'], rtol=1e-5):
        raise Violation('wrong scale', '%s: a core has entries of mean %s and '
                        'deviation %s' % (describe(c), _range(m), _range(s)))
    return True
  if c['op'] in ENTRIES:
    want = c['stddev'] ** 2
  else:
    n = [1 if s is None else model.prod(s) for s in c['shape']]
    kind = c['op'] if c['op'] != 'KerasDense' else c['kernel']
    want = {'g': 2. / (n[0] + n[1]), 'h': 2. / n[0], 'l': 1. / n[0]}[kind[0]]
  if any(np.abs(m).max() > 1e-6 for m in mean):
    raise Violation('wrong scale', '%s: the entries are not centred' %
                    describe(c))
  # The draws are independent, so the variances multiply along the train.
  var = entries([s ** 2 for s in dev], batch)
  if not np.allclose(var, want, rtol=1e-4):
    raise Violation('wrong scale', '%s: the entries have variance %s instead of '
                    '%g' % (describe(c), _range(var), want))
  return True


def entries(cores, batch):
  """Entries of the represented object: the extreme ones and some others."""
  rng = np.random.RandomState(0)
  res = []
  flat = [x.reshape((x.shape[:1] if batch else (1,)) + (
      x.shape[int(batch)], -1, x.shape[-1])) for x in cores]
  for pick in ['first', 'last'] + ['any'] * 30:
    v = None
    for x in flat:
      n = x.shape[2]
      k = {'first': 0, 'last': n - 1, 'any': rng.randint(n)}[pick]
      v = x[:, :, k] if v is None else np.matmul(v, x[:, :, k])
    res.append(v)
  return np.array(res)


def _range(x):
  return '%g' % x.min() if np.ptp(x) < 1e-9 else '%g..%g' % (x.min(), x.max())


def describe(c):
  return '%s(%s)' % (c['op'], ', '.join(
      '%s=%s' % (k, c[k]) for k in sorted(c) if k not in ('op', 'keep', 'fail')))


def run(plan, out):
  with engine.quiet():
    (run_seeded if plan['kind'] == 'seeded' else run_tagged)(plan, out)


def run_tagged(plan, out):
  cals = {}
  for th in plan['threads_']:
    for c in th['calls_']:
      k = describe(c)
      if k not in cals:
        cal = calibrate(c)
        cals[k] = cal if check_scale(c, cal, out) else None
  t3f = boot.fresh_t3f()
  stream = Stream(tag=plan['tag'])
  done, problems = [], []

  def program(t, calls):
    def main():
      for n, c in enumerate(calls):
        me = (t, n)
        fault = None
        if c.get('fail') is not None:
          fault = sched.Fault('kernel', c['fail'], lambda:
                              tf.errors.ResourceExhaustedError(
                                  None, None, 'injected'))
        tt = None
        try:
          with sched.Call(s, fault, plan['opcodes'],
                          stream.filter(me)) as call:
            tt = perform(t3f, c)
        except tf.errors.ResourceExhaustedError:
          if fault is None or fault.fired is None:
            raise
          out.count('fault:kernel failure in an initializer')
        out.count('kernels', call.kernels)
        out.count('evaluations')
        out.sig(c['op'], c['dt'], c.get('b'), c['how'], len(c['shape'][0] or
                                                            c['shape'][1]))
        if tt is not None:
          cores = [np.array(x) for x in tt.tt_cores]
          out.log(t, n, c['op'], *cores)
          done.append((me, c, cores, tt if c['keep'] else None))
    return main

  s = sched.Scheduler(plan['sched'], [program(t, th['calls_']) for t, th in
                                      enumerate(plan['threads_'])] or
                      [lambda: None], plan['opcodes'])
  abort = s.run()
  out.decisions = s.decisions
  out.count('steps', sum(s.step))
  out.count('preemptions', s.switches)
  for p in s.pairs:
    out.sig(*p)
  if abort:
    raise Violation('stuck', 'threads do not finish: %s' % abort)
  if stream.overflow:
    out.count('runs not traced (too many draws)')
    return
  used = {}
  for me, c, cores, tt in done:
    cal = cals.get(describe(c))
    if cal is None:
      continue
    if tt is not None:
      for a, b in zip(cores, tt.tt_cores):
        if not np.array_equal(a, np.array(b)):
          raise Violation('changed later', '%s: the object has changed since '
                          'it was returned' % describe(c))
    for i, (x, m, f) in enumerate(zip(cores, cal[0], cal[1])):
      if x.shape != m.shape:
        raise Violation('wrong shape', '%s: core %d has shape %s instead of %s'
                        % (describe(c), i, x.shape, m.shape))
      z = (x.astype(np.float64) - m) / f / SPACING + MANY // 2
      k = np.rint(z).astype(int)
      for at in np.ndindex(*k.shape):
        what = '%s in thread %d: entry %s of core %d' % (
            describe(c), me[0], at, i)
        if abs(z[at] - k[at]) > 0.1 or int(k[at]) not in stream.owner:
          raise Violation('not a draw', '%s is %g, which is no draw at the '
                          'scale of this call' % (what, x[at]))
        out.count('draws traced')
        key = int(k[at])
        if stream.owner[key] != me:
          raise Violation('foreign draw', '%s is a draw made for call %d of '
                          'thread %d' % ((what,) + stream.owner[key][::-1]))
        if key in used:
          raise Violation('draw used twice', '%s uses the same draw as %s' % (
              what, used[key]))
        used[key] = what


def run_seeded(plan, out):
  """The real stream: seeded sequences repeat, and nothing else does."""
  def history():
    t3f = boot.fresh_t3f()
    res = []
    calls = [c for c in plan['calls_'] if c['op'] != 'KerasDense']
    if plan['together'] and calls:
      build = lambda: [list(perform(t3f, c).tt_cores) for c in calls]
      if plan['together'] == 'function':
        f = tf.function(build, autograph=False)
        runs = [f(), f()]
      else:
        with tf.Graph().as_default():
          tf.compat.v1.set_random_seed(plan['seed'])
          tensors = build()
          with tf.compat.v1.Session() as sess:
            runs = [sess.run(tensors), sess.run(tensors)]
      for r in runs:
        for c, cores in zip(calls, r):
          out.count('evaluations')
          out.sig('together', plan['together'], c['op'], c['dt'], len(calls))
          res.append((c, [np.array(x) for x in cores], -1))
      return res
    for c in plan['calls_']:
      out.count('evaluations')
      if c['fn']:
        f = tf.function(lambda c=c: list(perform(t3f, c).tt_cores),
                        autograph=False)
        runs = [f(), f()]
      else:
        runs = [perform(t3f, c).tt_cores]
      # Under a seed every traced function has its own stream.
      group = len(res) if c['fn'] else -1
      for r in runs:
        res.append((c, [np.array(x) for x in r], group))
      out.sig('seeded', c['op'], c['fn'], c['dt'], len(res))
    return res

  tf.random.set_seed(plan['seed'])
  first = history()
  tf.random.set_seed(plan['seed'])
  second = history()
  out.count('seeded sequences repeated')
  for (c, a, _), (_, b, _) in zip(first, second):
    out.log(c['op'], *a)
    for x, y in zip(a, b):
      if not np.array_equal(x, y):
        raise Violation('not reproducible', '%s gives other cores in a repeated '
                        'sequence with the same seed' % describe(c))
  seen = {}
  for n, (c, a, group) in enumerate(first):
    for i, x in enumerate(a):
      parts = list(x) if 'b' in c else [x]
      for j, p in enumerate(parts):
        if p.size < 6:
          continue
        # The same draws at whatever scale and offset.
        p = p.astype(np.float64).ravel()
        key = (group,) + tuple(np.round((p[2:] - p[0]) / (p[1] - p[0]), 3))
        if key in seen:
          raise Violation('repeated draws', 'core %d (element %d) of %s, result '
                          '%d of the sequence, has the draws of %s' % (
                              i, j, describe(c), n, seen[key]))
        seen[key] = 'core %d (element %d) of result %d' % (i, j, n)
