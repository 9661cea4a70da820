"""C12: TT dense layers are independent, however they are built and called."""
import numpy as np

from sim import boot, engine, model, sched
from sim.checks import c01
from sim.outcome import Violation

tf = boot.tf

ACTS = {None: lambda z: z, 'linear': lambda z: z,
        'relu': lambda z: np.maximum(z, 0), 'tanh': np.tanh,
        'sigmoid': lambda z: 1 / (1 + np.exp(-z)),
        'softplus': lambda z: np.log1p(np.exp(z)),
        'softmax': lambda z: np.exp(z - z.max(-1, keepdims=True)) / np.exp(
            z - z.max(-1, keepdims=True)).sum(-1, keepdims=True)}


def gen_layer(rng, dims):
  d = len(dims[0])
  top = 3 if rng.random() < 0.93 else 8
  c = {'do': 'build', 'in': dims[0], 'out': dims[1],
       'rank': rng.randint(1, top) if rng.random() < 0.6 else
       [1] + [rng.randint(1, top) for _ in range(d - 1)] + [1],
       'act': rng.choice(list(ACTS)), 'bias': rng.random() < 0.75,
       'kernel': rng.choice(['glorot', 'he', 'lecun']),
       'b0': rng.choice([0.1, 0., -0.4, 1.])}
  if rng.random() < 0.3:
    c['default'] = True   # leave everything optional to the defaults
  return c


def gen(rng, tier):
  wide = rng.random() < 0.07
  d = rng.choice([2, 4, 5] if wide else [2, 2, 3])
  top = 6 if wide and d == 2 else 3
  dims = [[rng.randint(1, top) for _ in range(d)] for _ in range(2)]

  def some_dims():
    if rng.random() < 0.6:
      return dims
    return [[rng.randint(1, top) for _ in range(d)] for _ in range(2)]

  nthreads = rng.choice([1, 2, 2, 3, 4])
  opcodes = rng.random() < 0.35
  shared = [gen_layer(rng, some_dims()) for _ in range(rng.randint(0, 2))]
  busy = rng.random() < 0.3   # mostly forward passes of the shared layers
  threads = []
  for _ in range(nthreads):
    steps = []
    for _ in range(rng.randint(1, 14 if wide else 6)):
      r = rng.random()
      if busy and shared:
        r = 0.5 + r / 2
      if r < 0.4 or (not shared and not any(x['do'] == 'build'
                                             for x in steps)):
        st = gen_layer(rng, some_dims())
        r = rng.random()
        if r < 0.1 and not opcodes:
          st['fault'] = {'kind': 'line', 'at': rng.randrange(160)}
        elif r < 0.2:
          st['fault'] = {'kind': 'kernel', 'at': rng.randrange(24)}
        elif r < 0.25:
          st['kernel'], st['default'] = 'unknown', False
      elif r < 0.6:
        st = {'do': 'update', 'k': rng.randrange(100),
              'what': rng.choice(['matrix', 'bias', 'core']),
              'seed': rng.randrange(2 ** 31)}
      else:
        st = {'do': 'forward', 'k': rng.randrange(100),
              'shared': busy or rng.random() < 0.4, 'n': rng.randint(1, 3 if rng.random() < 0.95 else 40),
              'fn': rng.random() < 0.12, 'seed': rng.randrange(2 ** 31),
              'chain': rng.random() < 0.2}
      steps.append(st)
    threads.append({'steps_': steps})
  sch = c01.schedule_spec(rng, nthreads, opcodes)
  # Layers built long before, so that numbers grow.
  r = rng.random()
  old = rng.randint(1, 12) if r < 0.1 else rng.randint(90, 140) \
      if r < 0.11 else 0
  return {'old': old, 'shared_': shared, 'threads_': threads, 'opcodes': opcodes,
          'sched': sch, 'seed': rng.randrange(2 ** 31)}


class Built(object):
  """A layer and the weights it must have."""

  def __init__(self, layer, st):
    self.layer = layer
    self.st = st
    self.cores = [np.array(c) for c in layer.matrix.tt_cores]
    use_bias = st.get('default') or st['bias']
    self.act = None if st.get('default') else st['act']
    self.bias = None
    n_out = int(np.prod(st['out']))
    if use_bias:
      self.bias = np.full((n_out,), 0.1 if st.get('default') else st['b0'],
                          np.float32)

  def weights_differ(self):
    for i, (c, w) in enumerate(zip(self.layer.matrix.tt_cores, self.cores)):
      if not np.array_equal(np.array(c), w):
        return 'core %d' % i
    if (self.layer.b is None) != (self.bias is None):
      return 'existence of the bias'
    if self.bias is not None and not np.allclose(np.array(self.layer.b),
                                                 self.bias, atol=1e-7):
      return 'bias'
    return None

  def output(self, x):
    w = model.dense_from_cores(self.cores, True, False).astype(np.float64)
    z = np.matmul(x, w)
    if self.bias is not None:
      z = z + self.bias
    return ACTS[self.act](z)


def build(t3f, st):
  kw = {}
  if not st.get('default'):
    kw = {'tt_rank': st['rank'], 'activation': st['act'],
          'use_bias': st['bias'], 'kernel_initializer': st['kernel'],
          'bias_initializer': st['b0']}
  return t3f.nn.KerasDense(list(st['in']), list(st['out']), **kw)


def run(plan, out):
  with engine.quiet():
    tf.random.set_seed(plan['seed'])
    t3f = boot.fresh_t3f()
    problems = []
    shared = [Built(build(t3f, st), st) for st in plan['shared_']]
    everyone = list(shared)
    old = [t3f.nn.KerasDense([1, 2], [2, 1], 1).name for _ in
           range(plan['old'])]

    def forward(where, b, x, s, fn):
      with sched.Call(s, opcodes=plan['opcodes']) as call:
        f = tf.function(b.layer, autograph=False) if fn else b.layer
        got = f(tf.constant(x))
      out.count('evaluations')
      out.count('kernels', call.kernels)
      want = b.output(x)
      got = np.array(got)
      out.log(where, 'forward', got)
      if got.shape != want.shape or not np.allclose(
          got, want, rtol=1e-3, atol=1e-4):
        problems.append(('wrong output', '%s: %s(x) is not activation(x W + b) '
                         'of its own weights' % (where, b.layer.name)))
      return got

    def program(t, steps):
      def main():
        where = 'thread %d' % t
        own = []
        for st in steps:
          if st['do'] == 'build':
            fault, f = None, st.get('fault')
            if f:
              make = sched.Interrupt if f['kind'] == 'line' else (
                  lambda: tf.errors.ResourceExhaustedError(None, None,
                                                           'injected'))
              fault = sched.Fault(f['kind'], f['at'], make)
            layer = None
            try:
              with sched.Call(s, fault, plan['opcodes']) as call:
                layer = build(t3f, st)
            except (sched.Interrupt, tf.errors.ResourceExhaustedError):
              if fault is None or fault.fired is None:
                raise
              out.count('fault:%s in a construction' % f['kind'])
              out.sig('fault', f['kind'], fault.site)
            except ValueError:
              if st['kernel'] != 'unknown':
                raise
              out.count('fault:unknown initializer')
            out.count('evaluations')
            out.log(where, 'build', layer is not None, call.lines)
            if layer is not None:
              if st['kernel'] == 'unknown' and not st.get('default'):
                problems.append(('accepted', 'unknown kernel_initializer '
                                 'accepted'))
              b = Built(layer, st)
              own.append(b)
              everyone.append(b)
          elif st['do'] == 'update':
            if not own:
              continue
            b = own[st['k'] % len(own)]
            rs = np.random.RandomState(st['seed'])
            if st['what'] == 'bias' and b.bias is not None:
              b.bias = rs.randn(*b.bias.shape).astype(np.float32)
              b.layer.b.assign(b.bias)
            elif st['what'] == 'core':
              i = st['k'] % len(b.cores)
              b.cores[i] = rs.randn(*b.cores[i].shape).astype(np.float32)
              b.layer.matrix.tt_cores[i].assign(b.cores[i])
            else:
              new = [rs.randn(*c.shape).astype(np.float32) for c in b.cores]
              with sched.Call(s, opcodes=plan['opcodes']):
                t3f.assign(b.layer.matrix, t3f.TensorTrain(
                    [tf.constant(c) for c in new]))
              b.cores = new
            out.count('updates')
          else:
            pool = shared if st['shared'] else own
            if not pool:
              pool = own or shared
            if not pool:
              continue
            b = pool[st['k'] % len(pool)]
            rs = np.random.RandomState(st['seed'])
            x = rs.randn(st['n'], int(np.prod(b.st['in']))).astype(np.float32)
            y = forward(where, b, x, s, st['fn'])
            if st['chain']:
              for b2 in pool:
                if int(np.prod(b2.st['in'])) == y.shape[-1]:
                  forward(where, b2, y, s, False)
                  break
            out.sig('forward', b.act, b.bias is None, st['fn'], st['n'],
                    len(everyone))
      return main

    s = sched.Scheduler(plan['sched'], [program(t, th['steps_']) for t, th in
                                        enumerate(plan['threads_'])] or
                        [lambda: None], plan['opcodes'])
    abort = s.run()
    out.decisions = s.decisions
    out.count('steps', sum(s.step))
    out.count('preemptions', s.switches)
    out.count('layers built', len(everyone))
    for p in s.pairs:
      out.sig(*p)
    if abort:
      raise Violation('stuck', 'threads do not finish: %s' % abort)
    if problems:
      raise Violation(*problems[0])
    names = {n: None for n in old}
    if len(names) < len(old):
      raise Violation('same name', 'two of %d layers built one after another '
                      'have the same name' % len(old))
    for b in everyone:
      if b.layer.name in names:
        raise Violation('same name', 'two layers are called %s' % b.layer.name)
      names[b.layer.name] = b
    for b in everyone:
      bad = b.weights_differ()
      if bad:
        raise Violation('weights changed', '%s of %s is not what the layer was '
                        'given' % (bad, b.layer.name))
    # A last pass over all of them, alone.
    for b in everyone:
      x = np.linspace(-1, 1, 2 * int(np.prod(b.st['in']))).reshape(
          2, -1).astype(np.float32)
      forward('afterwards', b, x, None, False)
    if problems:
      raise Violation(*problems[0])
