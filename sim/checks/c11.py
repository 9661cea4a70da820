"""C11: replacing the svd is idempotent, thread-safe and interruptible."""
import contextlib
import threading

import numpy as np

from sim import boot, engine, sched, world
from sim.catalog import CATALOG
from sim.checks import c01
from sim.outcome import Violation

tf = boot.tf

SVD_OPS = ['round', 'round', 'round_sum', 'to_tt_tensor', 'to_tt_matrix',
           'approximate_add_n', 'approximate_reduce_sum_batch']


def gen_step(rng, g, opcodes):
  r = rng.random()
  if r < 0.4:
    st = {'do': 'replace'}
    if not opcodes and rng.random() < 0.5:
      st['at'] = rng.randrange(10)
    return st
  if r < 0.85:
    c = g.call(SVD_OPS if rng.random() < 0.9 else None, exact=True)
    st = {'do': 'call', 'c': c}
    if rng.random() < 0.15:
      st['npfail'] = rng.randrange(4)
    return st
  return {'do': rng.choice(['original', 'direct']), 'batch': rng.random() < 0.4,
          'm': rng.randint(1, 4), 'n': rng.randint(1, 4),
          'dt': rng.choice(['float32', 'float64']),
          'seed': rng.randrange(2 ** 31)}


def gen(rng, tier):
  g = world.Gen(rng)
  nthreads = rng.choice([1, 2, 2, 3, 4])
  opcodes = rng.random() < 0.6
  threads = []
  for _ in range(nthreads):
    steps = [gen_step(rng, g, opcodes) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.5:
      steps.insert(0, {'do': 'replace'})
    if nthreads > 1:
      for st in steps:
        st.pop('npfail', None)
    threads.append({'steps_': steps})
  every = [st['c'] for t in threads for st in t['steps_'] if st['do'] == 'call']
  last = g.call(SVD_OPS, exact=True)
  sch = c01.schedule_spec(rng, nthreads, opcodes)
  if rng.random() < 0.5:
    # The replacement itself takes few steps: preempt within the first ones.
    sch['kind'] = 'points'
    sch['k'] = rng.randint(2, 6)
    sch['log2'] = 6 if opcodes else 4
  return {'objects': world.used_specs(g.specs, every + [last]),
          'threads_': threads, 'opcodes': opcodes, 'sched': sch, 'last': last}


class FailingNumpy(object):
  """Makes the `at`-th np.linalg.svd of this thread fail to converge."""

  def __init__(self, at):
    self.at = at
    self.fired = False

  def __enter__(self):
    self.before = np.linalg.svd
    me = threading.get_ident()

    def svd(*args, **kwargs):
      if threading.get_ident() == me:
        self.at -= 1
        if self.at == -1:
          self.fired = True
          raise np.linalg.LinAlgError('SVD did not converge')
      return self.before(*args, **kwargs)

    np.linalg.svd = svd
    return self

  def __exit__(self, *exc):
    np.linalg.svd = self.before


def run(plan, out):
  specs = {s['id']: s for s in plan['objects']}
  dense = {i: world.build_dense(s) for i, s in specs.items()}
  solo = engine.Solo()
  want = {}

  def key(c):
    return repr((c['op'], c['a'], sorted(c['p'].items())))

  def expect(c):
    if key(c) not in want:
      snap = solo.result(c, [specs[i] for i in c['a']])
      d = [dense[i] for i in c['a']]
      want[key(c)] = (snap,) + engine.scale_of(c, d) + (
          world.mixed_dtype(c, d),)

  for t in plan['threads_']:
    for st in t['steps_']:
      if st['do'] == 'call':
        expect(st['c'])
  expect(plan['last'])

  t3f = boot.fresh_t3f()
  objs = {i: engine.make_object(t3f, s) for i, s in specs.items()}
  problems = []
  replaced = [False]     # some replacement has completed

  def judged_call(c, where, s=None, opcodes=False, npfail=None):
    before = replaced[0]
    with contextlib.ExitStack() as stack:
      if npfail is not None:
        npfail = stack.enter_context(FailingNumpy(npfail))
      call = stack.enter_context(sched.Call(s, opcodes=opcodes))
      snap, _ = engine.attempt(t3f, c, [objs[i] for i in c['a']],
                               [dense[i] for i in c['a']])
    if npfail is not None and npfail.fired:
      out.count('fault:numpy svd does not converge')
      if snap.kind == 'exc':
        # Reported; the next attempt must work.
        judged_call(c, where + ' after a failed svd', s, opcodes)
        return
    out.count('evaluations')
    out.count('kernels', call.kernels)
    out.log(where, c['op'], snap.kind, *snap.arrays)
    w, scale, fuzzy, dt = want[key(c)]
    # Two implementations of the svd: compared less strictly.
    msg = engine.differ(snap, w, scale, fuzzy, dt, world.TOL)
    if msg:
      problems.append(('wrong result', '%s, %s: %s' % (
          where, world.describe(c), msg)))
    if before and 'Svd' in call.kernel_names:
      problems.append(('own svd used', '%s, %s ran the Svd kernel of TensorFlow '
                       'although the svd was replaced before' % (
                           where, world.describe(c))))
    out.count('decompositions after the replacement' if before else
              'decompositions before or during the replacement')

  def check_svd(st, where, s=None):
    """tf.original_svd (the library's own) or the svd now in place."""
    rs = np.random.RandomState(st['seed'])
    shape = ([2] if st['batch'] else []) + [st['m'], st['n']]
    x = rs.randn(*shape).astype(st['dt'])
    original = st['do'] == 'original'
    if original and not replaced[0]:
      return
    f = getattr(tf, 'original_svd', None) if original else tf.linalg.svd
    name = 'tf.original_svd' if original else 'tf.linalg.svd'
    if f is None:
      problems.append(('original lost', '%s: there is no tf.original_svd' %
                       where))
      return
    before = replaced[0]
    with sched.Call(s) as call:
      sv, u, v = f(tf.constant(x))
    out.count('evaluations')
    sv, u, v = np.array(sv), np.array(u), np.array(v)
    back = np.matmul(u * sv[..., None, :], np.swapaxes(v, -1, -2))
    if not np.allclose(back, x, atol=1e-4) or u.dtype != x.dtype:
      problems.append(('wrong svd', '%s: %s does not decompose its argument' %
                       (where, name)))
    if original and 'Svd' not in call.kernel_names:
      problems.append(('original lost', '%s: tf.original_svd is not the svd of '
                       'TensorFlow' % where))
    if not original and before and 'Svd' in call.kernel_names:
      problems.append(('own svd used', '%s: tf.linalg.svd still runs the Svd '
                       'kernel after the replacement' % where))

  def program(t, steps):
    def main():
      for st in steps:
        where = 'thread %d' % t
        if st['do'] == 'call':
          judged_call(st['c'], where, s, plan['opcodes'],
                      st.get('npfail') if len(plan['threads_']) == 1 else None)
        elif st['do'] == 'replace':
          fault = None
          if 'at' in st:
            fault = sched.Fault('line', st['at'], sched.Interrupt)
          try:
            with sched.Call(s, fault, plan['opcodes']) as call:
              t3f.utils.replace_tf_svd_with_np_svd()
            replaced[0] = True
            out.count('replacements completed')
          except sched.Interrupt:
            out.count('fault:interrupted replacement')
            out.sig('interrupt', fault.site, st['at'])
          out.log(where, 'replace', call.lines)
        else:
          check_svd(st, where, s)
    return main

  s = sched.Scheduler(plan['sched'], [program(t, th['steps_']) for t, th in
                                      enumerate(plan['threads_'])] or
                      [lambda: None], plan['opcodes'])
  with engine.quiet():
    abort = s.run()
  out.decisions = s.decisions
  out.count('steps', sum(s.step))
  out.count('preemptions', s.switches)
  for p in s.pairs:
    out.sig(*p)
  if abort:
    raise Violation('stuck', 'threads do not finish: %s' % abort)
  with engine.quiet():
    if not replaced[0]:
      # The interrupted (or missing) replacement is tried again.
      t3f.utils.replace_tf_svd_with_np_svd()
      replaced[0] = True
    judged_call(plan['last'], 'afterwards')
    base = {'batch': False, 'm': 3, 'n': 2, 'dt': 'float64', 'seed': 1}
    check_svd(dict(base, do='original'), 'afterwards')
    check_svd(dict(base, do='direct'), 'afterwards')
  if problems:
    raise Violation(*problems[0])
