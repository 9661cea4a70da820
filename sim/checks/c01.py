"""C01: concurrent and re-entrant callers do not affect each other."""
from sim import boot, engine, sched, world
from sim.catalog import CATALOG
from sim.outcome import Violation


def schedule_spec(rng, nthreads=2, opcodes=False):
  kind = rng.choices(['walk', 'points', 'pct', 'burst', 'shared'],
                     [4, 3, 2, 2, 3])[0]
  s = {'kind': kind, 'seed': rng.randrange(2 ** 31)}
  if kind == 'shared':
    s['p'] = rng.choice([0.5, 0.2, 0.05])
  if kind == 'walk':
    s['p'] = rng.choice([0.5, 0.1, 0.03, 0.01, 0.003])
  if kind in ('points', 'pct'):
    s['k'] = rng.randint(1, 6)
    s['log2'] = rng.choice([7, 9, 11]) + (2 if opcodes else 0)
  return s


def gen(rng, tier):
  g = world.Gen(rng, wide=True)
  nthreads = rng.choice([2, 2, 2, 3, 4])
  names = list(CATALOG)
  swarm = None
  if rng.random() < 0.6:
    swarm = rng.sample(names, rng.randint(1, 3))
  same = rng.random() < 0.25   # all threads make the very same calls
  threads, first = [], None
  for t in range(nthreads):
    calls = []
    for _ in range(rng.randint(1, 3)):
      c = g.call(swarm)
      if rng.random() < 0.08:
        # Mismatched arguments: refused, or not, exactly as alone.
        c['a'] = [g.obj() if rng.random() < 0.5 else i for i in c['a']]
      if rng.random() < 0.08:
        c['mode'] = rng.choice(['fn', 'fn', 'dyn'])
      elif CATALOG[c['op']].has_callback and rng.random() < 0.5:
        c['nested_'] = [g.call(swarm if rng.random() < 0.5 else None)]
        if rng.random() < 0.5:
          # Re-enter the very same kind of call.
          again = g.call([c['op']], exact=True)
          c['nested_'].append(again)
      calls.append(c)
    if same and first is not None:
      calls = [dict(c) for c in first]
      how = rng.choice(['same', 'mirror', 'twins', 'twins'])
      for c in calls:
        if how == 'mirror':
          c['a'] = c['a'][::-1]
        elif how == 'twins':
          # Objects of the same layout but with other values.
          c['a'] = [g.twin_of(i) if rng.random() < 0.6 else i for i in c['a']]
    first = first or calls
    threads.append({'calls_': calls})
  for s in g.specs.values():
    if rng.random() < 0.15:
      s['var'] = True
    if rng.random() < 0.3:
      s['how'] = 1
  opcodes = rng.random() < 0.15
  warm = [g.call(swarm)] if rng.random() < 0.3 else []
  every = [c for t in threads for c in t['calls_']]
  every += [n for c in every for n in c.get('nested_', [])] + warm
  return {'objects': world.used_specs(g.specs, every), 'threads_': threads,
          'warm_': warm, 'opcodes': opcodes,
          'sched': schedule_spec(rng, nthreads, opcodes)}


def _key(inst):
  return repr((inst['op'], inst['a'], sorted(inst['p'].items()),
               inst.get('mode')))


def run(plan, out):
  specs = {s['id']: s for s in plan['objects']}
  dense = {i: world.build_dense(s) for i, s in specs.items()}
  solo = engine.Solo()
  want = {}

  def expect(inst):
    k = _key(inst)
    if k not in want:
      snap = solo.result(inst, [specs[i] for i in inst['a']])
      d = [dense[i] for i in inst['a']]
      want[k] = (snap,) + engine.scale_of(inst, d) + (world.mixed_dtype(inst, d),)
    return want[k]

  for t in plan['threads_']:
    for c in t['calls_']:
      expect(c)
      for n in c.get('nested_', []):
        expect(n)

  t3f = boot.fresh_t3f()
  objs = {i: engine.make_object(t3f, s) for i, s in specs.items()}
  for c in plan['warm_']:
    with engine.quiet():
      engine.attempt(t3f, c, [objs[i] for i in c['a']],
                     [dense[i] for i in c['a']])
  problems = []
  kept = []

  def judge(t, inst, snap, where):
    w, scale, fuzzy, dt = expect_done[_key(inst)]
    out.log(where, t, inst['op'], snap.kind, *snap.arrays)
    out.count('evaluations')
    msg = engine.differ(snap, w, scale, fuzzy, dt)
    if msg:
      problems.append('%s: thread %d, %s: %s' % (where, t,
                                                world.describe(inst), msg))

  expect_done = dict(want)

  def program(t, calls):
    def main():
      for c in calls:
        state = {'depth': 0}

        def callback(x, y, c=c, state=state):
          call.on_callback()
          if state['depth']:
            return
          state['depth'] += 1
          try:
            for n in c.get('nested_', []):
              nsnap, _ = engine.attempt(t3f, n, [objs[i] for i in n['a']],
                                        [dense[i] for i in n['a']])
              out.count('re-entrant calls')
              judge(t, n, nsnap, 'inside a callback')
          finally:
            state['depth'] -= 1

        with sched.Call(s, opcodes=plan['opcodes']) as call:
          snap, r = engine.attempt(t3f, c, [objs[i] for i in c['a']],
                                   [dense[i] for i in c['a']], callback)
        out.count('kernels', call.kernels)
        judge(t, c, snap, 'concurrent call')
        kept.append((t, c, r))
    return main

  s = sched.Scheduler(plan['sched'], [program(t, th['calls_']) for t, th in
                                      enumerate(plan['threads_'])] or
                      [lambda: None], plan['opcodes'])
  with engine.quiet():
    abort = s.run()
  out.decisions = s.decisions
  out.count('steps', sum(s.step))
  out.count('preemptions', s.switches)
  out.count('threads', s.n)
  for p in s.pairs:
    out.sig(*p)
  if abort:
    raise Violation('stuck', 'threads do not finish: %s' % abort)
  if problems:
    raise Violation('wrong result', problems[0])
  for t, c, r in kept:
    if r is not None:
      judge(t, c, engine.take(r), 're-read after all threads finished')
  if problems:
    raise Violation('wrong result', problems[0])
