"""C09: TT variables keep their identity across scopes, reuse and restarts."""
import contextlib
import threading

import numpy as np

from sim import boot, engine, graphsim, model
from sim.outcome import Violation

tf = boot.tf
v1 = tf.compat.v1

SCOPES = ['', '', 'a', 'a/b', 'b', 'a/v', 'net_1', 'a/b/c', 'v', 'core_in', 'a/core_out']
NAMES = ['v', 'v', 'w', 'v_1', 'b/v', 'cores', 'weights', 'vv', 'b', 'core_in',
         'core_out/v']
STYLES = ['nested', 'joined', 'object']


def gen_spec(rng):
  d = rng.choice([1, 2, 2, 3]) if rng.random() < 0.93 else rng.choice([5, 11, 12])
  matrix = rng.random() < 0.4
  top = 3 if d < 5 else 2 - matrix
  return {'id': 'o', 'k': 'matrix' if matrix else 'tensor',
          'b': rng.randint(1, 2) if rng.random() < 0.3 else None,
          'shape': [[rng.randint(1, top) for _ in range(d)]
                    for _ in range(1 + matrix)],
          'ranks': [1] + [rng.randint(1, 2) for _ in range(d - 1)] + [1],
          'dt': rng.choice(['float64', 'float32']),
          'seed': rng.randrange(2 ** 31)}


def gen_where(rng, scope=None, name=None):
  return {'scope': rng.choice(SCOPES) if scope is None else scope,
          'name': rng.choice(NAMES) if name is None else name,
          'style': rng.choice(STYLES), 'ns': rng.random() < 0.25,
          'reuse_at': rng.choice(['inner', 'outer', 'call'])}


def full_name(w):
  return (w['scope'] + '/' if w['scope'] else '') + w['name']


def gen(rng, tier):
  steps, there = [], {}
  # A history of one graph; the model of what exists decides what must happen.
  for _ in range(rng.randint(4, 16)):
    r = rng.random()
    if r < 0.45 or not there:
      w = gen_where(rng)
      st = {'do': 'get', 'w': w, 'reuse': False, 's': gen_spec(rng),
            'trainable': rng.random() < 0.7,
            'reg': rng.choice([None, None, 'l2', 'l2', 'cores', 'custom',
                               'none']),
            'collections': rng.random() < 0.15}
      there.setdefault(full_name(w), (w, st['s']))
    elif r < 0.75:
      key = rng.choice(sorted(there))
      old, s = there[key]
      # The same variable, possibly reached by another split of its path.
      parts = key.split('/')
      cut = rng.randrange(len(parts))
      if rng.random() < 0.6:
        w = gen_where(rng, old['scope'], old['name'])
      else:
        w = gen_where(rng, '/'.join(parts[:cut]), '/'.join(parts[cut:]))
      st = {'do': 'get', 'w': w, 'reuse': True, 's': s,
            'init': rng.random() < 0.3, 'trainable': rng.random() < 0.7,
            'reg': rng.choice([None, 'l2', 'cores', 'custom'])}
    elif r < 0.85:
      w = gen_where(rng)
      looks = [x['w'] for x in steps if x.get('core')]
      if looks and rng.random() < 0.5:
        w = rng.choice(looks)
      st = {'do': 'get', 'w': w, 'reuse': True, 's': gen_spec(rng),
            'init': rng.random() < 0.3, 'trainable': rng.random() < 0.7,
            'reg': rng.choice([None, 'l2', 'cores', 'custom'])}
    elif r < 0.93:
      st = {'do': 'plain', 'w': gen_where(rng, name='p%d' % len(steps))}
      if rng.random() < 0.5:
        # Looks like the first core of a TT variable.
        st['w'] = gen_where(rng)
        st['core'] = True
    else:
      st = {'do': 'use', 'k': rng.randrange(100)}
    st['thread'] = rng.random() < 0.2
    steps.append(st)
  created = [st for st in steps if st['do'] == 'get' and not st['reuse']]
  # The restarted process: same variables, other order, others in between.
  perm = list(range(len(created)))
  rng.shuffle(perm)
  restart = []
  for k in perm:
    w = created[k]['w']
    style = gen_where(rng, w['scope'], w['name'])
    restart.append({'full': full_name(w), 'w': style})
    if rng.random() < 0.4:
      restart.append({'extra': gen_where(rng, rng.choice(['x', 'a/x', 'v/x']),
                                         'n%d' % len(restart)),
                      's': gen_spec(rng)})
    if rng.random() < 0.3:
      restart.append({'plain': gen_where(rng, name='q%d' % len(restart))})
    if rng.random() < 0.2:
      restart.append({'again': full_name(w), 'w': gen_where(rng, w['scope'],
                                                            w['name'])})
  return {'steps_': steps, 'restart_': restart, 'reseed': rng.randrange(2 ** 31)}


class Scopes(object):
  """Enters variable scopes in the ways a program can."""

  def __init__(self):
    self.objects = {}

  @contextlib.contextmanager
  def enter(self, w, reuse):
    path, style = w['scope'], w['style']
    stack = contextlib.ExitStack()
    with stack:
      if w['ns']:
        stack.enter_context(tf.name_scope('ns'))
      inner = {'reuse': True} if reuse and w['reuse_at'] != 'call' else {}
      if path == '':
        if inner:
          stack.enter_context(v1.variable_scope(v1.get_variable_scope(),
                                                **inner))
        elif reuse:
          sc = stack.enter_context(v1.variable_scope(v1.get_variable_scope()))
          sc.reuse_variables()
      elif style == 'object' and path in self.objects:
        sc = stack.enter_context(v1.variable_scope(self.objects[path], **inner))
        if reuse and not inner:
          sc.reuse_variables()
      elif style == 'nested' and '/' in path:
        parts = path.split('/')
        for i, part in enumerate(parts):
          last = i == len(parts) - 1
          kw = inner if (last or w['reuse_at'] == 'outer') else {}
          sc = stack.enter_context(v1.variable_scope(part, **kw))
        if reuse and not inner:
          sc.reuse_variables()
        if not reuse:
          self.objects.setdefault(path, sc)
      else:
        sc = stack.enter_context(v1.variable_scope(path, **inner))
        if not reuse:
          self.objects.setdefault(path, sc)
        if reuse and not inner:
          sc.reuse_variables()
      yield


def regularizer(t3f, kind):
  if kind == 'l2':
    return t3f.l2_regularizer(0.3)
  if kind == 'cores':
    return t3f.cores_regularizer(
        lambda c: tf.reduce_sum(c ** 2) + 0.1 * tf.reduce_sum(c), 0.7)
  if kind == 'custom':
    return lambda tt: 2. * tf.reduce_sum(t3f.full(tt))
  if kind == 'none':
    return lambda tt: None
  return None


def expected_term(kind, s, cores):
  dense = engine.dense_of(s, cores).v.astype(np.float64)
  if kind == 'l2':
    return 0.3 * np.sum(dense ** 2)
  if kind == 'cores':
    return 0.7 * sum(np.sum(c ** 2) + 0.1 * np.sum(c) for c in cores)
  return 2. * np.sum(dense)


class Book(object):
  """The collections of a graph, as lists of names."""

  KEYS = [v1.GraphKeys.GLOBAL_VARIABLES, v1.GraphKeys.TRAINABLE_VARIABLES,
          v1.GraphKeys.REGULARIZATION_LOSSES, 'mine']

  def __init__(self):
    self.lists = {k: [x.name for x in v1.get_collection(k)] for k in self.KEYS}

  def added(self, before):
    res = {}
    for k, now in self.lists.items():
      old = before.lists[k]
      if now[:len(old)] != old:
        return None
      res[k] = now[len(old):]
    return res


def run(plan, out):
  with engine.quiet():
    first_process(plan, out)


def _create(t3f, scopes, w, s, **kw):
  with scopes.enter(w, False):
    return t3f.get_variable(w['name'], dtype=getattr(tf, s['dt']),
                            initializer=engine.make_object(t3f, s), **kw)


def request(t3f, graph, scopes, st, dt):
  """Makes the request, in another thread if asked to: (variable, error)."""
  w, s, box = st['w'], st['s'], []

  def body():
    try:
      with graph.as_default():
        if st['reuse']:
          with scopes.enter(w, True):
            kw = {'initializer': engine.make_object(t3f, s)} if st['init'] \
                else {}
            v = t3f.get_variable(w['name'], dtype=getattr(tf, dt),
                                 trainable=st['trainable'],
                                 regularizer=regularizer(t3f, st['reg']), **kw)
        else:
          kw = {'trainable': st['trainable']}
          if st['collections']:
            kw['collections'] = [v1.GraphKeys.GLOBAL_VARIABLES, 'mine']
          v = _create(t3f, scopes, w, s, regularizer=regularizer(
              t3f, st['reg']), **kw)
      box.extend([v, None])
    except Exception as e:
      box.extend([None, e])

  if st['thread']:
    t = threading.Thread(target=body)
    t.start()
    t.join()
  else:
    body()
  if box[1] is not None and not isinstance(box[1], ValueError):
    raise box[1]
  return box


def first_process(plan, out):
  t3f = boot.fresh_t3f()
  graph = tf.Graph()
  made = {}      # full name -> (TT object, spec, step)
  foreign = set()    # names under which there is a core that is not the library's
  losses = []    # (loss tensor name, kind, full name)
  with graph.as_default():
    scopes = Scopes()
    for n, st in enumerate(plan['steps_']):
      out.count('steps')
      before = Book()
      if st['do'] == 'plain':
        w = st['w']
        if not st.get('core'):
          with scopes.enter(w, False):
            v1.get_variable(w['name'], initializer=np.float32(n))
        elif full_name(w) not in made and full_name(w) not in foreign:
          foreign.add(full_name(w))
          with scopes.enter(w, False), v1.variable_scope(w['name']):
            v1.get_variable('core_0', initializer=np.float32([[[n]]]))
        continue
      if st['do'] == 'use':
        if made:
          v = made[sorted(made)[st['k'] % len(made)]][0]
          t3f.full(2. * v)
        continue
      w, s = st['w'], st['s']
      key = full_name(w)
      if key in foreign and not st['reuse']:
        continue
      exists = key in made
      dt = made[key][1]['dt'] if exists else s['dt']
      v, error = request(t3f, graph, scopes, st, dt)
      out.count('evaluations')
      what = ('reuse' if st['reuse'] else 'create',
              'existing' if exists else 'foreign' if key in foreign else 'new')
      out.count('%s of %s variable' % what)
      out.sig(what, w['style'], w['ns'], w['reuse_at'], w['scope'], w['name'],
              st.get('reg'), st.get('trainable'), len(made))
      out.log(what, key, type(error).__name__)
      text = '%s of %s (scope %r entered %s, name %r)' % (
          what[0], key, w['scope'], w['style'], w['name'])
      new = Book().added(before)
      if new is None:
        raise Violation('collections rewritten', text)
      if st['reuse'] == exists:
        if error is not None:
          raise Violation('refused', '%s raised %s: %s' % (
              text, type(error).__name__, str(error)[:200]))
      else:
        out.count('fault:%s of %s variable' % what)
        if error is None:
          raise Violation('accepted', '%s: the variable %s, but no error was '
                          'raised' % (text, 'exists' if exists else
                                      'does not exist'))
      if st['reuse'] or error is not None:
        if any(new.values()):
          raise Violation('something created', '%s added %s' % (text, new))
        if v is not None:
          check_same(text, v, made[key][0], s)
        continue
      for other, (o, _, _) in made.items():
        if set(handles(o)) & set(handles(v)):
          raise Violation('shared cores', '%s shares cores with %s' % (text,
                                                                       other))
      made[key] = (v, s, st)
      check_added(text, v, st, new)
      if st['reg'] in ('l2', 'cores', 'custom'):
        losses.append((new[v1.GraphKeys.REGULARIZATION_LOSSES][0], st['reg'],
                       key))
    init = v1.global_variables_initializer().name
  p = graphsim.Process(graph)
  for var in graph.get_collection(v1.GraphKeys.GLOBAL_VARIABLES):
    p.state[var.handle.op.name] = np.zeros(
        var.shape.as_list(), var.dtype.base_dtype.as_numpy_dtype)
  p.run([init])
  for key, (v, s, _) in sorted(made.items()):
    for c, w in zip(handles(v), model.make_cores(s)):
      if not np.array_equal(p.state[c], w):
        raise Violation('wrong initial value', 'variable %s does not hold its '
                        'initializer' % key)
  # Other contents, as if the variables had been trained.
  rs = np.random.RandomState(plan['reseed'])
  for h in sorted(p.state):
    p.state[h] = np.asarray(rs.randn(*p.state[h].shape)).astype(
        p.state[h].dtype)
  contents = {key: [p.state[h] for h in handles(v)]
              for key, (v, _, _) in made.items()}
  if losses:
    got, _ = p.run([l for l, _, _ in losses])
    for val, (_, kind, key) in zip(got, losses):
      want = expected_term(kind, made[key][1], contents[key])
      # One term per variable: for a batch it may be one number per element.
      if not np.allclose(np.sum(val), want, rtol=1e-4, atol=1e-5):
        raise Violation('wrong regularization', 'the term of %s is %s instead '
                        'of %s' % (key, val, want))
      out.count('regularization terms compared')
  # The checkpoint: core name -> value.
  checkpoint = {}
  for var in graph.get_collection(v1.GraphKeys.GLOBAL_VARIABLES):
    checkpoint[var.op.name] = p.state[var.handle.op.name]
  restart(plan, out, made, contents, checkpoint)


def handles(v):
  return [c.handle.op.name for c in v.tt_cores]


def check_same(text, got, want, s):
  if handles(got) != handles(want) or \
      got.is_tt_matrix() != want.is_tt_matrix() or \
      hasattr(got, 'batch_size') != hasattr(want, 'batch_size') or \
      str(got.get_raw_shape()) != str(want.get_raw_shape()):
    raise Violation('other variable', '%s returned %s with cores %s instead of '
                    'the variable with cores %s' % (text, got, handles(got),
                                                    handles(want)))


def check_added(text, v, st, new):
  names = [c.name for c in v.tt_cores]
  want = {v1.GraphKeys.GLOBAL_VARIABLES: names,
          v1.GraphKeys.TRAINABLE_VARIABLES: names if st['trainable'] else [],
          'mine': names if st['collections'] else []}
  for k, w in want.items():
    if sorted(new[k]) != sorted(w):
      raise Violation('collections', '%s added %s to %s instead of %s' % (
          text, new[k], k, w))
  n = len(new[v1.GraphKeys.REGULARIZATION_LOSSES])
  if n != (st['reg'] in ('l2', 'cores', 'custom')):
    raise Violation('regularization', '%s with regularizer %s added %d '
                    'regularization terms' % (text, st['reg'], n))


def restart(plan, out, made, contents, checkpoint):
  """A new process builds the variables again and restores them by name."""
  t3f = boot.fresh_t3f()
  again = {}
  graph = tf.Graph()
  with graph.as_default():
    scopes = Scopes()
    for st in plan['restart_']:
      if 'extra' in st:
        _create(t3f, scopes, st['extra'], st['s'])
      elif 'plain' in st:
        with scopes.enter(st['plain'], False):
          v1.get_variable(st['plain']['name'], initializer=np.float32(1))
      elif 'again' in st:
        key = st['again']
        if key in again:
          with scopes.enter(st['w'], True):
            v = t3f.get_variable(st['w']['name'],
                                 dtype=getattr(tf, made[key][1]['dt']))
          check_same('reuse of %s after the restart' % key, v, again[key],
                     made[key][1])
      else:
        key = st['full']
        if key in made and key not in again:
          again[key] = _create(t3f, scopes, st['w'], made[key][1],
                               trainable=made[key][2]['trainable'])
  out.count('restarts')
  for key, v in sorted(again.items()):
    out.count('variables restored')
    for k, c in enumerate(v.tt_cores):
      if c.op.name not in checkpoint:
        raise Violation('lost after restart', 'core %d of %s is now called %s, '
                        'which was not saved' % (k, key, c.op.name))
      if not np.array_equal(checkpoint[c.op.name], contents[key][k]):
        raise Violation('mixed up after restart', 'core %d of %s is now called '
                        '%s, which is another variable in the checkpoint' % (
                            k, key, c.op.name))
  out.log(*sorted(c.op.name for v in again.values() for c in v.tt_cores))
