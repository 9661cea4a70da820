"""Executor-order simulation of graph-mode steps.

A step (a set of fetches) of a TensorFlow graph is executed by the real runtime,
but the order in which its stateful operations run is decided by the seed: a
random linear extension of the pruned graph is drawn, and the stateful nodes are
chained by control edges in that order, so that the executor has no choice left.
"""
import random

from sim import boot

tf = boot.tf
v1 = tf.compat.v1

# Operations that read or change state, or that can fail on purpose.
_PURE = {}


def _config():
  cfg = v1.ConfigProto(intra_op_parallelism_threads=1,
                       inter_op_parallelism_threads=1,
                       use_per_session_threads=True)
  cfg.graph_options.optimizer_options.opt_level = -1
  cfg.graph_options.rewrite_options.disable_meta_optimizer = True
  return cfg


def _is_stateful(node):
  res = _PURE.get(node.op)
  if res is None:
    if node.op in ('Placeholder', 'Const', 'VarHandleOp', 'NoOp'):
      res = False
    elif node.op in ('ReadVariableOp', 'AssignVariableOp', 'Assert', 'If',
                     'StatelessIf', 'ResourceGather'):
      res = True
    else:
      from tensorflow.python.framework import op_def_registry
      d = op_def_registry.get(node.op)
      res = bool(d is not None and d.is_stateful)
    _PURE[node.op] = res
  return res


def _node_name(inp):
  return inp.lstrip('^').split(':')[0]


class Order(object):
  """A seeded policy choosing the next ready node."""

  def __init__(self, spec):
    self.rng = random.Random(spec['seed'])
    self.kind = spec['kind']
    self.prio = {}

  def key(self, node):
    p = self.prio.get(node.name)
    if p is None:
      p = self.rng.random()
      bias = {'assign_first': ('AssignVariableOp', -1),
              'assign_last': ('AssignVariableOp', 1),
              'read_last': ('ReadVariableOp', 1),
              'read_first': ('ReadVariableOp', -1)}.get(self.kind)
      if bias and node.op == bias[0]:
        p += bias[1] * (1 if self.rng.random() < 0.9 else 0)
      self.prio[node.name] = p
    return p


class Moves(object):
  """Program order, except that some nodes run as early or late as possible."""

  def __init__(self, spec, names):
    self.prio = {n: float(i) for i, n in enumerate(names)}
    for sign, key in ((-1, 'early_'), (1, 'late_')):
      for k in spec[key]:
        if names:
          self.prio[names[k % len(names)]] = sign * (len(names) + 1.0 + k * 1e-9)

  def key(self, node):
    return self.prio[node.name]


def prune(graph_def, fetches):
  """The nodes the executor runs for these fetches, by name."""
  by_name = {n.name: n for n in graph_def.node}
  need, todo = {}, [_node_name(f) for f in fetches]
  while todo:
    name = todo.pop()
    if name in need:
      continue
    need[name] = by_name[name]
    todo += [_node_name(i) for i in by_name[name].input]
  return need


def linear_extension(graph_def, fetches, spec):
  """Seeded execution order of the stateful nodes of a step."""
  need = prune(graph_def, fetches)
  if spec['kind'] == 'moves':
    order = Moves(spec, [n.name for n in graph_def.node if n.name in need and
                         _is_stateful(n)])
  else:
    order = Order(spec)
  names = [n.name for n in graph_def.node if n.name in need]
  waits = {n: len(set(_node_name(i) for i in need[n].input)) for n in names}
  users = {n: [] for n in names}
  for n in names:
    for i in sorted(set(_node_name(i) for i in need[n].input)):
      users[i].append(n)
  ready = [n for n in names if waits[n] == 0]
  res = []
  while ready:
    # Nodes without effect never wait; stateful ones by the policy.
    pure = [n for n in ready if not _is_stateful(need[n])]
    nxt = pure[0] if pure else min(ready, key=lambda n: (order.key(need[n]), n))
    ready.remove(nxt)
    if not pure:
      res.append(nxt)
    for u in users[nxt]:
      waits[u] -= 1
      if waits[u] == 0:
        ready.append(u)
  if len(set(names)) != sum(1 for n in names if waits[n] == 0):
    raise boot.SimError('the step has a cycle')
  return res


class Process(object):
  """One simulated process: a session with its variables."""

  def __init__(self, graph):
    self.graph = graph
    self.graph_def = graph.as_graph_def(add_shapes=True)
    self.state = {}   # handle node name -> (shared name, value)

  def run(self, fetches, feed=None, order=None, writes=()):
    """Runs one step. `fetches` are tensor names.

    The contents of the variables are carried over from step to step by value,
    so every step may be given its own execution order.
    Returns (values, [stateful order], new variable values).
    """
    gd = v1.GraphDef()
    gd.CopyFrom(self.graph_def)
    chain = []
    self.moved = False
    if order is not None:
      chain = order if isinstance(order, list) else linear_extension(
          gd, fetches, order)
      by_name = {n.name: n for n in gd.node}
      place = {n.name: i for i, n in enumerate(gd.node)}
      self.moved = any(place[a] > place[b] for a, b in zip(chain, chain[1:]))
      for a, b in zip(chain, chain[1:]):
        if '^' + a not in by_name[b].input:
          by_name[b].input.append('^' + a)
    with tf.Graph().as_default() as g:
      v1.import_graph_def(gd, name='')
      handles = [n for n in gd.node if n.op == 'VarHandleOp']
      readers, init = {}, []
      for h in handles:
        t = g.get_tensor_by_name(h.name + ':0')
        dtype = tf.as_dtype(h.attr['dtype'].type)
        if h.name in self.state:
          init.append(tf.raw_ops.AssignVariableOp(
              resource=t, value=tf.constant(self.state[h.name], dtype)))
          readers[h.name] = tf.raw_ops.ReadVariableOp(resource=t, dtype=dtype)
      with v1.Session(graph=g, config=_config()) as sess:
        if init:
          sess.run(init)
        error, values = None, None
        try:
          values = sess.run(fetches, feed or {})
        except tf.errors.OpError as e:
          error = e
        after = sess.run(readers) if readers else {}
    self.state.update(after)
    self.chain = chain
    if error is not None:
      raise error
    return values, chain
