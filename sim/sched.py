"""Seeded scheduler for real threads, and the per-call fault injector.

Only one simulated thread runs at a time. Control is handed over at yield points
only: lines (or bytecodes) of t3f code, kernel calls, and explicit yields of the
harness. A decision list [[thread, thread-local step, next thread], ...] is
recorded, and replaying that list repeats the interleaving exactly.
"""
import _thread
import ast
import dis
import os
import random
import sys
import threading

from sim import boot

MAX_STEPS = 3000000


class SimAbort(BaseException):
  """Unwinds simulated threads when the execution is given up."""


class Interrupt(KeyboardInterrupt):
  """An injected asynchronous interrupt."""


class CallbackFault(Exception):
  """Raised by a user callback on behalf of the fault injector."""


class Policy(object):
  """Chooses the next thread; explicit decisions override the seeded ones."""

  def __init__(self, spec, nthreads):
    self.kind = spec.get('kind', 'none')
    self.rng = random.Random(spec.get('seed', 0))
    self.n = nthreads
    self.p = spec.get('p', 0.02)
    self.explicit = None
    if self.kind == 'explicit':
      self.explicit = {(t, s): to for t, s, to in spec['decisions_']}
    elif self.kind == 'points':
      # A few preemption points, drawn per thread on a log-uniform step scale.
      self.points = {}
      for _ in range(spec.get('k', 3)):
        t = self.rng.randrange(nthreads)
        s = int(2 ** self.rng.uniform(0, spec.get('log2', 11)))
        self.points[(t, s)] = self.rng.randrange(nthreads)
    elif self.kind == 'pct':
      self.prio = list(range(nthreads))
      self.rng.shuffle(self.prio)
      self.changes = set()
      for _ in range(spec.get('k', 3)):
        self.changes.add(int(2 ** self.rng.uniform(0, spec.get('log2', 12))))
      self.total = 0

  def pick(self, t, step, runnable, forced, shared=False):
    """Next thread after `t` reached its local step `step`."""
    if self.explicit is not None:
      to = self.explicit.get((t, step), t)
      if to in runnable:
        return to
      return t if (t in runnable and not forced) else runnable[0]
    if self.kind == 'walk':
      if forced or self.rng.random() < self.p:
        return self.rng.choice(runnable)
      return t
    if self.kind == 'shared':
      # Mostly at lines that touch state other calls can reach.
      if forced or self.rng.random() < (self.p if shared else 0.003):
        return self.rng.choice(runnable)
      return t
    if self.kind == 'points':
      to = self.points.get((t, step))
      if to is not None and to in runnable:
        return to
      return self.rng.choice(runnable) if forced else t
    if self.kind == 'pct':
      self.total += 1
      if self.total in self.changes:
        self.prio[t] = min(self.prio) - 1
      return max(runnable, key=lambda u: self.prio[u])
    if self.kind == 'burst':
      # Each thread runs for a random number of steps at a time.
      if not hasattr(self, 'left'):
        self.left = self.rng.randint(1, 60)
      self.left -= 1
      if forced or self.left <= 0:
        self.left = int(2 ** self.rng.uniform(0, 8))
        return self.rng.choice(runnable)
      return t
    return t if not forced else runnable[0]


class Scheduler(object):

  def __init__(self, spec, programs, opcodes=False):
    self.programs = programs
    self.n = len(programs)
    self.policy = Policy(spec, self.n)
    self.opcodes = opcodes
    self.step = [0] * self.n
    self.gates = [_thread.allocate_lock() for _ in range(self.n)]
    for g in self.gates:
      g.acquire()
    self.state = ['ready'] * self.n  # ready / blocked / done
    self.waiting = [None] * self.n
    self.timed = [False] * self.n
    self.expired = {}
    self.decisions = []
    self.switches = 0
    self.pairs = set()
    self.last = [None] * self.n
    self.running = None
    self.errors = [None] * self.n
    self.abort = None
    self.idents = {}
    self.done = _thread.allocate_lock()
    self.done.acquire()
    self.finished = 0

  # ---- called from simulated threads
  def me(self):
    return self.idents.get(threading.get_ident())

  def yield_point(self, site=None, shared=False):
    t = self.idents.get(threading.get_ident())
    if t is None:
      return
    if self.abort is not None:
      raise SimAbort()
    self.step[t] += 1
    if self.step[t] > MAX_STEPS:
      self._give_up('thread %d does not terminate' % t)
      raise SimAbort()
    if self.n == 1:
      return
    self.last[t] = site
    runnable = self._runnable()
    to = self.policy.pick(t, self.step[t], runnable, False, shared)
    if to != t:
      self.decisions.append([t, self.step[t], to])
      self.switches += 1
      self.pairs.add((site, self.last[to]))
      self._switch(t, to)

  def block(self, lock, timed=False):
    """Waits until the lock is free; False if the time is over before."""
    t = self.me()
    self.step[t] += 1
    self.state[t] = 'blocked'
    self.waiting[t] = lock
    self.timed[t] = timed
    runnable = self._runnable()
    if not runnable:
      self._give_up('deadlock: every thread waits for a lock')
      raise SimAbort()
    to = self.policy.pick(t, self.step[t], runnable, True)
    self.decisions.append([t, self.step[t], to])
    self.switches += 1
    self._switch(t, to)
    self.timed[t] = False
    return not self.expired.pop(t, False)

  def _runnable(self):
    for u in range(self.n):
      if self.state[u] == 'blocked' and not self.waiting[u].locked():
        self.state[u] = 'ready'
        self.waiting[u] = None
    res = [u for u in range(self.n) if self.state[u] == 'ready']
    if not res:
      # Simulated time advances to the next time-out.
      res = [u for u in range(self.n)
             if self.state[u] == 'blocked' and self.timed[u]][:1]
      for u in res:
        self.state[u], self.waiting[u] = 'ready', None
        self.expired[u] = True
    return res

  def _switch(self, t, to):
    if to == t:
      return
    self.running = to
    self.gates[to].release()
    self.gates[t].acquire()
    if self.abort is not None:
      raise SimAbort()

  def _give_up(self, why):
    self.abort = why
    for u in range(self.n):
      if u != self.me() and self.state[u] != 'done':
        try:
          self.gates[u].release()
        except RuntimeError:
          pass

  def _thread_main(self, t):
    self.gates[t].acquire()
    self.idents[threading.get_ident()] = t
    try:
      if self.abort is None:
        self.programs[t]()
    except SimAbort:
      pass
    except BaseException as e:  # A bug of the harness.
      self.errors[t] = e
      if self.abort is None:
        self._give_up('harness error')
    finally:
      sys.settrace(None)
      boot.set_kernel_hook(None)
      self.state[t] = 'done'
      self.finished += 1
      if self.finished == self.n:
        self.done.release()
      elif self.abort is None:
        runnable = self._runnable()
        self.step[t] += 1
        if not runnable:
          self._give_up('deadlock: remaining threads wait for a lock')
        else:
          to = self.policy.pick(t, self.step[t], runnable, True)
          self.decisions.append([t, self.step[t], to])
          self.running = to
          self.gates[to].release()
      self.idents.pop(threading.get_ident(), None)

  def run(self):
    """Runs all programs to completion; returns None or the reason of abort."""
    boot.set_active_scheduler(self)
    threads = []
    try:
      for t in range(self.n):
        threads.append(threading.Thread(target=self._thread_main, args=(t,),
                                        daemon=True))
      for th in threads:
        th.start()
      first = self.policy.pick(0, 0, list(range(self.n)), True)
      self.decisions.append([0, 0, first])
      self.running = first
      self.gates[first].release()
      self.done.acquire()
      for th in threads:
        th.join()
    finally:
      boot.set_active_scheduler(None)
    for e in self.errors:
      if e is not None:
        raise e
    return self.abort


class Fault(object):
  """One armed fault: fires at the `at`-th event of its kind inside a call."""

  def __init__(self, kind, at, make, name=None):
    self.kind = kind  # 'kernel' | 'line' | 'callback'
    self.at = at
    self.name = name  # count only kernels of this name
    self.make = make
    self.fired = None
    self.site = None


def count_only():
  """Not a fault: makes a Call count lines without firing anything."""
  return Fault('count', -1, None)


_opcodes_on = []


def _enable_opcode_events():
  """CPython delivers opcode events only to traces set after the first request
  for them; make that request before the trace that should see them."""
  if not _opcodes_on:
    _opcodes_on.append(True)
    sys._getframe().f_trace_opcodes = True


_cleanup_lines = {}
_exit_offsets = {}


def _find_cleanup_lines(filename):
  """Lines of clean-up code: bodies of finally, of handlers that re-raise, of
  __exit__ and __del__, and the (empty) try headers."""
  res = set()
  with open(filename, 'rb') as f:
    tree = ast.parse(f.read())

  def add(nodes):
    for n in nodes:
      res.update(range(n.lineno, n.end_lineno + 1))

  for node in ast.walk(tree):
    if isinstance(node, ast.Try):
      res.add(node.lineno)
      add(node.finalbody)
      for h in node.handlers:
        if any(isinstance(n, ast.Raise) for n in ast.walk(h)):
          add([h])
    elif isinstance(node, ast.FunctionDef) and node.name in ('__exit__',
                                                             '__del__'):
      add(node.body)
  return res


def _find_exit_offsets(code):
  """Instructions that only call __exit__ of a finished with block."""
  res = set()
  ins = [i for i in dis.get_instructions(code) if i.opname != 'CACHE']
  for k in range(len(ins) - 3):
    if all(i.opname == 'LOAD_CONST' and i.argval is None
           for i in ins[k:k + 3]) and ins[k + 3].opname == 'CALL' \
        and ins[k + 3].arg == 2:
      res.update(i.offset for i in ins[max(0, k - 1):k + 5])
  for k, i in enumerate(ins):
    if i.opname == 'WITH_EXCEPT_START':
      res.update(j.offset for j in ins[max(0, k - 1):k + 4])
    if i.opname == 'LOAD_FAST_AND_CLEAR':
      # CPython 3.12 skips enclosing handlers for an exception raised by a trace
      # function inside an inlined comprehension.
      loop = [j for j in ins[k:] if j.opname == 'FOR_ITER']
      if loop:
        res.update(range(i.offset, loop[0].argval + 2))
  return res


_shared_lines = {}
_set_attributes = {}


def _find_set_attributes(tree):
  """Names of attributes assigned outside of constructors."""
  return {n.attr for f in ast.walk(tree)
          if isinstance(f, ast.FunctionDef) and f.name != '__init__'
          for n in ast.walk(f)
          if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load)} | {
              n.args[1].value for n in ast.walk(tree)
              if isinstance(n, ast.Call) and len(n.args) == 3 and
              getattr(n.func, 'id', '') == 'setattr' and
              isinstance(n.args[1], ast.Constant)}


def _keeps_state(decorator):
  while isinstance(decorator, ast.Call):
    decorator = decorator.func
  name = getattr(decorator, 'attr', getattr(decorator, 'id', ''))
  return name not in ('property', 'staticmethod', 'classmethod', 'setter',
                      'abstractmethod', 'contextmanager', 'wraps')


_MUTATORS = ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse',
             'clear', 'update', 'setdefault', 'popitem', 'add', 'discard',
             'fill', 'itemset', 'resize', 'put')


def _root(node):
  while isinstance(node, (ast.Subscript, ast.Starred)):
    node = node.value
  return node


def _foreign_names(func):
  """Parameters, and local names of what hangs on other objects."""
  args = func.args
  res = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs +
         [x for x in (args.vararg, args.kwarg) if x]}
  own = set()
  for n in ast.walk(func):
    if isinstance(n, ast.Assign):
      for t in n.targets:
        if isinstance(t, ast.Name):
          if isinstance(_root(n.value), ast.Attribute):
            res.add(t.id)
          elif t.id in res:
            own.add(t.id)   # rebound to something of this call
  return res - own


def _changes_container(n, foreign):
  if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
    x = _root(n)
  elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
      n.func.attr in _MUTATORS:
    x = _root(n.func.value)
  else:
    return False
  return isinstance(x, ast.Attribute) and x.attr != '__dict__' and \
      not isinstance(x.value, ast.Call) or \
      isinstance(x, ast.Name) and x.id in foreign[-1]


def find_shared_lines(filename, ignore=frozenset(), writes=False):
  """Lines of functions that touch state that outlives the call (variables of
  the module, attributes set outside of constructors, variables of enclosing
  functions, mutable default arguments), and the lines that follow them.

  With `writes`, attributes count only where they are set, but so do changes of
  containers that came from the caller."""
  with open(filename, 'rb') as f:
    tree = ast.parse(f.read())
  names, attrs = set(), set()
  for other in sorted(os.listdir(os.path.dirname(filename))):
    if other.endswith('.py') and not other.endswith('_test.py'):
      path = os.path.join(os.path.dirname(filename), other)
      if path not in _set_attributes:
        with open(path, 'rb') as f:
          _set_attributes[path] = _find_set_attributes(ast.parse(f.read()))
      attrs |= _set_attributes[path]

  def targets(node):
    ts = node.targets if isinstance(node, ast.Assign) else [node.target]
    return [n for t in ts for n in ast.walk(t)]

  for node in ast.walk(tree):
    if isinstance(node, (ast.Global, ast.Nonlocal)):
      names.update(node.names)
    if isinstance(node, (ast.Module, ast.ClassDef)):
      for st in node.body:
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and not isinstance(
            st.value, (ast.Constant, ast.Lambda, ast.Name)):
          found = {n.id for n in targets(st) if isinstance(n, ast.Name)}
          (names if isinstance(node, ast.Module) else attrs).update(found)
    if isinstance(node, ast.FunctionDef):
      every = node.args.posonlyargs + node.args.args
      pairs = list(zip(every[len(every) - len(node.args.defaults):],
                       node.args.defaults))
      pairs += list(zip(node.args.kwonlyargs, node.args.kw_defaults))
      names.update(a.arg for a, d in pairs if isinstance(
          d, (ast.Dict, ast.List, ast.Set, ast.Call)))
      if any(_keeps_state(x) for x in node.decorator_list):
        names.add(node.name)
        attrs.add(node.name)
  names -= ignore
  attrs -= ignore
  lines = {n.body[0].lineno for n in ast.walk(tree)
           if isinstance(n, ast.FunctionDef) and n.name not in ignore and
           any(_keeps_state(x) for x in n.decorator_list)}

  foreign = [set()]
  making = [False]   # inside of a constructor, which sets its own new object

  def touches(node):
    for n in ast.walk(node):
      if writes and _changes_container(n, foreign):
        return True
      if isinstance(n, ast.Constant) and n.value in attrs and not writes:
        return True   # getattr and the like
      if isinstance(n, ast.Name) and n.id in names | {'setattr', 'vars'}:
        return True
      if isinstance(n, ast.Attribute) and n.attr in attrs | {'__dict__'} and \
          not (writes and isinstance(n.ctx, ast.Load) and n.attr != '__dict__') \
          and not (writes and making[-1] and isinstance(n.value, ast.Name) and
                   n.value.id == 'self'):
        return True
    return False

  def visit(body, inside):
    mark = False
    for st in body:
      if isinstance(st, ast.FunctionDef):
        foreign.append(_foreign_names(st))
        making.append(st.name == '__init__')
      if mark and inside:
        lines.add(st.lineno)
      parts = [n for n in ast.iter_child_nodes(st)
               if not isinstance(n, (ast.stmt, ast.ExceptHandler))]
      mark = any(touches(n) for n in parts)
      if mark and inside:
        for n in parts:
          lines.update(range(n.lineno, n.end_lineno + 1)
                       if hasattr(n, 'lineno') else ())
        lines.add(st.lineno)
      into = inside or isinstance(st, ast.FunctionDef)
      for field in ('body', 'orelse', 'finalbody'):
        sub = getattr(st, field, None)
        if isinstance(sub, list):
          visit(sub, into)
          if mark and inside and sub:
            lines.add(sub[0].lineno)
      if isinstance(st, ast.FunctionDef):
        foreign.pop()
        making.pop()
      for h in getattr(st, 'handlers', []):
        visit(h.body, into)

  visit(tree.body, False)
  return lines


def touches_shared(frame):
  name = frame.f_code.co_filename
  lines = _shared_lines.get(name)
  if lines is None:
    lines = _shared_lines[name] = find_shared_lines(name)
  return frame.f_lineno in lines


def can_interrupt(frame):
  """No asynchronous exception is injected where the language gives correct
  code no way to survive it: while a with block is left, inside clean-up code."""
  code = frame.f_code
  lines = _cleanup_lines.get(code.co_filename)
  if lines is None:
    lines = _cleanup_lines[code.co_filename] = _find_cleanup_lines(
        code.co_filename)
  if frame.f_lineno in lines:
    return False
  offsets = _exit_offsets.get(code)
  if offsets is None:
    offsets = _exit_offsets[code] = _find_exit_offsets(code)
  return frame.f_lasti not in offsets


class Call(object):
  """Runs one library call under the seams.

  with Call(sched, fault) as c: value = f()
  c.kernels, c.lines, c.callbacks count the events seen.
  """

  def __init__(self, sched=None, fault=None, opcodes=False, kernel_filter=None):
    self.sched = sched
    self.fault = fault
    self.opcodes = opcodes
    self.kernels = 0
    self.lines = 0
    self.places = 0  # lines where an asynchronous fault may strike
    self.shared_places = []  # those of them that touch shared state
    self.callbacks = 0
    self.kernel_names = {}
    self.kernel_filter = kernel_filter
    self.need_lines = (sched is not None and sched.n > 1) or (
        fault is not None and fault.kind in ('line', 'count'))

  def _fire(self, site):
    f = self.fault
    if f.fired is None:
      f.fired = f.make()
      f.site = site
      raise f.fired

  def _on_kernel(self, name, call, args):
    if isinstance(name, bytes):
      name = name.decode()
    if name.startswith('__'):
      name = name.rstrip('0123456789')  # Traced function: drop its serial.
    self.kernels += 1
    self.kernel_names[name] = self.kernel_names.get(name, 0) + 1
    f = self.fault
    if f is not None and f.kind == 'kernel':
      if f.name is None:
        hit = f.at == self.kernels - 1
      else:
        hit = f.name == name and f.at == self.kernel_names[name] - 1
      if hit:
        self._fire('kernel:' + name)
    if self.sched is not None:
      self.sched.yield_point(('k', name))
    if self.kernel_filter is not None:
      return self.kernel_filter(name, call, args)
    return call(*args)

  def on_callback(self):
    """To be called by user callbacks of the plan."""
    self.callbacks += 1
    f = self.fault
    if f is not None and f.kind == 'callback' \
        and f.at == self.callbacks - 1:
      self._fire('callback')
    if self.sched is not None:
      self.sched.yield_point(('cb',))

  def _local(self, frame, event, arg):
    if event == 'line' or event == 'opcode':
      self.lines += 1
      f = self.fault
      # Only at lines (and never in plans of several threads with opcode events):
      # CPython 3.12 may crash when a trace function raises at an opcode event.
      if event == 'line' and f is not None and f.kind in ('line', 'count') \
          and can_interrupt(frame):
        self.places += 1
        if f.kind == 'count' and touches_shared(frame):
          self.shared_places.append(self.places - 1)
        if f.at == self.places - 1:
          self._fire('line:%s' % frame.f_code.co_name)
      if self.sched is not None:
        self.sched.yield_point((frame.f_code.co_name, frame.f_lineno),
                               touches_shared(frame))
    return self._local

  def _global(self, frame, event, arg):
    if boot.is_target_file(frame.f_code.co_filename):
      if self.opcodes:
        frame.f_trace_opcodes = True
      return self._local
    return None

  def __enter__(self):
    boot.set_kernel_hook(self._on_kernel)
    if self.need_lines:
      if self.opcodes:
        _enable_opcode_events()
      sys.settrace(self._global)
    return self

  def __exit__(self, *exc):
    sys.settrace(None)
    boot.set_kernel_hook(None)
    return False
