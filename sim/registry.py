"""Static description of the checks (no TensorFlow import)."""

REAL = ['t3f (all of /repo/t3f, executed from source)',
        'TensorFlow eager runtime, tape and kernels', 'numpy', 'OS threads']
STUB = ['thread scheduler (one thread at a time, seeded hand-over)',
        'threading locks created by t3f',
        'object identities seen by t3f (id), reused eagerly by seed']

CHECKS = {}


def _check(property, runs_quick, runs_thorough, rule, real=None, stub=None,
           level='exploration', assumptions=()):
  CHECKS[property] = {
      'property': property,
      'runs': {'quick': runs_quick, 'thorough': runs_thorough},
      'rule': rule, 'level': level, 'real': real or REAL, 'stub': stub or STUB,
      'assumptions': list(assumptions)}


_check('C01', 4000, 30000,
       'distinct (operation, line or kernel where a thread was preempted, line '
       'or kernel where the resumed thread stood) triples',
       assumptions=['preemption is modelled at t3f lines or bytecodes and at '
                    'kernel calls; code inside TensorFlow and numpy runs '
                    'atomically between two such points'])

_check('C02', 4000, 25000,
       'distinct ordered pairs of consecutive history steps (kind of step, '
       'operation, execution mode)',
       assumptions=['reference: the same call made alone by freshly executed '
                    't3f modules on newly built arguments'])

_check('C03', 4500, 15000,
       'distinct (operation, fault kind, code location of the injected fault, '
       'error type) combinations that actually fired',
       level='exploration',
       assumptions=['faults are injected at kernel calls, at t3f source lines '
                    'and in user callbacks; not inside TensorFlow itself'])

_check('C04', 4500, 25000,
       'distinct (operation, outcome of the call, execution mode, number of '
       'caller-owned containers watched) combinations',
       assumptions=['process-wide state is the list in sim/monitors.py'])

GRAPH_REAL = ['t3f (all of /repo/t3f, executed from source, graph mode)',
              'TensorFlow session, executor and kernels', 'numpy']
GRAPH_STUB = ['choice of the executor between ready stateful operations (seeded '
              'linear extension, enforced by control edges)',
              'process restart (variables carried over by value)']

_check('C07', 2000, 20000,
       'distinct (update, order of the stateful operations of the step) pairs',
       real=GRAPH_REAL, stub=GRAPH_STUB,
       assumptions=['resource variables; the order of operations without state '
                    'does not matter'])

_check('C08', 1500, 20000,
       'distinct (guarded expression, whether the guard fired, order of the '
       'stateful operations of the step) triples',
       real=GRAPH_REAL, stub=GRAPH_STUB,
       assumptions=['evaluating the tensor means evaluating all of its cores or '
                    'anything computed from all of them'])

_check('C05', 3500, 20000,
       'distinct pairs of consecutive steps (kind, way, value, fault, operation) '
       'and of code positions of two threads at a switch',
       assumptions=['threads own disjoint variables; an assignment that failed '
                    'half-way may leave any mix of old and new cores'])

_check('C06', 6000, 20000,
       'distinct (kind of variable, kind of misfit, source of the value, way of '
       'assigning, order of the stateful operations of a graph-mode step)',
       stub=GRAPH_STUB,
       assumptions=['shapes unknown when a graph is built are refused when it '
                    'runs'])

_check('C09', 4000, 40000,
       'distinct (request, whether the variable exists, way the scope is '
       'entered, scope, name, regularizer, number of variables) combinations',
       real=GRAPH_REAL,
       stub=['checkpoint (in-memory map from variable name to value)',
             'process restart (new graph and freshly executed t3f modules)'],
       assumptions=['variables are saved and restored by the names of their '
                    'cores'])

_check('C10', 4000, 40000,
       'distinct (initializer, dtype, batch, argument form, order) combinations '
       'and distinct pairs of interrupted positions',
       stub=['random kernels (tagged draws, in three quarters of the runs)',
             'thread scheduler', 'kernel failures'],
       assumptions=['cores are affine in the draws'])

_check('C11', 4000, 40000,
       'distinct pairs of interrupted positions and distinct interrupted '
       'positions of the replacement',
       stub=STUB + ['asynchronous interrupts'],
       assumptions=['interrupts arrive between source lines'])

_check('C12', 4000, 30000,
       'distinct pairs of interrupted positions, fault positions and (layer '
       'configuration, execution mode) combinations',
       real=REAL + ['Keras 3 layers'],
       stub=STUB + ['asynchronous interrupts', 'kernel failures'],
       assumptions=['weights are float32 matrices, compared to 1e-4'])

_check('C13', 6000, 60000,
       'distinct (combination, whether the vectors share the point, pattern of '
       'foreign vectors, ways they were produced, execution mode) combinations',
       stub=['object identities seen by t3f (id), reused eagerly'],
       assumptions=['the base point of a vector is the object it was projected '
                    'on, compared by identity'])
