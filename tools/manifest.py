"""Writes MANIFEST.json from the registered checks."""
import json,sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.registry import CHECKS
LEVEL={
'C01':'Seeded exploration of thread interleavings (line, bytecode and kernel granularity) and of re-entrant calls; each result is compared with the same call made alone by freshly executed t3f modules. Trusts TensorFlow kernels and atomicity of code outside t3f between two yield points.',
'C02':'Seeded exploration of call histories with eager identity reuse, variable updates, traced functions, graphs and failing calls; oracle as for C01.',
'C03':'Seeded fault injection at kernel calls (by position and by kernel type), at t3f source lines and in callbacks, then repetition of the call and other calls; oracle as for C01 plus state monitors.',
'C05':'Seeded histories of creations, assignments (eager, traced, interrupted), per-core updates, reads and calls by one or several scheduled threads against a sequential model of every variable; results of calls are compared with the same call made alone.',
'C06':'Seeded sequences of fitting and misfitting assignments, eager, traced and in graph mode under forced executor orders with shapes fed at run time; contents of everything around are compared before and after.',
'C07':'Seeded exploration of the orders in which the executor may run the stateful operations of a step (each forced on the real runtime by control edges), over random self-dependent updates and several steps; oracle: the same expression computed eagerly from the contents before the step.',
'C08':'Seeded exploration of executor orders over guarded expressions whose guard is decided by fed values; must fail without effect, or give the value of the same call made alone.',
'C09':'Seeded programs of scope entries, creations, reuses, duplicate and missing requests in graph mode, followed by a restart that rebuilds in another order and restores an in-memory checkpoint by name; oracle: a model of what exists, and closed formulas of the regularizers.',
'C10':'Seeded histories and thread interleavings of initializer calls with the random kernels replaced by tagged draws, so the origin and the scale of every entry are recovered exactly; plus seeded sequences of the real stream, repeated.',
'C11':'Seeded interleavings (line and bytecode granularity) of svd replacements, interrupted or not, with decompositions; results compared with the same call made alone, kernels watched.',
'C12':'Seeded interleavings of layer constructions (also failing ones), updates and forward passes; oracle: activation(x W + b) in numpy from the weights each layer was given.',
'C13':'Seeded histories of base points (equal in value, dropped, reassigned), projections and combinations, eager, traced and in graph mode; oracle: which point each vector was projected on, and dense sums and inner products.',
'C04':'Seeded call sequences, with and without faults and invalid arguments, under monitors of arguments, owned containers and process-wide state.',
}
NA={
'N01':'A pure function of its arguments: no schedule, clock, fault or history can influence it, so simulation would only be input generation; what can go wrong through concurrency, history or faults is C01-C03.',
'N02':'A pure numerical bound on one call; nothing for a scheduler or fault injector to decide (failures inside rounding are C03).',
'N03':'A pure numerical identity of one call without schedule, fault or history.',
'N04':'A pure numerical identity of one call; history and interleaving aspects of projections are C01, C02 and C13.',
'N05':'A pure numerical identity of one call; re-entrancy is C01, graph-mode guards are C08.',
'N06':'A pure numerical identity of one call without schedule, fault or history.',
'N07':'Static bookkeeping of one object, independent of any schedule or fault.',
'N08':'Argument validation is a pure predicate of the arguments (that a refused call changes nothing is C04 and C06).',
'N09':'A pure function of tensor and index.',
'N10':'A pure numerical bound on one call.',
'N11':'Equality of two executions of the same pure call; the order-dependent part of graph mode is C07 and C08.',
}
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for line in open(os.path.join(HERE, 'properties.jsonl')):
  pid = json.loads(line)['id']
  if pid not in CHECKS and pid not in NA:
    NA[pid] = 'Planned, see DESIGN.md; no check is registered yet.'
checks=[]
for k in sorted(CHECKS):
  checks.append({'property':k,'quick_cmd':'/opt/venv/bin/python check.py %s'%k,'thorough_cmd':'/opt/venv/bin/python check.py %s --tier thorough'%k,
   'evidence_file':'evidence/%s.json'%k,'technique':'deterministic simulation with fault injection','level':CHECKS[k]['level'],'level_note':LEVEL[k]})
m={'version':1,'setup_cmd':'true','checks':checks,'not_applicable':[{'property':k,'reason':v} for k,v in sorted(NA.items())],
'notes':'No hooks in /repo: all seams (threads, kernels, locks, identities, randomness, executor order) are reached from outside. VERIF_SEED selects the executions; check.py ID --replay FILE repeats a reported one; check.py ID --determinism N runs N executions in three process layouts and compares the event logs.'}
json.dump(m,open(os.path.join(HERE, 'MANIFEST.json'), 'w'),indent=1)
