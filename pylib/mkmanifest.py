"""Writes MANIFEST.json from the table below (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = 'explicit-state enumeration of the real code: '
T = {
 'C01': (ENUM + 'all bounded graph presentations, cycle-space oracle', 'Exhaustive inside the stated bounds (labelled graphs with all weightings, all insertion/address orders of small ones, all non-isomorphic graphs, structured corpus); trusts the GF(2) and simplicity oracles and the compiler.'),
 'C02': (ENUM + 'all bounded graph presentations, greedy-over-all-cycles / Horton oracle', 'Exhaustive inside the stated bounds; optimum recomputed independently for each state.'),
 'C03': ('stateless exploration of the real code under a controlled scheduler (deviation-bounded range splits, task orders, preemptions) plus an access-conflict monitor over the series-parallel task structure; scheduler model conformance against traces of the real runtime', 'Exhaustive over schedules within the stated deviation bounds per base policy for the listed graphs; the real runtime itself is only sampled by the conformance runs.'),
 'C04': ('stateless exploration of the real code with every rank a fiber of an in-process MPI: all communicator sizes, per-rank address layouts, completion modes and reduction orders within bounds; deadlocks and mismatched collectives detected; outcomes of the real MPI runtime checked to be outcomes of the model', 'Exhaustive within the stated bounds (reduction orders complete for up to 3 ranks, one deviation at 4); the real runtime is run on a smaller list of graphs and 4 communicator sizes.'),
 'C05': (ENUM + 'all bounded graph presentations x k, cycle-space oracle', 'Exhaustive inside the bounds; output judged after the call through the caller\'s descriptors and weight map.'),
 'C06': (ENUM + 'all bounded graph presentations x k, independent optimum', 'Exhaustive inside the bounds; bound (2k-1) checked exactly; k=0 rejected.'),
 'C08': ('explicit-state search over the presentations of a weighted graph reachable by value-predicting transformations (renumbering, reordering, address order, unions, subdivision, scaling, pendant parts), every entry point run on the real code and compared with the prediction; MPI entry points on an in-process MPI', 'Exhaustive over the listed transformations (two in a row on the smallest graphs) inside the bounds; a relational check, so a defect common to all presentations and entry points is left to C02.'),
 'C09': (ENUM + 'all bounded graphs x inexact weight sets, exact rational oracle for the basis and the relative error', 'Exhaustive inside the stated bounds.'),
 'C10': (ENUM + 'all DIMACS line sequences over an alphabet up to a depth, all bounded multigraphs for the validators, compared with the generator\'s description', 'Exhaustive inside the stated alphabets, depths and line lengths.'),
 'C11': ('exhaustive enumeration of files x options x process counts on the built programs; the MPI demo additionally explored with every rank a fiber of an in-process MPI, and launched under the real runtime', 'Exhaustive over the stated files and the option product; trusts the optimum oracle.'),
 'C12': (ENUM + 'all bounded weighted graphs x sources, shortest-path oracle over lexicographic keys', 'Exhaustive inside the bounds.'),
 'C13': (ENUM + 'all bounded graphs, acyclicity oracle', 'Exhaustive inside the bounds.'),
 'C14': (ENUM + 'all bounded weighted graphs x roots x supports, signed-parity oracle', 'Exhaustive inside the bounds.'),
 'C15': (ENUM + 'all bounded weighted graphs x k, spanner predicate oracle', 'Exhaustive inside the bounds; reads the spanner through a subclass/observer of the real class.'),
 'C16': (ENUM + 'all bounded graphs x presentations, spanning-forest oracle', 'Exhaustive inside the bounds.'),
 'C17': ('explicit-state search over operation sequences of the real class against a dense bit-vector model', 'All states reachable up to the stated depth and dimension.'),
 'C18': ('explicit-state enumeration of arguments and operation sequences of the real class against exact arithmetic', 'Exhaustive over stated windows of arguments and over all operation sequences to the stated depth.'),
 'C19': ('exhaustive enumeration of one-header programs and two-unit programs over all public headers x {TBB, MPI} enabled or absent, compiled and linked', 'All headers and all unordered pairs; one compiler for linking (second compiler for the full configuration), more in the thorough tier.'),
 'C20': ('explicit-state search over call sequences of the real function from fresh processes against a one-variable model, and all option combinations of the demos with the runtime\'s limit sampled at every entry of parallel work', 'All sequences to the stated depth; trusts TBB\'s own report of the active limit.'),
}
NA = {}
ALL = ['C%02d' % i for i in range(1, 21)]
m = {'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': [], 'not_applicable': []}
for p in ALL:
    if p in T:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 run.py %s --tier quick' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
                            'technique': T[p][0], 'level': 'model_checking', 'level_note': T[p][1]})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check still under construction')})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
