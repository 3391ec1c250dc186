#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
T = {
 'C01': ('explicit-state search of the row-construction transition system, run on the real code and on a reference model', 'Complete runs of the real search on a fixed list of accepted parameter sets (all below a cost bound up to v=65, families up to 132 vertices, sets with u>k); every yielded matrix judged by the definition.'),
 'C02': ('explicit-state enumeration of the reference model; its complete matrices compared with the real search', 'Every canonical graph of the same parameter sets, found by an independent C++ model that does not share code or method with the solver; trusts that model (bound to the code by C04/C05).'),
 'C03': ('explicit-state search, canonical form and distinctness checked on every complete path', 'Every result of the same complete runs.'),
 'C04': ('explicit-state search: every transition of every reachable partial matrix compared between code and model', 'All reachable states of cheap parameter sets; first levels (thinned beyond a width) of larger ones; prefixes of known graphs up to 121 vertices.'),
 'C05': ('explicit-state search restarted from every reachable state', 'The real search restarted from every reachable partial matrix within the cost bound, compared with the sub-tree of the reference model.'),
 'C06': ('explicit-state search, termination and absence of errors of every complete run', 'Includes every accepted set with u>k below v=31 (61). One known finding.'),
 'C07': ('exhaustive enumeration of caller writes into results at every yield point', 'All subsets of (the first) results overwritten at the moment they are yielded, for searches and single steps.'),
 'C08': ('explicit-state search over operation histories with fork; all interleavings of suspended generators', 'All histories up to length 3 (4) over an alphabet covering all modules; capped sets are reported as such.'),
 'C09': ('stateless model checking of two threads under a controlled scheduler, bounded preemptions', 'All schedules with one preemption at line granularity, two at call granularity (thinned at a cap); numpy calls atomic.'),
 'C10': ('exhaustive enumeration of small question pairs and single writes', 'Equality and independence of copies for all questions of a small box and all reachable questions of cheap sets.'),
 'C11': ('exhaustive enumeration of small 0/1 systems, complete solution sets compared', 'All systems up to the stated sizes, wide systems up to 70 (126) unknowns, all systems of reachable questions within the cost bound.'),
 'C12': ('explicit-state search over all orders of the real simplification steps with a solution-set invariant', 'From every reachable question within the cost bound, all step orders to a fixpoint, and case splits three deep.'),
 'C13': ('bounded-exhaustive enumeration of 0/1 matrices and grouped answers', 'All matrices of the listed sizes, tall matrices that differ in one or two rows.'),
 'C14': ('bounded-exhaustive enumeration of bounds and totals against brute force', 'All bound vectors up to the listed sizes.'),
 'C15': ('bounded-exhaustive enumeration of bounded 0/1 systems against brute force', 'All systems up to the listed sizes and structured wide ones.'),
 'C16': ('bounded-exhaustive graphs; explicit-state search over relabellings of larger graphs', 'All labelled graphs up to 6 (7) vertices, all labellings reachable by transpositions (capped) of larger ones.'),
 'C17': ('bounded-exhaustive enumeration of lists of graphs and all their orders', 'All lists up to the stated length; stored lists reordered.'),
 'C18': ('bounded-exhaustive enumeration of graphs and vertex pairs', 'All graphs up to 5 (6) vertices, all pairs; eight larger graphs.'),
 'C19': ('complete enumeration of the stored matrices, replayed as paths of the reference transition system', 'Every stored matrix of the database is judged by the definition.'),
 'C20': ('explicit-state enumeration of the reference model, compared with the stored lists', 'Complete state spaces of all stored problems except two whose files announce an excerpt (thorough tier only) and 29_14_6_7 (known finding).'),
 'C21': ('explicit-state search over database operation histories and stored file sets; exhaustive check of drawn pictures', 'All histories up to depth 3 (5) over 7 problems, all 256 subsets of 8 files, every stored solution drawn, all graphs on 3 and 4 vertices.'),
 'C22': ('bounded-exhaustive enumeration of graphs and parameter quadruples', 'All graphs up to 6 (7) vertices, all strongly regular graphs at hand, all quadruples with v<24 (60).'),
 'C23': ('bounded-exhaustive enumeration of feasible parameter sets and explicit graphs, exact integer oracle', 'All feasible sets with v<260 (2000); exact determinants of explicit graphs up to 70 (130) vertices.'),
 'C24': ('bounded-exhaustive enumeration of integer quadruples and partial matrices', 'All quadruples in [-3,22)^4, all neighbours of accepted sets with v<130, all start rows with v<=200.'),
 'C25': ('bounded-exhaustive enumeration of parameter sets through the command line against the reference model', 'Accepted sets within the cost bound up to 96 vertices and all rejected quadruples below 8; part of them in separate processes.'),
 'C26': ('bounded-exhaustive enumeration of commands, problems and rejected inputs', 'Every stored problem with every command, all rejected quadruples below 6.'),
 'C27': ('exhaustive enumeration of run configurations on a fixed workload', 'Optimization levels x hash seeds, and the package compiled by its own script, compared item by item with the plain run; the workload is bounded.'),
 'C29': ('explicit-state search over relabellings of search results, closed under maximizing and complement', 'All labellings (orbits, capped) of results with at most 10 vertices, relabellings from all or a thinned set of edges of the results of sets within the cost bound, all complementary pairs within it.'),
 'C28': ('explicit-state search with the tracer on every subset of steps and the invariant after every step', 'All 31 subsets of traced steps on 4 parameter sets, full tracing on every third cheap one.'),
}
import importlib, lib
checks = []
for l in open(os.path.join(lib.VERIF, 'properties.jsonl')):
    i = json.loads(l)['id']
    src = open(os.path.join(lib.VERIF, 'mc', i.lower() + '.py')).read()
    level = [x for x in src.split('\n') if x.startswith('PROPERTY, LEVEL')][0].split("'")[3]
    tech, note = T[i]
    checks.append(dict(property=i, quick_cmd='%s mc/run.py %s quick' % (PY, i), thorough_cmd='%s mc/run.py %s thorough' % (PY, i),
                       evidence_file='evidence/%s.json' % i, technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd='bash mc/setup.sh', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the checks import the sources of /repo directly. mc/run.py replay <file> replays a recorded violation. Known findings: known_findings.json.')
json.dump(m, open(os.path.join(lib.VERIF, 'MANIFEST.json'), 'w'), indent=1)
