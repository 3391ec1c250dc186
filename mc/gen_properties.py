#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, kept as data so that it stays easy to edit)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, (id, len(title))
    return d

CANON = ("canonical labelling: vertex 0 is joined to vertices 1..k, and in every row the ones come first among the later "
         "vertices that no earlier row tells apart")

L = [
P('C01', 'Every matrix the search yields is a strongly regular graph',
  "For every accepted parameter set (v,k,l,u), every matrix yielded by the construction search is a symmetric 0/1 v x v "
  "matrix with zero diagonal, k ones per row, exactly l common neighbours for every adjacent pair and exactly u for every "
  "non-adjacent pair. This holds for parameter sets without any graph too: nothing invalid is ever yielded.",
  ['inputs'], "all accepted parameter sets, whether or not a graph exists, and all resumed searches from a reachable partial matrix",
  "test_solve compares the result with stored lists for 13 parameter sets with v < 20 only, and zip() ignores surplus results; no test looks at parameter sets that have no graph.",
  ['srg/solver.py', 'srg/srg.py', 'srg/gauss_elim.py', 'srg/bounds.py', 'srg/fork.py', 'srg/unique.py'],
  [('row-by-row construction', 'srg/solver.py:solve, advance'), ('row equations', 'srg/srg.py:Question.from_matrix'),
   ('contradiction detection', 'srg/solver.py:raiseExceptionIfNotSolvableAfterwards, srg/gauss_elim.py:_remove_zerokeys')],
  [('partial matrix', 'the first R rows of the adjacency matrix', 'srg/srg.py:SRG')], ['solver.solve']),
P('C02', 'The search finds every strongly regular graph',
  "For every accepted parameter set, every strongly regular graph with these parameters in canonical labelling (" + CANON +
  ") is yielded by the search, so every such graph is isomorphic to a yielded one.",
  ['inputs', 'histories'], "all accepted parameter sets and, for each, all strongly regular graphs with those parameters and all partial matrices on the path to one",
  "completeness quantifies over all graphs; test_solve zips the results with a stored list, so missing results at the end pass, and only 13 parameter sets with v < 20 are run.",
  ['srg/solver.py', 'srg/srg.py', 'srg/fork.py', 'srg/bounds.py', 'srg/gauss_elim.py', 'srg/unique.py'],
  [('enumeration of every feasible row', 'srg/solver.py:solve_question, fork_enum; srg/fork.py:enum'),
   ('merging of equal columns', 'srg/solver.py:reduce_col; srg/unique.py:_encode')],
  (), ['solver.solve']),
P('C03', 'No result is yielded twice, and every result is in canonical labelling',
  "For every accepted parameter set the matrices yielded by one search are pairwise different, and each of them is in canonical "
  "labelling (" + CANON + "; its first two rows are the start rows of the search).",
  ['inputs'], "all accepted parameter sets, and all searches resumed from a reachable partial matrix",
  "the tests never compare results with each other, and compare only as many results as the stored list has.",
  ['srg/solver.py', 'srg/srg.py', 'srg/unique.py'],
  [('ones first within a column group', 'srg/srg.py:Answer.binarize'), ('start rows', 'srg/solver.py:_seed'),
   ('disjoint case split', 'srg/solver.py:fork_enum')], (), ['solver.solve']),
P('C04', 'One search step yields exactly the admissible next rows',
  "From every reachable partial matrix, the rows offered for the next vertex are exactly those that agree with the known column, "
  "have k ones in total, share exactly l (adjacent) or u (non-adjacent) ones with every known row, and put their ones first within each "
  "group of later columns that all known rows agree on; each is offered once.",
  ['inputs', 'histories'], "all partial matrices reachable from any accepted parameter set, at any depth",
  "test_solve_question only checks that one stored row is among the candidates of the third row, for 13 parameter sets; deeper states and superfluous candidates are never examined.",
  ['srg/solver.py', 'srg/srg.py'],
  [('row equations', 'srg/srg.py:Question.from_matrix'), ('row enumeration', 'srg/solver.py:solve_question'), ('row assembly', 'srg/srg.py:SRG.append_and_return_new')],
  [('question', 'the equations, bounds and partial answer of the next row', 'srg/srg.py:Question')], ['solver.advance', 'solver.solve_question']),
P('C05', 'A search can be resumed from any partial matrix',
  "Starting the search from a partial matrix that the search itself reaches yields exactly those results of the full search that begin "
  "with these rows, no matter how deep the partial matrix is.",
  ['histories', 'inputs'], "all partial matrices on any search path of any accepted parameter set, in any signed integer type and memory layout",
  "every test starts from the two start rows.",
  ['srg/solver.py', 'srg/srg.py'],
  [('search driver', 'srg/solver.py:solve'), ('parameters are recovered from the matrix', 'srg/srg.py:vklu')], (), ['solver.solve']),
P('C06', 'The search always ends, without an error',
  "For every accepted parameter set with 1 <= k <= v-2 the search terminates normally, and yields nothing when no strongly regular graph "
  "with these parameters exists.",
  ['inputs'], "all accepted parameter sets with 1 <= k <= v-2, including those without a graph, and all searches resumed from a reachable partial matrix",
  "only parameter sets that have graphs are run by the tests, at v < 20.",
  ['srg/solver.py', 'srg/srg.py', 'srg/gauss_elim.py'],
  [('fixpoint loop', 'srg/solver.py:solve_question'), ('NoSolution handling', 'srg/solver.py:advance, solve_question'), ('internal assertions', 'srg/srg.py:Question')],
  (), ['solver.solve']),
P('C07', 'The search leaves its inputs and its earlier results alone',
  "Neither stepping nor searching changes the matrix it was given or a result it already yielded, and whatever the caller writes into a yielded "
  "result has no influence on the results that follow.",
  ['histories'], "all partial matrices, all points between two results of a search, all results the caller overwrites",
  "aliasing shows only when the caller keeps or overwrites results while the search goes on; the tests consume each result once.",
  ['srg/solver.py', 'srg/srg.py'],
  [('copying', 'srg/srg.py:Question.from_matrix, SRG.append_and_return_new, Answer.copy; srg/solver.py:fork_enum')],
  [('matrix of a search node', 'shared between a node and the caller', 'srg/srg.py:SRG._matrix')], ['solver.solve', 'solver.solve_question', 'solver.advance']),
P('C08', 'Results do not depend on what ran before or is still suspended',
  "Every operation (search, row enumeration, sorting, maximizing, complement, spectrum, database access) returns the same in any sequence of "
  "operations as in a fresh process, and suspended searches may be advanced in any interleaving without influencing each other.",
  ['histories', 'schedules'], "all sequences of operations and all interleavings of the advances of several suspended enumerations",
  "each test consumes one search at a time and never repeats or abandons one.",
  ['srg/solver.py', 'srg/srg.py', 'srg/sorter.py', 'srg/utils.py', 'srg/fork.py', 'srg/partition.py', 'srg/database/__init__.py'],
  [('no module level state', 'srg/*.py'), ('generator local state', 'srg/solver.py:solve, solve_question')], (), ['public functions of all modules']),
P('C09', 'Searches in several threads do not influence each other',
  "Two operations of the package that run at the same time in two threads on separate inputs return the same as one after the other, under every schedule.",
  ['schedules'], "all interleavings of two threads, each running an operation of the package on its own input",
  "the tests are single threaded.",
  ['srg/solver.py', 'srg/srg.py', 'srg/gauss_elim.py', 'srg/unique.py', 'srg/sorter.py'],
  [('no shared mutable state', 'srg/*.py')], (), ['solver.solve', 'solver.solve_question', 'gauss_elim.elim', 'sorter.maximize']),
P('C10', 'Copies of search questions are independent and compare by value',
  "A copy of a question or an answer equals its original, and changing any part of one never changes the other; two of them are equal exactly "
  "when all their visible parts (equations, right hand sides, total, bounds, partial answer and its positions) are equal.",
  ['inputs', 'histories'], "all questions up to a size, all copies, all single changes to either side",
  "no test copies or compares questions; a wrong comparison ends the simplification loop early or never.",
  ['srg/srg.py'], [('copy and __eq__', 'srg/srg.py:Answer.copy, Answer.__eq__, Question.copy, Question.__eq__')], (), ['Question.copy', 'Question.__eq__', 'Answer.copy', 'Answer.__eq__']),
P('C11', 'Elimination preserves the solutions of a 0/1 system',
  "For every system A x = b with 0/1 coefficients, non-negative right hand side and no zero column, elimination returns a system over the same unknowns "
  "with exactly the same non-negative integer solutions, or reports that there is none when there is none. Its inputs are left unchanged. Sorting a system in place keeps its equations and puts the right hand sides in ascending order.",
  ['inputs'], "all 0/1 systems, of any number of rows and columns, consistent or not",
  "no test calls elimination on its own; the one self check has a single consistent system.",
  ['srg/gauss_elim.py'], [('subset row subtraction', 'srg/gauss_elim.py:_gauss_elim, _elim'), ('bit coding of rows', 'srg/gauss_elim.py:_encode, _decode'), ('sorting', 'srg/gauss_elim.py:sort')], (), ['gauss_elim.elim', 'gauss_elim.sort']),
P('C12', 'Simplifying a row question never loses or invents a row',
  "For every question the search meets, and every question of the same form (0/1 equations over the open columns with equal columns side by side, the row total among them), every simplification step (merging equal columns, elimination, bound propagation, single-entry rows), applied in any "
  "order and any number of times, leaves the set of complete rows the question stands for unchanged, and reports a contradiction only if that set is empty; "
  "the case split divides the set into disjoint parts without loss.",
  ['histories', 'inputs'], "all questions of reachable partial matrices, all such systems, and all orders of the simplification steps",
  "the tests run only the built-in order, and only one step on one hand-made question.",
  ['srg/solver.py', 'srg/bounds.py', 'srg/gauss_elim.py', 'srg/fork.py'],
  [('steps', 'srg/solver.py:reduce_col, eliminate, zero_in_b, only_1_element_in_row, fork_enum')],
  [('question', 'equations, bounds, total and partial answer', 'srg/srg.py:Question')], ['step functions of srg.solver']),
P('C13', 'Column grouping and expansion are inverse to each other',
  "Merging adjacent equal columns of any 0/1 matrix and expanding the result with the recorded multiplicities restores the matrix, and the merged "
  "columns are the group leaders at the recorded positions. Expanding a grouped answer gives a 0/1 row of full length that has, in each group, the stated number of ones, all at its start.",
  ['inputs'], "all 0/1 matrices of any size, and all grouped answers",
  "not tested; the self check has one matrix.",
  ['srg/unique.py', 'srg/srg.py'], [('grouping', 'srg/unique.py:reduce, expand'), ('answer expansion', 'srg/srg.py:Answer.quota, Answer.binarize')], (), ['unique.reduce', 'unique.expand', 'Answer.binarize']),
P('C14', 'Bounded enumerations list every possibility exactly once',
  "Enumerating the ways to place a sum under per-place bounds lists every tuple within the bounds with this sum exactly once and nothing else. "
  "Splitting a total at one place lists every split that the other places can complete exactly once, each split adding up to the total and within the bound of the place.",
  ['inputs'], "all totals, all lists of bounds (for the tuples: of at most about as many places as the interpreter nests calls, 900), all places",
  "not tested at all.",
  ['srg/partition.py', 'srg/fork.py'], [('enumeration', 'srg/partition.py:enum'), ('split', 'srg/fork.py:enum')], (), ['partition.enum', 'fork.enum']),
P('C15', 'Bound tightening keeps every solution',
  "For every system A x = b with 0/1 coefficients and upper bounds on x, tightening never raises a bound and never excludes a solution, a place is reported as zero "
  "exactly when its bound is zero, and every column that has a row to itself is reported exactly once, with such a row.",
  ['inputs'], "all 0/1 systems with bounds",
  "not tested; the self check has two systems.",
  ['srg/bounds.py'], [('tightening', 'srg/bounds.py:lower_upper_bound'), ('zero places', 'srg/bounds.py:zero_bound_loc'), ('single-entry rows', 'srg/bounds.py:one_element_row_locs')], (), ['bounds.*']),
P('C16', 'Maximizing relabels a graph into canonical form and never lowers it',
  "For every graph with at least two vertices, maximizing returns the same graph under another labelling that keeps vertex 0 first, in which within every row the ones come first among the later "
  "vertices that no earlier row tells apart; its upper triangle, read row by row, is never smaller than that of the input, and a graph already in this form is returned unchanged.",
  ['inputs'], "all graphs and all their labellings, in any integer, boolean or floating-point element type",
  "test_sort has two labelled graphs; the form depends on every row range that is refined.",
  ['srg/sorter.py'], [('column range refinement', 'srg/sorter.py:AdjMat.sort, _div_sort, _sort')], [('queue of ranges', 'row, column range, first zero', 'srg/sorter.py:SortInstruct')], ['sorter.maximize']),
P('C17', 'Sorting results is a total order on matrices',
  "Sorting any collection of equally sized 0/1 adjacency matrices returns a list with the same matrices, each as often as given, ascending by their upper triangle read row by row, "
  "whatever the order or kind of iterable they come in, and changes none of them.",
  ['inputs', 'histories'], "all collections of matrices in all orders, in any integer, boolean or floating-point element type",
  "test_solve sorts 13 result lists with at most 13 matrices each.",
  ['srg/sorter.py'], [('comparison', 'srg/sorter.py:_encode, _cmp_1d_bin_array, _cmp_srg_matrix, sort')], (), ['sorter.sort']),
P('C18', 'Swapping two vertices is a relabelling',
  "Swapping vertices i and j of a graph yields the adjacency matrix in which exactly these two vertices have exchanged their names; doing it twice restores the graph, and the input is left unchanged.",
  ['inputs'], "all graphs and all pairs of vertices, equal ones included, in any such element type",
  "not tested.",
  ['srg/sorter.py'], [('swap', 'srg/sorter.py:swap, swap_and_verify')], (), ['sorter.swap', 'sorter.swap_and_verify']),
P('C19', 'Every stored solution is valid, distinct and filed under its parameters',
  "Every matrix in the solution database is a strongly regular graph with the parameters in the name it is filed under, in canonical labelling; no matrix is stored twice, and the parameters recorded with it agree with the name.",
  ['inputs'], "all stored problems and all stored matrices",
  "the tests check an algebraic identity that a non-symmetric matrix or a duplicate can satisfy, and neither canonical labelling nor the recorded parameters.",
  ['srg/database/__init__.py', 'srg/database/problem_*.py'], [('stored data', 'srg/database/problem_*.py'), ('lookup', 'srg/database/__init__.py:get_solutions')], (), ['database.get_solutions']),
P('C20', 'Stored solution lists are complete',
  "A stored problem lists every strongly regular graph in canonical labelling that the search finds for its parameters, except where its file says that only the first is listed; an empty list means that no such graph exists.",
  ['inputs'], "all stored problems and all canonical matrices with their parameters",
  "test_solve compares only the common prefix of results and stored list, and only for v < 20.",
  ['srg/database/problem_*.py', 'srg/solver.py'], [('stored data', 'srg/database/problem_*.py')], (), ['database.get_solutions']),
P('C21', 'Database listing, lookup and drawing agree with the stored files',
  "Listing names exactly the stored problems; decoding a name and looking it up gives the solutions of that file, in the stored order, however often and in whatever order problems are looked up. "
  "Drawing a problem writes one picture per stored solution, named after the parameters and its index, that shows all its vertices, labelled with their numbers, and exactly its edges, and leaves no figure open.",
  ['inputs', 'histories'], "all stored problems, all orders of lookups",
  "the tests use listing and lookup once each and never draw.",
  ['srg/database/__init__.py'], [('listing', 'srg/database/__init__.py:list_problems, extract_vklu'), ('lookup', 'srg/database/__init__.py:get_solutions'), ('drawing', 'srg/database/__init__.py:draw')], (), ['database.list_problems', 'database.extract_vklu', 'database.get_solutions', 'database.draw']),
P('C22', 'Complement of matrix and parameters agree',
  "For every graph the complement joins exactly the pairs of different vertices that the graph does not join, complementing twice restores the graph, and the complement of a strongly regular graph is strongly regular "
  "with exactly the computed complement parameters; complementing parameters twice restores them. The input is left unchanged.",
  ['inputs'], "all graphs (in any integer, boolean or floating-point element type), all accepted parameter sets",
  "test_database checks an identity for the complements of the stored matrices only.",
  ['srg/utils.py'], [('complement', 'srg/utils.py:complement, _invert, complement_vklu')], (), ['utils.complement', 'utils.complement_vklu']),
P('C23', 'Computed spectrum and determinant are those of the graphs',
  "For every accepted parameter set whose two restricted eigenvalues would have non-negative integer multiplicities (every set with a strongly regular graph is one), the computed eigenvalues and multiplicities are those of the adjacency matrix of any such graph, the conference quantity is zero exactly when both restricted eigenvalues have the same multiplicity, "
  "and the computed determinant is exactly the determinant of that matrix.",
  ['inputs'], "all such parameter sets and all strongly regular graphs",
  "test_determinant compares floating point determinants of the stored matrices with at most 29 vertices; eigenvalues and multiplicities are not compared.",
  ['srg/utils.py'], [('spectrum', 'srg/utils.py:eig, conference, determinant')], (), ['utils.eig', 'utils.conference', 'utils.determinant']),
P('C24', 'Parameters are accepted exactly when the counting identity holds',
  "A parameter set is accepted if and only if (v-k-1) u = k (k-l-1); for accepted sets with 2k-l <= v the start rows are the adjacency rows of two adjacent vertices of degree k with exactly l common neighbours, "
  "from which exactly (v,k,l,u) is recovered.",
  ['inputs'], "all integer quadruples, and all accepted parameter sets with 1 <= k <= v-2",
  "the tests use 13 start matrices and never a rejected parameter set.",
  ['srg/utils.py', 'srg/solver.py', 'srg/srg.py'], [('admission', 'srg/utils.py:assert_srg'), ('start rows', 'srg/solver.py:_seed'), ('recovery', 'srg/srg.py:vklu')], (), ['utils.assert_srg', 'solver._seed', 'srg.vklu']),
P('C25', 'The command line prints exactly the sorted results',
  "python -m srg v k l u prints, for every accepted parameter set, all results of the search in full, in ascending order and each once, and ends normally; a rejected parameter set ends with an error status and prints no result.",
  ['inputs'], "all parameter sets",
  "the command line is not tested.",
  ['srg/__main__.py', 'srg/pprint.py', 'srg/sorter.py'], [('entry point', 'srg/__main__.py'), ('printing', 'srg/pprint.py')], (), ['stdout and exit status of python -m srg']),
P('C26', 'The database command line does what the README shows',
  "python -m srg.database (list) without parameters lists every stored problem, list v k l u prints every stored solution of that problem in the stored order, and draw v k l u writes its pictures; rejected parameters, parameters of no stored problem and unknown commands with parameters end with an error status and write no picture.",
  ['inputs'], "all commands with all stored problems, and rejected, unknown or missing arguments",
  "the command line is not tested.",
  ['srg/database/__main__.py', 'srg/database/__init__.py'], [('entry point', 'srg/database/__main__.py')], (), ['stdout, files and exit status of python -m srg.database']),
P('C27', 'Results do not depend on how the package is run',
  "The search yields the same results, in the same order, with and without Python optimization (-O, -OO), under every hash seed, and with the package compiled by the provided cythonize script instead of interpreted.",
  ['configurations'], "all documented ways to run the package, for all accepted parameter sets",
  "the tests run one interpreter configuration and never the compiled package.",
  ['srg/solver.py', 'srg/srg.py', 'srg/bounds.py', 'srg/utils.py', 'cythonize.sh', 'setup.py'], [('assertions are checks only', 'srg/srg.py'), ('set iteration', 'srg/bounds.py:one_element_row_locs'), ('compiled modules', 'cythonize.sh')], (), ['solver.solve']),
P('C28', 'Diagnostic tracing is transparent, and internal invariants hold at every step',
  "Wrapping the simplification steps of the search with the package's debug tracer changes neither the results nor the errors of any search, and the consistency check that the tracer applies to the question after each step never fails.",
  ['inputs', 'histories'], "all questions that occur in the search for any accepted parameter set, with any subset of steps traced",
  "the tracer is not used by the tests, and one consistency check on one question is.",
  ['srg/utils.py', 'srg/srg.py', 'srg/solver.py'], [('tracer', 'srg/utils.py:debug'), ('consistency check', 'srg/srg.py:Question._invariant_check')], (), ['utils.debug', 'Question._invariant_check']),
P('C29', 'Relabelling or complementing a result leads to results again',
  "However a graph that the search yields is relabelled, maximizing it gives a result of the same search; maximizing the complement of a result, however relabelled, "
  "gives a result of the search for the complement parameters (where both have 1 <= k <= v-2). So search, maximizing and complement agree on one canonical labelling.",
  ['inputs', 'histories'], "all results of all accepted parameter sets and all their labellings",
  "the tests maximize two graphs on their own and never look a maximized or complemented graph up among the results of a search.",
  ['srg/solver.py', 'srg/sorter.py', 'srg/utils.py', 'srg/srg.py'],
  [('canonical form of the search', 'srg/srg.py:Answer.binarize; srg/solver.py:_seed'), ('canonical form of maximizing', 'srg/sorter.py:AdjMat'), ('complement', 'srg/utils.py:complement, complement_vklu')],
  (), ['solver.solve', 'sorter.maximize', 'utils.complement']),
]
ids = [p['id'] for p in L]
assert len(set(ids)) == len(ids)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in L: f.write(json.dumps(p) + '\n')
print(len(L))
