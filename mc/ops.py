"""A small alphabet of operations of the package with fixed, colliding arguments; used by C08 (histories) and C09 (threads).
Every operation returns a value made of plain Python objects."""
import lib


def plain(x):
    import numpy as np
    if isinstance(x, np.ndarray): return ('array', x.shape, tuple(plain(y) for y in x.ravel().tolist()))
    if isinstance(x, np.generic): return plain(x.item())
    if isinstance(x, (list, tuple)): return tuple(plain(y) for y in x)
    if isinstance(x, (set, frozenset)): return tuple(sorted(plain(y) for y in x))
    if isinstance(x, float): return round(x, 9)
    return x


def graph(name):
    """adjacency matrices built here (never taken from the package)"""
    import numpy as np, families
    if name == 'P': return families.canonical(families.petersen())
    if name == 'L': return families.canonical(families.lattice(3))
    if name == 'T': return families.triangular(5)
    if name == 'C5': return families.from_pred(list(range(5)), lambda a, b: (a - b) % 5 in (1, 4))
    if name == 'W': return families.from_pred(list(range(6)), lambda a, b: a == 0 or b == 0 or (a - b) % 5 in (1, 4))   # wheel
    if name == 'B': return families.from_pred(list(range(8)), lambda a, b: bin(a ^ b).count('1') == 1)                  # cube
    raise KeyError(name)


def relabelled(A, perm):
    import numpy as np
    return np.ascontiguousarray(A[np.ix_(perm, perm)])


def solve(*p):
    def f():
        from srg import solver
        from srg.srg import SRG
        return plain([m for m in solver.solve(SRG(solver._seed(*p)))])
    return f


def rows(name, R):
    def f():
        import numpy as np
        from srg import solver
        from srg.srg import Question
        A = graph(name)
        return plain([r for r in solver.solve_question(Question.from_matrix(np.array(A[:R])))])
    return f


def abandoned():
    from srg import solver
    from srg.srg import SRG, Question
    g = iter(solver.solve(SRG(solver._seed(10, 6, 3, 4))))
    a = plain(next(g)); del g
    g = iter(solver.solve_question(Question.from_matrix(solver._seed(10, 6, 3, 4))))
    b = plain(next(g)); getattr(g, 'close', int)()
    return a, b


def sorting():
    from srg import sorter
    A = graph('C5')
    l = [relabelled(A, q) for q in ((0, 2, 1, 3, 4), (0, 1, 2, 3, 4), (4, 3, 1, 0, 2), (0, 1, 2, 3, 4))]
    return plain(sorter.sort(l)), plain(sorter.sort(x for x in l[::-1]))


def maximizing(name, perm):
    def f():
        from srg import sorter
        return plain(sorter.maximize(relabelled(graph(name), perm)))
    return f


def swapping():
    from srg import sorter
    return plain([sorter.swap(graph('C5'), 0, 3), sorter.swap_and_verify(graph('C5'), 1, 2)])


def complement():
    from srg import utils
    return plain([utils.complement(graph('C5')), utils.complement(graph('W'))])


def spectrum():
    from srg import utils
    return plain([(utils.eig(*p), utils.determinant(*p), utils.conference(*p), utils.complement_vklu(*p)) for p in ((5, 2, 0, 1), (10, 3, 0, 1), (13, 6, 2, 3), (16, 10, 6, 6))])


def database():
    from srg import database
    return plain([database.get_solutions(10, 6, 3, 4), database.get_solutions(5, 2, 0, 1), database.extract_vklu('problem_10_6_3_4')])


def listing():
    from srg import database
    return plain(sorted(database.list_problems()))


def enumerations():
    partition, fork = lib.seam('srg.partition', 'enum'), lib.seam('srg.fork', 'enum')
    import numpy as np
    return plain([list(partition(3, [2, 1, 2])), list(fork(4, np.array([2, 2, 2, 1], dtype=np.int8), 3))])


def elimination():
    import numpy as np
    elim = lib.seam('srg.gauss_elim', 'elim')
    A = np.array([[1, 1, 1, 1, 1], [1, 1, 0, 0, 0], [0, 0, 1, 1, 0], [1, 1, 1, 1, 0], [1, 0, 1, 0, 1]], dtype=np.int8)
    return plain(elim(A, np.array([5, 2, 2, 4, 3], dtype=np.int8)))


def grouping():
    import numpy as np
    red, exp = lib.seam('srg.unique', 'reduce'), lib.seam('srg.unique', 'expand')
    A = np.array([[1, 1, 1, 0, 0], [1, 1, 0, 1, 1]], dtype=np.int8)
    r = red(A)
    return plain([r, exp(r[0], r[1])])


def rejected():
    from srg import utils
    try: utils.assert_srg(10, 6, 3, 5)
    except AssertionError: return 'rejected'
    return 'accepted'


OPS = {
    'solve(9,4,1,2)': solve(9, 4, 1, 2), 'solve(9,4,3,0)': solve(9, 4, 3, 0), 'solve(10,6,3,4)': solve(10, 6, 3, 4), 'solve(10,3,0,1)': solve(10, 3, 0, 1),
    'rows(Petersen,3)': rows('P', 3), 'rows(Petersen,5)': rows('P', 5), 'rows(lattice,3)': rows('L', 3), 'abandoned search': abandoned,
    'sort': sorting, 'maximize(T5)': maximizing('T', (0, 9, 3, 1, 4, 2, 8, 5, 7, 6)), 'maximize(cube)': maximizing('B', (0, 7, 3, 1, 4, 2, 6, 5)), 'swap': swapping,
    'complement': complement, 'spectrum': spectrum, 'database': database, 'list': listing, 'enumerations': enumerations, 'eliminate': elimination,
    'group columns': grouping, 'reject': rejected,
}
NAMES = list(OPS)


def run(name):
    """-> plain value, or the text of the error"""
    try: return OPS[name]()
    except lib.SeamMissing: return 'no such operation'
    except Exception as e: return 'error: ' + lib.exc_text(e)


# smaller ones, for exploring thread schedules
SMALL = {
    'solve(5,2,0,1)': solve(5, 2, 0, 1), 'solve(6,3,0,3)': solve(6, 3, 0, 3), 'solve(6,3,2,0)': solve(6, 3, 2, 0), 'solve(6,4,2,4)': solve(6, 4, 2, 4), 'solve(9,4,1,2)': solve(9, 4, 1, 2),
    'rows(Petersen,3)': rows('P', 3), 'rows(Petersen,2)': rows('P', 2), 'rows(lattice,2)': rows('L', 2), 'rows(lattice,3)': rows('L', 3),
    'sort': sorting, 'maximize(wheel)': maximizing('W', (5, 2, 1, 4, 3, 0)), 'maximize(cube)': maximizing('B', (0, 7, 3, 1, 4, 2, 6, 5)), 'swap': swapping, 'complement': complement,
    'spectrum': spectrum, 'database': database, 'list': listing, 'enumerations': enumerations, 'eliminate': elimination, 'group columns': grouping,
}
OPS.update({k: v for k, v in SMALL.items() if k not in OPS})
