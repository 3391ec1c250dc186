"""Known strongly regular graphs built from their textbook definitions, and a canonical relabelling, independent of the code under test."""
import itertools
import numpy as np


def params_of(A):
    A = np.asarray(A, dtype=np.int64); v = len(A); k = int(A[0].sum())
    s = A @ A
    i, j = np.argwhere(A == 1)[0]
    l = int(s[i, j])
    non = np.argwhere((A == 0) & ~np.eye(v, dtype=bool))
    u = int(s[tuple(non[0])])
    off = ~np.eye(v, dtype=bool)
    assert np.array_equal(A, A.T) and (np.diag(s) == k).all() and (s[(A == 1)] == l).all() and (s[(A == 0) & off] == u).all()
    return v, k, l, u


def from_pred(vs, f):
    n = len(vs); A = np.zeros((n, n), dtype=np.int8)
    for i in range(n):
        for j in range(i):
            if f(vs[i], vs[j]): A[i, j] = A[j, i] = 1
    return A


def triangular(n): return from_pred(list(itertools.combinations(range(n), 2)), lambda a, b: bool(set(a) & set(b)))
def lattice(n): return from_pred(list(itertools.product(range(n), repeat=2)), lambda a, b: (a[0] == b[0]) != (a[1] == b[1]))
def multipartite(m, s): return from_pred(list(range(m * s)), lambda a, b: a // s != b // s)
def cliques(m, s): return from_pred(list(range(m * s)), lambda a, b: a // s == b // s)


def paley(q):
    sq = {x * x % q for x in range(1, q)}
    return from_pred(list(range(q)), lambda a, b: (a - b) % q in sq)


def paley9():      # GF(9) = F3[i]
    el = list(itertools.product(range(3), repeat=2))
    mul = lambda a, b: ((a[0] * b[0] - a[1] * b[1]) % 3, (a[0] * b[1] + a[1] * b[0]) % 3)
    sq = {mul(x, x) for x in el if x != (0, 0)}
    return from_pred(el, lambda a, b: ((a[0] - b[0]) % 3, (a[1] - b[1]) % 3) in sq)


def paley25():     # GF(25) = F5[w], w^2 = 2
    el = list(itertools.product(range(5), repeat=2))
    mul = lambda a, b: ((a[0] * b[0] + 2 * a[1] * b[1]) % 5, (a[0] * b[1] + a[1] * b[0]) % 5)
    sq = {mul(x, x) for x in el if x != (0, 0)}
    return from_pred(el, lambda a, b: ((a[0] - b[0]) % 5, (a[1] - b[1]) % 5) in sq)


def petersen(): return 1 - triangular(5) - np.eye(10, dtype=np.int8)


def shrikhande():
    el = list(itertools.product(range(4), repeat=2))
    D = {(1, 0), (3, 0), (0, 1), (0, 3), (1, 1), (3, 3)}
    return from_pred(el, lambda a, b: ((a[0] - b[0]) % 4, (a[1] - b[1]) % 4) in D)


def clebsch(): return from_pred(list(range(16)), lambda a, b: bin(a ^ b).count('1') in (1, 4))


def hoffman_singleton():
    vs = [('P', h, j) for h in range(5) for j in range(5)] + [('Q', i, j) for i in range(5) for j in range(5)]
    def f(a, b):
        if a[0] == b[0] == 'P': return a[1] == b[1] and (a[2] - b[2]) % 5 in (1, 4)
        if a[0] == b[0] == 'Q': return a[1] == b[1] and (a[2] - b[2]) % 5 in (2, 3)
        if a[0] == 'Q': a, b = b, a
        return (a[1] * b[1] + a[2]) % 5 == b[2]
    return from_pred(vs, f)


def symplectic(q):   # points of PG(3,q), q prime, perpendicular under a symplectic form: GQ(q,q) collinearity graph
    pts = []
    for x in itertools.product(range(q), repeat=4):
        nz = next((c for c in x if c), 0)
        if nz == 1: pts.append(x)
    form = lambda a, b: (a[0] * b[1] - a[1] * b[0] + a[2] * b[3] - a[3] * b[2]) % q
    return from_pred(pts, lambda a, b: form(a, b) == 0)


def latin(n):        # L3(n): same row, column or symbol in the cyclic latin square
    el = list(itertools.product(range(n), repeat=2))
    return from_pred(el, lambda a, b: (a[0] == b[0]) + (a[1] == b[1]) + ((a[0] + a[1]) % n == (b[0] + b[1]) % n) == 1)


def complement(A):
    return (1 - A - np.eye(len(A), dtype=np.int8)).astype(np.int8)


def canonical(A, start=None):
    """relabels by refining the order of the later vertices row by row: ones first among those not yet told apart"""
    A = np.asarray(A); v = len(A)
    order = list(range(v)) if start is None else list(start) + [x for x in range(v) if x not in start]
    # the two start vertices must be adjacent: choose the first neighbour as vertex 1
    cells = [[order[0]], order[1:]]
    out = []
    rest = order[:]
    groups = [rest]
    while groups:
        x = groups[0].pop(0)
        if not groups[0]: groups.pop(0)
        out.append(x)
        ng = []
        for g in groups:
            one = [y for y in g if A[x, y]]; zero = [y for y in g if not A[x, y]]
            if one: ng.append(one)
            if zero: ng.append(zero)
        groups = ng
    return A[np.ix_(out, out)].astype(np.int8)


def catalogue():
    """name -> adjacency matrix; v <= 127"""
    c = {}
    for n in range(4, 17): c['T(%d)' % n] = triangular(n)
    for n in range(2, 12): c['L2(%d)' % n] = lattice(n)
    for n in range(3, 12): c['L3(%d)' % n] = latin(n)
    for q in (5, 13, 17, 29, 37, 41, 53, 61, 73, 89, 97, 101, 109, 113): c['Paley(%d)' % q] = paley(q)
    c['Paley(9)'] = paley9(); c['Paley(25)'] = paley25()
    c['Petersen'] = petersen(); c['Shrikhande'] = shrikhande(); c['Clebsch'] = clebsch()
    c['HoffmanSingleton'] = hoffman_singleton()
    c['Sp(4,2)'] = symplectic(2); c['Sp(4,3)'] = symplectic(3)
    out = {}
    for k, A in c.items():
        if A.sum() == 0 or A.sum() == len(A) * (len(A) - 1): continue
        out[k] = A
        B = complement(A)
        if B[0].sum() > 0: out['co-' + k] = B
    return out


if __name__ == '__main__':
    for n, A in catalogue().items():
        try: print(n, params_of(A))
        except AssertionError: print(n, 'NOT SRG')
