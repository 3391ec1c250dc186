"""Small graphs as bit masks over the pairs (i<j) in row order, and relabelling tools independent of the code under test."""
import itertools


def pairs(n): return [(i, j) for i in range(n) for j in range(i + 1, n)]


def matrix(mask, n, dtype='int8'):
    import numpy as np
    A = np.zeros((n, n), dtype=dtype)
    for b, (i, j) in enumerate(pairs(n)):
        if mask >> b & 1: A[i, j] = A[j, i] = 1
    return A


def mask(A):
    n = len(A)
    return sum(1 << b for b, (i, j) in enumerate(pairs(n)) if A[i][j])


def is_graph(A, n):
    import numpy as np
    A = np.asarray(A)
    if A.shape != (n, n): return 'shape %s' % (A.shape,)
    if not np.all((A == 0) | (A == 1)): return 'entries other than 0 and 1'
    if np.any(np.diag(A)): return 'non-zero diagonal'
    if not np.array_equal(A, A.T): return 'not symmetric'
    return None


def rooted_classes(n):
    """list: mask -> number of its class under relabellings that keep vertex 0"""
    P = pairs(n); idx = {}
    for b, (i, j) in enumerate(P): idx[i, j] = idx[j, i] = b
    perms = []
    for q in itertools.permutations(range(1, n)):
        q = (0,) + q
        perms.append([idx[q[i], q[j]] for i, j in P])
    cls = [-1] * (1 << len(P))
    c = 0
    for m in range(1 << len(P)):
        if cls[m] >= 0: continue
        bits = [b for b in range(len(P)) if m >> b & 1]
        for pm in perms:
            x = 0
            for b in bits: x |= 1 << pm[b]
            cls[x] = c
        c += 1
    return cls


def orbit(A, fix0=False, cap=None):
    """all labelled versions of a graph, breadth first over transpositions of neighbouring names: ([masks], transitions, capped)"""
    n = len(A)
    P = pairs(n); idx = {}
    for b, (i, j) in enumerate(P): idx[i, j] = idx[j, i] = b
    moves = []
    for a in range(1 if fix0 else 0, n - 1):
        q = list(range(n)); q[a], q[a + 1] = q[a + 1], q[a]
        moves.append([idx[q[i], q[j]] for i, j in P])
    start = mask(A)
    seen, todo, t = {start}, [start], 0
    for m in todo:
        bits = [b for b in range(len(P)) if m >> b & 1]
        for mv in moves:
            x = 0
            for b in bits: x |= 1 << mv[b]
            t += 1
            if x not in seen: seen.add(x); todo.append(x)
        if cap and len(seen) > cap: return todo[:cap], t, True
    return todo, t, False


def relabelling(A, B, fix0=True, limit=200000):
    """a permutation q with B[i][j] = A[q[i]][q[j]] (and q[0]=0), or None; by backtracking. 'gave up' beyond the limit"""
    n = len(A)
    A = [list(map(int, r)) for r in A]; B = [list(map(int, r)) for r in B]
    deg = lambda M, i: (sum(M[i]), tuple(sorted(sum(1 for k in range(n) if M[i][k] and M[j][k]) for j in range(n) if M[i][j])))
    da = [deg(A, i) for i in range(n)]; db = [deg(B, i) for i in range(n)]
    if sorted(da) != sorted(db): return None
    q, used, steps = [], [False] * n, [0]
    class Enough(Exception): pass
    def go(i):
        if i == n: return True
        steps[0] += 1
        if steps[0] > limit: raise Enough
        for x in ([0] if i == 0 and fix0 else range(n)):
            if used[x] or da[x] != db[i]: continue
            if all(A[x][q[j]] == B[i][j] for j in range(i)):
                used[x] = True; q.append(x)
                if go(i + 1): return True
                q.pop(); used[x] = False
        return False
    try: return q if go(0) else None
    except Enough: return 'gave up'


TYPES = ('int16', 'int64', 'uint8', 'bool', 'float64', 'int8', 'uint64', 'int32')      # what a 0/1 matrix may be stored in


def typed(A, i):
    import numpy as np
    return np.asarray(A).astype(TYPES[i % len(TYPES)])
