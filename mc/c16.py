"""Bounded-exhaustive over labelled graphs, and explicit-state search over the labellings of larger ones (transitions: renaming two
neighbouring vertices)."""
import os
import lib, graphs
PROPERTY, LEVEL, LIMIT = 'C16', 'model_checking', 700


def groups(tier):
    q = tier == 'quick'
    g = [(0.1, [dict(kind='all', n=n, part=0, parts=1) for n in (2, 3, 4)]), (1, [dict(kind='all', n=5, part=0, parts=1)])]
    g += [(4, [dict(kind='all', n=6, part=i, parts=16)]) for i in range(16)]
    if not q: g += [(90, [dict(kind='all', n=7, part=i, parts=64)]) for i in range(64)]
    for name in ('Petersen', 'T(5)', 'L2(3)', 'cube', 'K4,4', '2K4', 'C7', 'C8', 'wheel8', 'path7', 'star8', 'bull7'):
        n = 4 if name in ('Petersen', 'T(5)') else 1
        g += [(8, [dict(kind='labellings', name=name, cap=6000 if q else 40000, part=i, parts=n)]) for i in range(n)]
    for name in ('T(6)', 'T(7)', 'T(8)', 'L2(4)', 'L2(5)', 'Paley(13)', 'Paley(17)', 'Paley(29)', 'Paley(37)', 'Shrikhande', 'Clebsch', 'Sp(4,2)', 'Sp(4,3)', 'HoffmanSingleton', 'co-L2(4)', 'co-T(7)', 'co-Clebsch', 'L3(5)', 'T(12)', 'Paley(101)'):
        g += [(6, [dict(kind='transpositions', name=name, steps=1 if q else 2, cap=400 if q else 4000)])]
    for name in ('T(17)', 'Paley(149)', 'C140', 'path200', 'grid12x12', 'cliques2x129', 'multipartite3x44', 'star300', 'co-C16', 'path16', 'grid4x5', 'wheel24'):
        g += [(30, [dict(kind='transpositions', name=name, steps=1, cap=200 if q else 4000)])]
    for shift in ((1,) if q else (0, 1, 367)): g += [(20, [dict(kind='deep', n=1100, shift=shift)])]
    for prob in sorted(os.listdir(os.path.join(lib.REPO, 'srg', 'database'))):
        if prob.startswith('problem_') and prob.endswith('.py'): g += [(4, [dict(kind='stored', name=prob[:-3], cap=12 if q else 200)])]
    return g


def named(name):
    import families, numpy as np
    c = families.catalogue()
    if name in c: return families.canonical(c[name])
    F = families.from_pred
    if name == 'cube': return F(list(range(8)), lambda a, b: bin(a ^ b).count('1') == 1)
    if name == 'K4,4': return F(list(range(8)), lambda a, b: a // 4 != b // 4)
    if name == '2K4': return F(list(range(8)), lambda a, b: a // 4 == b // 4)
    if name == 'star8': return F(list(range(8)), lambda a, b: 0 in (a, b))
    if name.startswith('C'): n = int(name[1:]); return F(list(range(n)), lambda a, b: (a - b) % n in (1, n - 1))
    if name.startswith('path'): n = int(name[4:]); return F(list(range(n)), lambda a, b: abs(a - b) == 1)
    if name == 'T(17)': return families.canonical(families.triangular(17))
    if name == 'Paley(149)': return families.paley(149)
    if name.startswith('cliques'): return families.cliques(*map(int, name[7:].split('x')))
    if name.startswith('multipartite'): return families.multipartite(*map(int, name[12:].split('x')))
    if name.startswith('grid'): a, b = map(int, name[4:].split('x')); return F(list(range(a * b)), lambda x, y: abs(x // b - y // b) + abs(x % b - y % b) == 1)
    if name == 'co-C16': return F(list(range(16)), lambda a, b: a != b and (a - b) % 16 not in (1, 15))
    if name == 'wheel24': return F(list(range(24)), lambda a, b: 0 in (a, b) or (a - b) % 23 in (1, 22))
    if name.startswith('star'): return F(list(range(int(name[4:]))), lambda a, b: 0 in (a, b))
    if name == 'wheel8': return F(list(range(8)), lambda a, b: 0 in (a, b) or (a - b) % 7 in (1, 6))
    if name == 'bull7': return F(list(range(7)), lambda a, b: {a, b} in ({0, 1}, {1, 2}, {0, 2}, {1, 3}, {2, 4}, {4, 5}, {4, 6}))
    raise KeyError(name)


def maximize(A):
    from srg import sorter
    return sorter.maximize(A)


def judge(A, st, same):
    """A: adjacency matrix; same(A, B): None, or why B is not a relabelling of A that keeps vertex 0"""
    import numpy as np
    n = len(A)
    keep = A.copy()
    B = maximize(A)
    st.add('traces_validated_against_impl')
    e = graphs.is_graph(B, n)
    if e: return dict(what='the result is no adjacency matrix: ' + e, matrix=keep.tolist())
    e = same(keep, B)
    if e: return dict(what='the result is not the same graph: ' + e, matrix=keep.tolist(), got=np.asarray(B).tolist())
    e = lib.canonical_form_error(B)
    if e: return dict(what='the result is not in canonical form: ' + e, matrix=keep.tolist(), got=np.asarray(B).tolist())
    if lib.upper(np.asarray(B).tolist()) < lib.upper(keep.tolist()): return dict(what='the result encodes smaller than the input', matrix=keep.tolist(), got=np.asarray(B).tolist())
    if lib.canonical_form_error(keep) is None:
        st.add('fixed_points')
        if not np.array_equal(B, keep): return dict(what='a matrix in canonical form was changed', matrix=keep.tolist(), got=np.asarray(B).tolist())
    C = maximize(np.array(B))
    if not np.array_equal(C, B): return dict(what='maximizing again changes the result', matrix=keep.tolist())


def invariants(A, B):
    import numpy as np
    A = np.asarray(A, dtype=np.int64); B = np.asarray(B, dtype=np.int64)
    if A[0].sum() != B[0].sum(): return 'vertex 0 has another degree'
    q = graphs.relabelling(A, B)
    if q == 'gave up':
        s, t = A @ A, B @ B
        if sorted(map(sorted, s.tolist())) != sorted(map(sorted, t.tolist())): return 'other numbers of common neighbours'
        return None
    return None if q else 'no relabelling that keeps vertex 0 exists'


def evaluate(case, st):
    import numpy as np
    if case['kind'] == 'all':
        n = case['n']
        cls = graphs.rooted_classes(n)
        same = lambda A, B: None if cls[graphs.mask(A)] == cls[graphs.mask(B)] else 'no relabelling that keeps vertex 0 exists'
        for m in range(case['part'], 1 << (n * (n - 1) // 2), case['parts']):
            st.add('states'); st.add('transitions')
            for dt in (graphs.TYPES if n <= 4 else (graphs.TYPES[m % 8], graphs.TYPES[(m + 3) % 8]) if n == 5 else (graphs.TYPES[m // 16 % 8],)):
                v = judge(graphs.matrix(m, n, dt), st, same)
                if v: return v
        st.sample(dict(n=n, mask=m), 1)
        return
    if case['kind'] == 'labellings':
        A = named(case['name']); n = len(A)
        orb, t, capped = graphs.orbit(A, False, case['cap'])
        if capped: st.add('orbits_beyond_cap')
        rooted = {}
        for m in orb[case['part']::case['parts']]:
            X = graphs.matrix(m, n)
            st.add('states'); st.add('transitions', n - 1)
            v = judge(X, st, invariants)
            if v: return v
        st.sample(dict(graph=case['name'], labellings=len(orb)), 1)
        return
    if case['kind'] == 'deep':             # more vertices than the interpreter nests calls: disjoint edges, the same graph however they are named
        n = case['n']
        A = np.zeros((n, n), dtype=lib.repo_dtype())
        q = [(i * 7 + case['shift']) % n for i in range(n)]
        for i in range(0, n, 2): A[q[i], q[i + 1]] = A[q[i + 1], q[i]] = 1
        st.add('states'); st.add('transitions')
        return judge(A, st, lambda A, B: None if (np.asarray(B).sum(axis=0) == 1).all() else 'it no longer consists of disjoint edges')
    if case['kind'] == 'transpositions':
        A = named(case['name']); n = len(A)
        sw = [(i, j) for i in range(n) for j in range(i + 1, n)]
        seqs = [()] + [(x,) for x in sw]
        # a reversal and the rotations mix everything
        perms = [list(range(n))[::-1]] + [list(range(r, n)) + list(range(r)) for r in range(1, n, max(1, n // 8))]
        for a, b in sw[:1] + (sw if case['steps'] > 1 else []): seqs += [((a, b), x) for x in sw]
        cap = case['cap'] if n <= 30 else case['cap'] // 4 if n <= 60 else case['cap'] // (25 if n <= 110 else 50)
        if len(seqs) > cap: seqs = [seqs[i * len(seqs) // cap] for i in range(cap)]; st.add('relabelling_sets_thinned_beyond_cap')
        for s in seqs:
            q = list(range(n))
            for i, j in s: q[i], q[j] = q[j], q[i]
            perms.append(q)
        for i, q in enumerate(perms):
            X = graphs.typed(np.ascontiguousarray(A[np.ix_(q, q)]), i if i % 3 == 0 else 0)
            st.add('states'); st.add('transitions')
            v = judge(X, st, invariants)
            if v: return v
        st.sample(dict(graph=case['name'], relabellings=len(perms)), 1)
        return
    from srg import database
    sols = database.get_solutions(*database.extract_vklu(case['name']))
    for S in sols[:case['cap'] * 10]:
        A = np.array(S); n = len(A)
        st.add('states'); st.add('transitions')
        v = judge(A.copy(), st, lambda A, B: None if np.array_equal(A, B) else 'a stored matrix was changed')
        if v: return v
    for S in sols[:case['cap']]:
        A = np.array(S); n = len(A)
        for q in [list(range(n))[::-1]] + [list(range(r, n)) + list(range(r)) for r in range(1, n, max(1, n // 4))]:
            st.add('states'); st.add('transitions')
            v = judge(np.ascontiguousarray(A[np.ix_(q, q)]), st, invariants)
            if v: return v


def meta(tier, st):
    return dict(rule='all labelled graphs of at most 6 (7) vertices (up to 4 in eight element types each, beyond in turn); labellings of 12 graphs of 7 to 10 vertices reached by renaming neighbours (all, or the first up to a cap); '
                     'all single transpositions, rotations and the reversal of strongly regular and other graphs up to 300 vertices (thinned) and of the stored solutions; 550 disjoint edges. '
                     'Sameness is decided by orbits (small) or by a backtracking search for the relabelling (large).')
