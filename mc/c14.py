import itertools
from collections import Counter
import lib
PROPERTY, LEVEL, LIMIT = 'C14', 'exploration', 600


def groups(tier):
    q = tier == 'quick'
    g = []
    for kind in ('partition', 'fork'):
        for l, B in [(1, 8), (2, 6), (3, 4), (4, 3), (5, 2), (6, 1)] + ([] if q else [(2, 12), (3, 7), (4, 5), (5, 4), (6, 3), (8, 2), (10, 1)]):
            parts = 1 if (B + 1) ** l < 1000 else 8
            g += [((B + 1) ** l * l * 1e-3, [dict(kind=kind, l=l, B=B, part=i, parts=parts)]) for i in range(parts)]
    g += [(1, [dict(kind='fork-int8')])]
    g += [(2, [dict(kind='long', l=l)]) for l in ((16, 40, 100, 300) if q else (16, 33, 40, 65, 100, 128, 129, 256, 257, 300, 600))]
    return g


def forms(bounds, kind):
    import numpy as np
    yield np.array(bounds, dtype=np.int8)
    if kind == 'partition': yield list(bounds); yield tuple(bounds)


def evaluate(case, st):
    import numpy as np
    if case['kind'] == 'fork-int8':       # sums of bounds beyond one signed byte
        enum = lib.seam('srg.fork', 'enum')
        for bounds in ([100, 100], [127, 127, 127], [64, 64], [1, 127], [127, 1], [50, 60, 70]):
            for quota in (0, 1, 63, 64, 99, 100, 127, 128, 150, 200):
                for loc in range(len(bounds)):
                    v = fork(enum, quota, bounds, loc, st)
                    if v: return v
        return
    if case['kind'] == 'long': return long(case['l'], st)
    l, B = case['l'], case['B']
    for n, bounds in enumerate(itertools.product(range(B + 1), repeat=l)):
        if n % case['parts'] != case['part']: continue
        if case['kind'] == 'partition':
            enum = lib.seam('srg.partition', 'enum')
            by = {}
            for t in itertools.product(*(range(x + 1) for x in bounds)): by.setdefault(sum(t), []).append(t)
            for s in range(sum(bounds) + 3):
                for b in forms(bounds, 'partition'):
                    got = [tuple(int(y) for y in t) for t in enum(s, b)]
                    st.add('evaluations')
                    if Counter(got) != Counter(by.get(s, [])):
                        return dict(what='tuples listed differ from those within the bounds', sum=s, bounds=bounds, got=got[:10], expected=by.get(s, [])[:10])
                if len(by.get(s, [])) > 1: st.add('distinct_nontrivial')
                if not isinstance(b, np.ndarray) and tuple(b) != bounds: return dict(what='bounds changed', bounds=bounds)
        else:
            enum = lib.seam('srg.fork', 'enum')
            for loc in range(l):
                for quota in range(sum(bounds) + 3):
                    v = fork(enum, quota, list(bounds), loc, st)
                    if v: return v
    st.sample(dict(kind=case['kind'], bounds=bounds), 1)


def long(l, st):
    """many places: sums of at most two, and larger ones when few places are not zero"""
    import numpy as np
    enum, split = lib.seam('srg.partition', 'enum'), lib.seam('srg.fork', 'enum')
    sparse = [0] * l
    for i, x in ((0, 1), (l // 3, 3), (l // 2, 2), (l - 1, 4)): sparse[i] = x
    for bounds, sums in (([1] * l, (0, 1)), ([i % 3 for i in range(l)], (0, 1, 2) if l <= 100 else (0, 1)), (sparse, range(13)), ([0] * l, (0, 1))):
        on = [i for i in range(l) if bounds[i]]
        for s in sums:
            ways = set()
            def place(k, rest, done):
                if rest == 0: ways.add(tuple(done)); return
                if k == len(on): return
                for x in range(min(bounds[on[k]], rest) + 1): place(k + 1, rest - x, done + [(on[k], x)] if x else done)
            if s <= 2 and len(on) > 4:
                ways = {()} if s == 0 else {((i, 1),) for i in on} if s == 1 else {((i, 2),) for i in on if bounds[i] > 1} | {((i, 1), (j, 1)) for i, j in itertools.combinations(on, 2)}
            else: place(0, s, [])
            for b in forms(bounds, 'partition'):
                got = [tuple(int(y) for y in t) for t in enum(s, b)]
                st.add('evaluations'); st.add('many_places')
                if any(len(t) != l for t in got) or len(got) != len(ways) or {tuple((i, x) for i, x in enumerate(t) if x) for t in got} != ways:
                    return dict(what='tuples listed differ from those within the bounds', sum=s, places=l, bounds=bounds[:20], listed=len(got), expected=len(ways))
            if len(ways) > 1: st.add('distinct_nontrivial')
        for loc in sorted({0, 1, l // 3, l // 2, l - 2, l - 1}):
            for quota in sorted({0, 1, 2, 5, sum(bounds) // 2, sum(bounds) - 1, sum(bounds), sum(bounds) + 1} - {-1}):
                v = fork(split, quota, bounds, loc, st)
                if v: return v


def fork(enum, quota, bounds, loc, st):
    import numpy as np
    b = np.array(bounds, dtype=np.int8)
    got = [(int(x), int(y)) for x, y in enum(quota, b, loc)]
    st.add('evaluations')
    rest = sum(bounds) - bounds[loc]
    feasible = [x for x in range(bounds[loc] + 1) if 0 <= quota - x <= rest]
    if len(feasible) > 1: st.add('distinct_nontrivial')
    if b.tolist() != list(bounds): return dict(what='bounds changed', bounds=bounds)
    for x, y in got:
        if x + y != quota or not 0 <= x <= bounds[loc]: return dict(what='split %s does not add up to the total or exceeds the bound' % ((x, y),), total=quota, bounds=bounds, place=loc)
    c = Counter(x for x, y in got)
    for x in feasible:
        if c[x] != 1: return dict(what='split %d + %d is listed %d times' % (x, quota - x, c[x]), total=quota, bounds=bounds, place=loc)


def meta(tier, st):
    return dict(rule='all bounds up to the stated length and size with all sums (two beyond the largest possible); 16 to 300 (600) places with small sums; non-trivial: more than one possibility')
