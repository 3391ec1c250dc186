"""Stepping the implementation from one partial matrix; shared by C04, C05, C12."""
import lib


def rows_by_advance(m):
    """rows offered for the next vertex: list of bit strings, through solver.advance"""
    from srg.srg import SRG
    advance = lib.seam('srg.solver', 'advance')
    out = []
    for s in advance(SRG(m)):
        a = s.current_matrix
        R = len(m)
        if a.shape != (R + 1, m.shape[1]): raise lib.BadResult('advance returned shape %s after %s' % (a.shape, m.shape))
        if lib.bits_of(a[:R]) != lib.bits_of(m): raise lib.BadResult('advance changed the known rows')
        out.append(lib.bits_of(a[R]))
    return out


def rows_by_question(m):
    """the same through Question.from_matrix and solver.solve_question"""
    import numpy as np
    from srg.srg import Question, NoSolution
    from srg import solver
    R, v = m.shape
    try: q = Question.from_matrix(m)
    except NoSolution: return []
    head = lib.bits_of(m[:, R]) + '0'
    return [head + (lib.bits_of(x) if len(x) else '') for x in solver.solve_question(q)]


def rows(m):
    try: return rows_by_advance(m)
    except lib.SeamMissing: return rows_by_question(m)
