"""Stateless model checking of two threads: a controlled scheduler (sys.settrace) lets exactly one thread run and preempts it at chosen
points inside the package; every schedule with at most the given number of preemptions is executed, each in a freshly forked process."""
import sys, threading, queue
import lib, ops
from c08 import in_child, preload
PROPERTY, LEVEL, LIMIT = 'C09', 'model_checking', 700

PAIRS = [('solve(5,2,0,1)', 'solve(5,2,0,1)'), ('solve(6,3,0,3)', 'solve(6,3,2,0)'), ('solve(5,2,0,1)', 'solve(6,4,2,4)'),
         ('rows(Petersen,3)', 'rows(Petersen,3)'), ('rows(Petersen,2)', 'rows(lattice,2)'), ('rows(lattice,3)', 'rows(Petersen,3)'),
         ('sort', 'sort'), ('maximize(cube)', 'maximize(cube)'), ('maximize(cube)', 'maximize(wheel)'), ('swap', 'swap'), ('complement', 'complement'),
         ('spectrum', 'spectrum'), ('database', 'database'), ('list', 'list'), ('enumerations', 'enumerations'), ('eliminate', 'eliminate'), ('group columns', 'group columns'),
         ('rows(Petersen,2)', 'maximize(cube)'), ('rows(Petersen,2)', 'enumerations'), ('sort', 'maximize(wheel)'), ('complement', 'swap')]
BIG = [('solve(9,4,1,2)', 'solve(9,4,1,2)'), ('solve(9,4,1,2)', 'solve(6,4,2,4)')]


def groups(tier):
    g = []
    q = tier == 'quick'
    for a, b in PAIRS:
        heavy = a.startswith(('solve', 'rows'))
        n = 8 if heavy else 1
        g += [(10 if heavy else 3, [dict(kind='pb1', pair=[a, b], event='line', part=i, parts=n)]) for i in range(n)]
        n = 2 if q else 16
        g += [(8, [dict(kind='pb2', pair=[a, b], event='call', part=i, parts=n, cap=300 if q else 100000)]) for i in range(n)]
    if not q:
        for a, b in PAIRS: g += [(20, [dict(kind='pb1', pair=[a, b], event='opcode', part=i, parts=16)]) for i in range(16)]
        for a, b in BIG: g += [(60, [dict(kind='pb1', pair=[a, b], event='line', part=i, parts=16)]) for i in range(16)]
        for a, b in PAIRS: g += [(60, [dict(kind='pb2', pair=[a, b], event='line', part=i, parts=16, cap=6000)]) for i in range(16)]
    return g


INF = 1 << 60


class Run:
    """executes two operations in two threads under a schedule [(thread, points), ...]"""
    def __init__(self, names, event, schedule):
        self.names, self.event, self.schedule = names, event, schedule
        self.budget = [0, 0]; self.count = [0, 0]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.msg = queue.SimpleQueue()
        self.out = [None, None]; self.done = [False, False]
        self.prefix = lib.REPO.rstrip('/') + '/srg/'

    def tracer(self, t):
        ev = self.event
        def local(frame, event, arg):
            if event == ev: self.point(t)
            return local
        def glob(frame, event, arg):
            c = frame.f_code
            if not c.co_filename.startswith(self.prefix) or c.co_name == '<module>': return None
            if ev == 'call': self.point(t); return None
            if ev == 'opcode': frame.f_trace_opcodes = True; frame.f_trace_lines = False
            return local
        return glob

    def point(self, t):
        self.count[t] += 1
        if self.budget[t] <= 0:
            self.msg.put((t, 'paused'))
            self.go[t].acquire()
        self.budget[t] -= 1

    def thread(self, t):
        self.go[t].acquire()
        sys.settrace(self.tracer(t))
        try: self.out[t] = ops.run(self.names[t])
        finally:
            sys.settrace(None)
            self.done[t] = True
            self.msg.put((t, 'done'))

    def execute(self):
        th = [threading.Thread(target=self.thread, args=(t,), daemon=True) for t in (0, 1)]
        for x in th: x.start()
        switches = 0
        waiting = set()               # granted but silent: blocked on something the other thread holds
        todo = list(self.schedule) + [(0, INF), (1, INF)] * 40
        for t, n in todo:
            if all(self.done): break
            if self.done[t] or t in waiting: continue
            self.budget[t] = n
            self.go[t].release(); switches += 1
            waiting.add(t)
            while True:
                try: who, what = self.msg.get(timeout=4 if not all(x in waiting or self.done[x] for x in (0, 1)) else 60)
                except queue.Empty:
                    if all(x in waiting or self.done[x] for x in (0, 1)): return 'deadlock', self.count
                    break             # let the other thread run
                waiting.discard(who)
                if t not in waiting: break
        return self.out, self.count


def evaluate(case, st):
    pair = case['pair']
    ev = case['event']
    preload()
    if 'database' in pair: lib.seam('srg.database')
    fresh = [in_child(lambda n=n: ops.run(n)) for n in pair]
    for n, f in zip(pair, fresh):
        if isinstance(f, str) and f.startswith('error'): return dict(what='%r alone fails: %s' % (n, f))
        if f == 'no such operation': st.note('skipped: %s' % n); return
    out, count = in_child(lambda: Run(pair, ev, [(0, INF), (1, INF)]).execute())
    if out != fresh: return dict(what='one after the other in two threads differs from a fresh process', pair=pair)
    na, nb = count
    plans = []
    if case['kind'] == 'pb1':
        plans += [[(0, i), (1, INF), (0, INF)] for i in range(1, na + 1)]
        if pair[0] != pair[1]: plans += [[(1, i), (0, INF), (1, INF)] for i in range(1, nb)]
    else:
        full = [[(0, i), (1, j), (0, INF), (1, INF)] for i in range(1, na + 1) for j in range(1, nb)]
        if pair[0] != pair[1]: full += [[(1, j), (0, i), (1, INF), (0, INF)] for i in range(1, na + 1) for j in range(1, nb)]
        if len(full) > case['cap']:
            st.add('schedule_sets_beyond_cap')
            full = [full[i * len(full) // case['cap']] for i in range(case['cap'])]
        plans = full
    mine = plans[case['part']::case['parts']]
    for pl in mine:
        out, c = in_child(lambda: Run(pair, ev, pl).execute())
        st.add('traces_validated_against_impl'); st.add('schedules'); st.add('schedules_%s_%s' % (case['kind'], ev))
        if out == 'deadlock': return dict(what='the two threads wait for each other', pair=pair, schedule=pl, granularity=ev)
        st.add('transitions', sum(c)); st.add('states', sum(c))
        if out != fresh:
            t = [i for i in (0, 1) if out[i] != fresh[i]][0]
            return dict(what='%r returns something else when it runs concurrently with %r' % (pair[t], pair[1 - t]), schedule=pl, granularity=ev, got=str(out[t])[:300], alone=str(fresh[t])[:300])
    if case['part'] == 0: st.sample(dict(pair=pair, points=[na, nb], granularity=ev, schedules=len(plans)), 1)


def meta(tier, st):
    return dict(rule='two threads, one operation each; points are source lines (calls, in the thorough tier also byte code instructions) of the package; all schedules with one preemption, '
                     'and with two preemptions at call granularity (evenly thinned where the cap is hit)',
                assumptions=['preemption inside one source line is covered in the thorough tier only', 'numpy calls are atomic (they hold the interpreter lock)'])
