"""Threads (see model/include/thread): the accesses of concurrent threads are
recorded by segments of their executions between synchronisation events, and
the solver decides whether an admissible order of events lets two conflicting
segments be concurrent."""
import os
import sys
from fractions import Fraction
from . import terms as tm

CHUNK = 400


class Trace(object):
    """recorded events of a path; copied when the path forks"""

    def __init__(self):
        self.live = 0          # threads that are started and not joined
        self.nthreads = 0
        self.stack = [0]       # thread in execution
        self.cur = {}          # thread -> index of its current segment
        self.segs = []         # (thread, reads, writes)
        self.order = []        # (i, j): segment i before segment j
        self.release = {}      # address -> segments that released it
        self.epochs = 0
        self.atomic = 0

    def copy(self):
        t = Trace()
        t.live = self.live
        t.nthreads = self.nthreads
        t.stack = list(self.stack)
        t.cur = dict(self.cur)
        t.segs = [(a, set(b), set(c)) for a, b, c in self.segs]
        t.order = list(self.order)
        t.release = {k: list(v) for k, v in self.release.items()}
        t.epochs = self.epochs
        t.atomic = self.atomic
        return t

    def seg(self, thread=None):
        """starts a new segment of a thread"""
        k = self.stack[-1] if thread is None else thread
        i = len(self.segs)
        self.segs.append((k, set(), set()))
        if k in self.cur:
            self.order.append((self.cur[k], i))
        self.cur[k] = i
        return i

    def reset(self):
        self.cur = {}
        self.segs = []
        self.order = []
        self.release = {}
        self.epochs += 1


def overlap(xs, ys):
    """an access of xs that overlaps one of ys"""
    by = {}
    for o, a, n in ys:
        by.setdefault(o, []).append((a, n))
    for o, a, n in xs:
        for b, m in by.get(o, ()):
            if a < b + m and b < a + n:
                return (o, a, n)
    return None


def decide(eng, st, t):
    """one obligation for the threads of an epoch: no admissible order lets
    conflicting segments be concurrent"""
    # without any conflict there is nothing to order, but the question is the same
    clocks = [tm.var('clock!%d.%d' % (t.epochs, i), 'R') for i in range(len(t.segs))]
    bad = False
    names = []
    for i in range(len(t.segs)):
        for j in range(i):
            a, b = t.segs[j], t.segs[i]
            if a[0] == b[0]:
                continue
            w = overlap(a[2], b[1]) or overlap(a[2], b[2]) or overlap(b[2], a[1])
            if w:
                names.append((j, i, w))
                if os.environ.get('ESYM_RACES'):
                    sys.stderr.write('conflict of threads %s and %s: object %s +%s (%s bytes)\n' % ((a[0], b[0]) + w))
                bad = tm.bor(bad, tm.req(clocks[i], clocks[j]))
    if bad is False:
        eng.oblige(st, True, 'no data race')
        return
    for i, j in t.order:
        bad = tm.band(bad, tm.rle(tm.radd(clocks[i], Fraction(1)), clocks[j]))
    eng.oblige(st, tm.bnot(bad), 'no data race', {'kind': 'race'})


def install(eng, on=False):
    X = eng.ext

    def tr(st):
        if st.track is None:
            if not on:
                return None
            st.track = [Trace()]
        return st.track[0]

    def create(e, st, a):
        st.ext['threads'] = k = st.ext.get('threads', 0) + 1
        t = tr(st)
        if t is None:
            return k
        if not t.live:
            t.seg()
        parent = t.cur.get(t.stack[-1])
        if parent is None:
            parent = t.seg()
        t.live += 1
        i = t.seg(k)
        t.order.append((parent, i))
        t.seg()
        return k

    def begin(e, st, a):
        t = tr(st)
        if t:
            t.stack.append(e.conc_(st, a[0]))
            if t.stack[-1] not in t.cur:
                t.seg()

    def end(e, st, a):
        t = tr(st)
        if t:
            t.stack.pop()

    def join(e, st, a):
        t = tr(st)
        if t:
            k = e.conc_(st, a[0])
            i = t.seg()
            if k in t.cur:
                t.order.append((t.cur[k], i))
            t.live -= 1
            if not t.live and t.stack == [0]:
                decide(e, st, t)
                t.reset()

    def detach(e, st, a):
        t = tr(st)
        if t:
            st.ext['detached'] = True

    def acquire(e, st, addr):
        t = st.track and st.track[0]
        if t and t.live:
            i = t.seg()
            for j in t.release.get(addr, ()):
                if j != i:
                    t.order.append((j, i))

    def release(e, st, addr):
        t = st.track and st.track[0]
        if t and t.live:
            k = t.stack[-1]
            if k in t.cur:
                t.release.setdefault(addr, []).append(t.cur[k])
            t.seg()

    def on_access(st, o, off, size, write):
        t = st.track[0]
        if not t.live or t.atomic:
            return
        i = t.cur.get(t.stack[-1])
        if i is None:
            i = t.seg()
        t.segs[i][2 if write else 1].add((o.id, off, size))

    eng.on_access = on_access
    eng.acquire = acquire
    eng.release = release
    X['vs_thread_create'] = create
    X['vs_thread_begin'] = begin
    X['vs_thread_end'] = end
    X['vs_thread_join'] = join
    X['vs_thread_detach'] = detach
    X['vs_schedule'] = lambda e, st, a: st.ext.get('schedule', 0)

    def set_schedule(e, st, a):
        st.ext['schedule'] = e.conc_(st, a[0])
    X['vs_set_schedule'] = set_schedule

    def lock(e, st, a):
        acquire(e, st, a[0])
        return 0

    def unlock(e, st, a):
        release(e, st, a[0])
        return 0
    for n in ('pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock'):
        X[n] = lock
    for n in ('pthread_mutex_unlock', 'pthread_rwlock_unlock'):
        X[n] = unlock

    g_acq, g_rel = X['__cxa_guard_acquire'], X['__cxa_guard_release']

    def quiet(st, f, *args):
        t = st.track and st.track[0]
        if not t:
            return f(*args)
        t.atomic += 1
        try:
            return f(*args)
        finally:
            t.atomic -= 1

    def guard(e, st, a):
        acquire(e, st, a[0])
        return quiet(st, g_acq, e, st, a)

    def guard_rel(e, st, a):
        quiet(st, g_rel, e, st, a)
        release(e, st, a[0])
    X['__cxa_guard_acquire'] = guard
    X['__cxa_guard_release'] = guard_rel
    eng.quiet = quiet

    def at_end(st):
        if st.track and st.ext.get('detached') and st.track[0].live:
            decide(eng, st, st.track[0])
    eng.at_end = at_end
