"""P20: work is shared among processes without loss or overlap (_mpitools.py)."""
from common import *
import pylib, pysym
from pylib import PYTRUST, Module, Arr, Iv, Rv, V, calls, SymList, Invariant, VList
from pylib import I, R, rn, between

LEVEL = 'proof'
TRUSTED = PYTRUST + ['bool counts as int for the type test, as in Python']
ZI, OI = num(0, 'I'), num(1, 'I')
T_, P_, K = I('T'), I('P'), I('k')
base = idiv(T_, P_)
POS = [lt(ZI, T_), lt(ZI, P_)]


def tsum(f, n):
    q = I('q')
    return sum_(q, ZI, n, f(q))


def item(l, k):
    # element k, a term known to be in range
    if isinstance(l, VList) and l.sl is not None:
        return l.sl.fn(k)
    return l.fn(k) if isinstance(l, SymList) else l[Iv(k)]


def inv(e):
    """over roles: n tasks left, p processes left, l numbers given so far"""
    n, p, l = pysym.tt(e['n']), pysym.tt(e['p']), e['l']
    ln = pysym.dim(pysym.length(l))
    at = lambda k: pysym.tt(pysym.lit(l.sl.fn(k) if isinstance(l, VList) and l.sl is not None else list.__getitem__(l, k))) if (isinstance(l, VList) and l.sl is not None) else ZI
    b = base
    return [('processes left are not negative', le(ZI, p)), ('no more processes than given', le(p, P_)), ('tasks are left exactly if processes are left', and_(or_(lt(ZI, n), eq(p, ZI)), or_(lt(ZI, p), eq(n, ZI)))),
            ('tasks left are at least the floor share', le(p * b, n)), ('tasks left are at most the ceiling share', le(n, p * b + p)),
            ('one number for each process served', eq(ln, P_ - p)),
            ('numbers given are shares', binder('forall', K, ZI, ln, and_(le(b, at(K)), le(at(K), b + 1)), 'B')),
            ('numbers given and tasks left add up', eq(tsum(at, ln) + n, T_))]


def havoc(e):
    l = VList()
    l.sl = SymList(pysym.X.fresh('len', 'I'), lambda k: Iv(app('nt[]', (k,), 'I')))
    return {'n': Iv(pysym.X.fresh('n', 'I')), 'p': Iv(pysym.X.fresh('p', 'I')), 'l': l}


def find(env):
    r = {}
    for k, v in env.items():
        if isinstance(v, list):
            r['l'] = k
        elif isinstance(v, V) and v.re is T_:
            r['n'] = k
        elif isinstance(v, V) and v.re is P_:
            r['p'] = k
    if set(r) != {'l', 'n', 'p'} or len(env) != 3:
        raise pysym.Unsupported('loop over %s: the invariant is about tasks left, processes left and numbers given' % sorted(env))
    return r


_m = {}


def mod():
    if not _m:
        _m['m'] = Module('_mpitools', invariants={('allocate_tasks', 0): Invariant(None, havoc, inv, lambda e: pysym.tt(e['p']), find)})
    return _m['m']


def unit_allocate(u):
    M = mod()

    def post(v, h, p, tag):
        n = pysym.dim(pysym.length(v))
        at = lambda k: pysym.tt(pysym.lit(item(v, k)))
        u.eq(tag + ': one number for every process', n, P_, h)
        u.holds(tag + ': shares differ by at most one', and_(le(base, at(K)), le(at(K), base + 1)), h + [between(0, K, P_)])
        u.holds(tag + ': no share is negative', le(ZI, at(K)), h + [between(0, K, P_)])
        u.eq(tag + ': every task is given', tsum(at, n), T_, h)
    calls(u, 'numbers of tasks', lambda: M['allocate_tasks'](Iv(T_), Iv(P_)), [], post, or_(le(T_, ZI), le(P_, ZI)), ('ValueError',))
    for a in ((Rv(R('x')), Iv(P_)), (Iv(T_), Rv(R('x')))):
        E, ps = pylib.explore(lambda: M['allocate_tasks'](*a))
        u.true('numbers that are not integers are rejected', ps and all(p.out == 'exc' and type(p.exc).__name__ == 'TypeError' for p in ps))
    u.fn('_mpitools.allocate_tasks')


def unit_distribute(u):
    M = mod()
    orig = M['allocate_tasks']
    nt = lambda k: app('nt[]', (k,), 'I')
    shares = [binder('forall', K, ZI, P_, and_(le(base, nt(K)), le(nt(K), base + 1)), 'B'), eq(tsum(nt, P_), T_)]

    def given():
        l = VList()
        l.sl = SymList(P_, lambda k: Iv(nt(k)))
        return l

    def post(v, h, p, tag, seen=None):
        if seen is not None and not u.true(tag + ': the given totals are allocated', len(seen) == 1 and [pysym.tt(x) for x in seen[0]] == [T_, P_], repr(seen)):
            return
        u.eq(tag + ': one range for every process', pysym.dim(pysym.length(v)), P_, h)
        s = lambda k: item(v, k)
        lo, hi = (lambda k: pysym.tt(pysym.lit(s(k).start))), (lambda k: pysym.tt(pysym.lit(s(k).stop)))
        hk = h + [between(0, K, P_)]
        u.true(tag + ': ranges have no gaps', s(K).step is None)
        u.eq(tag + ': the first range starts at the first task', lo(ZI), ZI, h)
        u.eq(tag + ': the last range ends at the last task', hi(P_ - 1), T_ if seen is not None else tsum(nt, P_), h)
        u.eq(tag + ': ranges follow each other', hi(K), lo(K + 1), hk + [lt(K, P_ - 1)])
        u.eq(tag + ': each range has the size given', hi(K) - lo(K), nt(K), hk)
        if seen is not None:
            u.holds(tag + ': the sizes given differ by at most one', and_(le(base, nt(K)), le(nt(K), base + 1)), hk)
    calls(u, 'ranges from numbers', lambda: M['distribute_tasks'](given()), POS[1:], post)
    calls(u, 'ranges from numbers, totals ignored', lambda: M['distribute_tasks'](given(), Iv(I('T2')), Iv(I('P2'))), POS[1:] + [lt(ZI, I('P2')), lt(ZI, I('T2'))], post)
    seen = []

    def go():
        seen.clear()

        def alloc(task_total, proc_total):
            seen.append((task_total, proc_total))
            return given()
        M.set('allocate_tasks', alloc)
        try:
            return M['distribute_tasks'](task_total=Iv(T_), proc_total=Iv(P_))
        finally:
            M.set('allocate_tasks', orig)
    calls(u, 'ranges from totals', go, POS + shares, lambda v, h, p, tag: post(v, h, p, tag, seen))
    u.fn('_mpitools.distribute_tasks')


UNITS = [('numbers of tasks', unit_allocate), ('ranges', unit_distribute)]


def replay(r):
    import cxx, pyreal, warnings

    def body(t):
        mp = pyreal.pkg()('_mpitools')
        q = type(r)()
        top = 400 if r.tier == 'thorough' else 130
        for n in range(1 + t, top, 8):
            for p in list(range(1, 70)) + [127, 128, 500]:
                what = '%d tasks, %d processes' % (n, p)
                s = mp.distribute_tasks(task_total=n, proc_total=p)
                a = mp.allocate_tasks(n, p)
                q.case('one range per process', len(s) == p == len(a), what)
                cover = [i for x in s for i in range(n)[x]]
                q.case('every task once, in order', cover == list(range(n)), what)
                sz = [len(range(n)[x]) for x in s]
                q.case('sizes', sz == [int(x) for x in a] and max(sz) - min(sz) <= 1, what)
                s2 = mp.distribute_tasks(list(a), n + 3, p + 1)
                q.case('totals are ignored when numbers are given', [(int(x.start), int(x.stop)) for x in s2] == [(int(x.start), int(x.stop)) for x in s], what)
        # totals beyond the integers a double can count
        for n in (2 ** 53 + 1 + 2 * t, 2 ** 60 + 3 + t, 10 ** 18 + 7 + t, 2 ** 62 - 1 - t):
            for p in (1, 2, 3, 4, 7, 8, 64, 500):
                what = '%d tasks, %d processes' % (n, p)
                a = [int(x) for x in mp.allocate_tasks(n, p)]
                q.case('shares of large totals', len(a) == p and sum(a) == n and max(a) - min(a) <= 1 and min(a) >= 0, what)
                s = [(int(x.start), int(x.stop)) for x in mp.distribute_tasks(task_total=n, proc_total=p)]
                q.case('ranges of large totals', len(s) == p and s[0][0] == 0 and s[-1][1] == n and all(x[1] == y[0] for x, y in zip(s, s[1:])) and [y - x for x, y in s] == a, what)
        return q
    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
