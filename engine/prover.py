"""Obligation discharge: normalisation, case splitting, SUM pairing, z3, cvc5."""
import time
import z3
from term import *
from term import _lin, _mono, _mklin, _mkmono
import term as tm

STATS = {'normalise': 0, 'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'z3_calls': 0}
_scode = {}


def scode(x):
    return _scode.setdefault(x, len(_scode) + 1)


class Z:
    """translation to z3 with side axioms"""

    def __init__(s):
        s.memo = {}
        s.ax = []
        s.axdone = set()
        s.fn = {}

    def sort(s, k):
        return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'S': z3.IntSort(), 'U': z3.IntSort(), 'C': z3.RealSort()}[k]

    def uf(s, name, args, k):
        key = (name, tuple(a.sort().name() for a in args), k)
        f = s.fn.get(key)
        if f is None:
            f = z3.Function('%s/%d' % (name, len(s.fn)), *[a.sort() for a in args], s.sort(k)) if args else z3.Const('%s/%d' % (name, len(s.fn)), s.sort(k))
            s.fn[key] = f
        return f(*args) if args else f

    def go(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s._go(t)
            s.memo[t] = r
        return r

    def _go(s, t):
        op, a = t.op, t.a
        if op == 'num':
            if t.s == 'I':
                return z3.IntVal(a[0])
            return z3.RealVal(str(a[0]))
        if op == 'bool':
            return z3.BoolVal(a[0])
        if op == 'str':
            return z3.IntVal(scode(a[0]))
        if op == 'var':
            return z3.Const('v_' + a[0] + '_' + t.s, s.sort(t.s))
        if op == 'bv':
            return z3.Const('bv%d' % a[0], z3.IntSort())
        if op == 'lin':
            xs = []
            for x, k in a[1]:
                e = s.go(x)
                if k == 1:
                    xs.append(e)
                else:
                    xs.append((z3.IntVal(k) if t.s == 'I' else z3.RealVal(str(k))) * e)
            if a[0] != 0:
                xs.append(z3.IntVal(a[0]) if t.s == 'I' else z3.RealVal(str(a[0])))
            return z3.Sum(xs) if len(xs) > 1 else xs[0]
        if op == 'mono':
            r = None
            for x, e in a:
                zx = s.go(x)
                if e < 0:
                    i = s.uf('inv', [zx], 'R')
                    if not any(v.op == 'bv' for v in x.fv):
                        s.axiom(('inv', x), z3.Implies(zx != 0, zx * i == 1))
                    zx, e = i, -e
                for _ in range(e):
                    r = zx if r is None else r * zx
            return r
        if op == 'app':
            if a[0] == 'sqrt':
                x = s.go(a[1])
                r = s.uf('sqrt', [x], 'R')
                if not any(v.op == 'bv' for v in t.fv):
                    s.axiom(('sqrt', t), z3.And(r >= 0, z3.Implies(x >= 0, r * r == x)))
                return r
            if a[0] == 'pi':
                r = s.uf('pi', [], 'R')
                s.axiom('pi', z3.And(r > z3.RealVal('3.14159'), r < z3.RealVal('3.1416')))
                return r
            return s.uf(str(a[0]), [s.go(x) for x in a[1:]], t.s)
        if op == 'ite':
            return z3.If(s.go(a[0]), s.go(a[1]), s.go(a[2]))
        if op == 'and':
            return z3.And(*[s.go(x) for x in a])
        if op == 'or':
            return z3.Or(*[s.go(x) for x in a])
        if op == 'not':
            return z3.Not(s.go(a[0]))
        if op == 'le0':
            return s.go(a[0]) <= 0
        if op == 'lt0':
            return s.go(a[0]) < 0
        if op == 'eq0':
            return s.go(a[0]) == 0
        if op == 'eqs':
            return s.go(a[0]) == s.go(a[1])
        if op == 'toreal':
            return z3.ToReal(s.go(a[0]))
        if op == 'ifloor':
            return z3.ToInt(s.go(a[0]))
        if op == 'trunc':
            x = s.go(a[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if op in ('idiv', 'imod'):
            x, y = s.go(a[0]), s.go(a[1])
            if a[1].op == 'num' and a[1].a[0] > 0:
                q = z3.If(x >= 0, x / y, -((-x) / y))
            else:
                q = s.uf('idiv', [x, y], 'I')
                if not any(v.op == 'bv' for v in t.fv):
                    s.axiom(('idiv', a[0], a[1]), z3.And(
                        z3.Implies(z3.And(x >= 0, y > 0), z3.And(q * y <= x, x < q * y + y, q >= 0)),
                        z3.Implies(z3.And(x < 0, y > 0), z3.And(q * y >= x, x > q * y - y, q <= 0))))
            return q if op == 'idiv' else x - q * y
        if op in BINDERS:
            if op in ('exists', 'forall'):
                v = z3.Const('bv%d' % a[0], z3.IntSort())
                rg = z3.And(s.go(a[1]) <= v, v < s.go(a[2]))
                b = s.go(a[3])
                return z3.Exists([v], z3.And(rg, b)) if op == 'exists' else z3.ForAll([v], z3.Implies(rg, b))
            free = sorted((v for v in t.fv if v.op == 'bv'), key=lambda v: v.a[0])
            # abstract; equal terms share one symbol (free variables are part of the name)
            r = s.uf('%s#%d' % (op, t.id), [s.go(v) for v in free], t.s)
            if not free:
                lo, hi = s.go(a[1]), s.go(a[2])
                if op == 'sum':
                    s.axiom(t, z3.Implies(lo >= hi, r == 0))
                elif op == 'first':
                    e = s.go(tm._mk('exists', (a[0], a[1], a[2], a[3]), 'B'))
                    w = fresh('w', 'I')
                    at = s.go(subst_bv(a[3], a[0], t))
                    bvz = z3.Const('bv%d' % a[0], z3.IntSort())
                    s.axiom(t, z3.Implies(e, z3.And(lo <= r, r < hi, at, z3.ForAll([bvz], z3.Implies(z3.And(lo <= bvz, bvz < r), z3.Not(s.go(a[3])))))))
                elif op == 'lastv':
                    e = s.go(tm._mk('exists', (a[0], a[1], a[2], a[3]), 'B'))
                    at = s.go(subst_bv(a[3], a[0], t))
                    bvz = z3.Const('bv%d' % a[0], z3.IntSort())
                    s.axiom(t, z3.Implies(e, z3.And(lo <= r, r < hi, at, z3.ForAll([bvz], z3.Implies(z3.And(r < bvz, bvz < hi), z3.Not(s.go(a[3])))))))
                elif op in ('maxf', 'minf'):
                    bvz = z3.Const('bv%d' % a[0], z3.IntSort())
                    b = s.go(a[3])
                    cmp_ = (b <= r) if op == 'maxf' else (b >= r)
                    s.axiom(t, z3.Implies(lo < hi, z3.And(
                        z3.ForAll([bvz], z3.Implies(z3.And(lo <= bvz, bvz < hi), cmp_)),
                        z3.Exists([bvz], z3.And(lo <= bvz, bvz < hi, b == r)))))
            return r
        raise ValueError('z3: ' + op)

    def axiom(s, key, f):
        if key not in s.axdone:
            s.axdone.add(key)
            s.ax.append(f)


class Ctx:
    """hypotheses with an incremental z3 solver"""

    def __init__(s, hyps=(), timeout=2000):
        s.z = Z()
        s.solver = z3.Solver()
        s.timeout = timeout
        s.solver.set('timeout', timeout)
        s.hyps = []
        s.stack = []
        s.cache = {}
        s.nax = 0
        for h in hyps:
            s.add(h)

    def add(s, h):
        for q in (h.a if h.op == 'and' else (h,)):
            if q is TRUE:
                continue
            s.hyps.append(q)
            e = s.z.go(q)
            s.flush()
            s.solver.add(e)
        s.cache = {}

    def flush(s):
        while s.nax < len(s.z.ax):
            # axioms are valid everywhere; re-added after pops
            s.solver.add(s.z.ax[s.nax])
            s.nax += 1

    def push(s, h):
        s.solver.push()
        s.stack.append((len(s.hyps), s.cache, s.nax))
        s.cache = {}
        s.add(h)

    def pop(s):
        n, s.cache, nax = s.stack.pop()
        del s.hyps[n:]
        s.solver.pop()
        s.nax = nax

    def check(s, e, timeout=None):
        t0 = time.time()
        s.flush()
        s.solver.push()
        s.solver.add(e)
        if timeout:
            s.solver.set('timeout', timeout)
        r = s.solver.check()
        if timeout:
            s.solver.set('timeout', s.timeout)
        s.solver.pop()
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
        return r

    def entails(s, c, timeout=None):
        if c is TRUE:
            return True
        if c is FALSE:
            return s.inconsistent(timeout)
        key = (c, 1)
        if key in s.cache:
            return s.cache[key]
        if c in s.hyps:
            r = True
        else:
            r = s.check(z3.Not(s.z.go(c)), timeout) == z3.unsat
        s.cache[key] = r
        return r

    def inconsistent(s, timeout=None):
        if 'inc' not in s.cache:
            s.cache['inc'] = s.check(z3.BoolVal(True), timeout) == z3.unsat
        return s.cache['inc']

    def simp_bool(s, c, timeout=300):
        """replace atoms decided by the hypotheses"""
        if c.op == 'bool':
            return c
        if c.op in ('and', 'or'):
            xs = [s.simp_bool(x, timeout) for x in c.a]
            return and_(*xs) if c.op == 'and' else or_(*xs)
        if s.entails(c, timeout):
            return TRUE
        if s.entails(not_(c), timeout):
            return FALSE
        return s.split_atom(c, timeout)

    def split_atom(s, c, timeout):
        """an atom decided on every side of the conditionals inside it is a combination of their conditions"""
        if c.op not in ('lt0', 'le0', 'eq0', 'not') or not has_cond(c):
            return c

        def go(c, depth):
            if c.op == 'bool':
                return c
            if s.entails(c, timeout):
                return TRUE
            if s.entails(not_(c), timeout):
                return FALSE
            if depth > 4 or not has_cond(c):
                return None
            us = [u for u in subterms(c) if u.op == 'ite' and not has_cond(u.a[0]) and not any(v.op == 'bv' for v in u.fv)]
            if not us or len(us) > 12:
                return None
            z = us[0].a[0]
            res = []
            for val, cz in ((1, z), (2, not_(z))):
                s.push(cz)
                try:
                    a = go(subst(c, {u: u.a[val] for u in us if u.a[0] is z}), depth + 1)
                finally:
                    s.pop()
                if a is None:
                    return None
                res.append(a)
            if res[0] is res[1]:
                return res[0]
            return or_(and_(z, res[0]), and_(not_(z), res[1]))
        r = go(c, 0)
        return c if r is None else r

    def simp(s, t, timeout=300, depth=0):
        """simplify conditions of ite terms (also below arithmetic), context sensitive"""
        memo = {}

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t.op == 'ite':
                c = s.simp_bool(t.a[0], timeout)
                if c is TRUE:
                    r = go(t.a[1])
                elif c is FALSE:
                    r = go(t.a[2])
                else:
                    s.push(c)
                    a = s.simp(t.a[1], timeout, depth + 1) if depth < 6 else t.a[1]
                    s.pop()
                    s.push(not_(c))
                    b = s.simp(t.a[2], timeout, depth + 1) if depth < 6 else t.a[2]
                    s.pop()
                    r = ite(c, a, b)
            elif t.op in BINDERS and t.op not in ('lam',):
                lo, hi = go(t.a[1]), go(t.a[2])
                v, _, _, body = open_binder(t)
                s.push(and_(le(lo, v), lt(v, hi)))
                if s.inconsistent(timeout) and t.op == 'sum':
                    b2 = num(0, t.s)
                else:
                    b2 = s.simp(body, timeout, depth + 1) if t.s != 'B' or t.op in ('first', 'lastv') else s.simp_deep_bool(body, timeout, depth + 1)
                s.pop()
                r = binder(t.op, v, lo, hi, b2, t.s)
            elif t.s == 'B':
                r = s.simp_deep_bool(t, timeout, depth)
            else:
                if not has_cond(t):
                    r = t
                else:
                    r = rebuild(t, go)
            memo[t] = r
            return r
        return go(t)

    def simp_trunc(s, t, timeout=400):
        """resolve truncations whose value the hypotheses pin to integer part + constant"""
        for _ in range(12):
            us = [u for u in subterms(t) if u.op in ('trunc', 'ifloor', 'idiv', 'imod') and not any(v.op == 'bv' for v in u.fv)
                  and not any(w.op in ('trunc', 'ifloor', 'idiv', 'imod') for w in subterms(u.a[0]))]
            m = {}
            for u in sorted(us, key=lambda q: q.id):
                x = u.a[0]
                if u.op in ('idiv', 'imod'):
                    y = u.a[1]
                    if isnum(y):
                        continue
                    c0, d = _lin(expand(x))
                    P, r = num(0, 'I'), num(c0, 'I')
                    for w, k in d.items():
                        e = dict(_mono(w))
                        if e.get(y, 0) >= 1:
                            e[y] -= 1
                            P = add(P, scale(_mkmono({f: n for f, n in e.items() if n}, 'I') if any(e.values()) else num(1, 'I'), k))
                        else:
                            r = add(r, scale(w, k))
                    if s.entails(and_(le(num(0, 'I'), r), lt(r, y)), timeout) and s.entails(le(num(0, 'I'), P), timeout):
                        m[u] = P if u.op == 'idiv' else r
                        break
                    continue
                if any(w.op == 'ite' for w in subterms(x)):
                    continue
                c0, d = _lin(x)
                P, r = num(0, 'I'), num(c0, 'R')
                for y, k in d.items():
                    j = as_int(y)
                    if j is not None and isinstance(k, int):
                        P = add(P, scale(j, k))
                    else:
                        r = add(r, scale(y, k))
                for c in (0, 1, -1, 2, -2):
                    if s.entails(and_(le(num(c, 'R'), r), lt(r, num(c + 1, 'R'))), timeout):
                        v = add(P, num(c, 'I'))
                        if u.op == 'ifloor' or s.entails(le(num(0, 'I'), v), timeout):
                            m[u] = v
                        break
                if m:
                    break
            if not m:
                return t
            t = subst(t, m)
            t = s.simp(t)
        return t

    def simp_deep_bool(s, t, timeout, depth):
        if t.op in ('and', 'or', 'not'):
            return rebuild(t, lambda x: s.simp_deep_bool(x, timeout, depth))
        r = s.simp_bool(t, timeout) if t.op not in BINDERS else t
        if r.op == 'bool':
            return r
        if has_cond(t):
            return rebuild(t, lambda x: s.simp(x, timeout, depth + 1))
        return r


_hc = {}


def has_cond(t):
    r = _hc.get(t)
    if r is None:
        r = t.op == 'ite' or t.op in BINDERS or any(has_cond(c) for c in children(t))
        _hc[t] = r
    return r


def find_cond(t, seen=None):
    """a case-split condition occurring outside binders"""
    seen = seen if seen is not None else set()
    if t in seen:
        return None
    seen.add(t)
    if t.op == 'ite':
        for c in atoms(t.a[0]):
            inner = None
            for x in children(c):
                inner = find_cond(x, seen)
                if inner is not None:
                    return inner
            if not any(v.op == 'bv' for v in c.fv):
                return c
    if t.op in BINDERS:
        for x in t.a[1:3]:
            r = find_cond(x, seen)
            if r is not None:
                return r
        # conditions not depending on the bound variable could be split as well
        for c in inner_free_conds(t):
            return c
        return None
    for c in children(t):
        r = find_cond(c, seen)
        if r is not None:
            return r
    return None


def inner_free_conds(t):
    for u in subterms(t.a[3]):
        if u.op == 'ite':
            for c in atoms(u.a[0]):
                if not any(v.op == 'bv' for v in c.fv) and not c.op == 'bool':
                    yield c


def atoms(c):
    if c.op in ('and', 'or'):
        for x in c.a:
            yield from atoms(x)
    elif c.op == 'not':
        yield from atoms(c.a[0])
    else:
        yield c


def subst_atom(t, c, val):
    return subst(t, {c: TRUE if val else FALSE, not_(c): FALSE if val else TRUE})


def eq_subst(c, val):
    """substitution implied by an asserted atom: x == e"""
    if c.op == 'eq0' and val:
        cc, dd = _lin(c.a[0])
        for t, k in dd.items():
            if t.op == 'var' and k in (1, -1) and not any(t in u.fv for u in dd if u is not t):
                rest = {u: l for u, l in dd.items() if u is not t}
                e = _mklin(cc, rest, c.a[0].s)
                e = neg(e) if k == 1 else e
                if t.s == 'I' and e.s == 'R':
                    continue
                return {t: e}
    if c.op == 'eqs' and val:
        a, b = c.a
        if a.op == 'var' and b.op == 'str':
            return {a: b}
        if b.op == 'var' and a.op == 'str':
            return {b: a}
    return {}


class Result:
    def __init__(s, ok, how, detail=''):
        s.ok, s.how, s.detail = ok, how, detail

    def __bool__(s): return s.ok
    def __repr__(s): return '%s(%s) %s' % ('proved' if s.ok else 'FAILED', s.how, s.detail)


class Prover:
    trunc = True

    def __init__(s, timeout=4000, maxsplit=4000, deadline=120):
        s.timeout, s.maxsplit, s.deadline = timeout, maxsplit, deadline

    def prove_eq(s, a, b, hyps=()):
        if a is b:
            STATS['normalise'] += 1
            return Result(True, 'normalise')
        if a.s in 'BSU' or b.s in 'BSU':
            return s.prove(eq(a, b), hyps)
        d = expand(sub(a, b))
        if d.op == 'num':
            if d.a[0] == 0:
                STATS['normalise'] += 1
                return Result(True, 'normalise')
        ctx = Ctx(hyps, s.timeout)
        s.t_end = time.time() + s.deadline
        s.nsplit = 0
        s.used = set()
        r = s._zero(d, ctx, 0)
        return r

    def prove(s, goal, hyps=()):
        if goal is TRUE:
            STATS['normalise'] += 1
            return Result(True, 'normalise')
        if goal.op == 'and':
            how = set()
            for g in goal.a:
                r = s.prove(g, hyps)
                if not r:
                    return r
                how.add(r.how)
            return Result(True, '+'.join(sorted(how)))
        if goal.op == 'eq0':
            return s.prove_eq(goal.a[0], num(0, goal.a[0].s), hyps)
        ctx = Ctx(hyps, s.timeout)
        s.t_end = time.time() + s.deadline
        s.nsplit = 0
        s.used = set()
        return s._bool(goal, ctx)

    def _bool(s, goal, ctx, depth=0):
        if goal is TRUE:
            return Result(True, 'normalise')
        if ctx.entails(goal):
            STATS['z3'] += 1
            return Result(True, 'z3')
        g2 = ctx.simp(goal)
        if g2 is TRUE:
            STATS['z3'] += 1
            return Result(True, 'z3')
        c = find_cond(g2)
        if c is not None and depth < 40 and s.nsplit < s.maxsplit and time.time() < s.t_end:
            s.nsplit += 1
            for val in (True, False):
                lit = c if val else not_(c)
                ctx.push(lit)
                if ctx.inconsistent(1000):
                    ctx.pop()
                    continue
                m = eq_subst(c, val)
                r = s._bool(subst(subst_atom(g2, c, val), m), ctx, depth + 1)
                ctx.pop()
                if not r:
                    return r
            return Result(True, 'split+z3')
        if goal.op == 'or' and depth < 40:
            # assume the negations of all but one disjunct
            pass
        if goal.op in ('le0', 'lt0') or goal.op == 'or':
            sums = [u for u in subterms(goal) if u.op in ('sum', 'maxf', 'minf', 'first', 'prod') and not any(v.op == 'bv' for v in u.fv)]
            m = s.pair(sums, ctx)
            if m:
                return s._bool(subst(goal, m), ctx, depth + 1)
        r = ctx.check(ctx.z.go(not_(g2)), s.timeout * 3)
        if r == z3.unsat:
            STATS['z3'] += 1
            return Result(True, 'z3')
        if cvc5_unsat(ctx, not_(g2), s.timeout * 2):
            STATS['cvc5'] += 1
            return Result(True, 'cvc5')
        return Result(False, str(r), 'goal %s under %s%s' % (show(g2)[:1500], [show(h)[:120] for h in ctx.hyps][-12:], model_of(ctx, not_(g2))))

    def _zero(s, d, ctx, depth):
        d = ctx.simp(d)
        if s.trunc:
            d = ctx.simp_trunc(d)
        d = expand(d)
        if d.op == 'num' and d.a[0] == 0:
            STATS['normalise'] += 1
            return Result(True, 'normalise')
        if time.time() > s.t_end or s.nsplit > s.maxsplit:
            return Result(False, 'budget', show(d)[:1500])
        c = find_cond(d)
        if c is not None and depth < 60:
            s.nsplit += 1
            for val in (True, False):
                lit = c if val else not_(c)
                ctx.push(lit)
                if ctx.inconsistent(1000):
                    ctx.pop()
                    continue
                m = eq_subst(c, val)
                d2 = subst(subst_atom(d, c, val), m)
                if m:
                    for h in list(ctx.hyps):
                        h2 = subst(h, m)
                        if h2 is not h and h2 is not TRUE and h2.op != 'bool':
                            ctx.add(h2)
                r = s._zero(d2, ctx, depth + 1)
                ctx.pop()
                if not r:
                    return r
            return Result(True, 'split')
        sums = [u for u in subterms(d) if u.op in ('sum', 'maxf', 'minf', 'first', 'prod', 'lam', 'lastv') and not any(v.op == 'bv' for v in u.fv)]
        if sums:
            m = s.pair(sums, ctx)
            if m:
                return s._zero(subst(d, m), ctx, depth + 1)
            m = s.peel(sums, ctx)
            if m:
                return s._zero(subst(d, m), ctx, depth + 1)
            d3 = s.merge_sums(d)
            if d3 is not None:
                v, lo, hi, body = d3
                ctx.push(and_(le(lo, v), lt(v, hi)))
                r = s._zero(body, ctx, depth + 1)
                ctx.pop()
                if r:
                    return Result(True, 'sum-merge')
        apps = s.pair_apps(d, ctx)
        if apps:
            return s._zero(subst(d, apps), ctx, depth + 1)
        m = s.forced_eq(d, ctx)
        if m and depth < 60:
            return s._zero(subst(d, m), ctx, depth + 1)
        goal = eq(d, num(0, d.s))
        if goal is FALSE:
            if ctx.inconsistent() or cvc5_unsat(ctx, z3.BoolVal(True), s.timeout):
                return Result(True, 'z3')
            return Result(False, 'refuted', 'difference %s under %s' % (show(d), [show(h)[:100] for h in ctx.hyps][-12:]))
        if ctx.entails(goal, s.timeout):
            STATS['z3'] += 1
            return Result(True, 'z3')
        if cvc5_unsat(ctx, not_(goal), s.timeout):
            STATS['cvc5'] += 1
            return Result(True, 'cvc5')
        return Result(False, 'unknown', 'difference %s under %s%s' % (show(d)[:1500], [show(h)[:120] for h in ctx.hyps][-12:], model_of(ctx, not_(goal))))

    def peel(s, sums, ctx):
        """two sums of the same terms whose ranges end at most 3 apart -> the longer one in terms of the shorter"""
        op = [(t,) + open_binder(t) for t in sums if t.op == 'sum']
        for i, (t1, v1, lo1, hi1, b1) in enumerate(op):
            for t2, v2, lo2, hi2, b2 in op[i + 1:]:
                if t1.s != t2.s or lo1 is not lo2 or subst(b2, {v2: v1}) is not b1:
                    continue
                g = sub(hi2, hi1)
                if g.op != 'num' or not 0 < abs(g.a[0]) <= 3:
                    continue
                tl, th, lo, h, n = (t2, t1, lo1, hi1, int(g.a[0])) if g.a[0] > 0 else (t1, t2, lo1, hi2, -int(g.a[0]))
                if ctx.entails(le(lo, h), 600):
                    r = th
                    for j in range(n):
                        r = add(r, subst(b1, {v1: add(h, num(j, 'I'))}))
                    return {tl: r}
        return None

    def forced_eq(s, d, ctx):
        """integer bounds among the hypotheses that hold with equality -> a substitution"""
        for h in ctx.hyps:
            if h.op != 'le0' or h.a[0].s != 'I' or ('tight', h) in s.used:
                continue
            s.used.add(('tight', h))
            e = h.a[0]
            if not (e.fv & d.fv):
                continue
            if ctx.entails(le(num(0, 'I'), e), 500):
                m = eq_subst(eq(e, num(0, 'I')), True)
                if m and any(v in d.fv for v in m):
                    return m
        return None

    def pair_apps(s, d, ctx):
        """unify uninterpreted applications with provably equal arguments"""
        by = {}
        for u in subterms(d):
            if u.op == 'app' and len(u.a) > 1 and not any(v.op == 'bv' for v in u.fv) or u.op in ('idiv', 'imod', 'ifloor', 'trunc'):
                by.setdefault((u.op, u.a[0] if u.op == 'app' else u.op, len(u.a)), []).append(u)
        n = 0
        for us in by.values():
            us.sort(key=lambda u: u.id)
            for i, x in enumerate(us):
                for y in us[i + 1:]:
                    key = (x, y)
                    if key in s.used:
                        continue
                    s.used.add(key)
                    n += 1
                    if n > 200:
                        return {}
                    ca, cb = children(x), children(y)
                    g = and_(*[eq(p, q) for p, q in zip(ca, cb) if p.s == q.s])
                    if g is FALSE:
                        continue
                    if ctx.entails(g, 500):
                        return {y: x}
        return {}

    def merge_sums(s, d):
        """difference of sums over one common range -> sum of the difference of bodies"""
        c, dd = _lin(d)
        if c != 0:
            return None
        rng = None
        parts = []
        for t, k in dd.items():
            m = dict(_mono(t))
            ss = [x for x in m if x.op == 'sum' and m[x] == 1]
            if not ss:
                return None
            x = ss[0]
            del m[x]
            if rng is None:
                rng = (x.a[1], x.a[2])
                v = fresh('m', 'I')
            if (x.a[1], x.a[2]) != rng:
                return None
            parts.append(scale(mul(tm._mkmono(m, d.s), instantiate(x, v)), k))
        if not parts:
            return None
        return v, rng[0], rng[1], addn(parts, d.s)

    def pair(s, sums, ctx):
        """identify binder terms whose ranges and bodies are provably equal"""
        sums = sorted(sums, key=lambda u: u.id)
        for i, x in enumerate(sums):
            for y in sums[i + 1:]:
                if x.op != y.op or x.s != y.s:
                    continue
                key = (x, y, tuple(h.id for h in ctx.hyps))
                if key in s.used or time.time() > s.t_end:
                    continue
                s.used.add(key)
                # neither contains the other
                if x in subterms(y) or y in subterms(x):
                    continue
                if not (x.a[1] is y.a[1] or ctx.entails(eq(x.a[1], y.a[1]), 500)):
                    continue
                if not (x.a[2] is y.a[2] or ctx.entails(eq(x.a[2], y.a[2]), 500)):
                    continue
                v = fresh('p', 'I')
                bx, by = instantiate(x, v), instantiate(y, v)
                ctx.push(and_(le(x.a[1], v), lt(v, x.a[2])))
                if x.s == 'B' or bx.s == 'B':
                    r = s._bool(eq(bx, by), ctx) if bx.s == 'B' else None
                    if bx.s != 'B':
                        r = s._zero(expand(sub(bx, by)), ctx, 1)
                else:
                    r = s._zero(expand(sub(bx, by)), ctx, 1)
                ctx.pop()
                if r:
                    return {y: x}
        return {}


def model_of(ctx, ng):
    try:
        ctx.solver.push()
        ctx.solver.add(ctx.z.go(ng))
        ctx.flush()
        out = ''
        if ctx.solver.check() == z3.sat:
            m = ctx.solver.model()
            out = ' counterexample {%s}' % ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:1200]
        ctx.solver.pop()
        return out
    except Exception:
        return ''


def cvc5_unsat(ctx, ng, timeout):
    """second opinion on the same SMT-LIB problem"""
    try:
        import cvc5
        sv = z3.Solver()
        ctx.z.go(ng)
        ctx.flush()
        for a in ctx.solver.assertions():
            sv.add(a)
        sv.add(ctx.z.go(ng))
        txt = sv.to_smt2()
        if len(txt) > 200000:
            return False
        t0 = time.time()
        tm_ = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm_) if tm_ else cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setLogic('ALL')
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = ip.getSymbolManager()
        res = None
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            o = str(out).strip()
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        STATS['z3_time'] += time.time() - t0
        return res == 'unsat'
    except Exception:
        return False
