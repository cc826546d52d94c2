"""Hash-consed first-order terms with binders, normalising constructors.

Sorts: 'I' integer, 'R' real, 'B' bool, 'S' string, 'U' opaque.
Linear combinations and monomials are kept in normal form, so that most
equalities between a code value and a specification value are syntactic.
"""
from fractions import Fraction
from functools import lru_cache
import sys
sys.setrecursionlimit(100000)

_TAB = {}
_N = [0]
EXPAND_LIMIT = 48


def _q(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class T:
    __slots__ = ('op', 'a', 's', 'id', 'fv', 'bd', 'ext')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # arithmetic sugar (used by specifications)
    def __add__(self, o): return add(self, lift(o, self.s))
    __radd__ = __add__
    def __sub__(self, o): return sub(self, lift(o, self.s))
    def __rsub__(self, o): return sub(lift(o, self.s), self)
    def __mul__(self, o): return mul(self, lift(o, self.s))
    __rmul__ = __mul__
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return div(self, lift(o, 'R'))
    def __rtruediv__(self, o): return div(lift(o, 'R'), self)
    def __pow__(self, n): return powi(self, n)
    def __lt__(self, o): return lt(self, lift(o, self.s))
    def __le__(self, o): return le(self, lift(o, self.s))
    def __gt__(self, o): return lt(lift(o, self.s), self)
    def __ge__(self, o): return le(lift(o, self.s), self)
    def eq(self, o): return eq(self, lift(o, self.s))
    def ne(self, o): return not_(eq(self, lift(o, self.s)))


def _mk(op, a, s):
    k = (op, a, s)
    t = _TAB.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.a, t.s = op, a, s
    _N[0] += 1
    t.id = _N[0]
    fv = frozenset()
    bd = 0
    _TAB[k] = t
    for c in children(t):
        cf = c.fv
        if op in BINDERS and c is a[3]:
            cf = cf - {_mk('bv', (a[0],), 'I')}
        if cf:
            fv = fv | cf if fv else cf
        if c.bd > bd:
            bd = c.bd
    if op in ('var', 'bv'):
        fv = frozenset((t,))
    elif op in BINDERS:
        bd = max(bd, a[0])
    t.fv, t.bd = fv, bd
    t.ext = None
    return t


# binder ops: a = (level, lo, hi, body...)  with bound variable bv(level), lo <= v < hi
BINDERS = ('sum', 'exists', 'forall', 'maxf', 'minf', 'first', 'prod', 'lam', 'lastv', 'catv')


def children(t):
    op, a = t.op, t.a
    if op in ('num', 'var', 'str', 'bv', 'bool'):
        return ()
    if op == 'lin':
        return tuple(x for x, _ in a[1])
    if op == 'mono':
        return tuple(x for x, _ in a)
    if op == 'app':
        return tuple(a[1:])
    if op in BINDERS:
        return tuple(a[1:])
    return a


def var(name, s):
    return _mk('var', (name,), s)


_fresh = [0]


def fresh(base, s):
    _fresh[0] += 1
    return var('%s!%d' % (base, _fresh[0]), s)


def num(c, s=None):
    if isinstance(c, bool):
        return TRUE if c else FALSE
    if isinstance(c, float):
        if c != c or c in (float('inf'), float('-inf')):
            return app('const_%r' % c, (), 'R')
        f = Fraction(repr(c)) if abs(c) < 1e300 and c != 0 else Fraction(c)
        c = f
        s = s or 'R'
    c = _q(c)
    if s is None:
        s = 'I' if isinstance(c, int) else 'R'
    return _mk('num', (c,), s)


def st(x):
    return _mk('str', (x,), 'S')


def lift(x, s='R'):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, str):
        return st(x)
    if isinstance(x, float):
        return num(x, 'R')
    if isinstance(x, Fraction):
        return num(x, 'R')
    return num(x, s if s in 'IR' else 'I')


TRUE = _mk('bool', (True,), 'B')
FALSE = _mk('bool', (False,), 'B')


def app(f, args, s):
    if f == 'cat':
        return strcat(*args)
    return _mk('app', (f,) + tuple(args), s)


def strcat(*parts):
    """concatenation of strings; choices are lifted out, literals merged"""
    out = []
    for k, p in enumerate(parts):
        if p.op == 'ite':
            return ite(p.a[0], strcat(*out, p.a[1], *parts[k + 1:]), strcat(*out, p.a[2], *parts[k + 1:]))
        for q in (p.a[1:] if p.op == 'app' and p.a[0] == 'cat' else (p,)):
            if q.s != 'S':
                q = app('chr', (q,), 'S')
            if q.op == 'str' and q.a[0] == '':
                continue
            if q.op == 'str' and out and out[-1].op == 'str':
                out[-1] = st(out[-1].a[0] + q.a[0])
            else:
                out.append(q)
    if not out:
        return st('')
    if len(out) == 1:
        return out[0]
    return _mk('app', ('cat',) + tuple(out), 'S')


def isnum(t):
    return t.op == 'num'


def nv(t):
    return t.a[0]


# ---------------------------------------------------------------- arithmetic
def _lin(t):
    """(const, {term: coeff})"""
    if t.op == 'num':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _mklin(c, d, s):
    items = tuple(sorted(((t, _q(k)) for t, k in d.items() if k != 0), key=lambda p: p[0].id))
    c = _q(c)
    if not items:
        return num(c, s)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk('lin', (c, items), s)


def _coerce(a, b):
    if a.s == 'B':
        a = ite(a, num(1, 'I'), num(0, 'I'))
    if b.s == 'B':
        b = ite(b, num(1, 'I'), num(0, 'I'))
    if a.s != b.s:
        if a.s == 'I' and b.s == 'R':
            a = toreal(a)
        elif a.s == 'R' and b.s == 'I':
            b = toreal(b)
    return a, b


def add(a, b):
    a, b = _coerce(a, b)
    if a.op == 'num' and a.a[0] == 0:
        return b
    if b.op == 'num' and b.a[0] == 0:
        return a
    c1, d1 = _lin(a)
    c2, d2 = _lin(b)
    if len(d1) < len(d2):
        d1, d2, = d2, d1
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    return _mklin(c1 + c2, d, a.s)


def addn(ts, s='R'):
    r = num(0, s)
    for t in ts:
        r = add(r, t)
    return r


def scale(t, k):
    if k == 1:
        return t
    if k == 0:
        return num(0, t.s)
    c, d = _lin(t)
    return _mklin(c * k, {x: y * k for x, y in d.items()}, t.s)


def neg(t):
    if t.s == 'B':
        t = ite(t, num(1, 'I'), num(0, 'I'))
    return scale(t, -1)


def sub(a, b):
    a, b = _coerce(a, b)
    return add(a, neg(b))


def _mono(t):
    """t (not num/lin) -> {factor: exp}"""
    if t.op == 'mono':
        return dict(t.a)
    return {t: 1}


def _mkmono(d, s):
    items = tuple(sorted(((t, e) for t, e in d.items() if e != 0), key=lambda p: p[0].id))
    if not items:
        return num(1, s)
    # sqrt(x)^2 -> x
    for t, e in items:
        if t.op == 'app' and t.a[0] == 'sqrt' and abs(e) >= 2:
            k = int(e / 2)
            d2 = dict(d)
            d2[t] = e - 2 * k
            return mul(_mkmono(d2, s), powi(t.a[1], k))
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk('mono', items, s)


def mul(a, b):
    a, b = _coerce(a, b)
    if a.op == 'num':
        return scale(b, a.a[0])
    if b.op == 'num':
        return scale(a, b.a[0])
    la, lb = a.op == 'lin', b.op == 'lin'
    if la and len(a.a[1]) == 1 and a.a[0] == 0:
        t, k = a.a[1][0]
        return scale(mul(t, b), k)
    if lb and len(b.a[1]) == 1 and b.a[0] == 0:
        t, k = b.a[1][0]
        return scale(mul(a, t), k)
    if (la or lb) and not _noexp[0]:
        na = len(a.a[1]) + (a.a[0] != 0) if la else 1
        nb = len(b.a[1]) + (b.a[0] != 0) if lb else 1
        if a.s == 'I' or na * nb <= EXPAND_LIMIT:
            return _expand_mul(a, b)
    # ite pull for {c?x:0} kept as atom
    d = _mono(a)
    for t, e in _mono(b).items():
        d[t] = d.get(t, 0) + e
    return _mkmono(d, a.s)


_noexp = [False]


def _expand_mul(a, b):
    ca, da = _lin(a)
    cb, db = _lin(b)
    c = ca * cb
    acc = {}

    def put(t, k):
        nonlocal c
        cc, dd = _lin(t)
        c += cc * k
        for x, y in dd.items():
            acc[x] = acc.get(x, 0) + y * k
    for x, k in da.items():
        if cb:
            put(x, k * cb)
        for y, l in db.items():
            dm = _mono(x)
            for t, e in _mono(y).items():
                dm[t] = dm.get(t, 0) + e
            put(_mkmono(dm, a.s), k * l)
    if ca:
        for y, l in db.items():
            put(y, l * ca)
    return _mklin(c, acc, a.s)


def inv(t):
    if t.s == 'I':
        t = toreal(t)
    if t.op == 'num':
        if t.a[0] == 0:
            return app('div0', (), 'R')
        return num(Fraction(1) / t.a[0], 'R')
    if t.op == 'lin':
        c, items = t.a
        if c == 0 and len(items) == 1:
            x, k = items[0]
            return scale(inv(x), Fraction(1) / Fraction(k))
        lead = items[0][1]
        if lead != 1:
            return scale(inv(scale(t, Fraction(1) / Fraction(lead))), Fraction(1) / Fraction(lead))
        return _mkmono({t: -1}, 'R')
    return _mkmono({x: -e for x, e in _mono(t).items()}, 'R')


def div(a, b):
    if a.s == 'I':
        a = toreal(a)
    return mul(a, inv(b))


def powi(t, n):
    if isinstance(n, T):
        if n.op == 'num' and isinstance(n.a[0], int):
            n = n.a[0]
        else:
            return app('pow', (t, n), 'R')
    if n == 0:
        return num(1, t.s)
    if n < 0:
        return inv(powi(t, -n))
    if t.op not in ('num', 'lin'):
        return _mkmono({x: e * n for x, e in _mono(t).items()}, t.s)
    r = t
    for _ in range(n - 1):
        r = mul(r, t)
    return r


def toreal(t):
    if t.s == 'R':
        return t
    if t.s == 'B':
        t = ite(t, num(1, 'I'), num(0, 'I'))
    if t.op == 'num':
        return num(t.a[0], 'R')
    if t.op == 'lin':
        r = num(t.a[0], 'R')
        for x, k in t.a[1]:
            r = add(r, scale(toreal(x), k))
        return r
    if t.op == 'mono':
        r = num(1, 'R')
        for x, e in t.a:
            r = mul(r, powi(toreal(x), e))
        return r
    if t.op == 'ite':
        return ite(t.a[0], toreal(t.a[1]), toreal(t.a[2]))
    if t.op == 'sum':
        return _sum_toreal(t)
    return _mk('toreal', (t,), 'R')


def _sum_toreal(t):
    v, lo, hi, body = open_binder(t)
    return sum_(v, lo, hi, toreal(body))


def trunc(t):
    """C cast double->int (toward zero)."""
    if t.s == 'I':
        return t
    if t.op == 'num':
        return num(int(t.a[0]), 'I')
    if t.op == 'toreal':
        return t.a[0]
    if t.op == 'ite':
        return ite(t.a[0], trunc(t.a[1]), trunc(t.a[2]))
    u = as_int(t)
    if u is not None:
        return u
    if t.op == 'app' and t.a[0] == 'floor':
        return _mk('ifloor', (t.a[1],), 'I')
    return _mk('trunc', (t,), 'I')


def as_int(t):
    """integer term equal to the real term t, if evident."""
    if t.s == 'I':
        return t
    if t.op == 'toreal':
        return t.a[0]
    if t.op == 'num':
        return num(t.a[0], 'I') if isinstance(t.a[0], int) else None
    if t.op == 'lin':
        if not isinstance(t.a[0], int):
            return None
        r = num(t.a[0], 'I')
        for x, k in t.a[1]:
            y = as_int(x)
            if y is None or not isinstance(k, int):
                return None
            r = add(r, scale(y, k))
        return r
    if t.op == 'mono':
        r = num(1, 'I')
        for x, e in t.a:
            y = as_int(x)
            if y is None or e < 0:
                return None
            r = mul(r, powi(y, e))
        return r
    if t.op == 'app' and t.a[0] in ('floor', 'ceil'):
        if t.a[0] == 'floor':
            return _mk('ifloor', (t.a[1],), 'I')
        return neg(_mk('ifloor', (neg(t.a[1]),), 'I'))
    if t.op == 'ite':
        x, y = as_int(t.a[1]), as_int(t.a[2])
        if x is None or y is None:
            return None
        return ite(t.a[0], x, y)
    if t.op == 'sum' and _integral(t.a[3]):
        v, lo, hi, body = open_binder(t)
        return sum_(v, lo, hi, as_int(body))
    return None


def _integral(t):
    if t.op == 'num':
        return isinstance(t.a[0], int)
    if t.op == 'ite':
        return _integral(t.a[1]) and _integral(t.a[2])
    return t.op == 'sum' and _integral(t.a[3])


def floor(t):
    if t.s == 'I':
        return toreal(t)
    u = as_int(t)
    if u is not None:
        return toreal(u)
    if t.op == 'num':
        import math
        return num(math.floor(t.a[0]), 'R')
    return toreal(_mk('ifloor', (t,), 'I'))


def idiv(a, b):
    """C integer division (truncation)."""
    if b.op == 'num' and b.a[0] == 1:
        return a
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        x, y = a.a[0], b.a[0]
        q = abs(x) // abs(y)
        return num(q if (x < 0) == (y < 0) else -q, 'I')
    if b.op == 'num' and b.a[0] != 0 and a.op == 'lin' and a.a[0] % b.a[0] == 0 and all(k % b.a[0] == 0 for _, k in a.a[1]):
        return _mklin(a.a[0] // b.a[0], {t: k // b.a[0] for t, k in a.a[1]}, 'I')
    if b.op == 'num' and b.a[0] == 2:
        h = _half(a)
        if h is not None:
            return h
    return _mk('idiv', (a, b), 'I')


def _half(a):
    """a/2 for a polynomial that is even at all integers (monomials with the same variables agree mod 2, and their coefficients sum to an even number), else None"""
    if a.op != 'lin' or a.s != 'I' or a.a[0] % 2:
        return None
    g = {}
    for m, k in a.a[1]:
        if not isinstance(k, int):
            return None
        at = [x for x, e in m.a] if m.op == 'mono' else [m]
        if m.op == 'mono' and not all(isinstance(e, int) and e > 0 and x.s == 'I' for x, e in m.a):
            return None
        g.setdefault(tuple(sorted(map(id, at))), (at, []))[1].append((m, k))
    if any(sum(k for _, k in ms) % 2 for _, ms in g.values()):
        return None
    r = num(a.a[0] // 2, 'I')
    for at, ms in g.values():
        base = num(1, 'I')
        for x in at:
            base = mul(base, x)
        r = add(r, mul(num(sum(k for _, k in ms) // 2, 'I'), base))
        for m, k in ms:
            if m is not base:
                r = add(r, mul(num(k, 'I'), _mk('idiv', (sub(m, base), num(2, 'I')), 'I')))
    return r


def imod(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        x, y = a.a[0], b.a[0]
        r = abs(x) % abs(y)
        return num(r if x >= 0 else -r, 'I')
    if b.op == 'num' and abs(b.a[0]) == 1:
        return num(0, 'I')
    return _mk('imod', (a, b), 'I')


# ---------------------------------------------------------------- booleans
def _lead(d):
    if d.op == 'lin':
        return d.a[1][0][1]
    return 1


def le(a, b):
    a, b = _coerce(a, b)
    return _le0(sub(a, b))


def lt(a, b):
    a, b = _coerce(a, b)
    d = sub(a, b)
    if d.s == 'I':
        return _le0(add(d, num(1, 'I')))
    if d.op == 'num':
        return TRUE if d.a[0] < 0 else FALSE
    k = abs(_lead(d))
    if k != 1:
        d = scale(d, Fraction(1) / Fraction(k))
    u = as_int(d)
    if u is not None:
        return _le0(add(u, num(1, 'I')))
    return _mk('lt0', (d,), 'B')


def _le0(d):
    if d.op == 'num':
        return TRUE if d.a[0] <= 0 else FALSE
    if d.s == 'R':
        k = abs(_lead(d))
        if k != 1:
            d = scale(d, Fraction(1) / Fraction(k))
        u = as_int(d)
        if u is not None:
            return _le0(u)
    else:
        if d.op == 'lin':
            from math import gcd
            g = 0
            for _, k in d.a[1]:
                g = gcd(g, abs(k))
            if g > 1:
                c = d.a[0]
                # sum g*x + c <= 0  <=> sum x <= floor(-c/g)
                d = _mklin(-((-c) // g), {x: k // g for x, k in d.a[1]}, 'I')
                if d.op == 'num':
                    return TRUE if d.a[0] <= 0 else FALSE
    c = _sign_facts(d)
    return _mk('le0', (d,), 'B') if c is None else c


_cnt = {}


def counts(t):
    """a sum whose terms are structurally never negative"""
    r = _cnt.get(t)
    if r is None:
        r = _cnt[t] = t.op == 'sum' and _nonneg(t.a[3])
    return r


def _nonneg(t):
    if t.op == 'num':
        return t.a[0] >= 0
    if t.op == 'ite':
        return _nonneg(t.a[1]) and _nonneg(t.a[2])
    if t.op == 'sum':
        return counts(t)
    if t.op == 'lin':
        return t.a[0] >= 0 and all(k > 0 and _nonneg(x) for x, k in t.a[1])
    return False


def _sign_facts(d):
    """d <= 0 where d is a count: a count is positive exactly if it is not zero"""
    if d.op == 'sum':
        return eq(d, num(0, d.s)) if counts(d) else None
    if d.op == 'lin' and all(counts(x) for x, _ in d.a[1]):
        c, ks = d.a[0], [k for _, k in d.a[1]]
        if c > 0 and all(k > 0 for k in ks):
            return FALSE
        if c <= 0 and all(k < 0 for k in ks):
            return TRUE
        if d.s == 'I' and c == 1 and len(ks) == 1 and ks[0] == -1:
            return not_(eq(d.a[1][0][0], num(0, 'I')))
    return None


def _could_be(parts, text):
    """whether a concatenation may spell a given text: its literal parts occur there in order"""
    i = 0
    for k, p in enumerate(parts):
        if p.op != 'str':
            continue
        t = p.a[0]
        if k == 0:
            if not text.startswith(t):
                return False
            i = len(t)
        elif k == len(parts) - 1:
            return len(text) - len(t) >= i and text.endswith(t)
        else:
            j = text.find(t, i)
            if j < 0:
                return False
            i = j + len(t)
    return True


def eq(a, b):
    if a is b:
        return TRUE
    if a.s == 'S' or b.s == 'S' or a.s == 'U':
        if a.op == 'str' and b.op == 'str':
            return FALSE
        if a.op == 'ite':
            return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
        if b.op == 'ite':
            return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
        if a.op == 'str':
            a, b = b, a
        if b.op == 'str' and a.op == 'app' and a.a[0] == 'cat' and not _could_be(a.a[1:], b.a[0]):
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return _mk('eqs', (a, b), 'B')
    if a.s == 'B' and b.s == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = _coerce(a, b)
    if a.op == 'ite' and b.op == 'num' and (a.a[1].op == 'num' or a.a[2].op == 'num'):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    d = sub(a, b)
    if d.op == 'num':
        return TRUE if d.a[0] == 0 else FALSE
    if d.op == 'lin':
        k = d.a[1][0][1]
        if d.s == 'R' and k != 1:
            d = scale(d, Fraction(1) / Fraction(k))
        elif d.s == 'I':
            from math import gcd
            g = 0
            for _, kk in d.a[1]:
                g = gcd(g, abs(kk))
            if k < 0:
                g = -g
            if g != 1:
                if d.a[0] % abs(g):
                    return FALSE
                d = _mklin(d.a[0] // g, {x: kk // g for x, kk in d.a[1]}, 'I')
    if d.s == 'R':
        u = as_int(d)
        if u is not None:
            return _mk('eq0', (u,), 'B') if u.op != 'num' else (TRUE if u.a[0] == 0 else FALSE)
        if d.op == 'lin' and not all(isinstance(k, int) for _, k in d.a[1]):
            pass
    return _mk('eq0', (d,), 'B')


def ne(a, b):
    return not_(eq(a, b))


_nots, _ands, _ors = {}, {}, {}


def not_(t):
    r = _nots.get(t)
    if r is None:
        r = _nots[t] = _not(t)
    return r


def _not(t):
    if t.op == 'bool':
        return FALSE if t.a[0] else TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'lt0':
        return _le0(neg(t.a[0]))
    if t.op == 'le0':
        d = t.a[0]
        if d.s == 'I':
            return _le0(sub(num(1, 'I'), d))
        return lt(neg(d), num(0, 'R'))
    if t.op == 'and':
        return or_(*[not_(x) for x in t.a])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.a])
    if t.op == 'exists':
        v, lo, hi, b = open_binder(t)
        return binder('forall', v, lo, hi, not_(b))
    if t.op == 'forall':
        v, lo, hi, b = open_binder(t)
        return binder('exists', v, lo, hi, not_(b))
    return _mk('not', (t,), 'B')


def _norm_bool(t):
    if t.s == 'B':
        return t
    return ne(t, num(0, t.s))


def and_(*ts):
    r = _ands.get(ts)
    if r is None:
        r = _ands[ts] = _and(*ts)
    return r


def _and(*ts):
    out = {}
    for t in ts:
        for x in (t.a if t.op == 'and' else (t,)):
            if x is FALSE:
                return FALSE
            if x is TRUE:
                continue
            out[x] = 1
    for x in out:
        if not_(x) in out:
            return FALSE
    # absorption: x and (x or y) -> x ; x and (not x or y) -> x and y
    again = False
    for x in list(out):
        if x.op == 'or':
            if any(y in out for y in x.a):
                del out[x]
            else:
                r = tuple(y for y in x.a if not_(y) not in out)
                if len(r) < len(x.a):
                    del out[x]
                    out[or_(*r)] = 1
                    again = True
    if again:
        return and_(*out)
    xs = sorted(out, key=lambda x: x.id)
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return _mk('and', tuple(xs), 'B')


def or_(*ts):
    r = _ors.get(ts)
    if r is None:
        r = _ors[ts] = _or(*ts)
    return r


def _or(*ts):
    out = {}
    for t in ts:
        for x in (t.a if t.op == 'or' else (t,)):
            if x is TRUE:
                return TRUE
            if x is FALSE:
                continue
            out[x] = 1
    for x in out:
        if not_(x) in out:
            return TRUE
    again = False
    for x in list(out):
        if x.op == 'and':
            if any(y in out for y in x.a):
                del out[x]
            else:
                r = tuple(y for y in x.a if not_(y) not in out)
                if len(r) < len(x.a):
                    del out[x]
                    out[and_(*r)] = 1
                    again = True
    if again:
        return or_(*out)
    # (p & q) | (p & !q)
    xs = sorted(out, key=lambda x: x.id)
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    if len(xs) == 2 and all(x.op == 'and' for x in xs):
        s0, s1 = set(xs[0].a), set(xs[1].a)
        d0, d1 = s0 - s1, s1 - s0
        if len(d0) == 1 and len(d1) == 1 and not_(next(iter(d0))) is next(iter(d1)):
            return and_(*(s0 & s1))
    return _mk('or', tuple(xs), 'B')


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.s != b.s:
        if {a.s, b.s} <= {'I', 'R', 'B'}:
            if 'R' in (a.s, b.s):
                a, b = toreal(a), toreal(b)
            else:
                a, b = _coerce(a, b)
        else:
            raise TypeError('ite sorts %s %s' % (a.s, b.s))
    if a.s == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    nc = not_(c)
    if nc.id < c.id:
        c, nc = nc, c
        a, b = b, a
    if a.op == 'ite':
        if a.a[0] is c:
            a = a.a[1]
        elif a.a[0] is nc:
            a = a.a[2]
    if b.op == 'ite':
        if b.a[0] is c:
            b = b.a[2]
        elif b.a[0] is nc:
            b = b.a[1]
    if a is b:
        return a
    if b.op == 'ite' and b.a[1] is a:
        return ite(or_(c, b.a[0]), a, b.a[2])
    if b.op == 'ite' and b.a[2] is a:
        return ite(or_(c, not_(b.a[0])), a, b.a[1])
    if a.op == 'ite' and a.a[2] is b:
        return ite(and_(c, a.a[0]), a.a[1], b)
    if a.op == 'ite' and a.a[1] is b:
        return ite(and_(c, not_(a.a[0])), a.a[2], b)
    # common additive part: x + ite(c, d, 0)
    if a.s in 'IR' and (a.op == 'lin' or b.op == 'lin'):
        ca, da = _lin(a)
        cb, db = _lin(b)
        com = {t: k for t, k in da.items() if db.get(t) == k}
        if com:
            base = _mklin(0, com, a.s)
            ra = _mklin(ca, {t: k for t, k in da.items() if t not in com}, a.s)
            rb = _mklin(cb, {t: k for t, k in db.items() if t not in com}, a.s)
            return add(base, ite(c, ra, rb))
        if a.op == 'lin' and b.op == 'num' and b.a[0] == 0 and len(da) == 1 and ca == 0:
            (t, k), = da.items()
            if k != 1:
                return scale(ite(c, t, num(0, a.s)), k)
        if b.op == 'lin' and a.op == 'num' and a.a[0] == 0 and len(db) == 1 and cb == 0:
            (t, k), = db.items()
            if k != 1:
                return scale(ite(c, num(0, a.s), t), k)
    return _mk('ite', (c, a, b), a.s)


# ---------------------------------------------------------------- binders
def binder(op, v, lo, hi, body, s=None):
    """v: var term of sort I, bound over lo <= v < hi."""
    if op == 'sum':
        return sum_(v, lo, hi, body)
    if op in ('exists', 'forall'):
        if v not in body.fv:
            if body is FALSE and op == 'exists':
                return FALSE
            if body is TRUE and op == 'forall':
                return TRUE
            return and_(lt(lo, hi), body) if op == 'exists' else or_(le(hi, lo), body)
    return _close(op, v, lo, hi, body, s or body.s)


def _close(op, v, lo, hi, body, s):
    lvl = body.bd + 1
    b = _mk('bv', (lvl,), 'I')
    body2 = subst(body, {v: b})
    # substitution may re-level nothing since b adds no binder depth
    return _mk(op, (lvl, lo, hi, body2), s)


_ovc = {}


def open_binder(t):
    """-> (fresh var, lo, hi, body)"""
    lvl, lo, hi, body = t.a
    v = _ovc.get(t)
    if v is None:
        v = fresh('b', 'I')
        _ovc[t] = v
    return v, lo, hi, subst_bv(body, lvl, v)


def subst_bv(body, lvl, v):
    b = _mk('bv', (lvl,), 'I')
    return subst(body, {b: v})


def instantiate(t, x):
    lvl, lo, hi, body = t.a
    return subst_bv(body, lvl, x)


def _kron_swap(v, lo, hi, body):
    """sum over v of [c] sum over ... of [v = e] x: the sum over v is carried out first (finite sums commute)"""
    c = None
    b = body
    if b.op == 'ite':
        if b.a[2].op == 'num' and b.a[2].a[0] == 0:
            c, b = b.a[0], b.a[1]
        elif b.a[1].op == 'num' and b.a[1].a[0] == 0:
            c, b = not_(b.a[0]), b.a[2]
    if b.op != 'sum' or v not in b.fv:
        return None
    opened = []
    guards = [c] if c is not None else []
    while True:
        if b.op == 'sum':
            v2, l2, h2, b2 = open_binder(b)
            if v in l2.fv or v in h2.fv:
                return None
            opened.append((v2, l2, h2))
            b = b2
        elif b.op == 'ite' and b.a[2].op == 'num' and b.a[2].a[0] == 0:
            guards.append(b.a[0])
            b = b.a[1]
        elif b.op == 'ite' and b.a[1].op == 'num' and b.a[1].a[0] == 0:
            guards.append(not_(b.a[0]))
            b = b.a[2]
        else:
            break
    g = and_(*guards)
    ok = False
    for q in (g.a if g.op == 'and' else (g,)):
        if q.op == 'eq0' and q.a[0].s == 'I':
            _, dd = _lin(q.a[0])
            if dd.get(v) in (1, -1) and not any(v in t.fv for t in dd if t is not v):
                ok = True
    if not ok:
        return None
    r = sum_(v, lo, hi, ite(g, b, num(0, b.s)))
    for v2, l2, h2 in reversed(opened):
        r = sum_(v2, l2, h2, r)
    return r


def sum_(v, lo, hi, body):
    if body.op in ('ite', 'sum') and v in body.fv:
        r = _kron_swap(v, lo, hi, body)
        if r is not None:
            return r
    d = sub(hi, lo)
    if d.op == 'num' and d.a[0] <= 0:
        return num(0, body.s)
    if body.op == 'num' and body.a[0] == 0:
        return body
    if v not in body.fv:
        n = ite(le(lo, hi), d, num(0, 'I'))
        return mul(toreal(n) if body.s == 'R' else n, body)
    if d.op == 'num' and d.a[0] == 1:
        return subst(body, {v: lo})
    if body.op == 'lin':
        c, items = body.a
        r = num(0, body.s)
        for t, k in items:
            r = add(r, scale(sum_(v, lo, hi, t), k))
        if c:
            r = add(r, sum_(v, lo, hi, num(c, body.s)))
        return r
    if body.op == 'mono':
        dep = {t: e for t, e in body.a if v in t.fv}
        ind = {t: e for t, e in body.a if v not in t.fv}
        if ind:
            return mul(_mkmono(ind, body.s), sum_(v, lo, hi, _mkmono(dep, body.s)))
        if body.s == 'R' and any(t.op == 'lin' and e == 1 for t, e in body.a):
            ex = expand(body)
            if ex is not body:
                return sum_(v, lo, hi, ex)
        if any(t.op == 'ite' and e == 1 for t, e in body.a):
            f = [t for t, e in body.a if t.op == 'ite' and e == 1][0]
            rest = {t: e for t, e in body.a if t is not f}
            r = _mkmono(rest, body.s)
            return sum_(v, lo, hi, ite(f.a[0], mul(f.a[1], r), mul(f.a[2], r)))
    if body.op == 'ite':
        c, x, y = body.a
        if v not in c.fv:
            return ite(c, sum_(v, lo, hi, x), sum_(v, lo, hi, y))
        z = num(0, body.s)
        if x is not z and y is not z:
            return add(sum_(v, lo, hi, ite(c, x, z)), sum_(v, lo, hi, ite(not_(c), y, z)))
        # normal: guard positive form (c, x, 0); pull common numeric / independent factors
        if x is z:
            c, x = not_(c), y
        if x.op == 'lin' and (len(x.a[1]) > 1 or x.a[0] != 0):
            r = num(0, body.s)
            for t, k in x.a[1]:
                r = add(r, scale(sum_(v, lo, hi, ite(c, t, z)), k))
            if x.a[0]:
                r = add(r, sum_(v, lo, hi, ite(c, num(x.a[0], body.s), z)))
            return r
        if x.op == 'lin':
            return scale(sum_(v, lo, hi, ite(c, x.a[1][0][0], z)), x.a[1][0][1])
        if x.op == 'num' and x.a[0] != 1:
            return scale(sum_(v, lo, hi, ite(c, num(1, body.s), z)), x.a[0])
        if x.op == 'mono' or (x.op != 'num' and v not in x.fv):
            m = _mono(x)
            ind = {t: e for t, e in m.items() if v not in t.fv}
            if ind:
                dep = {t: e for t, e in m.items() if v in t.fv}
                return mul(_mkmono(ind, body.s), sum_(v, lo, hi, ite(c, _mkmono(dep, body.s), z)))
        # guard conjuncts independent of v are pulled out
        if c.op == 'and':
            ind = [q for q in c.a if v not in q.fv]
            if ind:
                dep = [q for q in c.a if v in q.fv]
                return ite(and_(*ind), sum_(v, lo, hi, ite(and_(*dep), x, z)), z)
        # all but an end of the range
        if c.op == 'not' and c.a[0].op == 'eq0' and c.a[0].a[0].s == 'I':
            cc, dd = _lin(c.a[0].a[0])
            if dd.get(v) in (1, -1) and not any(v in t.fv for t in dd if t is not v):
                k = dd.pop(v)
                e = _mklin(cc, dd, 'I')
                e = neg(e) if k == 1 else e
                if e is sub(hi, num(1, 'I')):
                    return sum_(v, lo, e, x)
                if e is lo:
                    return sum_(v, add(lo, num(1, 'I')), hi, x)
        if c.op == 'and' or c.op == 'eq0':
            # kronecker delta: v == e with e independent of v
            for q in (c.a if c.op == 'and' else (c,)):
                if q.op == 'eq0' and q.a[0].s == 'I':
                    cc, dd = _lin(q.a[0])
                    if dd.get(v) in (1, -1) and not any(v in t.fv for t in dd if t is not v):
                        k = dd.pop(v)
                        e = _mklin(cc, dd, 'I')
                        e = neg(e) if k == 1 else e
                        return ite(and_(le(lo, e), lt(e, hi), subst(c, {v: e})), subst(x, {v: e}), z)
    # swap nested independent sums into canonical order
    if body.op == 'sum':
        v2, lo2, hi2, b2 = open_binder(body)
        if v not in lo2.fv and v not in hi2.fv:
            key1 = (lo.id, hi.id)
            key2 = (lo2.id, hi2.id)
            if key1 > key2:
                return sum_(v2, lo2, hi2, sum_(v, lo, hi, b2))
            if key1 == key2:
                c1 = _close('sum', v, lo, hi, body, body.s)
                inner = sum_(v, lo, hi, b2)
                if inner.op == 'sum':
                    c2 = _close('sum', v2, lo2, hi2, inner, body.s)
                    return c1 if c1.id < c2.id else c2
                return c1
    c1 = _close('sum', v, lo, hi, body, body.s)
    t = add(lo, hi)
    if t.op == 'num' and t.a[0] == 1:
        # a range symmetric about zero: the reflected sum is the same sum
        c2 = _close('sum', v, lo, hi, subst(body, {v: neg(v)}), body.s)
        return c1 if c1.id < c2.id else c2
    return c1


# ---------------------------------------------------------------- substitution
def subst(t, m):
    if not m:
        return t
    keys = frozenset(m)
    memo = {}
    only_vars = all(k.op in ('var', 'bv') for k in keys)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in keys:
            r = m[t]
        elif only_vars and not (t.fv & keys):
            r = t
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


def rebuild(t, go):
    op, a = t.op, t.a
    if op in ('num', 'var', 'str', 'bv', 'bool'):
        return t
    if op == 'lin':
        new = [(go(x), k) for x, k in a[1]]
        if all(n is o for (n, _), (o, _) in zip(new, a[1])):
            return t
        r = num(a[0], t.s)
        for x, k in new:
            if x.s != t.s:
                x = toreal(x)
            r = add(r, scale(x, k))
        return r
    if op == 'mono':
        new = [(go(x), e) for x, e in a]
        if all(n is o for (n, _), (o, _) in zip(new, a)):
            return t
        r = num(1, t.s)
        for x, e in new:
            if x.s != t.s:
                x = toreal(x)
            r = mul(r, powi(x, e))
        return r
    if op in BINDERS:
        lo, hi = go(a[1]), go(a[2])
        v = fresh('b', 'I')
        b0 = subst(a[3], {_mk('bv', (a[0],), 'I'): v})
        body = go(b0)
        if lo is a[1] and hi is a[2] and body is b0:
            return t
        return binder(op, v, lo, hi, body, t.s)
    new = tuple(go(x) if isinstance(x, T) else x for x in a)
    if new == a:
        return t
    return remake(op, new, t.s)


def remake(op, a, s):
    if op == 'ite':
        return ite(*a)
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'not':
        return not_(*a)
    if op == 'le0':
        return _le0(a[0])
    if op == 'lt0':
        return lt(a[0], num(0, a[0].s))
    if op == 'eq0':
        return eq(a[0], num(0, a[0].s))
    if op == 'eqs':
        return eq(*a)
    if op == 'toreal':
        return toreal(a[0])
    if op == 'trunc':
        return trunc(a[0])
    if op == 'ifloor':
        return as_int(floor(a[0]))
    if op == 'idiv':
        return idiv(*a)
    if op == 'imod':
        return imod(*a)
    if op == 'app':
        if a[0] in APP_REMAKE:
            return APP_REMAKE[a[0]](*a[1:])
        return _mk('app', a, s)
    return _mk(op, a, s)


def real_fn(name, v):
    """normal forms of exp, log (positive arguments), sin, cos"""
    if name == 'exp':
        v = expand(v)
        c, d = _lin(v)
        r = num(1, 'R')
        parts = list(d.items())
        if c != 0:
            parts.append((num(1, 'R'), c))
        for f, k in parts:
            k = Fraction(k)
            p, q = k.numerator, k.denominator
            if abs(p) > 1000:
                p, q = 1, None
            if q == 1 and f.op == 'app' and f.a[0] == 'log':
                r = mul(r, powi(f.a[1], p))
            else:
                r = mul(r, powi(_mk('app', ('exp', scale(f, Fraction(1, q)) if q is not None else scale(f, k)), 'R'), p))
        return r
    if name == 'log':
        if v.op == 'num' and v.a[0] == 1:
            return num(0, 'R')
        if v.op == 'app' and v.a[0] == 'exp':
            return v.a[1]
        if v.op == 'mono':
            r = num(0, 'R')
            for f, k in v.a:
                r = add(r, scale(real_fn('log', f), k))
            return r
        if v.op == 'lin' and v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] > 0:
            f, k = v.a[1][0]
            return add(real_fn('log', f), _mk('app', ('log', num(k, 'R')), 'R'))
    if name in ('cos', 'sin'):
        if v.op == 'num' and v.a[0] == 0:
            return num(1 if name == 'cos' else 0, 'R')
        lead = v.a[1][0][1] if v.op == 'lin' else v.a[0] if v.op == 'num' else 1
        if lead < 0:
            r = real_fn(name, neg(v))
            return r if name == 'cos' else neg(r)
    return _mk('app', (name, v), 'R')


APP_REMAKE = {n: (lambda v, n=n: real_fn(n, v)) for n in ('exp', 'log', 'cos', 'sin')}


def powint(x, y):
    """a power with an integer exponent that need not be literal"""
    if y.op == 'num':
        return powi(x, int(y.a[0]))
    if x.op == 'num' and x.a[0] == -1:
        # only the parity of the exponent matters
        if y.op == 'ite':
            return ite(y.a[0], powint(x, y.a[1]), powint(x, y.a[2]))
        c, d = _lin(y)
        if all(Fraction(k).denominator == 1 for k in list(d.values()) + [c]):
            y = addn([f for f, k in d.items() if k % 2], 'I')
            sg = num(-1 if c % 2 else 1, 'R')
            return sg if y.op == 'num' else mul(sg, _mk('app', ('powi', x, y), 'R'))
    return _mk('app', ('powi', x, y), 'R')


APP_REMAKE['powi'] = powint


def expand(t):
    """fully distribute products over sums (top level)."""
    if t.op == 'lin':
        r = num(t.a[0], t.s)
        acc = {}
        c = t.a[0]
        for x, k in t.a[1]:
            e = expand(x)
            cc, dd = _lin(e)
            c += cc * k
            for y, l in dd.items():
                acc[y] = acc.get(y, 0) + l * k
        return _mklin(c, acc, t.s)
    if t.op == 'mono':
        r = num(1, t.s)
        hit = False
        plain = {}
        for x, e in t.a:
            if x.op == 'lin' and e > 0:
                hit = True
            else:
                plain[x] = e
        if not hit:
            return t
        r = _mkmono(plain, t.s)
        for x, e in t.a:
            if x.op == 'lin' and e > 0:
                ex = expand(x)
                for _ in range(e):
                    if ex.op != 'lin' or r.op == 'num':
                        r = mul(r, ex)
                    else:
                        r = _expand_mul(r, ex)
        return r
    return t


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen[x] = 1
        stack.extend(children(x))
    return seen


def show(t, d=0):
    if d > 14:
        return '..'
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op in ('num', 'var', 'bool'):
        return str(a[0])
    if op == 'str':
        return repr(a[0])
    if op == 'bv':
        return '#%d' % a[0]
    if op == 'lin':
        parts = ([str(a[0])] if a[0] else []) + [(('%s*' % k) if k != 1 else '') + s(x) for x, k in a[1]]
        return '(' + ' + '.join(parts) + ')'
    if op == 'mono':
        return '*'.join(s(x) + ('^%s' % e if e != 1 else '') for x, e in a)
    if op == 'app':
        return '%s(%s)' % (a[0], ','.join(s(x) for x in a[1:]))
    if op in BINDERS:
        return '%s[#%d=%s..%s]{%s}' % (op, a[0], s(a[1]), s(a[2]), s(a[3]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(s(x) for x in a)
    if op == 'le0':
        return '%s<=0' % s(a[0])
    if op == 'lt0':
        return '%s<0' % s(a[0])
    if op == 'eq0':
        return '%s==0' % s(a[0])
    if op == 'eqs':
        return '%s=="%s"' % (s(a[0]), s(a[1]))
    if op == 'toreal':
        return s(a[0])
    return '%s(%s)' % (op, ','.join(s(x) for x in a))
