"""Symbolic execution of the real Python source, for contracts.

The current source of a module is parsed, its loops and comprehensions are wrapped (see
Rewrite: nothing else is touched), and the functions are executed by CPython on symbolic
values: scalars V (terms), arrays Arr (symbolic shape, element function, NumPy view
semantics for basic slices and transposes), lists of symbolic length.  A branch on a
symbolic condition forks the path; every path is explored, none is bounded.  A loop over a
symbolic range is executed once for a generic iteration (effects must be independent
between iterations, otherwise refused) or cut by a loop invariant given with the contract."""
import ast, builtins, math, os, sys, types
from fractions import Fraction
from term import *
from term import T, var, num, app, lift, fresh, powint, real_fn, isnum, nv, _lin, _mklin
from prover import Ctx, Prover

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'triumvirate')
ZI, OI, ZR, OR = num(0, 'I'), num(1, 'I'), num(0, 'R'), num(1, 'R')
PIT = num(Fraction('3.141592653589793'), 'R')


class Unsupported(Exception):
    pass


class PathEnd(BaseException):
    """end of a path that is continued by an assumption (loop invariant)"""


class Skip(BaseException):
    """infeasible path"""


RANK = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
SORT = {'b': 'B', 'i': 'I', 'f': 'R', 'c': 'R'}


# ------------------------------------------------------------------ explorer
class Path:
    def __init__(s):
        s.conds, s.out, s.value, s.obs, s.warnings, s.exc, s.ob_hyps = [], None, None, [], [], None, []

    def __repr__(s): return 'Path(%s %r | %s)' % (s.out, s.exc if s.out == 'exc' else s.value, s.conds)


class Explorer:
    def __init__(s, pre=(), limit=400, timeout=1500):
        s.pre, s.limit, s.timeout = list(pre), limit, timeout
        s.assume_log = []

    def run(s, fn):
        global X
        out, stack = [], [[]]
        dead = {}
        s.ends = set()
        s.must_die = set()
        while stack:
            prefix = stack.pop()
            if len(out) > s.limit:
                raise Unsupported('too many paths')
            X = s
            s.ctx = Ctx(s.pre, s.timeout)
            s.prefix, s.trace, s.pending = prefix, [], []
            s.path = Path()
            s.scopes = []
            s.nfresh = 0
            try:
                s.path.value = fn()
                s.path.out = 'ret'
            except Skip:
                continue
            except PathEnd:
                s.path.out = 'end'
            except (Unsupported, KeyboardInterrupt):
                raise
            except Exception as e:
                s.path.out, s.path.exc = 'exc', e
            finally:
                for p in s.pending:
                    stack.append(p)
            s.path.trace = tuple(s.trace)
            out.append(s.path)
        bad = [m for m in s.must_die if any(q[:len(m)] == m for q in s.ends)]
        if bad:
            raise Unsupported('iterations of a generic loop take different branches')
        return out

    def hyps(s):
        return s.pre + s.path.conds

    def assume(s, c):
        if c is TRUE:
            return
        s.path.conds.append(c)
        s.ctx.add(c)
        if c is FALSE or s.ctx.inconsistent(600):
            raise Skip()

    def oblige(s, name, goal):
        s.path.obs.append((name, goal, s.hyps()))

    def decide(s, c):
        if c.op == 'bool':
            return c is TRUE
        c = s.ctx.simp_bool(c, 800)
        if c.op == 'bool':
            return c is TRUE
        i = len(s.trace)
        if i < len(s.prefix):
            v = s.prefix[i]
        else:
            v = True
            s.pending.append(s.trace + [False])
        s.trace.append(v)
        if s.scopes and any(k in c.fv for k, _ in s.scopes):
            s.must_die.add(tuple(s.trace[:-1] + [not v]))
        s.assume(c if v else not_(c))
        return v

    def fresh(s, base, sort):
        s.nfresh += 1
        return var('%s!%d' % (base, s.nfresh), sort)


X = None


def cur():
    return X


# ------------------------------------------------------------------ scalars
def tt(x, k='i'):
    """term of a scalar"""
    if isinstance(x, V):
        if x.im is not None:
            raise Unsupported('complex where a real number is needed')
        return x.re
    if isinstance(x, T):
        return x
    return lit(x).re


def sp_simplify(x):
    import sympy
    return sympy.nsimplify(sympy.simplify(x))


def lit(x):
    if isinstance(x, V):
        return x
    if isinstance(x, T):
        return V(x, None, {'B': 'b', 'I': 'i', 'R': 'f'}[x.s])
    if isinstance(x, (bool,)) or type(x).__name__ in ('bool', 'bool_'):
        return V(TRUE if x else FALSE, None, 'b')
    if isinstance(x, int):
        return V(num(x, 'I'), None, 'i')
    if isinstance(x, Fraction):
        return V(num(x, 'R'), None, 'f')
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return V(var('nan' if x != x else 'inf' if x > 0 else '-inf', 'R'), None, 'f')
        return V(PIT if x == math.pi else num(Fraction(repr(float(x))), 'R'), None, 'f')
    if isinstance(x, complex):
        return V(num(Fraction(repr(x.real)), 'R'), num(Fraction(repr(x.imag)), 'R'), 'c')
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return lit(x.item())
    if type(x).__module__.startswith('sympy'):
        if x.is_Rational:
            return V(num(Fraction(int(x.p), int(x.q)), 'R'), None, 'f')
        sq = sp_simplify(x ** 2)
        if sq.is_Rational and x.is_real:
            r = sqrt_t(num(Fraction(int(sq.p), int(sq.q)), 'R'))
            return V(neg(r) if x.is_negative else r, None, 'f')
        return V(var('sympy:' + str(x), 'R'), None, 'f')
    if isinstance(x, Arr) and x.ndim == 0:
        return x.get(())
    raise Unsupported('not a scalar: %r' % (x,))


def isscalar(x):
    return isinstance(x, (V, int, float, complex, Fraction)) or type(x).__name__ in ('float64', 'int64', 'complex128', 'bool_') or type(x).__module__.startswith('sympy')


def real(v):
    """real-sorted term"""
    return toreal(v.re) if v.k == 'i' else ite(v.re, OR, ZR) if v.k == 'b' else v.re


def intt(v):
    return ite(v.re, OI, ZI) if v.k == 'b' else v.re


def imag(v):
    return v.im if v.im is not None else ZR


class V:
    __slots__ = ('re', 'im', 'k')

    def __init__(s, re, im=None, k=None):
        s.re, s.im, s.k = re, im, k or {'B': 'b', 'I': 'i', 'R': 'f'}[re.s]
        if s.im is not None and k == 'c' and False:
            pass

    def __repr__(s): return '%s%s' % (show(s.re), '' if s.im is None else '+i*' + show(s.im))
    def __format__(s, f): return '⟦%r|%s⟧' % (s, f) if f else repr(s)
    def __hash__(s): return hash((s.re, s.im))
    def __copy__(s): return s
    def __deepcopy__(s, memo): return s

    def __bool__(s):
        if s.k == 'b':
            return X.decide(s.re)
        if s.im is not None:
            return X.decide(not_(and_(eq(s.re, ZR), eq(s.im, ZR))))
        return X.decide(not_(eq(s.re, num(0, s.re.s))))

    def __index__(s):
        if s.k == 'i':
            t = X.ctx.simp(s.re) if not isnum(s.re) else s.re
            if isnum(t):
                return int(nv(t))
        raise Unsupported('symbolic number used where the interpreter needs a concrete one: %r' % (s,))

    def __int__(s): return s.__index__()

    def __float__(s):
        if isnum(s.re) and s.im is None:
            return float(nv(s.re))
        raise Unsupported('symbolic number used as a concrete float')

    def item(s): return s

    @property
    def real(s): return V(real(s), None, 'f')
    @property
    def imag(s): return V(imag(s), None, 'f')
    def conjugate(s): return V(s.re, neg(s.im), 'c') if s.im is not None else s
    conj = conjugate
    def copy(s): return s
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(s): return DT[s.k]

    def astype(s, d): return cast(s, kind_of(d))

    def _bin(s, o, f, swap=False):
        if isinstance(o, (Arr, SymList, VList, Column)):
            return NotImplemented
        try:
            o = lit(o)
        except Unsupported:
            return NotImplemented
        return f(o, s) if swap else f(s, o)

    def __add__(s, o): return s._bin(o, v_add)
    def __radd__(s, o): return s._bin(o, v_add, True)
    def __sub__(s, o): return s._bin(o, v_sub)
    def __rsub__(s, o): return s._bin(o, v_sub, True)
    def __mul__(s, o): return s._bin(o, v_mul)
    def __rmul__(s, o): return s._bin(o, v_mul, True)
    def __truediv__(s, o): return s._bin(o, v_div)
    def __rtruediv__(s, o): return s._bin(o, v_div, True)
    def __floordiv__(s, o): return s._bin(o, v_fdiv)
    def __rfloordiv__(s, o): return s._bin(o, v_fdiv, True)
    def __mod__(s, o): return s._bin(o, v_mod)
    def __rmod__(s, o): return s._bin(o, v_mod, True)
    def __pow__(s, o): return s._bin(o, v_pow)
    def __rpow__(s, o): return s._bin(o, v_pow, True)
    def __neg__(s): return v_neg(s)
    def __pos__(s): return s
    def __abs__(s): return v_abs(s)
    def __eq__(s, o): return _cmp(s, o, v_eq, False)
    def __ne__(s, o): return _cmp(s, o, v_ne, True)
    def __lt__(s, o): return s._bin(o, v_lt)
    def __le__(s, o): return s._bin(o, v_le)
    def __gt__(s, o): return s._bin(o, lambda a, b: v_lt(b, a))
    def __ge__(s, o): return s._bin(o, lambda a, b: v_le(b, a))
    def __and__(s, o): return s._bin(o, v_and)
    def __rand__(s, o): return s._bin(o, v_and)
    def __or__(s, o): return s._bin(o, v_or)
    def __ror__(s, o): return s._bin(o, v_or)
    def __invert__(s): return v_not(s)


def _cmp(a, o, f, other):
    if o is None or isinstance(o, str):
        return other
    return a._bin(o, f)


def B(t): return V(t, None, 'b')
def Iv(t): return V(t if isinstance(t, T) else num(t, 'I'), None, 'i')
def Rv(t): return V(t if isinstance(t, T) else num(Fraction(t), 'R'), None, 'f')


def cast(v, k):
    if v.k == k:
        return v
    if k == 'c':
        return V(real(v), imag(v), 'c')
    if k == 'f':
        return V(real(v), None, 'f')
    if k == 'i':
        return V(intt(v) if v.k == 'b' else trunc(v.re), None, 'i')
    return V(not_(eq(v.re, num(0, v.re.s))), None, 'b')


def _pair(a, b):
    k = a.k if RANK[a.k] >= RANK[b.k] else b.k
    return k


def v_add(a, b):
    k = _pair(a, b)
    if k == 'c':
        return V(real(a) + real(b), imag(a) + imag(b), 'c')
    if k == 'f':
        return V(real(a) + real(b), None, 'f')
    return V(intt(a) + intt(b), None, 'i')


def v_neg(a):
    if a.k == 'c':
        return V(neg(a.re), neg(imag(a)), 'c')
    return V(neg(intt(a) if a.k in 'bi' else a.re), None, 'i' if a.k == 'b' else a.k)


def v_sub(a, b): return v_add(a, v_neg(b))


def v_mul(a, b):
    k = _pair(a, b)
    if k == 'c':
        ar, ai, br, bi = real(a), imag(a), real(b), imag(b)
        return V(ar * br - ai * bi, ar * bi + ai * br, 'c')
    if k == 'f':
        return V(real(a) * real(b), None, 'f')
    return V(intt(a) * intt(b), None, 'i')


def v_div(a, b):
    if a.k == 'c' or b.k == 'c':
        br, bi = real(b), imag(b)
        if bi is ZR or (isnum(bi) and nv(bi) == 0):
            return V(div(real(a), br), div(imag(a), br), 'c')
        d = br * br + bi * bi
        n = v_mul(a, V(br, neg(bi), 'c'))
        return V(div(n.re, d), div(n.im, d), 'c')
    return V(div(real(a), real(b)), None, 'f')


def v_fdiv(a, b):
    if _pair(a, b) in 'bi':
        x, y = intt(a), intt(b)
        if isnum(x) and isnum(y):
            return Iv(num(int(nv(x)) // int(nv(y)), 'I'))
        if X.ctx.entails(and_(le(ZI, x), lt(ZI, y)), 800):
            return Iv(idiv(x, y))
        return Iv(floor(div(toreal(x), toreal(y))))
    return Rv(toreal(floor(div(real(a), real(b)))))


def v_mod(a, b):
    if _pair(a, b) in 'bi':
        q = v_fdiv(a, b)
        return Iv(intt(a) - q.re * intt(b))
    q = floor(div(real(a), real(b)))
    return Rv(real(a) - toreal(q) * real(b))


def v_pow(a, b):
    if b.k in 'bi':
        e = intt(b)
        if isnum(e):
            e = int(nv(e))
            if a.k == 'c':
                r, base = V(OR, ZR, 'c'), a
                for _ in range(builtins.abs(e)):
                    r = v_mul(r, base)
                return r if e >= 0 else v_div(V(OR, ZR, 'c'), r)
            if a.k in 'bi' and e >= 0:
                r = Iv(1)
                for _ in range(e):
                    r = v_mul(r, a)
                return r
            return V(powi(real(a), e), None, 'f')
        if a.k == 'c':
            # powers of the imaginary unit, by the exponent's remainder
            if isnum(a.re) and nv(a.re) == 0 and isnum(a.im) and builtins.abs(nv(a.im)) == 1:
                m = imod(e, num(4, 'I'))
                if e.op == 'lin' and (e.a[0] < 0 or builtins.any(k < 0 for _, k in e.a[1])):
                    m = imod(add(m, num(4, 'I')), num(4, 'I'))      # the remainder has the exponent's sign
                s_ = int(nv(a.im))
                re = ite(eq(m, ZI), OR, ite(eq(m, num(2, 'I')), num(-1, 'R'), ZR))
                im = ite(eq(m, OI), num(s_, 'R'), ite(eq(m, num(3, 'I')), num(-s_, 'R'), ZR))
                return V(re, im, 'c')
            raise Unsupported('complex to a symbolic power')
        return V(powint(real(a), e), None, 'f')
    if a.k == 'c' or b.k == 'c':
        raise Unsupported('complex power')
    if isnum(b.re) and Fraction(nv(b.re)).denominator == 1:
        return V(powi(real(a), int(nv(b.re))), None, 'f')
    return V(real_fn('exp', b.re * real_fn('log', real(a))), None, 'f')


def v_abs(a):
    if a.k == 'c':
        return V(sqrt_t(a.re * a.re + imag(a) * imag(a)), None, 'f')
    z = num(0, a.re.s)
    return V(ite(lt(a.re, z), neg(a.re), a.re), None, a.k)


SQRT_HINTS = []


def sqrt_t(t):
    """the non-negative root; a hinted closed form is used when it is proved to be the root"""
    if isnum(t) and nv(t) >= 0:
        n = Fraction(nv(t))
        a, b = math.isqrt(n.numerator), math.isqrt(n.denominator)
        if a * a == n.numerator and b * b == n.denominator:
            return num(Fraction(a, b), 'R')
    for h in SQRT_HINTS:
        if expand(h * h - t) is ZR or X.ctx.entails(eq(h * h, t), 1500):
            if X.ctx.entails(le(ZR, h), 1500):
                return h
    return app('sqrt', (t,), 'R')


def v_eq(a, b):
    k = _pair(a, b)
    if k == 'c':
        return B(and_(eq(real(a), real(b)), eq(imag(a), imag(b))))
    if a.k == 'b' and b.k == 'b':
        return B(or_(and_(a.re, b.re), and_(not_(a.re), not_(b.re))))
    if k in 'bi':
        return B(eq(intt(a), intt(b)))
    return B(eq(real(a), real(b)))


def v_ne(a, b): return B(not_(v_eq(a, b).re))
def v_not(a): return B(not_(a.re if a.k == 'b' else cast(a, 'b').re))


INF, NINF = var('inf', 'R'), var('-inf', 'R')


def _inf(a, b, same):
    """comparison a < b (a <= b) with an infinity as written in the source; data are finite"""
    if a.re in (INF, NINF) or b.re in (INF, NINF):
        if a.re is b.re:
            return B(TRUE if same else FALSE)
        return B(TRUE if b.re is INF or a.re is NINF else FALSE)
    return None


def v_lt(a, b):
    k = _pair(a, b)
    if k == 'c':
        raise Unsupported('ordering complex numbers')
    r = _inf(a, b, False)
    if r is not None:
        return r
    return B(lt(intt(a), intt(b)) if k in 'bi' else lt(real(a), real(b)))


def v_le(a, b):
    k = _pair(a, b)
    if k == 'c':
        raise Unsupported('ordering complex numbers')
    r = _inf(a, b, True)
    if r is not None:
        return r
    return B(le(intt(a), intt(b)) if k in 'bi' else le(real(a), real(b)))


def v_and(a, b): return B(and_(cast(a, 'b').re, cast(b, 'b').re))
def v_or(a, b): return B(or_(cast(a, 'b').re, cast(b, 'b').re))


def v_ite(c, a, b):
    """c: term"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    k = _pair(a, b)
    a, b = cast(a, k), cast(b, k)
    if k == 'b':
        return B(or_(and_(c, a.re), and_(not_(c), b.re)))
    return V(ite(c, a.re, b.re), ite(c, imag(a), imag(b)) if k == 'c' else None, k)


def v_map1(f):
    return lambda a: f(a)


def v_exp(a):
    if a.k == 'c':
        m = real_fn('exp', a.re)
        return V(m * real_fn('cos', imag(a)), m * real_fn('sin', imag(a)), 'c')
    return Rv(real_fn('exp', real(a)))


def v_log(a): return Rv(real_fn('log', real(a)))
def v_sqrt(a): return Rv(sqrt_t(real(a)))
def v_sign(a): return V(ite(lt(ZR, real(a)), OR, ite(lt(real(a), ZR), num(-1, 'R'), ZR)), None, 'f') if a.k == 'f' else Iv(ite(lt(ZI, intt(a)), OI, ite(lt(intt(a), ZI), num(-1, 'I'), ZI)))
def v_logb(b): return lambda a: Rv(div(real_fn('log', real(a)), real_fn('log', num(b, 'R'))))
def v_floor(a): return Rv(toreal(floor(real(a))))
def v_ceil(a): return Rv(neg(toreal(floor(neg(real(a))))))


def v_max(a, b): return v_ite(v_lt(a, b).re, b, a)
def v_min(a, b): return v_ite(v_lt(b, a).re, b, a)


def value_eq(a, b):
    """equality of two values as a term"""
    return v_eq(lit(a), lit(b)).re


# ------------------------------------------------------------------ arrays
class Buf:
    __slots__ = ('fn', 'shape', 'born')

    def __init__(s, fn, shape):
        s.fn, s.shape = fn, tuple(shape)
        s.born = len(X.scopes) if X is not None and hasattr(X, 'scopes') else 0


class DType:
    def __init__(s, k): s.k = k
    def __eq__(s, o): return isinstance(o, DType) and o.k == s.k or (not isinstance(o, DType) and o is not None and kind_of(o) == s.k)
    def __hash__(s): return hash(s.k)
    def __repr__(s): return 'dtype(%s)' % s.k
    @property
    def kind(s): return s.k
    @property
    def type(s): return {'b': bool, 'i': int, 'f': float, 'c': complex}[s.k]


DT = {k: DType(k) for k in 'bifc'}


def kind_of(d):
    if isinstance(d, DType):
        return d.k
    if isinstance(d, str):
        return {'f': 'f', 'd': 'f', 'c': 'c', 'i': 'i', 'b': 'b'}[d[0]]
    n = getattr(d, '__name__', str(d))
    for p, k in (('complex', 'c'), ('float', 'f'), ('double', 'f'), ('int', 'i'), ('bool', 'b')):
        if p in n:
            return k
    raise Unsupported('dtype %r' % (d,))


def dim(x):
    """a length as an integer term"""
    return tt(lit(x))


def deq(a, b):
    return a is b or (isnum(a) and isnum(b) and nv(a) == nv(b)) or X.ctx.entails(eq(a, b), 1000)


def is1(a): return isnum(a) and nv(a) == 1


class Arr:
    """n-dimensional array: a view onto a buffer"""
    __array_priority__ = 1000

    def __init__(s, buf, vmap, shape, k):
        s.buf, s.vmap, s.shape_, s.k = buf, tuple(vmap), tuple(shape), k

    # constructors
    @staticmethod
    def of(shape, fn, k):
        """fn: index terms -> V"""
        shape = tuple(dim(x) for x in shape)
        return Arr(Buf(fn, shape), [(i, ZI, 1) for i in range(len(shape))], shape, k)

    @staticmethod
    def sym(name, shape, k='f'):
        def fn(ix):
            if k == 'c':
                return V(app(name + '.re[]', ix, 'R'), app(name + '.im[]', ix, 'R'), 'c')
            return V(app(name + '[]', ix, SORT[k]), None, k)
        return Arr.of(shape, fn, k)

    # properties
    @property
    def shape(s): return tuple(conc(d) for d in s.shape_)
    @property
    def ndim(s): return len(s.shape_)
    @property
    def dtype(s): return DT[s.k]
    @property
    def size(s):
        r = OI
        for d in s.shape_:
            r = r * d
        return conc(r)
    @property
    def T(s): return s.transpose()
    @property
    def real(s): return amap(lambda v: v.real, s)
    @property
    def imag(s): return amap(lambda v: v.imag, s)
    @property
    def flat(s): return iter_sym(s.reshape(-1))

    def __len__(s):
        raise Unsupported('len of a symbolic array through the interpreter')

    def __repr__(s): return 'Arr(%s)' % ', '.join(show(d) for d in s.shape_)
    def __format__(s, f): return repr(s)
    __hash__ = None

    def base(s, ix):
        out = []
        for m in s.vmap:
            if m[0] == 'fix':
                out.append(m[1])
            else:
                ax, st_, sp = m
                out.append(st_ + scale(ix[ax], sp))
        return tuple(out)

    def get(s, ix):
        return s.buf.fn(s.base(tuple(ix)))

    def snap(s):
        """element function of the present contents"""
        fn, base = s.buf.fn, s.base
        if X is not None and X.scopes:
            X.note_read(s)
        return lambda ix: fn(base(tuple(ix)))

    def put(s, cond, val, k):
        """write val(ix) wherever cond(ix) holds"""
        if RANK[k] > RANK[s.k]:
            if k == 'c':
                cast_ = lambda v: V(v.re, None, 'f')
            elif s.k == 'i':
                cast_ = lambda v: cast(v, 'i')
            else:
                cast_ = lambda v: cast(v, s.k)
        else:
            cast_ = lambda v: cast(v, s.k)
        old, vmap, shape = s.buf.fn, s.vmap, s.shape_

        def fn(b, old=old):
            ix = [None] * len(shape)
            cs = []
            for m, x in zip(vmap, b):
                if m[0] == 'fix':
                    cs.append(eq(x, m[1]))
                else:
                    ax, st_, sp = m
                    if sp not in (1, -1):
                        raise Unsupported('write through a strided view')
                    i = scale(x - st_, sp)
                    if ix[ax] is None:
                        ix[ax] = i
                    else:
                        cs.append(eq(ix[ax], i))
            for i, d in zip(ix, shape):
                if i is None:
                    raise Unsupported('write through a broadcast view')
                cs += [le(ZI, i), lt(i, d)]
            c = and_(*(cs + [cond(tuple(ix))]))
            if c is FALSE:
                return old(b)
            return v_ite(c, cast_(val(tuple(ix))), old(b))
        if X.scopes and s.buf.born < len(X.scopes):
            X.note_write(s.buf, old)
        s.buf.fn = fn

    # indexing
    def _axes(s, key):
        """-> list of ('i', term) | ('s', start, step, length) | ('n',) | ('a', Arr) per view axis, in result order"""
        if not isinstance(key, tuple):
            key = (key,)
        nn = builtins.sum(1 for q in key if q is not None and q is not Ellipsis)
        if any(q is Ellipsis for q in key):
            i = [q is Ellipsis for q in key].index(True)
            key = key[:i] + (slice(None),) * (s.ndim - nn) + key[i + 1:]
        elif nn < s.ndim:
            key = key + (slice(None),) * (s.ndim - nn)
        if builtins.sum(1 for q in key if q is not None) > s.ndim:
            raise IndexError('too many indices for array')
        out, ax = [], 0
        for q in key:
            if q is None:
                out.append(('n',))
                continue
            n = s.shape_[ax]
            if isinstance(q, slice):
                out.append(('s',) + slice_terms(q, n))
            elif isinstance(q, (Arr, list, VList, SymList)):
                out.append(('a', asarray(q)))
            else:
                i = tt(lit(q))
                out.append(('i', index_term(i, n)))
            ax += 1
        return out

    def __getitem__(s, key):
        if isinstance(key, TriuIdx):
            return key.take(s)
        if isinstance(key, Arr) and key.k == 'b':
            return masked(s, key)
        axes = s._axes(key)
        if any(a[0] == 'a' for a in axes):
            return s._fancy(axes)
        vm = list(s.vmap)
        shape, ax, m = [], 0, {}
        for a in axes:
            if a[0] == 'n':
                shape.append(OI)
                continue
            if a[0] == 'i':
                m[ax] = ('fix', a[1])
            else:
                m[ax] = (len(shape), a[1], a[2])
                shape.append(a[3])
            ax += 1
        new = []
        for q in vm:
            if q[0] == 'fix':
                new.append(q)
                continue
            ax0, st0, sp0 = q
            w = m[ax0]
            if w[0] == 'fix':
                new.append(('fix', st0 + scale(w[1], sp0)))
            else:
                new.append((w[0], st0 + scale(w[1], sp0), sp0 * w[2]))
        r = Arr(s.buf, new, shape, s.k)
        return r if shape else r.snap()(())

    def _fancy(s, axes):
        """one list index (others basic); several list indices are broadcast together"""
        g = s.snap()
        ax = 0
        for i, a in enumerate(axes):
            if a[0] == 'a' and a[1].k == 'b':
                if a[1].ndim != 1:
                    raise Unsupported('mask of several dimensions mixed with other indices')
                if not deq(a[1].shape_[0], s.shape_[ax]):
                    raise IndexError('boolean index did not match')
                axes[i] = ('a', selected(a[1]))
            ax += a[0] != 'n'
        lists = [a[1] for a in axes if a[0] == 'a']
        bsh = lists[0].shape_
        for l in lists[1:]:
            bsh = bshape(bsh, l.shape_)
        getters = [bget(l, bsh) for l in lists]
        pos = [i for i, a in enumerate(axes) if a[0] == 'a']
        contiguous = pos == list(range(pos[0], pos[-1] + 1))
        shape, plan, li, at = [], [], 0, None
        if not contiguous:
            at = 0
            shape += list(bsh)
        for a in axes:
            if a[0] == 'a':
                if at is None:
                    at = len(shape)
                    shape += list(bsh)
                plan.append(('a', li))
                li += 1
            elif a[0] == 'i':
                plan.append(a)
            elif a[0] == 'n':
                shape.append(OI)
            else:
                plan.append(('s', a[1], a[2], len(shape)))
                shape.append(a[3])
        nb = len(bsh)
        sh = s.shape_

        def fn(ix):
            out = []
            for n, p in zip(sh, plan):
                if p[0] == 'a':
                    out.append(wrapneg(tt(getters[p[1]](ix[at:at + nb])), n))
                elif p[0] == 'i':
                    out.append(p[1])
                else:
                    out.append(p[1] + scale(ix[p[3]], p[2]))
            return g(tuple(out))
        return Arr.of(shape, fn, s.k)

    def __setitem__(s, key, val):
        if isinstance(key, TriuIdx):
            return key.write(s, val)
        if isinstance(key, Arr) and key.k == 'b':
            mg, sh = bget(key, s.shape_), s.shape_
            if isscalar(val):
                v = lit(val)
                return s.put(lambda ix: tt(mg(ix)), lambda ix: v, v.k)
            raise Unsupported('masked write of an array')
        if isinstance(key, tuple) and len(key) == 2 and all(isinstance(q, Arr) for q in key) and s.ndim == 2:
            return fancy_write(s, key, val)
        w = s[key] if not s._scalar_key(key) else None
        if w is None:
            axes = s._axes(key)
            tgt = tuple(a[1] for a in axes)
            v = lit(val)
            return s.put(lambda ix: and_(*[eq(x, y) for x, y in zip(ix, tgt)]), lambda ix: v, v.k)
        if w.buf is not s.buf:
            raise Unsupported('write through a fancy index')
        if isscalar(val):
            v = lit(val)
            return w.put(lambda ix: TRUE, lambda ix: v, v.k)
        v = asarray(val)
        g = bget(v, w.shape_)
        w.put(lambda ix: TRUE, lambda ix: g(ix), v.k)

    def _scalar_key(s, key):
        k = key if isinstance(key, tuple) else (key,)
        return len(k) == s.ndim and all(not isinstance(q, (slice, Arr, list)) and q is not None and q is not Ellipsis for q in k)

    def __iter__(s):
        n = s.shape_[0]
        if isnum(n):
            return iter([s[i] for i in range(int(nv(n)))])
        n2 = X.ctx.simp(n)
        if isnum(n2):
            return iter([s[i] for i in range(int(nv(n2)))])
        return generic(n, lambda k: s[Iv(k)], ())

    # arithmetic
    def _op(s, o, f, swap=False, ik=None):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, Column):
            o = o.arr
        return binop(f, o, s) if swap else binop(f, s, o)

    def _iop(s, o, f):
        r = binop(f, s, o)
        if RANK[r.k] > RANK[s.k]:
            raise UFuncTypeError('Cannot cast ufunc output from kind %s to kind %s' % (r.k, s.k))
        if len(r.shape_) != s.ndim or not all(deq(a, b) for a, b in zip(r.shape_, s.shape_)):
            raise ValueError('non-broadcastable output operand')
        g = r.snap()
        s.put(lambda ix: TRUE, g, r.k)
        return s

    def __add__(s, o): return s._op(o, v_add)
    def __radd__(s, o): return s._op(o, v_add, True)
    def __sub__(s, o): return s._op(o, v_sub)
    def __rsub__(s, o): return s._op(o, v_sub, True)
    def __mul__(s, o): return s._op(o, v_mul)
    def __rmul__(s, o): return s._op(o, v_mul, True)
    def __truediv__(s, o): return s._op(o, v_div)
    def __rtruediv__(s, o): return s._op(o, v_div, True)
    def __floordiv__(s, o): return s._op(o, v_fdiv)
    def __mod__(s, o): return s._op(o, v_mod)
    def __pow__(s, o): return s._op(o, v_pow)
    def __rpow__(s, o): return s._op(o, v_pow, True)
    def __iadd__(s, o): return s._iop(o, v_add)
    def __isub__(s, o): return s._iop(o, v_sub)
    def __imul__(s, o): return s._iop(o, v_mul)
    def __itruediv__(s, o): return s._iop(o, v_div)
    def __ipow__(s, o): return s._iop(o, v_pow)
    def __neg__(s): return amap(v_neg, s)
    def __abs__(s): return amap(v_abs, s)
    def __invert__(s): return amap(v_not, s)
    def __eq__(s, o): return False if o is None or isinstance(o, str) else s._op(o, v_eq)
    def __ne__(s, o): return True if o is None or isinstance(o, str) else s._op(o, v_ne)
    def __lt__(s, o): return s._op(o, v_lt)
    def __le__(s, o): return s._op(o, v_le)
    def __gt__(s, o): return s._op(o, lambda a, b: v_lt(b, a))
    def __ge__(s, o): return s._op(o, lambda a, b: v_le(b, a))
    def __and__(s, o): return s._op(o, v_and)
    def __or__(s, o): return s._op(o, v_or)

    def __bool__(s):
        n = 1
        for d in s.shape_:
            if not deq(d, OI):
                raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(s.get(tuple(ZI for _ in s.shape_)))

    # methods
    def transpose(s, *axes):
        if len(axes) == 1 and isinstance(axes[0], tuple):
            axes = axes[0]
        p = list(axes) if axes and axes[0] is not None else list(range(s.ndim))[::-1]
        inv = {a: i for i, a in enumerate(p)}
        return Arr(s.buf, [q if q[0] == 'fix' else (inv[q[0]],) + q[1:] for q in s.vmap], [s.shape_[a] for a in p], s.k)

    def copy(s, order=None):
        g = s.snap()
        return Arr.of(s.shape_, g, s.k)

    def __copy__(s): return s.copy()
    def __deepcopy__(s, memo): return s.copy()

    def astype(s, d, copy=True):
        k = kind_of(d)
        return amap(lambda v: cast(v, k), s, k)

    def sum(s, axis=None): return np_sum(s, axis)
    def mean(s, axis=None): return np_mean(s, axis)
    def min(s): return np_ext(s, 'minf')
    def max(s): return np_ext(s, 'maxf')
    def all(s): return np_all(s)
    def any(s): return np_any(s)
    def conj(s): return amap(lambda v: v.conjugate(), s)
    conjugate = conj
    def flatten(s): return s.reshape(-1).copy()
    def ravel(s): return s.reshape(-1)
    def squeeze(s): return np_squeeze(s)
    def dot(s, o): return np_dot(s, o)
    def __matmul__(s, o): return np_dot(s, o)

    def tolist(s):
        return VList.of(conc(s.shape_[0]), lambda i: s.get((tt(i),)) if s.ndim == 1 else s[i].tolist())

    def reshape(s, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        tot = OI
        for d in s.shape_:
            tot = tot * d
        shape = list(shape)
        neg1 = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1]
        if neg1:
            r = OI
            for i, d in enumerate(shape):
                if i != neg1[0]:
                    r = r * dim(d)
            if is1(r):
                shape[neg1[0]] = Iv(tot)
            else:
                q = idiv(tot, r)
                for cand in s.shape_:
                    if deq(cand * r, tot):
                        q = cand
                shape[neg1[0]] = Iv(q)
        shape = [dim(d) for d in shape]
        new = OI
        for d in shape:
            new = new * d
        if not deq(new, tot):
            if X.decide(not_(eq(new, tot))):
                raise ValueError('cannot reshape array')
        g, sh = s.snap(), s.shape_

        def fn(ix):
            if len(sh) == 1:
                f = ZI
                for i, d in zip(ix, shape):
                    f = f * d + i
                return g((f,))
            if len(ix) == 1 and len(sh) == 2:
                return g((idiv(ix[0], sh[1]), imod(ix[0], sh[1])))
            raise Unsupported('reshape %d -> %d dimensions' % (len(sh), len(ix)))
        return Arr.of(shape, fn, s.k)


class UFuncTypeError(TypeError):
    pass


def conc(t):
    """length: a concrete number when it is one"""
    t = t.re if isinstance(t, V) else t
    return int(nv(t)) if isnum(t) else Iv(t)


def index_term(i, n):
    if isnum(i) and nv(i) < 0:
        i = n + i
    elif not isnum(i) and not X.ctx.entails(le(ZI, i), 600):
        if X.decide(lt(i, ZI)):
            i = n + i
    ok = and_(le(ZI, i), lt(i, n))
    if ok is not TRUE and not X.decide(ok):
        raise IndexError('index out of bounds')
    return i


def wrapneg(i, n):
    if isnum(i):
        return n + i if nv(i) < 0 else i
    if i.op == 'app' and i.a[0] == 'sel':
        return i
    if X.ctx.entails(le(ZI, i), 600):
        return i
    return ite(lt(i, ZI), n + i, i)


def slice_terms(q, n):
    """(start, step, length) of a Python slice over n elements"""
    step = 1 if q.step is None else int(q.step)
    if step == 0 or builtins.abs(step) > 1:
        raise Unsupported('slice step')

    def clip(x, lo, hi):
        if X.decide(lt(x, lo)):
            return lo
        if X.decide(lt(hi, x)):
            return hi
        return x

    def norm(x, lo, hi):
        x = tt(lit(x))
        if isnum(x):
            if nv(x) < 0:
                x = n + x
        elif X.decide(lt(x, ZI)):
            x = n + x
        return clip(x, lo, hi)
    if step == 1:
        a = ZI if q.start is None else norm(q.start, ZI, n)
        b = n if q.stop is None else norm(q.stop, ZI, n)
        ln = b - a
    else:
        a = n - 1 if q.start is None else norm(q.start, num(-1, 'I'), n - 1)
        b = num(-1, 'I') if q.stop is None else norm(q.stop, num(-1, 'I'), n - 1)
        ln = a - b
    if isnum(ln):
        ln = num(max(0, int(nv(ln))), 'I')
    elif not X.ctx.entails(le(ZI, ln), 600) and X.decide(lt(ln, ZI)):
        ln = ZI
    return a, step, ln


def bshape(a, b):
    out = []
    la, lb = list(a)[::-1], list(b)[::-1]
    for i in range(builtins.max(len(la), len(lb))):
        if i >= len(la):
            out.append(lb[i])
        elif i >= len(lb):
            out.append(la[i])
        elif is1(la[i]):
            out.append(lb[i])
        elif is1(lb[i]) or deq(la[i], lb[i]):
            out.append(la[i])
        else:
            if deq(la[i], OI):
                out.append(lb[i])
            elif deq(lb[i], OI):
                out.append(la[i])
            elif X.ctx.entails(not_(eq(la[i], lb[i])), 800) and not X.ctx.entails(or_(eq(la[i], OI), eq(lb[i], OI)), 800):
                raise ValueError('operands could not be broadcast together')
            else:
                if X.decide(eq(la[i], lb[i])):
                    out.append(la[i])
                else:
                    raise ValueError('operands could not be broadcast together')
    return tuple(out[::-1])


def bget(a, shape):
    """element function of a broadcast to shape"""
    g = a.snap()
    off = len(shape) - a.ndim
    if off < 0:
        # leading unit dimensions may be dropped in assignments
        raise ValueError('could not broadcast')
    for d, e in zip(a.shape_, shape[off:]):
        if not is1(d) and not deq(d, e):
            raise ValueError('could not broadcast input array')
    one = [is1(d) and not is1(e) for d, e in zip(a.shape_, shape[off:])]
    return lambda ix: g(tuple(ZI if o else i for o, i in zip(one, ix[off:])))


def binop(f, a, b):
    if isscalar(a):
        a = lit(a)
    if isscalar(b):
        b = lit(b)
    if isinstance(a, V) and isinstance(b, V):
        return f(a, b)
    if isinstance(a, V):
        b = asarray(b)
        g = b.snap()
        return Arr.of(b.shape_, lambda ix: f(a, g(ix)), rk(f, a.k, b.k))
    if isinstance(b, V):
        a = asarray(a)
        g = a.snap()
        return Arr.of(a.shape_, lambda ix: f(g(ix), b), rk(f, a.k, b.k))
    a, b = asarray(a), asarray(b)
    sh = bshape(a.shape_, b.shape_)
    ga, gb = bget(a, sh), bget(b, sh)
    return Arr.of(sh, lambda ix: f(ga(ix), gb(ix)), rk(f, a.k, b.k))


BOOLF = (v_eq, v_ne, v_lt, v_le, v_and, v_or)


def rk(f, a, b):
    """kind of the result"""
    k = a if RANK[a] >= RANK[b] else b
    if f in BOOLF or f.__name__ == '<lambda>':
        return 'b'
    if f is v_div:
        return 'c' if k == 'c' else 'f'
    if f is v_pow:
        return k if k != 'b' else 'i'
    return 'i' if k == 'b' else k


def amap(f, a, k=None):
    if isscalar(a):
        return f(lit(a))
    a = asarray(a)
    g = a.snap()
    if k is None:
        k = {v_not: 'b', v_exp: 'c' if a.k == 'c' else 'f', v_log: 'f', v_sqrt: 'f', v_floor: 'f', v_ceil: 'f', v_sign: a.k,
             v_neg: a.k, v_abs: 'f' if a.k == 'c' else a.k}.get(f)
        if k is None:
            k = 'f' if a.k != 'c' or f.__name__ == '<lambda>' else a.k
            try:
                probe = f(g(tuple(var('probe%d' % i, 'I') for i in range(a.ndim))))
                k = probe.k
            except Unsupported:
                pass
    return Arr.of(a.shape_, lambda ix: f(g(ix)), k)


# ------------------------------------------------------------------ lists
class SymList:
    """sequence of symbolic length; fn: index term -> element"""

    def __init__(s, n, fn): s.n, s.fn = n, fn

    def __getitem__(s, i):
        if isinstance(i, slice):
            a, st_, ln = slice_terms(i, s.n)
            return SymList(ln, lambda k: s.fn(a + scale(k, st_)))
        return s.fn(index_term(tt(lit(i)), s.n))

    def __iter__(s): return generic(s.n, s.fn, ())
    def __repr__(s): return 'SymList(%s)' % show(s.n)

    def __bool__(s): return X.decide(lt(ZI, s.n))


class VList(list):
    """a list written in the source; may become one of symbolic length"""
    __slots__ = ('sl', 'owner')

    def __init__(s, *a):
        super().__init__(*a)
        s.sl = None
        s.owner = len(X.scopes) if X is not None else 0

    @staticmethod
    def of(n, fn):
        if not isinstance(n, V):
            return VList([fn(lit(i)) for i in range(n)])
        r = VList()
        r.sl = SymList(n.re, lambda k: fn(Iv(k)))
        return r

    def append(s, x):
        if X.scopes and s.owner < len(X.scopes):
            return X.note_append(s, x)
        if s.sl is not None:
            n, f = s.sl.n, s.sl.fn
            if isscalar(x):
                x = lit(x)
                s.sl = SymList(n + 1, lambda k: v_ite(eq(k, n), x, lit(f(k))))
                return
            raise Unsupported('append to a list of symbolic length')
        super().append(x)

    def extend(s, it):
        for x in it:
            s.append(x)

    def __getitem__(s, i):
        if s.sl is not None:
            return s.sl[i]
        if isinstance(i, V):
            i = int(i)
        return super().__getitem__(i)

    def __iter__(s):
        return iter(s.sl) if s.sl is not None else super().__iter__()

    def __bool__(s):
        return bool(s.sl) if s.sl is not None else super().__len__() > 0

    def __copy__(s):
        r = VList(super().__iter__())
        r.sl = s.sl
        return r

    def __deepcopy__(s, memo):
        import copy as _c
        r = VList([_c.deepcopy(x, memo) for x in super().__iter__()])
        r.sl = s.sl
        return r


def length(x):
    if isinstance(x, Column):
        x = x.arr
    if isinstance(x, Arr):
        if not x.ndim:
            raise TypeError('len() of unsized object')
        return x.shape[0]
    if isinstance(x, VList) and x.sl is not None:
        return conc(x.sl.n)
    if isinstance(x, SymList):
        return conc(x.n)
    if isinstance(x, SymRange):
        return conc(x.n)
    if hasattr(x, '__symlen__'):
        return x.__symlen__()
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return builtins.len(x)


class SymRange:
    def __init__(s, a, b, st_):
        s.a, s.b, s.st = a, b, st_
        d = scale(b - a, 1 if st_ > 0 else -1)
        if st_ not in (1, -1):
            raise Unsupported('range step')
        if X.ctx.entails(le(ZI, d), 600):
            s.n = d
        else:
            s.n = d if not X.decide(lt(d, ZI)) else ZI

    def __iter__(s):
        return generic(s.n, lambda k: Iv(s.a + scale(k, s.st)), ())

    def __len__(s): raise Unsupported('len of a symbolic range')


def range_(*a):
    a = [x.re if isinstance(x, V) else num(int(x), 'I') for x in a]
    a = [X.ctx.simp(x) if not isnum(x) else x for x in a]
    if all(isnum(x) for x in a):
        return builtins.range(*[int(nv(x)) for x in a])
    if len(a) == 1:
        return SymRange(ZI, a[0], 1)
    return SymRange(a[0], a[1], int(nv(a[2])) if len(a) > 2 else 1)


# ------------------------------------------------------------------ generic iterations
def symlen(it):
    """(length term, element function) of an iterable of symbolic length, or None"""
    if isinstance(it, Column):
        it = it.arr
    if isinstance(it, Arr):
        n = it.shape_[0]
        n = n if isnum(n) else X.ctx.simp(n)
        return None if isnum(n) else (n, lambda k: it[Iv(k)])
    if isinstance(it, VList) and it.sl is not None:
        it = it.sl
    if isinstance(it, SymList):
        return it.n, it.fn
    if isinstance(it, SymRange):
        return it.n, lambda k: Iv(it.a + scale(k, it.st))
    if isinstance(it, SymZip):
        return it.n, it.fn
    return None


class SymZip:
    def __init__(s, n, fn): s.n, s.fn = n, fn
    def __iter__(s): return generic(s.n, s.fn, ())


def enumerate_(it, start=0):
    p = symlen(it)
    if p is None:
        return builtins.enumerate(it, start)
    n, f = p
    return SymZip(n, lambda k: (Iv(k + dim(start)), f(k)))


def zip_(*its, **kw):
    ps = [symlen(i) for i in its]
    if not any(p is not None for p in ps):
        return builtins.zip(*its)
    if not all(p is not None for p in ps):
        raise Unsupported('zip of symbolic and concrete lengths')
    n = ps[0][0]
    for p in ps[1:]:
        if not deq(p[0], n):
            raise Unsupported('zip of different lengths')
    return SymZip(n, lambda k: tuple(p[1](k) for p in ps))


def iter_sym(it): return iter(it)


def generic(n, elem, carried):
    """the generic iteration of a loop over 0 <= k < n"""
    if carried:
        raise Unsupported('loop of symbolic length carries %s between iterations' % (sorted(carried),))
    if X.decide(le(n, ZI)):
        return
    k = X.fresh('k', 'I')
    sc = {'k': k, 'n': n, 'writes': {}, 'appends': {}, 'reads': {}}
    X.scopes.append((k, sc))
    X.assume(and_(le(ZI, k), lt(k, n)))
    ncond = len(X.path.conds)
    yield elem(k)
    if not X.scopes or X.scopes[-1][1] is not sc:
        raise Unsupported('interleaved generic loops')
    X.scopes.pop()
    X.ends.add(tuple(X.trace))
    # the facts about this iteration no longer hold for a named k: keep them as they are (k is one iteration),
    # nothing is concluded from them for others except the effects below
    for buf, old in sc['writes'].values():
        buf.fn = generalise(buf, old, buf.fn, k, n, sc)
    for lst, xs in sc['appends'].values():
        if len(xs) != 1 or builtins.list.__len__(lst) or lst.sl is not None:
            raise Unsupported('several appends per generic iteration')
        x = xs[0]
        lst.sl = SymList(n, lambda j, x=x: vsubst(x, {k: j}))


def _note_write(s, buf, old):
    for k, sc in s.scopes[buf.born:]:
        if id(buf) not in sc['writes']:
            sc['writes'][id(buf)] = (buf, old)


def _note_read(s, a):
    for k, sc in s.scopes:
        sc['reads'].setdefault(id(a.buf), []).append((a.buf, a))


def _note_append(s, lst, x):
    if len(s.scopes) - lst.owner != 1:
        raise Unsupported('append across nested generic loops')
    k, sc = s.scopes[-1]
    sc['appends'].setdefault(id(lst), (lst, []))[1].append(x)


Explorer.note_write, Explorer.note_read, Explorer.note_append = _note_write, _note_read, _note_append


def generalise(buf, old, new, k, n, sc):
    """contents after all iterations, from the contents after the generic one"""
    probe = tuple(X.fresh('p', 'I') for _ in buf.shape)
    r = new(probe)
    o = old(probe)
    # r must be ite(c, val, old) with c fixing k
    conds = []

    def walk(re):
        t = re
        while t.op == 'ite' and k in t.a[0].fv:
            conds.append(t.a[0])
            t = t.a[2]
        return t
    rest = walk(r.re)
    if r.im is not None:
        conds2 = list(conds)
        walk(r.im)
        conds[:] = conds2
    if rest is not (cast(o, r.k).re):
        if k in rest.fv:
            raise Unsupported('generic write not in the form of a guarded update')
    if not conds:
        if k in r.re.fv:
            raise Unsupported('every iteration writes everything')
        return new
    sol = None
    for c in conds:
        e = None
        for q in (c.a if c.op == 'and' else (c,)):
            if q.op == 'eq0' and q.a[0].s == 'I' and k in q.a[0].fv:
                cc, dd = _lin(q.a[0])
                kk = dd.get(k)
                if kk in (1, -1) and not any(k in t.fv for t in dd if t is not k):
                    dd = dict(dd)
                    dd.pop(k)
                    e = _mklin(cc, dd, 'I')
                    e = neg(e) if kk == 1 else e
        if e is None:
            raise Unsupported('generic write index does not determine the iteration')
        if sol is not None and sol is not e:
            raise Unsupported('generic writes to different places')
        sol = e
    # what the iteration reads of the array must be the part it writes itself
    for b_, a in sc['reads'].get(id(buf), ()):
        if not any(m[0] == 'fix' and k in m[1].fv and any(eq(m[1], p) in c_ for p in probe for c_ in [subterms(c) for c in conds]) for m in a.vmap):
            raise Unsupported('a generic iteration reads what other iterations write')

    def fn(b):
        m = dict(zip(probe, b))
        e = subst(sol, m)
        inr = and_(le(ZI, e), lt(e, n))
        v = new(b)
        v = vsubst(v, {k: e})
        return v_ite(inr, v, cast(old(b), v.k))
    return fn


def vsubst(v, m):
    if isinstance(v, V):
        return V(subst(v.re, m), subst(v.im, m) if v.im is not None else None, v.k)
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Arr):
        g = v.snap()

        def fn(ix):
            prot, p2 = {}, []
            for p in ix:
                if p.fv:
                    q = fresh('prot', 'I')
                    prot[q] = p
                    p2.append(q)
                else:
                    p2.append(p)
            return vsubst(vsubst(g(tuple(p2)), m), prot) if prot else vsubst(g(tuple(ix)), m)
        return Arr.of([subst(d, m) for d in v.shape_], fn, v.k)
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    if isinstance(v, slice):
        return slice(vsubst(v.start, m), vsubst(v.stop, m), v.step)
    if isinstance(v, (int, float, complex, str, type(None), Fraction)):
        return v
    if isinstance(v, VList) and v.sl is not None:
        r = VList()
        r.sl = vsubst(v.sl, m)
        return r
    if isinstance(v, SymList):
        return SymList(subst(v.n, m), lambda j: vsubst(v.fn(j), m))
    if isinstance(v, (list,)):
        return VList([vsubst(x, m) for x in v])
    raise Unsupported('generic value %r' % (v,))


class Column:
    """table column: an array that is its own object"""

    def __init__(s, arr): s.arr = arr


# ------------------------------------------------------------------ source rewriting
class Rewrite(ast.NodeTransformer):
    """for / while loops and list comprehensions are wrapped; empty list displays become VList; nothing else changes"""

    def __init__(s, invariants):
        s.inv, s.q, s.n = invariants, [], [{}]

    def _body(s, node, name):
        s.q.append(name)
        s.n.append({'loop': 0})
        s.fn_node = getattr(s, 'fn_node', None)
        save, s.fn_node = s.fn_node, node
        node = s.generic_visit(node)
        s.fn_node = save
        s.q.pop()
        s.n.pop()
        return node

    def visit_FunctionDef(s, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs:
            a.annotation = None
        return s._body(node, node.name)

    def visit_ClassDef(s, node): return s._body(node, node.name)

    def visit_List(s, node):
        node = s.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vp_', ast.Load()), 'lst', ast.Load()), [node], []), node)
        return node

    def visit_ListComp(s, node):
        node = s.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and not node.generators[0].is_async:
            g = node.generators[0]
            tgt = g.target
            if isinstance(tgt, ast.Name):
                names, star = [tgt.id], False
            elif isinstance(tgt, ast.Tuple) and all(isinstance(e, ast.Name) for e in tgt.elts):
                names, star = [e.id for e in tgt.elts], True
            else:
                return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vp_', ast.Load()), 'lst', ast.Load()), [node], []), node)
            lam = ast.Lambda(ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, []), node.elt)
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vp_', ast.Load()), 'comp', ast.Load()),
                                              [g.iter, lam, ast.Constant(star)], []), node)
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vp_', ast.Load()), 'lst', ast.Load()), [node], []), node)

    def _key(s):
        i = s.n[-1].get('loop', 0)
        s.n[-1]['loop'] = i + 1
        return ('.'.join(s.q), i)

    def _carried(s, node):
        """names whose value flows from one iteration to the next or out of the loop"""
        body = ast.Module(node.body, [])
        stored = {n.id for n in ast.walk(body) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        tgt = {n.id for n in ast.walk(node.target)if isinstance(n, ast.Name)} if isinstance(node, ast.For) else set()
        carried = {n.target.id for n in ast.walk(body) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        # order of loads and stores in the text of the body
        order = sorted([(n.lineno, n.col_offset, isinstance(n.ctx, ast.Store), n.id) for n in ast.walk(body) if isinstance(n, ast.Name) and n.id in stored and hasattr(n, 'lineno')])
        end = {}
        for st_ in ast.walk(body):
            if isinstance(st_, ast.Assign):
                for t in st_.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            end[(n.lineno, n.col_offset)] = (st_.end_lineno, st_.end_col_offset)
        first = {}
        for l, c, is_store, name in order:
            p = end.get((l, c), (l, c)) if is_store else (l, c)
            f = first.setdefault(name, [None, None])
            j = 0 if is_store else 1
            if f[j] is None or p < f[j]:
                f[j] = p
        for name, (a, b) in first.items():
            if name not in tgt and b is not None and (a is None or b < a):
                carried.add(name)
        # used after the loop
        after = {n.id for n in ast.walk(s.fn_node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and getattr(n, 'lineno', 0) > node.end_lineno} if s.fn_node is not None else set()
        restored = {n.id for n in ast.walk(s.fn_node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and getattr(n, 'lineno', 0) > node.end_lineno} if s.fn_node is not None else set()
        carried |= ((stored | tgt) & after) - restored
        return sorted(carried)

    def visit_For(s, node):
        key = s._key()
        carried = s._carried(node)
        node = s.generic_visit(node)
        node.iter = ast.copy_location(ast.Call(ast.Attribute(ast.Name('_vp_', ast.Load()), 'it', ast.Load()),
                                               [node.iter, ast.Constant(key), ast.Constant(tuple(carried))], []), node.iter)
        return node

    def visit_While(s, node):
        key = s._key()
        node = s.generic_visit(node)
        iv = s.inv.get(key)
        if iv is None:
            return node
        names = iv.names or s._state(node)
        d = lambda: ast.Call(ast.Name('dict', ast.Load()), [], [ast.keyword(n, ast.Name(n, ast.Load())) for n in names])
        enter = ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())],
                           ast.Call(ast.Attribute(ast.Name('_vp_', ast.Load()), 'enter', ast.Load()), [ast.Constant(key), d()], []))
        step = ast.Expr(ast.Call(ast.Attribute(ast.Name('_vp_', ast.Load()), 'step', ast.Load()), [ast.Constant(key), d()], []))
        node.body = node.body + [step]
        return [ast.copy_location(enter, node), node]

    def _state(s, node):
        """the names a while loop hands from one iteration to the next"""
        body = ast.Module(node.body, [])
        stored = {n.id for n in ast.walk(body) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        test = {n.id for n in ast.walk(node.test) if isinstance(n, ast.Name)}
        rec = {n.func.value.id for n in ast.walk(body) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'extend') and isinstance(n.func.value, ast.Name)}
        return sorted(set(s._carried(node)) | (stored & test) | rec)


class Invariant:
    """names: variables assigned by the loop (None: found in the source); find(entry values) -> {role: name}, so that the
    invariant is stated over roles and not over the names of locals; havoc(entry) -> arbitrary values; inv(roles) -> [(name, term)]; variant(roles) -> term"""

    def __init__(s, names, havoc, inv, variant=None, find=None):
        s.names, s.havoc, s.inv, s.variant, s.find, s.roles = names, havoc, inv, variant, find, None

    def view(s, env): return {r: env[n] for r, n in s.roles.items()}


class VP:
    def __init__(s, mod): s.mod = mod
    def lst(s, x): return VList(x) if isinstance(x, list) and not isinstance(x, VList) else x

    def comp(s, it, f, star):
        p = symlen(it) if not isinstance(it, (list, tuple)) or isinstance(it, VList) else None
        if p is None:
            return VList([f(*x) if star else f(x) for x in it])
        n, el = p
        lst = VList()
        for x in generic(n, el, ()):
            lst.append(f(*x) if star else f(x))
        if lst.sl is None:
            return lst
        return lst

    def it(s, it, key, carried):
        p = symlen(it)
        if p is None:
            return it
        return generic(p[0], p[1], carried)

    def enter(s, key, env):
        iv = s.mod.invariants[key]
        iv.roles = iv.find(env) if iv.find else {n: n for n in env}
        for nm, g in iv.inv(iv.view(env)):
            X.oblige('%s: loop %d: %s holds on entry' % (key + (nm,)), g)
        e = dict(env)
        h = iv.havoc(iv.view(env))
        for r, n in iv.roles.items():
            e[n] = h[r]
        for nm, g in iv.inv(h):
            X.assume(g)
        s.var0 = iv.variant(h) if iv.variant else None
        return tuple(e[n] for n in env)

    def step(s, key, env):
        iv = s.mod.invariants[key]
        env = iv.view(env)
        for nm, g in iv.inv(env):
            X.oblige('%s: loop %d: %s is kept by an iteration' % (key + (nm,)), g)
        if iv.variant:
            X.oblige('%s: loop %d: terminates' % key, and_(lt(iv.variant(env), s.var0), le(ZI, s.var0)))
        raise PathEnd()


def isinstance_(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, V):
        for q in ts:
            n = getattr(q, '__name__', str(q))
            if n in ('V', 'object') or (x.k == 'i' and n in ('int', 'integer', 'Integral', 'Number', 'Real', 'int64')) or (x.k == 'f' and n in ('float', 'floating', 'Number', 'Real', 'float64')) \
                    or (x.k == 'c' and n in ('complex', 'complexfloating', 'Number', 'complex128')) or (x.k == 'b' and n in ('bool', 'bool_', 'int')):
                return True
        return False
    real_ts = tuple(TYPES.get(q, q) for q in ts if q is not type(None))
    if type(None) in ts and x is None:
        return True
    real_ts = tuple(q for q in real_ts if isinstance(q, type))
    return builtins.isinstance(x, real_ts)


TYPES = {}


def _minmax(f, name):
    def g(*a, key=None, default=None):
        if key is not None:
            return getattr(builtins, name)(*a, key=key)
        xs = list(a[0]) if len(a) == 1 and not isinstance(a[0], Arr) else list(a)
        if len(a) == 1 and isinstance(a[0], Arr):
            return np_ext(a[0], 'minf' if name == 'min' else 'maxf')
        if not any(isinstance(x, V) for x in xs):
            return getattr(builtins, name)(xs)
        r = lit(xs[0])
        for x in xs[1:]:
            r = f(r, lit(x))
        return r
    return g


def int_(x=0, *a):
    if isinstance(x, V):
        if x.k == 'i':
            return x
        if x.im is not None:
            raise TypeError('int() of a complex number')
        return Iv(X.ctx.simp_trunc(X.ctx.simp(trunc(real(x)))) if not isnum(x.re) else num(int(nv(x.re)), 'I'))
    return builtins.int(x, *a)


def float_(x=0.):
    if isinstance(x, Arr):
        x = lit(x.get(tuple(ZI for _ in x.shape_)))
    if isinstance(x, V):
        return Rv(real(x))
    if isinstance(x, Fraction) or type(x).__module__.startswith('sympy'):
        return lit(x)
    return builtins.float(x)


def sum_py(it, start=0):
    p = symlen(it)
    if p is None:
        r = start
        for x in it:
            r = r + x
        return r
    n, f = p
    k = fresh('s', 'I')
    v = f(k)
    return v_add(lit(start), sumv(k, ZI, n, lit(v)))


def sorted_(it, key=None, reverse=False): return VList(builtins.sorted(it, key=key, reverse=reverse))
def list_(it=()):
    if isinstance(it, (VList, SymList, Arr)) and symlen(it) is not None:
        n, f = symlen(it)
        r = VList()
        r.sl = SymList(n, f)
        return r
    return VList(it)


def all_(it):
    r = TRUE
    for x in it:
        if isinstance(x, V):
            r = and_(r, cast(x, 'b').re)
        elif not x:
            return False
    return True if r is TRUE else B(r)


def any_(it):
    r = FALSE
    for x in it:
        if isinstance(x, V):
            r = or_(r, cast(x, 'b').re)
        elif x:
            return True
    return False if r is FALSE else B(r)


class _Type(type):
    def __instancecheck__(c, x): return isinstance_(x, c.base_)


def hash_(x):
    """equal arguments have equal hashes; nothing else is known"""
    ls = []

    def walk(y):
        if isinstance(y, tuple):
            ls.append(num(len(y), 'I'))
            for e in y:
                walk(e)
        elif isinstance(y, V):
            ls.append(real(y))
        elif isinstance(y, (int, float, Fraction)):
            ls.append(num(Fraction(y), 'R'))
        else:
            ls.append(var('hash:%r' % (y,), 'R'))
    walk(x)
    if all(isnum(t) for t in ls) and not isinstance(x, V):
        return builtins.hash(x)
    return Iv(app('hash', tuple(ls), 'I'))


def hasattr_(o, n): return builtins.hasattr(o, n)


OVER = {'hash': hash_, 'len': length, 'range': range_, 'enumerate': enumerate_, 'zip': zip_, 'isinstance': isinstance_, 'max': _minmax(v_max, 'max'), 'min': _minmax(v_min, 'min'),
        'sum': sum_py, 'sorted': sorted_, 'all': all_, 'any': any_, 'abs': lambda x: v_abs(x) if isinstance(x, V) else amap(v_abs, x) if isinstance(x, Arr) else builtins.abs(x)}


class _callable_type:
    """int / float / list / complex as called and as types"""


def _typ(base, f):
    class M(type):
        def __call__(c, *a, **k): return f(*a, **k)
        def __instancecheck__(c, x): return isinstance_(x, base)
        def __repr__(c): return repr(base)
        def __eq__(c, o): return o is c or o is base
        def __hash__(c): return hash(base)
    t = M(base.__name__, (), {})
    TYPES[t] = base
    return t


OVER['int'] = _typ(int, int_)
OVER['float'] = _typ(float, float_)
OVER['list'] = _typ(list, list_)


class Module:
    """one module of the package, executed from its current source"""

    def __init__(s, name, imports=None, invariants=None, file=None, tree=None, ns=None):
        s.name, s.invariants, s.imports = name, invariants or {}, imports or {}
        f = file or os.path.join(SRC, name + '.py')
        src = open(f).read()
        s.src = src
        tree = ast.parse(src, f) if tree is None else tree
        s.functions = [n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]
        tree = ast.fix_missing_locations(Rewrite(s.invariants).visit(tree))
        b = dict(vars(builtins))
        b.update(OVER)
        b['__import__'] = s._import
        pn = 'triumvirate_vp.' + name
        m = types.ModuleType(pn)
        sys.modules[pn] = m
        g = m.__dict__
        g.update({'__builtins__': b, '__name__': pn, '_vp_': VP(s), '__package__': 'triumvirate', '__file__': f})
        g.update(ns or {})
        s.ns = g
        global X
        if X is None:
            X = Explorer()
            X.scopes = []
            X.ctx = Ctx([])
            X.path = Path()
            X.prefix, X.trace, X.pending, X.nfresh, X.ends, X.must_die = [], [], [], 0, set(), set()
        elif not hasattr(X, 'path'):
            X.path = Path()
        exec(compile(tree, f, 'exec'), g)

    def _import(s, name, globals=None, locals=None, fromlist=(), level=0):
        key = ('.' * level) + name
        for k in (key, name):
            if k in s.imports:
                return s.imports[k]
        if name.startswith('triumvirate.') and '.' + name.split('.', 1)[1] in s.imports:
            return s.imports['.' + name.split('.', 1)[1]]
        if name in ('numpy',):
            return NP
        if name == 'warnings':
            return WARN
        if level or name.startswith('triumvirate'):
            raise Unsupported('import of %s' % key)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def __getitem__(s, n): return s.ns[n]
    def set(s, n, v): s.ns[n] = v


class _Warn(types.ModuleType):
    def __init__(s): super().__init__('warnings')

    @staticmethod
    def warn(message, category=None, *a, **k):
        X.path.warnings.append((message, getattr(category, '__name__', type(message).__name__ if isinstance(message, Warning) else 'UserWarning'), list(X.path.conds)))

    class catch_warnings:
        def __init__(s, record=False, **k): s.record = record

        def __enter__(s):
            s.start, s.path = builtins.len(X.path.warnings), X.path
            s.out = VList([]) if s.record else None
            return s.out

        def __exit__(s, *a):
            w = X.path.warnings
            if s.record and s.path is X.path:
                for m in w[s.start:]:
                    builtins.list.append(s.out, types.SimpleNamespace(message=m[0], category=m[1], lineno=0, filename=''))
                del w[s.start:]
            return False

    @staticmethod
    def simplefilter(*a, **k): pass
    filterwarnings = simplefilter


WARN = _Warn()
from pynp import *
import pynp as _p
NP = _p.NP
