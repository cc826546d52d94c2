"""NumPy as seen by the symbolic execution: assumed contracts of the array library."""
import types, builtins
from pysym import *
import pysym as ps


def asarray(x, dtype=None):
    if isinstance(x, Column):
        x = x.arr
    if isinstance(x, Arr):
        return x if dtype is None or kind_of(dtype) == x.k else x.astype(dtype)
    if isinstance(x, V) or (not isinstance(x, (list, tuple)) and isscalar(x)):
        v = lit(x)
        if dtype is not None:
            v = cast(v, kind_of(dtype))
        return Arr.of((), lambda ix: v, v.k)
    if isinstance(x, SymList) or (isinstance(x, VList) and x.sl is not None):
        sl = x if isinstance(x, SymList) else x.sl
        kk = var('probe', 'I')
        e = sl.fn(kk)
        if isinstance(e, (Arr, list)):
            e = asarray(e)
            if any(kk in d.fv for d in e.shape_):
                raise Unsupported('ragged array')
            r = Arr.of((sl.n,) + e.shape_, lambda ix: asarray(sl.fn(ix[0])).get(ix[1:]), e.k)
        else:
            k = lit(e).k
            r = Arr.of((sl.n,), lambda ix: lit(sl.fn(ix[0])), k)
        return r if dtype is None else r.astype(dtype)
    if isinstance(x, (list, tuple)):
        xs = [asarray(e) for e in x]
        if not xs:
            return Arr.of((0,), lambda ix: Rv(0), 'f')
        sh = xs[0].shape_
        for e in xs[1:]:
            if len(e.shape_) != len(sh) or not all(deq(a, b) for a, b in zip(e.shape_, sh)):
                raise ValueError('setting an array element with a sequence: inhomogeneous shape')
        k = max_kind(xs)
        gs = [e.snap() for e in xs]

        def fn(ix):
            i = ix[0]
            if isnum(i):
                return cast(gs[int(nv(i))](ix[1:]), k)
            r = cast(gs[-1](ix[1:]), k)
            for j in range(len(gs) - 2, -1, -1):
                r = v_ite(eq(i, num(j, 'I')), cast(gs[j](ix[1:]), k), r)
            return r
        r = Arr.of((len(xs),) + tuple(sh), fn, k)
        return r if dtype is None else r.astype(dtype)
    if hasattr(x, '__array_vp__'):
        return x.__array_vp__()
    if hasattr(x, 'dtype') and hasattr(x, 'tolist'):
        return asarray(x.tolist())
    if isinstance(x, (range,)):
        return asarray(list(x))
    raise Unsupported('array from %r' % type(x))


ps.asarray = asarray


def max_kind(xs):
    k = 'b'
    for e in xs:
        if RANK[e.k] > RANK[k]:
            k = e.k
    return k


def array(x, dtype=None, copy=True, ndmin=0, order=None):
    r = asarray(x, dtype)
    return r.copy() if isinstance(x, (Arr, Column)) and r.buf is asarray(x).buf else r


def shape_arg(s):
    return tuple(s) if isinstance(s, (tuple, list)) else (s,)


def full(shape, v, dtype=None):
    if isinstance(v, (Arr, list)):
        a = asarray(v)
        sh = tuple(dim(d) for d in shape_arg(shape))
        g = bget(a, sh)
        return Arr.of(sh, g, a.k if dtype is None else kind_of(dtype))
    v = lit(v)
    if dtype is not None:
        v = cast(v, kind_of(dtype))
    return Arr.of(nonneg(shape_arg(shape)), lambda ix: v, v.k)


def nonneg(shape):
    out = []
    for d in shape:
        t = dim(d)
        if not ps.X.ctx.entails(le(ZI, t), 600) and ps.X.decide(lt(t, ZI)):
            raise ValueError('negative dimensions are not allowed')
        out.append(t)
    return tuple(out)


def zeros(shape, dtype=float, order=None): return full(shape, 0, dtype)
def ones(shape, dtype=float): return full(shape, 1, dtype)


def empty(shape, dtype=float):
    nm = 'uninit%d' % id(object())
    return Arr.sym('uninit', nonneg(shape_arg(shape)), kind_of(dtype))


def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape_, cast(lit(v), kind_of(dtype) if dtype is not None else a.k))


def zeros_like(a, dtype=None): return full_like(a, 0, dtype)
def ones_like(a, dtype=None): return full_like(a, 1, dtype)
def empty_like(a, dtype=None): return empty(asarray(a).shape_, asarray(a).dtype if dtype is None else dtype)


def eye(n, dtype=float):
    k = kind_of(dtype)
    return Arr.of((n, n), lambda ix: v_ite(eq(ix[0], ix[1]), cast(lit(1), k), cast(lit(0), k)), k)


def arange(*a, **kw):
    a = [lit(x) for x in a]
    if len(a) == 1:
        a = [lit(0)] + a
    st = lit(1) if len(a) < 3 else a[2]
    if a[0].k == 'i' and a[1].k == 'i' and isnum(st.re) and abs(nv(st.re)) == 1 and st.k == 'i':
        d = scale(a[1].re - a[0].re, int(nv(st.re)))
        if not ps.X.ctx.entails(le(ZI, d), 600):
            d = ZI if ps.X.decide(lt(d, ZI)) else d
        a0, s = a[0].re, int(nv(st.re))
        return Arr.of((d,), lambda ix: Iv(a0 + scale(ix[0], s)), 'i')
    if all(isnum(x.re) for x in a):
        import numpy
        return asarray([float(q) if any(x.k == 'f' for x in a) else int(q) for q in numpy.arange(*[nv(x.re) for x in a + [st]][:3])])
    raise Unsupported('arange')


def linspace(a, b, n=50, endpoint=True):
    a, b, n = lit(a), lit(b), dim(n)
    d = toreal(n - 1)
    return Arr.of((n,), lambda ix: Rv(real(a) + (real(b) - real(a)) * div(toreal(ix[0]), d)), 'f')


def logspace(a, b, n=50, base=10, endpoint=True):
    e = linspace(a, b, n)
    lb = real_fn('log', num(base, 'R'))
    return amap(lambda v: Rv(real_fn('exp', v.re * lb)), e, 'f')


def concatenate(xs, axis=0):
    xs = [asarray(x) for x in xs]
    if any(x.ndim == 0 for x in xs):
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    k = max_kind(xs)
    n = xs[0].ndim
    axis = axis % n
    for x in xs[1:]:
        if x.ndim != n:
            raise ValueError('all the input array dimensions must match')
        for i in range(n):
            if i != axis and not deq(x.shape_[i], xs[0].shape_[i]):
                if ps.X.ctx.entails(not_(eq(x.shape_[i], xs[0].shape_[i])), 800):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
                if not ps.X.decide(eq(x.shape_[i], xs[0].shape_[i])):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    off = [ZI]
    for x in xs:
        off.append(off[-1] + x.shape_[axis])
    gs = [x.snap() for x in xs]
    sh = list(xs[0].shape_)
    sh[axis] = off[-1]

    def fn(ix):
        def at(j): return cast(gs[j](ix[:axis] + (ix[axis] - off[j],) + ix[axis + 1:]), k)
        r = at(len(gs) - 1)
        for j in range(len(gs) - 2, -1, -1):
            c = lt(ix[axis], off[j + 1])
            r = v_ite(c, at(j), r)
        return r
    return Arr.of(sh, fn, k)


def split(a, at, axis=0):
    a = asarray(a)
    if axis != 0:
        raise Unsupported('split along another axis')
    at = asarray(at)
    if at.ndim == 0 or not isnum(at.shape_[0]):
        raise Unsupported('split into a symbolic number of pieces')
    cuts = [at.get((num(j, 'I'),)) for j in range(int(nv(at.shape_[0])))]
    out, lo = VList(), None
    for c in cuts + [None]:
        builtins.list.append(out, a[slice(lo, c)])
        lo = c
    return out


def column_stack(xs):
    ys = []
    if isinstance(xs, (SymList, VList)) and ps.symlen(xs) is not None:
        a = asarray(xs)
        if a.ndim != 2:
            raise Unsupported('column_stack of %d dimensions' % a.ndim)
        return a.transpose()
    for x in ([y for y in xs] if not isinstance(xs, Arr) else list(xs)):
        x = asarray(x)
        ys.append(x[:, None] if x.ndim == 1 else x)
    return concatenate(ys, 1)


def vstack(xs):
    ys = []
    for x in xs:
        x = asarray(x)
        ys.append(x[None, :] if x.ndim == 1 else x)
    return concatenate(ys, 0)


class _C:
    def __getitem__(s, k): return column_stack(k if isinstance(k, tuple) else (k,))


class _R:
    def __getitem__(s, k):
        if not isinstance(k, tuple):
            k = (k,)
        return concatenate([x if not isscalar(x) else [x] for x in k])


def stack(xs, axis=0):
    xs = [asarray(x) for x in xs]
    r = asarray(xs)
    if axis == 0:
        return r
    p = list(range(1, r.ndim))
    p.insert(axis if axis >= 0 else r.ndim + axis, 0)
    return r.transpose(tuple(p))


def tile(a, reps):
    a = asarray(a)
    reps = shape_arg(reps)
    if len(reps) == 2 and a.ndim == 1 and isnum(dim(reps[1])) and nv(dim(reps[1])) == 1:
        g = a.snap()
        return Arr.of(nonneg((reps[0],)) + a.shape_, lambda ix: g(ix[1:]), a.k)
    raise Unsupported('tile %r' % (reps,))


def np_squeeze(a, axis=None):
    a = asarray(a)
    keep, idx = [], []
    for i, d in enumerate(a.shape_):
        if isnum(d):
            one = nv(d) == 1
        else:
            one = ps.X.decide(eq(d, OI))
        idx.append(0 if one else slice(None))
    if not any(i == 0 and not isinstance(i, slice) for i in idx):
        return a
    m, n = [], 0
    vm = []
    shape = []
    amap_ = {}
    for i, q in enumerate(idx):
        if isinstance(q, slice):
            amap_[i] = len(shape)
            shape.append(a.shape_[i])
    for q in a.vmap:
        if q[0] == 'fix':
            vm.append(q)
        elif q[0] in amap_:
            vm.append((amap_[q[0]],) + q[1:])
        else:
            vm.append(('fix', q[1]))
    return Arr(a.buf, vm, shape, a.k)


ps.np_squeeze = np_squeeze


def sumv(k, lo, hi, v):
    if v.k == 'b':
        v = cast(v, 'i')
    return V(sum_(k, lo, hi, v.re), sum_(k, lo, hi, v.im) if v.im is not None else None, v.k)


ps.sumv = sumv


def np_sum(a, axis=None, keepdims=False):
    a = asarray(a)
    g = a.snap()
    if axis is None:
        if a.ndim == 1 and isnum(a.shape_[0]) and nv(a.shape_[0]) <= 32:
            v = lit(0) if a.k == 'i' else lit(0.)
            for i in range(int(nv(a.shape_[0]))):
                v = v_add(v, g((num(i, 'I'),)))
            return cast(v, 'i') if v.k == 'b' else v
        ks = [fresh('s', 'I') for _ in a.shape_]
        v = g(tuple(ks))
        for k, d in list(zip(ks, a.shape_))[::-1]:
            v = sumv(k, ZI, d, v)
        return v if v.k != 'b' else cast(v, 'i')
    if isinstance(axis, tuple):
        for ax in sorted([q % a.ndim for q in axis], reverse=True):
            a = np_sum(a, ax)
        return a
    axis = axis % a.ndim
    n = a.shape_[axis]
    sh = a.shape_[:axis] + a.shape_[axis + 1:]
    if not sh:
        return np_sum(a)

    def fn(ix):
        k = fresh('s', 'I')
        return sumv(k, ZI, n, g(ix[:axis] + (k,) + ix[axis:]))
    return Arr.of(sh, fn, 'i' if a.k == 'b' else a.k)


def np_mean(a, axis=None):
    a = asarray(a)
    n = OI
    for i, d in enumerate(a.shape_):
        if axis is None or i == axis % a.ndim:
            n = n * d
    return np_sum(a, axis) / Iv(n)


def np_prod(a, axis=None):
    if isinstance(a, (list, tuple)) and len(a) > 1 and any(e is None for e in a):
        raise TypeError("unsupported operand type(s) for *: 'NoneType'")
    a = asarray(a)
    r = lit(1)
    n = a.shape_[0] if a.ndim else OI
    if a.ndim != 1 or not isnum(n):
        raise Unsupported('prod')
    for i in range(int(nv(n))):
        r = v_mul(r, a.get((num(i, 'I'),)))
    return r


def np_ext(a, op, axis=None):
    a = asarray(a)
    g = a.snap()
    if a.ndim == 0:
        return a.get(())
    if a.ndim != 1:
        raise Unsupported('min/max of %d dimensions' % a.ndim)
    n = a.shape_[0]
    if isnum(n) and nv(n) <= 8:
        r = g((ZI,))
        for i in range(1, int(nv(n))):
            r = (v_min if op == 'minf' else v_max)(r, g((num(i, 'I'),)))
        return r
    k = var('q', 'I')
    v = g((k,))
    return V(binder(op, k, ZI, n, v.re, v.re.s), None, v.k)


def np_all(a, axis=None):
    a = asarray(a)
    if axis is not None:
        raise Unsupported('all with an axis')
    g = a.snap()
    ks = [fresh('q', 'I') for _ in a.shape_]
    t = cast(g(tuple(ks)), 'b').re
    for k, d in list(zip(ks, a.shape_))[::-1]:
        t = binder('forall', k, ZI, d, t, 'B')
    return B(t)


def np_any(a, axis=None): return B(not_(np_all(amap(v_not, asarray(a), 'b')).re))


ps.np_sum, ps.np_mean, ps.np_ext, ps.np_all, ps.np_any = np_sum, np_mean, np_ext, np_all, np_any


def isclose(a, b, rtol=1e-5, atol=1e-8):
    rt, at = real(lit(rtol)), real(lit(atol))
    def f(x, y):
        d = v_abs(v_sub(x, y))
        return B(le(real(d), at + rt * real(v_abs(y))))
    f.__name__ = '<lambda>'
    r = binop(f, a if isscalar(a) else asarray(a), b if isscalar(b) else asarray(b))
    return r


def allclose(a, b, rtol=1e-5, atol=1e-8):
    r = isclose(a, b, rtol, atol)
    return r if isinstance(r, V) else np_all(r)


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    c = asarray(c)
    a, b = asarray(a), asarray(b)
    sh = bshape(bshape(c.shape_, a.shape_), b.shape_)
    gc, ga, gb = bget(c, sh), bget(a, sh), bget(b, sh)
    return Arr.of(sh, lambda ix: v_ite(cast(gc(ix), 'b').re, ga(ix), gb(ix)), max_kind([a, b]))


def transpose(a, axes=None): return asarray(a).transpose(*([axes] if axes is not None else []))


def diag(a, k=0):
    a = asarray(a)
    g = a.snap()
    if k != 0 and not (isinstance(k, V) and isnum(k.re) and nv(k.re) == 0):
        kt = dim(k)
        if a.ndim != 2:
            raise Unsupported('diag from an off-diagonal vector')
        kn = ps.X.decide(lt(kt, ZI))
        r0, c0 = (neg(kt), ZI) if kn else (ZI, kt)
        n, m = a.shape_[0] - r0, a.shape_[1] - c0
        ln = n if ps.X.decide(le(n, m)) else m
        if ps.X.decide(lt(ln, ZI)):
            ln = ZI
        return Arr.of((ln,), lambda ix: g((ix[0] + r0, ix[0] + c0)), a.k)
    if a.ndim == 1:
        z = cast(lit(0), a.k)
        return Arr.of((a.shape_[0], a.shape_[0]), lambda ix: v_ite(eq(ix[0], ix[1]), g((ix[0],)), z), a.k)
    n = a.shape_[0] if deq(*a.shape_) or ps.X.decide(le(a.shape_[0], a.shape_[1])) else a.shape_[1]
    # numpy gives a read-only view
    return Arr.of((n,), lambda ix: g((ix[0], ix[0])), a.k)


def fill_diagonal(a, v):
    if isscalar(v):
        x = lit(v)
        a.put(lambda ix: eq(ix[0], ix[1]), lambda ix: x, x.k)
    else:
        g = asarray(v).snap()
        a.put(lambda ix: eq(ix[0], ix[1]), lambda ix: g((ix[0],)), asarray(v).k)


def diff(a, n=1, axis=-1):
    a = asarray(a)
    if a.ndim == 1 and isnum(a.shape_[0]) and nv(a.shape_[0]) < 1:
        return a
    return a[..., 1:] - a[..., :-1]


def cumsum(a, axis=None):
    a = asarray(a)
    g = a.snap()
    if a.ndim != 1:
        raise Unsupported('cumsum')
    n = a.shape_[0]

    def fn(ix):
        if isnum(n):
            r = g((ZI,))
            if isnum(ix[0]):
                for j in range(1, int(nv(ix[0])) + 1):
                    r = v_add(r, g((num(j, 'I'),)))
                return r
        k = fresh('s', 'I')
        return sumv(k, ZI, ix[0] + 1, g((k,)))
    return Arr.of(a.shape_, fn, 'i' if a.k == 'b' else a.k)


def insert(a, i, values=None, axis=None):
    a = asarray(a)
    if isinstance(i, int) and i == 0 and isscalar(values):
        return concatenate([[cast(lit(values), a.k)], a])
    raise Unsupported('insert')


def append(a, b, axis=None): return concatenate([asarray(a), asarray(b) if not isscalar(b) else asarray([b])])


def meshgrid(*xs, indexing='xy'):
    xs = [asarray(x) for x in xs]
    if len(xs) != 2:
        raise Unsupported('meshgrid')
    a, b = xs
    ga, gb = a.snap(), b.snap()
    if indexing == 'ij':
        sh = (a.shape_[0], b.shape_[0])
        return VList([Arr.of(sh, lambda ix: ga((ix[0],)), a.k), Arr.of(sh, lambda ix: gb((ix[1],)), b.k)])
    sh = (b.shape_[0], a.shape_[0])
    return VList([Arr.of(sh, lambda ix: ga((ix[1],)), a.k), Arr.of(sh, lambda ix: gb((ix[0],)), b.k)])


def np_dot(a, b):
    a, b = asarray(a), asarray(b)
    ga, gb = a.snap(), b.snap()
    n = a.shape_[-1]
    if not deq(n, b.shape_[-2] if b.ndim > 1 else b.shape_[0]):
        if not ps.X.decide(eq(n, b.shape_[-2] if b.ndim > 1 else b.shape_[0])):
            raise ValueError('shapes not aligned')
    if b.ndim == 1:
        def fn(ix):
            k = fresh('s', 'I')
            return sumv(k, ZI, n, v_mul(ga(ix + (k,)), gb((k,))))
        if a.ndim == 1:
            return fn(())
        return Arr.of(a.shape_[:-1], fn, max_kind([a, b]))

    def fn(ix):
        k = fresh('s', 'I')
        return sumv(k, ZI, n, v_mul(ga(ix[:a.ndim - 1] + (k,)), gb((k,) + ix[a.ndim - 1:])))
    return Arr.of(a.shape_[:-1] + b.shape_[1:], fn, max_kind([a, b]))


ps.np_dot = np_dot


def gradient(a, *args):
    a = asarray(a)
    if args or a.ndim != 1:
        raise Unsupported('gradient')
    g, n = a.snap(), a.shape_[0]
    half = Rv(Fraction(1, 2))

    def fn(ix):
        i = ix[0]
        mid = v_mul(half, v_sub(g((i + 1,)), g((i - 1,))))
        return v_ite(eq(i, ZI), v_sub(g((OI,)), g((ZI,))), v_ite(eq(i, n - 1), v_sub(g((n - 1,)), g((n - 2,))), mid))
    return Arr.of(a.shape_, fn, 'f')


def isin(a, b):
    a = asarray(a)
    b = asarray(b)
    gb, n = b.snap(), b.shape_[0]
    def f(v):
        k = fresh('q', 'I')
        if isnum(n):
            return B(or_(*[v_eq(v, gb((num(j, 'I'),))).re for j in range(int(nv(n)))]))
        return B(binder('exists', k, ZI, n, v_eq(v, gb((k,))).re, 'B'))
    f.__name__ = 'isin'
    return amap(f, a, 'b')


class TriuIdx:
    """index pair of the upper triangle of an n x n matrix, row by row"""

    def __init__(s, n): s.n = n
    def count(s): return idiv(s.n * (s.n + 1), num(2, 'I'))
    def pos(s, i, j): return i * s.n - idiv(i * (i - 1), num(2, 'I')) + (j - i)

    def write(s, a, val, flip=False):
        v = asarray(val)
        if v.ndim and not is1(v.shape_[0]) and not deq(v.shape_[0], s.count()) and ps.X.decide(not_(eq(v.shape_[0], s.count()))):
            raise ValueError('shape mismatch')
        g = v.snap()
        n = s.n
        o = (lambda ix: (ix[1], ix[0])) if flip else (lambda ix: ix)
        a.put(lambda ix: and_(le(o(ix)[0], o(ix)[1]), lt(o(ix)[1], n)), lambda ix: g((s.pos(*o(ix)),)) if v.ndim else g(()), v.k)

    def take(s, a):
        raise Unsupported('reading an upper triangle of symbolic size')

    def __iter__(s): return iter((TriuAxis(s, 0), TriuAxis(s, 1)))
    def __getitem__(s, i): return (TriuAxis(s, 0), TriuAxis(s, 1))[i]


class TriuAxis:
    """row or column numbers of the upper triangle"""

    def __init__(s, t, ax): s.t, s.ax = t, ax


def triu_indices(n, k=0):
    n = dim(n)
    return TriuIdx(n)


MASKS = []      # (length, probe, condition at the probe)


def mask_id(m):
    """masks proved to hold at the same places are one mask"""
    if m.ndim != 1:
        raise Unsupported('selection by a mask of several dimensions')
    n, k = m.shape_[0], var('mask?', 'I')
    t = tt(m.snap()((k,)))
    for i, (n0, t0) in enumerate(MASKS):
        if n0 is n and t0 is t:
            return i
    inr = and_(le(ZI, k), lt(k, n))
    for i, (n0, t0) in enumerate(MASKS):
        if deq(n0, n) and ps.X.ctx.entails(or_(not_(inr), and_(t, t0), and_(not_(t), not_(t0))), 600):
            return i
    MASKS.append((n, t))
    return len(MASKS) - 1


def selected(m):
    """the places where a mask holds, in order"""
    i = num(mask_id(m), 'I')
    n, t = MASKS[int(nv(i))]
    ln = app('count', (i,), 'I')
    if t is TRUE:
        return Arr.of((n,), lambda ix: Iv(ix[0]), 'i')
    if t is FALSE:
        return Arr.of((0,), lambda ix: Iv(ix[0]), 'i')
    ps.X.assume(and_(le(ZI, ln), le(ln, n)))
    return Arr.of((ln,), lambda ix: Iv(app('sel', (i, ix[0]), 'I')), 'i')


def masked(a, m):
    if not deq(m.shape_[0], a.shape_[0]):
        raise IndexError('boolean index did not match')
    if m.ndim == a.ndim and m.ndim > 1:
        raise Unsupported('selection by a mask of several dimensions')
    return a[selected(m)]


def ix_(*xs):
    xs = [asarray(x) for x in xs]
    xs = [selected(x) if x.k == 'b' else x for x in xs]
    n = len(xs)
    return tuple(x[tuple(slice(None) if i == j else None for j in range(n))] for i, x in enumerate(xs))


def fancy_write(a, key, val):
    if isinstance(key, tuple) and len(key) == 2 and all(isinstance(q, TriuAxis) for q in key) and key[0].t is key[1].t and key[0].ax != key[1].ax:
        return key[0].t.write(a, val, key[0].ax == 1)
    raise Unsupported('write at index arrays')


ps.selected = selected
ps.masked, ps.fancy_write, ps.TriuIdx = masked, fancy_write, TriuIdx


def nonzero(a):
    a = asarray(a)
    return (selected(a if a.k == 'b' else amap(lambda v: B(not_(eq(v.re, num(0, v.re.s)))), a, 'b')),)


def argmax(a, axis=None): raise Unsupported('argmax')
def argsort(a, axis=None, kind=None): raise Unsupported('argsort')
def np_sort(a, axis=None): raise Unsupported('sort')


def nan_to_num(a, **k): return a      # doubles as reals: there are no NaNs


class _ND(type):
    def __instancecheck__(c, x): return isinstance(x, Arr)


class ndarray(metaclass=_ND):
    pass


TYPES[ndarray] = Arr


class _Scalar(type):
    def __call__(c, x=0):
        return cast(lit(x), c.k) if isscalar(x) else asarray(x).astype(c)

    def __instancecheck__(c, x): return isinstance_(x, c)


def styp(name, kind):
    return _Scalar(name, (), {'k': kind})


def bin_(f):
    def g(a, b): return binop(f, a if isscalar(a) else asarray(a), b if isscalar(b) else asarray(b))
    return g


def un_(f, k=None):
    def g(a, *_, **kw):
        if isscalar(a):
            return f(lit(a))
        return amap(f, a, k)
    return g


NP = types.ModuleType('numpy')
NP.__dict__.update(dict(
    asarray=asarray, array=array, ascontiguousarray=lambda a, dtype=None: asarray(a, dtype), full=full, full_like=full_like, zeros=zeros, zeros_like=zeros_like, ones=ones, ones_like=ones_like, empty=empty,
    empty_like=empty_like, eye=eye, arange=arange, linspace=linspace, logspace=logspace, concatenate=concatenate, column_stack=column_stack, vstack=vstack, stack=stack,
    c_=_C(), r_=_R(), tile=tile, split=split, squeeze=np_squeeze, sum=np_sum, mean=np_mean, prod=np_prod, min=lambda a: np_ext(a, 'minf'), max=lambda a: np_ext(a, 'maxf'),
    all=np_all, any=np_any, isclose=isclose, allclose=allclose, where=where, transpose=transpose, diag=diag, fill_diagonal=fill_diagonal, diff=diff, cumsum=cumsum, insert=insert,
    append=append, meshgrid=meshgrid, dot=np_dot, matmul=np_dot, gradient=gradient, isin=isin, triu_indices=triu_indices, nonzero=nonzero, flatnonzero=lambda a: nonzero(a)[0], ix_=ix_, argmax=argmax, argsort=argsort, sort=np_sort,
    nan_to_num=nan_to_num, ndarray=ndarray, pi=Rv(PIT), inf=float('inf'), nan=float('nan'), newaxis=None,
    log=un_(v_log), exp=un_(v_exp), sqrt=un_(v_sqrt), abs=un_(v_abs), absolute=un_(v_abs), sign=un_(v_sign), square=un_(lambda v: v_mul(v, v)), floor=un_(v_floor), ceil=un_(v_ceil),
    log2=un_(v_logb(2)), log10=un_(v_logb(10)), negative=un_(v_neg), conj=un_(lambda v: v.conjugate()), real=lambda a: a.real, imag=lambda a: a.imag,
    add=bin_(v_add), subtract=bin_(v_sub), multiply=bin_(v_mul), divide=bin_(v_div), true_divide=bin_(v_div), power=bin_(v_pow), mod=bin_(v_mod), maximum=bin_(v_max), minimum=bin_(v_min),
    logical_and=bin_(v_and), logical_or=bin_(v_or), logical_not=un_(v_not, 'b'),
    isscalar=lambda x: isscalar(x) or isinstance(x, str), ndim=lambda x: asarray(x).ndim, shape=lambda x: asarray(x).shape,
    float64=styp('float64', 'f'), int64=styp('int64', 'i'), complex128=styp('complex128', 'c'), bool_=styp('bool_', 'b'), integer=styp('integer', 'i'), floating=styp('floating', 'f'),
    complexfloating=styp('complexfloating', 'c'), float_=styp('float64', 'f'), iscomplexobj=lambda a: asarray(a).k == 'c', isrealobj=lambda a: asarray(a).k != 'c',
    result_type=lambda *a: DT[max_kind([DT[kind_of(q)] if isinstance(q, (DType, type, str)) else asarray(q) for q in a])], dtype=lambda d: DT[kind_of(d)],
    errstate=__import__('contextlib').nullcontext))
