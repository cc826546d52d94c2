"""P17: window convolution formulae sum the stated terms (winconv.py)."""
from common import *
import types, itertools, math
import pylib, pysym, pynp
from pylib import PYTRUST, Module, Arr, Iv, Rv, V, calls, elems, shape_is, unchanged
from pylib import I, R, rn, between, explore
from term import real_fn
import c_P19

LEVEL = 'proof'
TRUSTED = PYTRUST + ['interpolating splines are operators of the (real parts of) samples, the points, the degree and the place they are evaluated at',
                     'the transforms are operators of their degrees, biases, points, options, direction and samples (P16)', 'Simpson\'s rule is a sum weighted by its points',
                     'SymPy calculates 3j and 9j symbols; 3j symbols of vanishing orders are compared with their closed form',
                     'formulae as listed (the named ones, and ones of arbitrary coefficients), with windows and inputs of any number, place and value of samples']
ZI, OI, ZR, OR = num(0, 'I'), num(1, 'I'), num(0, 'R'), num(1, 'R')
n_, K_ = I('n'), I('K')
asarr, isnum = pysym.asarray, pysym.isnum


# ------------------------------------------------------------------ operators known by their arguments
class Table:
    """arguments proved equal are the same arguments"""

    def __init__(s): s.rows = []

    def id(s, *xs):
        key = []
        for x in xs:
            if isinstance(x, (Arr, list)):
                a = asarr(x)
                ps_ = tuple(var('arg%d?' % i, 'I') for i in range(a.ndim))
                v = a.get(ps_)
                rng = [between(0, p, d) for p, d in zip(ps_, a.shape_)]
                key.append(('a', a.shape_, pysym.real(v), pysym.imag(v), rng))
            elif isinstance(x, (V, T)) or pysym.isscalar(x):
                v = pysym.lit(x)
                key.append(('s', pysym.real(v), pysym.imag(v)))
            else:
                key.append(('o', repr(x)))
        for i, r in enumerate(s.rows):
            if len(r) == len(key) and all(s.same(p, q, True) for p, q in zip(r, key)):
                return num(i, 'I')
        for i, r in enumerate(s.rows):
            if len(r) == len(key) and all(s.same(p, q, False) for p, q in zip(r, key)):
                return num(i, 'I')
        s.rows.append(key)
        return num(len(s.rows) - 1, 'I')

    def same(s, p, q, fast):
        if p[0] != q[0]:
            return False
        if p[0] == 'o':
            return p[1] == q[1]
        E = (lambda a, b: a is b) if fast else (lambda a, b: a is b or pysym.X.ctx.entails(eq(a, b), 800))
        if p[0] == 's':
            return E(p[1], q[1]) and E(p[2], q[2])
        if len(p[1]) != len(q[1]) or not all(a is b or (not fast and pysym.deq(a, b)) for a, b in zip(p[1], q[1])):
            return False
        if fast:
            return p[2] is q[2] and p[3] is q[3]
        g = lambda a, b: a is b or pysym.X.ctx.entails(or_(*([not_(c) for c in p[4]] + [eq(a, b)])), 800)
        return g(p[2], q[2]) and g(p[3], q[3])


OPS = Table()


class Spl1:
    def __init__(s, x, y, w=None, bbox=None, k=3, ext=0, check_finite=False):
        x, y = asarr(x), asarr(y)
        if x.ndim != 1 or y.ndim != 1:
            raise ValueError('x and y should be one-dimensional')
        if not pysym.deq(x.shape_[0], y.shape_[0]):
            raise ValueError('x and y should have a same length')
        s.id = OPS.id('spline', x, y.real if y.k == 'c' else y, k, ext)

    def __call__(s, at, nu=0, ext=None):
        at = asarr(at)
        g = at.snap()
        return Arr.of(at.shape_, lambda ix: Rv(app('spl', (s.id, pysym.real(g(ix))), 'R')), 'f')


class Spl2:
    def __init__(s, x, y, z, bbox=None, kx=3, ky=3, s_=0, **kw):
        if kw.get('s', 0):
            raise Unsupported('smoothing spline')
        x, y, z = asarr(x), asarr(y), asarr(z)
        if z.ndim != 2 or not pysym.deq(x.shape_[0], z.shape_[0]) or not pysym.deq(y.shape_[0], z.shape_[1]):
            raise ValueError('dimension of z must agree with x and y')
        s.id = OPS.id('spline2', x, y, z.real if z.k == 'c' else z, kx, ky)

    def __call__(s, a, b, dx=0, dy=0, grid=True):
        a, b = asarr(a), asarr(b)
        if not grid:
            raise Unsupported('spline off a grid')
        ga, gb = a.snap(), b.snap()
        return Arr.of((a.shape_[0], b.shape_[0]), lambda ix: Rv(app('spl', (s.id, pysym.real(ga(ix[:1])), pysym.real(gb(ix[1:]))), 'R')), 'f')


DEFAULTS = dict(pivot=1., lowring=True, extrap=0, extrap_exp=2.)


class Bessel:
    """spherical Bessel transform in one or two dimensions"""
    name, dims, more = 'sbt', 1, {'extrap_layer': 'outer', 'threaded': False}
    log = []

    def __init__(s, degree, bias, sample_pts, **kw):
        s.degree, s.bias, s.pts = degree, bias, sample_pts
        full = dict(DEFAULTS, **s.more)
        for k in kw:
            if k not in full:
                raise TypeError('unexpected option %s' % k)
        full.update(kw)
        full.pop('threaded')
        s.kw = full
        s.id = OPS.id(s.name, degree, bias, asarr(sample_pts), tuple(sorted((k, repr(v)) for k, v in full.items())))
        n = asarr(sample_pts).shape_[0]

        def points(d):
            # those of the same degree are the same points
            i = OPS.id(s.name + ' points', d, asarr(sample_pts), tuple(sorted((k, repr(v)) for k, v in full.items())))
            return Arr.of((n,), lambda ix: Rv(app('post', (i, ix[0]), 'R')), 'f')
        s.axes = [points(d) for d in (zip(degree, bias) if s.dims == 2 else [(degree, bias)])]
        s._post_sampts = s.axes[0]

    def transform_cosmo_multipoles(s, direction, samples):
        d = {'forward': 1, 'backward': -1}.get(direction, direction)
        a = asarr(samples)
        n = asarr(s.pts).shape_[0]
        if a.ndim != s.dims or not all(pysym.deq(q, n) for q in a.shape_):
            raise ValueError('samples do not match the points')
        t = OPS.id('transform', Iv(s.id), d, a)
        r = Arr.of((n,) * s.dims, lambda ix: V(app('tr.re', (t,) + tuple(ix), 'R'), app('tr.im', (t,) + tuple(ix), 'R'), 'c'), 'c')
        return (s._post_sampts if s.dims == 1 else pynp.meshgrid(*s.axes, indexing='ij')), r


class Bessel2(Bessel):
    name, dims, more = 'dsbt', 2, {'extrap2d': False, 'threaded': False}

    def __init__(s, degrees, biases, sample_pts, **kw): Bessel.__init__(s, tuple(degrees), tuple(biases), sample_pts, **kw)


def simpson_(y, x=None, dx=1., axis=-1, **kw):
    y, x = asarr(y), asarr(x)
    if axis not in (-1, y.ndim - 1) or not pysym.deq(x.shape_[0], y.shape_[-1]):
        raise Unsupported('integration along another axis')
    w, n, g = OPS.id('simpson', x), x.shape_[0], y.snap()

    def at(ix):
        k = fresh('s', 'I')
        return pynp.sumv(k, ZI, n, pysym.v_mul(Rv(app('weight', (w, k), 'R')), g(ix + (k,))))
    return at(()) if y.ndim == 1 else Arr.of(y.shape_[:-1], at, y.k)


def mod():
    OPS.rows.clear()
    W = c_P19.winconv()
    W.set('InterpolatedUnivariateSpline', Spl1)
    W.set('RectBivariateSpline', Spl2)
    W.set('simpson', simpson_)
    W.set('SphericalBesselTransform', Bessel)
    W.set('DoubleSphericalBesselTransform', Bessel2)
    W.set('restore_warnings', lambda caught, **kw: [pysym.WARN.warn(w.message) for w in caught])
    W.set('tqdm', lambda it, **kw: it)
    return W


# ------------------------------------------------------------------ formulae
def C(i): return Rv(R('c%d' % i))


TWO = {
    'wilson+16': 'wilson+16',
    'arbitrary': {0: [(0, 0, C(0)), (2, 2, C(1))], 2: [(2, '0', C(2)), ((0,), 2, C(3)), (4, 2, C(4))], 4: [(8, 4, C(5))]},
    'unordered': {4: [(0, 4, C(0)), (2, 0, C(1))], 0: [(10, 4, C(2)), (0, 0, C(3)), (0, 0, C(4))]},
    'one term': {'0': [(0, 0, C(0))]},
}
THREE = {
    'sugiyama+19': 'sugiyama+19',
    'arbitrary': {'000': [('000', '000', C(0)), ('000', 'ic', C(1)), ('110', (1, 1, 0), C(2))], (2, 0, 2): [('000', '202', C(3)), ('112', '110', C(4)), ('202', 'ic', C(5))]},
    'without constraint': {'112': [('000', '112', C(0)), ('022', '110', C(1)), ('022', '112', C(2))], '000': [((0, 0, 0), '000', C(3))]},
    'one term': {'000': [('000', '000', '1/3')]},
}


def terms_of(W, fm):
    """{multipole index: [(window index, input index or 'ic', coefficient)]} read independently"""
    if isinstance(fm, str):
        fm = W['NAMED_FORMULAE'][fm]

    def ix(m):
        if isinstance(m, str):
            m = m.split(',') if ',' in m else m
        return (m,) if isinstance(m, int) else tuple(int(c) for c in m)
    out = {}
    for m, ts in fm.items():
        out[ix(m)] = [(ix(q), z if z == 'ic' else ix(z), pysym.lit(Fraction(c) if isinstance(c, str) else c)) for q, z, c in ts]
    return out


from fractions import Fraction


def nonzero(ts): return [not_(eq(pysym.real(c), ZR)) for v in ts.values() for _, _, c in v]


def nm(ix): return '_'.join(map(str, ix))
def nq(ix): return I('nq' + nm(ix))
def nz(ix): return I('nz' + nm(ix))
def no(ix): return I('no' + nm(ix))
def sizes(ts): return [lt(OI, f(x)) for x in sorted({q for v in ts.values() for q, _, _ in v} | {z for v in ts.values() for _, z, _ in v if z != 'ic'} | set(ts)) for f in (nq, nz, no)]


def Qs(ts): return sorted({q for v in ts.values() for q, _, _ in v})
def Zs(ts): return sorted({z for v in ts.values() for _, z, _ in v if z != 'ic'})


SPELL = (lambda ix: ix, lambda ix: ','.join(map(str, ix)) if len(ix) > 1 else ix[0], lambda ix: tuple(map(str, ix)))


def inputs(ts, dims, spell, shared=None):
    """window points, window values, input points, input values, output points"""
    sq = (lambda n: (n,) * dims)
    rq = {spell(q): Arr.sym('rq' + nm(q), (nq(q),)) for q in Qs(ts)}
    Q = {spell(q): Arr.sym('Q' + nm(q), sq(nq(q))) for q in Qs(ts)}
    ri = {spell(z): Arr.sym('ri' + nm(z), (nz(z),)) for z in Zs(ts)}
    Z = {spell(z): Arr.sym('Z' + nm(z), sq(nz(z))) for z in Zs(ts)}
    ro = {spell(m): Arr.sym('ro' + nm(m), (no(m),)) for m in ts}
    return rq, Q, ri, Z, ro


def untouched(u, tag, ts, arrs, dims, h):
    names = ('rq', 'Q', 'ri', 'Z', 'ro')
    for a, p in zip(arrs, names):
        for k, v in a.items():
            ix = k if isinstance(k, tuple) and all(isinstance(q, int) for q in k) else None
            if ix is not None:
                unchanged(u, '%s: %s %s given is untouched' % (tag, p, k), v, lambda i: Rv(app(p + nm(ix) + '[]', tuple(i), 'R')), h)


def keys_are(u, tag, W, d, ts):
    return u.true(tag + ': a result for each multipole of the formulae', sorted(d) == sorted(W['Multipole'](m) for m in ts), repr(list(d)))


def unit_formulae(u):
    """formulae hold exactly the terms given, under any spelling"""
    for nm_, fm in list(TWO.items()) + list(THREE.items()):
        for wrap in (False, True):
            W = mod()
            ts = terms_of(W, fm)
            Mp, Tm = W['Multipole'], W['WinConvTerm']

            def go():
                f = W['NAMED_FORMULAE'][fm] if isinstance(fm, str) else fm
                if wrap:
                    f = {Mp(m): [Tm(*t) for t in v] for m, v in f.items()}
                return W['WinConvFormulae'](f), len(pysym.X.path.warnings)

            def post(v, h, p, tag):
                F, wn = v
                u.true(tag + ': no warning', wn == 0)
                u.true(tag + ': multipoles in order', list(F.multipoles) == sorted(Mp(m) for m in ts))
                u.true(tag + ': window multipoles', list(F.multipoles_Q) == sorted(Mp(q) for q in Qs(ts)))
                ic = any(z == 'ic' for v in ts.values() for _, z, _ in v)
                u.true(tag + ': input multipoles', list(F.multipoles_Z) == sorted(Mp(z) for z in Zs(ts)) + (['ic'] if ic else []), repr(F.multipoles_Z))
                for m, want in ts.items():
                    for key in (m, Mp(m), SPELL[1](m)):
                        got = F[key]
                        if not u.true(tag + ': %s: number of terms' % (m,), len(got) == len(want)):
                            continue
                        for t, (q, z, c) in zip(got, want):
                            u.true(tag + ': %s: multipoles of the term' % (m,), t.multipole_Q == Mp(q) and t.multipole_Z == (z if z == 'ic' else Mp(z)) and t.index_Q == q and t.index_Z == z, repr((t.multipole_Q, t.multipole_Z)))
                            pylib.same(u, tag + ': %s: coefficient' % (m,), pysym.lit(t.coeff), c, h)
                d = F.get_dict()
                u.true(tag + ': the dictionary is a copy of all formulae', sorted(d) == sorted(F.multipoles) and d is not F._formulae and all(d[m] is not F._formulae[m] and len(d[m]) == len(F._formulae[m]) for m in d))
            calls(u, 'formulae %s' % nm_, go, nonzero(ts), post)
    W = mod()
    calls(u, 'a term of no weight', lambda: (W['WinConvTerm']('000', '000', Rv(R('c'))), len(pysym.X.path.warnings)), [], lambda v, h, p, tag: u.holds(tag + ': warned of', eq(R('c'), ZR) if v[1] else not_(eq(R('c'), ZR)), h))
    T = W['WinConvTerm']

    def eqs():
        return [bool(T('000', '110', Rv(R('a'))) == T((0, 0, 0), (1, 1, 0), Rv(R('b')))), bool(T('000', '110', Rv(R('a'))) == T('110', '110', Rv(R('a')))), bool(T('000', '110', Rv(R('a'))) == T('000', 'ic', Rv(R('a')))),
                bool(T('000', 'ic', Rv(R('a'))) == T('0,0,0', 'ic', Rv(R('a'))))]

    def post(v, h, p, tag):
        u.holds(tag + ': same multipoles: equal by coefficient', eq(R('a'), R('b')) if v[0] else not_(eq(R('a'), R('b'))), h)
        u.true(tag + ': different multipoles differ', v[1] is False and v[2] is False and v[3] is True)
    calls(u, 'equality of terms', eqs, [], post)
    u.fn('winconv.WinConvTerm.__init__', 'winconv.WinConvTerm.__eq__', 'winconv.WinConvFormulae.__init__', 'winconv.WinConvFormulae.__getitem__', 'winconv.WinConvFormulae.get_dict')


# ------------------------------------------------------------------ coefficients
def fac(n): return math.factorial(n)


def h2(a, b, c):
    """squared 3j symbol of vanishing orders (closed form), and its sign"""
    J = a + b + c
    if J % 2 or c > a + b or a > b + c or b > a + c:
        return Fraction(0), 0
    g = J // 2
    v = Fraction(fac(J - 2 * a) * fac(J - 2 * b) * fac(J - 2 * c), fac(J + 1)) * Fraction(fac(g), fac(g - a) * fac(g - b) * fac(g - c)) ** 2
    return v, -1 if g % 2 else 1


def sqrt_exact(q):
    """sqrt of a rational as (rational, squarefree integer)"""
    n = q.numerator * q.denominator
    r, s, p = 1, 1, 2
    while p * p <= n:
        while n % (p * p) == 0:
            n //= p * p
            r *= p
        p += 1
    return Fraction(r, q.denominator), n


def tri(a, b, c): return abs(a - b) <= c <= a + b


def three_j(j1, j2, j3, m1, m2, m3):
    """Racah's sum"""
    if m1 + m2 + m3 or not tri(j1, j2, j3) or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
        return 0.
    pre = Fraction(fac(j1 + j2 - j3) * fac(j1 - j2 + j3) * fac(-j1 + j2 + j3), fac(j1 + j2 + j3 + 1))
    pre *= fac(j1 + m1) * fac(j1 - m1) * fac(j2 + m2) * fac(j2 - m2) * fac(j3 + m3) * fac(j3 - m3)
    s = Fraction(0)
    for k in range(0, j1 + j2 + j3 + 1):
        d = (k, j1 + j2 - j3 - k, j1 - m1 - k, j2 + m2 - k, j3 - j2 + m1 + k, j3 - j1 - m2 + k)
        if min(d) >= 0:
            q = 1
            for x in d:
                q *= fac(x)
            s += Fraction((-1) ** k, q)
    return (-1) ** (j1 - j2 - m3) * float(s) * math.sqrt(pre)


def gaunt_like(m, Q, Z):
    """coefficient from the expansion itself: 9j symbol by its sum over orders"""
    (l1, l2, L), (p1, p2, P), (q1, q2, QL) = m, Z, Q
    h = lambda *a: (lambda v, s: s * math.sqrt(v))(*h2(*a))
    num_ = h(l1, l2, L) * h(l1, p1, q1) * h(l2, p2, q2) * h(L, P, QL)
    if num_ == 0:
        return 0.
    return (2 * l1 + 1) * (2 * l2 + 1) * (2 * L + 1) * nine_j((q1, q2, QL), (p1, p2, P), (l1, l2, L)) * num_ / h(p1, p2, P) / h(q1, q2, QL)


def nine_j(a, b, c):
    """sum over orders of six 3j symbols (rows a, b, c)"""
    rows = (a, b, c)
    if not all(tri(*r) for r in rows) or not all(tri(*r) for r in zip(*rows)):
        return 0.
    # with the last column's and row's orders summed over the independent ones
    s = 0.
    for m11 in range(-a[0], a[0] + 1):
        for m12 in range(-a[1], a[1] + 1):
            m13 = -m11 - m12
            if abs(m13) > a[2]:
                continue
            x = three_j(*a, m11, m12, m13)
            if not x:
                continue
            for m21 in range(-b[0], b[0] + 1):
                m31 = -m11 - m21
                if abs(m31) > c[0]:
                    continue
                y = three_j(a[0], b[0], c[0], m11, m21, m31)
                if not y:
                    continue
                for m22 in range(-b[1], b[1] + 1):
                    m23, m32 = -m21 - m22, -m12 - m22
                    m33 = -m31 - m32
                    if abs(m23) > b[2] or abs(m32) > c[1] or abs(m33) > c[2]:
                        continue
                    s += x * y * three_j(*b, m21, m22, m23) * three_j(*c, m31, m32, m33) * three_j(a[1], b[1], c[1], m12, m22, m32) * three_j(a[2], b[2], c[2], m13, m23, m33)
    return s


def unit_coeff(u):
    """the coefficient of any term, for 3j and 9j symbols as given"""
    W = mod()
    W.set('wigner_3j', lambda *a: Rv(app('w3j', tuple(pysym.tt(pysym.lit(x)) for x in a), 'R')))
    W.set('wigner_9j', lambda *a, **k: Rv(app('w9j', tuple(pysym.tt(pysym.lit(x)) for x in a), 'R')))
    m, q, z = ([I('%s%d' % (c, i)) for i in range(3)] for c in 'mqz')
    H = lambda a, b, c: app('w3j', (a, b, c, ZI, ZI, ZI), 'R')
    want = toreal((m[0] * 2 + 1) * (m[1] * 2 + 1) * (m[2] * 2 + 1)) * app('w9j', tuple(q + z + m), 'R') \
        * div(H(*m) * H(m[0], z[0], q[0]) * H(m[1], z[1], q[1]) * H(m[2], z[2], q[2]), H(*z) * H(*q))
    tup = lambda x: tuple(Iv(i) for i in x)
    for symb in (True, False):
        calls(u, 'coefficient' + (' as an expression' if symb else ''), lambda: W['calc_threept_winconv_coeff'](tup(m), tup(q), tup(z), symb=symb), [not_(eq(H(*z), ZR)), not_(eq(H(*q), ZR))],
              lambda v, h, p, tag: pylib.same(u, tag + ': the value', v, Rv(want), h))
    same_ = and_(*[eq(a, b) for a, b in zip(m, q)])
    calls(u, 'coefficient of the integral constraint', lambda: W['calc_threept_winconv_coeff'](tup(m), tup(q), 'ic'), [], lambda v, h, p, tag: u.eq(tag + ': the value', pysym.tt(pysym.lit(v)), ite(same_, num(-1, 'I'), ZI), h))
    calls(u, 'prefactor', lambda: (W['_N_prefactor'](multipole=W['Multipole'](tup(m))), W['_N_prefactor'](ell1=Iv(m[0]), ell2=Iv(m[1]), L=Iv(m[2]))), [],
          lambda v, h, p, tag: [u.eq(tag + ': the value', pysym.tt(x), (m[0] * 2 + 1) * (m[1] * 2 + 1) * (m[2] * 2 + 1), h) for x in v])
    u.fn('winconv.calc_threept_winconv_coeff', 'winconv._N_prefactor', 'winconv._H_factor')


def unit_named(u):
    """named formulae hold the coefficients of the coupling expansion, exactly"""
    import sympy
    W = mod()
    two, three = terms_of(W, 'wilson+16'), terms_of(W, 'sugiyama+19')
    for (l,), ts in two.items():
        for (q,), (z,), c in ts:
            u.eq('two-point multipole %d, term of window %d and input %d' % (l, q, z), pysym.real(c), num((2 * l + 1) * h2(l, q, z)[0], 'R'))
    # every window and input multipole coupling to these, up to the highest input multipole
    for (l,), ts in two.items():
        want = {(q, z) for z in (0, 2, 4) for q in range(0, l + z + 1) if h2(l, q, z)[0]}
        have = {(q[0], z[0]) for q, z, _ in ts}
        u.true('two-point multipole %d: no term twice, only coupled ones' % l, len(have) == len(ts) and have <= want, repr(have - want))
    for m, ts in three.items():
        have = [(q, z) for q, z, _ in ts]
        u.true('three-point multipole %s: no term twice' % (m,), len(set(have)) == len(have))
        for q, z, c in ts:
            if z == 'ic':
                u.true('three-point multipole %s: constraint with its window multipole, subtracted' % (m,), q == m and pysym.real(c) is num(-1, 'R'))
                continue
            e = gaunt_like(m, q, z)
            u.true('three-point multipole %s, term of window %s and input %s: from the coupling expansion' % (m, q, z), abs(float(pysym.nv(pysym.real(c))) - e) < 1e-12, e)
            x = W['calc_threept_winconv_coeff'](m, q, z, symb=True)
            u.true('three-point multipole %s, term of window %s and input %s: as calculated' % (m, q, z), sympy.nsimplify(x) == sympy.Rational(*(lambda f: (f.numerator, f.denominator))(Fraction(pysym.nv(pysym.real(c))))), repr(x))
        u.true('three-point multipole %s: has a constraint' % (m,), any(z == 'ic' for _, z, _ in ts))
    u.fn('winconv.NAMED_FORMULAE')


# ------------------------------------------------------------------ correlation functions
def spl1(x, y, k, ext, p): return app('spl', (OPS.id('spline', x, y.real if y.k == 'c' else y, k, ext), p), 'R')
def spl2(x, y, k, a, b, x2=None): return app('spl', (OPS.id('spline2', x, x if x2 is None else x2, y.real if y.k == 'c' else y, k, k), a, b), 'R')


def at1(a, i): return pysym.real(asarr(a).get((i,)))


def conv1(ts, m, i, rq, Q, ri, Z, ro, k, ic=None, diag=False):
    """sum over the terms at output point i"""
    s = ZR
    p = at1(ro, i)
    for q, z, c in ts[m]:
        w = Q(q)
        s = s + pysym.real(c) * spl1(rq(q), pynp.diag(w) if diag else w, k, 3, p) * (ic if z == 'ic' else spl1(ri(z), Z(z), k, 0, p))
    return s


def conv2(ts, m, i, j, rq, Q, ri, Z, ro, k, ic=None):
    s = ZR
    a, b = at1(ro, i), at1(ro, j)
    for q, z, c in ts[m]:
        s = s + pysym.real(c) * spl2(rq(q), Q(q), k, a, b) * (ic if z == 'ic' else spl2(ri(z), Z(z), k, a, b))
    return s


def look(d, spell): return lambda x: d[spell(x)]


def unit_2pcf(u):
    for nm_, fm in TWO.items():
        for si, spell in enumerate(SPELL):
            for k in (3, 1):
                if (si, k) not in ((0, 3), (1, 3), (2, 1)):
                    continue
                W = mod()
                ts = terms_of(W, fm)
                W.set('_check_conv_range', lambda a, b: True)

                def go():
                    x = inputs(ts, 1, spell)
                    rq, Q, ri, Z, ro = x
                    c = W['TwoPCFWinConv'](fm, rq, Q, ri, r_out=ro, **({} if k == 3 else {'spline': k}))
                    return c.convolve(Z), x

                def post(v, h, p, tag):
                    out, (rq, Q, ri, Z, ro) = v
                    if not keys_are(u, tag, W, out, ts):
                        return
                    for m in ts:
                        elems(u, tag + ': %s' % (m,), out[W['Multipole'](m)], (no(m),), lambda i: Rv(conv1(ts, m, i, look(rq, spell), look(Q, spell), look(ri, spell), look(Z, spell), ro[spell(m)], k)), h)
                    untouched(u, tag, ts, v[1], 1, h)
                calls(u, 'two-point correlation functions, %s, degree %d' % (nm_, k), go, nonzero(ts) + sizes(ts), post)
    # common points; complex input
    W = mod()
    ts = terms_of(W, TWO['arbitrary'])
    W.set('_check_conv_range', lambda a, b: True)
    pre = nonzero(ts) + sizes(ts) + [lt(OI, n_), lt(OI, K_)]

    def go():
        rq, ri, ro = Arr.sym('rq', (n_,)), Arr.sym('ri', (K_,)), Arr.sym('ro', (I('o'),))
        Q = {q: Arr.sym('Q' + nm(q), (n_,)) for q in Qs(ts)}
        Z = {z: Arr.sym('Z' + nm(z), (K_,), 'c') for z in Zs(ts)}
        return [W['TwoPCFWinConv'](TWO['arbitrary'], rq, Q, ri, r_out=x).convolve(Z) for x in (ro, None)], rq, Q, ri, Z, ro

    def post(v, h, p, tag):
        outs, rq, Q, ri, Z, ro = v
        for out, o, n in ((outs[0], ro, I('o')), (outs[1], ri, K_)):
            if keys_are(u, tag, W, out, ts):
                for m in ts:
                    elems(u, tag + ': %s' % (m,), out[W['Multipole'](m)], (n,), lambda i: Rv(conv1(ts, m, i, lambda q: rq, lambda q: Q[q], lambda z: ri, lambda z: Z[z], o, 3)), h)
    calls(u, 'two-point correlation functions at common points', go, pre + [lt(OI, I('o'))], post)
    u.fn('winconv.TwoPCFWinConv.__init__', 'winconv.TwoPCFWinConv.convolve', 'winconv.WinConvBase.__init__', 'winconv.WinConvBase.initialise_sampts')


def ic_stub(W, seen):
    def f(window_sampts, window_multipoles, r, zeta, r_common=None, approx=False, spline=3):
        seen.append((window_sampts, window_multipoles, r, zeta, r_common, approx, spline))
        return Rv(R('ic*'))
    W.set('calc_threept_ic', f)


def dict_is(u, W, tag, d, ts_keys, want, h, dims):
    """d[m] is the array want(m) for each of these multipoles"""
    if not u.true(tag + ': multipoles', isinstance(d, dict) and {W['Multipole'](k) for k in d} == {W['Multipole'](k) for k in ts_keys}, repr(d)):
        return
    for k, a in d.items():
        ix = W['Multipole'](k).index
        w = want(ix)
        g = w.snap()
        elems(u, tag + ': %s' % (ix,), asarr(a), w.shape_, lambda *i: g(tuple(i)), h)


def unit_3pcf(u):
    for nm_, fm in THREE.items():
        for si, (spell, k, icgiven) in enumerate(((SPELL[0], 3, True), (SPELL[1], 3, False), (SPELL[2], 1, True))):
            W = mod()
            ts = terms_of(W, fm)
            hasic = any(z == 'ic' for v in ts.values() for _, z, _ in v)
            W.set('_check_conv_range', lambda a, b: True)
            seen = []
            ic_stub(W, seen)

            def go():
                del seen[:]
                x = inputs(ts, 2, spell)
                rq, Q, ri, Z, ro = x
                c = W['ThreePCFWinConv'](fm, rq, Q, ri, r_out=ro, **({} if k == 3 else {'spline': k}))
                return c.convolve(Z, **({'ic': Rv(R('ic'))} if icgiven else {})), x, list(seen)

            def post(v, h, p, tag):
                out, (rq, Q, ri, Z, ro), sn = v
                if not keys_are(u, tag, W, out, ts):
                    return
                ic = R('ic') if icgiven else R('ic*')
                for m in ts:
                    elems(u, tag + ': %s' % (m,), out[W['Multipole'](m)], (no(m), no(m)), lambda i, j: Rv(conv2(ts, m, i, j, look(rq, spell), look(Q, spell), look(ri, spell), look(Z, spell), ro[spell(m)], k, ic)), h)
                if icgiven or not hasic:
                    u.true(tag + ': the constraint given is used', not sn)
                elif u.true(tag + ': the constraint is calculated', len(sn) >= 1):
                    for s in sn:
                        dict_is(u, W, tag + ': constraint, window points', s[0], Qs(ts), look(rq, spell), h, 1)
                        dict_is(u, W, tag + ': constraint, window values', s[1], Qs(ts), look(Q, spell), h, 2)
                        dict_is(u, W, tag + ': constraint, input points', s[2], Zs(ts), look(ri, spell), h, 1)
                        dict_is(u, W, tag + ': constraint, input values', s[3], Zs(ts), look(Z, spell), h, 2)
                        u.true(tag + ': constraint, in full', s[4] is None and not s[5])
                untouched(u, tag, ts, v[1], 2, h)
            calls(u, 'three-point correlation functions, %s' % nm_, go, nonzero(ts) + sizes(ts), post)

            def god():
                rq, Q, ri, Z, ro = inputs(ts, 2, spell)
                Z = {spell(z): Arr.sym('Z' + nm(z), (nz(z),)) for z in Zs(ts)}
                c = W['ThreePCFWinConv'](fm, rq, Q, ri, r_out=ro, **({} if k == 3 else {'spline': k}))
                return c.convolve_diag(Z, **({'ic': Rv(R('ic'))} if icgiven else {})), (rq, Q, ri, Z, ro)

            def postd(v, h, p, tag):
                out, (rq, Q, ri, Z, ro) = v
                if not keys_are(u, tag, W, out, ts):
                    return
                for m in ts:
                    elems(u, tag + ': %s' % (m,), out[W['Multipole'](m)], (no(m),), lambda i: Rv(conv1(ts, m, i, look(rq, spell), look(Q, spell), look(ri, spell), look(Z, spell), ro[spell(m)], k, R('ic'), True)), h)
            if icgiven or not hasic:
                calls(u, 'diagonals, %s' % nm_, god, nonzero(ts) + sizes(ts), postd)
            else:
                E, ps_ = explore(god, nonzero(ts) + sizes(ts))
                u.true('diagonals, %s: a constraint must be given' % nm_, all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps_))
    u.fn('winconv.ThreePCFWinConv.__init__', 'winconv.ThreePCFWinConv.convolve', 'winconv.ThreePCFWinConv.convolve_diag')


# ------------------------------------------------------------------ points
def unit_points(u):
    """input and output points of each multipole"""
    W = mod()
    W.set('_check_conv_range', lambda a, b: True)
    found = []

    def find(*coords, spacing='lglin'):
        found.append((coords, spacing))
        return Arr.sym('found%d' % len(found), (I('f%d' % len(found)),))
    W.set('_find_conv_range', find)
    for nm_, fm in (('wilson+16', 'wilson+16'), ('sugiyama+19', 'sugiyama+19'), ('arbitrary', TWO['unordered']), ('without constraint', THREE['without constraint'])):
        ts = terms_of(W, fm)
        dims = len(list(ts)[0]) // 2 + 1
        Mp = W['Multipole']
        for spell in SPELL[:2]:
            for given in ('dict', 'array'):
                for out in ('dict', 'array', 'none', 'cover'):
                    def go():
                        del found[:]
                        rq, Q, ri, Z, ro = inputs(ts, dims, spell)
                        c = W['WinConvBase'](fm, rq, Q)
                        first = (c.r_in, c.r_out)
                        gi = ri if given == 'dict' else Arr.sym('ri', (n_,))
                        g_o = {'dict': ro, 'array': Arr.sym('ro', (K_,))}.get(out)
                        c.initialise_sampts(gi, r_out=g_o, enforce_coverage=out == 'cover')
                        return c, gi, g_o, rq, first, list(found)
                    impossible = out == 'none' and not set(ts) <= set(Zs(ts))

                    def post(v, h, p, tag):
                        c, gi, g_o, rq, first, fd = v
                        u.true(tag + ': none before', first == (None, None))
                        win = lambda z: gi if given == 'array' else gi[spell(z)]
                        dict_is(u, W, tag + ': input points', c.r_in, Zs(ts), win, h, 1)
                        if out == 'cover':
                            u.true(tag + ': a range for each multipole', len(fd) == len(ts) and sorted(c.r_out) == sorted(Mp(m) for m in ts))
                            for m, (cs, sp) in zip(sorted(Mp(m) for m in ts), fd):
                                want = [x for q, z, _ in ts[m.index] for x in [rq[spell(q)]] + ([win(z)] if z != 'ic' else [])]
                                u.true(tag + ': %s: from all points of its terms' % m, sp == 'lglin' and {str(asarr(a).get((I('i'),))) for a in cs} == {str(asarr(a).get((I('i'),))) for a in want})
                                u.true(tag + ': %s: its own range' % m, any(c.r_out[m] is not None and show(c.r_out[m].get((I('i'),)).re) == 'found%d[](i)' % (j + 1) and fd[j][0] is cs for j in range(len(fd))))
                        else:
                            dict_is(u, W, tag + ': output points', c.r_out, list(ts), lambda m: win(m) if out == 'none' else g_o if out == 'array' else g_o[spell(m)], h, 1)
                    calls(u, 'points, %s, input %s, output %s' % (nm_, given, out), go, nonzero(ts) + sizes(ts) + [lt(OI, n_), lt(OI, K_)], post if not impossible else (lambda v, h, p, tag: u.true(tag + ': accepted', False)), rejects=TRUE if impossible else FALSE) if not impossible else \
                        u.true('points, %s: no output points to be had' % nm_, all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in explore(go, nonzero(ts) + sizes(ts) + [lt(OI, n_), lt(OI, K_)])[1]))
    # missing window multipoles, unknown names, superfluous input points
    ts = terms_of(W, 'sugiyama+19')
    bad = lambda name, f: u.true(name, all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in explore(f, sizes(ts))[1]))

    def missing(which):
        def f():
            rq, Q, ri, Z, ro = inputs(ts, 2, SPELL[0])
            (rq if which == 'r' else Q).pop((1, 1, 2))
            return W['WinConvBase']('sugiyama+19', rq, Q)
        return f
    bad('missing window points are noticed', missing('r'))
    bad('missing window values are noticed', missing('Q'))
    bad('an unknown name is noticed', lambda: W['WinConvBase']('sugiyama+18', {}, {}))

    def extra():
        rq, Q, ri, Z, ro = inputs(ts, 2, SPELL[0])
        W['WinConvBase']('Sugiyama+19', rq, Q).initialise_sampts(dict(ri, **{'4,4,4': ri[(0, 0, 0)]}))
    bad('superfluous input points are noticed', extra)
    u.fn('winconv.WinConvBase.__init__', 'winconv.WinConvBase.initialise_sampts')


def unit_range(u):
    W = mod()
    f = W['_find_conv_range']
    for cnt in (1, 2, 3):
        names = ['a', 'b', 'c'][:cnt]
        lens = [I('n' + x) for x in names]
        for sp in ('lglin', 'lin'):
            def go(): return f(*[Arr.sym(x, (n,)) for x, n in zip(names, lens)], **({} if sp == 'lglin' else {'spacing': sp}))
            mins = [pysym.real(pynp.np_ext(Arr.sym(x, (n,)), 'minf')) for x, n in zip(names, lens)]
            maxs = [pysym.real(pynp.np_ext(Arr.sym(x, (n,)), 'maxf')) for x, n in zip(names, lens)]

            def ext(xs, mx):
                r = xs[0]
                for x in xs[1:]:
                    r = ite(lt(r, x) if mx else lt(x, r), x, r)
                return r
            n = ext(lens, False)
            lo, hi = ext(mins, True), ext(maxs, False)

            def want(i):
                if sp == 'lin':
                    return Rv(lo + (hi - lo) * div(toreal(i), toreal(n - 1)))
                return Rv(real_fn('exp', real_fn('log', lo) + (real_fn('log', hi) - real_fn('log', lo)) * div(toreal(i), toreal(n - 1))))
            calls(u, 'common range of %d, %s' % (cnt, sp), go, [lt(OI, x) for x in lens] + [lt(ZR, x) for x in mins + maxs], lambda v, h, p, tag: elems(u, tag, v, (n,), want, h))
    E, ps_ = explore(lambda: f(Arr.sym('a', (n_,)), spacing='log'), [lt(OI, n_)])
    u.true('another spacing is rejected', all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps_))
    # coverage
    chk = W['_check_conv_range']
    mn = lambda x, n: pysym.real(pynp.np_ext(Arr.sym(x, (n,)), 'minf'))
    mx = lambda x, n: pysym.real(pynp.np_ext(Arr.sym(x, (n,)), 'maxf'))
    tol = rn('1/100000')

    def covered(c, s): return and_(le((rn(1) - tol) * mn(s, I('n' + s)), mn(c, I('n' + c))), le(mx(c, I('n' + c)), (rn(1) + tol) * mx(s, I('n' + s))))
    A = lambda x: Arr.sym(x, (I('n' + x),))
    pre = [lt(ZI, I('n' + x)) for x in 'abcdef']
    t = lambda v: bool(v)
    for name, go, want in (('array', lambda: t(chk(A('a'), A('b'))), covered('a', 'b')), ('dictionary in an array', lambda: t(chk({1: A('a'), 2: A('b')}, A('c'))), and_(covered('a', 'c'), covered('b', 'c'))),
                           ('common multipoles', lambda: t(chk({1: A('a'), 2: A('b'), 3: A('e')}, {2: A('c'), 1: A('d'), 4: A('f')})), and_(covered('a', 'd'), covered('b', 'c')))):
        calls(u, 'coverage, ' + name, go, pre, lambda v, h, p, tag: u.holds(tag + ': as it is', want if v else not_(want), h))
    u.fn('winconv._find_conv_range', 'winconv._check_conv_range')


def unit_warn(u):
    """a warning for every term whose points do not cover the output points"""
    W = mod()
    for fm in (TWO['unordered'], THREE['arbitrary']):
        ts = terms_of(W, fm)
        dims = len(list(ts)[0]) // 2 + 1
        W.set('_check_conv_range', lambda a, b: pysym.B(app('cov', (OPS.id(a), OPS.id(b)), 'B')))

        def go():
            rq, Q, ri, Z, ro = inputs(ts, dims, SPELL[0])
            c = W['WinConvBase'](fm, rq, Q)
            c.initialise_sampts(ri, r_out=ro)
            return len([w for w in pysym.X.path.warnings if w[1] == 'ConvolutionRangeWarning']), (rq, ri, ro)

        def post(v, h, p, tag):
            cnt, (rq, ri, ro) = v
            s = ZI
            for m, xs in ts.items():
                for q, z, _ in xs:
                    s = s + ite(app('cov', (OPS.id(ro[m]), OPS.id(rq[q])), 'B'), ZI, OI)
                    if z != 'ic':
                        s = s + ite(app('cov', (OPS.id(ro[m]), OPS.id(ri[z])), 'B'), ZI, OI)
            u.eq(tag + ': as many warnings as uncovered terms', num(cnt, 'I'), s, h)
        calls(u, 'warnings', go, nonzero(ts) + sizes(ts), post, limit=3000)
    u.fn('winconv.WinConvBase.initialise_sampts')


# ------------------------------------------------------------------ integral constraint
def unit_ic(u):
    x, y = Arr.sym('x', (n_,)), Arr.sym('y', (K_,))
    W = mod()

    def wsum(xid, n, f):
        k = fresh('s', 'I')
        return sum_(k, ZI, n, app('weight', (xid, k), 'R') * f(k))

    def integ(a, na, b, nb, z):
        """sum over both axes of weights, squares and values"""
        ia, ib = OPS.id('simpson', a), OPS.id('simpson', b)
        return wsum(ia, na, lambda i: wsum(ib, nb, lambda j: z(i, j) * at1(b, j) * at1(b, j)) * at1(a, i) * at1(a, i))
    calls(u, 'double integral', lambda: W['_integrate_2d_samples'](x, y, Arr.sym('z', (n_, K_))), [lt(OI, n_), lt(OI, K_)],
          lambda v, h, p, tag: pylib.same(u, tag, v, Rv(integ(x, n_, y, K_, lambda i, j: app('z[]', (i, j), 'R'))), h))
    keys = [(0, 0, 0), (1, 1, 0), (2, 0, 2), (1, 1, 2)]
    Wk, Zk = keys + [(0, 2, 2)], keys + [(2, 2, 0)]
    for name, common_, approx, spell, k, cplx in (('own points', None, False, SPELL[0], 3, False), ('given points', 'a', False, SPELL[1], 3, True), ('points by multipole', 'd', False, SPELL[2], 2, False),
                                                  ('leading term', None, True, SPELL[0], 3, False), ('shared points', 'shared', False, SPELL[0], 3, False)):
        W = mod()
        W.set('_check_conv_range', lambda a, b: True)

        def go():
            sh = common_ == 'shared'
            rq = Arr.sym('rq', (n_,)) if sh else {spell(q): Arr.sym('rq' + nm(q), (nq(q),)) for q in Wk}
            Q = {spell(q): Arr.sym('Q' + nm(q), ((n_,) if sh else (nq(q),)) * 2) for q in Wk}
            r = Arr.sym('ri', (K_,)) if sh else {spell(z): Arr.sym('ri' + nm(z), (nz(z),)) for z in Zk}
            Z = {spell(z): Arr.sym('Z' + nm(z), ((K_,) if sh else (nz(z),)) * 2, 'c' if cplx else 'f') for z in Zk}
            rc = {'a': Arr.sym('rc', (I('o'),)), 'd': {W['Multipole'](z): Arr.sym('rc' + nm(z), (no(z),)) for z in keys}}.get(common_)
            kw = {} if k == 3 else {'spline': k}
            v = W['calc_threept_ic'](rq, Q, r, Z, r_common=rc, approx=approx, **kw)
            return v, rq, Q, r, Z, rc

        def post(v, h, p, tag):
            v, rq, Q, r, Z, rc = v
            sh = common_ == 'shared'
            prq = lambda q: rq if sh else rq[spell(q)]
            pr = lambda z: r if sh else r[spell(z)]
            pc = lambda z: {'a': lambda: rc, 'd': lambda: rc[W['Multipole'](z)]}.get(common_, lambda: pr(z))()
            ln = lambda z: pc(z).shape_[0]
            q_ = lambda z: (lambda i, j: spl2(prq(z), Q[spell(z)], k, at1(pc(z), i), at1(pc(z), j)))
            z_ = lambda z: (lambda i, j: spl2(pr(z), Z[spell(z)], k, at1(pc(z), i), at1(pc(z), j)))
            tot = ZR
            for z in ([keys[0]] if approx else keys):
                a, b = q_(z), z_(z)
                N = (2 * z[0] + 1) * (2 * z[1] + 1) * (2 * z[2] + 1)
                tot = tot + num(N * h2(*z)[0], 'R') * integ(pc(z), ln(z), pc(z), ln(z), lambda i, j: a(i, j) * b(i, j))
            den = integ(pc(keys[0]), ln(keys[0]), pc(keys[0]), ln(keys[0]), q_(keys[0]))
            u.eq(tag + ': weighted ratio of integrals', pysym.real(v), div(tot, den), h)
        calls(u, 'integral constraint, ' + name, go, [lt(OI, f(z)) for z in set(Wk + Zk) for f in (nq, nz, no)] + [lt(OI, n_), lt(OI, K_), lt(OI, I('o'))], post)
    W = mod()
    W.set('_check_conv_range', lambda a, b: True)

    def without():
        ks = [(1, 1, 0)]
        return W['calc_threept_ic']({q: Arr.sym('rq', (n_,)) for q in ks}, {q: Arr.sym('Q', (n_, n_)) for q in ks}, {q: Arr.sym('ri', (n_,)) for q in ks}, {q: Arr.sym('Z', (n_, n_)) for q in ks})
    E, ps_ = explore(without, [lt(OI, n_)])
    u.true('the monopole is required', all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps_))
    u.fn('winconv.calc_threept_ic', 'winconv._integrate_2d_samples', 'winconv._H_factor', 'winconv._N_prefactor')


# ------------------------------------------------------------------ power spectrum and bispectrum
OPTS = ({}, {'extrap': 1, 'pivot': 2., 'lowring': False}, {'extrap_exp': 3., 'threaded': True})


def unit_pk(u):
    for nm_, fm in TWO.items():
        for si, (spell, kmode, common_, kout, opts) in enumerate(((SPELL[0], 'dict', None, 'given', OPTS[0]), (SPELL[1], 'array', 'given', None, OPTS[1]), (SPELL[2], 'dict', 'given', 'given', OPTS[2]))):
            W = mod()
            ts = terms_of(W, fm)
            if common_ is None and not set(ts) <= set(Zs(ts)):
                common_ = 'given'
            W.set('_check_conv_range', lambda a, b: True)
            W.set('_check_1d_array', lambda a, **k: a)
            found = []

            def find(*coords, spacing='lglin'):
                found.append(coords)
                return Arr.sym('found', (I('f'),))
            W.set('_find_conv_range', find)
            kw = dict(opts)
            two_deg = si == 2

            def go():
                del found[:]
                rq, Q, _, P, _ = inputs(ts, 1, spell)
                ki = {spell(z): Arr.sym('ki' + nm(z), (nz(z),)) for z in Zs(ts)} if kmode == 'dict' else Arr.sym('ki', (n_,))
                P = {spell(z): Arr.sym('P' + nm(z), (nz(z) if kmode == 'dict' else n_,)) for z in Zs(ts)}
                ko = Arr.sym('ko', (K_,)) if kout else None
                rc = Arr.sym('rc', (I('o'),)) if common_ else None
                c = W['PowspecWinConv'](fm, rq, Q, ki, k_out=ko, r_common=rc, transform_kwargs=kw, **({'spline': (1, 2)} if two_deg else {}))
                out = c.convolve(P, ret_xi=True)
                only = c.convolve(P)
                return out, only, c, rq, Q, ki, P, ko, rc, list(found), dict(kw)

            def post(v, h, p, tag):
                (out, xi), only, c, rq, Q, ki, P, ko, rc, fd, kw_ = v
                Mp = W['Multipole']
                u.true(tag + ': options given are left alone', kw_ == opts)
                full = dict(extrap=4)
                full.update({k: v for k, v in opts.items()})
                sp = (1, 2) if two_deg else (3, 3)
                ks = lambda z: ki if kmode == 'array' else ki[spell(z)]
                B = {z: Bessel(z[0], 0, ks(z), **full) for z in Zs(ts)}
                ri = {z: B[z]._post_sampts for z in Zs(ts)}
                X = {z: B[z].transform_cosmo_multipoles(-1, P[spell(z)])[1] for z in Zs(ts)}
                ro = lambda m: rc if common_ else ri[m]
                if not keys_are(u, tag, W, xi, ts) or not keys_are(u, tag, W, out, ts) or not keys_are(u, tag, W, only, ts):
                    return
                F = {m: Bessel(m[0], 0, ro(m), **full) for m in ts}
                if kout is None:
                    u.true(tag + ': output wavenumbers from all transforms', len(fd) == 1 and {str(a.get((I('i'),))) for a in fd[0]} == {str(F[m]._post_sampts.get((I('i'),))) for m in ts})
                for m in ts:
                    n = asarr(ro(m)).shape_[0]
                    elems(u, tag + ': %s: correlation function' % (m,), xi[Mp(m)], (n,), lambda i: Rv(conv1(ts, m, i, look(rq, spell), look(Q, spell), lambda z: ri[z], lambda z: X[z], ro(m), sp[0])), h)
                    g = F[m].transform_cosmo_multipoles(1, xi[Mp(m)])[1]
                    kk = ko if kout else Arr.sym('found', (I('f'),))
                    kx = F[m]._post_sampts
                    for which, o in (('', out), (' alone', only)):
                        elems(u, tag + ': %s: power spectrum%s' % (m, which), o[Mp(m)], (kk.shape_[0],), lambda i: V(spl1(kx, g.real, sp[1], 0, at1(kk, i)), spl1(kx, g.imag, sp[1], 0, at1(kk, i)), 'c'), h)
                for z in Zs(ts):
                    unchanged(u, tag + ': %s: the input is untouched' % (z,), P[spell(z)], lambda i: Rv(app('P' + nm(z) + '[]', tuple(i), 'R')), h)
            calls(u, 'power spectrum, %s, %d' % (nm_, si), go, nonzero(ts) + sizes(ts) + [lt(OI, n_), lt(OI, K_), lt(OI, I('o')), lt(OI, I('f'))], post)
    u.fn('winconv.PowspecWinConv.__init__', 'winconv.PowspecWinConv.convolve')


def unit_bk(respace):
    def unit(u):
        for nm_, fm in THREE.items():
            for si, (spell, kmode, common_, kout, opts, icg) in enumerate(((SPELL[0], 'dict', None, 'given', OPTS[0], True), (SPELL[1], 'array', 'given', None, OPTS[1], True), (SPELL[2], 'dict', 'given', 'given', OPTS[2], False))):
                W = mod()
                ts = terms_of(W, fm)
                hasic = any(z == 'ic' for v in ts.values() for _, z, _ in v)
                if common_ is None and not set(ts) <= set(Zs(ts)):
                    common_ = 'given'
                W.set('_check_conv_range', lambda a, b: True)
                SE = W['SpacingError']
                count = [0]

                def check(a, **k):
                    if respace and show(pysym.real(asarr(a).get((I('i'),)))).startswith('ki'):
                        raise SE('uneven')
                    return a
                W.set('_check_1d_array', check)
                found, seen = [], []

                def find(*coords, spacing='lglin'):
                    found.append(coords)
                    return Arr.sym('found', (I('f'),))
                W.set('_find_conv_range', find)
                ic_stub(W, seen)
                kw = dict(opts)
                deg = si == 2

                def go():
                    del found[:], seen[:]
                    rq, Q, _, _, _ = inputs(ts, 2, spell)
                    ki = {spell(z): Arr.sym('ki' + nm(z), (nz(z),)) for z in Zs(ts)} if kmode == 'dict' else Arr.sym('ki', (n_,))
                    P = {spell(z): Arr.sym('P' + nm(z), (nz(z) if kmode == 'dict' else n_,) * 2) for z in Zs(ts)}
                    ko = Arr.sym('ko', (K_,)) if kout else None
                    rc = Arr.sym('rc', (I('o'),)) if common_ else None
                    c = W['BispecWinConv'](fm, rq, Q, ki, k_out=ko, r_common=rc, transform_kwargs=kw, **({'spline': (1, 2)} if deg else {}))
                    a = {'ic': Rv(R('ic'))} if icg else {}
                    out = c.convolve(P, ret_zeta=True, **a)
                    only = c.convolve(P, **a)
                    return out, only, rq, Q, ki, P, ko, rc, list(found), dict(kw), list(seen), c

                def post(v, h, p, tag):
                    (out, zeta), only, rq, Q, ki, P, ko, rc, fd, kw_, sn, c = v
                    Mp = W['Multipole']
                    u.true(tag + ': options given are left alone', kw_ == opts)
                    full = dict(extrap=5)
                    full.update({k: v for k, v in opts.items()})
                    sp = (1, 2) if deg else (3, 3)
                    k0 = lambda z: ki if kmode == 'array' else ki[spell(z)]

                    def grid(z):
                        x = k0(z)
                        n = x.shape_[0]
                        lo, hi = real_fn('log', at1(x, ZI)), real_fn('log', at1(x, n - 1))
                        return Arr.of((n,), lambda ix: Rv(real_fn('exp', lo + (hi - lo) * div(toreal(ix[0]), toreal(n - 1)))), 'f')
                    ks = grid if respace else k0

                    def inp(z):
                        if not respace:
                            return P[spell(z)]
                        g = grid(z)
                        n = g.shape_[0]
                        return Arr.of((n, n), lambda ix: Rv(spl2(k0(z), P[spell(z)], sp[1], at1(g, ix[0]), at1(g, ix[1]))), 'f')
                    B = {z: Bessel2((z[0], z[1]), (0, 0), ks(z), **full) for z in Zs(ts)}
                    ri = {z: B[z]._post_sampts for z in Zs(ts)}

                    def back(z):
                        # at the same points along both axes
                        y = B[z].transform_cosmo_multipoles(-1, inp(z))[1]
                        if z[0] == z[1]:
                            return y
                        n = ri[z].shape_[0]
                        return Arr.of((n, n), lambda ix: Rv(spl2(ri[z], y, sp[0], at1(ri[z], ix[0]), at1(ri[z], ix[1]), B[z].axes[1])), 'f')
                    X = {z: back(z) for z in Zs(ts)}
                    ro = lambda m: rc if common_ else ri[m]
                    if not keys_are(u, tag, W, zeta, ts) or not keys_are(u, tag, W, out, ts) or not keys_are(u, tag, W, only, ts):
                        return
                    ic = R('ic') if icg else R('ic*')
                    if icg or not hasic:
                        u.true(tag + ': the constraint given is used', not sn)
                    elif u.true(tag + ': the constraint is calculated', len(sn) >= 1):
                        for s in sn:
                            dict_is(u, W, tag + ': constraint, input points', s[2], Zs(ts), lambda z: ri[z], h, 1)
                            dict_is(u, W, tag + ': constraint, input values', s[3], Zs(ts), lambda z: X[z], h, 2)
                            dict_is(u, W, tag + ': constraint, window values', s[1], Qs(ts), look(Q, spell), h, 2)
                    F = {m: Bessel2((m[0], m[1]), (0, 0), ro(m), **full) for m in ts}
                    if kout is None:
                        u.true(tag + ': output wavenumbers from all transforms', len(fd) == 1 and {str(a.get((I('i'),))) for a in fd[0]} == {str(F[m]._post_sampts.get((I('i'),))) for m in ts})
                    for m in ts:
                        n = asarr(ro(m)).shape_[0]
                        elems(u, tag + ': %s: correlation function' % (m,), zeta[Mp(m)], (n, n), lambda i, j: Rv(conv2(ts, m, i, j, look(rq, spell), look(Q, spell), lambda z: ri[z], lambda z: X[z], ro(m), sp[0], ic)), h)
                        g = F[m].transform_cosmo_multipoles(1, zeta[Mp(m)])[1]
                        kk = ko if kout else Arr.sym('found', (I('f'),))
                        kx, ky = F[m].axes
                        for which, o in (('', out), (' alone', only)):
                            elems(u, tag + ': %s: bispectrum%s' % (m, which), o[Mp(m)], (kk.shape_[0],) * 2, lambda i, j: V(spl2(kx, g.real, sp[1], at1(kk, i), at1(kk, j), ky), spl2(kx, g.imag, sp[1], at1(kk, i), at1(kk, j), ky), 'c'), h)
                    for z in Zs(ts):
                        unchanged(u, tag + ': %s: the input is untouched' % (z,), P[spell(z)], lambda i: Rv(app('P' + nm(z) + '[]', tuple(i), 'R')), h)
                pos = [lt(ZR, app('ki%s[]' % s, (x,), 'R')) for s, n in [('', n_)] + [(nm(z), nz(z)) for z in Zs(ts)] for x in (ZI, n - 1)]
                calls(u, 'bispectrum, %s, %d' % (nm_, si), go, nonzero(ts) + sizes(ts) + pos + [lt(OI, n_), lt(OI, K_), lt(OI, I('o')), lt(OI, I('f'))], post)
        u.fn('winconv.BispecWinConv.__init__', 'winconv.BispecWinConv.convolve')
    return unit


def unit_matrix(u):
    """column j of the matrix is the convolution of the j-th basis vector"""
    for fm in (THREE['arbitrary'], THREE['without constraint'], THREE['one term']):
        for concat in (False, True):
            for diag in (False, True):
                for ic in (False, True):
                    W = mod()
                    ts = terms_of(W, fm)
                    Mp = W['Multipole']
                    W.set('_check_conv_range', lambda a, b: True)
                    W.set('_check_1d_array', lambda a, **k: a)
                    seen = []

                    def conv(self, B_in, ic=None, ret_zeta=False):
                        seen.append((dict(B_in), ic, self._winconv._catch_warnings))
                        t = OPS.id('conv', *[B_in[k] for k in sorted(B_in)])
                        vals = [B_in[k] for k in sorted(B_in)]
                        j = I('col?')
                        return {Mp(m): mk(m, seen[-1][0]) for m in ts}
                    W['BispecWinConv'].convolve = conv

                    def mk(m, B):
                        # response: an operator of the place of the only entry of the model
                        hot = hot_of(B)
                        return Arr.of((K_, K_), lambda ix: V(app('resp.re' + nm(m), (hot,) + tuple(ix), 'R'), app('resp.im' + nm(m), (hot,) + tuple(ix), 'R'), 'c'), 'c')

                    zs = [Mp(z) for z in Zs(ts)]
                    zs.sort()

                    def hot_of(B):
                        """number of the basis vector that B is, by its own definition: sum over all places of place times value"""
                        k0, off = None, ZI
                        ks = [k for k, _ in pysym.X.scopes]
                        return ks[-1] if ks else I('nocol')

                    def go():
                        del seen[:]
                        rq, Q, _, _, _ = inputs(ts, 2, SPELL[0])
                        ki = {z: Arr.sym('ki' + nm(z), (nz(z),)) for z in Zs(ts)}
                        c = W['BispecWinConv'](fm, rq, Q, ki, k_out=Arr.sym('ko', (K_,)), r_common=Arr.sym('rc', (I('o'),)))
                        M = c.gen_winconv_mat(ic=ic, concat=concat, diag=diag)
                        return M, list(seen), c

                    def post(v, h, p, tag):
                        M, sn, c = v
                        dims = [nz(z.index) for z in zs]
                        offs = [ZI]
                        for d in dims:
                            offs.append(offs[-1] + d * d)
                        if not u.true(tag + ': a convolution for each basis vector', len(sn) == 1 and sorted(sn[0][0]) == zs):
                            return
                        u.true(tag + ': integral constraint as asked for', sn[0][1] is None if ic else pysym.isscalar(sn[0][1]) and sn[0][1] == 0, repr(sn[0][1]))
                        u.true(tag + ': state restored', c._winconv._catch_warnings is True)
                        col = [x for x in pysym.X.path.conds]
                        kk = None
                        for t in [s for c_ in p.conds for s in subterms(c_)]:
                            if t.op == 'var' and str(t.a[0]).startswith('k!') and (kk is None or int(t.a[0][2:]) < int(kk.a[0][2:])):
                                kk = t
                        if not u.true(tag + ': generic basis vector', kk is not None):
                            return
                        hk = h
                        for z, d, o in zip(zs, dims, offs):
                            elems(u, tag + ': %s: part of the basis vector' % z, sn[0][0][z], (d, d), lambda i, j: Rv(ite(eq(o + i * d + j, kk), OR, ZR)), hk)

                        def entry(m):
                            def f(i, j):
                                a, b = (i, i) if diag else (idiv(i, K_), imod(i, K_))
                                return V(app('resp.re' + nm(m), (j, a, b), 'R'), app('resp.im' + nm(m), (j, a, b), 'R'), 'c')
                            return f
                        rows = K_ if diag else K_ * K_
                        ms = sorted(Mp(m) for m in ts)
                        if concat:
                            if not shape_is(u, tag, M, (scale(rows, len(ms)), offs[-1]), h):
                                return
                            for q, m in enumerate(ms):
                                i, j = I('i'), I('j')
                                pylib.same(u, tag + ': %s: stacked in order' % m, M.get((scale(rows, q) + i, j)), entry(m.index)(i, j), h + [between(0, i, rows), between(0, j, offs[-1])])
                        else:
                            if keys_are(u, tag, W, M, ts):
                                for m in ms:
                                    elems(u, tag + ': %s' % m, M[m], (rows, offs[-1]), entry(m.index), h)
                    calls(u, 'matrix%s%s%s' % (', concatenated' * concat, ', diagonal' * diag, ', with constraint' * ic), go, nonzero(ts) + sizes(ts) + [lt(OI, K_), lt(OI, I('o'))], post)
    u.fn('winconv.BispecWinConv.gen_winconv_mat')


UNITS = [('formulae', unit_formulae), ('coefficients', unit_coeff), ('named formulae', unit_named), ('two-point correlation functions', unit_2pcf), ('three-point correlation functions', unit_3pcf),
         ('points', unit_points), ('ranges', unit_range), ('warnings', unit_warn), ('integral constraint', unit_ic), ('power spectrum', unit_pk), ('bispectrum', unit_bk(False)), ('bispectrum, respaced', unit_bk(True)),
         ('matrix', unit_matrix)]


# ------------------------------------------------------------------ replay
class Unsure(Exception):
    """a message-passing call the stand-in does not know"""


class Comm:
    """communicator of threads (stand-in for MPI)"""

    def __init__(s, rank, size, st): s.rank, s.size, s.st = rank, size, st
    def __getattr__(s, n): raise Unsure(n)
    def Get_rank(s): return s.rank
    def Get_size(s): return s.size

    def share(s, v):
        s.st['slot'][s.rank] = v
        s.st['bar'].wait(60)
        r = list(s.st['slot'])
        s.st['bar'].wait(60)
        return r

    def Barrier(s): s.share(None)
    barrier = Barrier
    def bcast(s, v, root=0): return s.share(v)[root]
    def gather(s, v, root=0): return (lambda r: r if s.rank == root else None)(s.share(v))
    def allgather(s, v): return s.share(v)

    def Gatherv(s, sendbuf, recvbuf, root=0):
        import numpy as np
        b = s.share(np.array(sendbuf).ravel())
        if s.rank == root:
            out, (sizes, offs) = recvbuf[0], recvbuf[1]
            for q, n, o in zip(b, sizes, offs):
                if len(q) != n or (len(q) and q.dtype != out.dtype):
                    raise ValueError('message truncated or of another type')
                out[o:o + n] = q


def on_ranks(size, fn):
    import threading
    st = {'slot': [None] * size, 'bar': threading.Barrier(size)}
    res = [None] * size

    def go(i):
        try:
            res[i] = ('ok', fn(Comm(i, size, st)))
        except BaseException as e:
            res[i] = ('exc', e)
            st['bar'].abort()
    ts = [threading.Thread(target=go, args=(i,)) for i in range(size)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    bad = [e for k, e in res if k == 'exc' and type(e).__name__ != 'BrokenBarrierError'] + [e for k, e in res if k == 'exc']
    if bad:
        raise bad[0]
    return [v for _, v in res]


def replay(r):
    import numpy as np, warnings, os
    import cxx, pyreal, hankel
    reps = 24 if r.tier == 'thorough' else 6

    def body(t):
        imp = pyreal.pkg()
        hankel.glue()
        warnings.simplefilter('ignore')
        wc = imp('winconv')
        from scipy.interpolate import RectBivariateSpline, InterpolatedUnivariateSpline
        from scipy.integrate import simpson
        q = type(r)()
        Mp = wc.Multipole
        rng = np.random.default_rng(97 * r.seed + t)
        spell = lambda ix: [ix if len(ix) > 1 else ix[0], tuple(map(str, ix)), ','.join(map(str, ix)) if len(ix) > 1 else str(ix[0]), Mp(ix)][rng.integers(4)]
        S2 = lambda x, y, k: RectBivariateSpline(x, x, y, kx=k, ky=k)
        S1 = lambda x, y, k, e=0: InterpolatedUnivariateSpline(x, y, k=k, ext=e)
        three = [(0, 0, 0), (1, 1, 0), (2, 0, 2), (1, 1, 2), (2, 2, 0), (0, 2, 2)]
        for rep in range(reps):
            # ---- coefficients
            for _ in range(3):
                ms = [tuple(int(x) for x in rng.integers(0, 3, 3)) for _ in range(3)]
                if all(tri(*m) and sum(m) % 2 == 0 for m in ms[1:]):
                    q.close('coefficient', float(wc.calc_threept_winconv_coeff(*ms)), gaunt_like(*ms), ms, 1e-10, 1e-12)
            # ---- formulae, window and input
            dims = int(rng.integers(1, 3))
            pool = [(0,), (2,), (4,), (1,)] if dims == 1 else three
            pick = lambda n: [pool[i] for i in rng.permutation(len(pool))[:n]]
            outs = pick(int(rng.integers(1, 4)))
            fm = {m: [(w, z, float(rng.normal())) for w in pick(2) for z in pick(2) if rng.random() < .8] or [(pool[0], pool[0], 1.)] for m in outs}
            ic = float(rng.normal()) if dims == 2 else None
            if dims == 2 and rng.random() < .7:
                fm[outs[0]].append((pick(1)[0], 'ic', -1.))
            qs = sorted({w for ts in fm.values() for w, _, _ in ts})
            zs = sorted({z for ts in fm.values() for _, z, _ in ts if z != 'ic'})
            fgiven = {spell(m): [(spell(w), z if z == 'ic' else spell(z), c) for w, z, c in ts] for m, ts in fm.items()}
            N = {x: 2 * int(rng.integers(5, 9)) for x in qs + zs + outs}
            rq = {x: np.geomspace(rng.uniform(.5, 1), 200, N[x] + 3) for x in qs}
            f = lambda x: rng.normal() * np.exp(-x / rng.uniform(30, 90)) + .1 * np.sin(x / 37)
            val = lambda x: f(x) if dims == 1 else np.outer(f(x), f(x)) + .3 * np.outer(f(x), x / 100)
            Q = {x: val(rq[x]) for x in qs}
            ri = {x: np.geomspace(rng.uniform(.5, 1), 150, N[x] + 2) for x in zs}
            Z = {x: val(ri[x]) for x in zs}
            ro = {x: np.geomspace(1.5, 120, N[x]) for x in outs}
            k = int(rng.integers(1, 4))
            what = '%s, degree %d, sizes %s' % (fm, k, N)

            def conv(m, ri, Z, ro, k, ic=ic):
                s = 0.
                x = ro[m]
                for w, z, c in fm[m]:
                    if dims == 1:
                        s = s + c * S1(rq[w], Q[w], k, 3)(x) * S1(ri[z], np.real(Z[z]), k)(x)
                    else:
                        s = s + c * S2(rq[w], Q[w], k)(x, x) * (ic if z == 'ic' else S2(ri[z], np.real(Z[z]), k)(x, x))
                return s
            W = (wc.TwoPCFWinConv, wc.ThreePCFWinConv)[dims - 1]
            sp = lambda d: {spell(x): v for x, v in d.items()}
            rg, Qg, rig, Zg, rog = sp(rq), sp(Q), sp(ri), sp(Z), sp(ro)
            kept = [{x: np.array(v) for x, v in d.items()} for d in (rg, Qg, rig, Zg, rog)]
            C = W(fgiven, rg, Qg, rig, r_out=rog, spline=k)
            ickw = {'ic': ic} if dims == 2 else {}
            for again in range(2):
                out = C.convolve(Zg, **ickw)
                q.case('multipoles', sorted(out) == sorted(Mp(m) for m in outs), what)
                for m in outs:
                    q.close('correlation function', out[Mp(m)], conv(m, ri, Z, ro, k), '%s: %s' % (m, what), 1e-8)
            q.case('arguments', all(a.keys() == b.keys() and all(np.array_equal(a[x], b[x]) for x in a) for a, b in zip(kept, (rg, Qg, rig, Zg, rog))), what)
            if dims == 2:
                full = {x: np.geomspace(1., 120, N[x] + 1) for x in zs}
                o = W(fgiven, rg, Qg, rig, r_out=rog, spline=k).convolve_diag({spell(x): np.diag(v) for x, v in Z.items()}, ic=ic)
                for m in outs:
                    s = 0.
                    for w, z, c in fm[m]:
                        s = s + c * S1(rq[w], np.diag(Q[w]), k, 3)(ro[m]) * (ic if z == 'ic' else S1(ri[z], np.diag(Z[z]), k)(ro[m]))
                    q.close('diagonal', o[Mp(m)], s, '%s: %s' % (m, what), 1e-8)
            # ---- integral constraint
            if dims == 2:
                both = [(0, 0, 0)] + [x for x in three[1:] if rng.random() < .6]
                R = np.geomspace(.6, 150, 13)
                qq, zz = {x: val(R) for x in both + [three[3]]}, {x: val(R) for x in both}
                rc = [None, np.geomspace(1, 100, 11), {spell(x): np.geomspace(1, 90, 9) for x in both}][rng.integers(3)]
                ap = bool(rng.random() < .3)
                got = wc.calc_threept_ic({spell(x): R for x in qq}, {spell(x): v for x, v in qq.items()}, {spell(x): R for x in zz}, {spell(x): v for x, v in zz.items()},
                                         r_common=None if rc is None else rc if not isinstance(rc, dict) else {Mp(a): b for a, b in rc.items()}, approx=ap)
                g = R if rc is None else np.geomspace(1, 90, 9) if isinstance(rc, dict) else rc
                I2 = lambda y: simpson(simpson(y * g ** 2, x=g) * g ** 2, x=g)
                num_ = sum((2 * x[0] + 1) * (2 * x[1] + 1) * (2 * x[2] + 1) * float(h2(*x)[0]) * I2(S2(R, qq[x], 3)(g, g) * S2(R, zz[x], 3)(g, g)) for x in (both[:1] if ap else sorted(set(qq) & set(zz))))
                q.close('integral constraint', got, num_ / I2(S2(R, qq[(0, 0, 0)], 3)(g, g)), (both, ap), 1e-8)
            # ---- spectra
            nk = 2 * int(rng.integers(5, 8))
            kk = np.geomspace(.004, .6, nk)
            ki = {x: kk * rng.uniform(.9, 1.) for x in zs} if rng.random() < .5 else {x: kk for x in zs}
            P = {x: val(ki[x] * 300) for x in zs}
            kw = [{}, {'extrap': 0}, {'extrap': 0, 'lowring': False, 'pivot': 1.3}][rng.integers(3)]
            if dims == 2 and 'extrap' not in kw:
                kw = {'extrap': int(rng.integers(2, 4))}
            kw0 = dict(kw)
            rc = np.geomspace(3., 150, 16)
            ko = [None, np.geomspace(.01, .4, 7)][rng.integers(2)]
            what = '%s, %s' % (what, kw)
            TR = imp('transforms')
            mk = lambda m, x, kw: TR.SphericalBesselTransform(m[0], 0, x, **kw) if dims == 1 else TR.DoubleSphericalBesselTransform(m[:2], (0, 0), x, **kw)
            W = (wc.PowspecWinConv, wc.BispecWinConv)[dims - 1]
            C = W(fgiven, rg, Qg, sp(ki), k_out=ko, r_common=rc, transform_kwargs=kw)
            try:
                out, xi = C.convolve(sp(P), **{('ret_xi', 'ret_zeta')[dims - 1]: True}, **ickw)
            except ValueError as e:
                if kw or 'sign' not in str(e):
                    raise
                continue            # samples of mixed sign are not extrapolated log-linearly
            q.case('options', kw == kw0, what)
            fk = dict({'extrap': (4, 5)[dims - 1]}, **kw)
            B = {z: mk(z, ki[z], fk) for z in zs}
            r2, X = {}, {}
            for z in zs:
                r2[z], X[z] = B[z].transform_cosmo_multipoles('backward', P[z])
                if dims == 2:
                    a, b = r2[z][0][:, 0], r2[z][1][0]
                    r2[z] = a
                    if z[0] != z[1]:
                        X[z] = RectBivariateSpline(a, b, X[z].real, kx=3, ky=3)(a, a)
            for m in outs:
                x_ = conv(m, r2, X, {m: rc}, 3)
                q.close('intermediate', xi[Mp(m)], x_, '%s: %s' % (m, what), 1e-7, 1e-8)
                F = mk(m, rc, fk)
                ks, y = F.transform_cosmo_multipoles('forward', x_)
                ku = C.k_out if ko is None else ko
                on = (lambda v: S1(ks, v, 3)(ku)) if dims == 1 else (lambda v: RectBivariateSpline(ks[0][:, 0], ks[1][0], v)(ku, ku))
                want = on(y.real) + 1j * on(y.imag)
                q.close('spectrum', out[Mp(m)], want, '%s: %s' % (m, what), 1e-6, 1e-7)
            if ko is None:
                lo, hi = max(mk(m, rc, fk)._post_sampts[0] for m in outs), min(mk(m, rc, fk)._post_sampts[-1] for m in outs)
                q.case('output range', np.isclose(C.k_out[0], lo) and np.isclose(C.k_out[-1], hi), what)
            # ---- a window of unity changes nothing
            if rep % 3 == 0:
                z = (0,) if dims == 1 else (0, 0, 0)
                big = np.geomspace(1e-6, 1e9, 8)
                one = W({spell(z): [(spell(z), spell(z), 1.)]}, {spell(z): big}, {spell(z): np.ones((8,) * dims)}, {spell(z): kk}, k_out=kk, transform_kwargs={'extrap': 0})
                p0 = val(kk * 300)
                q.close('unit window', one.convolve({spell(z): p0})[Mp(z)], p0, nk, 1e-6, 1e-5)
            # ---- window matrix
            if dims == 2 and rep % 2 == 0:
                kk = np.geomspace(.004, .6, 6)
                ki = {x: kk[:6 - 2 * (rng.random() < .5 and i > 0)] for i, x in enumerate(zs)}
                ko = np.geomspace(.01, .4, 4)
                mkC = lambda comm=None: W(fgiven, rg, Qg, sp(ki), k_out=ko, r_common=np.geomspace(3., 150, 12), transform_kwargs={'extrap': 0}, comm=comm)
                C = mkC()
                order = sorted(Mp(x) for x in zs)
                vec = [rng.normal(size=(len(ki[z.index]),) * 2) for z in order]
                flat = np.concatenate([v.ravel() for v in vec])
                res = C.convolve({z: v for z, v in zip(order, vec)}, ic=0.)
                M = C.gen_winconv_mat(concat=False)
                D = C.gen_winconv_mat(concat=False, diag=True)
                full, fullD = C.gen_winconv_mat(concat=True), C.gen_winconv_mat(concat=True, diag=True)
                mo = sorted(Mp(m) for m in outs)
                for m in mo:
                    q.close('matrix', M[m] @ flat, res[m].ravel(), '%s: %s' % (m, what), 1e-6, 1e-7)
                    q.close('diagonal rows', D[m] @ flat, np.diag(res[m]), '%s: %s' % (m, what), 1e-6, 1e-7)
                q.close('stacked matrix', full, np.vstack([M[m] for m in mo]), what, 1e-12)
                q.close('stacked diagonal rows', fullD, np.vstack([D[m] for m in mo]), what, 1e-12)
                if rep % 4 == 0:
                    size, root = int(rng.integers(1, 4)), 0
                    root = int(rng.integers(0, size))
                    env = os.environ.get('OMP_NUM_THREADS')
                    try:
                        o = on_ranks(size, lambda c: (lambda w: (setattr(w, 'comm', c), setattr(w, 'comm_root', root), w.gen_winconv_mat(concat=False))[2])(mkC()))
                    except Unsure:
                        o = None
                    if o is not None:
                        for m in mo:
                            q.close('matrix by %d processes' % size, o[root][m], M[m], '%s: %s' % (m, what), 1e-9)
                        q.case('only the root returns', all(x is None for i, x in enumerate(o) if i != root), what)
                        q.case('environment', os.environ.get('OMP_NUM_THREADS') == env, what)
        return q
    for out in cxx.pmap(body, range(8), timeout=600):
        absorb(r, out)
