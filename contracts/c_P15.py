"""P15: array extrapolation extends data and keeps the original untouched (arrayops.cpp, _arrayops.py)."""
from meshlib import *

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals; the floating-point exception flags are raised only by a vanishing or sign-changing ratio (such inputs are outside the proof and covered by replay)',
           'std::sort orders the indices by the comparison it is given']
A_ = 'trv::array::'
N, E = var('a#len', 'I'), I('E')
K = I('k')


def mag(x): return ite(lt(x, ZR), -x, x)
def at(i): return app('a[]', (i,), 'R')


QUIET = {'fetestexcept': lambda X, st, th, a, e: num(0, 'I'), 'std::fetestexcept': lambda X, st, th, a, e: num(0, 'I'),
         'feclearexcept': lambda X, st, th, a, e: num(0, 'I'), 'std::feclearexcept': lambda X, st, th, a, e: num(0, 'I'),
         'std::isnan': lambda X, st, th, a, e: FALSE, 'isnan': lambda X, st, th, a, e: FALSE}


def setup(contracts=None, lo=2):
    M = Machine(('arrayops',), contracts=dict(QUIET, **(contracts or {})))
    s = M.state()
    s.mem['a'] = SArr(('sym', 'a'), (), 'double', N, M.X)
    s.mem['o'] = M.X.new_vec('double', I('olen'))
    pre = [le(num(lo, 'I'), N), le(ZI, E), le(ZI, I('olen'))]
    M.ctx.push(and_(*pre))
    return M, s, pre


def extended(u, M, s, pre, left, right, P=None):
    """length, middle, ends, frame"""
    in_bounds(u, M, pre)
    u.eq('length of the result', M.X.load(s, Loc('o')).ln, N + E * 2, pre)
    o = lambda i: M.read(s, Loc('o'), i)
    h = lambda a, b: pre + [le(a, K), lt(K, b)]
    u.eq('middle is the input', o(E + K), at(K), h(ZI, N))
    u.eq('lower end', o(E - K - 1), left(K + 1), h(ZI, E), P)
    u.eq('upper end', o(E + N + K), right(K + 1), h(ZI, E), P)
    u.eq('frame: the input array', M.read(s, Loc('a'), K), at(K), h(ZI, N))
    u.eq('frame: the length of the input', M.X.load(s, Loc('a')).ln, N, pre)


def unit_lin(u):
    M, s, pre = setup()
    u.satisfiable('array', pre)
    M.run(A_ + 'extrap_lin', s, None, [Loc('a'), E, Loc('o')])
    u.fn(A_ + 'extrap_lin')
    extended(u, M, s, pre, lambda k: at(ZI) - toreal(k) * (at(OI) - at(ZI)), lambda k: at(N - 1) + toreal(k) * (at(N - 1) - at(N - 2)))
    u.holds('no exception', not_(M.throw_cond()), pre)


def unit_pad(u):
    M, s, pre = setup(lo=0)
    M.run(A_ + 'extrap_pad', s, None, [Loc('a'), E, R('cl'), R('cu'), Loc('o')])
    u.fn(A_ + 'extrap_pad')
    extended(u, M, s, pre, lambda k: R('cl'), lambda k: R('cu'))
    u.holds('no exception', not_(M.throw_cond()), pre)


def signs(f):
    """contract of check_1d_array seen by its callers"""
    def c(X, st, th, args, e):
        f.append(args)
        return I('verdict')
    return c


def unit_loglin(u):
    calls = []
    M, s, pre = setup({A_ + 'check_1d_array': signs(calls), 'check_1d_array': signs(calls)})
    M.run(A_ + 'extrap_loglin', s, None, [Loc('a'), E, Loc('o')])
    u.fn(A_ + 'extrap_loglin')
    u.true('the signs of the input are checked once, without linearity checks', len(calls) == 1 and [repr(x) for x in calls[0][1:]] == [repr(x) for x in (FALSE, FALSE, TRUE)], repr(calls))
    u.eq('rejected exactly when the check fails', ite(M.throw_cond(), OI, ZI), ite(eq(I('verdict'), ZI), ZI, OI), pre)
    rat = lambda a, b: app('powi', (b, a), 'R')
    ok = pre + [eq(I('verdict'), ZI), lt(ZR, div(at(OI), at(ZI))), lt(ZR, div(at(N - 1), at(N - 2)))]
    ll = real_fn('log', div(at(OI), at(ZI)))
    lr = real_fn('log', div(at(N - 1), at(N - 2)))
    extended(u, M, s, ok, lambda k: at(ZI) * real_fn('exp', -toreal(k) * ll), lambda k: at(N - 1) * real_fn('exp', toreal(k) * lr))


def unit_check(u):
    for nm, flags in (('nothing', (0, 0, 0)), ('linearity', (1, 0, 0)), ('log-linearity', (0, 1, 0)), ('signs', (0, 0, 1)), ('linearity and log-linearity', (1, 1, 0)),
                      ('linearity and signs', (1, 0, 1)), ('log-linearity and signs', (0, 1, 1)), ('all', (1, 1, 1))):
        M, s, pre = setup()
        r = M.run(A_ + 'check_1d_array', s, None, [Loc('a')] + [TRUE if f else FALSE for f in flags])
        far = lambda d: binder('exists', K, ZI, N - 1, lt(rn('1e-8') + rn('1e-5') * mag(d(ZI)), mag(d(K) - d(ZI))))
        lin = far(lambda i: at(i + 1) - at(i))
        log = far(lambda i: real_fn('log', div(at(i + 1), at(i))))
        sgn = binder('exists', K, ZI, N - 1, le(at(K) * at(K + 1), ZR))
        want = ZI
        for f, c, v in reversed(list(zip(flags, (lin, log, sgn), (1, 2, 3)))):
            if f:
                want = ite(c, num(v, 'I'), want)
        u.eq('verdict when %s checked' % nm, r, want, pre)
        in_bounds(u, M, pre)
        u.holds('no exception when %s checked' % nm, not_(M.throw_cond()), pre)
        u.eq('frame when %s checked' % nm, M.read(s, Loc('a'), K), at(K), pre)
    u.fn(A_ + 'check_1d_array', A_ + 'check_isclose')


def unit_2d(u):
    for f, n in (('extrap2d_lin', 0), ('extrap2d_loglin', 0), ('extrap2d_pad', 4)):
        M, s, pre = setup()
        s.mem['m'] = M.X.sym('std::vector<std::vector<double>>', 'm')
        s.mem['mo'] = M.X.sym('std::vector<std::vector<double>>', 'mo')
        ok = M.never_returns(A_ + f, s, None, [Loc('m'), E, E] + [R('c%d' % i) for i in range(n)] + [Loc('mo')])
        u.true('%s is rejected as unavailable' % f, ok)
        u.fn(A_ + f)


UNITS = [('arrays extended linearly', unit_lin), ('arrays extended by padding', unit_pad), ('arrays extended log-linearly', unit_loglin), ('array checks', unit_check), ('two-dimensional forms', unit_2d)]


# ------------------------------------------------------------------ Python
import pylib
from pylib import PYTRUST, Module, Arr, Iv, Rv, calls, elems, unchanged, shape_is, same
TRUSTED = TRUSTED + PYTRUST
_m = {}
n_, m_, e_, f_ = I('n'), I('m'), I('e'), I('f')
PRE = [le(ZI, n_), le(ZI, e_)]
x_ = lambda i: app('a[]', (i,), 'R')
FEW = lt(n_, num(2, 'I'))


def mod():
    if not _m:
        _m['m'] = Module('_arrayops')
    return _m['m']


def one(u, name, f, args, left, right, pre=(), rejects=FEW, exc=('ShapeError',), inp=None):
    M = mod()
    keep = {}

    def go():
        keep['a'] = Arr.sym('a', (n_,))
        return M[f](keep['a'], Iv(e_), *args())

    def post(v, h, p, tag):
        elems(u, tag, v, (n_ + e_ * 2,), lambda i: Rv(ite(lt(i, e_), left(e_ - i), ite(lt(i, e_ + n_), x_(i - e_), right(i - (e_ + n_ - 1))))), h)
        unchanged(u, tag + ': input array unchanged', keep['a'], lambda ix: Rv(x_(ix[0])), h)
    calls(u, name, go, PRE + list(pre), post, rejects, exc)
    u.fn('_arrayops.' + f, '_arrayops._check_1d_array')


def unit_py_pad(u):
    one(u, 'padding', 'extrap_pad', lambda: (Rv(R('cl')), Rv(R('cu'))), lambda k: R('cl'), lambda k: R('cu'))


def unit_py_lin(u):
    one(u, 'linear', 'extrap_lin', lambda: (), lambda k: x_(ZI) - toreal(k) * (x_(OI) - x_(ZI)), lambda k: x_(n_ - 1) + toreal(k) * (x_(n_ - 1) - x_(n_ - 2)))


def mixed(p, q):
    """end and next-to-end entries that have no common sign, the end itself not being zero"""
    return and_(le(p * q, ZR), not_(eq(p, ZR)))


def unit_py_loglin(u):
    bad = or_(FEW, mixed(x_(ZI), x_(OI)), mixed(x_(n_ - 1), x_(n_ - 2)))
    # the ratio of a vanishing end to a vanishing neighbour is undefined
    usual = [or_(FEW, and_(not_(and_(eq(x_(ZI), ZR), eq(x_(OI), ZR))), not_(and_(eq(x_(n_ - 1), ZR), eq(x_(n_ - 2), ZR)))))]
    one(u, 'log-linear', 'extrap_loglin', lambda: (), lambda k: x_(ZI) * app('powi', (div(x_(ZI), x_(OI)), k), 'R'), lambda k: x_(n_ - 1) * app('powi', (div(x_(n_ - 1), x_(n_ - 2)), k), 'R'),
        usual, bad, ('ShapeError', 'MixedSignError'))


def all_(lo, hi, f): return binder('forall', K, lo, hi, f(K), 'B')


def close(x, y): return le(mag(x - y), rn('1e-8') + rn('1e-5') * mag(y))


def conds_1d():
    up = all_(ZI, n_ - 1, lambda k: le(x_(k), x_(k + 1)))
    down = all_(ZI, n_ - 1, lambda k: le(x_(k + 1), x_(k)))
    w = pylib.sum_ if False else sum_
    q = I('q')
    mean = lambda f: div(sum_(q, ZI, n_ - 1, f(q)), toreal(n_ - 1))
    d = lambda k: x_(k + 1) - x_(k)
    l = lambda k: real_fn('log', div(x_(k + 1), x_(k)))
    return {'sorted': not_(or_(up, down)), 'epsign': or_(mixed(x_(ZI), x_(OI)), mixed(x_(n_ - 1), x_(n_ - 2))),
            'lin': not_(all_(ZI, n_ - 1, lambda k: close(d(k), mean(d)))),
            'loglin': or_(le(x_(ZI) * x_(OI), ZR), le(x_(n_ - 1) * x_(n_ - 2), ZR), not_(all_(ZI, n_ - 1, lambda k: close(l(k), mean(l)))))}


EXC = {'sorted': 'OrderError', 'epsign': 'MixedSignError', 'lin': 'SpacingError', 'loglin': 'SpacingError'}


def unit_py_check(u):
    M = mod()
    for w in (None, 'sorted', 'epsign', 'lin', 'loglin'):
        def go(w=w):
            return M['_check_1d_array'](Arr.sym('a', (n_,)), **({'check_' + w: True} if w else {}))

        def post(v, h, p, tag):
            elems(u, tag, v, (n_,), lambda i: Rv(x_(i)), h)
        bad = or_(FEW, conds_1d()[w]) if w else FEW
        calls(u, 'check %s' % w, go, PRE, post, bad, ('ShapeError',) + ((EXC[w], 'MixedSignError') if w else ()))
    calls(u, 'two dimensions', lambda: M['_check_1d_array'](Arr.sym('a', (n_, m_))), [le(num(2, 'I'), n_), le(num(2, 'I'), m_)], None, TRUE, ('ShapeError',)) if False else None
    E, ps = pylib.explore(lambda: M['_check_1d_array'](Arr.sym('a', (n_, m_))), [le(num(2, 'I'), n_), le(num(2, 'I'), m_)])
    u.true('a two-dimensional array is rejected', all(p.out == 'exc' and type(p.exc).__name__ == 'ShapeError' for p in ps))
    E, ps = pylib.explore(lambda: M['_check_2d_array'](Arr.sym('a', (n_,))), [le(num(2, 'I'), n_)])
    u.true('a one-dimensional array is rejected by the two-dimensional check', all(p.out == 'exc' and type(p.exc).__name__ == 'ShapeError' for p in ps))
    u.fn('_arrayops._check_1d_array')


# two dimensions
PRE2 = [le(num(2, 'I'), n_), le(num(2, 'I'), m_), le(ZI, e_), le(ZI, f_)]
y_ = lambda i, j: app('a[]', (i, j), 'R')


def along(f, k, n, e, lin):
    """value at extended position k of the line f(0..n-1)"""
    if lin:
        lo = lambda q: f(ZI) - toreal(q) * (f(OI) - f(ZI))
        hi = lambda q: f(n - 1) + toreal(q) * (f(n - 1) - f(n - 2))
    else:
        lo = lambda q: f(ZI) * app('powi', (div(f(ZI), f(OI)), q), 'R')
        hi = lambda q: f(n - 1) * app('powi', (div(f(n - 1), f(n - 2)), q), 'R')
    return ite(lt(k, e), lo(e - k), ite(lt(k, e + n), f(k - e), hi(k - (e + n - 1))))


def unit_py_rows(u):
    M = mod()
    for f, lin in (('_extrap2d_row_lin', True), ('_extrap2d_row_loglin', False)):
        keep = {}

        def go(f=f):
            keep['a'] = Arr.sym('a', (n_, m_))
            return M[f](keep['a'], Iv(f_))

        def post(v, h, p, tag, lin=lin):
            elems(u, tag, v, (n_, m_ + f_ * 2), lambda i, j: Rv(along(lambda c: y_(i, c), j, m_, f_, lin)), h)
            unchanged(u, tag + ': input array unchanged', keep['a'], lambda ix: Rv(y_(*ix)), h)
        calls(u, f, go, PRE2, post, FALSE, ())
        u.fn('_arrayops.' + f)


def unit_py_2d(u):
    """extrap2d_lin / loglin against the contract of the row extension: rows by their number of columns, then columns by their number of rows"""
    M = mod()
    for f, row, sign in (('extrap2d_lin', '_extrap2d_row_lin', False), ('extrap2d_loglin', '_extrap2d_row_loglin', True), ('extrap2d_loglin_oscil', '_extrap2d_row_loglin_oscil', False)):
        for nm, ext, (er, ec) in (('pair', lambda: (Iv(e_), Iv(f_)), (e_, f_)), ('single', lambda: Iv(e_), (e_, e_))):
            calls_ = []
            keep = {}
            orig = M[row]

            def ghost(a, k):
                calls_.append((a, k))
                c = len(calls_)
                return Arr.sym('ext%d' % c, (a.shape_[0], a.shape_[1] + pylib.pysym.tt(pylib.pysym.lit(k)) * 2))

            def go():
                calls_.clear()
                keep['a'] = Arr.sym('a', (n_, m_))
                M.set(row, ghost)
                try:
                    r = M[f](keep['a'], ext())
                finally:
                    M.set(row, orig)
                keep['calls'] = list(calls_)
                return r, list(calls_)

            def post(v, h, p, tag):
                v, cs = v
                if not u.true(tag + ': rows then columns are extended', len(cs) == 2):
                    return
                u.eq(tag + ': rows are extended by the number of columns', pylib.pysym.tt(cs[0][1]), ec, h)
                u.eq(tag + ': columns are extended by the number of rows', pylib.pysym.tt(cs[1][1]), er, h)
                elems(u, tag + ': rows of the input', cs[0][0], (n_, m_), lambda i, j: Rv(y_(i, j)), h)
                elems(u, tag + ': columns of the extended rows', cs[1][0], (m_ + ec * 2, n_), lambda i, j: Rv(app('ext1[]', (j, i), 'R')), h)
                elems(u, tag + ': result', v, (n_ + er * 2, m_ + ec * 2), lambda i, j: Rv(app('ext2[]', (j, i), 'R')), h)
                unchanged(u, tag + ': input array unchanged', keep['a'], lambda ix: Rv(y_(*ix)), h)
            bad = FALSE
            if sign:
                q = I('q')
                ex = lambda n, g: binder('exists', q, ZI, n, g(q), 'B')
                bad = or_(ex(n_, lambda i: mixed(y_(i, ZI), y_(i, OI))), ex(n_, lambda i: mixed(y_(i, m_ - 1), y_(i, m_ - 2))),
                          ex(m_, lambda j: mixed(y_(ZI, j), y_(OI, j))), ex(m_, lambda j: mixed(y_(n_ - 1, j), y_(n_ - 2, j))))
            calls(u, '%s, extension given as a %s' % (f, nm), go, PRE2, post, bad, ('MixedSignError',))
        u.fn('_arrayops.' + f, '_arrayops._check_2d_array')


def unit_py_2dpad(u):
    M = mod()
    keep = {}
    for nm, ext, (er, ec) in (('pair', lambda: (Iv(e_), Iv(f_)), (e_, f_)), ('single', lambda: Iv(e_), (e_, e_))):
        for kind in ('vectors', 'scalars'):
            V1 = lambda s, n: Arr.sym(s, (n,)) if kind == 'vectors' else Rv(R(s))
            val = lambda s, i: app(s + '[]', (i,), 'R') if kind == 'vectors' else R(s)

            def go():
                keep['a'] = Arr.sym('a', (n_, m_))
                return M['extrap2d_pad'](keep['a'], ext(), V1('rl', n_), V1('ru', n_), V1('cl', m_), V1('cu', m_))

            def post(v, h, p, tag):
                def want(i, j):
                    r, c = i - er, j - ec
                    rr = ite(lt(r, ZI), ZI, ite(lt(r, n_), r, n_ - 1))
                    inrow = and_(le(ZI, r), lt(r, n_))
                    incol = and_(le(ZI, c), lt(c, m_))
                    side = ite(lt(c, ZI), val('rl', rr), val('ru', rr))
                    return Rv(ite(incol, ite(inrow, y_(r, c), ite(lt(r, ZI), val('cl', c), val('cu', c))), side))
                elems(u, tag, v, (n_ + er * 2, m_ + ec * 2), want, h)
                unchanged(u, tag + ': input array unchanged', keep['a'], lambda ix: Rv(y_(*ix)), h)
            bad = or_(not_(eq(val('rl', ZI), val('cl', ZI))), not_(eq(val('ru', ZI), val('cl', m_ - 1))),
                      not_(eq(val('rl', n_ - 1), val('cu', ZI))), not_(eq(val('ru', n_ - 1), val('cu', m_ - 1))))
            calls(u, 'constant padding, extension given as a %s, constants as %s' % (nm, kind), go, PRE2, post, bad, ('ValueError',))
    u.fn('_arrayops.extrap2d_pad')


def unit_py_check2d(u):
    M = mod()
    q, k = I('q'), I('k')
    al = lambda n, g: binder('forall', q, ZI, n, g(q), 'B')
    al2 = lambda n, m, g: binder('forall', q, ZI, n, binder('forall', k, ZI, m, g(q, k), 'B'), 'B')
    z = lambda i, j: y_(j, i)
    mono = lambda f, n, m: or_(al2(n, m - 1, lambda i, j: le(f(i, j), f(i, j + 1))), al2(n, m - 1, lambda i, j: le(f(i, j + 1), f(i, j))))
    s_ = I('s')

    def even(f, n, m, step):
        mean = lambda i: div(sum_(s_, ZI, m - 1, step(f, i, s_)), toreal(m - 1))
        return al2(n, m - 1, lambda i, j: close(step(f, i, j), mean(i)))
    lin = lambda f, i, j: f(i, j + 1) - f(i, j)
    log = lambda f, i, j: real_fn('log', div(f(i, j + 1), f(i, j)))
    ends = lambda bad: or_(*[not_(al(n, lambda i: not_(bad(f(i, a), f(i, b))))) for f, n, a, b in ((y_, n_, ZI, OI), (y_, n_, m_ - 1, m_ - 2), (z, m_, ZI, OI), (z, m_, n_ - 1, n_ - 2))])
    bad = {None: FALSE, 'sorted': not_(and_(mono(y_, n_, m_), mono(z, m_, n_))), 'epsign': ends(mixed),
           'lin': not_(and_(even(y_, n_, m_, lin), even(z, m_, n_, lin))),
           'loglin': or_(ends(lambda a, b: le(a * b, ZR)), not_(and_(even(y_, n_, m_, log), even(z, m_, n_, log))))}
    for w in (None, 'sorted', 'epsign', 'lin', 'loglin'):
        def go(w=w):
            return M['_check_2d_array'](Arr.sym('a', (n_, m_)), **({'check_' + w: True} if w else {}))

        def post(v, h, p, tag):
            elems(u, tag, v, (n_, m_), lambda i, j: Rv(y_(i, j)), h)
        calls(u, 'check %s' % w, go, PRE2, post, bad[w], (EXC[w], 'MixedSignError') if w else ())
    u.fn('_arrayops._check_2d_array')


UNITS += [('Python: constant padding', unit_py_pad), ('Python: linear', unit_py_lin), ('Python: log-linear', unit_py_loglin), ('Python: array checks', unit_py_check),
          ('Python: rows', unit_py_rows), ('Python: two dimensions', unit_py_2d), ('Python: two-dimensional padding', unit_py_2dpad), ('Python: two-dimensional checks', unit_py_check2d)]


# ------------------------------------------------------------------ replay
def replay(r):
    import numpy as np, warnings
    import cxx, pyreal
    thorough = r.tier == 'thorough'

    def near(q, key, got, want, what, tol=1e-10):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            return q.case(key, False, '%s: shape %s instead of %s' % (what, got.shape, want.shape))
        q.close(key, got.astype(float), want.astype(float), what, tol, 1e-13 * max(1e-300, np.abs(want).max(initial=0.)))

    def raises(f, *a, **k):
        try:
            f(*a, **k)
        except Exception as e:
            return type(e).__name__
        return None

    def arr(rng, n, kind):
        s = rng.choice([-1., 1.])
        if kind == 'rise':
            return s * np.sort(rng.uniform(.1, 50, n))
        if kind == 'fall':
            return s * np.sort(rng.uniform(.1, 50, n))[::-1]
        if kind == 'power':
            return s * 10 ** rng.uniform(-3, 3) * rng.uniform(.7, 1.4) ** np.arange(n)
        if kind == 'line':
            return rng.normal() * 10 + rng.normal() * np.arange(n)
        return rng.normal(size=n) * 10

    def cxxext(L, f, a, e, *c):
        o, no = np.zeros(len(a) + 2 * e), np.zeros(1, np.int32)
        b = a.copy()
        getattr(L, f)(b, len(a), e, *(c + (o, no)))
        return b, o, int(no[0])

    def lin(a, e):
        k = np.arange(1, e + 1)
        return np.r_[(a[0] - k * (a[1] - a[0]))[::-1], a, a[-1] + k * (a[-1] - a[-2])]

    def log(a, e):
        k = np.arange(1, e + 1)
        return np.r_[(a[0] * (a[0] / a[1]) ** k)[::-1], a, a[-1] * (a[-1] / a[-2]) ** k]

    def pad(a, e, lo, hi): return np.r_[np.full(e, lo), a, np.full(e, hi)]

    def body(t):
        L = cxx.lib()
        ao = pyreal.pkg()('_arrayops')
        rng = np.random.default_rng(911 * r.seed + t)
        q = type(r)()
        warnings.simplefilter('ignore')
        for rep in range(60 if thorough else 25):
            n, e = int(rng.integers(2, 24)), int(rng.integers(0, 9))
            kind = str(rng.choice(['rise', 'fall', 'power', 'line', 'any']))
            a = arr(rng, n, kind)
            what = '%d extra of %s' % (e, a.tolist())
            same = kind not in ('line', 'any') or (np.diff(np.sign(a)) == 0).all()
            c = rng.normal(size=2)
            jobs = [('linear', 'a_lin', ao.extrap_lin, lin, ()), ('constant', 'a_pad', ao.extrap_pad, pad, tuple(c))]
            if same and kind != 'any':
                jobs.append(('log-linear', 'a_loglin', ao.extrap_loglin, log, ()))
            for nm, f, g, o, x in jobs:
                want = o(a, e, *x)
                b, got, no = cxxext(L, f, a, e, *x)
                near(q, nm + ' (compiled)', got, want, what)
                q.case(nm + ' (compiled): length, middle and input', no == n + 2 * e and (got[e:e + n] == a).all() and (b == a).all(), what)
                b = a.copy()
                got = g(b, e, *x)
                near(q, nm + ' (Python)', got, want, what)
                q.case(nm + ' (Python): middle and input', (got[e:e + n] == a).all() and (b == a).all(), what)
                q.case(nm + ' (Python): new array', not np.shares_memory(got, b), what)
            if n >= 8:
                b = a.copy()
                got = ao.extrap_loglin_oscil(b, e)
                q.case('oscillating: middle and input', got.shape == (n + 2 * e,) and (got[e:e + n] == a).all() and (b == a).all(), what)
                lo, hi = got[:e + 1][::-1], got[e + n - 1:]
                for side, x in (('lower', lo), ('upper', hi)):
                    if e >= 2 and x[0] != 0:
                        rt = x[1:] / x[:-1]
                        q.case('oscillating: %s end continues with one ratio that does not diverge' % side, (np.abs(rt - rt[0]) <= 1e-9).all() and -1e-12 <= rt[0] <= 1 + 1e-9, '%s: %s' % (what, x.tolist()))
                if kind in ('power',):
                    d = abs(a[1]) >= abs(a[0])
                    near(q, 'oscillating: monotonic power law, lower end', got[:e], log(a, e)[:e] if d else np.full(e, a[0]), what, 1e-9)
                    u = abs(a[-1]) <= abs(a[-2])
                    near(q, 'oscillating: monotonic power law, upper end', got[e + n:], log(a, e)[e + n:] if u else np.full(e, a[-1]), what, 1e-9)
            # checks
            srt = (np.diff(a) >= 0).all() or (np.diff(a) <= 0).all()
            q.case('sortedness check', (raises(ao._check_1d_array, a, check_sorted=True) is None) == srt, what)
            z = a.copy()
            if n > 2:
                z[0 if rng.random() < .5 else -1] *= -1
                mixed = not (z[0] * z[1] > 0 and z[-1] * z[-2] > 0)
                if kind not in ('line',) and (a != 0).all():
                    q.case('mixed signs at an end (Python)', (raises(ao.extrap_loglin, z, 3) is not None) == mixed, z.tolist())
            s = a.copy()
            j = int(rng.integers(0, n))
            s[j] *= -1
            m1 = (s[1:] * s[:-1] <= 0).any()
            try:
                cxxext(L, 'a_loglin', s, 3)
                rej = False
            except cxx.Raised:
                rej = True
            q.case('mixed signs (compiled)', rej == m1, s.tolist())
            q.case('one entry is rejected', raises(ao.extrap_lin, a[:1], 2) is not None and raises(ao.extrap_loglin, a[:1], 2) is not None, what)
            q.case('two dimensions are rejected', raises(ao.extrap_lin, np.ones((3, 3)), 2) is not None, '')
            if n > 3:
                q.case('linearity check', (raises(ao._check_1d_array, a, check_lin=True) is None) == np.allclose(np.diff(a), np.diff(a).mean()), what)
                if same and kind != 'any':
                    l = np.diff(np.log(np.abs(a)))
                    q.case('log-linearity check', (raises(ao._check_1d_array, a, check_loglin=True) is None) == np.allclose(l, l.mean()), what)
            # two dimensions
            m = int(rng.integers(2, 12))
            er, ec = int(rng.integers(0, 5)), int(rng.integers(0, 5))
            f, g = arr(rng, n, 'power'), arr(rng, m, 'power')
            y = np.outer(f, g) * rng.uniform(.9, 1.1, (n, m))
            w2 = 'extension (%d, %d) of %s' % (er, ec, y.tolist())
            for nm, fn, one in (('linear', ao.extrap2d_lin, lin), ('log-linear', ao.extrap2d_loglin, log)):
                b = y.copy()
                got = fn(b, (er, ec))
                want = np.array([one(x, ec) for x in y])
                want = np.array([one(x, er) for x in want.T]).T
                near(q, nm + ' in two dimensions', got, want, w2, 1e-8)
                q.case(nm + ' in two dimensions: middle and input', (got[er:er + n, ec:ec + m] == y).all() and (b == y).all(), w2)
                near(q, nm + ' in two dimensions, one number', fn(b, er), fn(b, (er, er)), w2)
            if n >= 8 and m >= 8:
                b = y.copy()
                got = ao.extrap2d_loglin_oscil(b, (er, ec))
                want = np.array([ao.extrap_loglin_oscil(x, ec) for x in y])
                want = np.array([ao.extrap_loglin_oscil(x, er) for x in want.T]).T
                near(q, 'oscillating in two dimensions', got, want, w2)
                q.case('oscillating in two dimensions: middle and input', (got[er:er + n, ec:ec + m] == y).all() and (b == y).all(), w2)
            c = rng.normal(size=4)
            rl, ru, cl, cu = rng.normal(size=n), rng.normal(size=n), rng.normal(size=m), rng.normal(size=m)
            cl[0], cl[-1], cu[0], cu[-1] = rl[0], ru[0], rl[-1], ru[-1]
            b = y.copy()
            got = ao.extrap2d_pad(b, (er, ec), rl, ru, cl, cu)
            want = np.zeros((n + 2 * er, m + 2 * ec))
            want[er:er + n, ec:ec + m] = y
            want[:er, ec:ec + m], want[er + n:, ec:ec + m] = cl, cu
            ii = np.clip(np.arange(n + 2 * er) - er, 0, n - 1)
            want[:, :ec], want[:, ec + m:] = rl[ii][:, None], ru[ii][:, None]
            near(q, 'constants in two dimensions', got, want, w2)
            q.case('constants in two dimensions: input', (b == y).all(), w2)
            mono = lambda z: ((np.diff(z) >= 0).all() or (np.diff(z) <= 0).all())
            for z in (np.add.outer(np.sort(rng.normal(size=n)) * rng.choice([-1, 1]), np.sort(rng.normal(size=m)) * rng.choice([-1, 1])), y):
                if rng.random() < .5:
                    z = z.copy()
                    z[rng.integers(n), rng.integers(m)] += 5
                q.case('sortedness check in two dimensions', (raises(ao._check_2d_array, z, check_sorted=True) is None) == (mono(z) and mono(z.T)), z.tolist())
        return q
    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
