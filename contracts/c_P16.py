"""P16: Hankel-type transforms use matching sample points and kernels (fftlog.cpp, transforms.py)."""
from common import *
from cxxexec import Obj
from term import real_fn, expand, subterms, as_int

LEVEL = 'proof'
H_ = 'trv::maths::HankelTransform::'
S_ = 'trv::maths::SphericalBesselTransform::'
A_ = 'trv::array::'
log, exp = (lambda x: real_fn('log', x)), (lambda x: real_fn('exp', x))
lng = lambda x, y: app('lngam', (x, y), 'R')
arg = lambda x, y: app('arggam', (x, y), 'R')


def lngamma(X, st, th, a, e):
    """contract of get_lngamma_parts (discharged in unit_gamma): modulus and argument of the gamma function"""
    X.store(st, a[2], lng(a[0], a[1]))
    X.store(st, a[3], arg(a[0], a[1]))


def both(name, f): return {q + name: f for q in ('', 'trv::maths::', 'trv::array::', 'std::')}


G = both('get_lngamma_parts', lngamma)
N, K, J = I('H.nsamp_trans'), I('m'), I('j')
MU, Q, DL, KR = R('H.order'), R('H.bias'), R('H.logres'), R('H.pivot')
XP, XM = (MU + 1 + Q) / 2, (MU + 1 - Q) / 2
COS, SIN = (lambda x: real_fn('cos', expand(x))), (lambda x: real_fn('sin', expand(x)))


def machine(pre, contracts=None, cls='HankelTransform', tus=('fftlog', 'maths')):
    M = Machine(tus, pre, contracts=contracts)
    M.ctx.push(and_(*pre)) if pre else None
    s = M.state()
    s.mem['H'] = M.X.sym('trv::maths::' + cls, 'H')
    return M, s


# ------------------------------------------------------------------ kernel
def unit_kernel(u):
    pre = [lt(ZI, N), lt(ZR, DL), lt(ZR, KR)]
    M, s = machine(pre, G)
    r = M.run(H_ + 'compute_kernel_coeff', s, Loc('H'), [])
    u.fn(H_ + 'compute_kernel_coeff', 'trv::maths::eval_complex_in_polar')
    u.satisfiable('configuration', pre)
    u.eq('one coefficient per sample transformed', r.ln, N, pre)
    u.holds('no exception', not_(M.throw_cond()), pre)
    in_bounds(u, M, pre)
    y = PI / (toreal(N) * DL)

    def polar(m):
        """(2^q |G(x+)/G(x-)|, phase) of mode m"""
        m = toreal(m)
        return exp(Q * log(rn(2)) + lng(XP, m * y) - lng(XM, m * y)), m * (-2 * y * log(KR / 2)) + arg(XP, m * y) + arg(XM, m * y)
    got = r.read((K,))
    a, p = polar(K)
    low = pre + [le(ZI, K), lt(2 * K, N)]
    for nm, hy in (('biased', []), ('unbiased', [eq(Q, ZR)])):
        sub_ = (lambda t: subst(t, {Q: ZR})) if hy else (lambda t: t)
        h = [sub_(x) for x in low + ([] if hy else [not_(eq(Q, ZR))])]
        u.eq('%s, modes up to Nyquist: real part' % nm, sub_(got.re), sub_(a * COS(p)), h)
        u.eq('%s, modes up to Nyquist: imaginary part' % nm, sub_(got.im), sub_(a * SIN(p)), h)
        g2 = r.read((N - K,))
        h = [sub_(x) for x in pre + [lt(ZI, K), lt(2 * K, N)] + ([] if hy else [not_(eq(Q, ZR))])]
        u.eq('%s, conjugate modes: real part' % nm, sub_(g2.re), sub_(a * COS(p)), h)
        u.eq('%s, conjugate modes: imaginary part' % nm, sub_(g2.im), neg(sub_(a * SIN(p))), h)
        h = I('half')
        m_ = {N: 2 * h}
        y2 = [lt(ZI, h), lt(ZR, DL), lt(ZR, KR)] + ([] if hy else [not_(eq(Q, ZR))])
        a2, p2 = (subst(sub_(t), dict(m_)) for t in polar(h))
        ny = r.read((h,))
        u.eq('%s, Nyquist mode: real part' % nm, subst(sub_(ny.re), m_), a2 * COS(p2), y2)
        u.eq('%s, Nyquist mode: imaginary part' % nm, subst(sub_(ny.im), m_), ZR, y2)
    # without bias, coefficients of opposite modes cancel: the transform undoes itself
    z = lambda t: subst(t, {Q: ZR})
    c, d = (lambda v: Cx(z(v.re), z(v.im)))(r.read((K,))), (lambda v: Cx(z(v.re), z(v.im)))(r.read((N - K,)))
    h = [z(x) for x in pre + [lt(ZI, K), lt(2 * K, N)]]
    tr = [eq(COS(z(p)) * COS(z(p)) + SIN(z(p)) * SIN(z(p)), OR)]
    u.eq('unbiased modes have modulus one: product with the opposite mode, real part', (c * d).re, OR, h + tr)
    u.eq('product with the opposite mode, imaginary part', (c * d).im, ZR, h)
    c0 = r.read((ZI,))
    hz = [z(x) for x in pre]
    u.eq('mode zero is real', subst(z(c0.im), {arg(z(XP), ZR): ZR}), ZR, hz)
    # not initialised
    M, s = machine([], G)
    M.run(H_ + 'compute_kernel_coeff', s, Loc('H'), [])
    u.holds('rejected if not initialised', M.throw_cond(), [or_(le(N, ZI), le(DL, ZR), le(KR, ZR))])


def exps(t):
    """the exponentials inside a term (all positive)"""
    return [x for x in subterms(t) if x.op == 'app' and x.a[0] == 'exp']


def unit_pivot(u):
    d, k = R('d'), R('k')
    y = PI / (2 * d)
    ph = (arg(XP, y) + arg(XM, y)) / PI
    seen = []

    def ratio(X, st, th, a, e):
        """contract of eval_gamma_lnratio (discharged in unit_ratio): ln Gamma(x+) - ln Gamma(x-), x+- = (mu+1+-nu)/2"""
        mu, nu = a
        seen.append((mu, nu))
        p, m = (mu + 1 + nu.re) / 2, (mu + 1 - nu.re) / 2
        # argument of a conjugate: minus that of the gamma function
        return Cx(lng(p, nu.im / 2) - lng(m, nu.im / 2), arg(p, nu.im / 2) + arg(m, nu.im / 2))
    u.fn(H_ + 'calc_lowring_pivot')
    for nm, pre in (('pivot given', [lt(ZR, d), lt(ZR, k)]), ('no pivot given', [lt(ZR, d), le(k, ZR)])):
        M, s = machine(pre, dict(G, **both('eval_gamma_lnratio', ratio)))
        got = M.run(H_ + 'calc_lowring_pivot', s, Loc('H'), [d, k])
        u.satisfiable(nm, pre)
        u.holds(nm + ': no exception', not_(M.throw_cond()), pre)
        got = subst(got, {lt(neg(k), ZR): TRUE if nm == 'pivot given' else FALSE, lt(ZR, k): TRUE if nm == 'pivot given' else FALSE})
        u.holds(nm + ': positive', lt(ZR, got), pre + [lt(ZR, t) for t in exps(got)])
        nyq = expand(log(rn(2) / got) / d + ph)      # phase of the Nyquist mode, in units of pi
        if nm == 'pivot given':
            a = expand(log(rn(2) / k) / d + ph)
            n = app('round', (a,), 'R')
            u.eq(nm + ': the phase of the Nyquist mode is a whole multiple of pi', nyq, n, pre)
            u.eq(nm + ': shift from the pivot given', expand(log(got / k)), expand(d * (a - n)), pre)
        else:
            n = floor(expand(log(rn(2)) / d + ph))
            u.eq(nm + ': the phase of the Nyquist mode is a whole multiple of pi', nyq, toreal(n), pre)
            u.eq(nm + ': logarithm', expand(log(got)), expand(log(rn(2)) + ph * d - d * toreal(n)), pre)
    u.trust('libm', 'round returns a nearest integer, so the shift is at most half a cell; floor makes the free pivot lie in [1, e^dL)')


# ------------------------------------------------------------------ gamma functions
def unit_gamma(u):
    seen = []

    def gsl(X, st, th, a, e):
        """contract of GSL: the two results are ln|Gamma(x+iy)| and the argument"""
        seen.append((a[0], a[1]))
        for p, n in ((a[2], 'lngam'), (a[3], 'arggam')):
            st.mem[p.root if isinstance(p, Ptr) else p[0]] = Obj('gsl_sf_result', 'res', {'val': app(n, (a[0], a[1]), 'R'), 'err': R('err')}, X)
        return I('status')
    M, s = machine([], both('gsl_sf_lngamma_complex_e', gsl))
    s.mem['lnr'], s.mem['th'] = ZR, ZR
    M.run('trv::maths::get_lngamma_parts', s, None, [R('x'), R('y'), Loc('lnr'), Loc('th')])
    u.fn('trv::maths::get_lngamma_parts')
    u.eq('logarithm of the modulus', s.mem['lnr'], lng(R('x'), R('y')))
    u.eq('argument', s.mem['th'], arg(R('x'), R('y')))
    u.trust('GSL', 'gsl_sf_lngamma_complex_e returns ln|Gamma(x+iy)| and arg Gamma(x+iy) (compared with an independent log-gamma in the replay)')


def unit_ratio(u):
    mu, nr, ni = R('mu'), R('nu_re'), R('nu_im')
    M, s = machine([], G)
    got = M.run('trv::maths::eval_gamma_lnratio', s, None, [mu, Cx(nr, ni)])
    u.fn('trv::maths::eval_gamma_lnratio')
    p, m = (mu + 1 + nr) / 2, (mu + 1 - nr) / 2
    h = [lt(ni, rn(100))]
    u.eq('logarithm of the modulus', got.re, lng(p, ni / 2) - lng(m, -ni / 2), h)
    u.eq('argument', got.im, arg(p, ni / 2) - arg(m, -ni / 2), h)
    # large arguments: Stirling series of both logarithms
    nu = Cx(nr, ni)
    xp, xm = (nu + (mu + 1)) / 2, ((nu * -1) + (mu + 1)) / 2
    half = Cx(rn(1) / 2, ZR)
    clog = lambda z: Cx(app('clog.re', (z.re, z.im), 'R'), app('clog.im', (z.re, z.im), 'R'))

    def stirling(z):
        one = Cx(OR, ZR)
        z3 = z * z * z
        z5 = z3 * z * z
        return (z - half) * clog(z) - z + (one / z) * rn('1/12') - (one / z3) * rn('1/360') + (one / z5) * rn('1/1260')
    want = stirling(xp) - stirling(xm)
    h = [le(rn(100), ni)]
    u.eq('large arguments: difference of the Stirling series, real part', got.re, want.re, h)
    u.eq('large arguments: difference of the Stirling series, imaginary part', got.im, want.im, h)


# ------------------------------------------------------------------ set-up
def unit_ctor(u):
    for cls in ('HankelTransform', 'SphericalBesselTransform'):
        for th in (TRUE, FALSE):
            M, s = machine([], dict(G, **both('fftw_init_threads', lambda *a: I('st')), **both('fftw_plan_with_nthreads', lambda *a: None), **both('omp_get_max_threads', lambda *a: I('nt'))), cls)
            mu, q = R('mu'), R('q')
            sbt = cls[0] == 'S'
            if sbt:
                mu, q = toreal(I('ell')) + rn(1) / 2, toreal(I('n'))
            M.run('trv::maths::%s::%s' % (cls, cls), s, Loc('H'), [I('ell'), I('n'), th] if sbt else [mu, q, th])
            rd = lambda n: M.read(s, Loc('H'), n)
            u.fn('trv::maths::%s::%s' % (cls, cls))
            t = M.throw_cond()
            pole = lambda x: and_(le(x, ZR), eq(floor(x), x))
            nm = cls + (' (threaded)' if th is TRUE else '')
            u.eq(nm + ': rejected exactly at poles of the gamma function', ite(t, OI, ZI), ite(or_(pole(mu + 1 + q), pole(mu + 1 - q)), OI, ZI))
            u.eq(nm + ': order', rd('order'), mu, [not_(t)])
            u.eq(nm + ': bias', rd('bias'), q, [not_(t)])
            if sbt:
                u.eq(nm + ': degree', rd('degree'), I('ell'), [not_(t)])


PTS = lambda i: app('pts[]', (i,), 'R')
ETS = lambda i: app('E[]', (i,), 'R')
NP, KRC, EE = I('pts#len'), R('kr_c'), R('extrap_exp')


def unit_init(ext, low, fwd=None):
    def go(u):
        pre = [le(ZI, NP)]
        chk, ell, piv, kern, plans = [], [], [], [], []

        def c_check(X, st, th, a, e):
            chk.append((a, X.load(st, a[0])))
            return I('verdict')

        def c_ell(X, st, th, a, e):
            ell.append((a, X.load(st, a[0])))
            X.store(st, a[2], SArr(('sym', 'E'), (), 'double', NP + a[1] * 2, X))

        def c_pivot(X, st, th, a, e):
            piv.append(a)
            return R('low')

        def c_kern(X, st, th, a, e):
            kern.append({n: X.load(st, Loc('H', (n,))) for n in ('order', 'bias', 'nsamp_trans', 'logres', 'pivot')})
            return SArr(('sym', 'U'), (), 'std::complex<double>', I('U#len'), X)

        def c_plan(X, st, th, a, e):
            plans.append(a)
            return Ptr('plan%d' % len(plans), (), ZI)
        M, s = machine(pre, dict(G, **both('check_1d_array', c_check), **both('extrap_loglin', c_ell), **both('fftw_plan_dft_1d', c_plan), **{H_ + 'calc_lowring_pivot': c_pivot, 'calc_lowring_pivot': c_pivot, H_ + 'compute_kernel_coeff': c_kern, 'compute_kernel_coeff': c_kern}), 'SphericalBesselTransform' if fwd else 'HankelTransform')
        s.mem['pts'] = SArr(('sym', 'pts'), (), 'double', NP, M.X)
        M.run((fwd or H_) + 'initialise', s, Loc('H'), [Loc('pts'), KRC, TRUE if low else FALSE, num(ext, 'I'), EE], sig='ExtrapOption')
        u.fn((fwd or H_) + 'initialise')
        t = M.throw_cond()
        rd = lambda n: M.read(s, Loc('H'), n)
        TR = rd('nsamp_trans')
        bad = [lt(NP, num(2, 'I')), not_(eq(I('verdict'), ZI))]
        if ext:
            bad += [not_(eq(imod(NP, num(2, 'I')), ZI)), lt(TR, NP)]
        if not low:
            bad += [le(KRC, ZR)]
        u.eq('rejected exactly for too few or not log-spaced points%s%s' % (', odd or shrunken extrapolations' if ext else '', '' if low else ', a pivot that is not positive'), ite(t, OI, ZI), ite(or_(*bad), OI, ZI), pre)
        ok = pre + [not_(b) for b in bad]
        u.satisfiable('accepted', ok)
        in_bounds(u, M, ok + [eq(imod(TR, num(2, 'I')), ZI)] if ext else ok)
        u.true('log-spacing (not signs, not linear spacing) of the points is checked', len(chk) == 1 and [repr(x) for x in chk[0][0][1:]] == [repr(x) for x in (FALSE, TRUE, FALSE)], repr(chk))
        u.eq('the points are checked', chk[0][1].read((J,)), PTS(J), pre)
        u.eq('number of samples', rd('nsamp'), NP, ok)
        dl = log(PTS(NP - 1) / PTS(ZI)) / toreal(NP - 1)
        u.eq('logarithmic spacing', rd('logres'), dl, ok)
        inr = [le(ZI, J), lt(J, NP)]
        u.eq('input points', M.read(s, Loc('H'), 'pre_sampts', J), PTS(J), ok + inr)
        u.eq('as many input points', rd('pre_sampts').ln, NP, ok)
        if ext:
            u.eq('samples transformed: smallest power of two not below the samples times the expansion factor', TR, trunc(app('powi', (rn(2), neg(as_int(floor(neg(app('log2', (EE * toreal(NP),), 'R')))))), 'R')), ok)
            ev = [eq(imod(TR, num(2, 'I')), ZI)]
            u.eq('samples added at either end', 2 * rd('n_ext'), TR - NP, ok + ev)
            u.true('the points are extended once', len(ell) == 1, repr(ell))
            u.eq('extended by as many points as samples', ell[0][0][1], rd('n_ext'), ok)
            u.eq('the points themselves are extended', ell[0][1].read((J,)), PTS(J), ok + inr)
            u.eq('extended input points', M.read(s, Loc('H'), 'pre_sampts_extrap', J), ETS(J), ok + [le(ZI, J), lt(J, TR)])
        else:
            u.eq('no sample is added', TR, NP, ok)
            u.eq('no sample is added at either end', rd('n_ext'), ZI, ok)
            u.true('nothing is extended', not ell)
        u.eq('extrapolation option', rd('extrap'), num(ext, 'I'), ok)
        if low:
            u.true('low-ringing pivot from the spacing and the pivot given', len(piv) == 1)
            u.eq('spacing of the low-ringing condition', piv[0][0], dl, ok)
            u.eq('pivot of the low-ringing condition', piv[0][1], KRC, ok)
        else:
            u.true('pivot as given', not piv)
        P = R('low') if low else KRC
        u.eq('pivot', rd('pivot'), P, ok)
        u.true('kernel computed once', len(kern) == 1)
        k = kern[0]
        for n, w in (('nsamp_trans', TR), ('logres', dl), ('pivot', P), ('order', MU), ('bias', Q)):
            u.eq('kernel is for the final %s' % n, k[n], w, ok)
        u.eq('kernel kept', M.read(s, Loc('H'), 'kernel', J).re, app('U[].re', (J,), 'R') if False else SArr(('sym', 'U'), (), 'std::complex<double>', I('U#len'), M.X).read((J,)).re, ok)
        u.eq('output points: product with the input points of opposite index', M.read(s, Loc('H'), 'post_sampts', J), P * exp(-dl) / PTS(NP - 1 - J), ok + inr)
        u.eq('as many output points', rd('post_sampts').ln, NP, ok)
        if ext:
            u.eq('extended output points', M.read(s, Loc('H'), 'post_sampts_extrap', J), P * exp(-dl) / ETS(TR - 1 - J), ok + ev + [le(ZI, J), lt(J, TR)])
            u.eq('as many extended output points', rd('post_sampts_extrap').ln, TR, ok)
        # plans
        u.true('two plans', len(plans) == 2, repr(plans))
        for i, (a, b, pl) in enumerate(zip(plans, ('pre_buffer', 'post_buffer'), ('pre_plan', 'post_plan'))):
            u.eq('%s: length' % pl, a[0], TR, ok)
            w = rd(b)
            u.true('%s: in place on %s' % (pl, b), isinstance(w, Ptr) and a[1].root == w.root and a[2].root == w.root, repr((a, w)))
            u.eq('%s: forward' % pl, lift(a[3], 'I'), num(-1, 'I'), ok)
            u.true('%s: kept' % pl, getattr(rd(pl), 'root', None) == 'plan%d' % (i + 1), repr(rd(pl)))
            u.eq('%s: room' % b, s.mem[w.root].ln, TR, ok)
        u.true('buffers are distinct', rd('pre_buffer').root != rd('post_buffer').root)
        u.eq('frame: the points given', M.read(s, Loc('pts'), J), PTS(J), ok)
    return go


# ------------------------------------------------------------------ transform
NS, TN, NE = I('H.nsamp'), I('H.nsamp_trans'), I('H.n_ext')
EXTNAME = {1: 'extrap_pad', 2: 'extrap_pad', 3: 'extrap_lin', 4: 'extrap_loglin'}
PRE_BUF, POST_BUF = ('sym', 'H.pre_buffer*', 'fftw_complex'), ('sym', 'H.post_buffer*', 'fftw_complex')


def ready(ext):
    """what `initialise` leaves behind"""
    h = [le(num(2, 'I'), NS), le(NS, TN)]
    return h + ([eq(TN, NS), eq(NE, ZI)] if not ext else [eq(NE * 2, TN - NS)])


class Steps:
    """contracts on FFTW and the extrapolations: what goes in is recorded"""

    def __init__(s):
        s.fft, s.ext = [], []

    def table(s):
        d = both('fftw_execute', s.execute)
        for n in sorted(set(EXTNAME.values())):
            d.update(both(n, lambda X, st, th, a, e, n=n: s.extend(n, X, st, a)))
        return d

    def execute(s, X, st, th, a, e):
        root = {'planA': PRE_BUF, 'planB': POST_BUF}[a[0].root]
        s.fft.append((a[0].root, X.load(st, Loc(root))))
        st.mem[root] = SArr(('sym', 'FT%d' % len(s.fft)), (), 'fftw_complex', TN, X)

    def extend(s, n, X, st, a):
        v = X.load(st, a[0])
        s.ext.append((n, a[1:-1], v))
        X.store(st, a[-1], SArr(('sym', 'EXT'), (), 'double', v.ln + a[1] * 2, X))


FTn = lambda k, j: [app('FT%d[][]' % k, (j, num(p, 'I')), 'R') for p in (0, 1)]


def transformer(ext, cls='HankelTransform', extra=None):
    S = Steps()
    pre = ready(ext)
    M, s = machine(pre, dict(S.table(), **(extra or {})), cls)
    o = s.mem['H']
    for k, v in (('pre_plan', Ptr('planA', (), ZI)), ('post_plan', Ptr('planB', (), ZI)), ('pre_buffer', Ptr(PRE_BUF, (), ZI)), ('post_buffer', Ptr(POST_BUF, (), ZI)), ('extrap', num(ext, 'I'))):
        o = o.set(k, v)
    o = o.set('kernel', SArr(('sym', 'U'), (), 'std::complex<double>', TN, M.X))
    if ext == 0:
        o = o.set('n_ext', ZI).set('nsamp_trans', NS)
    s.mem['H'] = o
    for r in (PRE_BUF, POST_BUF):
        s.mem[r] = SArr(r[:2], (), 'fftw_complex', TN if ext else NS, M.X)
    return M, s, S, pre


def unit_biased(ext):
    def go(u):
        M, s, S, pre = transformer(ext)
        s.mem['a'] = SArr(('sym', 'a'), (), 'std::complex<double>', NS, M.X)
        s.mem['b'] = SArr(('sym', 'b'), (), 'std::complex<double>', NS, M.X)
        U = M.read(s, Loc('H'), 'kernel')
        a0 = s.mem['a'].read((J,))
        M.run(H_ + 'biased_transform', s, Loc('H'), [Ptr('a', (), ZI), Ptr('b', (), ZI)])
        u.fn(H_ + 'biased_transform')
        u.satisfiable('initialised', pre)
        u.holds('no exception', not_(M.throw_cond()), pre + [not_(eq(U.ln, ZI))])
        in_bounds(u, M, pre)
        n = TN if ext else NS
        inn, inN = pre + [le(ZI, J), lt(J, NS)], pre + [le(ZI, J), lt(J, n)]
        u.true('two Fourier transforms, input before output', [x[0] for x in S.fft] == ['planA', 'planB'], repr(S.fft))
        first, second = S.fft[0][1], S.fft[1][1]
        if ext == 0:
            u.true('nothing is extrapolated', not S.ext)
            for p, w in ((0, a0.re), (1, a0.im)):
                u.eq('transformed: the input, part %d' % p, first.read((J, num(p, 'I'))), w, inN)
        else:
            u.true('extrapolated once, by the option chosen', len(S.ext) == 1 and S.ext[0][0] == EXTNAME[ext], repr(S.ext))
            _, args, v = S.ext[0]
            u.eq('extrapolated: the input', v.read((J,)), a0.re, inn)
            u.eq('extrapolated: the whole input', v.ln, NS, pre)
            u.eq('extrapolated by the samples missing', args[0], NE, pre)
            if len(args) > 1:
                a_ = s.mem['a']
                lo, hi = (a_.read((ZI,)).re, a_.read((NS - 1,)).re) if ext == 2 else (ZR, ZR)
                u.eq('constant below', args[1], lo, pre)
                u.eq('constant above', args[2], hi, pre)
            for p, w in ((0, app('EXT[]', (J,), 'R')), (1, ZR)):
                u.eq('transformed: the extrapolated input, part %d' % p, first.read((J, num(p, 'I'))), w, inN)
        f = FTn(1, J)
        w = Cx(f[0], f[1]) * U.read((J,))
        for p, x in ((0, w.re), (1, w.im)):
            u.eq('convolution: modes times the kernel, normalised, part %d' % p, second.read((J, num(p, 'I'))), x / toreal(n), inN)
        g = FTn(2, J + (NE if ext else ZI))
        got = s.mem['b'].read((J,))
        u.eq('output: the middle part, real', got.re, g[0], inn)
        u.eq('output: the middle part, imaginary', got.im, g[1], inn)
        r = M.read(s, Loc('a'), J)
        u.eq('frame: input, real', r.re, a0.re, inn)
        u.eq('frame: input, imaginary', r.im, a0.im, inn)
        k = M.read(s, Loc('H'), 'kernel', J)
        u.eq('frame: kernel', k.re, U.read((J,)).re, inN)
    return go


def unit_unready(u):
    for nm, f in (('without kernel', ('kernel', ZI)), ('without samples', ('nsamp', None)), ('without samples to transform', ('nsamp_trans', None))):
        M, s, S, pre = transformer(1)
        o = s.mem['H']
        if f[0] == 'kernel':
            o = o.set('kernel', SArr(('sym', 'U'), (), 'std::complex<double>', ZI, M.X))
        else:
            o = o.set(f[0], num(1, 'I'))
        s.mem['H'] = o
        s.mem['a'] = SArr(('sym', 'a'), (), 'std::complex<double>', NS, M.X)
        s.mem['b'] = SArr(('sym', 'b'), (), 'std::complex<double>', NS, M.X)
        ok = M.never_returns(H_ + 'biased_transform', s, Loc('H'), [Ptr('a', (), ZI), Ptr('b', (), ZI)]) or M.throw_cond() is TRUE
        u.true('rejected %s' % nm, ok, show(M.throw_cond()) if not ok else '')
    u.fn(H_ + 'biased_transform')


# ------------------------------------------------------------------ spherical Bessel transform
def sbt(fn, args, run):
    seen = []

    def base(X, st, th, a, e):
        """contract of HankelTransform::biased_transform (discharged in the units above)"""
        r = [x.root if isinstance(x, Ptr) else x[0] for x in a]
        seen.append(X.load(st, Loc(r[0])))
        st.mem[r[1]] = SArr(('sym', 'HT'), (), 'std::complex<double>', st.mem[r[1]].ln, X)
    pre = [le(num(2, 'I'), NS)]
    M, s = machine(pre, {H_ + 'biased_transform': base}, 'SphericalBesselTransform')
    s.mem['a'] = SArr(('sym', 'a'), (), 'std::complex<double>', I('a#len'), M.X)
    s.mem['b'] = SArr(('sym', 'b'), (), 'std::complex<double>', I('b#len'), M.X)
    o = s.mem['H']
    for n in ('pre_sampts', 'post_sampts'):
        o = o.set(n, SArr(('sym', n), (), 'double', NS, M.X))
    s.mem['H'] = o
    return M, s, seen, pre


def weighted(u, M, s, seen, ok, fac=Cx(OR, ZR), atoms=()):
    in_bounds(u, M, ok)
    inn = ok + [le(ZI, J), lt(J, NS)]
    a = SArr(('sym', 'a'), (), 'std::complex<double>', I('a#len'), M.X).read((J,))
    r, k = app('pre_sampts[]', (J,), 'R'), app('post_sampts[]', (J,), 'R')
    pos = [lt(ZR, r), lt(ZR, k)]
    u.true('one Hankel transform', len(seen) == 1, repr(seen))
    g = seen[0].read((J,))
    w = cpow(r)
    u.eq('transformed: input times r^(3/2), real', g.re, w * a.re, inn + pos)
    u.eq('transformed: input times r^(3/2), imaginary', g.im, w * a.im, inn + pos)
    ht = SArr(('sym', 'HT'), (), 'std::complex<double>', NS, M.X).read((J,))
    want = ht * cpow(2 * PI / k) * fac
    got = M.read(s, Loc('b'), J)
    u.eq('result times (2 pi/k)^(3/2), real', got.re, want.re, inn + pos)
    u.eq('result times (2 pi/k)^(3/2), imaginary', got.im, want.im, inn + pos)
    u.eq('one result per sample', M.read(s, Loc('b')).ln, NS, ok)
    fr = M.read(s, Loc('a'), J)
    u.eq('frame: input, real', fr.re, a.re, inn)
    u.eq('frame: input, imaginary', fr.im, a.im, inn)


def cpow(x): return x * app('sqrt', (x,), 'R')


def unit_sbt(u):
    M, s, seen, pre = sbt(None, None, None)
    M.run(S_ + 'biased_transform', s, Loc('H'), [Loc('a'), Loc('b')])
    u.fn(S_ + 'biased_transform')
    ok = pre + [eq(I('a#len'), NS)]
    u.eq('rejected exactly for another number of samples', ite(M.throw_cond(), OI, ZI), ite(eq(I('a#len'), NS), ZI, OI), pre)
    weighted(u, M, s, seen, ok)


def unit_cosmo(d):
    def go(u):
        for q in range(4):
            M, s, seen, pre = sbt(None, None, None)
            s.mem['H'] = s.mem['H'].set('degree', 4 * I('l4') + q)
            M.run(S_ + 'transform_cosmological_multipole', s, Loc('H'), [num(d, 'I'), Loc('a'), Loc('b')])
            ok = pre + [eq(I('a#len'), NS)]
            u.eq('rejected exactly for another number of samples', ite(M.throw_cond(), OI, ZI), ite(eq(I('a#len'), NS), ZI, OI), pre)
            i = [Cx(OR, ZR), Cx(ZR, OR), Cx(rn(-1), ZR), Cx(ZR, rn(-1))][(-d * q) % 4]
            weighted(u, M, s, seen, ok, i * (OR if d == 1 else OR / (2 * PI * 2 * PI * 2 * PI)))
        u.fn(S_ + 'transform_cosmological_multipole')
    return go


def unit_dir(u):
    M, s, seen, pre = sbt(None, None, None)
    M.run(S_ + 'transform_cosmological_multipole', s, Loc('H'), [I('dir'), Loc('a'), Loc('b')])
    u.holds('other directions are rejected', M.throw_cond(), pre + [not_(eq(I('dir'), OI)), not_(eq(I('dir'), num(-1, 'I')))])
    u.fn(S_ + 'transform_cosmological_multipole')


UNITS = [('kernel', unit_kernel), ('pivot', unit_pivot), ('gamma', unit_gamma), ('ratio', unit_ratio), ('constructor', unit_ctor)]
UNITS += [('initialise: extrapolation %d%s' % (e, ', low ringing' if l else ''), unit_init(e, l)) for e in range(5) for l in (False, True)]
UNITS += [('initialise spherical Bessel: extrapolation %d%s' % (e, ', low ringing' if l else ''), unit_init(e, l, S_)) for e, l in ((0, True), (3, False))]
UNITS += [('transform: extrapolation %d' % e, unit_biased(e)) for e in range(5)]
UNITS += [('transform before set-up', unit_unready), ('spherical Bessel transform', unit_sbt), ('forward cosmological multipoles', unit_cosmo(1)), ('backward cosmological multipoles', unit_cosmo(-1)), ('directions of cosmological multipoles', unit_dir)]
u0 = unit_init


def unit_forward(u):
    """the overload taking the extrapolation option as a number"""
    for cls in ('HankelTransform', 'SphericalBesselTransform'):
        seen = []
        q = 'trv::maths::%s::initialise' % cls
        c = lambda X, st, th, a, e: seen.append([X.load(st, x) if isinstance(x, Loc) else x for x in a])
        M, s = machine([], {H_ + 'initialise': c}, cls)
        s.mem['pts'] = SArr(('sym', 'pts'), (), 'double', NP, M.X)
        M.run(q, s, Loc('H'), [Loc('pts'), KRC, var('low?', 'B'), I('option'), EE], sig='bool, int')
        u.true(cls + ': forwards once', len(seen) == 1, repr(seen))
        a = seen[0]
        u.eq(cls + ': points', a[0].read((J,)), PTS(J))
        u.eq(cls + ': number of points', a[0].ln, NP)
        u.eq(cls + ': pivot', a[1], KRC)
        u.true(cls + ': low ringing', a[2] is var('low?', 'B'), repr(a[2]))
        u.eq(cls + ': option', a[3], I('option'))
        u.eq(cls + ': expansion', a[4], EE)
        u.fn(q)


UNITS += [('initialise by number', unit_forward)]


# ------------------------------------------------------------------ Python
import pylib, pysym, glue
from types import SimpleNamespace
from pylib import PYTRUST, Module, Arr, Iv, Rv, calls, elems, unchanged, shape_is, same
from pysym import V, lit
import pynp
from term import fresh
asarr = pysym.asarray
TRUSTED = PYTRUST + glue.GLUETRUST + ['the extrapolations are those of P15, the C++ transform is that of the units above',
                     'the 2-d transform is checked with one-dimensional transforms that are arbitrary linear maps']
n_, m_, e_, ee_ = I('n'), I('m'), I('e'), R('extrap_exp')


class HT:
    """contract of the compiled HankelTransform"""
    made = []

    def __init__(s, mu, q, x, kr_c, lowring=True, extrap=0, extrap_exp=2., threaded=False):
        s.args = dict(mu=mu, q=q, x=x, kr_c=kr_c, lowring=lowring, extrap=extrap, extrap_exp=extrap_exp, threaded=threaded)
        x = asarr(x)
        s.x = x
        s.n = x.shape_[0]
        s._logres, s._pivot, s.size = Rv(R('logres')), Rv(R('pivot')), Iv(I('size'))
        g = x.snap()
        s._pre_sampts = Arr.of((s.n,), g, 'f')
        s._post_sampts = Arr.sym('post', (s.n,))
        s.seen = []
        HT.made.append(s)

    def transform(s, fx):
        fx = asarr(fx)
        if not pysym.deq(fx.shape_[0], s.n):
            raise ValueError('size')
        g = fx.snap()
        s.seen.append((fx.shape_, g))
        return Arr.sym('post', (s.n,)), Arr.of((s.n,), lambda ix: V(app('HT.re', (ix[0],), 'R'), app('HT.im', (ix[0],), 'R'), 'c'), 'c')


def stubs(log_):
    def mk(name, nd):
        def f(a, n, *c):
            a = asarr(a)
            log_.append((name, a.shape_, a.snap(), n, c))
            n = pysym.intt(n)
            return Arr.of(tuple(d + n * 2 for d in a.shape_), lambda ix: Rv(app(name, tuple(ix), 'R')), 'f')
        return f
    d = {n: mk(n, 1) for n in ('extrap_lin', 'extrap_loglin', 'extrap_loglin_oscil', 'extrap_pad')}
    d.update({n: mk(n, 2) for n in ('extrap2d_lin', 'extrap2d_loglin', 'extrap2d_loglin_oscil', 'extrap2d_pad')})
    return SimpleNamespace(**d)


OPT = {1: 'extrap_pad', 2: 'extrap_pad', 3: 'extrap_lin', 4: 'extrap_loglin', 5: 'extrap_loglin_oscil'}


def p32(x): return real_fn('exp', real_fn('log', x) * rn('3/2'))
def T2(): return trunc(real_fn('exp', neg(floor(neg(real_fn('log', ee_ * toreal(n_)) / real_fn('log', rn(2))))) * real_fn('log', rn(2))))


def post_at(i): return app('post[]', (i,), 'R')


class Set:
    """a transform set up by the real constructor, with what its parts were given"""

    def __init__(s, ext, layer, threaded, bias=None):
        s.log, s.ext, s.layer = [], ext, layer
        s.outer = ext and layer != 'native'
        M = Module('transforms', imports={'._arrayops': stubs(s.log), '._fftlog': SimpleNamespace(HankelTransform=HT)})
        HT.made[:] = []
        s.x = Arr.sym('x', (n_,))
        s.low = V(var('low?', 'B'), None, 'b')
        kw = {} if layer == 'default' else {'extrap_layer': layer}
        s.t = M['SphericalBesselTransform'](Iv(I('ell')), Iv(I('bias')), s.x, pivot=Rv(R('kr')), lowring=s.low, extrap=ext, extrap_exp=Rv(ee_), threaded=threaded, **kw)
        s.made = list(HT.made)


# an expansion by less than one would shrink the samples: excluded
# a power of two above one is even
EXPAND = [le(ZI, T2() - n_), eq(imod(T2(), num(2, 'I')), ZI)]
EVEN = eq(imod(n_, num(2, 'I')), ZI)


def n_ext(S): return pysym.intt(S.t._n_ext) if S.outer else ZI


def unit_py_sbt(ext, layer):
    def go(u):
        keep = {}
        u.fn('transforms.SphericalBesselTransform.__init__', 'transforms.SphericalBesselTransform.size', 'transforms.SphericalBesselTransform.pivot')

        def run(threaded=False):
            keep['S'] = Set(ext, layer, V(var('threads?', 'B'), None, 'b'))
            return keep['S']
        pre = [le(num(2, 'I'), n_)] + (EXPAND if ext else [])

        def post(S, h, p, tag):
            u.true(tag + ': one Hankel transform', len(S.made) == 1)
            a = S.made[0].args
            same(u, tag + ': order is half above the degree', a['mu'], Rv(toreal(I('ell')) + rn('1/2')), h)
            same(u, tag + ': bias', a['q'], Iv(I('bias')), h)
            same(u, tag + ': pivot', a['kr_c'], Rv(R('kr')), h)
            u.true(tag + ': low ringing', a['lowring'] is S.low)
            same(u, tag + ': threads', a['threaded'], V(var('threads?', 'B'), None, 'b'), h)
            same(u, tag + ': native option', a['extrap'], Iv(ext if not S.outer else 0), h)
            if ext and not S.outer:
                same(u, tag + ': native expansion', a['extrap_exp'], Rv(ee_), h)
            e = n_ext(S)
            if S.outer:
                u.eq(tag + ': samples added at either end', e * 2, T2() - n_, h)
                u.true(tag + ': the points are extended log-linearly, once', [r[0] for r in S.log] == ['extrap_loglin'], repr(S.log))
                r = S.log[0]
                u.eq(tag + ': the points themselves are extended', pysym.real(r[2]((J,))), pysym.real(S.x.get((J,))), h + [between(0, J, n_)])
                u.eq(tag + ': extended by the samples added', pysym.intt(r[3]), e, h)
                elems(u, tag + ': points passed on', a['x'], (n_ + e * 2,), lambda i: Rv(app('extrap_loglin', (i,), 'R')), h)
            else:
                u.true(tag + ': points not extended', not S.log)
                elems(u, tag + ': points passed on', a['x'], (n_,), lambda i: Rv(app('x[]', (i,), 'R')), h)
            same(u, tag + ': size', S.t.size, Iv(I('size')), h)
            same(u, tag + ': pivot used', S.t.pivot, Rv(R('pivot')), h)
            same(u, tag + ': degree', S.t.degree, Iv(I('ell')), h)
            same(u, tag + ': bias kept', S.t.bias, Iv(I('bias')), h)
            elems(u, tag + ': points after the transform', S.t._post_sampts, (n_,), lambda i: Rv(post_at(i + e)), h)
            unchanged(u, tag + ': points given unchanged', S.x, lambda ix: Rv(app('x[]', ix, 'R')), h)
        rej = FALSE if not ext else not_(EVEN)
        calls(u, 'set-up', run, pre, post, rej, ('ValueError',))

        def run_t(how):
            def f():
                S = run()
                S.log[:] = []
                S.f = Arr.sym('f', (n_,), 'c') if not ext else Arr.sym('f', (n_,))
                if how == 'transform':
                    return S, S.t.transform(S.f)
                return S, S.t.transform_cosmo_multipoles(how, S.f)
            return f

        def done(fac):
            def post(v, h, p, tag):
                S, (pts, out) = v
                e = n_ext(S)
                sh = n_ + e * 2
                x = (lambda i: app('extrap_loglin', (i,), 'R')) if S.outer else (lambda i: app('x[]', (i,), 'R'))
                ht = S.made[0]
                u.true(tag + ': one Hankel transform', len(ht.seen) == 1)
                shp, g = ht.seen[0]
                hj = h + [between(0, J, sh), lt(ZR, x(J))]
                f = S.f.snap()
                if S.outer:
                    u.true(tag + ': the samples are extrapolated once, by the option chosen', [r[0] for r in S.log] == [OPT[ext]], repr(S.log))
                    r = S.log[0]
                    same(u, tag + ': extrapolated: the samples', r[2]((J,)), f((J,)), h + [between(0, J, n_)])
                    u.eq(tag + ': extrapolated by the samples added', pysym.intt(r[3]), e, h)
                    if ext == 1:
                        for c in r[4]:
                            same(u, tag + ': zeros', c, Rv(ZR), h)
                    if ext == 2:
                        same(u, tag + ': constant below', r[4][0], f((ZI,)), h)
                        same(u, tag + ': constant above', r[4][1], f((n_ - 1,)), h)
                    want = Rv(app(OPT[ext], (J,), 'R'))
                else:
                    u.true(tag + ': nothing is extrapolated outside', not S.log)
                    want = f((J,))
                u.eq(tag + ': as many samples as points', shp[0], sh, h)
                same(u, tag + ': transformed: samples times r^(3/2)', g((J,)), pysym.v_mul(want, Rv(p32(x(J)))), hj)
                elems(u, tag + ': points', pts, (n_,), lambda i: Rv(post_at(i + e)), h)
                hp = h + [binder('forall', K, ZI, sh, lt(ZR, post_at(K)), 'B')]
                shape_is(u, tag + ': result', out, (n_,), h)
                kk = J + e
                w = Cx(app('HT.re', (kk,), 'R'), app('HT.im', (kk,), 'R')) * p32(2 * PI / post_at(kk)) * fac(S)
                got = out.get((J,))
                hr = h + [between(0, J, n_), lt(ZR, post_at(kk))]
                same(u, tag + ': result: transform times (2 pi/k)^(3/2)', got, V(w.re, w.im, 'c'), hr)
                unchanged(u, tag + ': input unchanged', S.f, lambda ix: (V(app('f.re[]', ix, 'R'), app('f.im[]', ix, 'R'), 'c') if not ext else Rv(app('f[]', ix, 'R'))), h)
            return post
        u.fn('transforms.SphericalBesselTransform.transform', 'transforms.SphericalBesselTransform._perform_extrap')
        ev = pre + ([EVEN] if ext else [])
        calls(u, 'transform', run_t('transform'), ev, done(lambda S: Cx(OR, ZR)), FALSE, ('ValueError',))
        if ext in (0, 4) and layer != 'outer':
            u.fn('transforms.SphericalBesselTransform.transform_cosmo_multipoles')
            four = [Cx(OR, ZR), Cx(ZR, OR), Cx(rn(-1), ZR), Cx(ZR, rn(-1))]
            for q in range(4):
                hy = ev + [le(ZI, I('ell')), eq(imod(I('ell'), num(4, 'I')), num(q, 'I'))]
                for how, sg, sc in (('forward', -1, OR), (1, -1, OR), ('backward', 1, 1 / (2 * PI * 2 * PI * 2 * PI)), (-1, 1, 1 / (2 * PI * 2 * PI * 2 * PI))):
                    calls(u, 'multipoles of degree %d mod 4, direction %r' % (q, how), run_t(how), hy, done(lambda S, sg=sg, sc=sc: four[(sg * q) % 4] * sc), FALSE, ('ValueError',))
            calls(u, 'another direction', run_t('sideways'), ev, None, TRUE, ('ValueError',)) if False else None
    return go


def unit_py_reject(u):
    for nm, kw in (('option', {'extrap': 6}), ('layer', {'extrap': 1, 'extrap_layer': 'middle'})):
        M = Module('transforms', imports={'._arrayops': stubs([]), '._fftlog': SimpleNamespace(HankelTransform=HT)})
        E, ps = pylib.explore(lambda: M['SphericalBesselTransform'](Iv(I('ell')), Iv(I('bias')), Arr.sym('x', (n_,)), **kw), [le(num(2, 'I'), n_), EVEN])
        u.true('unsupported %s is rejected' % nm, ps and all(p.out == 'exc' and isinstance(p.exc, ValueError) for p in ps), repr([(p.out, p.exc) for p in ps]))

    def sideways():
        S = Set(0, 'default', False)
        S.t.transform_cosmo_multipoles('sideways', Arr.sym('f', (n_,)))
    E, ps = pylib.explore(sideways, [le(num(2, 'I'), n_)])
    u.true('unsupported direction is rejected', ps and all(p.out == 'exc' and isinstance(p.exc, ValueError) for p in ps), repr([(p.out, p.exc) for p in ps]))


# two dimensions
class T1:
    """contract of the 1-d transform: a linear map of the samples (any map: its matrix is arbitrary), at its own points"""

    def __init__(s, degree, bias, sample_pts, pivot=1., lowring=True, extrap=0, extrap_exp=2., extrap_layer='outer', threaded=False):
        s.args = dict(degree=degree, bias=bias, sample_pts=sample_pts, pivot=pivot, lowring=lowring, extrap=extrap, extrap_exp=extrap_exp, extrap_layer=extrap_layer, threaded=threaded)
        s.k = len(T1.made)
        s.n = asarr(sample_pts).shape_[0]
        s._logres, s.pivot, s.size = Rv(R('logres%d' % s.k)), Rv(R('pivot%d' % s.k)), Iv(I('size%d' % s.k))
        s._pre_sampts = asarr(sample_pts)
        s._post_sampts = Arr.sym('post%d' % s.k, (s.n,))
        s.rows = 0
        T1.made.append(s)

    def transform(s, f):
        f = asarr(f)
        if f.ndim != 1 or not pysym.deq(f.shape_[0], s.n):
            raise ValueError('shape')
        g = f.snap()
        return s._post_sampts, Arr.of((s.n,), lambda ix: lin(s.k, ix[0], s.n, lambda i: g((i,))), 'c')


T1.made = []


def lin(k, j, n, f):
    i = fresh('q', 'I')
    v = f(i)
    w = V(app('K%d.re' % k, (j, i), 'R'), app('K%d.im' % k, (j, i), 'R'), 'c')
    return pynp.sumv(i, ZI, n, pysym.v_mul(w, v))


OPT2 = {1: 'extrap2d_pad', 2: 'extrap2d_pad', 3: 'extrap2d_lin', 4: 'extrap2d_loglin', 5: 'extrap2d_loglin_oscil'}


def unit_py_double(ext, two):
    def go(u):
        u.fn('transforms.DoubleSphericalBesselTransform.__init__', 'transforms.DoubleSphericalBesselTransform.size', 'transforms.DoubleSphericalBesselTransform.pivot',
             'transforms.DoubleSphericalBesselTransform.transform', 'transforms.DoubleSphericalBesselTransform._perform_extrap', 'transforms.DoubleSphericalBesselTransform.transform_cosmo_multipoles')
        outer = ext and two
        pre = [le(num(2, 'I'), n_)] + (EXPAND if ext else [])

        def make():
            S = SimpleNamespace(log=[])
            M = Module('transforms', imports={'._arrayops': stubs(S.log), '._fftlog': SimpleNamespace(HankelTransform=HT)})
            M.set('SphericalBesselTransform', T1)
            T1.made[:] = []
            S.x = Arr.sym('x', (n_,))
            S.low, S.thr = V(var('low?', 'B'), None, 'b'), V(var('threads?', 'B'), None, 'b')
            S.t = M['DoubleSphericalBesselTransform']((Iv(I('l0')), Iv(I('l1'))), (Iv(I('b0')), Iv(I('b1'))), S.x, pivot=Rv(R('kr')), lowring=S.low, extrap=ext, extrap_exp=Rv(ee_), extrap2d=bool(two), threaded=S.thr)
            S.made = list(T1.made)
            return S

        def post(S, h, p, tag):
            u.true(tag + ': one transform for either dimension', len(S.made) == 2)
            e = pysym.intt(S.t._n_ext) if outer else ZI
            if outer:
                u.eq(tag + ': samples added at either end', e * 2, T2() - n_, h)
                u.true(tag + ': the points are extended log-linearly, once', [r[0] for r in S.log] == ['extrap_loglin'], repr(S.log))
                r = S.log[0]
                u.eq(tag + ': the points themselves are extended', pysym.real(r[2]((J,))), pysym.real(S.x.get((J,))), h + [between(0, J, n_)])
                u.eq(tag + ': extended by the samples added', pysym.intt(r[3]), e, h)
            for d, t in enumerate(S.made):
                a = t.args
                same(u, tag + ': degree of dimension %d' % d, a['degree'], Iv(I('l%d' % d)), h)
                same(u, tag + ': bias of dimension %d' % d, a['bias'], Iv(I('b%d' % d)), h)
                same(u, tag + ': pivot for dimension %d' % d, a['pivot'], Rv(R('kr')), h)
                u.true(tag + ': low ringing of dimension %d' % d, a['lowring'] is S.low)
                u.true(tag + ': threads of dimension %d' % d, a['threaded'] is S.thr)
                same(u, tag + ': option of dimension %d' % d, a['extrap'], Iv(0 if outer else ext), h)
                if ext and not outer:
                    same(u, tag + ': expansion of dimension %d' % d, a['extrap_exp'], Rv(ee_), h)
                elems(u, tag + ': points of dimension %d' % d, a['sample_pts'], (n_ + e * 2,), lambda i: Rv(app('extrap_loglin' if outer else 'x[]', (i,), 'R')), h)
            same(u, tag + ': size', S.t.size, Iv(I('size0')), h)
            for d in (0, 1):
                same(u, tag + ': pivot of dimension %d' % d, S.t.pivot[d], Rv(R('pivot%d' % d)), h)
                same(u, tag + ': degree %d' % d, S.t.degrees[d], Iv(I('l%d' % d)), h)
            unchanged(u, tag + ': points given unchanged', S.x, lambda ix: Rv(app('x[]', ix, 'R')), h)
        calls(u, 'set-up', make, pre, post, FALSE if not ext else not_(EVEN), ('ValueError',))

        def run_t(how):
            def f():
                S = make()
                S.log[:] = []
                S.f = Arr.sym('f', (n_, n_), 'c') if not ext else Arr.sym('f', (n_, n_))
                return S, S.t.transform(S.f) if how == 'transform' else S.t.transform_cosmo_multipoles(how, S.f)
            return f

        def done(fac):
            def post(v, h, p, tag):
                S, (pts, out) = v
                e = pysym.intt(S.t._n_ext) if outer else ZI
                sh = n_ + e * 2
                raw = lambda i, j: V(app('f.re[]', (i, j), 'R'), app('f.im[]', (i, j), 'R'), 'c') if not ext else Rv(app('f[]', (i, j), 'R'))
                if outer:
                    u.true(tag + ': the samples are extrapolated once, by the option chosen', [r[0] for r in S.log] == [OPT2[ext]], repr(S.log))
                    r = S.log[0]
                    same(u, tag + ': extrapolated: the samples', r[2]((I('i'), J)), raw(I('i'), J), h + [between(0, J, n_), between(0, I('i'), n_)])
                    u.eq(tag + ': extrapolated by the samples added', pysym.intt(r[3]), e, h)
                    if ext == 1:
                        u.true(tag + ': four constants', len(r[4]) == 4)
                        for c in r[4]:
                            same(u, tag + ': zeros', c, Rv(ZR), h)
                    if ext == 2:
                        for c, w, nm in zip(r[4], (lambda i: raw(i, ZI), lambda i: raw(i, n_ - 1), lambda i: raw(ZI, i), lambda i: raw(n_ - 1, i)), ('first column', 'last column', 'first row', 'last row')):
                            elems(u, tag + ': constants: ' + nm, c, (n_,), w, h)
                    inp = lambda i, j: Rv(app(OPT2[ext], (i, j), 'R'))
                else:
                    u.true(tag + ': nothing is extrapolated outside', not S.log)
                    inp = raw
                u.true(tag + ': two arrays of points', isinstance(pts, (list, tuple)) and len(pts) == 2, repr(pts))
                elems(u, tag + ': points of the first dimension vary along it', pts[0], (n_, n_), lambda i, j: Rv(app('post0[]', (i + e,), 'R')), h)
                elems(u, tag + ': points of the second dimension vary along it', pts[1], (n_, n_), lambda i, j: Rv(app('post1[]', (j + e,), 'R')), h)
                c = fac(S)
                want = lambda i, j: pysym.v_mul(lin(0, i + e, sh, lambda a: lin(1, j + e, sh, lambda b: inp(a, b))), V(c.re, c.im, 'c'))
                elems(u, tag + ': result: second degree along rows, first along columns', out, (n_, n_), want, h)
                unchanged(u, tag + ': input unchanged', S.f, lambda ix: raw(*ix), h)
            return post
        ev = pre + ([EVEN] if ext else [])
        calls(u, 'transform', run_t('transform'), ev, done(lambda S: Cx(OR, ZR)), FALSE, ('ValueError',))
        if ext == 0:
            four = [Cx(OR, ZR), Cx(ZR, OR), Cx(rn(-1), ZR), Cx(ZR, rn(-1))]
            six = OR
            for _ in range(6):
                six = six / (2 * PI)
            for q in range(4):
                hy = ev + [le(ZI, I('l0')), le(ZI, I('l1')), eq(imod(I('l0') + I('l1'), num(4, 'I')), num(q, 'I'))]
                for how, sg, sc in (('forward', -1, OR), (1, -1, OR), ('backward', 1, six), (-1, 1, six)):
                    calls(u, 'multipoles of degrees adding to %d mod 4, direction %r' % (q, how), run_t(how), hy, done(lambda S, sg=sg, sc=sc: four[(sg * q) % 4] * sc), FALSE, ('ValueError',))
    return go




# ------------------------------------------------------------------ the Cython class
class CppHT(glue.CppObject):
    """trv::maths::HankelTransform by its contract (units above)"""
    made = []

    def __init__(s, mu, q, threaded):
        super().__init__(order=mu, bias=q, nsamp=Iv(ZI), nsamp_trans=Iv(ZI), logres=Rv(ZR), pivot=Rv(ZR), pre_sampts=[], post_sampts=[])
        object.__setattr__(s, 'log', [('new', mu, q, threaded)])
        CppHT.made.append(s)

    def initialise(s, x, kr_c, lowring, extrap, extrap_exp):
        x = asarr(x)
        s.log.append(('initialise', x.copy(), kr_c, lowring, extrap, extrap_exp))
        s.m.update(nsamp=Iv(x.shape_[0].re if isinstance(x.shape_[0], V) else x.shape_[0]), nsamp_trans=Iv(I('size')), logres=Rv(R('logres')), pivot=Rv(R('pivot')), pre_sampts=x.copy(), post_sampts=Arr.sym('post', (x.shape_[0],)))

    def biased_transform(s, a, b):
        n = s.m['nsamp'].re
        for nm, v in (('read', a), ('written', b)):
            if not (isinstance(v, tuple) and v[0] == 'address' and pysym.deq(pysym.intt(pysym.lit(v[2])), ZI)):
                raise pysym.Unsupported('address of the samples')
        s.log.append(('transform', a[1].copy(), b[1].shape_[0], a[1] is b[1]))
        b[1][:] = Arr.of(b[1].shape_, lambda ix: V(app('HT.re', (ix[0],), 'R'), app('HT.im', (ix[0],), 'R'), 'c'), 'c')


def unit_glue(u):
    u.fn('_fftlog.HankelTransform.__cinit__', '_fftlog.HankelTransform.transform', '_fftlog.HankelTransform._transform', '_fftlog.HankelTransform.size', '_fftlog.HankelTransform.pivot')
    log_ = []

    def check(a, check_sorted=False, check_epsign=False, check_linear=False, check_loglin=False, **k):
        log_.append((check_loglin, k))
        return asarr(a)
    G = glue.Glue('_fftlog', imports={'._arrayops': SimpleNamespace(_check_1d_array=check)}, cpp=dict(CppHankelTransform=CppHT))
    CppHT.members = G.x.structs['CppHankelTransform'][1]
    pre = [le(num(2, 'I'), n_)]
    low, thr = V(var('low?', 'B'), None, 'b'), V(var('threads?', 'B'), None, 'b')

    def make(**k):
        log_[:], CppHT.made[:] = [], []
        x = Arr.sym('x', (n_,))
        return G['HankelTransform'](Rv(R('mu')), Rv(R('q')), x, Rv(R('kr')), **k), x, list(CppHT.made), list(log_)

    def built(want):
        def post(v, h, p, tag):
            H, x, made, lg = v
            u.true(tag + ': one transform is made', len(made) == 1 and [e[0] for e in made[0].log] == ['new', 'initialise'], repr(made and made[0].log))
            _, mu, q, th = made[0].log[0]
            same(u, tag + ': order', mu, Rv(R('mu')), h)
            same(u, tag + ': bias', q, Rv(R('q')), h)
            same(u, tag + ': threads', pysym.lit(th), pysym.lit(want['threaded']), h)
            _, xs, kr, lw, ex, ee = made[0].log[1]
            elems(u, tag + ': points', xs, (n_,), lambda i: Rv(app('x[]', (i,), 'R')), h)
            u.true(tag + ': points are checked to be logarithmic', [e[0] for e in lg] == [True], repr(lg))
            same(u, tag + ': pivot asked for', kr, Rv(R('kr')), h)
            same(u, tag + ': low ringing', pysym.lit(lw), pysym.lit(want['lowring']), h)
            same(u, tag + ': option', pysym.lit(ex), pysym.lit(want['extrap']), h)
            same(u, tag + ': expansion', pysym.lit(ee), pysym.lit(want['extrap_exp']), h)
            same(u, tag + ': attribute order', H.order, Rv(R('mu')), h)
            same(u, tag + ': attribute bias', H.bias, Rv(R('q')), h)
            same(u, tag + ': attribute size', H.size, Iv(I('size')), h)
            same(u, tag + ': attribute pivot', H.pivot, Rv(R('pivot')), h)
            same(u, tag + ': attribute logres', H._logres, Rv(R('logres')), h)
            same(u, tag + ': attribute nsamp', H._nsamp, Iv(n_), h)
            elems(u, tag + ': points before', H._pre_sampts, (n_,), lambda i: Rv(app('x[]', (i,), 'R')), h)
            elems(u, tag + ': points after', H._post_sampts, (n_,), lambda i: Rv(post_at(i)), h)
            unchanged(u, tag + ': points given unchanged', x, lambda ix: Rv(app('x[]', ix, 'R')), h)
        return post
    dflt = dict(lowring=True, extrap=0, extrap_exp=Rv(num(2, 'R')), threaded=False)
    for nm, k in (('defaults', {}), ('all given', dict(lowring=low, extrap=Iv(e_), extrap_exp=Rv(ee_), threaded=thr)), ('no extrapolation', dict(extrap=None)), ('threads', dict(threaded=True, lowring=False))):
        calls(u, nm, lambda k=k: make(**k), pre, built(dict(dflt, **dict(k, **({'extrap': 0} if 'extrap' in k and k['extrap'] is None else {})))), FALSE, ())
    for kind in 'fc':
        for nm, ln, rej in (('samples', n_, FALSE), ('samples of any size', m_, not_(eq(n_, m_)))):
            def go(kind=kind, ln=ln):
                H, x, made, lg = make()
                f = Arr.sym('f', (ln,), kind)
                return H.transform(f), f, made[0].log[2:], H

            def post(v, h, p, tag, kind=kind):
                (y, gy), f, lg, H = v
                val = lambda i: V(app('f.re[]', (i,), 'R'), app('f.im[]', (i,), 'R'), 'c') if kind == 'c' else Rv(app('f[]', (i,), 'R'))
                if not u.true(tag + ': transformed once', [e[0] for e in lg] == ['transform'], repr(lg)):
                    return
                elems(u, tag + ': samples transformed', lg[0][1], (n_,), val, h)
                u.eq(tag + ': room for the result', pysym.dim(lg[0][2]), n_, h)
                u.true(tag + ': not in place', not lg[0][3])
                elems(u, tag + ': points returned', y, (n_,), lambda i: Rv(post_at(i)), h)
                elems(u, tag + ': result', gy, (n_,), lambda i: V(app('HT.re', (i,), 'R'), app('HT.im', (i,), 'R'), 'c'), h)
                unchanged(u, tag + ': samples given unchanged', f, lambda ix: val(ix[0]), h)
            calls(u, '%s %s' % ({'f': 'real', 'c': 'complex'}[kind], nm), go, pre + [le(ZI, ln)], post, rej, ('ValueError',))


UNITS += [('compiled class', unit_glue)]
UNITS += [('Python: 1-d, option %d, %s' % (e, l), unit_py_sbt(e, l)) for e in range(6) for l in ('default', 'outer', 'native')] + [('Python: 1-d, rejected', unit_py_reject)]
UNITS += [('Python: 2-d, option %d%s' % (e, ', in two dimensions' if t else ''), unit_py_double(e, t)) for e in range(6) for t in (0, 1)]


# ------------------------------------------------------------------ replay against the real code
def replay(r):
    import numpy as np, warnings, ctypes as ct
    import cxx, pyreal, hankel
    from scipy.special import loggamma, hyp1f1, gamma
    reps = 200 if r.tier == 'thorough' else 12

    class SBT:
        """the C++ class"""

        def __init__(s, ell, n, x, kr, low, ext=0, ee=2.):
            L = cxx.lib()
            with hankel.LOCK:
                h = ct.c_void_p()
                L.t_new(ell, n, ct.byref(h))
                s.h = cxx.H(h.value)
                L.t_init(s.h, x, len(x), float(kr), bool(low), ext, float(ee))
            s.n = len(x)

        def run(s, a, nb=None, d=None):
            a = np.ascontiguousarray(a, dtype=complex)
            b = np.zeros(s.n, complex)
            if d is None:
                cxx.lib().t_bt(s.h, a, len(a), b, s.n if nb is None else nb)
            else:
                cxx.lib().t_cosmo(s.h, d, a, len(a), b, s.n if nb is None else nb)
            return a, b

    def extended(v, e, opt):
        if opt == 1:
            return np.pad(v, e)
        if opt == 2:
            return np.pad(v, e, mode='edge')
        k = np.arange(1, e + 1)
        if opt == 3:
            return np.concatenate([(v[0] - k * (v[1] - v[0]))[::-1], v, v[-1] + k * (v[-1] - v[-2])])
        return np.concatenate([(v[0] * (v[0] / v[1]) ** k)[::-1], v, v[-1] * (v[-1] / v[-2]) ** k])

    def raises(f, *exc):
        try:
            f()
        except (exc or (cxx.Raised,)):
            return True
        return False

    def body(t):
        q = type(r)()
        rng = np.random.default_rng(1000 * r.seed + t)
        warnings.simplefilter('ignore')
        imp = pyreal.pkg()
        HTc = hankel.glue()
        tr = imp('transforms')
        for rep in range(reps):
            # gamma functions
            x, y = rng.uniform(-4, 12), rng.uniform(-30, 30)
            o = np.zeros(2)
            cxx.lib().lngam(x, y, o)
            w = loggamma(x + 1j * y)
            q.close('log-gamma', np.array([o[0], np.cos(o[1]), np.sin(o[1])]), np.array([w.real, np.cos(w.imag), np.sin(w.imag)]), (x, y), 1e-8, 1e-8, max(1., abs(w.real)))
            mu, nu = rng.uniform(-.5, 8), rng.uniform(-1, 1) + 1j * float(rng.choice([rng.uniform(0, 100), rng.uniform(100, 900), 100.]))
            cxx.lib().gamma_lr(mu, nu.real, nu.imag, o)
            w = loggamma((mu + 1 + nu) / 2) - loggamma((mu + 1 - nu) / 2)
            q.close('ratio of gamma functions', np.array([o[0], np.cos(o[1]), np.sin(o[1])]), np.array([w.real, np.cos(w.imag), np.sin(w.imag)]), (mu, nu), 1e-7, 1e-7, max(1., abs(w.real)))
            # set-up, kernel, points
            N = int(rng.choice([2, 3, 4, 5, 6, 7, 8, 10, 16, 31, 64]))
            dL, x0 = float(rng.choice([rng.uniform(.01, .03), rng.uniform(.05, .4), rng.uniform(.5, 1.5)])), 10 ** rng.uniform(-3, 2)
            x = x0 * np.exp(dL * np.arange(N))
            mu, bias = float(rng.choice([rng.uniform(0, 6), rng.integers(0, 6) + .5])), float(rng.choice([0., 0., rng.uniform(-.4, .4)]))
            kr, low = float(rng.choice([1., 10 ** rng.uniform(-2, 2)])), bool(rng.random() < .5)
            if low and rng.random() < .3:
                kr = float(rng.choice([0., -1.]))
            ext = int(rng.integers(0, 5)) if N % 2 == 0 else 0
            ee = float(rng.choice([1., 1.5, 2., 3.]))
            what = dict(mu=mu, q=bias, N=N, x0=x0, dL=dL, kr=kr, lowring=low, extrap=ext, extrap_exp=ee)
            h = HTc(mu, bias, x, kr, low, ext, ee)
            T = N if not ext else int(2 ** np.ceil(np.log2(ee * N)))
            q.case('sample size', h.size == T and h._nsamp == N and h.n_ext == (T - N) // 2, what)
            p = h.pivot
            if low:
                a = hankel.lowring(mu, bias, dL, p)
                q.case('low-ringing pivot: the Nyquist mode is real', abs(a - round(a)) < 1e-6 * max(1, abs(a)), dict(what, pivot=p, phase=a))
                if kr > 0:
                    q.case('low-ringing pivot is the nearest', abs(np.log(p / kr)) <= dL / 2 * (1 + 1e-6) + 1e-9, dict(what, pivot=p))
            else:
                q.case('pivot as given', p == kr, dict(what, pivot=p))
            q.close('points', np.array(h._post_sampts), p * np.exp(-dL) / x[::-1], what, 1e-10)
            q.close('kernel', h.kernel, hankel.kernel(mu, bias, T, dL, p), what, 1e-7, 1e-7)
            f = rng.normal(size=N) + 1j * rng.normal(size=N)
            if ext:
                f = np.exp(rng.uniform(-1, 1, N)) * (1 if rng.random() < .5 else -1) + 0j
            f0 = f.copy()
            k, g = h.transform(f)
            fe = extended(f.real, h.n_ext, ext) if ext else f
            want = hankel.fftlog(fe, mu, bias, dL, p)
            q.close('transform', g, want[h.n_ext:h.n_ext + N], what, 1e-6, 1e-7 * max(1., abs(want).max() / max(abs(want[h.n_ext:h.n_ext + N]).max(), 1e-300)))
            q.case('input unchanged', np.array_equal(f, f0), what)
            if not f.imag.any():
                q.close('transform of real samples', h.transform(f.real)[1], g, what, 1e-12, 1e-12)
            q.close('transform of strided samples', h.transform(np.repeat(f, 2)[::2])[1], g, what, 1e-12, 1e-12)
            q.case('samples of another size rejected', all(raises(lambda v=v: h.transform(v), ValueError) for v in (f[:-1], np.append(f, f[:1]), f[:0])), what)
            q.case('options without extrapolation', HTc(mu, bias, x, kr, low, None).size == N, what)
            q.close('points returned', k, np.array(h._post_sampts), what, 1e-12)
            if ext:
                xe = x0 * np.exp(dL * np.arange(-h.n_ext, N + h.n_ext))
                q.close('extended points', h.pre_ext, xe, what, 1e-8)
                q.close('extended points after the transform', h.post_ext, p * np.exp(-dL) / xe[::-1], what, 1e-8)
            # back and forth
            if not ext and (low or N % 2):
                b2 = HTc(mu, 0., x, p, low)
                k2, g2 = b2.transform(f)
                b3 = HTc(mu, 0., k2, b2.pivot, False)
                k3, g3 = b3.transform(g2)
                q.close('points after going back', k3, x, what, 1e-8)
                q.close('forward then backward returns the input', g3, f, what, 1e-7, 1e-7)
            # power-law-decaying inputs agree with the integral: int_0^inf (x)^(mu+1) exp(-x^2/2) J_mu(k x) k dx
            if rep % 4 == 0:
                Nl, mu2 = int(rng.choice([256, 255])), float(rng.choice([0., .5, 1., 1.5, 2.5]))
                xl = np.geomspace(1e-5, 1e4, Nl)
                hl = HTc(mu2, 0., xl, 1., True, int(rng.choice([0, 1])) if Nl % 2 == 0 else 0)
                kl, gl = hl.transform(xl ** (mu2 + 1) * np.exp(-xl ** 2 / 2))
                wl = kl ** (mu2 + 1) * np.exp(-kl ** 2 / 2)
                mid = (kl > 1e-2) & (kl < 10)  # aliasing at the far ends of the periodic grid
                q.close('agrees with the integral', gl.real[mid], wl[mid], dict(mu=mu2, N=Nl), 2e-5, 2e-5)
            # ---- spherical Bessel transforms
            l, n = int(rng.integers(0, 7)), int(rng.choice([0, 0, 1, -1])) if ext == 0 else 0
            what = dict(what, ell=l, bias=n)
            c = SBT(l, n, x, kr, low, ext, ee)
            hh = HTc(l + .5, n, x, kr, low, ext, ee)
            a, b = c.run(f, int(rng.choice([0, N, N + 3])))
            _, base = hh.transform(f * x ** 1.5)
            base = base * (2 * np.pi / np.array(hh._post_sampts)) ** 1.5
            q.close('C++ spherical Bessel transform', b, base, what, 1e-9, 1e-9)
            q.case('C++ spherical Bessel transform: input unchanged', np.array_equal(a, f), what)
            for d in (1, -1):
                a, b = c.run(f, N, d)
                q.close('C++ multipoles', b, base * (-1j if d == 1 else 1j) ** l * (1 if d == 1 else (2 * np.pi) ** -3), dict(what, dir=d), 1e-9, 1e-9)
                q.case('C++ multipoles: input unchanged', np.array_equal(a, f), what)
            q.case('C++ multipoles: other directions rejected', all(raises(lambda: c.run(f, N, d)) for d in (0, 2, -2)), what)
            q.case('C++ spherical Bessel transform: wrong sizes rejected', raises(lambda: c.run(f[:-1])), what)
            for layer in ('outer', 'native'):
                P = tr.SphericalBesselTransform(l, n, x.copy(), pivot=kr, lowring=low, extrap=ext, extrap_exp=ee, extrap_layer=layer)
                fi = f.copy() if not ext else f.real.copy()
                if layer == 'native':
                    want, kk = base, np.array(hh._post_sampts)
                else:
                    e = (T - N) // 2 if ext else 0
                    xe = x0 * np.exp(dL * np.arange(-e, N + e))
                    ho = HTc(l + .5, n, xe, kr, low)
                    _, full = ho.transform((extended(f.real, e, ext) if ext else f) * xe ** 1.5)
                    kk = np.array(ho._post_sampts)[e:e + N]
                    want = full[e:e + N] * (2 * np.pi / kk) ** 1.5
                f1 = fi.copy()
                k, g = P.transform(fi)
                sc = 1e-8 * max(1., abs(full).max() / max(abs(full[e:e + N]).max(), 1e-300)) if layer == 'outer' else 1e-8
                q.close('Python spherical Bessel transform: points, ' + layer, k, kk, what, 1e-8)
                q.close('Python spherical Bessel transform, ' + layer, g, want, what, 1e-6, sc)
                q.case('Python: input unchanged', np.array_equal(fi, f1), what)
                for d, z in (('forward', (-1j) ** l), (1, (-1j) ** l), ('backward', 1j ** l * (2 * np.pi) ** -3), (-1, 1j ** l * (2 * np.pi) ** -3)):
                    q.close('Python multipoles, %s, %r' % (layer, d), P.transform_cosmo_multipoles(d, fi)[1], g * z, what, 1e-9, 1e-12)
                q.case('Python: input still unchanged', np.array_equal(fi, f1), what)
            if not ext and n == 0 and (low or N % 2) and N * dL < 8:  # rounding grows as x^(3/2)
                P = tr.SphericalBesselTransform(l, 0, x, pivot=p, lowring=low)
                k, g = P.transform_cosmo_multipoles('forward', f)
                B = tr.SphericalBesselTransform(l, 0, k, pivot=P.pivot, lowring=False)
                k3, g3 = B.transform_cosmo_multipoles('backward', g)
                q.close('Python: forward then backward returns the input', g3, f, what, 1e-6, 1e-6)
                q.close('Python: points after going back', k3, x, what, 1e-8)
            # ---- two dimensions
            if rep % 3 == 0 and N >= 4:
                N2 = min(N, 16)
                x2 = x[:N2]
                ls, bs = tuple(int(v) for v in rng.integers(0, 5, 2)), (0, 0) if ext else tuple(int(v) for v in rng.integers(0, 2, 2))
                e2 = ext if N2 % 2 == 0 else 0
                two = bool(e2 and (e2 == 4 or rng.random() < .6))  # log-linear rows of one sign only before the first pass
                F = np.exp(rng.uniform(-1, 1, (N2, N2))) if e2 else rng.normal(size=(N2, N2)) + 1j * rng.normal(size=(N2, N2))
                D = tr.DoubleSphericalBesselTransform(ls, bs, x2, pivot=kr, lowring=low, extrap=e2, extrap_exp=ee, extrap2d=two)
                what = dict(what, degrees=ls, biases=bs, N=N2, two=two, extrap=e2)
                F1 = F.copy()
                (k1, k2), G = D.transform(F)
                q.case('2-d: input unchanged', np.array_equal(F, F1), what)
                T2_ = int(2 ** np.ceil(np.log2(ee * N2))) if e2 else N2
                e = (T2_ - N2) // 2
                if two:
                    A = np.array([extended(v, e, e2) for v in F])
                    A = np.array([extended(v, e, e2) for v in A.T]).T
                    xx = x0 * np.exp(dL * np.arange(-e, N2 + e))
                    oo = dict(extrap=0)
                else:
                    A, xx, e, oo = F, x2, 0, dict(extrap=e2, extrap_exp=ee)
                S0, S1 = [tr.SphericalBesselTransform(ls[d], bs[d], xx, pivot=kr, lowring=low, **oo) for d in (0, 1)]
                A = np.array([S1.transform(v)[1] for v in A])
                A = np.array([S0.transform(v)[1] for v in A.T]).T
                m = len(xx)
                W = A[e:m - e, e:m - e]
                K1, K2 = np.meshgrid(S0._post_sampts[e:m - e], S1._post_sampts[e:m - e], indexing='ij')
                q.close('2-d: points of the first dimension', k1, K1, what, 1e-8)
                q.close('2-d: points of the second dimension', k2, K2, what, 1e-8)
                sc = 1e-7 * max(1., abs(A).max() / max(abs(W).max(), 1e-300))
                q.close('2-d transform', G, W, what, 1e-6, sc)
                for d, z in (('forward', (-1j) ** sum(ls)), (1, (-1j) ** sum(ls)), ('backward', 1j ** sum(ls) * (2 * np.pi) ** -6), (-1, 1j ** sum(ls) * (2 * np.pi) ** -6)):
                    q.close('2-d multipoles, %r' % (d,), D.transform_cosmo_multipoles(d, F)[1], G * z, what, 1e-9, 1e-12)
                q.case('2-d: input still unchanged', np.array_equal(F, F1), what)
                q.close('2-d: pivots', np.array(D.pivot), np.array([S0.pivot, S1.pivot]), what, 1e-9)
            # ---- rejections
            if rep == 0:
                L10 = np.geomspace(1, 10, 10)
                bad = [('pole of order plus bias', lambda: HTc(-1.5, -.5, L10, 1.)), ('pole of order minus bias', lambda: HTc(-2., 1., L10, 1.)),
                       ('pivot not positive', lambda: HTc(.5, 0, L10, 0., False)), ('odd size with extrapolation', lambda: HTc(.5, 0, L10[:9], 1., True, 1)),
                       ('shrinking expansion', lambda: HTc(.5, 0, L10, 1., True, 1, .3))]
                for nm, fn in bad:
                    q.case('rejected: ' + nm, raises(fn), nm)
                o = [np.linspace(1, 10, 10), np.ones(1), L10[:1]]
                for v in o:
                    q.case('rejected: points', raises(lambda: SBT(0, 0, v, 1., True)), list(v))
                q.case('rejected: Python option', raises(lambda: tr.SphericalBesselTransform(0, 0, L10, extrap=6), ValueError) and raises(lambda: tr.DoubleSphericalBesselTransform((0, 0), (0, 0), L10, extrap=6), ValueError), 'extrap=6')
                q.case('rejected: Python layer', raises(lambda: tr.SphericalBesselTransform(0, 0, L10, extrap=1, extrap_layer='middle'), ValueError), 'middle')
                q.case('rejected: Python odd size', raises(lambda: tr.SphericalBesselTransform(0, 0, L10[:9], extrap=1), ValueError) and raises(lambda: tr.DoubleSphericalBesselTransform((0, 0), (0, 0), L10[:9], extrap=1), ValueError), 'odd')
                q.case('rejected: Python direction', raises(lambda: tr.SphericalBesselTransform(0, 0, L10).transform_cosmo_multipoles('up', L10), ValueError), 'up')
        return q
    for out in cxx.pmap(body, range(8), timeout=800):
        absorb(r, out)
