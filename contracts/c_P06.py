"""P06: binned two-point statistics average exactly the modes of each bin (field.cpp)."""
from meshlib import *
from c_P03 import FFT, name_of, root_of, ftel, SJ

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals (the fine sampling index is the integer part of the exact quotient)',
           'FFTW: executing a plan replaces its array by the unnormalised DFT of the planned direction',
           'machine integers as mathematical integers (mode counts below 2^31)']
N, L_, dr, dk = geom('S')
VOL = var('S.vol', 'R')
Q = [var('q%d' % a, 'I') for a in range(3)]
VN = ['nmodes', 'npairs', 'k', 'r', 'sn', 'pk', 'xi']
NB = var('b.num_bins', 'I')
B = I('bin')
PRE = valid(N) + [lt(ZI, NB), between(0, B, NB), eq(var('S.params.nmesh', 'I'), N[0] * N[1] * N[2]), lt(ZR, VOL)]
LO, HI = app('b.bin_edges[]', (B,), 'R'), app('b.bin_edges[]', (B + 1,), 'R')
CEN = app('b.bin_centres[]', (B,), 'R')


SJQ = 'trv::maths::SphericalBesselCalculator::'


def c_sjeval(X, st, th, args, e):
    return app('sjl', (X.load(st, th).get('order'), lift(args[0], 'R')), 'R')


SJ2 = {SJQ + 'eval': c_sjeval, SJQ + 'SphericalBesselCalculator': lambda X, st, th, a, e: X.load(st, a[0]) if isinstance(a[0], Loc) else a[0]}


def machine(inter, plan=False, dbg=None):
    f = FFT()

    def c_alias(X, st, th, args, e):
        return None

    def c_win(X, st, th, args, e):
        o = X.load(st, th)
        who = 'Fa' if th == Loc('fa') else 'Fb' if th == Loc('fb') else str(th)
        return app('win', tuple(lift(a, 'I') for a in args[:3]) + (lift(args[3], 'I'), lift(who, 'S') if False else num({'Fa': 1, 'Fb': 2}.get(who, 3), 'I')), 'R')
    c = dict(YLM, **VECS)
    c.update(f.table())
    c['trv::FieldStats::if_fields_compatible'] = lambda X, st, th, a, e: TRUE
    c['trv::FieldStats::compute_shotnoise_aliasing'] = c_alias
    c['trv::MeshField::calc_assignment_window_in_fourier'] = c_win
    c.update(SJ2)
    M = Machine(('field', 'maths'), contracts=c)
    s = M.state()
    s.mem['this'] = M.X.sym('trv::FieldStats', 'S')
    prm = M.read(s, Loc('this'), 'params').set('interlace', st('true' if inter else 'false'))
    s.mem['this'] = s.mem['this'].set('params', prm).set('plan_ini', TRUE if plan else FALSE)
    s.mem['fa'] = M.X.sym('trv::MeshField', 'Fa')
    s.mem['fb'] = M.X.sym('trv::MeshField', 'Fb')
    s.mem['b'] = M.X.sym('trv::Binning', 'b')
    M.ctx.push(and_(*PRE))
    return M, s, f


def gsum(t):
    for x, n in reversed(list(zip(Q, N))):
        t = sum_(x, ZI, n, t)
    return t


def mode_terms(inter):
    g = flat(*Q, N)
    fa = Cx(app('Fa.field*[][]', (g, num(0, 'I')), 'R'), app('Fa.field*[][]', (g, num(1, 'I')), 'R'))
    fb = Cx(app('Fb.field*[][]', (g, num(0, 'I')), 'R'), app('Fb.field*[][]', (g, num(1, 'I')), 'R'))
    al = app('S.alias_sn[]', (g,), 'R')
    o = var('S.params.assignment_order', 'I')
    W = al if not inter else app('win', tuple(Q) + (o, OI), 'R') * app('win', tuple(Q) + (o, num(2, 'I')), 'R')
    pk = Cx((fa.re * fb.re + fa.im * fb.im) / W, (fa.im * fb.re - fa.re * fb.im) / W)
    amp = Cx(R('amp_re'), R('amp_im'))
    sn = Cx(amp.re * al / W, amp.im * al / W)
    return pk, sn


def inbin(x, d, n):
    s = trunc(x / d)
    return and_(le(ZI, s), lt(s, num(n, 'I')), le(LO, toreal(s) * d), lt(toreal(s) * d, HI))


def ylmq(v):
    return ylm_term(I('ell'), I('m'), v)


def parts(x):
    return (x.re, x.im) if isinstance(x, Cx) else (x, ZR)


def unit_fourier(inter):
    def go(u):
        M, s, f = machine(inter)
        M.run('trv::FieldStats::compute_ylm_wgtd_2pt_stats_in_fourier', s, Loc('this'), [Loc('fa'), Loc('fb'), Cx(R('amp_re'), R('amp_im')), I('ell'), I('m'), Loc('b')])
        u.fn('trv::FieldStats::compute_ylm_wgtd_2pt_stats_in_fourier', 'trv::FieldStats::resize_stats', 'trv::FieldStats::reset_stats', 'trv::FieldStats::ret_grid_index')
        kv = [kax(a, q) for a, q in enumerate(Q)]
        k = magn(kv)
        d = rn('1/100000')
        g = inbin(k, d, 1000000)
        y = ylmq(kv)
        pk, sn = mode_terms(inter)
        n = gsum(ite(g, OI, ZI))
        get = lambda nm: M.read(s, Loc('this'), nm).read((B,))
        nm = get('nmodes')
        u.eq('number of modes of a bin', nm, n, PRE)
        full, empty = PRE + [lt(ZI, nm)], PRE + [eq(nm, ZI)]
        u.eq('effective wavenumber', get('k'), gsum(ite(g, k, ZR)) / toreal(n), full)
        u.eq('wavenumber of an empty bin', get('k'), CEN, empty)
        for nme, v in (('pk', pk), ('sn', sn)):
            w = v * y
            for q, (got, want) in enumerate(zip(parts(get(nme)), parts(w))):
                u.eq('%s of a bin, part %d' % (nme, q), got, gsum(ite(g, want, ZR)) / toreal(n), full)
                u.eq('%s of an empty bin, part %d' % (nme, q), got, ZR, empty)
        for nme in VN:
            u.eq('%s has one entry per bin' % nme, M.read(s, Loc('this'), nme).ln, NB, PRE)
        for o in ('Fa', 'Fb'):
            u.true('the field %s is not modified' % o, not any(isinstance(q, tuple) and q[0] == 'sym' and q[1].startswith(o + '.') and s.mem[q].writes for q in s.mem))
    return go



def xi3d(inter, u, M, f, plan):
    """the three-dimensional two-point statistic is the inverse transform of the compensated, noise-subtracted mode powers"""
    u.true('one backward transform', len(f.calls) == 1 and 'inv_transform' in name_of(f.calls[0][0]), str([name_of(c[0]) for c in f.calls]))
    root = ('sym', 'S.twopt_3d*', 'fftw_complex')
    if plan:
        u.true('by its own plan', name_of(f.calls[0][0]).startswith("('sym', 'S.") or 'S.inv' in name_of(f.calls[0][0]), name_of(f.calls[0][0]))
    else:
        u.true('by the plan of the first field, in place', 'Fa' in name_of(f.calls[0][0]) and root_of(f.calls[0][1]) == root and root_of(f.calls[0][2]) == root, repr(f.calls[0][:3]))
    pk, sn = mode_terms(inter)
    g = flat(*Q, N)
    ok = [between(0, q, n) for q, n in zip(Q, N)]
    for part, w in ((0, pk.re - sn.re), (1, pk.im - sn.im)):
        u.eq('transformed mode powers, part %d' % part, f.calls[0][3][root].read((g, num(part, 'I'))), w / VOL, PRE + ok)
    return Cx(ftel(1, g, 0), ftel(1, g, 1))


def xi_fft(f):
    """FFT contract applied to the statistic's own array"""
    def _apply(X, st, plan, arr):
        root = ('sym', 'S.twopt_3d*', 'fftw_complex')
        ln = st.mem[root].ln if root in st.mem else var('S.params.nmesh', 'I')
        st.mem[root] = SArr(('sym', 'FT%d' % len(f.calls)), (), 'fftw_complex', ln, X)
        return None
    f._apply = _apply


def unit_config(inter, plan):
    def go(u):
        M, s, f = machine(inter, plan)
        xi_fft(f)
        M.run('trv::FieldStats::compute_ylm_wgtd_2pt_stats_in_config', s, Loc('this'), [Loc('fa'), Loc('fb'), Cx(R('amp_re'), R('amp_im')), I('ell'), I('m'), Loc('b')])
        u.fn('trv::FieldStats::compute_ylm_wgtd_2pt_stats_in_config')
        xi = xi3d(inter, u, M, f, plan)
        rv = [rax(a, q) for a, q in enumerate(Q)]
        r = magn(rv)
        config_bins(u, M, s, xi * ylmq(rv), r, inbin(r, rn('1/10'), 1000000), False)
    return go


def config_bins(u, M, s, w, r, g, sn3):
    n = gsum(ite(g, OI, ZI))
    get = lambda nm: M.read(s, Loc('this'), nm).read((B,))
    nm = get('npairs')
    u.eq('number of separations of a bin', nm, n, PRE)
    full, empty = PRE + [lt(ZI, nm)], PRE + [eq(nm, ZI)]
    u.eq('effective separation', get('r'), gsum(ite(g, r, ZR)) / toreal(n), full)
    u.eq('separation of an empty bin', get('r'), CEN, empty)
    fac = OR if not sn3 else powi_term(M) / var('S.vol_cell', 'R') / toreal(n)
    for q, (got, want) in enumerate(zip(parts(get('xi')), parts(w))):
        u.eq('correlation of a bin, part %d' % q, got, fac * gsum(ite(g, want, ZR)) / toreal(n), full)
        u.eq('correlation of an empty bin, part %d' % q, got, ZR, empty)
    for nme in VN:
        u.eq('%s has one entry per bin' % nme, M.read(s, Loc('this'), nme).ln, NB, PRE)
    for o in ('Fa', 'Fb'):
        u.true('the field %s is not modified' % o, not any(isinstance(q, tuple) and q[0] == 'sym' and q[1].startswith(o + '.') and s.mem[q].writes for q in s.mem))


def powi_term(M):
    return M.X.pow(num(-1, 'R'), var('S.params.ell1', 'I') + var('S.params.ell2', 'I')) if hasattr(M.X, 'pow') else app('powi', (num(-1, 'R'), var('S.params.ell1', 'I') + var('S.params.ell2', 'I')), 'R')


def ylm_pair(M, s):
    for nme in ('ya', 'yb'):
        s.mem[nme] = M.X.sym('std::vector<std::complex<double>>', nme)
    g = flat(*Q, N)
    return s.mem['ya'].read((g,)) * s.mem['yb'].read((g,))


def unit_sn3(inter, plan):
    def go(u):
        M, s, f = machine(inter, plan)
        xi_fft(f)
        yy = ylm_pair(M, s)
        M.run('trv::FieldStats::compute_uncoupled_shotnoise_for_3pcf', s, Loc('this'), [Loc('fa'), Loc('fb'), Loc('ya'), Loc('yb'), Cx(R('amp_re'), R('amp_im')), Loc('b')])
        u.fn('trv::FieldStats::compute_uncoupled_shotnoise_for_3pcf')
        xi = xi3d(inter, u, M, f, plan)
        r = magn([rax(a, q) for a, q in enumerate(Q)])
        config_bins(u, M, s, xi * yy, r, inbin(r, OR, 100000), True)
    return go


def unit_snb(inter, plan):
    def go(u):
        M, s, f = machine(inter, plan)
        xi_fft(f)
        yy = ylm_pair(M, s)
        for nme in ('sa', 'sb'):
            s.mem[nme] = M.X.sym('trv::maths::SphericalBesselCalculator', nme)
        v = M.run('trv::FieldStats::compute_uncoupled_shotnoise_for_bispec_per_bin', s, Loc('this'), [Loc('fa'), Loc('fb'), Loc('ya'), Loc('yb'), Loc('sa'), Loc('sb'), Cx(R('amp_re'), R('amp_im')), R('ka'), R('kb')])
        u.fn('trv::FieldStats::compute_uncoupled_shotnoise_for_bispec_per_bin')
        xi = xi3d(inter, u, M, f, plan)
        r = magn([rax(a, q) for a, q in enumerate(Q)])
        j = app('sjl', (var('sa.order', 'I'), R('ka') * r), 'R') * app('sjl', (var('sb.order', 'I'), R('kb') * r), 'R')
        for q, (got, want) in enumerate(zip(parts(v), parts(xi * yy))):
            u.eq('shot noise of a pair of wavenumbers, part %d' % q, got, var('S.vol_cell', 'R') * gsum(j * want), PRE)
    return go


def unit_compat(u):
    M = Machine(('field',))
    s = M.state()
    s.mem['this'] = M.X.sym('trv::FieldStats', 'S')
    s.mem['fa'] = M.X.sym('trv::MeshField', 'Fa')
    s.mem['fb'] = M.X.sym('trv::MeshField', 'Fb')
    v = M.run('trv::FieldStats::if_fields_compatible', s, Loc('this'), [Loc('fa'), Loc('fb')])
    u.fn('trv::FieldStats::if_fields_compatible')
    want = []
    for o in ('Fa', 'Fb'):
        want += [eq(var('S.params.ngrid[%d]' % a, 'I'), var('%s.params.ngrid[%d]' % (o, a), 'I')) for a in range(3)]
        want += [eq(var('S.params.boxsize[%d]' % a, 'R'), var('%s.params.boxsize[%d]' % (o, a), 'R')) for a in range(3)]
        want += [eq(var('S.params.nmesh', 'I'), var('%s.params.nmesh' % o, 'I')), eq(var('S.params.volume', 'R'), var('%s.params.volume' % o, 'R'))]
    u.holds('compatible exactly when mesh, box and derived sizes agree', and_(implies(v, and_(*want)), implies(and_(*want), v)))


def unit_reject(fn):
    def go(u):
        M, s, f = machine(False)
        M.X.contracts['trv::FieldStats::if_fields_compatible'] = lambda X, st, th, a, e: FALSE
        ylm_pair(M, s)
        for nme in ('sa', 'sb'):
            s.mem[nme] = M.X.sym('trv::maths::SphericalBesselCalculator', nme)
        amp = Cx(R('amp_re'), R('amp_im'))
        args = {'compute_ylm_wgtd_2pt_stats_in_fourier': [Loc('fa'), Loc('fb'), amp, I('ell'), I('m'), Loc('b')],
                'compute_ylm_wgtd_2pt_stats_in_config': [Loc('fa'), Loc('fb'), amp, I('ell'), I('m'), Loc('b')],
                'compute_uncoupled_shotnoise_for_3pcf': [Loc('fa'), Loc('fb'), Loc('ya'), Loc('yb'), amp, Loc('b')],
                'compute_uncoupled_shotnoise_for_bispec_per_bin': [Loc('fa'), Loc('fb'), Loc('ya'), Loc('yb'), Loc('sa'), Loc('sb'), amp, R('ka'), R('kb')]}[fn]
        u.true('incompatible fields are rejected', M.never_returns('trv::FieldStats::' + fn, s, Loc('this'), args))
    return go


UNITS = [('compatibility', unit_compat)]
UNITS += [('power spectrum' + (' interlaced' if i else ''), unit_fourier(i)) for i in (False, True)]
UNITS += [('correlation function%s%s' % (' interlaced' if i else '', ' own plan' if p else ''), unit_config(i, p)) for i in (False, True) for p in (False, True)]
UNITS += [('3pcf shot noise%s%s' % (' interlaced' if i else '', ' own plan' if p else ''), unit_sn3(i, p)) for i in (False, True) for p in (False, True)]
UNITS += [('bispectrum shot noise%s%s' % (' interlaced' if i else '', ' own plan' if p else ''), unit_snb(i, p)) for i in (False, True) for p in (False, True)]
UNITS += [('rejection by ' + f, unit_reject(f)) for f in ('compute_ylm_wgtd_2pt_stats_in_fourier', 'compute_ylm_wgtd_2pt_stats_in_config', 'compute_uncoupled_shotnoise_for_3pcf', 'compute_uncoupled_shotnoise_for_bispec_per_bin')]


def replay(r):
    import numpy as np
    import cxx, oracle

    def average(g, edges, cen, x, vals, w=None):
        nb = len(edges) - 1
        cnt = np.zeros(nb, int)
        xm = np.array(cen, float)
        out = [np.zeros(nb, complex) for _ in vals]
        for b in range(nb):
            q = g & (edges[b] <= w) & (w < edges[b + 1])
            cnt[b] = q.sum()
            if cnt[b]:
                xm[b] = x[q].mean()
                for o, v in zip(out, vals):
                    o[b] = v[q].mean()
        return cnt, xm, out

    def edges_for(rng, x, fine, nb, exact=False):
        """random edges, away from every sampled coordinate, with empty bins below, between and beyond the mesh"""
        hi = x.max() * rng.uniform(.4, 1.3)
        e = np.sort(rng.uniform(0, hi, nb + 1))
        if rng.uniform() < .3:
            e[0] = 0.
        if rng.uniform() < .5 and nb > 3:
            e[-1] = e[-2] + 1e-7     # an empty bin
        if exact:
            e = np.unique(np.round(e))
            if len(e) < 2:
                e = np.array([0., 1., 3.])
        elif np.abs(fine[:, None] - e[None, 1 if e[0] == 0 else 0:]).min() < 1e-8 * hi:
            return edges_for(rng, x, fine, nb)
        return e

    def body(t):
        L = cxx.lib()
        rng = np.random.default_rng(1000 * r.seed + t)
        q = type(r)()
        for rep in range(24 if r.tier == 'thorough' else 5):
            n = rng.integers(3, 9, 3)
            if rep == 0:
                n = np.array([5, 4, 7])
            B = rng.uniform(20, 900, 3)
            sch = ['ngp', 'cic', 'tsc', 'pcs'][int(rng.integers(4))]
            inter = bool((rep + t) % 2)
            p = cxx.params(boxsize=B, ngrid=n, assignment=sch, interlace='true' if inter else 'false', ell1=int(rng.integers(0, 3)), ell2=int(rng.integers(0, 4)))
            l1, l2 = int(L.p_geti(p, 'ell1', 0)), int(L.p_geti(p, 'ell2', 0))
            what = 'mesh %s box %s %s%s' % (n.tolist(), np.round(B, 3).tolist(), sch, ' interlaced' if inter else '')
            L.threads(int(rng.integers(1, 6)))
            ma, mb = cxx.mesh(p, True), cxx.mesh(p, True)
            fa, fb = [rng.normal(size=tuple(n)) + 1j * rng.normal(size=tuple(n)) for _ in range(2)]
            cxx.field(ma, n, False, True)[...] = fa
            cxx.field(mb, n, False, True)[...] = fb
            K, X = oracle.kvec(B, n), oracle.rvec(B, n)
            k, x = oracle.mag(K), oracle.mag(X)
            al = oracle.aliasing(n, sch, inter)
            W = oracle.window(n, oracle.ORDER[sch]) ** 2 if inter else al
            S = cxx.stats(p, True)
            S0 = cxx.stats(p, False)     # without its own array: mode statistics and vectors only
            vol, vc = np.prod(B), np.prod(B) / np.prod(n)
            for case in range(4):
                l = int(rng.integers(0, 5))
                m = int(rng.integers(-l, l + 1))
                amp = complex(*rng.normal(size=2))
                nb = int(rng.integers(1, 9))
                same = case == 3
                F2, M2 = (fa, ma) if same else (fb, mb)
                wh = what + ' l=%d m=%d amp=%s%s' % (l, m, amp, ' auto' if same else '')
                e = edges_for(rng, k, oracle.fine(k, 1e-5).ravel(), nb)
                b = cxx.binning('fourier', e)
                cen = cxx.bins_of(b)['centres']
                L.s_pk(S if case % 2 else S0, ma, M2, amp.real, amp.imag, l, m, b)
                o = cxx.stats_out(S if case % 2 else S0)
                y = oracle.ylm(l, m, K)
                cnt, xm, (pk, sn) = average(k / 1e-5 < 1e6, e, cen, k, [fa * np.conj(F2) / W * y, amp * al / W * y], oracle.fine(k, 1e-5))
                q.case('sizes', all(len(o[z]) == nb for z in ('nmodes', 'npairs', 'k', 'r', 'sn', 'pk', 'xi')), wh + ': one entry per bin expected')
                q.close('modes of the bins', o['nmodes'], cnt, wh + ' edges %s' % e.tolist(), 0, 0)
                q.close('effective wavenumber', o['k'], xm, wh + ' edges %s' % e.tolist(), 1e-9, 1e-13)
                q.close('binned power', o['pk'], pk, wh + ' edges %s' % e.tolist(), 1e-8, 1e-10, np.abs(fa * F2 / W).max())
                q.close('binned shot noise', o['sn'], sn, wh + ' edges %s' % e.tolist(), 1e-8, 1e-10, np.abs(amp * al / W).max())
                L.b_free(b)
                # configuration space
                e = edges_for(rng, x, oracle.fine(x, .1).ravel(), nb)
                b = cxx.binning('config', e)
                cen = cxx.bins_of(b)['centres']
                L.s_xi(S, ma, M2, amp.real, amp.imag, l, m, b)
                o = cxx.stats_out(S)
                xi3 = np.fft.ifftn((fa * np.conj(F2) - amp * al) / W) * np.prod(n) / vol
                cnt, xm, (xi,) = average(x / .1 < 1e6, e, cen, x, [xi3 * oracle.ylm(l, m, X)], oracle.fine(x, .1))
                sc = np.abs(xi3).max()
                q.close('separations of the bins', o['npairs'], cnt, wh + ' edges %s' % e.tolist(), 0, 0)
                q.close('effective separation', o['r'], xm, wh + ' edges %s' % e.tolist(), 1e-9, 1e-12)
                q.close('binned correlation', o['xi'] / sc, xi / sc, wh + ' edges %s' % e.tolist(), 1e-8, 1e-9, 1.)
                L.b_free(b)
                # three-point shot noise
                ya, yb = [rng.normal(size=tuple(n)) + 1j * rng.normal(size=tuple(n)) for _ in range(2)]
                e = edges_for(rng, x, oracle.fine(x, 1.).ravel(), nb, True)
                b = cxx.binning('config', e)
                cen = cxx.bins_of(b)['centres']
                L.s_sn3(S, ma, M2, ya.ravel(), yb.ravel(), int(np.prod(n)), amp.real, amp.imag, b)
                o = cxx.stats_out(S)
                cnt, xm, (xi,) = average(x < 1e5, e, cen, x, [xi3 * ya * yb], oracle.fine(x, 1.))
                xi = xi * (-1) ** (l1 + l2) / vc / np.maximum(cnt, 1)
                q.close('separations of the bins (3pcf shot noise)', o['npairs'], cnt, wh + ' edges %s' % e.tolist(), 0, 0)
                q.close('effective separation (3pcf shot noise)', o['r'], xm, wh + ' edges %s' % e.tolist(), 1e-9, 1e-12)
                q.close('3pcf shot noise', o['xi'] / sc * vc, xi / sc * vc, wh + ' ell1=%d ell2=%d edges %s' % (l1, l2, e.tolist()), 1e-8, 1e-9, np.abs(ya * yb).max())
                L.b_free(b)
                la, lb = int(rng.integers(0, 4)), int(rng.integers(0, 4))
                ka, kb = rng.uniform(0, 8 / B.min(), 2)
                res = np.zeros(2)
                L.s_snb(S, ma, M2, ya.ravel(), yb.ravel(), int(np.prod(n)), la, lb, amp.real, amp.imag, float(ka), float(kb), res)
                want = vc * (oracle.sjl(la, ka * x) * oracle.sjl(lb, kb * x) * xi3 * ya * yb).sum()
                q.close('bispectrum shot noise', (res[0] + 1j * res[1]) / sc / vc, want / sc / vc, wh + ' orders %d %d at %g %g' % (la, lb, ka, kb), 1e-5, 1e-5, np.abs(xi3 * ya * yb).sum() / sc)
            # the recorded vectors are exactly those of the bins
            for space, V_, mg in (('fourier', K, k), ('config', X, x)):
                e = edges_for(rng, mg, mg.ravel(), int(rng.integers(1, 7)))
                b = cxx.binning(space, e)
                no = np.zeros(8, np.int32)
                L.s_binned(S0 if t % 2 else S, b, '', no)
                c = int(no[0])
                ind, lo, up, vx, vy, vz = np.zeros(c, np.int32), *[np.zeros(c) for _ in range(5)]
                wh = what + ' vectors in %s edges %s' % (space, e.tolist())
                ok = all(int(z) == c for z in no[2:]) and no[1] == len(e) - 1
                q.case('recorded sizes', ok, wh + ': count and column lengths differ: %s' % no.tolist())
                if ok:
                    L.s_binned_get(ind, lo, up, vx, vy, vz)
                    want = []
                    for i in range(len(e) - 1):
                        z = (e[i] <= mg) & (mg < e[i + 1])
                        want += [(i,) + tuple(v) for v in np.stack([V_[a][z] for a in range(3)], -1)]
                    got = sorted((int(i),) + v for i, v in zip(ind, zip(vx, vy, vz)))
                    want = sorted(want)
                    q.case('number of recorded vectors', len(got) == len(want), wh + ': %d vectors recorded, %d in the bins' % (len(got), len(want)))
                    if len(got) == len(want) and got:
                        rd = lambda a: sorted((i,) + tuple(np.round(np.array(v) / mg.max(), 8) + 0.) for i, *v in a)
                        q.close('recorded vectors', np.array(rd(got)), np.array(rd(want)), wh, 0, 1e-6)
                        q.close('recorded lower edges', lo, e[ind], wh, 0, 0)
                        q.close('recorded upper edges', up, e[ind + 1], wh, 0, 0)
                        q.case('bin order', bool((np.diff(ind) >= 0).all()), wh + ': the recorded vectors are not ordered by bin')
                L.b_free(b)
            # incompatible fields are rejected
            for dim in range(5):
                n2, B2 = n.copy(), B.copy()
                if dim < 3:
                    n2[dim] += 1
                else:
                    B2[dim - 2] *= 1.5
                p2 = cxx.params(boxsize=B2, ngrid=n2, assignment=sch)
                m2 = cxx.mesh(p2, False)
                for a, bb in ((ma, m2), (m2, ma)):
                    q.case('incompatible fields', not L.s_compat(S, a, bb), what + ': a field of mesh %s box %s counts as compatible' % (n2.tolist(), B2.tolist()))
                L.m_free(m2), L.p_free(p2)
            q.case('compatible fields', bool(L.s_compat(S, ma, mb)), what + ': equal fields count as incompatible')
            L.m_free(ma), L.m_free(mb), L.s_free(S), L.s_free(S0), L.p_free(p)
        return q
    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
