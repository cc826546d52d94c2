"""P03: normalisation, compensation and band limiting of field transforms (field.cpp)."""
from meshlib import *

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals; sin, cos, sqrt, pow are the real functions',
           'FFTW: executing a plan replaces the array it was planned for by its unnormalised DFT of the planned direction',
           'the spherical Bessel evaluator is a function of degree and argument (decided by P11)',
           'CPU build (the GPU branches are compiled out)']
IJK = [I('i'), I('j'), I('k')]
N, L_, dr, dk = geom('F')
NM = var('F.params.nmesh', 'I')
VC, V = var('F.vol_cell', 'R'), var('F.vol', 'R')
PRE = valid(N) + [between(0, x, n) for x, n in zip(IJK, N)] + [eq(NM, N[0] * N[1] * N[2]), lt(ZR, VC), lt(ZR, V)]
G = flat(*IJK, N)
FIELD = ('sym', 'F.field*', 'fftw_complex')
SHADOW = ('sym', 'F.field_s*', 'fftw_complex')
GATOMS = [between(0, G, NM)]


class FFT:
    """the contract on the FFTW entry points: records what is transformed by which plan"""

    def __init__(s, ctx=None):
        s.calls, s.plans = [], []

    def execute(s, X, st, th, args, e):
        plan = args[0]
        s.calls.append((plan, None, None, dict(st.mem)))
        return s._apply(X, st, plan, None)

    def execute_dft(s, X, st, th, args, e):
        s.calls.append((args[0], args[1], args[2], dict(st.mem)))
        return s._apply(X, st, args[0], args[1])

    def _apply(s, X, st, plan, arr):
        n = name_of(plan)
        root = root_of(arr) if arr is not None else (SHADOW if n.endswith('transform_s') else FIELD)
        ln = st.mem[root].ln if root in st.mem else NM
        st.mem[root] = SArr(('sym', 'FT%d' % len(s.calls)), (), 'fftw_complex', ln, X)
        return None

    def table(s):
        return {'fftw_execute': s.execute, 'fftw_execute_dft': s.execute_dft}


def name_of(p):
    return str(getattr(p, 'root', None) or getattr(p, 'tag', None) or p)


def root_of(p):
    while isinstance(p, Loc):
        p = p[0]
    return p.root if isinstance(p, Ptr) else p


def ftel(k, idx, part):
    return app('FT%d[][]' % k, (idx, num(part, 'I')), 'R')


def machine(inter, ext=False, extra=None, cls='trv::MeshField'):
    f = FFT()
    c = dict(f.table())
    c.update(extra or {})
    M = Machine(('field', 'maths', 'parameters') if False else ('field', 'maths'), contracts=c)
    s = M.state()
    s.mem['this'] = M.X.sym(cls, 'F')
    prm = M.read(s, Loc('this'), 'params').set('interlace', st('true' if inter else 'false'))
    s.mem['this'] = s.mem['this'].set('params', prm).set('plan_ext', TRUE if ext else FALSE)
    M.ctx.push(and_(*PRE))
    return M, s, f


def elem(M, s, root, part):
    a = s.mem.get(root)
    if a is None:
        return app('%s[][]' % root[1], (G, num(part, 'I')), 'R')
    return a.read((G, num(part, 'I')))


def unit_forward(inter, ext):
    def go(u):
        M, s, f = machine(inter, ext)
        u.satisfiable('mode of the mesh', PRE)
        M.run('trv::MeshField::fourier_transform', s, Loc('this'), [])
        u.fn('trv::MeshField::fourier_transform', 'trv::MeshField::ret_grid_index')
        u.true('one forward transform per mesh', len(f.calls) == (2 if inter else 1), str(len(f.calls)))
        u.true('the planned transform is forward', [name_of(c[0]).rsplit('.', 1)[-1].rstrip('*') for c in f.calls] == ['transform', 'transform_s'][:len(f.calls)], str([name_of(c[0]) for c in f.calls]))
        if ext:
            for c, root in zip(f.calls, (FIELD, SHADOW)):
                u.true('in place on its own mesh', root_of(c[1]) == root and root_of(c[2]) == root, '%r %r' % (c[1], c[2]))
        for part in (0, 1):
            st0 = f.calls[0][3]
            u.eq('the transformed mesh is cell volume times field, part %d' % part, st0[FIELD].read((G, num(part, 'I'))), VC * app('F.field*[][]', (G, num(part, 'I')), 'R'), PRE)
            if inter:
                st1 = f.calls[1][3]
                u.eq('the transformed shadow mesh is cell volume times field, part %d' % part, st1[SHADOW].read((G, num(part, 'I'))), VC * app('F.field_s*[][]', (G, num(part, 'I')), 'R'), PRE)
        if not inter:
            for part in (0, 1):
                u.eq('result part %d' % part, elem(M, s, FIELD, part), ftel(1, G, part), PRE)
            u.true('no shadow mesh is touched', SHADOW not in s.mem or not s.mem[SHADOW].writes)
            return
        arg = PI * sum((toreal(signed(x, n)) / toreal(n) for x, n in zip(IJK, N)), ZR)
        c, q = M.X.uf1('cos', arg), M.X.uf1('sin', arg)
        a, b = Cx(ftel(1, G, 0), ftel(1, G, 1)), Cx(ftel(2, G, 0), ftel(2, G, 1))
        w = (a + Cx(c, q) * b)
        u.eq('interlaced average, real', elem(M, s, FIELD, 0), w.re / 2, PRE)
        u.eq('interlaced average, imaginary', elem(M, s, FIELD, 1), w.im / 2, PRE)
    return go


def unit_inverse(ext):
    def go(u):
        M, s, f = machine(False, ext)
        M.run('trv::MeshField::inv_fourier_transform', s, Loc('this'), [])
        u.fn('trv::MeshField::inv_fourier_transform')
        u.true('one backward transform', len(f.calls) == 1 and 'inv_transform' in name_of(f.calls[0][0]), str([name_of(c[0]) for c in f.calls]))
        for part in (0, 1):
            u.eq('transformed values, part %d' % part, f.calls[0][3][FIELD].read((G, num(part, 'I'))), app('F.field*[][]', (G, num(part, 'I')), 'R') / V, PRE)
            u.eq('result part %d' % part, elem(M, s, FIELD, part), ftel(1, G, part), PRE)
    return go


def sinc(M, x, n):
    return ite(eq(x, ZI), OR, M.X.uf1('sin', PI * toreal(x) / toreal(n)) / (PI * toreal(x) / toreal(n)))


def win(M, order):
    w = OR
    for x, n in zip(IJK, N):
        w = w * sinc(M, signed(x, n), n)
    return powi(w, order)


def unit_window(order):
    def go(u):
        M, s, f = machine(False)
        s.mem['this'] = s.mem['this'].set('window_assign_order', num(-1, 'I'))
        v = M.run('trv::MeshField::calc_assignment_window_in_fourier', s, Loc('this'), IJK + [num(order, 'I')])
        u.eq('window of a mode', v, win(M, order), PRE)
        u.fn('trv::MeshField::calc_assignment_window_in_fourier', 'trv::MeshField::compute_assignment_window_in_fourier', 'trv::MeshField::shift_grid_indices_fourier')
        M.run('trv::MeshField::compute_assignment_window_in_fourier', s, Loc('this'), [num(order, 'I')])
        w = M.read(s, Loc('this'), 'window')
        u.eq('stored window of a mode', w.read((G,)), win(M, order), PRE)
        u.eq('one value per mode', w.ln, NM, PRE)
        u.eq('order on record', M.read(s, Loc('this'), 'window_assign_order'), num(order, 'I'), PRE)
        # asking again changes nothing
        before = M.read(s, Loc('this'), 'window')
        M.run('trv::MeshField::compute_assignment_window_in_fourier', s, Loc('this'), [num(order, 'I')])
        after = M.read(s, Loc('this'), 'window')
        u.true('kept when asked again', after.writes == before.writes and after.base == before.base)
        # another order replaces it
        M.run('trv::MeshField::compute_assignment_window_in_fourier', s, Loc('this'), [num(order + 1, 'I')])
        u.eq('replaced by another order', M.read(s, Loc('this'), 'window').read((G,)), win(M, order + 1), PRE + [le(NM, w.ln)])
        u.eq('new order on record', M.read(s, Loc('this'), 'window_assign_order'), num(order + 1, 'I'), PRE)
    return go


WIN = app('F.window[]', (G,), 'R')


def c_window(calls):
    def f(X, st, th, args, e):
        calls.append(args[0])
        return None
    return {'trv::MeshField::compute_assignment_window_in_fourier': f}


def unit_comp(u):
    calls = []
    M, s, f = machine(False, extra=c_window(calls))
    M.run('trv::MeshField::apply_assignment_compensation', s, Loc('this'), [])
    u.fn('trv::MeshField::apply_assignment_compensation')
    u.true('the window of the assignment order is asked for', len(calls) == 1 and calls[0] == var('F.params.assignment_order', 'I'), str(calls))
    for part in (0, 1):
        u.eq('compensated part %d' % part, elem(M, s, FIELD, part), app('F.field*[][]', (G, num(part, 'I')), 'R') / WIN, PRE)


def unit_wa(u):
    M, s, f = machine(False, extra=VECS)
    M.run('trv::MeshField::apply_wide_angle_pow_law_kernel', s, Loc('this'), [])
    u.fn('trv::MeshField::apply_wide_angle_pow_law_kernel', 'trv::MeshField::get_grid_pos_vector')
    r = magn([rax(q, x) for q, x in enumerate(IJK)])
    u.trust(VECS_NOTE)
    for part in (0, 1):
        x0 = app('F.field*[][]', (G, num(part, 'I')), 'R')
        x1 = elem(M, s, FIELD, part)
        e = neg(var('F.params.i_wa', 'I')) - var('F.params.j_wa', 'I')
        u.eq('power-law kernel part %d' % part, x1, ite(lt(r, rn('1/1000000')), x0, x0 * app('powi', (r, e), 'R')), PRE)


def sums(t):
    return t


def unit_band(ext, empty):
    def go(u):
        calls = []
        M, s, f = machine(False, ext, extra=dict(c_window(calls), **VECS))
        s.mem['src'] = M.X.sym('trv::MeshField', 'H')
        s.mem['y'] = M.X.sym('std::vector<std::complex<double>>', 'y')
        s.mem['keff'], s.mem['nm'] = R('keff0'), I('nm0')
        kl, ku = R('k_lower'), R('k_upper')
        M.run('trv::MeshField::inv_fourier_transform_ylm_wgtd_field_band_limited', s, Loc('this'), [Loc('src'), Loc('y'), kl, ku, Loc('keff'), Loc('nm')])
        u.fn('trv::MeshField::inv_fourier_transform_ylm_wgtd_field_band_limited', 'trv::MeshField::get_grid_wavevector')
        u.true('the window of the assignment order is asked for', len(calls) == 1 and calls[0] == var('F.params.assignment_order', 'I'), str(calls))
        u.true('one backward transform', len(f.calls) == 1 and 'inv_transform' in name_of(f.calls[0][0]), str([name_of(c[0]) for c in f.calls]))
        u.trust(VECS_NOTE)
        k = magn([kax(q, x) for q, x in enumerate(IJK)])
        inb = and_(le(kl, k), lt(k, ku))
        fk = Cx(app('H.field*[][]', (G, num(0, 'I')), 'R'), app('H.field*[][]', (G, num(1, 'I')), 'R'))
        y = Cx(app('y[].re', (G,), 'R'), app('y[].im', (G,), 'R'))
        yy = M.X.sym('std::vector<std::complex<double>>', 'y').read((G,))
        w = Cx(fk.re / WIN, fk.im / WIN) * yy
        for part, want in ((0, w.re), (1, w.im)):
            u.eq('weighted modes of the band, part %d' % part, f.calls[0][3][FIELD].read((G, num(part, 'I'))), ite(inb, want, ZR), PRE + [not_(eq(WIN, ZR))])
        # counts and mean wavenumber over exactly the modes of the band
        a, b, c = [var('q%d' % q, 'I') for q in range(3)]
        kq = magn([kax(q, x) for q, x in enumerate((a, b, c))])
        inq = and_(le(kl, kq), lt(kq, ku))
        def tot(v):
            t = v
            for x, n in ((c, N[2]), (b, N[1]), (a, N[0])):
                t = sum_(x, ZI, n, t)
            return t
        n = tot(ite(inq, num(1, 'I'), ZI))
        u.eq('number of modes in the band', s.mem['nm'], n, PRE)
        nr = toreal(s.mem['nm'])
        h = PRE + [eq(s.mem['nm'], ZI) if empty else lt(ZI, s.mem['nm'])]
        if empty:
            u.eq('band centre', s.mem['keff'], (kl + ku) / 2, h)
            for part in (0, 1):
                u.eq('result of an empty band, part %d' % part, elem(M, s, FIELD, part), ftel(1, G, part), h)
        else:
            u.eq('mean wavenumber', s.mem['keff'], tot(ite(inq, kq, ZR)) / nr, h)
            for part in (0, 1):
                u.eq('result averaged over the modes, part %d' % part, elem(M, s, FIELD, part), ftel(1, G, part) / nr, h)
        u.true('the source field is not modified', not any(isinstance(q, tuple) and q[0] == 'sym' and q[1].startswith('H.') and s.mem[q].writes for q in s.mem))
    return go


def c_sj(X, st, th, args, e):
    return app('sjl', (lift(args[0], 'R'),), 'R')


SJ = {'trv::maths::SphericalBesselCalculator::eval': c_sj,
      'trv::maths::SphericalBesselCalculator::SphericalBesselCalculator': lambda X, st, th, a, e: None}


def unit_sjl(ext):
    def go(u):
        calls = []
        M, s, f = machine(False, ext, extra=dict(c_window(calls), **SJ, **VECS))
        s.mem['src'] = M.X.sym('trv::MeshField', 'H')
        s.mem['y'] = M.X.sym('std::vector<std::complex<double>>', 'y')
        s.mem['sj'] = M.X.sym('trv::maths::SphericalBesselCalculator', 'sj')
        r = R('r')
        M.run('trv::MeshField::inv_fourier_transform_sjl_ylm_wgtd_field', s, Loc('this'), [Loc('src'), Loc('y'), Loc('sj'), r])
        u.fn('trv::MeshField::inv_fourier_transform_sjl_ylm_wgtd_field')
        u.true('the window of the assignment order is asked for', len(calls) == 1 and calls[0] == var('F.params.assignment_order', 'I'), str(calls))
        u.true('one backward transform', len(f.calls) == 1 and 'inv_transform' in name_of(f.calls[0][0]), str([name_of(c[0]) for c in f.calls]))
        u.trust(VECS_NOTE)
        k = magn([kax(q, x) for q, x in enumerate(IJK)])
        fk = Cx(app('H.field*[][]', (G, num(0, 'I')), 'R'), app('H.field*[][]', (G, num(1, 'I')), 'R'))
        yy = M.X.sym('std::vector<std::complex<double>>', 'y').read((G,))
        w = Cx(fk.re / WIN, fk.im / WIN) * yy
        j = app('sjl', (k * r,), 'R')
        for part, want in ((0, w.re), (1, w.im)):
            u.eq('weighted modes, part %d' % part, f.calls[0][3][FIELD].read((G, num(part, 'I'))), j * want / V, PRE + [not_(eq(WIN, ZR))])
            u.eq('result part %d' % part, elem(M, s, FIELD, part), ftel(1, G, part), PRE)
    return go


def unit_plans(inter):
    def go(u):
        plans = []

        def c_plan(X, st, th, args, e):
            plans.append(args)
            return Ptr('plan%d' % len(plans), (), ZI)
        M = Machine(('field',), contracts={'fftw_plan_dft_3d': c_plan})
        s = M.state()
        s.mem['p'] = M.X.sym('trv::ParameterSet', 'p').set('interlace', st('true' if inter else 'false')).set('use_fftw_wisdom', st(''))
        n = [var('p.ngrid[%d]' % a, 'I') for a in range(3)]
        M.ctx.push(and_(*valid(n)))
        s.mem['this'] = M.X.sym('trv::MeshField', 'F')
        M.run('trv::MeshField::MeshField', s, Loc('this'), [Loc('p'), TRUE, st('name')], 3)
        u.fn('trv::MeshField::MeshField')
        u.true('plans made', len(plans) == (3 if inter else 2), str(len(plans)))
        want = [('field', -1), ('field', 1), ('field_s', -1)]
        mem = [M.read(s, Loc('this'), q) for q in ('transform', 'inv_transform', 'transform_s')]
        for i, a in enumerate(plans):
            for q in range(3):
                u.eq('plan %d size %d' % (i, q), lift(a[q], 'I'), n[q])
            who = M.read(s, Loc('this'), want[i][0])
            u.true('plan %d is in place on its mesh' % i, root_of(a[3]) == root_of(who) and root_of(a[4]) == root_of(who), '%r %r %r' % (a[3], a[4], who))
            u.eq('plan %d direction' % i, lift(a[5], 'I'), num(want[i][1], 'I'))
            u.true('plan %d is kept' % i, name_of(mem[i]) == 'plan%d' % (i + 1), repr(mem[i]))
    return go


def unit_ext(inter):
    def go(u):
        M = Machine(('field',))
        s = M.state()
        s.mem['p'] = M.X.sym('trv::ParameterSet', 'p').set('interlace', st('true' if inter else 'false'))
        s.mem['this'] = M.X.sym('trv::MeshField', 'F')
        s.mem['a'], s.mem['b'] = Ptr('planA', (), ZI), Ptr('planB', (), ZI)
        M.ctx.push(and_(*valid([var('p.ngrid[%d]' % a, 'I') for a in range(3)])))
        M.run('trv::MeshField::MeshField', s, Loc('this'), [Loc('p'), Loc('a'), Loc('b'), st('name')], 4)
        u.fn('trv::MeshField::MeshField')
        for q, w in (('transform', 'planA'), ('inv_transform', 'planB')) + ((('transform_s', 'planA'),) if inter else ()):
            u.true('external plan used for ' + q, name_of(M.read(s, Loc('this'), q)) == w)
        u.eq('external plans on record', M.read(s, Loc('this'), 'plan_ext'), TRUE)
        L = [var('p.boxsize[%d]' % a, 'R') for a in range(3)]
        n = [var('p.ngrid[%d]' % a, 'I') for a in range(3)]
        for a in range(3):
            u.eq('cell size %d' % a, M.read(s, Loc('this'), 'dr', a), L[a] / toreal(n[a]))
            u.eq('mode spacing %d' % a, M.read(s, Loc('this'), 'dk', a), 2 * PI / L[a], [lt(ZR, L[a])])
        u.eq('volume', M.read(s, Loc('this'), 'vol'), var('p.volume', 'R'))
        u.eq('cell volume', M.read(s, Loc('this'), 'vol_cell'), var('p.volume', 'R') / toreal(var('p.nmesh', 'I')))
    return go


UNITS = ([('forward%s%s' % (' interlaced' if i else '', ' external plan' if e else ''), unit_forward(i, e)) for i in (False, True) for e in (False, True)]
         + [('inverse' + (' external plan' if e else ''), unit_inverse(e)) for e in (False, True)]
         + [('window order %d' % o, unit_window(o)) for o in (1, 2, 3, 4)]
         + [('compensation', unit_comp), ('wide angle', unit_wa)]
         + [('band%s%s' % (' empty' if q else '', ' external plan' if e else ''), unit_band(e, q)) for e in (False, True) for q in (False, True)]
         + [('bessel' + (' external plan' if e else ''), unit_sjl(e)) for e in (False, True)]
         + [('plans' + (' interlaced' if i else ''), unit_plans(i)) for i in (False, True)]
         + [('external plans' + (' interlaced' if i else ''), unit_ext(i)) for i in (False, True)])


def replay(r):
    import numpy as np
    import cxx, oracle

    def body(t):
        L = cxx.lib()
        rng = np.random.default_rng(1000 * r.seed + t)
        q = type(r)()
        for rep in range(30 if r.tier == 'thorough' else 8):
            n = rng.integers(2, 10, 3)
            if rep == 0:
                n = np.array([6, 5, 8])
            B = rng.uniform(20, 900, 3)
            sch = ['ngp', 'cic', 'tsc', 'pcs'][int(rng.integers(4))]
            order = oracle.ORDER[sch]
            inter = bool(rng.integers(2))
            wa = [int(x) for x in rng.integers(0, 3, 2)]
            p = cxx.params(boxsize=B, ngrid=n, assignment=sch, interlace='true' if inter else 'false', i_wa=wa[0], j_wa=wa[1])
            what = 'mesh %s box %s %s%s' % (n.tolist(), np.round(B, 2).tolist(), sch, ' interlaced' if inter else '')
            L.threads(int(rng.integers(1, 5)))
            m = cxx.mesh(p)
            def put(s=False):
                v = rng.normal(size=tuple(n)) + 1j * rng.normal(size=tuple(n))
                cxx.field(m, n, s, True)[...] = v
                return v
            f = put()
            fs = put(True) if inter else None
            L.m_ft(m)
            F = oracle.ft(f, B, n, fs)
            q.close('forward', cxx.field(m, n), F, what + ' forward transform', 1e-9, 1e-12)
            if rep % 2:
                f = put()
            else:
                f = cxx.field(m, n)
            L.m_ift(m)
            q.close('inverse', cxx.field(m, n), oracle.ift(f, B, n), what + ' inverse transform', 1e-9, 1e-12)
            w = oracle.window(n, order)
            f = put()
            L.m_comp(m)
            q.close('compensation', cxx.field(m, n), f / w, what + ' assignment compensation', 1e-9, 1e-12)
            for o in range(0, 5):
                o_ = np.zeros(int(np.prod(n)))
                L.m_windows(m, o, o_, len(o_))
                q.close('window', o_.reshape(n), oracle.window(n, o), what + ' window of order %d' % o, 1e-9, 1e-12)
                i = [int(rng.integers(z)) for z in n]
                for oo in (o, (o + 1) % 5):
                    q.close('window of a mode', L.m_window(m, *i, oo), oracle.window(n, oo)[tuple(i)], what + ' window of mode %s order %d' % (i, oo), 1e-9, 1e-12)
            f = put()
            L.m_wa(m)
            rr = oracle.mag(oracle.rvec(B, n))
            with np.errstate(all='ignore'):
                k = np.where(rr < 1e-6, 1., rr ** float(-sum(wa)))
            q.close('wide angle', cxx.field(m, n), f * k, what + ' wide-angle kernel', 1e-9, 1e-12)
            # band limited and Bessel weighted transforms, from another mesh, into a mesh that is not empty
            m2 = cxx.mesh(p)
            H = rng.normal(size=tuple(n)) + 1j * rng.normal(size=tuple(n))
            cxx.field(m2, n, False, True)[...] = H
            kk = oracle.mag(oracle.kvec(B, n))
            l = int(rng.integers(0, 4))
            mm = int(rng.integers(-l, l + 1))
            y = oracle.ylm(l, mm, oracle.kvec(B, n))
            vals = np.unique(kk)
            for case in range(4):
                put()
                if case == 0:      # edges on mode values: lower inclusive, upper exclusive
                    a, b = sorted(rng.choice(len(vals), 2)) if len(vals) > 1 else (0, 0)
                    lo, hi = float(vals[a]), float(vals[b])
                elif case == 1:
                    lo, hi = 0., float(vals[-1]) * 1.1
                elif case == 2:
                    lo, hi = float(vals[-1]) * 1.2, float(vals[-1]) * 1.3
                else:
                    lo, hi = sorted(rng.uniform(0, vals[-1], 2))
                inb = (kk >= lo) & (kk < hi)
                ke, nm = np.zeros(1), np.array([77], np.int32)
                L.m_band(m, m2, y.copy(), y.size, float(lo), float(hi), ke, nm)
                cnt = int(inb.sum())
                amb = np.any((np.abs(kk - lo) < 1e-13 * vals[-1]) | (np.abs(kk - hi) < 1e-13 * vals[-1])) if case == 0 else False
                if amb:
                    # the library's own magnitudes decide membership of the edge modes
                    mine = np.zeros(tuple(n))
                    v = np.zeros(3)
                    for i in np.ndindex(*n):
                        L.m_kvec(m, *[int(z) for z in i], v)
                        mine[i] = L.vmag(v)
                    u = np.unique(mine)
                    lo = float(u[np.argmin(np.abs(u - lo))]); hi = float(u[np.argmin(np.abs(u - hi))])
                    inb = (mine >= lo) & (mine < hi)
                    cnt = int(inb.sum())
                    put()
                    L.m_band(m, m2, y.copy(), y.size, lo, hi, ke, nm)
                wh = what + ' band [%g, %g) l=%d m=%d' % (lo, hi, l, mm)
                q.close('band modes', nm[0], cnt, wh + ' number of modes', 0, 0)
                q.close('band wavenumber', ke[0], kk[inb].mean() if cnt else (lo + hi) / 2, wh + ' effective wavenumber', 1e-9, 1e-12)
                want = np.fft.ifftn(np.where(inb, y * H / w, 0)) * np.prod(n) / max(cnt, 1)
                q.close('band field', cxx.field(m, n), want, wh + ' field', 1e-8, 1e-11)
                q.close('band source', cxx.field(m2, n), H, wh + ' source field unchanged', 0, 0)
            rad = float(rng.uniform(0, B.min()))
            L.m_sjl(m, m2, y.copy(), y.size, l, rad)
            want = np.fft.ifftn(oracle.sjl(l, kk * rad) * y * H / w) * np.prod(n) / np.prod(B)
            q.close('bessel field', cxx.field(m, n), want, what + ' Bessel weighted l=%d m=%d r=%g' % (l, mm, rad), 1e-5, 1e-5)
            q.close('bessel source', cxx.field(m2, n), H, what + ' source field unchanged', 0, 0)
            for z in (m, m2):
                L.m_free(z)
            L.p_free(p)
        return q
    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
