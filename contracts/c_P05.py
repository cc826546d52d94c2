"""P05: coordinate bins partition the requested range (dataobjs.cpp)."""
from common import *
import glue, pylib, pysym, pynp
from types import SimpleNamespace
from pylib import PYTRUST, Arr, Iv, Rv, calls, elems, same

LEVEL = 'proof'
TRUSTED = glue.GLUETRUST + PYTRUST + ['doubles are treated as reals; log/exp are the real functions (exp(log x) = x for x > 0)',
           'std::vector push_back/clear/size/front/back and std::max_element/min_element follow the C++ standard']
CLS = 'trv::Binning'


def setup(pre=()):
    M = Machine(('dataobjs',), pre)
    s = M.state()
    s.mem['this'] = M.X.sym(CLS, 'B')
    return M, s


def bv(n): return var('B.' + n, 'S' if n in ('space', 'scheme') else 'I' if n in ('num_bins', 'nbin_pad') else 'R')


def arrays(M, s):
    g = lambda n: M.read(s, Loc('this'), n)
    return g('bin_edges'), g('bin_centres'), g('bin_widths')


def check_arrays(u, M, s, tag, nb, edge, hyps, last=None):
    """edges are edge(0..nb), centres their midpoints, widths their differences; nothing else is stored"""
    i = I('i')
    E, C, W = arrays(M, s)
    u.eq(tag + ': number of edges', E.ln, nb + 1, hyps)
    u.eq(tag + ': number of centres', C.ln, nb, hyps)
    u.eq(tag + ': number of widths', W.ln, nb, hyps)
    h = list(hyps) + [le(ZI, i), lt(i, nb)]
    u.eq(tag + ': edge i', E.read((i,)), edge(i), h)
    u.eq(tag + ': last edge', E.read((nb,)), last if last is not None else edge(nb), hyps)
    up = ite(eq(i + 1, nb), last, edge(i + 1)) if last is not None else edge(i + 1)
    u.eq(tag + ': centre i is the midpoint of its edges', C.read((i,)), (edge(i) + edge(i + 1)) / 2, h)
    u.eq(tag + ': width i is the difference of its edges', W.read((i,)), edge(i + 1) - edge(i), h)
    u.eq(tag + ': the last bin ends at the upper limit', edge(nb), last if last is not None else edge(nb), hyps)


def scheme_edges(M, scheme, bmin, bmax, nb, pad, npad):
    ln, ex = (lambda x: M.X.uf1('log', x)), (lambda x: M.X.uf1('exp', x))
    if scheme == 'lin':
        return lambda i: bmin + (bmax - bmin) / toreal(nb) * toreal(i)
    if scheme == 'log':
        return lambda i: bmin * ex((ln(bmax) - ln(bmin)) / toreal(nb) * toreal(i))
    b0 = pad * toreal(npad)
    if scheme == 'linpad':
        f = lambda j: b0 + (bmax - b0) / toreal(nb - npad) * toreal(j)
    else:
        f = lambda j: b0 * ex((ln(bmax) - ln(b0)) / toreal(nb - npad) * toreal(j))
    return lambda i: ite(lt(i, npad), pad * toreal(i), f(i - npad))


def unit_scheme(scheme, space):
    def go(u):
        nb, npad = bv('num_bins'), bv('nbin_pad')
        pre = [lt(ZI, nb), lt(ZI, npad), streq(bv('scheme'), scheme), streq(bv('space'), space),
               le(ZR, bv('bin_min')), lt(bv('bin_min'), bv('bin_max')),
               lt(ZR, bv('dbin_pad_fourier')), lt(ZR, bv('dbin_pad_config'))]
        if scheme == 'log':
            pre.append(lt(ZR, bv('bin_min')))
        if scheme.endswith('pad'):
            m = I('m')                      # number of unpadded bins
            nb = npad + m
            pre[0] = lt(ZI, m)
        u.satisfiable(scheme + ' ' + space, pre)
        M, s = setup(pre)
        s.mem['this'] = s.mem['this'].set('scheme', st(scheme)).set('space', st(space))
        s.mem['this'] = s.mem['this'].set('num_bins', nb)
        M.run('trv::Binning::set_bins', s, Loc('this'), [], 0)
        u.fn('trv::Binning::set_bins()', 'trv::Binning::compute_binning')
        pad = bv('dbin_pad_fourier') if space == 'fourier' else bv('dbin_pad_config')
        check_arrays(u, M, s, scheme, nb, scheme_edges(M, scheme, bv('bin_min'), bv('bin_max'), nb, pad, npad), pre, bv('bin_max'))
        u.holds('no exception under the precondition', not_(M.throw_cond()), pre)
        u.eq('frame: num_bins unchanged', M.read(s, Loc('this'), 'num_bins'), nb, pre)
        for f in ('bin_min', 'bin_max', 'nbin_pad', 'dbin_pad_fourier', 'dbin_pad_config'):
            u.eq('frame: %s unchanged' % f, M.read(s, Loc('this'), f), bv(f), pre)
    return go


def unit_reject(u):
    """an unusable scheme is rejected, a zero lower edge in log bins is rejected, the explicit range form checks its arguments"""
    M, s = setup([lt(ZI, bv('num_bins')), lt(ZI, bv('nbin_pad'))])
    M.run('trv::Binning::set_bins', s, Loc('this'), [], 0)
    u.fn('trv::Binning::compute_binning')
    t = M.throw_cond()
    known = or_(*[streq(bv('scheme'), x) for x in ('lin', 'log', 'linpad', 'logpad')])
    u.holds('unknown scheme throws', t, [not_(known)])
    u.holds('log with zero lower edge throws', t, [streq(bv('scheme'), 'log'), eq(bv('bin_min'), ZR)])
    u.holds('padded schemes without room for the padding throw', t, [or_(streq(bv('scheme'), 'linpad'), streq(bv('scheme'), 'logpad')), le(bv('num_bins'), bv('nbin_pad'))])
    M, s = setup()
    a, b, n = R('a'), R('b'), I('n')
    M.run('trv::Binning::set_bins', s, Loc('this'), [a, b, n], 3)
    u.fn('trv::Binning::set_bins(double, double, int)')
    t = M.throw_cond()
    u.holds('negative lower limit throws', t, [lt(a, ZR)])
    u.holds('non-positive bin number throws', t, [le(n, ZI)])


def unit_range(u):
    a, b, n = R('a'), R('b'), I('n')
    pre = [le(ZR, a), lt(a, b), lt(ZI, n), streq(bv('scheme'), 'lin'), streq(bv('space'), 'fourier')]
    M, s = setup(pre)
    s.mem['this'] = s.mem['this'].set('scheme', st('lin')).set('space', st('fourier'))
    M.run('trv::Binning::set_bins', s, Loc('this'), [a, b, n], 3)
    u.fn('trv::Binning::set_bins(double, double, int)')
    check_arrays(u, M, s, 'explicit range', n, scheme_edges(M, 'lin', a, b, n, None, None), pre, b)
    for f, w in (('bin_min', a), ('bin_max', b), ('num_bins', n)):
        u.eq('records ' + f, M.read(s, Loc('this'), f), w, pre)


def unit_grid(space):
    def go(u):
        L, n = R('boxsize'), I('ngrid')
        pre = [lt(ZR, L), lt(num(1, 'I'), n), streq(bv('space'), space)]
        M, s = setup(pre)
        s.mem['this'] = s.mem['this'].set('space', st(space))
        M.run('trv::Binning::set_bins', s, Loc('this'), [L, n], 2)
        u.fn('trv::Binning::set_bins(double, int)')
        w = L / toreal(n) if space == 'config' else 2 * PI / L
        top = (L / 2 if space == 'config' else PI * toreal(n) / L) + w / 2
        nb = idiv(n, num(2, 'I'))
        check_arrays(u, M, s, 'mesh bins', nb, scheme_edges(M, 'lin', ZR, top, nb, None, None), pre, top)
        u.eq('mesh bins: the scheme becomes linear', M.read(s, Loc('this'), 'scheme'), st('lin'), pre)
        u.eq('mesh bins: lower limit', M.read(s, Loc('this'), 'bin_min'), ZR, pre)
        u.eq('mesh bins: upper limit', M.read(s, Loc('this'), 'bin_max'), top, pre)
        u.eq('mesh bins: number', M.read(s, Loc('this'), 'num_bins'), nb, pre)
    return go


def unit_custom(u):
    M, s = setup()
    s.mem['in'] = M.X.sym('std::vector<double>', 'e')
    ln = s.mem['in'].ln
    pre = [lt(num(1, 'I'), ln)]
    M.ctx.push(and_(*pre))
    M.run('trv::Binning::set_bins', s, Loc('this'), [Loc('in')], None if False else 1)
    u.fn('trv::Binning::set_bins(std::vector<double>)')
    e = lambda i: app('e[]', (i,), 'R')
    check_arrays(u, M, s, 'custom', ln - 1, e, pre)
    u.eq('custom: number', M.read(s, Loc('this'), 'num_bins'), ln - 1, pre)
    u.eq('custom: lower limit', M.read(s, Loc('this'), 'bin_min'), e(ZI), pre)
    u.eq('custom: upper limit', M.read(s, Loc('this'), 'bin_max'), e(ln - 1), pre)
    u.eq('custom: scheme', M.read(s, Loc('this'), 'scheme'), st('custom'), pre)


def unit_ctor(u):
    M, s = setup()
    s.mem['params'] = M.X.sym('trv::ParameterSet', 'p')
    s.mem['this'] = M.X.new_obj(CLS, s, {'this': None, 'fn': 'ctor'}) if False else M.X.sym(CLS, 'B')
    pre = [lt(ZI, var('p.ngrid[%d]' % i, 'I')) for i in range(3)] + [lt(ZR, var('p.boxsize[%d]' % i, 'R')) for i in range(3)]
    M.run('trv::Binning::Binning', s, Loc('this'), [Loc('params')], 1, 'ParameterSet')
    u.fn('trv::Binning::Binning(trv::ParameterSet&)')
    g = lambda n: M.read(s, Loc('this'), n)
    L = [var('p.boxsize[%d]' % i, 'R') for i in range(3)]
    N = [var('p.ngrid[%d]' % i, 'I') for i in range(3)]
    mx = lambda v: ite(and_(le(v[1], v[0]), le(v[2], v[0])), v[0], ite(le(v[2], v[1]), v[1], v[2]))
    mn = lambda v: ite(and_(le(v[0], v[1]), le(v[0], v[2])), v[0], ite(le(v[1], v[2]), v[1], v[2]))
    for f, w in (('bin_min', var('p.bin_min', 'R')), ('bin_max', var('p.bin_max', 'R')), ('num_bins', var('p.num_bins', 'I')),
                 ('scheme', var('p.binning', 'S')), ('space', var('p.space', 'S')),
                 ('dbin_pad_config', rn('1.005') * mx(L) / toreal(mn(N))), ('dbin_pad_fourier', rn('1.005') * 2 * PI / mx(L))):
        u.eq('from parameters: ' + f, g(f), w, pre)


UNITS = [('bins %s %s' % (a, b), unit_scheme(a, b)) for a in ('lin', 'log', 'linpad', 'logpad') for b in ('fourier', 'config')] + [
    ('bins rejected', unit_reject), ('bins explicit range', unit_range), ('bins from mesh fourier', unit_grid('fourier')),
    ('bins from mesh config', unit_grid('config')), ('bins custom', unit_custom), ('bins from parameters', unit_ctor)]


# ------------------------------------------------------------------ the Cython class
def unit_glue(u):
    """Binning of dataobjs.pyx asks the compiled class for the bins requested and shows what it has made"""
    G = glue.dataobjs()
    B = G['Binning']
    a, b, n = R('a'), R('b'), I('n')
    u.fn(*('dataobjs.Binning.' + f for f in ('__cinit__', 'set_bins', 'set_grid_based_bins', 'set_custom_bins', 'from_parameter_set')))
    nb_ = {}

    def shown(tag, v, h, want=None):
        """everything shown is what the compiled object holds"""
        m = v.thisptr.m
        for k in ('bin_min', 'bin_max', 'num_bins'):
            same(u, tag + ': shows ' + k, pysym.lit(getattr(v, k)), pysym.lit(m[k]), h)
        for k in ('bin_edges', 'bin_centres', 'bin_widths'):
            src = m[k]
            elems(u, tag + ': shows ' + k, getattr(v, k), (src.shape_[0],), lambda i, src=src: src.get((i,)), h)
        for k in ('scheme', 'space'):
            u.true(tag + ': shows ' + k, getattr(v, k) == (m[k] if isinstance(m[k], str) else m[k].decode()), '%r %r' % (getattr(v, k), m[k]))

    def asked(tag, v, h, space, scheme, *args):
        o = v.thisptr
        u.true(tag + ': coordinate space and scheme', (o.space, o.scheme) == (space.encode(), scheme.encode()), '%r %r' % (o.space, o.scheme))
        if not u.true(tag + ': bins asked for', [len(c) for c in o.calls] == [len(c) for c in args], repr(o.calls)):
            return
        for c, w in zip(o.calls, args):
            for i, (x, y) in enumerate(zip(c, w)):
                same(u, tag + ': argument %d' % i, pysym.lit(x), y, h)
    rng = (Rv(a), Rv(b), Iv(n))
    for space in ('fourier', 'config'):
        for scheme in ('lin', 'log', 'linpad', 'logpad'):
            tag = '%s %s' % (space, scheme)

            def made(*args):
                def post(v, h, p, t):
                    asked(t, v, h, space, scheme, *args)
                    shown(t, v, h)
                return post
            calls(u, tag + ' at once', lambda: B(space, scheme, bin_min=Rv(a), bin_max=Rv(b), num_bins=Iv(n)), [], made(rng))
            calls(u, tag + ' by position', lambda: B(space, scheme, Rv(a), Rv(b), Iv(n)), [], made(rng))

            def later():
                v = B(space, scheme)
                v.set_bins(Rv(R('a0')), Rv(R('b0')), Iv(I('n0')))
                v.set_bins(Rv(a), Rv(b), Iv(n))
                return v
            calls(u, tag + ' twice', later, [], made((Rv(R('a0')), Rv(R('b0')), Iv(I('n0'))), rng))
            if scheme == 'lin':
                for left in ('bin_min', 'bin_max', 'num_bins'):
                    k = {k: v for k, v in zip(('bin_min', 'bin_max', 'num_bins'), rng) if k != left}

                    def unset(v, h, p, t, k=k):
                        u.true(t + ': nothing asked for', v.thisptr.calls == [], repr(v.thisptr.calls))
                        for f, w in k.items():
                            same(u, t + ': ' + f, pysym.lit(getattr(v, f)), w, h)
                    calls(u, tag + ' without ' + left, lambda k=k: B(space, scheme, **k), [], unset)
            # from parameters
            for nm, cut in (('', [Rv(a), Rv(b)]), (', as a tuple', (Rv(a), Rv(b)))):
                P = {'space': space, 'binning': scheme, 'range': cut, 'num_bins': Iv(n)}
                calls(u, tag + ' from parameters' + nm, lambda P=P: B.from_parameter_set(P), [], made(rng))
        # mesh
        L, N = [Rv(R('L%d' % i)) for i in range(3)], [Iv(I('N%d' % i)) for i in range(3)]
        mxL = ite(lt(L[0].re, L[1].re), L[1].re, L[0].re)
        mxL = ite(lt(mxL, L[2].re), L[2].re, mxL)
        mnN = ite(lt(N[1].re, N[0].re), N[1].re, N[0].re)
        mnN = ite(lt(N[2].re, mnN), N[2].re, mnN)
        for lt_, LL, wl in (('one size', L[0], L[0].re), ('three sizes', L, mxL)):
            for nt, NN, wn in (('one number', N[0], N[0].re), ('three numbers', N, mnN)):
                for scheme in ('lin', 'logpad'):
                    def go(LL=LL, NN=NN, scheme=scheme, space=space):
                        v = B(space, scheme)
                        v.set_grid_based_bins(LL, NN)
                        return v

                    def post(v, h, p, t, wl=wl, wn=wn, space=space):
                        asked(t, v, h, space, 'lin', (Rv(wl), Iv(wn)))
                        shown(t, v, h)
                    calls(u, '%s mesh bins, %s, %s, scheme %s' % (space, lt_, nt, scheme), go, [lt(ZI, x.re) for x in N] + [lt(ZR, x.re) for x in L], post)
        # custom
        m = I('m')
        for nm, edges, ln, val in (('array', lambda: Arr.sym('e', (m,)), m, lambda i: app('e[]', (i,), 'R')),
                                   ('list', lambda: [Rv(R('e0')), Rv(R('e1')), Rv(R('e2'))], num(3, 'I'), lambda i: ite(eq(i, ZI), R('e0'), ite(eq(i, num(1, 'I')), R('e1'), R('e2'))))):
            def go(edges=edges, space=space):
                v = B(space, 'log', Rv(a), Rv(b), Iv(n))
                e = edges()
                v.set_custom_bins(e)
                return v, e

            def post(ve, h, p, t, ln=ln, val=val, space=space):
                v, e = ve
                one = num(1, 'I')
                for src, o in (('', v), (' in the compiled object', v.thisptr)):
                    elems(u, t + ': edges' + src, pysym.asarray(o.bin_edges), (ln,), lambda i: Rv(val(i)), h)
                    elems(u, t + ': centres' + src, pysym.asarray(o.bin_centres), (ln - one,), lambda i: Rv((val(i) + val(i + one)) / 2), h)
                    elems(u, t + ': widths' + src, pysym.asarray(o.bin_widths), (ln - one,), lambda i: Rv(val(i + one) - val(i)), h)
                    same(u, t + ': lower limit' + src, pysym.lit(o.bin_min), Rv(val(ZI)), h)
                    same(u, t + ': upper limit' + src, pysym.lit(o.bin_max), Rv(val(ln - one)), h)
                    same(u, t + ': number of bins' + src, pysym.lit(o.num_bins), Iv(ln - one), h)
                    u.true(t + ': scheme' + src, o.scheme in ('custom', b'custom') and o.space in (space, space.encode()), '%r' % (o.scheme,))
                if isinstance(e, Arr):
                    pylib.unchanged(u, t + ': edges given unchanged', e, lambda ix: Rv(val(ix[0])), h)
            calls(u, '%s custom bins, %s' % (space, nm), go, [le(num(2, 'I'), m)], post)
    for sp in ('', None, 'harmonic', 'Fourier'):
        P = {'space': sp, 'binning': 'lin', 'range': [Rv(a), Rv(b)], 'num_bins': Iv(n)}
        E, ps = pylib.explore(lambda: B.from_parameter_set(P))
        u.true('space %r rejected' % (sp,), all(p.out == 'exc' and isinstance(p.exc, ValueError) for p in ps), repr([(p.out, p.exc) for p in ps]))


UNITS += [('compiled class', unit_glue)]


def replay(r):
    import numpy as np
    import cxx
    L = cxx.lib()
    rng = np.random.default_rng(r.seed)
    N = 400 if r.tier == 'thorough' else 60

    def spec_edges(scheme, lo, hi, n, pad, npad):
        if scheme == 'lin':
            e = lo + (hi - lo) * np.arange(n + 1) / n
        elif scheme == 'log':
            e = lo * (hi / lo) ** (np.arange(n + 1) / n)
        else:
            b0, m = pad * npad, n - npad
            j = np.arange(m + 1) / m
            tail = b0 + (hi - b0) * j if scheme == 'linpad' else b0 * (hi / b0) ** j
            e = np.concatenate([pad * np.arange(npad), tail])
        e[-1] = hi
        return e

    def compare(key, b, e, what):
        d = cxx.bins_of(b)
        n = len(e) - 1
        r.case(key + ' count', d['num'] == n and len(d['edges']) == n + 1 and len(d['centres']) == n and len(d['widths']) == n,
               '%s: %d bins recorded, %d edges, %d centres, %d widths; contract: %d bins' % (what, d['num'], len(d['edges']), len(d['centres']), len(d['widths']), n))
        if len(d['edges']) == n + 1 and len(d['centres']) == n and len(d['widths']) == n:
            r.close(key + ' edges', d['edges'], e, what + ' edges', 1e-9, 1e-12)
            r.close(key + ' centres', d['centres'], (e[1:] + e[:-1]) / 2, what + ' centres', 1e-9, 1e-12)
            r.close(key + ' widths', d['widths'], np.diff(e), what + ' widths', 1e-7, 1e-11)
        r.close(key + ' limits', [d['min'], d['max']], [e[0] if key.find('pad') < 0 else d['min'], e[-1]], what + ' limits', 1e-9, 1e-12)

    import binreal
    PyB = binreal.Binning()

    def shows(key, v, e, scheme, what):
        for o, src in ((v, ''), (v.thisptr, ' in compiled code')):
            n = len(e) - 1
            s = o.scheme.decode() if isinstance(o.scheme, bytes) else o.scheme
            r.case(key + src, s == scheme and o.num_bins == n and len(o.bin_edges) == n + 1 and len(o.bin_centres) == n and len(o.bin_widths) == n, '%s: %s, %s bins, edges %s' % (what, s, o.num_bins, list(o.bin_edges)))
            if len(o.bin_edges) == n + 1 and len(o.bin_centres) == n and len(o.bin_widths) == n:
                r.close(key + ' values' + src, np.concatenate([o.bin_edges, o.bin_centres, o.bin_widths, [o.bin_max]]), np.concatenate([e, (e[1:] + e[:-1]) / 2, np.diff(e), e[-1:]]), what, 1e-7, 1e-11)

    def python(t):
        for scheme in ('lin', 'log', 'linpad', 'logpad'):
            for space in ('fourier', 'config'):
                pad = 1e-3 if space == 'fourier' else 10.
                n = int(rng.integers(6 if 'pad' in scheme else 1, 25))
                lo = float(rng.uniform(0, 2) * pad * 10) + (1e-4 if scheme == 'log' else 0)
                hi = float(max(lo, 5 * pad) * rng.uniform(1.2, 30))
                what = 'Binning(%r, %r, %r, %r, %r)' % (space, scheme, lo, hi, n)
                e = spec_edges(scheme, lo, hi, n, pad, 5)
                v = PyB(space, scheme, bin_min=lo, bin_max=hi, num_bins=n)
                shows('Python class', v, e, scheme, what)
                shows('Python class from parameters', PyB.from_parameter_set({'space': space, 'binning': scheme, 'range': [lo, hi], 'num_bins': n}), e, scheme, what)
                v = PyB(space, scheme)
                v.set_bins(lo / 2 + 1e-5, hi, n + 1)
                v.set_bins(lo, hi, n)
                shows('Python class, set again', v, e, scheme, what)
                Lb, ng = rng.uniform(50, 3000, 3), rng.integers(2, 100, 3)
                for L_, N_ in ((list(Lb), [int(x) for x in ng]), (float(Lb[0]), int(ng[0])), (Lb, ng)):
                    v.set_grid_based_bins(L_, N_)
                    Lm, nm = float(np.max(L_)), int(np.min(N_))
                    w = 2 * np.pi / Lm if space == 'fourier' else Lm / nm
                    shows('Python class, mesh', v, ((np.pi * nm / Lm if space == 'fourier' else Lm / 2) + w / 2) * np.arange(nm // 2 + 1) / (nm // 2), 'lin', '%s mesh bins %s %s' % (space, L_, N_))
                e = np.cumsum(rng.uniform(.01, 2, int(rng.integers(2, 12))))
                for c in (e, list(e), tuple(e)):
                    v.set_custom_bins(c)
                    shows('Python class, custom', v, e, 'custom', 'custom edges %s' % (c,))
                    r.case('Python class, custom limits', v.bin_min == e[0] and v.thisptr.bin_min == e[0], 'custom edges %s' % (c,))
        for sp in ('', None, 'harmonic'):
            try:
                PyB.from_parameter_set({'space': sp, 'binning': 'lin', 'range': [0., 1.], 'num_bins': 3})
                r.case('Python class, space', False, 'space %r accepted' % (sp,))
            except ValueError:
                r.case('Python class, space', True, '')
        for a in ((-1e-3, 1., 4), (0., 1., 0), (0., 1., -2)):
            try:
                PyB('fourier', 'lin', *a)
                r.case('Python class, unusable', False, '%r accepted' % (a,))
            except ValueError:
                r.case('Python class, unusable', True, '')

    def body(_):
        for t in range(N):
            if t % 10 == 0:
                python(t)
            for scheme in ('lin', 'log', 'linpad', 'logpad'):
                for space in ('fourier', 'config'):
                    pad = 1e-3 if space == 'fourier' else 10.
                    n = int(rng.integers(6 if 'pad' in scheme else 1, 25))
                    lo = float(rng.uniform(0, 2) * pad * 10) * (scheme == 'log' or rng.random() < .7) + (1e-4 if scheme == 'log' else 0)
                    hi = float(max(lo, 5 * pad) * rng.uniform(1.2, 30))
                    b = cxx.H(L.b_new(space, scheme))
                    for rep in range(2):
                        L.b_set3(b, lo, hi, n)
                    compare('range %s' % scheme, b, spec_edges(scheme, lo, hi, n, pad, 5), '%s %s set_bins(%r, %r, %d)' % (space, scheme, lo, hi, n))
                    # from parameters: padding at the grid scale
                    box, ng = rng.uniform(50, 3000, 3), rng.integers(2, 300, 3)
                    p = cxx.params(space=space, binning=scheme, boxsize=box, ngrid=ng, bin_min=lo, bin_max=1e9, num_bins=n)
                    pd = 1.005 * 2 * np.pi / box.max() if space == 'fourier' else 1.005 * box.max() / ng.min()
                    hi2 = float(max(lo, 5 * pd) * rng.uniform(1.2, 30))
                    cxx.put(p, 'bin_max', hi2)
                    b2 = cxx.H(L.b_params(p))
                    L.b_set0(b2)
                    compare('params %s' % scheme, b2, spec_edges(scheme, lo, hi2, n, pd, 5), '%s %s from parameters boxsize=%s ngrid=%s range=(%r, %r) num_bins=%d' % (space, scheme, box, ng, lo, hi2, n))
                    for q in (b, b2):
                        L.b_free(q)
                    L.p_free(p)
            for space in ('fourier', 'config'):
                Lb, ng = float(rng.uniform(10, 3000)), int(rng.integers(2, 200))
                b = cxx.H(L.b_new(space, ('log', 'lin', 'logpad')[t % 3]))
                L.b_grid(b, Lb, ng)
                w = 2 * np.pi / Lb if space == 'fourier' else Lb / ng
                top = (np.pi * ng / Lb if space == 'fourier' else Lb / 2) + w / 2
                compare('mesh', b, top * np.arange(ng // 2 + 1) / (ng // 2), '%s bins of mesh (%r, %d)' % (space, Lb, ng))
                r.case('mesh scheme', cxx.bins_of(b)['scheme'] == 'lin', 'mesh bins leave the scheme at %s' % cxx.bins_of(b)['scheme'])
                e = np.cumsum(rng.uniform(0.01, 2, int(rng.integers(2, 12))))
                L.b_custom(b, e, len(e))
                compare('custom', b, e, 'custom edges %s' % e)
                r.case('custom scheme', cxx.bins_of(b)['scheme'] == 'custom', 'custom bins leave the scheme unchanged')
                L.b_free(b)
        for scheme, space, lo, hi, n in [('lin', 'fourier', -1e-3, 1., 4), ('lin', 'config', 0., 1., 0), ('log', 'fourier', 0.1, 1., -2), ('log', 'fourier', 0., 1., 4), ('cubic', 'fourier', 0., 1., 4)] + \
                [(s, sp, 0., 400., n) for s in ('linpad', 'logpad') for sp in ('fourier', 'config') for n in (1, 4, 5)]:
            b = cxx.H(L.b_new(space, scheme))
            try:
                L.b_set3(b, lo, hi, n)
                ok = False
            except cxx.Raised:
                ok = True
            r.case('rejected %s' % scheme, ok, '%s %s set_bins(%r, %r, %d) must be rejected' % (space, scheme, lo, hi, n))
        return r
    out = cxx.isolated(body, None)
    merge(r, out)
