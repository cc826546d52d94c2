"""P09: two-point measurements are the multipole estimator of their inputs (twopt.cpp)."""
from meshlib import *

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals',
           'fluctuation fields, transforms, binned statistics and coupling coefficients are used through their contracts (P04, P03, P06, P11)',
           'a two-point coupling coefficient is either zero or larger than eps_coupling in magnitude; it vanishes unless m + M = 0 and does not for m = M = 0 (P11)']
NB = var('b.num_bins', 'I')
BIN = I('bin')
ELL = var('p.ELL', 'I')
EPS = var('trv::maths::eps_coupling', 'R')
VEC = {'nmodes': 'I', 'npairs': 'I', 'k': 'R', 'r': 'R', 'sn': 'C', 'pk': 'C', 'xi': 'C'}
SP = {'fourier': ('nmodes', 'k', 'pk', 'sn'), 'config': ('npairs', 'r', 'xi')}


def pair(name, a):
    return Cx(app(name + '_re', a, 'R'), app(name + '_im', a, 'R'))


PRE = [le(ZI, ELL), lt(ZI, NB), between(0, BIN, NB), lt(ZR, EPS)]


def coupling(l, L, m, M):
    """what P11 states of the coefficient: zero unless m + M = 0 (for equal degrees), and when
    not zero larger than the threshold below which terms are skipped"""
    a = (l, L, m, M)
    big = EPS + app('cc2', a, 'R') * app('cc2', a, 'R')
    w = ite(lt(app('cc2_sign', a, 'R'), ZR), neg(big), big)
    return ite(eq(m + M, ZI) if l is L else lt(app('cc2_rule', a, 'R'), ZR), w, ZR)


class Ghost:
    """meshes and statistics with their content as ghost terms"""

    def __init__(s):
        s.M = None
        s.prm = []          # (what, parameter set it was made with)
        s.bins = []

    def same_params(s, X, st, a, what):
        s.prm.append((what, X.load(st, a) if isinstance(a, Loc) else a))

    def mesh(s, X, st, th, args, e):
        s.same_params(X, st, args[0], 'mesh')
        o = X.sym('trv::MeshField', X.newname('mesh') if False else 'mesh')
        return Obj(o.cls, 'ghostmesh', {'content': var('nothing', 'R')}, X)

    def put(s, X, st, th, t):
        X.store(st, Loc(th[0], tuple(th[1]) + ('content',)), t)

    def who(s, X, st, a):
        if isinstance(a, Loc):
            v = X.load(st, a)
            if isinstance(v, (Ptr, Loc)):
                return s.who(X, st, v)
            return str(a[0]) + ''.join('.%s' % (q,) for q in a[1])
        if isinstance(a, Ptr):
            return str(a.root) + ('' if a.idx is None or a.idx is ZI or a.idx == ZI else '+?')
        return repr(a)

    def field(s, kind):
        def f(X, st, th, args, e):
            n = len(args)
            if n == 7:
                nm = [s.who(X, st, a) for a in args[:4]]
                t = args[4:]
            elif n == 5:
                nm = [s.who(X, st, a) for a in args[:2]]
                t = args[2:]
            else:
                nm = [s.who(X, st, a) for a in args]
                t = []
            s.put(X, st, th, app('%s|%s' % (kind, '|'.join(nm)), tuple(x if isinstance(x, T) else lift(x, 'I') for x in t) or (ZI,), 'R'))
            return None
        return f

    def ft(s, X, st, th, args, e):
        s.put(X, st, th, app('FT', (X.load(st, Loc(th[0], tuple(th[1]) + ('content',))),), 'R'))

    def stats(s, X, st, th, args, e):
        s.same_params(X, st, args[0], 'statistics')
        return Obj('trv::FieldStats', 'ghoststats', {k: SArr(('sym', 'unset_' + k), (), {'I': 'int', 'R': 'double', 'C': 'std::complex<double>'}[q], var('unset_' + k + '#len', 'I'), X) for k, q in VEC.items()}, X)

    def binned(s, space):
        def f(X, st, th, args, e):
            ga, gb = [X.load(st, Loc(a[0], tuple(a[1]) + ('content',))) for a in args[:2]]
            amp = args[2] if not isinstance(args[2], Loc) else X.load(st, args[2])
            amp = amp if isinstance(amp, Cx) else Cx(toreal(amp), ZR)
            bo = X.load(st, args[5]) if isinstance(args[5], Loc) else args[5]
            s.bins.append((bo.get('num_bins'), bo.get('bin_edges')))
            b = fresh('b', 'I')
            for nm, kd in VEC.items():
                if nm in SP[space]:
                    if nm in ('nmodes', 'npairs'):
                        v = app('n_' + space, (b,), 'I')
                    elif nm in ('k', 'r'):
                        v = app('eff_' + space, (b,), 'R')
                    elif nm == 'sn':
                        v = pair('sn', (amp.re, amp.im, lift(args[3], 'I'), lift(args[4], 'I'), b))
                    else:
                        v = pair(nm, (ga, gb, amp.re, amp.im, lift(args[3], 'I'), lift(args[4], 'I'), b))
                else:
                    v = num(0, 'I') if kd == 'I' else ZR if kd == 'R' else Cx(ZR, ZR)
                L = Loc(th[0], tuple(th[1]) + (nm,))
                a = X.load(st, L)
                X.store(st, L, SArr(a.base, a.writes, a.et, a.ln, X).with_write(W((b,), v, TRUE, ((b, ZI, bo.get('num_bins')),), 'set')))
            return None
        return f

    def amp(s, X, st, th, args, e):
        k = 4 if len(args) == 7 else 2
        nm = '|'.join(s.who(X, st, a) for a in args[:k])
        return pair('amp|' + nm, tuple(x if isinstance(x, T) else lift(x, 'I') for x in args[k:]))

    def table(s):
        c = {'trv::MeshField::MeshField': s.mesh, 'trv::FieldStats::FieldStats': s.stats, 'trv::MeshField::fourier_transform': s.ft,
             'trv::calc_ylm_wgtd_shotnoise_amp_for_powspec': s.amp, 'trv::calc_coupling_coeff_2pt': s.coup}
        for k in ('ylm_wgtd_field', 'ylm_wgtd_quad_field', 'unweighted_field', 'unweighted_field_fluctuations_insitu'):
            c['trv::MeshField::compute_' + k] = s.field(k)
        for k in SP:
            c['trv::FieldStats::compute_ylm_wgtd_2pt_stats_in_' + k] = s.binned(k)
        return c

    def coup(s, X, st, th, args, e):
        return coupling(*[lift(x, 'I') for x in args])


def setup(box=False):
    g = Ghost()
    M = Machine(('twopt', 'field', 'particles', 'parameters'), contracts=g.table())
    s = M.state()
    for c in ('d', 'r'):
        s.mem[c] = M.X.sym('trv::ParticleCatalogue', c)
    for l in ('ld', 'lr'):
        s.mem[l] = SArr(('sym', l), (), 'trv::LineOfSight', I(l + '#len'), M.X)
    s.mem['p'] = M.X.sym('trv::ParameterSet', 'p')
    s.mem['b'] = M.X.sym('trv::Binning', 'b')
    M.ctx.push(and_(*PRE))
    return M, s, g


def estimator(M_, m1, space, survey, window):
    """the terms of the multipole estimator at orders (M, m1)"""
    al = R('alpha') if window else var('d.wstotal', 'R') / var('r.wstotal', 'R')
    cat, los = (('r',), ('lr',)) if window else (('d', 'r'), ('ld', 'lr'))
    nm = '|'.join(cat + los)
    fld = lambda l, m: app('FT', (app('ylm_wgtd_field|' + nm, (al, l, m), 'R'),), 'R')
    amp = pair('amp|' + nm, (al, ELL, M_))
    sig = pair('pk' if space == 'fourier' else 'xi', (fld(ELL, M_), fld(ZI, ZI), amp.re, amp.im, ELL, m1, BIN))
    sn = pair('sn', (amp.re, amp.im, ELL, m1, BIN))
    c = coupling(ELL, ELL, m1, M_)
    return Cx(c * sig.re, c * sig.im), Cx(c * sn.re, c * sn.im)


OUT = {'fourier': ('kbin', 'keff', 'nmodes', 'pk_raw', 'pk_shot'), 'config': ('rbin', 'reff', 'npairs', 'xi', None)}


def check(u, M, s, g, v, space, sig, sn, fn):
    norm = R('norm')
    u.fn(fn)
    nm = OUT[space]
    for q in nm:
        if q:
            u.eq('%s has one entry per bin' % q, v.get(q).ln, NB, PRE)
    u.eq('number of bins', v.get('dim'), NB, PRE)
    at = lambda q: v.get(q).read((BIN,))
    u.eq('bin centre', at(nm[0]), app('b.bin_centres[]', (BIN,), 'R'), PRE)
    u.eq('effective coordinate', at(nm[1]), app('eff_' + space, (BIN,), 'R'), PRE)
    u.eq('count', at(nm[2]), app('n_' + space, (BIN,), 'I'), PRE)
    x = at(nm[3])
    u.eq('signal, real part', x.re, norm * sig.re, PRE)
    u.eq('signal, imaginary part', x.im, norm * sig.im, PRE)
    if nm[4]:
        x = at(nm[4])
        u.eq('shot noise, real part', x.re, norm * sn.re, PRE)
        u.eq('shot noise, imaginary part', x.im, norm * sn.im, PRE)
    p0 = M.X.sym('trv::ParameterSet', 'p')
    u.true('meshes and statistics use the given parameter set', g.prm and all(o.name == 'p' and not o.f for _, o in g.prm) or all(repr(o.get(k)) == repr(p0.get(k)) for _, o in g.prm for k in ('ngrid', 'boxsize', 'assignment', 'interlace', 'ELL')), repr(g.prm)[:300])
    u.true('the given bins are used', g.bins and all(n is NB and e.base == ('sym', 'b.bin_edges') and not e.writes for n, e in g.bins), repr(g.bins)[:300])
    u.true('catalogues, lines of sight, parameters and bins are not modified', not any(isinstance(q, tuple) and q[0] == 'sym' and s.mem[q].writes for q in s.mem)
           and not s.mem['ld'].writes and not s.mem['lr'].writes and all(not s.mem[q].f or all(repr(y) == repr(M.X.sym(s.mem[q].cls, q).get(x)) for x, y in s.mem[q].f.items()) for q in ('d', 'r', 'b')))


def total(f):
    a, b = var('Mq', 'I'), var('mq', 'I')
    t = f(a, b)
    return [Cx(*[sum_(a, neg(ELL), ELL + 1, sum_(b, neg(ELL), ELL + 1, x)) for x in (q.re, q.im)]) for q in t]


def unit_survey(space, window=False):
    fn = 'trv::compute_corrfunc_window' if window else {'fourier': 'trv::compute_powspec', 'config': 'trv::compute_corrfunc'}[space]

    def go(u):
        M, s, g = setup()
        if window:
            args = [Loc('r'), Ptr('lr', (), ZI), Loc('p'), Loc('b'), R('alpha'), R('norm')]
        else:
            args = [Loc('d'), Loc('r'), Ptr('ld', (), ZI), Ptr('lr', (), ZI), Loc('p'), Loc('b'), R('norm')]
        v = M.run(fn, s, None, args)
        sig, sn = total(lambda a, b: estimator(a, b, space, True, window))
        check(u, M, s, g, v, space, sig, sn, fn)
    return go


def unit_box(space):
    fn = {'fourier': 'trv::compute_powspec_in_gpp_box', 'config': 'trv::compute_corrfunc_in_gpp_box'}[space]

    def go(u):
        M, s, g = setup()
        v = M.run(fn, s, None, [Loc('d'), Loc('p'), Loc('b'), R('norm')])
        f = app('FT', (app('unweighted_field_fluctuations_insitu|d', (ZI,), 'R'),), 'R')
        amp = toreal(var('d.ntotal', 'I'))
        sig = pair('pk' if space == 'fourier' else 'xi', (f, f, amp, ZR, ELL, ZI, BIN))
        sn = pair('sn', (amp, ZR, ELL, ZI, BIN))
        c = toreal(ELL * 2 + 1)
        check(u, M, s, g, v, space, Cx(c * sig.re, c * sig.im), Cx(c * sn.re, c * sn.im), fn)
    return go


def unit_amp(n):
    fn = 'trv::calc_ylm_wgtd_shotnoise_amp_for_powspec'

    def go(u):
        amp_unit(u, fn, n, 2, 'twopt')
    return go


def amp_unit(u, fn, n, power, tu):
    M = Machine((tu, 'particles'), contracts=dict(YLM))
    s = M.state()
    for c in ('d', 'r'):
        s.mem[c] = M.X.sym('trv::ParticleCatalogue', c)
    for l in ('ld', 'lr'):
        s.mem[l] = SArr(('sym', l), (), 'trv::LineOfSight', I(l + '#len'), M.X)
    al, l, m = R('alpha'), I('ell'), I('m')
    args = [Loc('d'), Loc('r'), Ptr('ld', (), ZI), Ptr('lr', (), ZI), al, l, m] if n == 7 else [Loc('d'), Ptr('ld', (), ZI), al, l, m]
    v = M.run(fn, s, None, args, n)
    u.fn(fn + (' (data and randoms)' if n == 7 else ' (one catalogue)'))
    i = var('pid', 'I')

    def part(c, L):
        y = ylm_term(l, m, [app('%s[].pos[]' % L, (i, num(a, 'I')), 'R') for a in range(3)])
        w = powi(app(c + '.pdata*[].w', (i,), 'R'), power)
        return [sum_(i, ZI, var(c + '.ntotal', 'I'), w * q) for q in (y.re, y.im)]
    D = part('d', 'ld')
    f = powi(al, power)
    want = [x + f * y for x, y in zip(D, part('r', 'lr'))] if n == 7 else [f * x for x in D]
    u.eq('shot-noise amplitude, real part', v.re, want[0])
    u.eq('shot-noise amplitude, imaginary part', v.im, want[1])
    u.true('catalogues are not modified', not any(isinstance(q, tuple) and q[0] == 'sym' and s.mem[q].writes for q in s.mem) and not s.mem['ld'].writes and not s.mem['lr'].writes)


UNITS = [('survey ' + q, unit_survey(q)) for q in SP]
UNITS += [('window', unit_survey('config', True))]
UNITS += [('box ' + q, unit_box(q)) for q in SP]
UNITS += [('amplitude %d' % n, unit_amp(n)) for n in (7, 5)]


def world(rng, cxx, np):
    """a random mesh, and a data and a random catalogue inside the box with their lines of sight"""
    n = rng.integers(3, 8, 3)
    B = rng.uniform(60, 700, 3)
    sch = ['ngp', 'cic', 'tsc', 'pcs'][int(rng.integers(4))]
    cats, hs = [], []
    for lo, hi in ((2, 30), (5, 60)):
        k = int(rng.integers(lo, hi))
        pos = rng.uniform(0, 1, (k, 3)) * B
        ws, wc, nz = rng.uniform(.2, 3, k), rng.uniform(.2, 3, k), rng.uniform(.1, 2, k)
        los = rng.normal(size=(k, 3)) + rng.normal(size=3)
        los /= np.sqrt((los ** 2).sum(1))[:, None]
        cats.append((pos, ws * wc, los))
        hs.append((cxx.catalogue(pos, nz, ws, wc), cxx.los(los), ws.sum()))
    return B, n, sch, cats, hs


def replay(r):
    import numpy as np
    import cxx, oracle, est

    def body(t):
        L = cxx.lib()
        rng = np.random.default_rng(1000 * r.seed + t)
        q = type(r)()
        out = np.zeros(2)
        for rep in range(30 if r.tier == 'thorough' else 6):
            B, n, sch, cats, ((cd, ld, sd), (cr, lr, sr)) = world(rng, cxx, np)
            inter = bool((rep + t) % 2)
            ELL = int(rng.integers(0, 5)) if rep else [0, 2, 4, 1, 3, 0, 2, 4][t]
            L.threads(int(rng.integers(1, 6)))
            m = est.Mesh(B, n, sch, inter)
            norm = float(rng.uniform(.01, 4))
            kw = dict(boxsize=B, ngrid=n, assignment=sch, interlace='true' if inter else 'false', ELL=ELL)
            what = 'mesh %s box %s %s%s ELL=%d %d data %d randoms' % (n.tolist(), np.round(B, 3).tolist(), sch, ' interlaced' if inter else '', ELL, len(cats[0][0]), len(cats[1][0]))
            d0 = [cxx.cat_data(c) for c in (cd, cr)]
            al = sd / sr
            alw = float(rng.uniform(.1, 2))
            for l in range(0, ELL + 1):
                mm = int(rng.integers(-l, l + 1))
                L.sn_amp(0, cd, cr, ld, lr, alw, l, mm, out)
                q.close('shot-noise amplitude', out[0] + 1j * out[1], m.amp(l, mm, cats, alw, 2), what + ' l=%d m=%d alpha=%g' % (l, mm, alw), 1e-9, 1e-9)
                L.sn_amp(0, cd, None, ld, None, alw, l, mm, out)
                q.close('shot-noise amplitude, one catalogue', out[0] + 1j * out[1], m.amp(l, mm, cats[:1], alw, 2), what + ' l=%d m=%d alpha=%g' % (l, mm, alw), 1e-9, 1e-9)
            for kind in ('powspec', 'corrfunc', 'window', 'powspec box', 'corrfunc box'):
                sp = 'fourier' if 'powspec' in kind else 'config'
                x = m.k if sp == 'fourier' else m.x
                nb = int(rng.integers(1, 7))
                e = est.edges_for(rng, x, [oracle.fine(x, 1e-5 if sp == 'fourier' else .1)], nb)
                b = cxx.binning(sp, e)
                cen = cxx.bins_of(b)['centres']
                p = cxx.params(space=sp, npoint='2pt', catalogue_type='random' if kind == 'window' else 'sim' if 'box' in kind else 'survey', **kw)
                if kind in ('powspec', 'corrfunc'):
                    (L.st_powspec if sp == 'fourier' else L.st_corrfunc)(cd, cr, ld, lr, p, b, norm)
                    want = est.twopt(m, cats, al, ELL, e, cen, norm, sp)
                elif kind == 'window':
                    L.st_corrwin(cr, lr, p, b, alw, norm)
                    want = est.twopt(m, cats[1:], alw, ELL, e, cen, norm, sp)
                else:
                    (L.st_powspec if sp == 'fourier' else L.st_corrfunc)(cd, None, None, None, p, b, norm)
                    want = est.twopt_box(m, cats[0][0], ELL, e, cen, norm, sp)
                o = cxx.outputs(['bin', 'eff', 'n', '*sig'] + (['*sn'] if sp == 'fourier' else []))
                wh = what + ' %s norm=%g edges %s' % (kind, norm, e.tolist())
                q.case('number of bins', o['dim'] == nb and all(len(o[z]) == nb for z in o if z != 'dim'), wh + ': dim=%s, column lengths %s' % (o['dim'], [len(o[z]) for z in o if z != 'dim']))
                if o['dim'] == nb:
                    q.close('bin centres', o['bin'], cen, wh, 0, 0)
                    q.close('counts', o['n'], want[0], wh, 0, 0)
                    q.close('effective coordinates', o['eff'], want[1], wh, 1e-9, 1e-12)
                    sc = max(want[4], 1e-300)
                    q.close('signal', o['sig'] / sc, want[2] / sc, wh, 1e-6, 1e-7, 1.)
                    if sp == 'fourier':
                        s2 = np.abs(want[3]).max() + norm
                        q.close('shot noise', o['sn'] / s2, want[3] / s2, wh, 1e-8, 1e-9, 1.)
                L.b_free(b), L.p_free(p)
            for c, c0 in zip((cd, cr), d0):
                q.close('catalogues kept', cxx.cat_data(c), c0, what + ' catalogue after the measurements', 0, 0)
            L.c_free(cd), L.c_free(cr)
        return q
    for o in cxx.pmap(body, range(8)):
        absorb(r, o)
