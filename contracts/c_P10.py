"""P10: three-point measurements fill every entry of the requested layout (threept.cpp)."""
from meshlib import *
from c_P09 import Ghost, pair, amp_unit, world

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals',
           'fields, transforms, binned statistics, shot-noise terms, harmonic grids and coupling coefficients are used through their contracts (P04, P03, P06, P02, P11)',
           'reality of the weights: a field, transform or statistic at the opposite orders is the complex conjugate of the one at the given orders times the parity of its degree (exact except on the Nyquist planes of an even mesh)',
           'the coupling coefficients are taken at twelve decimals',
           'the degree triplets of the units are enumerated (not symbolic); bins, layouts, meshes and catalogues are symbolic',
           'the bin index of a row or off-diagonal layout is within the bins (checked by parameter validation)']
NB = var('b.num_bins', 'I')
IDX = var('p.idx_bin', 'I')
NM = var('p.nmesh', 'I')
DV = I('entry')
G = var('gid', 'I')
SHAPES = ['diag', 'off-diag+', 'off-diag-', 'row', 'full', 'triu']
TRI = []


def w3jn(l1, l2, L, m1, m2, M):
    sys.path.insert(0, os.path.join(HERE, '..', 'replay'))
    import oracle
    return oracle.w3j(l1, l2, L, 0, 0, 0) * oracle.w3j(l1, l2, L, m1, m2, M)


def mirror(ms):
    """canonical representative of a set of orders and its opposite"""
    for m in ms:
        if m:
            return m < 0
    return False


def coupling(l1, l2, L, m1, m2, M):
    v = w3jn(l1, l2, L, m1, m2, M)
    if abs(v) < 1e-12:
        return ZR
    return rn('%.12f' % v)


def orient(name, a, l, m):
    """content at order m: parity of the degree times the conjugate of the content at -m"""
    v = pair(name, tuple(a[:-1]) + (num(abs(m), 'I'), a[-1]))
    if m == 0:
        return Cx(v.re, ZR) if l % 2 == 0 else Cx(ZR, v.im)
    if m < 0:
        v = v.conj()
        s = (-1) ** (l + m)
        v = Cx(scale(v.re, s), scale(v.im, s))
    return v


def ni(t):
    if not (isinstance(t, T) and t.op == 'num'):
        raise Unsupported('degree or order is not a number: %r' % (t,))
    return int(t.a[0])


class Ghost3(Ghost):
    def mesh(s, X, st, th, args, e):
        s.same_params(X, st, args[0], 'mesh')
        root = ('ghostfield', X.newname('g'))
        st.mem[root] = SArr(('sym', 'unset'), (), 'fftw_complex', NM, X)
        return Obj('trv::MeshField', 'mesh', {'content': var('nothing', 'R'), 'field': Ptr(root, (), ZI)}, X)

    def whole(s, X, st, loc, f, n):
        a = X.load(st, loc)
        b = fresh('g', 'I')
        v = f(b)
        z = SArr(a.base, (), a.et, a.ln, X)
        if a.et == 'fftw_complex':
            for k, q in enumerate((v.re, v.im)):
                z = z.with_write(W((b, num(k, 'I')), q, TRUE, ((b, ZI, n),), 'set'))
        else:
            z = z.with_write(W((b,), v, TRUE, ((b, ZI, n),), 'set'))
        X.store(st, loc, z)

    def content(s, X, st, a):
        return X.load(st, Loc(a[0], tuple(a[1]) + ('content',)))

    def fieldloc(s, X, st, th):
        p = X.load(st, Loc(th[0], tuple(th[1]) + ('field',)))
        return Loc(p.root, p.path)

    def wrap(s, k):
        def f(X, st, th, args, e):
            t = app(k, (s.content(X, st, th),), 'R')
            s.put(X, st, th, t)
            c, deg = t, None
            while c.op == 'app' and len(c.a) == 2 and c.a[1].op == 'app':
                c = c.a[1]
            if c.op == 'app' and c.a[0].startswith('ylm_wgtd_field|'):
                al, L, m = c.a[1:]
                t2 = subst(t, {})
                L, m = ni(L), ni(m)
                t2 = remap(t, c, app(c.a[0], (al, num(L, 'I')), 'R'))
                par = 0        # in configuration space no parity of the degree enters
                s.whole(X, st, s.fieldloc(X, st, th), lambda g: orient('X', (t2, g), 0, m), NM)
            else:
                s.whole(X, st, s.fieldloc(X, st, th), lambda g: orient('X', (t, g), 0, 0), NM)
            return None
        return f

    def grid(s, sp):
        def f(X, st, th, args, e):
            l, m = lift(args[0], 'I'), lift(args[1], 'I')
            bx, ng = [vec_arg(X, st, a) for a in args[2:4]]
            p = X.sym('trv::ParameterSet', 'p')
            if [repr(z) for z in bx] != [repr(p.get('boxsize').e[q]) for q in range(3)] or [repr(z) for z in ng] != [repr(p.get('ngrid').e[q]) for q in range(3)]:
                s.prm.append(('grid', X.sym('trv::ParameterSet', 'other')))
            loc = args[4]
            if not isinstance(loc, Loc):
                loc = Loc(loc.root, loc.path)
            s.whole(X, st, loc, lambda g: pair('ylm_' + sp, (l, m, g)), NM)
            return None
        return f

    def ylm_of(s, X, st, a, sp):
        v = X.load(st, a) if isinstance(a, Loc) else a
        if isinstance(v, Ptr):
            v = X.load(st, Loc(v.root, v.path))
        g = fresh('q', 'I')
        X.hyp_push([between(0, g, NM)])
        t = v.read((g,)).re
        X.hyp_pop()
        if t.op == 'ite':
            t = t.a[1]
        if t.op != 'app' or t.a[0] != 'ylm_%s_re' % sp:
            raise Unsupported('harmonic grid %r' % (t,))
        return ni(t.a[1]), ni(t.a[2])

    def band(s, X, st, th, args, e):
        src = s.content(X, st, args[0])
        l, m = s.ylm_of(X, st, args[1], 'fourier')
        lo, hi = args[2:4]
        s.whole(X, st, s.fieldloc(X, st, th), lambda g: orient('F', (src, num(l, 'I'), lo, hi, g), l, m), NM)
        X.store(st, args[4], app('keff', (lo, hi), 'R'))
        X.store(st, args[5], app('nmodes', (lo, hi), 'I'))
        return None

    def sjl(s, X, st, th, args, e):
        src = s.content(X, st, args[0])
        l, m = s.ylm_of(X, st, args[1], 'fourier')
        j = X.load(st, args[2]).get('order') if isinstance(args[2], Loc) else args[2].get('order')
        r = lift(args[3], 'R')
        s.whole(X, st, s.fieldloc(X, st, th), lambda g: orient('J', (src, num(l, 'I'), j, r, g), l, m), NM)
        return None

    def stats(s, X, st, th, args, e):
        o = Ghost.stats(s, X, st, th, args, e)
        return o

    def src_lm(s, c):
        """(content without its orders, degree, order) of a source term"""
        d = c
        while d.op == 'app' and len(d.a) == 2 and d.a[1].op == 'app':
            d = d.a[1]
        if d.op == 'app' and d.a[0].startswith(('ylm_wgtd_field|', 'ylm_wgtd_quad_field|')):
            al, L, m = d.a[1:]
            return remap(c, d, app(d.a[0], (al, num(ni(L), 'I')), 'R')), ni(L), ni(m)
        return c, 0, 0

    def amp_lm(s, a):
        """(canonical shot-noise amplitude tag, order)"""
        a = a if isinstance(a, Cx) else Cx(toreal(a), ZR)
        t = a.re
        if t.op == 'app' and t.a[0].startswith('amp|') and a.im is app(t.a[0][:-3] + '_im', t.a[1:], 'R'):
            return app(t.a[0], t.a[1:-1], 'R'), ni(t.a[-1])
        return app('amp', (a.re, a.im), 'R'), 0

    def canon(s, name, args, ms, par, last):
        if any(ms) and mirror(ms):
            v = pair(name, tuple(args) + tuple(num(-m, 'I') for m in ms) + last).conj()
            return Cx(scale(v.re, par), scale(v.im, par))
        return pair(name, tuple(args) + tuple(num(m, 'I') for m in ms) + last)

    def binned3(s, X, st, th, args, e):
        ga, la, ma = s.src_lm(s.content(X, st, args[0]))
        gb, lb, mb = s.src_lm(s.content(X, st, args[1]))
        amp, mA = s.amp_lm(X.load(st, args[2]) if isinstance(args[2], Loc) else args[2])
        l, m = ni(lift(args[3], 'I')), ni(lift(args[4], 'I'))
        bo = X.load(st, args[5]) if isinstance(args[5], Loc) else args[5]
        s.bins.append((bo.get('num_bins'), bo.get('bin_edges')))
        b = fresh('b', 'I')
        vals = {'nmodes': app('n_f', (b,), 'I'), 'k': app('eff_f', (b,), 'R'),
                'pk': s.canon('pk', (ga, gb, num(l, 'I')), (m, ma, mb), (-1) ** l, (b,)),
                'sn': s.canon('sn', (amp, num(l, 'I')), (m, mA), (-1) ** l, (b,))}
        s.vectors(X, st, th, vals, b, bo)
        return None

    def vectors(s, X, st, th, vals, b, bo):
        for nm, v in vals.items():
            L = Loc(th[0], tuple(th[1]) + (nm,))
            a = X.load(st, L)
            X.store(st, L, SArr(a.base, (), a.et, bo.get('num_bins'), X).with_write(W((b,), v, TRUE, ((b, ZI, bo.get('num_bins')),), 'set')))

    def shot(s, X, st, args, n):
        ga, la, ma = s.src_lm(s.content(X, st, args[0]))
        gb, lb, mb = s.src_lm(s.content(X, st, args[1]))
        l1, m1 = s.ylm_of(X, st, args[2], 'config')
        l2, m2 = s.ylm_of(X, st, args[3], 'config')
        return ga, gb, (num(l1, 'I'), num(l2, 'I')), (m1, m2, ma, mb)

    def bin_shot(s, X, st, th, args, e):
        ga, gb, ls, ms = s.shot(X, st, args, 4)
        j = [X.load(st, a).get('order') if isinstance(a, Loc) else a.get('order') for a in args[4:6]]
        amp, mA = s.amp_lm(X.load(st, args[6]) if isinstance(args[6], Loc) else args[6])
        return s.canon('S', (ga, gb) + ls + tuple(j) + (amp,), ms + (mA,), 1, tuple(lift(a, 'R') for a in args[7:9]))

    def cfg_shot(s, X, st, th, args, e):
        ga, gb, ls, ms = s.shot(X, st, args, 4)
        amp, mA = s.amp_lm(X.load(st, args[4]) if isinstance(args[4], Loc) else args[4])
        bo = X.load(st, args[5]) if isinstance(args[5], Loc) else args[5]
        s.bins.append((bo.get('num_bins'), bo.get('bin_edges')))
        b = fresh('b', 'I')
        s.vectors(X, st, th, {'npairs': app('n_c', (b,), 'I'), 'r': app('eff_c', (b,), 'R'), 'xi': s.canon('xs', (ga, gb) + ls + (amp,), ms + (mA,), 1, (b,))}, b, bo)
        return None

    def coup3(s, X, st, th, args, e):
        return coupling(*[ni(lift(x, 'I')) for x in args])

    def table(s):
        c = Ghost.table(s)
        for k in list(c):
            if 'twopt' in k or 'powspec' in k or '2pt' in k:
                del c[k]
        MF, FS, SH = 'trv::MeshField::', 'trv::FieldStats::', 'trv::maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_'
        SJ = 'trv::maths::SphericalBesselCalculator'
        c[SJ + '::SphericalBesselCalculator'] = lambda X, st, th, a, e: X.load(st, a[0]) if isinstance(a[0], Loc) and not isinstance(X.load(st, a[0]), T) else X.sym(SJ, 'sj').set('order', X.load(st, a[0]) if isinstance(a[0], Loc) else lift(a[0], 'I'))
        PB = 'trv::sys::ProgressBar::'
        c.update({PB + 'ProgressBar': lambda X, st, th, a, e: Opaque('progress bar'), PB + 'update': lambda *a: None, PB + 'set_nodes': lambda *a: None,
                  'trv::sys::set_nodes_by_str': lambda X, st, th, a, e: X.new_vec('float', ZI)})
        c.update({MF + 'fourier_transform': s.wrap('FT'), MF + 'inv_fourier_transform': s.wrap('IFT'), MF + 'apply_assignment_compensation': s.wrap('COMP'),
                  MF + 'apply_wide_angle_pow_law_kernel': s.wrap('WA'),
                  MF + 'inv_fourier_transform_ylm_wgtd_field_band_limited': s.band, MF + 'inv_fourier_transform_sjl_ylm_wgtd_field': s.sjl,
                  SH + 'fourier_space': s.grid('fourier'), SH + 'config_space': s.grid('config'),
                  FS + 'compute_ylm_wgtd_2pt_stats_in_fourier': s.binned3,
                  FS + 'compute_uncoupled_shotnoise_for_bispec_per_bin': s.bin_shot, FS + 'compute_uncoupled_shotnoise_for_3pcf': s.cfg_shot,
                  'trv::calc_ylm_wgtd_shotnoise_amp_for_bispec': s.amp, 'trv::calc_coupling_coeff_3pt': s.coup3,
                  'trv::validate_multipole_coupling': lambda X, st, th, a, e: None})
        return c


def remap(t, old, new):
    if t is old:
        return new
    if t.op == 'app':
        return app(t.a[0], tuple(remap(x, old, new) for x in t.a[1:]), t.s)
    return t


def setup(shape, deg):
    g = Ghost3()
    M = Machine(('threept', 'field', 'particles', 'parameters', 'maths'), contracts=g.table())
    s = M.state()
    for c in ('d', 'r'):
        s.mem[c] = M.X.sym('trv::ParticleCatalogue', c)
    for l in ('ld', 'lr'):
        s.mem[l] = SArr(('sym', l), (), 'trv::LineOfSight', I(l + '#len'), M.X)
    p = M.X.sym('trv::ParameterSet', 'p')
    for k, v in zip(('ell1', 'ell2', 'ELL'), deg):
        p = p.set(k, num(v, 'I'))
    s.mem['p'] = p.set('shape', lift(shape.rstrip('+-') if shape.startswith('off') else shape, 'S')).set('progbar', st('false'))
    s.mem['b'] = M.X.sym('trv::Binning', 'b')
    return M, s, g


# ---- the entries of a layout
def layout(shape):
    """(number of entries, row and column of entry DV, hypotheses)"""
    if shape == 'diag':
        return NB, DV, DV, []
    if shape == 'off-diag+':
        return NB - IDX, DV, DV + IDX, [le(ZI, IDX), lt(IDX, NB)]
    if shape == 'off-diag-':
        return NB + IDX, DV - IDX, DV, [lt(IDX, ZI), lt(neg(IDX), NB)]
    if shape == 'row':
        return NB, IDX, DV, [le(ZI, IDX), lt(IDX, NB)]
    if shape == 'full':
        return NB * NB, I('row'), I('col'), []
    # the rows tile the array (established by Exec.tiling): every entry has its row and column
    return idiv(NB * (NB + 1), num(2, 'I')), TRI[0], TRI[1], [between(0, TRI[0], NB), le(TRI[0], TRI[1]), lt(TRI[1], NB)]


def entry(shape):
    if shape == 'full':
        return I('row') * NB + I('col'), [between(0, I('row'), NB), between(0, I('col'), NB)]
    return DV, [between(0, DV, layout(shape)[0])]


KINDS = {'bispec': ('trv::compute_bispec', 'k', 'nmodes', 'bk'), '3pcf': ('trv::compute_3pcf', 'r', 'npairs', 'zeta'),
         'bispec box': ('trv::compute_bispec_in_gpp_box', 'k', 'nmodes', 'bk'), '3pcf box': ('trv::compute_3pcf_in_gpp_box', 'r', 'npairs', 'zeta'),
         'window': ('trv::compute_3pcf_window', 'r', 'npairs', 'zeta'), 'wide-angle window': ('trv::compute_3pcf_window', 'r', 'npairs', 'zeta')}


def expected(kind, shape, deg):
    l1, l2, L = deg
    idx, hyp = entry(shape)
    dim, row, col, h2 = layout(shape)
    bx, win, cfg = 'box' in kind, 'window' in kind, kind not in ('bispec', 'bispec box')
    al = R('alpha') if win else var('d.wstotal', 'R') / var('r.wstotal', 'R')
    nm = 'r|lr' if win else 'd|r|ld|lr'
    ap = lambda f, *a: app(f, tuple(a), 'R')
    if bx:
        f00 = ap('FT', ap('unweighted_field_fluctuations_insitu|d', ZI))
        n00 = ap('FT', ap('unweighted_field|d', ZI))
        d00 = dLM = f00
        nLM = n00
        gLM = ap('IFT', ap('COMP', f00))
        amp = app('amp', (toreal(var('d.ntotal', 'I')), ZR), 'R')
    else:
        f = lambda q, l, m=None: ap('FT', ap(q + '|' + nm, *([al, num(l, 'I')] + ([] if m is None else [num(m, 'I')]))))
        f00 = f('ylm_wgtd_field', 0, 0)
        d00, n00 = f('ylm_wgtd_field', 0), f('ylm_wgtd_quad_field', 0)
        dLM, nLM = f('ylm_wgtd_field', L), f('ylm_wgtd_quad_field', L)
        gLM = ap('IFT', ap('COMP', dLM))
        amp = app('amp|%s_re' % nm, (al, num(L, 'I')), 'R')
    if kind == 'wide-angle window':
        gLM = ap('WA', gLM)
    n1, n2 = num(l1, 'I'), num(l2, 'I')
    gh = Ghost3()
    B = lambda q: (app('b.bin_edges[]', (q,), 'R'), app('b.bin_edges[]', (q + 1,), 'R'))
    eff = (lambda q: app('eff_c', (q,), 'R')) if cfg else (lambda q: app('keff', B(q), 'R'))
    cnt = (lambda q: app('n_c', (q,), 'I')) if cfg else (lambda q: app('nmodes', B(q), 'I'))
    raw, sn = Cx(ZR, ZR), Cx(ZR, ZR)
    ph = {0: Cx(OR, ZR), 1: Cx(ZR, OR), 2: Cx(neg(OR), ZR), 3: Cx(ZR, neg(OR))}[(l1 + l2) % 4]
    for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
            for m in range(-L, L + 1):
                c = coupling(l1, l2, L, m1, m2, m)
                if c is ZR or bx and m:
                    continue
                mA = 0 if bx else m
                if cfg:
                    Fa = orient('J', (f00, n1, n1, eff(row), G), l1, m1)
                    Fb = orient('J', (f00, n2, n2, eff(col), G), l2, m2)
                else:
                    Fa = orient('F', (f00, n1) + B(row) + (G,), l1, m1)
                    Fb = orient('F', (f00, n2) + B(col) + (G,), l2, m2)
                X = orient('X', (gLM, G), 0, m)
                t = Fa * Fb * X
                t = Cx(*[sum_(G, ZI, NM, q) for q in (t.re, t.im)]) * Cx(c, ZR)
                raw = raw + (ph * t if cfg else t)
                if cfg:
                    x = gh.canon('xs', (dLM, n00, n1, n2, amp), (m1, m2, m, 0, mA), 1, (row,))
                    d = ite(eq(row, col), c * (-1) ** (l1 + l2), ZR)
                    sn = sn + Cx(d * x.re, d * x.im)
                    continue
                if l1 == l2 == 0:
                    a = Cx(toreal(var('d.ntotal', 'I')), ZR) if bx else pair('amp|' + nm, (al, num(L, 'I'), num(m, 'I')))
                    sn = sn + Cx(c, ZR) * a
                for z, l, mm, bb in ((l2, l1, m1, row), (l1, l2, m2, col)):
                    if z == 0:
                        pk = gh.canon('pk', (d00, nLM, num(l, 'I')), (mm, 0, mA), (-1) ** l, (bb,))
                        no = gh.canon('sn', (amp, num(l, 'I')), (mm, mA), (-1) ** l, (bb,))
                        sn = sn + Cx(c, ZR) * (pk - no)
                S = gh.canon('S', (dLM, n00, n1, n2, n1, n2, amp), (m1, m2, mA, 0, mA), 1, (eff(row), eff(col)))
                sn = sn + ph * Cx(c, ZR) * S
    norm = R('norm')
    vol = var('mesh.vol_cell', 'R')
    return dict(idx=idx, hyp=hyp + h2, dim=dim, row=row, col=col, eff=eff, cnt=cnt, raw=Cx(norm * vol, ZR) * raw, sn=Cx(norm, ZR) * sn)


def unit(kind, shape, deg):
    fn, x, n, sig = KINDS[kind]

    def go(u):
        M, s, g = setup(shape, deg)
        if shape == 'triu':
            # row and column of an entry: the inverse of the documented index, whose rows tile the array
            i, j = I('row'), I('col')
            M.ctx.push(lt(ZI, NB))
            r = M.X.tiling(idiv((2 * NB - i + 1) * i, num(2, 'I')) + j - i, DV, [(i, ZI, NB), (j, i, NB)])
            u.true('the triangular index is a bijection onto its range', r is not None)
            TRI[:] = [r[0][i], r[0][j]]
        if shape == 'full':
            i, j = I('row'), I('col')
            M.ctx.push(lt(ZI, NB))
            u.true('the full index is a bijection onto its range', M.X.tiling(i * NB + j, DV, [(i, ZI, NB), (j, ZI, NB)]) is not None)
        w = expected(kind, shape, deg)
        pre = [lt(ZI, NB), lt(ZI, NM)] + w['hyp']
        M.ctx.push(and_(*(pre[:2] + layout(shape)[3])))
        if 'box' in kind:
            args = [Loc('d'), Loc('p'), Loc('b'), R('norm')]
        elif 'window' in kind:
            args = [Loc('r'), Ptr('lr', (), ZI), Loc('p'), Loc('b'), R('alpha'), R('norm'), TRUE if 'wide' in kind else FALSE]
        else:
            args = [Loc('d'), Loc('r'), Ptr('ld', (), ZI), Ptr('lr', (), ZI), Loc('p'), Loc('b'), R('norm')]
        frame = {q: s.mem[q] for q in ('d', 'r', 'b', 'p')}
        v = M.run(fn, s, None, args)
        u.fn(fn)
        M.ctx.push(and_(*w['hyp']))
        names = [x + '1_bin', x + '2_bin', x + '1_eff', x + '2_eff', n + '_1', n + '_2', sig + '_raw', sig + '_shot']
        for q in names:
            u.eq('%s has the documented number of entries' % q, v.get(q).ln, w['dim'], pre)
        u.eq('number of entries', v.get('dim'), w['dim'], pre)
        def at(q):
            x = v.get(q).read((w['idx'],))
            return Cx(M.X.settle(x.re), M.X.settle(x.im)) if isinstance(x, Cx) else M.X.settle(x)
        cen = lambda q: app('b.bin_centres[]', (q,), 'R')
        for q, z in (('1', w['row']), ('2', w['col'])):
            u.eq('bin centre ' + q, at(x + q + '_bin'), cen(z), pre)
            u.eq('effective coordinate ' + q, at(x + q + '_eff'), w['eff'](z), pre)
            u.eq('count ' + q, at(n + '_' + q), w['cnt'](z), pre)
        in_bounds(u, M, pre + [eq(NB, I('b.bin_centres#len')), eq(NB + 1, I('b.bin_edges#len'))])
        p0 = M.X.sym('trv::ParameterSet', 'p')
        u.true('meshes and statistics use the given parameter set', g.prm and all(repr(o.get(k)) == repr(p0.get(k)) for _, o in g.prm for k in ('ngrid', 'boxsize', 'assignment', 'interlace', 'i_wa', 'j_wa')), repr(g.prm)[:300])
        u.true('the given bins are used', all(n is NB and e.base == ('sym', 'b.bin_edges') and not e.writes for n, e in g.bins), repr(g.bins)[:300])
        u.true('catalogues, lines of sight, parameters and bins are not modified', not any(isinstance(q, tuple) and q[0] == 'sym' and s.mem[q].writes for q in s.mem)
               and not s.mem['ld'].writes and not s.mem['lr'].writes and all(repr(y) == repr(frame[q].get(x)) for q in frame for x, y in s.mem[q].f.items()))
        for q, k in ((sig + '_raw', 'raw'), (sig + '_shot', 'sn')):
            t = at(q)
            u.eq(q + ', real part', t.re, w[k].re, pre)
            u.eq(q + ', imaginary part', t.im, w[k].im, pre)
    return go


DEGS = [(0, 0, 0), (1, 1, 0), (2, 0, 2), (0, 1, 1), (1, 1, 2), (1, 2, 1), (0, 2, 2), (2, 2, 0)]
UNITS = [('%s %s %d%d%d' % ((k, sh) + d), unit(k, sh, d)) for k in KINDS for sh in SHAPES for d in DEGS]
UNITS += [('amplitude %d' % n, (lambda n: lambda u: amp_unit(u, 'trv::calc_ylm_wgtd_shotnoise_amp_for_bispec', n, 3, 'threept'))(n)) for n in (7, 5)]


def replay(r):
    import numpy as np
    import cxx, oracle, est

    def body(t):
        L = cxx.lib()
        rng = np.random.default_rng(1000 * r.seed + t)
        q = type(r)()
        out = np.zeros(2)
        degs = [(0, 0, 0), (1, 1, 0), (2, 0, 2), (0, 1, 1), (1, 1, 2), (0, 2, 2), (1, 2, 1), (2, 2, 0), (1, 2, 3), (2, 1, 1), (0, 3, 3), (1, 0, 1)]
        shapes = ['diag', 'off-diag', 'row', 'full', 'triu']
        for rep in range(24 if r.tier == 'thorough' else 4):
            B, n, sch, cats, ((cd, ld, sd), (cr, lr, sr)) = world(rng, cxx, np)
            deg = degs[(t + 8 * rep) % len(degs)] if rep < 3 else degs[int(rng.integers(len(degs)))]
            L.threads(int(rng.integers(1, 6)))
            m = est.Mesh(B, n, sch, False)
            norm = float(rng.uniform(.01, 4))
            what = 'mesh %s box %s %s degrees %s %d data %d randoms' % (n.tolist(), np.round(B, 3).tolist(), sch, deg, len(cats[0][0]), len(cats[1][0]))
            d0 = [cxx.cat_data(c) for c in (cd, cr)]
            al = sd / sr
            alw = float(rng.uniform(.1, 2))
            l = deg[2]
            mm = int(rng.integers(-l, l + 1))
            L.sn_amp(1, cd, cr, ld, lr, alw, l, mm, out)
            q.close('shot-noise amplitude', out[0] + 1j * out[1], m.amp(l, mm, cats, alw, 3), what + ' m=%d alpha=%g' % (mm, alw), 1e-9, 1e-9)
            L.sn_amp(1, cd, None, ld, None, alw, l, mm, out)
            q.close('shot-noise amplitude, one catalogue', out[0] + 1j * out[1], m.amp(l, mm, cats[:1], alw, 3), what + ' m=%d alpha=%g' % (mm, alw), 1e-9, 1e-9)
            for kind in KINDS:
                sp = 'fourier' if 'bispec' in kind else 'config'
                x = m.k if sp == 'fourier' else m.x
                nb = int(rng.integers(2, 6))
                e = est.edges_for(rng, x, [x] if sp == 'fourier' else [oracle.fine(x, 1.)], nb, sp == 'config')
                nb = len(e) - 1
                b = cxx.binning(sp, e)
                cen = cxx.bins_of(b)['centres']
                win = 'window' in kind
                wa = (int(rng.integers(0, 3)), int(rng.integers(0, 3)))
                args = ((m, cats[1:], alw) if win else (m, cats, al)) + (deg, e, cen, norm, sp)
                want = est.threept(*args, box='box' in kind, wide=wa if 'wide' in kind else None)
                for shape in shapes:
                    idx = int(rng.integers(0, nb)) if shape == 'row' else int(rng.integers(1 - nb, nb)) if shape == 'off-diag' else 0
                    p = cxx.params(boxsize=B, ngrid=n, assignment=sch, interlace='false', ell1=deg[0], ell2=deg[1], ELL=deg[2], num_bins=nb, shape=shape, idx_bin=idx,
                                   i_wa=wa[0], j_wa=wa[1], space=sp, npoint='3pt', catalogue_type='random' if win else 'sim' if 'box' in kind else 'survey')
                    if win:
                        L.st_3pcfwin(cr, lr, p, b, alw, norm, int('wide' in kind))
                    elif 'box' in kind:
                        (L.st_bispec if sp == 'fourier' else L.st_3pcf)(cd, None, None, None, p, b, norm)
                    else:
                        (L.st_bispec if sp == 'fourier' else L.st_3pcf)(cd, cr, ld, lr, p, b, norm)
                    o = cxx.outputs(['bin1', 'bin2', 'eff1', 'eff2', 'n1', 'n2', '*raw', '*shot'])
                    rc = np.array(est.entries(shape, nb, idx))
                    R_, C_ = rc[:, 0], rc[:, 1]
                    wh = what + ' %s%s %s%s norm=%g edges %s' % (kind, str(wa) if 'wide' in kind else '', shape, ' %d' % idx if idx else '', norm, e.tolist())
                    ok = o['dim'] == len(rc) and all(len(o[z]) == len(rc) for z in o if z != 'dim')
                    q.case('number of entries', ok, wh + ': dim=%s, column lengths %s, %d entries expected' % (o['dim'], [len(o[z]) for z in o if z != 'dim'], len(rc)))
                    if ok:
                        q.close('bin centres, row', o['bin1'], cen[R_], wh, 0, 0)
                        q.close('bin centres, column', o['bin2'], cen[C_], wh, 0, 0)
                        q.close('counts, row', o['n1'], want[0][R_], wh, 0, 0)
                        q.close('counts, column', o['n2'], want[0][C_], wh, 0, 0)
                        q.close('effective coordinates, row', o['eff1'], want[1][R_], wh, 1e-9, 1e-12)
                        q.close('effective coordinates, column', o['eff2'], want[1][C_], wh, 1e-9, 1e-12)
                        for z, k, s in (('signal', 0, want[3]), ('shot noise', 1, max(want[4], 1e-300))):
                            got = o['shot' if k else 'raw'] / s
                            ws = [c[k][R_, C_] / s for c in want[2]]
                            q.close(z, got, min(ws, key=lambda x: np.abs(got - x).max()), wh, 1e-5, 1e-6, 1.)
                    L.p_free(p)
                L.b_free(b)
            for c, c0 in zip((cd, cr), d0):
                q.close('catalogues kept', cxx.cat_data(c), c0, what + ' catalogue after the measurements', 0, 0)
            L.c_free(cd), L.c_free(cr)
        return q
    for o in cxx.pmap(body, range(8)):
        absorb(r, o)
