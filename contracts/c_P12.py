"""P12: catalogue geometry operations move particles as stated (particles.cpp)."""
from meshlib import *

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals; std::fmod(x, y) is x minus a whole multiple of y, of the sign of x and below y in size',
           'OpenMP reductions combine the per-thread values (the annotated loops write disjoint elements)',
           'reading a catalogue from a file is not under contract (the text input layer is outside the verifier): covered by replay only']
C = 'trv::ParticleCatalogue::'
PID = var('pid', 'I')
AX = [num(a, 'I') for a in range(3)]


def N_(c): return var(c + '.ntotal', 'I')
def pos(c, i, a): return app(c + '.pdata*[].pos[]', (i, AX[a]), 'R')
def lowest(c, a, f=lambda t: t): return binder('minf', var('q', 'I'), ZI, N_(c), f(pos(c, var('q', 'I'), a)), 'R')
def highest(c, a, f=lambda t: t): return binder('maxf', var('q', 'I'), ZI, N_(c), f(pos(c, var('q', 'I'), a)), 'R')


# laws of the least and greatest value of a non-empty list (definition of minf / maxf)
def attained(c, a):
    """some particle attains each extent, none lies beyond"""
    j, k = I('jmin_%s%d' % (c, a)), I('jmax_%s%d' % (c, a))
    return [between(0, j, N_(c)), between(0, k, N_(c)), eq(lowest(c, a), pos(c, j, a)), eq(highest(c, a), pos(c, k, a)),
            le(lowest(c, a), highest(c, a))]


def setup(*cats):
    M = Machine(('particles',))
    s = M.state()
    for c in cats:
        s.mem[c] = M.X.sym('trv::ParticleCatalogue', c)
    pre = [lt(ZI, N_(c)) for c in cats]
    M.ctx.push(and_(*pre))
    return M, s, pre


def pd(M, s, c, i, *path):
    p = M.read(s, Loc(c), 'pdata')
    return M.read(s, Loc(p.root, p.path), add(p.idx, i) if p.idx is not None else i, *path)


def unmoved(u, M, s, c, pre, h):
    for f in ('nz', 'ws', 'wc', 'w'):
        u.eq('frame: %s of every particle of %s' % (f, c), pd(M, s, c, PID, f), app('%s.pdata*[].%s' % (c, f), (PID,), 'R'), h)
    for f, k in (('ntotal', 'I'), ('wtotal', 'R'), ('wstotal', 'R')):
        u.eq('frame: %s of %s' % (f, c), M.read(s, Loc(c), f), var('%s.%s' % (c, f), k), pre)


def extents(u, M, s, c, pre, tag='', f=lambda a: (lambda t: t)):
    for a in range(3):
        lo, hi = lowest(c, a, f(a)), highest(c, a, f(a))
        u.eq('%slower extent of %s, axis %d' % (tag, c, a), M.read(s, Loc(c), 'pos_min', a), lo, pre)
        u.eq('%supper extent of %s, axis %d' % (tag, c, a), M.read(s, Loc(c), 'pos_max', a), hi, pre)
        u.eq('%sspan of %s, axis %d' % (tag, c, a), M.read(s, Loc(c), 'pos_span', a), hi - lo, pre)


def unit_extents(u):
    M, s, pre = setup('c')
    u.satisfiable('catalogue', pre)
    M.run(C + 'calc_pos_extents', s, Loc('c'), [R('init') if False else FALSE])
    u.fn(C + 'calc_pos_extents')
    extents(u, M, s, 'c', pre)
    h = pre + [between(0, PID, N_('c'))]
    unmoved(u, M, s, 'c', pre, h)
    for a in range(3):
        u.eq('frame: position, axis %d' % a, pd(M, s, 'c', PID, 'pos', AX[a]), pos('c', PID, a), h)
    u.holds('no exception', not_(M.throw_cond()), pre)


def unit_totals(u):
    M, s, pre = setup('c')
    M.run(C + 'calc_total_weights', s, Loc('c'), [])
    u.fn(C + 'calc_total_weights')
    for f, k in (('wtotal', 'w'), ('wstotal', 'ws')):
        u.eq(f, M.read(s, Loc('c'), f), sum_(PID, ZI, N_('c'), app('c.pdata*[].' + k, (PID,), 'R')), pre)
    h = pre + [between(0, PID, N_('c'))]
    for f in ('nz', 'ws', 'wc', 'w'):
        u.eq('frame: ' + f, pd(M, s, 'c', PID, f), app('c.pdata*[].' + f, (PID,), 'R'), h)
    for a in range(3):
        u.eq('frame: position, axis %d' % a, pd(M, s, 'c', PID, 'pos', AX[a]), pos('c', PID, a), h)
    u.holds('no exception', not_(M.throw_cond()), pre)


def moved(u, M, s, c, pre, v, tag=''):
    """every particle of c moved by -v, extents refreshed"""
    h = pre + [between(0, PID, N_(c))]
    for a in range(3):
        u.eq('%sparticles of %s move by the stated vector, axis %d' % (tag, c, a), pd(M, s, c, PID, 'pos', AX[a]), pos(c, PID, a) - v[a], h)
    extents(u, M, s, c, pre, tag, lambda a: (lambda t: t - v[a]))
    unmoved(u, M, s, c, pre, h)


def unit_offset(u):
    M, s, pre = setup('c')
    v = [R('v%d' % a) for a in range(3)]
    s.mem['v'] = FixArr(v)
    M.run(C + 'offset_coords', s, Loc('c'), [Ptr('v', (), ZI)])
    u.fn(C + 'offset_coords')
    moved(u, M, s, 'c', pre, v)
    u.holds('no exception', not_(M.throw_cond()), pre)


def args(s, grid):
    L = [R('L%d' % a) for a in range(3)]
    s.mem['L'] = FixArr(L)
    out = [Ptr('L', (), ZI)]
    n = [I('n%d' % a) for a in range(3)]
    f = [R('f%d' % a) for a in range(3)]
    s.mem['n'], s.mem['f'] = FixArr(n), FixArr(f)
    if grid == 'grids':
        out.append(Ptr('n', (), ZI))
    if grid != 'centre':
        out.append(Ptr('f', (), ZI))
    return L, n, f, out


FN = {'centre': 'centre_in_box', 'box': 'pad_in_box', 'grids': 'pad_grids'}


def unit_align(kind, joint):
    def go(u):
        cats = ('c', 'r') if joint else ('c',)
        M, s, pre = setup(*cats)
        L, n, f, a = args(s, kind)
        pre = pre + [lt(ZR, x) for x in L] + [lt(ZI, x) for x in n]
        M.ctx.push(and_(*pre))
        M.run(C + FN[kind], s, None, [Loc(c) for c in cats] + a, len(cats) + len(a))
        u.fn(C + FN[kind] + ('(pair)' if joint else '(single)'))
        ref = cats[-1]
        if kind == 'centre':
            v = [(lowest(ref, q) + highest(ref, q)) / 2 - L[q] / 2 for q in range(3)]
        elif kind == 'box':
            v = [lowest(ref, q) - f[q] * L[q] for q in range(3)]
        else:
            v = [lowest(ref, q) - f[q] * L[q] / toreal(n[q]) for q in range(3)]
        for c in cats:
            moved(u, M, s, c, pre, v)
        # where the reference ends up, from the laws of the extents
        for q in range(3):
            lo, hi = M.read(s, Loc(ref), 'pos_min', q), M.read(s, Loc(ref), 'pos_max', q)
            laws = pre + attained(ref, q)
            # the least (greatest) of shifted values is the shifted least (greatest)
            laws += [eq(lowest(ref, q, lambda t: t - v[q]), lowest(ref, q) - v[q]), eq(highest(ref, q, lambda t: t - v[q]), highest(ref, q) - v[q])]
            if kind == 'centre':
                u.eq('the reference is centred at mid-box, axis %d' % q, (lo + hi) / 2, L[q] / 2, laws)
            elif kind == 'box':
                u.eq('lower extent at the padding, axis %d' % q, lo, f[q] * L[q], laws)
            else:
                u.eq('lower extent at the padding, axis %d' % q, lo, f[q] * L[q] / toreal(n[q]), laws)
        u.holds('no exception', not_(M.throw_cond()), pre)
    return go


def unit_periodic(u):
    M, s, pre = setup('c')
    L = [R('L%d' % a) for a in range(3)]
    s.mem['L'] = FixArr(L)
    pre = pre + [lt(ZR, x) for x in L]
    M.ctx.push(and_(*pre))
    M.run(C + 'offset_coords_for_periodicity', s, Loc('c'), [Ptr('L', (), ZI)])
    u.fn(C + 'offset_coords_for_periodicity')
    h = pre + [between(0, PID, N_('c'))]
    for a in range(3):
        new, old, fm = pd(M, s, 'c', PID, 'pos', AX[a]), pos('c', PID, a), app('fmod', (pos('c', PID, a), L[a]), 'R')
        K = I('K%d' % a)
        law = h + [eq(fm, old - toreal(K) * L[a]), implies(le(ZR, old), and_(le(ZR, fm), lt(fm, L[a]))), implies(lt(old, ZR), and_(lt(neg(L[a]), fm), le(fm, ZR)))]
        u.holds('inside the box: not below, axis %d' % a, le(ZR, new), law)
        u.holds('inside the box: below its length, axis %d' % a, lt(new, L[a]), law)
        u.holds('moved by whole box lengths, axis %d' % a, or_(eq(new, old), eq(new, old - toreal(K) * L[a]), eq(new, old - (toreal(K) - 1) * L[a])), law)
        u.holds('particles inside stay, axis %d' % a, eq(new, old), law + [le(ZR, old), lt(old, L[a])])
        q = var('q', 'I')
        u.eq('lower extent, axis %d' % a, M.read(s, Loc('c'), 'pos_min', a), binder('minf', q, ZI, N_('c'), pd(M, s, 'c', q, 'pos', AX[a]), 'R'), pre)
        u.eq('upper extent, axis %d' % a, M.read(s, Loc('c'), 'pos_max', a), binder('maxf', q, ZI, N_('c'), pd(M, s, 'c', q, 'pos', AX[a]), 'R'), pre)
        u.eq('span, axis %d' % a, M.read(s, Loc('c'), 'pos_span', a), M.read(s, Loc('c'), 'pos_max', a) - M.read(s, Loc('c'), 'pos_min', a), pre)
    unmoved(u, M, s, 'c', pre, h)
    u.holds('no exception', not_(M.throw_cond()), pre)


def unit_load(u):
    M = Machine(('particles',))
    s = M.state()
    s.mem['c'] = M.X.sym('trv::ParticleCatalogue', 'c').set('pdata', NULL)
    names = ('x', 'y', 'z', 'nz', 'ws', 'wc')
    vs = [M.X.sym('std::vector<double>', q) for q in names]
    n = var('x#len', 'I')
    pre = [lt(ZI, n)] + [eq(var(q + '#len', 'I'), n) for q in names[1:]]
    M.ctx.push(and_(lt(ZI, n)))
    M.run(C + 'load_particle_data', s, Loc('c'), vs)
    in_bounds(u, M, pre)
    u.fn(C + 'load_particle_data', C + 'initialise_particles', C + 'reset_particles')
    u.eq('number of particles', M.read(s, Loc('c'), 'ntotal'), n, pre)
    h = pre + [between(0, PID, n)]
    col = lambda q, i: vs[names.index(q)].read((i,))
    for a in range(3):
        u.eq('position, axis %d' % a, pd(M, s, 'c', PID, 'pos', AX[a]), col('xyz'[a], PID), h)
        q = var('q', 'I')
        u.eq('lower extent, axis %d' % a, M.read(s, Loc('c'), 'pos_min', a), binder('minf', q, ZI, n, col('xyz'[a], q), 'R'), pre)
        u.eq('upper extent, axis %d' % a, M.read(s, Loc('c'), 'pos_max', a), binder('maxf', q, ZI, n, col('xyz'[a], q), 'R'), pre)
    for f in ('nz', 'ws', 'wc'):
        u.eq(f, pd(M, s, 'c', PID, f), col(f, PID), h)
    u.eq('overall weight', pd(M, s, 'c', PID, 'w'), col('ws', PID) * col('wc', PID), h)
    u.eq('total weight', M.read(s, Loc('c'), 'wtotal'), sum_(PID, ZI, n, col('ws', PID) * col('wc', PID)), pre)
    u.eq('total sample weight', M.read(s, Loc('c'), 'wstotal'), sum_(PID, ZI, n, col('ws', PID)), pre)
    t = M.throw_cond()
    for q in names[1:]:
        u.holds('uneven columns are rejected (%s)' % q, t, [lt(ZI, n), not_(eq(var(q + '#len', 'I'), n))])
    u.holds('even columns are accepted', not_(t), pre)
    M = Machine(('particles',))
    s = M.state()
    s.mem['c'] = M.X.sym('trv::ParticleCatalogue', 'c').set('pdata', NULL)
    k = I('k')
    M.run(C + 'initialise_particles', s, Loc('c'), [k])
    u.fn(C + 'initialise_particles')
    u.holds('an empty catalogue is rejected', M.throw_cond(), [le(k, ZI)])
    u.holds('any other number is accepted', not_(M.throw_cond()), [lt(ZI, k)])


def unit_null(u):
    for fn in ('calc_total_weights', 'calc_pos_extents', 'offset_coords'):
        M = Machine(('particles',))
        s = M.state()
        s.mem['c'] = M.X.sym('trv::ParticleCatalogue', 'c').set('pdata', NULL)
        s.mem['v'] = FixArr([ZR] * 3)
        a = {'calc_total_weights': [], 'calc_pos_extents': [FALSE], 'offset_coords': [Ptr('v', (), ZI)]}[fn]
        u.true('%s rejects uninitialised particles' % fn, M.never_returns(C + fn, s, Loc('c'), a))


UNITS = ([('extents', unit_extents), ('totals', unit_totals), ('offset', unit_offset), ('periodic', unit_periodic), ('load', unit_load), ('uninitialised', unit_null)]
         + [('%s %s' % (FN[k], 'pair' if j else 'single'), unit_align(k, j)) for k in FN for j in (False, True)])


def replay(r):
    import numpy as np, os, tempfile
    import cxx
    thorough = r.tier == 'thorough'

    def sums(L, c):
        o = np.zeros(11)
        L.c_sums(c, o)
        return o

    def body(t):
        L = cxx.lib()
        rng = np.random.default_rng(4242 * r.seed + t)
        q = type(r)()

        def check(key, c, want, what, tol=1e-12):
            got = cxx.cat_data(c)
            sc = max(1., np.abs(want).max())
            q.close(key + ': positions', got[:, :3], want[:, :3], what, 1e-13, tol, sc)
            q.case(key + ': weights untouched', (got[:, 3:] == want[:, 3:]).all(), what)
            o = sums(L, c)
            p = got[:, :3]
            q.case(key + ': extents refreshed', (o[2:5] == p.min(0)).all() and (o[5:8] == p.max(0)).all() and (o[8:] == p.max(0) - p.min(0)).all(), '%s: %s' % (what, o.tolist()))
            q.close(key + ': total weight', o[0], want[:, 6].sum(), what, 1e-12, 1e-13, np.abs(want[:, 6]).sum())
            q.close(key + ': total sample weight', o[1], want[:, 4].sum(), what, 1e-12, 1e-13, np.abs(want[:, 4]).sum())
            return got

        def make(n, spread):
            x = rng.uniform(-1, 1, (n, 3)) * spread * 10 ** rng.uniform(-1, 1, 3) + rng.normal(size=3) * spread
            if n > 2 and rng.random() < .3:
                x[rng.integers(n)] = x[rng.integers(n)]
            w = [rng.uniform(0, 2, n) * (rng.random(n) > .1) for _ in range(3)]
            c = cxx.catalogue(x, *w)
            d = np.column_stack([x] + w + [w[1] * w[2]])
            q.case('loaded', (cxx.cat_data(c) == d).all(), '%d particles' % n)
            return c, d

        def place(key, c, rf, want, wantr, v, what):
            for cc, ww in ((c, want), (rf, wantr)) if rf is not c else ((c, want),):
                ww = ww.copy()
                ww[:, :3] -= v
                check(key, cc, ww, what, 4e-13)

        for rep in range(60 if thorough else 25):
            n = int(rng.choice([1, 2, 3, 17, 400]))
            L.threads(int(rng.integers(1, 9)))
            c, d = make(n, 10 ** rng.uniform(-2, 4))
            f, e = make(int(rng.choice([1, 5, 300])), 10 ** rng.uniform(-2, 4))
            box = rng.uniform(5, 3000, 3)
            mesh = rng.integers(2, 200, 3)
            pad = rng.uniform(0, 3, 3) * (rng.random() > .2)
            for step in range(6):
                op = int(rng.integers(0, 9))
                d, e = cxx.cat_data(c), cxx.cat_data(f)
                what = 'step %d of %d, %d and %d particles, box %s' % (step, op, len(d), len(e), box.tolist())
                lo, hi = d[:, :3].min(0), d[:, :3].max(0)
                rlo, rhi = e[:, :3].min(0), e[:, :3].max(0)
                A, Ai = cxx.A, (lambda z: cxx.A(z, np.int32))
                if op == 0:
                    v = rng.normal(size=3) * box
                    L.c_offset(c, A(v))
                    place('offset', c, c, d, d, v, what)
                elif op in (1, 2):
                    L.c_periodic(c, A(box))
                    got = cxx.cat_data(c)
                    q.case('periodic: inside the half-open box', ((got[:, :3] >= 0) & (got[:, :3] < box)).all(), what)
                    k = (got[:, :3] - d[:, :3]) / box
                    q.close('periodic: whole box lengths', k, np.round(k), what, 0, 1e-9, 1 + np.abs(d[:, :3] / box).max())
                    ins = (d[:, :3] >= 0) & (d[:, :3] < box)
                    q.case('periodic: particles inside stay', (got[:, :3] == d[:, :3])[ins].all(), what)
                    w = d.copy()
                    w[:, :3] = got[:, :3]
                    check('periodic', c, w, what)
                elif op == 3:
                    L.c_centre1(c, A(box))
                    place('centring', c, c, d, d, (lo + hi) / 2 - box / 2, what)
                elif op == 4:
                    L.c_centre2(c, f, A(box))
                    place('joint centring', c, f, d, e, (rlo + rhi) / 2 - box / 2, what)
                elif op == 5:
                    L.c_pad1(c, A(box), A(pad))
                    place('padding', c, c, d, d, lo - pad * box, what)
                elif op == 6:
                    L.c_pad2(c, f, A(box), A(pad))
                    place('joint padding', c, f, d, e, rlo - pad * box, what)
                elif op == 7:
                    L.c_padg1(c, A(box), Ai(mesh), A(pad))
                    place('grid padding', c, c, d, d, lo - pad * box / mesh, what)
                else:
                    L.c_padg2(c, f, A(box), Ai(mesh), A(pad))
                    place('joint grid padding', c, f, d, e, rlo - pad * box / mesh, what)
            L.c_free(c), L.c_free(f)
        # catalogues inside the closed box, with particles on its faces
        for B in (1., 100., 1234.5):
            for xs in ([B, 0.5 * B, 0.], [0.25 * B, B], [B], [np.nextafter(B, 0), B, 0.75 * B, -0.]):
                for ax in range(3):
                    x = np.full((len(xs), 3), 0.5 * B)
                    x[:, ax] = xs
                    c = cxx.catalogue(x)
                    L.c_periodic(c, cxx.A([B] * 3))
                    g = cxx.cat_data(c)[:, :3]
                    q.case('periodic: faces', ((g >= 0) & (g < B)).all() and np.array_equal(g, np.where(x == B, 0., x)), 'box %r: %r goes to %r' % (B, x.tolist(), g.tolist()))
                    L.c_free(c)
        # box boundaries and whole multiples, large coordinates, tiny negatives
        for B in (1., 100., 0.1, 1234.5, 1e-3):
            xs = [0., -0., B, -B, 2 * B, -2 * B, 7 * B, -7 * B, np.nextafter(B, 0), np.nextafter(B, 2 * B), -np.nextafter(B, 0), -1e-18 * B, -1e-17, -5e-324, 5e-324, 0.5 * B, -0.5 * B, 1.5 * B, -1.5 * B, 1e9 * B, -1e9 * B + 0.25 * B, -1e6 * B]
            rng.shuffle(xs)
            x = np.column_stack([xs, xs[::-1], np.roll(xs, 3)])
            c = cxx.catalogue(x)
            L.c_periodic(c, cxx.A([B] * 3))
            g = cxx.cat_data(c)[:, :3]
            bad = ~((g >= 0) & (g < B))
            q.case('periodic: boundaries', not bad.any(), 'box %r: %r goes to %r' % (B, x[bad][:3].tolist(), g[bad][:3].tolist()))
            o = sums(L, c)
            q.case('periodic: boundaries, extents', (o[2:5] == g.min(0)).all() and (o[5:8] == g.max(0)).all(), 'box %r' % B)
            L.c_free(c)
        # reading from file: columns by name in any order, defaults for the missing ones
        T = tempfile.mkdtemp()
        for rep in range(12):
            cols = ['x', 'y', 'z'] + [k for k in ('nz', 'ws', 'wc') if rng.random() < .6] + (['other'] if rng.random() < .5 else [])
            rng.shuffle(cols)
            n = int(rng.integers(1, 30))
            tab = rng.uniform(0, 9, (n, len(cols)))
            vol = float(rng.choice([0., 50.]))
            cut = n if n < 4 or rng.random() < .5 else int(rng.integers(1, n))
            fs = []
            for k, part in enumerate((tab[:cut], tab[cut:])):
                if len(part):
                    fs.append(os.path.join(T, 'f%d_%d_%d.dat' % (t, rep, k)))
                    with open(fs[-1], 'w') as h:
                        h.write('# a comment\n')
                        for i, row in enumerate(part):
                            h.write(' '.join('%.17g' % v for v in row) + '\n' + ('\n' if i % 5 == 2 else '') + ('# more\n' if i % 7 == 3 else ''))
            c = cxx.H(L.c_new())
            L.c_file(c, '::'.join(fs), ','.join(cols), vol)
            want = np.ones((n, 7))
            want[:, 3] = n / vol if vol else 0.
            for a, k in enumerate(('x', 'y', 'z', 'nz', 'ws', 'wc')):
                if k in cols:
                    want[:, a] = tab[:, cols.index(k)]
            want[:, 6] = want[:, 4] * want[:, 5]
            check('file', c, want, 'columns %s' % cols, 1e-15)
            L.c_free(c)
        import shutil
        shutil.rmtree(T)
        for what, f in (('uneven columns', lambda: L.c_load_uneven(cxx.H(L.c_new()), cxx.A([3, 3, 3, 3, 2, 3], np.int32), np.zeros(40))),
                        ('offset of uninitialised', lambda: L.c_offset(cxx.H(L.c_new()), np.zeros(3))), ('extents of uninitialised', lambda: L.c_extents(cxx.H(L.c_new()), 0)),
                        ('totals of uninitialised', lambda: L.c_weights(cxx.H(L.c_new()))), ('periodic wrapping of uninitialised', lambda: L.c_periodic(cxx.H(L.c_new()), np.ones(3))),
                        ('no particles', lambda: L.c_initialise(cxx.H(L.c_new()), 0)), ('missing file', lambda: L.c_file(cxx.H(L.c_new()), '/nonexistent/file', 'x,y,z', 0.))):
            try:
                f()
                ok = False
            except cxx.Raised:
                ok = True
            q.case('rejected', ok, what)
        return q

    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
