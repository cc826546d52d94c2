"""P11: coupling coefficients, reduced harmonics and spherical Bessel evaluation (maths.cpp, twopt.cpp, threept.cpp)."""
from meshlib import *
import itertools

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals; sin, cos, acos, sqrt are the real functions',
           'GSL: gsl_sf_coupling_3j is the Wigner symbol of half its integer arguments, gsl_sf_legendre_sphPlm the normalised associated Legendre function '
           'with the Condon-Shortley phase, gsl_sf_bessel_jl the spherical Bessel function, gsl_spline_* natural cubic splines (all four are compared with independent formulae in the replay)']
SH = 'trv::maths::SphericalHarmonicCalculator::'
SB = 'trv::maths::SphericalBesselCalculator'
Y = SH + 'calc_reduced_spherical_harmonic'


def W3(a, b, c, d, e, f):
    return app('wigner3j', tuple(lift(x, 'I') for x in (a, b, c, d, e, f)), 'R')


# contract of wigner_3j (discharged in unit_w3j): the symbol of its six arguments
C3 = {'trv::maths::wigner_3j': lambda s, st, th, a, e: W3(*a)}


def unit_w3j(u):
    M = Machine(('maths',))
    j = [I('j%d' % q) for q in range(3)] + [I('m%d' % q) for q in range(3)]
    got = M.run('trv::maths::wigner_3j', M.state(), None, j)
    u.fn('trv::maths::wigner_3j')
    u.eq('GSL is asked for the symbol of the given degrees and orders (it counts in halves)', got, app('gsl_sf_coupling_3j', tuple(2 * x for x in j), 'R'))


def unit_c2(u):
    l, L, m, K = I('ell'), I('ELL'), I('m'), I('M')
    M = Machine(('twopt',), contracts=C3)
    got = M.run('trv::calc_coupling_coeff_2pt', M.state(), None, [l, L, m, K])
    u.fn('trv::calc_coupling_coeff_2pt')
    u.eq('coefficient', got, toreal((2 * l + 1) * (2 * L + 1)) * W3(l, 0, L, 0, 0, 0) * W3(l, 0, L, m, 0, K))
    # the selection rules of the symbols carry over: a vanishing symbol gives a vanishing coefficient
    u.eq('vanishes with either symbol', got, ZR, [or_(eq(W3(l, 0, L, 0, 0, 0), ZR), eq(W3(l, 0, L, m, 0, K), ZR))])


def unit_c3(u):
    a, b, c, x, y, z = (I(q) for q in ('ell1', 'ell2', 'ELL', 'm1', 'm2', 'M'))
    M = Machine(('threept',), contracts=C3)
    got = M.run('trv::calc_coupling_coeff_3pt', M.state(), None, [a, b, c, x, y, z])
    u.fn('trv::calc_coupling_coeff_3pt')
    u.eq('coefficient', got, toreal((2 * a + 1) * (2 * b + 1) * (2 * c + 1)) * W3(a, b, c, 0, 0, 0) * W3(a, b, c, x, y, z))
    u.eq('vanishes with either symbol', got, ZR, [or_(eq(W3(a, b, c, 0, 0, 0), ZR), eq(W3(a, b, c, x, y, z), ZR))])


def unit_valid(u):
    M = Machine(('threept', 'maths'), contracts=C3)
    s = M.state()
    s.mem['p'] = M.X.sym('trv::ParameterSet', 'p')
    a, b, c = (var('p.' + q, 'I') for q in ('ell1', 'ell2', 'ELL'))
    M.run('trv::validate_multipole_coupling', s, None, [Loc('p')])
    u.fn('trv::validate_multipole_coupling')
    t, w = M.throw_cond(), W3(a, b, c, 0, 0, 0)
    eps = rn('1/1000000000')
    u.holds('a vanishing zero-order symbol is rejected', t, [eq(w, ZR)])
    u.holds('rejected when the symbol is below the tolerance', t, [lt(w, eps), lt(neg(eps), w)])
    u.holds('otherwise accepted', not_(t), [or_(le(eps, w), le(w, neg(eps)))])
    for q in ('ell1', 'ell2', 'ELL'):
        u.eq('frame: %s unchanged' % q, M.read(s, Loc('p'), q), var('p.' + q, 'I'))


V = [R('x'), R('y'), R('z')]
EPS = rn('1/1000000000')


def harmonic(pre, l, m, v=V):
    M = Machine(('maths',), pre)
    M.ctx.push(and_(*pre))
    s = M.state()
    s.mem['v'] = FixArr(list(v))
    got = M.run(Y, s, None, [l, m, Ptr('v', (), ZI)])
    return M, s, cx(got)


def unit_harmonic(sign, par):
    """y = sqrt(4 pi/(2l+1)) conj(Y), Y = (-1)^((m-|m|)/2) P_l^|m|(z/r) exp(i m phi)"""
    def go(u):
        l, h = I('ell'), I('h')
        M0 = 2 * h + par                      # |m|
        m = M0 if sign > 0 else neg(M0)
        pre = [le(ZI, h), le(M0, l), lt(ZI, l)] + ([lt(ZI, M0)] if sign < 0 else [])
        x, y, z = V
        M, s, got = harmonic(pre, l, m)
        u.fn(Y)
        r = M.X.sqrt(x * x + y * y + z * z)
        rxy = M.X.sqrt(x * x + y * y)
        P = app('gsl_sf_legendre_sphPlm', (l, M0, z / r), 'R')
        norm = M.X.sqrt(4 * PI / (2 * toreal(l) + 1))
        far = pre + [le(EPS, r), le(ZR, r), le(ZR, rxy)]
        ac = M.X.uf1('acos', x / rxy)
        flip = num(-1, 'R') if sign < 0 and par else OR
        at2 = app('atan2', (y, x), 'R')
        cases = {'above the x axis': ([le(EPS, rxy), le(ZR, y)], [ac, at2]),
                 'below the x axis': ([le(EPS, rxy), lt(y, ZR)], [2 * PI - ac, neg(ac), at2]),
                 'on the polar axis': ([lt(rxy, EPS)], [ZR])}
        for nm, (hy, phis) in cases.items():
            best = None
            for phi in phis:
                a = toreal(m) * phi
                want = Cx(M.X.uf1('cos', a), neg(M.X.uf1('sin', a))) * (flip * P * norm)
                ob = [Prover().prove_eq(p, q, far + hy) for p, q in ((got.re, want.re), (got.im, want.im))]
                if best is None or all(o.ok for o in ob):
                    best = ob
                if all(o.ok for o in ob):
                    break
            u.ob(nm + ': real part', best[0])
            u.ob(nm + ': imaginary part', best[1])
        u.satisfiable('off axis', far + [le(EPS, rxy), lt(y, ZR)])
        u.eq('the origin has no direction: zero', got, Cx(ZR, ZR), pre + [lt(r, EPS), le(ZR, r)])
        u.holds('no exception', not_(M.throw_cond()), pre)
        for a, (w, c) in enumerate(zip(V, 'xyz')):
            u.eq('frame: %s unchanged' % c, M.read(s, Loc('v'), a), w)
        # the azimuth used is that of the vector: cos phi = x / rxy, sin phi = y / rxy
        cosA, sinA, t = R('cosA'), R('sinA'), R('rxy')
        tri = [eq(cosA * t, x), le(ZR, sinA), eq(cosA * cosA + sinA * sinA, OR), eq(t * t, x * x + y * y), lt(ZR, t)]
        u.holds('acos(x / rxy) has sine |y| / rxy', eq(sinA * sinA * t * t, y * y), tri + [eq(cosA * cosA * t * t, x * x)])
        # conjugation symmetry in the order: both orders in one unit
        if sign > 0:
            pre2 = pre + [lt(ZI, M0), le(EPS, r), le(ZR, r)]
            _, _, neg_ = harmonic(pre + [lt(ZI, M0)], l, neg(M0))
            f = num(-1, 'R') if par else OR
            P_ = Prover()
            ph = R('phi')
            # trigonometric symmetry of the arguments used
            hs = []
            for ang in (ac, 2 * PI - ac, at2, ZR):
                for fn, sg in (('cos', 1), ('sin', -1)):
                    e1, e2 = M.X.uf1(fn, toreal(M0) * ang), M.X.uf1(fn, toreal(neg(M0)) * ang)
                    hs.append(eq(e2, e1 if sg > 0 else neg(e1)))
            for nm, (hy, phis) in cases.items():
                u.eq('%s: y_l,-m = (-1)^m conj(y_lm)' % nm, neg_, got.conj() * f, pre2 + hy + hs)
    return go


def unit_trivial(u):
    M, s, got = harmonic([], ZI, ZI)
    u.fn(Y)
    u.eq('y_00 is unity everywhere, the origin included', got, Cx(OR, ZR))


def unit_mag(u):
    for how in ('array', 'vector'):
        M = Machine(('maths',))
        s = M.state()
        s.mem['v'] = FixArr(list(V)) if how == 'array' else M.X.sym('std::vector<double>', 'w')
        x = V if how == 'array' else [s.mem['v'].read((num(q, 'I'),)) for q in range(3)]
        arg = Ptr('v', (), ZI) if how == 'array' else s.mem['v']
        node = [f for f in M.P.funcs['trv::maths::get_vec3d_magnitude'] if ('vector' in f.type) == (how == 'vector')]
        got = M.X.call_fn(node[0], s, None, [arg], 'trv::maths::get_vec3d_magnitude')
        u.fn('trv::maths::get_vec3d_magnitude(%s)' % how)
        u.eq('length of the vector (%s)' % how, got, M.X.sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]))


def unit_polar(u):
    M = Machine(('maths',))
    r, th = R('r'), R('theta')
    got = M.run('trv::maths::eval_complex_in_polar', M.state(), None, [r, th])
    u.fn('trv::maths::eval_complex_in_polar')
    u.eq('r (cos theta + i sin theta)', got, Cx(r * M.X.uf1('cos', th), r * M.X.uf1('sin', th)))


# --- spherical Bessel evaluator.  Contracts on the GSL spline: alloc(n) gives a handle for n nodes,
# init(handle, x, y, n) needs n equal to it and x increasing and stores the nodes, eval(handle, t) needs x[0] <= t <= x[n-1]
class Spline:
    def __init__(self):
        self.rec = {}
        self.n = 0
        self.ob = []

    def alloc(self, s, st, th, a, e):
        self.n += 1
        h = Opaque('spline%d' % self.n)
        self.rec[h.tag] = {'size': lift(a[1], 'I')}
        return h

    def init(self, s, st, th, a, e):
        r = self.rec[a[0].tag]
        x, y = (s.load(st, Loc(p.root, p.path)) if isinstance(p, Ptr) else p for p in a[1:3])
        r.update(n=lift(a[3], 'I'), x=x, y=y, at=(a[1], a[2]))
        return ZI

    def eval(self, s, st, th, a, e):
        self.ob.append((st.cond(), a[0], a[1]))
        return app('spline', (a[1],), 'R')

    def table(self):
        return {'gsl_spline_alloc': self.alloc, 'gsl_spline_init': self.init, 'gsl_spline_eval': self.eval,
                'gsl_interp_accel_alloc': lambda s, st, th, a, e: Opaque('accel')}


def unit_bessel(big):
    def go(u):
        l, i = I('ell'), I('i')
        pre = [le(ZI, l), lt(num(1000, 'I'), l * l) if big else le(l * l, num(1000, 'I'))]
        u.satisfiable('order', pre[:1])
        G = Spline()
        M = Machine(('maths',), pre, G.table())
        M.ctx.push(and_(*pre))
        s = M.state()
        s.mem['this'] = M.X.sym(SB, 'S').set('split', num(1000, 'R')).set('step', rn('1/20'))
        M.run(SB + '::' + 'SphericalBesselCalculator', s, Loc('this'), [l], sig='(const int)')
        u.fn(SB + '::SphericalBesselCalculator(int)')
        split = toreal(l * l) if big else num(1000, 'R')
        u.eq('order', M.read(s, Loc('this'), 'order'), l, pre)
        u.eq('upper end of the table', M.read(s, Loc('this'), 'split'), split, pre)
        sp = M.read(s, Loc('this'), 'spline')
        r = G.rec.get(getattr(sp, 'tag', None), {})
        if not u.true('a spline is initialised and kept', 'x' in r):
            return
        nodes = l * l * 20 + 1 if big else num(20001, 'I')
        u.eq('number of nodes', r['n'], nodes, pre)
        u.eq('the spline was allocated for them', r['size'], r['n'], pre)
        h = pre + [le(ZI, i), lt(i, nodes)]
        u.eq('node i', r['x'].read((i,)), toreal(i) / 20, h)
        u.eq('value at node i', r['y'].read((i,)), app('gsl_sf_bessel_jl', (l, toreal(i) / 20), 'R'), h)
        u.eq('nodes stored', r['x'].ln, nodes, pre)
        u.eq('values stored', r['y'].ln, nodes, pre)
        u.eq('the table reaches its upper end', r['x'].read((nodes - 1,)), split, pre)
        u.holds('no exception', not_(M.throw_cond()), pre)
        in_bounds(u, M, pre)
    return go


def unit_bessel_eval(u):
    x, l, split = R('x'), var('S.order', 'I'), var('S.split', 'R')
    pre = [le(ZR, x)]
    G = Spline()
    M = Machine(('maths',), pre, G.table())
    s = M.state()
    s.mem['this'] = M.X.sym(SB, 'S').set('spline', Opaque('mine'))
    got = M.run(SB + '::eval', s, Loc('this'), [x])
    u.fn(SB + '::eval')
    u.eq('beyond the table: evaluated directly', got, app('gsl_sf_bessel_jl', (l, x), 'R'), pre + [lt(split, x)])
    u.eq('inside the table: interpolated at the argument', got, app('spline', (x,), 'R'), pre + [lt(x, split)])
    for n, (c, h, t) in enumerate(G.ob):
        u.true('interpolated with its own table', getattr(h, 'tag', None) == 'mine')
        u.holds('the interpolator is never asked beyond its nodes', or_(not_(c), and_(le(ZR, t), le(t, split))), pre)


def unit_bessel_copy(u):
    G = Spline()
    M = Machine(('maths',), [], G.table())
    s = M.state()
    n = I('n')
    s.mem['tx'], s.mem['ty'] = M.X.sym('std::vector<double>', 'tx'), M.X.sym('std::vector<double>', 'ty')
    s.mem['gs'] = Obj('gsl_spline', 'gs', {'x': Ptr('tx', (), ZI), 'y': Ptr('ty', (), ZI), 'size': n}, M.X)
    s.mem['this'], s.mem['o'] = M.X.sym(SB, 'S'), M.X.sym(SB, 'T').set('spline', Ptr('gs', (), None))
    M.run(SB + '::SphericalBesselCalculator', s, Loc('this'), [Loc('o')], sig='SphericalBesselCalculator')
    u.fn(SB + '::SphericalBesselCalculator(const SphericalBesselCalculator &)')
    for f, k in (('order', 'I'), ('split', 'R'), ('step', 'R')):
        u.eq('copies ' + f, M.read(s, Loc('this'), f), var('T.' + f, k))
    r = G.rec.get(getattr(M.read(s, Loc('this'), 'spline'), 'tag', None), {})
    if not u.true('a new table is made', 'x' in r):
        return
    u.eq('as many nodes as the original', r['n'], n)
    u.eq('allocated for as many', r['size'], n)
    u.true('with the nodes and values of the original', r['at'][0].root == 'tx' and r['at'][1].root == 'ty')
    u.eq('from the first node', r['at'][0].idx, ZI)
    u.eq('from the first value', r['at'][1].idx, ZI)
    for q in ('tx', 'ty'):
        u.true('frame: the original is not written (%s)' % q, not s.mem[q].writes)


UNITS = ([('wigner_3j', unit_w3j), ('two-point coefficient', unit_c2), ('three-point coefficient', unit_c3), ('multipole choice', unit_valid),
          ('trivial harmonic', unit_trivial), ('magnitude', unit_mag), ('polar form', unit_polar)]
         + [('harmonic %s %s' % (a, b), unit_harmonic(q, p)) for a, q in (('m >= 0', 1), ('m < 0', -1)) for b, p in (('even', 0), ('odd', 1))]
         + [('Bessel table', unit_bessel(False)), ('Bessel table, high order', unit_bessel(True)), ('Bessel evaluation', unit_bessel_eval), ('Bessel copy', unit_bessel_copy)])


def replay(r):
    import numpy as np
    import cxx, oracle
    thorough = r.tier == 'thorough'

    def couplings(t):
        L = cxx.lib()
        q = type(r)()
        top = 8 if thorough else 5
        for a in range(t, top, 4):
            for b, c in itertools.product(range(top), repeat=2):
                z = oracle.w3j(a, b, c, 0, 0, 0)
                p = cxx.params(ell1=a, ell2=b, ELL=c)
                try:
                    L.v_mult(p)
                    ok = True
                except cxx.Raised:
                    ok = False
                q.case('multipole choice', ok == (abs(z) > 1e-9), '(%d, %d, %d) %s, symbol %g' % (a, b, c, 'accepted' if ok else 'rejected', z))
                L.p_free(p)
                for x, y, m in itertools.product(range(-a - 1, a + 2), range(-b - 1, b + 2), range(-c - 1, c + 2)):
                    if abs(x + y + m) > 1:
                        continue
                    w = oracle.w3j(a, b, c, x, y, m)
                    what = 'degrees %d %d %d orders %d %d %d' % (a, b, c, x, y, m)
                    q.close('wigner_3j', L.w3j(a, b, c, x, y, m), w, what, 1e-9, 1e-12, 1)
                    q.close('three-point coefficient', L.cc3(a, b, c, x, y, m), (2 * a + 1) * (2 * b + 1) * (2 * c + 1) * z * w, what, 1e-9, 1e-10, 100)
            for c in range(top):
                for m, n in itertools.product(range(-a - 1, a + 2), range(-c - 1, c + 2)):
                    w = (2 * a + 1) * (2 * c + 1) * oracle.w3j(a, 0, c, 0, 0, 0) * oracle.w3j(a, 0, c, m, 0, n)
                    q.close('two-point coefficient', L.cc2(a, c, m, n), w, 'degrees %d %d orders %d %d' % (a, c, m, n), 1e-9, 1e-10, 10)
        return q

    def harmonics(t):
        L = cxx.lib()
        q = type(r)()
        rng = np.random.default_rng(77 * r.seed + t)
        vs = [v for v in itertools.product((0., 1., -1.), repeat=3)]
        vs += [(1e-3, 0, 5.), (-1e-3, 1e-3, -700.), (0, -1e-6, 1.), (1e-6, 0, -1.), (0., -0., 2.), (-0., 0., -3.), (3e-9, -4e-9, 1.), (1e5, -2e5, 3e5), (1e-4, -2e-4, 3e-4)]
        vs += [tuple(rng.normal(size=3) * 10 ** rng.uniform(-3, 4)) for _ in range(60 if thorough else 25)]
        vs += [(x, y, 0.) for x, y in rng.normal(size=(6, 2))] + [(x, 0., z) for x, z in rng.normal(size=(6, 2))] + [(0., y, z) for y, z in rng.normal(size=(6, 2))]
        o = np.zeros(2)
        top = 13 if thorough else 9
        for l in range(top):
            for m in range(-l, l + 1):
                if (l * l + l + m) % 4 != t % 4:
                    continue
                for v in vs:
                    a = np.array(v, float)
                    b = a.copy()
                    L.ylm(l, m, b, o)
                    q.close('reduced harmonic', complex(*o), complex(oracle.ylm(l, m, a)), 'l=%d m=%d at %r' % (l, m, v), 1e-7, 3e-8, 1)
                    q.case('vector unchanged', (a == b).all(), repr(v))
                    q.close('magnitude', L.vmag(a), np.sqrt((a * a).sum()), repr(v), 1e-14)
                    q.close('magnitude of a vector', L.vmagv(a), np.sqrt((a * a).sum()), repr(v), 1e-14)
        # high degrees: addition theorem
        for l in (20, 33):
            for v in vs[:40:5]:
                if not any(v):
                    continue
                tot = 0
                for m in range(-l, l + 1):
                    L.ylm(l, m, np.array(v, float), o)
                    tot += o[0] ** 2 + o[1] ** 2
                q.close('addition theorem', tot, 1., 'l=%d at %r' % (l, v), 1e-9)
        return q

    def bessels(t):
        L = cxx.lib()
        q = type(r)()
        rng = np.random.default_rng(99 * r.seed + t)
        for l in range(t, 12 if thorough else 8, 4) if t < 3 else (33, 40):
            s = max(1000., l * l)
            x = np.concatenate([[0., 1e-6, 0.01, 0.025, 0.05, s, np.nextafter(s, 0), np.nextafter(s, 2 * s), s - 0.01, s + 0.01, 0.05 * (int(s / 0.05) - 1)],
                                np.arange(0, 60, 0.013), rng.uniform(0, s, 4000), rng.uniform(s, 9000, 1000), rng.uniform(0, 5, 2000)])
            for copy in (False, True):
                o = np.zeros(len(x))
                (L.sjls_copy if copy else L.sjls)(l, x, len(x), o)
                q.close('spherical Bessel%s' % (' (copied)' if copy else ''), o, oracle.sjl(l, x), 'order %d over [0, 9000]' % l, 0, 5e-5, 1)
                near = (x > 1.5) & (x < s - 1)
                q.close('spherical Bessel%s, inside' % (' (copied)' if copy else ''), o[near], oracle.sjl(l, x[near]), 'order %d inside the table' % l, 0, 1e-8, 1)
                far = x >= s
                q.close('spherical Bessel%s, far' % (' (copied)' if copy else ''), o[far], oracle.sjl(l, x[far]), 'order %d beyond the table' % l, 0, 1e-10, 1)
        return q

    for fn in (couplings, harmonics, bessels):
        for out in cxx.pmap(fn, range(4)):
            absorb(r, out)
