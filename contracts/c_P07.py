"""P07: shot-noise aliasing follows the assignment scheme (field.cpp)."""
from meshlib import *

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals; sin, cos, sqrt are the real functions',
           'the interlaced form is the isotropic approximation documented in the sources']
IJK = [I('i'), I('j'), I('k')]
ORDER = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}
N, L_, dr, dk = geom('F')
PRE = valid(N) + [between(0, x, n) for x, n in zip(IJK, N)] + [eq(var('F.params.nmesh', 'I'), N[0] * N[1] * N[2])]


def poly(scheme, x):
    if scheme == 'ngp':
        return OR
    if scheme == 'cic':
        return 1 - x * rn('2/3')
    if scheme == 'tsc':
        return 1 - x + x * x * rn('2/15')
    return 1 - x * rn('4/3') + x * x * rn('2/5') - x * x * x * rn('4/315')


def sin2(M, i, n):
    s = M.X.uf1('sin', PI * toreal(i) / toreal(n))
    return s * s


def factor(M, scheme, inter):
    g = [signed(i, n) for i, n in zip(IJK, N)]
    if not inter:
        out = OR
        for x, n in zip(g, N):
            out = out * poly(scheme, ite(eq(x, ZI), ZR, sin2(M, x, n)))
        return out
    u = [PI * toreal(x) / toreal(n) for x, n in zip(g, N)]
    h = M.X.sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]) / 2
    s, c = M.X.uf1('sin', h), M.X.uf1('cos', h)
    return powi(c * c, ORDER[scheme]) * poly(scheme, s * s)


def machine(scheme, inter):
    M = Machine(('field',))
    s = M.state()
    s.mem['this'] = M.X.sym('trv::FieldStats', 'F')
    prm = M.read(s, Loc('this'), 'params').set('interlace', st('true' if inter else 'false')).set('assignment', st(scheme)).set('assignment_order', num(ORDER.get(scheme, 0), 'I'))
    s.mem['this'] = s.mem['this'].set('params', prm)
    M.ctx.push(and_(*PRE))
    return M, s


def unit(scheme, inter):
    def go(u):
        M, s = machine(scheme, inter)
        u.satisfiable('mode of the mesh', PRE)
        s.mem['this'] = s.mem['this'].set('alias_ini', FALSE)
        M.run('trv::FieldStats::compute_shotnoise_aliasing', s, Loc('this'), [])
        u.fn('trv::FieldStats::compute_shotnoise_aliasing', 'trv::FieldStats::ret_calc_shotnoise_aliasing',
             'trv::FieldStats::calc_shotnoise_aliasing_interlaced_isoapprox' if inter else 'trv::FieldStats::calc_shotnoise_aliasing_' + scheme,
             'trv::FieldStats::get_shotnoise_aliasing_sin2_cos2_isoapprox' if inter else 'trv::FieldStats::get_shotnoise_aliasing_sin2',
             'trv::FieldStats::shift_grid_indices_fourier', 'trv::FieldStats::ret_grid_index')
        a = M.read(s, Loc('this'), 'alias_sn')
        u.eq('one factor per mode', a.ln, var('F.params.nmesh', 'I'), PRE + [lt(var('F.alias_sn#len', 'I'), var('F.params.nmesh', 'I'))])
        u.eq('factor of mode (i, j, k)', a.read((flat(*IJK, N),)), factor(M, scheme, inter), PRE)
        u.eq('marked as computed', M.read(s, Loc('this'), 'alias_ini'), TRUE, PRE)
        u.holds('no exception', not_(M.throw_cond()), PRE)
    return go


def unit_again(u):
    """once computed the factors are kept"""
    M, s = machine('tsc', False)
    s.mem['this'] = s.mem['this'].set('alias_ini', TRUE)
    before = M.read(s, Loc('this'), 'alias_sn')
    M.run('trv::FieldStats::compute_shotnoise_aliasing', s, Loc('this'), [])
    a = M.read(s, Loc('this'), 'alias_sn')
    u.true('nothing is written', a.writes == before.writes and a.base == before.base)


def unit_bad(u):
    M, s = machine('none', False)
    u.fn('trv::FieldStats::ret_calc_shotnoise_aliasing')
    u.true('unknown scheme throws', M.never_returns('trv::FieldStats::ret_calc_shotnoise_aliasing', s, Loc('this'), []))


UNITS = [('%s%s' % (k, ' interlaced' if q else ''), unit(k, q)) for k in ORDER for q in (False, True)] + [('kept', unit_again), ('rejected', unit_bad)]


def replay(r):
    import numpy as np
    import cxx, oracle

    def body(t):
        L = cxx.lib()
        rng = np.random.default_rng(1000 * r.seed + t)
        q = type(r)()
        for rep in range(20 if r.tier == 'thorough' else 8):
            n = rng.integers(1 if rep else 4, 11, 3)
            if rep == 1:
                n = np.array([9, 4, 6])
            B = rng.uniform(10, 3000, 3)
            for sch in ORDER:
                for inter in (False, True):
                    p = cxx.params(boxsize=B, ngrid=n, assignment=sch, interlace='true' if inter else 'false')
                    s = cxx.stats(p)
                    L.threads(int(rng.integers(1, 9)))
                    want = oracle.aliasing(n, sch, inter)
                    o = np.zeros(int(np.prod(n)))
                    what = '%s%s mesh %s' % (sch, ' interlaced' if inter else '', n.tolist())
                    for again in range(2):
                        L.s_alias(s, o, len(o))
                        q.close('aliasing', o.reshape(n), want, what, 1e-10, 1e-12)
                    one = np.zeros(tuple(n))
                    v = np.zeros(1)
                    for i in np.ndindex(*n):
                        L.s_alias1(s, *[int(x) for x in i], v)
                        one[i] = v[0]
                    q.close('aliasing per mode', one, want, what, 1e-10, 1e-12)
                    L.s_free(s), L.p_free(p)
        # independent closed forms: sum over images of the assignment window squared
        for sch in ORDER:
            n = np.array([8, 6, 4])
            p = cxx.params(boxsize=(80., 60., 40.), ngrid=n, assignment=sch)
            s = cxx.stats(p)
            o = np.zeros(int(np.prod(n)))
            L.s_alias(s, o, len(o))
            f = []
            for a in range(3):
                g = oracle.signed(n[a])
                im = np.arange(-4000, 4001)
                f.append((np.sinc((g[:, None] + n[a] * im) / n[a]) ** (2 * ORDER[sch])).sum(1))
            q.close('image sum', o.reshape(n), f[0][:, None, None] * f[1][None, :, None] * f[2][None, None, :], '%s sum over images of the squared window' % sch, 3e-4, 1e-6)
            L.s_free(s), L.p_free(p)
        try:
            p = cxx.params(assignment='none', assignment_order=0)
            s = cxx.stats(p)
            o = np.zeros(64)
            L.s_alias(s, o, 64)
            ok = False
        except cxx.Raised:
            ok = True
        q.case('unknown scheme', ok, 'an unknown assignment scheme must be rejected')
        return q
    for out in cxx.pmap(body, range(4)):
        absorb(r, out)
