"""P04: weighted fluctuation fields combine data and randoms with the right factors (field.cpp)."""
from meshlib import *

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals', 'assign_weighted_field_to_mesh is used through its contract (discharged in P01): it replaces the mesh and, with interlacing, the shadow mesh by the painting of the given catalogue with the given weights',
           'calc_reduced_spherical_harmonic is used through its contract (decided by P11)']
NM = var('F.params.nmesh', 'I')
G = I('gid')
PRE = [between(0, G, NM), lt(ZI, NM)]


class Paint:
    def __init__(s):
        s.calls = []

    def __call__(s, X, st, th, args, e):
        k = len(s.calls) + 1
        w = args[1]
        while isinstance(w, Loc):
            w = X.load(st, w)
        obj = X.load(st, th)
        roots = []
        for nm in ('field', 'field_s'):
            p = obj.get(nm)
            r = p.root if isinstance(p, Ptr) else None
            roots.append(r)
            if r is not None and r != 'NULL':
                old = st.mem.get(r)
                ln = old.ln if isinstance(old, SArr) else NM
                st.mem[r] = SArr(('sym', 'paint%d%s' % (k, 's' if nm == 'field_s' else '')), (), 'fftw_complex', ln, X)
        cat = args[0]
        s.calls.append({'this': th, 'cat': cat, 'w': X.load(st, Loc(w.root, w.path)), 'off': w.idx, 'roots': roots, 'interlace': X.load(st, Loc(th[0], tuple(th[1]) + ('params', 'interlace')))})
        return None


def pel(k, sh, part, idx=G):
    return app('paint%d%s[][]' % (k, 's' if sh else ''), (idx, num(part, 'I')), 'R')


def los(name, pid):
    return [app('%s[].pos[]' % name, (pid, num(a, 'I')), 'R') for a in range(3)]


def machine(inter):
    p = Paint()
    M = Machine(('field', 'particles'), contracts=dict(YLM, **{'trv::MeshField::assign_weighted_field_to_mesh': p}))
    s = M.state()
    s.mem['this'] = M.X.sym('trv::MeshField', 'F')
    prm = M.read(s, Loc('this'), 'params').set('interlace', st('true' if inter else 'false'))
    s.mem['this'] = s.mem['this'].set('params', prm)
    s.mem['d'] = M.X.sym('trv::ParticleCatalogue', 'd')
    s.mem['r'] = M.X.sym('trv::ParticleCatalogue', 'r')
    s.mem['ld'] = SArr(('sym', 'ld'), (), 'trv::LineOfSight', I('ld#len'), M.X)
    s.mem['lr'] = SArr(('sym', 'lr'), (), 'trv::LineOfSight', I('lr#len'), M.X)
    M.ctx.push(and_(*PRE))
    return M, s, p


def result(M, s, sh, part):
    f = M.read(s, Loc('this'), 'field_s' if sh else 'field')
    return M.read(s, Loc(f.root, f.path), G, part)


def check_paint(u, M, c, cat, lname, quad, tag):
    """the weights handed to the painting are harmonic times weight, particle by particle"""
    u.true(tag + ' paints its own catalogue', c['cat'] == Loc(cat) or c['cat'][0] == cat, repr(c['cat']))
    pid = I('pid')
    h = [between(0, pid, var(cat + '.ntotal', 'I'))]
    wt = app(cat + '.pdata*[].w', (pid,), 'R')
    l, m = I('ell'), I('m')
    y = ylm_term(l, m, los(lname, pid))
    want = Cx(y.re * wt, y.im * wt) if not quad else Cx(y.re * wt * wt, neg(y.im * wt * wt))
    for part, w in ((0, want.re), (1, want.im)):
        u.eq('%s weight of every particle, part %d' % (tag, part), c['w'].read((c['off'] + pid if c['off'] is not None else pid, num(part, 'I'))), w, h)


def frame(u, s, M):
    u.true('frame: catalogues and lines of sight are not modified', not any((isinstance(k, tuple) and k[0] == 'sym' and k[1].split('.')[0] in ('d', 'r') and s.mem[k].writes) for k in s.mem)
           and not s.mem['ld'].writes and not s.mem['lr'].writes)


def unit_pair(quad, inter):
    fn = 'trv::MeshField::compute_ylm_wgtd_%sfield' % ('quad_' if quad else '')

    def go(u):
        M, s, p = machine(inter)
        al = R('alpha')
        M.run(fn, s, Loc('this'), [Loc('d'), Loc('r'), Ptr('ld', (), ZI), Ptr('lr', (), ZI), al, I('ell'), I('m')], 7)
        u.fn(fn + ' (data and randoms)', 'trv::MeshField::operator[]', 'trv::ParticleCatalogue::operator[]')
        u.true('two paintings', len(p.calls) == 2, str(len(p.calls)))
        if len(p.calls) != 2:
            return
        # which painting lands where is told by the mesh painted on
        kd = [i for i, c in enumerate(p.calls) if c['this'] == Loc('this')]
        u.true('data go onto this mesh, randoms onto another', len(kd) == 1)
        kd = kd[0]
        kr = 1 - kd
        check_paint(u, M, p.calls[kd], 'd', 'ld', quad, 'data')
        check_paint(u, M, p.calls[kr], 'r', 'lr', quad, 'randoms')
        u.true('both meshes are interlaced alike', p.calls[0]['interlace'] == p.calls[1]['interlace'])
        f = al * al if quad else neg(al)
        for sh in ((False, True) if inter else (False,)):
            for part in (0, 1):
                u.eq('%s part %d' % ('interlaced companion' if sh else 'field', part), result(M, s, sh, part), pel(kd + 1, sh, part) + f * pel(kr + 1, sh, part), PRE)
        frame(u, s, M)
    return go


def unit_single(quad, inter):
    fn = 'trv::MeshField::compute_ylm_wgtd_%sfield' % ('quad_' if quad else '')

    def go(u):
        M, s, p = machine(inter)
        al = R('alpha')
        M.run(fn, s, Loc('this'), [Loc('d'), Ptr('ld', (), ZI), al, I('ell'), I('m')], 5)
        u.fn(fn + ' (one catalogue)')
        u.true('one painting', len(p.calls) == 1 and p.calls[0]['this'] == Loc('this'), str(len(p.calls)))
        check_paint(u, M, p.calls[0], 'd', 'ld', quad, 'particles')
        f = al * al if quad else al
        for sh in ((False, True) if inter else (False,)):
            for part in (0, 1):
                u.eq('%s part %d' % ('interlaced companion' if sh else 'field', part), result(M, s, sh, part), f * pel(1, sh, part), PRE)
        frame(u, s, M)
    return go


def unit_unit(fluct, inter):
    fn = 'trv::MeshField::compute_unweighted_field' + ('_fluctuations_insitu' if fluct else '')

    def go(u):
        M, s, p = machine(inter)
        M.run(fn, s, Loc('this'), [Loc('d')])
        u.fn(fn, 'trv::MeshField::compute_unweighted_field')
        u.true('one painting', len(p.calls) == 1 and p.calls[0]['this'] == Loc('this'), str(len(p.calls)))
        c = p.calls[0]
        u.true('paints its own catalogue', c['cat'] == Loc('d'))
        pid = I('pid')
        for part, w in ((0, OR), (1, ZR)):
            u.eq('unit weights, part %d' % part, c['w'].read((c['off'] + pid, num(part, 'I'))), w, [between(0, pid, var('d.ntotal', 'I'))])
        nbar = toreal(var('d.ntotal', 'I')) / var('F.vol', 'R')
        for sh in ((False, True) if inter else (False,)):
            for part in (0, 1):
                u.eq('%s part %d' % ('interlaced companion' if sh else 'field', part), result(M, s, sh, part), pel(1, sh, part) - (nbar if fluct and part == 0 else ZR), PRE + [lt(ZR, var('F.vol', 'R'))])
        frame(u, s, M)
    return go


UNITS = ([('%sfield of data and randoms%s' % ('quadratic ' if q else '', ' interlaced' if i else ''), unit_pair(q, i)) for q in (False, True) for i in (False, True)]
         + [('%sfield of one catalogue%s' % ('quadratic ' if q else '', ' interlaced' if i else ''), unit_single(q, i)) for q in (False, True) for i in (False, True)]
         + [('unweighted %s%s' % ('fluctuations' if q else 'field', ' interlaced' if i else ''), unit_unit(q, i)) for q in (False, True) for i in (False, True)])


def replay(r):
    import numpy as np
    import cxx, oracle

    def body(t):
        L = cxx.lib()
        rng = np.random.default_rng(1000 * r.seed + t)
        q = type(r)()
        for rep in range(24 if r.tier == 'thorough' else 6):
            n = rng.integers(2, 8, 3)
            if rep == 0:
                n = np.array([5, 4, 7])
            B = rng.uniform(20, 900, 3)
            sch = ['ngp', 'cic', 'tsc', 'pcs'][int(rng.integers(4))]
            inter = bool((rep + t) % 2)
            p = cxx.params(boxsize=B, ngrid=n, assignment=sch, interlace='true' if inter else 'false')
            what = 'mesh %s %s%s' % (n.tolist(), sch, ' interlaced' if inter else '')
            L.threads(int(rng.integers(1, 5)))
            nd, nr = int(rng.integers(1, 25)), int(rng.integers(1, 40))
            if rep == 1:
                nd, nr = 30, 7
            pd, pr = rng.uniform(0, 1, (nd, 3)) * B, rng.uniform(0, 1, (nr, 3)) * B
            wd, wr = rng.uniform(.2, 3, (2, nd)), rng.uniform(.2, 3, (2, nr))
            cd = cxx.catalogue(pd, rng.uniform(.1, 1, nd), *wd)
            cr = cxx.catalogue(pr, rng.uniform(.1, 1, nr), *wr)
            Wd, Wr = wd[0] * wd[1], wr[0] * wr[1]
            ld, lr = rng.normal(size=(nd, 3)), rng.normal(size=(nr, 3))
            if rep == 2:
                ld[0] = (0, 0, 1.)
                lr[0] = (0, 0, -2.)
            al = float(rng.uniform(.05, 2))
            d0, r0 = cxx.cat_data(cd), cxx.cat_data(cr)
            for case in range(6):
                l = int(rng.integers(0, 5))
                mm = int(rng.integers(-l, l + 1))
                quad = case % 2
                m = cxx.mesh(p, False)
                cxx.field(m, n, False, True)[...] = 7.   # stale content must not survive
                yd, yr = oracle.ylm(l, mm, ld.T), oracle.ylm(l, mm, lr.T)
                kd, kr = (np.conj(yd) * Wd ** 2, np.conj(yr) * Wr ** 2) if quad else (yd * Wd, yr * Wr)
                wh = what + ' l=%d m=%d alpha=%g %s' % (l, mm, al, 'quadratic' if quad else '')
                if case < 4:
                    L.m_ylm2(m, cd, cr, cxx.los(ld), cxx.los(lr), al, l, mm, quad)
                    f = lambda s: oracle.paint(pd, kd, B, n, sch, s) + (al ** 2 if quad else -al) * oracle.paint(pr, kr, B, n, sch, s)
                    wh += ' of data and randoms'
                else:
                    L.m_ylm1(m, cd, cxx.los(ld), al, l, mm, quad)
                    f = lambda s: (al ** 2 if quad else al) * oracle.paint(pd, kd, B, n, sch, s)
                    wh += ' of one catalogue'
                q.close('weighted field', cxx.field(m, n), f(False), wh, 1e-8, 1e-10)
                if inter:
                    q.close('weighted companion', cxx.field(m, n, True), f(True), wh + ' interlaced companion', 1e-8, 1e-10)
                L.m_free(m)
            for fl in (False, True):
                m = cxx.mesh(p, False)
                (L.m_unwf if fl else L.m_unw)(m, cd)
                nb = nd / np.prod(B) if fl else 0.
                for s in ((False, True) if inter else (False,)):
                    want = oracle.paint(pd, np.ones(nd), B, n, sch, s)
                    q.close('unweighted field', cxx.field(m, n, s) * np.prod(B), (want - nb) * np.prod(B), what + ' unweighted %s%s' % ('fluctuations' if fl else 'field', ' companion' if s else ''), 1e-8, 1e-9)
                    if fl:
                        q.close('fluctuations average to zero', cxx.field(m, n, s).sum() / want.sum(), 0., what + ' mean of the fluctuations', 0, 1.) if False else q.case('fluctuations average to zero', abs(cxx.field(m, n, s).sum()) < 1e-9 * abs(want.sum()), what + ': the fluctuation mesh does not average to zero')
                L.m_free(m)
            q.close('catalogue unchanged', np.vstack([cxx.cat_data(cd), cxx.cat_data(cr)]), np.vstack([d0, r0]), what + ' catalogues unchanged', 0, 0)
            L.c_free(cd), L.c_free(cr), L.p_free(p)
        return q
    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
