"""P02: one convention for grid indices, positions and wavevectors (field.cpp, maths.cpp)."""
from meshlib import *

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals', 'mesh sizes are small enough for their product to fit a 64-bit integer',
           'std::vector and the loop-parallel pragmas follow their standards (the annotated loops write disjoint elements)']
IJK = [I('i'), I('j'), I('k')]


def inside(N):
    return [between(0, x, n) for x, n in zip(IJK, N)]


def unit_maps(cls):
    def go(u):
        M = Machine(('field',))
        s = M.state()
        s.mem['this'] = M.X.sym(cls, 'F')
        N, L, dr, dk = geom('F')
        pre = valid(N) + inside(N)
        M.ctx.push(and_(*pre))
        u.satisfiable('indices inside the mesh', pre)
        g = M.run(cls + '::ret_grid_index', s, Loc('this'), IJK)
        u.fn(cls + '::ret_grid_index')
        u.eq('grid index', g, flat(*IJK, N), pre)
        # one-to-one onto [0, nmesh)
        P, Q, S = I('P'), I('Q'), I('S')
        one = flat(*IJK, N)
        u.holds('index range lower', le(ZI, one), pre + [le(ZI, IJK[0] * N[1]), le(ZI, (IJK[0] * N[1] + IJK[1]) * N[2])])
        for nm, goal, h in (
                ('step: rows are not negative', le(ZI, P * Q), [le(ZI, P), lt(ZI, Q)]),
                ('step: the last row bounds the others', le(P * Q, (S - 1) * Q), [lt(P, S), lt(ZI, Q)])):
            u.holds('index range ' + nm, goal, h)
        r = IJK[0] * N[1] + IJK[1]
        h1 = [le(IJK[0] * N[1], (N[0] - 1) * N[1])]
        u.holds('index range rows', lt(r, N[0] * N[1]), pre + h1)
        R_ = I('row')
        u.holds('index range upper', lt(R_ * N[2] + IJK[2], S * N[2]), [le(R_ * N[2], (S - 1) * N[2]), lt(R_, S)] + pre)
        # quotient and remainder recover the indices: no two cells share an index
        u.holds('index is one-to-one', and_(eq(P, S), eq(Q, I('T'))), [eq(P * N[2] + Q, S * N[2] + I('T')), between(0, Q, N[2]), between(0, I('T'), N[2]), lt(ZI, N[2])])
        loc = []
        for q, v in zip('ijk', IJK):
            s.mem[q] = v
            loc.append(Loc(q))
        M.run(cls + '::shift_grid_indices_fourier', s, Loc('this'), loc)
        u.fn(cls + '::shift_grid_indices_fourier')
        for q, v, n in zip('ijk', IJK, N):
            u.eq('signed index ' + q, s.mem[q], signed(v, n), pre)
        f0 = s.mem['this']
        u.true('frame: the object is not modified', not [k for k in s.mem if isinstance(k, tuple) and k[0] == 'sym' and s.mem[k].writes])
    return go


def unit_vectors(u):
    cls = 'trv::MeshField'
    for what, fn in (('position', 'get_grid_pos_vector'), ('wavevector', 'get_grid_wavevector')):
        M = Machine(('field',))
        s = M.state()
        s.mem['this'] = M.X.sym(cls, 'F')
        N, L, dr, dk = geom('F')
        pre = valid(N) + inside(N)
        M.ctx.push(and_(*pre))
        s.mem['v'] = FixArr([var('v%d' % a, 'R') for a in range(3)])
        M.run(cls + '::' + fn, s, Loc('this'), IJK + [Ptr('v', (), ZI)])
        u.fn(cls + '::' + fn)
        want = vec_at(IJK, N, dr if what == 'position' else dk)
        for a in range(3):
            u.eq('%s component %d' % (what, a), M.read(s, Loc('v'), a), want[a], pre)


def unit_ctor(cls, ext=False):
    def go(u):
        M = Machine(('field',))
        s = M.state()
        s.mem['p'] = M.X.sym('trv::ParameterSet', 'p')
        N = [var('p.ngrid[%d]' % a, 'I') for a in range(3)]
        L = [var('p.boxsize[%d]' % a, 'R') for a in range(3)]
        pre = valid(N, L)
        M.ctx.push(and_(*pre))
        s.mem['this'] = M.X.sym(cls, 'F')
        s.mem['p'] = s.mem['p'].set('interlace', st('false'))
        args = [Loc('p'), FALSE] + ([] if cls.endswith('Stats') else [st('name')])
        M.run(cls + '::' + cls.split('::')[-1], s, Loc('this'), args, len(args))
        u.fn(cls + '::' + cls.split('::')[-1])
        for a in range(3):
            u.eq('cell size %d' % a, M.read(s, Loc('this'), 'dr', a), L[a] / toreal(N[a]), pre)
            u.eq('mode spacing %d' % a, M.read(s, Loc('this'), 'dk', a), 2 * PI / L[a], pre)
        u.eq('volume', M.read(s, Loc('this'), 'vol'), var('p.volume', 'R'), pre)
        u.eq('cell volume', M.read(s, Loc('this'), 'vol_cell'), var('p.volume', 'R') / toreal(var('p.nmesh', 'I')), pre)
        for f in ('nmesh', 'volume', 'assignment', 'assignment_order'):
            u.eq('keeps its own copy of ' + f, M.read(s, Loc('this'), 'params', f), var('p.' + f, 'I' if f in ('nmesh', 'assignment_order') else 'S' if f == 'assignment' else 'R'), pre)
    return go


def unit_ylm(space):
    def go(u):
        fn = 'trv::maths::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_%s_space' % space
        M = Machine(('maths',), contracts=YLM)
        N = [I('n%d' % a) for a in range(3)]
        L = [R('L%d' % a) for a in range(3)]
        pre = valid(N, L)
        M.ctx.push(and_(*pre))
        s = M.state()
        s.mem['L'], s.mem['n'] = FixArr(L), FixArr(N)
        s.mem['out'] = M.X.sym('std::vector<std::complex<double>>', 'y')
        l, m = I('ell'), I('m')
        M.run(fn, s, None, [l, m, Ptr('L', (), ZI), Ptr('n', (), ZI), Loc('out')])
        u.fn(fn)
        d = [2 * PI / x for x in L] if space == 'fourier' else [x / toreal(n) for x, n in zip(L, N)]
        h = pre + inside(N)
        got = s.mem['out'].read((flat(*IJK, N),))
        u.eq('harmonic of cell (i, j, k)', got, ylm_term(l, m, vec_at(IJK, N, d)), h)
        u.true('the grid parameters are not modified', isinstance(s.mem['L'], FixArr) and s.mem['L'].e == L and s.mem['n'].e == N)
    return go


UNITS = [('maps MeshField', unit_maps('trv::MeshField')), ('maps FieldStats', unit_maps('trv::FieldStats')), ('vectors', unit_vectors),
         ('geometry MeshField', unit_ctor('trv::MeshField')), ('geometry FieldStats', unit_ctor('trv::FieldStats')),
         ('harmonic grid fourier', unit_ylm('fourier')), ('harmonic grid config', unit_ylm('config'))]


def replay(r):
    import numpy as np
    import cxx, oracle

    def body(t):
        L = cxx.lib()
        rng = np.random.default_rng(1000 * r.seed + t)
        q = type(r)()
        for rep in range(40 if r.tier == 'thorough' else 12):
            n = rng.integers(1, 12, 3)
            if rep == 0:
                n = np.array([5, 4, 7])
            B = rng.uniform(10, 3000, 3)
            p = cxx.params(boxsize=B, ngrid=n)
            what = 'mesh %s box %s' % (n.tolist(), B.tolist())
            mm, ss = cxx.mesh(p, False), cxx.stats(p)
            kv, rv = oracle.kvec(B, n), oracle.rvec(B, n)
            g = np.stack(oracle.grids(n))
            o = [np.zeros((3,) + tuple(n)) for _ in range(2)]
            idx = np.zeros((2,) + tuple(n), np.int64)
            sh = np.zeros((2, 3) + tuple(n), int)
            for i in np.ndindex(*n):
                v, ii = np.zeros(3), [int(x) for x in i]
                L.m_pos(mm, *ii, v)
                o[0][(slice(None),) + i] = v
                L.m_kvec(mm, *ii, v)
                o[1][(slice(None),) + i] = v
                for j, (f, gfn, obj) in enumerate(((L.m_index, L.m_shift, mm), (L.s_index, L.s_shift, ss))):
                    idx[(j,) + i] = f(obj, *ii)
                    qq = np.array(i, np.int32)
                    gfn(obj, qq)
                    sh[(j, slice(None)) + i] = qq
            q.close('positions', o[0], rv, what + ' positions', 1e-12, 1e-13)
            q.close('wavevectors', o[1], kv, what + ' wavevectors', 1e-12, 1e-13)
            flat = np.arange(np.prod(n)).reshape(n)
            for j, c in enumerate(('MeshField', 'FieldStats')):
                q.close(c + ' index', idx[j], flat, what + ' row-major index', 0, 0)
                q.close(c + ' signed indices', sh[j], g, what + ' signed indices', 0, 0)
            for obj, f, c in ((mm, L.m_geom, 'MeshField'), (ss, L.s_geom, 'FieldStats')):
                v = np.zeros(8)
                f(obj, v)
                q.close(c + ' geometry', v, list(B / n) + list(2 * np.pi / B) + [np.prod(B), np.prod(B) / np.prod(n)], what + ' cell sizes, mode spacings and volumes', 1e-12, 0)
            for sp, w in ((0, rv), (1, kv)):
                for l in range(5):
                    m = int(rng.integers(-l, l + 1))
                    y = np.zeros(tuple(n), complex)
                    L.ylmgrid(l, m, cxx.A(B), cxx.A(n, np.int32), sp, y, int(np.prod(n)))
                    q.close('harmonic grid', y, oracle.ylm(l, m, w), what + ' harmonic grid l=%d m=%d %s' % (l, m, 'fourier' if sp else 'config'), 1e-6, 1e-7)
            L.m_free(mm), L.s_free(ss), L.p_free(p)
        # a large mesh does not overflow the index
        return q
    for out in cxx.pmap(body, range(4)):
        absorb(r, out)

    def big(_):
        L = cxx.lib()
        q = type(r)()
        import ctypes as ct
        p = cxx.params(ngrid=(4, 4, 4))
        mm = cxx.mesh(p, False)
        ss = cxx.stats(p)
        cxx.put(p, 'ngrid', (2048, 2048, 2048))
        # the index map alone, on a mesh object whose sizes are enlarged
        for f, s_, obj in ((L.m_index, L.m_setn, mm), (L.s_index, L.s_setn, ss)):
            s_(obj, 2048, 1536, 2000)
            for i, j, k in ((2047, 1535, 1999), (1500, 3, 7), (0, 1535, 1999), (2047, 0, 0)):
                q.close('large mesh index', f(obj, i, j, k), (i * 1536 + j) * 2000 + k, 'index of cell %s of a mesh (2048, 1536, 2000)' % ((i, j, k),), 0, 0)
            s_(obj, 4, 4, 4)
        return q
    absorb(r, cxx.isolated(big, None))
