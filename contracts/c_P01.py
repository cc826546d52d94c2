"""P01: mesh assignment is periodic B-spline painting (field.cpp)."""
from common import *
from cxxexec import unfold, NAMED

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals (the position times mesh size over box size of a particle inside the box is below the mesh size)',
           'the parallel loop adds to mesh cells with atomic updates, so its effect is the sum over particles in any order',
           'mesh memory and the weight array are distinct and hold nmesh and ntotal entries']
ORDER = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}
N = [var('F.params.ngrid[%d]' % i, 'I') for i in range(3)]
L = [var('F.params.boxsize[%d]' % i, 'R') for i in range(3)]
POS = 'c.pdata*[].pos[]'


def bspline(p, x):
    ax = ite(lt(x, ZR), neg(x), x)
    h = rn('1/2')
    if p == 1:
        return ite(and_(lt(neg(h), x), le(x, h)), OR, ZR)
    if p == 2:
        return ite(le(ax, OR), 1 - ax, ZR)
    if p == 3:
        return ite(lt(ax, h), rn('3/4') - x * x, ite(le(ax, rn('3/2')), (rn('3/2') - ax) * (rn('3/2') - ax) / 2, ZR))
    return ite(lt(ax, OR), (4 - 6 * x * x + 3 * x * x * ax) / 6, ite(le(ax, rn(2)), (2 - ax) * (2 - ax) * (2 - ax) / 6, ZR))


def wrap(x, n):
    return ite(lt(x, ZI), x + n, ite(le(n, x), x - n, x))


def axis_of(t):
    return {int(u.a[2].a[0]) for u in subterms(unfold(t)) if u.op == 'app' and u.a[0] == POS and u.a[2].op == 'num'}


def split_index(ix):
    """gid = (A*n1 + B)*n2 + C as a polynomial in the mesh sizes"""
    from cxxexec import _lin, _mono
    out = [ZI, ZI, ZI]
    c, d = _lin(ix)
    if c:
        out[2] = num(c, 'I')
    for t, k in d.items():
        m = dict(_mono(t))
        if m.get(N[1]) == 1 and m.get(N[2]) == 1:
            a = 0
            del m[N[1]], m[N[2]]
        elif m.get(N[2]) == 1:
            a = 1
            del m[N[2]]
        else:
            a = 2
        from cxxexec import _mkmono
        out[a] = out[a] + num(k, 'I') * _mkmono(m, 'I')
    return out


def unit(sch, shadow):
    def go(u):
        from cxxexec import _mono, _mkmono
        M = Machine(('field', 'particles'))
        M.X.naming = True
        s = M.state()
        inter = 'true' if shadow else 'false'
        s.mem['this'] = M.X.sym('trv::MeshField', 'F')
        prm = M.read(s, Loc('this'), 'params').set('interlace', st(inter)).set('assignment', st(sch))
        s.mem['this'] = s.mem['this'].set('params', prm)
        s.mem['cat'] = M.X.sym('trv::ParticleCatalogue', 'c')
        s.mem['wt'] = SArr(('sym', 'wt'), (), 'fftw_complex', I('wt#len'), M.X)
        pre = [le(num(2, 'I'), n) for n in N] + [lt(ZR, l) for l in L] + [eq(var('F.params.nmesh', 'I'), N[0] * N[1] * N[2]), lt(ZR, var('F.vol_cell', 'R'))]
        M.ctx.push(and_(*pre))
        u.satisfiable('mesh and box', pre)
        M.run('trv::MeshField::assign_weighted_field_to_mesh', s, Loc('this'), [Loc('cat'), Ptr('wt', (), ZI)])
        u.fn('trv::MeshField::assign_weighted_field_to_mesh', 'trv::MeshField::assign_weighted_field_to_mesh_' + sch, 'trv::MeshField::reset_density_field', 'trv::MeshField::ret_grid_index', 'trv::ParticleCatalogue::operator[]')
        root = ('sym', 'F.field_s*' if shadow else 'F.field*', 'fftw_complex')
        other = ('sym', 'F.field*' if shadow else 'F.field_s*', 'fftw_complex')
        if not shadow:
            u.true('frame: no interlaced mesh is touched', not s.mem.get(other) or not s.mem[other].writes)
        u.true('frame: the catalogue is not modified', not any(k for k in s.mem if isinstance(k, tuple) and k[0] == 'sym' and k[1].startswith('c.') and s.mem[k].writes))
        u.true('frame: the weights are not modified', not s.mem['wt'].writes)
        ws = s.mem[root].writes
        sets = [w for w in ws if w.mode == 'set']
        accs = [w for w in ws if w.mode == 'acc']
        # every cell starts from zero
        u.true('both parts are reset before painting', len(sets) == 2 and list(ws[:2]) == sets and {int(w.path[1].a[0]) for w in sets} == {0, 1})
        for w in sets:
            (b, lo, hi), = w.binders
            u.true('reset writes zero', w.val is ZR or w.val.op == 'num' and w.val.a[0] == 0, str(w.val))
            u.true('reset covers cell by cell', w.path[0] is b, str(w.path))
            u.eq('reset from the first', lo, ZI, pre)
            u.eq('reset to the last', hi, var('F.params.nmesh', 'I'), pre)
            u.holds('reset unconditionally', w.guard, pre)
        pids = {w.binders for w in accs}
        u.true('one particle loop paints', len(pids) == 1 and all(len(w.binders) == 1 for w in accs), '%d' % len(pids))
        (pid, lo, hi), = accs[0].binders
        u.eq('first particle', lo, ZI, pre)
        u.eq('last particle', hi, var('c.ntotal', 'I'), pre)
        deps = {}
        for part in (0, 1):
            base = app('wt[][]', (pid, num(part, 'I')), 'R') / var('F.vol_cell', 'R')
            todo = [w for w in accs if w.path[1] is num(part, 'I')]
            combos = []
            seen_guard = set()
            for w in todo:
                ix = w.path[0]
                while ix.op == 'app' and ix.a[0] in NAMED and len(axis_of(ix)) > 1:
                    ps, body = NAMED[ix.a[0]]
                    ix = subst(body, dict(zip(ps, ix.a[1:])))
                A = split_index(ix)
                v = w.val
                while v.op == 'app' and v.a[0] in NAMED and len(axis_of(v)) > 1:
                    ps, body = NAMED[v.a[0]]
                    v = subst(body, dict(zip(ps, v.a[1:])))
                q = v / base
                facs = [OR, OR, OR]
                if q.op != 'num' and q.op != 'lin' or len(axis_of(q)) <= 1:
                    for f, e in (_mono(q).items() if q.op not in ('num', 'lin') else [(q, 1)]):
                        ax = axis_of(f)
                        if len(ax) > 1:
                            u.fail('contribution factorises', 'term mixes axes', str(f)[:300])
                            return
                        a = min(ax) if ax else 0
                        facs[a] = facs[a] * _mkmono({f: e}, 'R') if f.op != 'num' else facs[a] * f
                else:
                    u.fail('contribution factorises', 'sum', str(q)[:400])
                    return
                for a in range(3):
                    if not axis_of(A[a]) <= {a}:
                        u.fail('index of axis %d depends on that axis alone' % a, 'mixed', str(A[a])[:300])
                        return
                combos.append(tuple((A[a], facs[a]) for a in range(3)))
                # the guard admits every such cell
                fr = [I('A'), I('B'), I('C')]
                g = subst(w.guard, {A[a]: fr[a] for a in range(3) if A[a].op != 'num'})
                if g not in seen_guard:
                    seen_guard.add(g)
                    n0 = num(0, 'I')
                    rows = fr[0] * N[1] + fr[1]
                    lem = [le(ZI, fr[0] * N[1]), le(fr[0] * N[1], (N[0] - 1) * N[1]), le(ZI, rows * N[2]), le(rows * N[2], (N[0] * N[1] - 1) * N[2])]
                    rng = [between(0, fr[a], N[a]) for a in range(3)]
                    # steps of the bound: each is itself discharged
                    u.holds('cell index bound step 1', and_(lem[0], lem[1]), pre + rng)
                    u.holds('cell index bound step 2', and_(le(ZI, rows), le(rows, N[0] * N[1] - 1)), pre + rng + lem[:2])
                    R_ = I('row')
                    u.holds('cell index bound step 3', and_(le(ZI, R_ * N[2]), le(R_ * N[2], (N[0] * N[1] - 1) * N[2])), pre + [le(ZI, R_), le(R_, N[0] * N[1] - 1)])
                    u.holds('the cell is inside the mesh memory and is written', g, pre + rng + lem)
            per = [list(dict.fromkeys(c[a] for c in combos)) for a in range(3)]
            u.true('part %d: every combination of the three axes is painted exactly once' % part,
                   len(combos) == len(set(combos)) == len(per[0]) * len(per[1]) * len(per[2]), '%d %s' % (len(combos), [len(x) for x in per]))
            for a in range(3):
                deps.setdefault(a, [])
                deps[a].append(per[a])
        for a in range(3):
            u.true('axis %d: both parts use the same cells and weights' % a, set(deps[a][0]) == set(deps[a][1]))
            c, w_ = I('cell'), R('u')
            n = N[a]
            m0 = app(POS, (pid, num(a, 'I')), 'R')
            ren = {m0: w_ * L[a] / toreal(n)}
            got = ZR
            h = [le(num(2, 'I'), n), le(ZR, w_), lt(w_, toreal(n)), lt(ZR, L[a])]
            for ix, wt in deps[a][0]:
                ix, wt = subst(unfold(ix), ren), subst(unfold(wt), ren)
                got = got + ite(eq(ix, c), wt, ZR)
            mI, sI = I('m'), R('s')
            # write the grid coordinate as cell + offset
            u0 = toreal(mI) + sI
            hs = [le(num(2, 'I'), n), le(ZI, mI), lt(mI, n), le(ZR, sI), lt(sI, OR), le(ZI, c), lt(c, n)]
            got = subst(got, {w_: u0})
            if shadow:
                # half a cell further: cell + offset of the displaced particle
                wantm = ite(lt(sI, rn('1/2')), mI, wrap(mI + 1, n))
                wants = ite(lt(sI, rn('1/2')), sI + rn('1/2'), sI - rn('1/2'))
            else:
                wantm, wants = mI, sI
            want = ZR
            for o in (-1, 0, 1, 2):
                want = want + ite(eq(wrap(wantm + o, n), c), bspline(ORDER[sch], num(o, 'R') - wants), ZR)
            cases = [[lt(sI, rn('1/2'))], [le(rn('1/2'), sI)]]
            for ci, ca in enumerate(cases):
                for mi, mc in enumerate(([eq(mI, ZI)], [lt(ZI, mI), lt(mI, n - 2)], [lt(ZI, mI), eq(mI, n - 2)], [lt(ZI, mI), eq(mI, n - 1)])):
                    hh = hs + ca + mc
                    X = Ctx(hh, 2000)
                    # for m = 0 a mesh of two cells is its own case
                    for nc in ([[eq(n, num(2, 'I'))], [lt(num(2, 'I'), n)]] if mi == 0 else [[]]):
                        u.eq('axis %d: weight given to any cell is the kernel of its distance (offset case %d, cell case %d%s)' % (a, ci, mi, ', two cells' if nc and nc[0].op != 'le0' else ''), got, want, hh + nc)
    return go


UNITS = [('%s%s' % (k, ' interlaced' if q else ''), unit(k, q)) for k in ORDER for q in (False, True)]


def replay(r):
    import numpy as np
    import cxx, oracle
    rng = np.random.default_rng(r.seed)
    K = 12 if r.tier == 'thorough' else 4

    def one(job):
        sch, inter, t = job
        L = cxx.lib()
        rng = np.random.default_rng(1000 * r.seed + 97 * t + 7 * ORDER[sch] + inter)
        q = type(r)()
        for rep in range(K):
            n = rng.integers(3 if t else 2, 9, 3)
            if rep == 0:
                n = np.array([[4, 5, 7], [6, 4, 8]][t % 2])
            B = rng.uniform(5, 500, 3)
            if rep % 2:
                B = n * 2. ** rng.integers(-2, 5, 3)
            m = int(rng.integers(1, 60))
            x = rng.uniform(0, 1, (m, 3)) * B
            # cell boundaries, cell centres, first and last cells, corners of the box
            for k in range(24):
                c = np.array([rng.choice([0, 1, n[a] - 1, n[a] - 2, int(rng.integers(0, n[a]))]) for a in range(3)])
                off = rng.choice([0., .25, .5, .75, 1e-3, .499, .501, .999], 3)
                if rep % 2 == 0:
                    off = np.where((off == 0) | (off == .5), off + .01, off)     # no ties when they are not exact
                x = np.vstack([x, (c + off) * B / n])
            x = np.clip(x, 0, np.nextafter(B, 0))
            w = rng.normal(size=len(x)) + 1j * rng.normal(size=len(x))
            p = cxx.params(boxsize=B, ngrid=n, assignment=sch, interlace='true' if inter else 'false')
            L.threads(int(rng.integers(1, 9)))
            mm = cxx.mesh(p)
            c = cxx.catalogue(x)
            x = cxx.cat_data(c)[:, :3].copy()
            before = cxx.cat_data(c)
            wa = cxx.A(w, np.complex128)
            for again in range(2):
                L.m_assign(mm, c, wa)
            what = '%s%s mesh %s box %s with %d particles' % (sch, ' interlaced' if inter else '', n.tolist(), np.round(B, 6).tolist(), len(x))
            q.close('painted field', cxx.field(mm, n), oracle.paint(x, w, B, n, sch), what, 1e-9, 1e-11)
            if inter:
                q.close('interlaced field', cxx.field(mm, n, s=True), oracle.paint(x, w, B, n, sch, True), what + ' displaced by half a cell', 1e-9, 1e-11)
            tot = cxx.field(mm, n).sum() * np.prod(B) / np.prod(n)
            q.close('total weight', tot, w.sum(), what + ' total', 1e-9, 1e-9 * len(x) / max(abs(w.sum()), 1e-9))
            q.case('particles untouched', np.array_equal(before, cxx.cat_data(c)) and np.array_equal(wa, w), what)
            L.m_free(mm)
            L.c_free(c)
            L.p_free(p)
        # one particle at a time, everywhere along one axis
        n, B = np.array([4, 2, 8]) if t else np.array([2, 8, 4]), np.array([16., 4., 32.])
        p = cxx.params(boxsize=B, ngrid=n, assignment=sch, interlace='true' if inter else 'false')
        mm = cxx.mesh(p)
        for a in range(3):
            for j in range(8 * n[a]):
                x = np.array([[1.3, .7, 3.1]])
                x[0, a] = B[a] * j / (8 * n[a])
                c = cxx.catalogue(x)
                L.m_assign(mm, c, cxx.A([1 + 2j], np.complex128))
                for s in ((False, True) if inter else (False,)):
                    q.close('one particle' + (' interlaced' if s else ''), cxx.field(mm, n, s=s), oracle.paint(x, [1 + 2j], B, n, sch, s),
                            '%s%s mesh %s box %s particle at %s' % (sch, ' interlaced' if inter else '', n.tolist(), B.tolist(), x[0].tolist()), 1e-9, 1e-11)
                L.c_free(c)
        return q
    jobs = [(k, i, t) for k in ORDER for i in (0, 1) for t in (0, 1)]
    for job, out in zip(jobs, cxx.pmap(one, jobs)):
        absorb(r, out, '%s%s' % (job[0], ' interlaced' if job[1] else ''))
