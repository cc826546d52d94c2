"""P08: normalisation factors equal the inverse of their defining integral (twopt.cpp, threept.cpp, field.cpp)."""
from meshlib import *
from c_P04 import Paint, pel

LEVEL = 'proof'
TRUSTED = ['doubles are treated as reals',
           'assign_weighted_field_to_mesh is used through its contract (discharged in P01); alignment and offsetting of catalogues through theirs (discharged in P12)']
NT = 'd.ntotal'
PID = var('pid', 'I')


def psum(cat, t):
    return sum_(PID, ZI, var(cat + '.ntotal', 'I'), t)


def pf(cat, f):
    return app('%s.pdata*[].%s' % (cat, f), (PID,), 'R')


def unit_particles(fn, nzp, wcp, tu):
    def go(u):
        M = Machine((tu, 'particles', 'field'))
        s = M.state()
        s.mem['d'] = M.X.sym('trv::ParticleCatalogue', 'd')
        n = psum('d', pf('d', 'ws') * powi(pf('d', 'nz'), nzp) * powi(pf('d', 'wc'), wcp))
        al = R('alpha')
        v = M.run(fn, s, None, [Loc('d'), al])
        u.fn(fn)
        ok = [not_(eq(n, ZR)), not_(eq(al, ZR))]
        u.eq('reciprocal of alpha times the particle sum', v, OR / (al * n), ok)
        u.holds('a vanishing sum is rejected', implies(eq(n, ZR), M.throw_cond()))
        u.true('the catalogue is not modified', not any(isinstance(q, tuple) and q[0] == 'sym' and q[1].startswith('d') and s.mem[q].writes for q in s.mem))
        M = Machine((tu, 'particles', 'field'))
        s = M.state()
        s.mem['d'] = M.X.sym('trv::ParticleCatalogue', 'd').set('pdata', NULL)
        u.true('uninitialised particles are rejected', M.never_returns(fn, s, None, [Loc('d'), al]))
    return go


def unit_powlaw(order):
    def go(u):
        p = Paint()
        M = Machine(('field', 'particles'), contracts={'trv::MeshField::assign_weighted_field_to_mesh': p})
        s = M.state()
        s.mem['this'] = M.X.sym('trv::MeshField', 'F')
        s.mem['d'] = M.X.sym('trv::ParticleCatalogue', 'd')
        v = M.run('trv::MeshField::calc_grid_based_powlaw_norm', s, Loc('this'), [Loc('d'), num(order, 'I')])
        u.fn('trv::MeshField::calc_grid_based_powlaw_norm')
        u.true('one painting of the catalogue on this mesh', len(p.calls) == 1 and p.calls[0]['this'] == Loc('this') and p.calls[0]['cat'] == Loc('d'), repr(p.calls))
        c = p.calls[0]
        h = [between(0, PID, var(NT, 'I'))]
        u.eq('weight of every particle', c['w'].read((c['off'] + PID, ZI)), app('d.pdata*[].w', (PID,), 'R'), h)
        u.eq('weight of every particle, imaginary part', c['w'].read((c['off'] + PID, OI)), ZR, h)
        g = var('gq', 'I')
        w = var('F.vol_cell', 'R') * sum_(g, ZI, var('F.params.nmesh', 'I'), powi(pel(1, False, 0, g), order))
        u.eq('reciprocal of the volume integral', v, OR / w, [not_(eq(w, ZR))])
    return go


def unit_mesh(fn, order, tu, inter):
    def go(u):
        calls = []

        def c_norm(X, st, th, args, e):
            o = X.load(st, th)
            calls.append((args[0], args[1], [o.get('params').get('ngrid'), o.get('params').get('boxsize'), o.get('params').get('assignment'), o.get('vol_cell')]))
            return R('pnorm')
        M = Machine((tu, 'particles', 'field', 'parameters'), contracts={'trv::MeshField::calc_grid_based_powlaw_norm': c_norm})
        s = M.state()
        s.mem['d'] = M.X.sym('trv::ParticleCatalogue', 'd')
        s.mem['p'] = M.X.sym('trv::ParameterSet', 'p').set('interlace', st(inter))
        al = R('alpha')
        v = M.run(fn, s, None, [Loc('d'), Loc('p'), al])
        u.fn(fn)
        u.true('the volume integral of the catalogue', len(calls) == 1 and calls[0][0] == Loc('d'), repr(calls))
        u.eq('order of the integral', lift(calls[0][1], 'I'), num(order, 'I'))
        for a in range(3):
            u.eq('mesh number %d' % a, calls[0][2][0].e[a], var('p.ngrid[%d]' % a, 'I'))
            u.eq('box size %d' % a, calls[0][2][1].e[a], var('p.boxsize[%d]' % a, 'R'))
        u.eq('scheme', calls[0][2][2], var('p.assignment', 'S'))
        u.eq('cell volume', calls[0][2][3], var('p.volume', 'R') / toreal(var('p.nmesh', 'I')), [lt(ZI, var('p.nmesh', 'I'))])
        u.eq('reciprocal of alpha power times the integral', v, R('pnorm') / powi(al, order), [not_(eq(al, ZR))])
    return go


class Align:
    """contracts on the joint alignment and on offsetting: both catalogues move by one vector,
    positions and lower extents alike (discharged in P12)"""

    def __init__(s):
        s.calls, s.disp, s.k = [], {}, 0

    def move(s, X, st, cat, v):
        for a in range(3):
            L = Loc(cat[0], tuple(cat[1]) + ('pos_min', num(a, 'I')))
            X.store(st, L, X.load(st, L) + v[a])
        d = s.disp.setdefault(cat[0], [ZR] * 3)
        s.disp[cat[0]] = [x + y for x, y in zip(d, v)]

    def joint(s, name):
        def f(X, st, th, args, e):
            s.k += 1
            s.calls.append((name, args[0], args[1], [vec_arg(X, st, a) for a in args[2:]], dict((k, list(v)) for k, v in s.disp.items())))
            v = [var('%s%d.v%d' % (name, s.k, a), 'R') for a in range(3)]
            s.move(X, st, args[0], v)
            s.move(X, st, args[1], v)
            return None
        return f

    def offset(s, X, st, th, args, e):
        v = vec_arg(X, st, args[0])
        s.calls.append(('offset', th, None, [v], None))
        s.move(X, st, th, [neg(x) for x in v])
        return None


class Paint2(Paint):
    def __init__(s, al):
        Paint.__init__(s)
        s.al = al

    def __call__(s, X, st, th, args, e):
        r = Paint.__call__(s, X, st, th, args, e)
        s.calls[-1]['disp'] = [list(s.al.disp.get(q, [ZR] * 3)) for q in ('d', 'r')]
        s.calls[-1]['prm'] = X.load(st, th).get('params')
        return r


def unit_meshes(case):
    alignment, scale = case
    fn = 'trv::calc_powspec_normalisation_from_meshes'

    def go(u):
        al_ = Align()
        p = Paint2(al_)
        pre = 'trv::ParticleCatalogue::'
        c = {'trv::MeshField::assign_weighted_field_to_mesh': p, pre + 'offset_coords': al_.offset}
        for n in ('pad_grids', 'pad_in_box', 'centre_in_box'):
            c[pre + n] = al_.joint(n)
        M = Machine(('twopt', 'particles', 'field', 'parameters'), contracts=c)
        s = M.state()
        s.mem['d'] = M.X.sym('trv::ParticleCatalogue', 'd')
        s.mem['r'] = M.X.sym('trv::ParticleCatalogue', 'r')
        s.mem['p'] = M.X.sym('trv::ParameterSet', 'p').set('alignment', st(alignment)).set('padscale', st(scale)).set('interlace', st('false'))
        M.ctx.push(lt(ZI, var('p.nmesh', 'I')))
        al = R('alpha')
        v = M.run(fn, s, None, [Loc('d'), Loc('r'), Loc('p'), al], 4)
        u.fn(fn + ' (parameter set)')
        want = {('pad', 'grid'): 'pad_grids', ('pad', 'box'): 'pad_in_box', ('centre', 'box'): 'centre_in_box'}.get(case)
        js = [c for c in al_.calls if c[0] != 'offset']
        if want:
            u.true('one joint alignment, data first', len(js) == 1 and js[0][0] == want and js[0][1] == Loc('d') and js[0][2] == Loc('r'), repr(js))
            if len(js) != 1:
                return
            box = [var('p.boxsize[%d]' % a, 'R') for a in range(3)]
            pf_ = [var('p.padfactor', 'R')] * 3
            exp = [box] + ([[toreal(var('p.ngrid[%d]' % a, 'I')) for a in range(3)]] if want == 'pad_grids' else []) + ([pf_] if want != 'centre_in_box' else [])
            u.true('arguments of the alignment', len(js[0][3]) == len(exp))
            for got, w in zip(js[0][3], exp):
                for a in range(3):
                    x = got[a]
                    u.eq('alignment argument', toreal(x) if x.s == 'I' else x, w[a])
            vv = [var('%s1.v%d' % (want, a), 'R') for a in range(3)]
        else:
            u.true('no alignment', not js)
            vv = [ZR] * 3
        u.true('each catalogue painted once', len(p.calls) == 2 and {c['cat'] for c in p.calls} == {Loc('d'), Loc('r')}, repr([c['cat'] for c in p.calls]))
        if len(p.calls) != 2:
            return
        k = {c['cat'][0]: i + 1 for i, c in enumerate(p.calls)}
        u.true('on two meshes', p.calls[0]['this'] != p.calls[1]['this'])
        for c in p.calls:
            cat = c['cat'][0]
            h = [between(0, PID, var(cat + '.ntotal', 'I'))]
            u.eq('weight of every particle of ' + cat, c['w'].read((c['off'] + PID, ZI)), app(cat + '.pdata*[].w', (PID,), 'R'), h)
            u.eq('imaginary weight of every particle of ' + cat, c['w'].read((c['off'] + PID, OI)), ZR, h)
            for q in range(2):
                for a in range(3):
                    u.eq('both catalogues are aligned when painted', c['disp'][q][a], vv[a])
            for a in range(3):
                u.eq('mesh of the painting', c['prm'].get('ngrid').e[a], var('p.ngrid[%d]' % a, 'I'))
        for q in ('d', 'r'):
            for a in range(3):
                u.eq('catalogue %s is back where it was' % q, al_.disp.get(q, [ZR] * 3)[a], ZR)
                u.eq('extent of %s is back' % q, M.read(s, Loc(q), 'pos_min', a), var('%s.pos_min[%d]' % (q, a), 'R'))
        g = var('gq', 'I')
        n = sum_(g, ZI, var('p.nmesh', 'I'), pel(k['d'], False, 0, g) * pel(k['r'], False, 0, g))
        I2 = al * n * var('p.volume', 'R') / toreal(var('p.nmesh', 'I'))
        u.eq('reciprocal of the volume integral of the product', v, OR / I2, [not_(eq(I2, ZR)), not_(eq(al, ZR)), lt(ZR, var('p.volume', 'R')), lt(ZI, var('p.nmesh', 'I')), not_(eq(n, ZR))])
    return go


def unit_meshes_box(u):
    fn = 'trv::calc_powspec_normalisation_from_meshes'
    calls, val = [], []

    def c_val(X, st, th, args, e):
        o = X.load(st, th)
        val.append(o)
        # contract of validate (decided by P14): the derived fields follow the primary ones
        X.store(st, th, o.set('nmesh', I('v.nmesh')).set('volume', R('v.volume')))
        return num(0, 'I')
    M = Machine(('twopt', 'particles', 'field', 'parameters'), contracts={'trv::ParameterSet::validate': c_val})
    X = M.X
    node = M.fnode(fn, 7)
    first = M.fnode(fn, 4)
    orig = X.call_fn

    def call_fn(nd, st, this, args, q, *a, **k):
        if nd is first:
            calls.append((list(args), X.load(st, args[2]) if isinstance(args[2], Loc) else args[2]))
            return R('inner')
        return orig(nd, st, this, args, q, *a, **k)
    X.call_fn = call_fn
    s = M.state()
    s.mem['d'] = X.sym('trv::ParticleCatalogue', 'd')
    s.mem['r'] = X.sym('trv::ParticleCatalogue', 'r')
    s.mem['p'] = X.sym('trv::ParameterSet', 'p')
    p0 = s.mem['p']
    sp = [var('%s.pos_span[%d]' % (c, a), 'R') for c in 'dr' for a in range(3)]
    pad, cell = R('padding'), R('cellsize')
    H = [lt(ZR, x) for x in sp] + [le(ZR, pad), lt(ZR, cell)]
    M.ctx.push(and_(*H))
    v = X.call_fn(node, s, None, [Loc('d'), Loc('r'), Loc('p'), R('alpha'), pad, cell, st('cic')], fn)
    u.fn(fn + ' (padding and cell size)')
    u.true('the mesh normalisation is asked for once, with the two catalogues', len(calls) == 1 and calls[0][0][0] == Loc('d') and calls[0][0][1] == Loc('r'), repr(calls)[:200])
    if len(calls) != 1:
        return
    u.true('with a validated parameter set', len(val) == 1)
    u.eq('its value is returned', v, R('inner'))
    u.eq('with the same alpha', calls[0][0][3], R('alpha'))
    q = calls[0][1]
    n = q.get('ngrid').e
    b = q.get('boxsize').e
    mx = sp[0]
    for x in sp[1:]:
        mx = ite(lt(mx, x), x, mx)
    w = (OR + pad) * mx / cell
    for a in range(3):
        u.eq('cubic mesh', n[a], n[0])
        u.eq('cell size is enforced', b[a], toreal(n[a]) * cell, H)
    u.eq('even mesh', imod(n[0], num(2, 'I')), ZI, H)
    for x in sp:
        u.holds('the box covers the padded span', le((OR + pad) * x, toreal(n[0]) * cell), H)
        u.holds('the mesh is at most one cell too large to be even', implies(and_(*[le(y, x) for y in sp]), lt(toreal(n[0]), (OR + pad) * x / cell + rn(2))), H)
    u.eq('scheme', q.get('assignment'), st('cic'))
    u.true('fields set before validation', val[0].get('ngrid').e == n and val[0].get('boxsize').e == b and val[0].get('assignment') is q.get('assignment'))
    for k in ('alignment', 'padscale', 'padfactor', 'interlace'):
        u.eq('kept: ' + k, q.get(k), p0.get(k))
    u.true('the given parameter set is not modified', s.mem['p'] == p0)


UNITS = [('two-point particle sum', unit_particles('trv::calc_powspec_normalisation_from_particles', 1, 2, 'twopt')),
         ('three-point particle sum', unit_particles('trv::calc_bispec_normalisation_from_particles', 2, 3, 'threept'))]
UNITS += [('volume integral of power %d' % o, unit_powlaw(o)) for o in (2, 3)]
for _i in ('true', 'false'):
    UNITS += [('two-point mesh, interlacing ' + _i, unit_mesh('trv::calc_powspec_normalisation_from_mesh', 2, 'twopt', _i)),
              ('three-point mesh, interlacing ' + _i, unit_mesh('trv::calc_bispec_normalisation_from_mesh', 3, 'threept', _i))]
UNITS += [('mixed meshes %s %s' % c, unit_meshes(c)) for c in (('pad', 'grid'), ('pad', 'box'), ('centre', 'box'), ('none', 'box'))]
UNITS += [('mixed meshes of a given cell size', unit_meshes_box)]


def replay(r):
    import numpy as np
    import cxx, oracle

    def body(t):
        L = cxx.lib()
        rng = np.random.default_rng(1000 * r.seed + t)
        q = type(r)()
        one = lambda f, *a: (f(*a, out), float(out[0]))[1]
        out = np.zeros(1)
        for rep in range(40 if r.tier == 'thorough' else 8):
            n = rng.integers(4, 9, 3)
            B = rng.uniform(50, 400, 3)
            sch = ['ngp', 'cic', 'tsc', 'pcs'][int(rng.integers(4))]
            inter = ['true', 'false'][int(rng.integers(2))]
            L.threads(int(rng.integers(1, 6)))
            nd, nr = int(rng.integers(1, 30)), int(rng.integers(1, 60))
            if rep == 1:
                nd, nr = 1, 1
            off = rng.uniform(-500, 500, 3)
            # randoms span less than the box; data inside their extent
            ur = rng.uniform(0, 1, (nr, 3))
            span = B * .6
            pr = off + ur * span
            lo, hi = pr.min(0), pr.max(0)
            pd = lo + rng.uniform(0, 1, (nd, 3)) * (hi - lo)
            wd, wr = rng.uniform(.2, 3, (2, nd)), rng.uniform(.2, 3, (2, nr))
            nzd, nzr = rng.uniform(.1, 2, nd), rng.uniform(.1, 2, nr)
            cd, cr = cxx.catalogue(pd, nzd, *wd), cxx.catalogue(pr, nzr, *wr)
            al = float(rng.uniform(.05, 2))
            what = 'mesh %s box %s %s interlace=%s %d data %d randoms alpha=%g' % (n.tolist(), np.round(B, 2).tolist(), sch, inter, nd, nr, al)
            q.close('two-point particle sum', one(L.n2_part, cr, al), 1 / (al * (nzr * wr[0] * wr[1] ** 2).sum()), what + ' two-point from particles')
            q.close('three-point particle sum', one(L.n3_part, cr, al), 1 / (al * (nzr ** 2 * wr[0] * wr[1] ** 3).sum()), what + ' three-point from particles')
            # meshes: a catalogue inside the box
            p = cxx.params(boxsize=B, ngrid=n, assignment=sch, interlace=inter)
            pin = rng.uniform(0, 1, (nr, 3)) * B
            cb = cxx.catalogue(pin, nzr, *wr)
            w = wr[0] * wr[1]
            f = oracle.paint(pin, w, B, n, sch).real
            vc = np.prod(B) / np.prod(n)
            q.close('two-point mesh integral', one(L.n2_mesh, cb, p, al), 1 / (al ** 2 * vc * (f ** 2).sum()), what + ' two-point from mesh')
            q.close('three-point mesh integral', one(L.n3_mesh, cb, p, al), 1 / (al ** 3 * vc * (f ** 3).sum()), what + ' three-point from mesh')
            d0, r0, b0 = cxx.cat_data(cd), cxx.cat_data(cr), cxx.cat_data(cb)
            W = wd[0] * wd[1]
            for alignment, scale in (('pad', 'grid'), ('pad', 'box'), ('centre', 'box')):
                pf = float(rng.uniform(.5, 1.5)) if scale == 'grid' else float(rng.uniform(.01, .2))
                pm = cxx.params(boxsize=B, ngrid=n, assignment=sch, interlace=inter, alignment=alignment, padscale=scale, padfactor=pf)

                def mixed(B_, n_, sch_):
                    if alignment == 'centre':
                        v = (lo + hi) / 2 - B_ / 2
                    else:
                        v = lo - (pf * B_ / n_ if scale == 'grid' else pf * B_)
                    fd, fr = oracle.paint(pd - v, W, B_, n_, sch_).real, oracle.paint(pr - v, w, B_, n_, sch_).real
                    return 1 / (al * np.prod(B_) / np.prod(n_) * (fd * fr).sum()) if (fd * fr).sum() else np.inf
                wh = what + ' %s %s factor=%g' % (alignment, scale, pf)
                q.close('mixed mesh integral', one(L.n2_meshes, cd, cr, pm, al), mixed(B, n, sch), wh, 1e-6, 1e-12)
                pad, sch2 = float(rng.uniform(.3, .8)), ['ngp', 'cic', 'tsc', 'pcs'][int(rng.integers(4))]
                sp = max((pd.max(0) - pd.min(0)).max(), (hi - lo).max())
                if sp > 0 and not (alignment == 'pad' and scale == 'box' and (1 + pad) * sp * (1 - pf) < sp):
                    cell = float(sp * rng.uniform(.12, .3))
                    m = int(np.ceil((1 + pad) * sp / cell))
                    m += m % 2
                    if not (alignment == 'pad' and scale == 'grid' and (m - pf) * cell <= sp):
                        # a full parameter set, so that it passes validation
                        q.close('mixed mesh integral at a cell size', one(L.n2_meshes2, cd, cr, pm, al, pad, cell, sch2),
                                mixed(np.full(3, m * cell), np.full(3, m), sch2), wh + ' padding=%g cell=%g %s' % (pad, cell, sch2), 1e-6, 1e-12)
                        q.close('mesh of the parameter set kept', [L.p_geti(pm, 'ngrid', a) for a in range(3)], list(n), wh, 0, 0)
                L.p_free(pm)
            for c, c0, nme in ((cd, d0, 'data'), (cr, r0, 'randoms'), (cb, b0, 'mesh catalogue')):
                c1 = cxx.cat_data(c)
                q.close('positions restored', c1[:, :3], c0[:, :3], what + ' positions of the %s after normalisation' % nme, 1e-9, 1e-9)
                q.close('weights kept', c1[:, 3:], c0[:, 3:], what + ' weights of the %s after normalisation' % nme, 0, 0)
            # a vanishing sum
            cz = cxx.catalogue(pr, np.zeros(nr), *wr)
            for f, nme in ((L.n2_part, 'two'), (L.n3_part, 'three')):
                try:
                    f(cz, al, out)
                    q.case('vanishing sum accepted', False, what + ': %s-point particle normalisation of zero number density gives %r' % (nme, out[0]))
                except cxx.Raised:
                    q.case('vanishing sum rejected', True, what)
            L.c_free(cz), L.c_free(cd), L.c_free(cr), L.c_free(cb), L.p_free(p)
        return q
    for o in cxx.pmap(body, range(8)):
        absorb(r, o)
