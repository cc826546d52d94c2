"""Plain numpy evaluation of the measurement estimators from the particles up."""
import numpy as np
import oracle


def average(g, edges, cen, x, vals, w):
    """averages over the cells g of every half-open bin in the resolved coordinate w"""
    nb = len(edges) - 1
    cnt = np.zeros(nb, int)
    xm = np.array(cen, float)
    out = [np.zeros(nb, complex) for _ in vals]
    for b in range(nb):
        q = g & (edges[b] <= w) & (w < edges[b + 1])
        cnt[b] = q.sum()
        if cnt[b]:
            xm[b] = x[q].mean()
            for o, v in zip(out, vals):
                o[b] = v[q].mean()
    return cnt, xm, out


def edges_for(rng, x, fines, nb, exact=False, lo=0., tries=0):
    """random edges away from every resolved coordinate, some bins empty"""
    hi = x.max() * rng.uniform(.4, 1.3)
    e = np.sort(rng.uniform(lo, hi, nb + 1))
    if lo == 0. and rng.uniform() < .3:
        e[0] = 0.
    if rng.uniform() < .4 and nb > 3:
        e[-1] = e[-2] + 1e-6 * hi
    if exact:
        e = np.unique(np.round(e))
        return e if len(e) > 1 else np.array([0., 1., 3.])
    for f in fines:
        if np.abs(f.ravel()[:, None] - e[None, 1 if e[0] == 0 else 0:]).min() < 1e-8 * hi and tries < 50:
            return edges_for(rng, x, fines, nb, exact, lo, tries + 1)
    return e


class Mesh:
    def __init__(s, B, n, scheme, inter):
        s.B, s.n, s.scheme, s.inter = np.asarray(B, float), np.asarray(n, int), scheme, inter
        s.K, s.X = oracle.kvec(B, n), oracle.rvec(B, n)
        s.k, s.x = oracle.mag(s.K), oracle.mag(s.X)
        s.vol, s.vc = np.prod(s.B), np.prod(s.B) / np.prod(s.n)
        s.alias = oracle.aliasing(n, scheme, inter)
        s.order = oracle.ORDER[scheme]
        s.comp = oracle.window(n, s.order) ** 2 if inter else s.alias

    def raw(s, pos, w):
        """painted mesh and its companion"""
        return [oracle.paint(pos, w, s.B, s.n, s.scheme, sh) if sh is False or s.inter else None for sh in (False, True)]

    def comb(s, *cs):
        """linear combination of (factor, painted pair)"""
        return [sum(f * q[i] for f, q in cs) if i == 0 or s.inter else None for i in (0, 1)]

    def ft(s, pair):
        return oracle.ft(pair[0], s.B, s.n, pair[1])

    def delta(s, l, m, cats, alpha):
        """the harmonic-weighted fluctuation field; cats: [(pos, w, los)] of data and randoms or of randoms alone"""
        ps = [s.raw(p, w * oracle.ylm(l, m, np.asarray(o).T)) for p, w, o in cats]
        return s.comb((1, ps[0]), (-alpha, ps[1])) if len(ps) == 2 else s.comb((alpha, ps[0]))

    def quad(s, l, m, cats, alpha):
        ps = [s.raw(p, w ** 2 * np.conj(oracle.ylm(l, m, np.asarray(o).T))) for p, w, o in cats]
        return s.comb((1, ps[0]), (alpha ** 2, ps[1])) if len(ps) == 2 else s.comb((alpha ** 2, ps[0]))

    def box(s, pos, fluct=True):
        q = s.raw(pos, np.ones(len(pos)))
        return [None if f is None else f - (len(pos) / s.vol if fluct else 0.) for f in q]

    def amp(s, l, m, cats, alpha, power):
        """shot-noise amplitude"""
        ps = [(oracle.ylm(l, m, np.asarray(o).T) * w ** power).sum() for p, w, o in cats]
        return ps[0] + alpha ** power * ps[1] if len(ps) == 2 else alpha ** power * ps[0]

    def pk(s, fa, fb, amp, l, m, edges, cen):
        y = oracle.ylm(l, m, s.K)
        cnt, xm, (pk, sn) = average(s.k / 1e-5 < 1e6, edges, cen, s.k, [fa * np.conj(fb) / s.comp * y, amp * s.alias / s.comp * y], oracle.fine(s.k, 1e-5))
        return cnt, xm, pk, sn

    def scale(s, fa, fb, amp, space):
        """magnitude of the summands"""
        return np.abs(fa * fb / s.comp).max() if space == 'fourier' else np.abs(s.xi3(fa, fb, amp)).max()

    def xi3(s, fa, fb, amp):
        return oracle.ift((fa * np.conj(fb) - amp * s.alias) / s.comp, s.B, s.n) / 1.

    def xi(s, fa, fb, amp, l, m, edges, cen):
        cnt, xm, (xi,) = average(s.x / .1 < 1e6, edges, cen, s.x, [s.xi3(fa, fb, amp) * oracle.ylm(l, m, s.X)], oracle.fine(s.x, .1))
        return cnt, xm, xi


def coupling2(l, L, m, M):
    return (2 * l + 1) * (2 * L + 1) * oracle.w3j(l, 0, L, 0, 0, 0) * oracle.w3j(l, 0, L, m, 0, M)


def twopt(mesh, cats, alpha, ELL, edges, cen, norm, space):
    f0 = mesh.ft(mesh.delta(0, 0, cats, alpha))
    sig, sn, mag = 0., 0., 0.
    for M in range(-ELL, ELL + 1):
        f = mesh.ft(mesh.delta(ELL, M, cats, alpha))
        amp = mesh.amp(ELL, M, cats, alpha, 2)
        for m in range(-ELL, ELL + 1):
            c = coupling2(ELL, ELL, m, M)
            if abs(c) < 1e-10:
                continue
            o = mesh.pk(f, f0, amp, ELL, m, edges, cen) if space == 'fourier' else mesh.xi(f, f0, amp, ELL, m, edges, cen)
            sig = sig + c * o[2]
            mag = mag + abs(c) * mesh.scale(f, f0, amp, space)
            if space == 'fourier':
                sn = sn + c * o[3]
    return o[0], o[1], norm * sig, norm * sn if space == 'fourier' else None, norm * mag


def twopt_box(mesh, pos, ELL, edges, cen, norm, space):
    f = mesh.ft(mesh.box(pos))
    o = mesh.pk(f, f, len(pos), ELL, 0, edges, cen) if space == 'fourier' else mesh.xi(f, f, len(pos), ELL, 0, edges, cen)
    c = norm * (2 * ELL + 1)
    return o[0], o[1], c * o[2], c * o[3] if space == 'fourier' else None, c * mesh.scale(f, f, len(pos), space)


def triplets(l1, l2, L):
    for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
            for M in range(-L, L + 1):
                c = (2 * l1 + 1) * (2 * l2 + 1) * (2 * L + 1) * oracle.w3j(l1, l2, L, 0, 0, 0) * oracle.w3j(l1, l2, L, m1, m2, M)
                if abs(c) > 1e-10:
                    yield m1, m2, M, c


def band(mesh, f, l, m, lo, hi):
    q = (lo <= mesh.k) & (mesh.k < hi)
    c = int(q.sum())
    y = oracle.ylm(l, m, mesh.K)
    F = np.fft.ifftn(np.where(q, y * f / oracle.window(mesh.n, mesh.order), 0)) * np.prod(mesh.n) / max(c, 1)
    return F, c, mesh.k[q].mean() if c else (lo + hi) / 2


def bessel(mesh, f, l, m, r):
    y = oracle.ylm(l, m, mesh.K)
    return np.fft.ifftn(oracle.sjl(l, mesh.k * r) * y * f / oracle.window(mesh.n, mesh.order)) * np.prod(mesh.n) / mesh.vol


def threept(mesh, cats, alpha, degs, edges, cen, norm, space, box=False, wide=None):
    """every entry (row, column) of the measurement: counts, effective coordinates, signal, shot noise and the
    magnitudes of the summands of the latter two"""
    l1, l2, L = degs
    nb = len(cen)
    if box:
        pos = cats[0][0]
        f00 = mesh.ft(mesh.box(pos))
        n00 = mesh.ft(mesh.box(pos, False))
    else:
        f00 = mesh.ft(mesh.delta(0, 0, cats, alpha))
        n00 = mesh.ft(mesh.quad(0, 0, cats, alpha))
    terms = {}
    mr, ms = 0., 0.
    if space == 'config':
        cnt, eff, _ = average(mesh.x < 1e5, edges, cen, mesh.x, [], oracle.fine(mesh.x, 1.))
    bands = {}

    def leg(l, m, i):
        if (l, m, i) not in bands:
            if space == 'fourier':
                bands[l, m, i] = band(mesh, f00, l, m, edges[i], edges[i + 1])
            else:
                bands[l, m, i] = (bessel(mesh, f00, l, m, eff[i]),)
        return bands[l, m, i]
    if space == 'fourier':
        e = [leg(0, 0, i)[1:] for i in range(nb)]
        cnt, eff = np.array([x[0] for x in e]), np.array([x[1] for x in e])
    ph = 1j ** (l1 + l2)
    for m1, m2, M, c in triplets(*degs):
        if box and M:
            continue
        raw, shot = terms[m1, m2, M] = np.zeros((nb, nb), complex), np.zeros((nb, nb), complex)
        dLM = f00 if box else mesh.ft(mesh.delta(L, M, cats, alpha))
        nLM = n00 if box else mesh.ft(mesh.quad(L, M, cats, alpha))
        amp = len(pos) if box else mesh.amp(L, M, cats, alpha, 3)
        G = oracle.ift(dLM / oracle.window(mesh.n, mesh.order), mesh.B, mesh.n)
        if wide is not None:
            with np.errstate(all='ignore'):
                G = G * np.where(mesh.x < 1e-6, 1., mesh.x ** float(-sum(wide)))
        xi3 = mesh.xi3(dLM, n00, amp)
        ya, yb = oracle.ylm(l1, m1, mesh.X), oracle.ylm(l2, m2, mesh.X)
        for i in range(nb):
            for j in range(nb):
                t = leg(l1, m1, i)[0] * leg(l2, m2, j)[0] * G
                raw[i, j] += norm * c * mesh.vc * t.sum() * (ph if space == 'config' else 1)
                mr = max(mr, norm * abs(c) * mesh.vc * np.abs(t).sum())
        if space == 'config':
            _, _, (xs,) = average(mesh.x < 1e5, edges, cen, mesh.x, [xi3 * ya * yb], oracle.fine(mesh.x, 1.))
            for i in range(nb):
                t = xs[i] / mesh.vc / max(cnt[i], 1)
                shot[i, i] += norm * c * t
            ms = max(ms, norm * abs(c) * np.abs(xi3 * ya * yb).max() / mesh.vc)
            continue
        if l1 == l2 == 0:
            shot += norm * c * amp
            ms = max(ms, abs(norm * c * amp))
        for z, l, m, tr in ((l2, l1, m1, False), (l1, l2, m2, True)):
            if z == 0:
                _, _, pk, sn = mesh.pk(f00, nLM, amp, l, m, edges, cen)
                v = norm * c * (pk - sn)
                shot += v[None, :] if tr else v[:, None]
                ms = max(ms, abs(norm * c) * np.abs(f00 * nLM / mesh.comp).max())
        for i in range(nb):
            for j in range(nb):
                t = oracle.sjl(l1, eff[i] * mesh.x) * oracle.sjl(l2, eff[j] * mesh.x) * xi3 * ya * yb
                shot[i, j] += norm * c * ph * mesh.vc * t.sum()
                ms = max(ms, abs(norm * c) * mesh.vc * np.abs(xi3 * ya * yb).sum())
    # the weights are real: opposite orders give conjugate terms, exactly except on the Nyquist planes, where
    # summing all orders and mirroring one half of them differ
    par = (-1) ** L if space == 'fourier' else 1
    out = []
    for half in (None, True, False):
        a = [np.zeros((nb, nb), complex) for _ in range(2)]
        for ms_, v in terms.items():
            z = next((x < 0 for x in ms_ if x), None)
            for i in (0, 1):
                if half is None or z is None:
                    a[i] += v[i]
                elif z == half:
                    a[i] += v[i] + par * np.conj(v[i])
        out.append(a)
    return cnt, eff, out, mr, ms


def entries(shape, nb, idx):
    """rows and columns of the entries of a layout, in order"""
    if shape == 'diag':
        return [(i, i) for i in range(nb)]
    if shape == 'off-diag':
        return [(i, i + idx) if idx >= 0 else (i - idx, i) for i in range(nb - abs(idx))]
    if shape == 'row':
        return [(idx, j) for j in range(nb)]
    if shape == 'full':
        return [(i, j) for i in range(nb) for j in range(nb)]
    return [(i, j) for i in range(nb) for j in range(i, nb)]
