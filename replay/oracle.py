"""Plain numpy evaluation of the contracts' right-hand sides (mesh quantities, statistics)."""
import itertools, math
import numpy as np
ORDER = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}


def kernel(order, d):
    a = np.abs(d)
    if order == 1:
        return ((d > -.5) & (d <= .5)).astype(float)
    if order == 2:
        return np.clip(1 - a, 0, None)
    if order == 3:
        return np.where(a < .5, .75 - a * a, np.where(a < 1.5, .5 * (1.5 - a) ** 2, 0.))
    return np.where(a < 1, (4 - 6 * a * a + 3 * a ** 3) / 6, np.where(a < 2, (2 - a) ** 3 / 6, 0.))


def paint(pos, w, L, n, scheme, shadow=False):
    """periodic B-spline painting; the shadow mesh is painted half a cell further"""
    L, n = np.asarray(L, float), np.asarray(n, int)
    p = ORDER[scheme]
    f = np.zeros(tuple(n), complex)
    for x, wt in zip(np.asarray(pos, float), np.asarray(w, complex)):
        ax = []
        for a in range(3):
            u = x[a] / L[a] * n[a] + (.5 if shadow else 0.)
            q = np.zeros(n[a])
            for c in range(int(np.floor(u)) - 3, int(np.floor(u)) + 5):
                q[c % n[a]] += kernel(p, np.float64(c - u))
            ax.append(q)
        f += wt * ax[0][:, None, None] * ax[1][None, :, None] * ax[2][None, None, :]
    return f / (np.prod(L) / np.prod(n))


def signed(n):
    """the convention of the library: indices from n/2 (rounded down) upwards are negative"""
    i = np.arange(n)
    return np.where(i < n // 2, i, i - n)


def grids(n):
    return np.meshgrid(*[signed(q) for q in n], indexing='ij')


def kvec(L, n):
    return np.stack([g * 2 * np.pi / l for g, l in zip(grids(n), L)])


def rvec(L, n):
    return np.stack([g * l / q for g, l, q in zip(grids(n), L, n)])


def mag(v):
    return np.sqrt((v ** 2).sum(0))


def ft(f, L, n, fs=None):
    vc = np.prod(L) / np.prod(n)
    F = np.fft.fftn(f) * vc
    if fs is not None:
        ph = sum(g / q for g, q in zip(grids(n), n))
        F = (F + np.exp(1j * np.pi * ph) * np.fft.fftn(fs) * vc) / 2
    return F


def ift(F, L, n):
    return np.fft.ifftn(F) * np.prod(n) / np.prod(L)


def window(n, order):
    return np.prod([np.sinc(g / q) for g, q in zip(grids(n), n)], axis=0) ** order


def aliasing(n, scheme, interlace):
    s = [np.sin(np.pi * g / q) ** 2 for g, q in zip(grids(n), n)]
    if not interlace:
        if scheme == 'ngp':
            return np.ones(tuple(n))
        f = {'cic': lambda s: 1 - 2 / 3 * s, 'tsc': lambda s: 1 - s + 2 / 15 * s ** 2,
             'pcs': lambda s: 1 - 4 / 3 * s + 2 / 5 * s ** 2 - 4 / 315 * s ** 3}[scheme]
        return f(s[0]) * f(s[1]) * f(s[2])
    # isotropic approximation of the interlaced form, in half the total phase
    u = np.sqrt(sum((np.pi * g / q) ** 2 for g, q in zip(grids(n), n))) / 2
    S, C = np.sin(u) ** 2, np.cos(u) ** 2
    f = {'ngp': lambda s: np.ones_like(s), 'cic': lambda s: 1 - 2 / 3 * s, 'tsc': lambda s: 1 - s + 2 / 15 * s ** 2,
         'pcs': lambda s: 1 - 4 / 3 * s + 2 / 5 * s ** 2 - 4 / 315 * s ** 3}[scheme]
    return C ** ORDER[scheme] * f(S)


def legendre_norm(l, m):
    return math.sqrt(math.factorial(l - m) / math.factorial(l + m))


def ylm(l, m, v):
    """reduced harmonic sqrt((l-|m|)!/(l+|m|)!) P_l^|m|(mu) e^{i m phi}, Condon-Shortley; v has shape (3, ...)"""
    v = np.asarray(v, float)
    r = np.sqrt((v ** 2).sum(0))
    M = abs(m)
    with np.errstate(all='ignore'):
        mu = np.where(r > 0, v[2] / r, 0.)
    rxy = np.sqrt(v[0] ** 2 + v[1] ** 2)
    s = np.where(r > 0, rxy / np.where(r > 0, r, 1), 0.)
    # associated Legendre with the Condon-Shortley phase by upward recurrence
    pmm = np.ones_like(mu)
    for k in range(1, M + 1):
        pmm = -pmm * (2 * k - 1) * s
    if l == M:
        p = pmm
    else:
        a, b = pmm, mu * (2 * M + 1) * pmm
        for k in range(M + 2, l + 1):
            a, b = b, ((2 * k - 1) * mu * b - (k + M - 1) * a) / (k - M)
        p = b
    ph = np.where(rxy > 0, (v[0] + 1j * v[1]) / np.where(rxy > 0, rxy, 1), 1.)
    y = legendre_norm(l, M) * p * ph ** M
    if m < 0:
        y = (-1) ** M * np.conj(y)
    # the library works with the conjugate harmonic
    return np.conj(np.where(r > 0, y, 1. if l == 0 and m == 0 else 0.))


def w3j(j1, j2, j3, m1, m2, m3):
    """Racah's formula in exact integers"""
    from fractions import Fraction as Fr
    if m1 + m2 + m3 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3 or not abs(j1 - j2) <= j3 <= j1 + j2:
        return 0.
    f = math.factorial
    t = Fr(f(j1 + j2 - j3) * f(j1 - j2 + j3) * f(-j1 + j2 + j3), f(j1 + j2 + j3 + 1))
    pre = t * f(j1 + m1) * f(j1 - m1) * f(j2 + m2) * f(j2 - m2) * f(j3 + m3) * f(j3 - m3)
    s = Fr(0)
    for k in range(max(0, j2 - j3 - m1, j1 - j3 + m2), min(j1 + j2 - j3, j1 - m1, j2 + m2) + 1):
        s += Fr((-1) ** k, f(k) * f(j1 + j2 - j3 - k) * f(j1 - m1 - k) * f(j2 + m2 - k) * f(j3 - j2 + m1 + k) * f(j3 - j1 - m2 + k))
    if s == 0:
        return 0.
    return (-1) ** (j1 - j2 - m3) * math.copysign(math.sqrt(pre * s * s), s)


def sjl(l, x):
    from scipy.special import spherical_jn
    return spherical_jn(l, x)


def fine(x, d):
    """the coordinate resolved on the internal sampling grid"""
    return np.floor(x / d) * d
