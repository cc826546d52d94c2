"""The real FFTLog (C++) behind the class of _fftlog.pyx, and the transform written out in NumPy."""
import ctypes as ct, threading
import numpy as np
import cxx

LOCK = threading.RLock()            # FFTW's planner is not thread-safe


class Cpp:
    """trv::maths::HankelTransform as declared to Cython"""

    def __init__(s, mu, q, threaded):
        h = ct.c_void_p()
        with LOCK:
            cxx.lib().h_new(float(mu), float(q), ct.byref(h))
        s.h = cxx.H(h.value)
        s.info()

    def info(s):
        o = np.zeros(12)
        cxx.lib().h_info(s.h, o)
        s.nsamp, s.nsamp_trans, s.logres, s.pivot, s.order, s.bias, s.n_ext = int(o[0]), int(o[1]), o[2], o[3], o[10], o[11], int(o[4])
        return o

    def initialise(s, x, kr_c, lowring, extrap, extrap_exp):
        x = np.array(x, dtype=float)
        with LOCK:
            cxx.lib().h_init(s.h, x, len(x), float(kr_c), bool(lowring), int(extrap), float(extrap_exp))
        o = s.info()
        b = [np.zeros(max(int(o[i]), 1)) for i in (5, 6, 7, 8)] + [np.zeros(2 * int(o[9]))]
        cxx.lib().h_get(s.h, *b)
        s.pre_sampts, s.post_sampts = list(b[0]), list(b[1])
        s.pre_ext, s.post_ext, s.kernel = b[2][:int(o[7])], b[3][:int(o[8])], b[4].view(complex)

    def biased_transform(s, a, b):
        for v in (a, b):                # memory beyond the arrays is not touched here
            if len(v) < s.nsamp:
                raise MemoryError('array of %d samples read or written up to sample %d' % (len(v), s.nsamp))
        with LOCK:
            cxx.lib().h_trans(s.h, a, b)

    def __del__(s):
        if getattr(s, 'h', None):
            cxx.lib().h_free(s.h)


def glue():
    """the class HankelTransform of _fftlog.pyx, extracted from its current text and run by Python on the real transform"""
    import os, types, sys, inspect, pyx, pyreal
    x = pyx.Extract(os.path.join(pyreal.SRC, '_fftlog.pyx'))
    at = x.classes['HankelTransform']

    def cset(o, k, v):
        t = at[k]
        object.__setattr__(o, k, float(v) if t == 'double' else int(v) if t == 'int' else np.array(v, dtype=float).tolist() if t.startswith('vector') else v)

    def addr(a, i):
        if not isinstance(a, np.ndarray) or i != 0:
            raise TypeError('address')
        return a
    m = types.ModuleType('triumvirate._fftlog')
    m.__package__ = 'triumvirate'
    m.__dict__.update(_cset_=cset, _cast_=lambda t, v: {'double': float, 'int': int}.get(t, lambda q: q)(v), _addr_=addr, _delete_=lambda p: None, CppHankelTransform=Cpp)
    sys.modules[m.__name__] = m
    exec(compile(x.tree, x.path, 'exec'), m.__dict__)
    c = m.__dict__['HankelTransform']
    for n, ty in x.types.items():
        o, _, f = n.rpartition('.')
        if o == 'HankelTransform' and any('ndarray' in t for t in ty.values()):
            def typed(f, ty):
                sig = inspect.signature(f)

                def g(*a, **k):
                    for n, v in sig.bind(*a, **k).arguments.items():
                        if 'ndarray' in ty.get(n, ''):
                            if v is None:
                                raise TypeError(n)
                            if not isinstance(v, np.ndarray) or v.dtype != (complex if 'complex' in ty[n] else float) or v.ndim != 1 or not v.flags.c_contiguous:
                                raise ValueError('Buffer of ' + n)
                    return f(*a, **k)
                return g
            setattr(c, f, typed(getattr(c, f), ty))
    c.n_ext, c.pre_ext, c.post_ext, c.kernel = (property(lambda s, k=k: getattr(s.thisptr, k)) for k in ('n_ext', 'pre_ext', 'post_ext', 'kernel'))
    return c


def kernel(mu, q, N, dL, kr):
    """logarithmic Fourier modes of (k r)^q J_mu (k r) (Hamilton 2000), from the gamma function"""
    from scipy.special import loggamma
    m = np.arange(N)
    m = np.where(m > N // 2, m - N, m)
    w = 2j * np.pi * m / (N * dL)
    u = np.exp((q + w) * np.log(2.) + loggamma((mu + 1 + q + w) / 2) - loggamma((mu + 1 - q - w) / 2) - w * np.log(kr))
    if N % 2 == 0:
        u[N // 2] = u[N // 2].real
    return u


def fftlog(f, mu, q, dL, kr):
    """the transform at k_j = kr/x_0 exp((j - N) dL), by explicit sums"""
    N = len(f)
    c = np.fft.fft(f) / N
    j, m = np.arange(N)[:, None], np.arange(N)[None, :]
    return np.exp(-2j * np.pi * (j * m % N) / N) @ (c * kernel(mu, q, N, dL, kr))


def lowring(mu, q, dL, kr):
    """nearest pivot for which the Nyquist mode is real"""
    from scipy.special import loggamma
    y = np.pi / (2 * dL)
    ph = loggamma((mu + 1 + q) / 2 + 1j * y).imag + loggamma((mu + 1 - q) / 2 + 1j * y).imag
    return np.log(2. / kr) / dL + ph / np.pi


def sbt(x, f, ell, n, pivot):
    """spherical Bessel transform 4 pi int r^2 dr j_ell (k r) f(r), with bias n in (k r)"""
    N, dL = len(x), np.log(x[-1] / x[0]) / (len(x) - 1)
    k = pivot * np.exp(-dL) / x[::-1]
    return k, (2 * np.pi / k) ** 1.5 * fftlog(f * x ** 1.5, ell + .5, n, dL, pivot)
