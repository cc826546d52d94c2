"""Builds the real C++ library of the current tree (plus the C shim) and drives it."""
import atexit, concurrent.futures, ctypes as ct, glob, os, pickle, shutil, signal, subprocess, sys, tempfile, traceback
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(REPO, 'src', 'triumvirate')
FLAGS = ['-std=c++17', '-O1', '-fopenmp', '-fPIC', '-w', '-DTRV_USE_OMP', '-DTRV_USE_FFTWOMP', '-DTRV_EXTCALL', '-D_GLIBCXX_ASSERTIONS']
for _v, _x in (('OMP_WAIT_POLICY', 'passive'), ('GOMP_SPINCOUNT', '0'), ('OPENBLAS_NUM_THREADS', '1')):    # several processes share the cores
    os.environ.setdefault(_v, _x)
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='trvreplay')
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True) if os.getpid() == pid else None)
    return _scratch


MISSING = []


class BuildError(Exception):
    pass


def build(extra=()):
    d = tempfile.mkdtemp(prefix='b', dir=scratch())
    # the shim is compiled section by section: a section that no longer fits the tree's
    # internals is left out, and only the replays that need it report an error
    text = open(HERE + '/shim.cpp').read().split('\n// ---- ')
    pieces = []
    for i, sec in enumerate(text[1:]):
        f = os.path.join(d, 'shim%d.cpp' % i)
        if sec.rstrip().endswith('}\n}'):
            sec = sec.rstrip()[:-1]
        open(f, 'w').write(text[0] + '\n// ' + sec + '\n}\n')
        pieces.append(f)
    srcs = sorted(glob.glob(SRC + '/src/*.cpp'), key=lambda s: -os.path.getsize(s)) + pieces

    def one(s):
        o = os.path.join(d, os.path.basename(s)[:-4] + '.o')
        r = subprocess.run(['g++'] + FLAGS + (['-O0'] if s in pieces else []) + list(extra) + ['-I' + SRC + '/include', '-c', s, '-o', o], capture_output=True, text=True)
        if r.returncode:
            if s in pieces:
                MISSING.append(r.stderr[-600:])
                return None
            raise BuildError(r.stderr[-3000:])
        return o
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = [o for o in ex.map(one, srcs) if o]
    so = os.path.join(d, 'l.so')
    r = subprocess.run(['g++', '-shared', '-o', so] + list(extra) + objs + ['-lgsl', '-lgslcblas', '-lfftw3_omp', '-lfftw3', '-lm', '-fopenmp'], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-3000:])
    return so


class Raised(Exception):
    """a C++ exception"""


D, Ip, P = ct.c_double, ct.c_int, ct.c_void_p
VOIDP = {'p_new', 'p_copy', 'b_new', 'b_params', 'c_new', 'm_field', 'm_field_s'}
DBL = {'p_getd', 'm_window', 'w3j', 'cc2', 'cc3', 'sjl', 'vmag', 'vmagv', 'h_pivot'}
STR = {'err', 'p_gets', 'b_scheme', 'b_space', 'txt'}
LL = {'p_geti', 'm_index', 's_index'}
NOEXC = {'out_n', 'out_dim', 'out_len', 'c_n', 's_compat', 'io_set', 'p_setd', 'p_seti', 'p_sets'}
VOID = {'m_setn', 's_setn', 'quiet', 'threads', 'p_free', 'b_free', 'b_put', 'b_size', 'b_get', 'c_free', 'c_get', 'c_set', 'c_sums', 'm_free', 'm_geom', 'm_shift', 'm_pos', 'm_kvec', 's_free',
        's_size', 's_get', 's_geom', 's_shift', 's_binned_get', 'ylm', 'sjls', 'sjls_copy', 'gamma_lz', 'gamma_lr', 'lngam', 'polar_', 'triplet', 'a_sorted', 'h_info', 'h_get', 'h_free', 't_free', 'out_get'}


class Lib:
    def __init__(self, so):
        self.so = so
        self.L = ct.CDLL(so)
        self.cache = {}
        self.keep = []

    def __getattr__(self, n):
        f = getattr(self.L, n)
        f.restype = P if n in VOIDP else D if n in DBL else ct.c_char_p if n in STR else ct.c_longlong if n in LL else None if n in VOID else Ip

        def call(*a):
            xs = []
            for v in a:
                if isinstance(v, np.ndarray):
                    xs.append(v.ctypes.data_as(P))
                    self.keep = self.keep[-50:] + [v]
                elif isinstance(v, bool):
                    xs.append(Ip(int(v)))
                elif isinstance(v, (int, np.integer)):
                    xs.append(P(v) if v > 2**31 else Ip(int(v)))
                elif isinstance(v, (float, np.floating)):
                    xs.append(D(float(v)))
                elif isinstance(v, str):
                    xs.append(ct.c_char_p(v.encode()))
                elif v is None:
                    xs.append(P(None))
                elif isinstance(v, H):
                    xs.append(P(v.h))
                else:
                    xs.append(v)
            r = f(*xs)
            if n in STR:
                return r.decode()
            if n in VOIDP or n in DBL or n in LL or n in VOID or n in NOEXC:
                return r
            if r:
                raise Raised(self.L.err and ct.cast(self._err(), ct.c_char_p).value.decode(errors='replace'))
            return r
        self.__dict__[n] = call
        return call

    def _err(self):
        self.L.err.restype = P
        return self.L.err()


class H:
    def __init__(self, h):
        self.h = h


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = Lib(build())
    return _lib


# ---------------------------------------------------------------- isolation
def isolated(fn, *a, timeout=120, env=None):
    """run fn in a forked child -> ('ok', value) | ('exc', text) | ('died', signal)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if env:
                os.environ.update(env)
            dn = os.open(os.devnull, os.O_WRONLY)
            if not os.environ.get('VERIF_SHOW'):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            try:
                lib().quiet(60)
                out = ('ok', fn(*a))
            except Raised as e:
                out = ('raised', str(e))
            except BaseException as e:
                fr = traceback.extract_tb(e.__traceback__)
                # an error inside the Python code of the repository is its own
                mine = any(f.filename.startswith(os.path.join(REPO, 'src')) for f in fr)
                out = ('raised' if mine else 'exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-800:]))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    import select, time
    buf = b''
    t_end = time.time() + timeout
    while True:
        left = t_end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ('died', 'no result within %d s' % timeout)
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, stt = os.waitpid(pid, 0)
    if not buf:
        return ('died', 'signal %d' % (stt & 127))
    return pickle.loads(buf)


def pmap(fn, items, workers=8, timeout=240):
    """isolated(fn, item) for all items, several at a time"""
    lib()
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda x: isolated(fn, x, timeout=timeout), items))


# ---------------------------------------------------------------- conveniences (inside the child)
def params(**kw):
    L = lib()
    base = dict(boxsize=(100., 100., 100.), ngrid=(4, 4, 4), assignment='cic', interlace='false', catalogue_type='survey', statistic_type='powspec',
                npoint='2pt', space='fourier', form='full', norm_convention='particle', shape='full', binning='lin', bin_min=0.01, bin_max=0.1, num_bins=3,
                fftw_scheme='estimate', fftw_planner_flag=64, verbose=60, volume=None, nmesh=None, assignment_order=None)
    base.update(kw)
    n, b = base['ngrid'], base['boxsize']
    if base['volume'] is None:
        base['volume'] = float(np.prod(b))
    if base['nmesh'] is None:
        base['nmesh'] = int(np.prod(n))
    if base['assignment_order'] is None:
        base['assignment_order'] = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}.get(base['assignment'], 0)
    p = H(L.p_new())
    for k, v in base.items():
        put(p, k, v)
    return p


DKEYS = {'boxsize', 'expand', 'cutoff_nyq', 'padfactor', 'volume', 'bin_min', 'bin_max'}


def put(p, k, v):
    L = lib()
    if k in ('boxsize', 'ngrid'):
        for i in range(3):
            L.p_setd(p, k, i, float(v[i])) if k == 'boxsize' else L.p_seti(p, k, i, ct.c_longlong(int(v[i])))
    elif isinstance(v, str):
        assert L.p_sets(p, k, v) == 0, k
    elif k in DKEYS:
        assert L.p_setd(p, k, 0, float(v)) == 0, k
    else:
        assert L.p_seti(p, k, 0, ct.c_longlong(int(v))) == 0, k


def A(x, dt=np.float64):
    return np.ascontiguousarray(x, dtype=dt)


def catalogue(pos, nz=None, ws=None, wc=None):
    L = lib()
    pos = np.asarray(pos, float)
    n = len(pos)
    one = np.ones(n)
    nz, ws, wc = [A(one if q is None else q) for q in (nz, ws, wc)]
    c = H(L.c_new())
    L.c_load(c, n, A(pos[:, 0]), A(pos[:, 1]), A(pos[:, 2]), nz, ws, wc)
    return c


def cat_data(c):
    L = lib()
    o = np.zeros((L.c_n(c), 7))
    L.c_get(c, o)
    return o


def binning(space, edges):
    L = lib()
    b = H(L.b_new(space, 'lin'))
    L.b_custom(b, A(edges), len(edges))
    return b


def bins_of(b):
    L = lib()
    n = np.zeros(4, np.int32)
    L.b_size(b, n)
    mm, e, c, w = np.zeros(5), np.zeros(n[1]), np.zeros(n[2]), np.zeros(n[3])
    L.b_get(b, mm, e, c, w)
    return {'num': int(n[0]), 'edges': e, 'centres': c, 'widths': w, 'min': mm[0], 'max': mm[1], 'pad_f': mm[2], 'pad_c': mm[3], 'nbin_pad': int(mm[4]), 'scheme': L.b_scheme(b), 'space': L.b_space(b)}


def mesh(p, plan=True):
    L = lib()
    o = np.zeros(1, np.uint64)
    L.m_new(p, int(plan), o)
    return H(int(o[0]))


def field(m, n, s=False, writable=False):
    L = lib()
    q = L.m_field_s(m) if s else L.m_field(m)
    if not q:
        return None
    tot = int(np.prod(n))
    arr = np.ctypeslib.as_array(ct.cast(q, ct.POINTER(D)), shape=(2 * tot,)).view(np.complex128).reshape(n)
    return arr if writable else arr.copy()


def stats(p, plan=True):
    L = lib()
    o = np.zeros(1, np.uint64)
    L.s_newp(p, int(plan), o)
    return H(int(o[0]))


def stats_out(s):
    L = lib()
    n = np.zeros(7, np.int32)
    L.s_size(s, n)
    nm, np_ = np.zeros(n[0], np.int32), np.zeros(n[1], np.int32)
    k, r = np.zeros(n[2]), np.zeros(n[3])
    sn, pk, xi = [np.zeros(q, np.complex128) for q in n[4:]]
    L.s_get(s, nm, np_, k, r, sn, pk, xi)
    return {'nmodes': nm, 'npairs': np_, 'k': k, 'r': r, 'sn': sn, 'pk': pk, 'xi': xi}


def outputs(names):
    L = lib()
    o = {'dim': L.out_dim()}
    for i, n in enumerate(names):
        v = np.zeros(L.out_len(i))
        if len(v):
            L.out_get(i, v)
        if n.startswith('*'):
            v = v.view(np.complex128)
            n = n[1:]
        o[n] = v
    return o


def los(a):
    return A(a)
