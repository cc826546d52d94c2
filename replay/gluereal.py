"""The Python measurement functions of /repo on concrete input: twopt.py, threept.py and catalogue.py imported as they are, the Cython glue as extracted by engine/pyx.py and run by Python,
the compiled classes replaced by stand-ins which record the calls."""
import os, types
import numpy as np
import pyreal, pyx

SPACE = {'powspec': ('2pt', 'fourier'), '2pcf': ('2pt', 'config'), '2pcf-win': ('2pt', 'config'), 'bispec': ('3pt', 'fourier'), '3pcf': ('3pt', 'config'), '3pcf-win': ('3pt', 'config'), '3pcf-win-wa': ('3pt', 'config')}


class CParams(types.SimpleNamespace):
    def __init__(s):
        super().__init__(boxsize=[0.] * 3, ngrid=[0] * 3, volume=0., nmesh=0, expand=1., alignment=b'centre', padscale=b'box', padfactor=0., assignment=b'tsc', interlace=b'false', assignment_order=0, catalogue_type=b'', statistic_type=b'', npoint=b'',
                         space=b'', form=b'diag', norm_convention=b'particle', binning=b'lin', ell1=0, ell2=0, ELL=0, i_wa=0, j_wa=0, bin_min=0., bin_max=0., cutoff_nyq=0., num_bins=0, idx_bin=0, fftw_scheme=b'measure', fftw_planner_flag=0,
                         use_fftw_wisdom=b'false', fftw_wisdom_file_f=b'', fftw_wisdom_file_b=b'', verbose=20, progbar=b'false', measurement_dir=b'')

    def validate(s, init):
        st = s.statistic_type.decode()
        if st in SPACE:
            s.npoint, s.space = (x.encode() for x in SPACE[st])
        s.assignment_order = {b'ngp': 1, b'cic': 2, b'tsc': 3, b'pcs': 4}[s.assignment]
        if s.nmesh == 0 and s.volume != 0:
            c = [L * s.cutoff_nyq / np.pi if s.space == b'fourier' else 2 * L / s.cutoff_nyq for L in s.boxsize]
            s.ngrid = [int(np.ceil(x)) + int(np.ceil(x)) % 2 for x in c]
            s.nmesh = int(np.prod(s.ngrid))
        return 0


class CBins(types.SimpleNamespace):
    def __init__(s, space, scheme): super().__init__(space=space, scheme=scheme, bin_min=0., bin_max=0., num_bins=0, bin_edges=[], bin_centres=[], bin_widths=[])

    def set_bins(s, *a):
        if len(a) == 3:
            s.bin_min, s.bin_max, s.num_bins = a
            s.bin_edges = list(np.linspace(a[0], a[1], int(a[2]) + 1))


class CCat:
    def __init__(s, *a, **k):
        s.cols, s.thisptr, s.verbose = [np.array(x, dtype=float) for x in a], s, k.get('verbose')


class Buf:
    def __init__(s, n): s.n, s.a, s.live = n, np.zeros((n, 3)), True
    def __getitem__(s, i): return types.SimpleNamespace(pos=s.a[i])


class World:
    def __init__(s):
        s.log, s.bufs = [], []
        src = pyreal.SRC

        def load(name, **ns):
            x = pyx.Extract(os.path.join(src, name + '.pyx'))
            g = {'__name__': 'triumvirate.' + name, '__package__': 'triumvirate'}
            g.update(_cset_=lambda o, k, v: object.__setattr__(o, k, v.decode() if isinstance(v, bytes) else v), _malloc_=s.malloc, _sizeof_=lambda t: 1, _cdecl_=lambda t: None, _cast_=lambda t, v: {'double': float, 'int': int}.get(t, lambda q: q)(v),
                     _delete_=lambda p: None, deref=lambda p: p, free=s.free)
            g.update(ns)
            for k, ov in x.extern.items():
                g[k] = s.function(ov)
            return x, g
        xp, gp = load('parameters', CppParameterSet=CParams)
        xd, gd = load('dataobjs', CppBinning=CBins)
        s.structs = xd.structs
        mods = {}
        for n, (x, g) in (('parameters', (xp, gp)), ('dataobjs', (xd, gd)), ('_twopt', load('_twopt')), ('_threept', load('_threept'))):
            mods[n] = (x, g)
        imp = pyreal.pkg(_particles={'_ParticleCatalogue': CCat})
        import sys
        for n, (x, g) in mods.items():
            m = types.ModuleType('triumvirate.' + n)
            sys.modules['triumvirate.' + n] = m
            for c, at in x.classes.items():
                g.setdefault(c, None)
            m.__dict__.update(g)
            exec(compile(x.tree, x.path, 'exec'), m.__dict__)
            for c, at in x.classes.items():
                if isinstance(m.__dict__.get(c), type):
                    for k, t in at.items():
                        if not hasattr(m.__dict__[c], k):
                            setattr(m.__dict__[c], k, 0. if t == 'double' else 0 if t == 'int' else None)
        s.imp = imp
        s.P, s.D = sys.modules['triumvirate.parameters'], sys.modules['triumvirate.dataobjs']

    def malloc(s, t, n):
        s.bufs.append(Buf(int(n)))
        return s.bufs[-1]

    def free(s, b): b.live = False

    def function(s, ov):
        def f(*a):
            o = [q for q in ov if len(q[1]) == len(a)]
            cpp = o[0][0]
            v = []
            for q in a:
                if isinstance(q, Buf):
                    q = ('los', q.a.copy(), q.live)
                elif isinstance(q, CParams):
                    q = ('params', dict(q.__dict__))
                elif isinstance(q, CBins):
                    q = ('bins', dict(q.__dict__))
                elif isinstance(q, CCat):
                    q = ('cat', [c.copy() for c in q.cols], q.verbose)
                v.append(q)
            s.log.append((cpp, v))
            if 'normalisation' in cpp:
                return 3.25 + len(s.log) + 0.125 * len(cpp)
            st = {'compute_powspec': 'PowspecMeasurements', 'compute_corrfunc': 'TwoPCFMeasurements', 'compute_corrfunc_window': 'TwoPCFWindowMeasurements', 'compute_bispec': 'BispecMeasurements', 'compute_3pcf': 'ThreePCFMeasurements', 'compute_3pcf_window': 'ThreePCFWindowMeasurements'}
            r = types.SimpleNamespace()
            for i, (k, t) in enumerate(s.structs[st[cpp.split('::')[1].replace('_in_gpp_box', '')]][1].items()):
                if t.startswith('vector'):
                    x = np.arange(5) + 7. * i + 0.5
                    setattr(r, k, (x.astype(int) if 'int' in t else x * (1 + 0.37j) if 'complex' in t else x).tolist())
                else:
                    setattr(r, k, 5)
            return r
        return f
