"""The Cython glue, extracted from its current text (engine/pyx.py), and stand-ins for what it reaches: the compiled classes and functions by their contracts."""
from common import *
import types, os, re
import pylib, pysym, pyx
from pysym import SRC, NP
from pylib import Module, Arr, Iv, Rv, V

GLUETRUST = ['Cython compiles the glue as written (engine/pyx.py states what the extraction drops): arguments reach the C++ function named in the cdef extern declaration in order, numbers and vectors are converted by value',
             'dereferenced pointers refer to the object made by the class that owns them']


class CppObject:
    """a compiled object: only the members declared for it, strings as bytes"""
    members = {}

    def __init__(s, **kw):
        object.__setattr__(s, 'm', dict(kw))

    def __setattr__(s, k, v):
        t = s.members.get(k)
        if t is None:
            raise AttributeError(k)
        if t == 'string' and not isinstance(v, (bytes, str)):
            raise TypeError('expected bytes, %s found' % type(v).__name__)
        if t == 'string' and isinstance(v, str):
            v = v.encode('utf-8')
        if t in ('double', 'int', 'long long') and not pysym.isscalar(v) and not isinstance(v, (int, float)):
            raise TypeError('must be real number, not %s' % type(v).__name__)
        if re.match(r'\w+\[3\]$', t):
            v = list(v)
            if len(v) != 3 or any(x is None for x in v):
                raise TypeError(k)
        s.m[k] = v

    def __getattr__(s, k):
        try:
            return object.__getattribute__(s, 'm')[k]
        except KeyError:
            raise AttributeError(k)

    def snap(s): return {k: (list(v) if isinstance(v, list) else v) for k, v in s.m.items()}


SPACE = {'powspec': ('2pt', 'fourier'), '2pcf': ('2pt', 'config'), '2pcf-win': ('2pt', 'config'), 'bispec': ('3pt', 'fourier'), '3pcf': ('3pt', 'config'), '3pcf-win': ('3pt', 'config'), '3pcf-win-wa': ('3pt', 'config'),
         'modes': ('none', 'fourier'), 'pairs': ('none', 'config')}
ORDER = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}
CATS = {'powspec': ('survey', 'sim'), '2pcf': ('survey', 'sim'), 'bispec': ('survey', 'sim'), '3pcf': ('survey', 'sim'), '2pcf-win': ('random',), '3pcf-win': ('random',), '3pcf-win-wa': ('random',)}


def mesh_of(space, box, cut):
    """mesh number of an unset mesh: contract of set_ngrid_from_cutoff (P14)"""
    c = NP.ceil(Rv(box * cut) / NP.pi) if space == 'fourier' else 2 * NP.ceil(Rv(box) / Rv(cut))
    c = pysym.int_(c)
    return c + c % 2 if space == 'fourier' else c


class CppParameterSet(CppObject):
    """trv::ParameterSet with its default members; validate() by its contract (P14)"""

    def __init__(s):
        super().__init__(catalogue_dir=b'', measurement_dir=b'', data_catalogue_file=b'', rand_catalogue_file=b'', output_tag=b'', boxsize=[0., 0., 0.], ngrid=[0, 0, 0], volume=0., nmesh=0, expand=1., alignment=b'centre', padscale=b'box',
                         padfactor=0., assignment=b'tsc', interlace=b'false', assignment_order=0, catalogue_type=b'', statistic_type=b'', npoint=b'', space=b'', form=b'diag', norm_convention=b'particle', binning=b'lin', ell1=0, ell2=0, ELL=0,
                         i_wa=0, j_wa=0, bin_min=0., bin_max=0., cutoff_nyq=0., num_bins=0, idx_bin=0, fftw_scheme=b'measure', fftw_planner_flag=0, use_fftw_wisdom=b'false', fftw_wisdom_file_f=b'', fftw_wisdom_file_b=b'', verbose=20, progbar=b'false')
        object.__setattr__(s, 'log', [])

    def validate(s, init):
        s.log.append(('validate', bool(init), s.snap()))
        m = s.m
        st = m['statistic_type'].decode()
        if st in SPACE:
            m['npoint'], m['space'] = (x.encode() for x in SPACE[st])
            if st in CATS and m['catalogue_type'].decode() not in CATS[st]:
                raise RuntimeError('catalogue type')
        if m['assignment'].decode() not in ORDER or m['alignment'] not in (b'centre', b'pad') or m['padscale'] not in (b'box', b'grid') or m['form'] not in (b'full', b'diag', b'row', b'off-diag') \
                or m['norm_convention'] not in (b'none', b'particle', b'mesh', b'mesh-mixed') or m['binning'] not in (b'lin', b'log', b'linpad', b'logpad', b'custom'):
            raise RuntimeError('invalid')
        if m['norm_convention'] == b'mesh-mixed' and m['npoint'] != b'2pt':
            raise RuntimeError('mesh-mixed')
        m['assignment_order'] = ORDER[m['assignment'].decode()]
        m['interlace'] = {b'true': b'true', b'on': b'true', b'false': b'false', b'off': b'false'}[m['interlace']]
        zero = lambda x: not isinstance(x, V) and x == 0
        if zero(m['nmesh']) and not zero(m['volume']):
            m['ngrid'] = [mesh_of(m['space'].decode(), pysym.real(pysym.lit(b)), pysym.real(pysym.lit(m['cutoff_nyq']))) for b in m['boxsize']]
            m['nmesh'] = NP.prod(m['ngrid'])
        return 0


class CppBinning(CppObject):
    def __init__(s, space, scheme):
        super().__init__(space=space, scheme=scheme, bin_min=0., bin_max=0., num_bins=0, bin_edges=[], bin_centres=[], bin_widths=[])
        object.__setattr__(s, 'calls', [])

    def set_bins(s, *a):
        s.calls.append(a)
        if len(a) == 3:
            s.m.update(bin_min=a[0], bin_max=a[1], num_bins=a[2])
            nb = pysym.intt(pysym.lit(a[2]))
        else:
            s.m.update(bin_min=Rv(var('cpp.bin_min', 'R')), bin_max=Rv(var('cpp.bin_max', 'R')), num_bins=Iv(var('cpp.num_bins', 'I')), scheme=b'lin')
            nb = var('cpp.num_bins', 'I')
        for k, n in (('bin_edges', nb + num(1, 'I')), ('bin_centres', nb), ('bin_widths', nb)):
            s.m[k] = Arr.sym('cpp.' + k, (n,))


class LosBuffer:
    """memory for n line-of-sight structures"""

    def __init__(s, n):
        s.n, s.a, s.live = n, NP.zeros((Iv(n), 3)), True

    def __getitem__(s, i):
        b = s

        class P:
            @property
            def pos(q):
                class Q:
                    def __setitem__(q2, k, v): b.a[i, k] = v
                    def __getitem__(q2, k): return b.a[i, k]
                return Q()
        return P()


class Results:
    """measurements returned by a compiled estimator: every member its own array"""

    def __init__(s, name, members, n):
        s.name = name
        for k, t in members.items():
            if t.startswith('vector'):
                setattr(s, k, Arr.sym('%s.%s' % (name, k), (n,), 'i' if 'int' in t else 'c' if 'complex' in t else 'f'))
            else:
                setattr(s, k, Iv(n))


DEFAULTS = {'double': 0., 'int': 0, 'bool_t': False}


class Glue:
    """one extracted glue module, its C++ functions recorded in log as (C++ name, {parameter: value at the call})"""

    def __init__(s, name, imports=None, cpp=None, log=None, results=None, invariants=None):
        s.x = pyx.Extract(os.path.join(SRC, name + '.pyx'))
        s.log = log if log is not None else []
        s.structs = results or {}
        ns = dict(_cset_=lambda o, k, v: object.__setattr__(o, k, s.conv(o, k, v)), _malloc_=s.malloc, _sizeof_=lambda t: 1, _cdecl_=lambda t: None, _cast_=s.cast, _addr_=lambda a, i: ('address', a, i), _delete_=lambda p: None, deref=lambda p: p,
                  free=s.free)
        ns.update(cpp or {})
        for k, ovs in s.x.extern.items():
            ns[k] = s.function(k, ovs)
        s.freed, s.live = [], []
        s.M = Module(name, imports=imports or {}, file=os.path.join(SRC, name + '.pyx'), tree=s.x.tree, ns=ns, invariants=invariants)
        for k, t in s.x.types.items():
            if '.' not in k:
                s.M.set(k, s.checked(s.M[k], t))
            elif t and k.split('.')[0] in s.M.ns:
                c, f = k.split('.')
                type.__setattr__(s.M[c], f, s.checked(s.M[c].__dict__[f], t))
        for c, at in s.x.classes.items():
            if c in s.M.ns:
                for k, t in at.items():
                    if not hasattr(s.M[c], k):
                        type.__setattr__(s.M[c], k, DEFAULTS.get(t, [] if t.startswith('vector') else None))

    def __getitem__(s, n): return s.M[n]

    def conv(s, o, k, v):
        t = s.x.classes.get(type(o).__name__, {}).get(k, '')
        if t == 'str' and isinstance(v, bytes):
            v = v.decode()
        if t.startswith('vector'):
            v = v.copy() if isinstance(v, Arr) else list(v)
        return v

    def cast(s, t, x): return pysym.float_(x) if t == 'double' else pysym.int_(x) if t == 'int' else x

    def malloc(s, t, n):
        b = LosBuffer(pysym.intt(pysym.lit(n)))
        s.live.append(b)
        return b

    def free(s, b):
        if not b.live:
            raise RuntimeError('freed twice')
        b.live = False

    def checked(s, f, types_):
        """the conversions Cython makes of typed parameters"""
        import inspect
        sig = inspect.signature(f)

        def g(*a, **k):
            b = sig.bind(*a, **k)
            for n, v in b.arguments.items():
                t = types_.get(n, '')
                if 'not None' in t and v is None:
                    raise TypeError("Argument '%s' must not be None" % n)
                if t.startswith('np.ndarray'):
                    if not isinstance(v, Arr) or v.k != ('c' if 'complex' in t else 'f') or v.ndim != int(re.search(r'ndim=(\d)', t).group(1)):
                        raise ValueError('Buffer of %s' % n)
                if t == 'double':
                    b.arguments[n] = v if isinstance(v, V) else pysym.lit(v)
            return f(*b.args, **b.kwargs)
        return g

    def function(s, pyname, ovs):
        def f(*a):
            o = [x for x in ovs if len(x[1]) == len(a)]
            if len(o) != 1:
                raise TypeError('%s() takes %s arguments' % (pyname, [len(x[1]) for x in ovs]))
            cpp, ps = o[0]
            args = {}
            for i, ((t, n), v) in enumerate(zip(ps, a)):
                if t == 'string' and isinstance(v, str):
                    raise TypeError('expected bytes')
                if isinstance(v, LosBuffer):
                    if not v.live:
                        raise RuntimeError('used after free')
                    v = ('los', v.n, v.a.copy())
                elif isinstance(v, CppObject):
                    v = (type(v).__name__, v, v.snap())
                args[i] = v
            s.log.append((cpp, args, [t for t, n in ps]))
            return s.structs[cpp](args) if cpp in s.structs else Rv(var('value of %s #%d' % (cpp, sum(e[0] == cpp for e in s.log)), 'R'))
        return f


def parameters(log=None):
    G = Glue('parameters', cpp=dict(CppParameterSet=CppParameterSet))
    CppParameterSet.members = G.x.structs['CppParameterSet'][1]
    return G


def dataobjs():
    G = Glue('dataobjs', cpp=dict(CppBinning=CppBinning))
    CppBinning.members = G.x.structs['CppBinning'][1]
    return G
