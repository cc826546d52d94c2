"""P13: Python catalogues keep positions, weights and bounds consistent (catalogue.py)."""
from common import *
import types
import pylib, pysym, glue
from pylib import PYTRUST, Module, Arr, Iv, Rv, V, calls, elems, shape_is, unchanged
from pylib import I, R, rn, between, explore

LEVEL = 'proof'
TRUSTED = PYTRUST + glue.GLUETRUST + ['astropy tables behave as documented: columns are copied when set, updated in place by augmented assignment, and keep their number type when a scalar is set',
                     'nbodykit is not installed, as here; particle columns are of floating-point numbers unless stated']
ZI, OI, ZR = num(0, 'I'), num(1, 'I'), num(0, 'R')
n_, m_ = I('n'), I('m')
XYZ = ('x', 'y', 'z')
COLS = XYZ + ('nz', 'ws', 'wc')
HALF = rn('1/2')


class Table:
    """stand-in for astropy.table.Table"""
    files = {}
    reads = []

    def __init__(s): s.c, s.colnames = {}, []

    def __symlen__(s): return pysym.length(s.c[s.colnames[0]])

    def __getitem__(s, k):
        if isinstance(k, str):
            return s.c[k]
        return ('rows', s, k)

    def __setitem__(s, k, v):
        if not isinstance(k, str):
            raise KeyError(k)
        old = s.c.get(k)
        if pysym.isscalar(v):
            if not s.c:
                raise TypeError('a scalar as the first column')
            n = s.c[s.colnames[0]].shape_[0]
            v = pysym.lit(v)
            new = Arr.of((n,), lambda ix: pysym.cast(v, old.k) if old is not None else v, old.k if old is not None else v.k)
        else:
            a = pysym.asarray(v)
            new = a.copy()
            if s.c and k not in s.c and not pysym.deq(new.shape_[0], s.c[s.colnames[0]].shape_[0]):
                raise ValueError('Inconsistent data column lengths')
        if k not in s.c:
            s.colnames.append(k)
        s.c[k] = new

    def rename_column(s, a, b):
        s.c[b] = s.c.pop(a)
        s.colnames[s.colnames.index(a)] = b

    @classmethod
    def read(cls, path, format=None, **kw):
        cls.reads.append((path, format, dict(kw)))
        t = cls()
        for k, a in cls.files[path].items():
            t[k] = a
        return t


class Compiled:
    def __init__(s, *a, **k): s.a, s.k = a, k


def mod():
    Table.reads = []
    M = Module('catalogue', imports={'astropy.table': types.SimpleNamespace(Table=Table), '._particles': types.SimpleNamespace(_ParticleCatalogue=Compiled)})
    return M


def col(p, c, k='f'): return Arr.sym(p + c, (n_ if p == 'd' else m_,), k)
def at(p, c): return lambda i: app(p + c + '[]', (i,), 'R')


def make(M, p='d', **kw): return M['ParticleCatalogue'](*[col(p, c) for c in COLS], **kw)


def ext(op, f, n):
    v = I('q')
    return binder(op, v, ZI, n, f(v), 'R')


def lo(f, n): return ext('minf', f, n)
def hi(f, n): return ext('maxf', f, n)


def invariant(u, tag, c, fs, n, h):
    """columns are fs; recorded extents, number and totals are those of the columns"""
    for k in COLS:
        elems(u, '%s: column %s' % (tag, k), c._pdata.c[k], (n,), lambda i, k=k: Rv(fs[k](i)), h)
    u.true(tag + ': no other columns', sorted(c._pdata.colnames) == sorted(COLS), repr(c._pdata.colnames))
    u.true(tag + ': extents of the three axes', set(c.bounds) == set(c.spans) == set(XYZ))
    for k in XYZ:
        a, b = c.bounds[k]
        u.eq('%s: lower bound of %s' % (tag, k), pysym.real(pysym.lit(a)), lo(fs[k], n), h)
        u.eq('%s: upper bound of %s' % (tag, k), pysym.real(pysym.lit(b)), hi(fs[k], n), h)
        u.eq('%s: span of %s' % (tag, k), pysym.real(pysym.lit(c.spans[k])), hi(fs[k], n) - lo(fs[k], n), h)
    q = I('q')
    u.eq(tag + ': number of particles', pysym.tt(pysym.lit(c.ntotal)), n, h)
    u.eq(tag + ': total weight', pysym.real(pysym.lit(c.wtotal)), sum_(q, ZI, n, fs['ws'](q) * fs['wc'](q)), h)
    u.eq(tag + ': total sample weight', pysym.real(pysym.lit(c.wstotal)), sum_(q, ZI, n, fs['ws'](q)), h)


def state(c):
    """the terms invariant() is about"""
    i = I('ix0')
    r = [tuple(sorted(c._pdata.colnames)), tuple(sorted(c.bounds)), tuple(sorted(c.spans))]
    r += [(k, a.k, tuple(a.shape_), pysym.lit(a.get((i,))).re) for k, a in sorted(c._pdata.c.items())]
    r += [(k, pysym.real(pysym.lit(a)), pysym.real(pysym.lit(b))) for k, (a, b) in sorted(c.bounds.items())]
    r += [pysym.real(pysym.lit(x)) for x in list(c.spans.values()) + [c.wtotal, c.wstotal]] + [pysym.tt(pysym.lit(c.ntotal))]
    return tuple(r)


def base(p): return {k: at(p, k) for k in COLS}


NE, NE2 = [lt(ZI, n_)], [lt(ZI, n_), lt(ZI, m_)]


def unit_init(u):
    M = mod()
    calls(u, 'columns given', lambda: make(M), NE, lambda v, h, p, tag: invariant(u, tag, v, base('d'), n_, h))
    one = dict(base('d'), nz=lambda i: ZR, ws=lambda i: rn(1), wc=lambda i: rn(1))

    def dflt(v, h, p, tag):
        invariant(u, tag, v, one, n_, h)
        u.true(tag + ': warned about the missing density', [w[1] for w in p.warnings] == ['DefaultValueWarning'], repr(p.warnings))
    calls(u, 'defaults', lambda: M['ParticleCatalogue'](*[col('d', c) for c in XYZ]), NE, dflt)
    cst = dict(base('d'), nz=lambda i: R('cn'), ws=lambda i: R('cs'), wc=lambda i: R('cc'))
    calls(u, 'single numbers', lambda: M['ParticleCatalogue'](*[col('d', c) for c in XYZ], nz=Rv(R('cn')), ws=Rv(R('cs')), wc=Rv(R('cc'))), NE, lambda v, h, p, tag: invariant(u, tag, v, cst, n_, h))
    keep = {}

    def aliased():
        for k in COLS:
            keep[k] = col('d', k)
        c = M['ParticleCatalogue'](*[keep[k] for k in COLS])
        c.offset_coords([Rv(R('o0')), Rv(R('o1')), Rv(R('o2'))])
        return c

    def own(v, h, p, tag):
        for k in COLS:
            unchanged(u, '%s: the array given for %s is untouched' % (tag, k), keep[k], lambda ix, k=k: Rv(at('d', k)(ix[0])), h)
    calls(u, 'own copies', aliased, NE, own)
    u.fn('catalogue.ParticleCatalogue.__init__', 'catalogue.ParticleCatalogue._calc_bounds', 'catalogue.ParticleCatalogue.__len__', 'catalogue.ParticleCatalogue._compute')


def unit_set(u):
    M = mod()
    for k in COLS:
        def go():
            c = make(M)
            c[k] = Arr.sym('new', (n_,))
            return c
        calls(u, 'column %s set' % k, go, NE, lambda v, h, p, tag: invariant(u, tag, v, dict(base('d'), **{k: lambda i: app('new[]', (i,), 'R')}), n_, h))
    E, ps = explore(lambda: make(M).__setitem__(3, Rv(R('v'))), NE)
    u.true('rows cannot be set', ps and all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps))
    calls(u, 'column read', lambda: [make(M)[k] for k in COLS], NE, lambda v, h, p, tag: [elems(u, tag + ' ' + k, a, (n_,), lambda i, k=k: Rv(at('d', k)(i)), h) for k, a in zip(COLS, v)])
    u.fn('catalogue.ParticleCatalogue.__setitem__', 'catalogue.ParticleCatalogue.__getitem__')


def unit_offset(u):
    M = mod()
    o = [R('o%d' % i) for i in range(3)]
    forms = {'list': (lambda: [Rv(x) for x in o], o), 'tuple': (lambda: tuple(Rv(x) for x in o), o), 'array': (lambda: Arr.sym('o', (num(3, 'I'),)), [app('o[]', (num(i, 'I'),), 'R') for i in range(3)]), 'single number': (lambda: Rv(o[0]), [o[0]] * 3)}
    for nm, (f, w) in forms.items():
        def go():
            c = make(M)
            c.offset_coords(f())
            return c
        fs = dict(base('d'), **{k: (lambda i, k=k, j=j: at('d', k)(i) - w[j]) for j, k in enumerate(XYZ)})
        calls(u, 'origin as %s' % nm, go, NE, lambda v, h, p, tag: invariant(u, tag, v, fs, n_, h))
    u.fn('catalogue.ParticleCatalogue.offset_coords')


def boxes():
    b = [R('L%d' % i) for i in range(3)]
    return {'list': (lambda: [Rv(x) for x in b], b), 'single number': (lambda: Rv(b[0]), [b[0]] * 3), 'array': (lambda: Arr.sym('L', (num(3, 'I'),)), [app('L[]', (num(i, 'I'),), 'R') for i in range(3)])}


def overflow(M, cls):
    """contract of _check_bounds_in_boxsize seen by its callers: it has no effect; its result only selects a warning"""
    def f(self, boxsize):
        return ['x'] if pysym.X.decide(var('over!%d' % len(pysym.X.trace), 'B')) else []
    return f


def unit_overflow(u):
    M = mod()
    for nm, (f, w) in boxes().items():
        def go():
            return make(M)._check_bounds_in_boxsize(f())

        def post(v, h, p, tag):
            u.true(tag + ': axis names', set(v) <= set(XYZ))
            for j, k in enumerate(XYZ):
                sp = hi(at('d', k), n_) - lo(at('d', k), n_)
                if pysym.is_number(w[j]) if hasattr(pysym, 'is_number') else False:
                    continue
                u.holds(tag + ': %s is named exactly if its extent exceeds the box' % k, lt(w[j], sp) if k in v else le(sp, w[j]), h)
        if nm != 'single number':
            calls(u, 'box as %s' % nm, go, NE + [le(lo(at('d', k), n_), hi(at('d', k), n_)) for k in XYZ], post)
    u.fn('catalogue.ParticleCatalogue._check_bounds_in_boxsize')


def pair(M, own):
    return make(M), (None if own else make(M, 'r'))


def moved(p, d): return dict(base(p), **{k: (lambda i, k=k, j=j: at(p, k)(i) - d[j]) for j, k in enumerate(XYZ)})


def placed(u, name, M, act, shift, own):
    """act(cat, ref): both catalogues move by shift(lo, hi of the reference)"""
    cls = M['ParticleCatalogue']
    orig = cls._check_bounds_in_boxsize
    cls._check_bounds_in_boxsize = overflow(M, cls)
    rp, rn_ = ('d', n_) if own else ('r', m_)

    def go():
        c, r = pair(M, own)
        act(c, r)
        return c, r

    seen = set()

    def post(v, h, p, tag):
        s = (state(v[0]), None if own else state(v[1]))
        if s in seen:
            return u.true(tag + ': the state is one already proved without using path conditions', True)
        seen.add(s)
        h = h[:len(NE2)]
        d = shift([lo(at(rp, k), rn_) for k in XYZ], [hi(at(rp, k), rn_) for k in XYZ])
        invariant(u, tag, v[0], moved('d', d), n_, h)
        if not own:
            invariant(u, tag + ', reference', v[1], moved('r', d), m_, h)
    try:
        calls(u, name, go, NE2, post)
    finally:
        cls._check_bounds_in_boxsize = orig


def unit_centre(u):
    M = mod()
    for nm, (f, w) in boxes().items():
        for own in (True, False):
            placed(u, 'box as %s, %s' % (nm, 'alone' if own else 'with a reference'), M, lambda c, r: c.centre(f(), catalogue_ref=r), lambda a, b: [(a[j] + b[j]) * HALF - w[j] * HALF for j in range(3)], own)
    u.fn('catalogue.ParticleCatalogue.centre')


F = [R('f%d' % i) for i in range(3)]
G = [R('g%d' % i) for i in range(3)]
PADS = {'list': (lambda: [Rv(x) for x in F], F), 'single number': (lambda: Rv(F[0]), [F[0]] * 3), 'array': (lambda: Arr.sym('F', (num(3, 'I'),)), [app('F[]', (num(i, 'I'),), 'R') for i in range(3)])}
GRIDS = {'list': (lambda: [Rv(x) for x in G], G), 'single number': (lambda: Rv(G[0]), [G[0]] * 3)}


def unit_pad(own, nm):
    f, w = PADS[nm]

    def unit(u):
        M = mod()
        b = boxes()['list']
        placed(u, 'box padding', M, lambda c, r: c.pad(b[0](), boxsize_pad=f(), catalogue_ref=r), lambda x, y: [x[j] - w[j] * b[1][j] for j in range(3)], own)
        for gn, (g, v) in GRIDS.items():
            if gn == 'single number' and nm == 'array':
                continue
            placed(u, 'grid padding, grid as %s' % gn, M, lambda c, r: c.pad(b[0](), ngrid=g(), ngrid_pad=f(), catalogue_ref=r), lambda x, y: [x[j] - w[j] * div(b[1][j], v[j]) for j in range(3)], own)
        u.fn('catalogue.ParticleCatalogue.pad')
    return unit


def unit_padbox(own):
    def unit(u):
        M = mod()
        B = boxes()
        b = B['list']
        for bn in ('single number', 'array'):
            placed(u, 'box as %s' % bn, M, lambda c, r: c.pad(B[bn][0](), boxsize_pad=Rv(F[0]), catalogue_ref=r), lambda x, y: [x[j] - F[0] * B[bn][1][j] for j in range(3)], own)
        placed(u, 'no padding', M, lambda c, r: c.pad(b[0](), catalogue_ref=r), lambda x, y: [ZR] * 3, own)
        E, ps = explore(lambda: make(M).pad(b[0](), ngrid=Rv(G[0]), boxsize_pad=Rv(F[0]), ngrid_pad=Rv(F[1])), NE)
        u.true('both paddings are rejected', ps and all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps))
        u.fn('catalogue.ParticleCatalogue.pad')
    return unit


def unit_periodise(u):
    M = mod()
    cls = M['ParticleCatalogue']
    cls._check_bounds_in_boxsize = overflow(M, cls)
    for nm, (f, w) in boxes().items():
        def go():
            c = make(M)
            c.periodise(f())
            return c

        def post(v, h, p, tag):
            hh = h + [lt(ZR, x) for x in w]
            for j, k in enumerate(XYZ):
                a = v._pdata.c[k]
                i = I('ix0')
                got = pysym.real(a.get((i,)))
                old = at('d', k)(i) + w[j] * HALF - (lo(at('d', k), n_) + hi(at('d', k), n_)) * HALF
                shape_is(u, tag + ': ' + k, a, (n_,), h)
                hi_ = hh + [between(0, i, n_)]
                u.eq('%s: %s is moved by whole boxes from the centred position' % (tag, k), got, old - w[j] * toreal(floor(div(old, w[j]))), hi_)
            fs = dict(base('d'), **{k: (lambda i, k=k: pysym.real(v._pdata.c[k].get((i,)))) for k in XYZ})
            invariant(u, tag, v, fs, n_, hh)
        calls(u, 'box as %s' % nm, go, NE, post)
    x, L = R('x'), R('L')
    u.holds('a position moved by the whole number of boxes below it lies in the box', and_(le(ZR, x - L * toreal(floor(div(x, L)))), lt(x - L * toreal(floor(div(x, L))), L)), [lt(ZR, L)])
    u.fn('catalogue.ParticleCatalogue.periodise')


def unit_los(u):
    M = mod()
    c2 = lambda i: at('d', 'x')(i) * at('d', 'x')(i) + at('d', 'y')(i) * at('d', 'y')(i) + at('d', 'z')(i) * at('d', 'z')(i)

    def go():
        c = make(M)
        return c, c.compute_los()

    def post(v, h, p, tag):
        c, l = v
        if shape_is(u, tag, l, (n_, 3), h):
            i = I('ix0')
            r = app('sqrt', (c2(i),), 'R')
            for j, k in enumerate(XYZ):
                u.eq(tag + ': component ' + k, pysym.real(l.get((i, num(j, 'I')))), div(at('d', k)(i), ite(eq(r, ZR), rn(1), r)), h + [between(0, i, n_)])
        invariant(u, tag, c, base('d'), n_, h)
    calls(u, 'lines of sight', go, NE, post)
    u.fn('catalogue.ParticleCatalogue.compute_los')


def unit_density(u):
    M = mod()
    B = boxes()
    cases = [('volume', lambda: dict(volume=Rv(R('vol'))), R('vol'), [lt(ZR, R('vol'))])]
    for nm, (f, w) in B.items():
        cases.append(('box as ' + nm, lambda f=f: dict(boxsize=f()), w[0] * w[1] * w[2], [lt(ZR, x) for x in w]))
    for nm, kw, vol, pre in cases:
        for kind in ('f', 'i'):
            def go():
                c = M['ParticleCatalogue'](*[col('d', k) for k in XYZ], nz=col('d', 'nz', kind), ws=col('d', 'ws'), wc=col('d', 'wc'))
                c.compute_mean_density(**kw())
                return c
            calls(u, '%s%s' % (nm, ', column of integers' if kind == 'i' else ''), go, NE + pre, lambda v, h, p, tag: invariant(u, tag, v, dict(base('d'), nz=lambda i: div(toreal(n_), vol)), n_, h))
    u.fn('catalogue.ParticleCatalogue.compute_mean_density')


def unit_file(u):
    M = mod()
    cls = M['ParticleCatalogue']
    import itertools
    for have in itertools.product((True, False), repeat=3):
        names = [k for k, g in zip(('nz', 'ws', 'wc'), have) if g]
        for alt in (False, True):
            Table.files = {'F': {('c_' + k if alt else k): col('d', k) for k in XYZ + tuple(names)}}

            def go():
                del Table.reads[:]
                return cls.read_from_file('F', names=['N'], **({'name_mapping': {k: 'c_' + k for k in XYZ + tuple(names)}} if alt else {})), list(Table.reads)
            fs = dict(base('d'), **{k: (lambda i, k=k: ZR if k == 'nz' else rn(1)) for k in ('nz', 'ws', 'wc') if k not in names})

            def post(v, h, p, tag):
                invariant(u, tag, v[0], fs, n_, h)
                u.true(tag + ': the file is read once, as asked', v[1] == [('F', 'ascii.no_header', {'names': ['N']})], repr(v[1]))
                u.true(tag + ': one warning per missing column', len(p.warnings) == 3 - len(names))
            calls(u, 'file with %s%s' % (names, ', other names' if alt else ''), go, NE, post)
    for miss in XYZ:
        Table.files = {'F': {k: col('d', k) for k in COLS if k != miss}}
        E, ps = explore(lambda: cls.read_from_file('F', format='fits'), NE)
        u.true('a file without %s is rejected' % miss, ps and all(p.out == 'exc' and type(p.exc).__name__ == 'MissingValueError' for p in ps))
    Table.files = {'F': {k: col('d', k) for k in COLS}}
    E, ps = explore(lambda: cls.read_from_file('F', reader='other'), NE)
    u.true('another reader is rejected', ps and all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps))
    for fm, want in (('text', ('F', 'ascii', {'names': None, 'q': 1})), ('fits', ('F', 'fits', {'q': 1}))):
        calls(u, 'format ' + fm, lambda: (cls.read_from_file('F', format=fm, table_kwargs={'q': 1}), list(Table.reads)[-1]), NE, lambda v, h, p, tag: u.true(tag + ': the file is read as asked', v[1] == want, repr(v[1])))
    u.fn('catalogue.ParticleCatalogue.read_from_file')


def unit_convert(u):
    M = mod()

    def post(v, h, p, tag):
        if u.true(tag + ': six columns and the verbosity', isinstance(v, Compiled) and len(v.a) == 6 and list(v.k) == ['verbose']):
            for k, a in zip(COLS, v.a):
                elems(u, tag + ': ' + k, a, (n_,), lambda i, k=k: Rv(at('d', k)(i)), h)
            u.true(tag + ': verbosity', v.k['verbose'] == 7)
    calls(u, 'passed to compiled code', lambda: make(M)._convert_to_cpp_catalogue(verbose=7), NE, post)
    u.fn('catalogue.ParticleCatalogue._convert_to_cpp_catalogue')


class Core(glue.CppObject):
    """trv::ParticleCatalogue: records what it is loaded with"""

    def __init__(s, verbose):
        super().__init__()
        object.__setattr__(s, 'log', [('new', verbose)])

    def load_particle_data(s, *a):
        s.log.append(('load', tuple(x.copy() for x in a)))
        return 0


def unit_compiled(u):
    G = glue.Glue('_particles', cpp=dict(CppParticleCatalogue=Core))
    M = Module('catalogue', imports={'astropy.table': types.SimpleNamespace(Table=Table), '._particles': types.SimpleNamespace(_ParticleCatalogue=G['_ParticleCatalogue'])})

    def loaded(verbose):
        def post(v, h, p, tag):
            lg = v.thisptr.log
            if u.true(tag + ': made and loaded once', [e[0] for e in lg] == ['new', 'load'] and len(lg[1][1]) == 6, repr(lg)):
                u.true(tag + ': verbosity', lg[0][1] == verbose, repr(lg[0]))
                for k, a in zip(COLS, lg[1][1]):
                    elems(u, tag + ': ' + k, a, (n_,), lambda i, k=k: Rv(at('d', k)(i)), h)
        return post
    calls(u, 'catalogue in compiled code', lambda: make(M)._convert_to_cpp_catalogue(verbose=7), NE, loaded(7))
    calls(u, 'catalogue in compiled code, default verbosity', lambda: make(M)._convert_to_cpp_catalogue(), NE, loaded(-1))
    u.fn('_particles._ParticleCatalogue.__cinit__')


UNITS = [('construction', unit_init), ('columns', unit_set), ('offset', unit_offset), ('extents against the box', unit_overflow), ('centring', unit_centre), *[('padding by %s, %s' % (nm, 'alone' if own else 'with a reference'), unit_pad(own, nm)) for own in (False, True) for nm in ('list', 'single number', 'array')],
         *[('boxes of padding, %s' % ('alone' if own else 'with a reference'), unit_padbox(own)) for own in (False, True)], ('periodic wrapping', unit_periodise), ('lines of sight', unit_los), ('mean density', unit_density), ('files', unit_file), ('conversion', unit_convert), ('compiled catalogue', unit_compiled)]


def replay(r):
    import cxx, pyreal, itertools
    import numpy as np

    def body(t):
        import os, tempfile, warnings
        warnings.simplefilter('ignore')
        cat = pyreal.pkg(_particles={'_ParticleCatalogue': Compiled})('catalogue').ParticleCatalogue
        q = type(r)()
        rng = np.random.default_rng(131 + 17 * t)
        kinds = ['arrays', 'lists', 'float32', 'read-only', 'strided']

        def raw(n, off):
            d = {k: rng.uniform(-1, 1, n) * 50 + off for k in XYZ}
            d.update({k: rng.uniform(0.1, 2, n) for k in ('nz', 'ws', 'wc')})
            return d

        def lay(a, kind):
            if kind == 'lists':
                return [float(x) for x in a]
            if kind == 'float32':
                return np.asarray(a, dtype=np.float32)
            if kind == 'strided':
                b = np.zeros(2 * len(a)); b[::2] = a
                return b[::2]
            a = np.array(a)
            a.flags.writeable = kind != 'read-only'
            return a

        def state(tag, c, want, what, rtol=1e-9):
            n = len(want['x'])
            q.case(tag + ': size', c.ntotal == len(c) == n, what)
            for k in COLS:
                q.case('%s: column %s' % (tag, k), np.allclose(np.asarray(c[k], dtype=float), want[k], rtol=rtol, atol=1e-4 if rtol > 1e-8 else 1e-9), what)
            for k in XYZ:
                x = np.asarray(c[k], dtype=float)
                q.case('%s: extent of %s' % (tag, k), np.allclose(c.bounds[k], (x.min(), x.max()), rtol=1e-7, atol=1e-12) and np.isclose(c.spans[k], x.max() - x.min(), rtol=1e-6, atol=1e-9), what)
            ws, wc = np.asarray(c['ws'], dtype=float), np.asarray(c['wc'], dtype=float)
            q.case(tag + ': total weights', np.isclose(c.wtotal, (ws * wc).sum(), rtol=1e-5) and np.isclose(c.wstotal, ws.sum(), rtol=1e-5), what)

        for rep in range(12 if r.tier == 'thorough' else 3):
            for kind in kinds:
                rt = 1e-5 if kind == 'float32' else 1e-9
                n, m = int(rng.integers(1, 12)), int(rng.integers(1, 12))
                d, e = raw(n, rng.uniform(-200, 200)), raw(m, rng.uniform(-200, 200))
                what = '%s, %d and %d particles, process %d' % (kind, n, m, t)
                keep = {k: lay(d[k], kind) for k in COLS}
                new = lambda: cat(*[keep[k] for k in COLS])
                ref = lambda: cat(*[lay(e[k], kind) for k in COLS])
                state('given', new(), d, what, rt)
                state('defaults', cat(*[lay(d[k], kind) for k in XYZ]), dict(d, nz=np.zeros(n), ws=np.ones(n), wc=np.ones(n)), what, rt)
                state('single numbers', cat(*[lay(d[k], kind) for k in XYZ], nz=2.5, ws=.5, wc=3.), dict(d, nz=np.full(n, 2.5), ws=np.full(n, .5), wc=np.full(n, 3.)), what, rt)
                box = rng.uniform(20, 300, 3)
                ng = rng.integers(4, 65, 3)
                pf = rng.uniform(0, .2, 3)
                for bf in ('list', 'tuple', 'array', 'single'):
                    b = {'list': [float(x) for x in box], 'tuple': tuple(float(x) for x in box), 'array': np.array(box), 'single': float(box[0])}[bf]
                    bb = np.full(3, box[0]) if bf == 'single' else box
                    w2 = '%s, box as %s' % (what, bf)

                    def shifted(x, o): return dict(x, **{k: np.asarray(x[k], dtype=float) - o[j] for j, k in enumerate(XYZ)})
                    c = new(); c.offset_coords(b)
                    state('offset', c, shifted(d, bb), w2, rt)
                    for own in (True, False):
                        w = d if own else e
                        loc, hic = (np.array([op(np.asarray(w[k])) for k in XYZ]) for op in (np.min, np.max))
                        w3 = w2 + (', alone' if own else ', with a reference')
                        c, f = new(), ref()
                        c.centre(b, catalogue_ref=None if own else f)
                        o = (loc + hic) / 2 - bb / 2
                        state('centring', c, shifted(d, o), w3, rt)
                        if not own:
                            state('centring, reference', f, shifted(e, o), w3, rt)
                        for pn, p in (('list', [float(x) for x in pf]), ('array', np.array(pf)), ('single', float(pf[0]))):
                            pp = np.full(3, pf[0]) if pn == 'single' else pf
                            for gn in (None, 'list', 'array', 'single'):
                                c, f = new(), ref()
                                if gn is None:
                                    c.pad(b, boxsize_pad=p, catalogue_ref=None if own else f)
                                    o = loc - pp * bb
                                else:
                                    g = {'list': [int(x) for x in ng], 'array': np.array(ng), 'single': int(ng[0])}[gn]
                                    c.pad(b, ngrid=g, ngrid_pad=p, catalogue_ref=None if own else f)
                                    o = loc - pp * bb / (ng[0] if gn == 'single' else ng)
                                w4 = '%s, padding as %s, grid as %s' % (w3, pn, gn)
                                state('padding', c, shifted(d, o), w4, rt)
                                if not own:
                                    state('padding, reference', f, shifted(e, o), w4, rt)
                    c = new(); c.periodise(b)
                    want = dict(d)
                    for j, k in enumerate(XYZ):
                        x = np.asarray(d[k])
                        want[k] = (x + bb[j] / 2 - (x.min() + x.max()) / 2) % bb[j]
                        y = np.asarray(c[k], dtype=float)
                        dd = np.abs(y - want[k])
                        q.case('wrapping: position', np.allclose(np.minimum(dd, bb[j] - dd), 0, atol=2e-3 if kind == 'float32' else 1e-8), w2)
                        q.case('wrapping: in the box', bool((y >= 0).all() and (y <= bb[j] * (1 + 1e-7)).all()), w2)
                        want[k] = y
                    state('wrapping', c, want, w2, rt)
                    c = new(); c.compute_mean_density(boxsize=b)
                    state('mean density', c, dict(d, nz=np.full(n, n / np.prod(bb))), w2, rt)
                c = new(); c.compute_mean_density(volume=123.)
                state('mean density by volume', c, dict(d, nz=np.full(n, n / 123.)), what, rt)
                l = new().compute_los()
                xyz = np.array([d[k] for k in XYZ]).T
                q.case('lines of sight', np.allclose(l, xyz / np.linalg.norm(xyz, axis=1)[:, None], rtol=1e-5), what)
                for k in COLS:
                    q.case('inputs untouched', np.array_equal(np.asarray(keep[k], dtype=float), np.asarray(lay(d[k], kind), dtype=float)), what)
                    c = new(); v = rng.uniform(-3, 3, n)
                    c[k] = v
                    state('column %s set' % k, c, dict(d, **{k: v}), what, rt)
                # a history of operations
                c = new(); f = ref(); w, we = dict(d), dict(e)
                for step in range(6):
                    op = rng.integers(0, 4)
                    if op == 0:
                        o = rng.uniform(-9, 9, 3); c.offset_coords(o); w = shifted(w, o)
                    elif op == 1:
                        o = np.array([(np.min(we[k]) + np.max(we[k])) / 2 for k in XYZ]) - box / 2
                        c.centre(list(box), catalogue_ref=f); w, we = shifted(w, o), shifted(we, o)
                    elif op == 2:
                        o = np.array([np.min(w[k]) for k in XYZ]) - .1 * box
                        c.pad(list(box), boxsize_pad=.1); w = shifted(w, o)
                    else:
                        v = rng.uniform(.1, 2, n); c['ws'] = v; w = dict(w, ws=v)
                    state('history', c, w, what, 1e-4 if kind == 'float32' else rt)
                    state('history, reference', f, we, what, 1e-4 if kind == 'float32' else rt)
                pc = new()._convert_to_cpp_catalogue()
                for k, a in zip(COLS, pc.a):
                    q.case('conversion', isinstance(a, np.ndarray) and a.flags.c_contiguous and np.allclose(a, d[k], rtol=1e-6), what)
            with tempfile.TemporaryDirectory() as td:
                d = raw(5, 3.)
                for names in (COLS, XYZ, XYZ + ('ws',), ('wc',) + XYZ, ('z', 'nz', 'x', 'y')):
                    fn = os.path.join(td, 'c.dat')
                    np.savetxt(fn, np.array([d[k] for k in names]).T)
                    w = dict(d, **{k: np.full(5, 0. if k == 'nz' else 1.) for k in ('nz', 'ws', 'wc') if k not in names})
                    what = 'file of %s' % (names,)
                    state('file', cat.read_from_file(fn, names=list(names)), w, what)
                    with open(fn, 'w') as g:
                        g.write(' '.join('c_' + k for k in names) + '\n')
                        np.savetxt(g, np.array([d[k] for k in names]).T)
                    state('file, other names', cat.read_from_file(fn, name_mapping={k: 'c_' + k for k in names}, format='text'), w, what)
                rt = 1e-9
                c = cat(*[np.arange(4.) + 1] * 3, nz=np.arange(4))
                c.compute_mean_density(volume=8.)
                q.case('mean density with a column of integers', np.allclose(c['nz'], .5), 'column of integers')
        return q
    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
