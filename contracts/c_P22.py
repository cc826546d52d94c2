"""P22: the Python measurement functions hand the compiled estimators what was asked, and return and save what they give (twopt.py, threept.py, _twopt.pyx, _threept.pyx)."""
from common import *
import types, re, copy
import pylib, pysym, glue
from pylib import PYTRUST, Module, Arr, Iv, Rv, V, I, R, rn, between, explore, At
from glue import GLUETRUST

LEVEL = 'proof'
TRUSTED = PYTRUST + GLUETRUST + ['the compiled parameter set, binning, normalisation and estimator functions are seen by their contracts (P14, P05, P08, P09, P10); catalogues by theirs (P13)',
                                 'option strings take their documented values; tags and directories are taken as opaque text']
ZI, OI, ZR = num(0, 'I'), num(1, 'I'), num(0, 'R')
AX = ('x', 'y', 'z')
n_, m_, d_ = I('n'), I('m'), I('d')
PRE = [lt(ZI, n_), lt(ZI, m_), lt(ZI, d_)] + [lt(ZR, R('%s%s' % (p, a))) for p in ('L', 'S') for a in AX] + [lt(ZI, I('%s%s' % (p, a))) for p in ('N', 'M') for a in AX] + [lt(ZI, I('nb')), lt(ZI, I('nbx'))] + \
    [lt(ZR, R('span_%s_%s' % (c, a))) for c in 'dr' for a in AX] + [lt(ZR, R(x)) for x in ('expand', 'expx', 'cut', 'cutx')]

TWO = {'compute_powspec': ('powspec', 'survey'), 'compute_corrfunc': ('2pcf', 'survey'), 'compute_powspec_in_gpp_box': ('powspec', 'sim'), 'compute_corrfunc_in_gpp_box': ('2pcf', 'sim'), 'compute_corrfunc_window': ('2pcf-win', 'random')}
THREE = {'compute_bispec': ('bispec', 'survey'), 'compute_3pcf': ('3pcf', 'survey'), 'compute_bispec_in_gpp_box': ('bispec', 'sim'), 'compute_3pcf_in_gpp_box': ('3pcf', 'sim'), 'compute_3pcf_window': ('3pcf-win', 'random')}
STRUCT = {'trv::compute_powspec': 'PowspecMeasurements', 'trv::compute_powspec_in_gpp_box': 'PowspecMeasurements', 'trv::compute_corrfunc': 'TwoPCFMeasurements', 'trv::compute_corrfunc_in_gpp_box': 'TwoPCFMeasurements',
          'trv::compute_corrfunc_window': 'TwoPCFWindowMeasurements', 'trv::compute_bispec': 'BispecMeasurements', 'trv::compute_bispec_in_gpp_box': 'BispecMeasurements', 'trv::compute_3pcf': 'ThreePCFMeasurements',
          'trv::compute_3pcf_in_gpp_box': 'ThreePCFMeasurements', 'trv::compute_3pcf_window': 'ThreePCFWindowMeasurements'}
KEYS = {'powspec': ('kbin', 'keff', 'nmodes', 'pk_raw', 'pk_shot'), '2pcf': ('rbin', 'reff', 'npairs', 'xi'), '2pcf-win': ('rbin', 'reff', 'npairs', 'xi'),
        'bispec': ('k1_bin', 'k2_bin', 'k1_eff', 'k2_eff', 'nmodes_1', 'nmodes_2', 'bk_raw', 'bk_shot'), '3pcf': ('r1_bin', 'r2_bin', 'r1_eff', 'r2_eff', 'npairs_1', 'npairs_2', 'zeta_raw', 'zeta_shot')}
KEYS['3pcf-win'] = KEYS['3pcf-win-wa'] = KEYS['3pcf']


class CppCatalogue(glue.CppObject):
    def __init__(s, **k):
        object.__setattr__(s, 'm', k)


class Particles:
    """_ParticleCatalogue by its contract: holds the columns of the catalogue as they are at the conversion"""

    def __init__(s, name, moves, verbose, nz):
        s.thisptr = CppCatalogue(name=name, moves=tuple(moves), verbose=verbose, nz=nz)


class Cat:
    """ParticleCatalogue by its contract (P13): operations recorded in order"""

    def __init__(s, w, name, n):
        s.w, s.name, s.n, s.moves = w, name, n, []
        s.spans = {a: Rv(R('span_%s_%s' % (name, a))) for a in AX}
        s.wstotal, s.ntotal = Rv(R('wstotal_' + name)), Iv(n)
        s.nz = Arr.sym('nz_' + name, (n,))
        s.dens = 'own'

    def __getitem__(s, k): return s.nz if k == 'nz' else Arr.sym(k + '_' + s.name, (s.n,))

    def compute_los(s):
        s.w.ev.append(('los', s.name, tuple(s.moves)))
        return Arr.sym('los_' + s.name, (s.n, num(3, 'I')))

    def centre(s, boxsize, catalogue_ref=None): s._move('centre', boxsize, catalogue_ref)

    def pad(s, boxsize, ngrid=None, boxsize_pad=None, ngrid_pad=None, catalogue_ref=None):
        if (boxsize_pad is None) == (ngrid_pad is None):
            raise ValueError('exactly one of the paddings')
        if ngrid_pad is not None and ngrid is None:
            raise ValueError('no mesh')
        s._move('pad', boxsize, catalogue_ref, *(('box', boxsize_pad) if boxsize_pad is not None else ('grid', ngrid_pad, trip(ngrid))))

    def periodise(s, boxsize): s._move('periodise', boxsize, None)

    def _move(s, op, boxsize, ref, *extra):
        e = (op, trip(boxsize), ref.name if ref is not None else None) + extra
        s.moves.append(e)
        if ref is not None and ref is not s:
            ref.moves.append(e)

    def compute_mean_density(s, volume=None, boxsize=None):
        if volume is None:
            b = trip(boxsize)
            volume = b[0] * b[1] * b[2]
        s.dens = ('mean', pysym.real(pysym.lit(volume)))

    def _convert_to_cpp_catalogue(s, verbose=-1): return Particles(s.name, s.moves, verbose, s.dens)

    def write_attrs_as_header(s, catalogue_ref=None): return 'ATTRIBUTES %s %s' % (s.name, catalogue_ref.name if catalogue_ref is not None else None)


def trip(x):
    if isinstance(x, Arr):
        return tuple(x[i] for i in range(3))
    if pysym.isscalar(x):
        return (x, x, x)
    x = list(x)
    if len(x) != 3:
        raise ValueError('three numbers')
    return tuple(x)


class PlainLogger:
    """logging.Logger: no keyword arguments beyond the standard ones, no custom levels"""

    def info(s, msg, *a): pass
    debug = warning = error = info


class Logger(PlainLogger):
    def info(s, msg, *a, cpp_state=None): pass
    stat = debug = warning = error = info


class World:
    def __init__(s): s.ev, s.files = [], []


class Session:
    """the modules under contract with everything they import; one per check"""

    def __init__(s):
        s.P, s.D = glue.parameters(), glue.dataobjs()
        s.w = World()
        st = s.D.x.structs
        res = {f: (lambda args, f=f, c=c: glue.Results(f, st[c][1], d_)) for f, c in STRUCT.items()}
        imp = {'.parameters': types.SimpleNamespace(**{k: s.P[k] for k in ('_modify_measurement_parameters', '_modify_sampling_parameters', '_set_ngrid_from_cutoff', 'fetch_paramset_template', 'ParameterSet')}), '.dataobjs': types.SimpleNamespace(Binning=s.D['Binning'])}
        s.G, s.M = {}, {}
        for f in ('twopt', 'threept'):
            s.G[f] = glue.Glue('_' + f, results=res)
            g = types.SimpleNamespace(**{k: s.G[f][k] for k in s.G[f].x.types})
            s.M[f] = Module(f, imports=dict(imp, **{'._' + f: g}))
            s.M[f].set('np', npx(s))

    def fresh(s):
        s.w = World()
        for g in s.G.values():
            g.log.clear()
            g.live.clear()
        return s.w


def npx(s):
    """numpy with its file functions recorded"""
    m = types.ModuleType('numpy')
    m.__dict__.update(glue.NP.__dict__)

    def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
        s.w.files.append(('txt', str(fname), X.copy(), dict(fmt=fmt, delimiter=delimiter, newline=newline, header=header, footer=footer, comments=comments)))

    def savez(file, *a, **k):
        f = str(file)
        s.w.files.append(('npz', f if f.endswith('.npz') else f + '.npz', a, dict(k)))
    m.savetxt, m.savez = savetxt, savez
    return m


SES = None


def session():
    global SES
    if SES is None:
        SES = Session()
    return SES


def base(stat, ctype, align='centre', pad='box', norm='particle', box=True, mesh=True, form='diag', tag=None, three=False):
    """a complete parameter dictionary as loaded from file"""
    return {'directories': {'catalogues': None, 'measurements': 'OUT'}, 'files': {'data_catalogue': None, 'rand_catalogue': None}, 'catalogue_columns': [], 'tags': {'output': tag},
            'boxsize': {a: Rv(R('L' + a)) if box else None for a in AX}, 'ngrid': {a: Iv(I('N' + a)) if mesh else None for a in AX}, 'expand': Rv(R('expand')), 'cutoff_nyq': Rv(R('cut')), 'alignment': align, 'padscale': pad, 'padfactor': Rv(R('pad')),
            'assignment': 'tsc', 'interlace': True, 'catalogue_type': ctype, 'statistic_type': stat, 'degrees': {'ell1': Iv(I('l1')), 'ell2': Iv(I('l2')), 'ELL': Iv(I('LL'))}, 'wa_orders': {'i': Iv(I('wi')), 'j': Iv(I('wj'))}, 'form': form,
            'norm_convention': norm, 'binning': 'log', 'range': [Rv(R('bmin')), Rv(R('bmax'))], 'num_bins': Iv(I('nb')), 'idx_bin': Iv(I('ib')), 'fftw_scheme': 'measure', 'use_fftw_wisdom': False, 'save_binned_vectors': False, 'verbose': 17, 'progbar': False}


class Opt:
    """one way of calling"""

    def __init__(s, **k):
        s.src, s.align, s.pad, s.norm, s.box, s.mesh, s.los, s.over, s.save, s.logger, s.form, s.tag, s.wa, s.dens = 'dict', 'centre', 'box', 'particle', True, True, False, False, False, None, 'diag', None, False, True
        s.__dict__.update(k)


def invoke(fname, o):
    """call the public function in the way described; returns what the contract needs"""
    S = session()
    w = S.fresh()
    two = fname in TWO
    stat, ctype = (TWO if two else THREE)[fname]
    mod = 'twopt' if two else 'threept'
    cd, cr = Cat(w, 'd', n_), Cat(w, 'r', m_)
    kw, want = {}, {}
    b = base(stat, ctype, o.align, o.pad, o.norm, o.box, o.mesh, o.form, o.tag)
    want.update(boxsize=[R('L' + a) for a in AX] if o.box else None, ngrid=[I('N' + a) for a in AX] if o.mesh else None, alignment=o.align, padscale=o.pad, padfactor=R('pad'), assignment='tsc', interlace='true', expand=R('expand'), cutoff_nyq=R('cut'),
                form=o.form, norm_convention=o.norm, binning='log', ELL=I('LL'), bin_min=R('bmin'), bin_max=R('bmax'), num_bins=I('nb'), verbose=17)
    if not two:
        want.update(ell1=I('l1'), ell2=I('l2'), idx_bin=I('ib'))
    if o.src == 'none':
        want.update(cutoff_nyq=ZR, norm_convention='particle', binning='lin', verbose=20, expand=rn(1), padfactor=ZR)
    if stat == '3pcf-win' and o.src != 'none':
        want.update(i_wa=I('wi'), j_wa=I('wj'))
    S.given = None
    bins = None
    if o.over or o.src == 'none':
        sp = {'boxsize': [Rv(R('S' + a)) for a in AX], 'ngrid': [Iv(I('M' + a)) for a in AX], 'alignment': o.align, 'assignment': 'pcs', 'interlace': False}
        want.update(boxsize=[R('S' + a) for a in AX], ngrid=[I('M' + a) for a in AX], assignment='pcs', interlace='false')
        if not o.box:
            del sp['boxsize']
            want['boxsize'] = None
        if not o.mesh:
            del sp['ngrid']
            want['ngrid'] = None
            sp['cutoff_nyq'] = Rv(R('cutx'))
            want['cutoff_nyq'] = R('cutx')
        if o.over == 'more':
            sp['expand'] = Rv(R('expx'))
            want['expand'] = R('expx')
        if o.align == 'pad':
            sp['boxpad' if o.pad == 'box' else 'gridpad'] = Rv(R('padx'))
            want['padfactor'] = R('padx')
        kw['sampling_params'] = sp
        bins = S.D['Binning']('fourier' if stat in ('powspec', 'bispec') else 'config', 'lin', bin_min=Rv(R('bminx')), bin_max=Rv(R('bmaxx')), num_bins=Iv(I('nbx')))
        kw['binning'] = bins
        want.update(bin_min=R('bminx'), bin_max=R('bmaxx'), num_bins=I('nbx'))
        if two:
            kw['degree'] = Iv(I('LLx'))
            want['ELL'] = I('LLx')
        else:
            kw['degrees'] = (Iv(I('l1x')), Iv(I('l2x')), Iv(I('LLx')))
            kw['form'] = o.form
            kw['idx_bin'] = Iv(I('ibx'))
            want.update(ELL=I('LLx'), ell1=I('l1x'), ell2=I('l2x'), idx_bin=I('ibx'))
    if o.wa:
        kw['wa_orders'] = (Iv(I('wix')), Iv(I('wjx')))
        want.update(i_wa=I('wix'), j_wa=I('wjx'))
    if o.src == 'dict':
        kw['paramset'] = b
    elif o.src == 'set':
        kw['paramset'] = S.P['ParameterSet'](param_dict=b)
    want.update(catalogue_type=ctype, statistic_type=stat + ('-wa' if o.wa else ''))
    want['npoint'], want['space'] = glue.SPACE[stat]
    los = {}
    for c, n, nm in ((cd, n_, 'data'), (cr, m_, 'rand')):
        if o.los and ctype in ('survey', 'random') and (ctype == 'survey' or nm == 'rand'):
            los[nm] = kw['los_' + nm] = Arr.sym('mylos_' + c.name, (n, num(3, 'I')))
    if o.save:
        kw['save'] = o.save
    if o.logger:
        kw['logger'] = o.logger
    f = S.M[mod][fname]
    a = (cd, cr) if ctype == 'survey' else (cd,) if ctype == 'sim' else (cr,)
    if o.dens is False:
        cd.nz = Arr.of((n_,), lambda ix: Rv(ZR), 'f')
    r = f(*a, **kw)
    return types.SimpleNamespace(r=r, log=list(S.G[mod].log), live=[b.live for b in S.G[mod].live], ev=list(w.ev), files=list(w.files), want=want, stat=stat + ('-wa' if o.wa else ''), ctype=ctype, two=two, bins=bins, o=o, cats=(cd, cr), fname=fname)


def num_eq(u, tag, got, want, h):
    got = pysym.lit(got)
    return u.eq(tag, pysym.real(got), toreal(want) if want.s == 'I' else want, h)


def auto_box(v): return [R('span_%s_%s' % ('d' if v.ctype == 'sim' else 'r', a)) * v.want['expand'] for a in AX]
def auto_mesh(v, box): return [pysym.intt(glue.mesh_of(v.want['space'], b, v.want['cutoff_nyq'])) for b in box]


STRS = ('alignment', 'padscale', 'assignment', 'interlace', 'form', 'norm_convention', 'binning', 'catalogue_type', 'statistic_type', 'npoint', 'space')


def params_are(u, tag, snap, v, h):
    """the compiled parameter set has the values asked for"""
    w = v.want
    box = w['boxsize'] or auto_box(v)
    mesh = w['ngrid'] or auto_mesh(v, box)
    for k in STRS:
        u.true('%s: parameter %s' % (tag, k), snap[k].decode() == w[k], '%r, expected %r' % (snap[k], w[k]))
    for i, a in enumerate(AX):
        num_eq(u, '%s: parameter boxsize %s' % (tag, a), snap['boxsize'][i], box[i], h)
        num_eq(u, '%s: parameter ngrid %s' % (tag, a), snap['ngrid'][i], mesh[i], h)
    for k, x in w.items():
        if k in STRS + ('boxsize', 'ngrid', 'cutoff_nyq'):
            continue
        if k == 'padfactor' and w['alignment'] != 'pad':
            continue
        num_eq(u, '%s: parameter %s' % (tag, k), snap[k], x if isinstance(x, T) else num(x, 'I'), h)
    num_eq(u, tag + ': parameter volume', snap['volume'], box[0] * box[1] * box[2], h)
    num_eq(u, tag + ': parameter nmesh', snap['nmesh'], mesh[0] * mesh[1] * mesh[2], h)
    u.true(tag + ': parameter assignment_order', snap['assignment_order'] == glue.ORDER[w['assignment']], repr(snap['assignment_order']))
    return box, mesh


def same_move(u, tag, got, want, h):
    u.true(tag + ': kind', got[0] == want[0] and got[2] == want[2] and len(got) == len(want), '%r, expected %r' % (got, want))
    if len(got) != len(want):
        return
    for i in range(3):
        num_eq(u, '%s: box %s' % (tag, AX[i]), got[1][i], want[1][i], h)
    if len(want) > 3:
        u.true(tag + ': padding scale', got[3] == want[3], repr(got[3]))
        for i in range(3):
            num_eq(u, '%s: padding %s' % (tag, AX[i]), trip(got[4])[i], want[4], h)
    if len(want) > 5 and len(got) > 5:
        for i in range(3):
            num_eq(u, '%s: mesh %s' % (tag, AX[i]), got[5][i], want[5][i], h)


def contract(u, tag, v, h):
    w, o = v.want, v.o
    npt = 'powspec' if v.two else 'bispec'
    est = [e for e in v.log if e[0] in STRUCT]
    u.true(tag + ': the estimator is called once', [e[0] for e in est] == ['trv::' + v.fname], repr([e[0] for e in est]))
    if len(est) != 1:
        return
    name, args, tys = est[0]
    want_n = {'survey': 7, 'sim': 4, 'random': 6 if v.two else 7}[v.ctype]
    if not u.true(tag + ': number of arguments', len(args) == want_n, repr(args)):
        return
    cats = {'survey': ['d', 'r'], 'sim': ['d'], 'random': ['r']}[v.ctype]
    k = len(cats)
    pos = args[k if v.ctype == 'sim' else 2 * k]
    if not u.true(tag + ': parameter set handed over', isinstance(pos, tuple) and pos[0] == 'CppParameterSet', repr(pos)):
        return
    box, mesh = params_are(u, tag, pos[2], v, h)
    # catalogues, aligned
    for i, c in enumerate(cats):
        a = args[i]
        if not u.true('%s: catalogue %d' % (tag, i), isinstance(a, tuple) and a[0] == 'CppCatalogue' and a[2]['name'] == c, repr(a)):
            return
        u.true('%s: catalogue %d verbosity' % (tag, i), a[2]['verbose'] == w['verbose'], repr(a[2]['verbose']))
        if v.ctype == 'survey':
            if w['alignment'] == 'centre':
                mv = [('centre', box, 'r')]
            elif w['padscale'] == 'box':
                mv = [('pad', box, 'r', 'box', w['padfactor'])]
            else:
                mv = [('pad', box, 'r', 'grid', w['padfactor'], mesh)]
        elif v.ctype == 'sim':
            mv = [('periodise', box, None)]
        else:
            mv = [('centre', box, None), ('periodise', box, None)]
        got = a[2]['moves']
        if u.true('%s: catalogue %d aligned' % (tag, i), len(got) == len(mv), repr(got)):
            for j, (g, e) in enumerate(zip(got, mv)):
                same_move(u, '%s: alignment %d of catalogue %d' % (tag, j, i), g, e, h)
        if v.ctype == 'sim' and o.dens is False:
            u.true(tag + ': missing density filled in', isinstance(a[2]['nz'], tuple) and a[2]['nz'][0] == 'mean', repr(a[2]['nz']))
            if isinstance(a[2]['nz'], tuple):
                u.eq(tag + ': volume of the filled-in density', a[2]['nz'][1], box[0] * box[1] * box[2], h)
        elif v.ctype != 'sim':
            u.true('%s: density of catalogue %d kept' % (tag, i), a[2]['nz'] == 'own', repr(a[2]['nz']))
    # lines of sight
    if v.ctype != 'sim':
        for i, c in enumerate(cats):
            L = args[k + i]
            n = n_ if c == 'd' else m_
            if u.true('%s: lines of sight %d' % (tag, i), isinstance(L, tuple) and L[0] == 'los', repr(L)):
                u.eq('%s: number of lines of sight %d' % (tag, i), L[1], n, h)
                pylib.elems(u, '%s: lines of sight %d' % (tag, i), L[2], (n, num(3, 'I')), lambda p, q, c=c: Rv(app(('mylos_' if o.los else 'los_') + c + '[]', (p, q), 'R')), h)
        if not o.los:
            u.true(tag + ': default lines of sight from the positions as given', sorted(v.ev) == sorted(('los', c, ()) for c in cats), repr(v.ev))
    u.true(tag + ': memory of the lines of sight released', len(v.live) == (0 if v.ctype == 'sim' else k) and not any(v.live), repr(v.live))
    # binning
    B = args[k + 1 if v.ctype == 'sim' else 2 * k + 1]
    if u.true(tag + ': binning handed over', isinstance(B, tuple) and B[0] == 'CppBinning', repr(B)):
        if v.bins is not None:
            u.true(tag + ': the given binning', B[1] is v.bins.thisptr)
        u.true(tag + ': space and scheme of the binning', B[2]['space'].decode() == w['space'] and B[2]['scheme'].decode() == ('lin' if v.bins is not None else w['binning']), repr(B[2]))
        for q in ('bin_min', 'bin_max', 'num_bins'):
            num_eq(u, '%s: %s of the binning' % (tag, q), B[2][q], w[q], h)
        u.true(tag + ': bins are set', len(B[1].calls) >= 1)
    # normalisation
    alpha = div(R('wstotal_d'), R('wstotal_r')) if v.ctype == 'survey' else rn(1)
    fac = {}
    src = 'd' if v.ctype == 'sim' else 'r'
    for cpp, a, t in v.log:
        if cpp in STRUCT:
            continue
        kind = cpp.rsplit('_from_', 1)[1]
        u.true('%s: %s factor of these statistics' % (tag, kind), cpp == 'trv::calc_%s_normalisation_from_%s' % (npt, kind), cpp)
        val = var('value of %s #%d' % (cpp, 1), 'R')
        fac[kind] = val
        cs = ['d', 'r'] if kind == 'meshes' else [src]
        for i, c in enumerate(cs):
            u.true('%s: %s factor: catalogue %d' % (tag, kind, i), isinstance(a[i], tuple) and a[i][0] == 'CppCatalogue' and a[i][2]['name'] == c, repr(a[i]))
            if isinstance(a[i], tuple) and args[cats.index(c)][0] == 'CppCatalogue':
                u.true('%s: %s factor: catalogue %d as measured' % (tag, kind, i), a[i][2] == args[cats.index(c)][2], '')
        j = len(cs)
        if kind != 'particles':
            if u.true('%s: %s factor: parameters' % (tag, kind), isinstance(a[j], tuple) and a[j][0] == 'CppParameterSet', repr(a[j])):
                params_are(u, '%s: %s factor' % (tag, kind), a[j][2], v, h)
            j += 1
        num_eq(u, '%s: %s factor: alpha' % (tag, kind), a[j], alpha, h)
        if kind == 'meshes' and len(a) > j + 1:
            num_eq(u, '%s: %s factor: padding' % (tag, kind), a[j + 1], rn('1/10'), h)
            num_eq(u, '%s: %s factor: cell size' % (tag, kind), a[j + 2], rn(10), h)
            u.true('%s: %s factor: assignment' % (tag, kind), a[j + 3] == b'cic', repr(a[j + 3]))
    key = {'particle': 'particles', 'mesh': 'mesh', 'mesh-mixed': 'meshes', 'none': None}[w['norm_convention']]
    nf = rn(1) if key is None else fac.get(key)
    if u.true(tag + ': the normalisation factor of the convention is calculated', nf is not None, repr(sorted(fac))):
        num_eq(u, tag + ': normalisation factor', args[k + 2 if v.ctype == 'sim' else 2 * k + 2 + (v.ctype == 'random')], nf, h)
    if v.ctype == 'random':
        num_eq(u, tag + ': alpha', args[2 * k + 2], rn(1), h)
        if not v.two:
            u.true(tag + ': wide-angle switch', bool(args[2 * k + 4]) == bool(o.wa), repr(args[2 * k + 4]))
    # results
    res = 'trv::' + v.fname
    extra = ['header'] if o.save and str(o.save).lower().endswith('.npz') else []
    u.true(tag + ': names of the results', sorted(v.r) == sorted(KEYS[v.stat] + tuple(extra)), repr(sorted(v.r)))
    for q in KEYS[v.stat]:
        if q in v.r:
            kd = 'i' if q.startswith('n') else 'c' if q[:2] in ('pk', 'xi', 'bk', 'ze') else 'f'
            results_eq(u, '%s: result %s' % (tag, q), v.r[q], res, q, kd, h)
    saved(u, tag, v, fac, nf, box, mesh, h)


def results_eq(u, tag, got, res, q, kd, h):
    ref = Arr.sym('%s.%s' % (res, q), (d_,), kd)
    pylib.elems(u, tag, got, (d_,), lambda i: ref.get((i,)), h)


def fmt(x, s): return format(x, s)


def names(v):
    """(header name of a column, result, part) in the order of the table"""
    w = v.want
    L = Iv(w['ELL'])
    if v.two:
        e = '{:d}'.format(L)
        if w['space'] == 'fourier':
            return [('k_cen', 'kbin', 0), ('k_eff', 'keff', 0), ('nmodes', 'nmodes', 0), ('Re{pk%s_raw}' % e, 'pk_raw', 1), ('Im{pk%s_raw}' % e, 'pk_raw', 2), ('Re{pk%s_shot}' % e, 'pk_shot', 1), ('Im{pk%s_shot}' % e, 'pk_shot', 2)]
        return [('r_cen', 'rbin', 0), ('r_eff', 'reff', 0), ('npairs', 'npairs', 0), ('Re{xi%s}' % e, 'xi', 1), ('Im{xi%s}' % e, 'xi', 2)]
    e = ''.join('{}'.format(Iv(w[q])) for q in ('ell1', 'ell2', 'ELL'))
    x, c, b = ('k', 'nmodes', 'bk') if w['space'] == 'fourier' else ('r', 'npairs', 'zeta')
    r = []
    for i in '12':
        r += [('%s%s_cen' % (x, i), '%s%s_bin' % (x, i), 0), ('%s%s_eff' % (x, i), '%s%s_eff' % (x, i), 0), ('%s_%s' % (c, i), '%s_%s' % (c, i), 0)]
    for t in ('raw', 'shot'):
        for p, j in (('Re', 1), ('Im', 2)):
            r.append(('%s{%s%s_%s}' % (p, b, e, t), '%s_%s' % (b, t), j))
    return r


def stem(v):
    w, o = v.want, v.o
    tag = o.tag or ''
    if o.src == 'none':
        tag = ''
    if v.two:
        return {'powspec': 'pk', '2pcf': 'xi', '2pcf-win': 'xiw'}[v.stat] + '{:d}'.format(Iv(w['ELL'])) + tag
    s = {'bispec': 'bk', '3pcf': 'zeta', '3pcf-win': 'zetaw', '3pcf-win-wa': 'zetaw'}[v.stat] + ''.join('{}'.format(Iv(w[q])) for q in ('ell1', 'ell2', 'ELL'))
    s += {'diag': '_diag', 'full': '_full', 'row': '_row', 'off-diag': '_offdiag'}[w['form']]
    if w['form'] in ('row', 'off-diag'):
        s += '{:d}'.format(Iv(w['idx_bin']))
    if v.stat == '3pcf-win-wa':
        s += '_wa' + ''.join('{}'.format(Iv(w[q])) for q in ('i_wa', 'j_wa'))
    return s + tag


def norm_text(s): return re.sub(r'\u27e6(.*?)\|', lambda m: '\u27e6%s|' % m.group(1), s)


def saved(u, tag, v, fac, nf, box, mesh, h):
    o = v.o
    if not o.save:
        u.true(tag + ': nothing is saved unless asked', not v.files, repr([f[:2] for f in v.files]))
        return
    if not u.true(tag + ': one file is saved', len(v.files) == 1, repr([f[:2] for f in v.files])):
        return
    kind, path, data, kw = v.files[0]
    ext = '.txt' if o.save.lower() == '.txt' else '.npz'
    d = 'OUT/' if o.src != 'none' else ''
    u.true(tag + ': name of the file', path == d + stem(v) + ext and kind == ext[1:], '%r, expected %r' % (path, d + stem(v) + ext))
    header = kw.get('header')
    if not u.true(tag + ': header is text', isinstance(header, str), repr(header)):
        return
    cols = names(v)
    lines = header.split('\n')
    refs = {'survey': 'ATTRIBUTES d r', 'sim': 'ATTRIBUTES d None', 'random': 'ATTRIBUTES r None'}[v.ctype]
    u.true(tag + ': catalogue attributes in the header', refs in lines, repr(lines[:2]))
    u.true(tag + ': column names in the header', lines[-1] == ', '.join('[%d] %s' % (i, c[0]) for i, c in enumerate(cols)), '%r' % lines[-1])

    def line(start):
        c = [x for x in lines if x.startswith(start + ':')]
        return c[0].split(':', 1)[1].strip() if len(c) == 1 else None
    bx = '[%s]' % ', '.join('{:.3f}'.format(pysym.lit(Rv(b))) for b in box)
    ms = '[%s]' % ', '.join('{:d}'.format(Iv(b)) for b in mesh)
    u.true(tag + ': box size in the header', line('Box size') == bx, '%r, expected %r' % (line('Box size'), bx))
    u.true(tag + ': mesh number in the header', line('Mesh number') == ms, '%r, expected %r' % (line('Mesh number'), ms))
    u.true(tag + ': alignment in the header', line('Box alignment') == v.want['alignment'], repr(line('Box alignment')))
    il = {'true': 'True', 'false': 'False'}[v.want['interlace']]
    u.true(tag + ': assignment and interlacing in the header', line('Mesh assignment and interlacing') == '%s, %s' % (v.want['assignment'], il), repr(line('Mesh assignment and interlacing')))
    g = lambda x: '{:.9e}'.format(Rv(x) if isinstance(x, T) and x.op != 'num' else float(nv(x)))
    u.true(tag + ': normalisation factor in the header', line('Normalisation factor') == '%s (%s)' % (g(nf), v.want['norm_convention']), repr(line('Normalisation factor')))
    alt = (line('Normalisation factor alternatives') or '').split(', ')
    for i, (k, nm) in enumerate((('particles', 'particle'), ('mesh', 'mesh'), ('meshes', 'mesh-mixed'))):
        e = g(fac[k]) if k in fac else g(rn(0))
        u.true('%s: %s factor in the header' % (tag, nm), len(alt) == 3 and alt[i].startswith('%s (%s' % (e, nm)), repr(alt))
    if kind == 'txt':
        ref = lambda q, kd: Arr.sym('trv::%s.%s' % (v.fname, q), (d_,), kd)
        if u.true(tag + ': table', isinstance(data, Arr) and data.ndim == 2, repr(data)):
            u.eq(tag + ': rows of the table', data.shape_[0], d_, h)
            u.eq(tag + ': columns of the table', data.shape_[1], num(len(cols), 'I'), h)
            i = I('ix0')
            for c, (nm, q, part) in enumerate(cols):
                kd = 'i' if q.startswith('n') else 'f' if part == 0 else 'c'
                x = pysym.lit(ref(q, kd).get((i,)))
                e = pysym.real(x) if part < 2 else pysym.imag(x)
                u.eq('%s: column %s' % (tag, nm), pysym.real(pysym.lit(data.get((i, num(c, 'I'))))), e, h + [between(0, i, d_)])
        f = kw['fmt']
        f = f.split(kw['delimiter']) if isinstance(f, str) else list(f)
        u.true(tag + ': one format per column', len(f) == len(cols), repr(f))
        if len(f) == len(cols):
            for c, (nm, q, part) in enumerate(cols):
                ok = re.fullmatch(r'%[ +-]?\d*d', f[c]) if q.startswith('n') else re.fullmatch(r'%[ +-]?\d*\.(\d+)e', f[c])
                u.true('%s: format of column %s' % (tag, nm), bool(ok) and (q.startswith('n') or int(ok.group(1)) >= 9), f[c])
        u.true(tag + ': lines of the table', kw['newline'] == '\n' and kw['comments'] == '# ' and kw['delimiter'].strip() == '' and kw['delimiter'] != '' and not kw['footer'], repr(kw['delimiter']))
    else:
        u.true(tag + ': arrays in the file', sorted(kw) == sorted(KEYS[v.stat] + ('header',)) and not data, repr(sorted(kw)))
        for q in KEYS[v.stat]:
            if q in kw:
                results_eq(u, '%s: saved %s' % (tag, q), kw[q], 'trv::' + v.fname, q, 'i' if q.startswith('n') else 'c' if q[:2] in ('pk', 'xi', 'bk', 'ze') else 'f', h)


def go(u, name, fname, o):
    E, ps = explore(lambda: invoke(fname, o), PRE)
    n = 0
    for i, p in enumerate(ps):
        tag = name + (' (path %d)' % i if len(ps) > 1 else '')
        with At(E, p) as h:
            for nm, g, hy in p.obs:
                u.holds(tag + ': ' + nm, g, hy)
            if p.out == 'exc':
                u.fail(tag + ': the measurement is carried out', '%s: %s' % (type(p.exc).__name__, p.exc), repr(p.conds)[:400])
                continue
            n += 1
            contract(u, tag, p.value, h)
    u.true(name + ': some input is accepted', n > 0)


def describe(o, skip=()):
    return ', '.join('%s=%s' % (k, x) for k, x in o.__dict__.items() if k not in skip and x != Opt().__dict__[k]) or 'plain'


def each(fname):
    stat, ctype = dict(TWO, **THREE)[fname]
    out = [Opt(), Opt(src='set'), Opt(over=True), Opt(src='set', over='more'), Opt(src='none')]
    norms = ['none', 'mesh'] + (['mesh-mixed'] if fname in TWO and ctype == 'survey' else [])
    out += [Opt(norm=x) for x in norms]
    if ctype != 'sim':
        out += [Opt(los=True), Opt(los=True, over=True, src='set')]
    if ctype == 'survey':
        out += [Opt(align='pad', pad=p, src=s, over=ov) for p in ('box', 'grid') for s, ov in (('dict', False), ('set', False), ('none', False), ('dict', True))]
        out += [Opt(align='pad', pad='grid', box=False, mesh=False), Opt(align='pad', pad='box', box=False)]
    if ctype != 'random':
        out += [Opt(box=False), Opt(mesh=False), Opt(box=False, mesh=False), Opt(box=False, mesh=False, src='set')]
    if ctype == 'sim':
        out += [Opt(dens=False), Opt(dens=False, box=False)]
    if fname in THREE:
        out += [Opt(form=f) for f in ('row', 'off-diag', 'full')] + [Opt(form='row', over=True)]
    if stat == '3pcf-win':
        out += [Opt(wa=True), Opt(wa=True, src='none'), Opt(wa=True, src='set', over=True)]
    return out


def unit_measure(fname):
    def f(u):
        for o in each(fname):
            go(u, describe(o), fname, o)
        u.fn('%s.%s' % ('twopt' if fname in TWO else 'threept', fname))
    return f


def unit_save(fname):
    def f(u):
        stat, ctype = dict(TWO, **THREE)[fname]
        out = [Opt(save=s) for s in ('.txt', '.npz', '.TXT')] + [Opt(save='.txt', tag=t) for t in ('_tag', '_z0.5', '.v1')] + [Opt(save='.npz', tag='_z0.5', src='set'), Opt(save='.txt', src='none'), Opt(save='.txt', norm='mesh'), Opt(save='.npz', norm='none')]
        if ctype != 'random':
            out += [Opt(save='.txt', box=False, mesh=False)]
        if fname in THREE:
            out += [Opt(save='.txt', form=x) for x in ('row', 'off-diag', 'full')]
        if stat == '3pcf-win':
            out += [Opt(save='.txt', wa=True), Opt(save='.npz', wa=True, tag='_t', form='row')]
        if fname in TWO and ctype == 'survey':
            out += [Opt(save='.txt', norm='mesh-mixed'), Opt(save='.txt', align='pad')]
        for o in out:
            go(u, describe(o), fname, o)
        for bad in ('.csv', 'txt'):
            E, ps = explore(lambda: invoke(fname, Opt(save=bad)), PRE)
            u.true('save=%s rejected' % bad, ps and all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps), repr(ps)[:300])
        m = 'twopt' if fname in TWO else 'threept'
        u.fn(*['%s.%s' % (m, x) for x in ('_get_measurement_filename', '_print_measurement_header', '_assemble_measurement_datatab')])
    return f


def unit_logged(u):
    for fname in list(TWO) + list(THREE):
        for nm, lg in (('standard logger', PlainLogger()), ('package logger', Logger())):
            go(u, '%s, %s' % (fname, nm), fname, Opt(logger=lg, save='.txt', box=fname.endswith('window') or False, mesh=fname.endswith('window')))


def unit_missing(u):
    S = session()
    for fname in list(TWO) + list(THREE):
        two = fname in TWO
        stat, ctype = (TWO if two else THREE)[fname]
        sp = {'boxsize': [Rv(R('S' + a)) for a in AX], 'ngrid': [Iv(I('M' + a)) for a in AX]}
        full = dict(sampling_params=sp, **({'degree': 0} if two else {'degrees': (0, 0, 0), 'form': 'diag'}))

        def call(drop, **more):
            w = S.fresh()
            cd, cr = Cat(w, 'd', n_), Cat(w, 'r', m_)
            kw = dict(copy.copy(full), binning=S.D['Binning']('fourier' if stat in ('powspec', 'bispec') else 'config', 'lin', bin_min=Rv(R('bminx')), bin_max=Rv(R('bmaxx')), num_bins=Iv(I('nbx'))), **more)
            kw.pop(drop, None)
            a = (cd, cr) if ctype == 'survey' else (cd,) if ctype == 'sim' else (cr,)
            return S.M['twopt' if two else 'threept'][fname](*a, **kw)
        for drop in list(full) + ['binning']:
            E, ps = explore(lambda: call(drop), PRE)
            u.true('%s without %s or a parameter set is rejected' % (fname, drop), ps and all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps), repr(ps)[:300])
        if not two:
            for f in ('row', 'off-diag'):
                E, ps = explore(lambda: call('form', form=f), PRE) if False else explore(lambda: S.M['threept'][fname] and call_form(S, fname, ctype, stat, full, f), PRE)
                u.true('%s with form %s and no index is rejected' % (fname, f), ps and all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps), repr(ps)[:300])
    u.fn('twopt._amalgamate_parameters', 'threept._amalgamate_parameters')


def call_form(S, fname, ctype, stat, full, f):
    w = S.fresh()
    cd, cr = Cat(w, 'd', n_), Cat(w, 'r', m_)
    kw = dict(full, form=f, binning=S.D['Binning']('fourier' if stat == 'bispec' else 'config', 'lin', bin_min=Rv(R('bminx')), bin_max=Rv(R('bmaxx')), num_bins=Iv(I('nbx'))))
    a = (cd, cr) if ctype == 'survey' else (cd,) if ctype == 'sim' else (cr,)
    return S.M['threept'][fname](*a, **kw)


UNITS = [(f + ' measured', unit_measure(f)) for f in list(TWO) + list(THREE)] + [(f + ' saved', unit_save(f)) for f in list(TWO) + list(THREE)] + [('loggers', unit_logged), ('missing arguments', unit_missing)]


def replay(r):
    import cxx, itertools, os, tempfile, warnings
    import numpy as np
    import gluereal
    warnings.simplefilter('ignore')

    def body(t):
        warnings.simplefilter('ignore')
        W = gluereal.World()
        q = type(r)()
        cat = W.imp('catalogue').ParticleCatalogue
        mods = {'twopt': W.imp('twopt'), 'threept': W.imp('threept')}
        rng = np.random.default_rng(223 + t)
        names_ = list(TWO) + list(THREE)
        for rep in range(6 if r.tier == 'thorough' else 2):
            for fi, fname in enumerate(names_):
                stat, ctype = dict(TWO, **THREE)[fname]
                two = fname in TWO
                o = types.SimpleNamespace(src=('dict', 'set')[(t + rep) % 2], over=bool(rng.integers(2)), box=bool(rng.integers(3)), mesh=bool(rng.integers(3)), align=('centre', 'pad')[int(rng.integers(2))] if ctype == 'survey' else 'centre',
                                          pad=('box', 'grid')[int(rng.integers(2))], norm=('particle', 'mesh', 'none', 'mesh-mixed' if two and ctype == 'survey' else 'particle')[int(rng.integers(4))], los=bool(rng.integers(2)), save=(None, '.txt', '.npz')[int(rng.integers(3))],
                                          form=('diag', 'row', 'off-diag', 'full')[int(rng.integers(4))] if not two else 'diag', tag=(None, '_tag', '_z0.5')[int(rng.integers(3))], wa=stat == '3pcf-win' and bool(rng.integers(2)))
                if ctype == 'random':
                    o.box = o.mesh = True
                if not o.box or not o.mesh:
                    o.src = 'dict'
                with tempfile.TemporaryDirectory() as tmp:
                    try:
                        one(q, W, cat, mods, fname, stat, ctype, two, o, rng, tmp, '%s with %s' % (fname, ', '.join('%s=%s' % kv for kv in o.__dict__.items())))
                    except Exception as e:
                        import traceback
                        q.case('%s: measured' % fname, False, '%s: %s: %s: %s' % (fname, o.__dict__, type(e).__name__, traceback.format_exc()[-300:]))
        return q

    def one(q, W, cat, mods, fname, stat, ctype, two, o, rng, tmp, what):
        W.log.clear()
        W.bufs.clear()
        nd, nr = int(rng.integers(4, 9)), int(rng.integers(5, 11))
        raw = {}
        for c, n in (('d', nd), ('r', nr)):
            raw[c] = {k: rng.uniform(100, 190, n) for k in AX}
            raw[c].update(nz=rng.uniform(1e-4, 1e-3, n), ws=rng.uniform(.5, 2, n), wc=rng.uniform(.5, 2, n))
        if ctype == 'sim' and rng.integers(2):
            raw['d']['nz'] = None
        C = {c: cat(*[raw[c][k] for k in AX + ('nz', 'ws', 'wc')]) for c in 'dr'}
        box = rng.uniform(220, 400, 3)
        mesh = [int(x) for x in rng.integers(8, 20, 3)]
        four = SP[stat] == 'fourier'
        cut = float(rng.uniform(.1, .3)) if four else float(rng.uniform(10, 20))
        w = dict(alignment=o.align, padscale=o.pad, padfactor=float(rng.uniform(.01, .05)) if o.pad == 'box' else 1.5, assignment='tsc', interlace='true', form=o.form, norm_convention=o.norm, binning='lin', ell1=1, ell2=2, ELL=int(rng.integers(0, 4)),
                 bin_min=.01, bin_max=.2, num_bins=5, idx_bin=3, verbose=17, expand=1.25, statistic_type=stat + ('-wa' if o.wa else ''), catalogue_type=ctype, i_wa=0, j_wa=1)
        b = {'directories': {'catalogues': None, 'measurements': tmp}, 'files': {'data_catalogue': None, 'rand_catalogue': None}, 'catalogue_columns': [], 'tags': {'output': o.tag}, 'boxsize': dict(zip(AX, box if o.box else [None] * 3)),
             'ngrid': dict(zip(AX, mesh if o.mesh else [None] * 3)), 'expand': 1.25, 'cutoff_nyq': cut, 'alignment': o.align, 'padscale': o.pad, 'padfactor': w['padfactor'], 'assignment': 'tsc', 'interlace': True, 'catalogue_type': ctype, 'statistic_type': stat,
             'degrees': {'ell1': 1, 'ell2': 2, 'ELL': w['ELL']}, 'wa_orders': {'i': 0, 'j': 1}, 'form': o.form, 'norm_convention': o.norm, 'binning': 'lin', 'range': [.01, .2], 'num_bins': 5, 'idx_bin': 3, 'fftw_scheme': 'measure', 'use_fftw_wisdom': False,
             'save_binned_vectors': False, 'verbose': 17, 'progbar': False}
        kw = {}
        PS = W.P.ParameterSet(param_dict=b)
        kw['paramset'] = PS
        if o.over:
            kw['sampling_params'] = {'assignment': 'pcs', 'interlace': False}
            w.update(assignment='pcs', interlace='false')
            if o.align == 'pad':
                w['padscale'] = o.pad = ('box', 'grid')[int(rng.integers(2))]
                kw['sampling_params'][o.pad + 'pad'] = w['padfactor'] = float(rng.uniform(.01, .05)) if o.pad == 'box' else 2.5
            if o.box and o.mesh:
                box, mesh = rng.uniform(220, 400, 3), [int(x) for x in rng.integers(8, 20, 3)]
                kw['sampling_params'].update(boxsize=list(box), ngrid=list(mesh))
            if two:
                kw['degree'] = w['ELL'] = 3
            else:
                kw['degrees'] = (2, 3, 1)
                w.update(ell1=2, ell2=3, ELL=1)
        if o.wa:
            kw['wa_orders'] = (1, 2)
            w.update(i_wa=1, j_wa=2)
        ref = 'd' if ctype == 'sim' else 'r'
        pos = {c: np.array([raw[c][k] for k in AX]) for c in 'dr'}
        span = pos[ref].max(axis=1) - pos[ref].min(axis=1)
        if not o.box:
            box = span * 1.25
        if not o.mesh:
            x = [L * cut / np.pi if four else 2 * L / cut for L in box]
            mesh = [int(np.ceil(y)) + int(np.ceil(y)) % 2 for y in x]
        los = {}
        for c, nm in (('d', 'data'), ('r', 'rand')):
            los[c] = (pos[c] / np.sqrt((pos[c] ** 2).sum(axis=0))).T
            if o.los and ctype != 'sim' and (ctype == 'survey' or c == 'r'):
                los[c] = rng.uniform(-1, 1, los[c].shape)
                kw['los_' + nm] = los[c].copy()
        cs = {'survey': 'dr', 'sim': 'd', 'random': 'r'}[ctype]
        if o.save:
            kw['save'] = o.save
        out = getattr(mods['twopt' if two else 'threept'], fname)(*[C[c] for c in cs], **kw)
        est = [e for e in W.log if 'normalisation' not in e[0]]
        if not q.case(fname + ': estimator called once', len(est) == 1 and est[0][0] == 'trv::' + fname, '%s: called %s' % (what, [e[0] for e in est])):
            return
        a = est[0][1]
        k = len(cs)
        # alignment
        mid = (pos[ref].max(axis=1) + pos[ref].min(axis=1)) / 2
        lo = pos[ref].min(axis=1)
        if ctype == 'sim':
            fin = {c: (pos[c] - mid[:, None] + box[:, None] / 2) % box[:, None] for c in cs}
        elif o.align == 'centre':
            fin = {c: pos[c] - mid[:, None] + box[:, None] / 2 for c in cs}
        else:
            sh = w['padfactor'] * box * (1 if o.pad == 'box' else 1 / np.array(mesh))
            fin = {c: pos[c] - lo[:, None] + sh[:, None] for c in cs}
        for i, c in enumerate(cs):
            g = a[i]
            if q.case('%s: catalogue %d' % (fname, i), g[0] == 'cat' and len(g[1]) == 6 and len(g[1][0]) == len(raw[c]['x']), '%s: catalogue %d handed over: %r' % (what, i, g)):
                q.close('%s: positions of catalogue %d' % (fname, i), np.array(g[1][:3]), fin[c], '%s: positions of catalogue %d' % (what, i))
                nz = raw[c]['nz'] if raw[c]['nz'] is not None else np.full(nd, nd / np.prod(box))
                q.close('%s: densities and weights of catalogue %d' % (fname, i), np.array(g[1][3:]), np.array([nz, raw[c]['ws'], raw[c]['wc']]), '%s: densities and weights of catalogue %d' % (what, i))
            if ctype != 'sim':
                g = a[k + i]
                if q.case('%s: lines of sight %d' % (fname, i), g[0] == 'los' and g[2], '%s: lines of sight %r' % (what, g)):
                    q.close('%s: lines of sight %d' % (fname, i), g[1], los[c], '%s: lines of sight %d' % (what, i))
        q.case(fname + ': memory released', not any(x.live for x in W.bufs), what + ': line-of-sight memory not released')
        pi = k if ctype == 'sim' else 2 * k

        def params(tag, p):
            if not q.case(tag + ': parameters', p[0] == 'params', '%s: %r' % (what, p)):
                return
            p = p[1]
            for n, v in w.items():
                if (n in ('ell1', 'ell2', 'idx_bin', 'form') and two) or (n in ('i_wa', 'j_wa') and stat != '3pcf-win') or (n in ('padscale', 'padfactor') and o.align != 'pad'):
                    continue
                g = p[n].decode() if isinstance(p[n], bytes) else p[n]
                q.case('%s: parameter %s' % (tag, n), g == v, '%s: parameter %s is %r, expected %r' % (what, n, g, v))
            q.close(tag + ': parameter boxsize', p['boxsize'], box, what + ': box size')
            q.close(tag + ': parameter ngrid', p['ngrid'], mesh, what + ': mesh number')
            q.close(tag + ': parameter volume', p['volume'], np.prod(box), what + ': volume')
            q.close(tag + ': parameter nmesh', p['nmesh'], np.prod(mesh), what + ': number of cells')
        params(fname, a[pi])
        g = a[pi + 1]
        if q.case(fname + ': binning', g[0] == 'bins', '%s: %r' % (what, g)):
            q.case(fname + ': binning', g[1]['space'].decode() == SP[stat] and (g[1]['bin_min'], g[1]['bin_max'], g[1]['num_bins']) == (.01, .2, 5), '%s: binning %r' % (what, g[1]))
        alpha = raw['d']['ws'].sum() / raw['r']['ws'].sum() if ctype == 'survey' else 1.
        fac = {}
        for cpp, x in W.log:
            if 'normalisation' in cpp:
                kind = cpp.rsplit('_from_', 1)[1]
                fac[kind] = 3.25 + 1 + [e[0] for e in W.log].index(cpp) + 0.125 * len(cpp)
                cc = 'dr' if kind == 'meshes' else ref
                for c, g in zip(cc, x):
                    q.case('%s: %s factor: catalogue' % (fname, kind), g[0] == 'cat' and np.allclose(g[1][:3], fin[c]), '%s: catalogue of the %s factor' % (what, kind))
                j = len(cc)
                if kind != 'particles':
                    params('%s: %s factor' % (fname, kind), x[j])
                    j += 1
                q.close('%s: %s factor: alpha' % (fname, kind), x[j], alpha, '%s: alpha of the %s factor' % (what, kind))
        key = {'particle': 'particles', 'mesh': 'mesh', 'mesh-mixed': 'meshes', 'none': None}[o.norm]
        nf = 1. if key is None else fac.get(key, np.nan)
        q.close(fname + ': normalisation factor', a[pi + 2 + (ctype == 'random')], nf, what + ': normalisation factor')
        if ctype == 'random':
            q.case(fname + ': alpha', a[pi + 2] == 1., '%s: alpha %r' % (what, a[pi + 2]))
        if stat == '3pcf-win':
            q.case(fname + ': wide-angle switch', bool(a[pi + 4]) == o.wa, '%s: wide-angle switch %r' % (what, a[pi + 4]))
        # results
        st = W.structs[STRUCT['trv::' + fname]][1]
        ref_ = {}
        for i, (n, ty) in enumerate(st.items()):
            x = np.arange(5) + 7. * i + 0.5
            ref_[n] = x.astype(int) if 'int' in ty else x * (1 + 0.37j) if 'complex' in ty else x
        v = types.SimpleNamespace(want={k_: (num(x, 'I') if isinstance(x, int) else x) for k_, x in dict(w, space=SP[stat]).items()}, two=two, stat=w['statistic_type'])
        ks = KEYS[v.stat]
        q.case(fname + ': names of the results', sorted(set(out) - {'header'}) == sorted(ks), '%s: %s' % (what, sorted(out)))
        for n in ks:
            if n in out:
                q.close('%s: result %s' % (fname, n), out[n], ref_[n], '%s: result %s' % (what, n))
        if not o.save:
            q.case(fname + ': nothing saved', not os.listdir(tmp), '%s: %s' % (what, os.listdir(tmp)))
            return
        e = '%d' % w['ELL'] if two else '%d%d%d' % (w['ell1'], w['ell2'], w['ELL'])
        fn = {'powspec': 'pk', '2pcf': 'xi', '2pcf-win': 'xiw', 'bispec': 'bk', '3pcf': 'zeta', '3pcf-win': 'zetaw', '3pcf-win-wa': 'zetaw'}[v.stat] + e
        if not two:
            fn += {'diag': '_diag', 'full': '_full', 'row': '_row3', 'off-diag': '_offdiag3'}[o.form]
        fn += ('_wa12' if o.wa else '') + (o.tag or '') + o.save
        if not q.case(fname + ': name of the saved file', os.listdir(tmp) == [fn], '%s: saved %s, expected %s' % (what, os.listdir(tmp), fn)):
            return
        path = os.path.join(tmp, fn)
        part = {0: lambda x: x, 1: np.real, 2: np.imag}
        if o.save == '.npz':
            z = np.load(path)
            q.case(fname + ': arrays saved', sorted(z.files) == sorted(ks + ('header',)), '%s: %s' % (what, z.files))
            for n in ks:
                if n in z.files:
                    q.close('%s: saved %s' % (fname, n), z[n], ref_[n], '%s: saved %s' % (what, n))
            return
        cols = [(n.replace('\u27e6', '').replace('\u27e7', '').replace('|d', ''), x, p_) for n, x, p_ in names(v)]
        tab = np.loadtxt(path)
        if q.case(fname + ': table', tab.shape == (5, len(cols)), '%s: table of shape %s' % (what, tab.shape)):
            for i, (n, x, p_) in enumerate(cols):
                q.close('%s: column %s' % (fname, n), tab[:, i], part[p_](ref_[x]), '%s: column %s' % (what, n), rtol=1e-8)
        head = [l[1:].strip() for l in open(path) if l.startswith('#')]
        import re as re_
        q.case(fname + ': column names in the header', bool(head) and re_.findall(r'\[\d+\] ([^,]+)', head[-1]) == [re_.sub(r'\{(\w+?)\}', r'{\1}', n) for n, _, _ in cols], '%s: %r, expected %r' % (what, head[-1:], [n for n, _, _ in cols]))
        l = [x.split(':', 1)[1] for x in head if x.startswith('Box size')]
        q.case(fname + ': box size in the header', len(l) == 1 and np.allclose(eval(l[0]), box, atol=1e-3), '%s: box size %s, expected %s' % (what, l, box))
        l = [x.split(':', 1)[1] for x in head if x.startswith('Mesh number')]
        q.case(fname + ': mesh number in the header', len(l) == 1 and list(eval(l[0])) == list(mesh), '%s: mesh number %s, expected %s' % (what, l, mesh))
        l = [x.split(':', 1)[1] for x in head if x.startswith('Normalisation factor:')]
        q.case(fname + ': normalisation factor in the header', len(l) == 1 and abs(float(l[0].split()[0]) - nf) < 1e-7 * nf and l[0].split()[1] == '(%s)' % o.norm, '%s: normalisation factor %s, expected %s' % (what, l, nf))
    for out in cxx.pmap(body, range(8), timeout=300):
        absorb(r, out)


SP = {s: glue.SPACE[s][1] for s in glue.SPACE}

