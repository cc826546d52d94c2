"""Contracts on the Python parameter set (parameters.pyx), for P14: what each entry means to the compiled parameter set, what is shown back, and histories of changes."""
from common import *
import copy, types, os
import pylib, pysym, glue
from pylib import Iv, Rv, V, I, R, rn, calls, same, explore, At
from glue import CppParameterSet

AX = ('x', 'y', 'z')
ZI = num(0, 'I')
PRE = [lt(num(0, 'R'), R('L' + a)) for a in AX] + [lt(ZI, I('N' + a)) for a in AX] + [lt(num(0, 'R'), R('cut')), lt(num(0, 'R'), R('cut2'))] + [lt(num(0, 'R'), R('B' + a)) for a in AX] + [lt(ZI, I('M' + a)) for a in AX]
TRUST = ['the YAML reader gives the entries of the file']
DOCS = dict(alignment=('centre', 'pad'), padscale=('box', 'grid'), assignment=('ngp', 'cic', 'tsc', 'pcs'), catalogue_type=('survey', 'random', 'sim'), statistic_type=('powspec', 'bispec', '2pcf', '3pcf', '2pcf-win', '3pcf-win', 'modes', 'pairs'),
            form=('full', 'diag', 'off-diag', 'row'), norm_convention=('none', 'particle', 'mesh'), binning=('lin', 'log', 'linpad', 'logpad'))
CASELESS = tuple(DOCS)
DEFAULT = {k: v for k, v in CppParameterSet().m.items()}
G = None


def module():
    global G
    if G is None:
        G = glue.parameters()
    return G


def base(**k):
    d = {'directories': {'catalogues': 'cats', 'measurements': 'out'}, 'files': {'data_catalogue': 'd.txt', 'rand_catalogue': 'r.txt'}, 'catalogue_columns': [], 'tags': {'output': '_tag'},
         'boxsize': {a: Rv(R('L' + a)) for a in AX}, 'ngrid': {a: Iv(I('N' + a)) for a in AX}, 'expand': Rv(R('expand')), 'cutoff_nyq': Rv(R('cut')), 'alignment': 'centre', 'padscale': 'box', 'padfactor': Rv(R('pad')),
         'assignment': 'tsc', 'interlace': False, 'catalogue_type': 'survey', 'statistic_type': 'bispec', 'degrees': {'ell1': Iv(I('l1')), 'ell2': Iv(I('l2')), 'ELL': Iv(I('LL'))}, 'wa_orders': {'i': Iv(I('wi')), 'j': Iv(I('wj'))},
         'form': 'diag', 'norm_convention': 'particle', 'binning': 'lin', 'range': [Rv(R('bmin')), Rv(R('bmax'))], 'num_bins': Iv(I('nb')), 'idx_bin': Iv(I('ib')), 'fftw_scheme': 'measure', 'use_fftw_wisdom': False, 'save_binned_vectors': False,
         'verbose': Iv(I('vb')), 'progbar': False}
    d.update(k)
    return {k: v for k, v in d.items() if v is not GONE}


GONE = object()


def nested(d, k, **kw):
    x = dict(d[k])
    x.update(kw)
    return {a: b for a, b in x.items() if b is not GONE}


def expected(d):
    """members of the compiled set when it is validated, from the documentation of the entries"""
    g = lambda a, b: (d.get(a) or {}).get(b) or ''
    o = dict(DEFAULT)
    o.update(catalogue_dir=g('directories', 'catalogues'), measurement_dir=g('directories', 'measurements'), data_catalogue_file=g('files', 'data_catalogue'), rand_catalogue_file=g('files', 'rand_catalogue'), output_tag=g('tags', 'output'))
    for k in ('boxsize', 'ngrid'):
        v = [d[k][a] for a in AX]
        if None not in v:
            o[k] = v
        o['volume' if k == 'boxsize' else 'nmesh'] = pysym.NP.prod(v) if None not in v else 0
    for k in ('expand', 'padfactor', 'num_bins', 'idx_bin', 'verbose'):
        if d.get(k) is not None:
            o[k] = d[k]
    if None in d['ngrid'].values() and d.get('cutoff_nyq') is not None:
        o['cutoff_nyq'] = d['cutoff_nyq']
    for k in CASELESS:
        if d.get(k) is not None:
            o[k] = d[k].lower()
    for k in ('interlace', 'progbar'):
        if d.get(k) is not None:
            o[k] = str(d[k]).lower()
    for k in ('ell1', 'ell2', 'ELL'):
        if d['degrees'][k] is not None:
            o[k] = d['degrees'][k]
    for k in 'ij':
        if d['wa_orders'][k] is not None:
            o[k + '_wa'] = d['wa_orders'][k]
    o['bin_min'], o['bin_max'] = d['range']
    if d.get('fftw_scheme') is not None:
        o['fftw_scheme'] = d['fftw_scheme']
    w = d.get('use_fftw_wisdom')
    if w is not None:
        o['use_fftw_wisdom'] = 'false' if str(w).lower() == 'false' else str(w)
    return o


DERIVED = ('npoint', 'space', 'assignment_order', 'fftw_planner_flag', 'fftw_wisdom_file_f', 'fftw_wisdom_file_b')
UNUSED = {'cutoff_nyq'}


def agree(u, tag, snap, want, h, skip=()):
    for k, w in want.items():
        if k in skip:
            continue
        v = snap[k]
        if isinstance(v, bytes):
            w = w if isinstance(w, bytes) else w.encode()
            u.true('%s: %s' % (tag, k), v == w, '%r, expected %r' % (v, w))
            continue
        for i, (a, b) in enumerate(zip(v, w) if isinstance(v, (list, tuple)) else [(v, w)]):
            same(u, '%s: %s%s' % (tag, k, ' %d' % i if isinstance(v, (list, tuple)) else ''), pysym.real(pysym.lit(a)), pysym.real(pysym.lit(b)), h)


def shown(u, tag, P, d, h):
    """what the set shows after validation"""
    m = P.thisptr.m
    for k in ('assignment_order', 'fftw_planner_flag'):
        same(u, '%s: shows %s' % (tag, k), pysym.lit(P[k]), pysym.lit(m[k]), h)
    for k in ('npoint', 'space', 'fftw_wisdom_file_f', 'fftw_wisdom_file_b'):
        u.true('%s: shows %s' % (tag, k), P[k] == m[k].decode(), '%r %r' % (P[k], m[k]))
    iv = m['interlace'] == b'true'
    u.true(tag + ': shows interlacing', P['interlace'] is iv, repr(P['interlace']))
    w = m['use_fftw_wisdom'].decode()
    u.true(tag + ': shows the wisdom option', P['use_fftw_wisdom'] == (False if w in ('', 'false') else w), repr(P['use_fftw_wisdom']))
    pb = m['progbar'].decode()
    u.true(tag + ': shows the progress bar', P['progbar'] == {'true': True, 'false': False}.get(pb, pb if not pb.isdigit() else int(pb)), repr(P['progbar']))
    if None not in d['boxsize'].values():
        same(u, tag + ': shows the volume', pysym.real(pysym.lit(P['volume'])), Rv(R('Lx') * R('Ly') * R('Lz')) if d.get('#box') is None else d['#box'], h)
    else:
        u.true(tag + ': shows no volume', P['volume'] == 0, repr(P['volume']))
    if None not in d['ngrid'].values() or None not in d['boxsize'].values():
        for i, a in enumerate(AX):
            same(u, tag + ': shows the mesh ' + a, pysym.real(pysym.lit(P['ngrid'][a])), pysym.real(pysym.lit(m['ngrid'][i])), h)
        same(u, tag + ': shows the mesh number', pysym.real(pysym.lit(P['nmesh'])), pysym.real(pysym.lit(m['nmesh'])), h)
    else:
        u.true(tag + ': shows no mesh', P['nmesh'] == 0 and all(x is None for x in P['ngrid'].values()), repr(P['nmesh']))
    for k, v in d.items():
        if k in DERIVED + ('interlace', 'use_fftw_wisdom', 'progbar', 'ngrid', 'directories', 'files', 'tags', 'boxsize', 'degrees', 'wa_orders', 'range', 'catalogue_columns', '#box'):
            continue
        if isinstance(v, V):
            same(u, '%s: shows %s' % (tag, k), pysym.lit(P[k]), v, h)
        else:
            u.true('%s: shows %s' % (tag, k), P[k] == v, repr(P[k]))


def given(u, name, d, fn=None, original=True, skip=()):
    """the set is accepted: the compiled set is validated once with the documented values, and shows what it derives"""
    want = expected(d)
    keep = copy.deepcopy(d)

    def go():
        return (fn or (lambda: module()['ParameterSet'](param_dict=copy.deepcopy(d))))()

    def post(P, h, p, tag):
        lg = P.thisptr.log
        if not u.true(tag + ': validated', bool(lg) and lg[-1][0] == 'validate' and lg[-1][1] is True and (fn is not None or len(lg) == 1), repr([(e[0], e[1]) for e in lg])):
            return
        agree(u, tag, lg[-1][2], want, h, DERIVED + tuple(skip))
        shown(u, tag, P, keep, h)
        u.true(tag + ': marked valid', P._validity is True and P._original is original, repr((P._validity, P._original)))
        u.true(tag + ': source', P._source == 'dict', repr(P._source))
    calls(u, name, go, PRE, post)


def refused(u, name, d, exc):
    E, ps = explore(lambda: module()['ParameterSet'](param_dict=copy.deepcopy(d)), PRE)
    u.true(name, bool(ps) and all(p.out == 'exc' and type(p.exc).__name__ == exc for p in ps), repr([(p.out, type(p.exc).__name__, str(p.exc)[:80]) for p in ps])[:300])


def unit_entries(u):
    u.fn('parameters.ParameterSet.__cinit__', 'parameters.ParameterSet._parse_params', 'parameters.ParameterSet._validate')
    given(u, 'complete', base())
    for k, vs in DOCS.items():
        for v in vs:
            for w in sorted({v, v.upper(), v.capitalize()}):
                more = {}
                if k == 'statistic_type' and v.endswith('win'):
                    more = dict(catalogue_type='random')
                if k == 'catalogue_type' and v == 'random':
                    more = dict(statistic_type='3pcf-win')
                given(u, '%s %s' % (k, w), base(**{k: w}, **more))
        if k not in ('statistic_type', 'catalogue_type'):
            given(u, k + ' unset', base(**{k: None}))
            given(u, k + ' missing', base(**{k: GONE}))
    for k in ('expand', 'padfactor', 'idx_bin', 'verbose', 'interlace', 'progbar', 'fftw_scheme', 'use_fftw_wisdom', 'cutoff_nyq'):
        for nm, v in (('unset', None), ('missing', GONE)):
            given(u, '%s %s' % (k, nm), base(**{k: v}))
    for v in (True, 'on', 'true', 'off', 'FALSE', 'True'):
        given(u, 'interlace %r' % (v,), base(interlace=v))
    for v in (True, 20, '5'):
        given(u, 'progbar %r' % (v,), base(progbar=v))
    for v in ('dir', '/Dir/wis', 'FALSE', 'False'):
        given(u, 'use_fftw_wisdom %r' % (v,), base(use_fftw_wisdom=v))
    for v in ('measure', 'patient', 'estimate'):
        given(u, 'fftw_scheme ' + v, base(fftw_scheme=v))
    for a, b in (('directories', 'catalogues'), ('directories', 'measurements'), ('files', 'data_catalogue'), ('files', 'rand_catalogue'), ('tags', 'output')):
        given(u, '%s %s unset' % (a, b), base(**{a: nested(base(), a, **{b: None})}))
        given(u, '%s %s missing' % (a, b), base(**{a: nested(base(), a, **{b: GONE})}))
        given(u, a + ' missing', base(**{a: GONE}))
        given(u, '%s %s as text' % (a, b), base(**{a: nested(base(), a, **{b: 'Other/Path.X'})}))
    for a, bs in (('degrees', ('ell1', 'ell2', 'ELL')), ('wa_orders', ('i', 'j'))):
        for b in bs:
            given(u, '%s %s unset' % (a, b), base(**{a: nested(base(), a, **{b: None})}))
            refused(u, '%s %s missing: rejected' % (a, b), base(**{a: nested(base(), a, **{b: GONE})}), 'InvalidParameterError')
        refused(u, a + ' missing: rejected', base(**{a: GONE}), 'InvalidParameterError')
    for st in ('powspec', '2pcf'):
        given(u, 'mesh unset, ' + st, base(ngrid={a: None for a in AX}, statistic_type=st))
        given(u, 'mesh partly unset, ' + st, base(ngrid=nested(base(), 'ngrid', y=None), statistic_type=st))
    given(u, 'box unset', base(boxsize={a: None for a in AX}))
    given(u, 'box partly unset', base(boxsize=nested(base(), 'boxsize', z=None)))
    given(u, 'box and mesh unset', base(boxsize={a: None for a in AX}, ngrid={a: None for a in AX}))
    for nm, v in (('unset', None), ('missing', GONE)):
        refused(u, 'mesh and cutoff %s: rejected' % nm, base(ngrid={a: None for a in AX}, cutoff_nyq=v), 'InvalidParameterError')
        refused(u, 'number of bins %s: rejected' % nm, base(num_bins=v), 'InvalidParameterError')
        refused(u, 'range %s: rejected' % nm, base(range=v), 'InvalidParameterError')
        for f in ('off-diag', 'row', 'Off-Diag', 'ROW'):
            refused(u, 'form %s with bin index %s: rejected' % (f, nm), base(form=f, idx_bin=v), 'InvalidParameterError')
    for v in ([None, Rv(R('bmax'))], [Rv(R('bmin')), None], [None, None]):
        refused(u, 'range %r: rejected' % ([x is None for x in v],), base(range=v), 'InvalidParameterError')
    for k, v in (('alignment', 'middle'), ('assignment', 'ng'), ('form', 'rows'), ('norm_convention', 'meshes'), ('binning', 'linear'), ('padscale', 'mesh')):
        refused(u, '%s %s: rejected' % (k, v), base(**{k: v}), 'RuntimeError')
    for kw in ({}, dict(param_filepath='x', param_dict=base())):
        E, ps = explore(lambda: module()['ParameterSet'](**kw))
        u.true('exactly one of file and dictionary', all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps), repr([(p.out, p.exc) for p in ps])[:200])


CHANGES = {'boxsize': {a: Rv(R('B' + a)) for a in AX}, 'ngrid': {a: Iv(I('M' + a)) for a in AX}, 'expand': Rv(R('expand2')), 'padfactor': Rv(R('pad2')), 'alignment': 'pad', 'padscale': 'grid', 'assignment': 'PCS', 'interlace': True, 'catalogue_type': 'sim',
           'degrees': {'ell1': Iv(I('k1')), 'ell2': Iv(I('k2')), 'ELL': Iv(I('KK'))}, 'wa_orders': {'i': Iv(I('ui')), 'j': Iv(I('uj'))}, 'form': 'full', 'norm_convention': 'mesh', 'binning': 'log', 'range': [Rv(R('cmin')), Rv(R('cmax'))],
           'num_bins': Iv(I('nb2')), 'idx_bin': Iv(I('ib2')), 'fftw_scheme': 'patient', 'verbose': Iv(I('vb2')), 'progbar': True, 'tags': {'output': 'new'}, 'directories': {'catalogues': 'c2', 'measurements': 'm2'},
           'files': {'data_catalogue': 'd2', 'rand_catalogue': 'r2'}, 'statistic_type': '2pcf', 'use_fftw_wisdom': 'wis'}


def unit_histories(u):
    u.fn('parameters.ParameterSet.__setitem__', 'parameters.ParameterSet.__setattr__', 'parameters.ParameterSet.update', 'parameters.ParameterSet.__getitem__', 'parameters.ParameterSet.__getattr__', 'parameters.ParameterSet.get', 'parameters.ParameterSet.items',
         'parameters.ParameterSet.names')
    PS = lambda d: module()['ParameterSet'](param_dict=copy.deepcopy(d))
    cut = base(ngrid={a: None for a in AX})

    def by_item(P, k, v): P[k] = v
    def by_attr(P, k, v): setattr(P, k, v)
    def by_update(P, k, v): P.update({k: v})
    def by_keyword(P, k, v): P.update(**{k: v})
    ways = (('by item', by_item), ('by attribute', by_attr), ('by update', by_update), ('by keyword', by_keyword))
    for k, v in CHANGES.items():
        for w, f in ways:
            def go(f=f, k=k, v=v):
                P = PS(base())
                f(P, k, copy.deepcopy(v))
                return P
            d = base(**{k: v})
            if k == 'boxsize':
                d['#box'] = Rv(R('Bx') * R('By') * R('Bz'))
            given(u, '%s changed %s' % (k, w), d, go, original=False)

    def chain():
        P = PS(base())
        for i, (k, v) in enumerate(CHANGES.items()):
            ways[i % 4][1](P, k, copy.deepcopy(v))
        return P

    d = base(**CHANGES)
    d['#box'] = Rv(R('Bx') * R('By') * R('Bz'))
    given(u, 'everything changed in turn', d, chain, original=False)
    d = base(**CHANGES)
    d['#box'] = Rv(R('Bx') * R('By') * R('Bz'))

    def at_once():
        P = PS(base())
        P.update(copy.deepcopy(CHANGES))
        return P
    given(u, 'everything changed at once', d, at_once, original=False)

    def there_and_back():
        P = PS(base())
        for k, v in CHANGES.items():
            P[k] = copy.deepcopy(v)
        for k, v in base().items():
            if k in CHANGES:
                P[k] = v
        return P
    given(u, 'everything changed and restored', base(), there_and_back, original=False)

    def looked_up(P, h, p, tag):
        for k, v in base().items():
            for nm, x in (('item', P[k]), ('attribute', getattr(P, k)), ('get', P.get(k)), ('get with a default', P.get(k, 'other')), ('items', dict(P.items())[k])):
                if isinstance(v, V):
                    same(u, '%s: %s %s' % (tag, nm, k), pysym.lit(x), v, h)
                elif not isinstance(v, (dict, list)):
                    u.true('%s: %s %s' % (tag, nm, k), x == v, repr(x))
        u.true(tag + ': names', set(P.names()) == set(dict(P.items())) >= set(base()), repr(set(P.names())))
        u.true(tag + ': get without the entry', P.get('nothing') is None and P.get('nothing', 7) == 7)
        for f, e in ((lambda: P['nothing'], 'NonParameterError'), (lambda: P.nothing, 'AttributeError')):
            try:
                f()
                u.fail(tag + ': unknown entry', 'no error')
            except Exception as x:
                u.true(tag + ': unknown entry', type(x).__name__ == e, repr(x))
    calls(u, 'looking up', lambda: PS(base()), PRE, looked_up)


def unit_files(u):
    """parameter files; the template"""
    u.fn('parameters.ParameterSet.__cinit__', 'parameters.fetch_paramset_template', 'parameters.ParameterSet.save')
    import io
    from pathlib import Path
    opened, dumped = [], []
    import yaml

    class Y:
        SafeLoader = yaml.SafeLoader
        @staticmethod
        def load(f, Loader=None):
            if Loader is not yaml.SafeLoader:
                raise pysym.Unsupported('YAML loader')
            return copy.deepcopy(base()) if isinstance(f, File) else yaml.load(f, Loader=Loader)
        @staticmethod
        def dump(d, f, **k):
            dumped.append((dict(d), f, k))

    class File:
        def __init__(s, n, mode): s.n, s.mode = n, mode
        def __enter__(s): return s
        def __exit__(s, *a): s.mode = 'closed'
    def open_(n, mode='r', *a, **k):
        opened.append((str(n), mode))
        return File(str(n), mode)
    Gf = glue.Glue('parameters', imports={'yaml': Y}, cpp=dict(CppParameterSet=CppParameterSet, open=open_))
    CppParameterSet.members = Gf.x.structs['CppParameterSet'][1]
    for nm, fn in (('text', 'some/pars.yml'), ('path', Path('/abs/pars.yml'))):
        opened.clear()

        def post(P, h, p, tag, fn=fn):
            u.true(tag + ': the file is read', opened and opened[-1] == (str(fn), 'r'), repr(opened))
            u.true(tag + ': source', P._source == os.path.abspath(str(fn)), repr(P._source))
            agree(u, tag, P.thisptr.log[-1][2], expected(base()), h, DERIVED)
            shown(u, tag, P, base(), h)
        calls(u, 'from a file given as ' + nm, lambda fn=fn: Gf['ParameterSet'](param_filepath=fn), PRE, post)

    def go(fn):
        opened.clear(); dumped.clear()
        P = Gf['ParameterSet'](param_dict=base())
        P.save(fn) if fn else P.save()
        return P
    for nm, fn, want in (('named', 'x/used.yml', 'x/used.yml'), ('default', None, 'out/parameters_used_tag.yml')):
        def post(P, h, p, tag, want=want):
            u.true(tag + ': one file is written', opened == [(want, 'w')] and len(dumped) == 1 and dumped[0][1].n == want, repr(opened))
            u.true(tag + ': all entries', set(dumped[0][0]) == set(P.names()) and all(dumped[0][0][k] is P[k] for k in P.names()))
        calls(u, 'saved, %s file' % nm, lambda fn=fn: go(fn), PRE, post)
    F = Gf['fetch_paramset_template']
    tx = open(os.path.join(pysym.SRC, 'resources', 'params_template.yml')).read()
    dd = yaml.safe_load(tx)
    dft = {k: v for k, v in dd.items() if v is not None and not isinstance(v, (dict, list, tuple, set))}
    for f in ('text', 'TEXT'):
        u.true('template as %s' % f, F(f) == tx and F(f, ret_defaults=True) == (tx, dft))
    for f in ('dict', 'Dict'):
        u.true('template as %s' % f, F(f) == dd and F(f, ret_defaults=True) == (dd, dft) and F(f) is not F(f))
    for f in ('', 'yaml'):
        for k in (False, True):
            try:
                F(f, ret_defaults=k)
                u.fail('template format %r' % f, 'accepted')
            except ValueError:
                u.true('template format %r' % f, True)
    need = {'directories', 'files', 'catalogue_columns', 'tags', 'boxsize', 'ngrid', 'degrees', 'wa_orders', 'range', 'num_bins', 'catalogue_type', 'statistic_type'}
    u.true('the template has every entry required', need <= set(dd) and all(set(dd[k]) == set(base()[k]) for k in ('directories', 'files', 'tags', 'boxsize', 'ngrid', 'degrees', 'wa_orders')))


SAMPLING = {'expand': Rv(R('expand2')), 'alignment': 'pad', 'boxsize': [Rv(R('B' + a)) for a in AX], 'ngrid': [Iv(I('M' + a)) for a in AX], 'assignment': 'pcs', 'interlace': True, 'cutoff_nyq': Rv(R('cut2'))}
MEASURE = {'ell1': Iv(I('k1')), 'ell2': Iv(I('k2')), 'ELL': Iv(I('KK')), 'i_wa': Iv(I('ui')), 'j_wa': Iv(I('uj')), 'form': 'row', 'bin_min': Rv(R('cmin')), 'bin_max': Rv(R('cmax')), 'num_bins': Iv(I('nb2')), 'idx_bin': Iv(I('ib2'))}


def put(d, k, v):
    """documented meaning of an override"""
    if k in ('boxsize', 'ngrid'):
        d[k] = dict(zip(AX, v))
    elif k in ('boxpad', 'gridpad'):
        d['padscale'], d['padfactor'] = k[:-3], v
    elif k in ('ell1', 'ell2', 'ELL'):
        d['degrees'][k] = v
    elif k in ('i_wa', 'j_wa'):
        d['wa_orders'][k[0]] = v
    elif k in ('bin_min', 'bin_max'):
        d['range'][k == 'bin_max'] = v
    else:
        d[k] = v


def flat(d, p=''):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, p + k + '.')
        elif isinstance(v, list):
            yield from flat(dict(enumerate(v)), p + '%s.' % k)
        else:
            yield p + str(k), v


def dicts_agree(u, tag, got, want, h):
    a, b = dict(flat(got)), dict(flat(want))
    if not u.true(tag + ': entries', set(a) == set(b), repr(set(a) ^ set(b))):
        return
    for k in b:
        if isinstance(b[k], V) or isinstance(a[k], V):
            same(u, '%s: %s' % (tag, k), pysym.real(pysym.lit(a[k])), pysym.real(pysym.lit(b[k])), h)
        else:
            u.true('%s: %s' % (tag, k), a[k] == b[k], '%r, expected %r' % (a[k], b[k]))


def unit_modify(u):
    u.fn('parameters._modify_sampling_parameters', 'parameters._modify_measurement_parameters', 'parameters._set_ngrid_from_cutoff')
    Gm = module()
    sets = [('sampling', '_modify_sampling_parameters', c) for c in [{k: v} for k, v in SAMPLING.items()] + [dict(SAMPLING, boxpad=Rv(R('pad2'))), dict(SAMPLING, gridpad=Rv(R('pad2'))), {'boxpad': Rv(R('pad2'))}, {'gridpad': Rv(R('pad2'))}, {}]] + \
        [('measurement', '_modify_measurement_parameters', c) for c in [{k: v} for k, v in MEASURE.items()] + [MEASURE, {}]]
    for kind, f, c in sets:
        nm = '%s parameters %s' % (kind, ' '.join(c) or 'none given')
        want = base()
        for k, v in c.items():
            put(want, k, v)
        for target in ('dictionary', 'parameter set'):
            def go(target=target, f=f, c=c):
                P = base() if target == 'dictionary' else Gm['ParameterSet'](param_dict=base())
                q = copy.deepcopy(c)
                r = Gm[f](P, q)
                return P, r, q

            def post(v, h, p, tag, target=target, want=want, c=c):
                P, r, q = v
                u.true(tag + ': the same object', r is P)
                u.true(tag + ': overrides untouched', set(q) == set(c))
                dicts_agree(u, tag, {k: P[k] for k in want}, want, h)
                if target == 'parameter set' and set(c) - {'ell1', 'ell2', 'ELL', 'i_wa', 'j_wa', 'bin_min', 'bin_max'}:
                    P._parse_params()
                    agree(u, tag + ': compiled', P.thisptr.log[-1][2], expected(want), h, DERIVED + ('cutoff_nyq',))
            calls(u, nm + ', ' + target, go, PRE, post)
        # defaults
        def dft(f=f, c=c):
            P = base()
            D = {'expand': P['expand'], 'alignment': 'centre', 'padscale': 'box', 'assignment': 'tsc', 'interlace': False, 'form': 'diag', 'norm_convention': 'particle', 'verbose': P['verbose']}
            P2 = dict(P)
            return Gm[f](P2, copy.deepcopy(c), params_default=D, ret_defaults=True), P2, D

        def post(v, h, p, tag, c=c):
            (r, D), P, D0 = v
            gone = set(c) | ({'padscale', 'padfactor'} if {'boxpad', 'gridpad'} & set(c) else set())
            u.true(tag + ': defaults left', r is P and set(D) == {'expand', 'alignment', 'padscale', 'assignment', 'interlace', 'form', 'norm_convention', 'verbose'} - gone, repr(set(D)))
        calls(u, nm + ', with defaults', dft, PRE, post)
    for f in ('_modify_sampling_parameters', '_modify_measurement_parameters'):
        d = base()
        u.true(f + ': nothing given', Gm[f](d, None) is d and Gm[f](d) is d)
        E, ps = explore(lambda: Gm[f](base(), {'form': 'diag'}, params_default={'alignment': 'elsewhere'}), PRE)
        u.true(f + ': foreign defaults rejected', all(p.out == 'exc' and isinstance(p.exc, ValueError) for p in ps))
    E, ps = explore(lambda: Gm['_modify_sampling_parameters'](base(), {'alignment': 'pad', 'boxpad': Rv(R('pad2')), 'gridpad': Rv(R('cut2'))}), PRE)
    u.true('two paddings rejected', all(p.out == 'exc' and isinstance(p.exc, ValueError) for p in ps))
    for sp in ('fourier', 'config'):
        def go(sp=sp):
            d = base(ngrid={a: None for a in AX}, space=sp)
            return Gm['_set_ngrid_from_cutoff'](d), d

        def post(v, h, p, tag, sp=sp):
            r, d = v
            u.true(tag + ': the same object', r is d)
            for a in AX:
                L, c = R('L' + a), R('cut')
                x = pysym.intt(pysym.lit(pysym.int_(pysym.NP.ceil(Rv(L * c) / pysym.NP.pi if sp == 'fourier' else Rv(L / c)))))
                if sp == 'config':
                    x = x * num(2, 'I')
                N = pysym.intt(pysym.lit(d['ngrid'][a]))
                even = pysym.intt(pysym.lit(Iv(x) % 2))
                u.eq('%s: mesh %s is the least even number reaching the cutoff' % (tag, a), N, x + even, h)
        calls(u, 'mesh from the cutoff, ' + sp, go, PRE, post)
    for sp in ('', 'x'):
        E, ps = explore(lambda: Gm['_set_ngrid_from_cutoff'](base(space=sp)), PRE)
        u.true('mesh from the cutoff, space %r rejected' % sp, all(p.out == 'exc' and isinstance(p.exc, ValueError) for p in ps))


UNITS = [('Python: entries', unit_entries), ('Python: histories', unit_histories), ('Python: files', unit_files), ('Python: overrides', unit_modify)]
