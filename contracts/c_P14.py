"""P14: parameter sets (parameters.cpp, parameters.pyx)."""
from meshlib import *
import pyparams, glue, pylib

LEVEL = 'proof'
TRUSTED = pylib.PYTRUST + glue.GLUETRUST + pyparams.TRUST + ['doubles are treated as reals and integers as mathematical integers; std::ceil is exact',
           'the text of an integer printed into a path fits its buffer (std::snprintf does not truncate)',
           'environment variables in paths, lists of catalogue file names and read_from_file (text scanning) are outside the verifier: covered by replay only']
C = 'trv::ParameterSet::'
NOENV = {'trv::sys::expand_envar_in_path': lambda X, s, th, args, e: None,
         'trv::sys::join_strings': lambda X, s, th, args, e: st('')}
INT, REAL = ('I', 'R')
AX3 = range(3)


def S(n): return var('p.' + n, 'S')
def among(t, *vs): return or_(*[streq(t, v) for v in vs])


def fields(M):
    return [f for f, _, _ in M.P.records['trv::ParameterSet']] if hasattr(M.P, 'records') else list(M.X.sym('trv::ParameterSet', 'q').fields)


def leaves(v):
    if isinstance(v, FixArr):
        return list(v.e)
    return [v]


def unit_copy(u):
    M = Machine(('parameters',))
    s = M.state()
    s.mem['q'] = M.X.sym('trv::ParameterSet', 'q')
    s.mem['p'] = M.X.sym('trv::ParameterSet', 'p')
    M.run(C + 'ParameterSet', s, Loc('p'), [Loc('q')], 1)
    u.fn(C + 'ParameterSet(const ParameterSet&)')
    q = M.X.sym('trv::ParameterSet', 'q')
    names = fields(M)
    u.true('all fields are seen', len(names) > 40, repr(names))
    for f in names:
        a, b = M.read(s, Loc('p'), f), q.get(f)
        if isinstance(b, SArr) or not isinstance(b, (T, FixArr)):
            la, lb = M.X.load(s, Loc('p', (f,))), b
            u.true('copied: ' + f, repr(la) == repr(lb) and 'q.' in repr(la), '%r\n%r' % (la, lb))
            continue
        for i, (x, y) in enumerate(zip(leaves(a), leaves(b))):
            u.eq('copied: %s[%d]' % (f, i) if len(leaves(b)) > 1 else 'copied: ' + f, x, y)


def machine(setn=None, tu='parameters'):
    con = dict(NOENV)
    if setn:
        con['trv::set_ngrid_from_cutoff'] = setn
    M = Machine((tu,), contracts=con)
    s = M.state()
    p = M.X.sym('trv::ParameterSet', 'p')
    s.mem['p'] = p.set('data_catalogue_file', st('')).set('rand_catalogue_file', st(''))
    return M, s


BOX = [var('p.boxsize[%d]' % a, 'R') for a in AX3]
GRID = [var('p.ngrid[%d]' % a, 'I') for a in AX3]


def rp(n): return var('p.' + n, 'R')
def ip(n): return var('p.' + n, 'I')


VOL = BOX[0] * BOX[1] * BOX[2]
NM = GRID[0] * GRID[1] * GRID[2]
CT, ST = S('catalogue_type'), S('statistic_type')
DATA = ('powspec', '2pcf', 'bispec', '3pcf')
WIN = ('2pcf-win', '3pcf-win', '3pcf-win-wa')
TWO = ('powspec', '2pcf', '2pcf-win')
THREE = ('bispec', '3pcf', '3pcf-win', '3pcf-win-wa')
KNOWN = DATA + WIN + ('modes', 'pairs')
FOURIER = ('powspec', 'bispec', 'modes')
CONFIG = ('2pcf', '3pcf', '2pcf-win', '3pcf-win', '3pcf-win-wa', 'pairs')


def pick(t, table, default):
    out = default
    for vs, r in table:
        out = ite(among(t, *vs), r, out)
    return out


NPOINT = pick(ST, [(TWO, st('2pt')), (THREE, st('3pt')), (('modes', 'pairs'), st('none'))], S('npoint'))
SPACE = pick(ST, [(FOURIER, st('fourier')), (CONFIG, st('config'))], S('space'))
THREEPT = streq(NPOINT, '3pt')
WISDOM = ite(streq(S('use_fftw_wisdom'), 'false'), st(''), S('use_fftw_wisdom'))


def accepted(ngrid=GRID):
    """the documented domain, from the field documentation of ParameterSet"""
    f, pad = S('form'), rp('padfactor')
    unset_box, unset_mesh = le(VOL, ZR), le(NM, ZI)
    return {
        'box alignment': among(S('alignment'), 'centre', 'pad'),
        'pad scale': among(S('padscale'), 'box', 'grid'),
        'assignment scheme': among(S('assignment'), 'ngp', 'cic', 'tsc', 'pcs'),
        'interlacing switch': among(S('interlace'), 'true', 'on', 'false', 'off'),
        'catalogue of a clustering statistic': implies(among(ST, *DATA), not_(among(CT, 'random', 'none'))),
        'catalogue of a window statistic': implies(among(ST, *WIN), among(CT, 'random')),
        'form': among(f, 'full', 'diag', 'off-diag', 'row'),
        'normalisation': and_(among(S('norm_convention'), 'none', 'particle', 'mesh', 'mesh-mixed'),
                              implies(among(S('norm_convention'), 'mesh-mixed'), streq(NPOINT, '2pt'))),
        'binning': among(S('binning'), 'lin', 'log', 'linpad', 'logpad', 'custom'),
        'FFTW scheme': among(S('fftw_scheme'), 'estimate', 'measure', 'patient'),
        'FFTW wisdom needs a measured plan': or_(streq(WISDOM, ''), among(S('fftw_scheme'), 'measure', 'patient')),
        'box and mesh sizes are not negative': and_(*[le(ZR, b) for b in BOX], *[le(ZI, g) for g in GRID]),
        'expansion factor of an unset box': implies(unset_box, le(OR, rp('expand'))),
        'cutoff of an unset mesh': implies(unset_mesh, le(ZR, rp('cutoff_nyq'))),
        'padding factor': implies(streq(S('alignment'), 'pad'), and_(
            le(ZR, pad), implies(streq(S('padscale'), 'box'), lt(pad, OR)),
            implies(streq(S('padscale'), 'grid'), and_(*[lt(pad, toreal(g)) for g in ngrid])))),
        'bin range': and_(le(ZR, rp('bin_min')), lt(rp('bin_min'), rp('bin_max'))),
        'number of bins': and_(le(num(2, 'I'), ip('num_bins')), implies(among(S('binning'), 'linpad', 'logpad'), le(num(7, 'I'), ip('num_bins')))),
        'bin index': and_(lt(ip('idx_bin'), ip('num_bins')), lt(neg(ip('idx_bin')), ip('num_bins')),
                          implies(and_(THREEPT, streq(f, 'row')), le(ZI, ip('idx_bin')))),
    }


CASES = [('mesh set', lt(ZI, NM)), ('mesh and box unset', and_(le(NM, ZI), le(VOL, ZR))), ('mesh unset', and_(le(NM, ZI), lt(ZR, VOL)))]
NEWG = [I('g%d' % a) for a in AX3]


def set_contract(calls=None):
    """contract of set_ngrid_from_cutoff (decided by its own unit): positive even grid numbers"""
    def go(X, s, th, args, e):
        l = args[0]
        if calls is not None:
            calls.append((s.cond(), X.load(s, l)))
        for a in AX3:
            X.store(s, Loc(l[0], tuple(l[1]) + ('ngrid', num(a, 'I'))), NEWG[a])
        X.store(s, Loc(l[0], tuple(l[1]) + ('nmesh',)), NEWG[0] * NEWG[1] * NEWG[2])
        return None
    return go


def derived(ngrid, hi):
    return {
        'npoint': NPOINT, 'space': SPACE,
        'assignment_order': pick(S('assignment'), [(('ngp',), num(1, 'I')), (('cic',), num(2, 'I')), (('tsc',), num(3, 'I')), (('pcs',), num(4, 'I'))], ip('assignment_order')),
        'interlace': ite(and_(among(S('interlace'), 'true', 'on'), not_(THREEPT)), st('true'), st('false')),
        'shape': ite(and_(streq(S('form'), 'full'), eq(ip('ell1'), ip('ell2'))), st('triu'), S('form')),
        'use_fftw_wisdom': WISDOM,
    }


SAME = ('catalogue_dir', 'catalogue_columns', 'catalogue_dataset', 'output_tag', 'expand', 'cutoff_nyq', 'alignment', 'padscale', 'padfactor', 'assignment',
        'catalogue_type', 'statistic_type', 'ell1', 'ell2', 'ELL', 'i_wa', 'j_wa', 'form', 'norm_convention', 'binning', 'bin_min', 'bin_max', 'num_bins',
        'idx_bin', 'fftw_scheme', 'verbose', 'progbar')
FLAG = {'estimate': 64, 'measure': 0, 'patient': 32}     # FFTW3 planner flags (fftw3.h)


def unit_validate(case, hc, tu='parameters'):
    def go(u):
        calls = []
        M, s = machine(set_contract(calls), tu)
        H = [hc]
        if case == 'mesh unset':
            H += [and_(lt(ZI, g), eq(imod(g, num(2, 'I')), ZI)) for g in NEWG] + [lt(ZI, NEWG[0] * NEWG[1] * NEWG[2])]
        M.ctx.push(and_(*H))
        M.run(C + 'validate', s, Loc('p'), [FALSE], 1)
        u.fn(C + 'validate')
        bad = M.throw_cond()
        grid = NEWG if case == 'mesh unset' else GRID
        acc = accepted(grid)
        if tu.endswith('+cli'):
            acc['catalogue type'] = among(CT, 'survey', 'random', 'sim', 'none')
            acc['statistic type'] = among(ST, *KNOWN)
        for k, a in acc.items():
            u.holds('rejected outside the documented domain: ' + k, or_(a, bad), H)
        ok = and_(*acc.values())
        u.satisfiable('an accepted set', H + [ok])
        u.holds('accepted inside the documented domain', implies(ok, not_(bad)), H)
        h = H + [ok]
        for k, want in derived(grid, None).items():
            u.eq('derived: ' + k, M.read(s, Loc('p'), k), want, h)
        for k in SAME:
            u.eq('kept: ' + k, M.read(s, Loc('p'), k), s_init(M).get(k), h)
        u.eq('volume', M.read(s, Loc('p'), 'volume'), VOL, h)
        for a in AX3:
            u.eq('box size, axis %d' % a, M.read(s, Loc('p'), 'boxsize', a), BOX[a], h)
            u.eq('grid number, axis %d' % a, M.read(s, Loc('p'), 'ngrid', a), grid[a], h)
        u.eq('mesh total', M.read(s, Loc('p'), 'nmesh'), grid[0] * grid[1] * grid[2], h)
        for k, v in FLAG.items():
            u.eq('planner flag of ' + k, M.read(s, Loc('p'), 'fftw_planner_flag'), num(v, 'I'), h + [streq(S('fftw_scheme'), k)])
        if case == 'mesh unset':
            u.true('the grid numbers are set from the cutoff once', len(calls) == 1)
            for c, o in calls:
                u.eq('given the derived space', o.get('space'), SPACE, h)
                u.holds('in every accepted case', c, h)
                for a in AX3:
                    u.eq('and the box, axis %d' % a, o.get('boxsize').e[a], BOX[a], h)
                u.eq('and the cutoff', o.get('cutoff_nyq'), rp('cutoff_nyq'), h)
        else:
            u.holds('the cutoff is not used', not_(or_(*[c for c, _ in calls])), h)
    return go


def s_init(M):
    return M.X.sym('trv::ParameterSet', 'p').set('data_catalogue_file', st('')).set('rand_catalogue_file', st(''))


def cat(M, *xs):
    out = st('')
    for x in xs:
        out = M.X.strcat(out, x if isinstance(x, T) else st(x))
    return out


def blank(t): return eq(app('strnotof', (t, st(' \t\n\r\x0b\x0c')), 'I'), num(2 ** 64 - 1, 'I'))


def unit_paths(init):
    """directories and the file names derived from them"""
    def go(u):
        M, s = machine(set_contract())
        H = [and_(*accepted().values()), lt(ZI, NM)]
        M.ctx.push(and_(*H))
        M.run(C + 'validate', s, Loc('p'), [TRUE if init else FALSE], 1)
        u.fn(C + 'validate')
        slash = '/' if init else ''
        cd, md = S('catalogue_dir'), S('measurement_dir')
        u.eq('catalogue directory', M.read(s, Loc('p'), 'catalogue_dir'), ite(blank(cd), cd, cat(M, cd, slash)), H)
        wmd = ite(blank(md), st('./'), cat(M, md, slash))
        u.eq('measurement directory', M.read(s, Loc('p'), 'measurement_dir'), wmd, H)
        for b in (TRUE, FALSE):
            hb = H + [blank(md) if b is TRUE else not_(blank(md))]
            d = './' if b is TRUE else cat(M, md, slash)
            t = 'unset' if b is TRUE else 'set'
            sv = S('save_binned_vectors')
            name = cat(M, d, 'binned_vectors', S('output_tag'))
            got = M.read(s, Loc('p'), 'save_binned_vectors')
            counts = among(ST, 'modes', 'pairs')
            u.eq('vector record switched off, directory ' + t, got, st(''), hb + [streq(sv, 'false'), not_(counts)])
            u.eq('vector record at its default name, directory ' + t, got, name, hb + [streq(sv, 'true')])
            u.eq('vector record of a mode or pair count, directory ' + t, got, name, hb + [streq(sv, 'false'), counts])
            h = hb + [not_(among(sv, 'true', 'false', ''))]
            absolute = eq(app('strrfind', (sv, st('/'), ZI), 'I'), ZI)
            u.eq('vector record at a given absolute name, directory ' + t, got, sv, h + [absolute, not_(streq(sv, ''))])
            u.eq('vector record at a given relative name, directory ' + t, got, cat(M, d, sv) if init else sv, h + [not_(absolute), not_(streq(sv, ''))])
        w = S('use_fftw_wisdom')
        got = M.read(s, Loc('p'), 'use_fftw_wisdom')
        u.eq('wisdom switched off', got, st(''), H + [streq(w, 'false')])
        u.eq('wisdom directory', got, cat(M, w, slash), H + [not_(streq(w, 'false'))])
        h = H + [not_(among(w, 'false', ''))]
        for f, k in (('f', 'cif'), ('b', 'cib')):
            name = cat(M, w, slash, 'fftw_omp_' + k + '_', app('fmt%d', (GRID[0],), 'S'), 'x', app('fmt%d', (GRID[1],), 'S'), 'x', app('fmt%d', (GRID[2],), 'S'), '.wisdom')
            u.eq('wisdom file ' + f, M.read(s, Loc('p'), 'fftw_wisdom_file_' + f), name, h)
        u.holds('no exception', not_(M.throw_cond()), h if init else H)
    return go


def unit_again(u):
    """validating a validated set changes nothing"""
    M, s = machine(set_contract())
    H = [and_(*accepted().values()), or_(lt(ZI, NM), le(VOL, ZR))]
    M.ctx.push(and_(*H))
    M.run(C + 'validate', s, Loc('p'), [FALSE], 1)
    o = M.X.load(s, Loc('p'))
    n = len(M.X.throws)
    M.run(C + 'validate', s, Loc('p'), [FALSE], 1)
    u.fn(C + 'validate')
    u.holds('accepted again', not_(M.throw_cond(n)), H)
    for f in fields(M):
        a, b = M.read(s, Loc('p'), f), o.get(f)
        if isinstance(b, SArr) or not isinstance(b, (T, FixArr)):
            u.eq('no files before: ' + f, b.ln, ZI, H)
            u.eq('no files after: ' + f, M.X.load(s, Loc('p', (f,))).ln, ZI, H)
            continue
        for i, (x, y) in enumerate(zip(leaves(a), leaves(b))):
            u.eq('unchanged: %s[%d]' % (f, i) if len(leaves(b)) > 1 else 'unchanged: ' + f, x, y, H)


def unit_cutoff(space):
    def go(u):
        val = []

        def c_val(X, s, th, args, e):
            val.append(X.load(s, th))
            return num(0, 'I')
        M = Machine(('parameters',), contracts={C + 'validate': c_val})
        s = M.state()
        p = M.X.sym('trv::ParameterSet', 'p').set('space', st(space))
        s.mem['p'] = p
        nyq = rp('cutoff_nyq')
        cells = [neg(floor(neg(b * nyq / PI if space == 'fourier' else rn(2) * b / nyq))) for b in BOX]
        usable = and_(*[and_(lt(ZI, c), le(c, num(2 ** 20, 'I'))) for c in cells])
        H = [] if space == 'fourier' else [not_(eq(nyq, ZR))]
        if space == 'other':
            u.true('rejected', M.never_returns('trv::set_ngrid_from_cutoff', s, None, [Loc('p')], 1))
            return
        M.run('trv::set_ngrid_from_cutoff', s, None, [Loc('p')], 1)
        u.fn('trv::set_ngrid_from_cutoff')
        u.satisfiable('usable cutoff', H + [usable])
        bad = M.throw_cond()
        u.holds('unusable cutoffs are rejected', or_(usable, bad), H)
        u.holds('usable cutoffs are accepted', implies(usable, not_(bad)), H)
        h = H + [usable]
        for a in AX3:
            n = M.read(s, Loc('p'), 'ngrid', a)
            u.eq('least even number of cells resolving the cutoff, axis %d' % a, n, cells[a] + imod(cells[a], num(2, 'I')), h)
            u.holds('positive and even, axis %d' % a, and_(lt(ZI, n), eq(imod(n, num(2, 'I')), ZI)), h)
        u.true('validated once, with the new grid numbers', len(val) == 1 and val[0].get('ngrid').e == M.read(s, Loc('p'), 'ngrid').e)
        for f in fields(M):
            if f != 'ngrid' and isinstance(p.get(f), T):
                u.eq('kept: ' + f, M.read(s, Loc('p'), f), p.get(f), h)
    return go


def unit_expand(u):
    val = []

    def c_val(X, s, th, args, e):
        val.append(X.load(s, th))
        return num(0, 'I')
    M = Machine(('parameters',), contracts={C + 'validate': c_val})
    s = M.state()
    p = s.mem['p'] = M.X.sym('trv::ParameterSet', 'p')
    v = [R('span%d' % a) for a in AX3]
    s.mem['v'] = FixArr(v)
    M.run('trv::set_boxsize_from_expand', s, None, [Ptr('v', (), ZI), Loc('p')], 2)
    u.fn('trv::set_boxsize_from_expand')
    for a in AX3:
        u.eq('expanded span, axis %d' % a, M.read(s, Loc('p'), 'boxsize', a), v[a] * rp('expand'))
    u.true('validated once, with the new box', len(val) == 1 and val[0].get('boxsize').e == M.read(s, Loc('p'), 'boxsize').e)
    for f in fields(M):
        if f != 'boxsize' and isinstance(p.get(f), T):
            u.eq('kept: ' + f, M.read(s, Loc('p'), f), p.get(f))


# parameter name in the file -> field, as read_from_file knows them
FILE = {'boxsize_%s' % x: ('boxsize', a) for a, x in enumerate('xyz')}
FILE.update({'ngrid_%s' % x: ('ngrid', a) for a, x in enumerate('xyz')})
FILE.update({f: (f,) for f in ('catalogue_dir', 'measurement_dir', 'data_catalogue_file', 'rand_catalogue_file', 'catalogue_columns', 'catalogue_dataset', 'output_tag',
             'expand', 'cutoff_nyq', 'alignment', 'padscale', 'padfactor', 'assignment', 'interlace', 'catalogue_type', 'statistic_type', 'ell1', 'ell2', 'ELL', 'i_wa', 'j_wa',
             'form', 'norm_convention', 'binning', 'bin_min', 'bin_max', 'num_bins', 'idx_bin', 'fftw_scheme', 'use_fftw_wisdom', 'save_binned_vectors', 'progbar', 'verbose')})
# derived fields, printed for reference
FILE.update({f: (f,) for f in ('volume', 'nmesh', 'assignment_order', 'npoint', 'space', 'shape', 'fftw_wisdom_file_f', 'fftw_wisdom_file_b', 'fftw_planner_flag')})


def unit_print(u):
    import re
    M = Machine(('parameters',))
    s = M.state()
    p = s.mem['p'] = M.X.sym('trv::ParameterSet', 'p')
    M.run(C + 'print_to_file', s, Loc('p'), [st('used')], 1)
    u.fn(C + 'print_to_file')
    seen = {}
    for c, vals in M.X.prints:
        fmt = vals[1]
        m = re.fullmatch(r'(\w+) = %([-+ #0-9.]*)(ll)?([a-z])\n', fmt.a[0]) if fmt is not None and fmt.op == 'str' else None
        u.true('printed as one assignment per line: ' + show(fmt), m is not None and len(vals) == 3 and vals[2] is not None)
        if m is None or len(vals) != 3 or vals[2] is None:
            continue
        k = m[1]
        u.true('printed once: ' + k, k not in seen)
        seen[k] = (m, vals[2])
        u.holds('printed whenever the file opens: ' + k, or_(c, M.throw_cond()))
    for k, path in FILE.items():
        u.true('printed: ' + k, k in seen)
        if k not in seen:
            continue
        m, v = seen[k]
        want = p.get(path[0])
        if len(path) > 1:
            want = want.e[path[1]]
        u.eq('value printed for ' + k, v, want)
        u.true('conversion printed for ' + k, m[4] == {'S': 's', 'I': 'd'}.get(want.s, m[4]) and (want.s != 'R' or (m[4] in 'eg' or (m[4] == 'f' and int(m[2].split('.')[-1] or 6) >= 3))), m[0])
        u.true('width of ' + k, bool(m[3]) == (k == 'nmesh'), m[0])


def unit_files(ctype):
    """catalogue file names (for the sample lists below): split at '::', prefixed by the directory unless absolute"""
    def go(u):
        def join(X, s, th, args, e):
            v = X.load(s, args[0]) if isinstance(args[0], Loc) else args[0]
            d = X.load(s, args[1]) if isinstance(args[1], Loc) else args[1]
            n = int(v.ln.a[0])
            out = []
            for i in range(n):
                out += ([d] if i else []) + [v.read((num(i, 'I'),))]
            return strcat(*out)

        def ext(X, s, th, args, e):
            a, b = (X.load(s, x) if isinstance(x, Loc) else x for x in args)
            return TRUE if a.a[0].endswith(b.a[0]) else FALSE
        con = dict(NOENV, **{'trv::sys::join_strings': join, 'trv::sys::has_extension': ext, 'trv::set_ngrid_from_cutoff': set_contract()})
        for df, rf in (('', ''), ('a.txt', 'r.txt'), ('/x/a.txt', 'sub/r'), ('a::b::', '/r::s'), ('a::/b::c', 'r::')):
            for init in (True, False):
                M = Machine(('parameters',), contracts=con)
                s = M.state()
                cd = S('catalogue_dir')
                s.mem['p'] = M.X.sym('trv::ParameterSet', 'p').set('data_catalogue_file', st(df)).set('rand_catalogue_file', st(rf)).set('catalogue_type', st(ctype)) \
                    .set('measurement_dir', st('out/')).set('use_fftw_wisdom', st('false'))
                H = [and_(*accepted().values()), lt(ZI, NM), eq(CT, st(ctype)), not_(blank(cd))]
                M.ctx.push(and_(*H))
                M.run(C + 'validate', s, Loc('p'), [TRUE if init else FALSE], 1)
                for f, names, keep in (('data', df, ctype in ('survey', 'sim')), ('rand', rf, ctype in ('survey', 'random'))):
                    lst = [x for x in names.split('::') if x] if keep else []
                    want = [st(x) if x.startswith('/') or not init else strcat(cd, st('/' + x)) for x in lst]
                    got = M.X.load(s, Loc('p', (f + '_catalogue_files',)))
                    tag = '%s files of %r (%s)' % (f, names, 'first given' if init else 'kept')
                    u.eq('number of ' + tag, got.ln, num(len(want), 'I'), H)
                    if got.ln is num(len(want), 'I'):
                        for k, w in enumerate(want):
                            u.eq('%s: name %d' % (tag, k), got.read((num(k, 'I'),)), w, H)
                    u.eq(tag + ' as one string', M.read(s, Loc('p'), f + '_catalogue_file'), strcat(*sum([[st('::'), w] for w in want], [])[1:]), H)
        u.fn(C + 'validate')
    return go


UNITS = [('copy constructor', unit_copy)]
UNITS += [('validation, ' + c, unit_validate(c, h)) for c, h in CASES]
UNITS += [('validation in the program, ' + c, unit_validate(c, h, 'parameters+cli')) for c, h in CASES]
UNITS += [('paths as %s' % n, unit_paths(i)) for n, i in (('first given', True), ('kept', False))]
UNITS += [('validating again', unit_again)]
UNITS += [('mesh from the cutoff, space ' + k, unit_cutoff(k)) for k in ('fourier', 'config', 'other')]
UNITS += [('box from the spans', unit_expand), ('printing', unit_print)]
UNITS += [('catalogue files of type ' + k, unit_files(k)) for k in ('survey', 'random', 'sim', 'none')]

UNITS += pyparams.UNITS


# ---------------------------------------------------------------- the real code
DOCS = dict(alignment=['centre', 'pad'], padscale=['box', 'grid'], assignment=['ngp', 'cic', 'tsc', 'pcs'], interlace=['true', 'on', 'false', 'off'],
            catalogue_type=['survey', 'random', 'sim', 'none'], statistic_type=list(KNOWN), form=['full', 'diag', 'off-diag', 'row'],
            norm_convention=['none', 'particle', 'mesh', 'mesh-mixed'], binning=['lin', 'log', 'linpad', 'logpad', 'custom'], fftw_scheme=['estimate', 'measure', 'patient'])
ORDER = {'ngp': 1, 'cic': 2, 'tsc': 3, 'pcs': 4}
STRS = ('catalogue_dir', 'measurement_dir', 'data_catalogue_file', 'rand_catalogue_file', 'catalogue_columns', 'catalogue_dataset', 'output_tag', 'alignment', 'padscale',
        'assignment', 'interlace', 'catalogue_type', 'statistic_type', 'npoint', 'space', 'form', 'norm_convention', 'shape', 'binning', 'fftw_scheme', 'use_fftw_wisdom',
        'fftw_wisdom_file_f', 'fftw_wisdom_file_b', 'save_binned_vectors', 'progbar')
INTS = ('nmesh', 'assignment_order', 'ell1', 'ell2', 'ELL', 'i_wa', 'j_wa', 'num_bins', 'idx_bin', 'fftw_planner_flag', 'verbose')
DBLS = ('expand', 'cutoff_nyq', 'padfactor', 'volume', 'bin_min', 'bin_max')


def oracle_validate(d):
    """(accepted, derived fields) for the given raw values, written from the documentation"""
    import math
    o = dict(d)
    for k, vs in DOCS.items():
        if k not in ('catalogue_type', 'statistic_type') and d[k] not in vs:
            return False, k
    stt, ctt = d['statistic_type'], d['catalogue_type']
    if stt in DATA and ctt in ('random', 'none') or stt in WIN and ctt != 'random':
        return False, 'catalogue'
    if stt in KNOWN:
        o['npoint'] = '2pt' if stt in TWO else '3pt' if stt in THREE else 'none'
        o['space'] = 'fourier' if stt in FOURIER else 'config'
    if d['norm_convention'] == 'mesh-mixed' and o['npoint'] != '2pt':
        return False, 'norm'
    o['shape'] = 'triu' if d['form'] == 'full' and d['ell1'] == d['ell2'] else d['form']
    o['assignment_order'] = ORDER[d['assignment']]
    o['interlace'] = 'true' if d['interlace'] in ('true', 'on') and o['npoint'] != '3pt' else 'false'
    o['fftw_planner_flag'] = FLAG[d['fftw_scheme']]
    if d['use_fftw_wisdom'] not in ('false', '') and d['fftw_scheme'] == 'estimate':
        return False, 'wisdom'
    B, n = d['boxsize'], list(d['ngrid'])
    if min(B) < 0 or min(n) < 0:
        return False, 'negative'
    if 0 in B and d['expand'] < 1 or 0 in n and d['cutoff_nyq'] < 0:
        return False, 'unset'
    if 0 in n and 0 not in B:
        for a in range(3):
            if d['cutoff_nyq'] == 0 or o['space'] not in ('fourier', 'config'):
                return False, 'cutoff'
            x = B[a] * d['cutoff_nyq'] / math.pi if o['space'] == 'fourier' else 2 * B[a] / d['cutoff_nyq']
            if not 0 < math.ceil(x) <= 2 ** 20:
                return False, 'cutoff'
            n[a] = math.ceil(x) + math.ceil(x) % 2
    o['ngrid'], o['nmesh'], o['volume'] = n, n[0] * n[1] * n[2], B[0] * B[1] * B[2]
    if d['alignment'] == 'pad' and not (0 <= d['padfactor'] and (d['padfactor'] < 1 if d['padscale'] == 'box' else d['padfactor'] < min(n))):
        return False, 'pad'
    if not 0 <= d['bin_min'] < d['bin_max'] or d['num_bins'] < (7 if d['binning'].endswith('pad') else 2) or abs(d['idx_bin']) >= d['num_bins']:
        return False, 'bins'
    if d['idx_bin'] < 0 and o['npoint'] == '3pt' and d['form'] == 'row':
        return False, 'row'
    return True, o


def replay(r):
    import numpy as np, tempfile, os, shutil
    import cxx

    def get(L, p):
        o = {k: L.p_gets(p, k) for k in STRS}
        o = {k: v.decode() if isinstance(v, bytes) else v for k, v in o.items()}
        o.update({k: L.p_geti(p, k, 0) for k in INTS})
        o.update({k: L.p_getd(p, k, 0) for k in DBLS})
        o['boxsize'] = [L.p_getd(p, 'boxsize', a) for a in range(3)]
        o['ngrid'] = [L.p_geti(p, 'ngrid', a) for a in range(3)]
        return o

    def slash(x):
        while isinstance(x, str) and '//' in x:
            x = x.replace('//', '/')
        return x

    def python(q, rng, ch, tmp, PM):
        import copy, warnings, yaml
        from pathlib import Path
        warnings.simplefilter('ignore')
        case = lambda v: ch(v, v, v.upper(), v.capitalize())
        ax = ('x', 'y', 'z')
        d = PM.fetch_paramset_template('dict')
        st_ = ch(*KNOWN)
        d.update(boxsize={a: float(rng.integers(1, 4000)) / 8 for a in ax}, ngrid={a: int(rng.integers(1, 3000)) for a in ax}, expand=ch(1., 1.5), cutoff_nyq=ch(.5, 10.), padfactor=ch(0., .25), alignment=case(ch('centre', 'pad')),
                 padscale=case(ch('box', 'grid')), assignment=case(ch(*ORDER)), interlace=ch(True, False, 'on', 'off'), statistic_type=case(st_), catalogue_type=case('random' if st_ in WIN else ch('survey', 'sim')),
                 degrees={k: int(rng.integers(0, 4)) for k in ('ell1', 'ell2', 'ELL')}, wa_orders={k: int(rng.integers(0, 3)) for k in 'ij'}, form=case(ch('full', 'diag', 'off-diag', 'row')),
                 norm_convention=case(ch('none', 'particle', 'mesh')), binning=case(ch('lin', 'log', 'linpad')), range=[ch(0., .0625), ch(1., 12.5)], num_bins=int(rng.integers(7, 40)), idx_bin=int(rng.integers(0, 6)),
                 fftw_scheme=ch('measure', 'patient'), verbose=60, progbar=ch(True, False, 20), use_fftw_wisdom=ch(False, False, tmp + '/wis'))
        d['directories']['measurements'] = ch(None, tmp)
        d['tags']['output'] = ch(None, '_t')
        if rng.uniform() < .3:
            d['ngrid'] = {a: None for a in ax}
            d['boxsize'] = {a: 64. for a in ax}
        what = repr(d)
        lower = lambda k: d[k].lower()

        def members(P):
            g = get(cxx.lib(), P.thisptr.p)
            return {k: slash(v) for k, v in g.items() if k not in ('cutoff_nyq', 'save_binned_vectors')}    # not read with a mesh given; not set from Python

        def build(**k):
            try:
                return PM.ParameterSet(**k)
            except Exception as e:
                q.case('Python: accepted', False, '%s: %r' % (what, e))
        P = build(param_dict=copy.deepcopy(d))
        if P is None:
            return
        g = members(P)
        want = {k: d[k] for k in ('expand', 'num_bins', 'idx_bin', 'padfactor')}
        want.update({k: lower(k) for k in ('alignment', 'padscale', 'assignment', 'statistic_type', 'catalogue_type', 'form', 'norm_convention', 'binning')})
        want.update(d['degrees'])
        want.update(i_wa=d['wa_orders']['i'], j_wa=d['wa_orders']['j'], bin_min=d['range'][0], bin_max=d['range'][1], boxsize=[d['boxsize'][a] for a in ax], volume=float(np.prod([d['boxsize'][a] for a in ax])),
                    output_tag=d['tags']['output'] or '', fftw_scheme=d['fftw_scheme'], assignment_order=ORDER[lower('assignment')])
        if None not in d['ngrid'].values():
            want.update(ngrid=[d['ngrid'][a] for a in ax])
        for k, v in want.items():
            q.case('Python: compiled ' + k, g[k] == v, '%s: %s is %r' % (what, k, g[k]))
        q.case('Python: shows what is derived', P['volume'] == g['volume'] and P['nmesh'] == g['nmesh'] and [P['ngrid'][a] for a in ax] == g['ngrid'] and P['npoint'] == g['npoint'] and P['space'] == g['space'] and P['assignment_order'] == g['assignment_order']
               and P['interlace'] is (g['interlace'] == 'true'), '%s: %s' % (what, P))
        # saved and read back
        fn = os.path.join(tmp, 'used.yml')
        P.save(ch(fn, Path(fn)))
        try:
            Q = PM.ParameterSet(param_filepath=ch(fn, Path(fn)))
            q.case('Python: saved and read back', dict(Q.items()) == {k: slash(v) if k == 'use_fftw_wisdom' else v for k, v in P.items()} or {k: slash(v) for k, v in Q.items()} == {k: slash(v) for k, v in P.items()}, '%s: %s' % (what, [(k, v, P[k]) for k, v in Q.items() if v != P[k]]))
            q.case('Python: saved and read back, compiled', members(Q) == g, '%s: %s' % (what, [(k, v, g[k]) for k, v in members(Q).items() if v != g[k]]))
        except Exception as e:
            q.case('Python: saved and read back', False, '%s: %r' % (what, e))
        # changed in steps or at once
        e = {'num_bins': 41, 'range': [.125, 3.], 'binning': 'log', 'assignment': ch(*ORDER), 'degrees': {'ell1': 1, 'ell2': 1, 'ELL': 2}, 'boxsize': {'x': 32., 'y': 64., 'z': 128.}, 'ngrid': {'x': 4, 'y': 6, 'z': 8}, 'verbose': 60, 'form': ch('full', 'row'),
             'alignment': 'centre', 'idx_bin': 3, 'interlace': ch(True, False)}
        R = PM.ParameterSet(param_dict=copy.deepcopy(d))
        for i, (k, v) in enumerate(e.items()):
            (lambda: R.__setitem__(k, copy.deepcopy(v)), lambda: setattr(R, k, copy.deepcopy(v)), lambda: R.update({k: copy.deepcopy(v)}))[i % 3]()
        W = PM.ParameterSet(param_dict=copy.deepcopy(dict(d, **e)))
        q.case('Python: changed in steps', members(R) == members(W), '%s %s: %s' % (what, e, [(k, v, members(W)[k]) for k, v in members(R).items() if v != members(W)[k]]))
        q.case('Python: shown after changes', {k: slash(v) for k, v in R.items()} == {k: slash(v) for k, v in W.items()}, '%s %s: %s' % (what, e, [(k, v) for k, v in R.items() if W.get(k) != v]))
        for k, v, x in (('range', None, ValueError), ('range', [None, 1.], ValueError), ('num_bins', None, ValueError), ('form', 'rows', RuntimeError), ('alignment', 'mid', RuntimeError), ('num_bins', 1, RuntimeError)):
            try:
                PM.ParameterSet(param_dict=copy.deepcopy(dict(d, **{k: v})))
                q.case('Python: unusable rejected', False, '%s %s=%r' % (what, k, v))
            except x:
                q.case('Python: unusable rejected', True, '')
        for f in ('row', 'Off-Diag', 'ROW'):
            try:
                PM.ParameterSet(param_dict=copy.deepcopy(dict(d, form=f, idx_bin=None)))
                q.case('Python: bin index required', False, '%s form=%r' % (what, f))
            except ValueError:
                q.case('Python: bin index required', True, '')

    def body(t):
        L = cxx.lib()
        import paramreal
        PM = paramreal.load()
        rng = np.random.default_rng(1400 + 1000 * r.seed + t)
        q = type(r)()
        tmp = tempfile.mkdtemp(prefix='p14_')
        ch = lambda *v: v[int(rng.integers(len(v)))]
        try:
            for rep in range(600 if r.tier == 'thorough' else 150):
                if rep % 5 == 0:
                    python(q, np.random.default_rng([r.seed, t, rep]), ch, tmp, PM)
                d = {k: ch(*v) for k, v in DOCS.items()}
                d.update(boxsize=[float(rng.integers(1, 4000)) / 8 for _ in range(3)], ngrid=[int(x) for x in rng.integers(1, 3000, 3)],
                         expand=ch(1., 1.5, 2.25), cutoff_nyq=ch(0., .0625, .5, 10.), padfactor=ch(0., .25, .9375), bin_min=ch(0., .0625, .5), bin_max=ch(1., 12.5, 100.0625),
                         num_bins=int(rng.integers(7, 40)), idx_bin=int(rng.integers(-6, 7)), ell1=int(rng.integers(0, 3)), ell2=int(rng.integers(0, 3)), ELL=int(rng.integers(0, 5)),
                         i_wa=int(rng.integers(0, 3)), j_wa=int(rng.integers(0, 3)), npoint='', space='', verbose=60, progbar=ch('false', 'true', '20'),
                         use_fftw_wisdom=ch('false', 'false', 'w/is', '/abs/wis'), save_binned_vectors=ch('false', 'true', '', 'vecs_interlace', '/abs/vecs'),
                         catalogue_dir=ch('', '/cat/form', 'rel/binning/'), measurement_dir=ch('', tmp, tmp + '/'), output_tag=ch('', '_tag', '_assignment'),
                         data_catalogue_file=ch('', 'a.txt', '/x/expand.txt', 'a::/b::c'), rand_catalogue_file=ch('', 'r.txt', '/r::s::'),
                         catalogue_columns=ch('', 'x,y,z,nz'), catalogue_dataset=ch('', 'grp/ell1'))
                if d['statistic_type'] in WIN:
                    d['catalogue_type'] = 'random'
                elif d['statistic_type'] in DATA:
                    d['catalogue_type'] = ch('survey', 'sim')
                if d['norm_convention'] == 'mesh-mixed' and d['statistic_type'] not in TWO:
                    d['norm_convention'] = 'mesh'
                u_ = rng.uniform()
                if u_ < .15:
                    d['ngrid'] = [0, 0, 0]
                if .1 < u_ < .25:
                    d['boxsize'] = [0., 0., 0.]
                for _ in range(int(rng.integers(0, 3)) if rng.uniform() < .6 else 0):    # perturb into the invalid
                    k = ch(*DOCS, 'boxsize', 'ngrid', 'expand', 'cutoff_nyq', 'padfactor', 'bins', 'num_bins', 'idx_bin')
                    if k in DOCS:
                        d[k] = ch(*DOCS[k], 'bogus', DOCS[k][0] + 'x', DOCS[k][0][:-1], '', DOCS[k][0].upper())
                    elif k == 'bins':
                        d['bin_min'], d['bin_max'] = ch((-.5, 1.), (1., 1.), (2., 1.), (0., .0625), (-1., -.5))
                    elif k in ('boxsize', 'ngrid'):
                        v = list(d[k])
                        for a in rng.choice(3, int(rng.integers(1, 4)), replace=False):
                            v[a] = ch(0, -1, -3) * (1. if k == 'boxsize' else 1)
                        d[k] = v
                    else:
                        d[k] = {'expand': (.5, .9375, 0., -1.), 'cutoff_nyq': (-1., -.0625, 0., 1e9), 'padfactor': (-.5, 1., 1.5, 5., 3e3),
                                'num_bins': (-1, 0, 1, 2, 6, 7), 'idx_bin': (-1, -2, -40, 40, 6)}[k][int(rng.integers(4))]
                what = ' '.join('%s=%s' % kv for kv in d.items())
                p = cxx.H(L.p_new())
                for k, v in d.items():
                    cxx.put(p, k, v)
                want, o = oracle_validate(d)
                try:
                    L.p_validate(p, 1)
                    ok = True
                except cxx.Raised:
                    ok = False
                q.case('accepted exactly if documented', ok == want, '%s: accepted %s, documented %s (%s)' % (what, ok, want, '' if want else o))
                if not (ok and want):
                    continue
                g = get(L, p)
                for k in ('npoint', 'space', 'shape', 'assignment_order', 'interlace', 'fftw_planner_flag', 'boxsize', 'ngrid', 'nmesh', 'volume', 'alignment', 'padscale', 'padfactor',
                          'assignment', 'catalogue_type', 'statistic_type', 'form', 'norm_convention', 'binning', 'bin_min', 'bin_max', 'num_bins', 'idx_bin', 'ell1', 'ell2', 'ELL', 'i_wa',
                          'j_wa', 'expand', 'cutoff_nyq', 'fftw_scheme', 'progbar', 'verbose', 'output_tag', 'catalogue_columns', 'catalogue_dataset'):
                    q.case('field after validation', g[k] == o[k], '%s: %s is %r, expected %r' % (what, k, g[k], o[k]))
                md = (d['measurement_dir'] or '.') + '/'
                q.case('measurement directory', slash(g['measurement_dir']) == slash(md), '%s: %r' % (what, g['measurement_dir']))
                sv = d['save_binned_vectors']
                sv = {'false': '', 'true': md + 'binned_vectors' + d['output_tag'], '': ''}.get(sv, sv if sv.startswith('/') else md + sv)
                if not sv and d['statistic_type'] in ('modes', 'pairs'):
                    sv = md + 'binned_vectors' + d['output_tag']
                q.case('vector record file', slash(g['save_binned_vectors']) == slash(sv), '%s: %r' % (what, g['save_binned_vectors']))
                for f, keep in (('data', d['catalogue_type'] in ('survey', 'sim')), ('rand', d['catalogue_type'] in ('survey', 'random'))):
                    cd = d['catalogue_dir'] + '/' if d['catalogue_dir'] else ''
                    w = '::'.join(x if x.startswith('/') else cd + x for x in d[f + '_catalogue_file'].split('::') if x) if keep else ''
                    q.case('catalogue files', slash(g[f + '_catalogue_file']) == slash(w), '%s: %r, expected %r' % (what, g[f + '_catalogue_file'], w))
                c = cxx.H(L.p_copy(p))
                q.case('copy equal', get(L, c) == g, '%s: %s' % (what, [(k, v, g[k]) for k, v in get(L, c).items() if v != g[k]]))
                L.p_validate(p, 0)
                h = get(L, p)
                q.case('validation idempotent', h == g, '%s: %s' % (what, [(k, v, g[k]) for k, v in h.items() if v != g[k]]))
                L.p_validate(c, 0)
                q.case('validated copy equal', get(L, c) == g, what)
                if d['measurement_dir'].startswith('/') and not d['catalogue_dir'].startswith('rel'):
                    fn = os.path.join(tmp, 'used')
                    L.p_print(p, fn)
                    b = cxx.H(L.p_new())
                    try:
                        L.p_read(b, fn)
                        g2 = {k: slash(v) for k, v in get(L, b).items()}
                        g1 = {k: slash(v) for k, v in g.items()}
                        q.case('printed and read back', g2 == g1, '%s: %s' % (what, [(k, v, g1[k]) for k, v in g2.items() if v != g1[k]]))
                    except cxx.Raised as e:
                        q.case('printed and read back', False, '%s: rejected %s' % (what, e))
                    # a parameter file in another order, with comments, blank lines and long values
                    lines = open(fn).read().split('\n')
                    lines = [x for x in lines if x]
                    rng.shuffle(lines)
                    with open(fn, 'w') as f:
                        for x in lines:
                            f.write(ch('', '# %s\n' % lines[0], '\n', 'unknown = 3\n', 'my_interlace = %s\n' % ('y' * 40), '   \t\n') + ch('', '  ') + x + (ch('', '   # note') if x[-1] not in '= ' else '') + '\n')
                    b = cxx.H(L.p_new())
                    try:
                        L.p_read(b, fn)
                        g2 = {k: slash(v) for k, v in get(L, b).items()}
                        q.case('read in any order', g2 == g1, '%s: %s' % (what, [(k, v, g1[k]) for k, v in g2.items() if v != g1[k]]))
                    except cxx.Raised as e:
                        q.case('read in any order', False, '%s: rejected %s' % (what, e))
                    # an overlong value is rejected, not run over the end of its buffer
                    if rep % 10 == 0:
                        k = ch(*[x for x in DOCS if x not in ('catalogue_type', 'statistic_type')])
                        with open(fn, 'a') as f:
                            f.write('%s = %s\n' % (k, 'z' * ch(20, 200, 3000)))
                        b = cxx.H(L.p_new())
                        try:
                            L.p_read(b, fn)
                            q.case('overlong value rejected', False, what + ' ' + k)
                        except cxx.Raised:
                            q.case('overlong value rejected', True, what)
                # box from spans
                sp = rng.uniform(1, 100, 3)
                arr = (cxx.ct.c_double * 3)(*sp)
                if d['alignment'] == 'centre' and 0 not in d['ngrid'] and d['expand'] >= 1:
                    L.p_box_from_expand(c, arr)
                    g3 = get(L, c)
                    for a in range(3):
                        q.close('box from the spans', g3['boxsize'][a], sp[a] * d['expand'], what)
                    q.close('volume from the spans', g3['volume'], np.prod(sp) * d['expand'] ** 3, what)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return q
    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
