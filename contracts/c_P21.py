"""P21: Measurements written to file carry the measured values in their columns (io.cpp).

The stream is a ghost string: every fprintf appends its format with the values
put in; a loop of prints is the concatenation over its iterations.  The
contract compares what is written, line by line and value by value, whatever
the calls it is written with."""
from common import *
from cxxexec import Obj, Ptr
from term import open_binder
import term as tm
import re

LEVEL = 'proof'
Q_ = 'trv::io::'
HEAD, TAB, VEC = Q_ + 'print_measurement_header_to_file', Q_ + 'print_measurement_datatab_to_file', Q_ + 'print_binned_vectors_to_file'


# ------------------------------------------------------------------ the stream
def put(X, st, f, text):
    if not isinstance(f, Ptr):
        raise Unsupported('print to an unknown stream')
    st.mem[f.root] = tm.strcat(st.mem[f.root], text)
    return app('printed', (), 'I')


def val(X, st, v):
    if isinstance(v, Ptr):
        b = st.mem.get(v.root)
        if isinstance(b, T) and b.s == 'S':
            return b
    if isinstance(v, Loc):
        v = X.load(st, v)
    if not isinstance(v, T):
        raise Unsupported('printed value of kind ' + type(v).__name__)
    return v


def fprintf(X, st, th, a, e):
    vals = [val(X, st, v) for v in a[1:]]
    if vals[0].op != 'str':
        raise Unsupported('print format not a literal')
    return put(X, st, a[0], X.format(vals))


def fputs(X, st, th, a, e): return put(X, st, a[1], val(X, st, a[0]))


def fputc(X, st, th, a, e):
    c = val(X, st, a[0])
    return put(X, st, a[1], tm.st(chr(int(c.a[0]))) if c.op == 'num' else app('chr', (c,), 'S'))


STREAM = {}
for _n, _f in (('fprintf', fprintf), ('fputs', fputs), ('fputc', fputc), ('putc', fputc)):
    STREAM[_n] = STREAM['std::' + _n] = _f


# ------------------------------------------------------------------ text
def items(t):
    """the pieces of a text: literals, values with their conversion, repeated blocks"""
    out = []
    for p in (t.a[1:] if t.op == 'app' and t.a[0] == 'cat' else (t,)):
        if p.op == 'str':
            out.append(p.a[0])
        elif p.op == 'app' and isinstance(p.a[0], str) and p.a[0].startswith('fmt%'):
            out.append((p.a[0][3:], p.a[1]))
        elif p.op == 'catv':
            out.append(('rows', p))
        else:
            out.append(('%s', p))
    return out


def skeleton(its):
    """the text with its values replaced by a mark and white space normalised; the values"""
    s, vs = '', []
    for i in its:
        if isinstance(i, str):
            s += i
        else:
            s += '\x00'
            vs.append(i)
    s = re.sub(r'[ \t]+', ' ', s)
    return re.sub(r' ?\n ?', '\n', s).strip(' '), vs


def precision(conv):
    m = re.match(r'%[-+ #0]*\d*(?:\.(\d+))?(?:h|l|z)*([a-zA-Z])$', conv)
    return (m.group(2), 6 if m.group(1) is None else int(m.group(1))) if m else ('?', 0)


def agree(u, name, got, want, hyps, nopt=None):
    """got: term; want: list of literals and (kind, term, meaning)"""
    g, gv = skeleton(items(got) if isinstance(got, T) else got)
    w, wv = skeleton([x if isinstance(x, str) else (x[0], x[1:]) for x in want])
    if not u.true(name + ': text', g == w, 'written %r, contract requires %r' % (g, w)):
        return
    for (c, v), (k, (x, what)) in zip(gv, wv):
        f, p = precision(c)
        if k == 's':
            ok = f == 's' and v.s == 'S'
        elif k == 'd':
            ok = f in 'diu' and v.s == 'I'
        else:
            ok = v.s == 'R' and (f in 'eE' and p >= int(k[1:]) or k[0] == 'f' and f == 'f' and p >= int(k[1:]) or f in 'gG' and p > int(k[1:]) + 6)
        u.true('%s: conversion of %s' % (name, what), ok, 'conversion %s' % c)
        if v.s != x.s:
            continue
        u.eq('%s: %s' % (name, what), v, x, hyps)


def run(q, sig, args, pre, nparams):
    M = Machine(['io', 'parameters', 'particles', 'dataobjs'], pre, contracts=STREAM)
    M.ctx.push(and_(*pre)) if pre else None
    s = M.state()
    s.mem['out'] = tm.st('')
    locs = [Ptr('out', (), ZI)]
    for n, v in args:
        if isinstance(v, str):
            s.mem[n] = M.X.sym(v, n)
            locs.append(Loc(n))
        else:
            locs.append(v)
    return M, s, lambda: M.run(q, s, args=locs, nparams=nparams, sig=sig)


def r3(n, f): return ['[', ('f3', f(0), n + ' (x)'), ', ', ('f3', f(1), n + ' (y)'), ', ', ('f3', f(2), n + ' (z)'), ']']


def at(M, s, root, *path):
    return M.X.load(s, Loc(root, tuple(lift(p, 'I') if isinstance(p, int) else p for p in path)))


def sampling(P):
    n = lambda k: at(*P, 'ngrid', k)
    return (['# Box size: '] + r3('box size', lambda k: at(*P, 'boxsize', k)) + ['\n# Box alignment: ', ('s', at(*P, 'alignment'), 'alignment'), '\n# Mesh number: [',
            ('d', n(0), 'mesh number (x)'), ', ', ('d', n(1), 'mesh number (y)'), ', ', ('d', n(2), 'mesh number (z)'),
            ']\n# Mesh assignment and interlacing: ', ('s', at(*P, 'assignment'), 'assignment'), ', ', ('s', at(*P, 'interlace'), 'interlacing'), '\n'])


def catalogue(C, tag):
    """the lines about a catalogue; tag: prefixes of the three lines"""
    b = lambda f, k: at(*C, f, k)
    w = ['# %s source: ' % tag[0], ('s', at(*C, 'source'), 'source'), '\n# %s size: ntotal = ' % tag[1], ('d', at(*C, 'ntotal'), 'number of particles'),
         ', wtotal = ', ('f3', at(*C, 'wtotal'), 'weight total'), ', wstotal = ', ('f3', at(*C, 'wstotal'), 'sample weight total'), '\n# %s particle extents: [' % tag[2]]
    for k in range(3):
        w += [('(' if not k else ', ('), ('f3', b('pos_min', k), 'lower extent %d' % k), ', ', ('f3', b('pos_max', k), 'upper extent %d' % k), ')']
    return w + [']\n']


def unit_header(u):
    A = [R('a_part'), R('a_mesh'), R('a_meshes')]
    for both in (True, False):
        for conv, used in (('none', OR), ('particle', A[0]), ('mesh', A[1]), ('mesh-mixed', A[2])):
            cats = [('D', 'trv::ParticleCatalogue'), ('Rn', 'trv::ParticleCatalogue')][:1 + both]
            M, s, go = run(HEAD, None, [('P', 'trv::ParameterSet')] + cats + [('a', x) for x in A], [], 7 if both else 6)
            M.X.store(s, Loc('P', ('norm_convention',)), tm.st(conv))
            s0 = s.fork()
            go()
            u.fn(HEAD)
            in_bounds(u, M)
            nm = 'header, %s, normalisation %s' % ('data and random catalogues' if both else 'one catalogue', conv)
            P = (M, s0, 'P')
            want = []
            if both:
                want = catalogue((M, s0, 'D'), ('Data catalogue', 'Data catalogue', 'Data-source')) + catalogue((M, s0, 'Rn'), ('Random catalogue', 'Random catalogue', 'Random-source'))
            else:
                want = catalogue((M, s0, 'D'), ('Catalogue', 'Catalogue', 'Catalogue'))
            want += sampling(P) + ['# Normalisation factor: ', ('e9', used, 'normalisation factor used'), ' (%s)\n# Normalisation factor alternatives: ' % conv,
                                   ('e9', A[0], 'particle normalisation'), ' (particle), ', ('e9', A[1], 'mesh normalisation'), ' (mesh), ', ('e9', A[2], 'mixed-mesh normalisation'), ' (mesh-mixed)\n']
            agree(u, nm, s.mem['out'], want, [])
            u.holds(nm + ': no exception', not_(M.throw_cond()), [])


def table(u, nm, q, cls, dimf, cols, title, extra=lambda P: [], arg='V'):
    """cols: (conversion, field, part)"""
    n = I('V.' + dimf)
    lens = [le(n, I('V.%s#len' % f)) for f in {c[1] for c in cols}]
    pre = [le(ZI, n)] + lens
    M, s, go = run(q, 'trv::%s &' % cls, [('P', 'trv::ParameterSet'), ('V', 'trv::' + cls)], pre, 3)
    s0 = s.fork()
    go()
    u.fn(q)
    u.satisfiable(nm, pre)
    in_bounds(u, M, pre)
    P = (M, s0, 'P')
    its = items(s.mem['out'])
    blocks = [k for k, i in enumerate(its) if isinstance(i, tuple) and i[0] == 'rows']
    agree(u, nm + ': header', [i for k, i in enumerate(its) if k not in blocks], extra(P) + title(P), pre)
    if not u.true(nm + ': the rows follow the header', blocks == [len(its) - 1], 'written: %s' % show(s.mem['out'])[:300]):
        return
    v, lo, hi, body = open_binder(its[-1][1])
    r = I('row')
    k = sub(add(r, lo), ZI)
    u.eq(nm + ': number of rows', tm.ite(lt(lo, hi), sub(hi, lo), ZI), n, pre)
    body = subst(body, {v: k})
    hyps = pre + [le(ZI, r), lt(r, n)]
    want = []
    for j, (c, f, part) in enumerate(cols):
        x = at(M, s0, 'V', f, r)
        x = x if not part else getattr(x, part)
        want += ['\t' if j else '', (c, x, 'column %d, %s%s' % (j, f, ' ' + part if part else ''))]
    agree(u, nm + ': row', body, want + ['\n'], hyps)
    u.holds(nm + ': no exception', not_(M.throw_cond()), pre)


def names(P, cols):
    """the line naming the columns; {} stands for the degrees"""
    def deg(three):
        w = [('d', at(*P, k), 'degree ' + k) for k in (('ell1', 'ell2', 'ELL') if three else ('ELL',))]
        return w
    out = ['# ']
    for j, c in enumerate(cols):
        out.append('%s[%d] ' % (', ' if j else '', j))
        if '@' in c:
            a, b = c.split('@')
            out += [a] + deg('bk' in c or 'zeta' in c) + [b]
        else:
            out.append(c)
    return out + ['\n']


def unit_two_point(u):
    table(u, 'power spectrum', TAB, 'PowspecMeasurements', 'dim',
          [('e9', 'kbin', ''), ('e9', 'keff', ''), ('d', 'nmodes', ''), ('e9', 'pk_raw', 're'), ('e9', 'pk_raw', 'im'), ('e9', 'pk_shot', 're'), ('e9', 'pk_shot', 'im')],
          lambda P: names(P, ['k_cen', 'k_eff', 'nmodes', 'Re{pk@_raw}', 'Im{pk@_raw}', 'Re{pk@_shot}', 'Im{pk@_shot}']))
    for cls, nm in (('TwoPCFMeasurements', 'correlation function'), ('TwoPCFWindowMeasurements', 'two-point window')):
        table(u, nm, TAB, cls, 'dim', [('e9', 'rbin', ''), ('e9', 'reff', ''), ('d', 'npairs', ''), ('e9', 'xi', 're'), ('e9', 'xi', 'im')],
              lambda P: names(P, ['r_cen', 'r_eff', 'npairs', 'Re{xi@}', 'Im{xi@}']))


def three(x, n, f):
    return [('e9', x + '1_bin', ''), ('e9', x + '1_eff', ''), ('d', n + '_1', ''), ('e9', x + '2_bin', ''), ('e9', x + '2_eff', ''), ('d', n + '_2', ''),
            ('e9', f + '_raw', 're'), ('e9', f + '_raw', 'im'), ('e9', f + '_shot', 're'), ('e9', f + '_shot', 'im')]


def unit_three_point(u):
    for cls, nm, x, n, f in (('BispecMeasurements', 'bispectrum', 'k', 'nmodes', 'bk'), ('ThreePCFMeasurements', 'three-point function', 'r', 'npairs', 'zeta'), ('ThreePCFWindowMeasurements', 'three-point window', 'r', 'npairs', 'zeta')):
        table(u, nm, TAB, cls, 'dim', three(x, n, f),
              lambda P: names(P, [x + '1_cen', x + '1_eff', n + '_1', x + '2_cen', x + '2_eff', n + '_2'] + ['%s{%s@_%s}' % (p, f, w) for w in ('raw', 'shot') for p in ('Re', 'Im')]))


def unit_vectors(u):
    def extra(P):
        n = lambda k: at(*P, 'ngrid', k)
        V = (P[0], P[1], 'V')
        return (['# Box size: '] + r3('box size', lambda k: at(*P, 'boxsize', k)) + ['\n# Mesh number: [', ('d', n(0), 'mesh number (x)'), ', ', ('d', n(1), 'mesh number (y)'), ', ', ('d', n(2), 'mesh number (z)'),
                ']\n# Vector count: ', ('d', at(*V, 'count'), 'vector count'), '\n# Bin number: ', ('d', at(*V, 'num_bins'), 'number of bins'), '\n'])
    table(u, 'recorded vectors', VEC, 'BinnedVectors', 'count',
          [('d', 'indices', ''), ('e9', 'lower_edges', ''), ('e9', 'upper_edges', ''), ('e9', 'vecx', ''), ('e9', 'vecy', ''), ('e9', 'vecz', '')],
          lambda P: names(P, ['bin_index', 'bin_lower', 'bin_upper', 'vec_x', 'vec_y', 'vec_z']), extra)


UNITS = [('header', unit_header), ('two-point tables', unit_two_point), ('three-point tables', unit_three_point), ('recorded vectors', unit_vectors)]
FILES = ['src/triumvirate/src/io.cpp']


TRUSTED = ['printf of the C library formats one value per conversion; the stream is written in order', 'degrees of a multipole have at most two digits each (the label buffer holds seven characters)',
           'doubles are treated as reals']


def replay(r):
    import numpy as np
    import cxx

    def body(t):
        L, rng, q = cxx.lib(), np.random.default_rng(2100 + 1000 * r.seed + t), type(r)()
        for rep in range(200 if r.tier == 'thorough' else 40):
            kw = dict(boxsize=tuple(rng.uniform(1, 4000, 3)), ngrid=tuple(int(v) for v in rng.integers(1, 900, 3)), assignment=str(rng.choice(['ngp', 'cic', 'tsc', 'pcs'])), interlace=str(rng.choice(['true', 'false'])),
                      alignment=str(rng.choice(['centre', 'pad'])), norm_convention=str(rng.choice(['none', 'particle', 'mesh', 'mesh-mixed'])), ell1=int(rng.integers(0, 12)), ell2=int(rng.integers(0, 12)), ELL=int(rng.integers(0, 12)))
            p = cxx.params(**kw)
            ns = tuple(10. ** rng.uniform(-12, 6, 3))
            cs = []
            for _ in range(2):
                n = int(rng.integers(1, 9))
                c = cxx.catalogue(rng.uniform(-500, 500, (n, 3)), rng.uniform(.1, 2, n), rng.uniform(.5, 2, n), rng.uniform(.5, 2, n))
                cs.append(c)
            both = bool(rng.random() < .5)
            L.io_head(p, cs[0], cs[1] if both else None, *ns)
            tx = L.txt()
            q.case('header: every line is a comment', tx.endswith('\n') and all(l.startswith('#') for l in tx.splitlines()), tx)
            f = lambda s: [float(v) for v in re.findall(r'-?\d+(?:\.\d*)?(?:e[-+]?\d+)?', s.split(':', 1)[1])]

            def line(label):
                ls = [l for l in tx.splitlines() if l.startswith('# %s: ' % label)]
                q.case('header: one line ' + label, len(ls) == 1, tx)
                return ls[0] if ls else '# %s: ' % label
            for c, pre in zip(cs, ('Data', 'Random') if both else ('',)):
                d = cxx.cat_data(c)
                a = f(line(pre + ' catalogue size' if pre else 'Catalogue size'))
                q.case('header: particles', len(a) == 3 and a[0] == len(d), (tx, d.tolist()))
                q.case('header: sums', len(a) == 3 and abs(a[1] - (d[:, 6]).sum()) < 2e-3 and abs(a[2] - d[:, 4].sum()) < 2e-3, (tx, d.tolist()))
                e = f(line(pre + '-source particle extents' if pre else 'Catalogue particle extents'))
                w = [v for k in range(3) for v in (d[:, k].min(), d[:, k].max())]
                q.case('header: extents', len(e) == 6 and np.allclose(e, w, rtol=0, atol=2e-3), (tx, w))
            q.case('header: box', np.allclose(f(line('Box size')), kw['boxsize'], rtol=0, atol=2e-3), (tx, kw))
            q.case('header: mesh', f(line('Mesh number')) == list(kw['ngrid']), (tx, kw))
            q.case('header: alignment', line('Box alignment') == '# Box alignment: ' + kw['alignment'], (tx, kw))
            q.case('header: assignment', line('Mesh assignment and interlacing').endswith(': %s, %s' % (kw['assignment'], kw['interlace'])), (tx, kw))
            used = {'none': 1., 'particle': ns[0], 'mesh': ns[1], 'mesh-mixed': ns[2]}[kw['norm_convention']]
            l = line('Normalisation factor')
            q.case('header: normalisation used', np.allclose(f(l)[:1], [used], rtol=1e-8, atol=0) and l.endswith('(%s)' % kw['norm_convention']), (tx, kw, ns))
            q.case('header: alternatives', np.allclose(f(line('Normalisation factor alternatives')), ns, rtol=1e-8, atol=0), (tx, ns))
            # tables
            for kind in range(6):
                dim = int(rng.choice([0, 1, 2, 7, 20]))
                rows = dim + int(rng.choice([0, 0, 3]))
                k3 = kind >= 3
                nc = (7 if kind == 0 else 5) if not k3 else 10
                ints = (2, 5) if k3 else (2,)
                v = rng.choice([-1, 1], (nc, rows)) * 10. ** rng.uniform(-12, 8, (nc, rows))
                for k in ints:
                    v[k] = rng.integers(0, 2 ** 30, rows)
                L.io_tab(kind, p, dim, rows, np.ascontiguousarray(v))
                ls = L.txt().splitlines()
                deg = '%d%d%d' % (kw['ell1'], kw['ell2'], kw['ELL']) if k3 else '%d' % kw['ELL']
                s = [('k', 'nmodes', 'pk'), ('r', 'npairs', 'xi'), ('r', 'npairs', 'xi'), ('k', 'nmodes', 'bk'), ('r', 'npairs', 'zeta'), ('r', 'npairs', 'zeta')][kind]
                cn = [s[0] + '%s_cen', s[0] + '%s_eff', s[1] + '%s']
                cn = [c % '' for c in cn] if not k3 else [c % (i if c[0] == s[0] and c[1] == '%' else '_' + i) for i in '12' for c in cn]
                cn += ['%s{%s%s%s}' % (z, s[2], deg, w) for w in (('_raw', '_shot') if s[2] != 'xi' else ('',)) for z in ('Re', 'Im')]
                what = dict(kind=kind, dim=dim, rows=rows)
                q.case('columns named', bool(ls) and [c.strip() for c in re.split(r',? ?\[\d+\] ', ls[0].lstrip('# '))[1:]] == cn, (what, ls[:1], cn))
                body_ = [l for l in ls if not l.startswith('#')]
                q.case('one row per bin', len(body_) == dim and len(ls) == dim + 1, what)
                got = [l.split() for l in body_]
                ok = all(len(g) == nc for g in got)
                q.case('columns', ok, what)
                if ok and len(got) == dim:
                    for i in range(dim):
                        q.case('values', all(abs(float(got[i][k]) - v[k, i]) <= 1e-9 * abs(v[k, i]) for k in range(nc)), dict(what, row=i, got=got[i], want=v[:, i].tolist()))
            n = int(rng.integers(0, 9))
            ix, v = rng.integers(0, 50, n).astype(np.int32), np.ascontiguousarray(rng.choice([-1, 1], (5, n)) * 10. ** rng.uniform(-12, 8, (5, n)))
            L.io_binned(p, n, ix, v)
            ls = L.txt().splitlines()
            got = [l.split() for l in ls if not l.startswith('#')]
            q.case('recorded vectors', len(got) == n and all(len(g) == 6 and int(g[0]) == ix[i] and all(abs(float(g[1 + k]) - v[k, i]) <= 1e-9 * abs(v[k, i]) for k in range(5)) for i, g in enumerate(got)), (ls, ix.tolist(), v.tolist()))
            q.case('recorded vectors: count', any(l == '# Vector count: %d' % n for l in ls), ls)
        return q
    for out in cxx.pmap(body, range(4), timeout=300):
        absorb(r, out)
