"""P19: three-point tables reshape without losing or moving values (_arrayops.py, winconv.py)."""
from common import *
import types
import pylib, pysym
from pylib import PYTRUST, Module, Arr, Iv, Rv, V, calls, elems, shape_is, unchanged
from pylib import I, R, rn, between, explore

sys.path.append('/opt/venv/lib/python3.12/site-packages')
LEVEL = 'proof'
TRUSTED = PYTRUST + ['the square root is the non-negative root; np.isclose is its documented inequality']
ZI, OI = num(0, 'I'), num(1, 'I')
n_, L_, d_, K = I('n'), I('L'), I('d'), I('k')
T2 = n_ * n_ + n_


def mod():
    return Module('_arrayops')


def val(i, k): return V(app('a.re[]', (i,), 'R'), app('a.im[]', (i,), 'R'), 'c') if k == 'c' else V(app('a[]', (i,), 'I' if k == 'i' else 'R'), None, k)


def tab(k): return Arr.sym('c', (L_, Iv(num(2, 'I'))), 'f') if False else Arr.sym('c', (L_, num(2, 'I')), 'f')


def kinds(): return (('real', 'f'), ('complex', 'c'), ('integer', 'i'))


def unit_triu(u):
    M = mod()
    for nm, k in kinds():
        keep = {}

        def go():
            pysym.SQRT_HINTS[:] = [toreal(n_ * 2 + 1)]
            keep['c'], keep['a'] = tab(k), Arr.sym('a', (L_,), k)
            return M['reshape_threept_datatab'](keep['c'], keep['a'])

        def post(v, h, p, tag):
            x, y = v
            elems(u, tag + ': common coordinates are the second coordinates of the first row of pairs', x, (n_,), lambda i: Rv(app('c[]', (i, OI), 'R')), h)
            pos = lambda i, j: i * n_ - idiv(i * (i - 1), num(2, 'I')) + (j - i)

            def want(i, j):
                a, b = ite(le(i, j), i, j), ite(le(i, j), j, i)
                w = val(pos(a, b), k)
                return w
            # both triangles separately, so that the order of the pair is a hypothesis
            i, j = I('ix0'), I('ix1')
            if not shape_is(u, tag, y, (n_, n_), h):
                return
            hh = h + [between(0, i, n_), between(0, j, n_)]
            pylib.same(u, tag + ': upper triangle, row by row', y.get((i, j)), val(pos(i, j), k), hh + [le(i, j)])
            pylib.same(u, tag + ': lower triangle by symmetry', y.get((i, j)), val(pos(j, i), k), hh + [lt(j, i)])
            u.true(tag + ': number type', y.k == ('c' if k == 'c' else 'f'), y.k)
            unchanged(u, tag + ': the table is untouched', keep['a'], lambda ix: val(ix[0], k), h)
        calls(u, 'upper-triangular table of %s values' % nm, go, [lt(ZI, n_), eq(L_ * 2, T2)], post)
    pysym.SQRT_HINTS[:] = []
    u.fn('_arrayops.reshape_threept_datatab')


def rejected(u, name, E, ps):
    for p in ps:
        if p.out == 'exc':
            u.true(name, type(p.exc).__name__ == 'ValueError', repr(p.exc))
        else:
            with pylib.At(E, p) as h:
                u.holds(name + ': no other outcome', FALSE, [x for x in h if not any(t.op == 'app' for t in subterms(x))])
    u.true(name + ': some path', len(ps) > 0)


def unit_triu_reject(u):
    """every other length is n(n+1)/2 + d with 0 < d <= n"""
    M = mod()
    pre = [le(ZI, n_), lt(ZI, d_), le(d_, n_), eq(L_ * 2, T2 + d_ * 2)]
    s = app('sqrt', (toreal(L_ * 8 + 1),), 'R')
    root = [le(ZR, s), eq(s * s, toreal(L_ * 8 + 1))]
    lo, hi = lt(toreal(n_ * 2 + 1), s), lt(s, toreal(n_ * 2 + 3))
    u.holds('the root lies above 2n+1', lo, pre + root)
    u.holds('the root lies below 2n+3', hi, pre + root)
    fl = eq(trunc(div(s - rn(1), rn(2))), n_)
    u.holds('the integer part of the size is n', fl, [lo, hi, le(ZI, n_)])
    E, ps = explore(lambda: M['reshape_threept_datatab'](tab('f'), Arr.sym('a', (L_,), 'f')), pre + [lo, hi, fl])
    rejected(u, 'a length that is not a triangular number is rejected', E, ps)
    u.fn('_arrayops.reshape_threept_datatab')


def unit_full(u):
    M = mod()
    for nm, k in kinds():
        def go():
            pysym.SQRT_HINTS[:] = [toreal(n_)]
            return M['reshape_threept_datatab'](tab(k), Arr.sym('a', (L_,), k), shape='full')

        def post(v, h, p, tag):
            x, y = v
            elems(u, tag + ': common coordinates are the second coordinates of the first row of pairs', x, (n_,), lambda i: Rv(app('c[]', (i, OI), 'R')), h)
            elems(u, tag + ': row by row', y, (n_, n_), lambda i, j: val(i * n_ + j, k), h)
            u.true(tag + ': number type', y.k == k, y.k)
        calls(u, 'full table of %s values' % nm, go, [lt(ZI, n_), eq(L_, n_ * n_)], post)
    pysym.SQRT_HINTS[:] = []
    pre = [le(ZI, n_), lt(ZI, d_), le(d_, n_ * 2), eq(L_, n_ * n_ + d_)]
    s = app('sqrt', (toreal(L_),), 'R')
    root = [le(ZR, s), eq(s * s, toreal(L_))]
    lo, hi = lt(toreal(n_), s), lt(s, toreal(n_ + 1))
    u.holds('the root lies above n', lo, pre + root)
    u.holds('the root lies below n+1', hi, pre + root)
    fl = eq(trunc(s), n_)
    u.holds('its integer part is n', fl, [lo, hi, le(ZI, n_)])
    E, ps = explore(lambda: M['reshape_threept_datatab'](tab('f'), Arr.sym('a', (L_,), 'f'), shape='full'), pre + [lo, hi, fl])
    rejected(u, 'a length that is not a square is rejected', E, ps)
    u.fn('_arrayops.reshape_threept_datatab')


def unit_shapes(u):
    M = mod()
    bad = lambda name, f, pre=(): u.true(name, (lambda ps: ps and all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps))(explore(f, pre)[1]))
    pre = [lt(ZI, n_), lt(ZI, L_)]
    bad('coordinates that are not pairs in rows are rejected', lambda: M['reshape_threept_datatab'](Arr.sym('c', (L_,)), Arr.sym('a', (L_,))), pre)
    bad('different lengths are rejected', lambda: M['reshape_threept_datatab'](tab('f'), Arr.sym('a', (n_,))), pre + [not_(eq(n_, L_))])
    bad('different lengths are rejected, full', lambda: M['reshape_threept_datatab'](tab('f'), Arr.sym('a', (n_,)), 'full'), pre + [not_(eq(n_, L_))])
    bad('another form is rejected', lambda: M['reshape_threept_datatab'](tab('f'), Arr.sym('a', (L_,)), 'row'), pre)
    u.fn('_arrayops.reshape_threept_datatab')


# ------------------------------------------------------------------ window function tables
def ns(m): return types.SimpleNamespace(**{k: v for k, v in m.ns.items() if not k.startswith('__')})


def winconv():
    a, m = mod(), Module('_mpitools')
    t = Module('transforms', imports={'._arrayops': ns(a), '._fftlog': types.SimpleNamespace(HankelTransform=object)})
    return Module('winconv', imports={'._arrayops': ns(a), '._mpitools': ns(m), '.transforms': ns(t)})


def unit_window(u):
    """the constructor reshapes each multipole by its symmetry and scales by the squared contrast"""
    W = winconv()
    seen = []

    def reshape(pairs, flat, shape='triu'):
        seen.append((pairs, flat, shape))
        c = len(seen)
        return Arr.sym('r%d' % c, (n_,)), Arr.sym('Q%d' % c, (n_, n_))
    W.set('reshape_threept_datatab', reshape)
    W.set('_check_1d_array', lambda a, **k: a)
    keys = ('202', '000', '112', (2, 2, 0), (0, 2, 2))
    for common_ in (True, False):
        def go():
            del seen[:]
            flat = {k: Arr.sym('f%d' % i, (L_,)) for i, k in enumerate(keys)}
            pairs = Arr.sym('c', (L_, num(2, 'I'))) if common_ else {k: Arr.sym('c%d' % i, (L_, num(2, 'I'))) for i, k in enumerate(keys)}
            w = W['ThreePointWindow'](pairs, flat, alpha_contrast=Rv(R('al')), make_loglin=False)
            return w, flat, pairs, list(seen)

        def post(v, h, p, tag):
            w, flat, pairs, sn = v
            Mp = W['Multipole']
            if not u.true(tag + ': each multipole is reshaped once', len(sn) == len(keys)):
                return
            u.true(tag + ': no multipole is lost', sorted(m.index for m in w.multipoles) == sorted(Mp(k).index for k in keys) and set(w.Q) == set(w.r) == set(w.Q_diag) == {Mp(k) for k in keys})
            for k in keys:
                hit = [(i, s) for i, s in enumerate(sn) if s[1] is flat[k]]
                if not u.true(tag + ': %s: its values with its coordinates' % (k,), len(hit) == 1 and hit[0][1][0] is (pairs if common_ else pairs[k])):
                    continue
                i, s = hit[0]
                m = Mp(k)
                u.true(tag + ': %s: form by symmetry' % (k,), s[2] == ('triu' if m.index[0] == m.index[1] else 'full'), s[2])
                elems(u, tag + ': %s: coordinates' % (k,), w.r[m], (n_,), lambda a: Rv(app('r%d[]' % (i + 1), (a,), 'R')), h)
                elems(u, tag + ': %s: values' % (k,), w.Q[m], (n_, n_), lambda a, b: Rv(R('al') * R('al') * app('Q%d[]' % (i + 1), (a, b), 'R')), h)
                elems(u, tag + ': %s: diagonal' % (k,), w.Q_diag[m], (n_,), lambda a: Rv(R('al') * R('al') * app('Q%d[]' % (i + 1), (a, a), 'R')), h)
        calls(u, 'window tables, %s coordinates' % ('common' if common_ else 'separate'), go, [lt(ZI, n_), lt(ZI, L_)], post)
    u.fn('winconv.ThreePointWindow.__init__', 'winconv.Multipole.__init__', 'winconv.Multipole._issym')


UNITS = [('upper-triangular tables', unit_triu), ('lengths that are not triangular', unit_triu_reject), ('full tables', unit_full), ('unusable tables', unit_shapes), ('window function tables', unit_window)]


def replay(r):
    import numpy as np, warnings
    import cxx, pyreal
    top = 60 if r.tier == 'thorough' else 24

    def body(t):
        imp = pyreal.pkg(_fftlog={'HankelTransform': object})
        ao = imp('_arrayops')
        warnings.simplefilter('ignore')
        wc = imp('winconv')
        rng = np.random.default_rng(7 * r.seed + t)
        q = type(r)()
        for n in range(1 + t, top, 8):
            x = np.sort(rng.uniform(1, 200, n))
            for dt in (float, complex, int):
                y = rng.integers(-9, 9, (n, n)) if dt is int else rng.normal(size=(n, n)).astype(dt)
                if dt is complex:
                    y = y + 1j * rng.normal(size=(n, n))
                s = np.triu(y) + np.triu(y, 1).T
                for form, want, pairs in (('triu', s, [(i, j) for i in range(n) for j in range(i, n)]), ('full', y, [(i, j) for i in range(n) for j in range(n)])):
                    pc = np.array([(x[i], x[j]) for i, j in pairs])
                    fl = np.array([want[i, j] for i, j in pairs])
                    b = fl.copy()
                    c, m = ao.reshape_threept_datatab(pc, fl, shape=form)
                    what = '%d bins, %s, %s' % (n, form, dt.__name__)
                    q.case('values', m.shape == (n, n) and (m == want).all(), what)
                    q.case('coordinates', c.shape == (n,) and (c == x).all(), what)
                    q.case('input', (fl == b).all(), what)
                    if dt is float and n > 1:
                        for key in ('000', '112', '220') if form == 'triu' else ('202', '022', (1, 3, 4)):
                            w = wc.ThreePointWindow(pc, {key: fl}, alpha_contrast=.3, make_loglin=False)
                            k = wc.Multipole(key)
                            q.case('window table', list(w.Q) == [k] and w.Q[k].shape == (n, n) and np.allclose(w.Q[k], .09 * want, rtol=1e-13) and (w.r[k] == x).all() and (w.Q_diag[k] == np.diag(w.Q[k])).all(), '%s, multipole %s' % (what, key))
        for L in list(range(1 + t, 400, 8)) + [50086 + 1 + t, 1000000 + 3 + t]:
            tri = round(((8 * L + 1) ** .5 - 1) / 2)
            sq = round(L ** .5)
            for form, ok in (('triu', tri * (tri + 1) // 2 == L), ('full', sq * sq == L)):
                try:
                    c, m = ao.reshape_threept_datatab(np.ones((L, 2)), np.arange(L) * 1., shape=form)
                    acc = True
                except ValueError:
                    acc = False
                q.case('length', acc == ok, '%d rows, %s' % (L, form))
        return q
    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
