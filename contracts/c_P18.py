"""P18: window and multipole objects keep keys, samples and values aligned (winconv.py, transforms.py)."""
from common import *
import types, itertools
import pylib, pysym, pynp
from pylib import PYTRUST, Module, Arr, Iv, Rv, V, calls, elems, shape_is, unchanged
from pylib import I, R, rn, between, explore
import c_P19

LEVEL = 'proof'
TRUSTED = PYTRUST + ['selection by a Boolean mask keeps the entries where it holds, in order', 'interpolating splines are operators of the samples, points, degree and places they are evaluated at',
                     'NumPy archives return the stored objects; text tables are read as their columns',
                     'tables of three-point samples are reshaped as contracted in P19', 'separations are not negative']
ZI, OI, ZR = num(0, 'I'), num(1, 'I'), num(0, 'R')
n_, L_ = I('n'), I('L')
# every contract below holds for these sets of multipoles, with samples of any number, place and value
SETS = (('000',), ('202', '000', '112', '110', '022', '011'), ('220', '011'))


def true_(x): return x is True or isinstance(x, bool) and x


# ------------------------------------------------------------------ multipoles
def unit_order(u):
    """a total order consistent with equality and hashing, for multipoles of any degrees"""
    for width in (1, 2, 3):
        W = c_P19.winconv()
        Mp = W['Multipole']

        def go():
            a, b, c = (Mp(tuple(Iv(I('%s%d' % (q, i))) for i in range(width))) for q in 'abc')
            t = lambda x: bool(x)
            return dict(lt=t(a < b), gt=t(a > b), le=t(a <= b), ge=t(a >= b), eq=t(a == b), tl=t(b < a), qe=t(b == a), ne=t(a != b), hash=(a.__hash__(), b.__hash__()),
                        bc=t(b < c), ac=t(a < c), ax=(a.index, b.index))

        def post(v, h, p, tag):
            u.true(tag + ': exactly one of below, above and equal', (v['lt'], v['gt'], v['eq']).count(True) == 1, repr((v, p.conds)))
            u.true(tag + ': below means the other is above', v['tl'] == v['gt'])
            u.true(tag + ': equality is symmetric and its denial consistent', v['eq'] == v['qe'] and v['ne'] != v['eq'])
            u.true(tag + ': at most and at least', v['le'] == (v['lt'] or v['eq']) and v['ge'] == (v['gt'] or v['eq']))
            u.true(tag + ': transitive', not (v['lt'] and v['bc']) or v['ac'], repr(p.conds))
            same = and_(*[eq(pysym.tt(x), pysym.tt(y)) for x, y in zip(*v['ax'])])
            u.holds(tag + ': equal exactly when all degrees are', same if v['eq'] else not_(same), h)
            if v['eq']:
                x, y = (pysym.tt(pysym.lit(q)) for q in v['hash'])
                u.eq(tag + ': equal multipoles have equal hashes', x, y, h)
        calls(u, 'multipoles of %d degrees' % width, go, [], post, limit=4000)
    W = c_P19.winconv()
    Mp = W['Multipole']
    sym = lambda q, w: Mp(tuple(Iv(I('%s%d' % (q, i))) for i in range(w)))
    for x, y in ((1, 3), (3, 1), (2, 3)):
        calls(u, '%d and %d degrees are different' % (x, y), lambda: bool(sym('a', x) == sym('b', y)), [], lambda v, h, p, tag: u.true(tag + ': not equal', v is False))
        for nm, f in (('<', lambda a, b: a < b), ('>', lambda a, b: a > b), ('<=', lambda a, b: a <= b), ('>=', lambda a, b: a >= b)):
            E, ps = explore(lambda: f(sym('a', x), sym('b', y)))
            u.true('%d and %d degrees cannot be ordered (%s)' % (x, y, nm), all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in ps))
    calls(u, 'symmetry', lambda: bool(sym('a', 3)._issym()), [], lambda v, h, p, tag: u.holds(tag + ': the first two degrees', eq(I('a0'), I('a1')) if v else not_(eq(I('a0'), I('a1'))), h))
    calls(u, 'entries', lambda: [sym('a', 3)[i] for i in range(3)], [], lambda v, h, p, tag: [u.eq(tag + ': %d' % i, pysym.tt(v[i]), I('a%d' % i), h) for i in range(3)])
    calls(u, 'copies', lambda: Mp(sym('a', 3)), [], lambda v, h, p, tag: [u.eq(tag + ': %d' % i, pysym.tt(v.index[i]), I('a%d' % i), h) for i in range(3)])
    u.fn('winconv.Multipole.__init__', 'winconv.Multipole.__eq__', 'winconv.Multipole.__lt__', 'winconv.Multipole.__gt__', 'winconv.Multipole.__le__', 'winconv.Multipole.__ge__',
         'winconv.Multipole.__hash__', 'winconv.Multipole.__getitem__', 'winconv.Multipole._iscomp', 'winconv.Multipole._issym')


def unit_spelling(u):
    """all undelimited strings of one, two and three degrees; the other spellings of each; delimited strings with larger degrees"""
    W = c_P19.winconv()
    Mp = W['Multipole']
    bad = []
    for w in (1, 2, 3):
        for t in itertools.product(range(10), repeat=w):
            s = ''.join(map(str, t))
            forms = [s, ','.join(s), t, list(t), tuple(s), [str(t[0])] + list(t[1:]), Mp(t)]
            if w == 1:
                forms += [t[0]]
            ms = [Mp(f) for f in forms]
            if any(m.index != t or m.abstr != s or m != ms[0] or hash(m) != hash(ms[0]) or str(m) != ','.join(s) for m in ms) or any(type(i) is not int for m in ms for i in m.index):
                bad.append(t)
            if len({m: 1 for m in ms}) != 1:
                bad.append(t)
    u.true('every spelling of single-digit degrees', not bad, repr(bad[:3]))
    bad = []
    for t in itertools.product((0, 1, 7, 10, 12, 100), repeat=3):
        forms = [','.join(map(str, t)), ', '.join(map(str, t)), t, tuple(map(str, t))]
        if any(Mp(f).index != t or Mp(f) != Mp(t) or hash(Mp(f)) != hash(Mp(t)) for f in forms):
            bad.append(t)
    u.true('delimited degrees of several digits', not bad, repr(bad[:3]))
    for x in (None, 'ab', object()):
        try:
            Mp(x)
            u.true('unusable multipole %r' % type(x), False, 'accepted')
        except ValueError:
            u.true('unusable multipole %r' % type(x), True)
        except Exception as e:
            u.true('unusable multipole %r' % type(x), False, repr(e))
    u.fn('winconv.Multipole.__init__', 'winconv.Multipole.__str__')


# ------------------------------------------------------------------ windows
def nt(k): return I('n' + k.replace(',', ''))


def fresh_window(W, keys, rshared=False):
    """any window: for each multipole any samples, with the diagonal"""
    Mp = W['Multipole']
    w = W['ThreePointWindow'].__new__(W['ThreePointWindow'])
    w.r = {Mp(k): Arr.sym('r' + k, (nt(k),)) for k in keys}
    w.Q = {Mp(k): Arr.sym('Q' + k, (nt(k), nt(k))) for k in keys}
    w.Q_diag = {m: pynp.diag(q) for m, q in w.Q.items()}
    w.multipoles = VL(sorted(Mp(k) for k in keys))
    w.sources = VL(['src' + k for k in keys])
    return w


def VL(x): return pysym.VList(x)


def rat(k): return lambda i: app('r%s[]' % k, (i,), 'R')
def qat(k): return lambda i, j: app('Q%s[]' % k, (i, j), 'R')


def aligned(u, W, tag, w, keys, h, size, r, Q):
    """the window holds for each of the multipoles samples r and values Q at size points, and the diagonal"""
    Mp = W['Multipole']
    ms = sorted(Mp(k) for k in keys)
    u.true(tag + ': multipoles, in order', list(w.multipoles) == ms, repr(list(w.multipoles)))
    for nm, d in (('sample points', w.r), ('values', w.Q), ('diagonals', w.Q_diag)):
        u.true(tag + ': %s of each multipole' % nm, sorted(d) == ms, repr(list(d)))
    for k in keys:
        m, n = Mp(k), size(k)
        if m not in w.r or m not in w.Q or m not in w.Q_diag:
            continue
        elems(u, tag + ': %s: sample points' % k, w.r[m], (n,), lambda i: Rv(r(k, i)), h)
        elems(u, tag + ': %s: values' % k, w.Q[m], (n, n), lambda i, j: Rv(Q(k, i, j)), h)
        elems(u, tag + ': %s: diagonal' % k, w.Q_diag[m], (n,), lambda i: Rv(Q(k, i, i)), h)


def intact(u, W, tag, w, keys, h, refs):
    aligned(u, W, tag, w, keys, h, nt, lambda k, i: rat(k)(i), lambda k, i, j: qat(k)(i, j))
    u.true(tag + ': sources', list(w.sources) == ['src' + k for k in keys], repr(w.sources))


def pos(keys): return [lt(ZI, nt(k)) for k in keys]


def mask_of(a):
    """which mask the points of an array were selected by: (condition at index, enumeration)"""
    n = a.shape_[0]
    if n.op == 'app' and n.a[0] == 'count':
        i = n.a[1]
        n0, t = pynp.MASKS[int(nv(i))]
        return n, lambda j: app('sel', (i, j), 'I'), lambda j: subst(t, {var('mask?', 'I'): j})
    return None


def selection(u, W, tag, w, keys, h, spec):
    """w holds exactly the samples of the fresh window for which spec(k, i) holds, in order"""
    Mp = W['Multipole']
    num_, en = {}, {}
    i = I('i')
    for k in keys:
        m = Mp(k)
        a = w.r.get(m)
        if a is None:
            return u.true(tag + ': %s is kept' % k, False)
        mk = mask_of(a)
        inr = between(0, i, nt(k))
        facts = [inr, le(ZR, rat(k)(i))]
        if mk is None:
            # all or a contiguous part: the entries say which
            if pysym.deq(a.shape_[0], nt(k)):
                num_[k], en[k] = nt(k), (lambda j: j)
                u.holds(tag + ': %s: everything was asked for' % k, spec(k, i), h + facts)
            elif isnum(a.shape_[0]) and nv(a.shape_[0]) == 0:
                num_[k], en[k] = ZI, (lambda j: j)
                u.holds(tag + ': %s: nothing was asked for' % k, not_(spec(k, i)), h + facts)
            else:
                return u.fail(tag + ': %s: selected samples' % k, 'not a selection of the samples', repr(a))
            continue
        num_[k], en[k] = mk[0], mk[1]
        u.holds(tag + ': %s: only samples asked for' % k, spec(k, i), h + facts + [mk[2](i)])
        u.holds(tag + ': %s: all samples asked for' % k, mk[2](i), h + facts + [spec(k, i)])
    aligned(u, W, tag, w, keys, h, lambda k: num_[k], lambda k, a: rat(k)(en[k](a)), lambda k, a, b: qat(k)(en[k](a), en[k](b)))


isnum = pysym.isnum


def clip(a, n):
    """position denoted by an index bound a over n entries"""
    b = ite(lt(a, ZI), n + a, a)
    return ite(lt(b, ZI), ZI, ite(lt(n, b), n, b))


def rspec(lo, hi):
    def f(k, i):
        c = TRUE
        if lo is not None:
            c = and_(c, le(pysym.real(pysym.lit(lo)), rat(k)(i)))
        if hi is not None:
            c = and_(c, le(rat(k)(i), pysym.real(pysym.lit(hi))))
        return c
    return f


def ispec(lo, hi):
    def f(k, i):
        c = TRUE
        if lo is not None:
            c = and_(c, le(clip(pysym.tt(pysym.lit(lo)), nt(k)), i))
        if hi is not None:
            c = and_(c, lt(i, clip(pysym.tt(pysym.lit(hi)), nt(k))))
        return c
    return f


def only(spec, chosen):
    return lambda k, i: spec(k, i) if k in chosen else TRUE


def both(a, b): return lambda k, i: and_(a(k, i), b(k, i))


ALL = lambda k, i: TRUE
lo_, hi_, a_, b_ = (Rv(R('lo')), Rv(R('hi')), Iv(I('a')), Iv(I('b')))


def requests(keys):
    k0 = keys[-1]
    yield 'nothing given', {}, ALL
    yield 'range', {'rrange': (lo_, hi_)}, rspec(lo_, hi_)
    yield 'upper bound', {'rrange': (None, hi_)}, rspec(None, hi_)
    yield 'lower bound', {'rrange': (lo_, None)}, rspec(lo_, None)
    yield 'range of one multipole', {'rrange': {k0: (lo_, hi_)}}, only(rspec(lo_, hi_), (k0,))
    yield 'lower bound of one multipole', {'rrange': {tuple(map(int, k0)): (lo_, None)}}, only(rspec(lo_, None), (k0,))
    yield 'upper bound of every multipole', {'rrange': {k: (None, hi_) for k in keys}}, rspec(None, hi_)
    yield 'indices', {'idxrange': (a_, b_)}, ispec(a_, b_)
    yield 'last index', {'idxrange': (None, b_)}, ispec(None, b_)
    yield 'first index', {'idxrange': (a_, None)}, ispec(a_, None)
    yield 'without the last', {'idxrange': (None, -1)}, ispec(None, -1)
    yield 'indices of one multipole', {'idxrange': {k0: (a_, b_)}}, only(ispec(a_, b_), (k0,))
    yield 'range and indices', {'rrange': (None, hi_), 'idxrange': (a_, None)}, both(rspec(None, hi_), ispec(a_, None))
    yield 'range of one multipole and indices', {'rrange': {k0: (lo_, None)}, 'idxrange': (None, b_)}, both(only(rspec(lo_, None), (k0,)), ispec(None, b_))
    yield 'range and indices of one multipole', {'rrange': (lo_, hi_), 'idxrange': {k0: (None, b_)}}, both(rspec(lo_, hi_), only(ispec(None, b_), (k0,)))


def unit_select(part):
    def unit(u):
        keys = SETS[2]
        for nm, kw, spec in list(requests(keys))[part::5]:
            for inplace in (False, True):
                W = c_P19.winconv()
                pynp.MASKS.clear()

                def go():
                    w = fresh_window(W, keys)
                    before = (dict(w.r), dict(w.Q), dict(w.Q_diag))
                    v = w.subselect(inplace=inplace, **kw)
                    return w, v, before
                pre = pos(keys)

                def post(v, h, p, tag):
                    w, out, before = v
                    for k in keys:
                        m = W['Multipole'](k)
                        unchanged(u, tag + ': %s: the sample points given are untouched' % k, before[0][m], lambda ix: Rv(rat(k)(*ix)), h)
                        unchanged(u, tag + ': %s: the values given are untouched' % k, before[1][m], lambda ix: Rv(qat(k)(*ix)), h)
                    if inplace:
                        u.true(tag + ': nothing is returned', out is None)
                        selection(u, W, tag, w, keys, h, spec)
                        u.true(tag + ': sources', list(w.sources) == ['src' + k for k in keys])
                    else:
                        u.true(tag + ': another window', isinstance(out, W['ThreePointWindow']) and out is not w)
                        selection(u, W, tag + ': selected', out, keys, h, spec)
                        u.true(tag + ': selected: sources', list(out.sources) == ['src' + k for k in keys])
                        intact(u, W, tag + ': original', w, keys, h, before)
                calls(u, '%s%s' % (nm, ', in place' if inplace else ''), go, pre, post)
        u.fn('winconv.ThreePointWindow.subselect', 'winconv.ThreePointWindow.load_from_dict')
    return unit


def unit_dict(u):
    for keys in SETS:
        for shared in (False, True):
            for src in (False, True):
                for spell in (str, lambda k: tuple(map(int, k)), lambda k: ','.join(k)):
                    W = c_P19.winconv()

                    def go():
                        r = Arr.sym('r' + keys[0], (nt(keys[0]),)) if shared else {spell(k): Arr.sym('r' + k, (nt(k),)) for k in keys}
                        d = {'r': r, 'Q': {spell(k): Arr.sym('Q' + k, (nt(k), nt(k))) for k in keys}}
                        if src:
                            d['sources'] = VL(['src' + k for k in keys])
                        return W['ThreePointWindow'].load_from_dict(d)

                    def post(w, h, p, tag):
                        h = h + ([eq(nt(k), nt(keys[0])) for k in keys] if shared else [])
                        aligned(u, W, tag, w, keys, h, nt, lambda k, i: rat(keys[0] if shared else k)(i), lambda k, i, j: qat(k)(i, j))
                        u.true(tag + ': sources', list(w.sources) == (['src' + k for k in keys] if src else ['array'] * len(keys)), repr(w.sources))
                    calls(u, 'window of a dictionary', go, pos(keys) + ([eq(nt(k), nt(keys[0])) for k in keys] if shared else []), post)
    u.fn('winconv.ThreePointWindow.load_from_dict')


class Stored:
    def __init__(s, o): s.o = o
    def item(s):
        if not isinstance(s.o, dict):
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return s.o

    def tolist(s):
        return VL(list(s.o)) if isinstance(s.o, list) else s.o


def unit_file(u):
    W = c_P19.winconv()
    store = {}

    def savez(path, *a, **kw):
        if a:
            raise Unsupported('unnamed arrays')
        store[path] = dict(kw)

    def load(path, allow_pickle=False, **kw):
        if not allow_pickle:
            raise ValueError('Object arrays cannot be loaded when allow_pickle=False')
        return {k: Stored(v) for k, v in store[path].items()}
    np_ = types.ModuleType('np_')
    np_.__dict__.update(W['np'].__dict__)
    np_.savez = np_.savez_compressed = savez
    np_.load = load
    W.set('np', np_)
    for keys in SETS:
        def go():
            w = fresh_window(W, keys)
            w.save_to_file('dir/win.npz')
            return w, W['ThreePointWindow'].load_from_file('dir/win.npz')

        def post(v, h, p, tag):
            intact(u, W, tag + ': saved', v[0], keys, h, None)
            intact(u, W, tag + ': loaded', v[1], keys, h, None)
            u.true(tag + ': another window', v[0] is not v[1] and isinstance(v[1].multipoles, list) and isinstance(v[1].sources, list))
        calls(u, 'window saved and loaded', go, pos(keys), post)
    u.fn('winconv.ThreePointWindow.save_to_file', 'winconv.ThreePointWindow.load_from_file')




def unit_text(u):
    """text tables: the chosen columns, raw minus shot, in the multipole of the file"""
    for keys in SETS:
        for sub in (True, False):
            for spell in (lambda k, i: k, lambda k, i: tuple(map(int, k)), lambda k, i: k if i % 2 else tuple(map(int, k)), lambda k, i: ','.join(k)):
                W = c_P19.winconv()
                got = []

                def loadtxt(path, usecols=None, unpack=False, **kw):
                    if not unpack:
                        raise Unsupported('table by rows')
                    k = path[4:-4]
                    return tuple(Arr.sym('col%d %s' % (c, k), (L_,)) for c in usecols)

                def reshape(pairs, flat, shape='triu'):
                    e = pysym.real(flat.get((I('probe'),)))
                    k = [k for k in keys if ' ' + k in show(e)]
                    if len(k) != 1:
                        raise Unsupported('values of several files')
                    k = k[0]
                    got.append((k, pairs, flat, shape))
                    return Arr.sym('r' + k, (nt(k),)), Arr.sym('Q' + k, (nt(k), nt(k)))
                np_ = types.ModuleType('np_')
                np_.__dict__.update(W['np'].__dict__)
                np_.loadtxt = loadtxt
                W.set('np', np_)
                W.set('reshape_threept_datatab', reshape)
                W.set('_check_1d_array', lambda a, **k: a)
                cols = (1, 4, 6, 8) if sub else (2, 3, 9)

                def go():
                    del got[:]
                    kw = {} if sub else {'usecols': cols}
                    w = W['ThreePointWindow'].load_from_textfiles({spell(k, i): 'win_%s.txt' % k for i, k in enumerate(keys)}, subtract_shotnoise=sub, alpha_contrast=Rv(R('al')), make_loglin=False, **kw)
                    return w, list(got)

                def post(v, h, p, tag):
                    w, g = v
                    aligned(u, W, tag, w, keys, h, nt, lambda k, i: rat(k)(i), lambda k, i, j: R('al') * R('al') * qat(k)(i, j))
                    u.true(tag + ': each file once', sorted(x[0] for x in g) == sorted(keys))
                    u.true(tag + ': sources in the order of the multipoles', list(w.sources) == ['win_%s.txt' % m.abstr for m in w.multipoles], repr((w.sources, w.multipoles)))
                    for k, pairs, flat, shape in g:
                        c = lambda j: (lambda i: app('col%d %s[]' % (cols[j], k), (i,), 'R'))
                        u.true(tag + ': %s: form' % k, shape == ('triu' if k[0] == k[1] else 'full'))
                        elems(u, tag + ': %s: pairs' % k, pairs, (L_, num(2, 'I')), lambda i, j: Rv(ite(eq(j, ZI), c(0)(i), c(1)(i))), h)
                        elems(u, tag + ': %s: values' % k, flat, (L_,), lambda i: Rv(c(2)(i) - c(3)(i) if sub else c(2)(i)), h)
                calls(u, 'windows of text tables%s' % (', shot noise subtracted' if sub else ''), go, [lt(ZI, L_)] + pos(keys), post)
                bad = explore(lambda: W['ThreePointWindow'].load_from_textfiles({keys[0]: 'win_%s.txt' % keys[0]}, subtract_shotnoise=sub, usecols=(1, 2, 3) if sub else (1, 2, 3, 4)))[1]
                u.true('a wrong number of columns is rejected', all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in bad))
    u.fn('winconv.ThreePointWindow.load_from_textfiles', 'winconv.ThreePointWindow.__init__')


def unit_resample(u):
    """each multipole resampled at its own points; the size asked for"""
    for keys in SETS[:2]:
        for nm, kw in (('default', {}), ('linear', {'spacing': 'lin'}), ('size', {'size': Iv(I('s'))}), ('degree', {'spline': 1, 'size': 7})):
            W = c_P19.winconv()
            calls_ = []

            def stub(which):
                def f(x, y, size=None, spline=3):
                    k = [k for k in keys if 'r%s[' % k in show(x.get((I('probe'),)).re)][0]
                    calls_.append((which, k, x, y, size, spline))
                    return (Arr.sym('new r' + k, (I('new n' + k),)), Arr.sym('other r' + k, (I('new n' + k),))), Arr.sym('new Q' + k, (I('new n' + k), I('new n' + k)))
                return f
            W.set('resample_lglin', stub('lglin'))
            W.set('resample_lin', stub('lin'))

            def go():
                del calls_[:]
                w = fresh_window(W, keys)
                w.resample(**kw)
                return w, list(calls_)

            def post(v, h, p, tag):
                w, cs = v
                u.true(tag + ': each multipole once', sorted(c[1] for c in cs) == sorted(keys))
                for which, k, x, y, size, spline in cs:
                    u.true(tag + ': %s: spacing' % k, which == kw.get('spacing', 'lglin'))
                    u.true(tag + ': %s: size and degree' % k, size is kw.get('size') and spline == kw.get('spline', 3), repr((size, spline)))
                    elems(u, tag + ': %s: original points' % k, x, (nt(k),), lambda i: Rv(rat(k)(i)), h)
                    elems(u, tag + ': %s: original values' % k, y, (nt(k), nt(k)), lambda i, j: Rv(qat(k)(i, j)), h)
                aligned(u, W, tag, w, keys, h, lambda k: I('new n' + k), lambda k, i: app('new r%s[]' % k, (i,), 'R'), lambda k, i, j: app('new Q%s[]' % k, (i, j), 'R'))
                u.true(tag + ': sources', list(w.sources) == ['src' + k for k in keys])
            calls(u, 'resampling, ' + nm, go, pos(keys), post)
        bad = explore(lambda: fresh_window(W, keys).resample(spacing='log'))[1]
        u.true('another spacing is rejected', all(p.out == 'exc' and type(p.exc).__name__ == 'ValueError' for p in bad))
    u.fn('winconv.ThreePointWindow.resample')


def unit_init(u):
    """construction resamples only windows whose points are not logarithmically spaced, at the size asked for"""
    W = c_P19.winconv()
    keys = SETS[1]

    def reshape(pairs, flat, shape='triu'):
        k = [k for k in keys if show(flat.get((I('probe'),)).re).startswith('flat' + k)][0]
        return Arr.sym('r' + k, (nt(k),)), Arr.sym('Q' + k, (nt(k), nt(k)))
    W.set('reshape_threept_datatab', reshape)
    checked, resampled = [], []

    def check(a, **kw):
        k = [k for k in keys if show(a.get((I('probe'),)).re).startswith('r' + k)][0]
        u.true('the check is for logarithmic spacing', kw == {'check_loglin': True})
        checked.append(k)
        if pysym.X.decide(var('uneven ' + k, 'B')):
            raise W['SpacingError'](k)
        return a
    W.set('_check_1d_array', check)
    W['ThreePointWindow'].resample = lambda self, spacing='lglin', size=None, spline=3: resampled.append((spacing, size, spline, dict(self.r), dict(self.Q), dict(self.Q_diag), list(self.multipoles)))
    for nm, ml in (('default', True), ('kept', False), ('size', Iv(I('s'))), ('number', 12)):
        def go():
            del checked[:], resampled[:]
            w = W['ThreePointWindow'](Arr.sym('pairs', (L_, num(2, 'I'))), {k: Arr.sym('flat' + k, (L_,)) for k in keys}, alpha_contrast=Rv(R('al')), make_loglin=ml)
            return w, list(checked), list(resampled), len(pysym.X.path.warnings)

        def post(v, h, p, tag):
            w, ch, rs, wn = v
            uneven = or_(*[var('uneven ' + k, 'B') for k in keys])
            aligned(u, W, tag, w, keys, h, nt, lambda k, i: rat(k)(i), lambda k, i, j: R('al') * R('al') * qat(k)(i, j))
            if ml is False:
                u.true(tag + ': not resampled', not rs)
                u.holds(tag + ': a warning exactly when uneven', uneven if wn else not_(uneven), h)
            else:
                u.holds(tag + ': resampled exactly when uneven', uneven if rs else not_(uneven), h)
                if rs:
                    u.true(tag + ': once, at logarithmic spacing and the given size', len(rs) == 1 and rs[0][0] == 'lglin' and rs[0][2] == 3 and (rs[0][1] is None if ml is True else rs[0][1] is ml), repr(rs[0][:3]))
                    u.true(tag + ': once complete', rs[0][3] == dict(w.r) if False else list(rs[0][3]) == list(w.r) and list(rs[0][4]) == list(w.Q))
            u.true(tag + ': sources', list(w.sources) == ['array'] * len(keys))
        calls(u, 'construction, ' + nm, go, [lt(ZI, L_), lt(ZI, I('s'))] + pos(keys), post)
    u.fn('winconv.ThreePointWindow.__init__')


# ------------------------------------------------------------------ resampling functions
class Spl:
    """interpolating spline: an operator of what it is built from"""
    seen = []

    def __init__(s, *a, **kw): s.a, s.kw = a, kw

    def __call__(s, *at, **kw):
        Spl.seen.append((s, at, kw))
        if len(at) == 1:
            return Arr.sym('spline', asarr(at[0]).shape_)
        return Arr.sym('spline', (asarr(at[0]).shape_[0], asarr(at[1]).shape_[0]))


asarr = pysym.asarray


class Spl1(Spl):
    pass


class Spl2(Spl):
    pass


def unit_resamplers(u):
    a = c_P19.mod()
    T = Module('transforms', imports={'._arrayops': c_P19.ns(a), '._fftlog': types.SimpleNamespace(HankelTransform=object)})
    T.set('InterpolatedUnivariateSpline', Spl1)
    T.set('RectBivariateSpline', Spl2)
    m_ = I('m')
    for fname in ('resample_lglin', 'resample_lin'):
        f = T[fname]

        def grid(x, nm, n, h):
            lo, hi = app(nm + '[]', (ZI,), 'R'), app(nm + '[]', (nt_[nm] - 1,), 'R')
            if fname == 'resample_lin':
                return lambda i: Rv(lo + (hi - lo) * div(toreal(i), toreal(n - 1)))
            return lambda i: Rv(real_fn('exp', real_fn('log', lo) + (real_fn('log', hi) - real_fn('log', lo)) * div(toreal(i), toreal(n - 1))))
        nt_ = {'x': n_, 'y': m_}
        posx = [lt(ZR, app('x[]', (ZI,), 'R')), lt(ZR, app('x[]', (n_ - 1,), 'R')), lt(ZR, app('y[]', (ZI,), 'R')), lt(ZR, app('y[]', (m_ - 1,), 'R'))]
        from term import real_fn
        pre = [lt(OI, n_), lt(OI, m_), lt(OI, I('s')), lt(OI, I('t'))] + posx
        for nm, size, want in (('same size', None, n_), ('size', Iv(I('s')), I('s'))):
            for sp in (3, 1):
                def go():
                    Spl.seen.clear()
                    v = f(Arr.sym('x', (n_,)), Arr.sym('f', (n_,)), size=size, spline=sp)
                    return v, list(Spl.seen)

                def post(v, h, p, tag):
                    (x, y), seen = v
                    elems(u, tag + ': points', x, (want,), grid(x, 'x', want, h), h)
                    s, at, kw = seen[-1]
                    u.true(tag + ': one spline, of the degree', len(seen) == 1 and isinstance(s, Spl1) and s.kw.get('k', 3) == sp and len(at) == 1 and not kw, repr(s.kw))
                    elems(u, tag + ': spline points', asarr(s.a[0]), (n_,), lambda i: Rv(app('x[]', (i,), 'R')), h)
                    elems(u, tag + ': spline values', asarr(s.a[1]), (n_,), lambda i: Rv(app('f[]', (i,), 'R')), h)
                    elems(u, tag + ': evaluated at the points', asarr(at[0]), (want,), grid(x, 'x', want, h), h)
                    elems(u, tag + ': the interpolated values', y, (want,), lambda i: Rv(app('spline[]', (i,), 'R')), h)
                calls(u, '%s in one dimension, %s, degree %d' % (fname, nm, sp), go, pre, post)
        S, T_ = Iv(I('s')), Iv(I('t'))
        for nm, size, w0, w1 in (('same size', None, n_, m_), ('size', S, I('s'), I('s')), ('sizes', (S, T_), I('s'), I('t')), ('first size', (S, None), I('s'), m_)):
            for shared in (False, True):
                if shared:
                    w1 = n_ if size is None or size == (S, None) else w1

                def go():
                    Spl.seen.clear()
                    x = Arr.sym('x', (n_,)) if shared else (Arr.sym('x', (n_,)), Arr.sym('y', (n_,)))
                    v = f(x, Arr.sym('f', (n_, n_)), size=size, spline=2)
                    return v, list(Spl.seen)

                def post(v, h, p, tag):
                    (xs, z), seen = v
                    yn = 'x' if shared else 'y'
                    u.true(tag + ': two sets of points', len(xs) == 2)
                    elems(u, tag + ': points', xs[0], (w0,), grid(xs[0], 'x', w0, h), h)
                    elems(u, tag + ': points of columns', xs[1], (w1,), grid(xs[1], yn, w1, h), h)
                    s, at, kw = seen[-1]
                    u.true(tag + ': one spline, of the degree', len(seen) == 1 and isinstance(s, Spl2) and s.kw.get('kx', 3) == 2 and s.kw.get('ky', 3) == 2 and s.kw.get('s', 0) == 0 and len(at) == 2 and kw.get('grid', True) is True, repr(s.kw))
                    elems(u, tag + ': spline points', asarr(s.a[0]), (n_,), lambda i: Rv(app('x[]', (i,), 'R')), h)
                    elems(u, tag + ': spline points of columns', asarr(s.a[1]), (n_,), lambda i: Rv(app(yn + '[]', (i,), 'R')), h)
                    elems(u, tag + ': spline values', asarr(s.a[2]), (n_, n_), lambda i, j: Rv(app('f[]', (i, j), 'R')), h)
                    elems(u, tag + ': evaluated at the points', asarr(at[0]), (w0,), grid(xs[0], 'x', w0, h), h)
                    elems(u, tag + ': evaluated at the points of columns', asarr(at[1]), (w1,), grid(xs[1], yn, w1, h), h)
                    elems(u, tag + ': the interpolated values', z, (w0, w1), lambda i, j: Rv(app('spline[]', (i, j), 'R')), h)
                nt_['y'] = n_
                if w1 is m_:
                    w1 = n_
                calls(u, '%s in two dimensions, %s%s' % (fname, nm, ', common points' if shared else ''), go, [lt(OI, n_), lt(OI, I('s')), lt(OI, I('t')), lt(ZR, app('x[]', (ZI,), 'R')), lt(ZR, app('x[]', (n_ - 1,), 'R')), lt(ZR, app('y[]', (ZI,), 'R')), lt(ZR, app('y[]', (n_ - 1,), 'R'))], post)
        u.fn('transforms.' + fname)


UNITS = [('order of multipoles', unit_order), ('spellings of multipoles', unit_spelling)] \
    + [('selections %d' % i, unit_select(i)) for i in range(5)] \
    + [('windows of dictionaries', unit_dict), ('window files', unit_file), ('windows of text tables', unit_text), ('resampled windows', unit_resample), ('constructed windows', unit_init), ('resampling', unit_resamplers)]


# ------------------------------------------------------------------ replay: sequences of operations on the real objects against an independent record
def replay(r):
    import numpy as np, warnings, copy, tempfile
    import cxx, pyreal
    reps = 60 if r.tier == 'thorough' else 12

    def body(t):
        imp = pyreal.pkg(_fftlog={'HankelTransform': object})
        warnings.simplefilter('ignore')
        wc, tr = imp('winconv'), imp('transforms')
        from scipy.interpolate import RectBivariateSpline
        q = type(r)()
        Mp = wc.Multipole
        rng = np.random.default_rng(31 * r.seed + t)
        for rep in range(reps * 20):
            w = int(rng.integers(1, 4))
            a, b, c = (tuple(int(x) for x in rng.integers(0, 13, w)) for _ in 'abc')
            if rng.random() < .4:
                b = a[:-1] + b[-1:]
            A, B_, C = Mp(a), Mp(','.join(map(str, b)) if w > 1 else b), Mp(c)
            q.case('order', (A < B_) + (A > B_) + (A == B_) == 1 and (A == B_) == (a == b) and (A <= B_) == (A < B_ or a == b) and (A >= B_) == (A > B_ or a == b) and (not (A < B_ and B_ < C) or A < C) and (a != b or hash(A) == hash(B_)), (a, b, c))
        for rep in range(reps):
            keys = [k for k in ('000', '110', '011', '202', '112', '220', '022', '1,10,11') if rng.random() < .5] or ['000']
            keys = [keys[i] for i in rng.permutation(len(keys))]
            spell = lambda k: [k, tuple(int(x) for x in Mp(k).index), tuple(str(x) for x in Mp(k).index), Mp(k)][rng.integers(4)]
            n = {k: int(rng.integers(5, 12)) for k in keys}
            lo = {k: rng.uniform(1, 5) for k in keys}
            log = bool(rng.random() < .5)
            rs = {k: (np.geomspace if log else np.linspace)(lo[k], 200, n[k]) for k in keys}
            Q = {}
            for k in keys:
                y = rng.normal(size=(n[k], n[k]))
                Q[k] = (y + y.T) / 2 if Mp(k).index[0] == Mp(k).index[1] else y
            al = rng.uniform(.1, 2)
            how = int(rng.integers(3))
            ml = [True, False, 9][rng.integers(3)]
            src = ['array'] * len(keys)
            rec = {Mp(k): (rs[k], al ** 2 * Q[k]) for k in keys}
            what = '%s from %s, %s, %s points, make_loglin=%s' % (keys, ('arrays', 'text', 'dictionary')[how], n, 'log' if log else 'linear', ml)

            def flat(k):
                m = Mp(k).index
                ij = [(i, j) for i in range(n[k]) for j in range(i if m[0] == m[1] else 0, n[k])]
                return np.array([(rs[k][i], rs[k][j]) for i, j in ij]), np.array([Q[k][i, j] for i, j in ij])

            def resampled(rec, size, deg=3, sp='lglin'):
                out = {}
                for m, (x, y) in rec.items():
                    g = (np.geomspace if sp == 'lglin' else np.linspace)(x[0], x[-1], size or len(x))
                    out[m] = (g, RectBivariateSpline(x, x, y, kx=deg, ky=deg)(g, g))
                return out
            with tempfile.TemporaryDirectory() as d:
                if how == 0:
                    sp = {k: spell(k) for k in keys}
                    w = wc.ThreePointWindow({sp[k]: flat(k)[0] for k in keys}, {sp[k]: flat(k)[1] for k in keys}, alpha_contrast=al, make_loglin=ml)
                elif how == 1:
                    paths = {}
                    for k in keys:
                        p, f = flat(k)
                        s = rng.normal(size=len(f))
                        tab = np.zeros((len(f), 10))
                        tab[:, 1], tab[:, 4], tab[:, 6], tab[:, 8] = p[:, 0], p[:, 1], f + s, s
                        paths[k] = d + '/' + k + '.txt'
                        np.savetxt(paths[k], tab, fmt='%.18e')
                    w = wc.ThreePointWindow.load_from_textfiles({spell(k): v for k, v in paths.items()}, alpha_contrast=al, make_loglin=ml)
                    src = [paths[k] for k in sorted(keys, key=lambda k: Mp(k).index[::-1][:1] + Mp(k).index[:-1])]
                else:
                    w = wc.ThreePointWindow.load_from_dict({'r': {spell(k): rs[k] for k in keys}, 'Q': {spell(k): al ** 2 * Q[k] for k in keys}})
                if how != 2 and ml is not False and not log:
                    rec = resampled(rec, None if ml is True else ml)

                def agree(w, rec, what, step, tol=1e-11):
                    ms = sorted(rec)
                    q.case('multipoles', list(w.multipoles) == ms and sorted(w.r) == ms and sorted(w.Q) == ms and sorted(w.Q_diag) == ms, '%s: %s' % (step, what))
                    for m in ms:
                        x, y = rec[m]
                        q.case('samples', m in w.r and w.r[m].shape == x.shape and np.allclose(w.r[m], x, rtol=tol) and w.Q[m].shape == y.shape and np.allclose(w.Q[m], y, rtol=1e-9, atol=1e-10)
                               and np.array_equal(w.Q_diag[m], np.diag(w.Q[m])), '%s: %s of %s' % (step, m, what))
                        if m in w.r and w.r[m].shape == x.shape:
                            rec[m] = (np.array(w.r[m]), y)
                    q.case('sources', list(w.sources) == src, '%s: %s' % (step, what))
                agree(w, rec, what, 'constructed')
                for step in range(int(rng.integers(1, 5))):
                    op = ['select', 'select', 'resample', 'file'][rng.integers(4)]
                    if op == 'select':
                        kw, keep = {}, {m: np.ones(len(x), bool) for m, (x, _) in rec.items()}
                        if rng.random() < .6:
                            ms = [m for m in rec if rng.random() < .6]
                            rr = {}
                            for m in rec:
                                x = rec[m][0]
                                a, b = sorted(rng.uniform(0, 250, 2))
                                if rng.random() < .3 and len(x):
                                    a, b = float(x[len(x) // 3]), float(x[-1])
                                rr[m] = (None if rng.random() < .3 else a, None if rng.random() < .3 else b)
                            if rng.random() < .5:
                                one = rr[list(rec)[0]]
                                kw['rrange'], rr = one, {m: one for m in rec}
                            else:
                                rr = {m: rr[m] for m in ms}
                                kw['rrange'] = {spell(','.join(map(str, m.index))): v for m, v in rr.items()}
                            for m, (a, b) in rr.items():
                                x = rec[m][0]
                                keep[m] &= np.array([(a is None or v >= a) and (b is None or v <= b) for v in x], bool)
                        if rng.random() < .6:
                            bound = lambda: [None, int(rng.integers(-14, 14))][rng.integers(2)]
                            ii = {m: (bound(), bound()) for m in rec if rng.random() < .7}
                            if rng.random() < .5:
                                one = (bound(), bound())
                                kw['idxrange'], ii = one, {m: one for m in rec}
                            else:
                                kw['idxrange'] = {spell(','.join(map(str, m.index))): v for m, v in ii.items()}
                            for m, (a, b) in ii.items():
                                sel = set(list(range(len(rec[m][0])))[a:b])
                                keep[m] &= np.array([i in sel for i in range(len(rec[m][0]))], bool)
                        new = {m: (x[keep[m]], y[np.ix_(keep[m], keep[m])]) for m, (x, y) in rec.items()}
                        if rng.random() < .5:
                            q.case('in place', w.subselect(inplace=True, **kw) is None, kw)
                            rec = new
                            agree(w, rec, '%s %s' % (what, kw), 'selected in place')
                        else:
                            v = w.subselect(**kw)
                            agree(w, rec, '%s %s' % (what, kw), 'left by a selection')
                            agree(v, new, '%s %s' % (what, kw), 'selected')
                            w, rec = v, new
                    elif op == 'resample' and all(len(x) > 4 for x, _ in rec.values()):
                        sz = [None, 8][rng.integers(2)]
                        deg, sp = int(rng.integers(1, 4)), ['lglin', 'lin'][rng.integers(2)]
                        w.resample(spacing=sp, size=sz, spline=deg)
                        rec = resampled(rec, sz, deg, sp)
                        agree(w, rec, what, 'resampled', 1e-9)
                    elif op == 'file':
                        w.save_to_file(d + '/w.npz')
                        agree(w, rec, what, 'saved')
                        w = wc.ThreePointWindow.load_from_file(d + '/w.npz')
                        agree(w, rec, what, 'loaded')
        return q
    for out in cxx.pmap(body, range(8)):
        absorb(r, out)
