"""Shared pieces of the contracts on the Python code."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
sys.setrecursionlimit(20000)
from fractions import Fraction
import pysym
from pysym import *
from pysym import _lin
from term import T, var, num, app, lift
from prover import Prover, Ctx

PYTRUST = ['doubles are treated as reals, Python integers as mathematical integers; NaN and infinity do not occur',
           'NumPy is taken at its documented meaning (engine/pynp.py: indexing, views, broadcasting, elementwise functions, reductions)',
           'the current source text is executed with its loops and list comprehensions wrapped (engine/pysym.py: Rewrite); type annotations are dropped']


def I(name): return var(name, 'I')
def R(name): return var(name, 'R')
def rn(x): return num(Fraction(x), 'R')
def between(lo, x, hi): return and_(le(lift(lo, 'I'), x), lt(x, lift(hi, 'I')))


def explore(fn, pre=(), limit=400, timeout=1500):
    E = Explorer(pre, limit, timeout)
    ps = E.run(fn)
    pysym.X = E
    return E, ps


class At:
    """evaluate contract terms in the context of a finished path"""

    def __init__(s, E, p): s.E, s.p = E, p

    def __enter__(s):
        E = s.E
        pysym.X = E
        s.save = (E.ctx, E.path, E.scopes)
        E.ctx = Ctx(E.pre + s.p.conds, E.timeout)
        E.scopes, E.trace, E.prefix, E.pending = [], [], [], []
        E.path = Path()
        E.path.conds = list(s.p.conds)
        return E.pre + s.p.conds

    def __exit__(s, *a):
        s.E.ctx, s.E.path, s.E.scopes = s.save


def calls(u, name, fn, pre, post, rejects=FALSE, exc=None, limit=400, warn=None):
    """run fn on every path: raises (one of exc) exactly when `rejects`; otherwise post(value, hyps, path) states the contract"""
    E, ps = explore(fn, pre, limit)
    n = 0
    for i, p in enumerate(ps):
        tag = name + (' (path %d)' % i if len(ps) > 1 else '')
        with At(E, p) as h:
            for nm, g, hy in p.obs:
                u.holds(tag + ': ' + nm, g, hy)
            if p.out == 'end':
                n += 1
                continue
            if p.out == 'exc':
                en = type(p.exc).__name__
                if exc is not None and en not in exc:
                    u.fail(tag + ': ends normally or in %s' % (exc,), '%s: %s' % (en, p.exc), repr(p.conds)[:600])
                    continue
                u.holds(tag + ': rejected only if unusable', rejects, h)
            else:
                n += 1
                u.holds(tag + ': accepted only if usable', not_(rejects), h)
                if post is not None:
                    post(p.value, h, p, tag)
    u.true(name + ': some input is accepted', n > 0)
    return E, ps


def shape_is(u, tag, a, shape, h):
    ok = isinstance(a, Arr) and a.ndim == len(shape)
    u.true(tag + ': dimensions', ok, repr(a))
    if ok:
        for i, (d, e) in enumerate(zip(a.shape_, shape)):
            u.eq('%s: extent of axis %d' % (tag, i), d, lift(e, 'I') if isinstance(e, int) else e, h)
    return ok


def same(u, tag, got, want, h):
    """got, want: scalars"""
    got, want = lit(got), lit(want)
    if got.k == 'b' or want.k == 'b':
        g, w = cast(got, 'b').re, cast(want, 'b').re
        return u.holds(tag, or_(and_(g, w), and_(not_(g), not_(w))), h)
    if got.k == 'c' or want.k == 'c':
        return u.eq(tag + ', real part', real(got), real(want), h) & u.eq(tag + ', imaginary part', imag(got), imag(want), h)
    if got.k in 'bi' and want.k in 'bi':
        return u.eq(tag, intt(got), intt(want), h)
    return u.eq(tag, real(got), real(want), h)


def elems(u, tag, a, shape, want, h, kind=None):
    """array a has this shape and want(index terms) at every index"""
    if not shape_is(u, tag, a, shape, h):
        return False
    ix = tuple(I('ix%d' % i) for i in range(len(shape)))
    hh = h + [between(0, i, d if isinstance(d, int) else d) for i, d in zip(ix, shape)]
    ok = same(u, tag + ': entries', a.get(ix), want(*ix), hh)
    if kind:
        ok &= u.true(tag + ': number type', a.k == kind, a.k)
    return ok


def unchanged(u, tag, a, f0, h):
    """contents of an input array are those it had"""
    ix = tuple(I('ix%d' % i) for i in range(a.ndim))
    return same(u, tag, a.get(ix), f0(ix), h + [between(0, i, d) for i, d in zip(ix, a.shape_)])
