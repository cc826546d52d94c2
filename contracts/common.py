"""Shared pieces of the contracts on the C++ code: program loading, the executor
set-up, assumed contracts on the libraries underneath, and small conveniences."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
sys.setrecursionlimit(20000)
from fractions import Fraction
import cxxast, prover
from cxxexec import *
from cxxrun import Run, Loc, Poison, ArrLoc
from term import *
from term import T, var, num, app, lift
from prover import Prover, Ctx

REPO = os.environ.get('VERIF_REPO', '/repo')
PI = num(Fraction('3.141592653589793'), 'R')
ZI, OI = num(0, 'I'), num(1, 'I')
ZR, OR = num(0, 'R'), num(1, 'R')

_progs = {}


def program(*tus):
    key = tuple(sorted(tus)) or ('*',)
    if key not in _progs:
        _progs[key] = cxxast.Program(list(tus) or cxxast.ALL)
    return _progs[key]


# the verified build has no GPU back end: the query is a constant
CPU = {q: (lambda s, st, th, args, e: FALSE) for q in ('is_gpu_enabled', 'trv::sys::is_gpu_enabled', 'is_gpu_single', 'trv::sys::is_gpu_single')}

CPU.update({q: (lambda s, st, th, args, e: s.new_vec('int', num(0, 'I'))) for q in ('get_gpu_ids', 'trv::sys::get_gpu_ids')})


class Machine:
    """an executor with hypotheses: pre (assumed), prover hooks live"""

    def __init__(self, tus=(), pre=(), contracts=None, timeout=1500):
        self.P = program(*tus)
        self.pre = [p for p in pre]
        self.X = Run(self.P, contracts=dict(CPU, **(contracts or {})))
        self.ctx = Ctx(self.pre, timeout)
        self._stack = []
        self._memo = {}
        X = self.X
        X.prover = self._simp
        X.refute = self._refute
        X.simpt = self._simpt

    def _sync(self):
        want = self.X.hyps
        n = 0
        while n < len(want) and n < len(self._stack) and want[n] == self._stack[n]:
            n += 1
        while len(self._stack) > n:
            self.ctx.pop()
            self._stack.pop()
        for h in want[n:]:
            self.ctx.push(and_(*h))
            self._stack.append(h)

    def _simp(self, c):
        self._sync()
        return self.ctx.simp_bool(c, 600)

    def _simpt(self, t):
        self._sync()
        return self.ctx.simp(t, 600)

    def _refute(self, c):
        self._sync()
        return self.ctx.entails(not_(c), 1500)

    def state(self, **mem):
        st = State()
        st.mem.update(mem)
        return st

    def run(self, q, st, this=None, args=(), nparams=None, sig=None):
        node = self.P.find(q, nparams, sig)
        r = self.X.call_fn(node, st, this, list(args), q)
        return r

    def never_returns(self, *a, **k):
        """run; true if the function has no normal outcome"""
        try:
            self.run(*a, **k)
        except Infeasible:
            return True
        return False

    def fnode(self, q, nparams=None, sig=None):
        return self.P.find(q, nparams, sig)

    def read(self, st, loc, *path):
        return self.X.load(st, Loc(loc[0], tuple(loc[1]) + tuple(lift(p, 'I') if isinstance(p, int) else p for p in path)))

    def throw_cond(self, frm=0):
        """condition under which the executed code throws"""
        return or_(*[t[0] for t in self.X.throws[frm:]])


def I(name): return var(name, 'I')
def R(name): return var(name, 'R')
def between(lo, x, hi): return and_(le(lift(lo, 'I'), x), lt(x, lift(hi, 'I')))
def rl(x): return toreal(lift(x, 'I'))
def rn(x): return num(Fraction(x), 'R')
def streq(a, b): return eq(a, st(b))


def merge(r, out, key='real code'):
    """take over the replay results computed in an isolated child"""
    if out[0] == 'ok':
        q = out[1]
        r.cases, r.failures, r.samples = q.cases, q.failures, q.samples
        return True
    if out[0] == 'died':
        r.case(key + ' crashed', False, 'the process running the real code died (%s)' % out[1])
    elif out[0] == 'raised':
        r.case(key + ' raised', False, 'unexpected exception from the real code: %s' % out[1])
    else:
        raise RuntimeError(out[1])
    return False


def absorb(r, out, what=''):
    """add the replay results of one isolated child to r"""
    if out[0] == 'ok':
        q = out[1]
        r.cases += q.cases
        r.failures += q.failures[:50]
        r.samples += q.samples[:max(0, 3 - len(r.samples))]
    elif out[0] == 'died':
        r.case('real code crashed', False, '%s: the process running the real code died (%s)' % (what, out[1]))
    elif out[0] == 'raised':
        r.case('real code raised', False, '%s: unexpected exception from the real code: %s' % (what, out[1]))
    else:
        raise RuntimeError(out[1])


def in_bounds(u, M, hyps=(), skip=()):
    """every subscript of the executed code stays inside its array"""
    import itertools
    n, seen = 0, set()
    for c, ix, ln, site in M.X.accesses:
        if ln is None or any(q in repr(ln) for q in skip):
            continue
        g = or_(not_(c), and_(le(ZI, ix), lt(ix, ln)))
        if g in seen:
            continue
        seen.add(g)
        # halves of products of neighbouring numbers: by parity
        vs = sorted({x for x in g.fv if any(q.op == 'idiv' and x in q.fv for q in subterms(g))}, key=lambda x: x.id)[:4]
        for par in itertools.product((0, 1), repeat=len(vs)):
            m = {x: add(scale(fresh('h', 'I'), 2), num(b, 'I')) for x, b in zip(vs, par)}
            if vs and any(q.op == 'idiv' and q.a[1] is not num(2, 'I') for q in subterms(g)):
                m = {}
            u.holds('access %d within an array of %s entries' % (n, show(ln)[:60]), subst(g, m), [subst(h, m) for h in hyps])
            if not m:
                break
        n += 1
