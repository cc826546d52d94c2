"""Symbolic execution of clang ASTs of the real C++ code, with exact loop summaries.

Merge-based: each function yields one final state in which every location is a
term over the inputs.  Loops are replaced by closed forms (induction variables,
SUM / MAX / EXISTS folds, quantified array writes); a loop whose effect has no
such form raises Unsupported, never an approximation.
"""
import re
from term import *
from term import _lin, _mklin, _mono, _mkmono
import term as tm


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- values
class Cx:
    __slots__ = ('re', 'im')

    def __init__(s, re, im=None):
        s.re = toreal(lift(re, 'R'))
        s.im = toreal(lift(im, 'R')) if im is not None else num(0, 'R')

    def __repr__(s): return 'Cx(%r, %r)' % (s.re, s.im)
    def __add__(s, o): o = cx(o); return Cx(add(s.re, o.re), add(s.im, o.im))
    __radd__ = __add__
    def __sub__(s, o): o = cx(o); return Cx(sub(s.re, o.re), sub(s.im, o.im))
    def __rsub__(s, o): return cx(o) - s

    def __mul__(s, o):
        o = cx(o)
        return Cx(sub(mul(s.re, o.re), mul(s.im, o.im)), add(mul(s.re, o.im), mul(s.im, o.re)))
    __rmul__ = __mul__

    def __truediv__(s, o):
        o = cx(o)
        if o.im is num(0, 'R'):
            return Cx(div(s.re, o.re), div(s.im, o.re))
        n = add(mul(o.re, o.re), mul(o.im, o.im))
        r = s * o.conj()
        return Cx(div(r.re, n), div(r.im, n))
    def __rtruediv__(s, o): return cx(o) / s
    def __neg__(s): return Cx(neg(s.re), neg(s.im))
    def conj(s): return Cx(s.re, neg(s.im))


def cx(v):
    if isinstance(v, Cx):
        return v
    return Cx(lift(v, 'R'))


def vsub(v, m):
    if isinstance(v, T):
        return subst(v, m)
    if isinstance(v, Cx):
        return Cx(subst(v.re, m), subst(v.im, m))
    if isinstance(v, FixArr):
        return FixArr([vsub(x, m) for x in v.e])
    if isinstance(v, Obj):
        return Obj(v.cls, v.name, {k: vsub(x, m) for k, x in v.f.items()}, v.ex)
    if isinstance(v, SArr):
        return SubstSArr(v, m)
    if isinstance(v, Ptr):
        return Ptr(v.root, tuple(subst(p, m) if isinstance(p, T) else p for p in v.path), subst(v.idx, m) if v.idx is not None else None)
    return v


def vite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, (Cx,)) or isinstance(b, Cx):
        a, b = cx(a), cx(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, T) and isinstance(b, T):
        return ite(c, a, b)
    if isinstance(a, FixArr) and isinstance(b, FixArr):
        return FixArr([vite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Obj) and isinstance(b, Obj):
        ks = set(a.f) | set(b.f)
        return Obj(a.cls, a.name, {k: vite(c, a.get(k), b.get(k)) for k in ks}, a.ex)
    if isinstance(a, SArr) and isinstance(b, SArr):
        return merge_sarr(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.path == b.path:
        if a.idx is b.idx:
            return a
        return Ptr(a.root, a.path, ite(c, a.idx, b.idx))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return PtrIte(c, a, b)
    if isinstance(a, (Uninit, type(None))):
        return b
    if isinstance(b, (Uninit, type(None))):
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a if a.tag == b.tag else Opaque(('ite', c, a.tag, b.tag))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque('mixed')
    if type(a) is type(b) and isinstance(a, Clo):
        return CloIte(c, a, b)
    if isinstance(a, PtrIte) or isinstance(b, PtrIte):
        return PtrIte(c, a, b)
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


class Uninit:
    def __repr__(s): return 'Uninit'


class Opaque:
    def __init__(s, tag): s.tag = tag
    def __repr__(s): return 'Opaque(%s)' % (s.tag,)


class Clo:
    def __init__(s, node, env): s.node, s.env = node, env


class CloIte:
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b


class FnRef:
    def __init__(s, q, node): s.q, s.node = q, node


class PtrIte:
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b


class FixArr:
    __slots__ = ('e',)

    def __init__(s, e): s.e = e
    def __repr__(s): return 'Fix%r' % (s.e,)


class Obj:
    __slots__ = ('cls', 'name', 'f', 'ex')

    def __init__(s, cls, name, f, ex):
        s.cls, s.name, s.f, s.ex = cls, name, f, ex

    def get(s, k):
        v = s.f.get(k)
        if v is None:
            v = s.ex.sym(s.ex.field_type(s.cls, k), s.name + '.' + k)
            s.f[k] = v
        return v

    def set(s, k, v):
        f = dict(s.f)
        f[k] = v
        return Obj(s.cls, s.name, f, s.ex)

    def __repr__(s): return 'Obj(%s %s %r)' % (s.cls, s.name, s.f)


class Ptr:
    __slots__ = ('root', 'path', 'idx')

    def __init__(s, root, path=(), idx=None):
        s.root, s.path, s.idx = root, path, idx

    def __repr__(s): return 'Ptr(%s,%s,%s)' % (s.root, s.path, s.idx)
    def loc(s): return (s.root, s.path + ((s.idx,) if s.idx is not None else ()))


NULL = Ptr('NULL')


class W:
    """one (quantified) array write"""
    __slots__ = ('path', 'val', 'guard', 'binders', 'mode', 'site')

    def __init__(s, path, val, guard=TRUE, binders=(), mode='set', site=None):
        s.path, s.val, s.guard, s.binders, s.mode, s.site = path, val, guard, binders, mode, site

    def guarded(s, c):
        return W(s.path, s.val, and_(s.guard, c), s.binders, s.mode, s.site)

    def sub(s, m):
        if not m:
            return s
        return W(tuple(subst(p, m) if isinstance(p, T) else p for p in s.path), vsub(s.val, m), subst(s.guard, m),
                 tuple((v, subst(lo, m), subst(hi, m)) for v, lo, hi in s.binders), s.mode, s.site)

    def __repr__(s):
        return 'W[%s %s %s := %r | %r]' % (s.mode, [(b[0], b[1], b[2]) for b in s.binders], s.path, s.val, s.guard)


_arrn = [0]


class SArr:
    __slots__ = ('base', 'writes', 'et', 'ln', 'ex')

    def __init__(s, base, writes, et, ln, ex):
        s.base, s.writes, s.et, s.ln, s.ex = base, writes, et, ln, ex

    def __repr__(s):
        return 'SArr(%s, %d writes, len %r)' % (s.base, len(s.writes), s.ln)

    def with_write(s, w):
        return SArr(s.base, s.writes + (w,), s.et, s.ln, s.ex)

    def with_len(s, ln):
        return SArr(s.base, s.writes, s.et, ln, s.ex)

    def read(s, path, typ=None):
        ex = s.ex
        t = ex.path_type(s.et, path[1:])
        k = ex.kind(t)
        if k == 'obj':
            cls = ex.cls(t)
            return Obj(cls, '?', {f: s.read(path + (f,)) for f, _, _ in ex.prog.records[cls]}, ex)
        if k == 'fix':
            n, et = ex.fix(t)
            return FixArr([s.read(path + (num(i, 'I'),)) for i in range(n)])
        if k == 'vec':
            return SArr(('view', s, path), (), ex.elem(t), s.leaf(path + ('#len',), 'I'), ex)
        return s.leaf(path, k)

    def leaf(s, path, k):
        return s._leaf(len(s.writes), path, k)

    def _leaf(s, n, path, k):
        for i in range(n - 1, -1, -1):
            w = s.writes[i]
            if w.mode == 'sub':
                np = len(w.path)
                if len(path) < np:
                    continue
                m = s.ex.match(w, path[:np])
                if m is None:
                    continue
                c, w2, rest = m
                if rest:
                    raise Unsupported('quantified vector assignment overlaps')
                sa = w2.val
                if path[np] == '#len':
                    v = sa.ln
                else:
                    v = sa.read(path[np:])
                if c is TRUE:
                    return v
                return vite(c, v, s._leaf(i, path, k))
            if len(w.path) != len(path):
                continue
            m = s.ex.match(w, path)
            if m is None:
                continue
            c, w2, rest = m
            if w.mode == 'acc':
                v = vmap(lambda x: ite(c, x, num(0, x.s)), w2.val)
                for b, lo, hi in rest:
                    v = vmap(lambda x: sum_(b, lo, hi, x), v)
                return vadd(s._leaf(i, path, k), v)
            if rest:
                # several iterations hit the same location: last one wins
                v, c = s.ex.last_write(w2, c, rest)
            else:
                v = w2.val
            if c is TRUE:
                return v
            return vite(c, v, s._leaf(i, path, k))
        return s.base_read(path, k)

    def base_read(s, path, k):
        b = s.base
        if b[0] == 'sym':
            return s.ex.sym_leaf(b[1], path, k)
        if b[0] == 'const':
            return b[1] if path[-1] != '#len' else num(0, 'I')
        if b[0] == 'view':
            return b[1].read(b[2] + path) if path[-1] != '#len' else b[1].leaf(b[2] + path, 'I')
        if b[0] == 'ite':
            return vite(b[1], b[2].leaf(path, k), b[3].leaf(path, k))
        if b[0] == 'fn':
            return b[1](path, k)
        if b[0] == 'uninit':
            return s.ex.sym_leaf('uninit%s' % b[1], path, k)
        raise Unsupported('array base %s' % b[0])


def SubstSArr(a, m):
    b = a.base
    if b[0] == 'const':
        base = ('const', vsub(b[1], m))
    elif b[0] in ('sym', 'uninit'):
        base = b
    else:
        def rd(path, k, a0=SArr(a.base, (), a.et, a.ln, a.ex)):
            # substitute in the value; path terms are protected by renaming
            prot = {}
            p2 = []
            for p in path:
                if isinstance(p, T) and p.fv:
                    q = fresh('prot', p.s)
                    prot[q] = p
                    p2.append(q)
                else:
                    p2.append(p)
            v = a0.leaf(tuple(p2), k)
            return vsub(vsub(v, m), prot)
        base = ('fn', rd)
    return SArr(base, tuple(w.sub(m) for w in a.writes), a.et, subst(a.ln, m) if a.ln is not None else None, a.ex)


def vmap(f, v):
    if isinstance(v, Cx):
        return Cx(f(v.re), f(v.im))
    return f(v)


def vadd(a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return cx(a) + cx(b)
    return add(a, b)


def merge_sarr(c, a, b):
    if a is b:
        return a
    ln = a.ln if a.ln is b.ln else ite(c, a.ln, b.ln)
    if a.base is b.base or a.base == b.base:
        n = 0
        wa, wb = a.writes, b.writes
        while n < len(wa) and n < len(wb) and wa[n] is wb[n]:
            n += 1
        ra = tuple(w.guarded(c) for w in wa[n:])
        rb = tuple(w.guarded(not_(c)) for w in wb[n:])
        return SArr(a.base, wa[:n] + ra + rb, a.et, ln, a.ex)
    return SArr(('ite', c, a, b), (), a.et, ln, a.ex)


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('mem', 'pc')

    def __init__(s, mem=None, pc=()):
        s.mem = mem if mem is not None else {}
        s.pc = pc

    def fork(s, c=None):
        return State(dict(s.mem), s.pc + ((c,) if c is not None else ()))

    def cond(s):
        return and_(*s.pc)


NAMED = {}         # name -> (parameters, definition)


def unfold(t, depth=40):
    """expand the names introduced by the executor"""
    for _ in range(depth):
        m = {}
        for u in subterms(t):
            if u.op == 'app' and u.a[0] in NAMED:
                ps, body = NAMED[u.a[0]]
                m[u] = subst(body, dict(zip(ps, u.a[1:])))
        if not m:
            return t
        t = subst(t, m)
    return t


PRISTINE = {}      # ('sym', name, element type) -> untouched symbolic memory


def merge_states(a, b, base_pc=None):
    """merge two states with exclusive path conditions"""
    if a is None:
        return b
    if b is None:
        return a
    n = 0
    while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
        n += 1
    ca, cb = and_(*a.pc[n:]), and_(*b.pc[n:])
    if ca is FALSE:
        return b
    if cb is FALSE:
        return a
    mem = {}
    for r in a.mem:
        if r in b.mem:
            va, vb = a.mem[r], b.mem[r]
            mem[r] = va if va is vb else vite(ca, va, vb)
        elif isinstance(r, tuple) and r[0] == 'heap':
            mem[r] = a.mem[r]
        elif r in PRISTINE:         # memory first touched on one side only
            mem[r] = a.mem[r] if a.mem[r] is PRISTINE[r] else vite(ca, a.mem[r], PRISTINE[r])
    for r in b.mem:
        if r not in mem and isinstance(r, tuple) and r[0] == 'heap':
            mem[r] = b.mem[r]
        elif r not in mem and r in PRISTINE:
            mem[r] = b.mem[r] if b.mem[r] is PRISTINE[r] else vite(ca, PRISTINE[r], b.mem[r])
    rest = or_(ca, cb)
    return State(mem, a.pc[:n] + ((rest,) if rest is not TRUE else ()))


# ---------------------------------------------------------------- types
SCAL = {'double': 'R', 'float': 'R', 'long double': 'R', 'int': 'I', 'long': 'I', 'long long': 'I', 'unsigned int': 'I',
        'unsigned long': 'I', 'unsigned long long': 'I', 'size_t': 'I', 'std::size_t': 'I', 'bool': 'B', 'char': 'I',
        'unsigned char': 'I', 'short': 'I', 'std::string': 'S', 'string': 'S', 'fftw_real': 'R', 'unsigned': 'I',
        'std::vector::size_type': 'I', 'ptrdiff_t': 'I', 'std::basic_string<char>': 'S', 'basic_string<char>': 'S', 'basic_string': 'S',
        'std::__cxx11::basic_string<char>': 'S', 'uint64_t': 'I', 'int64_t': 'I', 'std::ptrdiff_t': 'I'}


def norm_type(t):
    t = re.sub(r'\b(const|volatile|struct|class|enum|static|mutable)\b', '', t)
    t = re.sub(r'\s+', ' ', t).strip()
    t = t.replace('trvm::', 'trv::maths::').replace('trvs::', 'trv::sys::').replace('trva::', 'trv::array::')
    t = t.replace('__restrict', '').strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    t = re.sub(r'vector<(.*), std::allocator<.*> ?>$', r'vector<\1>', t)
    return t


class Exec:
    def __init__(s, prog, contracts=None, ignore=(), opaque_classes=()):
        s.prog = prog
        s.contracts = contracts or {}
        s.ignore = list(ignore)
        s.frame = 0
        s.throws = []        # (cond, site)
        s.layouts = {}       # established row-by-row index layouts
        s.accesses = []      # (cond, idx, len, site)
        s.record = True
        s.calls = []         # log of contract calls
        s.loops = []         # summary log
        s.binders_ctx = []
        s.heapn = 0
        s.fnames = set()
        s.hyps = []
        s.unroll = 64
        s.depth = 0
        s.opaque_classes = set(opaque_classes)
        s.nfun = 0
        s.aliases = {}

    # ---- types
    def kind(s, t):
        t = norm_type(t)
        if t in SCAL:
            return SCAL[t]
        if re.match(r'(std::)?complex<double>$', t) or t == 'std::complex<double>':
            return 'C'
        if t.endswith('*') or t.startswith('std::unique_ptr') or t.startswith('std::shared_ptr'):
            return 'ptr'
        if re.search(r'\[\d+\]$', t) or t == 'fftw_complex':
            return 'fix'
        if re.match(r'(std::)?(vector|deque)<', t):
            return 'vec'
        if re.search(r'\[.*\]$', t):
            return 'vla'
        if s.cls(t) is not None:
            return 'obj'
        if t.startswith('std::initializer_list') or t.startswith('initializer_list'):
            return 'vec'
        m = re.match(r'(std::)?array<(.*), ?(\d+)>$', t)
        if m:
            return 'fix'
        if '__gnu_cxx::__alloc_traits' in t or 'value_type' in t:
            return 'R'
        return 'opaque:' + t

    def cls(s, t):
        t = norm_type(t)
        for c in (t, 'trv::' + t, 'trv::maths::' + t, 'trv::sys::' + t):
            if c in s.prog.records and s.prog.records[c]:
                return c
        for c in s.prog.records:
            if c.endswith('::' + t) and s.prog.records[c]:
                return c
        return None

    def fix(s, t):
        t = norm_type(t)
        if t == 'fftw_complex':
            return 2, 'double'
        m = re.match(r'(std::)?array<(.*), ?(\d+)>$', t)
        if m:
            return int(m.group(3)), m.group(2)
        m = re.match(r'([^\[]*)\[(\d+)\](.*)$', t)
        return int(m.group(2)), (m.group(1).strip() + m.group(3)).strip()

    def elem(s, t):
        t = norm_type(t)
        if t.endswith('*'):
            return t[:-1].strip()
        m = re.match(r'(?:std::)?(?:vector|deque|initializer_list|unique_ptr|shared_ptr)<(.*)>$', t)
        if m:
            return m.group(1).strip()
        m = re.match(r'([^\[]*)\[[^\]]*\](.*)$', t)
        if m:
            return (m.group(1).strip() + m.group(2)).strip()
        raise Unsupported('element type of ' + t)

    def field_type(s, cls, f):
        for n, t, _ in s.prog.records.get(cls, []):
            if n == f:
                return t
        raise Unsupported('field %s.%s' % (cls, f))

    def path_type(s, t, path):
        for p in path:
            k = s.kind(t)
            if p == '#len':
                return 'int'
            if isinstance(p, str):
                if k == 'C':
                    return 'double'
                t = s.field_type(s.cls(t), p)
            elif k == 'fix':
                t = s.fix(t)[1]
            else:
                t = s.elem(t)
        return t

    # ---- symbolic inputs
    def sym(s, t, name):
        k = s.kind(t)
        if k in ('I', 'R', 'B', 'S'):
            return var(name, k)
        if k == 'C':
            return Cx(var(name + '.re', 'R'), var(name + '.im', 'R'))
        if k == 'fix':
            n, et = s.fix(t)
            return FixArr([s.sym(et, '%s[%d]' % (name, i)) for i in range(n)])
        if k == 'vec':
            return SArr(('sym', name), (), s.elem(t), var(name + '#len', 'I'), s)
        if k == 'ptr':
            et = s.elem(t)
            return Ptr(('sym', name + '*', et), (), num(0, 'I'))
        if k == 'obj':
            return Obj(s.cls(t), name, {}, s)
        return Opaque(name)

    def sym_leaf(s, name, path, k):
        nm = name + ''.join('.' + p if isinstance(p, str) else ('[%d]' % p.a[0] if i > 0 and p.op == 'num' and False else '[]') for i, p in enumerate(path))
        args = tuple(p for p in path if isinstance(p, T))
        if k == 'C':
            return Cx(app(nm + '.re', args, 'R'), app(nm + '.im', args, 'R'))
        if k in ('I', 'R', 'B', 'S'):
            s.fnames.add(nm)
            return app(nm, args, k)
        if k == 'ptr':
            raise Unsupported('array of pointers')
        raise Unsupported('symbolic leaf of kind %s' % k)

    # ---- memory
    def getroot(s, st, root):
        v = st.mem.get(root)
        if v is None:
            if isinstance(root, tuple) and root[0] == 'sym':
                et = root[2]
                v = PRISTINE.get(root)
                if v is None:
                    v = PRISTINE[root] = SArr(('sym', root[1]), (), et, var(root[1] + '#len', 'I'), s)
                st.mem[root] = v
            else:
                raise Unsupported('unknown location %r' % (root,))
        return v

    def load(s, st, loc):
        root, path = loc
        if root == 'rv':
            v = path[0]
            return s.walk(v, path[1:], st)
        return s.walk(s.getroot(st, root), path, st)

    def walk(s, v, path, st=None):
        for i, p in enumerate(path):
            if isinstance(v, Obj):
                v = v.get(p)
            elif isinstance(v, FixArr):
                if p.op == 'num':
                    if not (0 <= p.a[0] < len(v.e)):
                        if s.record and st is not None:
                            s.access(st, p, num(len(v.e), 'I'))
                        return Uninit()
                    v = v.e[p.a[0]]
                else:
                    if s.record and st is not None:
                        s.access(st, p, num(len(v.e), 'I'))
                    r = v.e[-1]
                    r = s.walk(r, path[i + 1:], st)
                    for j in range(len(v.e) - 2, -1, -1):
                        r = vite(eq(p, num(j, 'I')), s.walk(v.e[j], path[i + 1:], st), r)
                    return r
            elif isinstance(v, SArr):
                if s.record and st is not None and isinstance(p, T) and v.ln is not None:
                    s.access(st, p, v.ln)
                return v.read(tuple(path[i:]))
            elif isinstance(v, Cx):
                v = {'re': v.re, 'im': v.im}[p] if isinstance(p, str) else (v.re if p.a[0] == 0 else v.im)
            elif isinstance(v, T) and isinstance(p, T) and p.op == 'num' and p.a[0] == 0:
                pass
            elif isinstance(v, Ptr):
                if st is None:
                    raise Unsupported('pointer walk')
                if isinstance(p, T):
                    v = s.load(st, (v.root, v.path + ((add(v.idx, p),) if v.idx is not None else ())))
                else:
                    v = s.load(st, (v.root, v.path + ((v.idx,) if v.idx is not None else ()) + (p,)))
            elif isinstance(v, Uninit):
                return v
            else:
                raise Unsupported('walk %s into %s' % (p, type(v).__name__))
        return v

    def access(s, st, idx, ln):
        s.accesses.append((st.cond(), idx, ln, s.site))

    site = None

    # naming of intermediate results (static single assignment with ghost definitions):
    # a big term stored in a local becomes an opaque application of its own free
    # variables; `unfold` gives the definition back.  Off unless a contract asks for it.
    naming = False
    names = {}

    def name_term(s, t):
        if t.s not in 'IR' or t.op in ('num', 'var', 'app', 'bv'):
            return t
        sub_ = subterms(t)
        if not any(u.op in ('ite', 'trunc') or (t.s == 'R' and u.op == 'app' and u.a[0] in NAMED) for u in sub_):
            return t
        if any(u.op == 'app' and isinstance(u.a[0], str) and u.a[0].startswith('@a') for u in sub_):
            return t
        if any(u.op == 'bv' for u in sub_):
            return t
        fv = tuple(sorted(t.fv, key=lambda v: v.id))
        fv = tuple(v for v in fv if '!' in str(v.a[0]) or str(v.a[0]).startswith('@'))
        k = (t, fv)
        nm = s.names.get(k)
        if nm is None:
            nm = s.names[k] = 'def%d' % len(s.names)
            NAMED[nm] = (fv, t)
        return app(nm, fv, t.s)

    def store(s, st, loc, val):
        root, path = loc
        if root == 'rv':
            return
        if s.naming and isinstance(val, T) and isinstance(root, tuple) and root[0] == 'loc':
            val = s.name_term(val)
        if not path:
            st.mem[root] = val
            return
        st.mem[root] = s.upd(s.getroot(st, root), path, val, st)

    def upd(s, v, path, val, st):
        if not path:
            return val
        p = path[0]
        if isinstance(v, Obj):
            return v.set(p, s.upd(v.get(p) if len(path) > 1 else None, path[1:], val, st))
        if isinstance(v, FixArr):
            e = list(v.e)
            if p.op == 'num':
                if not (0 <= p.a[0] < len(e)):
                    if s.record:
                        s.access(st, p, num(len(e), 'I'))
                    return v
                e[p.a[0]] = s.upd(e[p.a[0]], path[1:], val, st)
            else:
                if s.record:
                    s.access(st, p, num(len(e), 'I'))
                for j in range(len(e)):
                    e[j] = vite(eq(p, num(j, 'I')), s.upd(e[j], path[1:], val, st), e[j])
            return FixArr(e)
        if isinstance(v, Cx):
            key = p if isinstance(p, str) else ('re' if p.a[0] == 0 else 'im')
            return Cx(val, v.im) if key == 're' else Cx(v.re, val)
        if isinstance(v, SArr):
            if s.record and isinstance(p, T) and v.ln is not None:
                s.access(st, p, v.ln)
            return s.sarr_store(v, tuple(path), val)
        if isinstance(v, T) and isinstance(p, T) and p.op == 'num' and p.a[0] == 0:
            return val
        if isinstance(v, Uninit):
            if isinstance(p, T):
                raise Unsupported('store into uninitialised aggregate')
        raise Unsupported('store %s into %s' % (path, type(v).__name__))

    def sarr_store(s, v, path, val):
        t = s.path_type(v.et, path[1:])
        k = s.kind(t)
        if isinstance(val, Obj):
            for f, _, _ in s.prog.records[val.cls]:
                v = s.sarr_store(v, path + (f,), val.get(f))
            return v
        if isinstance(val, FixArr):
            for i, x in enumerate(val.e):
                v = s.sarr_store(v, path + (num(i, 'I'),), x)
            return v
        if isinstance(val, SArr):
            return v.with_write(W(path, val, mode='sub', site=s.site))
        if k == 'C':
            val = cx(val)
        elif k == 'R':
            val = toreal(val) if isinstance(val, T) else val
        if isinstance(path[-1], str) and path[-1] in ('re', 'im') and isinstance(val, T):
            old = v.read(path[:-1])
            val = Cx(val, old.im) if path[-1] == 're' else Cx(old.re, val)
            path = path[:-1]
        return v.with_write(W(path, val, site=s.site))

    # ---- matching of quantified writes against a read path
    def match(s, w, path):
        """-> (cond, w substituted, remaining binders) or None when certainly different"""
        eqs = []
        for a, b in zip(w.path, path):
            if isinstance(a, str) or isinstance(b, str):
                if not (isinstance(a, str) and isinstance(b, str) and a == b):
                    return None
                continue
            if a is b:
                continue
            eqs.append((a, b))
        # a binder that occurs literally in both would be confused: freshen
        if w.binders:
            fv = frozenset().union(*[p.fv for p in path if isinstance(p, T)]) if path else frozenset()
            if any(b[0] in fv for b in w.binders):
                m = {b[0]: fresh('w', 'I') for b in w.binders}
                w2 = W(tuple(subst(p, m) if isinstance(p, T) else p for p in w.path), vsub(w.val, m), subst(w.guard, m),
                       tuple((m[b], subst(lo, m), subst(hi, m)) for b, lo, hi in w.binders), w.mode, w.site)
                return s.match(w2, path)
        cond = w.guard
        binders = list(w.binders)
        sol = {}
        eqs = [(a, b) for a, b in eqs]
        inside = set()    # binders whose range the solution already implies
        progress = True
        while progress and eqs:
            progress = False
            for q in list(eqs):
                a, b = subst(q[0], sol), subst(q[1], sol)
                bs = [x for x in binders if x[0] not in sol and x[0] in a.fv]
                if not bs:
                    continue
                r = s.solve(a, b, bs, binders)
                if r is not None:
                    m, extra = r[:2]
                    if len(r) > 2:
                        inside.update(m)
                    sol = {k: subst(v, m) for k, v in sol.items()}
                    sol.update(m)
                    eqs.remove(q)
                    for e in extra:
                        cond = and_(cond, e)
                    progress = True
        for a, b in eqs:
            cond = and_(cond, eq(subst(a, sol), subst(b, sol)))
        # close the solution
        for _ in range(len(sol)):
            sol = {k: subst(v, sol) for k, v in sol.items()}
        rest = []
        for v, lo, hi in binders:
            if v in sol:
                x = sol[v]
                if v in inside:
                    continue
                cond = and_(cond, le(subst(lo, sol), x), lt(x, subst(hi, sol)))
            else:
                rest.append((v, subst(lo, sol), subst(hi, sol)))
        cond = subst(cond, sol)
        cond = s.simp(cond)
        if cond is FALSE:
            return None
        return cond, (w.sub(sol) if sol else w), rest

    def simp(s, c):
        """simplify a condition with the current hypotheses (ranges of live binders)"""
        if c.op == 'bool' or not s.prover:
            return c
        return s.prover(c)

    prover = None

    def solve(s, a, b, bs, allb):
        """solve a(bs) == b"""
        d = sub(a, b)
        c0, dd = _lin(d)
        # single binder, linear unit coefficient
        if len(bs) == 1:
            v = bs[0][0]
            if dd.get(v) in (1, -1) and not any(v in t.fv for t in dd if t is not v):
                k = dd.pop(v)
                e = _mklin(c0, dd, 'I')
                return {v: neg(e) if k == 1 else e}, []
            r = s.on_layout(a, b, *bs[0])
            if r is not None:
                return r
            x = s.unify(a, b, v)
            if x is not None:
                return {v: x}, []
        # mixed radix
        r = s.mixed_radix(a, b, bs)
        if r is not None:
            return r
        r = s.tiling(a, b, bs)
        if r is not None:
            return r
        # structural unification on several binders
        m = s.unify_multi(a, b, [x[0] for x in bs])
        if m is not None:
            return m
        # linear in one unit binder, others remain free
        for v, lo, hi in bs:
            if dd.get(v) in (1, -1) and not any(v in t.fv for t in dd if t is not v):
                rest = dict(dd)
                k = rest.pop(v)
                e = _mklin(c0, rest, 'I')
                return {v: neg(e) if k == 1 else e}, []
        return None

    def unify(s, a, b, v):
        """find x with a[v:=x] is b"""
        cand = set()

        def go(p, q, d=0):
            if d > 12 or v not in p.fv:
                return
            if p is v:
                if q.s == 'I':
                    cand.add(q)
                return
            if p.op == 'lin' and q.op == 'lin':
                pd = {t: k for t, k in p.a[1] if v in t.fv}
                for t, k in pd.items():
                    for t2, k2 in q.a[1]:
                        if k2 == k:
                            go(t, t2, d + 1)
                    if t is v:
                        rest = _mklin(p.a[0], {x: y for x, y in p.a[1] if x is not v}, p.s)
                        if v not in rest.fv:
                            e = sub(q, rest)
                            if k in (1, -1):
                                cand.add(scale(e, k))
                return
            if p.op == q.op and p.op != 'num':
                for x, y in zip(children(p), children(q)):
                    go(x, y, d + 1)
        go(a, b)
        for x in cand:
            if subst(a, {v: x}) is b:
                return x
        return None

    injective = ()    # index functions declared (and separately proved) injective

    def unify_multi(s, a, b, vs):
        cands = {v: set() for v in vs}

        def go(p, q, d=0):
            if d > 12:
                return
            if p in cands and q.s == 'I':
                cands[p].add(q)
                return
            if not (p.fv & set(vs)):
                return
            if p.op == 'lin' and q.op == 'lin':
                for t, k in p.a[1]:
                    if not (t.fv & set(vs)):
                        continue
                    for t2, k2 in q.a[1]:
                        if k2 == k:
                            go(t, t2, d + 1)
                return
            if p.op == 'lin' and p.a[0] == 0 and False:
                return
            if p.op == 'mono' and q.op == 'mono':
                for t, e in p.a:
                    for t2, e2 in q.a:
                        if e == e2:
                            go(t, t2, d + 1)
                return
            if p.op == q.op and p.op != 'num':
                for x, y in zip(children(p), children(q)):
                    go(x, y, d + 1)
        go(a, b)
        import itertools
        lists = [sorted(cands[v], key=lambda t: t.id)[:8] for v in vs]
        if any(not l for l in lists):
            return None
        for combo in itertools.product(*lists):
            m = dict(zip(vs, combo))
            if subst(a, m) is b:
                if s.inj_ok(a, vs):
                    return m, []
        return None

    def inj_ok(s, a, vs):
        raise Unsupported('index injectivity not established: %s' % show(a))

    def mixed_radix(s, a, b, bs):
        c0, da = _lin(a)
        coefs = {}
        rest = {}
        vs = [x[0] for x in bs]
        for t, k in da.items():
            m = _mono(t)
            hit = [v for v in vs if v in t.fv]
            if not hit:
                rest[t] = k
                continue
            if len(hit) > 1 or m.get(hit[0]) != 1:
                return None
            v = hit[0]
            m2 = dict(m)
            del m2[v]
            co = scale(_mkmono(m2, 'I'), k)
            if any(v2 in co.fv for v2 in vs):
                return None
            coefs[v] = add(coefs.get(v, num(0, 'I')), co)
        if len(coefs) != len(vs):
            return None
        off = _mklin(c0, rest, 'I')
        tgt = sub(b, off)
        # order by stride: stride(v0)=1, stride(v_{k+1}) = stride(v_k)*size(v_k)
        size = {v: sub(hi, lo) for v, lo, hi in bs}
        los = {v: lo for v, lo, hi in bs}
        for v in vs:
            tgt = sub(tgt, mul(coefs[v], los[v]))
        order = []
        cur = num(1, 'I')
        left = set(vs)
        while left:
            nx = [v for v in left if coefs[v] is cur]
            if not nx:
                return None
            v = nx[0]
            order.append(v)
            left.discard(v)
            cur = mul(coefs[v], size[v])
        # decompose the target by strides, largest first
        parts = {}
        remaining = tgt
        for v in reversed(order[1:]):
            q, remaining = s.poly_div(remaining, coefs[v])
            parts[v] = q
        parts[order[0]] = remaining
        m = {v: add(parts[v], los[v]) for v in vs}
        # exactness: digits of the target must be in range for uniqueness of the
        # decomposition; the caller adds lo <= x < hi conditions.  If a digit is
        # not provably in range, the candidate could miss the true preimage.
        extra = []
        ok = all(s.provable(and_(le(num(0, 'I'), parts[v]), lt(parts[v], size[v]))) for v in order[:-1])
        if ok:
            return m, extra
        # general target: quotient/remainder form (target >= 0)
        m = {}
        cur = tgt
        for v in order[:-1]:
            m[v] = add(imod(cur, size[v]), los[v])
            cur = idiv(cur, size[v])
        m[order[-1]] = add(cur, los[order[-1]])
        return m, [le(num(0, 'I'), tgt)]

    def tiling(s, a, b, bs):
        """an index j + f(i) over a region {i0 <= i < i1, L(i) <= j < U(i)} whose rows follow one
        another without gap or overlap is a bijection onto its range: the preimage of b is then
        unique, and named by the functions tile_row, tile_col of the layout"""
        if len(bs) != 2:
            return None
        for (j, jlo, jhi), (i, ilo, ihi) in (bs, bs[::-1]):
            _, d = _lin(a)
            if d.get(j) != 1 or any(j in t.fv for t in d if t is not j):
                continue
            if i in jlo.fv or i in jhi.fv or j not in ilo.fv | ihi.fv:
                if j in ilo.fv or j in ihi.fv:
                    continue
                L, U, i0, i1 = jlo, jhi, ilo, ihi
            else:
                # the range of i depends on j: turn it round
                if ilo.fv & {j} or j not in ihi.fv or sub(ihi, j).fv & {j}:
                    continue
                L, U, i0, i1 = sub(add(i, num(1, 'I')), sub(ihi, j)), jhi, ilo, add(jhi, sub(sub(ihi, j), num(1, 'I')))
                # i < j + k  <=>  j >= i - k + 1; rows i0 .. jhi + k - 1; j >= jlo must follow
                z = fresh('z', 'I')
                if not s.certain(or_(lt(z, i0), le(jlo, subst(L, {i: z})))):
                    continue
            start = subst(a, {j: L})
            z = fresh('z', 'I')
            par = [scale(z, 2), add(scale(z, 2), num(1, 'I'))]
            if not all(sub(sub(subst(start, {i: add(p, num(1, 'I'))}), subst(start, {i: p})), subst(sub(U, L), {i: p})) is num(0, 'I') for p in par):
                continue
            if not s.certain(or_(lt(z, i0), le(i1, z), le(subst(L, {i: z}), subst(U, {i: z})))):
                continue
            ps = tuple(sorted((start.fv | L.fv | U.fv | i0.fv | i1.fv) - {i, j}, key=lambda v: v.id))
            key = 'tile' + repr((subst(start, {i: var('#i', 'I')}), subst(L, {i: var('#i', 'I')}), subst(U, {i: var('#i', 'I')}), i0, i1))
            lay = s.layouts[key] = (ps, a, i, j, start, L, U, i0, i1)
            r, q, inside = s.preimage(lay, key, b)
            return {i: r, j: q}, inside, True
        return None



    def preimage(s, lay, key, b):
        """row and column of the entry b of an established layout, and the condition that b is inside"""
        ps, a, i, j, start, L, U, i0, i1 = lay
        m = s.same_form(a, b, i, j)
        if m is not None:
            w = {i: m[0], j: m[1]}
            if s.certain(and_(le(i0, m[0]), lt(m[0], i1), le(subst(L, w), m[1]), lt(m[1], subst(U, w)))):
                return m[0], m[1], []
        x = [app(q + key, (b,) + ps, 'I') for q in ('row:', 'col:')]
        return x[0], x[1], [le(subst(start, {i: i0}), b), lt(b, subst(start, {i: i1}))]

    def settle(s, t):
        """row and column of entries whose index became of the form of the layout"""
        m = {}
        for x in subterms(t):
            if x.op == 'app' and str(x.a[0]).startswith(('row:tile', 'col:tile')):
                lay = s.layouts.get(x.a[0][4:])
                if lay is not None:
                    r = s.preimage(lay, x.a[0][4:], x.a[1])
                    y = r[x.a[0].startswith('col:')]
                    if y is not x:
                        m[x] = y
        return subst(t, m) if m else t

    def on_layout(s, a, b, v, lo, hi):
        """an index that runs through one entry of every row of an established layout"""
        for key, lay in s.layouts.items():
            ps, _, i, j, start, L, U, i0, i1 = lay
            m = {i: v}
            c = add(sub(a, subst(start, m)), subst(L, m))
            if any(t.op in ('idiv', 'imod') for t in subterms(c)):
                continue
            z = fresh('z', 'I')
            cz, mz = subst(c, {v: z}), {i: z}
            if not s.certain(or_(lt(z, subst(lo, {v: z})), le(subst(hi, {v: z}), z), and_(le(i0, z), lt(z, i1), le(subst(L, mz), cz), lt(cz, subst(U, mz))))):
                continue
            r, q, inside = s.preimage(lay, key, b)
            return {v: r}, inside + [eq(q, subst(c, {v: r}))]
        return None

    def same_form(s, a, b, i, j):
        cand = set()
        for t in subterms(b):
            if t.op == 'var' and t.s == 'I':
                cand.add(t)
        cand = sorted(cand, key=lambda t: t.id)[:8]
        for u in cand:
            r = sub(b, subst(a, {i: u, j: num(0, 'I')}))
            if r in cand:
                return u, r
        return None

    def poly_div(s, p, stride):
        """split p = q*stride + r by monomial divisibility"""
        c, d = _lin(p)
        if stride.op == 'num':
            k0, ms = stride.a[0], {}
        else:
            cs, ds = _lin(stride)
            if cs != 0 or len(ds) != 1:
                return num(0, 'I'), p
            (t, k0), = ds.items()
            ms = _mono(t)
        q, r = {}, {}
        qc, rc = 0, 0
        for t, k in d.items():
            m = dict(_mono(t))
            if k % k0 == 0 and all(m.get(f, 0) >= e for f, e in ms.items()):
                for f, e in ms.items():
                    m[f] -= e
                x = _mkmono(m, 'I')
                if x.op == 'num':
                    qc += x.a[0] * (k // k0)
                else:
                    q[x] = q.get(x, 0) + k // k0
            else:
                r[t] = k
        if not ms:
            qc += 0
        return _mklin(qc, q, 'I'), _mklin(c + rc, r, 'I')

    def certain(s, c):
        return c is TRUE or s.provable(c) or bool(s.refute and s.refute(not_(c)))

    def provable(s, c):
        if c is TRUE:
            return True
        if s.prover is None:
            return False
        return s.prover(c) is TRUE

    def last_write(s, w, c, rest):
        # w hits the location for every value of the remaining binders satisfying c
        if any(v in x.fv for v, _, _ in rest for x in _vt(w.val)):
            if len(rest) == 1 and rest[0][0] not in c.fv:
                v, lo, hi = rest[0]
                m = {v: sub(hi, num(1, 'I'))}
                return vsub(w.val, m), and_(c, lt(lo, hi))
            raise Unsupported('several iterations write one location with different values')
        for v, lo, hi in reversed(rest):
            c = binder('exists', v, lo, hi, c)
        return w.val, c


def _vt(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, Cx):
        return [v.re, v.im]
    return []
