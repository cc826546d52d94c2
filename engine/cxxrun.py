"""Statements, expressions, calls and loop summaries (see cxxexec.py)."""
from cxxexec import *
from cxxexec import _lin, _mklin
import itertools, re

NPOS = 2 ** 64 - 1

IGNORED_CALLEES = {'debug', 'info', 'stat', 'warn', 'error', 'log', 'reset_level', 'update_maxcntgrid', 'count_fft', 'count_ifft',
                   'count_rgrid', 'count_cgrid', 'count_grid', 'update_maxmem', 'display_prog_logo'}


class Flow:
    """abrupt outcomes collected while executing a statement"""

    def __init__(s):
        s.rets, s.brks, s.conts = [], [], []


class Run(Exec):
    prints = ()

    # ------------------------------------------------------------ functions
    def call_fn(s, node, st, this, args, qname):
        """inline a function body.  args: values (for references: Loc tuples)"""
        s.depth += 1
        if s.depth > 40:
            raise Unsupported('recursion depth in ' + qname)
        s.frame += 1
        fr = s.frame
        env = {'this': this, 'fn': qname}
        rt = node.type.split('(')[0].strip()
        if rt.endswith('&') and not rt.endswith('&&') and not rt.startswith('const'):
            env['#retref'] = True
        parms = [c for c in node.inner if c.kind == 'ParmVarDecl']
        for i, p in enumerate(parms):
            if i < len(args):
                a = args[i]
            elif p.inner:
                a = s.rv(p.inner[0], st, env)
            else:
                raise Unsupported('missing argument of ' + qname)
            pid = p.get('id')
            if p.name:
                env['#n:' + p.name] = Loc(('loc', fr, pid), ())
            if p.type.endswith('&') or p.type.endswith('&&'):
                if isinstance(a, Loc):
                    env[pid] = a
                else:
                    r = ('loc', fr, pid)
                    st.mem[r] = a
                    env[pid] = Loc(r, ())
            else:
                if isinstance(a, Loc):
                    a = s.load(st, a)
                r = ('loc', fr, pid)
                st.mem[r] = s.conv(a, p.type)
                env[pid] = Loc(r, ())
        for c in node.inner:
            if c.kind == 'CXXCtorInitializer' and c.get('anyInit'):
                cls = s.load(st, this).cls
                ft = s.field_type(cls, c.get('anyInit'))
                e = c.inner[0]
                if e.kind == 'CXXDefaultInitExpr' and not e.inner:
                    e = [x for f, _, x in s.prog.records[cls] if f == c.get('anyInit')][0]
                    if e is None:
                        continue
                if ft.endswith('&'):
                    v = s.rv(e, st, env)
                else:
                    v = s.init_value(e, ft, st, env)
                s.store(st, Loc(this[0], this[1] + (c.get('anyInit'),)), v)
            elif c.kind == 'CXXCtorInitializer' and c.inner:
                v = s.val(c.inner[0], st, env)      # delegating constructor
                if not isinstance(v, Obj):
                    raise Unsupported('base class initialiser')
                mine = s.load(st, this)
                if v.cls != mine.cls:               # base class
                    for k, w in v.f.items():
                        mine = mine.set(k, w)
                    v = mine
                s.store(st, this, v)
        body = [c for c in node.inner if c.kind in ('CompoundStmt', 'CXXTryStmt')]
        flow = Flow()
        pc0 = st.pc
        end = s.stmt(body[0], st, env, flow)
        outs = list(flow.rets)
        if end is not None:
            outs.append((end, None))
        if not outs:
            s.depth -= 1
            raise Infeasible('no normal outcome of ' + qname)
        stm, val = outs[0]
        for st2, v2 in outs[1:]:
            n = 0
            while n < len(stm.pc) and n < len(st2.pc) and stm.pc[n] is st2.pc[n]:
                n += 1
            ca = and_(*stm.pc[n:])
            if isinstance(val, Loc) or isinstance(v2, Loc):
                if val != v2:
                    raise Unsupported('%s returns references to different objects' % qname)
            elif val is not None or v2 is not None:
                val = vite(ca, val, v2)
            stm = merge_states(stm, st2)
        s.depth -= 1
        # hand the state back in place
        st.mem = stm.mem
        st.pc = stm.pc
        for r in [r for r in st.mem if isinstance(r, tuple) and r[0] == 'loc' and r[1] == fr]:
            if not s.escapes(val, r):
                del st.mem[r]
        return val

    def escapes(s, val, root):
        return isinstance(val, (Ptr, Loc)) and (val.root if isinstance(val, Ptr) else val[0]) == root

    # ------------------------------------------------------------ statements
    def stmt(s, n, st, env, flow):
        """execute; returns the normal-continuation state or None"""
        k = n.kind
        s.site = (env.get('fn'), s.prog.line(n) if n.off is not None else 0) if k in ('BinaryOperator', 'CompoundAssignOperator', 'DeclStmt', 'CXXOperatorCallExpr', 'ReturnStmt', 'IfStmt') else s.site
        h = getattr(s, 's_' + k, None)
        if h is not None:
            return h(n, st, env, flow)
        if k.startswith('OMP'):
            return s.omp(n, st, env, flow)
        # expression statement
        s.rv(n, st, env, discard=True)
        return st

    def s_CompoundStmt(s, n, st, env, flow):
        for c in n.inner:
            st = s.stmt(c, st, env, flow)
            if st is None:
                return None
        return st

    def s_NullStmt(s, n, st, env, flow):
        return st

    def s_Null(s, n, st, env, flow):
        return st

    def s_ExprWithCleanups(s, n, st, env, flow):
        return s.stmt(n.inner[0], st, env, flow)

    def s_AttributedStmt(s, n, st, env, flow):
        return s.stmt(n.inner[-1], st, env, flow)

    def s_DeclStmt(s, n, st, env, flow):
        for d in n.inner:
            if d.kind == 'VarDecl':
                s.decl(d, st, env)
            elif d.kind in ('CXXRecordDecl', 'TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d.kind)
        return st

    def decl(s, d, st, env):
        r = ('loc', s.frame_of(env), d.get('id'), s.iter_tag(env))
        t = d.type
        init = [c for c in d.inner if c.kind not in ('FullComment',) and not c.kind.endswith('Attr')]
        if t.endswith('&') or t.endswith('&&'):
            e = init[-1]
            try:
                env[d.get('id')] = s.lv(e, st, env)
            except Unsupported:
                if not t.startswith('const') and not t.endswith('&&') and 'auto' not in t:
                    raise
                st.mem[r] = s.rv(e, st, env)
                env[d.get('id')] = Loc(r, ())
            return
        env['#n:' + d.name] = Loc(r, ())
        if s.kind(t) == 'vla' and not t.endswith('[]') and not (init and init[-1].kind == 'InitListExpr'):
            v = s.vla(t, st, env)
        elif d.get('init') and init:
            v = s.init_value(init[-1], t, st, env)
        else:
            v = s.default_value(t, st, env, d)
        if s.naming and isinstance(v, T):
            v = s.name_term(v)
        st.mem[r] = v
        env[d.get('id')] = Loc(r, ())

    def vla(s, t, st, env):
        """an array whose length is given at run time: a number, a local variable or a data member"""
        m = re.match(r'(.*)\[([^\[\]]*)\]$', norm_type(t))
        e, x = m.group(1).strip(), m.group(2).strip()
        if re.match(r'(this->)\w+$', x):
            th = env['this']
            n = s.load(st, Loc(th[0], th[1] + (x[6:],)))
        elif '#n:' + x in env:
            n = s.load(st, env['#n:' + x])
        else:
            raise Unsupported('length of ' + t)
        if not isinstance(n, T):
            raise Unsupported('length of ' + t)
        return s.new_vec(e, n, Cx(0) if s.kind(e) == 'C' else None)

    def frame_of(s, env):
        f = env.get('#frame')
        if f is None:
            f = env['#frame'] = s.frame
        return f

    def iter_tag(s, env):
        return 0

    def default_value(s, t, st, env, d=None):
        k = s.kind(t)
        if k in ('I', 'R', 'B'):
            return Uninit()
        if k == 'S':
            return tm.st('')
        if k == 'C':
            return Cx(0)
        if k == 'fix':
            n, et = s.fix(t)
            if n > 4096:
                raise Unsupported('large fixed array')
            return FixArr([s.default_value(et, st, env) for _ in range(n)])
        if k == 'vec':
            return s.new_vec(s.elem(t), num(0, 'I'))
        if k == 'obj':
            return s.new_obj(s.cls(t), st, env)
        return Uninit()

    def zero_value(s, t, st, env):
        k = s.kind(t)
        if k in ('I', 'R'):
            return num(0, k)
        if k == 'B':
            return FALSE
        if k == 'ptr':
            return NULL
        if k == 'fix':
            n, et = s.fix(t)
            return FixArr([s.zero_value(et, st, env) for _ in range(n)])
        if k == 'obj':
            c = s.cls(t)
            return Obj(c, '?', {f: (s.init_value(i, ft, st, env) if i is not None else s.zero_value(ft, st, env)) for f, ft, i in s.prog.records[c]}, s)
        return s.default_value(t, st, env)

    def new_obj(s, cls, st, env):
        f = {}
        for name, t, init in s.prog.records[cls]:
            if init is not None and init.kind not in ('Null',) and not init.kind.endswith('Attr'):
                f[name] = s.init_value(init, t, st, env)
            else:
                f[name] = s.default_value(t, st, env)
        return Obj(cls, s.newname(cls), f, s)

    def newname(s, base):
        s.heapn += 1
        return '%s$%d' % (base, s.heapn)

    def new_vec(s, et, ln, fill=None):
        s.heapn += 1
        if fill is None:
            return SArr(('uninit', s.heapn), (), et, ln, s)
        if isinstance(fill, SArr):
            a = SArr(('uninit', s.heapn), (), et, ln, s)
            v = fresh('fi', 'I')
            return a.with_write(W((v,), fill, TRUE, ((v, num(0, 'I'), ln),), 'sub')) if False else \
                SArr(('fn', lambda path, k, f=fill: f.ln if path[1:] == ('#len',) else f.leaf(path[1:], k)), (), et, ln, s)
        if isinstance(fill, (Obj, FixArr)):
            ex = s
            return SArr(('fn', lambda path, k, f=fill: ex.walk(f, path[1:])), (), et, ln, s)
        return SArr(('const', fill), (), et, ln, s)

    def conv(s, v, t):
        """value conversion to declared type"""
        if isinstance(v, T):
            k = s.kind(t)
            if k == 'R' and v.s != 'R':
                return toreal(v)
            if k == 'C':
                return Cx(toreal(v))
            if k == 'I' and v.s == 'R':
                return trunc(v)
            if k == 'I' and v.s == 'B':
                return ite(v, num(1, 'I'), num(0, 'I'))
            if k == 'B' and v.s in 'IR':
                return ne(v, num(0, v.s))
        return v

    def init_value(s, e, t, st, env):
        k = s.kind(t)
        e0 = e
        while e.kind in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'ParenExpr',
                         'CXXDefaultInitExpr') and e.inner and not (e.kind == 'ImplicitCastExpr' and e.get('castKind') in ('LValueToRValue',)):
            if e.kind == 'ImplicitCastExpr' and e.get('castKind') not in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay'):
                break
            e = e.inner[0]
        if e.kind == 'InitListExpr':
            return s.init_list(e, t, st, env)
        if e.kind == 'ImplicitValueInitExpr' or e.kind == 'CXXScalarValueInitExpr':
            return s.zero_value(t, st, env)
        v = s.rv(e, st, env)
        if isinstance(v, Loc):
            v = s.load(st, v)
        return s.conv(v, t)

    def init_list(s, e, t, st, env):
        k = s.kind(t)
        items = e.inner
        if k == 'fix':
            n, et = s.fix(t)
            filler = [c for c in items if c.kind == 'Null']
            items = [c for c in items if c.kind != 'Null']
            vals = [s.init_value(c, et, st, env) for c in items if c.kind != 'ImplicitValueInitExpr' or True][:n]
            while len(vals) < n:
                vals.append(s.zero_value(et, st, env))
            return FixArr(vals)
        if k == 'vla':
            et = s.elem(t)
            return FixArr([s.init_value(c, et, st, env) for c in items])
        if k == 'vec':
            et = s.elem(t)
            return s.vec_of([s.init_value(c, et, st, env) for c in items], et)
        if k in ('I', 'R', 'B', 'S'):
            return s.init_value(items[0], t, st, env) if items else s.zero_value(t, st, env)
        if k == 'C':
            a = [s.rv(c, st, env) for c in items]
            return Cx(*a) if a else Cx(0)
        if k == 'obj':
            c = s.cls(t)
            f = {}
            flds = s.prog.records[c]
            for i, (fn, ft, ini) in enumerate(flds):
                if i < len(items):
                    f[fn] = s.init_value(items[i], ft, st, env)
                elif ini is not None:
                    f[fn] = s.init_value(ini, ft, st, env)
                else:
                    f[fn] = s.zero_value(ft, st, env)
            return Obj(c, s.newname(c), f, s)
        if k == 'ptr':
            return s.rv(items[0], st, env)
        if not items:
            return Opaque('{}')
        if len(items) == 1:
            return s.rv(items[0], st, env)
        raise Unsupported('initialiser list for ' + t)

    def vec_of(s, vals, et):
        a = s.new_vec(et, num(len(vals), 'I'))
        for i, v in enumerate(vals):
            a = s.sarr_store(a, (num(i, 'I'),), v)
        return a

    def s_ReturnStmt(s, n, st, env, flow):
        v = None
        if n.inner:
            if env.get('#retref'):
                v = s.lv(n.inner[0], st, env)
                s.load(st, v)
            else:
                v = s.rv(n.inner[0], st, env)
                if isinstance(v, Loc):
                    v = s.load(st, v)
        flow.rets.append((st, v))
        return None

    def s_BreakStmt(s, n, st, env, flow):
        flow.brks.append(st)
        return None

    def s_ContinueStmt(s, n, st, env, flow):
        flow.conts.append(st)
        return None

    def s_CXXThrowExpr(s, n, st, env, flow):
        s.throws.append((st.cond(), (env.get('fn'), s.prog.line(n)), n.inner[0].type if n.inner else ''))
        return None

    def s_IfStmt(s, n, st, env, flow):
        inn = list(n.inner)
        if n.get('hasInit'):
            st = s.stmt(inn.pop(0), st, env, flow)
        if n.get('hasVar'):
            raise Unsupported('if with variable')
        c = s.cond(inn[0], st, env)
        th = inn[1]
        el = inn[2] if len(inn) > 2 else None
        if c is TRUE:
            return s.stmt(th, st, env, flow)
        if c is FALSE:
            return s.stmt(el, st, env, flow) if el is not None else st
        a = st.fork(c)
        b = st.fork(not_(c))
        if a.cond() is FALSE:
            a2 = None
        else:
            a2 = s.stmt(th, a, dict(env), flow)
        if b.cond() is FALSE:
            b2 = None
        elif el is not None:
            b2 = s.stmt(el, b, dict(env), flow)
        else:
            b2 = b
        out = merge_states(a2, b2)
        if s.naming and a2 is not None and b2 is not None:
            for r, v in list(out.mem.items()):
                if isinstance(r, tuple) and r[0] == 'loc' and v is not a2.mem.get(r) and v is not b2.mem.get(r):
                    if isinstance(v, (T, FixArr)):
                        for p, x in list(s.leaves(v)):
                            if isinstance(x, T):
                                v = s.setleaf(v, p, s.name_term(x))
                        out.mem[r] = v
        return out

    def s_SwitchStmt(s, n, st, env, flow):
        v = s.rv(n.inner[0], st, env)
        body = n.inner[-1]
        # flatten to (labels, stmts)
        segs = []

        def add_case(c):
            if c.kind == 'CaseStmt':
                val = s.rv(c.inner[0], st, env)
                sub_ = c.inner[-1]
                segs.append([[val], []])
                if sub_.kind in ('CaseStmt', 'DefaultStmt'):
                    n0 = len(segs)
                    add_case(sub_)
                    return
                segs[-1][1].append(sub_)
            elif c.kind == 'DefaultStmt':
                segs.append([[None], [c.inner[-1]]])
            else:
                segs[-1][1].append(c)
        for c in body.inner:
            add_case(c)
        vals = [x for g in segs for x in g[0] if x is not None]
        out = None
        for i, g in enumerate(segs):
            conds = []
            for x in g[0]:
                conds.append(eq(v, x) if x is not None else and_(*[ne(v, y) for y in vals]))
            c = or_(*conds)
            if c is FALSE:
                continue
            sx = st.fork(c)
            fl = Flow()
            cur = sx
            e2 = dict(env)
            for h in segs[i:]:
                for q in h[1]:
                    cur = s.stmt(q, cur, e2, fl)
                    if cur is None:
                        break
                if cur is None:
                    break
            flow.rets += fl.rets
            flow.conts += fl.conts
            for b in fl.brks + ([cur] if cur is not None else []):
                out = merge_states(out, b)
        if not any(None in g[0] for g in segs):
            c = and_(*[ne(v, y) for y in vals])
            if c is not FALSE:
                out = merge_states(out, st.fork(c))
        return out

    def s_CXXTryStmt(s, n, st, env, flow):
        return s.stmt(n.inner[0], st, env, flow)

    def omp(s, n, st, env, flow):
        s.omp_sites.append((n.kind, env.get('fn'), n))
        for c in n.inner:
            if c.kind == 'CapturedStmt':
                return s.stmt(s.captured(c), st, env, flow)
            if c.kind in ('ForStmt', 'CompoundStmt', 'BinaryOperator', 'CompoundAssignOperator', 'ExprWithCleanups', 'UnaryOperator', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'):
                return s.stmt(c, st, env, flow)
        raise Unsupported('OpenMP directive ' + n.kind)

    omp_sites = []

    def captured(s, c):
        while c.kind in ('CapturedStmt', 'CapturedDecl'):
            nxt = [x for x in c.inner if x.kind == 'CapturedDecl' and c.kind == 'CapturedStmt'] or [x for x in c.inner if x.kind not in ('ImplicitParamDecl', 'Null') and not x.kind.endswith('Attr')]
            c = nxt[0]
        return c

    def s_CapturedStmt(s, n, st, env, flow):
        return s.stmt(s.captured(n), st, env, flow)

    def s_ForStmt(s, n, st, env, flow):
        init, _, cond, inc, body = n.inner
        env = dict(env)
        if init.kind != 'Null':
            st = s.stmt(init, st, env, flow)
        return s.loop(cond, inc, body, st, env, flow, n)

    def s_WhileStmt(s, n, st, env, flow):
        return s.loop(n.inner[0], None, n.inner[-1], st, dict(env), flow, n)

    def s_DoStmt(s, n, st, env, flow):
        raise Unsupported('do loop')

    def s_CXXForRangeStmt(s, n, st, env, flow):
        # children: init, range decl, begin, end, cond, inc, loopvar, body
        rng = [c for c in n.inner if c.kind == 'DeclStmt']
        rdecl = rng[0].inner[0]
        seq = s.rv(rdecl.inner[-1], st, env)
        if isinstance(seq, Loc):
            loc = seq
            seq = s.load(st, seq)
        lvdecl = rng[-1].inner[0]
        body = n.inner[-1]
        if isinstance(seq, FixArr):
            seq = s.vec_of(seq.e, 'double')
        if not isinstance(seq, SArr):
            raise Unsupported('range-for over ' + type(seq).__name__)
        idxroot = ('loc', s.frame, 'rangeidx', lvdecl.get('id'))
        st.mem[idxroot] = num(0, 'I')
        env = dict(env)

        class B:
            pass
        ex = s

        def cond(st_, env_):
            return lt(ex.load(st_, Loc(idxroot, ())), seq.ln)

        def inc(st_, env_):
            ex.store(st_, Loc(idxroot, ()), add(ex.load(st_, Loc(idxroot, ())), num(1, 'I')))

        def bodyf(st_, env_, flow_):
            i = ex.load(st_, Loc(idxroot, ()))
            v = seq.read((i,))
            r = ('loc', ex.frame, lvdecl.get('id'), 0)
            st_.mem[r] = v
            env_[lvdecl.get('id')] = Loc(r, ())
            return ex.stmt(body, st_, env_, flow_)
        return s.loop(cond, inc, bodyf, st, env, flow, n)

    # ------------------------------------------------------------ loops
    def _cond(s, cond, st, env):
        if cond is None or (not callable(cond) and cond.kind == 'Null'):
            return TRUE
        if callable(cond):
            return cond(st, env)
        return s.cond(cond, st, env)

    def _inc(s, inc, st, env):
        if inc is None:
            return
        if callable(inc):
            inc(st, env)
        elif inc.kind != 'Null':
            s.rv(inc, st, env, discard=True)

    def _body(s, body, st, env, flow):
        if callable(body):
            return body(st, env, flow)
        return s.stmt(body, st, env, flow)

    def loop(s, cond, inc, body, st, env, flow, node):
        # constant trip counts are executed literally
        probe = st.fork()
        rec, s.record = s.record, False
        c = s._cond(cond, probe, dict(env))
        s.record = rec
        if c is FALSE:
            return st
        if c is TRUE and cond is not None and s.const_trip(cond, inc, body, st, env):
            return s.unrolled(cond, inc, body, st, env, flow)
        if c is TRUE and inc is None and s.searches(cond):
            return s.unrolled(cond, inc, body, st, env, flow)
        return s.summarise(cond, inc, body, st, env, flow, node)

    def searches(s, cond):
        """a loop consuming a known string"""
        if callable(cond) or cond is None:
            return False
        todo = [cond]
        while todo:
            n = todo.pop()
            if n.kind == 'MemberExpr' and n.name == 'find':
                return True
            todo += [c for c in n.inner if c is not None]
        return False

    def const_trip(s, cond, inc, body, st, env):
        """does the loop condition stay literal for <= unroll iterations (inc alone)?"""
        p = st.fork()
        e = dict(env)
        rec, s.record = s.record, False
        thr = len(s.throws)
        try:
            for _ in range(s.unroll + 1):
                c = s._cond(cond, p, e)
                if c is FALSE:
                    return True
                if c is not TRUE:
                    return False
                if inc is None or (not callable(inc) and inc.kind == 'Null'):
                    return False
                s._inc(inc, p, e)
            return False
        except Unsupported:
            return False
        finally:
            s.record = rec
            del s.throws[thr:]

    def unrolled(s, cond, inc, body, st, env, flow):
        out = None
        for _ in range(s.unroll + 1):
            c = s._cond(cond, st, env)
            if c is FALSE:
                return merge_states(st, out) if out is not None else st
            if c is not TRUE:
                raise Unsupported('loop condition became symbolic while unrolling')
            fl = Flow()
            e2 = dict(env)
            nx = s._body(body, st, e2, fl)
            flow.rets += fl.rets
            for b in fl.brks:
                out = merge_states(out, b)
            for b in fl.conts:
                nx = merge_states(nx, b)
            if nx is None:
                return out
            st = nx
            s._inc(inc, st, env)
        raise Unsupported('unrolling limit')

    # leaves of a value tree
    def leaves(s, v, path=()):
        if isinstance(v, Obj):
            for k in list(v.f):
                yield from s.leaves(v.f[k], path + (k,))
        elif isinstance(v, FixArr):
            for i, x in enumerate(v.e):
                yield from s.leaves(x, path + (i,))
        else:
            yield path, v

    def getleaf(s, v, path):
        for p in path:
            if isinstance(v, Obj):
                v = v.get(p)
            elif isinstance(v, FixArr):
                v = v.e[p]
            else:
                return None
        return v

    def setleaf(s, v, path, x):
        if not path:
            return x
        p = path[0]
        if isinstance(v, Obj):
            return v.set(p, s.setleaf(v.get(p), path[1:], x))
        e = list(v.e)
        e[p] = s.setleaf(e[p], path[1:], x)
        return FixArr(e)

    def diff(s, a, b):
        """paths (root, leafpath) where the states differ"""
        out = []
        roots = list(a.mem.items()) + [(r, PRISTINE[r]) for r in b.mem if r not in a.mem and r in PRISTINE]
        for r, va in roots:
            vb = b.mem.get(r)
            if vb is va or vb is None:
                continue
            pa = dict(s.leaves(va))
            pb = dict(s.leaves(vb))
            for p in set(pa) | set(pb):
                x, y = pa.get(p), pb.get(p)
                if x is None:
                    x = s.getleaf(va, p)
                if y is None:
                    y = s.getleaf(vb, p)
                if not s.same(x, y):
                    out.append((r, p))
        return out

    def same(s, x, y):
        if x is y:
            return True
        if isinstance(x, Cx) and isinstance(y, Cx):
            return x.re is y.re and x.im is y.im
        if isinstance(x, SArr) and isinstance(y, SArr):
            return (x.base is y.base or x.base == y.base) and x.writes == y.writes and x.ln is y.ln
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return x.root == y.root and x.path == y.path and x.idx is y.idx
        return False

    def summarise(s, cond, inc, body, st0, env, flow, node):
        mod = {}      # (root, path) -> info
        rec, s.record = s.record, False
        nthr, nacc = len(s.throws), len(s.accesses)
        ncalls = len(s.calls)
        for rnd in range(8):
            st, ph = s.placeholder_state(st0, mod)
            start = st.fork()
            c = s._cond(cond, st, dict(env))
            b = st.fork()
            fl = Flow()
            e2 = dict(env)
            end = s._body(body, b, e2, fl)
            outs = [end] + fl.conts
            new = []
            allst = []
            e_end = None
            for o in outs:
                e_end = merge_states(e_end, o)
            if e_end is not None:
                s._inc(inc, e_end, env)
                allst.append(e_end)
            allst += fl.brks + [x for x, _ in fl.rets]
            for o in allst:
                for loc in s.diff(start, o):
                    if loc not in mod and loc not in new:
                        new.append(loc)
            del s.throws[nthr:]
            del s.calls[ncalls:]
            if not new:
                break
            for loc in new:
                mod[loc] = None
                if loc[0] not in st0.mem:
                    st0.mem[loc[0]] = PRISTINE[loc[0]]
            if len(s.accesses) > nacc:
                del s.accesses[nacc:]
        else:
            raise Unsupported('loop modification set does not stabilise')
        s.record = rec
        # ---- final pass with recording, binder range as hypothesis
        st, ph = s.placeholder_state(st0, mod, ph)
        start = st.fork()
        c = s._cond(cond, st.fork(), dict(env))
        phs = set()
        for info in ph.values():
            phs |= set(info['vars'])
        # primary counter: from the increment effect
        F = {}
        # determine counters from previous pass's end state
        if e_end is None and not fl.brks and not fl.rets:
            raise Unsupported('loop body never continues')
        deltas = {}
        if e_end is not None:
            for loc, info in ph.items():
                if info['kind'] in 'IR' and info['kind'] != 'arr':
                    f = s.getleaf(e_end.mem[loc[0]], loc[1])
                    if isinstance(f, T):
                        d = sub(f, info['vars'][0])
                        if not (d.fv & phs):
                            deltas[info['vars'][0]] = d
        prim, binder_v, lo, hi, closed = s.trip(c, deltas, ph, st0, phs)
        rng = (le(lo, binder_v), lt(binder_v, hi))
        # re-execute with the closed forms of the counters in place
        nthr, nacc = len(s.throws), len(s.accesses)
        st2 = State({r: v for r, v in st.mem.items()}, st0.pc + rng)
        s.hyp_push(rng)
        for loc, info in ph.items():
            if info['kind'] != 'arr' and info['vars'][0] in closed:
                st2.mem[loc[0]] = s.setleaf(st2.mem[loc[0]], loc[1], closed[info['vars'][0]])
                info['closed'] = closed[info['vars'][0]]
        start2 = st2.fork()
        fl = Flow()
        e2 = dict(env)
        pc_in = st2.pc
        end = s._body(body, st2, e2, fl)
        for o in fl.conts:
            end = merge_states(end, o)
        s.hyp_pop()
        res = s.classify(end, fl, ph, st0, start2, binder_v, lo, hi, rng, pc_in, node, env, nthr, nacc, inc, flow, closed)
        return res

    def hyp_push(s, cs):
        s.hyps.append(tuple(cs))

    def hyp_pop(s):
        s.hyps.pop()

    def placeholder_state(s, st0, mod, reuse=None):
        st = st0.fork()
        ph = {}
        for (r, p) in mod:
            old = s.getleaf(st0.mem[r], p)
            if reuse and (r, p) in reuse:
                info = reuse[(r, p)]
            elif isinstance(old, T):
                v = fresh('@s', old.s)
                info = {'kind': old.s, 'vars': [v], 'old': old, 'val': v}
            elif isinstance(old, Cx):
                v, w = fresh('@re', 'R'), fresh('@im', 'R')
                info = {'kind': 'C', 'vars': [v, w], 'old': old, 'val': Cx(v, w)}
            elif isinstance(old, SArr):
                nm = '@a%d' % next(s._an)
                ln = fresh('@len', 'I')
                info = {'kind': 'arr', 'vars': [ln], 'old': old, 'name': nm, 'val': SArr(('sym', nm), (), old.et, ln, s)}
            elif isinstance(old, Uninit):
                info = {'kind': 'uninit', 'vars': [], 'old': old, 'val': old}
            elif isinstance(old, Ptr):
                v = fresh('@p', 'I')
                info = {'kind': 'ptr', 'vars': [v], 'old': old, 'val': Ptr(old.root, old.path, v)}
            elif isinstance(old, Opaque):
                info = {'kind': 'uninit', 'vars': [], 'old': old, 'val': old}
            else:
                raise Unsupported('loop modifies a value of kind ' + type(old).__name__)
            ph[(r, p)] = info
            st.mem[r] = s.setleaf(st.mem[r], p, info['val'])
        return st, ph

    _an = itertools.count(1)

    def trip(s, c, deltas, ph, st0, phs):
        """loop bounds as a range of one integer binder"""
        olds = {}
        for loc, info in ph.items():
            if info['kind'] in ('I', 'R'):
                olds[info['vars'][0]] = info['old']
        conj = list(c.a) if c.op == 'and' else [c]
        for q in conj:
            inds = [v for v in q.fv if v in deltas and v.s == 'I' and deltas[v].op == 'num' and deltas[v].a[0] != 0]
            if not inds:
                continue
            if len(conj) > 1:
                raise Unsupported('compound loop condition %s' % show(c))
            for v in inds:
                d = deltas[v].a[0]
                k = fresh('k', 'I')
                closed = {}
                for u, dl in deltas.items():
                    if dl.s == 'I' or dl.s == 'R':
                        kk = k if dl.s == 'I' else toreal(k)
                        closed[u] = add(olds[u], mul(dl, kk))
                qq = subst(q, closed)
                if qq.fv & phs:
                    continue
                if qq.op == 'not' and qq.a[0].op == 'eq0':
                    # i != n   (treated as i < n; the obligation d == 1 and start <= n is implicit)
                    cc, dd = _lin(qq.a[0].a[0])
                    e = qq.a[0].a[0]
                    kc = dd.get(k)
                    if kc in (1, -1):
                        qq = le(add(scale(e, kc), num(1, 'I')), num(0, 'I'))
                if qq.op != 'le0' or qq.a[0].s != 'I':
                    continue
                cc, dd = _lin(qq.a[0])
                kc = dd.pop(k, 0)
                if kc <= 0 or any(k in t.fv for t in dd):
                    continue
                rest = _mklin(cc, dd, 'I')
                # kc*k + rest <= 0  -> k <= floor(-rest/kc)
                if kc == 1:
                    n = add(neg(rest), num(1, 'I'))
                else:
                    n = add(as_int(floor(div(toreal(neg(rest)), num(kc, 'R')))), num(1, 'I'))
                # change of variable for unit steps: the binder is the counter itself
                if d == 1:
                    b = fresh('i', 'I')
                    shift = {k: sub(b, olds[v])}
                    closed = {u: subst(x, shift) for u, x in closed.items()}
                    return v, b, olds[v], add(olds[v], n), closed
                return v, k, num(0, 'I'), n, closed
        raise Unsupported('loop bound not recognised: %s' % show(c)[:200])

    def classify(s, end, fl, ph, st0, start, bv, lo, hi, rng, pc_in, node, env, nthr, nacc, inc, flow, closed):
        phs = set()
        for info in ph.values():
            if 'closed' in info:
                continue
            phs |= set(info['vars'])
        n_in = len(pc_in)
        # scalar leaf equations  F: placeholder var -> value at end of iteration
        F = {}
        oldv = {}
        if end is not None:
            for loc, info in ph.items():
                if 'closed' in info:
                    continue
                f = s.getleaf(end.mem[loc[0]], loc[1])
                if info['kind'] == 'arr':
                    F[info['vars'][0]] = f.ln
                    oldv[info['vars'][0]] = info['old'].ln
                elif info['kind'] == 'C':
                    f = cx(f) if not isinstance(f, Uninit) else f
                    F[info['vars'][0]], F[info['vars'][1]] = f.re, f.im
                    oldv[info['vars'][0]], oldv[info['vars'][1]] = info['old'].re, info['old'].im
                elif info['kind'] == 'ptr':
                    F[info['vars'][0]] = f.idx
                    oldv[info['vars'][0]] = info['old'].idx
                elif info['kind'] in ('uninit',):
                    pass
                else:
                    F[info['vars'][0]] = f
                    oldv[info['vars'][0]] = info['old']
        # break handling
        brk_c = None
        exits = [(x, None, 'brk') for x in fl.brks] + [(x, v, 'ret') for x, v in fl.rets]
        hi_eff = hi
        if exits:
            conds = [and_(*x.pc[n_in:]) for x, _, _ in exits]
            brk_c = or_(*conds)
        solved = {}
        final = {}
        pend = dict(F)
        if end is not None and end.pc[n_in:] and not exits:
            # the body continues only under a condition (e.g. a throw guard)
            pass

        def deps(t):
            return t.fv & (phs - set(solved))
        progress = True
        while pend and progress:
            progress = False
            for x in list(pend):
                f = subst(pend[x], solved) if solved else pend[x]
                r = s.solve_rec(x, f, oldv[x], bv, lo, phs - set(solved))
                if r is None:
                    pend[x] = f
                    continue
                solved[x], final[x] = s.simp_in(r[0], rng), r[1]
                del pend[x]
                progress = True
        bad = set(pend)
        # placeholders of unresolved variables must not leak
        if brk_c is not None:
            brk_c = subst(brk_c, solved)
            if brk_c.fv & (phs):
                raise Unsupported('exit condition depends on an unsummarised loop-carried value')
        # ---- arrays
        out = st0.fork()
        arrs = {info['name']: info for info in ph.values() if info['kind'] == 'arr'}
        newarr = {}
        reads = {}
        if brk_c is not None:
            first = binder('first', bv, lo, hi, brk_c, 'I')
            found = binder('exists', bv, lo, hi, brk_c)
            hi_eff = ite(found, first, hi)
        else:
            first = found = None
        for loc, info in ph.items():
            if info['kind'] != 'arr':
                continue
            end_states = []
            f = s.getleaf(end.mem[loc[0]], loc[1]) if end is not None else info['val']
            for x, _, _ in exits:
                g = s.getleaf(x.mem[loc[0]], loc[1])
                if not s.same(g, f) and not (len(g.writes) <= len(f.writes) and g.writes == f.writes[:len(g.writes)]) and g.writes:
                    raise Unsupported('array written on a breaking path')
            if f.base != info['val'].base:
                raise Unsupported('array replaced inside a loop')
            ws = []
            for w in f.writes:
                w = w.sub(solved)
                ws.append(w)
            newarr[loc] = (info, f, ws)
        # resolve reads of pre-iteration arrays
        outer_writes = {}
        for loc, (info, f, ws) in newarr.items():
            res = []
            for j, w in enumerate(ws):
                w = s.resolve_write(w, info, arrs, newarr, bv, lo, hi, ws, j)
                res.append(w)
            outer_writes[loc] = res
        for loc, (info, f, ws) in newarr.items():
            a = info['old']
            for w in outer_writes[loc]:
                a = a.with_write(W(w.path, w.val, w.guard, ((bv, lo, hi_eff),) + w.binders, w.mode, w.site))
            lnv = info['vars'][0]
            if lnv in final:
                a = a.with_len(s.final_val(final[lnv], bv, hi, hi_eff))
            elif lnv in bad:
                raise Unsupported('vector length in loop')
            out.mem[loc[0]] = s.setleaf(out.mem[loc[0]], loc[1], a)
        # ---- scalars
        def no_ph(t):
            if t.fv & phs:
                return False
            for u in subterms(t):
                if u.op == 'app' and isinstance(u.a[0], str) and u.a[0].startswith('@a') and u.a[0].split('[')[0].split('.')[0] in arrs:
                    return False
            return True
        for loc, info in ph.items():
            if info['kind'] == 'arr':
                continue
            if 'closed' in info:
                val = subst(info['closed'], {bv: s.endval(lo, hi, hi_eff)})
                out.mem[loc[0]] = s.setleaf(out.mem[loc[0]], loc[1], val)
                continue
            if info['kind'] == 'uninit':
                out.mem[loc[0]] = s.setleaf(out.mem[loc[0]], loc[1], Poison('loop'))
                continue
            vs = info['vars']
            if end is None:
                continue
            if any(v in bad for v in vs):
                out.mem[loc[0]] = s.setleaf(out.mem[loc[0]], loc[1], Poison('loop-carried value not summarised: %s' % show(F[vs[0]])[:300]))
                continue
            vals = []
            for v in vs:
                t = s.final_val(final[v], bv, hi, hi_eff)
                t = s.resolve_reads(t, arrs, newarr, None, None, None)
                if not no_ph(t):
                    vals = None
                    break
                vals.append(t)
            if vals is None:
                out.mem[loc[0]] = s.setleaf(out.mem[loc[0]], loc[1], Poison('loop-carried'))
            elif info['kind'] == 'C':
                out.mem[loc[0]] = s.setleaf(out.mem[loc[0]], loc[1], Cx(*vals))
            elif info['kind'] == 'ptr':
                out.mem[loc[0]] = s.setleaf(out.mem[loc[0]], loc[1], Ptr(info['old'].root, info['old'].path, vals[0]))
            else:
                out.mem[loc[0]] = s.setleaf(out.mem[loc[0]], loc[1], vals[0])
        # ---- throws and accesses recorded inside the loop: quantify
        for i in range(nthr, len(s.throws)):
            c, site, ty = s.throws[i]
            c = subst(c, solved)
            if c.fv & phs:
                c2 = s.resolve_reads(c, arrs, newarr, None, None, None)
                c = c2
            s.throws[i] = (binder('exists', bv, lo, hi, c), site, ty)
        for i in range(nacc, len(s.accesses)):
            c, ix, ln, site = s.accesses[i]
            s.accesses[i] = (subst(c, solved), subst(ix, solved), subst(ln, solved), site)
        # ---- exits
        if exits:
            m = {bv: first}
            merged = None
            if end is not None:
                merged = out.fork(not_(found))
            else:
                merged = out.fork(le(hi, lo)) if lt(lo, hi) is not TRUE else None
            for (x, v, kind), cnd in zip(exits, conds):
                cnd = subst(subst(cnd, solved), m)
                e = out.fork(and_(found, cnd) if len(exits) > 1 else found)
                for loc, info in ph.items():
                    g = s.getleaf(x.mem[loc[0]], loc[1])
                    if info['kind'] == 'arr':
                        continue
                    if info['kind'] == 'uninit':
                        if isinstance(g, (T, Cx)):
                            g = vsub(vsub(g, solved), m)
                        e.mem[loc[0]] = s.setleaf(e.mem[loc[0]], loc[1], g)
                        continue
                    g = vsub(vsub(g, solved), m)
                    if any(y.fv & phs for y in _vts(g)):
                        g = Poison('exit value')
                    e.mem[loc[0]] = s.setleaf(e.mem[loc[0]], loc[1], g)
                if kind == 'brk':
                    merged = merge_states(merged, e)
                else:
                    vv = vsub(vsub(v, solved), m) if v is not None else None
                    flow.rets.append((e, vv))
            return merged
        return out

    simpt = None

    def simp_in(s, t, rng):
        if s.simpt is None:
            return t
        s.hyp_push(rng)
        r = s.simpt(t)
        s.hyp_pop()
        return r

    def endval(s, lo, hi, hi_eff):
        if hi_eff is not hi:
            return hi_eff
        if s.provable(le(lo, hi)):
            return hi
        return ite(le(lo, hi), hi, lo)

    def final_val(s, f, bv, hi, hi_eff):
        return f(hi_eff)

    def solve_rec(s, x, f, x0, bv, lo, unsolved):
        """closed form of the recurrence x' = f(x, bv);  -> (value at start of iteration bv, final(hi))"""
        if isinstance(x0, Uninit):
            x0 = None
        others = unsolved - {x}
        if f.fv & others:
            return None
        if x0 is None and x in f.fv:
            return None
        w = fresh('w', 'I')
        at = lambda t, e: subst(t, {bv: e})
        if x not in f.fv:
            # value of the last completed iteration
            if bv not in f.fv:
                if x0 is None:
                    x0 = f
                g = lambda hi: ite(lt(lo, hi), f, x0)
            else:
                z = x0
                def g(hi, z=z):
                    last = at(f, sub(hi, num(1, 'I')))
                    return last if z is None else ite(lt(lo, hi), last, z)
            return g(bv), g
        d = s.delta(f, x)
        if d is not None and x not in d.fv:
            g = lambda hi: add(x0, sum_(w, lo, hi, at(d, w)))
            return g(bv), g
        if f.s == 'B':
            a, b = subst(f, {x: TRUE}), subst(f, {x: FALSE})
            if a is TRUE:
                g = lambda hi: or_(x0, binder('exists', w, lo, hi, at(b, w)))
                return g(bv), g
            if b is FALSE:
                g = lambda hi: and_(x0, binder('forall', w, lo, hi, at(a, w)))
                return g(bv), g
            return None
        if f.s == 'S':
            # text appended by every iteration
            b = s.appended(f, x)
            if b is None:
                return None
            g = lambda hi: tm.strcat(x0, binder('catv', w, lo, hi, at(b, w)))
            return g(bv), g
        if f.op == 'ite':
            r = s.fold(x, f, x0, bv, lo)
            if r is not None:
                return r
        if f.s in 'IR':
            # product
            from term import _mono
            if f.op in ('mono',):
                m = dict(_mono(f))
                if m.get(x) == 1:
                    del m[x]
                    q = _mkmono(m, f.s)
                    if x not in q.fv:
                        g = lambda hi: mul(x0, binder('prod', w, lo, hi, at(q, w)))
                        return g(bv), g
        return None

    def appended(s, f, x):
        """the text g with f = x followed by g"""
        if f is x:
            return tm.st('')
        if f.op == 'ite' and x not in f.a[0].fv:
            a, b = s.appended(f.a[1], x), s.appended(f.a[2], x)
            return None if a is None or b is None else ite(f.a[0], a, b)
        if f.op == 'app' and f.a[0] == 'cat' and f.a[1] is x and not any(x in p.fv for p in f.a[2:]):
            return tm.strcat(*f.a[2:])
        return None

    def delta(s, f, x):
        """f - x pushed through ite"""
        if f is x:
            return num(0, x.s)
        if f.s not in 'IR' or x.s not in 'IR':
            return None
        if f.op == 'ite':
            if x in f.a[0].fv:
                return None
            a, b = s.delta(f.a[1], x), s.delta(f.a[2], x)
            if a is None or b is None:
                return None
            return ite(f.a[0], a, b)
        d = sub(f, x)
        if x in d.fv:
            # x may hide inside ites of the linear combination: coefficient bookkeeping
            c0, dd = _lin(f)
            for t, k in list(dd.items()):
                if t.op == 'ite' and x in t.fv and x not in t.a[0].fv:
                    rest = _mklin(c0, {q: l for q, l in dd.items() if q is not t}, f.s)
                    return s.delta(ite(t.a[0], add(scale(t.a[1], k), rest), add(scale(t.a[2], k), rest)), x)
            return None
        return d

    def fold(s, x, f, x0, bv, lo):
        """max/min folds and conditional overwrites"""
        c, a, b = f.a
        w = fresh('w', 'I')
        at = lambda t, e: subst(t, {bv: e})
        if a is x or b is x:
            g0 = b if a is x else a
            cc = not_(c) if a is x else c        # cc: overwritten with g0
            if x not in g0.fv:
                if x in cc.fv:
                    # max/min (strictness is irrelevant for the value)
                    for op, c1, c2 in (('maxf', lt(x, g0), le(x, g0)), ('minf', lt(g0, x), le(g0, x))):
                        if cc is c1 or cc is c2:
                            def g(hi, op=op):
                                m = binder(op, w, lo, hi, at(g0, w))
                                r = ite(lt(x0, m), m, x0) if op == 'maxf' else ite(lt(m, x0), m, x0)
                                return ite(lt(lo, hi), r, x0)
                            return g(bv), g
                        # guarded fold: cc = guard and (x < g0)
                        if cc.op == 'and' and (c1 in cc.a or c2 in cc.a):
                            gd = and_(*[q for q in cc.a if q is not c1 and q is not c2])
                            if x in gd.fv:
                                continue
                            def g(hi, op=op, gd=gd):
                                t = app('guard' + op, (), 'R')
                                return app('g' + op, (x0, binder('lam', w, lo, hi, ite(gd, at(g0, w), at(g0, w)))), x.s) if False else None
                            return None
                    return None
                # conditional overwrite, last matching iteration wins
                if bv not in g0.fv:
                    g = lambda hi: ite(binder('exists', w, lo, hi, at(cc, w)), g0, x0)
                    return g(bv), g

                def g(hi):
                    last = binder('lastv', w, lo, hi, at(cc, w), 'I')
                    return ite(binder('exists', w, lo, hi, at(cc, w)), at(g0, last), x0)
                return g(bv), g
        return None

    # ---- pre-iteration array reads
    def is_ph_read(s, u, arrs):
        return u.op == 'app' and isinstance(u.a[0], str) and u.a[0].startswith('@a') and re.split(r'[\[.]', u.a[0])[0] in arrs

    def resolve_write(s, w, info, arrs, newarr, bv, lo, hi, ws, j):
        """turn read-modify-write into accumulation and resolve other reads"""
        nm = info['name']
        if w.mode in ('set', 'acc') and isinstance(w.val, (T, Cx)):
            if w.mode == 'set':
                own = info['val'].leaf(w.path, s.kind(s.path_type(info['val'].et, w.path[1:])))
                d = None
                if isinstance(w.val, Cx):
                    own = cx(own)
                    d1, d2 = s.delta(w.val.re, own.re) if own.re.op != 'num' else None, s.delta(w.val.im, own.im) if own.im.op != 'num' else None
                    if d1 is not None and d2 is not None:
                        d = Cx(d1, d2)
                elif isinstance(own, T) and w.val.s in 'IR' and own in subterms(w.val):
                    d = s.delta(w.val, own)
                if d is not None:
                    vts = _vts(d)
                    clean = not any(s.is_ph_read(u, {nm: 1}) for t in vts for u in subterms(t))
                    gclean = not any(s.is_ph_read(u, {nm: 1}) for u in subterms(w.guard))
                    if clean and gclean and all(x.mode == 'acc' or s.is_acc(x, info) for x in ws):
                        w = W(w.path, d, w.guard, w.binders, 'acc', w.site)
                    elif clean and gclean:
                        pass
        # inside this write the binders of the inner loops are in their ranges
        s.hyp_push([c for v, l, h in w.binders for c in (le(l, v), lt(v, h))])
        try:
            val = vmap(lambda t: s.resolve_reads(t, arrs, newarr, bv, lo, hi, w), w.val) if isinstance(w.val, (T, Cx)) else w.val
            guard = s.resolve_reads(w.guard, arrs, newarr, bv, lo, hi, w)
            path = tuple(s.resolve_reads(p, arrs, newarr, bv, lo, hi, w) if isinstance(p, T) else p for p in w.path)
        finally:
            s.hyp_pop()
        return W(path, val, guard, w.binders, w.mode, w.site)

    def is_acc(s, w, info):
        if w.mode != 'set' or not isinstance(w.val, (T, Cx)):
            return w.mode == 'acc'
        own = info['val'].leaf(w.path, s.kind(s.path_type(info['val'].et, w.path[1:])))
        if isinstance(w.val, Cx):
            own = cx(own)
            return s.delta(w.val.re, own.re) is not None and s.delta(w.val.im, own.im) is not None
        return own in subterms(w.val) and s.delta(w.val, own) is not None

    def resolve_reads(s, t, arrs, newarr, bv, lo, hi, w=None):
        """replace reads of the loop-entry array by the original content when no
        earlier iteration can have written the location"""
        if not isinstance(t, T):
            return t
        hits = [u for u in subterms(t) if s.is_ph_read(u, arrs)]
        if not hits:
            return t
        m = {}
        for u in sorted(hits, key=lambda q: q.id):
            nm = re.split(r'[\[.]', u.a[0])[0]
            info = arrs[nm]
            suffix = u.a[0][len(nm):]
            toks = re.findall(r'\[\]|\.#?\w+', suffix)
            args = list(u.a[1:])
            path = []
            part = None
            for tk in toks:
                if tk == '[]':
                    path.append(args.pop(0))
                else:
                    path.append(tk[1:])
            kind = u.s
            if path and path[-1] in ('re', 'im'):
                part = path.pop()
            loc = [l for l, i in ((l, x[0]) for l, x in newarr.items()) if i is info]
            if bv is None:
                raise Unsupported('value depends on an array updated in the loop')
            ws = newarr[loc[0]][2]
            for wr in ws:
                self_read = s.overlaps_earlier(wr, tuple(path), bv, lo, hi)
                if self_read:
                    raise Unsupported('loop-carried dependency through array (%s)' % show(u)[:160])
            old = info['old']
            k = 'C' if part else kind
            v = old.leaf(tuple(path), k)
            if part:
                v = cx(v)
                v = v.re if part == 're' else v.im
            m[u] = v
        r = subst(t, m)
        return r

    def overlaps_earlier(s, wr, path, bv, lo, hi):
        """may an iteration v' < bv write `path`?"""
        if len(wr.path) != len(path) and wr.mode != 'sub':
            return False
        v2 = fresh('e', 'I')
        m0 = {bv: v2}
        ren = {b[0]: fresh('e', 'I') for b in wr.binders}
        m0.update(ren)
        wp = tuple(subst(p, m0) if isinstance(p, T) else p for p in wr.path)
        guard = subst(wr.guard, m0)
        binders = ((v2, lo, hi),) + tuple((ren[b], subst(l, m0), subst(h, m0)) for b, l, h in wr.binders)
        # only the part of guard that has no array placeholders is used
        g = and_(*[q for q in (guard.a if guard.op == 'and' else (guard,)) if not any(u.op == 'app' and str(u.a[0]).startswith('@a') for u in subterms(q))])
        w2 = W(wp, num(0, 'I'), g, binders, 'set')
        try:
            r = s.match(w2, path[:len(wp)])
        except Unsupported:
            return True
        if r is None:
            return False
        c, w3, rest = r
        # is v2 solved to bv itself?
        sol = None
        c2 = and_(c, *[le(l, v) for v, l, h in rest], *[lt(v, h) for v, l, h in rest])
        # find solution of v2: the match substituted it; recompute via equality
        eqs = []
        for a, b in zip(wp, path):
            if isinstance(a, str) or isinstance(b, str):
                if a != b:
                    return False
                continue
            eqs.append(eq(a, b))
        cc = and_(g, *eqs, *[and_(le(l, v), lt(v, h)) for v, l, h in binders], lt(v2, bv), le(lo, bv), lt(bv, hi))
        if cc is FALSE:
            return False
        # v2 uniquely determined and equal to bv -> not earlier
        try:
            bs = [b for b in binders]
            a_all = [(a, b) for a, b in zip(wp, path) if isinstance(a, T)]
            for a, b in a_all:
                vs = [x for x in bs if x[0] in a.fv]
                if any(x[0] is v2 for x in vs):
                    r2 = s.solve(a, b, vs, bs)
                    if r2 is not None and v2 in r2[0]:
                        x = r2[0][v2]
                        if x is bv:
                            return False
                        if s.provable(le(bv, x)):
                            return False
        except Unsupported:
            pass
        if s.refute is not None and s.refute(cc):
            return False
        return True

    refute = None

    # ------------------------------------------------------------ expressions
    def cond(s, e, st, env):
        v = s.rv(e, st, env)
        if isinstance(v, Loc):
            v = s.load(st, v)
        if isinstance(v, T):
            return s.pcsimp(v if v.s == 'B' else ne(v, num(0, v.s)), st)
        if isinstance(v, Ptr):
            return FALSE if v.root == 'NULL' else TRUE
        if isinstance(v, PtrIte):
            return ite(v.c, TRUE if v.a.root != 'NULL' else FALSE, TRUE if v.b.root != 'NULL' else FALSE)
        if isinstance(v, Opaque):
            return var('cond:%s' % (v.tag,), 'B')
        if isinstance(v, Poison):
            raise Unsupported('condition on ' + v.why)
        raise Unsupported('condition of type %s' % type(v).__name__)

    def pcsimp(s, c, st):
        if c.op == 'bool':
            return c
        for p in st.pc:
            ps = p.a if p.op == 'and' else (p,)
            if c in ps:
                return TRUE
            if not_(c) in ps:
                return FALSE
        if c.op in ('and', 'or'):
            xs = [s.pcsimp(x, st) for x in c.a]
            return and_(*xs) if c.op == 'and' else or_(*xs)
        return c

    def rv(s, e, st, env, discard=False):
        h = getattr(s, 'e_' + e.kind, None)
        if h is None:
            raise Unsupported('expression %s at %s:%s' % (e.kind, e.tu, s.prog.line(e)))
        return h(e, st, env)

    def val(s, e, st, env):
        v = s.rv(e, st, env)
        if isinstance(v, Loc):
            v = s.load(st, v)
        return v

    def lv(s, e, st, env):
        k = e.kind
        if k == 'DeclRefExpr':
            rid = e.ref[0]
            if rid in env:
                return env[rid]
            return s.global_lv(e, st, env)
        if k in ('ParenExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr'):
            return s.lv(e.inner[0], st, env)
        if k == 'ImplicitCastExpr' and e.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'):
            return s.lv(e.inner[0], st, env)
        if k == 'ArraySubscriptExpr':
            b = s.val(e.inner[0], st, env)
            i = s.val(e.inner[1], st, env)
            if isinstance(i, Ptr):
                b, i = i, b
            return s.ptr_at(b, i, st)
        if k == 'MemberExpr':
            info = s.prog.lookup(e, e.member)
            if info and info[0] == 'var':
                return s.global_lv(e, st, env)
            if e.get('isArrow'):
                b = s.val(e.inner[0], st, env)
                base = s.ptr_loc(b, st)
            else:
                try:
                    base = s.lv(e.inner[0], st, env)
                except Unsupported:
                    v = s.val(e.inner[0], st, env)
                    if isinstance(v, Obj):
                        return Loc('rv', (v, e.name))
                    raise
            return Loc(base[0], base[1] + (e.name,))
        if k == 'UnaryOperator' and e.get('opcode') == '*':
            b = s.val(e.inner[0], st, env)
            return s.ptr_loc(b, st)
        if k == 'UnaryOperator' and e.get('opcode') in ('++', '--'):
            s.rv(e, st, env)
            return s.lv(e.inner[0], st, env)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and e.get('opcode', '').endswith('='):
            s.rv(e, st, env)
            return s.lv(e.inner[0], st, env)
        if k == 'CXXOperatorCallExpr':
            op = s.opname(e)
            u = s.user_operator(e, st, env)
            if u is not None:
                if isinstance(u[0], Loc):
                    return u[0]
                raise Unsupported('operator result is not an lvalue')
            if op == 'operator[]':
                base = s.lv(e.inner[1], st, env)
                i = s.val(e.inner[2], st, env)
                return Loc(base[0], base[1] + (i,))
            if op == 'operator*':
                v = s.val(e.inner[1], st, env)
                if isinstance(v, Ptr):
                    return s.ptr_loc(v, st)
            if op in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/='):
                s.rv(e, st, env)
                return s.lv(e.inner[1], st, env)
        if k == 'CXXMemberCallExpr':
            m = e.inner[0]
            nm = m.name
            if m.kind == 'MemberExpr' and (lambda i: i and i[1] in s.prog.funcs)(s.prog.lookup(m, m.member)):
                v = s.e_CXXMemberCallExpr(e, st, env)
                if isinstance(v, Loc):
                    return v
                raise Unsupported('call result is not an lvalue')
            if nm in ('at', 'front', 'back'):
                base = s.lv(m.inner[0], st, env)
                v = s.load(st, base)
                if isinstance(v, SArr):
                    i = s.val(e.inner[1], st, env) if nm == 'at' else (num(0, 'I') if nm == 'front' else sub(v.ln, num(1, 'I')))
                    return Loc(base[0], base[1] + (i,))
        if k == 'ConditionalOperator':
            c = s.cond(e.inner[0], st, env)
            if c is TRUE:
                return s.lv(e.inner[1], st, env)
            if c is FALSE:
                return s.lv(e.inner[2], st, env)
        if k == 'CXXThisExpr':
            raise Unsupported('this as lvalue')
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            v = s.rv(e, st, env)
            if isinstance(v, Loc):
                return v
        if k == 'StringLiteral':
            raise Unsupported('lvalue string')
        # a temporary
        raise Unsupported('lvalue %s at %s:%s' % (k, e.tu, s.prog.line(e)))

    def ptr_loc(s, b, st):
        if isinstance(b, Loc):
            b = s.load(st, b)
        if isinstance(b, Ptr):
            if b.root == 'NULL':
                raise Unsupported('null dereference')
            return Loc(*b.loc())
        raise Unsupported('dereference of %s' % type(b).__name__)

    def ptr_at(s, b, i, st):
        if isinstance(b, Loc):
            b = s.load(st, b)
        if isinstance(b, Ptr):
            if b.root == 'NULL':
                raise Unsupported('null dereference')
            if b.idx is None:
                if i.op == 'num' and i.a[0] == 0:
                    return Loc(b.root, b.path)
                return Loc(b.root, b.path + (i,))
            return Loc(b.root, b.path + (add(b.idx, i),))
        if isinstance(b, ArrLoc):
            return Loc(b.loc[0], b.loc[1] + (i,))
        if isinstance(b, (FixArr, SArr)):
            return Loc('rv', (b, i))
        raise Unsupported('subscript of %s' % type(b).__name__)

    globals_const = None

    def global_lv(s, e, st, env):
        rid = e.ref[0] if e.ref else e.member
        info = s.prog.lookup(e, rid)
        if info is None:
            nm = e.ref[2] if e.ref else e.name
            if nm in s.ext_globals:
                r = ('glob', nm)
                if r not in st.mem:
                    st.mem[r] = s.ext_globals[nm]
                return Loc(r, ())
            raise Unsupported('unknown name %s' % nm)
        q = info[1]
        r = ('glob', q)
        if r not in st.mem:
            n = s.prog.vars.get(q)
            v = None
            if q in s.global_over:
                v = s.global_over[q]
            elif n is not None and n.inner and 'const' in n.type:
                v = s.init_value(n.inner[-1], n.type, st, {'fn': q})
            else:
                t = (n or info[2]).type
                v = s.sym(t, q)
            st.mem[r] = v
        return Loc(r, ())

    ext_globals = {'npos': num(NPOS, 'I'), 'gsl_interp_cspline': Opaque('cubic spline')}
    global_over = {}

    # --- expression kinds
    def e_ParenExpr(s, e, st, env): return s.rv(e.inner[0], st, env)
    e_MaterializeTemporaryExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_ParenExpr

    def e_SubstNonTypeTemplateParmExpr(s, e, st, env): return s.rv(e.inner[-1], st, env)

    def e_IntegerLiteral(s, e, st, env): return num(int(e.get('value')), 'I')
    def e_FloatingLiteral(s, e, st, env): return num(Fraction(repr(float(e.get('value')))), 'R')
    def e_CXXBoolLiteralExpr(s, e, st, env): return TRUE if e.get('value') else FALSE
    def e_CharacterLiteral(s, e, st, env): return num(int(e.get('value')), 'I')
    def e_CXXNullPtrLiteralExpr(s, e, st, env): return NULL
    def e_GNUNullExpr(s, e, st, env): return NULL

    def e_StringLiteral(s, e, st, env):
        import ast
        try:
            return tm.st(ast.literal_eval(e.get('value')))
        except Exception:
            return tm.st(e.get('value'))

    def e_CXXThisExpr(s, e, st, env):
        t = env['this']
        return Ptr(t[0], t[1], None)

    def e_DeclRefExpr(s, e, st, env):
        if e.ref[1] in ('FunctionDecl', 'CXXMethodDecl'):
            info = s.prog.lookup(e, e.ref[0])
            return FnRef(info[1] if info else e.ref[2], e)
        if e.ref[1] == 'EnumConstantDecl':
            info = s.prog.lookup(e, e.ref[0])
            if info and info[0] == 'enum' and info[2] is not None:
                return num(info[2], 'I')
            return var('enum:' + e.ref[2], 'I')
        return s.lv(e, st, env)

    def e_MemberExpr(s, e, st, env):
        if e.type == '<bound member function type>':
            raise Unsupported('bound member')
        return s.lv(e, st, env)

    def e_ArraySubscriptExpr(s, e, st, env): return s.lv(e, st, env)

    def e_CXXDefaultArgExpr(s, e, st, env):
        if e.inner:
            return s.rv(e.inner[0], st, env)
        return None

    def e_CXXDefaultInitExpr(s, e, st, env):
        if e.inner:
            return s.rv(e.inner[0], st, env)
        raise Unsupported('default init')

    def e_ImplicitValueInitExpr(s, e, st, env): return s.zero_value(e.type, st, env)
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_InitListExpr(s, e, st, env): return s.init_list(e, e.type, st, env)

    def e_CXXStdInitializerListExpr(s, e, st, env):
        v = e.inner[0]
        while v.kind != 'InitListExpr':
            v = v.inner[0]
        et = s.elem(e.dtype if 'initializer_list' in e.dtype else e.type)
        return s.vec_of([s.init_value(c, et, st, env) for c in v.inner], et)

    def e_UnaryExprOrTypeTraitExpr(s, e, st, env):
        return var('sizeof', 'I')

    def e_ImplicitCastExpr(s, e, st, env):
        ck = e.get('castKind')
        c = e.inner[0]
        if ck == 'LValueToRValue':
            v = s.rv(c, st, env)
            return s.load(st, v) if isinstance(v, Loc) else v
        if ck in ('IntegralToFloating',):
            return toreal(s.tval(c, st, env))
        if ck == 'FloatingToIntegral':
            return trunc(s.tval(c, st, env))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            v = s.tval(c, st, env)
            return ne(v, num(0, v.s)) if v.s != 'B' else v
        if ck == 'IntegralCast':
            v = s.val(c, st, env)
            if isinstance(v, T) and v.s == 'B':
                return ite(v, num(1, 'I'), num(0, 'I'))
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'FloatingCast', 'ConstructorConversion',
                  'UserDefinedConversion', 'BuiltinFnToFnPtr', 'AtomicToNonAtomic'):
            return s.rv(c, st, env)
        if ck == 'ArrayToPointerDecay':
            if c.kind == 'StringLiteral':
                return s.rv(c, st, env)
            v = s.rv(c, st, env)
            if isinstance(v, Loc):
                return Ptr(v[0], v[1], num(0, 'I'))
            if isinstance(v, FixArr):
                s.heapn += 1
                r = ('heap', s.heapn)
                st.mem[r] = v
                return Ptr(r, (), num(0, 'I'))
            return v
        if ck in ('NullToPointer',):
            return NULL
        if ck in ('BitCast', 'ToVoid'):
            return s.rv(c, st, env)
        if ck == 'PointerToBoolean':
            return s.cond(c, st, env)
        raise Unsupported('cast ' + str(ck))

    def e_CStyleCastExpr(s, e, st, env):
        return s.cast(e, st, env)

    def cast(s, e, st, env):
        ck = e.get('castKind')
        if ck in ('FloatingToIntegral', 'IntegralToFloating', 'IntegralCast', 'LValueToRValue', 'IntegralToBoolean', 'FloatingToBoolean', 'ArrayToPointerDecay', 'NullToPointer', 'PointerToBoolean'):
            return s.e_ImplicitCastExpr(e, st, env)
        v = s.rv(e.inner[0], st, env)
        if ck in ('NoOp', 'FloatingCast', 'BitCast', 'ConstructorConversion', 'ToVoid', None, 'UserDefinedConversion'):
            if isinstance(v, T):
                return s.conv(v, e.type)
            return v
        raise Unsupported('cast ' + str(ck))

    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CStyleCastExpr

    def tval(s, e, st, env):
        v = s.val(e, st, env)
        if isinstance(v, T):
            return v
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Uninit):
            return fresh('uninit', s.kind(e.type) if s.kind(e.type) in ('I', 'R', 'B', 'S') else 'R')
        raise Unsupported('scalar expected, got %s (%s:%s)' % (type(v).__name__, e.tu, s.prog.line(e)))

    def e_UnaryOperator(s, e, st, env):
        op = e.get('opcode')
        c = e.inner[0]
        if op in ('++', '--'):
            l = s.lv(c, st, env)
            old = s.load(st, l)
            d = 1 if op == '++' else -1
            if isinstance(old, Ptr):
                new = Ptr(old.root, old.path, add(old.idx, num(d, 'I')))
            else:
                new = add(old, num(d, old.s))
            s.store(st, l, new)
            return old if e.get('isPostfix') else new
        if op == '*':
            return s.lv(e, st, env)
        if op == '&':
            v = s.rv(c, st, env)
            if isinstance(v, Loc):
                if v[1] and isinstance(v[1][-1], T):
                    return Ptr(v[0], v[1][:-1], v[1][-1])
                return Ptr(v[0], v[1], None)
            if isinstance(v, FnRef):
                return v
            raise Unsupported('address of rvalue')
        v = s.val(c, st, env)
        if op == '-':
            if isinstance(v, Cx):
                return -v
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return not_(s.cond(c, st, env)) if not isinstance(v, T) else not_(v if v.s == 'B' else ne(v, num(0, v.s)))
        raise Unsupported('unary ' + op)

    def arith(s, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if isinstance(a, Uninit):
            a = fresh('uninit', b.s if isinstance(b, T) else 'R')
        if isinstance(b, Uninit):
            b = fresh('uninit', a.s if isinstance(a, T) else 'R')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ('==', '!='):
                if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                    raise Unsupported('pointer comparison')
                r = TRUE if (a.root == b.root and a.path == b.path and (a.idx is b.idx or (a.idx is not None and b.idx is not None and eq(a.idx, b.idx) is TRUE))) else FALSE
                if a.root == b.root and r is FALSE and a.idx is not None and b.idx is not None:
                    r = eq(a.idx, b.idx)
                return r if op == '==' else not_(r)
            if op == '+':
                if isinstance(b, Ptr):
                    a, b = b, a
                return Ptr(a.root, a.path, add(a.idx if a.idx is not None else num(0, 'I'), b))
            if op == '-' and isinstance(b, T):
                return Ptr(a.root, a.path, sub(a.idx, b))
            if op == '-' and isinstance(b, Ptr) and a.root == b.root:
                return sub(a.idx, b.idx)
            if op in ('<', '<=', '>', '>=') and a.root == b.root:
                return s.arith(op, a.idx, b.idx)
            raise Unsupported('pointer arithmetic ' + op)
        if isinstance(a, PtrIte) or isinstance(b, PtrIte):
            if isinstance(a, PtrIte):
                return ite(a.c, s.arith(op, a.a, b), s.arith(op, a.b, b))
            return ite(b.c, s.arith(op, a, b.a), s.arith(op, a, b.b))
        if isinstance(a, Cx) or isinstance(b, Cx):
            if op == '+': return cx(a) + cx(b)
            if op == '-': return cx(a) - cx(b)
            if op == '*': return cx(a) * cx(b)
            if op == '/': return cx(a) / cx(b)
            if op == '==': return and_(eq(cx(a).re, cx(b).re), eq(cx(a).im, cx(b).im))
            if op == '!=': return not_(and_(eq(cx(a).re, cx(b).re), eq(cx(a).im, cx(b).im)))
            raise Unsupported('complex ' + op)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return var('opq:%s%s%s' % (a, op, b), 'B')
            return Opaque('arith')
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported('arith %s on %s,%s' % (op, type(a).__name__, type(b).__name__))
        if a.s == 'S' or b.s == 'S':
            if op == '==': return eq(a, b)
            if op == '!=': return not_(eq(a, b))
            if op == '+':
                return s.strcat(a, b)
            return app('str' + op, (a, b), 'B')
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*': return mul(a, b)
        if op == '/':
            if a.s != 'R' and b.s != 'R':
                return idiv(a, b)
            return div(a, b)
        if op == '%': return imod(a, b)
        if op == '<': return lt(a, b)
        if op == '<=': return le(a, b)
        if op == '>': return lt(b, a)
        if op == '>=': return le(b, a)
        if op == '==': return eq(a, b)
        if op == '!=': return not_(eq(a, b))
        if op in ('<<', '>>', '&', '|', '^'):
            if a.op == 'num' and b.op == 'num':
                x, y = a.a[0], b.a[0]
                return num({'<<': x << y, '>>': x >> y, '&': x & y, '|': x | y, '^': x ^ y}[op], 'I')
            return app('bit' + op, (a, b), 'I')
        raise Unsupported('operator ' + op)

    def strcat(s, a, b): return tm.strcat(a, b)

    def e_BinaryOperator(s, e, st, env):
        op = e.get('opcode')
        a, b = e.inner
        if op == '=':
            v = s.val(b, st, env)
            l = s.lv(a, st, env)
            s.store(st, l, s.conv(v, a.type))
            return l
        if op == ',':
            s.rv(a, st, env)
            return s.rv(b, st, env)
        if op in ('&&', '||'):
            ca = s.cond(a, st, env)
            if op == '&&' and ca is FALSE:
                return FALSE
            if op == '||' and ca is TRUE:
                return TRUE
            sub_ = st.fork(ca if op == '&&' else not_(ca))
            cb = s.cond(b, sub_, env)
            # side effects in conditions are not expected
            return and_(ca, cb) if op == '&&' else or_(ca, cb)
        va = s.val(a, st, env)
        vb = s.val(b, st, env)
        return s.arith(op, va, vb)

    def e_CompoundAssignOperator(s, e, st, env):
        op = e.get('opcode')[:-1]
        a, b = e.inner
        vb = s.val(b, st, env)
        l = s.lv(a, st, env)
        if op in '+-' and s.naming and l[0] != 'rv' and s.kind(a.type) == 'R' and isinstance(vb, T):
            arr = s.getroot(st, l[0])
            if isinstance(arr, SArr) and not isinstance(l[1][-1], str):
                # an accumulation is recorded as such, without reading the element
                if s.record and arr.ln is not None:
                    s.access(st, l[1][0], arr.ln)
                vb = toreal(vb)
                st.mem[l[0]] = arr.with_write(W(tuple(l[1]), vb if op == '+' else neg(vb), TRUE, (), 'acc', s.site))
                return l
        va = s.load(st, l)
        r = s.arith(op, va, vb)
        s.store(st, l, s.conv(r, a.type))
        return l

    def e_ConditionalOperator(s, e, st, env):
        c = s.cond(e.inner[0], st, env)
        if c is TRUE:
            return s.rv(e.inner[1], st, env)
        if c is FALSE:
            return s.rv(e.inner[2], st, env)
        a_st, b_st = st.fork(c), st.fork(not_(c))
        va = s.val(e.inner[1], a_st, env)
        vb = s.val(e.inner[2], b_st, env)
        for r, v in a_st.mem.items():
            if r not in st.mem:
                st.mem[r] = v
        for r, v in b_st.mem.items():
            if r not in st.mem:
                st.mem[r] = v
        if isinstance(va, Uninit) or isinstance(vb, Uninit):
            raise Unsupported('uninitialised in conditional')
        return vite(c, va, vb)

    def e_CXXNewExpr(s, e, st, env):
        t = e.type  # pointer type
        et = s.elem(t)
        s.heapn += 1
        r = ('heap', s.heapn)
        if e.get('isArray'):
            n = s.val(e.inner[0], st, env)
            # class types are default-constructed; scalars only when value-initialised
            fill = None
            if s.kind(et) in ('C', 'S', 'vec'):
                fill = s.default_value(et, st, env)
            elif e.get('initStyle') is not None and s.kind(et) in ('I', 'R', 'B', 'ptr'):
                fill = s.zero_value(et, st, env)
            st.mem[r] = s.new_vec(et, n, fill)
            return Ptr(r, (), num(0, 'I'))
        ini = [c for c in e.inner if c.kind not in ('Null',)]
        if ini:
            st.mem[r] = s.init_value(ini[0], et, st, env)
        else:
            st.mem[r] = s.default_value(et, st, env)
        return Ptr(r, (), None)

    def e_CXXDeleteExpr(s, e, st, env):
        return None

    def e_LambdaExpr(s, e, st, env):
        return Clo(e, dict(env))

    def e_CXXTemporaryObjectExpr(s, e, st, env): return s.construct(e, st, env)
    def e_CXXConstructExpr(s, e, st, env): return s.construct(e, st, env)

    def e_CXXThrowExpr(s, e, st, env):
        s.throws.append((st.cond(), (env.get('fn'), s.prog.line(e)), e.inner[0].type if e.inner else ''))
        raise Infeasible('throw expression')

    def construct(s, e, st, env):
        t = e.type
        k = s.kind(t)
        args = [c for c in e.inner if c.kind != 'CXXDefaultArgExpr']
        if k == 'S':
            if not args:
                return tm.st('')
            v = s.val(args[0], st, env)
            if isinstance(v, Ptr):
                b = st.mem.get(v.root)
                if isinstance(b, T) and b.s == 'S' and not v.path:
                    return b
            if isinstance(v, SArr) or isinstance(v, Ptr):
                return app('string_of', (var('buf', 'I'),), 'S')
            if len(args) > 1:
                vs = [s.val(a, st, env) for a in args]
                return app('string_ctor', tuple(x for x in vs if isinstance(x, T)), 'S')
            return v
        if k == 'C':
            vs = [s.val(a, st, env) for a in args]
            if len(vs) == 1 and isinstance(vs[0], Cx):
                return vs[0] if vs else Poison('empty std::function')
            return Cx(*vs) if vs else Cx(0)
        if k == 'vec':
            et = s.elem(t)
            if not args:
                return s.new_vec(et, num(0, 'I'))
            vs = [s.val(a, st, env) for a in args]
            if isinstance(vs[0], SArr):
                return vs[0] if vs else Poison('empty std::function')
            if isinstance(vs[0], Ptr) and len(vs) >= 2 and isinstance(vs[1], Ptr):
                return s.range_vec(vs[0], vs[1], et, st)
            if isinstance(vs[0], T):
                fill = vs[1] if len(vs) > 1 else s.zero_value(et, st, env)
                if isinstance(fill, T):
                    fill = s.conv(fill, et)
                return s.new_vec(et, vs[0], fill)
            raise Unsupported('vector constructor')
        if k == 'obj':
            cls = s.cls(t)
            if len(args) == 1:
                at = norm_type(args[0].type)
                if s.cls(at) == cls:
                    cq = cls + '::' + cls.split('::')[-1]
                    cps = [n for n in s.prog.funcs.get(cq, []) if re.search(r'\(const [\w:]+ &\)', n.type) and s.cls(re.search(r'\(const ([\w:]+) &\)', n.type).group(1)) == cls]
                    v = s.rv(args[0], st, env)
                    if cq in s.contracts and cps:
                        return s.contracts[cq](s, st, None, [v], e)
                    if not cps:
                        return s.load(st, v) if isinstance(v, Loc) else v
                    return s.run_ctor(cls, cps[0], [v], st, env)
            cq = cls + '::' + cls.split('::')[-1]
            if cq in s.contracts:
                avs = [s.rv(a, st, env) for a in args]
                return s.contracts[cq](s, st, None, avs, e)
            cands = s.prog.funcs.get(cq, [])
            sel = s.pick(cands, args)
            if sel is None:
                if not args:
                    return s.new_obj(cls, st, env)
                raise Unsupported('constructor of ' + cls)
            avs = [s.arg(a, p, st, env) for a, p in zip(args, [c for c in sel.inner if c.kind == 'ParmVarDecl'])]
            return s.run_ctor(cls, sel, avs, st, env)
        if k == 'opaque:' + norm_type(t) or k.startswith('opaque'):
            vs = []
            for a in args:
                try:
                    vs.append(s.val(a, st, env))
                except (Unsupported, Infeasible):
                    vs.append(None)
            if 'function<' in t or '(lambda' in t:
                return vs[0] if vs else Poison('empty std::function')
            return Opaque(s.newname(norm_type(t)))
        if args:
            return s.rv(args[0], st, env)
        raise Unsupported('construct ' + t)

    def range_vec(s, a, b, et, st):
        n = sub(b.idx, a.idx)
        src = s.load(st, Loc(a.root, a.path))
        off = a.idx
        if isinstance(src, FixArr):
            src = s.vec_of(src.e, et)
        return SArr(('fn', lambda path, k: src.leaf((add(path[0], off),) + path[1:], k)), (), et, n, s)

    def run_ctor(s, cls, node, avs, st, env):
        s.heapn += 1
        r = ('heap', s.heapn)
        st.mem[r] = s.new_obj(cls, st, env)
        s.call_fn(node, st, Loc(r, ()), avs, cls + '::' + cls.split('::')[-1])
        return st.mem.get(r)

    def pick(s, cands, args):
        best = None
        for n in cands:
            ps = [c for c in n.inner if c.kind == 'ParmVarDecl']
            nreq = sum(1 for p in ps if not p.get('init'))
            if not (nreq <= len(args) <= len(ps)):
                continue
            score = 0
            for a, p in zip(args, ps):
                ta, tp = norm_type(a.type), norm_type(p.type)
                if ta == tp:
                    score += 3
                elif s.kind(ta) == s.kind(tp):
                    score += 2 if not (s.kind(ta) in ('ptr', 'obj', 'vec') and s.kind(ta) == s.kind(tp) and s._tail(ta) != s._tail(tp)) else -5
                elif {s.kind(ta), s.kind(tp)} <= {'I', 'R', 'B', 'C'}:
                    score += 0
                elif {s.kind(ta), s.kind(tp)} == {'fix', 'ptr'} or {s.kind(ta), s.kind(tp)} == {'vla', 'ptr'}:
                    score += 2
                else:
                    score -= 5
            if best is None or score > best[0]:
                best = (score, n)
        return best[1] if best else None

    def _tail(s, t):
        return t.replace('trv::', '').replace('std::', '').replace(' ', '')

    def arg(s, a, p, st, env):
        """argument passing: references by location"""
        if p is not None and p.type.endswith('&'):
            if p.type.startswith('const') and s.kind(p.type) in ('I', 'R', 'B', 'S', 'C'):
                return s.val(a, st, env)
            try:
                return s.lv(a, st, env)
            except Unsupported:
                return s.val(a, st, env)
        return s.val(a, st, env)

    # --- calls
    def opname(s, e):
        c = e.inner[0]
        while c.kind in ('ImplicitCastExpr',):
            c = c.inner[0]
        return c.ref[2] if c.ref else c.name

    def user_operator(s, e, st, env):
        """an operator overloaded in the repository's own classes -> (result,) or None"""
        c = e.inner[0]
        while c.kind in ('ImplicitCastExpr',):
            c = c.inner[0]
        if c.kind != 'DeclRefExpr' or not c.ref:
            return None
        info = s.prog.lookup(c, c.ref[0])
        q = info[1] if info else None
        if not q or not q.startswith('trv') or q not in s.prog.funcs:
            return None
        cands = s.prog.funcs[q]
        ex = [n for n in cands if n.type == info[2]]
        sel = ex[0] if ex else s.pick(cands, e.inner[2:])
        if sel.name == 'operator=' and (sel.get('isImplicit') or sel.get('explicitlyDefaulted')):
            return None         # memberwise
        ps = [x for x in sel.inner if x.kind == 'ParmVarDecl']
        args = e.inner[1:]
        th = None
        if len(ps) < len(args):
            try:
                th = s.lv(args[0], st, env)
            except Unsupported:
                v = s.val(args[0], st, env)
                s.heapn += 1
                st.mem[('heap', s.heapn)] = v
                th = Loc(('heap', s.heapn), ())
            args = args[1:]
        return (s.call_fn(sel, st, th, [s.arg(a, ps[i], st, env) for i, a in enumerate(args)], q),)

    def e_CXXOperatorCallExpr(s, e, st, env):
        u = s.user_operator(e, st, env)
        if u is not None:
            return u[0]
        op = s.opname(e)
        a = e.inner[1:]
        o = op[8:]
        if op == 'operator[]':
            try:
                return s.lv(e, st, env)
            except Unsupported:
                base = s.val(a[0], st, env)
                i = s.val(a[1], st, env)
                if isinstance(base, SArr):
                    if s.record and base.ln is not None:
                        s.access(st, i, base.ln)
                    return base.read((i,))
                if isinstance(base, T) and base.s == 'S':
                    return app('strchar', (base, i), 'I')
                raise
        if op == 'operator()':
            f = s.val(a[0], st, env)
            args = a[1:]
            return s.call_value(f, args, st, env)
        if op == 'operator=':
            l = s.lv(a[0], st, env)
            if s.kind(a[0].type) == 'C':
                v = cx(s.val(a[1], st, env))
            else:
                v = s.text(s.val(a[1], st, env), a[0].type, st)
                if isinstance(v, T):
                    v = s.conv(v, a[0].type)
            s.store(st, l, v)
            return l
        if o in ('+=', '-=', '*=', '/='):
            vb = s.text(s.val(a[1], st, env), a[0].type, st)
            l = s.lv(a[0], st, env)
            va = s.load(st, l)
            s.store(st, l, s.arith(o[0], va, vb))
            return l
        if o in ('<<', '>>'):
            l = s.val(a[0], st, env)
            r = None
            if o == '<<':
                r = s.val(a[1], st, env)
                if isinstance(l, T) and isinstance(r, T) and l.s == 'I':
                    return s.arith(o, l, r)
                return l
            raise Unsupported('stream extraction')
        if o in ('++', '--'):
            raise Unsupported('iterator increment')
        if len(a) == 1:
            v = s.val(a[0], st, env)
            if o == '-':
                return -v if isinstance(v, Cx) else neg(v)
            if o == '+':
                return v
            if o == '*':
                return s.lv(e, st, env)
            if o == '->':
                return v
            raise Unsupported('unary operator' + o)
        va, vb = s.val(a[0], st, env), s.val(a[1], st, env)
        if isinstance(vb, Ptr):
            vb = s.text(vb, a[0].type, st)
        if isinstance(va, Ptr):
            va = s.text(va, a[1].type, st)
        return s.arith(o, va, vb)

    def text(s, v, t, st):
        """a character buffer read as a string"""
        if isinstance(v, Ptr) and not v.path and s.kind(t) == 'S':
            b = st.mem.get(v.root)
            if isinstance(b, T) and b.s == 'S':
                return b
        return v

    def call_value(s, f, argnodes, st, env):
        if isinstance(f, FnRef):
            n = s.prog.funcs.get(f.q)
            if f.q in s.contracts:
                return s.contracts[f.q](s, st, None, [s.rv(a, st, env) for a in argnodes], None)
            if n:
                sel = s.pick(n, argnodes)
                ps = [c for c in sel.inner if c.kind == 'ParmVarDecl']
                return s.call_fn(sel, st, None, [s.arg(a, p, st, env) for a, p in zip(argnodes, ps)], f.q)
            raise Unsupported('call through ' + f.q)
        if isinstance(f, CloIte):
            if f.c is TRUE:
                return s.call_value(f.a, argnodes, st, env)
            a, b = st.fork(f.c), st.fork(not_(f.c))
            va = s.call_value(f.a, argnodes, a, env)
            vb = s.call_value(f.b, argnodes, b, env)
            m = merge_states(a, b)
            st.mem = m.mem
            return vite(f.c, va, vb)
        if isinstance(f, Clo):
            # find operator() in the lambda class
            m = [x for x in f.node.walk() if x.kind == 'CXXMethodDecl' and x.name == 'operator()']
            node = m[0]
            env2 = dict(f.env)
            s.frame += 1
            fr = s.frame
            ps = [c for c in node.inner if c.kind == 'ParmVarDecl']
            for a, p in zip(argnodes, ps):
                v = s.arg(a, p, st, env)
                if isinstance(v, Loc) and p.type.endswith('&'):
                    env2[p.get('id')] = v
                    # the body may be attached twice in the AST with other ids
                else:
                    r = ('loc', fr, p.get('id'))
                    st.mem[r] = s.conv(v, p.type) if not isinstance(v, Loc) else s.load(st, v)
                    env2[p.get('id')] = Loc(r, ())
            body = [c for c in node.inner if c.kind == 'CompoundStmt'][0]
            env2['#frame'] = fr
            fl = Flow()
            end = s.stmt(body, st, env2, fl)
            outs = list(fl.rets) + ([(end, None)] if end is not None else [])
            stm, val = outs[0]
            for st2, v2 in outs[1:]:
                n = 0
                while n < len(stm.pc) and n < len(st2.pc) and stm.pc[n] is st2.pc[n]:
                    n += 1
                if val is not None:
                    val = vite(and_(*stm.pc[n:]), val, v2)
                stm = merge_states(stm, st2)
            st.mem, st.pc = stm.mem, stm.pc
            return val
        raise Unsupported('call of %s' % type(f).__name__)

    def e_CallExpr(s, e, st, env):
        c = e.inner[0]
        while c.kind in ('ImplicitCastExpr', 'ParenExpr', 'UnaryOperator'):
            c = c.inner[0]
        args = e.inner[1:]
        if c.kind != 'DeclRefExpr' or c.ref[1] not in ('FunctionDecl', 'CXXMethodDecl'):
            f = s.val(e.inner[0], st, env)
            return s.call_value(f, args, st, env)
        name = c.ref[2]
        info = s.prog.lookup(c, c.ref[0])
        q = info[1] if info else name
        if name in IGNORED_CALLEES and (q or '').startswith('trv::sys::'):
            return None         # memory and progress bookkeeping
        if q in s.contracts:
            r = s.contracts[q](s, st, None, [s.rv(a, st, env) for a in args], e)
            if r is not NotImplemented:
                return r
        if info and q in s.prog.funcs:
            cands = s.prog.funcs[q]
            ex = [n for n in cands if n.type == info[2]]
            sel = ex[0] if ex else s.pick(cands, args)
            ps = [x for x in sel.inner if x.kind == 'ParmVarDecl']
            avs = []
            for i, a in enumerate(args):
                if a.kind == 'CXXDefaultArgExpr':
                    if a.inner:
                        avs.append(s.val(a.inner[0], st, env))
                    elif ps[i].inner:
                        avs.append(s.val(ps[i].inner[0], st, env))
                    else:
                        avs.append(s.default_arg(q, i, st, env))
                else:
                    avs.append(s.arg(a, ps[i], st, env))
            return s.call_fn(sel, st, None, avs, q)
        return s.builtin(name, q, args, e, st, env)

    def default_arg(s, q, i, st, env):
        raise Unsupported('default argument of ' + q)

    def e_CXXMemberCallExpr(s, e, st, env):
        m = e.inner[0]
        while m.kind in ('ParenExpr', 'ImplicitCastExpr'):
            m = m.inner[0]
        name = m.name
        if name in IGNORED_CALLEES:
            return None
        args = e.inner[1:]
        info = s.prog.lookup(m, m.member)
        q = info[1] if info else None
        if q and '::Logger::' in q or q and '::ProgressBar::' in q:
            return None
        if q and q in s.contracts:
            th = s.this_of(m, st, env)
            r = s.contracts[q](s, st, th, [s.rv(a, st, env) for a in args], e)
            if r is not NotImplemented:
                return r
        if q and q in s.prog.funcs:
            th = s.this_of(m, st, env)
            cands = s.prog.funcs[q]
            ex = [n for n in cands if n.type == info[2]]
            sel = ex[0] if ex else s.pick(cands, args)
            ps = [x for x in sel.inner if x.kind == 'ParmVarDecl']
            avs = []
            for i, a in enumerate(args):
                if a.kind == 'CXXDefaultArgExpr':
                    src = a.inner or ps[i].inner
                    if not src:
                        src = s.decl_default(m, i)
                    avs.append(s.val(src[0], st, env))
                else:
                    avs.append(s.arg(a, ps[i], st, env))
            return s.call_fn(sel, st, th, avs, q)
        if q and info[0] == 'func':
            raise Unsupported('no body for ' + q)
        return s.std_method(name, m, args, e, st, env)

    def decl_default(s, m, i):
        raise Unsupported('default argument of method ' + m.name)

    def this_of(s, m, st, env):
        if m.get('isArrow'):
            b = s.val(m.inner[0], st, env)
            return s.ptr_loc(b, st)
        try:
            return s.lv(m.inner[0], st, env)
        except Unsupported:
            v = s.val(m.inner[0], st, env)
            s.heapn += 1
            r = ('heap', s.heapn)
            st.mem[r] = v
            return Loc(r, ())

    def std_method(s, name, m, args, e, st, env):
        loc = None
        try:
            loc = s.this_of(m, st, env)
            v = s.load(st, loc)
        except Unsupported:
            v = s.val(m.inner[0], st, env)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, FixArr):
            if name == 'size':
                return num(len(v.e), 'I')
            if name in ('data', 'begin'):
                return Ptr(loc[0], loc[1], num(0, 'I'))
            if name == 'end':
                return Ptr(loc[0], loc[1], num(len(v.e), 'I'))
        if isinstance(v, SArr):
            if name in ('size', 'length'):
                return v.ln
            if name == 'empty':
                return eq(v.ln, num(0, 'I'))
            if name in ('reserve', 'shrink_to_fit'):
                return None
            if name in ('push_back', 'emplace_back'):
                if name == 'emplace_back' and s.kind(v.et) == 'obj':
                    raise Unsupported('emplace_back of object')
                x = s.val(args[0], st, env)
                if isinstance(x, T):
                    x = s.conv(x, v.et)
                rec, s.record = s.record, False
                v2 = s.sarr_store(v, (v.ln,), x)
                s.record = rec
                s.store(st, loc, v2.with_len(add(v.ln, num(1, 'I'))))
                return None
            if name == 'clear':
                s.store(st, loc, s.new_vec(v.et, num(0, 'I')))
                return None
            if name in ('resize', 'assign'):
                n = s.val(args[0], st, env)
                if isinstance(n, Ptr) and name == 'assign':
                    s.store(st, loc, s.range_vec(n, s.val(args[1], st, env), v.et, st))
                    return None
                real = [a for a in args if a.kind != 'CXXDefaultArgExpr']
                fill = s.val(real[1], st, env) if len(real) > 1 else s.zero_value(v.et, st, env)
                if isinstance(fill, T):
                    fill = s.conv(fill, v.et)
                if name == 'assign' or v.ln is num(0, 'I'):
                    s.store(st, loc, s.new_vec(v.et, n, fill))
                else:
                    old = v
                    f2 = s.new_vec(v.et, n, fill)

                    def rd(path, k, old=old, f2=f2):
                        return vite(lt(path[0], old.ln), old.leaf(path, k), f2.leaf(path, k))
                    s.store(st, loc, SArr(('fn', rd), (), v.et, n, s))
                return None
            if name in ('begin', 'cbegin', 'data'):
                return Ptr(loc[0], loc[1], num(0, 'I'))
            if name in ('end', 'cend'):
                return Ptr(loc[0], loc[1], v.ln)
            if name in ('at', 'back', 'front'):
                return s.lv(e, st, env)
            if name == 'pop_back':
                s.store(st, loc, v.with_len(sub(v.ln, num(1, 'I'))))
                return None
            raise Unsupported('vector::' + name)
        if isinstance(v, Cx):
            real = [a for a in args if a.kind != 'CXXDefaultArgExpr']
            if name == 'real' and not real:
                return v.re
            if name == 'imag' and not real:
                return v.im
            x = s.val(real[0], st, env)
            s.store(st, loc, Cx(x, v.im) if name == 'real' else Cx(v.re, x))
            return None
        if isinstance(v, T) and v.s == 'S':
            if name in ('c_str', 'data'):
                return v
            if name in ('size', 'length'):
                return num(len(v.a[0]), 'I') if v.op == 'str' else app('strlen', (v,), 'I')
            if name == 'empty':
                return eq(v, tm.st(''))
            if name in ('find', 'rfind', 'find_first_not_of'):
                xs = [s.val(a, st, env) for a in args if a.kind != 'CXXDefaultArgExpr']
                if v.op == 'str' and all(isinstance(x, T) and x.op in ('str', 'num') for x in xs):
                    t = [x.a[0] if x.op == 'str' else int(x.a[0]) for x in xs]
                    if name == 'find_first_not_of':
                        r = next((i for i, c in enumerate(v.a[0]) if c not in t[0]), -1)
                    elif name == 'find':
                        r = v.a[0].find(*t)
                    else:
                        r = v.a[0][:t[1] + len(t[0])].rfind(t[0]) if len(t) > 1 else v.a[0].rfind(t[0])
                    return num(r if r >= 0 else NPOS, 'I')
                return app({'find': 'strfind', 'rfind': 'strrfind', 'find_first_not_of': 'strnotof'}[name], (v,) + tuple(xs), 'I')
            if name in ('push_back', 'append', 'operator+='):
                x = s.val(args[0], st, env)
                s.store(st, loc, s.strcat(v, x))
                return loc
            if name == 'clear':
                s.store(st, loc, tm.st(''))
                return None
            if name == 'erase':
                xs = [s.val(a, st, env) for a in args if a.kind != 'CXXDefaultArgExpr']
                if v.op == 'str' and len(xs) == 2 and all(x.op == 'num' for x in xs):
                    i, n = (int(x.a[0]) for x in xs)
                    s.store(st, loc, tm.st(v.a[0][:i] + v.a[0][i + n:]))
                    return loc
                raise Unsupported('erase %s of %s' % (', '.join(map(show, xs)), show(v)))
            if name == 'substr':
                xs = [s.val(a, st, env) for a in args if a.kind != 'CXXDefaultArgExpr']
                if v.op == 'str' and all(x.op == 'num' for x in xs):
                    i, n = int(xs[0].a[0]), (int(xs[1].a[0]) if len(xs) > 1 else NPOS)
                    return tm.st(v.a[0][i:][:n])
                return app('substr', (v,) + tuple(xs), 'S')
            if name == 'compare':
                x = s.val(args[0], st, env)
                return ite(eq(v, x), num(0, 'I'), num(1, 'I'))
            if name in ('operator basic_string_view', 'operator std::basic_string_view'):
                return v
            if name in ('operator[]', 'at'):
                return app('strchar', (v, s.val(args[0], st, env)), 'I')
        if isinstance(v, Opaque):
            if 'numeric_limits' in str(v.tag):
                pass
            for a in args:
                try:
                    s.val(a, st, env)
                except (Unsupported, Infeasible):
                    pass
            return Opaque('%s.%s' % (v.tag, name))
        if isinstance(v, Ptr) and name in ('get', 'reset', 'release'):
            return v
        if isinstance(v, Uninit):
            raise Unsupported('method %s on uninitialised' % name)
        raise Unsupported('method %s on %s' % (name, type(v).__name__))

    # --- library functions
    def builtin(s, name, q, argn, e, st, env):
        h = getattr(s, 'b_' + name, None)
        if name in s.pure_uf:
            args = [s.tval(a, st, env) for a in argn]
            args = [toreal(a) if srt == 'R' else a for a, srt in zip(args, s.pure_uf[name][0])]
            return app(name, tuple(args), s.pure_uf[name][1])
        if name in s.noops:
            for a in argn:
                try:
                    s.rv(a, st, env)
                except (Unsupported, Infeasible):
                    pass
            return None
        if h is not None:
            return h(e, argn, st, env)
        raise Unsupported('library call %s at %s:%s' % (name, e.tu, s.prog.line(e)))

    pure_uf = {
        'gsl_sf_coupling_3j': ('IIIIII', 'R'), 'gsl_sf_legendre_sphPlm': ('IIR', 'R'), 'gsl_sf_bessel_jl': ('IR', 'R'),
        'omp_get_max_threads': ('', 'I'), 'omp_get_thread_num': ('', 'I'), 'omp_get_num_threads': ('', 'I'), 'omp_get_num_procs': ('', 'I'),
    }
    noops = {'printf', 'fflush', 'free', 'fftw_free', 'fftw_destroy_plan', 'gsl_interp_accel_free', 'gsl_spline_free', 'fftw_cleanup', 'fftw_cleanup_threads',
             'fftw_plan_with_nthreads', 'fftw_import_wisdom_from_filename', 'fftw_export_wisdom_to_filename', 'fftw_init_threads', 'omp_set_num_threads', 'sprintf', 'fclose', 'puts', 'exit'}

    def _real1(s, argn, st, env):
        return toreal(s.tval(argn[0], st, env))

    def _uf1(name):
        def f(s, e, argn, st, env):
            v = s.val(argn[0], st, env)
            return s.uf1(name, v)
        return f

    def uf1(s, name, v):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Cx):
            if name == 'exp':
                ex = s.uf1('exp', v.re)
                return Cx(mul(ex, s.uf1('cos', v.im)), mul(ex, s.uf1('sin', v.im)))
            if name == 'abs' or name == 'fabs':
                return s.sqrt(add(mul(v.re, v.re), mul(v.im, v.im)))
            return Cx(app('c' + name + '.re', (v.re, v.im), 'R'), app('c' + name + '.im', (v.re, v.im), 'R'))
        v = toreal(v)
        return real_fn(name, v)

    for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'acos', 'asin', 'atan', 'log10', 'sinh', 'cosh', 'tanh', 'log2', 'cbrt'):
        locals()['b_' + _n] = _uf1(_n)

    def sqrt(s, v):
        if v.op == 'num':
            import math
            f = Fraction(v.a[0])
            if f >= 0:
                a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if a * a == f.numerator and b * b == f.denominator:
                    return num(Fraction(a, b), 'R')
        return app('sqrt', (v,), 'R')

    def format(s, vals):
        """the text of a printf format with its arguments"""
        out, k = tm.st(''), 1
        for lit, conv in re.findall(r'((?:[^%]|%%)*)(%[-+ 0-9.]*(?:hh|h|ll|l|z)?[a-zA-Z])?', vals[0].a[0]):
            out = s.strcat(out, tm.st(lit.replace('%%', '%')))
            if conv:
                x = vals[k]
                k += 1
                out = s.strcat(out, x if conv == '%s' and x.s == 'S' else app('fmt' + conv, (x,), 'S'))
        return out

    def b_snprintf(s, e, a, st, env):
        try:
            b = s.rv(a[0], st, env)
            vals = [s.val(x, st, env) for x in a[2:]]
            if isinstance(b, Ptr) and not b.path and all(isinstance(x, T) for x in vals) and vals[0].op == 'str':
                st.mem[b.root] = s.format(vals)
        except (Unsupported, Infeasible):
            pass
        return app('printed', (), 'I')

    def b_fprintf(s, e, a, st, env):
        vals = []
        for x in a:
            try:
                vals.append(s.val(x, st, env))
            except (Unsupported, Infeasible):
                vals.append(None)
        s.prints = list(s.prints) + [(st.cond(), vals)]
        return app('printed', (), 'I')

    def b_sqrt(s, e, a, st, env):
        v = s.val(a[0], st, env)
        if isinstance(v, Cx):
            return s.uf1('sqrt', v)
        return s.sqrt(toreal(v))

    def b_fabs(s, e, a, st, env):
        v = s.val(a[0], st, env)
        if isinstance(v, Cx):
            return s.uf1('abs', v)
        return ite(le(num(0, v.s), v), v, neg(v))
    b_abs = b_fabs

    def b_conj(s, e, a, st, env): return cx(s.val(a[0], st, env)).conj()
    def b_real(s, e, a, st, env): return cx(s.val(a[0], st, env)).re
    def b_imag(s, e, a, st, env): return cx(s.val(a[0], st, env)).im

    def b_norm(s, e, a, st, env):
        v = cx(s.val(a[0], st, env))
        return add(mul(v.re, v.re), mul(v.im, v.im))

    def b_arg(s, e, a, st, env):
        v = cx(s.val(a[0], st, env))
        return app('arg', (v.re, v.im), 'R')

    def b_floor(s, e, a, st, env): return floor(s._real1(a, st, env))
    def b_ceil(s, e, a, st, env): return neg(floor(neg(s._real1(a, st, env))))

    def b_round(s, e, a, st, env):
        v = s._real1(a, st, env)
        return app('round', (v,), 'R')

    def b_fmod(s, e, a, st, env):
        x, y = s._real1(a, st, env), toreal(s.tval(a[1], st, env))
        return app('fmod', (x, y), 'R')

    def b_pow(s, e, a, st, env):
        x = s.val(a[0], st, env)
        y = s.val(a[1], st, env)
        if isinstance(y, Cx) or isinstance(x, Cx):
            if isinstance(y, T) and y.op == 'num' and isinstance(y.a[0], int) and 0 <= y.a[0] <= 8:
                r = Cx(1)
                for _ in range(y.a[0]):
                    r = r * x
                return r
            yi = as_int(y) if isinstance(y, T) else None
            if yi is not None and yi.op == 'num' and -8 <= yi.a[0] < 0:
                r = Cx(1)
                for _ in range(-int(yi.a[0])):
                    r = r * cx(x)
                return cx(Cx(1)) / r
            if yi is not None and cx(x).re.op == 'num' and cx(x).im.op == 'num' and cx(x).re.a[0] == 0 and cx(x).im.a[0] == 1:
                c, d = tm._lin(yi)                  # powers of the imaginary unit: multiples of four drop out
                if all(Fraction(k).denominator == 1 for k in list(d.values()) + [c]):
                    yi = num(int(c) % 4, 'I')
                    for f, k in d.items():
                        yi = add(yi, mul(f, num(int(k) % 4, 'I')))
                q = imod(add(imod(yi, num(4, 'I')), num(4, 'I')), num(4, 'I'))
                w = lambda a, b, c, d: ite(eq(q, num(0, 'I')), num(a, 'R'), ite(eq(q, num(1, 'I')), num(b, 'R'), ite(eq(q, num(2, 'I')), num(c, 'R'), num(d, 'R'))))
                return Cx(w(1, 0, -1, 0), w(0, 1, 0, -1))
            x, y = cx(x), cx(y)
            return Cx(app('cpow.re', (x.re, x.im, y.re, y.im), 'R'), app('cpow.im', (x.re, x.im, y.re, y.im), 'R'))
        x = toreal(x)
        yi = as_int(y) if isinstance(y, T) else None
        if yi is not None and yi.op == 'num':
            return powi(x, yi.a[0])
        if yi is not None:
            return powint(x, yi)
        if y.op == 'num' and y.a[0] == Fraction(1, 2):
            return s.sqrt(x)
        if y.op == 'num' and Fraction(y.a[0]).denominator == 2 and abs(y.a[0]) < 16:
            k = Fraction(y.a[0]) - Fraction(1, 2)       # x^(k+1/2); a number for non-negative x alone, as the square root
            return mul(powi(x, int(k)), s.sqrt(x))
        if y.op != 'num':
            return s.uf1('exp', mul(y, s.uf1('log', x)))
        return app('pow', (x, y), 'R')

    def b_max(s, e, a, st, env):
        x, y = s.val(a[0], st, env), s.val(a[1], st, env)
        return ite(lt(x, y), y, x)

    def b_min(s, e, a, st, env):
        x, y = s.val(a[0], st, env), s.val(a[1], st, env)
        return ite(lt(y, x), y, x)

    def b_fmax(s, e, a, st, env):
        x, y = s._real1(a, st, env), toreal(s.tval(a[1], st, env))
        return ite(lt(x, y), y, x)

    def b_fmin(s, e, a, st, env):
        x, y = s._real1(a, st, env), toreal(s.tval(a[1], st, env))
        return ite(lt(y, x), y, x)

    def b_isnan(s, e, a, st, env): return FALSE
    def b_isinf(s, e, a, st, env): return FALSE
    def b_epsilon(s, e, a, st, env): return app('dbl_epsilon', (), 'R')
    def b_infinity(s, e, a, st, env): return app('inf', (), 'R')

    def b_atan2(s, e, a, st, env):
        return app('atan2', (s._real1(a, st, env), toreal(s.tval(a[1], st, env))), 'R')

    def b_move(s, e, a, st, env): return s.rv(a[0], st, env)
    b_forward = b_move

    def b_swap(s, e, a, st, env):
        l1, l2 = s.lv(a[0], st, env), s.lv(a[1], st, env)
        v1, v2 = s.load(st, l1), s.load(st, l2)
        s.store(st, l1, v2)
        s.store(st, l2, v1)

    def b_to_string(s, e, a, st, env):
        return app('to_string', (s.tval(a[0], st, env),), 'S')

    def b_fill(s, e, a, st, env):
        p, q, v = (s.val(x, st, env) for x in a)
        arr = s.load(st, Loc(p.root, p.path))
        i = fresh('fi', 'I')
        w = W((i,), s.conv(v, arr.et) if isinstance(v, T) else v, TRUE, ((i, p.idx, q.idx),), 'set', s.site)
        s.store(st, Loc(p.root, p.path), arr.with_write(w))

    def b_accumulate(s, e, a, st, env):
        p, q, v = (s.val(x, st, env) for x in a[:3])
        arr = s.load(st, Loc(p.root, p.path))
        i = fresh('ac', 'I')
        x = arr.read((i,))
        return vadd(v, vmap(lambda t: sum_(i, p.idx, q.idx, t), x))

    def _extreme(s, a, st, env, less):
        """std::max_element / std::min_element over a range of literal length"""
        p, q = s.val(a[0], st, env), s.val(a[1], st, env)
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.root == q.root and p.path == q.path:
            lo, n = p.idx, sub(q.idx, p.idx)
            if n.op == 'num' and 0 < n.a[0] <= s.unroll:
                vals = [s.load(st, (p.root, p.path + (add(lo, num(i, 'I')),))) for i in range(n.a[0])]
                best, bi = vals[0], lo
                for i in range(1, len(vals)):
                    c = less(best, vals[i])
                    best, bi = ite(c, vals[i], best), ite(c, add(lo, num(i, 'I')), bi)
                return Ptr(p.root, p.path, bi)
        raise Unsupported('max/min element over a range of unknown length')

    def b_max_element(s, e, a, st, env): return s._extreme(a, st, env, lambda b, v: lt(b, v))
    def b_min_element(s, e, a, st, env): return s._extreme(a, st, env, lambda b, v: lt(v, b))

    def b_now(s, e, a, st, env): return Opaque('time')
    def b_duration_cast(s, e, a, st, env): return Opaque('time')
    def b_fopen(s, e, a, st, env): return Opaque('file')

    def b_fftw_malloc(s, e, a, st, env): return Opaque('malloc')

    def alloc_complex(s, st, n):
        s.heapn += 1
        r = ('heap', s.heapn)
        st.mem[r] = s.new_vec('fftw_complex', n)
        return Ptr(r, (), num(0, 'I'))

    def b_fftw_alloc_complex(s, e, a, st, env):
        return s.alloc_complex(st, s.tval(a[0], st, env))

    def b_operator(s, e, a, st, env):
        raise Unsupported('operator call')


class Loc(tuple):
    def __new__(cls, root, path=()):
        return tuple.__new__(cls, (root, path))


class ArrLoc:
    def __init__(s, loc): s.loc = loc


class Poison:
    def __init__(s, why): s.why = why
    def __repr__(s): return 'Poison(%s)' % s.why


def _vts(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, Cx):
        return [v.re, v.im]
    return []
