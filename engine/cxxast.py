"""Load the clang AST of /repo's current C++ sources (the code that is compiled)."""
import json, os, subprocess, hashlib, pickle, concurrent.futures, re

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src/triumvirate/src')
INC = os.path.join(REPO, 'src/triumvirate/include')
HERE = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(os.path.dirname(HERE), '.cache')
FLAGS = ['-std=c++17', '-fopenmp', '-DTRV_USE_OMP', '-DTRV_USE_FFTWOMP', '-DTRV_EXTCALL']

KEEP = ('id', 'kind', 'name', 'opcode', 'value', 'isPostfix', 'castKind', 'hasElse', 'hasInit', 'hasVar',
        'isArrow', 'isArray', 'isGlobal', 'storageClass', 'constexpr', 'init', 'explicitlyDefaulted',
        'isArrayAsWritten', 'previousDecl', 'parentDeclContextId', 'tagUsed', 'declId', 'mangledName',
        'isUsed_', 'initStyle', 'pure', 'virtual', 'inline')


class Node:
    __slots__ = ('d', 'inner', 'type', 'dtype', 'ref', 'member', 'off', 'end', 'tu')

    @property
    def kind(self): return self.d['kind']

    def get(self, k, default=None): return self.d.get(k, default)

    @property
    def name(self): return self.d.get('name', '')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.d.get('name') or self.d.get('opcode') or self.d.get('value') or '')

    def walk(self):
        yield self
        for c in self.inner:
            yield from c.walk()


def _off(l):
    if not l:
        return None
    if 'expansionLoc' in l:
        l = l['expansionLoc']
    return l.get('offset')


def _conv(j, tu):
    n = Node()
    n.tu = tu
    n.d = {k: j[k] for k in KEEP if k in j}
    n.d.setdefault('kind', 'Null')
    t = j.get('type') or {}
    n.type = t.get('qualType', '')
    n.dtype = t.get('desugaredQualType', n.type)
    r = j.get('referencedDecl')
    n.ref = None
    if r:
        n.ref = (r.get('id'), r.get('kind'), r.get('name'), (r.get('type') or {}).get('qualType', ''))
    if j.get('bases'):
        n.d['bases'] = [(b.get('type') or {}).get('desugaredQualType') or (b.get('type') or {}).get('qualType', '') for b in j['bases']]
    n.member = j.get('referencedMemberDecl')
    rg = j.get('range') or {}
    n.off = _off(rg.get('begin'))
    n.end = _off(rg.get('end'))
    if j.get('kind') == 'CXXCtorInitializer':
        ai = j.get('anyInit')
        n.d['anyInit'] = ai.get('name') if ai else None
        n.d['anyInitId'] = ai.get('id') if ai else None
    if j.get('kind') == 'LambdaExpr':
        pass
    n.inner = [_conv(c, tu) for c in j.get('inner', []) if c.get('kind', '').endswith('Comment') is False or 'kind' not in c]
    return n


def _digest(tu):
    h = hashlib.sha256()
    fs = [os.path.join(SRC, tu.split('+')[0] + '.cpp')] + sorted(os.path.join(INC, f) for f in os.listdir(INC))
    fs.append(os.path.abspath(__file__))
    for f in fs:
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]


class TU:
    pass


class FrontEndError(Exception):
    pass


def unresolved(t, decls):
    """names of referenced functions and variables without a known declaration"""
    out, local = set(), set()

    def go(n):
        if n.kind in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            local.add(n.get('id'))
        if n.ref and n.ref[1] in ('VarDecl', 'FunctionDecl') and n.ref[0] not in t.ids and n.ref[2]:
            out.add((n.ref[0], n.ref[2]))
        for c in n.inner:
            go(c)
    for d in decls:
        go(d)
    return {nm for i, nm in out if i not in local}


def file_scope(text, nm):
    return re.search(rb'(?m)^(?:[A-Za-z_][\w:<>,*& \t]*[\s*&])?' + re.escape(nm.encode()) + rb'\s*(?:\(|=|\{|\[)', text) is not None


def load_tu(tu):
    dg = _digest(tu)
    pk = os.path.join(CACHE, 'ast-%s-%s.pkl' % (tu, dg))
    if os.path.exists(pk):
        try:
            return pickle.load(open(pk, 'rb'))
        except Exception:
            pass
    # a unit named x+cli is x as compiled for the command-line program
    f = os.path.join(SRC, tu.split('+')[0] + '.cpp')
    flags = [x for x in FLAGS if not (tu.endswith('+cli') and x == '-DTRV_EXTCALL')]

    def dump(flt):
        cmd = ['clang++', '-fsyntax-only', '-w', '-I' + os.path.join(HERE, 'include'), '-I' + INC] + flags + [
            '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, f]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise FrontEndError('clang++ rejects %s:\n%s' % (f, p.stderr[-2000:]))
        dec = json.JSONDecoder()
        s, i, tops = p.stdout, 0, []
        while i < len(s):
            while i < len(s) and s[i] in ' \n\r\t':
                i += 1
            if i >= len(s):
                break
            o, i = dec.raw_decode(s, i)
            tops.append(o)
        return tops
    t = TU()
    t.name = tu
    t.text = open(f, 'rb').read()
    t.decls = [_conv(o, tu) for o in dump('trv') if o.get('kind') == 'NamespaceDecl' and o.get('name') == 'trv']
    index_tu(t)
    # file-scope helpers and constants outside the namespace
    t.extra = {}
    todo = unresolved(t, t.decls)
    for _ in range(4):
        names = [n for n in sorted(todo - set(t.extra)) if file_scope(t.text, n)]
        if not names:
            break
        new = []
        for nm in names:
            t.extra[nm] = []
            for o in dump(nm):
                if o.get('name') == nm and o.get('kind') in ('VarDecl',) + FUNCK[:1]:
                    d = _conv(o, tu)
                    if d.kind == 'VarDecl' and d.inner or any(c.kind == 'CompoundStmt' for c in d.inner):
                        t.extra[nm].append(d)
                        new.append(d)
        for nm in names:
            for d in t.extra[nm]:
                q = '(file)::' + nm
                if d.kind == 'VarDecl':
                    t.vars[q] = d
                else:
                    t.funcs.setdefault(q, []).append(d)
        todo = unresolved(t, new)
    t.decls = None
    try:
        os.makedirs(CACHE, exist_ok=True)
        tmp = pk + '.%d' % os.getpid()
        pickle.dump(t, open(tmp, 'wb'), protocol=4)
        os.replace(tmp, pk)
        for old in os.listdir(CACHE):
            if old.startswith('ast-%s-' % tu) and old != os.path.basename(pk) and not old.count('.pkl.'):
                try:
                    os.unlink(os.path.join(CACHE, old))
                except OSError:
                    pass
    except OSError:
        pass
    return t


FUNCK = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


def index_tu(t):
    """t.funcs: qname -> [Func nodes with bodies]; t.ids: id -> (qname, node); t.records; t.vars"""
    t.funcs, t.ids, t.records, t.vars, t.recid = {}, {}, {}, {}, {}

    def scan(n, ns, rec):
        k = n.kind
        if k == 'NamespaceDecl':
            for c in n.inner:
                scan(c, ns + [n.name], None)
        elif k == 'LinkageSpecDecl':
            for c in n.inner:
                scan(c, ns, rec)
        elif k == 'CXXRecordDecl':
            q = '::'.join(ns + [n.name])
            t.recid[n.get('id')] = q
            flds = [f for b in n.get('bases') or [] for c in ['::'.join(ns[:i] + [b]) for i in range(len(ns), -1, -1)] if c in t.records for f in t.records[c]]
            for c in n.inner:
                if c.kind == 'FieldDecl':
                    flds.append((c.name, c.type, c.inner[-1] if c.inner and c.get('hasInClassInitializer', True) else None))
                    t.ids[c.get('id')] = ('field', q, c.name, c.type)
                elif c.kind in FUNCK:
                    fn(c, q)
                elif c.kind == 'VarDecl':
                    t.ids[c.get('id')] = ('var', q + '::' + c.name, c)
                elif c.kind in ('CXXRecordDecl', 'EnumDecl'):
                    scan(c, ns + [n.name], None)
                elif c.kind == 'FunctionTemplateDecl':
                    for g in c.inner:
                        if g.kind in FUNCK:
                            fn(g, q)
            if flds or q not in t.records:
                t.records[q] = flds
        elif k in FUNCK:
            q = '::'.join(ns)
            pid = n.get('parentDeclContextId')
            if pid in t.recid:
                q = t.recid[pid]
            fn(n, q)
        elif k == 'FunctionTemplateDecl':
            for c in n.inner:
                if c.kind in FUNCK:
                    fn(c, '::'.join(ns))
        elif k == 'EnumDecl':
            v = -1
            for c in n.inner:
                if c.kind == 'EnumConstantDecl':
                    w = [x.get('value') for x in c.walk() if x.kind == 'ConstantExpr' and x.get('value') is not None]
                    v = int(w[0]) if w else v + 1 if not c.inner else None
                    t.ids[c.get('id')] = ('enum', c.name, v)
                    if v is None:
                        break
        elif k == 'VarDecl':
            q = '::'.join(ns + [n.name])
            t.ids[n.get('id')] = ('var', q, n)
            if n.inner or q not in t.vars:
                t.vars[q] = n

    def fn(n, q):
        name = q + '::' + n.name
        t.ids[n.get('id')] = ('func', name, n.type)
        if any(c.kind == 'CompoundStmt' for c in n.inner):
            t.funcs.setdefault(name, []).append(n)

    for d in t.decls:
        scan(d, [], None)


ALL = ['arrayops', 'dataobjs', 'fftlog', 'field', 'io', 'maths', 'monitor', 'parameters', 'particles', 'threept', 'twopt']


class Program:
    def __init__(self, tus):
        self.tus = {}
        if len(tus) > 1:
            with concurrent.futures.ProcessPoolExecutor(min(8, len(tus))) as ex:
                for t in ex.map(load_tu, tus):
                    self.tus[t.name] = t
        else:
            for x in tus:
                self.tus[x] = load_tu(x)
        self.funcs = {}
        self.records = {}
        self.vars = {}
        for t in self.tus.values():
            for q, ns in t.funcs.items():
                have = self.funcs.setdefault(q, [])
                for n in ns:
                    if not any(m.type == n.type for m in have):
                        have.append(n)
            for q, f in t.records.items():
                if f or q not in self.records:
                    self.records[q] = f
            for q, n in t.vars.items():
                if n.inner or q not in self.vars:
                    self.vars[q] = n

    def lookup(self, node, rid):
        t = self.tus[node.tu]
        r = t.ids.get(rid)
        if r is None and node.ref:
            ds = t.extra.get(node.ref[2])
            if ds:
                return ('var' if ds[0].kind == 'VarDecl' else 'func', '(file)::' + node.ref[2], ds[0] if ds[0].kind == 'VarDecl' else ds[0].type)
            if node.ref[1] == 'FunctionDecl' and t.extra and rid:
                qs = [q for q in self.funcs if q.startswith('trv::') and q.endswith('::' + node.ref[2])]
                if len(qs) == 1:
                    return ('func', qs[0], self.funcs[qs[0]][0].type)
        return r

    def find(self, q, nparams=None, sig=None):
        c = self.funcs.get(q, [])
        if sig is not None:
            c = [n for n in c if sig in n.type]
        if nparams is not None:
            c = [n for n in c if sum(x.kind == 'ParmVarDecl' for x in n.inner) == nparams]
        if len(c) != 1:
            raise FrontEndError('function %s: %d definitions' % (q, len(c)))
        return c[0]

    def line(self, node):
        if node.off is None:
            return 0
        return self.tus[node.tu].text[:node.off].count(b'\n') + 1

    def pragma(self, node):
        """text of the OpenMP pragma of an OMP*Directive node"""
        t = self.tus[node.tu].text
        s = t.rfind(b'\n', 0, node.off) + 1
        e = s
        while True:
            e2 = t.find(b'\n', e)
            if t[e:e2].rstrip().endswith(b'\\'):
                e = e2 + 1
                continue
            break
        return t[s:e2].decode().replace('\\\n', ' ')
