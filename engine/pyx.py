"""Mechanical extraction of Python text from the Cython glue (.pyx), on every run.

Kept: every statement and expression of the file, in order.  Rewritten: `cdef class` -> `class`, `__cinit__` -> `__init__`,
`new X(` -> `X(`, `<T>x` -> _cast_('T', x), `&a[i]` -> _addr_(a, i), `cdef T x` -> x = _cdecl_('T'), `<T*>malloc(` -> _malloc_('T', ...),
`sizeof(T)` -> _sizeof_('T'), `del self.thisptr` -> _delete_(self.thisptr), assignments to declared C attributes of self -> _cset_.
Dropped: cimport lines, `cdef extern` declarations (their name table is returned), C types of parameters (returned), np.import_array(),
the __reduce_cython__ docstring lines."""
import ast, os, re


def _balance(lines, i):
    """index after the logical line starting at i (parentheses balanced)"""
    d = 0
    while True:
        l = re.sub(r'#.*$', '', lines[i])
        l = re.sub(r'"[^"]*"|\'[^\']*\'', '', l)
        d += sum(l.count(c) for c in '([{') - sum(l.count(c) for c in ')]}')
        i += 1
        if d <= 0 and not l.rstrip().endswith('\\'):
            return i


def split_top(s):
    out, d, cur, q = [], 0, '', None
    for c in s:
        if q:
            q = None if c == q else q
        elif c in '\'"':
            q = c
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if c == ',' and d == 0 and not q:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def externs(text):
    """{python name: [(C++ name, [(type, name)...])...]} of a cdef extern block"""
    t = re.sub(r'#.*', '', text)
    t = t.replace('\\\n', ' ')
    out = {}
    for m in re.finditer(r'([A-Za-z_][\w \[\]\*]*?)\s+\*?(\w+)\s+"([\w:]+)"\s*\(([^()]*)\)', t):
        ps = []
        for p in split_top(m.group(4)):
            mm = re.match(r'\s*(.+?[\s&\*])(\w+)\s*$', p, re.S)
            ps.append((' '.join(mm.group(1).split()), mm.group(2)))
        out.setdefault(m.group(2), []).append((m.group(3), ps))
    return out


def declared(pxd):
    """C attributes of the cdef classes, and members of the C++ structures, declared in a .pxd: {class: {attribute: type}}, {structure: (C++ name, {member: type})}"""
    cls, cpp, cur = {}, {}, None
    if not os.path.exists(pxd):
        return cls, cpp
    for l in open(pxd):
        l = re.sub(r'#.*', '', l).rstrip()
        if not l.strip():
            continue
        m = re.match(r'cdef class (\w+)', l)
        if m:
            cur = cls.setdefault(m.group(1), {})
            continue
        m = re.match(r'\s+(?:cdef )?(?:cppclass|struct) (\w+) "([\w:]+)"', l)
        if m:
            cur = cpp.setdefault(m.group(1), (m.group(2), {}))[1]
            continue
        if re.match(r'\S', l):
            cur = None
            continue
        m = re.match(r'\s+(?:cdef )?(?:public )?(?:readonly )?([A-Za-z_][\w \[\]\*]*?)\s*(\*?)\s*(\w+)(\[\d+\])?$', l)
        if m and cur is not None and '(' not in l:
            cur[m.group(3)] = m.group(1) + m.group(2) + (m.group(4) or '')
    return cls, cpp


def _header(text):
    """strip the C types of the parameters of a def header; returns (text, {name: type})"""
    a = text.index('(')
    b = text.rindex(')')
    types, ps = {}, []
    for p in split_top(text[a + 1:b]):
        p0 = ' '.join(p.split())
        p1, eq, dflt = p0, '', ''
        m = re.match(r'^((?:[^=\[]|\[[^\]]*\])*?)(=)(.*)$', p0)
        if m:
            p1, eq, dflt = m.group(1).strip(), '=', m.group(3).strip()
        nn = p1.endswith(' not None')
        if nn:
            p1 = p1[:-9].strip()
        m = None if p1.startswith('*') else re.match(r'^(.*[\s\*\]])(\w+)$', p1)
        if m and m.group(1).strip():
            types[m.group(2)] = m.group(1).strip() + (' not None' if nn else '')
            p1 = m.group(2)
        ps.append(p1 + eq + dflt)
    return text[:a + 1] + ', '.join(ps) + text[b:], types


class Extract:
    def __init__(s, path):
        s.path = path
        lines = open(path).read().split('\n')
        s.extern, s.types = {}, {}
        s.classes, s.structs = declared(path[:-4] + '.pxd')
        out, i, doc = [], 0, None
        owner = ''
        while i < len(lines):
            l = lines[i]
            if doc:
                out.append(l)
                if doc in l:
                    doc = None
                i += 1
                continue
            st = l.strip()
            for q in ('"""', "'''"):
                if st.startswith(q) or st.startswith('r' + q):
                    if st.count(q) % 2:
                        doc = q
            if doc:
                out.append(l)
                i += 1
                continue
            if re.match(r'^(from\s+\S+\s+cimport|cimport)\b', st):
                j = _balance(lines, i)
                out += [''] * (j - i)
                i = j
                continue
            if re.match(r'^cdef extern from', l):
                j = i + 1
                while j < len(lines) and (not lines[j].strip() or lines[j][0] in ' \t'):
                    j += 1
                for k, v in externs('\n'.join(lines[i + 1:j])).items():
                    s.extern.setdefault(k, []).extend(v)
                out += [''] * (j - i)
                i = j
                continue
            if st == 'np.import_array()' or st.startswith("vars()['__"):
                out.append('')
                i += 1
                continue
            m = re.match(r'^(\s*)cdef class (\w+)(.*)$', l)
            if m:
                owner = m.group(2)
                out.append('%sclass %s%s' % m.groups())
                i += 1
                continue
            m = re.match(r'^(\s*)def (\w+)\s*\(', l)
            if m:
                j = _balance(lines, i)
                head, ty = _header('\n'.join(re.sub(r'\s#.*$', '', x) for x in lines[i:j]))
                nm = m.group(2)
                if nm == '__cinit__':
                    head = head.replace('__cinit__', '__init__', 1)
                    nm = '__init__'
                s.types[(owner + '.' if m.group(1) else '') + nm] = ty
                out.append(head)
                out += [''] * (j - i - 1 - head.count('\n'))
                i = j
                continue
            l = re.sub(r'^(\s*)cdef\s+(\w+)\s*\*\s*(\w+)\s*=\s*<\s*\2\s*\*\s*>\s*malloc\(', r"\1\3 = _malloc_('\2', ", l)
            l = re.sub(r'\bsizeof\((\w+)\)', r"_sizeof_('\1')", l)
            l = re.sub(r'^(\s*)cdef\s+(\w+)\s+(\w+)\s*$', r"\1\3 = _cdecl_('\2')", l)
            l = re.sub(r'^(\s*)cdef\s+(\w+)\s+(\w+)\s*=', r"\1\3 =", l)
            l = re.sub(r'\bnew (Cpp\w+)\(', r'\1(', l)
            l = re.sub(r'<(\w+)>\s*(\w+(?:\[\w+\])?)', r"_cast_('\1', \2)", l)
            l = re.sub(r'&(\w+)\[(\w+)\]', r'_addr_(\1, \2)', l)
            l = re.sub(r'^(\s*)del self\.thisptr\s*$', r'\1_delete_(self.thisptr)', l)
            out.append(l)
            i += 1
        t = ast.parse('\n'.join(out), path)
        s.tree = ast.fix_missing_locations(_Attrs(s.classes).visit(t))
        s.text = ast.unparse(s.tree)


class _Attrs(ast.NodeTransformer):
    """assignments to C attributes of self bypass the class's own __setattr__"""

    def __init__(s, classes): s.classes, s.cur = classes, None

    def visit_ClassDef(s, n):
        old, s.cur = s.cur, s.classes.get(n.name, {})
        s.generic_visit(n)
        s.cur = old
        return n

    def one(s, t, v):
        if s.cur and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr in s.cur:
            return ast.Expr(ast.Call(ast.Name('_cset_', ast.Load()), [t.value, ast.Constant(t.attr), v], []))

    def visit_Assign(s, n):
        s.generic_visit(n)
        if len(n.targets) != 1:
            return n
        t = n.targets[0]
        if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
            r = [s.one(a, b) for a, b in zip(t.elts, n.value.elts)]
            if all(r) and not any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in s.cur for e in n.value.elts for x in ast.walk(e)):
                return [ast.copy_location(x, n) for x in r]
            return n
        r = s.one(t, n.value)
        return ast.copy_location(r, n) if r else n


if __name__ == '__main__':
    import sys
    e = Extract(sys.argv[1])
    print(e.text)
    print(e.extern, e.types, e.classes, e.structs, sep='\n')
