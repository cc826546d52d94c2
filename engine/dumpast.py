import sys
from cxxast import *
def show(n, d=0, out=None):
    x=n.d
    print('  '*d + n.kind, x.get('name',''), x.get('opcode',''), x.get('value',''), x.get('castKind',''), ('['+n.type+']') if n.type else '', n.ref or '', n.member or '', {k:x[k] for k in x if k in('isPostfix','isArrow','isArray','hasElse','hasInit','init','anyInit','storageClass')} or '')
    for c in n.inner: show(c,d+1)
if __name__=='__main__':
    P=Program([sys.argv[1]])
    for n in P.funcs[sys.argv[2]]: show(n)
