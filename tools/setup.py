"""Nothing to build ahead of time: every check parses and builds /repo's current tree. Verifies the tools are here."""
import shutil, sys
need = ['clang', 'g++', 'z3', 'cvc5']
miss = [n for n in need if not shutil.which(n)]
import z3, numpy, scipy, sympy
print('tools present' if not miss else 'missing: %s' % miss)
sys.exit(1 if miss else 0)
