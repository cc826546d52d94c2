"""Development helper: python3 tools/plant.py ID PROPERTY < spec.  Writes seeded/<ID>/ from a spec of sections:
@file path / @old / @new (repeated), @needs, @breaks, @cpp (body of main for the C++ demo) or @py (Python demo).
Then confirms: patch applies, demo passes on the unchanged tree and fails with the patch (in a scratch copy)."""
import json, os, shutil, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH_CPP = '''#!/bin/bash
# builds the library sources of the current directory with demo.cpp and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O1 -fopenmp -w -DTRV_USE_OMP -DTRV_USE_FFTWOMP -DTRV_EXTCALL -Isrc/triumvirate/include"
P=()
for f in src/triumvirate/src/*.cpp; do g++ $F -c "$f" -o "$T/$(basename "$f").o" & P+=($!); done
for p in "${P[@]}"; do wait "$p" || exit 1; done
g++ $F "$D/demo.cpp" "$T"/*.o -o "$T/demo" -lgsl -lgslcblas -lfftw3_omp -lfftw3 -lm || exit 1
cd "$T" && OMP_NUM_THREADS=2 ./demo
'''
SH_PY = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
PY=/usr/bin/python3; [ -f /opt/vp/env.sh ] && . /opt/vp/env.sh && PY=python
cd "$T" && PYTHONPATH="$R/src" $PY -B "$D/demo.py"
'''
HEAD = '''#include <cmath>
#include <cstdio>
#include <complex>
#include <vector>
#include <string>
#include <array>
#include <map>
#include <sstream>
#include <functional>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <random>
#include <fftw3.h>
#include <gsl/gsl_errno.h>
#define private public
#include "field.hpp"
#include "twopt.hpp"
#include "threept.hpp"
#include "fftlog.hpp"
#include "arrayops.hpp"
#include "io.hpp"
static int bad = 0;
#define CHECK(c) do { if (!(c)) { bad = 1; std::printf("FAILED: %s\\n", #c); } } while (0)
#define NEAR(a, b, t) do { double a_ = (a), b_ = (b); if (!(std::fabs(a_ - b_) <= (t))) { bad = 1; std::printf("FAILED: %s = %.12g, expected %.12g\\n", #a, a_, b_); } } while (0)
using namespace trv;
static ParameterSet par(double L, int n, const char* scheme, const char* interlace) {
  ParameterSet p;
  p.catalogue_type = "survey"; p.statistic_type = "powspec"; p.form = "diag"; p.norm_convention = "particle";
  p.binning = "lin"; p.npoint = "2pt"; p.space = "fourier";
  for (int a = 0; a < 3; a++) { p.boxsize[a] = L; p.ngrid[a] = n; }
  p.assignment = scheme; p.interlace = interlace;
  p.bin_min = 0.005; p.bin_max = 0.1; p.num_bins = 5; p.idx_bin = 0; p.verbose = 60;
  p.validate();
  return p;
}
static ParticleCatalogue cat(std::vector<std::array<double, 3>> x, std::vector<double> nz, std::vector<double> ws, std::vector<double> wc) {
  ParticleCatalogue c(60);
  std::vector<double> X, Y, Z;
  for (auto& v : x) { X.push_back(v[0]); Y.push_back(v[1]); Z.push_back(v[2]); }
  c.load_particle_data(X, Y, Z, nz, ws, wc);
  return c;
}
'''


def main():
    ident, prop = sys.argv[1:3]
    secs = re.split(r'^@(\w+) ?(.*)\n', sys.stdin.read(), flags=re.M)[1:]
    d = os.path.join(V, 'seeded', ident)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = '/tmp/plant_wt_' + ident
    subprocess.run(['rm', '-rf', wt])
    subprocess.check_call(['cp', '-a', '/repo', wt])
    try:
        file = old = None
        meta = {'property': prop}
        lang = None
        for k, arg, body in zip(secs[::3], secs[1::3], secs[2::3]):
            if k == 'file':
                file = os.path.join(wt, arg.strip())
            elif k == 'old':
                old = body
            elif k == 'new':
                t = open(file).read()
                n = t.count(old)
                assert n == 1 or arg.strip(), (ident, 'old text occurs %d times' % n, old)
                if arg.strip():
                    parts = t.split(old)
                    i = int(arg)
                    assert len(parts) > i, (ident, 'not that many')
                    t = old.join(parts[:i]) + body + old.join(parts[i:])
                else:
                    t = t.replace(old, body)
                open(file, 'w').write(t)
            elif k == 'needs':
                meta['needs'] = ' '.join(body.split())
            elif k == 'breaks':
                meta['what_it_breaks'] = ' '.join(body.split())
            elif k == 'cpp':
                lang = 'cpp'
                open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD + 'int main() {\n' + body + '  return bad;\n}\n')
            elif k == 'py':
                lang = 'py'
                open(os.path.join(d, 'demo.py'), 'w').write(body)
        assert lang and len(meta) == 3, meta
        open(os.path.join(d, 'demo.sh'), 'w').write(SH_CPP if lang == 'cpp' else SH_PY)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(meta, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        patch = subprocess.check_output(['git', '-C', wt, 'diff'], text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, capture_output=True, text=True)
        print(ident, 'clean', a.returncode, a.stdout[-500:], a.stderr[-800:] if a.returncode else '', '| patched', b.returncode, b.stdout[-400:], b.stderr[-400:])
        ok = a.returncode == 0 and b.returncode != 0 and 'error:' not in b.stderr
        print(ident, 'OK' if ok else 'NOT GOOD')
    finally:
        subprocess.run(['rm', '-rf', wt])


main()
