"""Terms and assumed contracts shared by the mesh-field properties."""
from common import *


def geom(obj):
    """terms of the geometry of the symbolic mesh object called obj"""
    N = [var('%s.params.ngrid[%d]' % (obj, a), 'I') for a in range(3)]
    L = [var('%s.params.boxsize[%d]' % (obj, a), 'R') for a in range(3)]
    dr = [var('%s.dr[%d]' % (obj, a), 'R') for a in range(3)]
    dk = [var('%s.dk[%d]' % (obj, a), 'R') for a in range(3)]
    return N, L, dr, dk


def valid(N, L=None, nmesh=None):
    h = [lt(ZI, n) for n in N]
    if L:
        h += [lt(ZR, l) for l in L]
    if nmesh is not None:
        h.append(eq(nmesh, N[0] * N[1] * N[2]))
    return h


def signed(i, n):
    return ite(lt(i, idiv(n, num(2, 'I'))), i, i - n)


def flat(i, j, k, N):
    return (i * N[1] + j) * N[2] + k


def vec_at(ijk, N, d):
    return [toreal(signed(x, n)) * q for x, n, q in zip(ijk, N, d)]


def vec_arg(s, st, a):
    """the three components of a vector argument"""
    if isinstance(a, (Ptr, PtrIte, Loc)):
        base = a if isinstance(a, Ptr) else None
        if isinstance(a, Loc):
            v = s.load(st, a)
            if isinstance(v, FixArr):
                return list(v.e)
            if isinstance(v, SArr):
                return [v.read((num(q, 'I'),)) for q in range(3)]
            a = v
        return [s.load(st, Loc(a.root, a.path + (add(a.idx, num(q, 'I')),))) for q in range(3)]
    if isinstance(a, FixArr):
        return list(a.e)
    if isinstance(a, SArr):
        return [a.read((num(q, 'I'),)) for q in range(3)]
    raise Unsupported('vector argument %r' % (a,))


def ylm_term(l, m, v):
    a = (l, m) + tuple(v)
    return Cx(app('ylm_re', a, 'R'), app('ylm_im', a, 'R'))


def c_ylm(s, st, th, args, e):
    """assumed here, decided by P11: the reduced harmonic is a function of degree, order and vector"""
    return ylm_term(lift(args[0], 'I'), lift(args[1], 'I'), vec_arg(s, st, args[2]))


YLM = {'trv::maths::SphericalHarmonicCalculator::calc_reduced_spherical_harmonic': c_ylm}


def c_mag(s, st, th, args, e):
    v = vec_arg(s, st, args[0])
    return s.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


# contracts of the index-to-vector maps (each discharged against its body in P02); used by callers,
# so that a caller is checked against the contract and not against the body
def kax(a, i): return app('kaxis%d' % a, (i,), 'R')
def rax(a, i): return app('raxis%d' % a, (i,), 'R')
def magn(v): return app('norm3', tuple(v), 'R')


def put_vec(s, st, a, v):
    if isinstance(a, Loc):
        x = s.load(st, a)
        if isinstance(x, (Ptr, PtrIte)):
            a = x
        else:
            for q in range(3):
                s.store(st, Loc(a[0], tuple(a[1]) + (num(q, 'I'),)), v[q])
            return
    for q in range(3):
        s.store(st, Loc(a.root, a.path + (add(a.idx if a.idx is not None else ZI, num(q, 'I')),)), v[q])


def _vec(ax):
    def f(s, st, th, args, e):
        put_vec(s, st, args[3], [ax(a, lift(args[a], 'I')) for a in range(3)])
        return None
    return f


VECS = {}
for _c in ('trv::MeshField', 'trv::FieldStats'):
    VECS[_c + '::get_grid_wavevector'] = _vec(kax)
    VECS[_c + '::get_grid_pos_vector'] = _vec(rax)
VECS['trv::maths::get_vec3d_magnitude'] = lambda s, st, th, args, e: magn(vec_arg(s, st, args[0]))
VECS_NOTE = 'get_grid_wavevector / get_grid_pos_vector are used through their contracts, discharged in P02; get_vec3d_magnitude through its contract, discharged in P11'
