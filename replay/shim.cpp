// C entry points onto the real library, for replaying contracts on concrete inputs.
#include <cstdarg>
#include <cstring>
#include <sstream>
#include <string>
#include <functional>
#include <memory>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <complex>
#include <map>
#include <set>
#include <vector>
#include <algorithm>
#include <numeric>
#include <chrono>
#include <cmath>
#include <stdexcept>
#include <omp.h>
#define private public
#include "arrayops.hpp"
#include "dataobjs.hpp"
#include "field.hpp"
#include "fftlog.hpp"
#include "io.hpp"
#include "maths.hpp"
#include "monitor.hpp"
#include "parameters.hpp"
#include "particles.hpp"
#include "threept.hpp"
#include "twopt.hpp"
#undef private
using namespace trv;
typedef std::complex<double> cd;
typedef std::vector<double> vd;
typedef std::vector<cd> vc;
inline std::string ERR;
#define TRY try {
#define END return 0; } catch (const std::exception& e) { ERR = e.what(); return 1; } catch (...) { ERR = "unknown exception"; return 2; }
extern "C" {

// ---- core
const char* err() { return ERR.c_str(); }
void quiet(int v) { trv::sys::logger.reset_level(v); }
void threads(int n) { omp_set_num_threads(n); }

// ---- parameters
void* p_new() { return new ParameterSet(); }
void* p_copy(void* p) { return new ParameterSet(*(ParameterSet*)p); }
void p_free(void* p) { delete (ParameterSet*)p; }
#define PD(F) if (n == #F) return &p->F;
static double* pd_(ParameterSet* p, const std::string& n, int i) {
  if (n == "boxsize") return p->boxsize + i;
  PD(expand) PD(cutoff_nyq) PD(padfactor) PD(volume) PD(bin_min) PD(bin_max) return nullptr; }
static int* pi_(ParameterSet* p, const std::string& n, int i) {
  if (n == "ngrid") return p->ngrid + i;
  PD(assignment_order) PD(ell1) PD(ell2) PD(ELL) PD(i_wa) PD(j_wa) PD(num_bins) PD(idx_bin) PD(verbose) return nullptr; }
static std::string* ps_(ParameterSet* p, const std::string& n) {
  PD(catalogue_dir) PD(measurement_dir) PD(data_catalogue_file) PD(rand_catalogue_file) PD(catalogue_columns) PD(catalogue_dataset)
  PD(output_tag) PD(alignment) PD(padscale) PD(assignment) PD(interlace) PD(catalogue_type) PD(statistic_type) PD(npoint) PD(space)
  PD(form) PD(norm_convention) PD(shape) PD(binning) PD(fftw_scheme) PD(use_fftw_wisdom) PD(fftw_wisdom_file_f) PD(fftw_wisdom_file_b)
  PD(save_binned_vectors) PD(progbar) return nullptr; }
int p_setd(void* p, const char* n, int i, double v) { double* q = pd_((ParameterSet*)p, n, i); if (!q) return 1; *q = v; return 0; }
int p_seti(void* p, const char* n, int i, long long v) {
  ParameterSet* P = (ParameterSet*)p; std::string s = n;
  if (s == "nmesh") { P->nmesh = v; return 0; } if (s == "fftw_planner_flag") { P->fftw_planner_flag = (unsigned)v; return 0; }
  int* q = pi_(P, s, i); if (!q) return 1; *q = (int)v; return 0; }
int p_sets(void* p, const char* n, const char* v) { std::string* q = ps_((ParameterSet*)p, n); if (!q) return 1; *q = v; return 0; }
double p_getd(void* p, const char* n, int i) { return *pd_((ParameterSet*)p, n, i); }
long long p_geti(void* p, const char* n, int i) {
  ParameterSet* P = (ParameterSet*)p; std::string s = n;
  if (s == "nmesh") return P->nmesh; if (s == "fftw_planner_flag") return P->fftw_planner_flag; return *pi_(P, s, i); }
const char* p_gets(void* p, const char* n) { return ps_((ParameterSet*)p, n)->c_str(); }
int p_validate(void* p, int init) { TRY ((ParameterSet*)p)->validate(init); END }
int p_read(void* p, const char* f) { TRY int r = ((ParameterSet*)p)->read_from_file((char*)f); if (r) { ERR = "read_from_file returned nonzero"; return 3; } END }
int p_print(void* p, const char* f) { TRY ((ParameterSet*)p)->print_to_file((char*)f); END }
int p_print0(void* p) { TRY ((ParameterSet*)p)->print_to_file(); END }
int p_ngrid_from_cutoff(void* p) { TRY set_ngrid_from_cutoff(*(ParameterSet*)p); END }
int p_box_from_expand(void* p, double* s) { TRY set_boxsize_from_expand(s, *(ParameterSet*)p); END }
int p_override(void* p) { TRY override_paramset_by_envvars(*(ParameterSet*)p); END }

// ---- binning
void* b_new(const char* space, const char* scheme) { return new Binning(space, scheme); }
void* b_params(void* p) { return new Binning(*(ParameterSet*)p); }
void b_free(void* b) { delete (Binning*)b; }
int b_set0(void* b) { TRY ((Binning*)b)->set_bins(); END }
int b_set3(void* b, double lo, double hi, int n) { TRY ((Binning*)b)->set_bins(lo, hi, n); END }
int b_grid(void* b, double L, int n) { TRY ((Binning*)b)->set_bins(L, n); END }
int b_custom(void* b, const double* e, int n) { TRY ((Binning*)b)->set_bins(vd(e, e + n)); END }
void b_put(void* b, double lo, double hi, int n) { Binning* B = (Binning*)b; B->bin_min = lo; B->bin_max = hi; B->num_bins = n; }
void b_size(void* b, int* o) { Binning* B = (Binning*)b; o[0] = B->num_bins; o[1] = B->bin_edges.size(); o[2] = B->bin_centres.size(); o[3] = B->bin_widths.size(); }
void b_get(void* b, double* mm, double* e, double* c, double* w) {
  Binning* B = (Binning*)b; mm[0] = B->bin_min; mm[1] = B->bin_max; mm[2] = B->dbin_pad_fourier; mm[3] = B->dbin_pad_config; mm[4] = B->nbin_pad;
  std::copy(B->bin_edges.begin(), B->bin_edges.end(), e); std::copy(B->bin_centres.begin(), B->bin_centres.end(), c); std::copy(B->bin_widths.begin(), B->bin_widths.end(), w); }
const char* b_scheme(void* b) { return ((Binning*)b)->scheme.c_str(); }
const char* b_space(void* b) { return ((Binning*)b)->space.c_str(); }

// ---- catalogues
void* c_new() { return new ParticleCatalogue(60); }
int c_load(void* c, int n, const double* x, const double* y, const double* z, const double* nz, const double* ws, const double* wc) {
  TRY ((ParticleCatalogue*)c)->load_particle_data(vd(x, x + n), vd(y, y + n), vd(z, z + n), vd(nz, nz + n), vd(ws, ws + n), vd(wc, wc + n)); END }
int c_load_uneven(void* c, const int* n, const double* x) {
  TRY int r = ((ParticleCatalogue*)c)->load_particle_data(vd(x, x + n[0]), vd(x, x + n[1]), vd(x, x + n[2]), vd(x, x + n[3]), vd(x, x + n[4]), vd(x, x + n[5])); if (r) { ERR = "nonzero return"; return 3; } END }
int c_file(void* c, const char* f, const char* cols, double vol) { TRY int r = ((ParticleCatalogue*)c)->load_catalogue_file(f, cols, "", vol); if (r) { ERR = "nonzero return"; return 3; } END }
void c_free(void* c) { delete (ParticleCatalogue*)c; }
int c_n(void* c) { return ((ParticleCatalogue*)c)->ntotal; }
void c_get(void* c, double* o) { ParticleCatalogue* C = (ParticleCatalogue*)c; for (int i = 0; i < C->ntotal; i++) { ParticleData& d = C->pdata[i];
  double v[7] = {d.pos[0], d.pos[1], d.pos[2], d.nz, d.ws, d.wc, d.w}; std::copy(v, v + 7, o + 7 * i); } }
void c_set(void* c, const double* o) { ParticleCatalogue* C = (ParticleCatalogue*)c; for (int i = 0; i < C->ntotal; i++) { ParticleData& d = C->pdata[i];
  d.pos[0] = o[7*i]; d.pos[1] = o[7*i+1]; d.pos[2] = o[7*i+2]; d.nz = o[7*i+3]; d.ws = o[7*i+4]; d.wc = o[7*i+5]; d.w = o[7*i+6]; } }
void c_sums(void* c, double* o) { ParticleCatalogue* C = (ParticleCatalogue*)c; o[0] = C->wtotal; o[1] = C->wstotal; for (int a = 0; a < 3; a++) { o[2+a] = C->pos_min[a]; o[5+a] = C->pos_max[a]; o[8+a] = C->pos_span[a]; } }
int c_weights(void* c) { TRY ((ParticleCatalogue*)c)->calc_total_weights(); END }
int c_extents(void* c, int init) { TRY ((ParticleCatalogue*)c)->calc_pos_extents(init); END }
int c_offset(void* c, const double* d) { TRY ((ParticleCatalogue*)c)->offset_coords(d); END }
int c_periodic(void* c, const double* d) { TRY ((ParticleCatalogue*)c)->offset_coords_for_periodicity(d); END }
int c_centre1(void* c, const double* L) { TRY ParticleCatalogue::centre_in_box(*(ParticleCatalogue*)c, L); END }
int c_centre2(void* c, void* r, const double* L) { TRY ParticleCatalogue::centre_in_box(*(ParticleCatalogue*)c, *(ParticleCatalogue*)r, L); END }
int c_pad1(void* c, const double* L, const double* f) { TRY ParticleCatalogue::pad_in_box(*(ParticleCatalogue*)c, L, f); END }
int c_pad2(void* c, void* r, const double* L, const double* f) { TRY ParticleCatalogue::pad_in_box(*(ParticleCatalogue*)c, *(ParticleCatalogue*)r, L, f); END }
int c_padg1(void* c, const double* L, const int* n, const double* f) { TRY ParticleCatalogue::pad_grids(*(ParticleCatalogue*)c, L, n, f); END }
int c_padg2(void* c, void* r, const double* L, const int* n, const double* f) { TRY ParticleCatalogue::pad_grids(*(ParticleCatalogue*)c, *(ParticleCatalogue*)r, L, n, f); END }
int c_reset(void* c) { TRY ((ParticleCatalogue*)c)->reset_particles(); END }
int c_finalise(void* c) { TRY ((ParticleCatalogue*)c)->finalise_particles(); END }
int c_initialise(void* c, int n) { TRY ((ParticleCatalogue*)c)->initialise_particles(n); END }

// ---- mesh fields
int m_new(void* p, int plan, void** o) { TRY *o = new MeshField(*(ParameterSet*)p, (bool)plan, "`mesh`"); END }
void m_free(void* m) { delete (MeshField*)m; }
double* m_field(void* m) { return (double*)((MeshField*)m)->field; }
double* m_field_s(void* m) { return (double*)((MeshField*)m)->field_s; }
void m_geom(void* m, double* o) { MeshField* M = (MeshField*)m; for (int a = 0; a < 3; a++) { o[a] = M->dr[a]; o[3 + a] = M->dk[a]; } o[6] = M->vol; o[7] = M->vol_cell; }
long long m_index(void* m, int i, int j, int k) { return ((MeshField*)m)->ret_grid_index(i, j, k); }
void m_setn(void* m, int a, int b, int c) { MeshField* M = (MeshField*)m; M->params.ngrid[0] = a; M->params.ngrid[1] = b; M->params.ngrid[2] = c; }
void m_shift(void* m, int* q) { ((MeshField*)m)->shift_grid_indices_fourier(q[0], q[1], q[2]); }
void m_pos(void* m, int i, int j, int k, double* o) { ((MeshField*)m)->get_grid_pos_vector(i, j, k, o); }
void m_kvec(void* m, int i, int j, int k, double* o) { ((MeshField*)m)->get_grid_wavevector(i, j, k, o); }
int m_assign(void* m, void* c, double* w) { TRY ((MeshField*)m)->assign_weighted_field_to_mesh(*(ParticleCatalogue*)c, (fftw_complex*)w); END }
int m_unw(void* m, void* c) { TRY ((MeshField*)m)->compute_unweighted_field(*(ParticleCatalogue*)c); END }
int m_unwf(void* m, void* c) { TRY ((MeshField*)m)->compute_unweighted_field_fluctuations_insitu(*(ParticleCatalogue*)c); END }
int m_ylm2(void* m, void* d, void* r, double* ld, double* lr, double al, int l, int mm, int quad) { TRY
  MeshField* M = (MeshField*)m; ParticleCatalogue& D = *(ParticleCatalogue*)d; ParticleCatalogue& Rr = *(ParticleCatalogue*)r;
  if (quad) M->compute_ylm_wgtd_quad_field(D, Rr, (LineOfSight*)ld, (LineOfSight*)lr, al, l, mm); else M->compute_ylm_wgtd_field(D, Rr, (LineOfSight*)ld, (LineOfSight*)lr, al, l, mm); END }
int m_ylm1(void* m, void* d, double* ld, double al, int l, int mm, int quad) { TRY
  MeshField* M = (MeshField*)m; ParticleCatalogue& D = *(ParticleCatalogue*)d;
  if (quad) M->compute_ylm_wgtd_quad_field(D, (LineOfSight*)ld, al, l, mm); else M->compute_ylm_wgtd_field(D, (LineOfSight*)ld, al, l, mm); END }
int m_reset(void* m) { TRY ((MeshField*)m)->reset_density_field(); END }
int m_ft(void* m) { TRY ((MeshField*)m)->fourier_transform(); END }
int m_ift(void* m) { TRY ((MeshField*)m)->inv_fourier_transform(); END }
int m_wa(void* m) { TRY ((MeshField*)m)->apply_wide_angle_pow_law_kernel(); END }
int m_comp(void* m) { TRY ((MeshField*)m)->apply_assignment_compensation(); END }
int m_band(void* m, void* f, double* y, int ny, double k, double dk, double* keff, int* n) { TRY
  vc Y((cd*)y, (cd*)y + ny); ((MeshField*)m)->inv_fourier_transform_ylm_wgtd_field_band_limited(*(MeshField*)f, Y, k, dk, *keff, *n); END }
int m_sjl(void* m, void* f, double* y, int ny, int ell, double r) { TRY
  vc Y((cd*)y, (cd*)y + ny); trvm::SphericalBesselCalculator sj(ell); ((MeshField*)m)->inv_fourier_transform_sjl_ylm_wgtd_field(*(MeshField*)f, Y, sj, r); END }
int m_norm(void* m, void* c, int order, double* o) { TRY *o = ((MeshField*)m)->calc_grid_based_powlaw_norm(*(ParticleCatalogue*)c, order); END }
double m_window(void* m, int i, int j, int k, int order) { return ((MeshField*)m)->calc_assignment_window_in_fourier(i, j, k, order); }
int m_windows(void* m, int order, double* o, int n) { TRY MeshField* M = (MeshField*)m; M->compute_assignment_window_in_fourier(order); if ((int)M->window.size() != n) { ERR = "window size"; return 3; } std::copy(M->window.begin(), M->window.end(), o); END }

// ---- field statistics
int s_new(void* p, void** o) { TRY *o = new FieldStats(*(ParameterSet*)p, true); END }
int s_newp(void* p, int plan, void** o) { TRY *o = new FieldStats(*(ParameterSet*)p, (bool)plan); END }
void s_free(void* s) { delete (FieldStats*)s; }
int s_compat(void* s, void* a, void* b) { return ((FieldStats*)s)->if_fields_compatible(*(MeshField*)a, *(MeshField*)b); }
int s_pk(void* s, void* a, void* b, double re, double im, int l, int m, void* bin) { TRY ((FieldStats*)s)->compute_ylm_wgtd_2pt_stats_in_fourier(*(MeshField*)a, *(MeshField*)b, cd(re, im), l, m, *(Binning*)bin); END }
int s_xi(void* s, void* a, void* b, double re, double im, int l, int m, void* bin) { TRY ((FieldStats*)s)->compute_ylm_wgtd_2pt_stats_in_config(*(MeshField*)a, *(MeshField*)b, cd(re, im), l, m, *(Binning*)bin); END }
int s_sn3(void* s, void* a, void* b, double* ya, double* yb, int ny, double re, double im, void* bin) { TRY vc A((cd*)ya, (cd*)ya + ny), B((cd*)yb, (cd*)yb + ny);
  ((FieldStats*)s)->compute_uncoupled_shotnoise_for_3pcf(*(MeshField*)a, *(MeshField*)b, A, B, cd(re, im), *(Binning*)bin); END }
int s_snb(void* s, void* a, void* b, double* ya, double* yb, int ny, int la, int lb, double re, double im, double ka, double kb, double* o) { TRY vc A((cd*)ya, (cd*)ya + ny), B((cd*)yb, (cd*)yb + ny);
  trvm::SphericalBesselCalculator ja(la), jb(lb); cd v = ((FieldStats*)s)->compute_uncoupled_shotnoise_for_bispec_per_bin(*(MeshField*)a, *(MeshField*)b, A, B, ja, jb, cd(re, im), ka, kb); o[0] = v.real(); o[1] = v.imag(); END }
void s_size(void* s, int* o) { FieldStats* S = (FieldStats*)s; o[0] = S->nmodes.size(); o[1] = S->npairs.size(); o[2] = S->k.size(); o[3] = S->r.size(); o[4] = S->sn.size(); o[5] = S->pk.size(); o[6] = S->xi.size(); }
void s_get(void* s, int* nm, int* np, double* k, double* r, double* sn, double* pk, double* xi) { FieldStats* S = (FieldStats*)s;
  std::copy(S->nmodes.begin(), S->nmodes.end(), nm); std::copy(S->npairs.begin(), S->npairs.end(), np); std::copy(S->k.begin(), S->k.end(), k); std::copy(S->r.begin(), S->r.end(), r);
  std::copy(S->sn.begin(), S->sn.end(), (cd*)sn); std::copy(S->pk.begin(), S->pk.end(), (cd*)pk); std::copy(S->xi.begin(), S->xi.end(), (cd*)xi); }
int s_reset(void* s) { TRY ((FieldStats*)s)->reset_stats(); END }
int s_alias(void* s, double* o, int n) { TRY FieldStats* S = (FieldStats*)s; S->compute_shotnoise_aliasing(); if ((int)S->alias_sn.size() != n) { ERR = "alias size"; return 3; } std::copy(S->alias_sn.begin(), S->alias_sn.end(), o); END }
int s_alias1(void* s, int i, int j, int k, double* o) { TRY *o = ((FieldStats*)s)->ret_calc_shotnoise_aliasing()(i, j, k); END }
void s_geom(void* m, double* o) { FieldStats* M = (FieldStats*)m; for (int a = 0; a < 3; a++) { o[a] = M->dr[a]; o[3 + a] = M->dk[a]; } o[6] = M->vol; o[7] = M->vol_cell; }
long long s_index(void* m, int i, int j, int k) { return ((FieldStats*)m)->ret_grid_index(i, j, k); }
void s_setn(void* m, int a, int b, int c) { FieldStats* M = (FieldStats*)m; M->params.ngrid[0] = a; M->params.ngrid[1] = b; M->params.ngrid[2] = c; }
void s_shift(void* m, int* q) { ((FieldStats*)m)->shift_grid_indices_fourier(q[0], q[1], q[2]); }
static BinnedVectors BV;
int s_binned(void* s, void* b, const char* f, int* n) { TRY BV = ((FieldStats*)s)->record_binned_vectors(*(Binning*)b, f); n[0] = BV.count; n[1] = BV.num_bins; n[2] = BV.indices.size(); n[3] = BV.vecx.size(); n[4] = BV.lower_edges.size(); n[5] = BV.upper_edges.size(); n[6] = BV.vecy.size(); n[7] = BV.vecz.size(); END }
void s_binned_get(int* i, double* lo, double* up, double* x, double* y, double* z) { std::copy(BV.indices.begin(), BV.indices.end(), i); std::copy(BV.lower_edges.begin(), BV.lower_edges.end(), lo); std::copy(BV.upper_edges.begin(), BV.upper_edges.end(), up);
  std::copy(BV.vecx.begin(), BV.vecx.end(), x); std::copy(BV.vecy.begin(), BV.vecy.end(), y); std::copy(BV.vecz.begin(), BV.vecz.end(), z); }

// ---- maths
double w3j(int a, int b, int c, int d, int e, int f) { return trvm::wigner_3j(a, b, c, d, e, f); }
double cc2(int a, int b, int c, int d) { return calc_coupling_coeff_2pt(a, b, c, d); }
double cc3(int a, int b, int c, int d, int e, int f) { return calc_coupling_coeff_3pt(a, b, c, d, e, f); }
int v_mult(void* p) { TRY validate_multipole_coupling(*(ParameterSet*)p); END }
void ylm(int l, int m, double* pos, double* o) { cd v = trvm::SphericalHarmonicCalculator::calc_reduced_spherical_harmonic(l, m, pos); o[0] = v.real(); o[1] = v.imag(); }
int ylmgrid(int l, int m, const double* L, const int* n, int fourier, double* o, int ntot) { TRY vc y(ntot);
  if (fourier) trvm::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space(l, m, L, n, y); else trvm::SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_config_space(l, m, L, n, y);
  std::copy(y.begin(), y.end(), (cd*)o); END }
double sjl(int l, double x) { trvm::SphericalBesselCalculator s(l); return s.eval(x); }
void sjls(int l, const double* x, int n, double* o) { trvm::SphericalBesselCalculator s(l); for (int i = 0; i < n; i++) o[i] = s.eval(x[i]); }
void sjls_copy(int l, const double* x, int n, double* o) { trvm::SphericalBesselCalculator s(l); trvm::SphericalBesselCalculator t(s); for (int i = 0; i < n; i++) o[i] = t.eval(x[i]); }
void gamma_lz(double x, double y, double* o) { cd v = trvm::eval_gamma_lanczos(cd(x, y)); o[0] = v.real(); o[1] = v.imag(); }
void gamma_lr(double mu, double x, double y, double* o) { cd v = trvm::eval_gamma_lnratio(mu, cd(x, y)); o[0] = v.real(); o[1] = v.imag(); }
void lngam(double x, double y, double* o) { trvm::get_lngamma_parts(x, y, o[0], o[1]); }
void polar_(double r, double t, double* o) { cd v = trvm::eval_complex_in_polar(r, t); o[0] = v.real(); o[1] = v.imag(); }
double vmag(double* v) { return trvm::get_vec3d_magnitude(v); }
double vmagv(const double* v) { return trvm::get_vec3d_magnitude(vd(v, v + 3)); }
void triplet(const int* a, const int* b, int* o) { SphericalOrderTriplet x = {a[0], a[1], a[2]}, y = {b[0], b[1], b[2]}; SphericalOrderTriplet z = x + y; o[0] = z.m1; o[1] = z.m2; o[2] = z.M; o[3] = x.is_zeros(); o[4] = x.is_inverse(y); }

// ---- arrays
int a_check(const double* a, int n, int l, int g, int s) { TRY vd v(a, a + n); int r = trv::array::check_1d_array(v, l, g, s); (void)r; END }
int a_lin(const double* a, int n, int e, double* o, int* no) { TRY vd v(a, a + n), w(n + 2 * e); trv::array::extrap_lin(v, e, w); *no = w.size(); std::copy(w.begin(), w.begin() + std::min<size_t>(w.size(), n + 2 * e), o); END }
int a_loglin(const double* a, int n, int e, double* o, int* no) { TRY vd v(a, a + n), w(n + 2 * e); trv::array::extrap_loglin(v, e, w); *no = w.size(); std::copy(w.begin(), w.begin() + std::min<size_t>(w.size(), n + 2 * e), o); END }
int a_pad(const double* a, int n, int e, double lo, double hi, double* o, int* no) { TRY vd v(a, a + n), w(n + 2 * e); trv::array::extrap_pad(v, e, lo, hi, w); *no = w.size(); std::copy(w.begin(), w.begin() + std::min<size_t>(w.size(), n + 2 * e), o); END }
int a_2d(int kind, const double* a, int nr, int nc, int er, int ec, const double* c, double* o) { TRY
  std::vector<vd> v, w(nr + 2 * er, vd(nc + 2 * ec)); for (int i = 0; i < nr; i++) v.push_back(vd(a + i * nc, a + (i + 1) * nc));
  if (kind == 0) trv::array::extrap2d_lin(v, er, ec, w); else if (kind == 1) trv::array::extrap2d_loglin(v, er, ec, w); else trv::array::extrap2d_pad(v, er, ec, c[0], c[1], c[2], c[3], w);
  if ((int)w.size() != nr + 2 * er) { ERR = "rows"; return 3; } for (auto& r : w) if ((int)r.size() != nc + 2 * ec) { ERR = "cols"; return 3; }
  for (size_t i = 0; i < w.size(); i++) std::copy(w[i].begin(), w[i].end(), o + i * w[0].size()); END }
void a_sorted(const int* a, int n, int* o) { std::vector<int> v(a, a + n); std::vector<int> r = trv::array::get_sorted_indices(v); std::copy(r.begin(), r.end(), o); }

// ---- FFTLog
int h_new(double mu, double q, void** o) { TRY *o = new trvm::HankelTransform(mu, q, false); END }
int h_init(void* h, const double* x, int n, double kr, int low, int ext, double ee) { TRY ((trvm::HankelTransform*)h)->initialise(vd(x, x + n), kr, (bool)low, ext, ee); END }
int h_trans(void* h, double* a, double* b) { TRY ((trvm::HankelTransform*)h)->biased_transform((cd*)a, (cd*)b); END }
int h_bt(void* h, double* a, int n, double* b) { TRY vc A((cd*)a, (cd*)a + n), B(n); ((trvm::HankelTransform*)h)->biased_transform(A.data(), B.data()); std::copy(B.begin(), B.end(), (cd*)b); END }
void h_info(void* h, double* o) { trvm::HankelTransform* H = (trvm::HankelTransform*)h; o[0] = H->nsamp; o[1] = H->nsamp_trans; o[2] = H->logres; o[3] = H->pivot; o[4] = H->n_ext; o[5] = H->pre_sampts.size(); o[6] = H->post_sampts.size(); o[7] = H->pre_sampts_extrap.size(); o[8] = H->post_sampts_extrap.size(); o[9] = H->kernel.size(); o[10] = H->order; o[11] = H->bias; }
void h_get(void* h, double* pre, double* post, double* pre_e, double* post_e, double* ker) { trvm::HankelTransform* H = (trvm::HankelTransform*)h;
  std::copy(H->pre_sampts.begin(), H->pre_sampts.end(), pre); std::copy(H->post_sampts.begin(), H->post_sampts.end(), post); std::copy(H->pre_sampts_extrap.begin(), H->pre_sampts_extrap.end(), pre_e); std::copy(H->post_sampts_extrap.begin(), H->post_sampts_extrap.end(), post_e); std::copy(H->kernel.begin(), H->kernel.end(), (cd*)ker); }
double h_pivot(void* h, double d, double kr) { return ((trvm::HankelTransform*)h)->calc_lowring_pivot(d, kr); }
void h_free(void* h) { delete (trvm::HankelTransform*)h; }
int t_new(int ell, int n, void** o) { TRY *o = new trvm::SphericalBesselTransform(ell, n, false); END }
int t_init(void* h, const double* x, int n, double kr, int low, int ext, double ee) { TRY ((trvm::SphericalBesselTransform*)h)->initialise(vd(x, x + n), kr, (bool)low, ext, ee); END }
int t_bt(void* h, double* a, int n, double* b, int nb) { TRY vc A((cd*)a, (cd*)a + n), B(nb); ((trvm::SphericalBesselTransform*)h)->biased_transform(A, B); if ((int)B.size() != n) { ERR = "size"; return 3; } std::copy(B.begin(), B.end(), (cd*)b); std::copy(A.begin(), A.end(), (cd*)a); END }
int t_cosmo(void* h, int dir, double* a, int n, double* b, int nb) { TRY vc A((cd*)a, (cd*)a + n), B(nb); ((trvm::SphericalBesselTransform*)h)->transform_cosmological_multipole(dir, A, B); if ((int)B.size() != n) { ERR = "size"; return 3; } std::copy(B.begin(), B.end(), (cd*)b); std::copy(A.begin(), A.end(), (cd*)a); END }
void t_free(void* h) { delete (trvm::SphericalBesselTransform*)h; }

// ---- two-point statistics
int n2_part(void* c, double al, double* o) { TRY *o = calc_powspec_normalisation_from_particles(*(ParticleCatalogue*)c, al); END }
int n2_mesh(void* c, void* p, double al, double* o) { TRY *o = calc_powspec_normalisation_from_mesh(*(ParticleCatalogue*)c, *(ParameterSet*)p, al); END }
int n2_meshes(void* c, void* r, void* p, double al, double* o) { TRY *o = calc_powspec_normalisation_from_meshes(*(ParticleCatalogue*)c, *(ParticleCatalogue*)r, *(ParameterSet*)p, al); END }
int n2_meshes2(void* c, void* r, void* p, double al, double pad, double cell, const char* as, double* o) { TRY *o = calc_powspec_normalisation_from_meshes(*(ParticleCatalogue*)c, *(ParticleCatalogue*)r, *(ParameterSet*)p, al, pad, cell, as); END }
int n3_part(void* c, double al, double* o) { TRY *o = calc_bispec_normalisation_from_particles(*(ParticleCatalogue*)c, al); END }
int n3_mesh(void* c, void* p, double al, double* o) { TRY *o = calc_bispec_normalisation_from_mesh(*(ParticleCatalogue*)c, *(ParameterSet*)p, al); END }
int sn2_part(void* c, double al, double* o) { TRY *o = calc_powspec_shotnoise_from_particles(*(ParticleCatalogue*)c, al); END }
int sn_amp(int three, void* d, void* r, double* ld, double* lr, double al, int l, int m, double* o) { TRY cd v;
  if (three) v = r ? calc_ylm_wgtd_shotnoise_amp_for_bispec(*(ParticleCatalogue*)d, *(ParticleCatalogue*)r, (LineOfSight*)ld, (LineOfSight*)lr, al, l, m) : calc_ylm_wgtd_shotnoise_amp_for_bispec(*(ParticleCatalogue*)d, (LineOfSight*)ld, al, l, m);
  else v = r ? calc_ylm_wgtd_shotnoise_amp_for_powspec(*(ParticleCatalogue*)d, *(ParticleCatalogue*)r, (LineOfSight*)ld, (LineOfSight*)lr, al, l, m) : calc_ylm_wgtd_shotnoise_amp_for_powspec(*(ParticleCatalogue*)d, (LineOfSight*)ld, al, l, m);
  o[0] = v.real(); o[1] = v.imag(); END }
// results: dims then arrays, in a static store
static std::vector<vd> OUT; static int ODIM;
static vd tod(const std::vector<int>& v) { return vd(v.begin(), v.end()); }
static vd toc(const vc& v) { vd o; for (auto& x : v) { o.push_back(x.real()); o.push_back(x.imag()); } return o; }
int out_n() { return OUT.size(); } int out_dim() { return ODIM; } int out_len(int i) { return OUT[i].size(); } void out_get(int i, double* o) { std::copy(OUT[i].begin(), OUT[i].end(), o); }
#define O2P(M) ODIM = M.dim; OUT = {M.kbin, M.keff, tod(M.nmodes), toc(M.pk_raw), toc(M.pk_shot)};
#define O2X(M) ODIM = M.dim; OUT = {M.rbin, M.reff, tod(M.npairs), toc(M.xi)};
#define O3B(M) ODIM = M.dim; OUT = {M.k1_bin, M.k2_bin, M.k1_eff, M.k2_eff, tod(M.nmodes_1), tod(M.nmodes_2), toc(M.bk_raw), toc(M.bk_shot)};
#define O3Z(M) ODIM = M.dim; OUT = {M.r1_bin, M.r2_bin, M.r1_eff, M.r2_eff, tod(M.npairs_1), tod(M.npairs_2), toc(M.zeta_raw), toc(M.zeta_shot)};
int st_powspec(void* d, void* r, double* ld, double* lr, void* p, void* b, double norm) { TRY
  if (r) { auto M = compute_powspec(*(ParticleCatalogue*)d, *(ParticleCatalogue*)r, (LineOfSight*)ld, (LineOfSight*)lr, *(ParameterSet*)p, *(Binning*)b, norm); O2P(M) }
  else { auto M = compute_powspec_in_gpp_box(*(ParticleCatalogue*)d, *(ParameterSet*)p, *(Binning*)b, norm); O2P(M) } END }
int st_corrfunc(void* d, void* r, double* ld, double* lr, void* p, void* b, double norm) { TRY
  if (r) { auto M = compute_corrfunc(*(ParticleCatalogue*)d, *(ParticleCatalogue*)r, (LineOfSight*)ld, (LineOfSight*)lr, *(ParameterSet*)p, *(Binning*)b, norm); O2X(M) }
  else { auto M = compute_corrfunc_in_gpp_box(*(ParticleCatalogue*)d, *(ParameterSet*)p, *(Binning*)b, norm); O2X(M) } END }
int st_corrwin(void* r, double* lr, void* p, void* b, double al, double norm) { TRY auto M = compute_corrfunc_window(*(ParticleCatalogue*)r, (LineOfSight*)lr, *(ParameterSet*)p, *(Binning*)b, al, norm); O2X(M) END }
int st_bispec(void* d, void* r, double* ld, double* lr, void* p, void* b, double norm) { TRY
  if (r) { auto M = compute_bispec(*(ParticleCatalogue*)d, *(ParticleCatalogue*)r, (LineOfSight*)ld, (LineOfSight*)lr, *(ParameterSet*)p, *(Binning*)b, norm); O3B(M) }
  else { auto M = compute_bispec_in_gpp_box(*(ParticleCatalogue*)d, *(ParameterSet*)p, *(Binning*)b, norm); O3B(M) } END }
int st_3pcf(void* d, void* r, double* ld, double* lr, void* p, void* b, double norm) { TRY
  if (r) { auto M = compute_3pcf(*(ParticleCatalogue*)d, *(ParticleCatalogue*)r, (LineOfSight*)ld, (LineOfSight*)lr, *(ParameterSet*)p, *(Binning*)b, norm); O3Z(M) }
  else { auto M = compute_3pcf_in_gpp_box(*(ParticleCatalogue*)d, *(ParameterSet*)p, *(Binning*)b, norm); O3Z(M) } END }
int st_3pcfwin(void* r, double* lr, void* p, void* b, double al, double norm, int wa) { TRY auto M = compute_3pcf_window(*(ParticleCatalogue*)r, (LineOfSight*)lr, *(ParameterSet*)p, *(Binning*)b, al, norm, (bool)wa); O3Z(M) END }

// ---- output
static std::string tostr(std::FILE* f) { std::string s; char buf[4096]; std::rewind(f); size_t n; while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) s.append(buf, n); std::fclose(f); return s; }
static std::string TXT; const char* txt() { return TXT.c_str(); }
int io_head(void* p, void* d, void* r, double a, double b, double c) { TRY std::FILE* f = std::tmpfile();
  if (r) trv::io::print_measurement_header_to_file(f, *(ParameterSet*)p, *(ParticleCatalogue*)d, *(ParticleCatalogue*)r, a, b, c); else trv::io::print_measurement_header_to_file(f, *(ParameterSet*)p, *(ParticleCatalogue*)d, a, b, c); TXT = tostr(f); END }
int io_tab(int kind, void* p, int dim, int rows, const double* v) { TRY std::FILE* f = std::tmpfile();
  auto col = [&](int c) { return vd(v + c * rows, v + (c + 1) * rows); };
  auto icol = [&](int c) { std::vector<int> o; for (int i = 0; i < rows; i++) o.push_back((int)v[c * rows + i]); return o; };
  auto ccol = [&](int c) { vc o; for (int i = 0; i < rows; i++) o.push_back(cd(v[c * rows + i], v[(c + 1) * rows + i])); return o; };
  ParameterSet& P = *(ParameterSet*)p;
  if (kind == 0) { PowspecMeasurements m; m.dim = dim; m.kbin = col(0); m.keff = col(1); m.nmodes = icol(2); m.pk_raw = ccol(3); m.pk_shot = ccol(5); trv::io::print_measurement_datatab_to_file(f, P, m); }
  if (kind == 1) { TwoPCFMeasurements m; m.dim = dim; m.rbin = col(0); m.reff = col(1); m.npairs = icol(2); m.xi = ccol(3); trv::io::print_measurement_datatab_to_file(f, P, m); }
  if (kind == 2) { TwoPCFWindowMeasurements m; m.dim = dim; m.rbin = col(0); m.reff = col(1); m.npairs = icol(2); m.xi = ccol(3); trv::io::print_measurement_datatab_to_file(f, P, m); }
  if (kind == 3) { BispecMeasurements m; m.dim = dim; m.k1_bin = col(0); m.k1_eff = col(1); m.nmodes_1 = icol(2); m.k2_bin = col(3); m.k2_eff = col(4); m.nmodes_2 = icol(5); m.bk_raw = ccol(6); m.bk_shot = ccol(8); trv::io::print_measurement_datatab_to_file(f, P, m); }
  if (kind == 4) { ThreePCFMeasurements m; m.dim = dim; m.r1_bin = col(0); m.r1_eff = col(1); m.npairs_1 = icol(2); m.r2_bin = col(3); m.r2_eff = col(4); m.npairs_2 = icol(5); m.zeta_raw = ccol(6); m.zeta_shot = ccol(8); trv::io::print_measurement_datatab_to_file(f, P, m); }
  if (kind == 5) { ThreePCFWindowMeasurements m; m.dim = dim; m.r1_bin = col(0); m.r1_eff = col(1); m.npairs_1 = icol(2); m.r2_bin = col(3); m.r2_eff = col(4); m.npairs_2 = icol(5); m.zeta_raw = ccol(6); m.zeta_shot = ccol(8); trv::io::print_measurement_datatab_to_file(f, P, m); }
  TXT = tostr(f); END }
int io_binned(void* p, int n, const int* ix, const double* v) { TRY std::FILE* f = std::tmpfile(); BinnedVectors b; b.count = n; b.indices.assign(ix, ix + n);
  auto col = [&](int c) { return vd(v + c * n, v + (c + 1) * n); }; b.lower_edges = col(0); b.upper_edges = col(1); b.vecx = col(2); b.vecy = col(3); b.vecz = col(4); b.num_bins = n;
  trv::io::print_binned_vectors_to_file(f, *(ParameterSet*)p, b); TXT = tostr(f); END }
int io_set(const char* s) { return trv::sys::if_filepath_is_set(s); }
int io_mkdir(const char* s) { TRY trv::sys::make_write_dir(s); END }
}
