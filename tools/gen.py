"""Writes properties.jsonl and MANIFEST.json. A property is claimed when contracts/c_<id>.py exists."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
S = 'src/triumvirate/'
C, Hh = S + 'src/', S + 'include/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


NOCXX = 'The test suite reaches the compiled code only through a few end-to-end runs with one box and one catalogue; nothing there quantifies over '
prop('P01', 'Mesh assignment is periodic B-spline painting',
     'Painting particles onto the mesh adds, for every particle, its weight times the separable nearest-grid-point, cloud-in-cell, triangular or piecewise-cubic kernel of its distance to each cell, divided by the cell volume, with cells wrapped periodically in every dimension, so that the mesh integrates to the total weight. The interlaced companion mesh equals the same painting of the particles displaced by half a cell in every dimension. Nothing else is written, for any particle inside the box including on cell boundaries and in the last cells.',
     ['inputs', 'configurations'], 'every particle position in the box, weight, mesh size, box size, assignment scheme and interlacing choice',
     NOCXX + 'positions near cell edges and the wrap-around, each scheme and each axis.',
     [C + 'field.cpp'], [('mesh assignment by scheme', C + 'field.cpp: MeshField::assign_weighted_field_to_mesh_{ngp,cic,tsc,pcs}')])
prop('P02', 'Grid cells map one-to-one to positions and wavevectors',
     'The flattened mesh index is a bijection between cell triples and storage offsets in row-major order; the position (wavevector) attached to a cell is its signed index, with the first half non-negative and the rest wrapped to negative values, times the cell size (fundamental wavenumber) of that dimension. The spherical-harmonic grids, the mode statistics and the field products all use this same convention, for even and odd and unequal mesh sizes.',
     ['inputs', 'configurations'], 'every mesh size triple (even, odd, unequal), box size triple and cell',
     NOCXX + 'anisotropic or odd meshes; the tests use one cubic even mesh.',
     [C + 'field.cpp', C + 'maths.cpp'], [('index and vector maps', C + 'field.cpp: get_grid_index, get_grid_pos_vector, get_grid_wavevector, ret_grid_index, shift_grid_indices_fourier'), ('harmonic grids', C + 'maths.cpp: SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_*')])
prop('P03', 'Field transforms are normalised, compensated and band limited correctly',
     'The forward field transform is the cell volume times the unnormalised discrete Fourier sum, the inverse transform is its exact inverse, and with interlacing the two shifted meshes are averaged with the half-cell phase. Window compensation divides each mode by the assignment kernel in Fourier space, the product of cardinal sines to the power of the assignment order. The band-limited and the Bessel-weighted inverse transforms equal the sum over exactly the modes in the half-open band (divided by their number; a band without modes gives a zero field and the band centre as effective wavenumber), or over all modes with the stated Bessel and harmonic weights, divided by the box volume.',
     ['inputs', 'configurations'], 'every field, mesh, box, band, degree and order, assignment scheme and interlacing choice',
     NOCXX + 'the interlaced path, the window in each dimension and the band edges.',
     [C + 'field.cpp'], [('transforms', C + 'field.cpp: MeshField::fourier_transform, inv_fourier_transform, apply_assignment_compensation, calc_assignment_window_in_fourier'), ('shell transforms', C + 'field.cpp: inv_fourier_transform_ylm_wgtd_field_band_limited, inv_fourier_transform_sjl_ylm_wgtd_field')])
prop('P04', 'Weighted fluctuation fields combine data and randoms with the right factors',
     'The density fluctuation is the painted data minus alpha times the painted randoms, harmonic-weighted fields weight each particle by the reduced harmonic y_lm = sqrt(4 pi / (2l + 1)) conj(Y_lm) of its own line of sight times its total weight, the quadratic field uses the conjugate harmonic and the squared weights with plus alpha squared, and the box version subtracts the mean density. The interlaced companion field obeys the same relation.',
     ['inputs', 'configurations'], 'every pair of catalogues, weights, lines of sight, alpha, harmonic degree and order, scheme and interlacing choice',
     NOCXX + 'alpha, weights, or interlaced companions of the two catalogue forms.',
     [C + 'field.cpp'], [('fields', C + 'field.cpp: MeshField::compute_*_field*, MeshField::operator overloads')])
prop('P05', 'Coordinate bins partition the requested range',
     'For every binning scheme, the bin edges are strictly those of the scheme (linear, logarithmic, padded linear, padded logarithmic, mesh-spaced or custom), start at the lower and end at the upper limit, and each bin centre is the midpoint and each width the difference of its two edges, with exactly the requested number of bins recorded. Unusable requests (an unknown scheme, a negative lower limit, a zero or negative number of bins, logarithmic bins from zero, padded schemes with no room beyond the padding) are rejected.',
     ['inputs', 'configurations'], 'every scheme, space, range, number of bins, mesh and custom edge list',
     'The tests build one linear binning; other schemes, the padding and repeated construction are never compared with their definition.',
     [C + 'dataobjs.cpp', S + 'dataobjs.pyx'], [('bin construction', C + 'dataobjs.cpp: Binning::set_bins, Binning::compute_binning, Binning::Binning; ' + S + 'dataobjs.pyx: Binning')])
prop('P06', 'Binned two-point statistics average exactly the modes of each bin',
     'For each bin, the binned power spectrum, effective wavenumber and shot noise are the averages over exactly the mesh modes whose wavenumber, resolved on the documented fine sampling grid (steps of 1e-5 in wavenumber and 0.1 in separation, 1.0 for the three-point shot noise; a million, or a hundred thousand, steps), is in the half-open bin, of the compensated product of the two fields (divided by the aliasing factor without interlacing and by the product of the assignment windows with it), its wavenumber and its aliased shot noise, together with the number of such modes; an empty bin reports its centre and zeros. The configuration-space statistics are likewise averages over separations of the inverse transform, and incompatible fields are rejected. The recorded list of binned vectors is exactly the set of mesh vectors in each bin with that bin\'s edges.',
     ['inputs', 'configurations', 'schedules'], 'every pair of fields, harmonic order, binning, mesh and box, and every thread schedule of the parallel sums',
     NOCXX + 'modes at bin edges, empty bins, or bins beyond the mesh.',
     [C + 'field.cpp'], [('statistics', C + 'field.cpp: FieldStats::compute_ylm_wgtd_2pt_stats_in_fourier, compute_ylm_wgtd_2pt_stats_in_config, compute_uncoupled_shotnoise_for_*'), ('recorded vectors', C + 'field.cpp: FieldStats::record_binned_vectors')])
prop('P07', 'Shot-noise aliasing follows the assignment scheme',
     'The aliasing factor multiplying the shot noise of a mode is the closed form of the assignment scheme in each dimension (unity for nearest grid point) or, when interlacing is used, its interlaced form, and every mode of the mesh is assigned the factor of its own signed indices.',
     ['inputs', 'configurations'], 'every mode, mesh size, scheme and interlacing choice',
     NOCXX + 'the per-scheme closed form or the zero mode.',
     [C + 'field.cpp'], [('aliasing', C + 'field.cpp: FieldStats::calc_shotnoise_aliasing, ret_calc_shotnoise_aliasing, compute_shotnoise_aliasing')])
prop('P08', 'Normalisation factors equal the inverse of their defining integral',
     'The particle-based two-point (three-point) normalisation is the reciprocal of alpha times the sum over particles of nz (nz squared) times systematic weight times clustering weight to the second (third) power. The mesh-based ones are the reciprocal of the volume integral of alpha squared (cubed) times the squared (cubed) painted weighted density, the mixed-mesh one the integral of the product of the painted data and alpha times the painted randoms after both are placed with the same padding (at a given cell size, on a cubic, even mesh covering the padded largest span), leaving the catalogues where they were up to rounding. Uninitialised particles and, for the particle-based factors, a vanishing particle sum are rejected.',
     ['inputs', 'configurations'], 'every catalogue, alpha, mesh, box, padding and scheme',
     NOCXX + 'weights different from unity or the padded mixed mesh.',
     [C + 'twopt.cpp', C + 'threept.cpp', C + 'field.cpp'], [('normalisation', C + 'twopt.cpp: calc_powspec_normalisation_*; ' + C + 'threept.cpp: calc_bispec_normalisation_*; field.cpp: calc_grid_based_powlaw_norm')])
prop('P09', 'Two-point measurements are the multipole estimator of their inputs',
     'A measured two-point multipole is, bin by bin, the normalisation times the sum over orders of the coupling coefficient times the binned product of the harmonic-weighted and the monopole fluctuation fields, the reported shot noise is the same sum over the shot-noise amplitudes, and the bin centres, effective coordinates and counts are those of the binning and of the mesh. The measurement does not change the catalogues, and the arrays all have one entry per bin.',
     ['inputs', 'configurations'], 'every catalogue pair, line of sight, multipole degree, binning, mesh and scheme',
     NOCXX + 'survey geometry with non-trivial lines of sight for degrees above zero.',
     [C + 'twopt.cpp'], [('estimators', C + 'twopt.cpp: compute_powspec, compute_corrfunc, compute_*_in_gpp_box, compute_corrfunc_window, calc_ylm_wgtd_shotnoise_amp_for_powspec')])
prop('P10', 'Three-point measurements fill every entry of the requested layout',
     'A three-point measurement in diagonal, off-diagonal, row, full or upper-triangular form has exactly the documented number of entries, each carrying the bin centres, effective coordinates, counts, signal and shot noise of its own pair of bins in the documented order. An entry in one layout equals the entry for the same bin pair in the full layout, no memory outside the arrays is touched, and the number of bins used is that of the binning given.',
     ['inputs', 'configurations'], 'every layout, bin index, number of bins, binning, degree triplet, catalogue and mesh',
     NOCXX + 'the off-diagonal, row, full and triangular layouts or any relation between layouts.',
     [C + 'threept.cpp'], [('layouts', C + 'threept.cpp: compute_bispec, compute_3pcf, compute_bispec_in_gpp_box, compute_3pcf_in_gpp_box, compute_3pcf_window')])
prop('P11', 'Coupling coefficients and harmonics follow their algebraic definition',
     'The two-point (three-point) coupling coefficient is the product of degeneracy factors (2l+1) and the Wigner 3-j symbols of its degrees and orders, vanishing when a selection rule fails; a multipole choice with a vanishing zero-order coupling is rejected. The reduced spherical harmonics (in the conjugated convention of the library, y_lm = sqrt(4 pi / (2l + 1)) conj(Y_lm)) equal the defining associated Legendre expression with the Condon-Shortley phase and conjugation symmetry in the order, including at the poles and the origin, and the spherical Bessel evaluator agrees with the spherical Bessel function over its whole range.',
     ['inputs'], 'every degree and order triple and every vector',
     'The tests evaluate a handful of degrees; selection rules, negative orders and poles are not reached.',
     [C + 'maths.cpp', C + 'twopt.cpp', C + 'threept.cpp'], [('coefficients', C + 'maths.cpp: wigner_3j, SphericalHarmonicCalculator, SphericalBesselCalculator; twopt.cpp: calc_coupling_coeff_2pt; threept.cpp: calc_coupling_coeff_3pt, validate_multipole_coupling')])
prop('P12', 'Catalogue geometry operations move particles as stated',
     'Each compiled catalogue operation (centring, padding, periodic wrapping, offsetting, extents, spans and totals) moves every particle by the same stated vector (or by whole box lengths), leaves weights and number densities untouched, ends in the documented place (inside the half-open box for wrapping, centred at mid-box for centring, lower extents at the padding for padding), and refreshes the recorded extents and totals. A joint operation moves both catalogues by the same vector determined by the documented reference catalogue.',
     ['inputs', 'histories'], 'every catalogue, box, padding, offset and sequence of operations',
     NOCXX + 'coordinates outside the box by several periods, or operation sequences.',
     [C + 'particles.cpp'], [('operations', C + 'particles.cpp: ParticleCatalogue::*')])
prop('P13', 'Python catalogues keep positions, weights and bounds consistent',
     'Each Python catalogue operation moves every particle as documented: offsetting subtracts the new origin; centring puts the midpoint of the reference extents at the centre of the box; padding puts the lowest reference coordinate at the padding (a fraction of the box, or a number of grid cells); periodic wrapping centres and then wraps into the box. Both catalogues of a pair (two distinct catalogues) move by the same displacement; other columns are untouched; single numbers, lists, tuples and arrays mean the same. Recorded extents, particle number and weight totals are always those of the current columns, also after a column is set. Lines of sight are unit vectors along positions, the mean density is the particle number over the volume. Missing density and weight columns are filled with the documented defaults (with a warning), a missing coordinate is an error, given arrays are not modified, and the compiled code gets the columns unchanged.',
     ['inputs', 'histories'], 'every catalogue, box, padding and sequence of operations',
     'The tests use one small catalogue and call each operation once.',
     [S + 'catalogue.py', S + '_particles.pyx'], [('operations', S + 'catalogue.py: ParticleCatalogue.*; ' + S + '_particles.pyx')])
prop('P14', 'A validated parameter set is self-consistent and survives copying',
     'Validation accepts exactly the documented values, rejects everything else, derives the dependent fields (mesh total, volume, assignment order, shape, mode flags) from the primary ones, and is idempotent. An unset box is taken from the catalogue extents and the expansion factor, an unset mesh from the box and the Nyquist cutoff. Copying a parameter set gives an equal one, and so do writing one to file and reading it back, to the printed precision and with directories given by absolute path. A Python parameter set hands every entry, whatever the case of its text, to the field it names, leaves unset entries at their defaults, refuses sets without the required entries, and shows the derived values; changing entries one by one, together or through the measurement and sampling overrides gives what a set built with those values gives, and a saved one reads back equal.',
     ['inputs', 'configurations', 'histories'], 'every assignment of the parameters, and every sequence of set, validate, copy, print and read',
     'The tests load two parameter files; rejected values and derived fields are barely sampled.',
     [C + 'parameters.cpp', S + 'parameters.pyx'], [('validation', C + 'parameters.cpp: ParameterSet::validate, ParameterSet(const ParameterSet&), read_from_file, print_to_file, set_ngrid_from_cutoff, set_boxsize_from_expand; ' + S + 'parameters.pyx: ParameterSet, _modify_measurement_parameters, _modify_sampling_parameters, _set_ngrid_from_cutoff, fetch_paramset_template')])
prop('P15', 'Array extrapolation extends data and keeps the original untouched',
     'Extrapolating a one- or two-dimensional array, in compiled or Python code, returns an array longer by the requested number on each side whose middle is the input bit for bit and whose ends continue the edge increments (linear), edge ratios (log-linear) or given constants (padding); in two dimensions rows and columns follow the same rule. The input is not modified, unusable inputs are rejected, and the sortedness, linearity and log-linearity checks accept exactly the arrays with those properties.',
     ['inputs'], 'every array, extension size and mode',
     'The tests use one array per mode; falling arrays, negative entries, unequal row and column extensions are not reached.',
     [C + 'arrayops.cpp', S + '_arrayops.py'], [('extrapolation', C + 'arrayops.cpp: extrap_lin, extrap_loglin, extrap_pad, extrap2d_*; ' + S + '_arrayops.py')])
prop('P16', 'Hankel-type transforms use matching sample points and kernels',
     'The FFTLog Hankel and spherical Bessel transforms place the output samples at the pivot over the reversed input samples, multiply the transformed samples by the transfer kernel of the order, bias and pivot, and return samples for the original points only when extrapolation is on; for power-law-decaying inputs they agree with the integral. A forward followed by a backward transform returns the input, the input array is not modified, and the dimensionally normalised versions carry the prefactors of their convention.',
     ['inputs', 'configurations'], 'every order, bias, pivot, sample count, extrapolation option and input array',
     'The tests transform one analytic function pair per class with one sampling.',
     [C + 'fftlog.cpp', S + 'transforms.py', S + '_fftlog.pyx', C + 'maths.cpp'], [('transforms', C + 'fftlog.cpp: HankelTransform, SphericalBesselTransform; ' + S + 'transforms.py')])
prop('P17', 'Window convolution formulae sum the stated terms',
     'A window-convolved two- or three-point multipole is the sum over its formula terms of coefficient times window multipole times unconvolved multipole, followed by the stated transforms, linear in the unconvolved input, with the identity obtained for a unit monopole window; named formulae contain the coefficients of the Wigner-coupling expansion, and integral-constraint terms are subtracted with their stated factor. The transfer matrix applied to a model vector reproduces the direct convolution.',
     ['inputs', 'configurations'], 'every formula, window, unconvolved input, sampling and multipole set',
     'The tests convolve one example file and compare with a stored result.',
     [S + 'winconv.py'], [('convolution', S + 'winconv.py: WinConvFormulae, TwoPointWinConvBase, ThreePointWinConvBase subclasses, calc_threept_winconv_coeff')])
prop('P18', 'Window and multipole objects keep keys, samples and values aligned',
     'Multipole labels of any spelling denote one multipole with a total order consistent with equality and hashing; window objects keep each multipole\'s values aligned with the coordinate samples through construction, resampling, selection and reordering, selections contain exactly the samples and multipoles asked for, and non-in-place operations leave the original unchanged.',
     ['inputs', 'histories'], 'every multipole spelling, window data set and sequence of operations',
     'The tests construct one window of each kind.',
     [S + 'winconv.py', S + 'transforms.py'], [('objects', S + 'winconv.py: Multipole, ThreePointWindow')])
prop('P19', 'Three-point tables reshape without losing or moving values',
     'Reshaping a flattened three-point data table, upper-triangular or full, into a two-dimensional array places every value at its bin pair, row by row, fills both triangles of the upper-triangular form by symmetry and returns the common bin coordinates; values are unchanged, including their imaginary part. Tables whose length does not match the form are rejected, and window function tables are reshaped in the form that the symmetry of their multipole calls for, scaled by the squared density contrast.',
     ['inputs', 'configurations'], 'every table size, shape and coordinate ordering',
     'The tests reshape at most one table.',
     [S + 'winconv.py', S + '_arrayops.py'], [('reshape', S + '_arrayops.py: reshape_threept_datatab')])
prop('P20', 'Work is shared among processes without loss or overlap',
     'Distributing any number of tasks over any number of processes gives every process a contiguous range, the ranges are disjoint, in order, cover all tasks, and differ in size by at most one.',
     ['inputs', 'configurations'], 'every number of tasks and processes',
     'The tests try a few combinations.',
     [S + '_mpitools.py'], [('partition', S + '_mpitools.py: allocate_tasks, distribute_tasks')])
prop('P21', 'Measurements written to file carry the measured values in their columns',
     'A measurement table written by the compiled code lists, one row per bin (pair), the bin centre, effective coordinate, count, and real and imaginary parts of signal and shot noise in the order named by the header line, which also states the parameters and catalogue sums used; the recorded-vector table lists every vector with its bin.',
     ['inputs', 'configurations'], 'every measurement, statistic, form and layout',
     NOCXX + 'the written table of each statistic.',
     [C + 'io.cpp'], [('tables', C + 'io.cpp: print_measurement_header_to_file, print_measurement_datatab_to_file, print_binned_vectors_to_file')])

prop('P22', 'Python measurement functions measure, return and save what was asked',
     'Every two- and three-point measurement function (survey, box, window) hands the compiled estimator the columns of the given catalogues after the chosen alignment, the given lines of sight (by default those of the positions as given), the parameters with the overrides applied, the given or parameter-defined binning, and the normalisation factor of the chosen convention evaluated on those catalogues with the ratio of total weights; an unset box size or mesh number follows from the particle spans and the Nyquist cutoff, and a missing density of a box is filled in. The result carries the estimator\'s arrays under their names; a saved file is named by statistic, degrees, form and tag and holds the same values under the columns its header names. Missing arguments and unsupported formats are rejected; any logger is accepted.',
     ['inputs', 'configurations'], 'every function, catalogue, parameter set, override, alignment, normalisation and output format',
     'The tests call few of these functions, with one parameter file, and look at few of the arguments that reach the compiled code.',
     [S + 'twopt.py', S + 'threept.py', S + '_twopt.pyx', S + '_threept.pyx', S + 'parameters.pyx', S + 'dataobjs.pyx'], [('measurement', S + 'twopt.py, threept.py: compute_*, _compute_*_like, _amalgamate_parameters, _get_measurement_filename, _print_measurement_header, _assemble_measurement_datatab')])

PENDING = 'contracts for this property are not finished in this tree, so no check is registered for it (see DESIGN.md)'
REASON = {}


NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'notes.py')) else None

open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in P))
checks, na = [], []
for p in P:
    i = p['id']
    f = os.path.join(V, 'contracts', 'c_%s.py' % i)
    if os.path.exists(f):
        lv = 'proof' if "LEVEL = 'proof'" in open(f).read() else 'other'
        checks.append({'property': i, 'quick_cmd': 'python3-vt engine/check.py %s' % i, 'thorough_cmd': 'env VERIF_TIER=thorough python3-vt engine/check.py %s' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'contract-based deductive verification: verification conditions generated from the current source (clang / Python AST), discharged by z3 and cvc5; counterexamples replayed on the built code',
                       'level': lv, 'level_note': NOTE.get(i, 'Every obligation over the functions listed in the evidence is discharged for all inputs (doubles as reals, machine integers as mathematical unless stated); the contracts are also evaluated on the built code for concrete inputs.')})
    else:
        na.append({'property': i, 'reason': REASON.get(i, PENDING)})
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed: contracts live beside the code in /verif/contracts, keyed by qualified function name, and the verified text is the current source as parsed on every run.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
