_n = ('bounded stand-in: the real code is run on generated inputs and compared with an independent statement of the property; '
      'nothing is proved')
LEVELS = {f'C{i:02d}': ('exploration', 'bounded contract evaluation on the real code', _n) for i in range(1, 18)}
_p = 'contract-based deductive verification of the C sources (own VC generator over the clang AST, z3)'
_t = (' Trusted: clang AST, the VC generator, z3; reals for floats; buffers do not overlap; sizes below 2^57. '
      'The Cython glue between the C functions and Python (rendered to Python on every run, see DESIGN.md) is under contract too; memory layout inside numpy and rounding by bounded contract evaluation on the real build.')
LEVELS['C01'] = ('proof', _p, 'Every obligation of the DWT kernels and their callers (coefficient of every tap, bounds, wrap-around, termination) for all lengths, filters and modes is discharged on each run.' + _t)
LEVELS['C02'] = ('proof', _p, 'Every obligation about memory, integer range, callee preconditions and termination of the 1-D C functions (dwt, idwt, upcoef, swt, downcoef) is discharged on each run.' + _t)
LEVELS['C04'] = ('proof', _p, 'Reconstruction kernels, idwt, rec and their callers for all lengths and filters.' + _t)
_q = 'contract-based deductive verification of the Python sources (symbolic execution of the unchanged text against contracts, z3)'
_u = (' Trusted: CPython executing the text, the numpy contracts in vf/proof/pyvc.py, z3; reals for floats; ranks 0-3 enumerated, extents, values, modes and filter '
      'lengths symbolic; rounding and memory layout inside numpy by bounded contract evaluation on the real build.')
LEVELS['C06'] = ('proof', _q, 'dwt, idwt, dwt2, idwt2, dwtn, idwtn meet their contracts (axes, keys, missing bands, dtype, no writes to arguments) for all extents, values, wavelets and modes.' + _u)
LEVELS['C08'] = ('proof', _q, 'wavedec*, waverec*, fswavedecn, fswaverecn meet their contracts and invert each other given perfect reconstruction of the single level.' + _u)
LEVELS['C07'] = ('proof', _p + '; Python sources by symbolic execution against contracts, z3',
                 'swt_ and the upsampled periodized kernel for all lengths, filters and every representable level (C); swt, swt2, swtn meet their contracts and iswt, iswt2, iswtn '
                 'return the signal (levels 1-3) given perfect reconstruction of the periodized single level (Python).' + _u)
LEVELS['C09'] = ('proof', _q, 'coeffs_to_array, array_to_coeffs, ravel_coeffs, unravel_coeffs: layout, slices, padding, refusal and lossless return for all extents and values (levels up to 3).' + _u)
LEVELS['C10'] = ('proof', _q, 'threshold and threshold_firm: every branch of every mode for a generic element, special values included, all dtypes.' + _u)
LEVELS['C05'] = ('proof', _q + '; Lean 4', 'Round trips of dwt/idwt, dwtn/idwtn, dwt2/idwt2 for all extents, values, modes and banks, from the single-level contracts; the perfect-reconstruction lemma itself is proved in Lean from the contracts of the C kernels.' + _u)
LEVELS['C13'] = ('proof', _q, 'mra, mra2, mran, imra, imra2, imran: structure, shape, each component the inverse of one coefficient set, sum equals the data.' + _u)
LEVELS['C14'] = ('proof', 'exhaustive exact evaluation of the compiled tables (every bank, every identity, rational arithmetic) and contract-based symbolic execution (z3)', 'All 106 banks: every identity decided exactly; qmf and orthogonal_filter_bank for every length and input. Exposure of the filters by Wavelet objects by bounded contract evaluation.')
LEVELS['C12'] = ('proof', _q, 'Every node class: node data by every way of access, level listings, reconstruction of unmodified, assigned and deleted nodes, for all extents, values, modes and filter lengths, depth 2 (1-D: 3).' + _u)
LEVELS['C03'] = ('proof', _p + ' and CBMC; Python sources by symbolic execution against contracts, z3', 'Length and level formulas of common.c for all 64-bit arguments (C); dwt_max_level, dwt_coeff_len, wavedecn_shapes, wavedecn_size, dwtn_max_level, _check_level for all sizes, filter lengths, modes and levels, the shapes being those of the contract of wavedecn (Python).' + _u)
LEVELS['C11'] = ('proof', _q, 'pad in every mode: both margins of every width, every extent and content, loop invariants on the antisymmetric callback; the extension is the one the C kernels are proved against, and a zero-extension transform of the padded signal reads the same samples inside.' + _u + ' np.pad itself is trusted for its named modes (checked by the bounded part).')
LEVELS['C17'] = ('proof', _p + '; ' + _q, 'The four instances of every C kernel differ only in their types and convert nothing to a narrower type (all instances, AST comparison); in Python, every transform and inverse of an array of each type equals, value by value, the same call in double complex, every narrowing conversion being an unknown function, and has the dtype of the rule (17 dtypes, mixed bands).' + _u)
LEVELS['C15'] = ('proof', _p + ', sympy; ' + _q, 'Every C wavelet evaluator equals its closed form at every grid point for all parameters, integer-literal overflow included (B-spline orders 1-6); unit energy, zero mean by exact integration; table driver, integrate_wavelet, central_frequency, scale2frequency and cwt (both methods, 1-D to 3-D, all dtypes) meet their contracts for all extents, values, scales.' + _u + ' np.convolve and np.fft by their contracts (convolution theorem).')
NA = []
