import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
CT='pywt/_extensions/c/convolution.template.c'; WT='pywt/_extensions/c/wt.template.c'; CM='pywt/_extensions/c/common.c'
p('C01','The 1-D DWT equals its definition for every signal, filter and mode',
 "For every signal of length N>=1, every even-length (>=2) decomposition filter pair and every extension mode (reflect and antireflect need N>=2), coefficient o of the single-level 1-D decomposition is the sum over j of filter[j]*ext(2o+1-j), where ext is the signal extended without bound by the mode's rule; in periodization mode it is the sum of filter[j]*per(F/2+2o-j), where per repeats the signal, an odd-length one first padded with one copy of its last sample. This holds for real and complex, single and double precision alike, for the two bands of dwt and for each repeated level of downcoef, up to rounding of the given precision.",
 ['inputs','configurations'],'all N, all filters incl. F>N and F>>N, all 9 modes, 4 dtypes, all output positions',
 "The tests compare a few lengths and wavelets with stored Matlab values; the four boundary regions of the kernel (and the F>N multi-wrap region) depend on N, F, mode and parity jointly and cannot be enumerated.",
 [CT,WT,'pywt/_extensions/_dwt.pyx','pywt/_dwt.py'],
 [('downsampling_convolution',CT),('downsampling_convolution_periodization',CT),('dec_a/dec_d',WT),('dwt_single/downcoef','pywt/_extensions/_dwt.pyx')],
 ['pywt.dwt','pywt.downcoef'])
p('C02','Every transform call is memory safe and terminates',
 "Whatever array lengths, filter lengths, axes, levels and modes a caller passes to a public transform function, the call terminates, reads only inside its input buffers and writes only inside buffers it allocated for its output, or raises an exception. In particular arguments that the compiled code cannot handle (empty signals, one-sample signals with reflecting modes, axes outside the array, inconsistent coefficient lengths) are rejected before the compiled code touches memory.",
 ['inputs','configurations'],'all lengths, filters, modes, axes and coefficient shapes reaching the compiled kernels',
 "Out-of-bounds reads usually return plausible numbers and a non-terminating boundary loop needs one particular length/mode combination; tests run neither sanitizers nor adversarial shapes.",
 [CT,WT,CM,'pywt/_extensions/_dwt.pyx','pywt/_extensions/_swt.pyx','pywt/_multidim.py'],
 [('loop guards on i,j,k in the convolution kernels',CT),('buffer-length checks before each kernel call',WT),('argument validation','pywt/_extensions/_dwt.pyx')],
 ['pywt.dwt','pywt.idwt','pywt.downcoef','pywt.upcoef','pywt.dwtn','pywt.idwtn','pywt.swt'])
p('C03','Coefficient lengths and level limits follow the documented arithmetic',
 "dwt_coeff_len is floor((N+F-1)/2), or ceil(N/2) for periodization; single-level reconstruction of n coefficients has length 2n-F+2, or 2n for periodization; dwt_max_level is the largest L>=0 with (F-1)*2^L <= N (0 if none or F<2) and swt_max_level is the exponent of 2 in N. Every transform returns arrays of exactly these lengths, and the shape predictors for multilevel transforms report exactly the levels and shapes that the decomposition with the same arguments produces.",
 ['inputs','configurations'],'all N, F up to the machine word, all modes, levels, shapes and axes',
 "Integer boundaries (N close to (F-1)*2^L, odd sizes, mixed wavelets per axis, default levels) are infinitely many; tests pin a handful.",
 [CM,'pywt/_extensions/_dwt.pyx','pywt/_dwt.py','pywt/_multilevel.py','pywt/_utils.py','pywt/_extensions/_swt.pyx'],
 [('dwt_buffer_length / idwt_buffer_length / reconstruction_buffer_length / size_log2 / *_max_level',CM),('wavedecn_shapes / wavedecn_size','pywt/_multilevel.py'),('_check_level','pywt/_multilevel.py')],
 ['pywt.dwt_coeff_len','pywt.dwt_max_level','pywt.swt_max_level','pywt.wavedecn_shapes','pywt.wavedecn_size'])
p('C04','Single-level reconstruction equals its definition',
 "For every pair of coefficient arrays of length n, idwt returns at position p the sum over k of cA[k]*rec_lo[p+F-2-2k] + cD[k]*rec_hi[p+F-2-2k] (for periodization, indices wrap modulo 2n with the fixed shift F/2-1), with a missing band treated as zeros; upcoef returns, per level, the full zero-stuffed convolution of the coefficients with the reconstruction filter, trimmed centrally to `take` samples when asked. It holds for every length, even filter length and mode, and up to rounding for each dtype.",
 ['inputs','configurations'],'all coefficient lengths n with 2n>=F-1, all filters, modes and dtypes, one or both bands',
 "Tests check reconstruction mostly through round trips with orthogonal wavelets on one or two lengths, where compensating errors and the F>n wrap regions stay invisible.",
 [CT,WT,'pywt/_extensions/_dwt.pyx','pywt/_dwt.py'],
 [('upsampling_convolution_full / valid_sf / valid_sf_periodization',CT),('idwt_single, upcoef','pywt/_extensions/_dwt.pyx')],
 ['pywt.idwt','pywt.upcoef'])
p('C05','Decomposition followed by reconstruction returns the signal',
 "For every built-in discrete wavelet and every custom filter bank that is a perfect-reconstruction bank, every extension mode, every signal of length >=1 (>=2 for reflecting modes) and every axis, idwt(dwt(x)) equals x up to rounding (for the discrete Meyer wavelet, whose documented filters are a truncated approximation, within 1e-2), an odd-length axis gaining exactly one extra trailing sample; the same holds for the 2-D and n-D pairs.",
 ['inputs','configurations'],'all lengths, shapes, axes, modes and wavelets',
 "Tests round-trip selected lengths; boundary handling differs with N mod 2, F/2 mod 2, F>N and mode.",
 [CT,'pywt/_extensions/c/wavelets_coeffs.template.h','pywt/_dwt.py','pywt/_multidim.py'],
 [('dwt/idwt kernel pair',CT),('filter tables','pywt/_extensions/c/wavelets_coeffs.template.h')],
 ['pywt.dwt','pywt.idwt','pywt.dwtn','pywt.idwtn','pywt.dwt2','pywt.idwt2'])
p('C06','N-D transforms act line by line, independent of axis order and layout',
 "Transforming an n-D array along an axis gives, on every 1-D line along that axis, exactly what the 1-D transform gives for that line, and nothing outside the output is changed; n-D and 2-D transforms are the composition of these per-axis transforms, each coefficient key naming per axis which band it holds, with repeated, negative, partial and permuted axes and per-axis wavelets and modes respected. The result depends only on the values of the input, never on its memory layout (strides, order, byte order, views), and a missing or None band is treated as zeros.",
 ['inputs','configurations'],'all shapes, ranks, axes tuples, strides, orders, per-axis modes and wavelets',
 "The tests use small contiguous 1-3-D arrays; stride/offset arithmetic errors appear only for particular rank/axis/layout combinations.",
 [WT,'pywt/_extensions/_dwt.pyx','pywt/_multidim.py','pywt/_dwt.py'],
 [('downcoef_axis / idwt_axis offset arithmetic and temporary rows',WT),('dwtn/idwtn/dwt2/idwt2','pywt/_multidim.py'),('dwt_axis/idwt_axis wrappers','pywt/_extensions/_dwt.pyx')],
 ['pywt.dwt','pywt.idwt','pywt.dwtn','pywt.idwtn','pywt.dwt2','pywt.idwt2'])
p('C07','The stationary transform equals its definition and is inverted exactly',
 "Level j of the stationary transform along an axis is the circular convolution of the level j-1 approximation with the decomposition filter upsampled by 2^(j-1), centred so that sample i uses filter tap t at position i+2^(j-1)*(F/2-t) modulo N, for every N divisible by the required power of two, start level, rank and trim setting; iswt, iswt2 and iswtn return the original signal from these coefficients for every perfect-reconstruction wavelet. With norm=True on an orthogonal wavelet, the coefficients' energy equals the signal's.",
 ['inputs','configurations'],'all N divisible by 2^level, filters (also much longer than N), levels, start levels, axes',
 "Tests use a few lengths and low levels; the fstep>1 multi-wrap region of the periodized kernel and level/axis combinations are not enumerated.",
 [CT,WT,'pywt/_extensions/_swt.pyx','pywt/_swt.py'],
 [('downsampling_convolution_periodization with fstep',CT),('_swt_',WT),('swt/swt_axis','pywt/_extensions/_swt.pyx'),('iswt/iswt2/iswtn','pywt/_swt.py')],
 ['pywt.swt','pywt.iswt','pywt.swt2','pywt.iswt2','pywt.swtn','pywt.iswtn'])
p('C08','Multilevel transforms iterate the single-level transform and invert it',
 "For every level count, wavedec, wavedec2, wavedecn and fswavedecn return exactly the coefficients obtained by repeatedly applying the single-level transform to the approximation (for the fully separable transform: the full 1-D multilevel transform along each axis in turn), ordered coarsest first; the inverse functions return the original array up to rounding and at most one extra sample per odd axis, and treat a missing detail band (None in waverec and waverec2, an absent key in waverecn) as zeros when another band of that level gives its shape.",
 ['inputs','configurations','histories'],'all levels, shapes, axes, wavelets, modes, and sets of missing bands',
 "Trimming of odd intermediate sizes interacts across levels and axes; tests cover few depth/shape combinations.",
 ['pywt/_multilevel.py','pywt/_multidim.py'],
 [('wavedec/waverec, wavedec2/waverec2, wavedecn/waverecn','pywt/_multilevel.py'),('_match_coeff_dims','pywt/_multilevel.py'),('fswavedecn/fswaverecn, FswavedecnResult','pywt/_multilevel.py')],
 ['pywt.wavedec','pywt.waverec','pywt.wavedec2','pywt.waverec2','pywt.wavedecn','pywt.waverecn','pywt.fswavedecn','pywt.fswaverecn'])
p('C09','Packing coefficients into one array is lossless and position-correct',
 "coeffs_to_array followed by array_to_coeffs, and ravel_coeffs followed by unravel_coeffs, return the same coefficient structure (same keys, shapes, dtype and values) for every structure produced by the multilevel transforms; no coefficient is stored twice or overwritten, the returned slices/shapes select exactly that coefficient's values in the packed array, every other packed entry is the padding value, and padding=None is refused exactly when the packing is not tight.",
 ['inputs','configurations'],'all level counts, shapes, axes subsets, coefficient formats and padding values',
 "Offsets depend on the shapes of all levels; tests use a few wavelets and shapes.",
 ['pywt/_multilevel.py'],
 [('coeffs_to_array/array_to_coeffs/_prepare_coeffs_axes/_determine_coeff_array_shape','pywt/_multilevel.py'),('ravel_coeffs/unravel_coeffs','pywt/_multilevel.py')],
 ['pywt.coeffs_to_array','pywt.array_to_coeffs','pywt.ravel_coeffs','pywt.unravel_coeffs'])
p('C10','Thresholding applies its documented pointwise rule',
 "For every real or complex array of finite values, threshold >= 0 and substitute, each output element depends only on the same input element and equals the documented rule of its mode (soft shrinks the magnitude by the threshold and keeps the phase, garrote shrinks by value^2/|x|, hard, greater and less select), with the substitute where the rule discards; threshold_firm returns the substitute-free piecewise rule: 0 up to value_low, linear between, identity above value_high. No input yields NaN unless it contains one, and shape, floating dtype and the input array itself are preserved.",
 ['inputs'],'all finite real/complex values incl. 0, signed zero and exact ties with the threshold, all thresholds incl. 0, all shapes',
 "Tie and zero cases, mixed positions (only one large element at a given index) and zero thresholds are not enumerable by examples.",
 ['pywt/_thresholding.py'],
 [('soft, nn_garrote, hard, greater, less, threshold_firm','pywt/_thresholding.py')],
 ['pywt.threshold','pywt.threshold_firm'])
p('C11','Padding equals the extension rule the transforms use',
 "pad(x, widths, mode) contains x unchanged at offset widths-before on each axis and, on every side and for every width (also wider than the signal), the values of the mode's unbounded extension applied axis by axis; for every mode the interior of the transform of a signal equals the zero-extension transform of the padded signal at the corresponding positions. For periodization an odd axis is first lengthened by one copy of its last sample.",
 ['inputs','configurations'],'all shapes, pad widths (0 to many times the length), modes and axes',
 "Widths beyond one period/reflection and one-sample axes need particular combinations.",
 ['pywt/_dwt.py'],[('pad','pywt/_dwt.py')],['pywt.pad'])
p('C12','Wavelet packet nodes equal their definition and reconstruct the data',
 "Each wavelet packet node, however it is reached (path string, tuple, chained access, level listing, any axes), holds exactly the data obtained by applying the single-level transform along its path from the root; reconstruct() returns data equal to the original when nodes are unmodified, uses exactly the modified leaf data when they are assigned, and treats a deleted node as zeros while a sibling of it exists. get_level lists every node of the level once in the documented order, and a copied or unpickled tree behaves like a new tree made from the same root data with the same parameters.",
 ['inputs','histories','configurations'],'all trees, access orders, assignments, deletions, shapes, axes, modes',
 "Trees are mutable and lazily built; results must not depend on the order of accesses, which tests do not vary.",
 ['pywt/_wavelet_packets.py'],
 [('BaseNode, Node, Node2D, NodeND, WaveletPacket*','pywt/_wavelet_packets.py')],
 ['pywt.WaveletPacket','pywt.WaveletPacket2D','pywt.WaveletPacketND'],
 [('Node.data and child attributes','lazily computed subband data and sub-nodes','pywt/_wavelet_packets.py')])
p('C13','Multiresolution components add up to the signal',
 "For every signal, perfect-reconstruction wavelet, level, axes and transform choice, the components returned by mra, mra2 and mran have the shape of the input and their sum equals the input up to rounding; component k is the inverse transform of the k-th coefficient set alone, and imra, imra2 and imran return exactly that sum without altering the components.",
 ['inputs','configurations'],'all shapes, levels, wavelets, modes, transforms and axes',
 "Tests check a few shapes, and never call the inverse twice or look at its arguments afterwards.",
 ['pywt/_mra.py'],[('mra/mra2/mran, imra/imra2/imran','pywt/_mra.py')],
 ['pywt.mra','pywt.mra2','pywt.mran','pywt.imra','pywt.imra2','pywt.imran'])
p('C14','Every filter bank is a consistent perfect-reconstruction bank',
 "For every built-in discrete wavelet the four filters have the stated even length and satisfy the perfect-reconstruction identities (and, if declared orthogonal, the orthonormality identities and the time-reversal/alternating-sign relations; biorthogonal banks are mirrored by their reverse family), the low-pass filters sum to sqrt(2) and annihilate the declared number of vanishing moments (for bior5.5 and rbio5.5, whose published banks have 6 and 4, those), all to within 1e-9, or 1e-2 for the discrete Meyer wavelet, which is documented as a truncated approximation. Filters, lengths and flags exposed by a wavelet object are those used by the transforms, qmf and orthogonal_filter_bank follow their defining formulas for every input, and a custom bank is stored exactly as given.",
 ['configurations','inputs'],'every built-in wavelet, precision and family member; every filter given to qmf/orthogonal_filter_bank/Wavelet',
 "Tests check identities for some families with loose tolerance; a wrong digit in one table entry or one wrong sign for one order passes.",
 ['pywt/_extensions/c/wavelets.c','pywt/_extensions/c/wavelets_coeffs.template.h','pywt/_extensions/_pywt.pyx','pywt/_functions.py'],
 [('discrete_wavelet and coefficient tables','pywt/_extensions/c/wavelets.c'),('Wavelet class','pywt/_extensions/_pywt.pyx'),('qmf, orthogonal_filter_bank','pywt/_functions.py')],
 ['pywt.Wavelet','pywt.qmf','pywt.orthogonal_filter_bank','pywt.wavelist'])
p('C15','Continuous wavelets and the CWT follow their closed forms',
 "Every continuous wavelet evaluates to its documented closed form at every grid point, parameter set and precision (Gaussian derivatives of order 1-8, complex Gaussian, Mexican hat, Morlet, complex Morlet, Shannon, frequency B-spline); the derivative wavelets have unit energy and zero mean. cwt row k equals -sqrt(scale) times the first difference of the signal's convolution with the integrated wavelet resampled to that scale, the fft and conv methods agree up to rounding, and the result is linear in the signal and independent per scale and per line along the axis.",
 ['inputs','configurations'],'all grid points, parameters, scales, axes, methods and signals',
 "Tests compare a few orders at stored points; a wrong constant in one order or a scale-dependent defect needs that order or scale.",
 ['pywt/_extensions/c/cwt.template.c','pywt/_extensions/_cwt.pyx','pywt/_cwt.py','pywt/_functions.py'],
 [('gaus, cgau, mexh, morl, cmor, shan, fbsp',  'pywt/_extensions/c/cwt.template.c'),('cwt','pywt/_cwt.py'),('integrate_wavelet, scale2frequency','pywt/_functions.py')],
 ['pywt.cwt','pywt.ContinuousWavelet.wavefun','pywt.integrate_wavelet'])
p('C16','Calls never modify their arguments or share state',
 "No public function changes the arrays, lists or dictionaries passed to it, also when it raises; no result shares memory with an internal table or with an earlier result, and results of the transforms share none with their arguments (level-0 transforms, unpacking functions and accessors, which hand out the caller's own coefficients, excepted). Calling a function again with the same arguments gives the same result, whatever calls happened in between.",
 ['inputs','histories','fault_sequences'],'all public functions, call sequences and failing calls',
 "Mutation of an argument is only seen by a caller who reuses it; tests build fresh arguments.",
 ['pywt/_multilevel.py','pywt/_swt.py','pywt/_mra.py','pywt/_multidim.py','pywt/_thresholding.py','pywt/_dwt.py','pywt/_extensions/_pywt.pyx'],
 [('local copies before in-place edits','pywt/_multilevel.py'),('iswt/iswtn working copies','pywt/_swt.py'),('imra*','pywt/_mra.py')],
 ['all public functions'])
p('C17','Result precision follows the documented dtype rule and complex is linear',
 "float32 and float16 input is processed and returned in single precision, complex64 in single complex, complex128 in double complex and every other real type in double precision, by every transform and its inverse; bands of different types are promoted to a type that loses neither precision nor an imaginary part. The transform of a complex array is the transform of its real part plus i times the transform of its imaginary part.",
 ['inputs','configurations'],'every dtype, transform, and combination of band dtypes',
 "The four kernels are separately compiled and reached through separate branches per dtype; tests check the dtype of a few calls.",
 ['pywt/_extensions/_pywt.pyx','pywt/_extensions/_dwt.pyx','pywt/_extensions/_swt.pyx','pywt/_dwt.py','pywt/_multidim.py','pywt/_swt.py','pywt/_wavelet_packets.py'],
 [('_check_dtype','pywt/_extensions/_pywt.pyx'),('fused-type dispatch','pywt/_extensions/_dwt.pyx')],
 ['pywt.dwt','pywt.idwt','pywt.swt','pywt.dwtn','pywt.cwt'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(d) for d in P)+'\n')
