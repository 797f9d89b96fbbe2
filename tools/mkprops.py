"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S1 = "kymatio/scattering1d/"; S2 = "kymatio/scattering2d/"; S3 = "kymatio/scattering3d/"

prop("S01", "Scattering1D computes the wavelet scattering transform it documents",
 "For every valid configuration (J, Q, T, stride or oversampling, max_order, shape) and every finite real signal, each coefficient returned by the 1D transform equals the wavelet-modulus cascade low-passed by the Gaussian of width T and sampled at the documented stride: x*phi, |x*psi1|*phi and ||x*psi1|*psi2|*phi for exactly the pairs with j2>j1, on the reflection-padded signal with Morlet filters built from J and Q. With T=0 the same paths are returned unaveraged, and with T='global' they are summed over time (the zeroth order over the padded signal). The equality holds to floating-point accuracy in double precision and is judged against an independent implementation.",
 ["inputs", "configurations"], "all J>=1, Q (int, 1- or 2-tuple), T in {None, 0, 'global', real in [1,N]}, power-of-two stride up to T, max_order 1 and 2, lengths N (even, odd, prime), all finite float64 signals",
 "The tests compare one stored signal in one configuration (J=6, Q=8, N=4096 family); odd lengths, non-dyadic T, small strides, Q tuples and their combinations are not compared to anything.",
 [S1+"core/scattering1d.py", S1+"filter_bank.py", S1+"frontend/base_frontend.py", S1+"utils.py", S1+"backend/numpy_backend.py"],
 [("cascade", "scattering1d()"), ("filters and their periodised levels", "scattering_filter_factory()"), ("padding and border indices", "ScatteringBase1D.build()"), ("averaging/unpadding", "ScatteringBase1D.scattering()")],
 ["Scattering1D(...)(x)", "meta()"])

prop("S02", "Scattering2D computes the wavelet scattering transform it documents",
 "For every valid (J, L, shape, max_order, pre_pad) and every finite real image, the 2D transform returns x*phi, |x*psi1|*phi and ||x*psi1|*psi2|*phi for exactly the wavelet pairs with j2>j1, subsampled by 2^J over the image support, in the documented path order. psi are the L-angle J-scale Morlet wavelets, phi the Gaussian of scale J, and the borders are reflection padded (with pre_pad the caller's padding is used as it is). Judged against an independent double-precision implementation.",
 ["inputs", "configurations"], "all J>=1, L>=1, rectangular and odd shapes with 2^J <= min side, max_order 1 and 2, pre_pad on/off, arbitrary leading shapes, all finite images",
 "The tests compare one stored 32x32 batch at J=2, L=8; other J, L, rectangular, odd or minimal shapes are never compared to a reference.",
 [S2+"core/scattering2d.py", S2+"filter_bank.py", S2+"frontend/base_frontend.py", S2+"utils.py", S2+"backend/numpy_backend.py"],
 [("cascade", "scattering2d()"), ("filters", "filter_bank()"), ("padding", "compute_padding(), Pad")], ["Scattering2D(...)(x)"])

prop("S03", "HarmonicScattering3D computes the solid harmonic scattering it documents",
 "For every valid (J, shape, L, sigma_0, max_order, rotation_covariant, integral_powers) and every finite real volume, output[..., p, l, q] is the sum over the grid of the path modulus raised to integral_powers[q], for first-order paths j=0..J and, for max_order 2, second-order paths j1<j2, with circular convolutions by solid harmonic wavelets of degree l and width sigma_0*2^j. The modulus is the l2 norm over the 2l+1 azimuthal indices if rotation_covariant, else the modulus of the first of them. Judged against an independent double-precision implementation.",
 ["inputs", "configurations"], "all J>=0, L>=0, sigma_0>0, cubic/rectangular/odd grids, lists of positive powers, both max_order and rotation_covariant values, all finite volumes",
 "The tests compare a single stored volume with one configuration at a loose tolerance.",
 [S3+"core/scattering3d.py", S3+"filter_bank.py", S3+"frontend/base_frontend.py", S3+"utils.py", S3+"backend/numpy_backend.py"],
 [("cascade", "scattering3d()"), ("filters", "solid_harmonic_filter_bank()"), ("integrals", "compute_integrals()")], ["HarmonicScattering3D(...)(x)"])

prop("S04", "TimeFrequencyScattering computes the joint scattering it documents",
 "For every valid configuration (J, J_fr, Q, Q_fr, T, F, stride, stride_fr, format, out_type) and every finite signal, each JTFS coefficient equals the one obtained by stacking first-order moduli over log-frequency, zero-padding them, convolving with the frequential filters (second order: after the temporal psi2, over the n1 with j1<j2), taking the modulus and averaging/striding in time and log-frequency as T, F, stride and stride_fr ask. First-order paths use the frequential filters of non-negative spin, second-order paths both spins. Judged against an independent double-precision implementation.",
 ["inputs", "configurations"], "J, Q, J_fr, Q_fr, T and F in {None, 0, 'global', number}, power-of-two stride <= T and stride_fr <= F, both formats, list and array outputs, all finite signals",
 "The tests check shapes and a few internal steps in a handful of configurations; they never compare JTFS values with a reference.",
 [S1+"core/timefrequency_scattering.py", S1+"frontend/base_frontend.py", S1+"filter_bank.py"],
 [("joint cascade", "joint_timefrequency_scattering()"), ("frequential scattering", "frequency_scattering()"), ("averaging", "time_averaging(), frequency_averaging()"), ("formatting", "jtfs_average_and_format(), time_formatting()")],
 ["TimeFrequencyScattering(...)(x)"])

prop("F01", "1D filter banks are well-formed wavelet frames for every (N, J, Q, T)",
 "Every 1D (and frequential) filter bank consists of one low-pass with unit gain at zero frequency and band-pass filters with zero mean, unit l1 norm, a single spectral bump at their declared center frequency xi with width sigma, constant-Q geometric spacing down to an elbow and then linear spacing, covering frequencies up to xi_max; frequential banks add the mirrored filters with negative xi (mirrored to within 1e-4). Every declared subsampling j satisfies the no-aliasing bound (xi + alpha*sigma below the Nyquist frequency 2^-(j+1)) and is the largest such j up to the usual cap, and every stored lower-resolution level is the periodisation of the full-resolution filter. Whenever the bank has a constant-Q region, T=2^J and the padded length is at least 16*2^J, the Littlewood-Paley sum of low-pass and wavelets lies between 0.1 and 1.02 up to frequency 0.35 (and below 1.02 everywhere).",
 ["configurations"], "all padded lengths N, J, Q>=1, T, for temporal and frequential filters at all resolutions, through the public objects' filters and the filter-bank functions",
 "The tests look at a few (N, xi, sigma) triples and one Littlewood-Paley plot-like bound for few (J, Q).",
 [S1+"filter_bank.py", S1+"frontend/base_frontend.py"],
 [("generator", "anden_generator(), spin()"), ("filters", "morlet_1d(), gauss_1d()"), ("subsampling", "get_max_dyadic_subsampling()"), ("levels", "scattering_filter_factory()")],
 ["S.phi_f, S.psi1_f, S.psi2_f, S.filters_fr"])

prop("F02", "2D and 3D filter banks are well-formed for every size, scale and angle",
 "Every 2D bank has exactly J*L wavelets indexed scale-major by (j, theta), each a real-in-Fourier zero-mean Morlet whose spectral peak lies at radius (3/4)*pi/2^j along its angle, plus a Gaussian low-pass with (near) unit gain at zero and width growing with 2^J, and every stored lower-resolution level is the band-limited periodisation of the full-resolution filter. Every 3D bank has J+1 scales and 2l+1 azimuthal indices per degree l, with value zero at zero frequency for l>0 and one for l=0, parity (-1)^l under point reflection, azimuthal conjugation symmetry, and a sum over azimuthal indices of squared moduli that depends only on |omega|, with width halving from one scale to the next. The 2D Littlewood-Paley sum (over angles and their opposites) is below 1.2 for L>1 (2.7 for L=1).",
 ["configurations"], "all padded shapes, J, L in 2D; all (even, odd, anisotropic) grids, J, L, sigma_0 in 3D",
 "Tests only compare one filter (or one stored output) per dimension.",
 [S2+"filter_bank.py", S3+"filter_bank.py", S3+"utils.py"],
 [("2D filters", "filter_bank(), morlet_2d(), gabor_2d(), periodize_filter_fft()"), ("3D filters", "solid_harmonic_filter_bank(), gaussian_filter_bank(), solid_harmonic_3d(), get_3d_angles()")],
 ["S.phi, S.psi, S.filters"])

prop("C01", "All frontends return the same coefficients for the same parameters and input",
 "For every parameter set accepted by a transform and every real input, the NumPy, PyTorch, TensorFlow, JAX, scikit-learn and Keras objects produce outputs of the same structure (shape, path order, metadata) and the same values up to single-precision rounding. The scikit-learn output is the NumPy output with all non-batch dimensions flattened, and all call styles of an object (call operator, scattering method, forward, predict, transform) return the same result. This holds for all four transforms wherever the frontend offers them and for array and list outputs.",
 ["inputs", "configurations"], "all (transform, frontend) pairs available, all valid parameters and out_types, all real inputs and leading batch shapes",
 "Each backend is tested separately against the same small stored arrays; parameters such as max_order, T, oversampling, pre_pad or stride are not compared across frontends.",
 ["kymatio/backend/", "kymatio/frontend/", S1+"backend/", S1+"frontend/", S2+"backend/", S2+"frontend/", S3+"backend/", S3+"frontend/"],
 [("backends", "*Backend*D classes"), ("frontends", "Scattering*Torch/TensorFlow/Jax/Keras/Transformer classes")],
 ["S(x) in each frontend"])

prop("B01", "Batch elements are transformed independently and leading shape is preserved",
 "For every leading shape (none, one or several dimensions) the output keeps that leading shape, and the output slice for each batch element is the output obtained by transforming that element alone. Changing, reordering or extending other elements of the batch never changes it beyond rounding.",
 ["inputs", "configurations"], "all transforms and frontends, leading shapes of rank 0..4 including size-1 axes and large batches, adversarial co-batched elements of very different magnitude",
 "Tests use one leading shape with random data and mostly check shapes.",
 [S1+"frontend/base_frontend.py", S2+"frontend/numpy_frontend.py", S3+"frontend/numpy_frontend.py", "kymatio/backend/numpy_backend.py"],
 [("reshape in/out", "reshape_input(), reshape_output()")], ["S(x)"])

prop("O01", "1D/2D/3D outputs, metadata, output sizes and orders are mutually consistent",
 "For every configuration the array output is the stack of the list output in order; the 1D metadata (key, n, order, j, xi, sigma) enumerates exactly those paths, in that order, with values taken from the filters used, output_size equals the number of coefficients or the number per order, and the output length is what the documented stride implies. Paths are unique, ordered by order then filter index (1D), scale-major (2D) or j1-then-j2 (3D), and exactly those with increasing scale. The coefficients of a max_order=1 transform are exactly the leading coefficients of the max_order=2 transform.",
 ["inputs", "configurations"], "all valid parameters of the 1D, 2D and 3D transforms and all inputs",
 "The tests check meta() and output_size() for a few (J, Q); list/array agreement is checked once per backend.",
 [S1+"frontend/base_frontend.py", S1+"core/scattering1d.py", S2+"core/scattering2d.py", S3+"core/scattering3d.py"],
 [("meta", "ScatteringBase1D.meta()"), ("sizes", "output_size()"), ("stacking", "backend.stack")], ["meta(), output_size(), S(x)"])

prop("O02", "JTFS formats, output types and metadata describe one and the same transform",
 "For every JTFS configuration, the array output is the stack of the list output, list order equals metadata order with unique keys, order, n, n_fr, j, j_fr and spin fields of each coefficient agree with the metadata and the filters, and output_size matches. The time format is the joint format with its frequency axis split into paths at the positions given by the frequential stride. The zeroth order is present except in joint array output, and spin is never negative at first order.",
 ["inputs", "configurations"], "all valid (J, Q, J_fr, Q_fr, T, F, stride, stride_fr, format, out_type)",
 "The tests check lengths for one configuration and never relate the two formats or compare list order with metadata.",
 [S1+"frontend/base_frontend.py", S1+"core/timefrequency_scattering.py"],
 [("meta", "TimeFrequencyScatteringBase.meta()"), ("formatting", "jtfs_average_and_format(), time_formatting()")], ["meta(), output_size(), S(x)"])

prop("T01", "Temporal parameters are coherent: stride only subsamples, T modes nest",
 "In 1D, the output at a larger stride is (up to anti-aliasing accuracy of the filters) the output at a smaller stride subsampled by the ratio, and at order zero exactly so; oversampling=k equals stride=2^(floor(log2 T)-k) exactly, T=None equals T=2^J exactly, and stride=None equals the largest allowed stride exactly. T='global' equals the sum over time of the padded unaveraged moduli and has time length one, and T=0 returns non-negative moduli whose time length is that of resolution j. The same coherence holds for the frequential parameters F and stride_fr of JTFS: F=None equals F=2^J_fr, stride_fr=None equals its largest value.",
 ["configurations", "inputs"], "all J, Q, T, all strides and oversampling values, all F and stride_fr, all signals",
 "Tests check shapes for a few strides, never values between strides or modes.",
 [S1+"frontend/base_frontend.py", S1+"core/scattering1d.py", S1+"utils.py"],
 [("parameter resolution", "parse_T(), log2_stride, stride, average"), ("resolution bookkeeping", "scattering1d()")], ["S(x)"])

prop("I01", "1D and JTFS symmetries: homogeneity, sign, constants, time shift, reversal",
 "The 1D transform and JTFS are positively homogeneous (S(a x)=a S(x) for a>0); at orders one and two they are unchanged by x -> -x and, up to filter accuracy, by adding a constant, while the zeroth order is linear. All unaveraged and averaged coefficients of order one and two of the 1D transform are non-negative up to low-pass ringing, and time reversal of the signal time-reverses 1D coefficients where the sampling grid is symmetric. Shifting a signal that is supported well inside the window by a multiple of the stride shifts its 1D coefficients by the corresponding number of samples.",
 ["inputs", "configurations"], "all configurations and signals; shifts and reversals for signals supported away from the borders; magnitudes from 1e-12 to 1e6",
 "No test checks a symmetry beyond one random constant case.",
 [S1+"core/scattering1d.py", S1+"core/timefrequency_scattering.py", S1+"frontend/base_frontend.py"],
 [("cascade", "scattering1d()"), ("padding", "compute_padding(), pad, unpad")], ["S(x)"])

prop("I02", "2D symmetries: homogeneity, constants, translation, flips, pre_pad equivalence",
 "The 2D transform is positively homogeneous; at orders one and two it is unchanged by x -> -x and, up to filter accuracy, by adding a constant, and all coefficients of order one and two are non-negative up to low-pass ringing. On pre-padded (periodic) square inputs, translating the input circularly by multiples of 2^J shifts the coefficients, and transposing the image permutes wavelet angles by the corresponding reflection. Transforming x without pre_pad equals transforming the explicitly reflection-padded x with pre_pad.",
 ["inputs", "configurations"], "all J, L, shapes, images; magnitudes 1e-12 to 1e6",
 "No test checks these relations.",
 [S2+"core/scattering2d.py", S2+"filter_bank.py", S2+"frontend/base_frontend.py", S2+"backend/numpy_backend.py"],
 [("cascade", "scattering2d()"), ("padding", "Pad, unpad")], ["S(x)"])

prop("I03", "3D invariances: translation, grid rotation and reflection, homogeneity",
 "The 3D transform is invariant to circular translation of the volume, and, with rotation_covariant, to 90-degree rotations, axis permutations and point reflections of a cubic grid (up to the Nyquist asymmetry of even grids). Every coefficient with exponent q scales as |a|^q when the volume is multiplied by a, and is non-negative.",
 ["inputs", "configurations"], "all J, L, sigma_0, grids, powers, volumes",
 "One test checks one rotation and one translation of one small volume for each backend.",
 [S3+"core/scattering3d.py", S3+"filter_bank.py", S3+"backend/numpy_backend.py"],
 [("modulus over m", "modulus_rotation()"), ("integrals", "compute_integrals()")], ["S(x)"])

prop("E01", "Outputs are finite, stable to perturbations, with no floating-point faults",
 "For every finite input of ordinary magnitude (including constants, impulses, zeros, subnormals, alternating signs and values from 1e-30 to 1e15, or 1e200 in NumPy double precision) all transforms return only finite values and raise no floating-point overflow, invalid or divide-by-zero fault. Each 1D, 2D and JTFS path is Lipschitz: perturbing the input by d in sup norm changes it by at most the product of the l1 norms of the filters along the path (times the sum lengths for global averages) times d. Zero input gives exactly zero output.",
 ["inputs", "configurations"], "all finite inputs and perturbations, all configurations",
 "Tests use standard normal inputs and never compare two nearby inputs.",
 [S1+"core/scattering1d.py", S2+"core/scattering2d.py", S3+"core/scattering3d.py", S1+"core/timefrequency_scattering.py", S1+"backend/", S2+"backend/", S3+"backend/"],
 [("l1-normalised filters", "morlet_1d(), gabor_2d()"), ("modulus", "backend.modulus")], ["S(x)"])

prop("P01", "A transform call is pure: no mutated inputs, filters or global state",
 "Constructing a transform and calling it never modifies the input array, the parameters passed by the caller, or process-global state (random generators, floating-point error modes, default dtypes, grad mode, warning filters, environment, working directory), opens no files or sockets and starts no processes. Calling never changes the object's filters or public parameters, and output arrays share no memory with the input or with later outputs. Repeating a call with the same input gives bit-identical output.",
 ["histories", "inputs", "configurations"], "all transforms, frontends, configurations and inputs, including read-only and strided inputs and caller-owned parameter objects",
 "No test checks side effects.",
 ["kymatio/frontend/", S1+"frontend/base_frontend.py", S2+"frontend/", S3+"frontend/", S3+"utils.py", "kymatio/backend/"],
 [("functional core", "core/*.py"), ("errstate save/restore", "scattering3d.utils.sqrt()")], ["S(x)"])

prop("P02", "Results do not depend on what was constructed or called before",
 "The output of a transform object depends only on its constructor parameters and the input of the current call, never on earlier calls (other batch shapes, dtypes, inputs that raised errors), on reading attributes or metadata, on changing out_type or other documented switches back and forth, or on other transform objects that were built, called or destroyed before or in between. Two objects built with equal parameters are interchangeable.",
 ["histories"], "all interleavings of construction, calls (valid and failing), metadata queries and destruction over many objects, dimensions and frontends in one process",
 "Every test builds a fresh object and calls it once or twice.",
 [S1+"frontend/base_frontend.py", S1+"frontend/torch_frontend.py", S2+"frontend/torch_frontend.py", S3+"frontend/torch_frontend.py", S1+"filter_bank.py", S2+"filter_bank.py"],
 [("no caches between objects", "create_filters(), register_filters(), load_filters()")], ["S(x), meta(), output_size()"])

prop("P03", "Concurrent calls and constructions give the same results as sequential ones",
 "Any number of threads may call the same transform object, call different objects, or construct objects at the same time: every call returns what it would have returned alone, whatever the interleaving, and none fails. This includes calls on one object with different batch shapes and dtypes, and metadata queries running alongside calls.",
 ["schedules", "histories"], "all thread interleavings of calls and constructions over the NumPy, PyTorch and JAX frontends and all four transforms",
 "No test uses threads.",
 [S1+"frontend/", S2+"frontend/", S3+"frontend/", "kymatio/backend/"],
 [("per-call local state", "scattering()"), ("buffer loading", "load_filters()")], ["S(x)"])

prop("P04", "Ambient modes of interpreter and frameworks change no result",
 "Construction and calls give the results they give in a plain program, whatever ambient mode they run under: NumPy error modes other than underflow raising, warnings turned into errors, garbage collection settings, threads, event loops, finalizers, exception handlers; PyTorch gradient and inference modes, default dtypes at calls, deterministic algorithms, anomaly detection, autocast, function and dispatch modes, saved-tensor hooks, checkpointing, tracing; TensorFlow eager functions, numerics checks, tapes, device scopes, data sets, XLA; JAX without jit, with NaN checks or leak checks; scikit-learn configuration. The same holds in interpreters started with other flags (-O, -OO, -I, -bb, -X dev), hash seeds, locales, environments and working directories, where invalid parameters and inputs are also refused as usual.",
 ["configurations", "environments"], "all frontends and transforms, every mode alone or with others, at construction, at calls and at gradients, and fresh interpreters",
 "Tests run under the default modes of one interpreter only.",
 ["kymatio/frontend/", "kymatio/backend/", S1+"frontend/", S1+"backend/", S2+"frontend/", S2+"backend/", S3+"frontend/", S3+"backend/"],
 [("modes read by the libraries", "backends"), ("buffer loading", "load_filters()"), ("argument checks", "build(), scattering()")], ["S(x)", "S.meta()", "exceptions"])

prop("G01", "Gradients are the derivatives of the transform and agree across frameworks",
 "Wherever the transform is differentiable, reverse-mode gradients obtained through PyTorch, TensorFlow and JAX equal its directional derivatives and agree with each other, for all transforms, averaging modes and parameters. The 1D, 2D and JTFS gradients are also finite where moduli vanish (zero, constant or impulse inputs). Gradients flow to the input through every returned coefficient and are unaffected by other batch elements.",
 ["inputs", "configurations"], "all transforms and configurations in the differentiable frontends, random directions, degenerate inputs",
 "Tests check torch gradients of the modulus and one gradcheck-like case, never TensorFlow or JAX or full parameter ranges.",
 ["kymatio/backend/torch_backend.py", S1+"backend/torch_backend.py", S2+"backend/torch_backend.py", S3+"backend/torch_backend.py", S1+"backend/tensorflow_backend.py", "kymatio/backend/jax_backend.py"],
 [("custom modulus backward", "ModulusStable"), ("framework autodiff", "backends")], ["autograd, GradientTape, jax.grad"])

prop("M01", "The PyTorch objects behave as modules: dtype moves, buffers, state_dict, nesting",
 "PyTorch transforms register all the filters they use as buffers and have no trainable parameters: converting the module to double makes it compute in double precision (agreeing with the NumPy result), converting back restores single precision, and loading a state_dict into an object built with the same parameters reproduces its output, including when the buffers had been altered. This holds when the transform is nested in other modules, in train or eval mode, with or without grad, for scattering() and forward alike, in any order of such operations.",
 ["histories", "configurations"], "all four transforms, any sequence of dtype moves, state_dict save/load, train/eval, nesting and calls",
 "Tests move one object to one device once.",
 ["kymatio/frontend/torch_frontend.py", S1+"frontend/torch_frontend.py", S2+"frontend/torch_frontend.py", S3+"frontend/torch_frontend.py"],
 [("buffers", "register_filters(), load_filters()")], ["state_dict(), buffers(), S(x)"])

prop("M02", "The scikit-learn objects honour the estimator contract",
 "scikit-learn transforms are stateless estimators: fit returns self and learns nothing, transform and predict return one flattened feature vector per sample equal to the flattened NumPy transform, for flattened inputs of any leading shape (a sample of several signals gives their features one after the other). get_params returns the parameters given at construction (shape and Q_fr in tuple form, the backend resolved), clone and set_params yield objects equivalent to newly constructed ones, and the objects work in Pipeline, FeatureUnion and grid-search style parameter changes.",
 ["histories", "configurations"], "all four transforms, all parameter values, any sequence of fit/transform/clone/set_params",
 "One test per dimension compares transform() with NumPy for one configuration.",
 ["kymatio/frontend/sklearn_frontend.py", S1+"frontend/sklearn_frontend.py", S2+"frontend/sklearn_frontend.py", S3+"frontend/sklearn_frontend.py"],
 [("estimator mixin", "ScatteringTransformerMixin")], ["fit, transform, predict, get_params, set_params, clone"])

prop("M03", "TensorFlow graph mode and Keras layers equal eager evaluation",
 "TensorFlow transforms give the same results eagerly, inside tf.function with static or unknown batch sizes, and through Keras layers and models built on symbolic inputs. Keras layers infer the spatial shape from their input, report the output shape they actually produce, pass their constructor parameters on, have no trainable weights, and can be rebuilt from their configuration.",
 ["configurations", "histories"], "all TensorFlow transforms and Keras layers, all parameters, static and dynamic batch shapes",
 "Tests run one Keras model per dimension with default parameters and no dynamic batch.",
 ["kymatio/frontend/tensorflow_frontend.py", "kymatio/frontend/keras_frontend.py", S1+"frontend/keras_frontend.py", S2+"frontend/keras_frontend.py", S1+"frontend/tensorflow_frontend.py", S2+"frontend/tensorflow_frontend.py", S3+"frontend/tensorflow_frontend.py"],
 [("graph-safe reshapes", "backend reshape/pad/stack"), ("layer build", "build(), compute_output_shape(), get_config()")], ["tf.function, keras.Model"])

prop("M04", "JAX transforms are traceable: jit, vmap and device arrays change nothing",
 "JAX transforms give the same results when called directly on JAX or NumPy arrays, under jax.jit, and under jax.vmap over any leading axis, and compose with jax.grad and jax.jvp consistently. Outputs are JAX arrays, and tracing leaves the object usable outside the trace (no leaked tracers).",
 ["configurations", "histories"], "all four JAX transforms, all parameters, any interleaving of traced and direct calls",
 "Tests call the JAX objects directly only.",
 ["kymatio/backend/jax_backend.py", "kymatio/frontend/jax_frontend.py", S1+"backend/jax_backend.py", S2+"backend/jax_backend.py", S3+"backend/jax_backend.py"],
 [("pure functions of jnp arrays", "JaxBackend*")], ["jax.jit, jax.vmap"])

prop("R01", "Transform objects survive pickling, copying and moving to another process",
 "Every NumPy, PyTorch, TensorFlow, JAX and scikit-learn transform object can be pickled, deep-copied and sent to a fresh process, before or after use, and the reconstructed object has the same parameters and gives bit-identical outputs in the same environment. Copies are independent of the original.",
 ["histories", "configurations"], "all transforms and these frontends, all parameters including pre_pad, before and after calls",
 "No test serialises an object.",
 ["kymatio/frontend/entry.py", "kymatio/numpy.py", S1+"frontend/", S2+"frontend/", S2+"backend/numpy_backend.py", S3+"frontend/"],
 [("picklable attributes", "frontends"), ("importable class names", "kymatio/numpy.py ...")], ["pickle, copy.deepcopy"])

prop("V01", "Invalid inputs are rejected and never silently transformed",
 "Inputs that violate the documented contract are rejected with TypeError, ValueError or RuntimeError (AttributeError for objects that are no arrays at all) before any result is returned, by every transform and frontend: wrong spatial size on any axis, too few dimensions, None, non-array objects, complex, integer or boolean data, feature counts that are no multiple of the signal size for scikit-learn, and non-tensor or (2D) non-contiguous data for PyTorch. A rejected call leaves the object fully usable, and no valid real input of the declared size is rejected.",
 ["inputs", "histories"], "all transforms and frontends, all wrong shapes/types/dtypes, interleaved with valid calls",
 "Tests try two or three wrong inputs per frontend.",
 [S1+"frontend/base_frontend.py", S1+"frontend/", S2+"frontend/", S3+"frontend/", "kymatio/backend/numpy_backend.py", "kymatio/backend/torch_backend.py"],
 [("input checks", "_check_input(), input_checks(), scattering()")], ["exceptions of S(x)"])

prop("V02", "Invalid parameters are rejected; valid ones are resolved as documented",
 "Parameters outside the documented domain are rejected with ValueError, RuntimeError, NotImplementedError or ImportError at construction or at the latest at the first call: Q or Q_fr below one, too long Q tuples, non-integer or multi-element 1D shapes, 2**J above the signal length by default, T or F beyond the support or strictly between zero and one, strides that are not powers of two, exceed T or are combined with T=0 or T='global', incompatible stride and oversampling, max_order other than 1 or 2, unknown out_type, format, method or backend names, array output without averaging, and images smaller than 2^J. Every documented parameter is accepted positionally and by keyword and readable back with its resolved value.",
 ["configurations"], "all parameter names of all transforms, values on and around the boundaries of their domains",
 "Tests try one or two values for some of the parameters.",
 [S1+"frontend/base_frontend.py", S1+"utils.py", S2+"frontend/base_frontend.py", "kymatio/frontend/base_frontend.py", "kymatio/frontend/entry.py"],
 [("parameter checks", "build(), _check_runtime_args(), parse_T(), log2_stride"), ("backend dispatch", "_instantiate_backend()")], ["exceptions of constructors and calls"])

prop("D01", "Output dtype follows input precision and memory layout never matters",
 "For each frontend the output dtype is the documented function of the input dtype (NumPy 1D/2D/JTFS: same real precision or better; 3D: float32; TensorFlow: float32; PyTorch: that of the input and module; JAX: single by default), and outputs are real. Values do not depend on memory layout (strides, order, alignment, byte ownership, read-only flags, views) nor on the array subclass or container the frontend accepts, and single- and double-precision inputs agree to single precision. Layouts that a frontend does not support are refused with an error, never computed wrongly.",
 ["inputs", "configurations"], "all frontends and transforms, C/Fortran/strided/negative-stride/read-only/unaligned views, float32 and float64",
 "Tests use freshly allocated contiguous arrays.",
 ["kymatio/backend/", S1+"backend/", S2+"backend/", S3+"backend/", S1+"frontend/", S2+"frontend/", S3+"frontend/"],
 [("reshape/contiguity handling", "reshape_input(), contiguous()")], ["dtype and values of S(x)"])

prop("A01", "Entry points dispatch to the requested frontend with all parameters intact",
 "kymatio.Scattering1D, Scattering2D, HarmonicScattering3D and TimeFrequencyScattering called with frontend=name (any letter case) return an object of the class exported by kymatio.<name>, whose parameters and outputs equal those of that class built directly with the same positional and keyword arguments. The default frontend is NumPy, and unknown frontends or backends that do not belong to the frontend are refused with an error. Importing kymatio loads no deep-learning framework.",
 ["configurations", "histories"], "all entry points, frontends, argument styles, and backend names or objects",
 "Tests use the entry points with one configuration each and do not compare with direct construction.",
 ["kymatio/frontend/entry.py", "kymatio/__init__.py", S1+"frontend/entry.py", S2+"frontend/entry.py", S3+"frontend/entry.py", "kymatio/frontend/base_frontend.py"],
 [("dynamic dispatch", "ScatteringEntry"), ("backend loading", "_instantiate_backend()")], ["type(S), S(x)"])

prop("B02", "Backend primitives satisfy one contract in all backends and on all data",
 "In every backend, the primitives a transform is made of behave as specified on all the data that flows through them: Fourier transforms and their inverses agree with the DFT, subsampling in Fourier by k equals taking every k-th sample in space, modulus equals the complex magnitude, pointwise products broadcast filters over the batch, padding reflects without repeating the border, unpadding is the matching slice, stacking preserves order and global averages sum over the signal axis. Primitives reject arguments of the wrong kind (real for complex, mismatched shapes) rather than returning a value.",
 ["inputs", "histories"], "every primitive call made while real transforms run, and direct calls on adversarial arguments (all shapes, ranks, k, pad sizes, dtypes)",
 "The unit tests try a couple of shapes per primitive and do not observe calls inside a transform.",
 ["kymatio/backend/", S1+"backend/", S2+"backend/", S3+"backend/"],
 [("primitives", "rfft, ifft, irfft, cfft, subsample_fourier, modulus, cdgmm, pad, unpad, stack, average_global, modulus_rotation, compute_integrals")], ["arguments and results of backend methods"])

prop("K01", "The cache directory helper resolves and creates directories safely",
 "The cache base directory is the argument if given, else the KYMATIO_CACHE environment variable, else ~/kymatio_cache, and the cache directory is that base joined with the name. With creation allowed it exists as a directory on return, including missing parents, without touching existing contents, however many threads or processes ask at once; without permission to create, a missing directory raises ValueError and nothing is created.",
 ["schedules", "histories", "inputs"], "all names, bases and environments, repeated and concurrent calls from threads and processes",
 "Tests create one directory sequentially.",
 ["kymatio/caching.py"], [("lookup and creation", "find_cache_base_dir(), get_cache_dir()")], ["return value and file system"])

prop("H01", "3D helper functions compute what they document for all arguments",
 "generate_weighted_sum_of_gaussians returns, for each batch element, the weighted sum of normalised 3D Gaussians at the given positions, stopping at the first zero weight, linear in the weights and covariant to translations of positions and grid. The 3D angle helper returns polar and azimuthal angles that reconstruct the directions of the grid points, and the double factorial and square-root helpers equal their definitions, with the global floating-point error mode left as it was. The solid harmonic and Gaussian filter banks equal their definitions in frequency and, with fourier=False, in space, where they are inverse transforms of one another.",
 ["inputs"], "all grids, numbers of points, weights (positive, negative, zero) and widths",
 "A test evaluates one grid with two Gaussians.",
 [S3+"utils.py", S3+"filter_bank.py"], [("helpers", "generate_weighted_sum_of_gaussians(), get_3d_angles(), double_factorial(), sqrt(), solid_harmonic_filter_bank(), gaussian_filter_bank()")], ["return values"])

prop("H02", "1D building blocks keep their documented contracts for all arguments",
 "The 1D parameter helpers (border indices, padding, parsing of T and F), the filter-bank helpers (number of periods, Morlet and Gaussian responses, widths, largest frequency, temporal support, dyadic subsampling, the generator of center frequencies, its spinned version and the filter factory for any generator, any number of layers and either reduction) and the functional cores (depth-first and width-first cascades, frequency scattering, joint scattering, averaging in time and in frequency) return what their documentation defines for every argument and for any filter bank, refuse what they document as refused, warn exactly when no temporal support exists, and do not change their arguments.",
 ["inputs", "configurations"], "all sizes, scales, Q, T, alpha, sigma0, r_psi; arbitrary generators; arbitrary banks whose levels are unrelated arrays",
 "The tests call each helper on a few arguments and the cores on the default banks of one or two configurations.",
 [S1+"utils.py", S1+"filter_bank.py", S1+"core/"],
 [("helpers", "compute_border_indices(), compute_padding(), parse_T(), morlet_1d(), anden_generator(), spin(), scattering_filter_factory()"), ("cores", "scattering1d(), time_scattering_widthfirst(), frequency_scattering(), joint_timefrequency_scattering(), time_averaging(), frequency_averaging()")], ["return values", "exceptions", "warnings"])

prop("L01", "Calls, failed calls and destroyed objects leave no memory behind",
 "When a call has returned and its input and result have been dropped, no memory in proportion to them stays in use: however often objects are called, by whatever thread, with gradients or without, with inputs that are refused, or asked for metadata, memory does not grow, and neither the input nor intermediate results of the latest call stay alive. Objects whose last reference is dropped are destroyed, and constructing and destroying equal objects again and again does not accumulate memory.",
 ["histories", "inputs", "configurations"], "all frontends and transforms, call sequences of any length with large batches, failing calls, metadata queries, threads, gradients and object lifetimes",
 "No test looks at memory or object lifetimes.",
 ["kymatio/frontend/", "kymatio/backend/", S1+"frontend/", S1+"core/", S2+"frontend/", S2+"core/", S3+"frontend/", S3+"core/"],
 [("references held by objects and modules", "attributes of S, module globals, autograd graphs")], ["bytes in use", "weak references"])

prop("X01", "GPU (skcuda) backends agree with the CPU ones",
 "The torch_skcuda backends return the same coefficients as the plain PyTorch backends for every input and configuration.",
 ["inputs", "configurations"], "all transforms with backend='torch_skcuda' on CUDA devices",
 "The tests for this backend are skipped without a GPU.",
 ["kymatio/backend/torch_skcuda_backend.py", S1+"backend/torch_skcuda_backend.py", S2+"backend/torch_skcuda_backend.py", S3+"backend/torch_skcuda_backend.py"],
 [("CUDA kernels", "SubsampleFourier, Modulus, cdgmm")], ["S(x)"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
