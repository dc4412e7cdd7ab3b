prop("C01", "Indexing recovers the orientation of any crystal from its bands",
     "For every crystal phase of any symmetry and every orientation, given the plane normals of eight or more of its reflectors "
     "(exact, or perturbed by measurement noise of a few tenths of a degree, in any order and either sense, optionally mixed with a few spurious "
     "bands), indexing returns the true orientation up to the phase's rotational symmetry (or one that explains the bands equally well, where the reflectors alone cannot tell; fewer than one pattern in a hundred may go to a twin that explains all bands but one, or enough of them to end the search). "
     "The match count is at least the number of genuine bands and the fit (degrees) is of the size of the noise: zero for exact bands. Four to seven exact bands get, with rare exceptions, a solution that explains all of them exactly.",
     ["inputs", "configurations"], "all orientations, Laue classes, reflector lists, band orders/signs, noise and outlier levels",
     "The tests index one simulated aluminium pattern and compare a single quaternion; no other phase, orientation, order or noise level is driven.",
     ["tripletvote.py", "_ebsd_index_single.py"],
     [("phase library", "angle triplets and reflector normals of one phase", "tripletvote.py:BandIndexer.build_trip_lib"),
      ("votes", "band to family vote accumulator", "tripletvote.py:BandIndexer.bandindex")],
     [("triplet voting", "tripletvote.py:_tripvote_numba"), ("band assignment", "tripletvote.py:_assign_bands_nb"),
      ("orientation refinement", "tripletvote.py:_refine_orientation_quest")],
     ["return value of BandIndexer.bandindex"],
     "runtime monitoring: synthetic-crystal workload with a symmetry-aware orientation oracle",
     "Held on the generated crystals/orientations/noise levels of the run; oracle is an independent crystal model. Near-degenerate "
     "band sets (pseudo-symmetric within tolerance) are excluded by the generator and counted.")
prop("C02", "Each index record is consistent with the bands it was computed from",
     "For every pattern indexed, each record has a phase that is -1 exactly when no solution was found and otherwise a unit quaternion, a match count not exceeding the "
     "detected bands, and a fit, match count and band-to-reflector assignment that agree with re-evaluating the returned orientation against the returned "
     "band normals. With several phases, the summary layer equals the phase layer with the best fit-and-matches score, and every phase layer refers to its own phase.",
     ["inputs", "configurations"], "all patterns (crystalline, noisy, blank, saturated) and all phase lists",
     "Tests compare a few fields of one well-conditioned pattern; failed or ambiguous patterns and multi-phase bookkeeping are never checked.",
     ["_ebsd_index_single.py", "tripletvote.py"],
     [("index data", "structured record per phase layer and pattern", "_ebsd_index_single.py:EBSDIndexer.index_pats"),
      ("band data", "structured record per detected band", "band_detect.py:BandDetect.find_bands")],
     [("phase loop", "_ebsd_index_single.py:_indexbandsphase"), ("detector to sample transform", "_ebsd_index_single.py:_detector2refframe")],
     ["return value of index_pats"], "runtime monitoring: online record checker (recomputed fit, matches, best layer)",
     "Held on the patterns and phase lists generated in the run.")
prop("C03", "Indexing one pattern does not depend on the other patterns or on history",
     "Indexing a set of patterns gives, for each pattern, the same result (to floating-point noise) whatever the other patterns are, their order, the chunk or batch size, "
     "the number of threads, and whatever was indexed before with the same indexer. Repeating a call repeats its result, and the caller's patterns, phase list and calibration are never modified.",
     ["inputs", "histories", "configurations"], "all batches, orders, chunkings, repeat histories, numeric types",
     "Tests call the indexer once per fixture with one or a few copies of the same pattern.",
     ["_ebsd_index_single.py", "band_detect.py", "tripletvote.py", "radon_fast.py"],
     [("indexer", "cached Radon plan, band detector, background and phase libraries", "_ebsd_index_single.py:EBSDIndexer")],
     [("chunked band detection", "band_detect.py:BandDetect.find_bands"), ("per-pattern loops", "tripletvote.py")],
     ["return value of EBSDIndexer.index_pats", "caller's arrays before and after"],
     "runtime monitoring: metamorphic replay of batches, orders and histories on one indexer",
     "Held on the batches and call histories of the run; equality to 1e-4 rad / 1e-3 in fit.")
prop("C04", "A requested pattern range is indexed exactly, from any pattern source",
     "Asking for a start pattern and a number of patterns (or all, or a count past the end, or a start counted from the end) indexes exactly those patterns, in order, and the result equals "
     "indexing them from an in-memory array, whether the source is an array (2-D or 3-D), a pattern file name, or an open pattern file.",
     ["inputs", "configurations"], "all sources, start positions, counts, one pattern or a stack",
     "Tests index whole arrays only; ranges and file sources are untested.",
     ["_ebsd_index_single.py", "_ebsd_index_parallel.py", "ebsd_pattern.py"],
     [("range", "start pattern and count", "_ebsd_index_single.py:index_pats")],
     [("pattern fetch", "_ebsd_index_single.py:EBSDIndexer._getpats")],
     ["return value of index_pats / EBSDIndexer.index_pats"],
     "runtime monitoring: differential oracle against in-memory indexing of the selected patterns",
     "Held on the source/range combinations generated.")
prop("C05", "Distributed indexing equals serial indexing under every schedule",
     "Distributed indexing returns the same records, in pattern order, as serial indexing, for every pattern source, range, number of workers, chunk size and order in which "
     "workers finish their chunks. Every requested pattern is indexed exactly once and no other pattern is.",
     ["schedules", "inputs", "configurations"], "all completion orders of chunks across CPU and GPU workers, worker counts, chunk sizes, ranges",
     "Tests run one small array with one schedule chosen by the machine.",
     ["_ebsd_index_parallel.py"],
     [("job table", "pending, running and finished chunks", "_ebsd_index_parallel.py:index_pats_distributed")],
     [("chunk dispatch and collection", "_ebsd_index_parallel.py:index_pats_distributed"), ("workers", "_ebsd_index_parallel.py:GPUWorker,CPUWorker")],
     ["return value", "log of chunks handed to and returned by workers"],
     "runtime monitoring: real dispatcher driven by a deterministic scheduler standing in for ray; exactly-once checker over the chunk log",
     "Held on the schedules explored (seeded random and adversarial orders) of a stand-in for ray that runs the real workers on a virtual clock.")
prop("C06", "Distributed indexing survives failing and stalling workers without loss",
     "When workers fail on a chunk, die, or stall while at least one worker of the needed kind keeps making progress, distributed indexing still terminates within a bounded number of "
     "steps and returns every requested pattern exactly once, in order, equal to the fault-free result.",
     ["fault_sequences", "schedules"], "all placements of chunk failures, worker deaths and stalls over the run",
     "No test injects a fault.",
     ["_ebsd_index_parallel.py"],
     [("job table", "pending, running and finished chunks, idle and busy workers", "_ebsd_index_parallel.py:index_pats_distributed")],
     [("retry and reclaim logic", "_ebsd_index_parallel.py:index_pats_distributed")],
     ["return value", "log of chunks handed to and returned by workers", "step count"],
     "runtime monitoring: fault injection at every dispatch event of the real dispatcher on a simulated ray; exactly-once and bounded-progress checker",
     "Held on the fault placements enumerated/sampled; liveness restated as a step bound in virtual time.", level="fault_enumeration")
prop("C07", "Pattern-centre conventions of all vendors describe the same geometry",
     "The same physical detector geometry written in the EDAX, Oxford, Bruker, kikuchipy and EMsoft conventions gives the same band normals and orientations (after the fixed "
     "reference-frame rotation of each vendor), for square and non-square patterns, one pattern centre or one per pattern.",
     ["inputs", "configurations"], "all vendors, pattern centres, detector shapes, tilts, pixel sizes",
     "Tests use one vendor and one pattern centre.",
     ["radon_fast.py", "band_detect.py", "_ebsd_index_single.py"],
     [("PC", "pattern centre", "_ebsd_index_single.py:EBSDIndexer.PC")],
     [("radon to plane normals", "band_detect.py / radon_fast.py radon2pole"), ("detector to reference frame", "_ebsd_index_single.py:_detector2refframe")],
     ["band normals", "indexed orientation"],
     "runtime monitoring: differential oracle across vendor conventions and against projective geometry",
     "Held on the geometries generated; expected normals computed independently from the projection geometry.")
prop("C08", "The Radon transform is the mean along each line of the masked pattern",
     "For every pattern size, Radon grid and mask, each Radon bin is the mean of the pattern's unmasked pixels along the corresponding line, so the transform is linear, maps a constant pattern to a "
     "constant wherever a line meets the pattern, ignores masked pixels, and treats each pattern of a stack independently.",
     ["inputs", "configurations"], "all pattern sizes, data types, Radon grids, masks, stacks",
     "No test reads Radon values.",
     ["radon_fast.py"],
     [("plan", "line index table of the transform", "radon_fast.py:Radon.radon_plan_setup")],
     [("plan set-up", "radon_fast.py"), ("line sums", "radon_fast.py:radon_faster")],
     ["return value of radon_fast/radon_faster", "plan"],
     "runtime monitoring: reference line-mean oracle, linearity/constancy/mask metamorphic monitors",
     "Held on the sizes, grids and masks generated.")
prop("C09", "Band detection reports the true band positions, ranked and flagged",
     "Every band reported valid lies on a local maximum inside the Radon mask, bands are distinct and ordered by decreasing intensity, and their count never exceeds the request. Straight bright bands drawn at "
     "known positions in a pattern of any size are found at those positions (to within a Radon bin or so), whatever the pattern's brightness, contrast and number type and whether or not a background collected from the patterns is subtracted.",
     ["inputs", "configurations"], "all patterns, sizes, band positions, requested band counts, brightness/contrast",
     "Tests look at one pattern and only through the final orientation.",
     ["band_detect.py", "radon_fast.py"],
     [("band data", "position, intensity, width, validity of each band", "band_detect.py:BandDetect.find_bands")],
     [("convolution and local maxima", "band_detect.py:rdn_conv,rdn_local_max"), ("labelling", "band_detect.py:band_label_numba")],
     ["band records returned by find_bands"],
     "runtime monitoring: synthetic-band workload with position oracle; structural monitor on every band record",
     "Held on the patterns generated; position tolerance is of the order of the Radon bin size.")
prop("C10", "Pattern files return exactly the patterns that were written",
     "Every supported pattern file format returns, when read back, the same patterns bit for bit, with the same pattern size, scan dimensions, step sizes and count, for every pattern size, scan shape and "
     "stored data type, whether written from an array or converted from another format.",
     ["inputs", "configurations"], "all formats, pattern sizes, scan shapes, data types, conversions",
     "No test touches a pattern file.",
     ["ebsd_pattern.py"],
     [("header", "pattern and scan dimensions, data type, offsets", "ebsd_pattern.py")],
     [("writers", "ebsd_pattern.py:write_header,write_data"), ("readers", "ebsd_pattern.py:read_header,read_data")],
     ["files on disk", "arrays returned by read_data"],
     "runtime monitoring: round-trip and cross-format oracle over generated files",
     "Held on the formats/shapes/types generated; formats without a writer are exercised on files built by the harness from the published layout.")
prop("C11", "Partial reads and writes touch exactly the requested patterns",
     "Reading any sub-range or rectangular block of a scan returns exactly those patterns and writing one changes exactly those patterns, leaving every other byte as it was. Copies hold the same patterns or, when asked to be "
     "empty, the same geometry; whole-scan conversions keep the patterns; rescaling to integers is monotone over the whole set.",
     ["inputs", "histories"], "all sub-ranges, blocks, write sequences and copy modes",
     "No test touches a pattern file.",
     ["ebsd_pattern.py"],
     [("file image", "patterns stored on disk", "ebsd_pattern.py")],
     [("block reads", "ebsd_pattern.py:read_data"), ("block writes", "ebsd_pattern.py:write_data,pat_writer"), ("copy", "ebsd_pattern.py:copy_file")],
     ["files on disk", "arrays returned by read_data"],
     "runtime monitoring: shadow-array model checked after every operation of random read/write histories",
     "Held on the operation histories generated.")
prop("C12", "NLPAR averages neighbours with the published weights",
     "NLPAR replaces each pattern by the average of the patterns in its search window (moved inside the scan at its edges) weighted by exp(-max(d-threshold,0)/lambda^2), d being the noise-normalised difference of the two patterns; "
     "every output pixel is therefore within the range of that pixel in the window, a uniform scan is unchanged, and lambda near zero leaves patterns unlike their neighbours as they are.",
     ["inputs", "configurations"], "all scans, pattern sizes, search radii, lambda, thresholds, masks, noise levels",
     "No test runs NLPAR.",
     ["nlpar_cpu.py"],
     [("sigma", "noise level per pattern", "nlpar_cpu.py:NLPAR.calcsigma")],
     [("neighbour averaging", "nlpar_cpu.py:nlpar_nb")],
     ["patterns written by calcnlpar"],
     "runtime monitoring: float64 reference model of the averaging run on every output pattern",
     "Held on the scans generated.")
prop("C13", "NLPAR output does not depend on chunking or threads, and keeps its input",
     "NLPAR gives the same output whatever the chunk size used to stream the scan and however many threads run, in every scan shape including scans narrower than the search window, and however the object was used before "
     "(saturation level the same in every chunk); it leaves the input file unchanged.",
     ["schedules", "configurations", "inputs"], "all chunk sizes, thread counts and schedules, scan shapes, file formats, sequences of runs",
     "No test runs NLPAR.",
     ["nlpar_cpu.py", "ebsd_pattern.py"],
     [("chunk plan", "start, end and overlap rows/cols of each chunk", "nlpar_cpu.py:NLPAR.calcnlpar")],
     [("chunk streaming", "nlpar_cpu.py:NLPAR.calcnlpar"), ("parallel loop", "nlpar_cpu.py:nlpar_nb")],
     ["patterns written by calcnlpar", "input file bytes"],
     "runtime monitoring: metamorphic replay over chunk sizes and numba thread counts (stressed interleavings); input byte monitor",
     "Held on the chunkings and thread counts driven.")
prop("C14", "NLPAR noise estimate and lambda optimisation match their definitions",
     "The noise level of each pattern is the smallest root-mean-square difference to its neighbours over the square root of two (ignoring saturated/masked pixels as documented), for every data type and chunking. The "
     "optimised lambda values bring the self-weights of the scan as close to the requested targets as any lambda does.",
     ["inputs", "configurations"], "all scans, data types, chunk sizes, masks, target weights",
     "No test runs NLPAR.",
     ["nlpar_cpu.py"],
     [("sigma", "noise level per pattern", "nlpar_cpu.py:NLPAR.calcsigma"), ("lambda", "smoothing parameter", "nlpar_cpu.py:NLPAR.opt_lambda")],
     [("sigma", "nlpar_cpu.py:sigma_numba"), ("optimiser", "nlpar_cpu.py:NLPAR.opt_lambda")],
     ["sigma map", "lambda values"],
     "runtime monitoring: float64 reference model of sigma; substitution oracle for lambda",
     "Held on the scans generated.")
prop("C15", "Converting between rotation representations preserves the rotation",
     "Converting any rotation between Euler angles, orientation matrix, axis-angle, Rodrigues, quaternion, homochoric and cubochoric form, in either handedness convention, gives the same rotation in that representation's standard range, "
     "in single and double precision, for one value or an array, including the identity, half turns and range boundaries. Inputs are not modified.",
     ["inputs"], "all rotations (including special ones), all 42 conversions, both conventions, both precisions, any batch shape or memory layout",
     "The tests do not call the conversion library directly.",
     ["rotlib.py", "rotations.py"],
     [("handedness", "sign convention of the conversions", "rotlib.py:P")],
     [("conversions", "rotlib.py"), ("numpy conversions", "rotations.py")],
     ["return values"], "runtime monitoring: frame-rotation oracle over randomised and special rotations",
     "Held on the rotations generated (specials + uniform random); tolerance 2e-5 rad double, 4e-3 rad single precision.")
prop("C16", "Quaternion operations obey quaternion algebra",
     "Quaternion product, conjugate, normalisation, vector rotation and averaging agree with the algebra of rotations for every combination of single values and arrays, any sign and norm, both handedness conventions and both precisions: rotating by a product is "
     "rotating twice, and a unit quaternion times its conjugate is the identity. Random orientations are unit quaternions uniformly distributed over rotations.",
     ["inputs"], "all operand values and batch shapes",
     "The tests do not call these functions directly.",
     ["rotlib.py"], [("operands", "quaternion arrays", "rotlib.py")],
     [("product", "rotlib.py:quat_multiply"), ("vector rotation", "rotlib.py:quat_vector"), ("average", "rotlib.py:quatave"), ("random", "rotlib.py:randomquat")],
     ["return values"], "runtime monitoring: independent quaternion algebra oracle; distribution monitor for random draws",
     "Held on the operands generated; distribution by Kolmogorov-Smirnov distance.")
prop("C17", "Symmetry operators form the right group and give true misorientations",
     "Every space group 1-230 maps to its Laue class, whose rotations form exactly the crystallographic rotation group in the standard axes, each once; applying them to an orientation yields all its symmetry equivalents. The cubic misorientation of "
     "two orientations is the smallest rotation relating any of their equivalents.",
     ["inputs"], "all 230 space groups, all Laue classes, all orientation pairs",
     "Tests touch three space groups through phase set-up only; misorientation has no test and its module is exempt from the build's import check.",
     ["crystal_sym.py", "misorientation.py"],
     [("operators", "rotation quaternions of a Laue class", "crystal_sym.py")],
     [("space group table", "crystal_sym.py:spacegroup2lauenumber"), ("misorientation", "misorientation.py:misorientcubic_quick")],
     ["return values"], "runtime monitoring: generated-group oracle (exhaustive over space groups) and brute-force misorientation oracle",
     "Exhaustive over space groups and Laue classes; misorientations sampled.")
prop("C18", "Crystal geometry and reflector libraries follow from the lattice",
     "For any lattice parameters, space group and reflector list, the crystal matrices reproduce the lattice geometry and invert one another, and the phase library lists exactly the symmetry-equivalent normals (both senses) of each usable reflector, each once, with the right family and "
     "Cartesian direction. Every angle pair and triplet those normals form is in the library and every listed angle does occur; zero or antiparallel repeated reflectors are dropped.",
     ["inputs", "configurations"], "all lattices, space groups, reflector lists (3- and 4-index)",
     "Tests build four fixed phases and compare a few angles.",
     ["crystallometry.py", "tripletvote.py", "crystal_sym.py"],
     [("library", "reflector normals, angle pairs and triplets", "tripletvote.py:BandIndexer")],
     [("metric", "crystallometry.py:Crystal"), ("library build", "tripletvote.py:BandIndexer.build_trip_lib")],
     ["crystal matrices", "library tables"], "runtime monitoring: independent lattice/group model checks every table of generated phases",
     "Held on the lattices and reflector lists generated, all 11 Laue classes each run.")
prop("C19", "Pattern-centre optimisation improves the fit and keeps its inputs",
     "Optimising the pattern centre from a start near the true one returns, for every vendor convention and pattern shape, a pattern centre in the same convention whose fit is no worse than the start's and close to the true centre for noise-free patterns; "
     "batch mode returns one such centre per pattern. The indexer, starting centre and patterns are unchanged.",
     ["inputs", "configurations"], "all vendors, pattern shapes, start offsets, single/batch/particle-swarm modes",
     "Tests optimise one pattern with one vendor and a coarse tolerance.",
     ["pcopt.py"], [("PC", "pattern centre", "pcopt.py")],
     [("Nelder-Mead search", "pcopt.py:optimize"), ("particle swarm", "pcopt.py:optimize_pso")],
     ["return value", "indexer before and after"], "runtime monitoring: synthetic-geometry workload; fit re-evaluated by the indexer; input snapshots",
     "Held on the geometries generated.")
prop("C20", "Exported scan files contain exactly the indexing result",
     "Exporting an indexing result to OH5 or ANG writes, for every scan shape and phase list, one record per scan point in order with the same orientation, quality, fit, match and phase values, correct coordinates and step sizes, and header phase definitions; "
     "reading the file back recovers them. The result passed in is not modified.",
     ["inputs", "configurations"], "all scan shapes, step sizes, phase lists, records incl. unindexed points",
     "No test exports a file.",
     ["ebsdfile.py"], [("scan file", "exported records and header", "ebsdfile.py")],
     [("OH5 writer", "ebsdfile.py:writeoh5"), ("ANG writer", "ebsdfile.py:writeang")],
     ["files on disk"], "runtime monitoring: export parsed by an independent reader and compared record by record",
     "Held on the results generated.")
prop("C21", "Map images place and colour every point correctly",
     "An orientation map colours every scan point from its own crystal direction: symmetry-equivalent orientations get the same colour, the corner directions get the red, green and blue of the key, and unindexed points are black. Scalar maps place each "
     "value at its scan position with monotone colour scaling, and the micron bar length matches the step size.",
     ["inputs", "configurations"], "all orientations, Laue classes supported, scan shapes, step sizes, scalar ranges",
     "No test makes an image.",
     ["EBSDImage/IPFcolor.py", "EBSDImage/scalarimage.py", "EBSDImage/micronbar.py"],
     [("image", "RGB map", "EBSDImage")],
     [("colour key", "EBSDImage/IPFcolor.py"), ("scalar map", "EBSDImage/scalarimage.py"), ("micron bar", "EBSDImage/micronbar.py")],
     ["image arrays"], "runtime monitoring: symmetry-invariance and placement oracle over generated maps",
     "Held on the maps generated.")
prop("C22", "Compiled CPU kernels never access memory outside their arrays",
     "Indexing, band detection, Radon transform, NLPAR and the rotation library never read or write outside their arrays for any pattern, detector size, phase list, scan shape or parameter accepted by the API, "
     "including tiny, degenerate, blank, NaN and extreme inputs.",
     ["inputs", "configurations"], "all accepted inputs and parameters",
     "Tests run without bounds checking on well-conditioned input; an out-of-bounds access there is silent.",
     ["tripletvote.py", "band_detect.py", "radon_fast.py", "nlpar_cpu.py", "rotlib.py"],
     [("kernel arrays", "arguments and temporaries of compiled kernels", "numba kernels")],
     [("kernels", "numba-compiled functions")], ["bounds-check sanitizer reports", "process crashes"],
     "sanitizer: numba bounds-check instrumentation of every compiled kernel under hostile workloads",
     "Held on the workloads driven; only array indexing compiled by numba is instrumented.")
prop("C23", "OpenCL kernels are memory-safe, race-free and use only initialised data",
     "Run for every pattern size, batch size, Radon grid, search radius and mask the GPU path can launch, no OpenCL kernel accesses memory outside its buffers, or a buffer against its access flags, writes what another work-item of the launch reads or writes, "
     "or has undefined arithmetic, and no result depends on the order of work-items or on memory nothing has written.",
     ["inputs", "schedules", "configurations"], "all launches by the host code, all work-item orders",
     "No OpenCL device is present in the test environment: the kernels are only syntax-checked.",
     ["opencl/clkernels.cl", "opencl/clnlpar.cl", "opencl/band_detect_cl.py", "opencl/radon_fast_cl.py", "opencl/nlpar_cl.py"],
     [("device buffers", "global memory", "opencl host code")], [("kernels", "opencl/*.cl"), ("launches", "opencl/*.py")],
     ["sanitizer reports", "buffer contents under permuted work-item orders and poisoned initial memory"],
     "sanitizer: kernels compiled for the host with every global access checked (bounds, flags, races between work-items) and UBSan, launched by the real host code on a stand-in OpenCL runtime with permuted work-item orders and poisoned buffers",
     "Held on the launches driven; a host-compiled kernel, not a GPU driver, is what runs.")
prop("C24", "The GPU path gives the same bands and NLPAR patterns as the CPU path",
     "On an OpenCL device, the strongest bands of simulated patterns have the positions, and the patterns the orientations, of the CPU path, and the bands of a pattern do not depend on batch, chunk size, device or data type. "
     "NLPAR, noise levels and lambda optimisation on the device equal their definition (neighbours mirrored at the scan edges, saturation at 99.61% of the largest value) for every scan, window, tiling by device memory and number of workers. "
     "When the device fails, band detection gives the CPU results, and failing NLPAR tiles are repeated or reported. The package uses the device exactly when a platform offers a GPU, and works the same without one.",
     ["inputs", "configurations", "schedules", "fault_sequences"], "all patterns, sizes, chunkings, device memory limits, worker schedules, device failures",
     "No OpenCL device is present in the test environment, so none of this code runs under test.",
     ["opencl/band_detect_cl.py", "opencl/radon_fast_cl.py", "opencl/nlpar_cl.py", "opencl/nlpar_clray.py", "opencl/openclparam.py"],
     [("device buffers", "global memory", "opencl host code")], [("device band detection", "opencl/band_detect_cl.py"), ("device NLPAR", "opencl/nlpar_cl.py"), ("distributed NLPAR", "opencl/nlpar_clray.py")],
     ["band records", "patterns written"],
     "runtime monitoring: CPU/GPU differential oracle, double-precision reference of NLPAR, self-comparison over batches, devices and injected device faults, on a stand-in OpenCL runtime",
     "Held on the inputs driven; device arithmetic is emulated by host-compiled single precision code.")
