"""Writes /verif/properties.jsonl (one JSON object per line). Run: python3 tools/gen_properties.py"""
import json, pathlib
P = []


def prop(id, title, statement, over, text, why, files, state, mechanism, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook)))


POOL = "src/zernpy/utils/intmproc.py"; PSF = "src/zernpy/zernpsf.py"; CALC = "src/zernpy/calculations/calc_psfs.py"
NUMBA = "src/zernpy/calculations/calc_psfs_numba.py"; POL = "src/zernpy/zernikepol.py"; REC = "src/zernpy/calculations/find_pols_coeffs.py"
PLOT = "src/zernpy/plotting/plot_zerns.py"; CZP = "src/zernpy/calculations/calc_zernike_pol.py"; FIT = "src/zernpy/calculations/fit_zernike_pols.py"

prop("C01", "The worker pool returns exactly f(p) for every parameter, in order, once",
     "A computation run on the worker pool returns a list whose i-th element is the function applied to the i-th parameter, and the function is applied exactly once to each parameter, "
     "for any number of workers and parameters, any duration of the single jobs and any delay of messages and flags between the processes. The same holds for every later run of the same pool, "
     "with the same or with replaced parameters.",
     ["schedules", "configurations", "histories"],
     "every interleaving of the parent and worker processes at their shared queues and flags, every message delivery delay, every pool size / parameter count, every sequence of runs and parameter replacements",
     "No test runs the pool at all; a handful of runs samples only the interleavings the OS happens to produce, and the hand-over (one two-way queue plus a flag per worker) is wrong only in rare ones.",
     [POOL], [("per-worker queue", "carries a parameter one way and a result the other way", POOL + " DispenserManager.__init__"),
              ("per-worker trigger flag", "set = job handed over, cleared = result handed back", POOL + " IndiWorker.run"),
              ("results / parameters vectors", "results by parameter index", POOL + " DispenserManager.compute")],
     [("dispatch and collect loop", POOL + " DispenserManager.compute"), ("worker loop", POOL + " IndiWorker.run"), ("parameter replacement", POOL + " DispenserManager.update_params")],
     ["return value of compute()", "log of function applications per parameter"])

prop("C02", "Pool calls always finish; a failing or dead worker gives an error, not a hang",
     "Creating a pool, running a computation and closing the pool each finish within a bounded number of steps once the injected delays stop, on a machine with any number of CPUs. "
     "If the function raises, a parameter or result cannot be transferred, a worker process dies or cannot be started, the call raises an error within that bound instead of waiting forever, and no call ever returns a wrong or incomplete result list.",
     ["schedules", "fault_sequences", "crash_points", "configurations"],
     "every interleaving, every point at which a worker is killed, every parameter on which the function raises, every worker whose start is refused, every CPU count including one and unknown",
     "Unit tests do not start the pool, cannot kill a worker between two chosen queue operations, and a test that hangs shows nothing about the other schedules.",
     [POOL], [("live flag", "tells workers to keep running", POOL), ("worker liveness", "whether the process behind a job still exists", POOL)],
     [("start-up confirmation wait", POOL + " DispenserManager.__init__"), ("result wait", POOL + " DispenserManager.compute"), ("release", POOL + " DispenserManager.close")],
     ["termination of constructor / compute() / close()", "exception raised"])

prop("C03", "Pools do not affect each other and leave no running worker behind",
     "Any number of pools may exist one after another or at the same time, each keeping its own workers, function, parameters and results, whatever happened to the others (closed, interrupted, failed). "
     "After a pool is closed, failed, was interrupted, or the program ends, all its worker processes stop within a bounded time; a closed pool refuses further computations, and a run after an interrupted one never returns results of the interrupted one.",
     ["histories", "schedules", "fault_sequences", "crash_points"],
     "every history of creating, running, interrupting (at any point), closing and dropping several pools, with every interleaving of their processes",
     "Tests never create a pool, let alone two; leaking one pool's workers into another or stale results after an interrupt needs a multi-step history with an interrupt at a particular point.",
     [POOL, PSF], [("per-pool worker / flag / queue lists", "which processes belong to this pool", POOL), ("initialised flag", "whether the pool may compute", POOL)],
     [("pool construction", POOL + " DispenserManager.__init__"), ("release", POOL + " DispenserManager.close / __del__"), ("PSF worker set-up and release", PSF + " initialize_parallel_workers / deinitialize_workers")],
     ["results of every pool", "set of live worker processes", "program exit"])

prop("C04", "Parallel PSF kernel equals the serial kernel",
     "The PSF kernel computed with worker processes equals (to floating-point rounding) the kernel computed serially with the same polynomial(s), physical and calculation settings and normalization, "
     "for any history of setting changes, worker start and release cycles before it and any process schedule; without running workers, or for cases the workers do not cover, it is still the right kernel or an error, never a wrong one. The same holds for single points of the kernel.",
     ["schedules", "histories", "fault_sequences"],
     "every process schedule and delay, every history of changing settings, starting, releasing and restarting workers, worker deaths during the computation",
     "No test calls the parallel path; a stale setting cached on the object or a worker pool in the wrong state only shows after a particular order of calls.",
     [PSF, POOL, CALC], [("cached wave number", "used by the parallel path only", PSF + " set_physical_props"), ("attached worker pool", "running, released or absent", PSF)],
     [("parallel kernel", PSF + " get_kernel_parallel / get_psf_point_r_parallel"), ("serial kernel", CALC + " get_psf_kernel")],
     ["return value of the parallel kernel call", "stored kernel"])

prop("C05", "Saving a PSF is atomic under crashes, I/O errors and concurrent readers",
     "Whenever the process or machine stops, the disk fills up, or any file operation or the serialization fails during saving, the target file afterwards holds either its complete previous content (or is still absent) or the complete new content. "
     "A reader in another thread or process that reads the file at any moment during a save also sees one of these two complete contents. Afterwards saving works again.",
     ["crash_points", "fault_sequences", "schedules"],
     "every point between and inside file operations of a save, every error of every operation, lost unsynchronized data, every interleaving of a concurrent reader or second saver",
     "The only save test is one undisturbed save and load; tearing needs a crash or error at a specific point inside the write of an existing file.",
     [CALC, PSF], [("target JSON file", "last complete saved PSF", CALC + " save_psf")],
     [("serialization and file write", CALC + " save_psf"), ("save entry", PSF + " save_json")],
     ["bytes of the target file after the fault", "what a fresh read returns"])

prop("C06", "A successful save can be read back completely by any object",
     "After a save returned without error or refusal warning, reading that file into any PSF object, whatever that object held before, restores the polynomial(s), kernel values and size, physical settings, amplitudes and integration settings exactly, "
     "so that the reader computes the same kernel as the writer and saves an equivalent file. This survives a crash of the writing process after the save returned.",
     ["histories", "crash_points", "inputs"],
     "every history of the writer (settings, calculation, cropping, earlier saves and reads, single and several polynomials) and of the reader, every later crash or restart",
     "One test saves one single-polynomial PSF and compares four attributes in one reader; state left over in the reader from its own history is not exercised.",
     [CALC, PSF], [("saved record", "kernel, settings and polynomial indices", CALC + " save_psf"), ("reader state", "attributes replaced by a read", PSF + " read_json")],
     [("save", PSF + " save_json"), ("read", PSF + " read_json / " + CALC + " read_psf")],
     ["public attributes of the reader", "kernel recomputed by the reader", "file re-saved by the reader"])

prop("C07", "Saving never touches files it must not touch",
     "Without permission to overwrite, a save never changes the content of an existing file, and any save changes at most the one file it reports, in the folder it was given, even when the save fails part way. "
     "Every other file in the folder stays byte-for-byte the same, no additional PSF file appears after a failed save, and the location can be given as text or as a path object.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of saves by several PSF objects into shared folders with and without overwrite permission, with faults at any file operation",
     "Tests save once into the default folder with overwriting allowed; refusal combined with errors or with another object's earlier file is never tried.",
     [CALC, PSF], [("folder content", "all saved PSF files", CALC + " save_psf"), ("reported path", "where the object says it was saved", PSF + " save_json")],
     [("existence check and write", CALC + " save_psf"), ("folder selection", PSF + " save_json")],
     ["directory listing and bytes before / after", "reported path"])

prop("C08", "A failed or refused read leaves the PSF object as it was",
     "If reading a saved PSF raises, or warns that the data is missing or unusable - because the file is absent, truncated, overwritten, lacks entries, holds invalid values, or the read itself fails at any point - the object keeps its polynomial(s), settings and kernel unchanged and remains usable. "
     "A truncated file, or one with a missing entry or a setting of the wrong kind or sign, is never accepted as valid. (An interrupt in the last instant of a successful read may instead leave the completely read state.)",
     ["fault_sequences", "crash_points", "inputs"],
     "every truncation length, dropped / duplicated / corrupted bytes, missing or invalid entries, read errors at any point of the read, for any prior state of the object",
     "No test reads a damaged file; partial assignment shows only for damage at particular entries combined with a particular previous state.",
     [PSF, CALC], [("object settings and kernel", "state that must survive", PSF + " read_json")],
     [("parse and assign loop", PSF + " read_json"), ("file read", CALC + " read_psf")],
     ["public attributes before / after", "kernel recomputed after the failed read"])

prop("C09", "The computed kernel depends only on the settings in force, not on history",
     "At any time, the kernel a PSF object computes equals the one a newly created object with the same polynomial(s) and the same last accepted physical and calculation settings computes. "
     "Rejected calls, earlier computations (serial, parallel or accelerated, completed or interrupted), cropping, saves, reads, clock behaviour and other objects leave no trace; values the caller later changes in lists or arrays it passed in have no effect either. (Physical properties were set at least once; a cropping counts as choosing the cropped kernel size.)",
     ["histories", "fault_sequences"],
     "every history of public operations on one or several PSF objects including rejected, failing and interrupted ones",
     "Tests use each object for one short fixed sequence; leftovers need at least a two-step history of particular calls.",
     [PSF, CALC, NUMBA], [("settings attributes", "inputs of the kernel computation", PSF), ("derived values", "normalized amplitudes, wave number, kernel size estimate", PSF + " set_physical_props")],
     [("settings", PSF + " set_physical_props / set_calculation_props"), ("computation", PSF + " calculate_psf_kernel / get_kernel_parallel / crop_kernel")],
     ["computed kernel", "public attributes"])

prop("C10", "An interrupted computation leaves the previous kernel or the complete new one",
     "If a kernel computation, cropping, convolution or save is stopped at any instant by a keyboard interrupt, memory shortage or another error, the object's stored kernel is afterwards exactly the previous one or the complete new one, all settings are unchanged, and the next computation succeeds with the right result. "
     "A kernel array already handed to the caller is never altered by later operations of the object. (An interrupted cropping may leave the old or the new kernel together with the old or the new kernel size.)",
     ["crash_points", "histories"],
     "every instant at which an asynchronous exception can be delivered inside the package's code during each operation, every point of a process exchange in the parallel computation",
     "Tests never interrupt anything; a partially filled kernel is only visible when the exception arrives inside the filling loop.",
     [PSF, CALC], [("stored kernel", "last complete kernel", PSF), ("kernel size", "size of the next computed kernel", PSF)],
     [("serial kernel", CALC + " get_psf_kernel / get_psf_kernel_zerns"), ("parallel kernel", PSF + " get_kernel_parallel"), ("cropping", PSF + " crop_kernel")],
     ["stored kernel and settings after the exception", "earlier returned arrays"])

prop("C11", "Polynomial values do not depend on evaluation history, threads or interrupts",
     "The value, radial part and derivative of every Zernike polynomial at given coordinates are the same whatever polynomials were evaluated before, in whatever order, by however many threads at once, and whichever earlier evaluations were interrupted at any point. "
     "They agree with the mathematical definition wherever that is numerically stable, and results already returned never change.",
     ["histories", "schedules", "crash_points"],
     "every order of evaluations filling the shared coefficient stores, every preemption point between threads, every instant of an interrupt during a store update",
     "Tests evaluate polynomials in ascending order in one thread and one fixed history; a wrongly stored coefficient set depends on which polynomial was evaluated first.",
     [REC, CZP, POL], [("coefficient stores", "shared process-wide tables of radial coefficients", REC), ("memoized results", "cached coefficient dictionaries handed out by reference", REC)],
     [("coefficient search", REC + " find_coeffs_orders / find_coeffs_orders_dr"), ("evaluation", CZP + " radial_polynomial_coeffs / radial_polynomial_coeffs_dr")],
     ["polynomial_value / radial / radial_dr results"])

prop("C12", "Settings calls are all-or-nothing",
     "A call that sets physical or calculation properties either takes effect completely or, if it raises for any reason - invalid, missing or non-numeric values, wrong number of amplitudes, warnings turned into errors, or a failure while it reads the supplied values - changes nothing that a later computation, save or settings call can observe.",
     ["inputs", "histories", "fault_sequences"],
     "every combination of valid and invalid values in every argument position, failures raised from any access to the supplied values, warnings promoted to errors, in any prior state of the object",
     "Tests check only that an error is raised for three inputs; none looks at the object afterwards.",
     [PSF], [("physical settings", "NA, wavelength, pixel size, amplitudes", PSF + " set_physical_props"), ("calculation settings", "kernel size, integration points", PSF + " set_calculation_props")],
     [("validation and assignment", PSF + " set_physical_props"), ("validation and assignment", PSF + " set_calculation_props")],
     ["public attributes", "kernel computed afterwards", "file saved afterwards"])

prop("C13", "Concurrent callers working on their own objects do not disturb each other",
     "Threads that each use their own polynomials, PSF objects, images and fits obtain exactly the results they would obtain alone, under any preemption. "
     "No operation changes arrays or lists supplied by its caller, and no returned array shares memory with the inputs or is later changed by another operation.",
     ["schedules", "histories"],
     "every preemption of 2-4 threads at every point where the interpreter can switch, over mixes of all public computations",
     "All tests run in a single thread with unshared inputs; a module-level scratch value corrupts results only under a particular switch.",
     [POL, PSF, CZP, FIT, CALC], [("module-level and class-level state", "shared by all objects of the process", POL + ", " + PSF + ", " + REC), ("caller's arrays", "inputs that must not change", POL + ", " + FIT)],
     [("evaluation", POL + " polynomial_value / sum_zernikes / radial"), ("fitting", FIT + " crop_phases_img / fit_zernikes"), ("convolution", CALC + " convolute_img_psf")],
     ["results of each thread", "caller's arrays before / after"])

prop("C14", "Missing, broken or failing acceleration never changes results",
     "Whether the optional compiler library is present, absent, broken at import, or made unavailable, and whether acceleration is requested, refused or left automatic, the package can be imported and a kernel computation returns the same kernel (to rounding) for every supported polynomial, or raises an explicit error. "
     "The same holds when the other optional parallel library is absent or broken. (For a single piston the accelerated form integrates while the plain form uses the exact equation: they agree to the accuracy of the integration. Orders the accelerated form does not support - radial order above 10 and azimuthal order other than n or n-2 - may be refused with ValueError.)",
     ["configurations", "fault_sequences", "inputs"],
     "every failure of importing the optional libraries, every acceleration flag, every polynomial order supported by the accelerated path, single and several polynomials",
     "The tests run in one environment with the library present and compare a single polynomial.",
     [PSF, NUMBA, CALC], [("acceleration availability flag", "decided at import", PSF), ("accelerated polynomial table", "copy of the polynomial definitions", NUMBA)],
     [("optional import", PSF + " / " + NUMBA + " / " + CALC), ("dispatch", PSF + " calculate_psf_kernel")],
     ["import outcome", "kernel values with and without acceleration"])

prop("C15", "Random phase images are consistent for every random stream",
     "For every sequence of random draws, a generated random phase image equals the sum of the returned polynomials weighted with the returned amplitudes, at least one amplitude is not negligible (absolute value at least 0.08), all amplitudes lie within +-1.5, and fitting the polynomials to the pixel values at the coordinates they were generated for returns the amplitudes. "
     "The image depends on nothing but the arguments and the state of the standard random generator, so reseeding reproduces it. (Amplitudes are rounded to at least one decimal digit.)",
     ["inputs", "fault_sequences", "histories"],
     "every stream of random numbers, including extreme ones (nothing selected, all selected, boundary and near-zero amplitudes), every order and image shape, any operations before",
     "Tests sample two seeded images; the branch for an all-but-zero selection is reached only by rare streams.",
     [POL, FIT], [("random stream", "draws from the standard generator", POL + " generate_random_phases")],
     [("selection, amplitudes and fallback", POL + " generate_random_phases"), ("fit", POL + " fit_polynomials")],
     ["returned image, amplitudes and polynomials", "fit result"])

prop("C16", "Clock behaviour and verbosity never influence results",
     "Whatever the clock reports (jumps forward, stands still, steps back, runs arbitrarily slowly) and whether progress reporting is on or off, kernel computations, parallel computations and pool runs complete and return the same results, and they do not return early or give up because of elapsed time alone.",
     ["schedules", "configurations"],
     "every clock trace (jumps, stalls, steps back), every verbosity setting, arbitrarily slow jobs",
     "Tests run on the real clock with reporting off.",
     [POOL, PSF, CALC, NUMBA], [("elapsed-time reports", "printed only", PSF + " calculate_psf_kernel")],
     [("progress reporting", CALC + " get_psf_kernel, " + POOL + " compute"), ("pauses", POOL)],
     ["returned kernels and lists", "exceptions"])

prop("C17", "Calls leave the surrounding program as they found it",
     "No call of the package - completed, refused, failed, interrupted at any instant, or running at the same time as calls in other threads - leaves process-wide settings or resources of the program that uses it altered. Afterwards these are as before the call, whatever the program had set: "
     "warning filters and hooks, numpy error handling, print options and random state, the state of the standard random generator, working folder, environment variables, umask, standard streams, recursion limit and other interpreter settings, garbage collection, signal handlers, locale, decimal context, matplotlib settings; "
     "no file stays open, no thread stays running, figures the program had opened stay as they are, and a call that doesn't plot opens none. The same holds for importing the package. "
     "(Documented exceptions: generate_random_phases draws from the standard random generator; plotting functions open new figures and switch pyplot's interactive mode.)",
     ["histories", "fault_sequences", "schedules"],
     "every operation, refused argument, instant of an interrupt, failing file or process operation, thread interleaving and every previous setting of the program",
     "Tests never look at the state of the process, use default settings and no failing call.",
     [PSF, POL, CALC, FIT, POOL, PLOT], [("settings of the process", "owned by the program, not by the package", "whole package")],
     [("warnings", PSF + " / " + FIT), ("figures", PLOT + " / " + PSF + " plot_kernel, visualize_convolution"), ("files", CALC + " save_psf, read_psf"), ("processes", POOL)],
     ["process-wide settings after a call", "open files, threads and figures"])

NA = [
 ("U01", "Index conversions between OSA, Noll, Fringe and (m, n) are consistent bijections",
  "Converting any valid polynomial index or order pair between the supported numbering schemes and back returns the original, and all schemes identify the same polynomial.",
  "all valid orders and indices", POL, "index2orders / osa2noll / noll2osa / osa2fringe / fringe2osa"),
 ("U02", "Polynomial construction accepts exactly the valid orders",
  "Every valid order pair or index, by any documented keyword, yields the polynomial it denotes, and every invalid one raises an error.",
  "all integer orders, indices and keyword spellings", POL, "ZernPol.__init__"),
 ("U03", "Zernike polynomials are normalized, orthogonal and bounded on the unit disk",
  "Radial parts stay within [-1, 1] with value 1 at the border, and the polynomials are orthonormal over the unit disk.",
  "all supported orders and coordinates", CZP, "radial_polynomial, normalization_factor, triangular_function"),
 ("U04", "Derivatives and exact equations agree with the polynomials",
  "Radial and angular derivatives equal the derivatives of the corresponding functions, and the exact and recursive evaluations agree within numerical precision for every supported order.",
  "all supported orders and coordinates", CZP, "radial_derivative, radial_polynomial_coeffs_dr, radial_polynomial_eq"),
 ("U05", "Sums of polynomials are linear in the amplitudes",
  "A sum of polynomials equals the amplitude-weighted sum of the single values for every amplitude list, coordinate layout and surface form.",
  "all amplitude lists and coordinates", POL, "sum_zernikes"),
 ("U06", "Fitting recovers the amplitudes of an image made of the fitted polynomials",
  "Fitting an image or coordinate vectors synthesized from given polynomials returns their amplitudes within rounding, for any aperture crop, border rule and independent polynomial set.",
  "all polynomial sets, amplitudes, image sizes, crop radii", FIT, "crop_phases_img, fit_zernikes"),
 ("U07", "PSF kernels have the physical properties of the diffraction integral",
  "Kernels are non-negative, odd-sized, centred, show the symmetry of their polynomial, peak at 1 when normalized and agree with the Airy pattern for zero aberration.",
  "all polynomials and physical settings", CALC, "get_psf_kernel, get_psf_kernel_zerns, airy_ref_pattern"),
 ("U08", "Kernel size estimate and cropping keep the significant part of the kernel",
  "The estimated size is odd and grows with aberration; cropping removes only border lines below the threshold and keeps the kernel centred and square.",
  "all settings, kernels and thresholds", CALC, "get_kernel_size; zernpsf.py crop_kernel"),
 ("U09", "Convolution preserves image type, shape and scale",
  "Convolving an image with a kernel keeps its shape and type, leaves constant images constant and, if asked, the maximum intensity.",
  "all images and kernels", CALC, "convolute_img_psf"),
 ("U10", "Names, comparison and plotting helpers describe the right polynomial",
  "Names, string forms, ordering and plotted data of a polynomial are those of its orders.",
  "all polynomials", POL, "get_polynomial_name, __eq__, __gt__, plot_profile"),
]
for i, t, s, q, f, m in NA:
    prop(i, t, s, ["inputs"], q, "Tests sample a few values of an unbounded input domain.", [f], [], [(m, f)], ["return values"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
