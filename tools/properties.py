"""Source of properties.jsonl (run: python3 -m tools.gen)."""


def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": ["src/stcal/" + f for f in files],
                                           "mechanism": [{"name": n, "where": "src/stcal/" + w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": "src/stcal/" + w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    return d


CLAIMED = [
    P("C01", "Jump detection does not depend on the number of processes",
      "For any exposure, detector configuration and request for cores, on a machine with any number of cores and in "
      "whatever order the worker processes run and finish, jump detection returns exactly the group flags, pixel flags, "
      "cosmic-ray count and extended-event count that it returns when it runs in the calling process alone.",
      ["inputs", "schedules", "configurations"],
      "all exposures (integrations, groups, rows, columns, saturated / unusable / reference pixels, jumps at any place), all detection "
      "options, core requests and machine sizes, all task-to-worker assignments and completion orders",
      "The tests compare two hand-made exposures on the machine at hand; splitting goes wrong only for events next to a seam, groups "
      "unusable in one part of the detector, row counts that do not divide, options that couple rows.",
      ["jump/jump.py", "jump/twopoint_difference.py", "multiprocessing.py"],
      [("row slices with the neighbouring rows", "jump/jump.py: slice_data"),
       ("reassembly of the slices", "jump/jump.py: reassemble_sliced_data"),
       ("detection on one slice", "jump/twopoint_difference.py: find_crs")],
      observe=["return value of jump detection", "group and pixel flag arrays of the exposure"]),
    P("C02", "Ramp fitting does not depend on the number of processes",
      "For any exposure and fitting options, least-squares ramp fitting split over any number of worker processes, on a machine with any "
      "number of cores and in whatever order the workers run and finish, returns exactly the image, per-integration and optional "
      "products (every array: values, data types and shapes) that it returns when it runs in the calling process alone.",
      ["inputs", "schedules", "configurations"],
      "all exposures incl. saturation, jumps, unusable groups, dropped leading/trailing groups, zero frames, single groups, dark current; "
      "optional product on and off; all core requests, machine sizes, assignments and completion orders",
      "One test runs the split with a handful of rows; segment counts that differ between slices, slices that are wholly saturated, "
      "uneven rows and optional per-exposure arrays are never compared.",
      ["ramp_fitting/ols_fit.py", "ramp_fitting/ramp_fit.py", "ramp_fitting/ramp_fit_class.py", "multiprocessing.py"],
      [("slicing of the inputs", "ramp_fitting/ols_fit.py: compute_slices_for_starmap, slice_ramp_data"),
       ("reassembly", "ramp_fitting/ols_fit.py: assemble_pool_results, get_slice, create_output_info")],
      observe=["returned product tuples/dictionaries"]),
    P("C03", "A failing or dying worker process fails the whole call cleanly",
      "When a worker process raises, is killed or cannot be started at any point of a multi-process jump detection or ramp fit, the call "
      "ends with an exception within a bounded time: it never hangs and never returns a result. Afterwards no worker process or pool "
      "of that call is left, and the next call returns what it returns in a fresh process.",
      ["fault_sequences", "schedules", "crash_points"],
      "any one or more workers, failing before, during (at any line) or after a slice, by exception, memory error or kill; failing pool "
      "creation; interrupt of the caller while it waits; any completion order of the others",
      "No test makes a worker fail; which slice fails and when relative to the others decides whether anything goes wrong.",
      ["jump/jump.py", "ramp_fitting/ols_fit.py"],
      [("worker pool life cycle (jump)", "jump/jump.py: twopoint_diff_multi"),
       ("worker pool life cycle (ramp fit)", "ramp_fitting/ols_fit.py: ols_ramp_fit_multiprocessing")],
      observe=["exception of the call", "live workers after the call", "result of the next call"]),
    P("C04", "The core request is honoured and every row is processed exactly once",
      "The number of worker processes used by a jump detection or ramp fit never exceeds the request, the machine's cores or the rows: "
      "'none'/'one' (any case) and 1 mean no workers, a whole number means that many, 'quarter', 'half' and 'all' mean that fraction of "
      "the machine's cores rounded down but at least one. Whatever the number, every detector row is given to exactly one worker "
      "as its own and none is lost.",
      ["configurations", "inputs"],
      "all machine sizes, all accepted spellings of the request, all row counts",
      "Tests enumerate a few requests for one machine size and never look at which rows the workers got.",
      ["multiprocessing.py", "jump/jump.py", "ramp_fitting/ols_fit.py"],
      [("number of slices", "multiprocessing.py: compute_num_cores"), ("rows per slice", "ramp_fitting/ols_fit.py: rows_per_slice"),
       ("rows per slice", "jump/jump.py: slice_data")],
      observe=["processes started", "tasks handed to them", "returned arrays"]),
    P("C05", "The on-disk median equals the in-memory median",
      "For any number of images, image shape, data type, NaN pattern and memory budget that is accepted, the median computed through "
      "temporary files equals the one computed in memory and equals the per-pixel median, ignoring NaNs, of the images appended. Through files, appending more "
      "images than announced, or one of another shape or type, is refused with an error and leaves the median of the accepted images "
      "unchanged; a budget too small for one row of every image is raised to that, and no image given is modified.",
      ["inputs", "configurations", "histories"],
      "all stacks, shapes (also not divisible by the rows per buffer), types, buffer sizes, orders of append, refusal and compute",
      "Tests use one small stack and a couple of buffer sizes; section boundaries, last short section and refused appends in "
      "between are not combined.",
      ["outlier_detection/median.py"],
      [("on-disk sections", "outlier_detection/median.py: OnDiskMedian, DiskAppendableArray"),
       ("in-memory cube", "outlier_detection/median.py: MedianComputer"), ("row-wise median", "outlier_detection/median.py: nanmedian3D")],
      state=[("sections", "one temporary file per block of rows, holding every frame's rows", "outlier_detection/median.py: OnDiskMedian")],
      observe=["returned median", "exceptions"]),
    P("C06", "A disk error never produces a wrong median",
      "If the operating system fails or cuts short any disk operation (open, write, flush, read, rename, removal; full disk, I/O error, "
      "short or interrupted transfer) at any point while a median is accumulated and computed through temporary files, then every median "
      "that is returned is the correct median of the images whose append succeeded; otherwise an exception is raised. A caller who "
      "retries or goes on after a failed append is never given a median of incomplete or duplicated data.",
      ["fault_sequences", "crash_points", "histories"],
      "every operation index, every errno, one or several faults, short counts of any length, histories of append / retry / compute / "
      "recompute",
      "No test injects a disk fault; a fault's effect depends on which of the section files was already extended.",
      ["outlier_detection/median.py"],
      [("append to section files", "outlier_detection/median.py: DiskAppendableArray.append, OnDiskMedian.add_image"),
       ("read back", "outlier_detection/median.py: DiskAppendableArray.read, OnDiskMedian.compute_median")],
      observe=["returned median", "exceptions"]),
    P("C07", "Temporary storage of a median is always removed and never shared",
      "When a median computer that uses disk has returned its median, is released or garbage collected, or its construction fails, after any history of "
      "appends, failures and interrupts, nothing it created is left in the temporary directory (unless the operating system refused the removal itself) "
      "and nothing it did not create is removed. Computers that are alive "
      "together in one directory, whatever the interleaving of their appends, medians and releases, do not affect each other's results.",
      ["histories", "fault_sequences", "schedules"],
      "any number of live computers, any interleaving of their operations, disk errors and interrupts at any point",
      "Tests create one computer, run it to the end and look at the directory once.",
      ["outlier_detection/median.py"],
      [("temporary directory", "outlier_detection/median.py: OnDiskMedian.__init__, cleanup"),
       ("section file life time", "outlier_detection/median.py: DiskAppendableArray")],
      observe=["contents of the temporary directory", "medians"]),
    P("C08", "Exposure bookkeeping of a mosaic is right for every sequence of calls",
      "Over any sequence of adding images, finalizing and resetting, also with calls that fail, a mosaic's metadata equals the fold "
      "of the images successfully added since the last reset: each exposure group counted once in pointings, total exposure time and "
      "measurement time, earliest start and latest end time; an add that fails part-way counts wholly or not at all, or the mosaic refuses to go on until reset. Finalizing twice changes nothing, adding "
      "after finalizing is refused with an error, and a reset mosaic behaves like a new one.",
      ["histories", "fault_sequences"],
      "all sequences of add / finalize / reset with any grouping of images, any mix of exposure and measurement times, any point of "
      "failure of an add",
      "Tests follow a few fixed sequences; repeats, interleaved groups and failures in between are open.",
      ["resample/resample.py"],
      [("exposure accumulation", "resample/resample.py: Resample.update_time, init_time_counters, finalize_time_info"),
       ("finalize / reset state machine", "resample/resample.py: Resample.finalize, reset_arrays, add_model_hook")],
      state=[("group ids seen", "which exposures have been counted", "resample/resample.py: Resample._group_ids")],
      observe=["output metadata", "exceptions"]),
    P("C09", "A mosaic depends only on the images added since the last reset",
      "The mosaic's data, weight, context, variance and error arrays after any sequence of adds, refused or failed adds, finalizes and "
      "resets equal those of a new mosaic given only the images successfully added since the last reset, in the same order, each contributing its background-subtracted data with the documented weight; after an add that fails part-way "
      "it holds the image wholly or not at all, or refuses to go on until reset. Adding an image never changes the image's own arrays, and earlier images' contributions do not leak into later ones.",
      ["histories", "fault_sequences"],
      "all sequences of operations, weight types, variance options, images with missing variance arrays, failing images at any position",
      "Tests add a fixed list of images once per mosaic.",
      ["resample/resample.py", "resample/utils.py"],
      [("drizzle accumulation", "resample/resample.py: Resample.add_model, resample_variance_arrays, finalize_resample_variance"),
       ("weights", "resample/utils.py: build_driz_weight")],
      observe=["output arrays", "input arrays after the call"]),
    P("C10", "Computing a pixel map leaves the caller's WCS as it was",
      "After a pixel-map computation between two world coordinate systems, whether it succeeds, fails at any point or is interrupted, "
      "both coordinate systems have the bounding box, shape and every other attribute they had before the call.",
      ["fault_sequences", "crash_points", "inputs"],
      "all pairs of coordinate systems, bounding boxes and modes; an exception raised by either coordinate system or by the interpreter at any point",
      "Tests call it once and never make it fail part-way.",
      ["resample/utils.py"],
      [("temporary removal of the bounding box", "resample/utils.py: calc_pixmap")],
      observe=["bounding boxes after the call", "results of later transforms"]),
    P("C11", "A failing catalogue service gives an error, never a wrong catalogue",
      "Whatever the astrometric catalogue web service does (refuses, resets, stalls before or during the reply, answers with an error status, "
      "or with an empty, cut-off or non-catalogue body), a catalogue request ends with an exception or with exactly the sources of the "
      "reply: a connection failure is reported as a connection error, a stall as a timeout within the limit set (or, once sending or receiving has begun, a connection error), and an error status as an error. No source "
      "is invented, dropped or duplicated, the no-records reply gives an empty catalogue, and a reference catalogue file is written only "
      "for a complete catalogue. An alignment to a catalogue that cannot be had, or has too few sources, changes no image.",
      ["fault_sequences", "inputs", "histories"],
      "all replies of the service and all transport faults at any byte, any sequence of requests",
      "The tests need the live service or replace the request with one canned exception.",
      ["tweakreg/astrometric_utils.py"],
      [("request and error mapping", "tweakreg/astrometric_utils.py: get_catalog"),
       ("reference catalogue", "tweakreg/astrometric_utils.py: create_astrometric_catalog")],
      observe=["returned table", "exception type", "output file"]),
    P("C12", "A catalogue query to the object store ends in time and remembers no failure",
      "A query of the object-store catalogue returns the complete set of sources inside the search radius or raises; if the store "
      "stalls at any point, a timeout error is raised no later than the requested timeout. A failed, stalled or timed-out query does not "
      "affect the result of any later query (as long as stalled operations do not hold all worker threads of the store library).",
      ["fault_sequences", "schedules", "histories"],
      "stall, error or short reply at any of the store operations, any timeout, any sequence of queries at any positions",
      "The tests need the live store; none stalls it.",
      ["tweakreg/_s3_catalog.py"],
      [("time limit", "tweakreg/_s3_catalog.py: get_s3_catalog"), ("partition cache", "tweakreg/_s3_catalog.py: _get_partition_info"),
       ("cone search", "tweakreg/_s3_catalog.py: _get_hats_sources, _filter_table")],
      observe=["returned table", "exception", "virtual time of the call"]),
    P("C13", "Running out of memory in the ramp fitter is an error, not a crash",
      "If any memory allocation made while ramps are fitted fails, the call raises MemoryError: it does not crash the process, return an "
      "incomplete or wrong product or corrupt memory. The memory it had taken is given back, and the next call returns exactly what it returns in a fresh process.",
      ["fault_sequences", "crash_points", "inputs"],
      "every allocation of the compiled fitter (each call, one or several failing), all exposures and options",
      "No test makes an allocation fail; there are hundreds of allocation points per exposure.",
      ["ramp_fitting/src/slope_fitter.c"],
      [("allocation checks and clean-up paths", "ramp_fitting/src/slope_fitter.c")],
      observe=["exception", "memory blocks outstanding", "later results"]),
    P("C14", "A calibration call does not depend on what the session did before",
      "Every calibration operation (jump detection, ramp fitting, saturation, linearity, dark subtraction, sky matching, outlier detection, "
      "alignment and resampling helpers) returns, in a session that has already made any sequence of successful, failed and interrupted calls "
      "with any options, exactly what the same call returns in a fresh process, also when it is given reference inputs (gain, read noise, "
      "coefficients, thresholds, darks, WCS objects) that earlier calls were given, and whatever unused memory holds. It leaves numpy's error state, the "
      "warning filters, the random state, the environment and the working directory of the process as they were, and later calls never change what it returned.",
      ["histories", "fault_sequences"],
      "all sequences of calls, options and failure points before the call under test",
      "Tests run each call once per configuration in whatever process state pytest has; order effects are not compared.",
      ["jump", "ramp_fitting", "saturation", "linearity", "dark_current", "skymatch", "outlier_detection", "alignment", "resample"],
      [("module-level state and caches", "ramp_fitting/likely_fit.py, ramp_fitting/ols_cas22, tweakreg/_s3_catalog.py, jump")],
      observe=["return values", "process-global state"]),
    P("C15", "Calls running concurrently in threads do not affect each other",
      "When several calibration calls on separate exposures (which may share reference arrays such as gain and read noise) run at the same time in "
      "threads of one process, each returns exactly what it returns when it runs alone, for every interleaving of their steps and also when one of them fails.",
      ["schedules"],
      "all pairs and triples of operations and all interleavings of their Python-level steps",
      "No test runs two calls at once.",
      ["jump", "ramp_fitting", "saturation", "linearity", "dark_current", "outlier_detection", "resample", "tweakreg"],
      [("no shared mutable state", "all listed modules")],
      observe=["return values"]),
]

PURE = "pure numerical function of its inputs with no scheduling, clock, I/O, process, allocation or history for a simulator to control; deciding it is input exploration or proof, not fault simulation"


def N(id, title, statement, files, why="Tests sample a few inputs; the property ranges over all of them.", over=("inputs",)):
    return P(id, title, statement, list(over), "all inputs and options of the operation", why, files,
             [("implementation", files[0])])


NOT_APPLICABLE = [
    (N("N01", "Least-squares ramp slopes are the weighted fits of the unflagged segments",
       "For every pixel the fitted slope, its Poisson and read-noise variances and the error are those of the optimally weighted least-squares fit over "
       "the segments between jumps and saturation, combined over segments and integrations; flagged groups have no influence.",
       ["ramp_fitting/src/slope_fitter.c", "ramp_fitting/ols_fit.py"]), PURE),
    (N("N02", "Pixels without usable data are marked, others are not",
       "Ramp fitting gives NaN and DO_NOT_USE to exactly the pixels with no usable group, and saturated / jump flags are carried to the products.",
       ["ramp_fitting/src/slope_fitter.c", "ramp_fitting/ramp_fit.py"]), PURE),
    (N("N03", "The likelihood ramp fit maximises the likelihood and flags its own jumps",
       "Slopes, uncertainties, chi-squared and jump flags of the likelihood algorithm are those of the correlated-noise maximum-likelihood solution.",
       ["ramp_fitting/likely_fit.py", "ramp_fitting/likely_algo_classes.py"]), PURE),
    (N("N04", "The uneven-ramp fitter returns Casertano-weighted slopes for any read pattern",
       "For every read pattern, the per-ramp slopes and variances are the Casertano et al. weights applied to the resultants, and jump-split ramps partition the resultants.",
       ["ramp_fitting/ols_cas22/_fit.pyx", "ramp_fitting/ols_cas22/_ramp.pyx", "ramp_fitting/ols_cas22/_jump.pyx"]), PURE),
    (N("N05", "Jumps above threshold are flagged and only those",
       "A group difference is flagged as a jump exactly if its deviation from the pixel's median difference exceeds the threshold for the number of usable "
       "differences; neighbours and later groups are flagged as requested.",
       ["jump/twopoint_difference.py"]), PURE),
    (N("N06", "Snowballs and showers are flagged over their whole extent",
       "Large events are expanded by the requested factors, saturated cores are masked for the requested groups, and flags never spread to unrelated groups.",
       ["jump/jump.py"]), PURE),
    (N("N07", "Saturation is flagged from the first saturated group on",
       "Once a group of a pixel saturates, it and every later group of the integration are flagged, neighbours grow by the requested distance, "
       "and A/D floor pixels are flagged.", ["saturation/saturation.py"]), PURE),
    (N("N08", "Linearity correction applies the polynomial only where it is valid",
       "Every unsaturated sample with valid coefficients is replaced by the polynomial, all others are unchanged and flagged.", ["linearity/linearity.py"]), PURE),
    (N("N09", "Dark subtraction uses the dark that matches the readout",
       "The dark is averaged over the exposure's frames and groups, its flags are merged, and unmatched darks leave the data unchanged.", ["dark_current/dark_sub.py"]), PURE),
    (N("N10", "A mosaic's WCS and footprint cover all inputs",
       "The combined WCS contains every input footprint and its sky-region string lists the corners in order.", ["alignment/util.py"]), PURE),
    (N("N11", "Pixel maps and pixel scale ratios agree with the two WCSs",
       "Each entry of the map is the position of the input pixel in the output frame, NaN outside the bounding box.", ["resample/utils.py", "alignment/resample_utils.py"]), PURE),
    (N("N12", "Sky levels make overlapping images agree",
       "In match mode the weighted differences of sky in the overlaps are minimised; in global mode one level is found; reference sky is zero for one image.",
       ["skymatch/skymatch.py", "skymatch/skyimage.py", "skymatch/skystatistics.py"]),
     PURE + "; its only history effect (repeat calls) is covered by C14"),
    (N("N13", "Outliers are the pixels that deviate from the blotted median",
       "Cosmic-ray flags mark exactly the pixels beyond the signal-to-noise and derivative thresholds.", ["outlier_detection/utils.py"]), PURE),
    (N("N14", "Tweakreg removes the relative and absolute misalignment",
       "After alignment matched sources agree within tolerance, and images that cannot be aligned keep their WCS.", ["tweakreg/tweakreg.py"]), PURE),
    (N("N15", "Velocity aberration factors follow special relativity",
       "Scale factor and apparent position are those of the relativistic formula for any velocity and direction.", ["velocity_aberration.py"]), PURE),
    (N("N16", "Proper motions move catalogue sources to the epoch",
       "Positions are propagated by proper motion and parallax to the requested epoch.", ["tweakreg/_s3_catalog.py"]), PURE),
]
