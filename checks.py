"""What each check runs and how its evidence describes it."""
CORE_LIB = None
WRAPS = ["malloc", "free", "calloc", "realloc", "memset", "memcpy", "memmove", "memcmp"]
_SUT = ["-std=c++17", "-O1", "-g", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-D_GLIBCXX_ASSERTIONS", "-w"]
_HAR = ["-std=c++17", "-O2", "-g", "-w"]
_CORE = ["rt.cpp", "gomp.cpp", "common.cpp", "scen_csp.cpp", "scen_api.cpp", "scen_pgm.cpp"]
_CLI = ["rt.cpp", "gomp.cpp", "common.cpp", "vfs.cpp", "scen_cli.cpp"]
FLAVOURS = {
    "core-omp": dict(sut_flags=_SUT + ["-fopenmp"], harness_flags=_HAR, harness=_CORE, extra_lib=[], link=["-ldl"]),
    "core-seq": dict(sut_flags=_SUT, harness_flags=_HAR, harness=_CORE, extra_lib=[], link=["-ldl"]),
    "cli-omp": dict(sut_flags=_SUT + ["-fopenmp"], harness_flags=_HAR, harness=_CLI, extra_lib=["main.cpp"], link=["-ldl", "-lboost_program_options"], wraps=["exit"]),
    "cli-seq": dict(sut_flags=_SUT, harness_flags=_HAR, harness=_CLI, extra_lib=["main.cpp"], link=["-ldl", "-lboost_program_options"], wraps=["exit"]),
}
_CLF = _SUT + ["-fopenmp", "-DUSE_OPENCL", "-Wno-changes-meaning", "-DCL_TARGET_OPENCL_VERSION=120"]
FLAVOURS["cl-omp"] = dict(sut_flags=_CLF, harness_flags=_HAR, harness=["rt.cpp", "gomp.cpp", "common.cpp", "cl.cpp", "cl_rest.cpp", "scen_cl.cpp", "fastio.cpp"], extra_lib=["gpu_csp.cpp", "compile_cl.cpp"], link=["-ldl"])
FLAVOURS["cli-cl"] = dict(sut_flags=_CLF, harness_flags=_HAR + ["-DSIM_CL"], hdir="harness-cl", harness=["rt.cpp", "gomp.cpp", "common.cpp", "vfs.cpp", "cl.cpp", "cl_rest.cpp", "scen_cli.cpp", "fastio.cpp"], extra_lib=["main.cpp", "gpu_csp.cpp", "compile_cl.cpp"], link=["-ldl", "-lboost_program_options"], wraps=["exit"])
_REAL = ["every function of lib/*.cpp that the property needs, compiled from the working tree with memory-access instrumentation", "libstdc++"]
_STUBS = ["libgomp (OpenMP runtime: teams, work sharing, barriers, locks) replaced by the simulator", "threads, mutexes and clocks", "heap allocator (simulated, with bounds and lifetime checks)"]
_ASSUME = ["memory is sequentially consistent at the granularity of the compiled accesses (no compiler reordering beyond -O1, no store buffers)", "thread interleavings are sampled, not enumerated", "the reference model in sim/model.h states the property correctly"]
_PROB = "stereo problems of 2..6 columns, 1..5 rows, 2..5 disparity levels with random or shifted-and-damaged images, dyadic weights including zero, and in a quarter of the runs a random reparametrization; "
_SCHED = " The scheduler draws a policy per run (conflict-biased random, PCT-like priorities, quantum, cooperative) and OpenMP team sizes 1..8."


_NOTE = "Every violation found is real and repeats exactly from its replay file; a quiet run means that none of the sampled executions (counts in the evidence) breaks the property, not that none exists. Trusts the simulator (sim/rt.cpp, sim/gomp.cpp), the reference model and the scenario's oracle."


def _c(scen, rule, probes, seqshare=1, wall=(20, 420), **kw):
    parts = [dict(flavour="core-omp", scen=scen, share=4)]
    if seqshare:
        parts.append(dict(flavour="core-seq", scen=scen, share=seqshare))
    if scen <= "C08":
        rule += " In a sixth of the runs another problem is worked on first, mostly in objects whose memory is used again."
    d = dict(note=_NOTE, parts=parts, rule=rule, probes=probes, wall=wall, real=_REAL, stubs=_STUBS, assumptions=_ASSUME)
    d.update(kw)
    return d


def _p(scen, rule, probes):
    return _c(scen, rule, probes, seqshare=0, wall=(15, 300), assumptions=["the stream faults are those a std::streambuf can show: short pieces, end of file, exceptions, refused bytes, failed flushes, no seeking", "the oracle tokenizer in sim/pgm_oracle.h states what a text spells; texts on which plain PGM readers differ (comment glued to a number, zero sizes, maximal value 0 or 65536, intensities above the maximum, anything before the magic) only need a consistent outcome"],
              stubs=["stream buffers (the source and sink of bytes)", "heap allocator (simulated, with bounds and lifetime checks, 8 MiB while reading)"], real=["lib/pgm_io.cpp, lib/image.cpp, lib/indexing.cpp compiled from the working tree with memory-access instrumentation", "libstdc++ iostreams"])


_CLIC = "the whole program run with random options (long and short forms, any order) on random stereo pairs of 2..6 columns and 1..5 rows in an in-memory file system, with or without a previous output file, inputs that may be read-only, absolute and relative paths, sometimes one file as both images, fractional weights; "


def _l(scen, main, rule, probes):
    parts = [dict(flavour="cli-" + main, scen=scen, share=3)] + ([dict(flavour="cli-seq", scen=scen, share=1)] if main == "omp" else [dict(flavour="cli-omp", scen=scen, share=1)])
    return dict(note=_NOTE, parts=parts, rule=rule, probes=probes, wall=(20, 420), assumptions=_ASSUME + ["the file system is that of POSIX without power failures: what a system call reported as written stays"],
                real=["lib/main.cpp and every other lib/*.cpp the CPU program is made of, compiled from the working tree with memory-access instrumentation", "boost::program_options", "libstdc++ file streams"],
                stubs=["system calls on files (in-memory file system)", "process exit", "libgomp (OpenMP runtime) replaced by the simulator", "heap allocator (simulated, with bounds and lifetime checks)"])


CHECKS = {
    "C01": _c("C01", "Case: " + _PROB + "a threshold at, below or above the minimal consistent one and sometimes a perturbed initial availability." + _SCHED + " Non-trivial: the solver has nodes to remove. Distinct: workload choices together with the order of conflicting accesses.",
              ["runs", "nodes_to_remove", "unsolvable", "preempted", "reparametrized", "more_threads_than_rows", "another_problem_before", "more_levels_than_a_byte_counts"]),
    "C02": _c("C02", "Case: as for C01, biased to thresholds just below the minimal consistent one." + _SCHED + " Non-trivial: the solver has nodes to remove.", ["runs", "unsolvable", "preempted", "more_threads_than_rows", "another_problem_before", "more_levels_than_a_byte_counts"]),
    "C03": _c("C03", "Case: " + _PROB + "rounds of csp_solution_iteration jobs on caller threads, any number of jobs (also more than rows, also a duplicated job), jobs killed or stalled at a random access in the first rounds, partitions changing between rounds. Non-trivial: there are nodes to remove.", ["quiet_rounds", "more_jobs_than_rows", "three_rounds_or_more", "unsolvable", "another_problem_before", "more_jobs_than_a_byte_counts"], seqshare=0),
    "C04": _c("C04", "Case: as C01 or as C03; the availability of every node is looked at after every heap write of the code under test." + _SCHED + " Non-trivial: availability changed.", ["runs", "observed_writes", "preempted", "unsolvable", "another_problem_before"], seqshare=1),
    "C05": _c("C05", "Case: 2..5 client threads, each owning random pixels of one constraint graph, execute up to 14 mark/unmark/query/choose-best operations each; every result is compared with a per-pixel model. Non-trivial: conflicting accesses to the same 8 bytes happened.", ["runs", "best_node_chosen", "preempted", "conflicts", "another_problem_before", "more_levels_than_a_byte_counts"], seqshare=0),
    "C06": _c("C06", "Case: " + _PROB + "candidates and minimal consistent threshold compared with the model." + _SCHED + " Non-trivial: the minimal consistent threshold is not the smallest candidate.", ["runs", "search_needed", "preempted", "reparametrized", "another_problem_before", "more_than_1000_candidates"]),
    "C07": _c("C07", "Case: " + _PROB + "solved and labeled at the minimal consistent, a slightly larger or (in a tenth) a smaller threshold, in an eighth after the caller removed random nodes; the labeling is checked against every clause, and its worst deviation against exhaustive enumeration of all labelings when there are at most 3000." + _SCHED + " Non-trivial: more nodes than pixels initially available.", ["runs", "preempted", "reparametrized", "no_labeling", "compared_with_enumeration", "another_problem_before", "threshold_too_small", "labeled_after_the_caller_removed_nodes"]),
    "C08": _c("C08", "Case: as C07, the same problem labeled up to three times with different teams and schedules, each map compared with the reference greedy labeling; rarely the map of a labeling with over 256 levels." + _SCHED + " Non-trivial: more nodes than pixels initially available.", ["maps", "preempted", "nodes_skipped", "unlabelable", "another_problem_before", "threshold_too_small", "nodes_removed_by_caller", "more_levels_than_a_byte_counts", "four_nodes_refused_or_more"]),
    "C09": _c("C09", "Case: 2..4 client threads with one to three operations each (penalties, problem, candidates, minimal threshold, solving, labeling and map, marking nodes, copying, assigning and swapping one shared constraint graph and solving the copies, reading and writing own PGM texts) on one shared problem and shared penalties (in a quarter of the runs two of each), with nested OpenMP teams; the expected result of each client comes from running it alone in a forked copy of the process. Heap blocks are reused in half of the runs. Non-trivial: clients were preempted.", ["runs", "preempted", "teams_inside_clients", "conflicts", "two_problems"], seqshare=1),
    "C10": _c("C10", "Case: one operation (problem, penalties, candidates, threshold, graph, solving, labeling, best node, map, image copy, PGM read into a held image, PGM write, whole pipeline); a dry run in a forked copy counts its allocations, then allocation number k (uniform) fails once or from then on, twice or three times in a row, and the operation is repeated with enough memory; the same for labeling on a simulated OpenCL device. Non-trivial: the operation allocates.", ["runs", "allocating", "bad_alloc", "failed_stream", "completed_anyway"], seqshare=1),
    "C11": _p("C11", "Case: one to three PGM texts (a few with more than 65535 pixels) read one after another into the same object; most are well-formed (any whitespace, comments and blank lines between numbers, leading zeros, all kinds of ends), delivered in random pieces of 1 to 128 bytes by a seekable or unseekable stream buffer, a quarter to streams with number formats, a locale that groups digits or exceptions switched on; sometimes a second read from the exhausted stream; some are damaged, cut or broken by a read error. Expected: an independent tokenizer over the delivered bytes. Non-trivial: a well-formed text delivered in several pieces.", ["texts", "well_formed", "malformed", "read_errors", "early_ends", "out_of_memory", "unclear", "more_pixels_than_16_bits_count", "another_thread", "unusual_stream_state", "read_again"]),
    "C12": _p("C12", "Case: as C11, mostly malformed texts (wrong magic, missing, extra, non-numeric, signed or overflowing numbers, impossible sizes including ones right modulo 2^32 or 2^61, too large maximal value, flipped or inserted bytes, garbage after the end) and streams that end early or break, once or lastingly, after a random byte; the simulated machine has 8 MiB. Non-trivial: the text is malformed or the stream broke.", ["texts", "well_formed", "malformed", "read_errors", "early_ends", "out_of_memory", "unclear", "more_pixels_than_16_bits_count", "another_thread", "unusual_stream_state", "read_again"]),
    "C13": _p("C13", "Case: a valid, invalid or absent image written to a working sink, and the same image written to one to three sinks that refuse bytes after a random count (once or lastingly, by return value or exception), or whose k-th flush fails, with or without a buffer; a quarter through streams with number formats (hex, showbase ...), a locale that groups digits or exceptions switched on. Non-trivial: the sink refused something.", ["images", "invalid", "faulty_sinks", "more_pixels_than_16_bits_count"] + [""] * 4 + ["another_thread"] + ["unusual_stream_state"]),
}
CHECKS.update({
    "C14": _l("C14", "omp", "Case: " + _CLIC + "valid inputs, any team size, short reads and writes and interrupted calls at random; the output is compared with the reference model's map." + _SCHED + " Non-trivial: a benign fault or a preemption happened.", ["runs", "short_transfers", "interrupted_calls", "preempted", "labeled_by_the_device", "over_250_rows_or_columns"] + [""] * 24 + ["kernels_rejected"]),
    "C15": _l("C15", "seq", "Case: " + _CLIC + "a third of the runs with invalid inputs or options, and usually one or two faults at random positions: the k-th read, write, open or close fails (once or lastingly, possibly after a partial write or losing the last write), the disk fills up after k bytes, the k-th allocation fails, an input ends early. Non-trivial: a fault fired or the input is invalid.", ["runs", "invalid", "io_failures", "out_of_memory", "early_ends", "complete_outputs", "incomplete_outputs", "device_failures", "labeled_by_the_device", "over_250_rows_or_columns"]),
    "C16": _l("C16", "seq", "Case: as C15, and the process killed before, in the middle of or after the k-th I/O operation or at any memory access; every change of every file is examined when it happens, and when the previous output is truncated the finished map must be found in the memory of the program. Non-trivial: killed, a fault fired, or no map is due.", ["runs", "outputs_replaced", "killed", "no_map_due", "failures", "device_failures", "labeled_by_the_device", "over_250_rows_or_columns"]),
})

_CLKW = dict(note=_NOTE, assumptions=["problems whose penalties single precision represents exactly (on others the device may round differently than the CPU)", "work-item interleavings and the visibility of other work-items' plain writes are sampled, not enumerated; a write is visible to its own work-item, to others at any time or only when the launch is over, word by word", "the kernels are compiled by clang's OpenCL front end for the host processor"],
             real=["lib/gpu_csp.cpp, lib/compile_cl.cpp, find_labeling_cl and every other lib/*.cpp, compiled from the working tree with -DUSE_OPENCL and memory-access instrumentation", "the kernel source as the program assembles it at run time (lib/solve_csp.cl and the shared lib/*.cpp)", "boost::compute (headers)"],
             stubs=["libOpenCL and the device (objects, in-order queues, work-groups and work-items as simulated threads, failures)", "libgomp (OpenMP runtime)", "heap allocator and device memory (simulated, with bounds and lifetime checks)"])
CHECKS["C10"]["parts"].append(dict(flavour="cl-omp", scen="C10", share=1))
CHECKS["C10"]["real"] = _REAL + _CLKW["real"]
CHECKS["C10"]["stubs"] = _STUBS + _CLKW["stubs"][:1]
for _k in ("C14", "C15", "C16"):
    CHECKS[_k]["parts"].append(dict(flavour="cli-cl", scen=_k, share=2))
    CHECKS[_k]["rule"] += " The same with the labeling asked of a simulated OpenCL device" + (" (work-items, visibility and deferral drawn)." if _k == "C14" else ", whose calls fail, which is missing or on which a kernel dies; reading the kernel sources fails like any other file.")
    CHECKS[_k]["stubs"] = CHECKS[_k]["stubs"] + _CLKW["stubs"][:1]
    CHECKS[_k]["real"] = CHECKS[_k]["real"] + ["lib/gpu_csp.cpp, lib/compile_cl.cpp, the kernels and boost::compute (OpenCL part)"]
    CHECKS[_k]["assumptions"] = CHECKS[_k]["assumptions"] + _CLKW["assumptions"]
_OPS = ["platforms", "devices", "context", "queue", "program", "build", "kernel", "buffer", "argument", "launch", "read", "write", "map", "unmap", "copy", "finish", "wait"]
CHECKS.update({
    "C17": dict(parts=[dict(flavour="cl-omp", scen="C17", share=1)], wall=(25, 420), rule="Case: stereo problems of 2..5 columns and 1..4 rows (up to 10x8 in a sixteenth of the runs, rarely 65 to 286 pixels), half of them reparametrized, a tenth with a threshold that is too small, an eighth with nodes removed by the caller, labeled with find_labeling and with find_labeling_cl on a simulated device; work-group splits, maximal group size, order of groups, interleaving of work-items at their memory accesses, visibility of other groups' or work-items' writes within a launch, and deferral of commands are drawn; in an eighth of the runs two clients label at once, in another eighth one labels twice in a row, half of the time two different problems. Non-trivial: several groups, late visibility or a preemption.", probes=["runs", "several_groups", "late_visibility", "preempted", "no_labeling", "two_clients", "best_nodes_form_no_labeling", "another_problem_second", "in_the_same_objects"] + [""] * 20 + ["more_pixels_than_a_group", "kernels_rejected"], **_CLKW),
    "C18": dict(parts=[dict(flavour="cl-omp", scen="C18", share=1)], wall=(25, 420), rule="Case: as C17; a run on a working device in a forked copy counts the fallible calls, then call number k (uniform, or uniform among a kind of call) fails once or from then on with an error it may return, or there is no device, or a launched kernel dies after some of its groups, or the kernel sources cannot be found; afterwards the same graph is labeled on the working device; in a quarter of the runs another problem is labeled before all that or at the end. Non-trivial: a failure fired.", probes=["runs", "failed", "exception", "no_labeling", "recovered", "right_labeling_nevertheless", "recovered_after_an_earlier_success", "another_problem_after_recovery"] + ["failed_" + o for o in _OPS] + [""] * 4 + ["more_pixels_than_a_group", "kernels_rejected"], **_CLKW),
})

_PURE = "a pure function of its arguments: no concurrency, time, I/O, fault or multi-party behaviour for a simulator to decide"
NOT_APPLICABLE = {
    "N01": "Index arithmetic is " + _PURE + " (an index that leaves its array is still caught by the simulated heap in every other check).",
    "N02": "Argument validation of the constructor is " + _PURE + "; generating inputs alone would be property-based testing, not simulation.",
    "N03": "Penalty arithmetic is " + _PURE + ".",
    "N04": "Option parsing is " + _PURE + "; it sees the command line once, before any thread, file or fault is involved.",
}
