#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                        "mechanism": [dict(name=a, where=b) for a, b in mech],
                        "observe_at": list(observe), "hook_needed": hook}}
AV = ("node availability", "one marker per (pixel, disparity), shared by all solver threads", "include/constraint_graph.hpp ConstraintGraph::nodes_availability")
props = [
P("C01", "Parallel CSP solving leaves the greatest consistent set on any schedule",
  "Solving the constraint problem leaves available exactly the largest set of initially available nodes in which every node has, toward each existing neighbouring pixel, at least one admissible edge (existing, within the threshold) to another node of that set. The outcome is identical for the sequential build and for the OpenMP build with any number of threads and any interleaving of them.",
  ["schedules", "inputs", "configurations"],
  "every stereo problem (images, weights, disparity levels, reparametrization), threshold and initial availability; every OpenMP team size and every interleaving of the team's memory accesses",
  "The tests solve four tiny problems in the sequential build and look at a handful of nodes; the OpenMP build is compiled but never run, and no test sees two threads.",
  ["lib/constraint_graph.cpp", "include/constraint_graph.hpp", "lib/lowest_penalties.cpp", "lib/indexing_checks.cpp"],
  [("fixpoint loop and OpenMP work sharing", "lib/constraint_graph.cpp solve_csp"), ("one pass over a job's rows", "lib/constraint_graph.cpp csp_solution_iteration"), ("support test per neighbour", "lib/constraint_graph.cpp should_remove_node / is_edge_available")],
  [AV], ["is_node_available after solve_csp"]),
P("C02", "The solver's verdict is truthful, failure empties the graph, and it ends",
  "The solver reports success exactly when the largest consistent set is non-empty; when it is empty it reports failure and no node at all stays available. On every schedule it returns within a bounded number of passes.",
  ["schedules", "inputs"],
  "every problem, solvable or not, every team size and interleaving; bounded liveness: passes are bounded by the number of initially available nodes plus a constant",
  "Only solvable problems are solved in the tests, one thread; neither the unsolvable branch, nor concurrent emptying by several threads, nor termination under races is reached.",
  ["lib/constraint_graph.cpp"],
  [("emptying when a pixel has no node left", "lib/constraint_graph.cpp csp_solution_iteration"), ("verdict", "lib/constraint_graph.cpp check_nodes_left, solve_csp"), ("change flag reduction", "lib/constraint_graph.cpp solve_csp")],
  [AV], ["return value of solve_csp", "is_node_available after a failed solve_csp"]),
P("C03", "Job-partitioned passes converge despite stalls, kills and re-partitioning",
  "When caller threads run solver passes split into any number of jobs, in any interleaving, with passes stalled or abandoned midway and re-run, and with the number of jobs changing between rounds, a round in which every job completed and none reported a change leaves exactly the largest consistent set. Every job that made a node unavailable reports a change unless no node is left at all, and such a quiet round comes within as many rounds as there were available nodes plus two.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "every partition into jobs (more jobs than rows included), every interleaving, every point at which a worker stalls or is abandoned, every sequence of re-partitionings",
  "No test calls the per-job pass at all; its return value, which drives termination of any parallel driver, is never looked at.",
  ["lib/constraint_graph.cpp", "include/constraint_graph.hpp"],
  [("row striping by job number", "lib/constraint_graph.cpp csp_solution_iteration"), ("per-pixel pruning", "lib/constraint_graph.cpp csp_process_pixel")],
  [AV], ["return value of csp_solution_iteration", "is_node_available"]),
P("C04", "While solving, availability only shrinks and never loses a consistent node",
  "At every instant of a solve, on any schedule, a node that has become unavailable is never observed available again, and no node of the largest consistent set is ever observed unavailable.",
  ["schedules", "inputs"],
  "every instant (after every single memory write) of every interleaving of every team size or set of job workers",
  "Tests look only at the end state of single-threaded solves; transient resurrection or over-removal is invisible to them.",
  ["lib/constraint_graph.cpp", "include/types.hpp"],
  [("removal without locks, by whole-element stores", "lib/constraint_graph.cpp make_node_unavailable"), ("array element type", "include/types.hpp BOOL_ARRAY")],
  [AV], ["is_node_available during the solve"]),
P("C05", "Concurrent updates of different nodes and pixels never disturb each other",
  "Threads that mark, unmark, query or choose the best node on disjoint sets of pixels of one graph at the same time each see only the effect of their own operations, and the final availability is the union of what every thread did alone. Choosing the best node of a pixel keeps exactly one of its available nodes, the cheapest and on ties the one of lower disparity, and reports failure exactly when the pixel has none.",
  ["schedules", "inputs", "histories"],
  "every assignment of pixels to threads, every history of operations per thread, every interleaving of their memory accesses",
  "All tests touch a graph from one thread; a lost update needs two threads writing neighbouring markers at the same moment.",
  ["include/types.hpp", "lib/constraint_graph.cpp", "lib/labeling_finder.cpp"],
  [("independently addressable markers", "include/types.hpp BOOL_ARRAY"), ("node indexing", "lib/indexing.cpp node_index"), ("best node choice", "lib/labeling_finder.cpp choose_best_node")],
  [AV], ["is_node_available", "choose_best_node"]),
P("C06", "The minimal consistent threshold is truly minimal, on any schedule",
  "The candidate thresholds of a problem are exactly its distinct node and edge deviations from the local minima, in ascending order. The minimal consistent threshold computed from them makes the problem solvable while every smaller threshold makes it unsolvable, whatever the number of solver threads and their interleaving.",
  ["schedules", "inputs", "configurations"],
  "every problem with exactly representable penalties, sequential build and OpenMP build with every team size and interleaving inside every probe of the search",
  "Three fixed problems, sequential, with the expected threshold compared within one percent; minimality is checked on none of them and a racy solver verdict would silently misdirect the search.",
  ["lib/labeling_finder.cpp", "lib/lowest_penalties.cpp", "lib/constraint_graph.cpp"],
  [("binary search over candidates", "lib/labeling_finder.cpp calculate_minimal_consistent_threshold"), ("candidate collection", "lib/labeling_finder.cpp fetch_available_penalties"), ("local minima", "lib/lowest_penalties.cpp LowestPenalties")],
  [AV], ["calculate_minimal_consistent_threshold", "fetch_available_penalties"]),
P("C07", "A labeling is always found, admissible, and of minimal worst deviation",
  "Whenever a labeling is found it keeps exactly one existing node per pixel, every neighbouring pair of kept nodes is joined by an existing edge, and no kept node or edge deviates from its local minimum by more than the threshold. For every problem without reparametrization, solved at its minimal consistent threshold, the labeling is found, and no labeling of the pixels whatsoever has a smaller worst deviation.",
  ["schedules", "inputs", "configurations"],
  "every problem, sequential build and OpenMP build with every team size and interleaving inside every solve of the labeling",
  "Three fixed problems check only that a labeling came back; the labels are never compared to anything and the program's own message says failure 'should not ever happen'.",
  ["lib/labeling_finder.cpp", "lib/constraint_graph.cpp"],
  [("choose, re-solve, retry", "lib/labeling_finder.cpp find_labeling"), ("best node choice", "lib/labeling_finder.cpp choose_best_node")],
  [AV], ["find_labeling", "is_node_available"]),
P("C08", "The disparity map is a function of the input, not of threads or schedule",
  "The labeling settles pixels column by column from the top of each column, keeping for each the cheapest node (on ties the lower disparity) that can be kept without making the rest unsolvable. The disparity map has the size of the images and the number of disparity levels as its maximal value, and holds exactly the kept disparity of each pixel, hence is identical for every number of threads and every interleaving.",
  ["schedules", "inputs", "configurations"],
  "every problem, both builds, every team size and interleaving; several executions of one input under different schedules are compared with each other and with the reference",
  "No test builds a disparity map, and none runs the same input under two schedules.",
  ["lib/labeling_finder.cpp", "lib/constraint_graph.cpp"],
  [("greedy order", "lib/labeling_finder.cpp find_labeling"), ("map extraction", "lib/labeling_finder.cpp build_disparity_map")],
  [AV], ["find_labeling", "build_disparity_map"]),
P("C09", "Concurrent clients sharing one stereo problem are isolated",
  "Any number of threads may at once build penalties, constraint graphs, thresholds, labelings and maps from one shared stereo problem, each with its own constraint graph, and read or write images of their own. Each gets the result it would get alone, and the shared problem and penalties are not modified.",
  ["schedules", "histories", "inputs"],
  "every number of clients, every mix of operations, every interleaving of their memory accesses, with nested solver teams",
  "Every test is one thread with its own objects; hidden shared state (a static scratch buffer, a cache, a mutated input) cannot show.",
  ["lib/constraint_graph.cpp", "lib/labeling_finder.cpp", "lib/lowest_penalties.cpp", "lib/disparity_graph.cpp", "lib/pgm_io.cpp"],
  [("no global mutable state, inputs taken by pointer to const", "include/constraint_graph.hpp, include/lowest_penalties.hpp")],
  [AV], ["all public functions"]),
P("C10", "Running out of memory at any point is a clean, retryable failure",
  "When an allocation fails at any point of building, solving, labeling, or of reading or writing an image, the operation ends with the out-of-memory exception or a failed stream, never with a crash, a wrong result or a leak. Inputs are left unmodified and repeating the operation once memory is available gives the normal result.",
  ["fault_sequences", "inputs"],
  "every operation and every position of the failing allocation in it, single failures and exhaustion that lasts",
  "No test makes an allocation fail.",
  ["lib/disparity_graph.cpp", "lib/lowest_penalties.cpp", "lib/constraint_graph.cpp", "lib/labeling_finder.cpp", "lib/pgm_io.cpp"],
  [("standard containers and shared pointers own everything", "include/types.hpp"), ("image published only when complete", "lib/pgm_io.cpp operator>>")],
  [], ["exceptions and results of every public function", "allocator balance"]),
P("C11", "An image is read exactly, however the stream delivers its bytes",
  "Reading a well-formed plain PGM text (any whitespace between numbers, comments and blank lines between them) succeeds and yields exactly the width, height, maximal value and intensities it spells, however the bytes are split over deliveries. A reading stream that has not failed afterwards always means that the whole text was consumed and the held image is what that text spells.",
  ["inputs", "fault_sequences", "schedules"],
  "every layout of a well-formed text, every split of the text into deliveries, every position of a read error, premature end or damaged byte",
  "Ten fixed texts read from a complete in-memory buffer: no comment between intensities, no split delivery, no mid-stream error.",
  ["lib/pgm_io.cpp", "include/pgm_io.hpp"],
  [("token reader skipping comments", "lib/pgm_io.cpp PGM_IO::read_pgm_instruction"), ("trailing text check", "lib/pgm_io.cpp PGM_IO::check_file_end")],
  [], ["operator>>", "get_image", "stream state"]),
P("C12", "A failed image read fails the stream and leaves the held image alone",
  "When the text is not a plain PGM image (wrong magic, missing, non-numeric or overflowing numbers, impossible sizes, too large maximal value, too few or redundant intensities) or the stream ends early or errors before its end, reading leaves the stream failed, raises nothing but out-of-memory, touches no memory outside the image, and the previously held image stays as it was.",
  ["inputs", "fault_sequences"],
  "every malformation, truncation point, read error position and damaged byte; every previously held image",
  "Nine malformed texts, five of which fail already on the maximal value 65537 before reaching what their names say; none has a previously held image, an oversized number or a stream error.",
  ["lib/pgm_io.cpp"],
  [("fail bit on malformed input", "lib/pgm_io.cpp operator>>"), ("image set last", "lib/pgm_io.cpp operator>>")],
  [], ["operator>>", "get_image", "stream state", "exceptions"]),
P("C13", "A written image is complete and well-formed, or the stream says it is not",
  "Writing a valid image produces a plain PGM text with no line over 70 characters which any plain PGM reader, this one included, decodes to the same image; an absent or invalid image writes nothing. If the stream has not failed after writing and flushing then all of the text was accepted by the sink, and whenever the sink refuses bytes the stream is left failed and what it did accept is a prefix of that text.",
  ["inputs", "fault_sequences"],
  "every valid image with up to 16-bit values, every point at which the sink fills up, errors, accepts short writes or fails to flush",
  "Three images into an in-memory buffer that never fails.",
  ["lib/pgm_io.cpp", "include/pgm_io.hpp", "lib/image.cpp"],
  [("writer", "lib/pgm_io.cpp operator<<"), ("validity test", "lib/image.cpp image_valid")],
  [], ["operator<<", "stream state", "bytes accepted by the sink"]),
P("C14", "The program writes the right map despite benign I/O and any schedule",
  "Run on two readable valid images of a stereo pair, the command-line program ends with status 0, prints no error and leaves in the output file a complete plain PGM disparity map equal to that of the sequential reference for the given levels, smoothness and cleanness. Short reads, short writes, interrupted system calls, the number of solver threads and their interleaving do not change a byte of it.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "every valid pair, options, team size and interleaving, every pattern of short or interrupted reads and writes",
  "No test runs the program.",
  ["lib/main.cpp", "lib/pgm_io.cpp", "lib/labeling_finder.cpp"],
  [("pipeline", "lib/main.cpp main"), ("input", "lib/main.cpp read_image")],
  [], ["output file", "exit status", "standard error"]),
P("C15", "The program never loses its result silently",
  "Whenever the program ends without a complete disparity map in the output file - unreadable, malformed or mismatched inputs, refused options, a read or write error, a full disk, an output that cannot be opened or closed, or memory running out - it has printed a diagnostic to standard error, and it ends normally rather than crashing or hanging.",
  ["fault_sequences", "inputs", "crash_points"],
  "every I/O and allocation fault at every position, alone and in combination; every class of invalid input and option",
  "No test runs the program, let alone on a full disk.",
  ["lib/main.cpp", "lib/pgm_io.cpp"],
  [("exception handlers", "lib/main.cpp main"), ("check of the input stream", "lib/main.cpp read_image"), ("check of the output stream", "lib/main.cpp main")],
  [], ["output file", "standard error", "exit status"]),
P("C16", "The program never harms its inputs and opens its output only with a result",
  "No run, whether it ends, fails or is killed at any point, modifies, truncates or removes its input files or any file other than the named output. A previous output file stays byte for byte intact unless the disparity map has been fully computed, and from then on, until the system refuses a write, it only ever holds a prefix of the new map or all of it.",
  ["crash_points", "fault_sequences", "inputs"],
  "every point at which the process is killed (after any I/O operation), every fault, every input",
  "No test runs the program.",
  ["lib/main.cpp"],
  [("output opened last", "lib/main.cpp main"), ("inputs opened read-only", "lib/main.cpp read_image")],
  [], ["contents of every file after the run"]),
P("C17", "The OpenCL solver gives the CPU labeling for any work-item schedule",
  "Choosing OpenCL instead of the CPU yields the same labeling, for every split of the work-items into groups, every interleaving of work-items and groups, and every visibility of other groups' writes that the device memory model allows. Every work-item of a group reaches the same barriers, all kernel memory accesses stay inside the buffers, and the solution loop ends.",
  ["schedules", "inputs", "configurations"],
  "every problem whose penalties single precision represents exactly, on a working device whose compiler accepts the kernels; every work-group size dividing the range, every interleaving of work-items at memory accesses, stale or fresh visibility between groups within one launch",
  "The OpenCL path is only compiled: no test runs it, there is no device, and the kernel source is not even compiled by the build.",
  ["lib/gpu_csp.cpp", "lib/compile_cl.cpp", "lib/solve_csp.cl", "lib/labeling_finder.cpp", "lib/constraint_graph.cpp", "include/gpu_csp.hpp"],
  [("host loop", "lib/gpu_csp.cpp csp_solution_cl"), ("kernels", "lib/solve_csp.cl"), ("shared source", "lib/constraint_graph.cpp csp_process_pixel")],
  [("changed flags", "tell the host whether another launch is needed", "lib/gpu_csp.cpp csp_solution_cl, lib/solve_csp.cl")], ["find_labeling_cl", "device buffers"]),
P("C18", "A failing OpenCL device never leads to a wrong or half-made labeling",
  "If there is no OpenCL device, the kernel sources cannot be found, or any device operation fails - building the program, creating buffers or kernels, setting arguments, transferring data, launching or finishing - choosing OpenCL either still yields the CPU labeling, or ends with an exception after which the caller's constraint graph has the availability it had before and every device object made for the attempt is released. A later attempt on a working device gives the CPU labeling.",
  ["fault_sequences", "inputs"],
  "every device operation of the OpenCL path as the failing one, every error it may return, once or lastingly; a kernel dying on the device midway",
  "No test runs the OpenCL path.",
  ["lib/gpu_csp.cpp", "lib/compile_cl.cpp", "lib/labeling_finder.cpp"],
  [("results copied back only at the end", "lib/gpu_csp.cpp csp_solution_cl"), ("errors as exceptions", "lib/gpu_csp.cpp, boost::compute")],
  [], ["find_labeling_cl"]),
P("N01", "Index functions map distinct entities to distinct in-range positions",
  "Distinct nodes, neighbourhoods, reparametrization elements and pixels of one problem are stored at distinct positions inside their arrays, and a neighbour's index and position convert into each other.",
  ["inputs"], "every problem size, pixel, disparity and neighbour index",
  "The tests compare a few hand-computed indices.",
  ["lib/indexing.cpp", "lib/indexing_checks.cpp"],
  [("row/column-major formulas", "lib/indexing.cpp")]),
P("N02", "A stereo problem cannot be built from invalid images or parameters",
  "Building a stereo problem from an invalid image, images of different size or maximal value, fewer than two or more levels than columns, a negative weight or two zero weights is refused with an invalid-argument error, and accepted otherwise.",
  ["inputs"], "every pair of images and parameters", "The tests try few of the combinations.",
  ["lib/disparity_graph.cpp", "lib/image.cpp"], [("constructor validation", "lib/disparity_graph.cpp DisparityGraph")]),
P("N03", "Reparametrization never changes the total penalty of a labeling",
  "For every labeling the sum of all node penalties and of all edge penalties counted once is the same for every reparametrization.",
  ["inputs"], "every problem, labeling and reparametrization", "The tests check single penalties.",
  ["lib/disparity_graph.cpp"], [("penalties", "lib/disparity_graph.cpp node_penalty, edge_penalty")]),
P("N04", "Command-line options are understood as documented",
  "Every documented option sets the parameter it names to the value given, fractional weights included, and help is printed on request or without options.",
  ["inputs"], "every command line", "No test runs the program.",
  ["lib/main.cpp"], [("option parsing", "lib/main.cpp main")]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props))
