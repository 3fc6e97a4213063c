"""The properties: single source of properties.jsonl and MANIFEST.json (see tools/gen.py)."""


def P(id, title, statement, over, text, why, files, mech, technique, level_note, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a, technique=technique,
                level_note=level_note)


T = "deterministic simulation with fault injection: "
BASE = "Seeded search: a clean batch is evidence, not proof. "
MPI = "MPI is a model (communicator, collectives, the emergency monitor) over a simulated network with arbitrary delays; collectives that do not match across ranks and deadlocks are violations. "
U = "c++/triqs/utility/"
MC = "c++/triqs/mc_tools/"

PROPS = []

PROPS.append(P("S01", "Signals are never lost, invented, or left captured",
    "Between starting and stopping the signal facility, every termination signal delivered to the process is reported as received until it is popped, in last-in first-out order, and nothing is reported that was not delivered. "
    "Outside of that window signals go to whoever handled them before. A signal may arrive at any instruction of the facility's own functions, or inside its handler, without corrupting the process.",
    ["schedules", "histories"],
    "all histories of start/stop/received/pop/last calls interleaved with deliveries of the handled signals at any machine instruction, including nested deliveries",
    "No test sends a signal; a test could only ever sample deliveries between statements, while the failures need a delivery at one instruction of a call.",
    [U + "signal_handler.cpp", U + "signal_handler.hpp"],
    [("pending signals kept in a fixed array indexed by an atomic counter", U + "signal_handler.cpp: slot/pop"), ("previous handlers saved and restored", U + "signal_handler.cpp: start/stop")],
    T + "signals delivered at seeded machine instructions (single-stepped), history checked against a stack model",
    BASE + "The calls are single-stepped with the CPU trap flag, so a delivery can be placed at every instruction; kernel delivery (dispositions, masks, pending set) is a model. At most ~6 signals per run. "
    "The order of two signals of which one arrives while the other's handler runs is left open.",
    state=[("pending signals", "the signals delivered and not yet popped", U + "signal_handler.cpp")], observe=["received", "last", "pop", "the process's signal dispositions"]))

PROPS.append(P("M01", "Every Monte Carlo cycle is complete and measured exactly once",
    "A run of N cycles of length L makes exactly N times L proposals unless it is stopped, each of which is accepted or rejected exactly once, by the move that made it. "
    "After each complete accumulation cycle, and only then, the after-cycle duty, every auxiliary measure and every registered measure are called exactly once; nothing is measured in the warmup, in a cycle cut short, or for a removed measure. "
    "The reported cycle number, configuration number and percentage agree with what was done.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "all sequences of warmup/accumulate/warmup-and-accumulate runs, all cycle numbers and lengths, any move and measure sets, with signals, stop requests and exceptions at any point, on any number of ranks",
    "The mc tests run one fixed simulation without any interruption and look at averages; dropped or doubled measurements around an interruption shift no average enough to be seen.",
    [MC + "mc_generic.hpp", MC + "mc_move_set.hpp", MC + "mc_measure_set.hpp", MC + "mc_measure_aux_set.hpp"],
    [("main loop", MC + "mc_generic.hpp: run"), ("a signal ends the cycle before it is measured", MC + "mc_generic.hpp: run, catch of the signal exception")],
    T + "instrumented moves/measures against a model of the cycle, under seeded signals, exceptions, clock faults and schedules",
    BASE + "Up to 4 ranks, up to 14 cycles of up to 8 proposals per phase (one long run of 160000 proposals in the sampling check). " + MPI,
    observe=["calls of the user's moves, measures, duties, callbacks", "get_current_cycle_number, get_config_id, get_percent"]))

PROPS.append(P("M02", "A Monte Carlo run stops promptly and reports truthfully why",
    "A run returns 0 exactly when all requested cycles were completed, 1 only if the stop callback asked to stop, and 2 only if a signal was received. "
    "After the callback asked to stop, or a signal was received, no further proposal is made; without either, a run does not end early. "
    "The accumulation of a combined warmup and accumulation is started on all ranks or on none, and a signal handled by one run does not disturb a later one.",
    ["schedules", "fault_sequences", "histories"],
    "all arrival points of signals and of stop requests, on any subset of ranks, in any phase, for finite and infinite runs",
    "Tests never interrupt a run; the wrong status only appears when a signal falls into particular windows (the last cycle, between two runs, together with the callback).",
    [MC + "mc_generic.hpp", U + "signal_handler.cpp", U + "callbacks.cpp"],
    [("status computed after the loop", MC + "mc_generic.hpp: run"), ("polling of signals before each proposal and after each cycle", MC + "mc_generic.hpp: run")],
    T + "signals and stop requests at seeded points of runs on up to 4 ranks; status judged against what was delivered",
    BASE + "Signals are delivered at the simulator's points (clock reads, moves, measures, MPI and I/O calls). A signal arriving in the last complete cycle of a warmup which is followed by an accumulation is not required to stop it (it is treated as belonging to the finished phase). " + MPI,
    observe=["return value of warmup/accumulate/warmup_and_accumulate"]))

PROPS.append(P("M03", "An exception on one rank ends the run on all ranks, without deadlock",
    "If user code throws on any rank during a run, then the run ends on every rank: with an exception on all of them when exceptions are to be rethrown, by aborting the MPI job otherwise. "
    "No rank waits forever, no rank reports success, the throwing rank makes no further proposal, and without such an error neither happens.",
    ["schedules", "fault_sequences", "configurations"],
    "all assignments of a throwing call (attempt, accept, reject, measure, duty, auxiliary measure, or a non-finite weight) to ranks and instants, all message delays, with or without MPI environment, simultaneous errors, signals and stop requests",
    "Needs several ranks and an exception in a particular order relative to messages and to the end of the run on other ranks; the tests have one rank and no exception.",
    [MC + "mc_generic.hpp", MC + "mc_move_set.hpp"],
    [("emergency monitor polled after each cycle and finalised at the end", MC + "mc_generic.hpp: run"), ("status agreed between the phases", MC + "mc_generic.hpp: warmup_and_accumulate")],
    T + "exceptions injected in seeded user calls of seeded ranks under seeded message delays; deadlock and mismatch detection",
    BASE + MPI, observe=["exceptions leaving the run", "MPI abort", "termination"]))

PROPS.append(P("M04", "Collected results and acceptance rates account for every rank",
    "After collecting, each measure was collected exactly once on every rank over the same communicator, the acceptance rate of every move and move set equals the accepted over the proposed moves summed over all ranks since the last run started, and the reported numbers of measures are those actually made on the rank and in total. "
    "This holds whichever ranks were stopped early or made no move at all.",
    ["schedules", "histories", "configurations"],
    "all distributions of work over ranks (ranks stopped at different cycles), all histories of runs and collections, nested move sets",
    "Tests run on one rank, where a local number and a reduced one are the same.",
    [MC + "mc_generic.hpp", MC + "mc_move_set.hpp", MC + "mc_measure_set.hpp"],
    [("collect_results", MC + "mc_generic.hpp"), ("collect_statistics", MC + "mc_move_set.hpp"), ("collect_results of the measures", MC + "mc_measure_set.hpp")],
    T + "runs stopped at seeded, different points on up to 4 ranks, collected results compared with per-rank ledgers",
    BASE + MPI, observe=["get_acceptance_rates", "the report", "collect_results of the user's measures"]))

PROPS.append(P("M05", "Moves are chosen, accepted and signed according to the Metropolis rule",
    "Each proposal is made by a move chosen with probability proportional to its weight (never one of weight zero), also through nested sets and after the set was moved or copied into place. "
    "It is accepted exactly if a fresh uniform random number is below the modulus of the returned ratio, whatever its sign, phase or size, and a non-finite complex or NaN ratio is refused with an error. "
    "The sign handed to the measures is the product of the initial sign and of all signs of the accepted moves, across interruptions and successive runs.",
    ["histories", "inputs", "fault_sequences"],
    "all sequences of ratios (zero, tiny, huge, infinite, NaN, complex), all weights and nestings, any generator, interrupted and resumed runs",
    "Tests compare averages of one chain with wide tolerance: a biased choice of moves, an off-by-one at the ends, or a sign lost when a run is interrupted passes.",
    [MC + "mc_move_set.hpp", MC + "mc_generic.hpp", MC + "random_generator.cpp"],
    [("attempt: cumulated probabilities", MC + "mc_move_set.hpp"), ("accept/reject and sign", MC + "mc_generic.hpp: run")],
    T + "every decision of seeded, interrupted runs compared with the rule using the very random number drawn; frequencies of long runs at 6 sigma",
    BASE + "The choice frequencies are tested in about 4% of the runs (20000 to 160000 proposals each); seeds are fixed, so the statistical test cannot flicker.",
    observe=["calls of the user's moves", "the sign given to measures"]))

PROPS.append(P("M06", "Time limits and reported durations are true whatever the clock does",
    "A time limit of T seconds says stop at every poll made after T seconds have elapsed and at no poll before, counted from when it was set; no limit never stops. "
    "The reported warmup, accumulation and measurement durations are the time actually spent, stop growing when the run ends, and are formatted consistently. "
    "Steps of the wall clock, forward or backward, and stalls of the process change none of this.",
    ["schedules", "fault_sequences", "histories"],
    "all clock histories (wall clock jumps in both directions, stalls, skew between ranks), durations from microseconds to months, any polling pattern",
    "Tests run for milliseconds of real time with a well-behaved clock.",
    [U + "callbacks.cpp", U + "timer.hpp", MC + "mc_generic.hpp", MC + "mc_measure_set.hpp"],
    [("clock_callback", U + "callbacks.cpp"), ("timer on the monotonic clock", U + "timer.hpp"), ("timers around phases and measures", MC + "mc_generic.hpp, " + MC + "mc_measure_set.hpp")],
    T + "simulated clocks with seeded jumps, stalls and skew; limits and durations compared with simulated time",
    BASE + "All clocks (realtime, monotonic) are the simulator's. Up to 20000 s jumps; runs of up to some hours of simulated time.",
    observe=["the stop callback", "get_warmup_time, get_accumulation_time, their formatted forms", "timings in the report"]))

PROPS.append(P("M07", "A Monte Carlo checkpoint restores the simulation it was written from",
    "A simulation written to a file and read back into an identically configured one has the same cycle number, number of measurements, sign, and the state of every move and measure; writing the restored one gives the same file. "
    "If the process crashes or an I/O error occurs while the checkpoint is written, the error is reported and the previous checkpoint still restores. "
    "A restarted simulation continues correctly.",
    ["crash_points", "fault_sequences", "histories"],
    "all crash points and I/O errors during write and read, all states a simulation can be in (including before the first run, with large cycle numbers, after interruptions)",
    "Tests write at most once, in one state, without failures.",
    [MC + "mc_generic.hpp", MC + "mc_move_set.hpp", MC + "mc_measure_set.hpp"],
    [("h5_write/h5_read", MC + "mc_generic.hpp, mc_move_set.hpp, mc_measure_set.hpp, mc_generic h5 interface")],
    T + "checkpoints with crashes and I/O errors at seeded calls, restarted incarnations compared with the saved model",
    BASE + "HDF5 is an in-memory store; a crash keeps only renamed files. The random generator is not part of the checkpoint (it is not in the code). One rank.",
    state=[("checkpoint", "cycle number, measures done, sign, user state of moves and measures", MC + "mc_generic.hpp")], observe=["the written file", "get_current_cycle_number", "user h5_read calls"]))

PROPS.append(P("R01", "A random generator is a function of its name and seed, whatever else happens",
    "The numbers drawn from a generator depend only on its name, its seed and how many were drawn: not on other generators, nor on when its buffer is refilled, nor on previews, moves or copies, and a copy continues where its origin stood. "
    "Previews return what the next draw will return. Real draws lie in [0,1), integer draws in their range, and an unknown name is refused. "
    "The buffer behind it returns every element its function produced once and in order, also when the function throws during a refill, and an empty one refuses to be read.",
    ["histories", "fault_sequences", "inputs"],
    "all interleavings of draws, previews, moves, copies and destructions of several generators, at all positions relative to the buffer ends, exceptions in any call of the buffered function",
    "Tests draw a few hundred numbers from one generator at a time; buffers of 1000 never end at an awkward moment and nothing throws.",
    [MC + "random_generator.hpp", MC + "random_generator.cpp", U + "buffered_function.hpp", MC + "MersenneRNG.hpp"],
    [("buffered draws", U + "buffered_function.hpp"), ("generator by name and seed", MC + "random_generator.cpp")],
    T + "seeded interleavings of several generators with failing refills, against freshly created reference streams",
    BASE + "The reference stream is an independent implementation (boost engines, a second Mersenne twister) drawn one number at a time; the statistical quality of the numbers is not judged.",
    observe=["operator(), preview of random_generator and buffered_function"]))

ST = "c++/triqs/stat/"
PROPS.append(P("A01", "Accumulator bins and errors are those of the data put in",
    "After any sequence of measurements, compressions and copies, linear bin i holds the mean of the i-th run of consecutive measurements, all bins but the last holding exactly the current capacity and every measurement being in one bin; the number of bins never exceeds its maximum. "
    "The standard error of level n is that of the complete bins of 2^n measurements, one level existing for each power of two reached, up to the maximum. Any amount of data is counted correctly.",
    ["histories", "inputs"],
    "all sequences of measurements (real, complex, arrays), manual and automatic compressions, copies and moves, for all maximum numbers of bins and capacities, up to very long histories",
    "Tests feed a few fixed sequences; the interplay of incomplete bins, compression and maxima only shows at particular counts, some of them beyond any test's patience (2^31).",
    [ST + "accumulator.hpp", ST + "mean_error.hpp"],
    [("linear bins and their compression", ST + "accumulator.hpp: lin_binning"), ("logarithmic bins, updated level by level", ST + "accumulator.hpp: log_binning")],
    T + "seeded histories of an accumulator, checked after every step against the list of all data (extended precision)",
    BASE + "Up to a few hundred real measurements; counts near 2^5..2^45 are reached by starting from a stored state of that age. Arrays are a bounds-checked stand-in for nda.",
    observe=["linear_bins, log_bin_errors, n_*_bins, lin_bin_capacity, data_input_count"]))

PROPS.append(P("A02", "Statistics over all ranks equal the statistics of all data together",
    "The reduced standard errors of accumulators, the means with errors and the jackknife estimates over a communicator equal those of the concatenated data of all ranks, for any distribution of the data, also when ranks have different numbers of levels or no complete bin; every rank which is promised the result gets the same, and nobody waits forever.",
    ["schedules", "configurations", "inputs"],
    "all distributions of data over up to four ranks, all maxima of levels, all message delays, real, complex and array data",
    "The MPI tests run on one distribution (equal on all ranks), usually on one rank.",
    [ST + "accumulator.hpp", ST + "mean_error.hpp", ST + "jackknife.hpp"],
    [("pooling of (mean, variance) per level over split communicators", ST + "accumulator.hpp: log_bin_errors_all_reduce"), ("reduction of the jackknife", ST + "jackknife.hpp: jackknife_impl")],
    T + "ranks with seeded amounts of data over a simulated network; results against the concatenated data",
    BASE + MPI + "jackknife_mpi is only judged on node 0, where its documentation promises the result.",
    observe=["log_bin_errors_all_reduce, mean_mpi, mean_and_err_mpi, jackknife_mpi"]))

PROPS.append(P("A03", "A histogram counts every sample exactly once",
    "Each sample inside the range, its ends included, adds one to exactly one bin, the one whose centre is nearest; every other value, NaN and infinities included, is counted as lost and changes no bin. "
    "Sums, reductions and broadcasts over ranks, copies, clearing, and the derived distributions conserve these counts.",
    ["inputs", "histories", "schedules"],
    "all sequences of samples and operations on histograms of all ranges and bin numbers, on up to four ranks with all message delays",
    "Tests sample a few smooth distributions on one rank and compare rounded bins.",
    [ST + "histograms.hpp", ST + "histograms.cpp"],
    [("binning", ST + "histograms.cpp: operator<<"), ("reduce and broadcast", ST + "histograms.hpp: mpi_reduce, mpi_broadcast")],
    T + "seeded samples and operations on several ranks, counts audited after every sample",
    BASE + MPI + "At an edge of a bin (relative 1e-9) either neighbour is accepted.",
    observe=["data, n_data_pts, n_lost_pts, mesh_point, limits, pdf, cdf"]))

PROPS.append(P("A04", "Accumulators and histograms survive a restart",
    "An accumulator or histogram read back from a completely written file is the one that was written: its bins, errors, counts and limits are the same, and data added afterwards has exactly the effect it would have had without the interruption, also when it is read into a default constructed object. "
    "A crash or an I/O error while writing loses nothing that was stored before.",
    ["crash_points", "fault_sequences", "histories"],
    "all crash points and I/O errors during writing and reading, at any point of any history of data",
    "The tests write an object and read it back once, without continuing to use it and without faults.",
    [ST + "accumulator.hpp", ST + "histograms.cpp"],
    [("stored form of the bins", ST + "accumulator.hpp: h5_write, h5_read"), ("stored form of a histogram", ST + "histograms.cpp: h5_write, h5_read")],
    T + "seeded crashes and I/O errors at calls of the store; the restarted object is compared with the uninterrupted history",
    BASE + "The store is an in-memory stand-in for HDF5: whole-file replacement by rename, faults between its calls.",
    observe=["the same as for A01 and A03, after a restart"]))

DM = "c++/triqs/det_manip/det_manip.hpp"

PROPS.append(P("D01", "The matrix, inverse and determinant are always those of the current lists",
    "Whatever sequence of insertions and removals of one, two or several rows and columns, changes of rows, columns or both, refills, swaps, rolls, clears and recomputations a determinant object went through, tried and completed or rejected, "
    "its size, its lists of x and y, its matrix, inverse matrix and determinant are those of the function on the lists the user has asked for, within the accumulated rounding errors. "
    "The ratio returned when an operation is tried is the ratio of the two determinants, trying or rejecting changes nothing that can be observed, and reserved or grown working space changes no result.",
    ["histories", "configurations"],
    "all histories of operations, of any interleaving of tries, completions, rejections and shortcuts, on real and complex matrices of any size, including empty and nearly singular ones, with any numbers of operations between precision checks",
    "The tests follow a few fixed random walks of single operations and compare loosely; the state (permutations of rows and columns, working space, counters of operations, pending operation) makes failures depend on the whole history.",
    [DM],
    [("rows and columns are kept permuted", DM + ": row_num, col_num"), ("try and complete are separate calls sharing working data", DM + ": w1, w2, wk, w_refill, last_try"), ("inverse updated instead of recomputed, except every n operations", DM + ": complete_operation, check_mat_inv")],
    T + "seeded histories of operations against a model that rebuilds matrix, determinant and inverse from the lists in extended precision after every operation",
    BASE + "Matrices of up to about a dozen rows. Single-threaded state: the simulator decides the history and the working space (poisoned stand-in arrays), there is no second party; faults are in the companion property. nda is a bounds-checked stand-in.",
    state=[("lists and matrix", "the x and y lists in the user's order and the matrix made of them", DM)],
    observe=["ratios returned by the try functions", "size, get_x, get_y, get_x_internal_order, matrix, inverse_matrix, determinant"]))

PROPS.append(P("D02", "Failures, refusals, copies and restarts leave a determinant consistent",
    "If the user's function throws, or a request is refused (an index out of bounds, the wrong number of arguments, an operation already pending), the determinant object is as before the call and can be used on. "
    "Copies, moved and swapped objects, also with a pending operation, go on exactly as the original would have. "
    "An object read back from a completely written file is the one that was written, has no operation pending, and a crash or I/O error while writing loses nothing stored before.",
    ["crash_points", "fault_sequences", "histories"],
    "all points at which the user's function may throw or the store fail or the process crash, in any history of operations, copies, moves and swaps",
    "No test lets the function throw, makes a refused request, moves an object with a pending operation, or continues to use one that was read back.",
    [DM],
    [("try functions fill the working data before they are sure to succeed", DM + ": try_insert, try_remove, try_change_*"), ("stored form", DM + ": h5_write, h5_read"), ("special members", DM + ": copy, move, swap")],
    T + "exceptions at seeded calls of the user's function, refused requests, crashes and I/O errors at seeded calls of the store; everything observable is compared with the model afterwards",
    BASE + "After complete_operation itself threw, the pending operation must be rejected before the next is tried. The store is an in-memory stand-in for HDF5: whole-file replacement by rename, faults between its calls.",
    observe=["the same as for D01, after the failure, copy or restart"]))

GF = "c++/triqs/gfs/gf/"
BGF = "c++/triqs/gfs/block/"
GBASE = BASE + "Eighteen types of Green's function are driven: single, block and two-index block, on meshes of each kind and on products of them, with scalar, matrix (complex and real) and tensor targets. nda, itertools, cppdlr (nodes only) and the least squares routine are stand-ins. Fourier transforms and DLR conversions are not run. "

PROPS.append(P("G01", "Broadcast and reduced Green's functions are the root's and the sum over ranks",
    "On any communicator, a broadcast of a Green's function (single, block, or two-index block), or of a view of it, gives every rank the data of the root. reduce gives the root, and all_reduce every rank, the mesh and, point by point and element by element, the sum over the ranks, "
    "whether assigned to a new object, an existing one, a view, or the operand itself, at once or from a stored lazy object. The operands, and everything on ranks outside the communicator, are unchanged. Every rank comes back.",
    ["schedules", "configurations", "histories"],
    "all numbers and groups of ranks, roots, types, shapes, histories of the objects and message timings",
    "The tests of these operations need MPI, run on one or two ranks with one schedule, with fresh objects of a few types.",
    [GF + "gf.hpp", GF + "gf_view.hpp", BGF + "block_gf.hpp", BGF + "block_gf_view.hpp", BGF + "mpi.hpp"],
    [("lazy reductions and their assignment", GF + "gf.hpp, gf_view.hpp: operator=(mpi::lazy)"), ("broadcast", GF + "gf.hpp: mpi_broadcast"), ("blocks", BGF + "block_gf.hpp, block_gf_view.hpp, mpi.hpp")],
    T + "seeded schedules and message delays over simulated ranks, with histories of other operations between; every object of every rank is compared with the model after every operation",
    GBASE + "All ranks enter a collective with equal meshes and shapes, as the documentation asks.",
    state=[("objects", "mesh, data, shape and block names of every object of every rank", GF + "gf.hpp")],
    observe=["mesh, data, data_shape, target_shape, block_names, size of every object of every rank"]))

PROPS.append(P("G02", "A Green's function read back is the one that was written",
    "Reading a completely written Green's function (single, block, two-index block, any mesh) gives the mesh, data and block names that were written, whatever the object held before, and the same follows from the serialisation. Files of the older layouts still readable give the same. "
    "Reading something of another type, or that is not there, is an error. A crash or I/O error while writing loses nothing stored before, and a restarted process continues with exactly the last complete state.",
    ["crash_points", "fault_sequences", "histories"],
    "all types, contents and histories of the objects, points at which the store fails or the process crashes",
    "The tests write fresh objects of a few types and read them into fresh objects; there is no crash, failing store, or object in use.",
    [GF + "gf.hpp", BGF + "block_gf.hpp", "c++/triqs/mesh/*.hpp", "c++/triqs/lattice/*.cpp"],
    [("stored form", GF + "gf.hpp: h5_write, h5_read; h5.hpp"), ("meshes", "c++/triqs/mesh/*.hpp: h5_write, h5_read"), ("lattices", "c++/triqs/lattice/bravais_lattice.cpp, brillouin_zone.cpp")],
    T + "crashes and I/O errors at seeded calls of the store, restarts that read what survived; everything observable is compared with the model",
    GBASE + "Only what the format carries is compared: positive-only Matsubara meshes come back unfolded, tail fit parameters are not stored. After a failed read the object read into must not be used. The store is an in-memory stand-in for HDF5: whole-file replacement by rename, faults between its calls.",
    state=[("files", "the last completely written set of objects", GF + "gf.hpp")],
    observe=["mesh, data, block names of the objects after reading", "exceptions of refused reads"]))

PROPS.append(P("G03", "Any history of operations on Green's functions gives what algebra says",
    "After any sequence of constructions, copies, moves, swaps, assignments, arithmetic, comparisons, maps, slices, transposes and writes through views, every Green's function has the mesh, shape, block names and data that the same operations give element by element. "
    "No object changes that was not written to: copies are independent, views write to their object only. Operands with different meshes, shapes or blocks are refused, and a refused assignment leaves the target unchanged. Meshes are equal if and only if they are the same. "
    "If an allocation fails, no object but the target of that operation is affected.",
    ["histories", "fault_sequences"],
    "all histories of operations on any number of objects of any type, and all allocations that may fail",
    "The tests run fixed short sequences on fresh objects; none lets an allocation fail or compares objects that should not have changed.",
    [GF + "*.hpp", BGF + "*.hpp", "c++/triqs/mesh/*.hpp"],
    [("special members and assignments", GF + "gf.hpp, gf_view.hpp; " + BGF + "block_gf.hpp, block_gf_view.hpp"), ("expressions", GF + "gf_expr.hpp, " + BGF + "expr.hpp"), ("slices of products and targets", GF + "gf.hpp: slice_target; c++/triqs/gfs/functions"), ("equality of meshes", "c++/triqs/mesh/*.hpp: operator==")],
    T + "seeded histories of operations with failing allocations at seeded places; after every operation all objects are compared with an elementwise model",
    GBASE + "There is one process and no concurrency in this property: what the simulator decides are the history and the failing allocations. Block-wise expressions refused at a later block may have assigned the earlier ones.",
    state=[("objects", "mesh, data, shape and block names of three objects and of the views of them", GF + "gf.hpp")],
    observe=["everything the objects show: mesh points, values, indices, hash, data, shapes, names, comparisons"]))

PROPS.append(P("G04", "Evaluating or transforming a Green's function depends only on what it holds",
    "Whatever happened before to an object, its mesh or other objects, evaluating it gives the value at a mesh point or at the closest one; between points the interpolation of the mesh; outside of a unit cell the periodic value; at Matsubara frequencies outside of the mesh the sum over the fitted tail (and the conjugate for positive-only meshes, zero in products); "
    "for Legendre and DLR coefficients their sum. Real and imaginary parts, conjugates, inverses, products with matrices, hermitian and real-in-tau symmetrisation and its test, the positive part and its completion are those of the values at each point. Neither changes the operand, and views of parts write to their object only.",
    ["histories"],
    "all histories of operations on any number of objects of any type, and all points to evaluate at",
    "The tests evaluate fresh objects at a few points inside the mesh; caches shared between objects (tail fits, mesh points, views) are not exercised by them.",
    ["c++/triqs/gfs/evaluator.hpp", "c++/triqs/gfs/functions/*.hpp", "c++/triqs/mesh/*.hpp", "c++/triqs/lattice/bravais_lattice.hpp"],
    [("evaluation", "c++/triqs/gfs/evaluator.hpp, c++/triqs/mesh/evaluate.hpp and evaluate() of every mesh"), ("tails", "c++/triqs/mesh/tail_fitter.hpp, c++/triqs/gfs/functions/functions2.hpp: fit_tail"), ("functions", "c++/triqs/gfs/functions/functions2.hpp, imfreq.hpp")],
    T + "seeded histories of other operations between seeded evaluations and transformations; every value is compared with a sum over mesh points computed from the model",
    GBASE + "There is one process and no concurrency in this property: what the simulator decides are the histories and the points. Whether a fitted tail is accurate is not judged, only that it is the one of the data.",
    state=[("objects", "mesh, data, tail fit parameters of three objects", GF + "gf.hpp")],
    observe=["results of evaluations and functions", "everything the objects show afterwards"]))

PROPS.append(P("G05", "Transforms, densities and continuations describe the same function",
    "Whatever happened before, a Green's function transformed between imaginary times and Matsubara frequencies, real times and frequencies, Legendre coefficients, lattice sites and momenta is the same function in the other representation: lattice and real-time transforms are the discrete sums of their data, their inverses undo them, "
    "and known functions (sums of poles) come out to the accuracy that meshes and given or fitted high-frequency moments allow. The same holds for objects, real or complex, views, parts of larger objects, any target, blocks, one or several variables of a product, and for every spelling (make_gf_from_fourier, assignment of fourier, with a mesh, a number of points or neither). "
    "Densities from frequencies, spectral functions and coefficients are those of the function; a Pade approximant reproduces rational functions; an enforced discontinuity is there afterwards with the smallest change of the coefficients; rebinning averages. "
    "Requests without an answer (more frequencies than half of the times, a zeroth moment, positive frequencies only, meshes that do not fit, too many points) are refused and leave the target as it was. Operands never change, nor does the precision of GMP, and if an allocation fails nothing but the target is affected.",
    ["histories", "fault_sequences"],
    "all functions, meshes and histories of transforms, and all allocations that may fail",
    "The tests transform a few fixed functions on fixed large meshes, mostly of one type; small, odd and mismatched meshes, several variables, refused requests and failures in between are not exercised.",
    ["c++/triqs/gfs/transform/*", "c++/triqs/gfs/functions/density.cpp", "c++/triqs/gfs/functions/legendre.cpp", "c++/triqs/gfs/functions/imtime.cpp", "c++/triqs/mesh/adjoint.hpp", "c++/triqs/utility/legendre.*", "c++/triqs/utility/pade_approximants.hpp"],
    [("Fourier transforms", "c++/triqs/gfs/transform/fourier.hpp, fourier_matsubara.cpp, fourier_real.cpp, fourier_lattice.cpp, c++/triqs/gfs/gf/flatten.hpp"), ("Legendre coefficients", "c++/triqs/gfs/transform/legendre_matsubara.hpp, c++/triqs/utility/legendre.cpp"), ("densities", "c++/triqs/gfs/functions/density.cpp"), ("continuation", "c++/triqs/gfs/transform/pade.cpp, c++/triqs/utility/pade_approximants.hpp")],
    T + "seeded histories of transforms of random functions, a part of them refused, with failing allocations (of arrays, and any other) at seeded places; results are compared with exactly known functions, sums written out, and what the objects were",
    GBASE + "There is one process and no concurrency in this property: what the simulator decides are the histories, functions, meshes and failing allocations. How far a transform with tails may be from the exact result is an estimate (aliasing of what the moments leave), with a margin; a loss of accuracy below it is not seen.",
    state=[("functions", "two functions of each representation, exactly known ones and results of earlier transforms", GF + "gf.hpp")],
    observe=["mesh, shape, names and data of results and operands", "densities", "refusals", "default precision of GMP"]))

MPIPY = "python/triqs/utility/mpi_mpi4py.py"
DIST = "python/triqs/utility/dist_on_nodes.py"
PYBASE = "Only the histories, schedules and faults of the seeds run are covered. Every simulated rank has its own copies of the real modules; mpi4py, os, sys and time are the simulator's. "

PROPS.append(P("Y01", "The Python MPI layer gives every rank the same answers",
    "On any number of ranks, a broadcast gives every rank the value of the root, a reduction gives every rank the sum (or the requested operation) over all ranks, whatever the type of the value, zero, empty and None included. "
    "No rank leaves a barrier before every rank has come to it, and every rank leaves it. A message is received once, unchanged, by the rank it was sent to, from the rank it is asked from. "
    "The slices of an array over the ranks are views that together are the array, in order, without overlap, with lengths that differ by one at most. Reports and host names appear once, on the master. "
    "A program run serially, without MPI, behaves as on one rank.",
    ["schedules", "configurations", "histories"],
    "all numbers of ranks, orders of calls, values, delays and relative speeds of the ranks, for sends that wait for the receiver and sends that do not",
    "The tests of this module run on one or two ranks, with one schedule, and need an MPI library; delays, rendezvous sends, slow ranks and array sizes around the number of ranks are not tried.",
    [MPIPY, "python/triqs/utility/mpi_nompi.py", "python/triqs/utility/mpi.py"],
    [("which module is used", "python/triqs/utility/mpi.py: check_for_mpi"), ("collectives, polling barrier, slices", MPIPY), ("the serial stand-in", "python/triqs/utility/mpi_nompi.py")],
    T + "seeded schedules, message delays and stalls over simulated ranks, each result compared with the values of all ranks",
    PYBASE + "The reduction associates the operands in a random way in rank order.",
    observe=["values returned on each rank", "messages left unreceived", "what is written to the output of each rank"]))

PROPS.append(P("Y02", "A calculation distributed on the nodes delivers every point exactly once",
    "When a list of points, or a calculation that finds new points from results, is distributed over any number of ranks, every point is computed exactly once, and every result which is not None is delivered exactly once, unchanged, with the rank that computed it. "
    "The master computes its own points in a child process and keeps serving the other ranks. All ranks return from run(), no child and no unreceived message is left, the list of points of the user is unchanged, and a calculation can be run again. "
    "If the child of the master dies, cannot write its result, or the user's function throws in it, run() reports it: no point is lost silently, and the child never returns into the user's program.",
    ["schedules", "fault_sequences", "crash_points", "configurations"],
    "all numbers of ranks and points (also none, and fewer points than ranks), types of points and results, durations of each point on each rank, message delays, and deaths, I/O errors or exceptions of the child at any point",
    "The only test runs a handful of equal points once; which rank finishes when, empty work, None results and failing children depend on schedules and faults that a test cannot arrange.",
    [DIST],
    [("the master asks, serves and stops the nodes", DIST + ": DistributionOnNodes.run"), ("the child of the master and its result file", DIST + ": fork, waitpid, res_master"), ("stack of points", DIST + ": DistributionOnNodesOneStack")],
    T + "seeded durations, message delays, kills of the forked child at seeded points of its life, I/O errors and exceptions; ledgers of points computed and delivered",
    PYBASE + "The child is a real fork whose file operations, sleeps and exit are replayed in simulated time. One job per working directory (the result file has a fixed name).",
    observe=["the sequence of points computed by each rank", "the results delivered", "children and messages left at the end"]))

REDIR = "python/triqs/utility/redirect.py"
PROPS.append(P("Y03", "Redirected and captured output arrives once, completely and in order",
    "From the return of start_redirect() to the call of stop_redirect(), everything C++ code writes to its standard output, of any length and content, appears on sys.stdout, once, in order, within some seconds, and what was written before is there when stop_redirect() returns. "
    "Afterwards, and after a start that failed, the standard output is the original one, no file descriptor is left open, and the redirection can be started again, any number of times. "
    "A program may end while redirected: it ends, and what was written is shown. A captured block's print output is exactly what capture_stdout holds, and sys.stdout is restored when the block is left, also by an exception and also when nested.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of the user's thread, the redirection's thread and C++ threads, all sequences of starts and stops, all outputs, with short reads, exhausted descriptors or threads, and a failing screen",
    "No test covers the redirection; when the reading thread runs relative to writes, stop, restart and the end of the program is up to the scheduler of the operating system.",
    [REDIR, "python/triqs/utility/capture_stdout.py"],
    [("a thread empties a pipe glued to fd 1", REDIR + ": T"), ("start and stop", REDIR + ": start_redirect, stop_redirect"), ("sys.stdout replaced in a block", "python/triqs/utility/capture_stdout.py")],
    T + "seeded thread switches between any two lines and at every system call, seeded outputs and failures, against the bytes that went into the pipe and the table of file descriptors",
    PYBASE + "Threads and file descriptors are simulated. Known finding: C++ code that writes more than the pipe holds in one call without releasing the interpreter waits for ever.",
    observe=["text on sys.stdout", "what fd 1 is", "open file descriptors", "whether the program ends"]))

SUMK = "python/triqs/sumk/sumk_discrete.py"
SUMKL = "python/triqs/sumk/sumk_discrete_from_lattice.py"
HILB = "python/triqs/dos/hilbert_transform.py"
GFSTUB = "The meshes, the matrix inversion and the lattice's Fourier sum under triqs.gf and triqs.lattice are compiled code and stand-ins here. "
PROPS.append(P("Y04", "Lattice sums and Hilbert transforms are complete and the same on all ranks",
    "A sum over k points (SumkDiscrete, SumkDiscreteFromLattice) or a Hilbert transform (HilbertTransform) called by all ranks returns, on every rank the identical Green's function, equal up to rounding to the sum over all points with their weights of the inverse of omega + mu - field - t(k) - Sigma, whatever the number of ranks and points, "
    "with a Sigma that is a Green's function or a function of k, of k and t(k), or of the energy, any field, epsilon_hat, eta, chemical potential, a patch of the Brillouin zone, a shift Q of the grid. "
    "The points are shared out: every one is evaluated, and not by every rank. Sigma, field and the grid are left unchanged; a result that is given is used, its former content does not matter. With test_convergence the grid is doubled on all ranks alike until two results agree.",
    ["schedules", "configurations", "inputs"],
    "all numbers of ranks and points (also more ranks than points), kinds of Sigma, fields, densities of states, and message delays and slow ranks",
    "The tests run on one process (and most do not run here at all); how points fall on ranks, ranks without any point, and refinement decisions taken by each rank on its own appear only with several.",
    [SUMK, SUMKL, HILB, "python/triqs/dos/dos.py"],
    [("share of each rank, reduction", SUMK + ": __call__"), ("grids", SUMKL + ": Recompute_Grid"), ("transform and refinement", HILB + ": __call__, HT"), ("share of an array", MPIPY)],
    T + "seeded numbers of ranks and points, message delays and stalls, each rank's result compared with a direct sum in numpy and with the other ranks bit by bit",
    PYBASE + GFSTUB,
    observe=["Green's functions returned on each rank", "points at which Sigma is asked for on each rank", "arguments after the call"]))

PROPS.append(P("Y05", "Green's functions and objects built on them arrive elsewhere as they were",
    "A Gf on any mesh and with any target (also a view: part of the target, a real or imaginary part), a BlockGf, a Block2Gf, a mesh or product of meshes, a mesh point, a DOS, a DOSFromFunction, a HilbertTransform, a SumkDiscrete or SumkDiscreteFromLattice (with the grid it has, also shifted or on a patch), a TBLattice, and lists and dictionaries of them, broadcast from any rank or sent to another one, "
    "arrive with the same type, names, mesh, order of blocks, data type and values, and can be used there as the original can; the sender's object is unchanged. The sum of Green's functions over all ranks is the sum of their data, on the same mesh, and leaves the arguments unchanged.",
    ["configurations", "schedules", "inputs"],
    "all kinds of objects and their combinations, all roots and numbers of ranks, message delays, sends that wait for their receiver, and both behaviours of a broadcast at its root (the object itself or a copy)",
    "Tests with one process never serialise anything on the way; every kind of object has its own reduction code, with contents that only some constructors produce.",
    ["python/triqs/gf/gf.py", "python/triqs/gf/block_gf.py", "python/triqs/gf/block2_gf.py", "python/triqs/gf/mesh_product.py", SUMKL, HILB, "python/triqs/dos/dos.py"],
    [("how an object is taken apart and put together", "python/triqs/gf/gf.py: __reduce__, __factory_from_dict__ (and those of the other classes)"), ("collectives", MPIPY)],
    T + "seeded objects, roots and delays; every process has its own modules, classes go by name, and a digest of all there is to see of the object is compared",
    PYBASE + GFSTUB + "Meshes that hold positive Matsubara frequencies only (not constructible in Python) are left out.",
    observe=["types, names, meshes, data and other attributes of the objects received"]))

PROPS.append(P("Y07", "Green's functions in Python obey their arithmetic, through any history",
    "Sums, differences, products (matrix products in the target, also of rectangular ones, with numbers and matrices from either side), quotients, inverses, transposes, conjugates, from_L_G_R, dyson, make_delta and fit_legendre of Gf, BlockGf and Block2Gf, in place or not, are what the formulas say on every mesh and target; "
    "g << x (a Green's function, number, matrix, or any expression of iOmega_n, SemiCircular, Flat, functions and Green's functions) sets g to x; blocks go by their names, lists by their order. "
    "Views (parts of the target, real and imaginary parts, a point of a product of meshes, blocks) share the data of their origin, results and copies share nothing, and no other object changes: not the operands, nor their meshes. "
    "What does not fit (meshes, shapes, points of another mesh, matrices) is refused, and an operation on a Gf that is refused, or in which the user's function throws, leaves everything as it was. "
    "Green's functions come back from archives, pickling, other processes and text files as they were; a text file that cannot be written or read is reported. Mesh points and Matsubara frequencies compute like their values.",
    ["histories", "inputs", "fault_sequences"],
    "all sequences of operations on Green's functions which share data, all meshes, ranks and shapes of targets, expressions, orders of blocks, functions that throw and disks that fail",
    "Tests do single operations on one or two Green's functions of one shape; sharing after many operations, blocks in another order, wrong shapes that numpy would broadcast, and failures half way are not among them.",
    ["python/triqs/gf/gf.py", "python/triqs/gf/block_gf.py", "python/triqs/gf/block2_gf.py", "python/triqs/gf/lazy_expressions.py", "python/triqs/gf/descriptors.py", "python/triqs/gf/tools.py"],
    [("operators", "python/triqs/gf/gf.py: __iadd__ .. __truediv__"), ("assignment", "python/triqs/gf/gf.py: __lshift__, copy_from"), ("blocks by name", "python/triqs/gf/block_gf.py: __lshift__, __iadd__")],
    T + "seeded histories against a model of numpy arrays that share memory as the originals must; after every operation all objects and meshes are compared; functions that throw, refused operations, disk errors",
    PYBASE + GFSTUB + "What numpy broadcasts between Green's functions of different targets, in-place products on imaginary times, and blocks before the one that is refused are left open.",
    observe=["data, meshes, shapes and sharing of all Green's functions after every operation", "exceptions", "text files"]))

PROPS.append(P("Y06", "Root finding returns a true solution or says so, alike on all ranks",
    "dichotomy() calls a function, which may itself be a collective calculation, at most max_loops times and a few: all ranks call it at the same points and return the same; what it returns is a point where the function was evaluated, with the value there within the precision of the target. "
    "It returns (None, None) only if no evaluated point is within the precision and the loops are used up. bound_and_bisect() returns a point within xtol of the root of a monotonic function, rising or falling, and the function's value there.",
    ["inputs", "schedules", "configurations"],
    "all functions (linear, smooth, with plateaus and steps, in the wrong direction, out of reach), targets, precisions (also zero), step widths, limits of loops, numbers of ranks and delays",
    "One wrong decision on one rank leaves the others waiting in a collective function, and exact hits, steps and exhausted loops need particular inputs.",
    ["python/triqs/utility/dichotomy.py", "python/triqs/utility/bound_and_bisect.py"],
    [("bounds, then regula falsi", "python/triqs/utility/dichotomy.py: dichotomy"), ("bounds, then bisection", "python/triqs/utility/bound_and_bisect.py: determine_bounds, bound_and_bisect")],
    T + "seeded functions and limits; every call and the result of each rank are checked against the function and the other ranks",
    PYBASE,
    observe=["points at which the function is called on each rank", "values returned on each rank"]))

OPR = "c++/triqs/operators/"
HSP = "c++/triqs/hilbert_space/"
AD = "c++/triqs/atom_diag/"
OPBASE = BASE + "Arrays, HDF5 and MPI under the operators are stand-ins (bounds checked, with I/O errors, crashes and failing allocations). "
PROPS.append(P("O01", "Operators of second quantization obey their algebra, through any history",
    "Sums, products, multiples, adjoints and expressions of many_body_operators, in any combination and history, also of an operator with itself, are those of the canonical anticommutation relations, in one normal order, each product of operators once, without terms that vanish. "
    "Two operators are equal exactly if they are the same element of that algebra, and what is printed is what they are. A coefficient is real if everything it came from was. "
    "A set of fundamental operators gives every index, of any kind and value, one position, in the order asked for. Operators and sets saved and read, also into used objects, are what they were; what cannot be saved is refused without a trace; "
    "an error or lack of memory in the middle leaves operands as they were and every object usable.",
    ["histories", "inputs", "fault_sequences", "crash_points"],
    "all histories of expressions, assignments, comparisons, extractions, saving and reading on operators with real, complex and real-or-complex coefficients and integer or string indices, with allocations or I/O that fail at any point, and crashes while saving",
    "Tests check a few identities on fresh operators; cancellation, aliasing, indices of mixed kinds, used targets and failures in the middle come only with histories.",
    [OPR + "many_body_operator.hpp", OPR + "many_body_operator.cpp", OPR + "util/extractors.hpp", HSP + "fundamental_operator_set.hpp", HSP + "fundamental_operator_set.cpp", "c++/triqs/utility/real_or_complex.hpp"],
    [("normal ordering", OPR + "many_body_operator.hpp: normalize_and_insert"), ("terms that vanish", OPR + "many_body_operator.hpp: erase_zero_monomial"), ("files", OPR + "many_body_operator.cpp: h5_write, h5_read"),
     ("what is in a Hamiltonian", OPR + "util/extractors.hpp"), ("order of the modes", HSP + "fundamental_operator_set.hpp")],
    T + "seeded histories of expressions with failing allocations, I/O errors and crashes; every operator compared with its exact matrix on the Fock space",
    OPBASE,
    observe=["terms, coefficients and order of every operator", "equality, printed form, files"]))

PROPS.append(P("O02", "Many-body states evolve exactly under operators, and partitions are invariant",
    "A state in a Hilbert space or a subspace, stored as a vector or a map, is through any history of sums, multiples, operators acting on it (also updated ones, with arguments, or along connections between subspaces), projections and assignments the vector that linear algebra gives, with fermionic signs for up to 64 modes; scalar products are those of its amplitudes. "
    "A partition puts two Fock states together exactly if the Hamiltonian (with the hybridization) connects them, gives its matrix elements, and merges blocks until every operator asked for takes each block to one. "
    "Spaces saved and read, also into used objects, are what they were; lack of memory in the middle leaves the operands as they were.",
    ["histories", "inputs", "fault_sequences"],
    "all histories on states of full spaces and subspaces, all operators, mode numbers up to 64, kinds of storage and coefficients, with allocations and I/O that fail at any point",
    "Tests apply a few operators to a few states of small spaces; signs of far-apart modes, cancelling amplitudes, reused states and partitions that need several merges are not among them.",
    [HSP + "hilbert_space.hpp", HSP + "state.hpp", HSP + "imperative_operator.hpp", HSP + "space_partition.hpp"],
    [("amplitudes in vectors and maps", HSP + "state.hpp"), ("masks and signs", HSP + "imperative_operator.hpp"), ("disjoint sets of states", HSP + "space_partition.hpp"), ("Fock states of a subspace", HSP + "hilbert_space.hpp")],
    T + "seeded histories with failing allocations and I/O errors; exact amplitudes and blocks from a fixpoint of sets as reference",
    OPBASE,
    observe=["amplitudes of every state", "blocks and matrix elements of partitions", "files"]))

PROPS.append(P("O03", "Exact diagonalisation, and all that is computed from it, is exact",
    "An atom_diag made of a Hamiltonian (by itself, with a hybridization, with limits on the number of particles, or with quantum numbers) has the blocks that the Hamiltonian and all creation and annihilation operators leave, in order of energy, each eigenvector and energy, connection and matrix of those operators exactly, the vacuum, and what it was made of; what does not fit is refused. "
    "Monomials and operators in its eigenbasis, their action on vectors, mean values, the partition function, the density matrix, quantum numbers of its eigenstates, and Green's functions in imaginary time, Matsubara and real frequency and Legendre coefficients, at any temperature and with states left out, are those of the full matrices. "
    "Copies, and atoms saved and read, also into used objects, are what they were. An eigensystem broadcast is the same everywhere. Lack of memory or an I/O error leaves the other objects as they were.",
    ["histories", "inputs", "fault_sequences", "schedules"],
    "all Hamiltonians and orders of modes, kinds of partitions, temperatures, operators and excluded states, and all histories of making, copying, saving, reading and evaluating, with allocations and I/O that fail at any point",
    "Tests compare a few Hamiltonians with stored numbers; blocks that need several merges, cancelling terms, very low temperatures, restricted spaces and objects that are used again are not among them.",
    [AD + "atom_diag.hpp", AD + "impl/atom_diag.cpp", AD + "impl/worker.cpp", AD + "impl/functions.cpp", AD + "impl/gf.cpp", HSP + "space_partition.hpp", "c++/triqs/utility/legendre.cpp"],
    [("partition, diagonalisation, order", AD + "impl/worker.cpp"), ("operators in the eigenbasis, files", AD + "impl/atom_diag.cpp"), ("mean values, quantum numbers", AD + "impl/functions.cpp"), ("sums over poles", AD + "impl/gf.cpp")],
    T + "seeded Hamiltonians and histories with failing allocations, I/O errors and message delays; dense matrices over all Fock states as reference",
    OPBASE + "The eigensolver (LAPACK through nda) is a stand-in. Known finding: the quantum numbers of the blocks are not in the order of the blocks.",
    observe=["blocks, energies, eigenvectors, matrices and connections", "values of functions and Green's functions", "files and copies"]))

PROPS.append(P("L01", "A tight-binding Hamiltonian is the sum of its hoppings, in every form",
    "A Bravais lattice has the unit vectors, orbitals and names it was given (completed to three dimensions by orthonormal vectors); its Brillouin zone has the reciprocal vectors, and coordinates, points and grids agree with them. "
    "A tight-binding Hamiltonian keeps its hoppings; at any momentum or array of momenta, on any mesh, path or grid, it is the Fourier sum of them, its dispersion the ascending eigenvalues of that, and its densities of states (projected on orbitals, or of a patch of the zone) count every eigenvalue once, with its weight, in the bin it belongs to. "
    "Dependent unit vectors, hoppings that do not fit, lack their opposite or are not hermitian, and densities of a spectrum without width are refused. "
    "Copies, and lattices, zones and Hamiltonians saved and read, also from older files, are what they were; lack of memory, refusals or I/O errors leave the other objects as they were.",
    ["histories", "inputs", "fault_sequences"],
    "all lattices of one to three dimensions, orbitals, hoppings, momenta, meshes and bins, and all histories of making, refusing, copying, evaluating, saving and reading, with allocations and I/O that fail, or the process ending, at any point",
    "Tests have one square lattice with one band and compare with stored numbers; skewed or one-dimensional lattices, several orbitals with complex hoppings, flat bands, wrong input and interrupted files are not among them.",
    ["c++/triqs/lattice/tight_binding.hpp", "c++/triqs/lattice/tight_binding.cpp", "c++/triqs/lattice/bravais_lattice.hpp", "c++/triqs/lattice/bravais_lattice.cpp", "c++/triqs/lattice/brillouin_zone.hpp", "c++/triqs/lattice/brillouin_zone.cpp", "c++/triqs/lattice/grid_generator.hpp"],
    [("checks of the hoppings", "c++/triqs/lattice/tight_binding.cpp: constructor"), ("Fourier sum", "c++/triqs/lattice/tight_binding.hpp: fourier"), ("densities of states", "c++/triqs/lattice/tight_binding.cpp: dos, dos_patch"), ("completion of the basis", "c++/triqs/lattice/bravais_lattice.cpp")],
    T + "seeded lattices, hoppings and histories with failing allocations, I/O errors and crashes; sums written out and counted states as reference",
    BASE + "nda is a stand-in with bounds checks (a read or write outside of an array is a violation), the eigensolver a Jacobi method. Up to nine hoppings and three orbitals. An energy within 1e-7 of the width of a bin from its edge may be counted on either side.",
    observe=["values of h(k) and dispersion", "densities of states", "lattices, points, coordinates", "files and copies"]))

PROPS.append(P("U01", "What a scope promised to do at its end is done, once, however it ends",
    "A crash logger which is left without having been dismissed, by the end of the scope, a return or an exception, writes every registered object under its name, as it is at that moment, to its file, which then holds nothing else; an object that cannot be written, or a file that cannot be created, neither keeps the others from being written nor ends the program. "
    "A dismissed logger, and one without objects, touches no file. A scope guard calls its function exactly once when it is left, in the reverse order of the guards, unless it was dismissed. Moving a logger or guard hands its duty over, assigning exchanges duties; what was moved from does nothing.",
    ["histories", "fault_sequences"],
    "all histories of making, registering, changing, moving, assigning, dismissing and leaving loggers and guards, with I/O errors, crashes and failing allocations at any point",
    "There is no test of the crash logger, whose only purpose is a program that fails.",
    [U + "crash_logger.hpp", U + "scope_guard.hpp"],
    [("guards that write the objects", U + "crash_logger.hpp: operator()"), ("creation of the file", U + "crash_logger.hpp: destructor"), ("active flag", U + "scope_guard.hpp")],
    T + "seeded histories with scopes left by exceptions, I/O errors and crashes at seeded calls of the store, and failing allocations; the list of duties as reference",
    BASE + "Up to three loggers and guards at a time and eight types of objects. With k errors while a logger writes, at most k of its objects may be missing.",
    observe=["content of the files", "calls of the guarded functions"]))

PROPS.append(P("U02", "Points in imaginary time are exact on their grid",
    "Sums and differences of points are exact modulo the length of the grid, as are their opposites, multiples, quotients and comparisons; the value of a point is its fraction of beta, from zero at the lowest to exactly beta at the uppermost point, in the order of the grid, and arithmetic with numbers is that of the value. "
    "A point made from a time has that time. Random points lie in the interval that was asked for and use one random number, evenly. A point saved and read is what it was.",
    ["inputs", "histories", "fault_sequences"],
    "all points, including those next to the ends and to powers of two, all sequences of operations on them, random numbers, and I/O that fails at any point",
    "The test adds a few points in the middle; wrap-around by one, both ends and numbers beyond 2^53 are rare.",
    [U + "time_pt.hpp"],
    [("arithmetic of 64 bits", U + "time_pt.hpp: time_pt"), ("random points", U + "time_pt.hpp: time_segment")],
    T + "seeded histories with a scripted random generator, I/O errors and crashes; integers of 128 bits as reference",
    BASE + "Multiples beyond beta are not asked for. The library's own generator cannot reach every point of more than 2^53, so an interval that long may return its upper end.",
    observe=["points, values and comparisons", "numbers the generator is asked for", "files"]))

OPU = "python/triqs/operators/util/"
PYOPBASE = "Seeded search: a clean batch is evidence, not proof. The compiled modules are stand-ins (operators: sums of products in normal order). "

PROPS.append(P("O04", "Interactions and observables are the operators their formulas say",
    "U_matrix_slater is the tensor of the Coulomb interaction with the given radial integrals (or U and J) in the basis that was asked for (spherical, the real harmonics named by cubic_names, or any other), subarray, reductions to two indices, transformations there and back, and the tables between F's and U and J agree with it; "
    "three_j_symbol, clebsch_gordan and angular matrix elements have their values, with the signs of Condon and Shortley. "
    "h_int_slater, h_int_kanamori and h_int_density return the sum of all and only the terms of the documented formula, in the modes of the given spins, orbitals and map, and the file H_dump describes the same operator; if it cannot be written, that is reported. "
    "diagonal_part, make_operator_real, N_op, S_op, S2_op, L_op, LS_op and L2_op are what their names say in any basis; wrong input is refused. Arguments are left as they were, and changing a result changes nothing else.",
    ["inputs", "histories", "fault_sequences"],
    "all shells, bases, radial integrals, interactions, names and maps of modes, histories of calls whose results are changed, and disks that fail while a dump is written",
    "Tests compare a few matrices with stored files; complex bases, s and p shells, dumps, signs of symbols with odd arguments and disk errors are not among them.",
    [OPU + "U_matrix.py", OPU + "hamiltonians.py", OPU + "observables.py", OPU + "op_struct.py"],
    [("tensor of the interaction", OPU + "U_matrix.py: U_matrix_slater"), ("terms and their dump", OPU + "hamiltonians.py"), ("moments in any basis", OPU + "observables.py: L_op")],
    T + "seeded histories of calls with buffered files, disk errors and full disks; integrals over the sphere and dense matrices over all Fock states as reference",
    PYOPBASE + "The signs of the real harmonics are those of spherical_to_cubic. The equality of the two spin-diagonal conventions of h_int_kanamori with a same-spin diagonal is not asked for.",
    observe=["matrices and operators returned", "content of H_dump", "exceptions"]))

PROPS.append(P("L02", "A superlattice or a lattice read from a file is the same lattice",
    "A TBSuperLattice has one copy of each orbital per cell of the cluster, at its place and with its name; every hopping of the base lattice appears in it exactly once per cell of the cluster (or not at all, if internal hoppings are to be removed and it is one), so that its spectrum is that of the base lattice; fold does the same with other dictionaries; "
    "packed indices and coordinates there and back are what they were, for any vectors of any sign and sites given in any order or type; a pickled superlattice is the same one. "
    "k_space_path has the given points, ends and distances. A lattice made from Wannier90's files or from a model of pythtb has the displacements and hoppings written there, divided by their degeneracy, with the asked units, spins and on-site part; a file that is cut short is refused. Arguments are left as they were.",
    ["inputs", "histories", "fault_sequences"],
    "all base lattices, cluster vectors, sites and hoppings, all files with any degeneracies and order, files cut short at any byte, and read errors",
    "Tests compare one superlattice and one file with stored data; skewed or negative cluster vectors, several orbitals, interrupted files and pickling are not among them.",
    ["python/triqs/lattice/super_lattice.py", "python/triqs/lattice/utils.py", "python/triqs/lattice/tight_binding.py"],
    [("cells and sites", "python/triqs/lattice/super_lattice.py: __init__, change_coordinates_L_to_SL"), ("hoppings", "python/triqs/lattice/super_lattice.py: fold"), ("files", "python/triqs/lattice/utils.py: parse_hopping_from_wannier90_hr_dat")],
    T + "seeded lattices and files, cut short or unreadable at seeded places; sums over cells and eigenvalues as reference",
    PYOPBASE + "Clusters of up to six cells, hoppings of up to two cells' distance. The files are made by a writer with the format of Wannier90.",
    observe=["hoppings, sites, names, positions", "coordinates", "points and distances of paths", "exceptions"]))

EXTRA = []
NOT_APPLICABLE = {}
