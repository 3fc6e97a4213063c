"""Registry of workloads (what is built and run) and checks (which property, which configuration, how much)."""

WORKLOADS = {
    "signals": dict(kind="cpp", src=["signals.cpp"], repo_src=["utility/signal_handler.cpp", "utility/callbacks.cpp"],
                    real=["triqs/utility/signal_handler.cpp", "triqs/utility/callbacks.cpp"],
                    stub=["kernel signal delivery (per-process disposition table, masks, pending set)", "clock"]),
    "mc": dict(kind="cpp", src=["mc.cpp"], repo_src=["utility/signal_handler.cpp", "utility/callbacks.cpp", "mc_tools/random_generator.cpp", "mc_tools/MersenneRNG.cpp"],
               real=["triqs/mc_tools/*", "triqs/utility/{signal_handler,callbacks,timer,timestamp,report_stream,buffered_function,exceptions}"],
               stub=["mpi (communicator, reductions, monitor) over a simulated network", "h5 (in-memory store with I/O faults and crashes)", "clocks", "kernel signal delivery",
                     "the user's moves, measures and stop callbacks (instrumented)"]),
    "rng": dict(kind="cpp", src=["rng.cpp"], repo_src=["mc_tools/random_generator.cpp", "mc_tools/MersenneRNG.cpp"],
                real=["triqs/mc_tools/random_generator.{hpp,cpp}", "triqs/mc_tools/MersenneRNG.{hpp,cpp}", "triqs/utility/buffered_function.hpp"],
                stub=["mpi (only to ask for a rank)", "the buffered user function (instrumented)"]),
    "stat": dict(kind="cpp", src=["stat.cpp"], repo_src=["stat/histograms.cpp"], real=["triqs/stat/{accumulator,histograms,jackknife,mean_error,make_real}.hpp", "triqs/stat/histograms.cpp"],
                 stub=["mpi (communicator, splits, reductions) over a simulated network", "h5 (in-memory store with I/O faults and crashes)", "nda (bounds-checked arrays, evaluated eagerly)"]),
    "det": dict(kind="cpp", src=["det.cpp"], repo_src=[], flags=["-D_GLIBCXX_ASSERTIONS"], real=["triqs/det_manip/det_manip.hpp", "triqs/utility/{exceptions,function_arg_ret_type}.hpp"],
                stub=["nda (bounds-checked arrays, LU, blas)", "h5 (in-memory store with I/O faults and crashes)", "the user's function (seeded, may throw)"]),
    "gfs": dict(kind="cpp", src=["gfs.cpp", *["gfs_k%d.cpp" % i for i in range(9)]], flags=["-DFMT_HEADER_ONLY"], repo_src=["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp"], real=["triqs/gfs/*", "triqs/mesh/*", "triqs/lattice/{bravais_lattice,brillouin_zone}"],
                stub=["nda (bounds-checked arrays, evaluated eagerly, uninitialised memory poisoned, allocations may fail)", "mpi (communicator, splits, reductions, broadcasts) over a simulated network",
                      "h5 (in-memory store with I/O faults and crashes)", "itertools", "cppdlr (nodes only)", "least squares of the tail fit"]),
    "ops": dict(kind="cpp", src=["ops.cpp", "ops_alg.cpp", "ops_hs.cpp", "ops_ad.cpp"], flags=["-DFMT_HEADER_ONLY", "-D_GLIBCXX_ASSERTIONS"],
                repo_src=["operators/many_body_operator.cpp", "hilbert_space/fundamental_operator_set.cpp", "atom_diag/impl/atom_diag.cpp", "atom_diag/impl/worker.cpp", "atom_diag/impl/functions.cpp",
                          "atom_diag/impl/gf.cpp", "utility/legendre.cpp"],
                real=["triqs/operators/*", "triqs/hilbert_space/*", "triqs/atom_diag/*", "triqs/utility/{real_or_complex,numeric_ops,dressed_iterator,legendre}"],
                stub=["nda (bounds-checked arrays, evaluated eagerly, uninitialised memory poisoned, Jacobi eigensolver)", "h5 and the C API of HDF5 (in-memory store with I/O faults and crashes)", "itertools", "memory allocation (may fail)",
                      "mpi (broadcasts) over a simulated network"]),
    "trf": dict(kind="cpp", src=["trf.cpp", "trf_m0.cpp", "trf_m1.cpp", "trf_m2.cpp", "trf_lat.cpp", "trf_r0.cpp", "trf_r1.cpp", "trf_leg.cpp"], flags=["-DFMT_HEADER_ONLY", "-D_GLIBCXX_ASSERTIONS"],
                repo_src=["gfs/transform/fourier_common.cpp", "gfs/transform/fourier_matsubara.cpp", "gfs/transform/fourier_real.cpp", "gfs/transform/fourier_lattice.cpp", "gfs/transform/pade.cpp",
                          "gfs/functions/imtime.cpp", "gfs/functions/legendre.cpp", "gfs/functions/density.cpp", "utility/legendre.cpp", "lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp"],
                libs=["-lfftw3", "-lgmpxx", "-lgmp"], real=["triqs/gfs/transform/*", "triqs/gfs/functions/{density,imtime,legendre}", "triqs/gfs/*", "triqs/mesh/*", "triqs/utility/{legendre,pade_approximants}", "FFTW", "GMP"],
                stub=["nda (bounds-checked arrays, evaluated eagerly, uninitialised memory poisoned, allocations may fail, least squares)", "memory allocation (may fail)", "itertools", "mpi and h5 (unused)"]),
    "util": dict(kind="cpp", src=["util.cpp"], flags=["-D_GLIBCXX_ASSERTIONS"], repo_src=["mc_tools/random_generator.cpp", "mc_tools/MersenneRNG.cpp", "stat/histograms.cpp", "utility/typeid_name.cpp"],
                real=["triqs/utility/{crash_logger,scope_guard,time_pt,typeid_name}", "triqs/mc_tools/random_generator", "triqs/stat/histograms"],
                stub=["h5 (in-memory store with I/O faults and crashes)", "memory allocation (may fail)", "nda (bounds-checked arrays)", "mpi (unused)", "a scripted random generator"]),
    "lat": dict(kind="cpp", src=["lat.cpp"], flags=["-DFMT_HEADER_ONLY", "-D_GLIBCXX_ASSERTIONS"], repo_src=["lattice/bravais_lattice.cpp", "lattice/brillouin_zone.cpp", "lattice/tight_binding.cpp"],
                real=["triqs/lattice/*", "triqs/mesh/brzone", "triqs/gfs/gf"],
                stub=["nda (bounds-checked arrays, evaluated eagerly, uninitialised memory poisoned, allocations may fail, Jacobi eigensolver)", "h5 (in-memory store with I/O faults and crashes)", "memory allocation (may fail)", "itertools", "mpi (unused)"]),
    "pympi": dict(kind="py", script="pympi.py", real=["python/triqs/utility/mpi.py, mpi_mpi4py.py, mpi_nompi.py"],
                  stub=["mpi4py (messages and collectives over a simulated network)", "os, sys, time, datetime, socket of every simulated rank"]),
    "pydist": dict(kind="py", script="pydist.py", real=["python/triqs/utility/dist_on_nodes.py", "python/triqs/utility/mpi*.py"],
                   stub=["mpi4py (messages and collectives over a simulated network)", "fork, waitpid and the files between the master and its child", "time", "the user's function and points"]),
    "pyredir": dict(kind="py", script="pyredir.py", real=["python/triqs/utility/redirect.py", "python/triqs/utility/capture_stdout.py"],
                    stub=["threading (threads switch in every call of the simulator and between any two lines)", "file descriptors and pipes (short reads, no descriptor left)", "time", "the notebook's stdout",
                          "C++ code writing to fd 1, with and without the interpreter lock"]),
    "pysumk": dict(kind="py", script="pysumk.py", real=["python/triqs/sumk/*", "python/triqs/dos/*", "python/triqs/gf/*.py", "python/triqs/lattice/{tight_binding,bz_patch}.py", "python/triqs/utility/{mpi*,dichotomy,bound_and_bisect}.py"],
                   stub=["mpi4py (messages and collectives over a simulated network)", "compiled modules of triqs.gf and triqs.lattice (meshes, inversion, matrix addition, Fourier sum of a lattice)", "h5", "clocks", "the user's Sigma, fields and functions"]),
    "pygf": dict(kind="py", script="pygf.py", real=["python/triqs/gf/{gf,block_gf,block2_gf,lazy_expressions,descriptor_base,descriptors,tools,map_block,mesh_product,mesh_point,matsubara_freq}.py", "python/triqs/utility/mpi*"],
                 stub=["compiled modules of triqs.gf (meshes, inversion, matrix addition, product with two matrices)", "mpi4py (messages and collectives over a simulated network)", "files (buffered, on a simulated disk)", "h5 (dictionaries of copies)", "the user's functions"]),
    "pyham": dict(kind="py", script="pyham.py", real=["python/triqs/operators/util/{U_matrix,hamiltonians,observables,op_struct}.py", "python/triqs/lattice/{super_lattice,tight_binding,utils}.py"],
                  stub=["compiled modules of triqs.operators and triqs.lattice (sums of products with normal order; lattices)", "mpi4py (rank and size)", "files (buffered, on a simulated disk)", "scipy.special.factorial", "pythtb's model"]),
}

CHECKS = {
    "S01": dict(workload="signals", runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Histories of start/stop/received/pop/last with signals delivered at chosen machine instructions of the calls (and nested in the handler)."),
    "M01": dict(workload="mc", cfg=dict(prop=1), runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Random runs (warmup, accumulate, both, with initial sign; finite, infinite, empty), collections, checkpoints, measures added and removed, moves with random weights and ratios, on 1..4 ranks, with random signals, stop requests, exceptions, stalls and clock jumps; every call of user code is checked against a model of the cycle."),
    "M02": dict(workload="mc", cfg=dict(prop=2), runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Random runs (warmup, accumulate, both, with initial sign; finite, infinite, empty), collections, checkpoints, measures added and removed, moves with random weights and ratios, on 1..4 ranks, with random signals and stop requests at random points (the bulk of the faults); status and early stops are judged against what was delivered."),
    "M03": dict(workload="mc", cfg=dict(prop=3), runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Random runs (warmup, accumulate, both, with initial sign; finite, infinite, empty), collections, checkpoints, measures added and removed, moves with random weights and ratios, on 1..4 ranks, with random user calls throwing (the bulk of the faults) in random calls of random ranks, rethrow on or off, message delays; deadlocks, mismatched collectives, swallowed and spurious exceptions are violations."),
    "M04": dict(workload="mc", cfg=dict(prop=4), runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Random runs (warmup, accumulate, both, with initial sign; finite, infinite, empty), collections, checkpoints, measures added and removed, moves with random weights and ratios, on 1..4 ranks, with random stops on some ranks only; collected results, acceptance rates and reported counts are compared with ledgers of all ranks."),
    "M05": dict(workload="mc", cfg=dict(prop=5), runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Random runs (warmup, accumulate, both, with initial sign; finite, infinite, empty), collections, checkpoints, measures added and removed, moves with random weights and ratios, on 1..4 ranks, with random interruptions; every accept/reject decision is recomputed from the random number drawn, signs are tracked, and long runs test the choice frequencies at 6 sigma."),
    "M06": dict(workload="mc", cfg=dict(prop=6), runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Random runs (warmup, accumulate, both, with initial sign; finite, infinite, empty), collections, checkpoints, measures added and removed, moves with random weights and ratios, on 1..4 ranks, with random jumps of the wall clock, stalls and skews of the simulated clocks; time limits and durations are compared with simulated time."),
    "M07": dict(workload="mc", cfg=dict(prop=7), runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Random runs (warmup, accumulate, both, with initial sign; finite, infinite, empty), collections, checkpoints, measures added and removed, moves with random weights and ratios, on 1..4 ranks, with random crashes and I/O errors at random calls of the store; restored simulations are compared with the saved model and written again."),
    "R01": dict(workload="rng", runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Random interleavings of construction, draws (real, integer, range), previews, moves and copies of several generators around their buffer ends, with exceptions in the buffered function."),
    "A01": dict(workload="stat", cfg=dict(prop=1), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random histories of data, manual compressions, copies and moves of accumulators of real, complex and array data with random numbers of bins and capacities; after every operation the bins and errors are recomputed from the list of all data."),
    "A02": dict(workload="stat", cfg=dict(prop=2), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random amounts of data on 1..4 ranks (some without any complete bin), reduced errors, means and jackknife over all ranks under random message delays; compared with the statistics of the concatenated data."),
    "A03": dict(workload="stat", cfg=dict(prop=3), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random samples (including the ends, the edges of bins, NaN and infinities) into histograms of random ranges, sums, reductions, broadcasts, copies; every single sample must move exactly one count."),
    "A04": dict(workload="stat", cfg=dict(prop=4), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random histories of data and checkpoints, with crashes and I/O errors at random calls of the store; the restarted objects go on exactly as if they had never stopped."),
    "D01": dict(workload="det", cfg=dict(prop=1), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random sequences of tried, completed and rejected insertions, removals (of one or several rows), changes, refills, swaps, rolls, recomputations and shortcuts on matrices of up to a dozen rows, some nearly singular; after every operation size, lists, matrix, inverse and determinant are recomputed from the lists of x and y."),
    "D02": dict(workload="det", cfg=dict(prop=2), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="The same with refused requests, exceptions of the user's function in any of its calls, copies, moves and swaps while an operation is pending, and checkpoints with crashes and I/O errors at random calls of the store."),
    "G01": dict(workload="gfs", cfg=dict(prop=1), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random histories on 1..4 ranks with broadcasts (whole objects, views, of groups of ranks), reductions to a root or to all (into new objects, existing ones, views, operands, from stored lazies), between other operations, for 18 types of Green's function, under random schedules and message delays; after every operation every object is compared with the model."),
    "G02": dict(workload="gfs", cfg=dict(prop=2), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule='Random histories in which objects are saved, loaded, serialised, read from files of older layouts and from wrong places, on 1..2 ranks, with crashes and I/O errors at random calls of the store and restarts that continue from what survived.'),
    "G03": dict(workload="gfs", cfg=dict(prop=3), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule='Random histories of 2..14 operations on three objects of one of 18 types, a third of them refused or through views, with allocations failing at random places; after every operation all objects (mesh, points, shapes, names, data) are compared with an elementwise model.'),
    "G04": dict(workload="gfs", cfg=dict(prop=4), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule='The same histories with evaluations (at points, frequencies, times and momenta inside and outside of the mesh or the unit cell, of objects, constants and views) and functions (real and imaginary parts, conjugates, inverses, matrix products, symmetrisations, parts) at random places; the values are compared with sums over mesh points from the model.'),
    "G05": dict(workload="trf", runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random histories of transforms (times, frequencies, Legendre coefficients, sites, momenta; of objects, views, blocks, products of meshes, in all spellings), densities and Pade continuations of scalars, matrices and tensors of random poles, a third of them refused, with allocations failing at random places; results are compared with what is known exactly, operands with what they were."),
    "L01": dict(workload="lat", runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random histories of Hamiltonians (one to three dimensions, random unit vectors, one to three orbitals, random hermitian hoppings) made, refused, copied, evaluated at momenta, on meshes, paths and grids, binned into densities of states, saved and restored (also from older files), with failing allocations, I/O errors and crashes at random calls of the store; results are compared with sums written out, objects with what was given."),
    "U01": dict(workload="util", cfg=dict(prop=1), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random histories of loggers and guards made, moved, assigned, dismissed and left (by the end of the scope, a return or an exception) while the registered objects change, with I/O errors and crashes at random calls of the store and failing allocations; after every operation all files are compared with the model."),
    "U02": dict(workload="util", cfg=dict(prop=2), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random histories of points of the grid (chosen near its ends, powers of two and anywhere), sums, differences, multiples, random points drawn from scripted and real generators, files with crashes and I/O errors; every point is compared with integers after every operation."),
    "O01": dict(workload="ops", cfg=dict(prop=1), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random histories of 2..14 operations on three operators over four modes with seven kinds of indices and three types of coefficients: forty forms of expressions (also of an operator with itself), comparisons, printing, sets of fundamental operators, files; with failing allocations, I/O errors and crashes; after every operation all terms are compared with exact matrices."),
    "O02": dict(workload="ops", cfg=dict(prop=2), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random histories on three states (vectors or maps, of the whole space of up to 64 modes or of subspaces, real or complex): sums and multiples in place and as expressions, operators acting with and without connections, with coefficients of arguments, updates of them, projections, scalar products, files; partitions with and without hybridization and merges; with failing allocations and I/O errors; after every operation every amplitude is compared with exact ones."),
    "O03": dict(workload="ops", cfg=dict(prop=3), runs=dict(quick=60000, thorough=3000000), limit=dict(quick=12, thorough=400),
                rule="Random Hamiltonians (real and complex, up to six modes in any order, cancelling terms, hybridization, limited particle numbers, quantum numbers that fit or do not) diagonalised, copied, saved, read into used objects and printed; operators, mean values, quantum numbers and Green's functions from them at temperatures from very low to high, with states left out; eigensystems broadcast; with failing allocations and I/O errors; everything is compared with dense matrices over all Fock states."),
    "Y01": dict(workload="pympi", runs=dict(quick=12000, thorough=600000), limit=dict(quick=12, thorough=400),
                rule="Random programs of broadcasts (any root and type), reductions, barriers of both kinds, messages, slices, reports on 1..8 ranks, and in a serial process, under random delays, slow ranks and sends that wait for their receiver."),
    "Y02": dict(workload="pydist", runs=dict(quick=4000, thorough=200000), limit=dict(quick=12, thorough=400),
                rule="Random lists of points (or calculations that find their points as they go) of random types on 1..8 ranks with random durations, None results, message delays, and a child that is killed, cannot write or read its result, or throws."),
    "Y03": dict(workload="pyredir", runs=dict(quick=8000, thorough=400000), limit=dict(quick=12, thorough=400),
                rule="Random sequences of starts, stops, waits and C++ output of any length and content, from Python calls that hold the interpreter or not and from a C++ thread, with threads switched between any two lines, short reads, "
                     "no descriptor or thread left, a screen that fails, a program frozen for a while or ending while redirected; and nested captures with exceptions."),
    "Y04": dict(workload="pysumk", cfg=dict(prop=4), runs=dict(quick=12000, thorough=600000), limit=dict(quick=15, thorough=400),
                rule="Random sums over k points (given arrays, lattice grids of 1..3 dimensions, shifted, patches) and Hilbert transforms (given, function, refined until converged) with random Sigma (Green's function, function, method), field, epsilon_hat, mu, eta and result on 1..8 ranks, with message delays and slow ranks."),
    "Y05": dict(workload="pysumk", cfg=dict(prop=5), runs=dict(quick=12000, thorough=600000), limit=dict(quick=15, thorough=400),
                rule="Random objects of 16 kinds broadcast from any rank, sent to another, summed over all, or made on one rank and used by all, on 1..8 ranks, with message delays, slow ranks and sends that wait for their receiver."),
    "O04": dict(workload="pyham", cfg=dict(prop=1), runs=dict(quick=12000, thorough=600000), limit=dict(quick=15, thorough=400),
                rule="Random sequences of calls: Coulomb tensors (Slater from radial integrals or U and J, in spherical, cubic or any basis; Kanamori, reduced, transformed), 3j and Clebsch-Gordan symbols, Hamiltonians of any form with any names and maps, dumped to files with buffers of any size and disk errors, "
                     "diagonal parts, averages, spin and orbital moments, structures; the program changes what it got; on 1..3 processes."),
    "L02": dict(workload="pyham", cfg=dict(prop=2), runs=dict(quick=12000, thorough=600000), limit=dict(quick=15, thorough=400),
                rule="Random lattices of 1..3 dimensions and superlattices of up to 6 cells (any vectors, given sites in any order and type, without internal hoppings, of several orbitals), folded dictionaries, coordinates there and back, pickling; paths; files of Wannier90 (any degeneracies, units, spin, on-site part; "
                     "cut short, disk errors) and models of pythtb; on 1..3 processes."),
    "Y07": dict(workload="pygf", cfg={}, runs=dict(quick=12000, thorough=600000), limit=dict(quick=20, thorough=400),
                rule="Random histories of up to 25 of 56 kinds of calls on pools of Green's functions, their views, and (two-index) blocks that share data, on two meshes (8 kinds, products) and targets of rank 0..3: arithmetic, in place and not, with numbers, matrices, expressions and one another, "
                     "assignments, inverses, selections, archives, sums over 1..3 processes, text files; shapes and meshes that do not fit, functions of the program that throw, disk errors."),
    "Y06": dict(workload="pysumk", cfg=dict(prop=6), runs=dict(quick=12000, thorough=600000), limit=dict(quick=15, thorough=400),
                rule="Random functions (linear, sigmoid, cubic, steps, wrong direction, out of reach), targets (also met exactly), precisions, widths and limits of loops, evaluated alone or by all ranks together, on 1..8 ranks with message delays and slow ranks."),
}
