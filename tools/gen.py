#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json (for the properties whose module exists in mc/props)."""
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DA, LO, SL = "pylops_mpi/DistributedArray.py", "pylops_mpi/LinearOperator.py", "pylops_mpi/StackedLinearOperator.py"
BD, VS, HS = (f"pylops_mpi/basicoperators/{k}.py" for k in ("BlockDiag", "VStack", "HStack"))
FD, SD, LA, GR = (f"pylops_mpi/basicoperators/{k}.py" for k in ("FirstDerivative", "SecondDerivative", "Laplacian", "Gradient"))
FR, MD = "pylops_mpi/signalprocessing/Fredholm1.py", "pylops_mpi/waveeqprocessing/MDC.py"
CB, OB = "pylops_mpi/optimization/cls_basic.py", "pylops_mpi/optimization/basic.py"
DE, DT, PL = "pylops_mpi/utils/decorators.py", "pylops_mpi/utils/dottest.py", "pylops_mpi/plotting/plotting.py"

# id, title, statement, over, quantifier, why, files, mechanisms, observe
P = []


def prop(i, title, st, over, quant, why, files, mech, obs):
    P.append(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs)))


prop("C01", "A distributed array is exactly the global array cut into local pieces",
     "A scattered array's local pieces, taken in rank order along its axis, tile the global array exactly: without explicit local shapes the first (n mod P) ranks own one element more, explicit local shapes are honoured, and a broadcast array holds the whole array on every rank. Distributing a numpy array and gathering it gives back the same array, with its dtype, on every rank, for any axis, also in row-major flattening, and the reported layout (global and local shapes, axis, partition, mask, dtype, engine, rank, size) is the one the array has.",
     ["inputs", "configurations"], "every shape, axis, number of ranks (also more ranks than elements), split of the axis, partition, dtype, mask",
     "the tests try a handful of shapes at whatever rank count they run on (usually one), and mostly even splits",
     [DA], [("local_split", DA), ("DistributedArray.to_dist / asarray", DA), ("ravel", DA), ("_check_local_shapes", DA)], ["local_array", "local_shapes", "asarray()", "ravel()"])
prop("C02", "Broadcast arrays are the same on every rank after every write",
     "After any write through indexing, a BROADCAST array holds on every rank what the root rank wrote, whatever the other ranks passed; an UNSAFE_BROADCAST or SCATTER array is written locally, without communication. The value a rank passed in is never aliased or changed by later writes.",
     ["inputs", "histories", "configurations"], "every sequence of writes (full, slices, single elements, any value kinds), number of ranks, dtype, rank-dependent values",
     "tests write once with equal values on all ranks, so a missing or wrong-root broadcast is invisible to them",
     [DA], [("__setitem__ broadcast", DA)], ["local_array"])
prop("C03", "Arithmetic on distributed arrays is numpy arithmetic on the global array",
     "Negation, +, -, *, in-place + and -, scaling (scalar times array in either order), conj, copy and zeros_like give the array that numpy gives on the global array, with the operands' layout (global and local shapes, axis, partition, mask, communicator) and numpy's result dtype for arrays of different type. Results share no memory with the operands, and operands keep their value unless the operation is in-place.",
     ["inputs", "configurations", "histories"], "every operation and sequence of operations over all layouts, dtypes (also mixed), scalars, numbers of ranks",
     "tests check a few shapes with one dtype, and no aliasing, layout or mixed dtypes",
     [DA], [("add/iadd/multiply/conj/copy/zeros_like", DA)], ["results' local_array and layout", "operands after the call"])
prop("C04", "dot and norm equal numpy's on the global array, on every rank",
     "The dot product of two distributed arrays is the sum over all elements of x times y (no conjugation), and norm gives numpy's vector norm of the flattened global array, or along the given axis, for order 0, 1, 2, any p > 0, +inf and -inf, real or complex. Every rank gets the same numbers, whatever the distribution, including ranks that own nothing.",
     ["inputs", "configurations"], "every order, axis, layout, dtype, number of ranks, empty local pieces",
     "tests use a few orders on positive real data with an even split; the collective reductions differ per order",
     [DA], [("dot / norm / _compute_vector_norm", DA), ("_allreduce", DA)], ["returned numbers on all ranks"])
prop("C05", "Masked reductions stay within a rank's group",
     "With a mask, dot and norm on a rank reduce over exactly the ranks with the same mask value (including sparse or arbitrary integer labels), as if those ranks' pieces were the whole array. Everything else (arithmetic, gathering) is as without a mask, results of operations keep the mask, and an operation of arrays whose masks differ is rejected.",
     ["inputs", "configurations"], "every assignment of mask labels to up to 4 ranks, every layout and norm order",
     "tests use one or two hand-written masks at fixed rank counts",
     [DA], [("sub_comm / subcomm_split", DA), ("_allreduce_subcomm", DA), ("_check_mask", DA)], ["dot/norm results", "mask"])
prop("C06", "Malformed arrays, operands and arguments are rejected",
     "Local shapes that do not tile the global array, operands whose partition, shape, local shapes or mask disagree, vectors of the wrong size or partition for an operator, operators of incompatible shapes in a sum, product, stack or power, and unknown kinds, orders, norms or parameters raise an error; none of them gives a result silently. Valid calls are never rejected.",
     ["inputs", "configurations"], "every pair of layouts under every binary operation, every rank on which one local shape may be off, every operator's wrong sizes and partitions",
     "tests cover few error paths, on the rank counts they happen to run with",
     [DA, LO, SL, DE], [("_check_partition_shape, _check_mask, _check_local_shapes", DA), ("shape checks of matvec/rmatvec", LO), ("constructors of the composed operators", LO)], ["exception type per rank"])
prop("C07", "Ghost cells are exactly the neighbouring ranks' cells",
     "Adding front and back ghost cells gives each rank its local piece preceded by the last cells of the previous rank and followed by the first cells of the next one, along the array's axis, with nothing in front of the first rank and nothing behind the last. If a neighbour owns fewer cells than asked for, the call fails rather than returning wrong data; the array itself is not changed.",
     ["inputs", "configurations"], "every split of the axis over up to 4 ranks, front/back counts, axis, dtype, number of dimensions",
     "tests use one or two shapes with even splits and equal ghost counts",
     [DA], [("add_ghost_cells", DA)], ["returned array per rank"])
prop("C08", "No schedule deadlocks, mismatches or leaves communication behind",
     "Every public operation - construction, gathering, writes, arithmetic, reductions, redistribution, ghost cells, operator application in either direction, stacked operators, solvers, dot test - completes on all ranks under every interleaving of the ranks and every legal matching and buffering of messages. All ranks enter the same collectives in the same order with compatible arguments, no message or request is left behind, and no operation relies on the MPI library buffering standard-mode sends.",
     ["schedules", "configurations"], "all interleavings and buffering choices of every operation of a catalogue, 2-4 ranks",
     "a test runs the one schedule the machine happens to take, with small messages that the MPI library buffers",
     [DA, FD, SD, DE, VS, HS, FR, CB], [("ghost cell Send/Recv order", DA), ("reshaped: neighbour exchange", DE), ("collectives", DA)], ["termination of all ranks", "unreceived messages"])
prop("C09", "Results do not depend on message timing, memory contents or earlier runs of the schedule",
     "What an operation computes is a function of its inputs alone: every schedule of the same operation gives the same values on every rank, no element of a result comes from uninitialised memory, and values that are the same on all ranks by contract (reductions, broadcast arrays, norms, gathered arrays, solver costs and iteration counts) are bit-identical across ranks.",
     ["schedules", "inputs", "configurations"], "all schedules of a catalogue of operations, all splits incl. empty pieces, two different fillings of fresh memory",
     "a test sees one schedule and fresh memory that is usually zero",
     [DA, FD, SD, VS, FR, DE], [("np.empty receive buffers", DA), ("reshaped", DE), ("reductions", DA)], ["bits of results on all ranks"])
prop("C10", "Operator results do not depend on how the input vector is split",
     "An operator whose input vector is split over the ranks in another way than the operator expects gives the same global result, in the same output layout, as with the expected split, whenever neighbouring ranks hold what a rank needs; otherwise the call fails rather than computing with wrong elements. The caller's vector keeps its layout and value.",
     ["inputs", "configurations"], "every pair of splits of a vector over up to 4 ranks, forward and adjoint",
     "tests use vectors in the default layout or one hand-picked other",
     [DE, BD, HS, VS], [("reshaped", DE)], ["result", "input after the call"])
prop("C11", "MPIFirstDerivative equals the serial first derivative",
     "For every kind (forward, backward, centered of order 3 and 5), edge setting, sampling, number of dimensions, dtype and number of ranks, forward and adjoint application give what serial PyLops' FirstDerivative gives along the first axis, in the default scattered layout. Broadcast inputs are accepted with the same result.",
     ["inputs", "configurations"], "all grids with up to a dozen samples on 1-4 ranks (also ranks that own no or one sample), all kinds, orders, edges",
     "tests use large grids where the boundary between ranks never meets the boundary of the grid",
     [FD, DA], [("_matvec_*/_rmatvec_*", FD), ("add_ghost_cells", DA)], ["result of matvec/rmatvec"])
prop("C12", "MPISecondDerivative equals the serial second derivative",
     "For every kind (forward, backward, centered), edge setting, sampling, number of dimensions, dtype and number of ranks, forward and adjoint application give what serial PyLops' SecondDerivative gives along the first axis, in the default scattered layout. Broadcast inputs are accepted with the same result.",
     ["inputs", "configurations"], "all grids with up to a dozen samples on 1-4 ranks (also ranks that own no or one sample), all kinds, edges",
     "tests use large grids where the boundary between ranks never meets the boundary of the grid",
     [SD, DA], [("_matvec_*/_rmatvec_*", SD), ("add_ghost_cells", DA)], ["result of matvec/rmatvec"])
prop("C13", "MPILaplacian equals the serial weighted Laplacian",
     "Forward and adjoint application of the distributed Laplacian give what serial PyLops' Laplacian gives, for every choice of axes (in any order, also negative ones), weights, samplings, kind, edge, dtype and number of ranks.",
     ["inputs", "configurations"], "all small 2-D and 3-D grids on 1-4 ranks, all sets of axes, weights, samplings, kinds",
     "tests use two or three axis sets on large grids",
     [LA, SD, BD], [("_calc_l2op", LA)], ["result of matvec/rmatvec"])
prop("C14", "MPIGradient equals the serial gradient",
     "Forward application of the distributed gradient gives a stack of the derivatives along every axis as serial PyLops' Gradient computes them, the adjoint the sum of their adjoints, for every grid shape, sampling, kind, edge, dtype and number of ranks.",
     ["inputs", "configurations"], "all small 1-D to 3-D grids on 1-4 ranks, samplings, kinds, edges",
     "tests use large grids with a single sampling",
     [GR, FD, BD, VS], [("_calc_stack_op", GR)], ["result of matvec/rmatvec"])
prop("C15", "MPIBlockDiag is the block-diagonal matrix of all ranks' operators",
     "Forward and adjoint application of a distributed block-diagonal operator equal those of the serial block-diagonal matrix of all ranks' operators in rank order, for any number of local operators per rank, rectangular blocks, masks and dtypes. Results are split over the ranks like the blocks' rows (columns, for the adjoint) and carry the operator's mask.",
     ["inputs", "configurations"], "all block counts and shapes per rank within small bounds, 1-4 ranks, masks, dtypes",
     "tests use one operator of equal shape per rank",
     [BD, DE], [("MPIBlockDiag._matvec/_rmatvec", BD)], ["result of matvec/rmatvec"])
prop("C16", "MPIVStack is the vertical stack of all ranks' operators",
     "Forward application takes a broadcast model and gives data scattered like the blocks' rows; the adjoint takes scattered data and gives the broadcast sum over all ranks, equal to the serial vertical stack of all ranks' operators in rank order, for any number of local operators, row counts and dtypes, also for data split into masked groups.",
     ["inputs", "configurations"], "all block counts and row counts per rank within small bounds, 1-4 ranks, dtypes, masks",
     "tests use one operator of equal shape per rank",
     [VS, DE], [("MPIVStack._matvec/_rmatvec", VS)], ["result of matvec/rmatvec"])
prop("C17", "MPIHStack is the horizontal stack of all ranks' operators",
     "Forward application takes a model scattered like the blocks' columns and gives the broadcast sum over all ranks; the adjoint takes broadcast data and gives a scattered model, equal to the serial horizontal stack of all ranks' operators in rank order, for any number of local operators, column counts and dtypes, also for a model split into masked groups.",
     ["inputs", "configurations"], "all block counts and column counts per rank within small bounds, 1-4 ranks, dtypes, masks",
     "tests use one operator of equal shape per rank",
     [HS, VS, DE], [("MPIHStack", HS)], ["result of matvec/rmatvec"])
prop("C18", "Stacked operators are stacks of their distributed operators",
     "MPIStackedVStack maps an array to the stack of its operators' results and its adjoint sums the adjoints; MPIStackedBlockDiag applies each operator to its own part in both directions; shapes and dtypes are those of the stacked matrices. Each part keeps its own partition and layout.",
     ["inputs", "configurations"], "all lists of up to three operators of a zoo (diagonal, rectangular, derivatives, stacks, wrapped), 1-4 ranks, dtypes",
     "tests stack two or three operators of one kind",
     [VS, BD, SL], [("MPIStackedVStack", VS), ("MPIStackedBlockDiag", BD)], ["results' parts"])
prop("C19", "Expressions of distributed operators act like the same matrix expressions",
     "Adjoint, transpose, conjugate, negation, scaling, sum, difference, product and non-negative integer powers of distributed operators, nested in any way, act forward and adjoint like the same expression of their dense matrices, with the right shape, in the layout of the operators' domain and range. Building an expression never changes its operands.",
     ["programs", "inputs", "configurations"], "all expression trees up to depth 3 over a zoo of square and rectangular operators with real and complex scalars, 1-4 ranks",
     "tests try each operation once on one operator",
     [LO], [("_Adjoint, _Transposed, _Conj, _Scaled, _Sum, _Product, _PowerLinearOperator", LO)], ["result of matvec/rmatvec", "shape", "dtype"])
prop("C20", "Expressions of stacked operators act like the same matrix expressions",
     "Adjoint, transpose, conjugate, negation, scaling, sums of operators of the same kind, products and non-negative integer powers of stacked operators, nested in any way, act forward and adjoint on stacked vectors like the same expression of their dense matrices.",
     ["programs", "inputs", "configurations"], "all expression trees up to depth 3 over stacked block-diagonals and vertical stacks with real and complex scalars, 1-4 ranks",
     "tests try each operation once on one operator",
     [SL], [("_Adjoint, _Transposed, _Conj, _Scaled, _Sum, _Product, _PowerStackedLinearOperator", SL)], ["result of matvec/rmatvec", "shape"])
prop("C21", "The dot test accepts exact adjoints and rejects wrong ones",
     "dottest returns True for every operator whose adjoint is exact, for real and complex operators of any shape and any distribution, and for an operator whose adjoint deviates beyond the given tolerances raises AssertionError, or returns False when asked not to raise. Row and column counts that differ from the operator's are rejected; all ranks reach the same verdict.",
     ["inputs", "configurations"], "all operators of a zoo with the adjoint perturbed in each entry above and below tolerance, real and complex, tolerances, raise flags, 1-4 ranks",
     "tests only run it on correct operators",
     [DT], [("dottest", DT)], ["return value / exception per rank"])
prop("C22", "Operators and arrays keep no history",
     "Applying an operator leaves its input vector, its constituent operators and itself unchanged and returns fresh memory: any sequence of forward and adjoint applications, on any vectors, gives for each the result it gives on a newly built operator. Objects of different types and sizes used in the same process do not influence one another.",
     ["histories", "programs"], "all sequences of applications up to a depth over an operator zoo, inputs, dtypes, communicators",
     "tests build an operator, apply it once or twice to one vector, and compare with the serial result",
     [LO, SL, FD, SD, FR, MD, BD, VS, HS], [("registered methods, work arrays", FD), ("_matvec/_rmatvec", LO)], ["results along histories", "inputs after each call"])
prop("C23", "MPIFredholm1 equals the serial Fredholm integral",
     "With the slices of the kernel distributed over the ranks in any way (no rank may own a single slice: that is rejected on all ranks), forward and adjoint application give on every rank what serial PyLops' Fredholm1 of the concatenated kernel gives, as a broadcast array, for every nx, ny, nz, with and without a stored adjoint, matrix products or loops, real or complex kernels.",
     ["inputs", "configurations"], "all slice splits on 1-4 ranks, nx/ny/nz in 1-3, saveGt, usematmul, dtypes",
     "tests use equal slice counts and two sizes",
     [FR], [("_matvec/_rmatvec", FR), ("slice offsets from allgather", FR)], ["result of matvec/rmatvec"])
prop("C24", "MPIMDC equals serial multi-dimensional convolution",
     "Forward and adjoint application of the distributed multi-dimensional convolution give what serial PyLops' MDC gives with the frequency slices of all ranks concatenated, for every combination of sizes, one- or two-sided time axis, time and space sampling, number of virtual sources, conjugation, transform engine and frequency split over the ranks.",
     ["inputs", "configurations"], "all small nt, nfreq splits, ns, nr, nv on 1-4 ranks, twosided, conj, usematmul, saveGt, prescaled",
     "tests use one problem size and an even split",
     [MD, FR], [("_MDC", MD), ("MPIFredholm1", FR)], ["result of matvec/rmatvec"])
prop("C25", "CG produces the conjugate-gradient iterates",
     "From any start, CG's iterate, residual cost and iteration count after every iteration are those of the textbook conjugate-gradient method on the global system, for stacked and plain vectors, any distribution, real or complex; it stops at the requested number of iterations or as soon as the squared residual norm is no longer above the tolerance, and solves an n-dimensional positive definite system in n iterations. The caller's data and starting guess are not changed.",
     ["inputs", "histories", "configurations"], "a grid of positive definite systems (plain, stacked, redistributed), starts, tolerances, iteration limits, 1-4 ranks",
     "tests compare the final solution of a few well-conditioned systems only",
     [CB, OB], [("CG.setup/step/run/solve/finalize", CB), ("cg", OB)], ["x after every step", "cost", "iiter"])
prop("C26", "CGLS produces the damped least-squares iterates",
     "CGLS's iterate, residual norms (with and without damping), costs and iteration count after every iteration are those of the textbook CGLS method applied to the system augmented with the damping, from any start, for plain and stacked vectors, any distribution, real or complex. It reports the reason for stopping truthfully and does not change the caller's data or starting guess.",
     ["inputs", "histories", "configurations"], "a grid of over- and underdetermined systems, damping, starts, tolerances, iteration limits, 1-4 ranks",
     "tests compare the final solution of a few undamped systems from zero",
     [CB, OB], [("CGLS.setup/step/run/solve/finalize", CB), ("cgls", OB)], ["x after every step", "returned tuple"])
prop("C27", "All ways of running a solver agree, and all ranks stay in step",
     "setup/step/run/finalize used by hand in any split, solve(), and the functions cg() and cgls() give the same solution, costs and iteration counts, whether or not anything is shown; the callback sees every iterate once, in order, on every rank. Only the first rank prints, all ranks do the same number of iterations, and reusing a solver object for another system gives what a new one gives.",
     ["histories", "programs", "configurations"], "all splits of the iterations into run calls and steps, show and log settings, callbacks, consecutive solves, 1-4 ranks",
     "tests call solve or the function once per system",
     [CB, OB], [("run / solve / callback / show", CB), ("cg, cgls", OB)], ["x, cost, iiter, callback trace, stdout per rank"])
prop("C28", "Everything works on a sub-communicator as it does on the world",
     "Arrays, operators, expressions, redistribution and solvers given a communicator communicate on that communicator only: on a sub-group of the ranks (in any rank order, with the other ranks idle or busy with other work) they give what they give on a world of that size, every array they create lives on that communicator.",
     ["configurations", "schedules", "programs"], "all ways to split up to 4 ranks into groups (also reordered or duplicated), each group running another operation or nothing",
     "tests use the world communicator throughout",
     [DA, LO, SL, BD, VS, HS, FD, SD, FR, MD, CB, DE], [("base_comm handed on to results", DA), ("base_comm of operators", LO)], ["results on the group", "base_comm of results", "termination"])
prop("C29", "Stacked arrays act like the concatenation of their parts",
     "Arithmetic, dot, norm (every order), conj, copy, indexing and gathering of a stacked array equal numpy's on the concatenation of its flattened parts, each part keeping its own layout; operands are left alone except by in-place operations, which change exactly their left operand. Every rank gets the same numbers.",
     ["inputs", "configurations", "histories"], "all stacks of up to three parts over layouts, dtypes and sizes, all operations and sequences of two, norm orders, 1-4 ranks",
     "tests use one stack of two equal parts",
     [DA], [("StackedDistributedArray", DA)], ["results' parts", "dot/norm on all ranks"])
prop("C30", "A wrapped serial operator acts on every rank as it does serially",
     "A serial operator wrapped for distributed use gives on a broadcast vector what it gives serially, on every rank, as a broadcast array of the right shape and dtype, forward and adjoint; asmpilinearoperator wraps once and leaves distributed operators as they are.",
     ["inputs", "configurations"], "all small rectangular operators, dtypes, broadcast partitions, 1-4 ranks",
     "tests wrap one operator in one expression",
     [LO], [("MPILinearOperator(Op)", LO), ("asmpilinearoperator", LO)], ["result of matvec/rmatvec"])
prop("C31", "Plots show the distributed array as it is",
     "The layout plot of a scattered two-dimensional array shows the values of the whole array and, for every element, the rank that owns it; for a broadcast array it is rejected on every rank. The plot of local arrays shows each rank's own values under its rank, with the given title and colour limits. Only the first rank draws, the ranks stay in step, and the array is unchanged.",
     ["inputs", "configurations"], "all small 1-D and 2-D arrays, axes, splits, partitions, 1-4 ranks",
     "tests do not look at plots",
     [PL], [("plot_distributed_array, plot_local_arrays", PL)], ["the data handed to matplotlib"])

prop("C32", "The same program gives the serial result on any number of ranks",
     "A whole program on a fixed global problem - post-stack inversion, least-squares imaging, multi-dimensional deconvolution, inversion with horizontal stacks, smoothing and regularisation with derivatives, gradient descent, power iteration, ghost-cell relaxation, alternating directions with redistribution in between, statistics, chains of operators - gives the result of the serial computation at every step: for every number of ranks, however the work is divided over them and into how many operators per rank.",
     ["inputs", "configurations", "histories"], "programs of 10-40 operations and 1-5 iterations each, 1-8 ranks, even and skewed divisions, real and complex, single and double precision",
     "tests check each part alone, on equal pieces and one number of ranks, never a whole program against its serial result",
     [LO, DA, SL, BD, VS, HS, LA, MD, CB], [("MPIBlockDiag, MPIVStack, MPIHStack", BD), ("derivatives", LA), ("MPIMDC", MD), ("MPILinearOperator algebra", LO), ("MPIStackedVStack", SL), ("CG, CGLS", CB), ("DistributedArray arithmetic, to_dist, asarray, add_ghost_cells", DA)], ["results and costs of every program"])
prop("C33", "A rejected call leaves no trace",
     "A call that is rejected (operands that do not fit, malformed arguments, writes that do not fit, vectors of another size or layout given to operators, solvers, dot tests and plots) leaves every object it was given as it was, on every rank - also the left side of += and -= and stacks of which only a part does not fit - is rejected again when repeated, and leaves the ranks in step: the next valid calls, on the same objects and others, give the right results.",
     ["inputs", "histories"], "all pairs of layouts, all malformed calls and pairs of them, stacks of 2-4 parts that differ in one, 1-4 ranks",
     "tests check that errors are raised, not what is left behind by them",
     [DA, LO, CB], [("_check_partition_shape, _check_mask, StackedDistributedArray.iadd", DA), ("argument checks of operators", LO), ("solver setup", CB)], ["state of all arguments before and after the rejected call", "results of the calls after it"])

# only claimed when the module is there
EXPL = {"C08", "C09", "C28"}


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "mc", "props")) if re.fullmatch(r"c\d\d\.py", f)}
    skip = set(sys.argv[1:])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i not in have or i in skip:
            na.append(dict(property=i, reason="no check built yet"))
            continue
        tech = ("exhaustive exploration of all rank interleavings, message matchings and buffering choices of the real code on a simulated MPI (explicit-state, partial-order canonical), replayed on Open MPI"
                if i in EXPL else
                "exhaustive bounded enumeration of cases executed on the real code under a controlled MPI scheduler (explicit-state model checking), sampled cases replayed on Open MPI")
        checks.append(dict(
            property=i, quick_cmd=f"/opt/venv/bin/python run_check.py {i}", thorough_cmd=f"/opt/venv/bin/python run_check.py {i}",
            evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking",
            level_note="Holds for every case within the bounds stated in the evidence and DESIGN.md; beyond them by the small-scope argument only. Trusts the simulated MPI (validated in every run against Open MPI on a stratified part of the cases), numpy, and serial PyLops or textbook formulas as oracle."))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python run_check.py --setup", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the package is loaded unmodified on a simulated mpi4py (mc/simmpi.py).")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks,", len(na), "not claimed")


main()
