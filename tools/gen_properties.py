#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long statements stay readable)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))
I = "include/bwsl/"
A = I + "accumulators/"

prop("C01", "A run resumed from a checkpoint ends exactly like one never interrupted",
 """Saving any archivable statistics object (scalar accumulators, histogram, move statistics, observable group)
 to a text or binary archive at any moment and loading it into another object, fresh or already used, yields an
 object that answers every query identically and evolves identically under all later operations. A Monte Carlo run
 that is killed at any point and resumed from its last complete checkpoint therefore ends with bit-identical
 statistics, generator state and output rows to the same run never interrupted. (The name of a move-statistics
 object is configuration, not archived state; infinities and NaN need a binary archive, because the text archives of boost
 cannot express them.)""",
 ["crash_points", "histories", "fault_sequences"],
 "every history of measurements, moves, prints and checkpoints; every crash point, including inside a checkpoint write or a row write; any number of crashes",
 "No existing test archives anything at all; a test could only sample one save point, while the property is about every point of every history (e.g. with pending compensation, between propose and accept, after a resize).",
 [A+"KahanAccumulator.hpp", A+"NeumaierAccumulator.hpp", A+"KnuthWelfordAccumulator.hpp", A+"WestAccumulator.hpp", A+"NaiveIntegerAccumulator.hpp", I+"HistAccumulator.hpp", I+"mcutils/MoveStats.hpp", I+"ObservableGroup.hpp", I+"RNGUtils.hpp"],
 [("member-wise serialize of every class", "serialize() in each header"), ("text round-trip of generator state", I+"RNGUtils.hpp")],
 [("compensation / mean / m2 / counters", "hidden state that later results depend on", A+"*.hpp"), ("proposal-in-flight flag", "a proposal made and not answered yet", I+"mcutils/MoveStats.hpp")],
 ["all getters after restore and after further operations", "bytes of the output file"])

prop("C02", "Generator state survives a checkpoint; damaged state is refused",
 """A Mersenne-twister generator saved to a text or binary archive at any point of its sequence and loaded into any
 other generator of its type continues with exactly the same sequence, whatever locale the program runs with at either
 time. A stored state that was cut short, whose list
 of numbers is too short or too long, or that contains a letter is refused with an exception; it is never accepted
 as a different sequence. A generator whose restore was refused can still be restored from an intact checkpoint.""",
 ["crash_points", "fault_sequences", "inputs"],
 "every generator type, seed, position in the sequence and archive format; every truncation point and every separator/letter corruption of the stored state",
 "There is no test of the generator archive code; the positions (block boundaries of the twister) and the truncation points are far too many to sample by hand.",
 [I+"RNGUtils.hpp"], [("save/load through the standard textual form, with validation", I+"RNGUtils.hpp")],
 [], ["sequence after restore", "exception on load"])

prop("C03", "Accumulators agree with exact arithmetic over every history",
 """After any history of additions, resets, copies, moves, checkpoint/restore cycles and bulk feeds from a source that
 may fail part-way, every accumulator reports exactly the number of values it has absorbed since its last reset, and
 nothing else is remembered from before it. Its sum and mean match exact arithmetic within the compensated-summation
 error bound of its algorithm (Kahan: a few ulps of the sum of magnitudes; Neumaier: as if summed in twice the working
 precision), and variances, standard deviations and errors match the exact population / sample / weighted definitions
 within the stable-update bound. Copies evolve independently of their original.""",
 ["histories", "crash_points", "inputs"],
 "all finite value sequences within the stated magnitude range, all interleavings of the operations above over several accumulators, all restart points, all failure points of the source",
 "The tests sum one vector of eight integers and two three-element examples per class; variance, weights, reset, copies and bulk feeds are untested.",
 [I+"Accumulators.hpp", A+"KahanAccumulator.hpp", A+"NeumaierAccumulator.hpp", A+"KnuthWelfordAccumulator.hpp", A+"WestAccumulator.hpp", A+"NaiveIntegerAccumulator.hpp"],
 [("compensated updates", A+"KahanAccumulator.hpp, NeumaierAccumulator.hpp"), ("Welford/West updates", A+"KnuthWelfordAccumulator.hpp, WestAccumulator.hpp"), ("bulk feed", I+"Accumulators.hpp apply_accumulator")],
 [], ["Count, Sum, Mean, Variance*, StandardDeviation, Error"])

prop("C04", "With overflow checks on, a full accumulator refuses instead of wrapping",
 """When the library is built with its accumulator checks enabled, an addition that would push the measurement counter
 (or, for the integer accumulator, the running sum or sum of squares) past what it can represent is rejected with an
 exception and leaves the accumulator exactly as it was; so does a histogram, which counts every bin and all measurements.
 Every addition that still fits is accepted and counted, up to
 and including the one that fills the counter.""",
 ["histories", "crash_points", "configurations"],
 "every accumulator class, every state near its capacity (reached through a restored checkpoint of an astronomically long run), every further operation",
 "Reaching the limit takes 2^64 additions; no test is built with the checks enabled.",
 [A+"AccumulatorsExceptions.hpp", A+"KahanAccumulator.hpp", A+"NeumaierAccumulator.hpp", A+"KnuthWelfordAccumulator.hpp", A+"WestAccumulator.hpp", A+"NaiveIntegerAccumulator.hpp", I+"HistAccumulator.hpp"],
 [("BWSL_ACCUMULATORS_CHECKS guards at the top of Add", A+"*.hpp")], [], ["exception", "getters before and after"])

prop("C05", "A histogram never loses, invents or misplaces a measurement",
 """Over every history of additions, growing additions, resizes, resets, copies, assignments, moves and restores, including
 ones in which memory allocation fails or a restore is cut short, every bin's result is the sum of the values put in it
 divided by the number of measurements made since the last reset, per-bin and total counts are exact, normalised results
 are each result divided by the chosen bin's result, and every bin the histogram says it has is addressable. An operation
 that fails with an exception records nothing and leaves earlier measurements as they were (after a failed restore the
 contents are unspecified, but the histogram stays usable and can be reset or restored again).""",
 ["histories", "fault_sequences", "crash_points"],
 "all operation histories over several histograms, an allocation failure at every allocation of every operation, every truncation point of a restore",
 "The tests construct one histogram and add to fixed bins; growth, resizing, restore and allocation failure are never exercised.",
 [I+"HistAccumulator.hpp"], [("growing and fixed additions", I+"HistAccumulator.hpp Add/ForceAdd/Resize"), ("result normalisation", I+"HistAccumulator.hpp GetResult(s)"), ("archive", I+"HistAccumulator.hpp serialize")],
 [("number of bins vs. accumulator vector", "must agree", I+"HistAccumulator.hpp")], ["GetNbins, GetResult(s), GetCount"])

prop("C06", "Move statistics account for every proposal exactly once",
 """In every history, a proposal is answered by exactly one acceptance, rejection or impossibility: an answer without a
 pending proposal, or a second proposal before the answer, is refused with an exception naming the move and changes
 nothing. Accepted, rejected and impossible ratios are the respective counts divided by the number of proposals made
 since the last reset, the average probability is the mean over all answers, and this bookkeeping survives resets,
 copies, checkpoint/restore between any two calls, and failing allocations. The printed form shows the move's name and these figures.""",
 ["histories", "crash_points", "fault_sequences"],
 "all call sequences (valid or not) on several statistics objects, all results fed in bulk, all restart points, all allocation failures",
 "The single test performs 1000 well-formed propose/answer pairs; wrong sequences, impossible moves, resets and restarts are untested.",
 [I+"mcutils/MoveStats.hpp", I+"mcutils/MoveResult.hpp", I+"mcutils/MoveStatus.hpp"],
 [("proposal flag checked before every update", I+"mcutils/MoveStats.hpp UpdateIfProposed/UpdateIfNotProposed"), ("bulk entry", I+"mcutils/MoveStats.hpp Add")],
 [], ["ratios, average probability, printed form, exceptions"])

prop("C07", "Each measurement reaches the output file in exactly one row, or is kept",
 """A print of an observable group that returns normally has appended to its file exactly one complete row: one mean per
 observable in key order, over exactly the measurements made since the previous successful print, plus their count, and
 that row survives a crash of the process at any later instant. If the row cannot be written (disk full, I/O error, file
 cannot be opened, out of memory) the failure is reported by an exception, no complete row has been appended, and the
 measurements are kept for the next print. The header is written the same way: complete on success, reported otherwise.""",
 ["fault_sequences", "crash_points", "histories"],
 "all histories of measuring, printing, adding observables, copying, checkpoint/restore over several groups and files; every failure, short write or interruption of every system call; a process crash at every system call",
 "Observable groups have no test at all, and no unit test makes a disk fail or kills the process between two writes.",
 [I+"ObservableGroup.hpp", A+"KahanAccumulator.hpp"],
 [("open-append-close per row", I+"ObservableGroup.hpp PrintAndReset"), ("reset after the row is written", I+"ObservableGroup.hpp PrintAndReset")],
 [("per-observable accumulators", "measurements not printed yet", I+"ObservableGroup.hpp")], ["bytes appended to the file", "exceptions", "later rows"])

prop("C08", "A saved lattice table is complete and correct, or the failure is reported",
 """Saving the positions, distances, momenta or pairs of a lattice, with open or closed boundaries, either returns
 normally with the file holding the whole table (a header and one row per site or pair, every number reading back to
 exactly the value the lattice itself reports) and nothing left of what the file held before, or reports the failure
 with an exception. Short writes, interrupted calls, full disks, I/O errors and unopenable files never lead to a normal
 return with a truncated or damaged table.""",
 ["fault_sequences", "inputs", "crash_points"],
 "all lattice types, sizes, boundaries and tables; every short write, interruption and failure of every system call; any previous file content",
 "No test calls any of the save functions; tests cannot place an I/O fault at every system call.",
 [I+"Lattice.hpp"], [("Save* functions", I+"Lattice.hpp SavePositions/SaveDistances/SaveMomenta/SavePairs")],
 [], ["file content", "exceptions"])

prop("C09", "Two files compare equal only if every byte of both was read and agrees",
 """Comparing two files answers true exactly when both can be opened and read and their contents are identical, whatever
 their size and however the operating system splits or interrupts the reads. If either cannot be opened or a read fails,
 the answer is false or an exception, never true. If a file is truncated or extended while it is being compared, true is
 answered only if the bytes actually read from both files, up to their ends, are the same.""",
 ["fault_sequences", "schedules", "inputs"],
 "all file contents and sizes (around every buffer boundary), every short read, interruption or failure of every system call, every placement of a concurrent truncation or extension",
 "There is no test of file comparison; neither read faults nor a concurrent writer can be placed by a unit test.",
 [I+"FileUtils.hpp"], [("size check, then full comparison", I+"FileUtils.hpp compare_files")], [], ["return value", "system call log"])

prop("C10", "A rational read from a stream is exactly what was written, or the read fails",
 """Writing a rational to a stream and reading it back gives the same value however the stream delivers its bytes in
 pieces and whatever the locale of the streams, and leaves the stream positioned right after it; its string form reads
 back as the same value. A read from a stream that ends, fails or holds malformed text
 at any byte is reported (stream failure, or an exception from the string conversion) and leaves the target rational
 unchanged; a reading that succeeds never produces a zero denominator. A write to a stream that fails is visible in the
 stream's state.""",
 ["fault_sequences", "inputs"],
 "all rationals, all ways of splitting the stream into buffers, a stream end or failure at every byte, all single-byte corruptions",
 "The only test parses one literal from a complete string.",
 [I+"RationalNum.hpp"], [("stream operators", I+"RationalNum.hpp operator<< / operator>>"), ("string conversion", I+"RationalNum.hpp FromString / ToString")],
 [], ["stream state", "value of the target", "exceptions"])

prop("C11", "Threads using the library do not disturb each other",
 """Threads that only query shared lattices, grids, histograms, accumulators and statistics, and otherwise work on objects of
 their own, obtain under every interleaving exactly the results each of them would obtain alone in a fresh process, and
 perform no conflicting unsynchronised memory accesses. In particular no function of the library keeps hidden mutable
 state that one caller can observe through another's calls.""",
 ["schedules", "histories", "programs"],
 "all programs of up to a few dozen library calls on up to four threads covering every public header, all interleavings at memory-access granularity (sampled)",
 "All existing tests are single-threaded; a hidden cache or static scratch buffer is invisible to them.",
 [I+"Lattice.hpp", I+"HyperCubicGrid.hpp", I+"Bravais.hpp", I+"MathUtils.hpp", I+"HistAccumulator.hpp", I+"RationalNum.hpp", I+"EnumString.hpp", I+"RNGUtils.hpp", I+"ObservableGroup.hpp", I+"LinSpace.hpp", I+"LogSpace.hpp", I+"Pairs.hpp", I+"Approx.hpp", A+"KahanAccumulator.hpp", I+"mcutils/MoveStats.hpp"],
 [("const member functions without mutable or static state", "all headers"), ("immutable predefined lattices", I+"Bravais.hpp")],
 [], ["results of every call", "memory accesses"])

prop("C12", "Random selection is in range, honours the weights and never picks weight zero",
 """Choosing among weights or cumulative weights always returns the index of an entry with positive weight, for every
 sequence of words the generator may deliver, extreme ones included, and an entry's share of the generator's words is
 its share of the total weight. Choosing with a probability never succeeds for probability 0, always succeeds for
 probability 1, and succeeds with exactly the asked share in between. Weights are not modified, and with the same
 generator sequence the same choices are made.""",
 ["inputs", "fault_sequences", "histories"],
 "all weight vectors (normal magnitudes, zeros anywhere), all generator types, all word sequences including all-minimum and all-maximum words",
 "These functions have no test; a real generator delivers the extreme words about once in 2^53 calls.",
 [I+"MathUtils.hpp"], [("upper bound over partial sums", I+"MathUtils.hpp choose_between / choose_between_psums"), ("threshold comparison", I+"MathUtils.hpp choose_with_probability")],
 [], ["returned index / bool", "words consumed from the generator"])

prop("C13", "The state dumper either prints the whole state or exits with failure",
 """Run with a seed, the dump program exits successfully only if its output has been accepted completely, and that
 output read back as a 64-bit Mersenne twister is exactly a generator freshly initialised with that seed, for every
 seed from 0 to 2^64-1. If standard output cannot take all of it, or no seed is given, it exits with a failure status.""",
 ["fault_sequences", "inputs"],
 "all seeds, an output failure after every number of bytes",
 "The program has no test, and a test cannot make standard output fail at every byte.",
 ["applications/dumpmt.cpp"], [("single formatted write", "applications/dumpmt.cpp main")], [], ["exit status", "output bytes"])

prop("C14", "Enum/string conversions are inverse, and a failed one reports itself intact",
 """Every enumerator converts to its own name and back; any other string is refused with an exception that leaves the target
 enumerator unchanged. The text of every exception of the library (failed enum conversion, invalid move sequence, invalid
 probability, bad parsing, accumulator overflow) stays valid and unchanged for the exception's and its copies' lifetime,
 names the offending value, and can be obtained even when no memory can be allocated.""",
 ["fault_sequences", "inputs", "histories"],
 "all enumerators and strings, all exception values and copies, any heap activity between throw and report, an allocation failure at every allocation",
 "The test converts one name; nobody reads the exception text, under memory pressure or otherwise.",
 [I+"EnumString.hpp", I+"Exceptions.hpp", I+"mcutils/MoveStats.hpp", A+"AccumulatorsExceptions.hpp"],
 [("message owned by the exception object", I+"EnumString.hpp, mcutils/MoveStats.hpp")], [], ["what() text, target enumerator"])

prop("C15", "Lattice objects answer correctly or throw when memory runs out, never in between",
 """Whatever allocations fail, every query on a grid, Bravais lattice or lattice (coordinates, indices, mapped sites, jumps,
 positions, vectors, distances, neighbours, momenta, structure factors) either throws an out-of-memory exception or returns
 the correct answer, and a failed construction leaks nothing. A copy assignment between them that runs out of memory leaves
 the target answering exactly as before, and a successful one leaves it answering exactly like the source; neither affects
 the source.""",
 ["fault_sequences", "histories", "inputs"],
 "all predefined lattices, sizes and boundaries, all query/copy/assign/move histories over several objects, an allocation failure at every allocation of every operation",
 "The tests query a handful of lattices with unlimited memory; failing allocations and reassigned lattices never occur.",
 [I+"Lattice.hpp", I+"HyperCubicGrid.hpp", I+"Bravais.hpp", I+"MathUtils.hpp"],
 [("value semantics of the lattice classes", I+"Lattice.hpp, HyperCubicGrid.hpp, Bravais.hpp"), ("precomputed tables", I+"Lattice.hpp Compute*")],
 [("size vs. tables", "must describe the same lattice", I+"Lattice.hpp")], ["answers of all queries", "live allocations"])

# ---- pure functions of their input: not applicable to this technique -------------------------
prop("C16", "A checkpoint that is damaged, or fails to be read or written, does not hurt",
 """Restoring an archived object (accumulator, histogram, move statistics, observable group, generator) from a checkpoint that is
 cut, damaged, read with errors or without memory never disturbs memory and leaks nothing; the object can be queried, copied
 and destroyed afterwards, and after a reset, an assignment or a restore from an intact checkpoint nothing tells it from an
 object that never met the damage. A checkpoint, also a failed one, never changes the object; one that does not fit is seen
 in the stream or by an exception; and an intact one is read to its end and no further, so that what follows in the archive
 is read correctly.""",
 ["fault_sequences", "crash_points", "histories"],
 "all archived types, all histories of feeding, checkpointing, failed and successful restoring, resetting and assigning, any damage, any allocation failing",
 "Round-trip tests read intact archives into fresh objects; what a failed restore leaves behind is never used again.",
 [A+"KahanAccumulator.hpp", A+"NeumaierAccumulator.hpp", A+"KnuthWelfordAccumulator.hpp", A+"WestAccumulator.hpp", A+"NaiveIntegerAccumulator.hpp", I+"HistAccumulator.hpp", I+"mcutils/MoveStats.hpp", I+"ObservableGroup.hpp", I+"RNGUtils.hpp"],
 [("serialize of each class", "all archived classes"), ("Reset and assignment overwrite every member", "all archived classes")], [], ["answers of the object and of its twin", "live allocations", "position in the archive"])

prop("C17", "Operations on files leave nothing behind",
 """Every operation on files (comparing two files, saving the positions, distances, momenta or pairs of a lattice, printing the headers
 or a row of an observable group), whether it returns or fails, has closed every file it opened, released all the memory it took and
 created, changed or removed no file other than the one it was asked to write (comparing: none at all), whatever the names of the
 files and whatever fails on the way: opening, reading, writing, disk space, memory. Once the faults have stopped every such
 operation works again.""",
 ["fault_sequences", "histories", "inputs"],
 "all file names and neighbouring files, all sequences of operations, a fault at every system call and allocation",
 "Tests compare and save with intact disks; nobody counts descriptors or looks at other files, and a leak only shows after thousands of failures of a long simulation.",
 [I+"FileUtils.hpp", I+"Lattice.hpp", I+"ObservableGroup.hpp"],
 [("streams closed by scope", "all operations on files"), ("names passed to the system as given", "all operations on files")], [], ["open descriptors", "contents of all files", "live allocations", "outcome of later operations"])

prop("C18", "Measuring objects are values: copies are complete and independent",
 """A copy of an accumulator, histogram, move statistics or observable group, however it is made (construction, assignment, also to
 itself or over other contents, passing and returning by value, storing in a container that grows, shrinks or is rearranged), and the
 target of a move or swap, answers and goes on exactly as an object with the same history that was never copied; nothing done to
 the one afterwards, including its end, changes the other. If memory runs out while copying, every other object is as before,
 nothing leaks, and the target can still be destroyed, reset or assigned to.""",
 ["fault_sequences", "histories"],
 "all types, all histories of feeding, copying, assigning, moving, swapping, containing, any allocation failing",
 "Tests copy one object once with unlimited memory, if at all; a member that is not taken over, or shared, only shows in the later history.",
 [A+"KahanAccumulator.hpp", A+"NeumaierAccumulator.hpp", A+"KnuthWelfordAccumulator.hpp", A+"WestAccumulator.hpp", A+"NaiveIntegerAccumulator.hpp", I+"HistAccumulator.hpp", I+"mcutils/MoveStats.hpp", I+"ObservableGroup.hpp"],
 [("copy and move operations take over every member", "all measuring classes"), ("no member is shared between objects", "all measuring classes")], [], ["answers of all objects", "contents of their checkpoints", "live allocations"])

prop("C19", "Results depend on nothing but what the library was given",
 """What an operation of the library answers, writes to a file or puts into a checkpoint is determined, bit for bit, by its arguments,
 the objects and generators it is given and what was done to them before. It does not depend on where objects lie or what
 their memory or the stack held before, on errno, floating-point status flags, the global C++ locale, the clock, system entropy
 or the environment, on what a file to be replaced held, nor on what the program did earlier with other objects, also when that
 was cut short by an error. A simulation started again from the same seeds and parameters therefore repeats itself exactly. (The
 rounding mode, and the locale of streams the caller passes in, are arguments.)""",
 ["fault_sequences", "histories"],
 "all operations, all contents of fresh memory, all earlier uses of the library, any clock, entropy, locale, environment",
 "Tests run in one process with one environment and compare with constants; dependence on leftovers shows only elsewhere, or later in a longer program.",
 [I+"Lattice.hpp", I+"HyperCubicGrid.hpp", I+"Bravais.hpp", I+"ObservableGroup.hpp", I+"HistAccumulator.hpp", I+"MathUtils.hpp", I+"LogSpace.hpp", I+"RationalNum.hpp", I+"RNGUtils.hpp", I+"mcutils/MoveStats.hpp", I+"mcutils/MoveResult.hpp", A+"WestAccumulator.hpp"],
 [("every member has an initial value", "all classes"), ("no state outside objects", "all of include/bwsl"), ("texts written for machines are independent of the locale", "ObservableGroup, Lattice, RNGUtils")], [], ["answers of all operations", "contents of files and checkpoints"])

prop("C20", "Grid indices and coordinates are a bijection, and site mapping is a group action",
 """For every grid size, index-to-coordinates and coordinates-to-index are inverse bijections; on closed grids mapping a pair
 (a,b) to (0,i) and unmapping are inverse and depend only on the coordinate difference modulo the size. Boundary enforcement
 returns the unique representative inside the grid.""",
 ["inputs"], "all grid dimensions and sizes, all sites", "Tests check one 3x4 grid.",
 [I+"HyperCubicGrid.hpp", I+"MathUtils.hpp"], [("row-major arithmetic", I+"MathUtils.hpp array_to_index/index_to_array")])
prop("C21", "Lattice distances are minimum-image distances and neighbours are mutual",
 """On closed lattices the distance between two sites is the smallest over all periodic images, is symmetric, and matches the
 length of the reported vector; neighbour lists are mutual, of constant size on closed lattices, and at nearest-neighbour
 distance.""",
 ["inputs"], "all predefined lattices and sizes, including strongly elongated triangular ones", "Tests check three small square lattices.",
 [I+"Lattice.hpp"], [("image search", I+"Lattice.hpp ComputeVectors"), ("neighbour table", I+"Lattice.hpp ComputeNeighbors")])
prop("C22", "Bravais direct and reciprocal vectors are dual",
 """For every predefined Bravais lattice the reciprocal vectors are dual to the direct ones up to 2*pi, real-space vectors are
 linear in the coordinates, neighbours come in opposite pairs, and the inverse transform recovers the coordinates.""",
 ["inputs"], "all coordinates of all predefined lattices", "Tests check a few points per lattice.",
 [I+"Bravais.hpp"], [("basis matrices", I+"Bravais.hpp")])
prop("C23", "Rational arithmetic and ordering are exact",
 """Sums, differences, products and quotients of rationals, and with integers on either side, equal the exact result in lowest
 terms, and all six comparisons agree with the order of the real numbers, whatever the signs of numerator and denominator,
 as long as no intermediate product overflows.""",
 ["inputs"], "all operand pairs without overflow", "Tests check two positive operands.",
 [I+"RationalNum.hpp", I+"RelationalUtils.hpp"], [("cross multiplication", I+"RationalNum.hpp")])
prop("C24", "Pair indices are a bijection",
 """For every number of values n, pair indices and ordered pairs below n correspond one to one, in both directions, and there
 are exactly n*n of them.""",
 ["inputs"], "all n with n*n representable, all pairs", "Tests check n = 489 for a <= b only.",
 [I+"Pairs.hpp"], [("positional encoding", I+"Pairs.hpp")])
prop("C25", "Approximate comparison is consistent with its tolerances",
 """A number equals an approximate value exactly when it is within the larger of the absolute and relative tolerance, in either
 operand order; inequality is its negation, and <= and >= are 'less/greater or equal' in that sense.""",
 ["inputs"], "all doubles and tolerances", "No test.", [I+"Approx.hpp"], [("tolerance test", I+"Approx.hpp operator==")])
prop("C26", "Linear and logarithmic sequences hit their end points",
 """A linear (logarithmic) sequence of n steps starts at its first value, has constant difference (ratio), reaches its last value
 after n steps within rounding, and iterating from begin to end visits exactly n values.""",
 ["inputs"], "all end points, step counts and value types", "No test.", [I+"LinSpace.hpp", I+"LogSpace.hpp"], [("step generation", I+"LinSpace.hpp, LogSpace.hpp")])
prop("C27", "Mathematical helpers equal their definitions",
 """Binomials, greatest common divisors, signs, differences, norms, step functions, interpolation and the mixed
 interpolation/binary search return the value of their mathematical definition for every argument whose result is
 representable.""",
 ["inputs"], "all arguments", "No test.", [I+"MathUtils.hpp"], [("helper functions", I+"MathUtils.hpp")])
prop("C28", "Relational macros derive a consistent total order",
 """For a type with a strict weak order, the operators generated from 'less than' (and optionally 'equal') satisfy the usual
 equivalences between all six comparisons.""",
 ["inputs", "programs"], "all types using the macros", "Tests use one instance.", [I+"RelationalUtils.hpp"], [("macro definitions", I+"RelationalUtils.hpp")])
prop("C29", "Every header can be included from several translation units of one program",
 """A program of several translation units that each include any of the library's headers links, and every declared operation
 that is used has a definition.""",
 ["programs"], "all combinations of headers and translation units", "Each test is a single translation unit.",
 [I+"FileUtils.hpp", I+"LinSpace.hpp"], [("inline definitions", "all headers")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
