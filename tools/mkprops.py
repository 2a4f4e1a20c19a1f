#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["include/bwsl/" + f if not f.startswith("applications") else f for f in files],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Grid site indices and coordinates correspond one to one",
  "For every grid, of any number of dimensions and any positive extents whose product fits the index type, the number of sites is the product of the extents, and converting a site index to coordinates and back to an index is the identity on all sites. The coordinates of a site lie within the extents and number the sites in row-major order (the last coordinate varies fastest). A coordinate vector is reported to be on the grid exactly when every component lies in 0..extent-1.",
  ["inputs", "configurations"], "all grids (dimensions, extents, open or closed), all sites, all coordinate vectors",
  "The tests convert the 12 sites of one 3x4 grid; other dimensions, extents of one, unequal extents in 3D and above, and indices beyond 32 bits are never reached, and IsOnGrid is not tested.",
  ["HyperCubicGrid.hpp", "MathUtils.hpp"],
  [("array_to_index / index_to_array", "MathUtils.hpp"), ("IsOnGrid", "HyperCubicGrid.hpp")],
  [("size_, numsites_", "extents and their product", "HyperCubicGrid.hpp")], ["GetCoordinates", "GetIndex", "IsOnGrid", "GetNumSites", "GetSize", "GetDim"])

p("C02", "Periodic wrapping and relative-site arithmetic",
  "On a periodic grid, enforcing the boundaries turns any coordinate vector into the one on-grid vector congruent to it modulo the extents; on an open grid it changes nothing. On a periodic grid the relative site of (a, b) is the site at the wrapped difference of the coordinates of b and a, and shifting a by it gives b back, for all sites a and b; in particular the relative site of (a, a) is site 0 and shifting a by s and taking the relative site gives s.",
  ["inputs", "configurations"], "all grids, all pairs of sites, all coordinate vectors including far outside and negative ones",
  "One 3x4 grid is tested; the group laws quantify over all extents, dimensions and pairs, and EnforceBoundaries is only exercised one period away.",
  ["HyperCubicGrid.hpp", "Lattice.hpp", "MathUtils.hpp"],
  [("EnforceBoundaries", "HyperCubicGrid.hpp, Lattice.hpp"), ("GetMappedSite / GetUnMappedSite", "HyperCubicGrid.hpp"), ("sum_into / subtract_into", "MathUtils.hpp")],
  [], ["GetMappedSite", "GetUnMappedSite", "EnforceBoundaries"])

p("C03", "Jumps are minimal displacements and closed walks have integer winding",
  "On a periodic grid the jump from a to b is congruent to the difference of their coordinates modulo the extents and each component lies in (-L/2, L/2] for that direction's extent L; on an open grid it is the plain difference of the coordinates. Hence the jumps summed along any walk always take the coordinates of its first site to those of its last one (modulo the extents when periodic), and over any closed walk the sum is an exact multiple of the extents (zero when open), whose multiples are the winding numbers the lattice reports.",
  ["inputs", "configurations", "histories"], "all grids, all pairs of sites and all walks over sites",
  "Four pairs of one 3x4 grid are tested; the half-extent convention for even extents, extents 1 and 2, higher dimensions and accumulated walks are not, and GetWinding is never called.",
  ["HyperCubicGrid.hpp", "Lattice.hpp"],
  [("GetJump", "HyperCubicGrid.hpp"), ("GetWinding", "Lattice.hpp")],
  [("accumulated jump", "sum of the jumps of a walk, kept by the caller", "caller")], ["GetJump", "GetWinding"])

p("C04", "Pair numbering is a bijection",
  "For every number n of items the pair index of (a, b) with a, b < n is a number below the number of pairs, distinct pairs have distinct indices, and decoding the index of a pair gives that pair back in order; every index below the number of pairs decodes to a pair with that index. The pair functions of a grid are these functions for its number of sites.",
  ["inputs", "configurations"], "all n whose square fits the index type, all ordered pairs and all pair indices",
  "Only pairs with a <= b for one n are tested, so the two orders of a pair are never compared, and the grid's own pair functions are not called.",
  ["Pairs.hpp", "HyperCubicGrid.hpp"],
  [("GetPairIndex / GetPair / GetNumPairs", "Pairs.hpp"), ("GetPairIndex / GetIndividualIndices", "HyperCubicGrid.hpp")],
  [], ["pairs::GetPairIndex", "pairs::GetPair", "pairs::GetNumPairs", "HyperCubicGrid::GetPairIndex", "HyperCubicGrid::GetIndividualIndices"])

p("C05", "Lattice neighbours follow the Bravais offsets and the boundaries",
  "The neighbour list of a site holds, with multiplicity, exactly the sites reached from it by the neighbour offsets of the Bravais lattice and their opposites: all of them, wrapped, on a periodic lattice, and only those whose target is on the grid on an open one. Being neighbours is therefore symmetric and reported exactly for the sites in the list, the coordination number of a site is the length of its list, and the one of the lattice is that of site 0. The neighbour offsets of the built-in chain, square, cubic and triangular lattices are exactly the lattice vectors of unit length.",
  ["inputs", "configurations"], "all built-in and user-defined Bravais lattices, all extents, both boundaries, all sites",
  "The tests ask for some true neighbours on two small periodic square lattices; no non-neighbour, no open boundary, no cubic, triangular or user lattice is checked, and only neighbour 0 of each built-in is looked at.",
  ["Lattice.hpp", "Bravais.hpp", "HyperCubicGrid.hpp"],
  [("ComputeNeighbors", "Lattice.hpp"), ("GetNeighbor", "Bravais.hpp"), ("ChainLattice .. TriangularLattice", "Bravais.hpp")],
  [("neighbors_", "list of neighbours per site", "Lattice.hpp")], ["GetNeighbors", "AreNeighbors", "GetCoordination", "Bravais::GetNeighbor", "Bravais::GetGamma"])

p("C06", "Lattice distances follow the minimum image convention",
  "The vector from site a to site b is, on a periodic lattice, a shortest vector among all the periodic images of their separation, and on an open lattice their plain separation in real space; the distance of a and b is the length of that vector. Distances are therefore symmetric, zero only for a site and itself, unchanged by a common translation of both sites on a periodic lattice, and obey the triangle inequality. The position of a site is the real-space vector from site 0 to it without wrapping.",
  ["inputs", "configurations"], "all Bravais lattices, extents, boundaries and pairs of sites",
  "Only periodic square lattices are tested; no triangular, cubic, skewed or open lattice, and GetVector and GetPosition are never called.",
  ["Lattice.hpp", "Bravais.hpp"],
  [("ComputeVectors / ComputeDistances / ComputePositions", "Lattice.hpp"), ("GetDistance / GetVector / GetPosition", "Lattice.hpp"), ("GetDistanceVector", "Bravais.hpp")],
  [("vectors_, distance_, position_", "tables relative to site 0", "Lattice.hpp")], ["GetDistance", "GetVector", "GetPosition"])

p("C07", "Bravais real-space, inverse and reciprocal maps agree",
  "For every Bravais lattice given by its primitive vectors and the inverse matrix, the real-space position of integer coordinates is the corresponding combination of the primitive vectors, and mapping a position back with the inverse gives the coordinates. The reciprocal vectors are dual to the primitive ones (the scalar product of the i-th reciprocal and the j-th primitive vector is 2 pi if i = j and 0 otherwise), linearly extended to integer combinations. The vector between two points is the position of their coordinate difference, their distance is its length, and stepping to a neighbour and to its opposite returns to the start.",
  ["inputs", "configurations"], "all built-in and user-defined lattices of any dimension, all integer coordinates",
  "Three coordinate vectors per built-in lattice are tested; orthogonal lattices hide transposed matrices, the inverse map, distances and vectors are never called, and no user lattice is built.",
  ["Bravais.hpp"],
  [("GetRealSpace / GetReciprocalSpace / GetInverseVector", "Bravais.hpp"), ("GetVector / GetDistance / GetDistanceVector / GetNeighbor", "Bravais.hpp")],
  [("pvectors_, pivectors_", "primitive vectors and inverse matrix", "Bravais.hpp")], ["all const methods of Bravais"])

p("C08", "Allowed momenta of periodic lattices",
  "A periodic lattice has exactly one allowed momentum per site: each one gives every plane wave the period of the lattice along every primitive direction (its scalar product with extent times primitive vector is a multiple of 2 pi), and no two of them differ by a reciprocal lattice vector, so together they are all the momenta of the lattice. They are centred: along direction j the multiple lies between minus half the extent (rounded down) and the extent minus one minus that half.",
  ["inputs", "configurations"], "all built-in and user-defined Bravais lattices and all extents, with periodic boundaries",
  "Momenta are not tested at all.",
  ["Lattice.hpp", "Bravais.hpp"],
  [("ComputeMomenta", "Lattice.hpp"), ("GetReciprocalSpace", "Bravais.hpp")],
  [("momenta_", "momentum per site index", "Lattice.hpp")], ["GetMomentum"])

p("C09", "The structure factor is that of the given occupations",
  "On a periodic lattice the structure factor computed for occupations n_j is, at every allowed momentum k, mult/N^2 times the squared modulus of the sum over the sites of n_j exp(i k.r_j), so it is unchanged by lattice translations of the occupations and non-negative for a non-negative multiplier. Accumulating adds exactly that to what the caller's array held. On an open lattice computing returns zeros and accumulating changes nothing.",
  ["inputs", "configurations", "histories"], "all lattices, occupations of integer or real type, multipliers and accumulation histories",
  "The structure factor is not tested at all.",
  ["Lattice.hpp"], [("AccumulateSk / ComputeSk", "Lattice.hpp")], [], ["AccumulateSk", "ComputeSk"])

p("C10", "Saved lattice files agree with the lattice",
  "The saved tables have the documented header columns and one row per site (positions, distances, momenta) or per pair of sites (pairs), and every row carries the index and exactly the values the lattice's queries return for it: the position, the vector from site 0, the momentum, or for a pair its index, both sites, the vectors of both sites from site 0 and the vector between them. An open lattice, whose momenta are not defined, saves a momenta table without rows. Saving again replaces the file.",
  ["inputs", "configurations"], "all lattices, extents and boundaries",
  "No test saves a file.",
  ["Lattice.hpp", "Pairs.hpp"], [("SavePositions / SaveDistances / SaveMomenta / SavePairs", "Lattice.hpp")], [], ["the four files written"])

p("C11", "Rational arithmetic is exact and stored in canonical form",
  "Sums, differences, products and quotients of rationals, and of rationals and integers on either side, are the exact mathematical results whenever the products the operation forms, and the result, fit the type (the lowest value of the type included). Every constructed or computed rational is in lowest terms with a positive denominator. It is an integer exactly when its denominator is one, its conversion to double is the quotient of numerator and denominator and its conversion to the integer type is that quotient truncated toward zero.",
  ["inputs", "histories"], "all numerators and non-zero denominators of either sign, all operator and operand combinations and chains of operations within the range of the type",
  "A dozen hand-picked positive operands are tested for value only; negative operands, zero, canonical form, conversions and chains of operations are not.",
  ["RationalNum.hpp", "MathUtils.hpp"], [("Simplify", "RationalNum.hpp"), ("arithmetic operators", "RationalNum.hpp"), ("get_gcd", "MathUtils.hpp")],
  [("num_, den_", "numerator and denominator", "RationalNum.hpp")], ["GetNum", "GetDen", "IsInt", "operator double", "operator T"])

p("C12", "Rational comparisons are those of the values",
  "The six comparison operators between two rationals, and between a rational and an integer on either side, are those of the represented numbers, whenever the products formed fit the type. Hence exactly one of less, equal and greater holds for any two values, the order is transitive, and equal values compare equal whatever way they were computed or written.",
  ["inputs"], "all pairs of rationals, and of rationals and integers, of either sign",
  "One pair of positive rationals is compared; negative numbers and every comparison with an integer are untested.",
  ["RationalNum.hpp", "RelationalUtils.hpp"], [("operator<", "RationalNum.hpp"), ("TEMPLATEOVERLOADRELATIONAL", "RelationalUtils.hpp")], [], ["the comparison operators"])

p("C13", "Rational text round trip and rejection of malformed text",
  "Writing a rational gives numerator, two slashes and denominator, and parsing that text gives an equal rational back. Any text that starts with an integer, two slashes and a non-zero integer that fit the type, as does the value in lowest terms, parses to that value, in canonical form. Text that does not is rejected: the parsing error is thrown (or the stream is left failed) and the target keeps its value.",
  ["inputs"], "all rationals and all texts",
  "One well-formed text is parsed; no malformed text, sign, unreduced value or writing is tested.",
  ["RationalNum.hpp", "Exceptions.hpp"], [("operator<< / operator>>", "RationalNum.hpp"), ("FromString / ToString", "RationalNum.hpp")], [], ["FromString", "ToString", "stream operators"])

p("C14", "Move statistics accept only proposal/outcome alternation",
  "Proposals and outcomes (accepted, rejected, impossible) strictly alternate, starting with a proposal: an outcome with no pending proposal, or a proposal while one is pending, throws the invalid-sequence error, which names the move. A call that throws leaves every statistic and the pending proposal as they were, so the object stays usable. Recording a complete move result is one proposal followed by its outcome, and leaves no proposal pending.",
  ["histories"], "all sequences of calls, valid or not, including after errors, resets, copies and restores",
  "The one test makes only valid alternations; no error path is tested.",
  ["mcutils/MoveStats.hpp", "mcutils/MoveResult.hpp", "mcutils/MoveStatus.hpp"],
  [("UpdateIfProposed / UpdateIfNotProposed", "mcutils/MoveStats.hpp"), ("Add", "mcutils/MoveStats.hpp")],
  [("proposedflag_", "a proposal is pending", "mcutils/MoveStats.hpp")], ["exceptions of Propose, Accept, Reject, Impossible, Add", "the ratio getters"])

p("C15", "Move statistics report the recorded history",
  "After any history the accepted, rejected and impossible ratios are the numbers of those outcomes divided by the number of proposals (the accepted ratio of no proposals is zero), and the average probability is the mean of the probabilities given with the outcomes, an impossible move counting as zero. A move result carries the status and probability it was built with (impossible and default-built ones: impossible, zero) and answers exactly one of accepted, rejected and impossible. Resetting gives the statistics of a fresh object and keeps the name; printing shows the name and these four numbers.",
  ["histories"], "all sequences of calls and probabilities",
  "One history of 1000 moves with a constant probability is tested; impossible moves, results, reset, pending proposals and printing are not.",
  ["mcutils/MoveStats.hpp", "mcutils/MoveResult.hpp"],
  [("GetAcceptedRatio .. GetAverageProbability", "mcutils/MoveStats.hpp"), ("Reset", "mcutils/MoveStats.hpp"), ("MoveResult", "mcutils/MoveResult.hpp")],
  [("proposed_, accepted_, rejected_, impossible_, prob_", "counters and probability sum", "mcutils/MoveStats.hpp")], ["the getters", "operator<<"])

p("C16", "Compensated sums stay accurate for every input sequence",
  "For every sequence of finite values whose sums do not overflow, the Kahan sum differs from the exact sum by at most a few units of rounding of the sum of the magnitudes, however many values were added; the Neumaier sum differs by at most a few units of rounding of the exact sum itself, plus a term of second order in the rounding unit, also when large terms cancel or a later term is larger than the running sum. The count is the number of values added (up to the largest the counter can hold, after which the overflow checks of the build option refuse more), the mean is the sum over the count, feeding a range adds its elements in order, and resetting gives the state of a fresh accumulator.",
  ["inputs", "histories"], "all finite sequences of finite doubles, and resets between them",
  "The tests sum 1..8 and two three- or four-term examples; the bounds quantify over all sequences and lengths, and count, mean, reset and apply_accumulator are not tested.",
  ["accumulators/KahanAccumulator.hpp", "accumulators/NeumaierAccumulator.hpp", "Accumulators.hpp"],
  [("Add", "accumulators/KahanAccumulator.hpp, accumulators/NeumaierAccumulator.hpp"), ("apply_accumulator", "Accumulators.hpp")],
  [("sum_, c_, count_", "running sum, compensation, number of values", "accumulators/")], ["Sum", "Mean", "Count", "Reset"])

p("C17", "Mean and variance accumulators match the definition",
  "After any sequence of values the Knuth-Welford accumulator, the integer accumulator (while the sums of its values and of their squares fit) and, for weighted values, the West accumulator report the count, sum, mean, variances, standard deviation and error on the mean that the definitions give for the values added since construction or reset, up to rounding; for the two floating-point accumulators this stays accurate when the mean is large compared with the spread. Weighted values with a non-positive weight are ignored, unit weights agree with the unweighted variances and an integer weight counts as that many repetitions in the population and frequency variances. Variances of fewer than two values are not-a-number, and the overflow checks of the build option reject only values that would overflow, before changing anything.",
  ["inputs", "histories"], "all sequences of values and weights, and resets between them",
  "None of these accumulators has a test.",
  ["accumulators/KnuthWelfordAccumulator.hpp", "accumulators/WestAccumulator.hpp", "accumulators/NaiveIntegerAccumulator.hpp"],
  [("Add / Variance / ScaledVariance / StandardDeviation / Error", "accumulators/KnuthWelfordAccumulator.hpp, accumulators/NaiveIntegerAccumulator.hpp"), ("Add / PopulationVariance / SampleFrequencyVariance / SampleReliabilityVariance", "accumulators/WestAccumulator.hpp")],
  [("mean_, m2_, count_, sum_weights_, sum_weights2_", "running moments", "accumulators/")], ["the getters"])

p("C18", "Histograms account for every measurement",
  "After any sequence of measurements, growths, resizes and resets, the total count is the number of measurements since construction or reset, each bin's count is the number of those it received, and a bin's result is the sum of the values it received divided by the total count (zero for a bin without measurements). A forced measurement beyond the last bin grows the histogram to just include it and leaves other bins as they were; resizing keeps the remaining bins and adds empty ones; resetting empties all bins and keeps their number. Results relative to a bin are all results divided by that bin's result.",
  ["histories", "inputs"], "all sequences of operations, bins and values",
  "Fresh histograms and one long run of unit measurements are tested; values, growth, resize, reset, counts and relative results are not.",
  ["HistAccumulator.hpp"], [("Add / ForceAdd / Resize / Reset", "HistAccumulator.hpp"), ("GetResult / GetResults / GetCount", "HistAccumulator.hpp")],
  [("nbins_, acc_, count_", "bins and total", "HistAccumulator.hpp")], ["GetNbins", "GetCount", "GetResult", "GetResults"])

p("C19", "Observable groups write one row of means per block",
  "Headers replace the output file with one line: the observables in key order and Count. Each print appends one line holding, in the same order, the mean of the values measured for each observable since the previous print (or the start) at the requested precision, and the number of values of the first observable, and then empties all observables, leaving earlier lines as they were. Measuring a key that is not in the group throws and changes nothing; adding a key keeps what the present ones have accumulated, and adding one that is present changes nothing.",
  ["histories", "inputs"], "all sequences of adding, measuring, header writing and printing, for groups with at least one observable",
  "Observable groups have no test.",
  ["ObservableGroup.hpp"], [("Measure / AddObservable", "ObservableGroup.hpp"), ("PrintHeaders / PrintAndReset", "ObservableGroup.hpp")],
  [("accumulator_", "accumulator per key", "ObservableGroup.hpp"), ("output file", "header and rows", "file system")], ["the output file", "exceptions of Measure"])

p("C20", "Checkpoint and restore resume exactly where the object was saved",
  "Saving any statistics object (every accumulator, histogram, move statistics, observable group) to an archive at any point of its history and loading it into any object of the same type, fresh or used, gives an object that answers every query like the saved one did and behaves from then on, under any further operations, exactly as the saved one would have: all later results are identical. Loading overwrites whatever the target held (the name of move statistics, which is not part of the checkpoint, stays); saving does not change the object saved.",
  ["crash_points", "histories"], "every point of every history at which a simulation can be checkpointed, text and binary archives, fresh and used targets",
  "No test serializes anything; a missing or swapped field shows only in what the object does after the restore.",
  ["accumulators/KahanAccumulator.hpp", "accumulators/NeumaierAccumulator.hpp", "accumulators/KnuthWelfordAccumulator.hpp", "accumulators/WestAccumulator.hpp", "accumulators/NaiveIntegerAccumulator.hpp", "HistAccumulator.hpp", "mcutils/MoveStats.hpp", "ObservableGroup.hpp"],
  [("serialize", "each of these classes")], [("archive", "the checkpoint", "caller")], ["all queries after a restore"])

p("C21", "Copies of statistics objects are independent and complete",
  "A copy or a moved-to object, constructed or assigned, of any accumulator, histogram, move statistics or observable group answers and continues exactly as its source would have at that moment. Afterwards operations on one never change what the other reports.",
  ["histories"], "every point of every history at which an object is copied or moved, followed by any operations on either object",
  "No test copies a statistics object.",
  ["accumulators/KahanAccumulator.hpp", "accumulators/NeumaierAccumulator.hpp", "accumulators/KnuthWelfordAccumulator.hpp", "accumulators/WestAccumulator.hpp", "accumulators/NaiveIntegerAccumulator.hpp", "HistAccumulator.hpp", "mcutils/MoveStats.hpp", "ObservableGroup.hpp"],
  [("copy and move members", "each of these classes")], [], ["all queries of both objects"])

p("C22", "Linear and logarithmic spaces enumerate their points",
  "After any number k of increments, whether by prefix, postfix or calling the object, the current value of a space of n steps from first to last is the k-th equally spaced point: first + k(last-first)/n for the linear one and first (last/first)^(k/n) for the logarithmic one, up to rounding. Prefix increment yields the advanced space, postfix and call yield the value before advancing; collecting m values yields the next m values and advances nothing; iterating from begin to end visits exactly the n points from first on, excluding last, and does not depend on or disturb the position of the object. Two spaces of one range compare equal exactly when they are at the same step.",
  ["inputs", "histories"], "all ranges, numbers of steps, bases and sequences of operations",
  "Neither class has a test.",
  ["LinSpace.hpp", "LogSpace.hpp"], [("operator++ / operator() / begin / end / Collect", "LinSpace.hpp, LogSpace.hpp")],
  [("current_value_, step_", "position", "LinSpace.hpp, LogSpace.hpp")], ["operator*", "operator()", "operator++", "begin", "end", "Collect", "operator=="])

p("C23", "Random choices follow the given probabilities",
  "A choice among weights, given directly or as partial sums, returns an index of the list, never one of weight zero, and over uniformly distributed random draws returns each index with frequency proportional to its weight; both forms make the same choice for the same random state. A choice with probability p is true with frequency p: never for p = 0 and always for p = 1. The weights or partial sums passed in are not changed.",
  ["inputs"], "all weight lists with a positive sum (zeros included), all probabilities and all random states",
  "None of the choice functions has a test.",
  ["MathUtils.hpp"], [("choose_between / choose_between_psums / choose_with_probability", "MathUtils.hpp")], [], ["the returned choices under enumerated random draws"])

p("C24", "upper_bound finds the first greater element",
  "For every sorted range, of any length and with any repetitions, and every value (with representable differences), the search terminates and returns the position of the first element greater than the value, or the end if there is none.",
  ["inputs"], "all sorted ranges below and above the interpolation threshold, integer and floating-point, with duplicates, and all values including the elements themselves",
  "The function has no test.",
  ["MathUtils.hpp"], [("bwsl::upper_bound", "MathUtils.hpp")], [], ["the returned position"])

p("C25", "Enum/string conversion is a bijection and rejects unknown names",
  "For every enumeration defined with the library's macro, converting an enumerator to a string gives its name and converting exactly that name back gives the enumerator, also when one name is a prefix of another. Any other string throws the conversion error of that enumeration, whose message contains the string and the name of the enumeration, and leaves the target unchanged; a value that is no enumerator converts to the unknown marker naming the enumeration.",
  ["inputs", "programs"], "all enumerations defined with the macro, all their enumerators and all strings",
  "One enumerator of one enumeration is converted each way; the error path is not tested.",
  ["EnumString.hpp"], [("BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS", "EnumString.hpp")], [], ["ToString", "FromString", "what()"])

p("C26", "Approximate comparison honours both tolerances",
  "A number equals an approximate value exactly when their difference is at most the larger of the absolute tolerance and the relative tolerance times the magnitude of the approximate value, in either operand order, with the tolerances last set (their sign is irrelevant; initially zero absolute and 100 machine epsilons relative). The other five comparisons are the ones consistent with it: unequal is the negation, less-or-equal is less or equal, strictly less is less and not equal, and likewise for greater.",
  ["inputs"], "all values and tolerances, both operand orders",
  "Approx has no test.",
  ["Approx.hpp"], [("operator==", "Approx.hpp"), ("SetAbs / SetRel", "Approx.hpp")], [], ["the comparison operators"])

p("C27", "File comparison is equality of contents",
  "Comparing two files is true exactly when both can be read and hold the same bytes: any difference in length or in any one byte at any position makes it false, and so does a file that is missing. The comparison is symmetric and changes neither file.",
  ["inputs", "configurations"], "all contents of any length and missing files",
  "The function has no test.",
  ["FileUtils.hpp"], [("compare_files", "FileUtils.hpp")], [], ["the returned flag"])

p("C28", "Random generator state survives checkpointing and dumping",
  "Saving a Mersenne Twister engine at any point of its stream and loading it into any engine of the type, fresh or used, makes that engine continue with exactly the numbers the saved one goes on to produce, and saving changes nothing. The state the dump application prints for a seed is that of a freshly seeded 64-bit engine, and without a seed it fails. An archive whose text is not an engine state is rejected with an error.",
  ["crash_points", "histories", "inputs"], "all seeds, all stream positions, 32 and 64 bit engines, text and binary archives",
  "Neither the serialization nor the application has a test.",
  ["RNGUtils.hpp", "applications/dumpmt.cpp"], [("save / load / serialize", "RNGUtils.hpp"), ("main", "applications/dumpmt.cpp")],
  [("engine state", "position in the stream", "std::mersenne_twister_engine")], ["numbers drawn after a restore", "output of dumpmt"])

p("C29", "Arithmetic helpers compute what they name",
  "Within the range of the types: square, cube, product, sum, maximum, minimum, sum of squares, Euclidean norm, sign, absolute and signed difference, element-wise sum, difference and negation of vectors, greatest common divisor of non-negative integers, binomial coefficient (exact while its intermediate products fit, zero if more are chosen than there are), step functions and linear interpolation (exactly its end points at 0 and 1) return the mathematical value for every argument, also where the result type is wider than that of the elements. Functions that return a modified copy leave their argument unchanged and in-place ones return the modified object.",
  ["inputs"], "all arguments within the range of the types, containers of any length (non-empty for extrema)",
  "Only square and the gcd are reached, and only indirectly.",
  ["MathUtils.hpp"], [("the free functions", "MathUtils.hpp")], [], ["returned values"])

p("C30", "Relational macros derive consistent comparisons",
  "For every user type, pair of types or class template with a strict weak order given by its operator<, the operators the relational macros define are the ones of that order: greater is less with the operands exchanged, less-or-equal and greater-or-equal are the negations of greater and less, and equal (unless the user defines it) is neither less nor greater. Unequal is the negation of equal. Hence exactly one of less, equal and greater holds for every two values, and all of this holds with either type on the left.",
  ["inputs", "programs"], "all types with an order of their own and all pairs of their values, equivalent but different ones included",
  "No test instantiates the macros for a type of the user; RationalNum uses one of them.",
  ["RelationalUtils.hpp"], [("OVERLOADRELATIONAL / OVERLOADRELATIONALNOEQ / TEMPLATEOVERLOADRELATIONAL / FDEFINEOVERLOADRELATIONAL", "RelationalUtils.hpp")], [], ["the six operators in both operand orders"])

p("C31", "Exceptions keep an account of what failed",
  "The message of a library exception names what failed: the move of an invalid sequence, the number that is not a probability, the string and enumeration of a failed conversion; the others have a non-empty message. The message stays the same for as long as the exception or any copy of it exists, however it was copied, assigned, thrown or rethrown, also after the original is gone. Each exception is caught as its own class and as std::exception.",
  ["inputs", "histories"], "all names, strings and numbers, and all sequences of copies, assignments, throws and destructions",
  "One test looks at a type that is thrown; messages and lifetimes are not tested.",
  ["mcutils/MoveStats.hpp", "EnumString.hpp", "Exceptions.hpp", "accumulators/AccumulatorsExceptions.hpp"],
  [("MoveInvalidSequence, InvalidProbability", "mcutils/MoveStats.hpp"), ("EnumStringConversionFailed_*", "EnumString.hpp"), ("BadParsing", "Exceptions.hpp"), ("AccumulatorOverflow", "accumulators/AccumulatorsExceptions.hpp")],
  [("message_", "text of the message", "mcutils/MoveStats.hpp, EnumString.hpp")], ["what()"])

p("C32", "Objects of different threads do not affect each other",
  "Threads that each use objects of their own (grids, lattices, rational numbers, move statistics, accumulators, histograms, observable groups on files of their own, ranges, engines, exceptions) or the free functions on arguments of their own may run at the same time: whatever the interleaving, there is no data race, and every thread gets exactly the answers it would get if it ran alone. An object behaves the same whichever thread uses it, so it may be made by one thread, handed to another, updated there and copied, saved or destroyed by a third.",
  ["schedules", "histories"], "all interleavings of threads with disjoint objects, and all hand-overs of an object between threads",
  "No test starts a thread; a static buffer, cache or generator shared between objects passes every single-threaded test.",
  ["HyperCubicGrid.hpp", "Lattice.hpp", "MathUtils.hpp", "RationalNum.hpp", "HistAccumulator.hpp", "ObservableGroup.hpp", "EnumString.hpp", "mcutils/MoveStats.hpp", "accumulators/KahanAccumulator.hpp", "LinSpace.hpp", "LogSpace.hpp"],
  [("all classes and free functions", "include/bwsl")], [("(none shared)", "no state outside of the objects", "include/bwsl")], ["the answers of every thread", "the memory accesses of the threads (ThreadSanitizer)"])

p("C33", "Objects that are only queried can be shared between threads",
  "Any number of threads may at the same time ask one object questions that do not change it: coordinates, jumps, neighbours, distances, positions, momenta, structure factors and tables of a grid or lattice; results of accumulators, histograms and move statistics; comparisons and text of rational numbers; the current value of a range; the message of an exception; copying an object or saving it to an archive. There is no data race, each thread gets the answers a single thread would get, and the object stays as it is.",
  ["schedules"], "all interleavings of queries of one object by several threads",
  "No test starts a thread; a lazily filled table or a remembered last answer passes every single-threaded test.",
  ["HyperCubicGrid.hpp", "Lattice.hpp", "Bravais.hpp", "RationalNum.hpp", "HistAccumulator.hpp", "ObservableGroup.hpp", "mcutils/MoveStats.hpp", "accumulators/KahanAccumulator.hpp", "LinSpace.hpp", "RNGUtils.hpp"],
  [("const member functions", "include/bwsl"), ("save", "accumulators, HistAccumulator.hpp, mcutils/MoveStats.hpp, RNGUtils.hpp")], [("tables of a lattice", "computed once, on construction", "Lattice.hpp")],
  ["the answers of every thread", "the memory accesses of the threads (ThreadSanitizer)"])

p("C34", "Grids and lattices are values",
  "A Bravais lattice, a lattice and its grid can be copied, assigned over another one of any kind, dimension, extents or boundaries, assigned to itself, moved, swapped and kept in containers: afterwards every query of the result answers as the same query of the source would, and whatever then happens to one of two copies, its destruction included, leaves the other unchanged. A moved-from object can be assigned to. GetGrid() and the grid a lattice is converted to have the extents and boundaries of the lattice and answer like a grid constructed from them.",
  ["inputs", "histories"], "all histories of constructions, copies, assignments, moves, swaps and destructions of any lattices, and every query afterwards",
  "No test copies or assigns a lattice; a forgotten, shared or stale member shows only for particular pairs of lattices and particular queries.",
  ["Bravais.hpp", "HyperCubicGrid.hpp", "Lattice.hpp"],
  [("special member functions", "Bravais.hpp, HyperCubicGrid.hpp, Lattice.hpp"), ("GetGrid", "HyperCubicGrid.hpp")], [("all members of a lattice", "extents, boundaries, Bravais lattice and tables computed on construction", "Lattice.hpp, HyperCubicGrid.hpp")],
  ["all queries of grids and lattices", "saved files"])

p("C35", "Headers combine freely in programs of several translation units",
  "Every header of the library can be included on its own, more than once, in any order and together with any of the others, in any number of translation units of a program: each unit compiles, all of them link into one program, and no header takes names outside of its namespaces. In such a program the answers do not depend on which unit asks, nor on which other headers it includes: objects made, archives written and exceptions thrown in one unit are used, read and caught (as their own class) in another, the built-in lattices are ready for objects with static storage, and the enumeration and relational macros can be used in a header shared by several units.",
  ["inputs"], "all programs: numbers of units, and the headers each of them includes in any order",
  "Every test is a program of a single unit with one or two headers, so a definition that may appear only once, a header guard used twice or a dependence on the order of inclusion passes them all.",
  ["all headers", "FileUtils.hpp", "EnumString.hpp", "RelationalUtils.hpp"],
  [("all headers", "include/bwsl")], [("(none)", "no state beside the objects", "include/bwsl")], ["the compiler's and linker's verdict", "answers of the units of a program"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
