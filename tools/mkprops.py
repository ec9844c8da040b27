#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
H = "include/MTToolBox/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "The minimal polynomial reported for an output bit is exact",
 "For every F2-linear generator, every starting state, every output bit position (counted from the least significant bit) and every declared state size not smaller than the sequence's linear complexity, the minimal polynomial computed from the generator is the unique monic polynomial p of least degree with sum_j p_j*s(i+j)=0 for all i, where s is the sequence of that bit in the outputs that follow the current state. A constantly zero bit yields the polynomial 1.",
 ["inputs"], "all linear generators, states, output bits, word widths and declared state sizes",
 "The tests compute minimal polynomials of TinyMT and MT with fixed seeds, bit 0 only, and only look at the degree.",
 [H+"period.hpp"], [("minpoly", H+"period.hpp"), ("getBitOfPos", H+"util.hpp")], ["returned polynomial"])

prop("C02", "Irreducibility and maximal-period verdicts on polynomials are exact",
 "For every polynomial over F2 the irreducibility test answers true exactly for irreducible polynomials. The primitivity tests answer true exactly when the polynomial has the stated degree n, is irreducible and, if prime factors of 2^n-1 are supplied (n at least 2), x has order 2^n-1 modulo it; the variant without degree or factors answers true exactly for irreducible polynomials whose degree is a Mersenne exponent, and the default (Mersenne) criterion object exactly for irreducible polynomials of the requested degree. The verdict is the same for string and integer factor lists and never depends on earlier calls.",
 ["inputs", "histories"], "all polynomials, degrees and factor lists of 2^n-1",
 "The tests ask about one or two polynomials per kind; no test has an irreducible non-primitive polynomial whose order misses one specific prime.",
 ["lib/period.cpp", "lib/AlgorithmPrimitivity.cpp", H+"period.hpp", H+"AlgorithmPrimitivity.hpp"],
 [("isIrreducible", "lib/period.cpp"), ("isPrime (3 variants)", "lib/period.cpp"), ("AlgorithmPrimitivity::operator()", "lib/AlgorithmPrimitivity.cpp")], ["returned booleans"])

prop("C03", "Shipped factor tables and the Mersenne exponent list are complete and correct",
 "Each shipped factor table for degree N (128 to 544 in steps of 32, 640, 800, 960) lists every prime divisor of 2^N-1 and nothing else. The Mersenne-exponent query answers true exactly for the exponents e with 2^e-1 prime, for every e up to the largest one it knows.",
 ["configurations", "inputs"], "all tables, all entries, all exponents up to the largest listed one",
 "The tests only check that the listed numbers divide 2^N-1 for some tables: a missing or composite entry, or a missing exponent, passes.",
 ["lib/AlgorithmPrimitivity.cpp", "lib/period.cpp"],
 [("prime_factors2_N_1", "lib/AlgorithmPrimitivity.cpp"), ("mersenne_exponent", "lib/period.cpp")], ["exported tables", "isMexp result"])

prop("C04", "Detection of a large irreducible factor is exact",
 "Asked whether a polynomial has an irreducible factor of a given degree greater than half the polynomial's degree, the library answers yes exactly when it has one, for any multiplicities and kinds of the remaining small factors (including x). When the answer is yes the polynomial handed in has become exactly that irreducible factor.",
 ["inputs"], "all polynomials and all degrees above half the polynomial's degree",
 "Only reached indirectly by one reducible TinyMT test with fixed parameters.",
 ["lib/period.cpp"], [("hasFactorOfDegree", "lib/period.cpp")], ["returned boolean and modified argument"])

prop("C05", "A recursion search succeeds only on, and at the first, maximal-period parameters",
 "A search with a budget of t tries sets up at most t parameter sets from the given source, in order, and returns true at the first one whose generator has a characteristic polynomial of full degree accepted by the chosen criterion, false after all t failed; a non-positive budget tries nothing. On success the generator holds that parameter set, so every nonzero state has period 2^n-1 under a primitive criterion, the reported polynomial is its characteristic polynomial and the parameter string is the generator's; the reported count is the number of parameter sets tried since the search object was created, over all calls. Repeating the search with an equal source gives equal results.",
 ["inputs", "histories"], "all generators, parameter streams, budgets, criteria and sequences of calls on one search object",
 "Tests run one seed to the first success and compare nothing about skipped candidates, budgets, counts or resumed searches.",
 [H+"AlgorithmRecursionSearch.hpp"], [("AlgorithmRecursionSearch::start", H+"AlgorithmRecursionSearch.hpp")], ["start/getMinPoly/getCount/getParamString results", "generator parameters"])

prop("C06", "A reducible search succeeds only on parameters with the required factor",
 "A search over reducible generators returns true at the first of at most t parameter sets whose minimal polynomial has an irreducible factor of exactly the required degree (that degree exceeding half the state size) and false after all t failed; on success the reported polynomial is that minimal polynomial and the reported factor is its irreducible factor of the required degree. The reported count is the number of parameter sets tried since the object was created, and the generator holds the last set tried.",
 ["inputs", "histories"], "all reducible generators, parameter streams, budgets and call sequences",
 "One reducible generator and one seed in the tests; rejection and the factor itself are not checked.",
 [H+"AlgorithmReducibleRecursionSearch.hpp", "lib/period.cpp"], [("AlgorithmReducibleRecursionSearch::start", H+"AlgorithmReducibleRecursionSearch.hpp")],
 ["start/getCharacteristicPolynomial/getIrreducibleFactor/getCount results"])

prop("C07", "Whole-output characteristic polynomial and annihilation are exact",
 "The characteristic polynomial accumulated for a generator is the least common multiple of the polynomial it started from and the minimal polynomials of all output bits from the current state on, unless it already reached the full state size. Applying a polynomial p to a generator replaces its state s by p(A)s, where A is the one-step transition, for every p and s (so the generator's own characteristic polynomial gives the zero state and, for an invertible transition, its cofactor leaves a state whose outputs have exactly the chosen factor as minimal polynomial); the zero polynomial gives the zero state.",
 ["inputs"], "all reducible generators, states and polynomials",
 "Tests use one fixed generator and look at one degree.",
 [H+"AlgorithmReducibleRecursionSearch.hpp", H+"ReducibleGenerator.hpp", H+"util.hpp"],
 [("calcCharacteristicPolynomial", H+"AlgorithmReducibleRecursionSearch.hpp"), ("annihilate", H+"ReducibleGenerator.hpp"), ("LCM", H+"util.hpp")], ["polynomial", "outputs after annihilation"])

prop("C08", "The dimension of equidistribution is exact at every accuracy",
 "For every maximal-period F2-linear generator with n-bit state, every word width (16, 32, 64, 128 bits) and every accuracy v up to the word width, the reported k(v) is the largest k such that the v most significant bits of k consecutive outputs take every value equally often over all states. The reported total is the sum over v of floor(n/v)-k(v) (with the declared maximal-period dimension in place of n when one is given).",
 ["inputs", "configurations"], "all maximal-period generators, word widths and bit lengths",
 "The tests compare the total defect of one TinyMT parameter set with zero; a wrong k(v) that keeps the total, another width or a defective generator is never looked at.",
 [H+"AlgorithmEquidistribution.hpp", H+"util.hpp"], [("AlgorithmEquidistribution", H+"AlgorithmEquidistribution.hpp"), ("calc_1pos", H+"util.hpp")],
 ["get_all_equidist / get_equidist results"])

prop("C09", "Quality queries agree with each other and never disturb the generator",
 "Asking for the equidistribution of a generator leaves that generator's state, parameters and subsequent outputs as they were. The single-accuracy query returns the same k(v) as the all-accuracy query, together with the sum of the defects of all lower accuracies, and all answers are the same for every nonzero state the maximal-period generator may be in and every number of earlier queries made on other query objects.",
 ["inputs", "histories"], "all maximal-period generators, nonzero states, bit lengths and query sequences",
 "No test compares two queries, states or a generator before and after.",
 [H+"AlgorithmEquidistribution.hpp"], [("linear_generator_vector clone", H+"AlgorithmEquidistribution.hpp"), ("get_equidist", H+"AlgorithmEquidistribution.hpp"), ("adjust", H+"AlgorithmEquidistribution.hpp")],
 ["query results", "outputs of the measured generator"])

prop("C10", "Equidistribution of a reducible generator's maximal-period part is exact",
 "For a generator whose characteristic polynomial is f*q with f irreducible of degree m, measured from a state with a nonzero f-part, the reported k(v) is the largest k such that the v most significant bits of k consecutive outputs are uniformly distributed over the states in the invariant subspace belonging to f, and the totals are sums of floor(m/v)-k(v). The generator handed in keeps its state and outputs.",
 ["inputs"], "all reducible generators with coprime f and q, states, widths and accuracies",
 "One reducible TinyMT in the tests, only the total is printed or compared.",
 [H+"AlgorithmReducibleEquidistribution.hpp"], [("AlgorithmReducibleEquidistribution", H+"AlgorithmReducibleEquidistribution.hpp")], ["get_all_equidist / get_equidist results"])

prop("C11", "The partial-pattern tempering search keeps a best pattern in every block",
 "Working block by block (bit positions in steps from the most, or in least-significant-bit mode from the least, significant end; for each block one tempering parameter after the other) the search leaves in each parameter's block a pattern with the smallest total equidistribution defect over all patterns of that block given the earlier decisions, and among equals one with the most ones. Bits outside the searched range are untouched, the generator ends up set up with exactly the chosen patterns, its recursion and state unchanged, and bit-reversed output switched off.",
 ["inputs", "configurations"], "all generators, numbers of parameters, searched widths, steps and both directions",
 "One MT-style generator and one step size in the tests, and only that a search terminates.",
 [H+"AlgorithmPartialBitPattern.hpp"], [("search_best_temper", H+"AlgorithmPartialBitPattern.hpp"), ("make_mask", H+"AlgorithmPartialBitPattern.hpp")], ["tempering patterns left in the generator", "outputs"])

prop("C12", "The best-bits tempering search keeps the best patterns at every bit",
 "Starting from all-zero tempering patterns the search decides the patterns bit level by bit level from the most significant end; at each level it keeps, out of all settings of the bits that can influence that output bit made from all survivors of the previous level, exactly ones with the smallest total defect over the accuracies decided so far, and it finally installs one survivor. (Pattern bits that a parameter's shift makes ineffective are left out of the comparison.) The generator ends set up with those patterns, its recursion unchanged, and bit-reversed output switched off.",
 ["inputs", "configurations"], "all generators, shift amounts, one or two parameters and search depths",
 "One generator in the tests, and only that the search terminates.",
 [H+"AlgorithmBestBits.hpp"], [("search_best_temper / make_pattern / inRange", H+"AlgorithmBestBits.hpp")], ["tempering patterns left in the generator"])

prop("C13", "The combined search reports facts about the generator it leaves behind",
 "A combined recursion-and-tempering search returns only when the generator holds a parameter set whose characteristic polynomial is accepted by the criterion; it then applies the given tempering steps (first the least-significant-bit step unless told not to, then the main one) and reports that characteristic polynomial (for reducible generators the irreducible factor of the required degree), its number of nonzero coefficients, and the total equidistribution defect of the generator as left behind (for reducible generators: of its maximal-period part, measured against the required degree). For reducible generators it also installs and reports a valid period-certification vector, and verbosity never changes any result.",
 ["inputs", "configurations"], "all generators, parameter sources, criteria, tempering steps and flags",
 "Tests run fixed seeds and check the defect of one result.",
 [H+"AlgorithmRecursionAndTempering.hpp", H+"AlgorithmReducibleRT.hpp"], [("search", H+"AlgorithmRecursionAndTempering.hpp"), ("search", H+"AlgorithmReducibleRT.hpp")],
 ["getWeight/getDelta/getCharacteristicPolynomial/getParity", "generator left behind"])

prop("C14", "The period-certification vector guarantees the large period",
 "For a reducible generator with characteristic polynomial f*q (f irreducible of the required degree, coprime to q, every part of the state visible through the certified word), the computed vector is nonzero and every state reached by at least one step (with an invertible transition: every state) whose certified word has odd inner product with it has a nonzero f-part, hence a period divisible by that of f. The vector is also installed in the generator, and when no nonzero such vector exists the search reports failure by throwing instead of returning one.",
 ["inputs"], "all reducible generators and states",
 "Only exercised by one test with fixed parameters that checks termination.",
 [H+"AlgorithmCalculateParity.hpp", H+"ReducibleGenerator.hpp", "samples/RMT/rmt64.hpp", "samples/sfmtdc/sfmtsearch.hpp", "samples/dSFMTdc/dSFMTsearch.hpp"], [("searchParity", H+"AlgorithmCalculateParity.hpp")], ["returned vector", "getParityValue / parameters"])

prop("C15", "The linearity tester accepts exactly what behaves linearly in its window",
 "For a generator the tester answers true when, over the first hundred outputs, the sum of a state with itself outputs only zeros and the outputs of the sum of two differently seeded states are the exclusive-or of their outputs, and false as soon as any bit of any of those outputs differs. It never changes the generator it is given.",
 ["inputs"], "all generators, linear or deviating in any single bit of any single output of the window",
 "Tests only feed it linear generators and expect true.",
 [H+"TestLinearity.hpp"], [("test1/test2", H+"TestLinearity.hpp")], ["returned boolean", "outputs of the tested generator"])

prop("C16", "The Mersenne Twister parameter sources reproduce the reference streams",
 "For every seed (integer, text or array of any length from 1 up) and every interleaving of 32-bit and 64-bit reads and re-seedings, the 32-bit source yields the reference MT19937 stream and the 64-bit source the reference MT19937-64 recurrence and tempering with the seeding rules of this library. A 64-bit read of the 32-bit source is two consecutive 32-bit values, high half first; a 32-bit read of the 64-bit source is the high half of one value; two objects seeded alike give equal streams and objects never influence each other.",
 ["inputs", "histories"], "all seeds, key arrays and interleavings of calls over any number of outputs",
 "The tests do not compare the streams with the reference at all.",
 [H+"MersenneTwister.hpp", H+"MersenneTwister64.hpp"], [("seed / seed_array / next", H+"MersenneTwister.hpp"), ("seed / seed_array / next", H+"MersenneTwister64.hpp")], ["returned words"],
 [("state ring", "last N words of the recurrence", H+"MersenneTwister.hpp")])

prop("C17", "The sequential parameter source enumerates every value exactly once",
 "A sequential source started at s yields (s xor mask), (s-1 xor mask), ..., (0 xor mask) and then throws on every further request, through whichever read width it is used; re-seeding restarts it at the given value and clears the exhaustion. A copy continues independently from the same point with the same remaining values.",
 ["inputs", "histories"], "all masks, start values, widths and sequences of reads, copies and re-seedings",
 "No test touches it.",
 [H+"Sequential.hpp"], [("next / reseed", H+"Sequential.hpp")], ["returned values and exceptions"],
 [("countdown", "next value and exhaustion flag", H+"Sequential.hpp")])

prop("C18", "Bit and word helpers compute their mathematical definition",
 "For every input of every supported width: bit count, bit reversal (32 and 64 bits), position of the lowest set bit counted from the most significant end (-1 for zero), largest power of two not above, mapping into an integer range, reading and writing one bit, conversion to and from a bit vector (most significant bit first), table filling by exclusive-or of the selected source entries, least common multiple and textual polynomial output equal their definitions. Conversions to a bit vector and back, double reversal, and reading a written bit are identities.",
 ["inputs"], "all words of 16, 32 and 64 bits, positions and tables",
 "No test calls them directly.",
 [H+"util.hpp"], [("helpers", H+"util.hpp")], ["return values"])

prop("C19", "128-bit words obey the same word algebra as the built-in widths",
 "For every pair of 128-bit words, every shift amount 0..127 and every position 0..127, shifting, complement, and, or, exclusive-or, comparison, zero test, single-bit read and write, lowest-set-bit position, most-significant-bit masks and bit reversal of the 128-bit word type equal the corresponding operation on the vector of its 128 bits, in both programs that carry the type.",
 ["inputs"], "all 128-bit words, shifts and positions",
 "No test includes the 128-bit word type.",
 ["samples/sfmtdc/w128.hpp", "samples/dSFMTdc/w128.hpp"], [("operators and helpers", "samples/sfmtdc/w128.hpp"), ("operators and helpers", "samples/dSFMTdc/w128.hpp")], ["return values"])

prop("C20", "Every shipped generator is a linear object",
 "Each shipped generator (xorshift, MT-style, TinyMT, MTGP, RMT, SFMT, dSFMT) behaves under any interleaving of seeding, stepping, cloning, zeroing and adding as a vector: adding one object to another makes its future outputs the exclusive-or of both futures from their current positions, zeroing gives the object that outputs only zeros, a clone continues identically and independently, and the zero test holds exactly for an object whose state is the zero vector. For the generators with numbered state bits, setting one bit gives for each number in 0..state size-1 a different state and together they form a basis of the state space; a truncated read returns the leading (or, reversed, trailing) bits of the next output and zeros below.",
 ["histories", "inputs"], "all interleavings of operations on any number of objects, all parameters and seeds",
 "The linearity tests run two seeds on two generators without interleaving, ring-offset differences or zero tests.",
 ["samples/TinyMTDC/tinymt32search.hpp", "samples/MTGPDC/MTGP32search.hpp", "samples/RMT/rmt64.hpp", "samples/sfmtdc/sfmtsearch.hpp", "samples/dSFMTdc/dSFMTsearch.hpp", "samples/XORSHIFT/xorshift-5.cpp", "samples/MTDC/mt1.cpp", "samples/MTDC/mt2.cpp"],
 [("add / setZero / isZero / clone / setOneBit / generate", "samples/*")], ["outputs of the objects"])

prop("C21", "SIMD equidistribution of 128-bit generators is exact",
 "For a 128-bit-word generator measured as a stream of 32-bit or 64-bit integers from its maximal-period component, the reported k(v) is the minimum over the lane a run may start in of the best value provable from aligned runs: the maximum over the number w of leading lanes in the last block of (lanes*e - (lanes-w)), where e is the largest number of blocks such that the v leading (or trailing, in reversed mode) bits of all lanes in e consecutive blocks, shifted by w lanes, are jointly uniform. The reported total is the sum of floor(mexp/v)-k(v), and the generator handed in is not changed.",
 ["inputs", "configurations"], "all 128-bit generators, lane widths, accuracies and directions",
 "No test runs it.",
 ["samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp", "samples/sfmtdc/sfmtsearch.hpp"], [("calc_SIMD_equidistribution", "samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp")], ["veq and delta"])

prop("C22", "Double-precision SIMD equidistribution is exact",
 "For a 128-bit-word generator of 52-bit fractions measured as a stream of doubles from its maximal-period component, the reported k(v) for v up to 52 is the minimum over the starting lane of the maximum over the number w of leading lanes in the last block of (2e-(2-w)), where e is the largest number of blocks for which the v leading fraction bits of both lanes of e consecutive blocks, shifted by w lanes, are jointly uniform. The reported total is the sum of floor(mexp/v)-k(v), and the generator handed in is not changed.",
 ["inputs", "configurations"], "all generators, accuracies and starting lanes",
 "No test runs it.",
 ["samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp", "samples/dSFMTdc/dSFMTsearch.hpp"], [("calc_dSFMT_equidistribution", "samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp")], ["veq and delta"])

prop("C23", "Certified states of the SIMD generators really have the large period",
 "For SFMT and dSFMT parameter sets with an accepted recursion and computed certification vector, running the period certification on any state returns whether the state was already certified, changes at most one bit of it, and afterwards the state is certified (a second run returns so) and its trajectory has the large irreducible factor in its minimal polynomial. For dSFMT the computed fix point makes this hold for the affine recursion with the constant exponent bits present.",
 ["inputs"], "all parameter sets and states",
 "No test runs it.",
 ["samples/sfmtdc/sfmtsearch.hpp", "samples/sfmtdc/calc_parity.cpp", "samples/dSFMTdc/dSFMTsearch.hpp", "samples/dSFMTdc/calc_fixpoint.cpp", "samples/dSFMTdc/calc_parity.cpp", "samples/sfmtdc/Annihilate.cpp", "samples/dSFMTdc/Annihilate.cpp"], [("periodCertification / calc_parity / calc_fixpoint", "samples")], ["return values and outputs"])

prop("C24", "The xorshift128 library never starts from the zero state and is reproducible",
 "For every integer seed and every key array of any length, initialisation gives a nonzero state determined by the seed or key alone, whatever the object held before: for a seed, the last four of the eight words of the documented linear-congruential expansion; for a key, the result of the documented mixing rounds (max(8, length+1) rounds, the first with the key length, the next ones with the key words, then four closing rounds), with the fixed replacement state exactly when the mixing ends in zero. The generated words follow the documented recurrence (shifts 20, 11, 7) from that state; equal seeds give equal streams and generators do not influence each other.",
 ["inputs", "histories"], "all seeds, key arrays and numbers of outputs",
 "No test links the library.",
 ["samples/XORSHIFT/xorshift128.c"], [("xorshift128_init / init_by_array / generate / period_certification", "samples/XORSHIFT/xorshift128.c")], ["state and outputs"])

prop("C25", "Search programs print what was asked for, truthfully described",
 "For every command line, the shipped search programs (tinymt32dc, mt2, rmt64dc, sfmtdc, dSFMTdc, MTGP32dc, xorshift-3 and -4) either refuse it - an option or argument missing, malformed or out of range leads to usage, a nonzero status and no set - or print exactly as many sets as requested (all that remain with tinymt32dc -a and for the xorshift listings), to the file if one is given. Every printed set belongs to the command (exponent, identifier, fixed amount), defines a generator of maximal period (reducible generators: with an irreducible factor of the given degree), carries a parity vector that certifies that period, and its printed characteristic polynomial, weight and defects are those of that generator; defects obey the given limit. tinymt32dc and the xorshift listings count down from the given start and leave out no candidate that qualifies. The same command prints the same sets whatever else is asked for, another seed other sets. xorshift-1, -2 and -5 print the true period and dimension tables of their generators.",
 ["inputs", "configurations", "histories"], "all command lines: seeds, counts, identifiers, exponents, limits",
 "No test runs the programs: option handling, counting, seeding and the printed description are untested, and whether a printed polynomial, weight, parity or defect is true needs the generator's own recursion.",
 ["samples/TinyMTDC/tinymt32dc.cpp", "samples/TinyMTDC/parse_opt.cpp", "samples/XORSHIFT/xorshift-5.cpp", "samples/MTDC/mt2.cpp", "samples/RMT/rmt64dc.cpp", "samples/MTGPDC/MTGP32dc.cpp", "samples/sfmtdc/sfmtdc.cpp", "samples/dSFMTdc/dSFMTdc.cpp"], [("main / search / parse_opt / getParamString", "samples")], ["standard output, output file and exit status"])

prop("C26", "The shipped generators implement the recursions their parameter sets denote",
 "Every shipped generator (tinymt32, the MTs, RMT64, MTGP32, SFMT, dSFMT, the five xorshifts), for every parameter set, seed and number of steps, outputs the words given by its published recursion, tempering and seeding with exactly the parameters it holds, whatever was done to it or to its copies before; the parameters it takes from a parameter source are the documented function of the drawn values, lie in the documented ranges and keep the given id; tempering patterns change exactly the masked bits; and its parameter string states exactly the parameters it holds.",
 ["inputs", "histories"], "all parameter sets, seeds, sources, numbers of outputs and sequences of operations",
 "Tests run two or three generators with one parameter set and compare a few outputs; shift amounts, word offsets and parameter strings of the others are never looked at.",
 ["samples/TinyMTDC/tinymt32search.hpp", "samples/MTDC/mt1.cpp", "samples/MTDC/mt2.cpp", "samples/RMT/rmt64.hpp", "samples/MTGPDC/MTGP32search.hpp", "samples/MTGPDC/mtgp_param.h", "samples/sfmtdc/sfmtsearch.hpp", "samples/dSFMTdc/dSFMTsearch.hpp", "samples/XORSHIFT/xorshift-5.cpp"],
 [("generate / seed / setUpParam / setTemperingPattern / getParamString of each generator", "samples")], ["outputs", "parameter strings"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
