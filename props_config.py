# What each check builds and explores.  Every harness is compiled from the current /repo headers on each run.
ALL = ["avx2", "sse4", "gen"]
NEON = ["neon", "neon64"]   # the __ARM_NEON code through emulated intrinsics (harness/neon/arm_neon.h), 32- and 64-bit flavour
CONFIG = {
"C01": dict(
    harness=[dict(src="c01.cc", parts=[0,1,2,3,4,5,6,7], backends=["avx2"])],
    bounds="all primitive polynomials for 2..8 bits with every operand pair (every triple up to 6 bits), three polynomials each for 9..16 bits with every pair up to 12 bits and every element against all boundary operands and wrap-around diagonals above; reference: every pair up to 8 bits over all irreducible polynomials listed, every inverse up to 16 bits, boundary grid for 20..32 bits",
    assumptions=["the oracle is carry-less multiplication from the definition"]),
"C02": dict(
    harness=[dict(src="c02.cc", parts=[0,1,2,3], backends=["avx2"])],
    bounds="every operand pair and exponent for all primes listed below 700 (9000 thorough) in 32- and 64-bit storage; for larger primes up to the largest the storage allows, all boundary operands against the lowest and highest 20000 (or all) elements",
    assumptions=["oracle: 128-bit integer arithmetic"]),
"C03": dict(
    harness=[dict(src="c03.cc", backends=["avx2"])],
    bounds="complete one-step relation (all registers x all bytes/bits) of 8-bit registers for all 256 polynomials and of 16-bit registers for the listed ones, all weight<=2 registers for 32/64 bits; all 16-bit words, all weight<=2 words of every width; every way of cutting 8- and 9-byte messages into 1/2/4/8-byte and bit-wise calls; all histories of 5 operations over two objects",
    assumptions=["oracle: bit-serial division on an explicit bit list"]),
"C04": dict(
    harness=[dict(src="c04.cc", backends=["avx2"])],
    bounds="Xorshift32: all 2^32 seed states and the whole period; others: every weight<=2 / complement seed word in every position with three backgrounds, 2*10^7 steps of the default stream, all step/reset histories of depth 6",
    assumptions=["xorshift generators are linear over GF(2), so weight<=2 states determine the recurrence"]),
"C05": dict(
    harness=[dict(src="c05.cc", backends=["avx2"])],
    bounds="every polynomial up to degree 12 (16 thorough) - every start state up to degree 8, boundary start states above - plus primitive and reducible polynomials of every degree up to 30; all histories of 6 step/reset/bad operations",
    assumptions=["oracle: multiplication by x modulo the polynomial"]),
"C06": dict(
    harness=[dict(src="c06.cc", parts=[0,1,2,3,4], backends=["avx2"])],
    bounds="complete (buffer content, position) state space with every operation for capacities 1..9, 15, 16 bits (12, 13 thorough); every position and every transfer length with six backgrounds for capacities up to 1000 bits; every operation at every position, whole-buffer blocks at nine alignments and a seek-free stream for five capacities from 4096 to 525001 bits (16777300 thorough); all histories of 5 operations out of 14",
    assumptions=["operations stay within the capacity and number types wide enough for the bit count"]),
"C07": dict(
    harness=[dict(src="c07.cc", parts=[0,1,2,3,4,5,6], backends=["avx2"], flags=["-O1"])],
    bounds="shuffles: every size 1..40 and 15 larger sizes up to 100000, each applied forwards, backwards and repeatedly; bit reversal: every power of two up to 2^19; interleavers: every order of every size up to 40 and of 64, 96, 100, 128, twelve large combinations",
    assumptions=["elements are distinct tags, so one run per size determines the permutation"]),
"C08": dict(
    harness=[dict(src="c08.cc", parts=[0], backends=["avx2"]), dict(src="c08.cc", parts=[1,2,3,4,5], backends=["avx2"], backends_thorough=["avx2", "sse4", "gen"], flags=["-O1"])],
    bounds="every weak order of up to 7 (8 thorough) tagged elements for insertion sorts and merge sorts with block sizes 1..8, every 0/1 input up to 15..18 elements, structured inputs for every length up to 400 with the default block size and for fifteen lengths around 2^15 and 2^16 up to 140000; vector sorts: every tie pattern up to 5..8 lanes, all 0/1 patterns of 16 lanes, all swaps and displacements up to 64 lanes, and for three sets of five corner values (ends of the range, both zeros, values differing in one part of their bits) all words up to 5 (four values: 8) lanes and every pair of lanes differing from the others, ten element types",
    assumptions=["comparison based: only the weak order of the keys matters"]),
"C09": dict(
    harness=[dict(src="c09.cc", backends=["avx2"])],
    bounds="every length 2..200 (255 thorough) over the free commutative monoid, fifteen lengths up to 140000 with wrapping sums and a count of the applications of the operation, all inputs over 3-4 letter alphabets up to length 8 for five concrete operations",
    assumptions=["the free commutative monoid determines the result for every associative commutative operation"]),
"C10": dict(
    harness=[dict(src="c10.cc", parts=list(range(10)), backends=["avx2", "sse4", "gen", "neon", "neon64"], flags=["-O1"]),
             dict(src="c10b.cc", backends=["avx2", "sse4", "gen", "neon", "neon64"], flags=["-O1"], nocompile="violation")],
    bounds="all ten element types in five widths each (single, double, triple, quadruple 128-bit registers and an unspecialised width) on three back ends and, through emulated intrinsics, both NEON flavours; every pair of 8-bit operands in every lane, all 16-bit unary operands and eight diagonals, every pair of 20..60 boundary values for wider lanes and floats, all clamp limits and blend masks over boundary values, every index in every lane for shuffles",
    assumptions=["operands for which the scalar definition is undefined in C++ (32/64-bit signed overflow) and floating-point specials (NaN, infinity, denormals) are excluded", "shuffle indices in range"]),
"C11": dict(
    harness=[dict(src="c11.cc", parts=[0,1,2,3], backends=ALL + NEON)],
    bounds="every width and every shift -W..W-1 of all 16- and 32-lane types (selected widths of 64), every single-lane marking, all compositions of two rotations, three back ends",
    assumptions=["shift in [-width, width)"]),
"C12": dict(
    harness=[dict(src="c12.cc", parts=[0,1,2,3,4,5], backends=["avx2"], flags=["-O1"])],
    bounds='forty-odd codes over GF(2^2)..GF(2^16) with 1..64 and 130..600 roots, first roots 0, 1 and others, full length and shortened: all messages where there are few, otherwise every single-symbol message (the map is checked to be linear) and all pairs/structured messages; all words near codewords for the syndromes, each compared with polynomial evaluation from the definition', assumptions=['the encoder is compared on a spanning set plus structured messages for large codes']),
"C13": dict(
    harness=[dict(src="c13.cc", parts=[0,1,2,3,4,5,6,7], backends=["avx2"], flags=["-O1"])],
    bounds='small fields (up to 32 elements): every error position set, every error value, every erasure set and received value inside 2e+f<=NR around several codewords, within a fixed work budget per job; double-error position pairs for all codes with four roots over every primitive polynomial of GF(2^3)..GF(2^8) and one of GF(2^9); double errors at the first and every other position (strided for the largest lengths) of fields GF(2^9)..GF(2^16); larger fields: complete position sets for small weights and boundary positions and values for larger ones; full-length and shortened, all listing orders of few erasures; eleven codes with 20..1022 roots: numbers of errors and erasures around 1, 128, 256, 512 and the capability, in runs and strides from both ends', assumptions=['decoding depends on the codeword only through the syndromes, so few base codewords are used per error pattern']),
"C14": dict(
    harness=[dict(src="c14.cc", parts=[0,1,2,3,4,5,6], backends=["avx2"], flags=["-O1"])],
    bounds='every coset (all syndromes) of the small codes with and without every erasure set up to the number of roots, full length and shortened; all error patterns of weight up to capability+2 for larger codes within a fixed work budget; RS over GF(2^2)..GF(2^16), BCH over GF(2^3)..GF(2^10) with first roots 0..6, packed and reference decoder; fourteen codes with 20..1022 roots: words with no, capability, slightly more and very many errors under ten erasure counts', assumptions=['received words of the same coset are decoded alike (checked on several words of each coset)']),
"C15": dict(
    harness=[dict(src="c15.cc", parts=[0,1,2,3,4], backends=["avx2"], flags=["-O1"])],
    bounds='BCH codes over GF(2^3)..GF(2^16), 1..42 and 60..300 roots, full length and shortened, packed (be bits) and reference layout: messages and error/erasure patterns as for C12/C13, all position pairs of double-error correcting codes up to length 511', assumptions=['the minimal polynomials given are those of the designed roots']),
"C16": dict(
    harness=[dict(src="c16.cc", parts=[0,1,2,3], backends=["avx2"])],
    bounds='twenty codes from (3,1) to (31,21): all messages, every hard word up to length 23 (every syndrome around several codewords above), soft words: full alphabets up to length 7, all ternary words up to length 12, every pattern of up to radius errors in equal amplitudes, every least-reliable set with every sign pattern and up to two further errors, uneven amplitudes', assumptions=['for the larger codes inputs whose least reliable set is not determined by amplitudes are only checked for returning a codeword or failure']),
"C17": dict(
    harness=[dict(src="c17.cc", parts=[0,1], backends=["avx2"])],
    bounds='Hadamard dimension 2..9, 11 and simplex 1..8, 10: every message; all 8-bit soft inputs up to length 2, complete alphabets up to length 8, all binary words up to length 16, all deviations of up to 3 positions around codewords, all mixtures of codeword pairs (ties) and their neighbours; dimensions 11..18 with structured messages and words, correlations by the Walsh recursion', assumptions=['oracle: correlation with every codeword']),
"C27": dict(
    harness=[dict(src="c27.cc", parts=[0,1,2,3], backends=["avx2"], flags=["-O1"])],
    bounds='forty (length, dimension, order) triples up to (127,64): for lengths up to 10 an even spread (all where few) of full-rank generator matrices with every soft word over alphabets of 2..8 values including -128, 0, 127 and ties; BCH codes up to length 127 in both matrix forms with every deviation of up to 3 positions in four amplitude profiles within a fixed work budget; repetition-like codes (dimension up to 7, length up to 28, orders 0..6) in which every subset of flipped basis positions is made the best one in turn; every message (or every weight<=2 message and complement) of eight codes up to length 511 for the encoder; twelve codes of 129..700 symbols with deviations of up to 3 positions', assumptions=["-128 counts as -127 (the decoder's documented clamp); a zero soft value counts as hard decision 0; where several reliability orders are possible because of ties any of them is accepted"]),
"C28": dict(
    harness=[dict(src="c28.cc", parts=[0,1,2,3], backends=["avx2"], flags=["-O1"])],
    bounds='forty (length, dimension, order, list) quadruples up to (127,64) with list lengths 1..300, inputs (planted subsets and codes of up to 700 symbols included) as for C27; complete list compared with all examined codewords', assumptions=['as for C27; list length not above the number of examined codewords']),
"C18": dict(
    harness=[dict(src="c18.cc", parts=[0], backends=["avx2"], flags=["-O1"]), dict(src="c18.cc", parts=[1,2], backends=ALL + ["neon64"], backends_thorough=ALL + NEON, flags=["-O1"])],
    bounds='GF(2^2)..GF(2^7): every arrangement of 1..8 identifiers within budget and all data of tiny blocks; GF(2^8) and GF(2^16): all identifiers (pairs and strided triples), the complete symbol x coefficient product tables of the vector path, every length 1..140 symbols and around 256 with 63 alignment pairs, blocks of up to 131073 symbols, block counts up to 128 / 1000, three overloads, on three back ends', assumptions=['encoding is linear in the data (checked through the product tables), so few data words are used for large block counts']),
"C19": dict(
    harness=[dict(src="c19.cc", parts=[0,1], backends=["avx2"])],
    bounds='P = 5..31: every identifier arrangement and all data (restricted alphabets for larger counts); P = 101, 257, 65537: block counts up to 64 / 256, lengths up to the maximum (255, 65535), data aimed so that every symbol and combinations of symbols hit the escape value, every pair of data symbols for P = 257', assumptions=["identifiers below P/2, as the decoder's Cauchy matrix requires distinct sums"]),
"C20": dict(
    harness=[dict(src="c20.cc", parts=[0], backends=["avx2"], flags=["-O1"]), dict(src="c20.cc", parts=[1], backends=ALL, backends_thorough=ALL + NEON, flags=["-O1"])],
    bounds='levels 1..4: every frozen set (all messages up to level 3); levels 5, 6: every pattern in every aligned window of up to 8 positions on three backgrounds and all pairs of sixteen words; levels 7..11 (14 thorough): structured sets, levels 12..20 (17 for vectors, 20 thorough): four sets with strides and first parities up to 4097 / 70000; every stride/first pair up to 33; eight value types, three back ends', assumptions=['the encoders are linear, so unit and boundary messages determine the larger maps']),
"C21": dict(
    harness=[dict(src="c21.cc", parts=[0,1], backends=["avx2"], flags=["-O1"]), dict(src="c21.cc", parts=[2,3,4], backends=ALL, backends_thorough=ALL + NEON, flags=["-O1"])],
    bounds="level 5: every pattern in every aligned window of 1..8 (16 for scalar types) positions on four backgrounds, each with 2..32 soft words (several amplitude profiles, saturating ones, codewords with flips); complete alphabets on eight positions of six frozen sets, every pattern of up to 3 flips; level 6: all pairs of sixteen words, levels 7/8: every arrangement of five/three word kinds, up to level 11 (12 thorough) structured sets; every level 9..20 (int8, int), 17 (float, 8-bit x 16), 16 (others): two soft words and undistorted codewords on structured sets; undistorted codewords with amplitudes 1..127; int8, int, float and four SIMD types on three back ends", assumptions=["soft words for which plain successive cancellation meets a zero at an information bit are left out (counted in the samples)", "values do not overflow the value type other than by the 8-bit saturation"]),
"C22": dict(
    harness=[dict(src="c22.cc", parts=[0,1,2,3,4,5], backends=ALL, backends_thorough=ALL + NEON, flags=["-O1"])],
    bounds='lists of 2, 4, 8, 16, 32 lanes (8-bit), 8 (16-bit), 4 and 8 (float) on three back ends; level 5: every pattern in every aligned window of 4 and 8 positions on four backgrounds, complete alphabets on up to 10 positions of five frozen sets, every pattern of up to 3 (2) flips, codes with exactly as many messages as lanes against exhaustive search; level 6: all pairs of sixteen words; words with frozen halves, quarters and eighths in both places; structured sets up to level 9 (12 thorough); every level 9..16 (13 for 32 lanes): undistorted codewords and, in float, soft words on structured sets; undistorted codewords with amplitudes up to 127', assumptions=["lanes are compared with the oracle's survivors as sets when no tie at the cut occurs (counts in the samples); metric order, ranks and distinctness always"]),
"C23": dict(
    harness=[dict(src="c23.cc", parts=[0,1,2,3,4], backends=ALL, backends_thorough=ALL + NEON, flags=["-O1"])],
    bounds='as for C22 with every stride 0..K and every first 0..K of nine frozen sets at level 5, strided stride/first combinations at levels 6..9, undistorted codewords (float: soft words too) at every level up to 16 (13 for 32 lanes), words with frozen halves, quarters and eighths, complete alphabets and flip patterns for eight (frozen, stride, first) triples', assumptions=['as for C22; every sixteenth result is re-encoded with the real parity encoder']),
"C24": dict(
    harness=[dict(src="c24.cc", parts=[0], backends=["avx2"])],
    bounds="construction: every code size at every level 0..10 (13 thorough) for 15 design probabilities and at every level 0..6 for 255 probabilities, boundary sizes at levels 11..18; sequence: every level 0..18 for 15 and 0..9 for 255 probabilities; freezer: levels 0..18, 15 probabilities x 14 thresholds plus every exact probability as threshold up to level 4", assumptions=["positions whose erasure probabilities differ by less than 1e-9 relative (double rounding) or lie below 1e-290 may be in either order", "oracle in 80-bit floating point"]),
"C25": dict(
    harness=[dict(src="c25.cc", parts=[0], backends=["avx2"])],
    bounds="the four DVB-T2 tables of the regression test: unit messages at the four boundary positions of every group and at strided positions (every one for the short table in the thorough tier), twelve dense messages checked against every parity check equation; eight tiny tables of the same form with every message, seven small tables with every unit message and pairs", assumptions=["the encoder's sign products are linear over the message signs"]),
"C26": dict(
    harness=[dict(src="c26.cc", parts=[0,1,2], backends=ALL, backends_thorough=ALL + NEON), dict(src="c26.cc", parts=[3,4,5], backends=["avx2"], backends_thorough=ALL)],
    bounds='eight small tables (N 120..450, offsets beta 0..2) and DVB-T2 A1, A3, A6, B7; undistorted words at nine amplitudes and five budgets; every position erased, weakened or slightly flipped; pairs of erasures, sets up to half the redundancy where substitution resolves them (beta 0); complete 3-valued alphabets on eight positions; arbitrary words of eight kinds under eleven trial budgets; verdict compared with an exact parity computation', assumptions=['a small wrong value is at most 8 in magnitude and at most a third of its neighbours, since messages are limited to 31']),
"C29": dict(
    harness=[dict(src="c29.cc", parts=[n], backends=["avx2"] if n in (0,1,2,3,9) or n > 9 else ["avx2"] if n == 8 else ["avx2", "gen"], flags=["-O1", "-DMACH_" + d]) for n, d in enumerate(["RS", "RS", "SHORT", "POLAR", "POLAR", "POLAR", "LDPC", "LDPC", "LDPC", "MISC", "BIGRS", "BIGSHORT", "BIGPOLAR", "BIGMISC", "UTIL"])],
    bounds="about 90 codec and 35 utility machines (sorting, interleaving, rotation, reduction, bit access, fields) with 3..7 operations each (clean, correctable, undecodable, extreme, shortened calls): all object states reachable from four initial memory contents (closed, or up to 200; 2000 thorough), every sequence of 3 (4 thorough) calls on new objects, every succession of 4 (5 thorough) calls on one long-lived object (de Bruijn sequence), every ordered pair of operations with the second called 257 times in a row and, as far as five seconds per machine allow (120 thorough), 65537 times, all 70 interleavings of the lives of two objects for every ordered pair of machines of a family, 24 distinct calls each with the buffers at all 64 places relative to a cache line (as far as their types allow) and two objects, one of them at the least aligned place its type allows; about 35 machines with more than 255 (some more than 65535) of something -- roots, columns, rows, list entries, blocks, symbols, levels to 16 -- with fewer calls", assumptions=["an object's state is the bytes it occupies; hidden static state shows only in the sequence and neighbour explorations"]),
"C30": dict(
    harness=[dict(src="c30.cc", parts=[n], backends=["sse4"], flags=["-O1", "-Xclang", "-fsanitize=thread", "-DMACH_" + d]) for n, d in enumerate(["RS", "RS", "SHORT", "POLAR", "POLAR", "POLAR", "LDPC", "LDPC", "LDPC", "MISC", "UTIL"]) if n != 8],
    bounds="about 85 codec and 35 utility machines: pairs of operations on two objects of the same machine (all pairs of the first four operations, construction, and one operation of every other machine of the family); one preemption of either thread at every memory access (at up to 2500 evenly spaced accesses of longer operations in the full pairs, 60 in the others, 20/4 for the large LDPC tables; thorough 20000/600), and a 16x16 (thorough 60x60) grid of double preemptions; plus the complete access footprints of both threads, which must not conflict", assumptions=["sequentially consistent memory at the granularity of the compiler's instrumented accesses; footprint disjointness makes all longer interleavings equivalent to the explored ones", "stack and thread-local memory is private", "SSE4.1 back end; target intrinsics are ordinary loads and stores to the instrumentation"]),
"C31": dict(
    harness=[dict(src="c31.cc", parts=[n], backends=["asan", "asangen"] if n in (4, 6, 9) else ["asan"], backends_thorough=["asan", "asangen"], flags=["-DMACH_" + d]) for n, d in enumerate(["RS", "RS", "SHORT", "POLAR", "POLAR", "POLAR", "LDPC", "LDPC", "LDPC", "MISC", "BIGRS", "BIGSHORT", "BIGPOLAR", "BIGMISC", "UTIL"])],
    bounds="about 90 codec and 35 utility machines (sorting, interleaving, rotation, reduction, bit access, fields) with 12..60 operations each, five buffer alignments; Reed-Solomon, BCH and both Cauchy codecs at every length from 1 (strided for 255 codes) with clean, correctable, undecodable and random words, with and without erasures at both ends; every received word of RS(15,11), RS(15,12), BCH(15,7), (15,11), (15,5) at every (third for RS) length; merge and insertion sort of every length 0..300; about 35 machines with more than 255 (some more than 65535) of something: roots, columns, rows, list entries, blocks, symbols, polar levels to 16", assumptions=["buffers are heap blocks of exactly the size the parameters define, under the address sanitizer and array bound checks; an access that skips over the red zone into another live block is only seen through the intact() comparison"]),
"C32": dict(
    harness=[dict(src="c32.cc", parts=[n], backends=["sse4", "gen"] if d == "LDPC" else ALL + ["neon64"] if n in (3, 5, 10, 15) else ALL, backends_thorough=["sse4", "gen"] + NEON if d == "LDPC" else ALL + NEON, flags=["-O1", "-DMACH_" + d]) for n, d in enumerate(["RS", "SHORT", "POLAR", "POLAR", "POLAR", "POLAR", "POLAR", "POLAR", "LDPC", "LDPC", "MISC", "BIGRS", "BIGSHORT", "BIGPOLAR", "BIGMISC", "UTIL"])],
    bounds="all codec and utility machines with up to 5000 (thorough 40000) distinct calls each; list decoders over eleven SIMD widths and element types at every level up to 8 and with complete 3-valued alphabets on seven or eight (thorough ten) positions of six frozen sets on two backgrounds; ordered statistics decoders with complete alphabets of up to six values on up to seven positions; LDPC decoders with complete 4-valued patterns on five (seven) positions; Cauchy Reed-Solomon at every length to 150 (300) and four alignments and with every (strided for GF(2^16)) identifier; about 35 machines with more than 255 (some more than 65535) of something", assumptions=["NEON intrinsics are emulated (harness/neon/arm_neon.h) and take part for the 8-bit 16-lane polar and the miscellaneous codecs in the quick tier, for all in the thorough one", "float inputs are multiples of a quarter small enough that no sum is rounded", "the AVX2 LDPC decoder works 30 checks at a time and the others 15, so schedules and outputs legitimately differ; it is decided by C26 on its own"]),
"C33": dict(
    harness=[dict(src="c33.cc", backends=ALL + NEON, flags=["-O1"])],
    bounds="8-bit: all 65536 operand pairs in every lane of six widths, each with every hard decision; 33..51 boundary values (all pairs) for 16-, 32-bit integers, floats and doubles in up to four widths; quantiser: every eighth from -400 to 400 as float and double, every integer from -40000 to 40000, large magnitudes; five back ends", assumptions=["products and multiply-adds with -128 are outside the arithmetic's range", "round-to-nearest floating point environment"]),
"C34": dict(
    harness=[dict(src="c34.cc", parts=[0,1,2,3,4,5], backends=ALL, backends_thorough=ALL + NEON)],
    bounds="fifteen small tables (N 120..840, checks of up to 30 bits, offsets 0..2, checks with and without repeated words, runs of up to three): 400 words of ten kinds each with the soft values after 0..12 or {0,1,2,3,5,9,25} iterations, complete alphabets of three or four values on six positions at four strides; DVB-T2 A1, A3, A6 (SSE4.1 and generic back ends): ten words each; movement bounds over 200 words (up to 60 iterations) on every table including B7", assumptions=["the order in which links to one block take turns is not prescribed: some order must explain all results of a table", "groups of 15 or 30 checks are processed at a time"]),
}
NOT_CLAIMED = {}
