#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Galois field arithmetic is exact",
  "For every binary extension field the library can instantiate (2 to 16 bits, any primitive polynomial), addition, subtraction, negation, multiplication, division, reciprocal, multiply-add and the compound assignments on values, on discrete logarithms and on every mix of the two agree with polynomial arithmetic modulo the field polynomial, and value-to-index and index-to-value conversions are mutually inverse. The table-free reference implementation gives the same results for every irreducible polynomial it supports, including 32-bit wide ones.",
  ["inputs", "configurations"], "all operand tuples of a field, over all primitive polynomials of every width",
  "gf_test samples one polynomial per width and mostly compares the table code with the reference code; operator overloads, other polynomials and wide references are never enumerated.",
  ["galois_field.hh"], [("log/exp tables with one wrap-around subtraction", "GF::Tables, operator * / rcp"), ("shift-and-add multiply, extended Euclid reciprocal", "GaloisFieldReference")],
  ["results of the arithmetic operators"])

p("C02", "Prime field arithmetic is exact",
  "For every prime whose squared predecessor fits the 32- or 64-bit storage type, +, -, unary minus, *, /, pow, reciprocal and the compound assignments on reduced operands return the reduced integer result modulo the prime, and reciprocal inverts every non-zero element. The unreduced helper operations followed by reduce agree with the reduced operators.",
  ["inputs", "configurations"], "all operand pairs and exponents, over many primes and storage types",
  "pf_test covers two primes and a handful of identities; boundary operands (0, 1, P-1) of other primes and types are never compared with integer arithmetic.",
  ["prime_field.hh"], [("reduce after add/sub/mul", "PrimeField operators"), ("square-and-multiply", "pow, rcp")], ["operator results"])

p("C03", "CRC equals reflected polynomial division however data is fed",
  "For every polynomial, register width (8, 16, 32, 64 bits) and initial value, the checksum after feeding a message equals bit-serial reflected polynomial division of that message, the same whether the message is fed as bits, bytes, 16-, 32- or 64-bit little-endian words or any mixture of these. Resetting to any value restarts the computation exactly as a newly constructed object with that initial value would, reading the checksum does not change it, and separate objects do not influence each other.",
  ["inputs", "histories", "configurations"], "all messages, all ways of cutting them into calls, all polynomials and start values",
  "crc_test checks a few fixed strings with fixed call shapes; mixed feeding, resets mid-stream and other polynomials are not enumerated.",
  ["crc.hh"], [("byte look-up table built from the bit update", "CRC constructor"), ("word overloads split into bytes", "CRC::operator()")], ["return value of every call"])

p("C04", "Pseudo random generators follow Marsaglia's recurrences",
  "Each generator (Xorshift32, Xorshift64, Xorshift128, Xorwow) produces, from every seed state and at every position of the stream, exactly the sequence of Marsaglia's published recurrence, returns values within its advertised min and max, starts from the published default seed, and after reset replays the sequence of the given (or default) seed. The 32-bit generator visits every non-zero state exactly once before repeating.",
  ["inputs", "histories"], "all seed states (complete 2^32-1 cycle for 32 bit), any interleaving of steps and resets",
  "The generators are only used as noise sources by tests; no test checks a single output.",
  ["xorshift.hh"], [("shift/xor recurrences", "Xorshift32/64/128, Xorwow operator()"), ("reset", "reset")], ["operator() outputs"])

p("C05", "Maximum length sequence generator and its badness test are exact",
  "For every feedback polynomial of positive degree and every non-zero start state, the generator emits exactly the bit stream of the corresponding shift register with that feedback polynomial, and reset restarts it. The bad() query answers false exactly when the register runs through all 2^degree-1 non-zero states before returning to the start state.",
  ["inputs", "configurations", "histories"], "all polynomials up to a degree bound, all start states",
  "mls_test runs the default polynomial and the search for one; other polynomials, start states and reset are not covered.",
  ["mls.hh"], [("Galois LFSR", "MLS::operator()"), ("period walk", "MLS::bad")], ["emitted bits, bad()"])

p("C06", "Bit buffers read back exactly what was written",
  "For every buffer capacity and every sequence of seek, put and get operations on bits, bytes, bit blocks and byte blocks, aligned or not, the bit stream returns the bits last written at each position in LSB-first order, leaves every other bit of the buffer unchanged, and reports the position it has advanced to. The packed-bit helpers get, set and toggle exactly the addressed bit in big- or little-endian bit order and nothing else.",
  ["histories", "inputs"], "all operation sequences up to a depth from all buffer contents and positions, plus every offset/length pair of block transfers",
  "No test includes the bit stream at all; the bit helpers are only exercised incidentally through codecs.",
  ["bitstream.hh", "bitman.hh"], [("shift/merge of partial bytes", "Bitstream read/write"), ("mask arithmetic", "set/get/xor bit helpers")], ["returned bits, buffer bytes, tell()"])

p("C07", "Permutations are bijections and their inverses undo them",
  "For every size, the Fisher-Yates shuffle rearranges exactly its elements (each element once) and the reverse shuffle restores the original order, the bit-reversal permutation moves every element to the index with reversed bits, and for every size and order the deinterleaver inverts the interleaver, which writes each input element exactly once. Every use of a shuffler, whatever was done before, applies the same permutation, namely the Fisher-Yates shuffle driven by the library's default-seeded 32-bit generator.",
  ["inputs", "configurations", "histories"], "all sizes and orders up to a bound and large powers of two, any number of consecutive uses",
  "No test includes these headers except indirectly; sizes and repeated use are never enumerated.",
  ["permute.hh", "interleave.hh", "xorshift.hh"], [("recorded random swap sequence replayed backwards", "ReverseFisherYatesShuffle"), ("index bit reversal", "BitReversalPermute"), ("row/column walk", "Interleave, Deinterleave")], ["output arrays"])

p("C08", "Sorting is correct and stable",
  "For every input, the scalar sorts (insertion sort, permutation-returning insertion sort, merge sort) order the elements by the given comparison as a stable permutation of the input. The SIMD lane sorts return the lanes in ascending order and the order vector is a permutation that produces them, with equal lanes kept in their original relative order, for every supported element type, lane count and instruction set.",
  ["inputs", "configurations"], "all inputs over small alphabets for every length up to a bound, all weak orders of lanes",
  "The regression tests sort random inputs with few ties; stability and all tie patterns or lengths around block boundaries are not enumerated.",
  ["sort.hh", "simd_sort.hh"], [("insertion sort blocks plus ping-pong merges", "MergeSort"), ("order computed by pairwise compares", "vorder, vsort")], ["output arrays and permutations"])

p("C09", "Exclusive reduction combines every element but its own",
  "For every length of at least two and every associative and commutative operation, output i of the exclusive reduction equals the combination of all inputs except input i. Every input takes part exactly once in each other output, the input array is not modified, and the operation is applied a number of times proportional to the length (at most four per element).",
  ["inputs", "configurations"], "all lengths up to a bound, symbolic (free commutative) operands so that every element's multiplicity is observed",
  "No test includes the header.",
  ["exclusive_reduce.hh"], [("tree reduction up and down", "exclusive_reduce")], ["output array"])

p("C10", "SIMD operations act lane by lane, identically on every back end",
  "For every SIMD type (8-, 16-, 32-, 64-bit signed and unsigned integers, single and double precision floats, in every supported width), every vector operation computes in each lane exactly the documented scalar operation on that lane's operands: saturating where declared saturating, wrapping otherwise, compares giving all-ones masks, blends following masks, in-range shuffles picking the indexed lane. The result is the same whether the generic, SSE4.1, AVX2 or NEON implementation is selected and whether a wide type is native or emulated by several registers.",
  ["inputs", "configurations"], "all operand pairs for 8-bit lanes, all boundary pairs for wider lanes, in every lane position",
  "The SIMD layer is only exercised through decoders on one instruction set; saturation corners, high lanes and most types are never checked.",
  ["simd.hh", "avx2.hh", "avx2_double.hh", "sse4_1.hh", "sse4_1_double.hh", "sse4_1_triple.hh", "sse4_1_quadruple.hh"],
  [("per instruction set specialisations of the scalar templates", "vadd, vqadd, vsign, vshuf, ...")], ["every lane of results"])

p("C11", "Lane rotation is an exact cyclic shift",
  "For every supported element type and lane count, every rotation width not exceeding the lane count and every shift strictly smaller in magnitude than the width (or equal to minus the width), the rotated vector holds in its first width lanes exactly the input lanes cyclically shifted by that amount. This holds on every instruction set.",
  ["inputs", "configurations"], "all widths, all shifts, all lanes distinguished",
  "Only the LDPC decoder uses rotation, with one width and data-dependent shifts.",
  ["rotate.hh"], [("shuffle tables / masks per shift", "Rotate")], ["first WIDTH lanes"])

p("C12", "Reed-Solomon encoder emits systematic codewords",
  "For every field, number of roots, first consecutive root and (possibly shortened) data length, the parity computed by the encoder makes data followed by parity a multiple of the generator polynomial, i.e. it evaluates to zero at every prescribed root. The data are not modified, exactly the number-of-roots parity symbols are written, and the syndrome computation returns the values of the received polynomial at the prescribed roots, hence all-zero exactly on codewords.",
  ["inputs", "configurations"], "all messages of small codes; a spanning set plus all low-weight messages of larger ones; many (field, roots, first root, length) combinations",
  "Tests encode one or two messages for two fields.",
  ["reed_solomon_encoder.hh", "reed_solomon_decoder.hh"], [("LFSR division by the generator", "ReedSolomonEncoder"), ("Horner syndromes", "compute_syndromes")], ["parity, syndromes"])

p("C13", "Reed-Solomon decoder corrects everything within its design distance",
  "For every codeword of every supported Reed-Solomon code, full length or shortened, every pattern of e symbol errors and f distinct declared erasures with 2e+f not exceeding the number of roots is decoded to the transmitted codeword, and the return value equals the number of symbols that were changed. Erased positions may hold any value, including the right one, and may be listed in any order.",
  ["inputs", "configurations"], "all error positions and values, all erasure sets, all received values in them, within the bound",
  "The regression test draws random errors at a single configuration per field with random positions; special locator shapes (degree one and two shortcuts, zero coefficients, boundary positions) are hit by luck.",
  ["reed_solomon_decoder.hh", "reed_solomon_error_correction.hh"], [("Berlekamp-Massey with erasure initialisation", "RS::BerlekampMassey"), ("closed forms for degree 1 and 2, Chien search otherwise", "RS::LocationFinder"), ("Forney magnitudes with FCR correction", "RS::Forney")], ["decoded buffers, return value"])

p("C14", "Algebraic decoders never lie about their result",
  "For every received word, whatever the errors and erasures, a Reed-Solomon or BCH decoder either returns a negative value and leaves data and parity exactly as received, or returns a non-negative count, leaves a valid codeword in the buffers, and the count equals the number of symbols (bits for BCH) in which they now differ from the received word. A codeword is returned unchanged with count zero, and symbols or bits outside the given data and parity lengths are never changed.",
  ["inputs", "configurations"], "all received words of small codes, all words within a radius beyond the correction capability for larger ones, with and without erasures",
  "Tests only decode correctable words, so the failure path is hardly executed.",
  ["reed_solomon_decoder.hh", "reed_solomon_error_correction.hh", "bose_chaudhuri_hocquenghem_decoder.hh"], [("degree / root count consistency checks", "ReedSolomonErrorCorrection"), ("position range check for shortened codes", "decoder operator()"), ("binary magnitude check", "BCH decoder")], ["return value, buffers"])

p("C15", "BCH codes encode systematically and correct up to their designed distance",
  "For every set of minimal polynomials and every data length, the BCH encoder's parity makes the bit string data-parity divisible by the generator polynomial in MSB-first bit order and writes only the bytes that hold the parity. The matching decoder restores the transmitted data and parity from every pattern of e bit errors and f distinct erasures with 2e+f at most the designed number of roots, including shortened codes, and returns the number of corrected bits.",
  ["inputs", "configurations"], "all messages of small codes, all error/erasure patterns within the bound; all single and double error positions of large ones",
  "Tests cover one long code with random errors and two fixed short examples.",
  ["bose_chaudhuri_hocquenghem_encoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "bitman.hh"], [("bit-serial and packed LFSR division", "BCH encoder"), ("syndromes over packed bits", "BCH decoder")], ["parity bits, corrected bits, return value"])

p("C16", "Short BCH codes: systematic encoding and sound hard/soft decoding",
  "For every supported short cyclic code the encoder produces the systematic codeword of each message. The hard decoder maps every word within the correction radius to the nearest codeword and reports failure otherwise without inventing non-codewords, and the soft decoder returns a codeword for every soft input it accepts, recovers the transmitted codeword whenever at most the correction radius of equally reliable positions are wrong, and for the codes small enough to be decoded by full search (dimension at most four) returns the codeword of greatest correlation or failure on a tie. For larger codes it returns the best-correlated among the hard decodings of all words that differ from the hard decisions in the correction-radius-many least reliable positions only, or failure when there is none or the best is not unique.",
  ["inputs", "configurations"], "all messages; all hard words; all soft words over small alphabets and all tie patterns",
  "Tests use random noise on one code per decoder with an error-rate threshold.",
  ["short_bch_code_encoder.hh", "short_bch_code_decoder.hh"], [("syndrome table decoding", "ShortBCHCodeDecoder hard"), ("Chase style test patterns / exhaustive correlation", "ShortBCHCodeDecoder soft")], ["decoded message/word"])

p("C17", "Hadamard and simplex decoding is exact maximum likelihood",
  "For every dimension, the Hadamard (bi-orthogonal) and simplex encoders emit the codeword of each message, and the decoders return, for every soft input, the message whose codeword has the strictly greatest correlation with it, or a negative value when the maximum is shared by several messages. Noise-free codewords of any non-zero amplitude decode to their message.",
  ["inputs", "configurations"], "all soft words over small alphabets for small dimensions, all low-deviation words for every dimension",
  "Tests add Gaussian noise to random messages and only check an error rate; ties and extreme amplitudes are never enumerated.",
  ["hadamard_encoder.hh", "hadamard_decoder.hh", "simplex_encoder.hh", "simplex_decoder.hh"], [("parity of masked message bits", "encoders"), ("fast Walsh-Hadamard transform with best/next search", "decoders")], ["returned message"])

p("C18", "Cauchy Reed-Solomon erasure coding is MDS",
  "For every field, block count, block length and buffer alignment, any set of count distinct blocks (any identifiers, any order) produced by encoding reproduces every original data block exactly. Encoding a block is a fixed linear function of the data that does not depend on buffer alignment, on which overload is used or on previous calls, and neither encoding nor decoding modifies its inputs.",
  ["inputs", "configurations"], "all identifier subsets and orders for small fields; boundary identifiers, all lengths around vector sizes and all alignments for 8 and 16 bit fields",
  "The regression test draws a few random identifier sets and lengths with aligned buffers.",
  ["cauchy_reed_solomon_erasure_coding.hh"], [("inverse Cauchy matrix in closed form", "cauchy_matrix, inverse_cauchy_matrix"), ("vectorised multiply-accumulate with scalar tail", "MultiplyAccumulate")], ["encoded blocks, decoded blocks"])

p("C19", "Cauchy prime field erasure coding is MDS despite its escape value",
  "For every prime field whose storage type holds the product of four reduced factors (such as 257 in 32 bits or 65537 in 64 bits), every block count and block length, any set of count distinct encoded blocks together with their substitution values reproduces every original data block exactly, including data containing the values that need the escape substitution and blocks whose encoding hits the value that does not fit the storage type. Neither encoding nor decoding modifies its inputs.",
  ["inputs", "configurations"], "all identifier subsets of small counts, all data over boundary alphabets, every substitution situation",
  "The regression test draws random data, for which the escape value practically never occurs.",
  ["cauchy_prime_field_erasure_coding.hh", "prime_field.hh"], [("substitute value chosen from an unused element", "encode"), ("inverse Cauchy matrix over the prime field", "decode")], ["encoded and decoded blocks"])

p("C20", "Polar encoders compute the frozen-bit Kronecker transform",
  "For every level, frozen set and message, the polar encoder outputs the Kronecker power transform of the message placed on the non-frozen positions with the frozen positions fixed to the neutral value, the systematic encoder outputs a codeword of the same code, which shows the message on its non-frozen positions whenever those positions are convex in the bit-domination order (as all construction helpers yield), and the parity encoder additionally inserts the running parity values at its prescribed positions. Exactly the prescribed number of message symbols is consumed and only the codeword is written.",
  ["inputs", "configurations"], "all frozen sets and messages for small levels, spanning sets for larger ones, several value types",
  "Tests only encode inside a simulation loop with one frozen set.",
  ["polar_encoder.hh", "polar_parity_aided.hh", "polar_helper.hh"], [("in-place butterflies", "PolarEncoder, PolarSysEnc, PolarParityEncoder")], ["codeword"])

p("C21", "Successive cancellation polar decoding is exact",
  "For every level, frozen set and soft input (8-bit inputs from -127 to 127), as long as no decision on an information bit meets a zero soft value, the polar decoder's message is the one plain successive cancellation over the same min-sum arithmetic (8-bit values saturating at 127) yields, bit by bit, irrespective of which subtree shortcuts apply. Undistorted codewords of any message and any non-zero amplitude decode to that message.",
  ["inputs", "configurations"], "all codewords with all small perturbation patterns, all frozen subsets of a short code embedded at every subtree position",
  "The regression test is a bit error rate threshold on one construction.",
  ["polar_decoder.hh", "polar_helper.hh"], [("rate-0/rate-1/repetition/SPC shortcut nodes selected by frozen masks", "PolarTree, PolarDecoder")], ["decoded message"])

p("C22", "Polar list decoding returns ranked, distinct, truly scored candidates",
  "For every level, frozen set that leaves the last position free (as every construction does) and has at least as many messages as lanes, and soft input without arithmetic saturation and with path metrics below the initial penalty, the list decoder's lanes are pairwise distinct messages in order of non-increasing likelihood under the min-sum path metric. Ranks count up from zero and are shared exactly by lanes of equal metric, and the lanes are the survivors of plain successive cancellation list decoding (keeping the best paths at each information bit) wherever these are determined. When the list is as large as the number of messages it holds all of them, so the first lane is a maximum-likelihood message, and an undistorted codeword of any non-zero amplitude is always ranked first, alone.",
  ["inputs", "configurations"], "all messages, all frozen subsets of a bounded form, all small perturbation patterns, every list width and back end",
  "The regression test only checks a block error rate for one construction and list width.",
  ["polar_list_decoder.hh", "polar_helper.hh", "simd_sort.hh"], [("path forking with sort and shuffle of lanes", "PolarListTree, PolarListDecoder")], ["rank and message lanes"])

p("C23", "Parity-aided polar list decoding inverts the parity encoder",
  "For every level, frozen set that leaves the last position free, parity stride and first parity position (zero included), the parity-aided list decoder applied to an undistorted output of the parity encoder with the same parameters ranks the transmitted message first, alone. For every soft input without arithmetic saturation and with path metrics below the initial penalty, and at least as many messages as lanes, the lanes are distinct messages in non-increasing order of the likelihood of their parity encodings, with ranks shared exactly on equal metric, and they are the survivors of plain list decoding in which parity positions admit only the running parity, wherever these are determined.",
  ["inputs", "configurations"], "all stride/first combinations, all messages or spanning sets, all soft words over small alphabets and small perturbation patterns",
  "No stable test enumerates stride and first position combinations.",
  ["polar_parity_aided.hh", "polar_list_decoder.hh"], [("running parity shift register per lane", "PolarParityTree"), ("parity position counter", "PolarParityDecoder")], ["rank and message lanes"])

p("C24", "Polar code construction picks exactly the most reliable channels",
  "For every level, code size and design erasure probability, the construction helpers freeze exactly the requested number of positions, and every frozen position is at least as unreliable, under exact density evolution for the erasure channel, as every non-frozen one. The threshold freezer freezes exactly the positions whose erasure probability exceeds the threshold and returns the number of the others, and the reliability sequence is a permutation of all positions ordered from least to most reliable. Comparisons are exact up to the rounding of double precision.",
  ["configurations"], "all levels up to a bound, every code size, a grid of design parameters",
  "Tests use one construction per level and only observe decoding performance.",
  ["polar_freezer.hh", "polar_sequence.hh"], [("erasure probability recursion and selection", "PolarCodeConst0, PolarFreezer, PolarSeqConst0")], ["frozen bitmap, sequence"])

p("C25", "LDPC encoder output satisfies every parity check",
  "For every table describing a DVB-style repeat-accumulate LDPC code, the encoder's parity together with the message satisfies every parity check equation of the table's parity check matrix, for every message. The message is not modified and exactly N-K parity symbols are written.",
  ["inputs", "configurations"], "spanning set of messages (all unit vectors, all pairs of a prefix) for the standard tables, all messages for small tables",
  "The regression test encodes random messages and only feeds them back to the decoder of the same tables.",
  ["ldpc_encoder.hh"], [("address accumulation and final accumulator", "LDPCEncoder")], ["parity"])

p("C26", "LDPC decoder accepts only codewords and keeps clean ones",
  "For every table, soft input and trial budget, the LDPC decoder returns a non-negative number (the unused trials, at most the budget) exactly when all of its output soft values are non-zero and their hard decisions satisfy every parity check, and a negative number otherwise. A larger budget only continues the computation a smaller one stopped. An undistorted codeword of any amplitude is returned unchanged with all trials left; one in which a single position is erased, weakened or replaced by a small value of the wrong sign is restored, and so are small sets of erased positions which the parity checks determine one after the other.",
  ["inputs", "configurations"], "all messages and all one/two-position deviations for small tables; all single-position deviations of selected messages for standard tables; every trial budget",
  "The regression test adds Gaussian noise to random words and checks a bit error threshold.",
  ["ldpc_decoder.hh", "rotate.hh", "exclusive_reduce.hh"], [("layered offset min-sum with circulant rotation", "LDPCDecoder"), ("syndrome test before and between iterations", "LDPCDecoder::bad")], ["return value, hard decisions"])

p("C27", "Ordered statistics decoding finds the best reprocessed codeword",
  "For every linear code (of at most 32767 symbols), order (at most six) and soft input, the ordered statistics decoder outputs a codeword whose correlation with the input is the greatest among all codewords obtained by flipping at most order-many of the most reliable independent positions, which is the maximum-likelihood codeword when the order equals the dimension. Its boolean result is true exactly when that best correlation is attained by only one of the examined codewords. The generator-matrix helper yields independent codewords of the BCH code with the given minimal polynomials (with an identity in front when the systematic form is requested), and the linear encoder outputs the sum of the rows selected by the message.",
  ["inputs", "configurations"], "all soft words over small alphabets for small codes, all small perturbations for the tabulated codes, all orders",
  "The regression test checks a word error rate against random noise.",
  ["osd.hh"], [("reliability sort, Gaussian elimination with column permutation", "OrderedStatisticsDecoder"), ("nested flip loops with metric update", "OrderedStatisticsDecoder")], ["hard decision word, uniqueness flag"])

p("C28", "Ordered statistics list decoding lists the best distinct codewords in order",
  "For every linear code (of at most 32767 symbols), order (at most six), list length and soft input for which at least list-length codewords are examined, the list decoder returns that many pairwise distinct codewords whose correlations, taken in rank order, are non-increasing and equal to the greatest correlations among the examined codewords. Ranks count up from zero and are shared exactly by codewords of equal correlation. The first ranked one is what the plain ordered statistics decoder would output, up to ties.",
  ["inputs", "configurations"], "all soft words over small alphabets for small codes, all list lengths and orders",
  "The regression test checks a word error rate against random noise.",
  ["osd.hh", "simd_sort.hh"], [("sorted insertion into a bounded list", "OrderedStatisticsListDecoder")], ["hard lanes, rank"])

p("C29", "Results never depend on an object's history or on other objects",
  "For every codec object, the result of a call depends only on the arguments of that call (and on the documented stream position of stateful generators): after any sequence of earlier calls, successful or failed, on the same object or on other objects of the same or different types, it equals the result of a freshly created object. Constructing or destroying other codec objects never changes an object's results, and neither does the place in memory where the object or the argument buffers lie (any place the alignment of their types allows).",
  ["histories"], "all operation sequences up to a depth over an alphabet of normal, failing and extreme calls, for every codec",
  "Every test calls its decoders in one fixed order with fresh or identically used objects and compares nothing across histories.",
  ["ldpc_decoder.hh", "reed_solomon_decoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "osd.hh", "polar_list_decoder.hh", "polar_decoder.hh", "sort.hh", "cauchy_reed_solomon_erasure_coding.hh"], [("scratch members fully rewritten by each call", "all decoders")], ["outputs of each call"])

p("C30", "Independent codec objects may be used concurrently",
  "Codec objects used by different threads, each thread using only its own objects and buffers (and a shared read-only field instance where one is required), produce in every interleaving the results they produce alone. No memory location written by one of them is accessed by another.",
  ["schedules"], "all interleavings of two threads' memory accesses, reduced by footprint independence",
  "All tests are single-threaded.",
  ["galois_field.hh", "osd.hh", "ldpc_decoder.hh", "polar_list_decoder.hh", "reed_solomon_error_correction.hh", "sort.hh"], [("all mutable state is in the object or on the stack; the field tables are written only by the field's constructor", "all codecs")], ["memory access footprints, results"])

p("C31", "Codecs stay inside the buffers they are given",
  "For every codec and every supported length, including shortened codes and lengths that are not multiples of the vector size, no call reads or writes outside the argument buffers whose sizes its parameters define, nor outside the codec object itself. Decoders leave those bits of a partially used last byte that belong to no data or parity bit as they were.",
  ["inputs", "configurations"], "all lengths and alignments up to a bound, every codec, valid and undecodable inputs",
  "Tests use oversized or exactly fixed buffers without guards and are not built with address checking.",
  ["reed_solomon_decoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "bose_chaudhuri_hocquenghem_encoder.hh", "cauchy_reed_solomon_erasure_coding.hh", "cauchy_prime_field_erasure_coding.hh", "bitstream.hh", "ldpc_decoder.hh", "osd.hh", "sort.hh"], [("loop bounds derived from template parameters and length arguments", "all codecs")], ["guard bytes, address sanitizer"])

p("C32", "Decoding results are the same on every instruction set",
  "For every input whose processing contains no floating point rounding, a codec that uses the SIMD layer produces bit-for-bit the same outputs whether compiled for the generic, SSE4.1, AVX2 or NEON back end. This covers polar list decoding, ordered statistics list decoding, erasure coding, and LDPC decoding between back ends whose decoder processes the same number of checks at a time (all but AVX2).",
  ["configurations", "inputs"], "the bounded input spaces of the SIMD-using codecs, on all back ends",
  "The tests are built and run for one instruction set only.",
  ["simd.hh", "simd_sort.hh", "rotate.hh", "ldpc_decoder.hh", "polar_list_decoder.hh", "cauchy_reed_solomon_erasure_coding.hh"], [("back end specialisations", "avx2.hh, sse4_1.hh, simd.hh")], ["outputs per back end"])

p("C33", "Polar soft value arithmetic and quantisation are exact",
  "For every element type, scalar or SIMD, the polar helper's operations act on each value (each lane) as defined: sign, magnitude (-128 counting as 127 for 8 bits), minimum, the min-sum product sign(a)sign(b)min(|a|,|b|), the product with a hard decision from -1, 0, 1, sums, and multiply-add of a hard decision, without overflow in the 8-bit types: sums saturate (at -127 and 127 in scalars and in multiply-add, at the type's limits in plain vector sums) and operands from -127 to 127 never wrap. Quantisation of any real number to 8 bits rounds to the nearest integer, ties to even, and saturates at -127 and 127, and leaves values of the other types unchanged.",
  ["inputs", "configurations"], "all operand pairs of 8-bit values in every lane, all hard decisions, boundary operands of wider types, all eighths over the quantiser's range",
  "Tests only decode noisy codewords; saturation corners and single lanes are never compared with arithmetic.",
  ["polar_helper.hh", "simd.hh"], [("saturating helper operations per type", "PolarHelper specialisations"), ("rounding and clamping", "PolarHelper<int8_t>::quant")], ["results of the helper operations"])

p("C34", "LDPC decoding is exact layered self-correcting offset min-sum",
  "For every table, soft input and number of iterations, the soft values the LDPC decoder returns equal those of plain layered message passing over the parity check equations, stopped at the first word that satisfies them all: the checks are visited residue by residue and column by column, each subtracts its old message from the soft value (saturating at 8 bits), sends to each of its positions the product of the other signs times the smallest other magnitude, reduced by the offset and limited to 31, sends nothing when the sign of the previous message was the opposite, and adds the message to the soft value. Where several links of a group of simultaneously processed checks lead to the same block of bits, exactly one of them per block is active in each iteration and they take turns. Hence a soft value never moves by more than 31 for each check it takes part in unless it saturates.",
  ["inputs", "configurations"], "words of ten kinds and complete small alphabets on small tables of different shape, all iteration counts; random-like words on the DVB-T2 tables",
  "The regression test only bounds the bit error rate for Gaussian noise, which a decoder with a weakened or partly wrong update still meets.",
  ["ldpc_decoder.hh", "rotate.hh", "simd.hh"], [("min-sum update with self correction and offset", "LDPCDecoder::update"), ("write disable masks for repeated words", "LDPCDecoder::reset, update")], ["soft values after every iteration count, return value"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
