#!/usr/bin/env python3
"""Writes ../properties.jsonl; the list below is the source."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "CRC register follows bitwise polynomial division",
  "After any sequence of resets and updates by bits, bytes, 16-, 32- and 64-bit words, a CRC register of any width, polynomial and start value holds exactly what dividing the same bit stream one bit at a time leaves, and every update returns that value. A stream cut into pieces of different width gives the same checksum, and any single error burst no longer than the register changes the checksum.",
  ["inputs", "histories"], "all register widths, polynomials, start values and sequences of updates and resets",
  "crc_test feeds one fixed string to four polynomials; mixed-width updates, other polynomials and resets in the middle are never reached.",
  ["crc.hh"], [("byte table built from the bitwise update", "CRC constructor"), ("wide updates composed of byte updates", "CRC::operator()"), ("reset to the start value or a given value", "CRC::reset")],
  ["value returned by each update and by the register read"])

p("P02", "Bit streams and bit arrays read back exactly what was written",
  "Whatever sequence of seeks, rewinds, single bit, byte, byte array and 1 to 64 bit wide writes and reads is made on a bit stream, reads return the bits last written at that position in least-significant-first order, bits around a write keep their value, the position advances by exactly the bits transferred, and nothing outside the stream's storage is touched. The same holds for setting, clearing, flipping, writing, copying and reading single bits of byte arrays in either bit order.",
  ["inputs", "histories"], "all operation sequences, alignments, widths and stream sizes",
  "No test includes these headers at all, except for single bit access used as a helper.",
  ["bitstream.hh", "bitman.hh"], [("masking of partial first and last bytes", "bitstream.hh"), ("bit index to byte and mask", "bitman.hh")],
  ["returned values, position and the whole byte array after every operation"])

p("P03", "Galois field arithmetic is exactly that of the field",
  "For every supported field, addition, subtraction, negation, multiplication, division, reciprocal, logarithm, exponential, comparison and fused multiply-add on values and on indices give the results of polynomial arithmetic modulo the field's primitive polynomial, for every operand that is allowed, zero included. Index and value conversions are inverse to each other.",
  ["inputs", "configurations"], "all pairs and triples of field elements of every field from 4 to 65536 elements, several primitive polynomials each",
  "gf_test goes through GF(256) and GF(65536) with one polynomial and a few identities; other sizes, other polynomials and operator combinations with zero are not compared with an independent model.",
  ["galois_field.hh"], [("log and exp tables generated from the primitive element", "GaloisField::Tables"), ("index and value operators with special cases for zero", "galois_field.hh operators")],
  ["results of all operators"])

p("P04", "Prime field and table-free field arithmetic match exact integers",
  "Sums, differences, products, quotients, reciprocals and powers of elements of a prime field, and of the binary field implementations that work without tables, equal the exact mathematical results reduced to the canonical range, for every operand and any chain of operations. Assigning any value in range and reading it back yields the same value.",
  ["inputs", "configurations"], "all operands of all prime moduli up to 32 bits and binary fields of 2 to 65536 elements",
  "pf_test covers 257 and 65537 with a handful of identities; the largest moduli, where intermediate results overflow, and the table-free binary field are sampled little.",
  ["prime_field.hh", "galois_field.hh"], [("double-width products and conditional subtraction", "prime_field.hh"), ("shift and reduce multiplication, Euclidean reciprocal", "GaloisFieldReference in galois_field.hh")],
  ["value of every result"])

p("P05", "Reed-Solomon corrects every correctable error and erasure pattern",
  "For every field, number of roots, first root and data length, encoding yields a codeword with the data unchanged, and decoding any pattern with twice the errors plus erasures not exceeding the number of parity symbols restores data and parity and returns the number of symbols it changed. For anything else decoding either reports failure and leaves data and parity as they were, or leaves a codeword that differs in no more symbols than there are parity symbols and returns their number; it never reports success on a non-codeword nor touches memory outside data and parity.",
  ["inputs", "configurations"], "all data, lengths (shortened included), error positions and values, erasure lists within the parity count, and all supported code parameters",
  "rs_*_test use one or two fixed codes, fixed seeds and mostly correctable patterns; uncorrectable patterns, shortened codes with erasures and other first roots are not decided.",
  ["reed_solomon_encoder.hh", "reed_solomon_decoder.hh", "reed_solomon_error_correction.hh", "galois_field.hh"],
  [("linear feedback division by the generator polynomial", "ReedSolomonEncoder"), ("syndromes", "ReedSolomonDecoder::compute_syndromes"), ("Berlekamp-Massey, Chien search, Forney", "RS:: namespaces"), ("position and degree sanity checks", "reed_solomon_decoder.hh")],
  ["data, parity, erasure list and return value after decoding"])

p("P06", "BCH codes correct every correctable pattern of bit errors",
  "For every binary BCH code, length and data, systematic encoding yields a codeword with the data unchanged, and decoding any pattern with twice the bit errors plus erasures not exceeding the number of consecutive roots restores data and parity bits and returns the number of bits it changed. Anything else is either reported as failure with the buffers unchanged or leaves a codeword that differs in no more bits than there are roots and returns their number, padding bits are never touched, and the packed and the reference implementation agree.",
  ["inputs", "configurations"], "all data, lengths, bit error and erasure patterns for a set of BCH codes over fields of 16 to 65536 elements",
  "bch_*_test use the (15,5,7) and DVB-S2 codes with fixed seeds; lengths that are no multiple of eight, uncorrectable patterns and codes between are not reached.",
  ["bose_chaudhuri_hocquenghem_encoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "reed_solomon_error_correction.hh"],
  [("generator polynomial from minimal polynomials, bitwise LFSR", "BoseChaudhuriHocquenghemEncoder"), ("bit syndromes and magnitude check", "BoseChaudhuriHocquenghemDecoder")],
  ["data and parity bits, padding and return value"])

p("P07", "Cauchy Reed-Solomon rebuilds data from any sufficient blocks",
  "For any payload, block length and block count, the data split into blocks comes back bit for bit from any selection of as many distinct encoded blocks as there were data blocks, whatever their identifiers and the order in which they are given. Neither encoding nor decoding writes outside the output, and an encoded block depends only on the data and its own identifier.",
  ["inputs", "configurations"], "all payloads, block counts and lengths, identifier subsets and orders, for several fields",
  "crs_regression_test uses a few block counts with random identifiers of one field size and one seed; small counts, adjacent and extreme identifiers and odd block lengths are not covered.",
  ["cauchy_reed_solomon_erasure_coding.hh", "galois_field.hh"], [("Cauchy matrix element", "CauchyReedSolomonErasureCoding::cauchy_matrix"), ("closed form of the inverse", "::inverse_cauchy_matrix"), ("block multiply-accumulate", "::mac")],
  ["encoded blocks and decoded payload"])

p("P08", "Cauchy prime field coding rebuilds data from any sufficient blocks",
  "For any payload, the data split into blocks comes back bit for bit from any selection of as many distinct encoded blocks as there were data blocks, whatever their identifiers and order. Every encoded element fits its 16-bit storage although the field has more elements than that, and nothing is written outside the output.",
  ["inputs", "configurations"], "all payloads (values that need the escape included), block counts and lengths, identifier subsets and orders",
  "cpf_regression_test uses random payloads, in which the one field element that does not fit practically never occurs in an interesting place.",
  ["cauchy_prime_field_erasure_coding.hh", "prime_field.hh"], [("Cauchy matrix and inverse over the prime field", "CauchyPrimeFieldErasureCoding"), ("substitution of a value not in use", "::encode / ::decode")],
  ["encoded blocks, substitution value and decoded payload"])

p("P09", "Hadamard codes: encoder is exact and decoder maximum likelihood",
  "For every order, the encoder produces the codeword of the message in the augmented Hadamard code with pairwise distances of half the length or the full length. The decoder returns the message whose codeword correlates best with any soft input, and reports a tie for the best instead of guessing.",
  ["inputs", "configurations"], "all messages and all soft inputs (saturated, zero and tied values) for all orders",
  "hadamard_regression_test adds Gaussian noise at one level with a fixed seed; ties, zeros and extreme values are not reached.",
  ["hadamard_encoder.hh", "hadamard_decoder.hh"], [("fast Hadamard transform and best/next search", "HadamardDecoder"), ("recursive doubling", "HadamardEncoder")],
  ["codeword and decoded message or -1"])

p("P10", "Simplex codes: encoder is exact and decoder maximum likelihood",
  "For every order, the encoder produces the codeword of the message in the simplex code, all nonzero codewords having weight half of one more than the length. The decoder returns the message whose codeword correlates best with any soft input, and reports a tie for the best instead of guessing.",
  ["inputs", "configurations"], "all messages and all soft inputs (saturated, zero and tied values) for all orders",
  "simplex_regression_test adds Gaussian noise at one level with a fixed seed; ties, zeros and extreme values are not reached.",
  ["simplex_encoder.hh", "simplex_decoder.hh"], [("fast Hadamard transform and best/next search", "SimplexDecoder"), ("parity of message and position", "SimplexEncoder")],
  ["codeword and decoded message or -1"])

p("P11", "Short BCH codes: linear encoder, bounded distance and soft decoding",
  "The encoders produce systematic codewords of linear codes of the stated minimum distance, and hard decoding returns the only codeword within the correction radius for every word that has one and otherwise failure. Soft decoding returns the best codeword, by correlation with any soft input, among those reached by hard decoding with the least reliable positions flipped in all ways, is exact maximum likelihood for codes small enough for exhaustive search, and reports a tie or the lack of candidates as failure.",
  ["inputs", "configurations"], "all messages, all received words and all soft inputs for the supported short codes",
  "The regression test simulates noise for a few codes at one seed; words beyond the radius, ties and small magnitudes everywhere are not judged.",
  ["short_bch_code_encoder.hh", "short_bch_code_decoder.hh"], [("syndrome table of all correctable errors", "ShortBCHCodeDecoder constructor"), ("least reliable position selection and Chase search", "ShortBCHCodeDecoder::operator()")],
  ["decoded message or -1"])

p("P12", "Ordered statistics decoding finds the best codeword in its search set",
  "For every full-rank generator matrix and soft input, the decoder returns a codeword of that code, and it is the one with the best correlation among all codewords that differ from the hard decisions in at most the given order of the most reliable independent positions; it tells whether that best was unique. The list variant returns the best such codewords in order, without duplicates and with correct ranks; with the order equal to the dimension this is exact maximum likelihood.",
  ["inputs", "configurations"], "all full-rank generator matrices, orders, list sizes and soft inputs (all-negative, saturated, tied) for several code sizes",
  "The regression tests run one BCH code with Gaussian noise and count errors; no test knows which codeword is the right answer of the search.",
  ["osd.hh"], [("stable ordering by reliability", "OrderedStatisticsDecoder"), ("row echelon form with column swaps", "::row_echelon / ::systematic"), ("best and next metric", "::update"), ("list insertion", "OrderedStatisticsListDecoder")],
  ["hard output, success flag, list and ranks"])

p("P13", "LDPC encoding satisfies every parity check",
  "For every code table of the supported form and every message, the encoder writes the parity bits for which all parity check equations of the code hold, leaves the message unchanged, and is linear. Using one encoder object for any number of messages gives the same parity as a new one, and nothing outside the parity buffer is written.",
  ["inputs", "histories", "configurations"], "all messages and all repeat-accumulate tables of the supported layout",
  "ldpc_regression_test encodes random messages for a few standard tables and only looks at what the decoder makes of it.",
  ["ldpc_encoder.hh"], [("position updates of the circulant table", "LDPCEncoder::next_bit / first_bit"), ("accumulation of parity", "LDPCEncoder::operator()")],
  ["parity bits"])

p("P14", "LDPC decoding reports success only for codewords and keeps them",
  "A noiseless codeword comes back unchanged with the whole iteration allowance left, and the decoder reports the number of iterations left exactly when the signs of its output satisfy every parity check, otherwise exhaustion. The values it leaves are those of the layered offset min-sum rule with self-correction, independent of earlier words for tables that link no block of values twice to checks handled together. Where they do, the links take turns and each gets served.",
  ["inputs", "histories", "configurations"], "all soft inputs, iteration limits and histories of a decoder object, for all tables of the supported layout, every vector width",
  "ldpc_regression_test decodes noisy random words of standard codes at a good signal level; failing words, reuse after failure and saturation are not judged.",
  ["ldpc_decoder.hh", "exclusive_reduce.hh", "rotate.hh", "simd.hh"], [("layered min-sum with circulant rotation", "LDPCDecoder::update"), ("syndrome check", "LDPCDecoder::bad / hard decision check"), ("constructor rearranging the table", "LDPCDecoder constructor")],
  ["return value, message and parity soft bits"])

p("P15", "Polar encoders invert and successive cancellation decodes exactly",
  "For every code length and frozen set, encoding is the polar transform of the message with zeros at frozen positions, the systematic encoder's codeword carries the message unchanged at the unfrozen positions, when that set contains with a position all those that dominate it. Successive cancellation decoding makes exactly the decisions of the plain recursive algorithm for any soft input that leaves no decision undetermined, so that noiseless codewords give back the message, whatever shortcuts the frozen set allows.",
  ["inputs", "configurations"], "all frozen sets, lengths, messages and soft inputs",
  "polar_regression_test takes constructed codes with Gaussian noise only, so few shapes of frozen subtrees and no extreme or tied inputs appear.",
  ["polar_encoder.hh", "polar_decoder.hh", "polar_helper.hh"], [("rate-0, rate-1, repetition and parity shortcuts", "polar_decoder.hh tree templates"), ("butterfly and double encoding", "PolarEncoder, PolarSysEnc")],
  ["message, codeword"])

p("P16", "Polar list decoding keeps the best paths in order",
  "For every frozen set and soft input without ties, list decoding returns the paths that keeping the best list-size candidates after each decision would return, with distinct messages. If the last position carries a message bit, they are ordered and ranked by their path metrics, a path's metric being the total soft value it contradicts (bytes must not saturate), a noiseless codeword comes first, and a list that can hold all messages gives exact maximum likelihood decoding.",
  ["inputs", "configurations"], "all frozen sets, code lengths, list sizes and soft inputs",
  "polar_list_regression_test counts errors under noise for constructed codes; a list that loses or misorders paths only raises an error rate nobody compares.",
  ["polar_list_decoder.hh", "polar_helper.hh", "simd_sort.hh"], [("fork, sort and select", "PolarListLeaf / tree leaf"), ("path permutation bookkeeping", "polar_list_decoder.hh"), ("rate-0, repetition and other shortcuts", "polar_list_decoder.hh")],
  ["list of messages, ranks or metrics"])

p("P17", "Parity-aided polar coding: parity bits hold and aid the decoder",
  "For every frozen set, stride and first position, encoding puts after each run of message bits the parity of that run and transforms the result, and decoding a noiseless codeword gives back the message as the first candidate. The candidates are those that keeping the best paths among those satisfying every parity bit would return, ordered and ranked by their metric if the last position carries a message or parity bit, and nothing outside the buffers is read or written.",
  ["inputs", "configurations"], "all frozen sets, strides, first positions (zero included), messages and soft inputs",
  "One configuration is exercised by the list regression test; a first position of zero or large strides never occur.",
  ["polar_parity_aided.hh"], [("counting down to the next parity position", "PolarParityEncoder / PolarParityDecoder"), ("parity carried per path", "PolarParityDecoder leaves")],
  ["codeword, list of messages and ranks"])

p("P18", "Polar code construction picks the most reliable channels",
  "For every length, dimension and design parameter, the constructed code leaves exactly the requested number of positions unfrozen and no frozen position is more reliable than an unfrozen one under the erasure channel recursion, up to rounding; a reliability sequence is a permutation ordered by that reliability. Threshold construction freezes exactly the positions whose erasure probability exceeds the threshold and reports how many remain.",
  ["inputs", "configurations"], "all lengths, dimensions and design erasure probabilities",
  "The regression tests only use constructed codes and would not notice a slightly worse selection.",
  ["polar_freezer.hh", "polar_sequence.hh"], [("erasure probability recursion", "PolarFreezer::freeze, PolarSeqConst0::compute"), ("selection of the K best", "PolarCodeConst0")],
  ["frozen bit array, returned count, sequence"])

p("P19", "Vector operations equal lane-by-lane scalar operations",
  "For every element type and vector width of the hardware-backed and the portable vectors, each arithmetic, saturating, logical, comparison, selection, conversion, minimum, maximum and shuffle operation gives in every lane what its scalar definition gives for that lane's inputs, independently of other lanes. All vector back ends available on the machine agree.",
  ["inputs", "configurations"], "all lane values (extremes included) for all operations, types and widths",
  "No test calls the vector operations directly; only the values decoders happen to produce are exercised.",
  ["simd.hh", "sse4_1.hh", "avx2.hh", "avx2_double.hh", "sse4_1_double.hh", "sse4_1_triple.hh", "sse4_1_quadruple.hh"], [("generic lane loops", "simd.hh"), ("intrinsics", "sse4_1.hh, avx2.hh")],
  ["every lane of every result"])

p("P20", "Maximum length sequences follow their recurrence and period",
  "For every register polynomial, start state and sequence of draws and resets, the output follows the linear recurrence of the polynomial; primitive polynomials give the full period from every nonzero state with balanced, ideally correlated output. The quality check tells exactly the polynomials of full period apart from the rest.",
  ["inputs", "histories"], "all polynomials of degree up to 30, start states, reset points",
  "mls_test goes through a fixed list of polynomials from one start state.",
  ["mls.hh"], [("Galois register step", "MLS::operator()"), ("full period walk", "MLS::bad")], ["drawn bits, badness verdict"])

p("P21", "Sorting yields the ordered permutation of its input, stably where due",
  "For every length, element type and contents, each sorting routine leaves an ordered permutation of its input and touches nothing beyond it, and the routines documented as stable keep equal keys in their original order. Vector sorting returns in each group of lanes the sorted values together with the permutation that sorts them, equal keys in lane order.",
  ["inputs", "configurations"], "all lengths, key distributions with any number of ties, and all vector widths",
  "The sort tests use random keys at a few lengths, where ties and odd remainders are rare.",
  ["sort.hh", "simd_sort.hh"], [("insertion sort blocks and merging", "sort.hh"), ("compare and swap networks", "simd_sort.hh")], ["array contents and permutation"])

p("P22", "Permutations and interleavers are exact bijections and their inverses",
  "For every supported size and element type, shuffling followed by its inverse and inverse followed by shuffling restore any array, each puts every element exactly where the documented index mapping says, and interleaving in any order is a bijection of the array. No element is lost or duplicated and nothing outside is touched.",
  ["inputs", "configurations"], "all array contents, sizes and permutation parameters",
  "No test includes these headers.",
  ["permute.hh", "interleave.hh"], [("cycle leaders", "permute.hh"), ("index arithmetic", "interleave.hh")], ["array contents"])

p("P23", "Reducing all but one equals folding the other inputs",
  "For any two or more inputs and any associative and commutative operation, the i-th output is the operation folded over all inputs except the i-th, at a number of operations proportional to the number of inputs. Inputs stay as they were and nothing outside the outputs is written.",
  ["inputs", "configurations"], "all counts from two, all inputs, scalar and vector element types, several operations",
  "Only exercised inside the LDPC decoder with one operation.",
  ["exclusive_reduce.hh"], [("prefix and suffix passes in place", "exclusive_reduce")], ["output array"])

p("P24", "Pseudorandom generators follow their published recurrences",
  "From any start state and after any reset, every draw of each generator is the next value of its published recurrence, and equal seeds give equal sequences for ever. The generators satisfy the standard generator interface, staying within their declared bounds.",
  ["inputs", "histories"], "all states, resets and draw counts",
  "No test checks a single drawn value; tests merely consume them.",
  ["xorshift.hh"], [("xorshift steps and Weyl sequence", "xorshift.hh")], ["drawn values"])

p("P25", "Vector rotation moves exactly the used lanes cyclically",
  "For every element type, vector width and number of lanes in use, rotating by any amount from minus that number to one less than that number moves the lanes in use cyclically by that amount and loses none. Rotating back restores them, and specialised and general versions agree.",
  ["inputs", "configurations"], "all lane values, lane counts, shifts and vector types",
  "Only the shifts and widths of the standard LDPC tables are exercised, through the decoder.",
  ["rotate.hh", "simd.hh"], [("shuffle masks", "rotate.hh int8 specialisations"), ("generic loop", "rotate.hh")], ["lanes of the result"])

p("P26", "Soft value arithmetic is exact or saturates, in scalars and vectors",
  "For every pair of soft values and every hard decision, the operations polar decoding is built from (sign, magnitude, smaller one, sum, product of two soft values, sum with a value times a decision) give the exact result for floating point types; for bytes they give the exact result limited to -127 to 127, so that none ever changes its sign by overflow, where a sum of vectors may reach -128. Vectors of any width do in every lane what scalars do, and quantizing gives the nearest byte in that range.",
  ["inputs", "configurations"], "all soft values of bytes, floats and doubles, all decisions, all vector widths and back ends, all values to quantize",
  "The polar tests only see these operations through error counts at a few noise levels, which saturation in single lanes hardly changes.",
  ["polar_helper.hh", "simd.hh"], [("scalar clamps", "PolarHelper<int8_t>"), ("vector saturation and sign products", "PolarHelper<SIMD<int8_t, WIDTH>>"), ("plain arithmetic", "PolarHelper<TYPE>")],
  ["results of all operations in every lane"])

p("P27", "Generator polynomials, matrices and encoders describe the same code",
  "For every code length, dimension and list of odd factors, the computed generator polynomial is their product, the plain generator matrix holds its shifts, and the systematic one spans the same code with an identity in front. Encoding by either matrix, by the encoder for long codes with any number of message bits, by that for short codes and by a checksum register of the same polynomial all give the codeword that polynomial multiplication or division prescribes; with any other binary matrix, the linear encoder gives the sum of the rows the message selects.",
  ["inputs", "configurations"], "all code lengths, dimensions, lists of factors, messages and message lengths",
  "The tests use the generators of a handful of codes with fixed factors and never compare one implementation with another.",
  ["osd.hh", "bose_chaudhuri_hocquenghem_encoder.hh", "short_bch_code_encoder.hh", "crc.hh"], [("product of factors, shifted rows, elimination", "BoseChaudhuriHocquenghemGenerator"), ("row sums", "LinearEncoder"), ("bytewise shift register", "BoseChaudhuriHocquenghemEncoder"), ("table of remainders", "ShortBCHCodeEncoder")],
  ["polynomial, matrices, codewords, parity"])

p("P28", "Coders keep no memory of earlier words nor disturb each other",
  "Whatever words an encoder, decoder, code construction or sorter object has processed before, decodable or not, and whatever other objects of the same or another kind were created and used in between, its results for the next word are those of a new object, and they do not depend on what its memory held before construction. Generators and checksum registers behave alike once they are reset to a given state.",
  ["histories", "inputs"], "all sequences of words over all sets of objects, of all code families, and all previous memory contents",
  "Tests construct each object once and judge results by error counts; state that leaks from one word into the next or from one object into another rarely shows in them.",
  ["reed_solomon_decoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "cauchy_reed_solomon_erasure_coding.hh", "cauchy_prime_field_erasure_coding.hh", "osd.hh", "ldpc_decoder.hh", "ldpc_encoder.hh", "polar_decoder.hh", "polar_list_decoder.hh", "polar_parity_aided.hh", "polar_freezer.hh", "sort.hh", "short_bch_code_decoder.hh"],
  [("work arrays kept in the objects", "decoder classes"), ("field tables shared by all objects of a field", "GaloisField")],
  ["all results of the word after a history"])

p("P29", "Coders in different threads do not disturb each other",
  "Encoders, decoders, constructions, sorters, generators and the functions on arrays, used in several threads at the same time without any synchronisation, each thread having objects and buffers of its own, give in each thread the results they give alone. No memory is shared behind the scenes: only the tables of a Galois field are, which are read and no longer written once the field object has been made, so that creating and destroying coders in any thread is safe too.",
  ["schedules", "inputs", "histories"], "all interleavings of the threads, all combinations of kinds of objects and all words",
  "All tests run in a single thread; a work array made static passes them all, and even in threads it only shows when two calls overlap.",
  ["galois_field.hh", "reed_solomon_error_correction.hh", "reed_solomon_decoder.hh", "bose_chaudhuri_hocquenghem_decoder.hh", "cauchy_reed_solomon_erasure_coding.hh", "cauchy_prime_field_erasure_coding.hh", "hadamard_decoder.hh", "short_bch_code_decoder.hh", "osd.hh", "ldpc_decoder.hh", "ldpc_encoder.hh", "polar_encoder.hh", "polar_decoder.hh", "polar_list_decoder.hh", "polar_parity_aided.hh", "polar_freezer.hh", "sort.hh", "permute.hh"],
  [("work arrays on the stack or in the object", "all coders"), ("tables shared by all elements of a field", "GaloisField")],
  ["all results in each thread, accesses to memory as seen by a race detector"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
