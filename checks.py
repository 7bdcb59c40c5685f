"""The checks: harness source, configurations (with the share of the case
counts each gets), what makes a case non-trivial."""

CLANG = ["/usr/bin/clang++-18", "-stdlib=libc++", "-std=c++17", "-w", "-fno-exceptions", "-fno-rtti"]
FAST = ["-O2", "-fno-finite-loops", "-ffast-math", "-ftree-vectorize"]
SAN = ["-O1", "-fno-finite-loops", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,bounds,null,unreachable,return,integer-divide-by-zero,vla-bound", "-fno-sanitize-recover=all"]

# the NEON code on a stand-in for arm_neon.h; what the stand-in lacks leaves
# these configurations out
NEON = ["-march=x86-64", "-I@HERE@/harness/shim", "-include", "@HERE@/harness/shim/neon.h"]

# a vector unit each, as the repository's build has them; asan is the AVX2 code
# without fast-math and with sanitizers
CONFIGS = {
    "avx2": {"flags": CLANG + FAST + ["-march=x86-64-v3"]},
    "sse41": {"flags": CLANG + FAST + ["-march=x86-64-v2"]},
    "generic": {"flags": CLANG + FAST + ["-march=x86-64"]},
    "neon": {"flags": CLANG + FAST + NEON, "optional": True},
    "neon64": {"flags": CLANG + FAST + NEON + ["-DSHIM_AARCH64"], "optional": True},
    "asan": {"flags": CLANG + SAN + ["-march=x86-64-v3"]},
    "asan_generic": {"flags": CLANG + SAN + ["-march=x86-64"]},
    "gcc": {"flags": ["/usr/bin/g++", "-std=c++17", "-w", "-O2", "-march=x86-64-v3"]},
    "tsan": {"flags": CLANG + ["-O1", "-fno-finite-loops", "-g", "-fsanitize=thread", "-march=x86-64"]},
    "fuzz": {"flags": CLANG + ["-O1", "-g", "-march=x86-64-v3", "-DPBT_LIBFUZZER", "-fsanitize=fuzzer,address,bounds", "-fno-sanitize-recover=all"]},
}

SCALAR = {"avx2": 1.0, "asan": 0.12}

CHECKS = {
    "P01": {
        "source": "crc.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Histories of register updates of every width, resets and reads for every register type, polynomial and start value; non-trivial with at least one update wider than a bit (history), more than one update (chunking), or an error burst checked (detect).",
    },
    "P02": {
        "source": "bits.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Histories of seeks, resets, bit, byte, byte-array and bit-field reads and writes on streams of 1 to 530000 bits, and of single bit operations on byte arrays, compared with an array of bits after every operation; non-trivial when a write of more than a bit was not byte aligned (stream) or any bit operation ran (bitman).",
    },
    "P20": {
        "source": "mls.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Register polynomials of degree 1 to 30, primitive or not, with any start, resets and draws; non-trivial when the register gave at least a one (recurrence) or a whole period was judged (badness, correlation).",
    },
    "P21": {
        "source": "sorting.cc", "configs": {"avx2": 1.0, "sse41": 0.3, "neon": 0.15, "neon64": 0.15, "asan": 0.12}, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Arrays of any length around multiples and powers of the block size, with random, presorted, reversed and two-run keys from narrow to wide ranges, sorted by every variant; non-trivial when there are equal keys (and, for merge sort, more than one block).",
    },
    "P22": {
        "source": "permute.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Arrays of random contents and several element types for a set of sizes; non-trivial when there are more than two elements (permutations) or the interleaver order is neither one nor the size.",
    },
    "P23": {
        "source": "reduce.cc", "configs": {"avx2": 1.0, "generic": 0.4, "neon": 0.2, "neon64": 0.2, "asan": 0.12}, "thorough_configs": {"sse41": 0.5}, "fuzz": 120,
        "rule": "Two to 70000 inputs of several types under associative and commutative operations; non-trivial with three or more inputs.",
    },
    "P24": {
        "source": "xorshift.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "States, resets with any number of arguments and draws in sequence, each draw compared with the published recurrence; non-trivial when at least one draw was compared.",
    },
}

CHECKS.update({
    "P03": {
        "source": "gf.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Operand triples and index pairs of fields with 2 to 65536 elements, zeros and extremes favoured, and all pairs of fields up to 256 elements with a field object created in used memory; non-trivial when both factors are nonzero (triples) or there are more than two elements (all pairs).",
    },
    "P04": {
        "source": "pf.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Operand triples and exponents of 17 prime fields (32 and 64 bit storage, up to the largest prime below 2^32) and operand pairs of binary fields of 2 to 32 bits, extremes favoured; non-trivial when both factors are neither zero nor one.",
    },
})

CHECKS.update({
    "P05": {
        "source": "rs.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.3, "gcc": 0.3}, "fuzz": 240,
        "rule": "40 codes over fields of 4 to 65536 elements (1 to 64 roots, first roots 0 to 254), any length, any mix of errors and erasures within, at and beyond the guarantee, scattered or in bursts; non-trivial when a symbol was damaged (decode) or there is more than one data symbol (encode).",
    },
    "P06": {
        "source": "bch.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.3, "gcc": 0.3}, "fuzz": 240,
        "rule": "35 BCH codes over fields of 8 to 65536 elements (narrow sense or not, even and odd numbers of roots), any bit length, any mix of bit errors and erasures within, at and beyond the guarantee; non-trivial when a bit was damaged (decode) or there is more than one data bit (encode).",
    },
})

CHECKS.update({
    "P07": {
        "source": "crs.cc", "configs": {"avx2": 1.0, "sse41": 0.4, "generic": 0.4, "neon": 0.3, "neon64": 0.3, "asan": 0.12}, "thorough_configs": {"asan_generic": 0.05, "gcc": 0.5}, "fuzz": 240,
        "rule": "1 to 300 blocks of 1 to 128 elements over eight fields, first, last or any identifiers in any order, any alignment, encoded elements compared with the Cauchy matrix and decoded in any order; non-trivial with two or more blocks.",
    },
    "P08": {
        "source": "cpf.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 240,
        "rule": "1 to 200 blocks of 1 to 65535 elements over the fields of 257 and 65537 elements, data crafted so that encoded blocks hold the element that does not fit or nearly all elements; non-trivial with two or more blocks or nearly all elements in use.",
    },
})

CHECKS.update({
    "P09": {
        "source": "hadamard.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Orders 2 to 18, any message, soft inputs noiseless, flipped, erased, tiny, saturated, sparse, constant, random or noisy, judged by brute force over all messages (by a recursion of halves from order 13); all words of orders up to 10; non-trivial unless all soft values are zero.",
    },
    "P10": {
        "source": "simplex.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Orders 2 to 17, any message, soft inputs noiseless, flipped, erased, tiny, saturated, sparse, constant, random or noisy, judged by brute force over all messages (by a recursion of halves from order 12); all words of orders up to 10; non-trivial unless all soft values are zero.",
    },
})

CHECKS.update({
    "P11": {
        "source": "shortbch.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "17 codes of radius 1 to 3 (Golay, BCH, quadratic residue, Hamming, simplex, repetition, shortened ones): pairs of messages, words within and beyond the radius, soft inputs with weak and wrong positions, ties and extremes, judged by an own syndrome table and an own candidate search; non-trivial when both messages are nonzero (encoder), the word is no codeword (hard), always (soft).",
    },
})

CHECKS.update({
    "P12": {
        "source": "osd.cc", "configs": {"avx2": 1.0, "sse41": 0.3, "asan": 0.1}, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 240,
        "rule": "Generator matrices of full rank (dense, sparse, with useless or repeated columns, BCH) for 39 sizes up to length 1030, orders 0 to 6, lists of 1 to 64, magnitudes such that the most reliable basis is unique (then so is the search set and the answer is known) or not (then only the exhaustive decoders and the general rules are judged), any of them wrong; non-trivial when the answer is known.",
    },
})

CHECKS.update({
    "P19": {
        "source": "simdops.cc", "configs": {"avx2": 1.0, "sse41": 1.0, "generic": 0.3, "neon": 0.5, "neon64": 0.5, "asan": 0.1}, "thorough_configs": {"gcc": 0.5, "asan_generic": 0.05}, "fuzz": 120,
        "rule": "Vectors of every element type and of hardware, multiple and odd widths, lanes zero, small, extreme, powers of two or random, operands partly alike, all operations run on each and every lane compared with integer or floating point arithmetic; every case is non-trivial.",
    },
})

CHECKS.update({
    "P25": {
        "source": "rotation.cc", "configs": {"avx2": 1.0, "sse41": 1.0, "generic": 0.3, "neon": 0.5, "neon64": 0.5, "asan": 0.1}, "thorough_configs": {"gcc": 0.5, "asan_generic": 0.05}, "fuzz": 120,
        "rule": "Vectors of many types and widths with every number of lanes in use, contents distinct or random and the unused lanes refilled, all shifts from minus the number of used lanes up; non-trivial with two or more lanes in use.",
    },
})

CHECKS.update({
    "P18": {
        "source": "construction.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Lengths 2 to 2^20, any dimension and erasure probability, thresholds equal to it included, compared with an own evaluation of the channels (rounding of one part in 10^9 allowed); non-trivial when some but not all positions are frozen, or for any sequence.",
    },
})

CHECKS.update({
    "P13": {
        "source": "ldpcenc.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "Random quasi-cyclic tables of 16 dimensions (blocks of 30 to 360 bits, with and without repeated links) in a used or new encoder object, several messages each and their sum, every check evaluated from the table; non-trivial when a message is not all zero.",
    },
})

CHECKS.update({
    "P14": {
        "source": "ldpcdec.cc", "configs": {"avx2": 1.0, "sse41": 0.5, "generic": 0.3, "neon": 0.2, "neon64": 0.2, "asan": 0.06}, "thorough_configs": {"gcc": 0.3}, "fuzz": 240,
        "rule": "Random quasi-cyclic tables of 19 dimensions, decoder objects used for several words each, soft words clean, flipped, erased, weak and wrong, random, saturated or noisy, 0 to 30 trials; compared value by value with a scalar model unless links repeat within a group of lanes; non-trivial when a word was repaired.",
    },
})

CHECKS.update({
    "P15": {
        "source": "polarsc.cc", "configs": {"avx2": 1.0, "sse41": 0.4, "generic": 0.3, "neon": 0.2, "neon64": 0.2, "asan": 0.06}, "thorough_configs": {"gcc": 0.3, "asan_generic": 0.03}, "fuzz": 240,
        "rule": "Lengths 2 to 2^20, frozen sets constructed, random, of whole, repetition and parity-check subtrees or nearly full or empty, scalar and vector types, soft values clean, noisy, random, extreme, small or partly zero, decided by a plain recursive decoder per lane (inputs with a zero at a decision aside); non-trivial with two or more message bits (encoder) or a soft word that is not clean under a set that is neither full nor empty.",
    },
})

CHECKS.update({
    "P16": {
        "source": "polarscl.cc", "configs": {"avx2": 1.0, "sse41": 0.4, "generic": 0.3, "neon": 0.1, "neon64": 0.2, "asan": 0.06}, "thorough_configs": {"gcc": 0.3, "asan_generic": 0.03}, "fuzz": 240,
        "rule": "Lengths 32 to 65536, frozen sets of all shapes with 1 to all positions left, lists of 4 to 32 floats or bytes, integer soft values clean, noisy, random, erased or flipped; candidates re-encoded and their metrics summed up, and the list compared with a list decoder of whole paths that follows all choices equal metrics leave, unless those are too many or bytes saturate; non-trivial when the lists were compared.",
    },
    "P17": {
        "source": "polarpar.cc", "configs": {"avx2": 1.0, "sse41": 0.4, "generic": 0.3, "neon": 0.1, "neon64": 0.2, "asan": 0.06}, "thorough_configs": {"gcc": 0.3, "asan_generic": 0.03}, "fuzz": 240,
        "rule": "As for list decoding, with any stride and first run (zero included); encoders compared with an own placement of parity bits; non-trivial when there are message and parity bits (encoder) or the lists were compared (decoder).",
    },
})

CHECKS.update({
    "P26": {
        "source": "softvalues.cc", "configs": {"avx2": 1.0, "sse41": 1.0, "generic": 0.3, "neon": 0.5, "neon64": 0.5, "asan": 0.1}, "thorough_configs": {"gcc": 0.5, "asan_generic": 0.05}, "fuzz": 120,
        "rule": "Bytes, floats and doubles, small, extreme, around half the range or random, alone and in vectors of 1 to 128 lanes, with every hard decision, every operation of the helper compared with exact or limited arithmetic; values to quantize around the limits, halves, huge and tiny; every case is non-trivial but those where nothing is rounded within the limits (quantizer).",
    },
})

CHECKS.update({
    "P27": {
        "source": "cyclic.cc", "configs": SCALAR, "thorough_configs": {"generic": 0.5, "gcc": 0.5}, "fuzz": 120,
        "rule": "34 code sizes from (2,1) to (255,247) with one to nine random odd factors of any degrees (repeated ones too) and short codes of nine known polynomials; polynomial, both matrices, codewords of both, parity of any number of message bits and the checksum register compared with polynomial multiplication and division; non-trivial when a message bit is set.",
    },
})

CHECKS.update({
    "P28": {
        "source": "reuse.cc", "configs": {"avx2": 1.0, "sse41": 0.3, "generic": 0.3, "neon": 0.1, "neon64": 0.1, "asan": 0.06}, "thorough_configs": {"gcc": 0.3}, "fuzz": 120,
        "rule": "48 coders, decoders, generators and sorters of all parts, each created in used memory: zero to four random words before the one whose every result is compared with that of a new object in other memory; two to five objects of the same or different kinds taking turns over two to ten words, each result compared likewise; non-trivial with words before (one object) or two objects.",
    },
})

CHECKS.update({
    "P29": {
        "source": "threads.cc", "technique": "property-based testing of generated concurrent workloads (own choice-sequence engine, shrinking, replay); oracles: results of the same jobs alone, and a race detector watching the same workloads", "configs": {"tsan": 0.3, "avx2": 1.0, "sse41": 0.3}, "thorough_configs": {"generic": 0.3},
        "rule": "Two to four threads at once, each with objects of its own of the same kind or of any of 48 kinds (or made in the thread), one to four random words per thread, eight times over (once with the race detector); non-trivial always, there being two threads at least.",
    },
})
