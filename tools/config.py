"""What each check runs: harnesses, bounds, vacuity guards."""

from dataclasses import dataclass, field

LEVEL = "model_checking"
SAMPLES = 12

ASSUMPTIONS = [
    "The code is judged as compiled by the pinned stable rustc to LLVM IR (opt-level 1, overflow checks and debug assertions on) for x86_64; later code generation is trusted.",
    "The executor's reading of LLVM IR and libz3 are trusted; sample paths of every run are replayed natively and must agree.",
    "Allocation succeeds; addresses are fixed per path, with no more alignment than requested.",
]


@dataclass(eq=False)
class Job:
    harness: str
    p: list = field(default_factory=list)
    covers: list = field(default_factory=list)
    bound: str = ""
    tier: str = "quick"
    shards: int = 1
    steps: int = 5_000_000
    cost: float = 1.0
    split: bool = True


@dataclass
class Check:
    jobs: list
    outside: str
    assumptions: list = field(default_factory=list)
    meaning: dict = field(default_factory=dict)


CHECKS = {}
NOT_APPLICABLE = {}

CHECKS["C08"] = Check(
    jobs=[Job("c08_digest", [a, b], [1], "all contents of every message length %d..%d" % (a, b), cost=3)
          for a, b in ((0, 40), (41, 75), (76, 100), (101, 130))]
    + [Job("c08_hex", [], [1], "all digests, rendered one free byte at a time in all 32 places"),
       Job("c08_length", [], [], "messages of any number of blocks below 2^60 bytes, followed by 0, 1, 55, 56, 63, 64 or 72 arbitrary bytes, as far as their length decides the digest", cost=2)]
    + [Job("c08_digest", [a, a + 15], [1], "all contents of every message length %d..%d" % (a, a + 15), tier="thorough")
       for a in range(131, 275, 16)],
    outside="messages longer than two (thorough: four) blocks, other than for the effect of their length; if the running length is not kept as a count of bytes or bits in a word of its own, that is skipped",
)

CHECKS["C09"] = Check(
    jobs=[Job("c09_split", [n, k], [1], "%d bytes after a prefix of %d, cut at any two places, each piece data or zero fill, all contents" % (n, k), cost=2)
          for n, k in ((10, 0), (10, 58), (10, 122))]
    + [Job("c09_cut", [n], [1], "%d bytes cut at any place, all contents" % n, cost=3) for n in (66, 130)]
    + [Job("c09_reuse", [], [1, 2, 3], "one engine used twice, lengths around the padding boundaries, finished or reset in between"),
       Job("c09_used", [], [], "any amount of data that was fed before, as far as the count of it decides whether the engine is in use"),
       Job("c09_large", [200, 7], [1], "a piece of 200 bytes or zeros after 7 bytes, one arbitrary byte in front or three after it"),
       Job("c09_large", [700, 5], [1], "a piece of 700 bytes or zeros after 5 bytes, one arbitrary byte in front or three after it", cost=2),
       Job("c09_large", [4200, 61], [1], "a piece of 4200 bytes or zeros after 61 bytes, three arbitrary bytes after it", cost=2),
       Job("c09_large", [70000, 1], [1], "a piece of 70000 bytes or zeros after 1 byte, three arbitrary bytes after it", steps=100_000_000, cost=9),
       Job("c09_zero_default", [], [1], "zero fill of 0..300 bytes by the inherited implementation")]
    + [Job("c09_split", [66, 0], [1], "66 bytes cut at any two places", tier="thorough", shards=8)],
    outside="more than four pieces; of messages longer than 132 bytes, other contents and lengths than those given",
)

CHECKS["C10"] = Check(
    jobs=[Job("c10_generic", [12, 2, 2], [1, 2, 3, 4], "stand-in hash with 8-byte blocks: keys of 0..12 bytes, messages in 2 pieces of 0..2 bytes, two messages", shards=2, cost=2),
          Job("c10_generic", [20, 1, 9], [1, 2, 3, 4], "stand-in hash: keys of 0..20 bytes, message pieces of 0..9 bytes", shards=2, cost=2),
          Job("c10_sha256", [], [1], "SHA-256: key lengths 0,1,31..33,63..65,100,130, message lengths 0,1,63,64,70, all contents", shards=4, cost=9)]
    + [Job("c10_large", [k, n, z], [1], "stand-in hash: keys of %d bytes, messages of %d bytes followed by %d zeros, some bytes of each arbitrary" % (k, n, z), steps=100_000_000)
       for k, n, z in ((64, 300, 130), (257, 70, 5000), (300, 5000, 256), (5000, 64, 1), (70000, 3, 3), (3, 70000, 70000))]
    + [Job("c10_generic", [20, 3, 3], [1, 2, 3, 4], "keys of 0..20 bytes, messages in 3 pieces of 0..3 bytes", tier="thorough", shards=8)],
    outside="longer keys and messages other than those given, engines other than SHA-256 and the stand-in",
    assumptions=["The stand-in hash (order- and length-sensitive polynomial) stands for any engine that honours the engine contract."],
)

CHECKS["C11"] = Check(
    jobs=[Job("c11_mix", [n], [1, 2], "every state, %d outputs in any mixture of widths" % n) for n in (1, 4)]
    + [Job("c11_split", [], [1], "every parent state"),
       Job("c11_xoshiro", [5], [1], "every state, 5 outputs"),
       Job("c11_mix", [8], [1, 2], "8 outputs", tier="thorough"),
       Job("c11_xoshiro", [40], [1], "40 outputs", tier="thorough")],
    outside="nothing beyond the number of outputs; every single step is covered from every state",
)

CHECKS["C12"] = Check(
    jobs=[Job("c12_split", [], [1, 2], "every parent state, both generators"),
          Job("c12_gamma_rule", [], [1], "every increment candidate"),
          Job("c12_resplit", [], [1], "every state"),
          Job("c12_seed", [], [1], "every seed"),
          Job("c12_zero", [], [1, 2], "every 256-bit seed"),
          Job("c12_jump", [0], [1], "every 256-bit state, 2^128 jump"),
          Job("c12_jump", [1], [1], "every 256-bit state, 2^192 jump")],
    outside="that the published jump polynomials denote 2^128 and 2^192 steps is taken from the publication",
)

CHECKS["C17"] = Check(
    jobs=[Job("c17_ops", [n], [1, 2], "%d operations on one tagged pointer, every address and metadata value" % n) for n in (1, 3)]
    + [Job("c17_ops", [5], [1, 2], "5 operations", tier="thorough")],
    outside="longer sequences; every operation is covered from every reachable value already",
)

CHECKS["C13"] = Check(
    jobs=[Job("c13_types", [], [1], "every value of every integer type of 1 to 16 bytes, both byte orders"),
          Job("c13_display", [], [1], "every value of 16 bits in four formats")],
    outside="targets with a native byte order other than x86_64's",
)

CHECKS["C14"] = Check(
    jobs=[Job("c14_storage", [2], [1], "every value, cells at any offset in any memory, up to 2 mutations"),
          Job("c14_endian", [], [1], "every value, both byte orders, all integer cells"),
          Job("c14_owned", [3], [1], "up to 3 operations on cells owning other data"),
          Job("c14_display", [], [1], "every value of 8 bits in four formats"),
          Job("c14_storage", [4], [1], "up to 4 mutations", tier="thorough")],
    outside="wrapped types other than the integers, arrays and owners instantiated",
)

CHECKS["C15"] = Check(
    jobs=[Job("c15_address", [], [1, 2], "every address of every width"),
          Job("c15_target", [], [1], "every native address that fits"),
          Job("c15_endian", [], [1], "every address, both byte orders")],
    outside="foreign addresses wider than 64 bits",
)

CHECKS["C16"] = Check(
    jobs=[Job("c16_%s" % a, [], [1, 2], "every value of every ABI type of %s" % a) for a in ("aarch64", "x86_64", "x86", "native", "libc")]
    + [Job("c16_errno", [], [1], "every error number against the kernel's table")],
    outside="hosts other than x86_64 Linux",
)

CHECKS["C18"] = Check(
    jobs=[Job("c18_swap_bytes", [], [1], "all contents of byte arrays of 0..17, 24, 31..33 and 64 bytes"),
          Job("c18_swap_types", [], [1], "all contents of integers and of arrays of wider elements"),
          Job("c18_copy", [], [1], "all contents, 12 pairs of sizes, at 8 source offsets"),
          Job("c18_copy_aligned", [], [1], "all contents, sources and destinations of differing alignment"),
          Job("c18_large", [], [1], "values of 6 to 4100 bytes, three of them arbitrary, against larger and smaller ones"),
          Job("c18_views", [], [1], "all contents of values up to 6 bytes")],
    outside="types other than those instantiated",
)

CHECKS["C19"] = Check(
    jobs=[Job("c19_fields", [], [1], "every field of five layouts (C, Rust, packed, over-aligned, nested), all contents"),
          Job("c19_address", [], [1], "every address, offsets up to 4 GiB")],
    outside="layouts other than those instantiated",
)

CHECKS["C20"] = Check(
    jobs=[Job("c20_shared", [3], [1], "up to 3 operations on a set of shared owners, four kinds of owner"),
          Job("c20_single", [3], [1], "3 conversions of a sole owner, three kinds"),
          Job("c20_borrowed", [2], [1], "2 conversions of a shared and an exclusive borrow"),
          Job("c20_mown", [4], [1, 2], "4 operations on a set of maybe-owned values"),
          Job("c20_shared", [5], [1], "5 operations on shared owners", tier="thorough")],
    outside="longer histories, weak references, conversions from several threads",
)

CHECKS["C21"] = Check(
    jobs=[Job("c21_address", [], [1], "any three of four adjacent objects, all contents"),
          Job("c21_anywhere", [], [1], "objects without size at any three addresses"),
          Job("c21_identity", [], [1], "shared and owned objects, all contents"),
          Job("c21_unsized", [], [1], "slices"),
          Job("c21_mown", [], [1], "three strings of 0..2 bytes, all contents, each borrowed or owned")],
    outside="pointers to unsized objects that share an address but differ in extent",
)

CHECKS["C22"] = Check(
    jobs=[Job("c22_pairs", [4, 4], [1, 2], "all pairs of ASCII strings of up to 4 characters"),
          Job("c22_mixed", [2, 2], [1, 2], "pairs of up to 2 characters of an alphabet with numerals outside of ASCII"),
          Job("c22_triples", [3], [1], "all triples of ASCII strings of up to 3 characters"),
          Job("c22_triples_mixed", [2], [1], "triples of up to 2 characters, ASCII or other numerals"),
          Job("c22_numbers", [6, 7], [1], "all numbers of 6 against 7 digits"),
          Job("c22_numbers", [5, 5], [1], "all numbers of 5 digits"),
          Job("c22_numbers", [21, 22], [1], "all numbers of 21 against 22 digits", tier="thorough"),
          Job("c22_numbers", [20, 20], [1], "all numbers of 20 digits", tier="thorough"),
          Job("c22_numbers", [3, 21], [1], "all numbers of 3 against 21 digits", tier="thorough")]
    + [Job("c22_limits", [n, m, 2], [1], "numbers of %d against %d digits, all those of the limit of an integer type or a power of ten but for 2 arbitrary ones at the start, in the middle or at the end" % (n, m), cost=2)
       for n, m in ((10, 10), (19, 20), (20, 20), (20, 21), (3, 21), (39, 39), (38, 40), (40, 41))]
    + [
          Job("c22_long", [64], [1, 2], "numbers of 64 digits against 1, 2, 63, 64, 65, 128 digits, all but the first and last equal"),
          Job("c22_long", [256], [1, 2], "numbers of 256 digits against 1, 2, 255, 256, 257, 512 digits, all but the first and last equal"),
          Job("c22_long", [300], [1, 2], "numbers of 300 digits against 1, 2, 299, 300, 301, 600 digits, all but the first and last equal"),
          Job("c22_far", [300], [1, 2], "pairs that differ in up to 2 arbitrary characters after 300 equal ones"),
          Job("c22_numbers", [40, 41], [1], "all numbers of 40 against 41 digits", tier="thorough"),
          Job("c22_pairs", [6, 6], [1, 2], "pairs of up to 6 characters", tier="thorough"),
          Job("c22_triples", [4], [1], "triples of up to 4 characters", tier="thorough")],
    outside="longer strings other than those given, other characters outside of ASCII",
)

CHECKS["C23"] = Check(
    jobs=[Job("c23_ascii", [5], [1], "all ASCII strings of up to 5 characters"),
          Job("c23_mixed", [3], [1], "strings of up to 3 characters of an alphabet with every class and encoded length"),
          Job("c23_long", [70], [1], "strings of 73 characters, the first and last two arbitrary"),
          Job("c23_long", [300], [1], "strings of 303 characters, the first and last two arbitrary")],
    outside="longer strings other than those given, other characters outside of ASCII",
)

CHECKS["C24"] = Check(
    jobs=[Job("c24_accept", [0], [2], "the empty string")]
    + [Job("c24_accept", [n], [1, 2], "all byte strings of length %d" % n, cost=n, shards=1 if n < 5 else 4) for n in (1, 2, 3, 4, 5)]
    + [Job("c24_long", [30, 33, 1], [1, 2], "strings of 30 to 33 characters in nested, array and dictionary shapes, one arbitrary byte anywhere", shards=2, cost=4),
       Job("c24_far", [64], [1, 2], "strings of 64 characters in four shapes, an arbitrary byte at the start, in the middle or at the end"),
       Job("c24_far", [256], [1, 2], "strings of 256 characters in four shapes, an arbitrary byte at the start, in the middle or at the end"),
       Job("c24_far", [400], [1, 2], "strings of 400 characters in four shapes, an arbitrary byte at the start, in the middle or at the end"),
       Job("c24_buffer", [31], [1, 2], "buffers of any size around the right one, short and long strings"),
       Job("c24_literal", [], [1, 2], "strings of up to 3 bytes through the fixed-size constructors"),
       Job("c24_accept", [6], [1, 2], "all byte strings of length 6", tier="thorough", shards=16),
       Job("c24_long", [60, 72, 1], [1, 2], "strings of 60 to 72 characters, one arbitrary byte anywhere", tier="thorough", shards=4),
       Job("c24_long", [31, 33, 2], [1, 2], "strings of 31 to 33 characters, two arbitrary bytes anywhere", tier="thorough", shards=16)],
    outside="arbitrary strings of more than 5 (thorough: 6) bytes other than the long shapes; nesting beyond 72 levels",
)

CHECKS["C25"] = Check(
    jobs=[Job("c25_navigate", [n], [1], "every position of every valid signature of length %d" % n, cost=n) for n in (1, 2, 3, 4, 5)]
    + [Job("c25_sub", [n], [1], "every sub-signature of every valid signature of length %d" % n) for n in (1, 2, 3, 4)]
    + [Job("c25_long", [31, 32, 1], [1, 2], "signatures of 31 and 32 characters in two shapes, one arbitrary byte anywhere", cost=8, shards=2),
       Job("c25_far", [70], [1, 2], "signatures of 70 characters, flat or nested 33 deep, an arbitrary byte in one of three places"),
       Job("c25_far", [300], [1, 2], "signatures of 300 characters, flat or nested 148 deep, an arbitrary byte in one of three places"),
       Job("c25_pair", [3, 3], [1, 2], "all pairs of valid signatures of up to 3 characters"),
       Job("c25_widths", [3, 30], [1], "every valid signature of 3 characters alone and inside a long one"),
       Job("c25_navigate", [6], [1], "every valid signature of length 6", tier="thorough", shards=16),
       Job("c25_sub", [5], [1], "every sub-signature of every valid signature of length 5", tier="thorough", shards=8),
       Job("c25_pair", [4, 4], [1, 2], "all pairs of valid signatures of up to 4 characters", tier="thorough", shards=8),
       Job("c25_long", [60, 66, 1], [1, 2], "signatures of 60 to 66 characters", tier="thorough", shards=16)],
    outside="arbitrary signatures of more than 5 (thorough: 6) characters other than the long shapes",
)

CHECKS["C26"] = Check(
    jobs=[Job("c26_align", [n], [1], "every element of every valid signature of length %d" % n) for n in (1, 2, 3, 4, 5)]
    + [Job("c26_deep", [], [1], "eight deeper shapes with arbitrary types in places, up to 43 characters", cost=3),
       Job("c26_table", [], [1, 2], "every element code"),
       Job("c26_distinct", [], [1], "every pair of element codes"),
       Job("c26_align", [6], [1], "every valid signature of length 6", tier="thorough", shards=8)],
    outside="other signatures of more than 5 (thorough: 6) characters; the D-Bus alignment of optionals, which the format lacks",
)

CHECKS["C27"] = Check(
    jobs=[Job("c27_vec", [0, 12, 2, 1], [1], "values of 13 signatures, up to 2 elements per array, after 0..2 other bytes", cost=2),
          Job("c27_vec", [13, 14, 1, 1], [1], "dictionaries of up to 1 entry, variants of 4 types", cost=3),
          Job("c27_vec", [15, 23, 1, 1], [1], "values of 9 nested signatures, up to 1 element per array", cost=3),
          Job("c27_chunks", [0, 23, 1, 1], [1], "values of 24 signatures, output granted in chunks of 1, 3, 5 or more than asked", cost=2),
          Job("c27_nested", [1], [1], "values of 6 signatures, written through nested encoders at any level"),
          Job("c27_large", [], [1], "texts of 255 to 1025 bytes, arrays of 31 to 130 elements"),
          Job("c27_huge", [4097], [1], "texts of 4097 bytes, alone and in arrays", steps=100_000_000),
          Job("c27_huge", [70000], [1], "texts of 70000 bytes, alone and in arrays", steps=100_000_000),
          Job("c27_deep", [12], [1], "12 levels of arrays, structures, both or variants"),
          Job("c27_deep", [40], [1], "40 levels of arrays, structures, both or variants"),
          Job("c27_limits", [], [1, 2], "signatures of 253 to 257 characters as values and as types of variants"),
          Job("c27_vec", [0, 23, 2, 1], [1], "up to 2 elements per array", tier="thorough", shards=8),
          Job("c27_vec", [6, 6, 2, 3], [1], "variants nested four deep", tier="thorough", shards=4),
          Job("c27_nested", [2], [1], "nested encoders, up to 2 elements per array", tier="thorough", shards=4)],
    outside="other signatures; longer texts and deeper types than those given; types the encoder has no operation for (y, b, n, i, x, d, h, optionals)",
)

CHECKS["C28"] = Check(
    jobs=[Job("c28_trip", [0, 5, 2], [1], "values of 6 signatures, up to 2 elements per array, input in chunks of 1, 3 or all, nested decoders"),
          Job("c28_trip", [6, 8, 1], [1], "nested arrays of up to 1 element"),
          Job("c28_trip", [6, 6, 2], [1], "arrays of arrays of numbers, up to 2 elements each"),
          Job("c28_large", [], [1, 2], "texts of 255 to 513 bytes, arrays of 127 to 300 elements"),
          Job("c28_huge", [4097], [1], "arrays with a text of 4097 bytes", steps=100_000_000),
          Job("c28_huge", [70000], [1], "arrays with a text of 70000 bytes", steps=100_000_000),
          Job("c28_deep", [12], [1], "12 levels of arrays"),
          Job("c28_deep", [40], [1], "40 levels of arrays"),
          Job("c28_either", [], [1], "the format-neutral wrappers"),
          Job("c28_trip", [6, 7, 2], [1], "arrays of arrays, up to 2 elements each", tier="thorough", shards=4),
          Job("c28_trip", [0, 5, 4], [1], "arrays of up to 4 elements", tier="thorough", shards=4)],
    outside="types the decoder has no operation for (all but q, s, g and arrays); longer texts and arrays than those given",
)

CHECKS["C29"] = Check(
    jobs=[Job("c29_any", [6, 2, 0, 9, 0], [1, 2], "any 2 requests on any input of up to 6 bytes, 10 signatures", cost=2),
          Job("c29_any", [8, 3, 3, 4, 0], [1, 2], "any 3 requests on any input of up to 8 bytes, arrays of numbers and of texts"),
          Job("c29_any", [6, 2, 0, 9, 1], [1, 2], "any 2 requests, input in chunks of 1 byte", cost=2),
          Job("c29_right", [8, 4, 0, 7], [1, 2], "the 4 requests the signature calls for on any input of up to 8 bytes, chunks of 1, 2 or all", shards=2, cost=3),
          Job("c29_right", [12, 4, 4, 4], [1, 2], "the 4 requests an array of texts calls for on any input of up to 12 bytes, chunks of 1, 2 or all", shards=2, cost=3),
          Job("c29_long", [200], [1, 2], "texts of 200 bytes, with an arbitrary byte in one of four places, possibly cut off"),
          Job("c29_long", [300], [1, 2], "texts of 300 bytes, with an arbitrary byte in one of four places, possibly cut off"),
          Job("c29_long", [70000], [1, 2], "texts of 70000 bytes, with an arbitrary byte in one of four places, possibly cut off", steps=100_000_000),
          Job("c29_any", [10, 3, 0, 9, 0], [1, 2], "any 3 requests on any input of up to 10 bytes", tier="thorough", shards=8),
          Job("c29_right", [11, 5, 0, 7], [1, 2], "5 requests on any input of up to 11 bytes", tier="thorough", shards=8)],
    outside="longer inputs other than the texts given, longer request sequences; the value of the byte that ends a text, and closing an array before its end, which the decoder does not verify",
)

CHECKS["C30"] = Check(
    jobs=[Job("c30_any", [3, 0, 13], [1], "any 3 operations on 14 signatures, then the way to the end", cost=2),
          Job("c30_once", [0, 13], [1, 2], "the right operations with any values and one arbitrary operation anywhere"),
          Job("c30_fail", [0, 13, 15], [1, 2], "the output failing in any of its first 16 requests"),
          Job("c30_other", [], [1], "signatures the encoder has no operation for"),
          Job("c30_any", [4, 0, 13], [1], "any 4 operations", tier="thorough", shards=8),
          Job("c30_fail", [0, 13, 40], [1, 2], "the output failing in any of its first 41 requests", tier="thorough", shards=4)],
    outside="other signatures, longer sequences of arbitrary operations, more than one failure of the output",
)

CHECKS["C31"] = Check(
    jobs=[Job("c31_read", [5, 4], [1, 2], "any range of 5 bytes, in pieces of 1 to 4 bytes in any order"),
          Job("c31_slice", [], [1, 2, 3], "all positions and lengths on up to 4 bytes"),
          Job("c31_write", [5, 4], [1, 2], "copying, iterating, filling and zeroing any range of 5 bytes, in pieces of 1 to 4 bytes"),
          Job("c31_large", [70], [1], "reading and writing 70 bytes in large pieces"),
          Job("c31_large", [300], [1], "reading and writing 300 bytes in large pieces"),
          Job("c31_large", [5000], [1], "reading and writing 5000 bytes in large pieces"),
          Job("c31_large", [70000], [1], "reading and writing 70000 bytes in large pieces", steps=100_000_000, cost=2),
          Job("c31_vec_large", [300], [1], "writing 300 bytes to a vector of 300"),
          Job("c31_vec_large", [70000], [1], "writing 70000 bytes to a vector of 70000", steps=100_000_000),
          Job("c31_align", [11, 3], [1, 2], "alignments of up to 16 on 11 bytes, in pieces of 1 to 3 bytes"),
          Job("c31_align_any", [], [1, 2, 3, 4], "any alignment of any 64-bit position"),
          Job("c31_vec", [], [1, 2], "vectors holding up to 3 bytes, writing up to 16 bytes in several steps"),
          Job("c31_vec_overflow", [], [1], "all ranges beyond the address space"),
          Job("c31_read", [8, 8], [1, 2], "any range of 8 bytes, in any pieces", tier="thorough"),
          Job("c31_write", [8, 8], [1, 2], "any range of 8 bytes, in any pieces", tier="thorough")],
    outside="larger buffers other than those given; what has been transferred when a buffer fails midway",
)

CHECKS["C32"] = Check(
    jobs=[Job("c32_read", [], [1, 2], "windows of any size on up to 4 bytes"),
          Job("c32_vec", [3], [1], "vectors holding up to 2 bytes, minimum up to 3, any maximum"),
          Job("c32_write", [], [1, 2], "a limited output of 4 bytes"),
          Job("c32_write_large", [300], [1], "writing 300 bytes at once"),
          Job("c32_write_large", [70000], [1], "writing 70000 bytes at once", steps=100_000_000),
          Job("c32_while_large", [70], [1, 2], "scanning 70 bytes, arriving in 2 or 3 pieces"),
          Job("c32_while_large", [300], [1, 2], "scanning 300 bytes, arriving in 2 or 3 pieces"),
          Job("c32_while_large", [5000], [1, 2], "scanning 5000 bytes, arriving in 2 or 3 pieces", steps=100_000_000),
          Job("c32_while", [5], [1, 2, 3, 4], "scanning up to 5 bytes, any test, any limit, any windows, data arriving in any pieces", cost=2),
          Job("c32_while", [6], [1, 2, 3, 4], "scanning up to 6 bytes", tier="thorough", shards=4)],
    outside="larger buffers other than those given",
)

CHECKS["C33"] = Check(
    jobs=[Job("c33_any", [n], [1, 2] if n else [1], "all byte sequences of length %d" % n, cost=n, shards=2 if n > 3 else 1) for n in (0, 1, 2, 3, 4)]
    + [Job("c33_number", [5], [1, 2], "all sequences of 5 characters that numbers are made of"),
       Job("c33_string", [4], [1, 2], "any 4 bytes inside of a string"),
       Job("c33_mixed", [2, 2], [1, 2], "any byte in a string between up to 4 others, plain, escaped, control or multi-byte", cost=2),
       Job("c33_unicode", [1, 6], [1, 2], "any 4 bytes of a code point escape, cut off anywhere", cost=4, shards=2),
       Job("c33_unicode", [2, 0], [1, 2], "two code point escapes, the first around the surrogates, the second any", cost=8, shards=8),
       Job("c33_word", [], [1, 2], "words, with any byte changed or added"),
       Job("c33_large", [70], [1, 2], "tokens of 70 bytes of each kind, an arbitrary byte in one of four places"),
       Job("c33_large", [300], [1, 2], "tokens of 300 bytes of each kind, an arbitrary byte in one of four places"),
       Job("c33_large", [5000], [1, 2], "tokens of 5000 bytes of each kind, an arbitrary byte in one of four places", steps=100_000_000, cost=2),
       Job("c33_strings", [300], [1, 2], "two strings of 300 bytes, an arbitrary byte in one of three places"),
       Job("c33_strings", [5000], [1, 2], "two strings of 5000 bytes, an arbitrary byte in one of three places", steps=100_000_000),
       Job("c33_any", [5], [1, 2], "all byte sequences of length 5", tier="thorough", shards=16),
       Job("c33_number", [7], [1, 2], "all sequences of 7 characters that numbers are made of", tier="thorough", shards=8),
       Job("c33_string", [6], [1, 2], "any 6 bytes inside of a string", tier="thorough", shards=8),
       Job("c33_unicode", [2, 4], [1, 2], "two code point escapes, cut off anywhere", tier="thorough", shards=16)],
    outside="longer sequences other than the shapes given; how often more than two signs in a row are reported",
)

CHECKS["C34"] = Check(
    jobs=[Job("c34_any", [n], [1, 2], "all byte sequences of length %d, arriving in all ways" % n, cost=n) for n in (1, 2, 3)]
    + [Job("c34_string", [0, 0, 100], [1, 2], "a string with an escape, any byte anywhere, arriving in all ways"),
       Job("c34_string", [1, 1, 3], [1, 2], "a string with a code point escape, any byte anywhere, arriving in up to 3 pieces", cost=2),
       Job("c34_string", [2, 5, 2], [1, 2], "strings with surrogates, any byte anywhere, arriving in 2 pieces", cost=4, shards=4),
       Job("c34_number", [3], [1, 2], "numbers and words, any byte anywhere, arriving in up to 3 pieces", cost=3, shards=2),
       Job("c34_large", [70], [1, 2], "tokens of 70 bytes of each kind, an arbitrary byte in one of three places, arriving in 2 pieces"),
       Job("c34_large", [1100], [1, 2], "tokens of 1100 bytes of each kind, an arbitrary byte in one of three places, arriving in 2 pieces", steps=100_000_000),
       Job("c34_any", [4], [1, 2], "all byte sequences of length 4, arriving in all ways", tier="thorough", shards=16),
       Job("c34_number", [100], [1, 2], "numbers and words, any byte anywhere, arriving in all ways", tier="thorough", shards=8),
       Job("c34_string", [2, 5, 3], [1, 2], "strings with surrogates, arriving in up to 3 pieces", tier="thorough", shards=8)],
    outside="longer sequences other than the shapes given; buffers whose content changes while a token is pending",
)

CHECKS["C35"] = Check(
    jobs=[Job("c35_any", [8], [1, 2], "all sequences of 8 tokens", cost=2),
          Job("c35_inside", [6], [1, 2], "all sequences of 6 tokens inside of 6 nested contexts", cost=2),
          Job("c35_deep", [20, 3], [1, 2], "any 3 tokens inside of 20 containers"),
          Job("c35_deep", [130, 3], [1, 2], "any 3 tokens inside of 130 containers"),
          Job("c35_values", [], [1], "every kind of value in 5 contexts"),
          Job("c35_any", [11], [1, 2], "all sequences of 11 tokens", tier="thorough", shards=8),
          Job("c35_inside", [8], [1, 2], "all sequences of 8 tokens inside of 6 nested contexts", tier="thorough", shards=8)],
    outside="longer documents other than those given; what is reported after the first error; whether keys are told apart from values",
)

CHECKS["C36"] = Check(
    jobs=[Job("c36_fields", [0], [1, 2], "all images of the header, every field written"),
          Job("c36_fields", [1], [1, 2, 3], "all images of the extended header, every field written"),
          Job("c36_fields", [2], [1, 2], "all images of a relocation entry, every field written"),
          Job("c36_sum", [10], [1, 2], "all byte strings up to 10 bytes"),
          Job("c36_large", [129], [1], "files of 129 and 130 bytes, five of them arbitrary"),
          Job("c36_large", [1027], [1], "files of 1027 and 1028 bytes, five of them arbitrary"),
          Job("c36_large", [66001], [1], "files of 66001 and 66002 bytes, five of them arbitrary", steps=100_000_000),
          Job("c36_checksum", [0], [1], "files of 28 bytes, any 6 adjacent bytes arbitrary", cost=3, shards=2),
          Job("c36_stub", [], [1], "the stub program followed by any byte"),
          Job("c36_sum", [15], [1, 2], "all byte strings up to 15 bytes", tier="thorough"),
          Job("c36_checksum", [4], [1], "files of 28 to 32 bytes, any 6 adjacent bytes arbitrary", tier="thorough", shards=8)],
    outside="longer byte strings other than those given; big-endian machines",
)

CHECKS["C37"] = Check(
    jobs=[Job("c37_fields", [i], [1, 2], "all images of the %s, every field written" % n)
          for i, n in enumerate(("file header", "optional header (32-bit)", "optional header (64-bit)",
                                 "extended optional header (32-bit)", "extended optional header (64-bit)",
                                 "data directory", "section header"))]
    + [Job("c37_magic", [], [1, 2, 3], "all values of the format magic"),
       Job("c37_numbers", [], [1], "all values of machine, subsystem, characteristics and directory numbers")],
    outside="big-endian machines; certificate and debug data, for which there are no types",
)

CHECKS["C38"] = Check(
    jobs=[Job("c38_fields%d" % c, [i], [1, 2], "all images of the %s (%d-bit), every field written" % (n, c))
          for c in (32, 64)
          for i, n in enumerate(("file header", "section header", "program header", "symbol", "dynamic entry",
                                 "relocation", "relocation with addend"))]
    + [Job("c38_ident", [], [1, 2], "all identifications"),
       Job("c38_addend", [], [1], "all addends"),
       Job("c38_numbers", [], [1], "all 32-bit numbers against each of 562 names")],
    outside="big-endian machines; numbers registered for a single vendor only (EM_M32C_INTERIM)",
)

CHECKS["C01"] = Check(
    jobs=[Job("c01_any", [n, 0], [1, 2], "all sequences of %d ASCII characters" % n, cost=n * n, shards=2 if n == 4 else 1) for n in (1, 2, 3, 4)]
    + [Job("c01_any", [3, f], [1, 2], "all sequences of 3 ASCII characters, relaxations %d" % f, cost=4) for f in (1, 2, 3)]
    + [Job("c01_number", [6, 0], [1, 2], "all sequences of 6 characters that numbers are made of", cost=16, shards=2)]
    + [Job("c01_number", [5, f], [1, 2], "all sequences of 5 characters that numbers are made of, relaxations %d" % f, cost=6) for f in (1, 2, 3)]
    + [Job("c01_document", [d, i, 0], [1, 2] if d != 3 else [2], "document %d, any ASCII character %s" % (d, ("in place of", "before")[i] + " any other")) for d in range(4) for i in (0, 1)]
    + [Job("c01_document", [3, 0, 3], [2], "document 3, any ASCII character anywhere, all relaxations"),
       Job("c01_wide", [2], [1, 2], "2 ASCII characters and one of 22 others anywhere", cost=5),
       Job("c01_pieces", [3], [1, 2], "all sequences of 3 ASCII characters, cut anywhere", cost=9),
       *[Job("c01_large", [t, 4200], c, "a token of 4200 characters (%s), any ASCII character in its middle or at its end, followed by others" % n, cost=8)
         for t, n, c in ((0, "string", [1, 2]), (1, "number", [1, 2]), (2, "word", [2]), (3, "white space", [1, 2]), (4, "comment", [2]))],
       Job("c01_any", [5, 0], [1, 2], "all sequences of 5 ASCII characters", tier="thorough", shards=32),
       Job("c01_any", [4, 3], [1, 2], "all sequences of 4 ASCII characters, all relaxations", tier="thorough", shards=4),
       Job("c01_number", [7, 0], [1, 2], "all sequences of 7 characters that numbers are made of", tier="thorough", shards=16),
       Job("c01_number", [7, 3], [1, 2], "all sequences of 7 characters that numbers are made of, all relaxations", tier="thorough", shards=16),
       Job("c01_wide", [3], [1, 2], "3 ASCII characters and one of 22 others anywhere", tier="thorough", shards=16)],
    outside="longer sequences other than the documents given; characters beyond ASCII other than the 22 given; the errors of words that start beyond ASCII",
)

CHECKS["C02"] = Check(
    jobs=[Job("c02_body", [n], [1, 2], "any %d ASCII characters in a string" % n, cost=n) for n in (1, 2, 3, 4)]
    + [Job("c02_body", [5], [1, 2], "any 5 ASCII characters in a string", cost=20, shards=4),
       Job("c02_scalar", [2], [1, 2], "any 2 scalar values in a string"),
       Job("c02_escape", [], [1, 2], "all four-digit escapes, any ASCII character in place of a digit", cost=8, shards=2),
       Job("c02_pair", [3], [1, 2], "two escapes, the first of D000..DFFF, the second any, last digits decimal", cost=16, shards=8)]
    + [Job("c02_shape", [s, 2], [1, 2] if s < 5 else [2], "string %d, any 2 ASCII characters in place of any adjacent two" % s, cost=3) for s in range(8)]
    + [Job("c02_body", [6], [1, 2], "any 6 ASCII characters in a string", tier="thorough", shards=32),
       Job("c02_scalar", [3], [1, 2], "any 3 scalar values in a string", tier="thorough", shards=4),
       Job("c02_pair", [4], [1, 2], "two escapes, the first of D000..DFFF, the second any", tier="thorough", shards=32)],
    outside="longer strings other than the shapes given; the errors and value of a string with half a surrogate pair followed by an escape that is not the other half",
)

CHECKS["C03"] = Check(
    jobs=[Job("c03_any", [2, 1, 2, f], [1, 2, 3], "all first texts of 2, second texts of 1 ASCII characters, aborts at any report, relaxations %d" % f, cost=5) for f in (0, 3)]
    + [Job("c03_any", [1, 2, 1, 0], [1, 2, 3], "all first texts of 1, second texts of 2 ASCII characters, aborts at any report", cost=5)]
    + [Job("c03_text", [t, 0, 4, 0], [1, 2, 3], "text %d up to any place, aborts at any of the first 5 reports, followed by any of 10 texts with any first character" % t, cost=5) for t in range(10)]
    + [Job("c03_calls", [2, 1, 2], [1, 2], "all texts of 2 ASCII characters given at once, aborts at any report", cost=5),
       *[Job("c03_large", [t, 4200, 2], [1, 2, 3], "a token of 4200 characters (%s), followed by any 2 ASCII characters" % n, cost=8)
         for t, n in enumerate(("string", "open string beyond ASCII", "number", "word", "white space", "comment"))],
       Job("c03_any", [2, 2, 3, 0], [1, 2, 3], "all first texts of 2, second texts of 2 ASCII characters, aborts at any report", tier="thorough", shards=32),
       Job("c03_any", [3, 1, 4, 0], [1, 2, 3], "all first texts of 3, second texts of 1 ASCII characters, aborts at any report", tier="thorough", shards=32)]
    + [Job("c03_text", [t, 3, 9, 3], [1, 2, 3], "text %d up to any place, aborts at any report, followed by any of 10 texts with any character among the first 4" % t, tier="thorough", shards=8) for t in range(10)],
    outside="longer texts other than those given",
)

TREE = ["a root with sub-commands at two levels", "no root and undeclared commands in between", "a root but nothing in between",
        "names that start with other names", "nothing above", "just a root", "nothing at all", "seven commands", "a gap below a command"]
ANY = [1, 2, 3, 4]

CHECKS["C04"] = Check(
    jobs=[Job("c04_words", [t, 2, 2], [4], "tree: %s; 2 words of 0..2 arbitrary bytes" % TREE[t], split=True) for t in range(9)]
    + [Job("c04_words", [t, 4, 1], [], "tree: %s; 4 words of 0..1 arbitrary bytes" % TREE[t], split=True) for t in range(9)]
    + [Job("c04_mixed", [t, 3], [4], "tree: %s; 3 arguments, one of them a flag or separator of any form, all bytes arbitrary" % TREE[t], split=True, cost=4) for t in range(9)]
    + [Job("c04_separator", [t, 2 if t in (0, 1) else 1, 1], [3] if t not in (4, 6) else [4], "tree: %s; 0.." % TREE[t] + ("2" if t in (0, 1) else "1") + " arguments, each a flag of any form or a word of an arbitrary byte, a double dash, and another argument of any form", cost=4) for t in range(9)]
    + [Job("c04_declared", [1, 2, 2, 3], ANY, "any single command", split=True),
       Job("c04_declared", [2, 2, 2, 3], ANY, "any two commands with paths of 0..2 of 2 names; 3 words of an arbitrary byte", split=True, cost=3),
       Job("c04_declared", [3, 2, 2, 2], ANY, "any three commands with paths of 0..2 of 2 names; 2 words of an arbitrary byte", split=True, cost=3)]
    + [Job("c04_wide", [n], ANY, "40 commands with names of %d characters that differ in one of them; 3 words, two of them with any byte in that place" % n, split=True) for n in (2, 40, 300)]
    + [Job("c04_deep", [0], [1, 3, 4], "commands within each other up to 39 deep; any number of them, a word of an arbitrary byte, a flag and another word", split=True),
       Job("c04_deep", [1], ANY, "commands within each other up to 79 deep, every other declared", split=True, cost=2),
       Job("c04_many", [40], [1, 3], "40 words, one of them an arbitrary byte, and a flag", split=True)]
    + [Job("c04_words", [t, 3, 2], [], "tree: %s; 3 words of 0..2 arbitrary bytes" % TREE[t], tier="thorough", split=True, shards=2) for t in range(9)]
    + [Job("c04_words", [t, 6, 1], [], "tree: %s; 6 words of 0..1 arbitrary bytes" % TREE[t], tier="thorough", split=True, shards=4) for t in range(9)]
    + [Job("c04_mixed", [t, 4], [4], "tree: %s; 4 arguments, one of them a flag or separator of any form" % TREE[t], tier="thorough", split=True, shards=8) for t in range(9)]
    + [Job("c04_declared", [4, 2, 2, 2], ANY, "any four commands with paths of 0..2 of 2 names", tier="thorough", split=True, shards=8),
       Job("c04_declared", [3, 3, 2, 3], ANY, "any three commands with paths of 0..3 of 2 names", tier="thorough", split=True, shards=8)],
    outside="longer argument lists and words, and more than seven commands, other than those given; several commands declared with the same path",
)

CHECKS["C05"] = Check(
    jobs=[Job("c05_path", [t, 3, 1, 1], [5], "tree: %s; 0..3 command names, a flag of any form, a word of 0..1 arbitrary bytes" % TREE[t], split=True, cost=3) for t in range(9)]
    + [Job("c05_order", [t, 2], [5], "tree: %s; 2 arguments, each a flag of any form or a word" % TREE[t], split=True, cost=4) for t in range(9)]
    + [Job("c05_named", [1, 2, 2], list(range(1, 9)), "any two names with any modes on a root command", split=True, cost=2),
       Job("c05_named", [2, 2, 2], list(range(1, 9)), "any names with any modes on a command and one below it", split=True, cost=3)]
    + [Job("c05_wide", [n], list(range(1, 8)), "40 flags with names of %d characters on a command and one below it; one given with any byte where they differ, with or without prefix, and any byte in a long value" % n, split=True, cost=3) for n in (2, 70)]
    + [Job("c05_deep", [0], list(range(1, 9)), "flags of commands within each other up to 39 deep", split=True, cost=2),
       Job("c05_deep", [1], list(range(1, 9)), "flags of commands within each other up to 79 deep, every other declared", split=True, cost=3),
       Job("c05_many", [40, 0], list(range(1, 9)), "40 flags in a row, one of them of any form", split=True)]
    + [Job("c05_named", [1, 3, 2], list(range(1, 9)), "any three names with any modes on a root command", tier="thorough", split=True),
       Job("c05_named", [2, 3, 2], list(range(1, 9)), "any three names with any modes on a command and one below it", tier="thorough", split=True, shards=2),
       Job("c05_named", [2, 4, 2], list(range(1, 9)), "any four names with any modes on a command and one below it", tier="thorough", split=True, shards=16)]
    + [Job("c05_path", [t, 3, 2, 1], [5], "tree: %s; 0..3 command names, 2 flags of any form, a word" % TREE[t], tier="thorough", split=True, shards=16) for t in range(9)],
    outside="longer names and argument lists other than those given; several flags of the same name in one command",
)

CHECKS["C06"] = Check(
    jobs=[Job("c06_abort", [t, 3], [1, 2, 3, 4, 5, 6] if t in (0, 7) else [3], "tree: %s; 3 arguments, one of them a flag; any target aborts at any delivery" % TREE[t], split=True, cost=5) for t in (0, 1, 2, 7)]
    + [Job("c06_values", [k, 2, 2], [1, 2] if 2 <= k <= 5 or k >= 8 else [2], "target %d of 12: 2 values of 0..2 arbitrary bytes" % k, split=True, cost=2) for k in range(12)]
    + [Job("c06_parameters", [k, 2, 2], [1, 2] if k >= 3 else [], "parameter target %d of 7: 2 parameters of 0..2 arbitrary bytes" % k, split=True) for k in range(7)]
    + [Job("c06_switch", [3], [1, 2], "boolean and unit targets, directly and shared: 3 deliveries of any form", split=True),
       Job("c06_abort_large", [40], [1], "40 arguments, any delivery aborts", split=True)]
    + [Job("c06_values_large", [k, n, m], [1, 2] if 2 <= k <= 5 or k >= 8 else [2], "target %d of 12: %d values of %d bytes, any byte anywhere in the first, middle or last" % (k, n, m), split=True) for k in range(12) for n, m in ((40, 1), (2, 300))]
    + [Job("c06_parameters_large", [k, n, m], [1, 2] if k >= 3 else [], "parameter target %d of 7: %d parameters of %d bytes, any byte anywhere in the first, middle or last" % (k, n, m), split=True) for k in range(7) for n, m in ((40, 1), (2, 300))]
    + [Job("c06_shared", [2], [1], "shared targets, and targets that take no value: 2 values of 0..2 arbitrary bytes", split=True)]
    + [Job("c06_values", [k, 3, 2], [2], "target %d of 12: 3 values of 0..2 arbitrary bytes" % k, tier="thorough", split=True, shards=4) for k in range(12)]
    + [Job("c06_values", [k, 1, 4], [2], "target %d of 12: values of 0..4 arbitrary bytes" % k, tier="thorough", split=True) for k in range(12)]
    + [Job("c06_parameters", [k, 3, 3], [], "parameter target %d of 7: 3 parameters of 0..3 arbitrary bytes" % k, tier="thorough", split=True, shards=4) for k in range(7)]
    + [Job("c06_abort", [t, 3], [3], "tree: %s; 3 arguments" % TREE[t], tier="thorough", split=True) for t in (3, 4, 5, 6, 8)],
    outside="longer values and more deliveries other than those given",
)

CHECKS["C07"] = Check(
    jobs=[Job("c07_tree", [3, 2, 2], [1], "any three commands with paths of 0..2 of 2 names, help on any of them", split=True, cost=3),
          Job("c07_tree", [2, 3, 2], [1], "any two commands with paths of 0..3 of 2 names, help on any of them", split=True, cost=2),
          Job("c07_rows", [], [1, 2], "1..3 flags and 0..3 sub-commands with names of 1 to 5 characters, some outside ASCII, in any order, any failing write", split=True, cost=3)]
    + [Job("c07_large", [n], [1, 2], "29 sub-commands and 40 flags with names of up to %d characters of one to four bytes, some failing write" % n, split=True) for n in (12, 70)]
    + [Job("c07_asked", [k], [1, 3], "help asked for, revoked or neither at each of three places of a command line", split=True) for k in (0, 1)]
    + [Job("c07_tree", [4, 2, 2], [1], "any four commands with paths of 0..2 of 2 names, help on any of them", tier="thorough", split=True, shards=8),
       Job("c07_tree", [3, 3, 2], [1], "any three commands with paths of 0..3 of 2 names, help on any of them", tier="thorough", split=True, shards=8),
       Job("c07_tree", [3, 2, 3], [1], "any three commands with paths of 0..2 of 3 names, help on any of them", tier="thorough", split=True, shards=4)],
    outside="more commands and flags other than those given; terminal cell widths, which are left to the writer",
)

CHECKS["C39"] = Check(
    jobs=[Job("c39_convert", [n], [1, 2] if n else [1], "all byte strings of length %d" % n) for n in range(4)]
    + [Job("c39_convert", [4], [1, 2], "all byte strings of length 4", shards=2, cost=3),
       Job("c39_order", [3], [1], "all pairs of byte strings of up to 3 bytes"),
       Job("c39_write", [3, 3], [1, 2], "any text of 1 to 3 ASCII characters written or formatted; the first 3 writes take 1 or 2 bytes, are interrupted or fail"),
       Job("c39_large", [70, 3], [1, 2], "strings of 70 bytes, three arbitrary ones at the start, in the middle or at the end"),
       Job("c39_large", [300, 2], [1, 2], "strings of 300 bytes, two arbitrary ones at the start, in the middle or at the end"),
       Job("c39_large", [5000, 1], [1, 2], "strings of 5000 bytes, an arbitrary one at the start, in the middle or at the end"),
       Job("c39_write_large", [300, 2], [1, 2], "text of 300 ASCII characters; the first 2 writes take 1 or 2 bytes, are interrupted or fail"),
       Job("c39_write_large", [5000, 1], [1, 2], "text of 5000 ASCII characters; the first write takes 1 or 2 bytes, is interrupted or fails"),
       Job("c39_convert", [5], [1, 2], "all byte strings of length 5", tier="thorough", shards=8),
       Job("c39_order", [6], [1], "all pairs of byte strings of up to 6 bytes", tier="thorough", shards=2),
       Job("c39_write", [4, 6], [1, 2], "any text of 1 to 4 ASCII characters; the first 6 writes take 1 or 2 bytes, are interrupted or fail", tier="thorough", shards=4)],
    outside="longer strings other than those given; outputs that format in their own way",
    assumptions=["osi is built with its std feature"],
)
CHECKS["C40"] = Check(
    jobs=[Job("c40_fold", [], [1, 2, 3], "all 12 ways to fold, texts of 20 characters with any first and last one, output failing at any of the first 4 writes or not at all")],
    outside="errors that panic or fail to format on their own",
    assumptions=["osi is built with its std feature"],
)
CHECKS["C41"] = Check(
    jobs=[Job("c41_ptr", [], [1], "any contents; references, boxes, counted pointers and slices"),
          Job("c41_element", [], [1], "any element of an array of five"),
          Job("c41_map", [], [1], "any contents; mapping to a field and to another pointer type")],
    outside="other pointer types",
)

CHECKS["C42"] = Check(
    jobs=[Job("c42_marker", [], [1], "all contents of two marked values"),
          Job("c42_brand", [], [1], "all results of a branded function"),
          Job("c42_coerce", [], [1, 2, 3], "all contents of 4 bytes, references to any of them"),
          Job("c42_never", [], [1], "all values")],
    outside="that invariance and uniqueness are enforced, which is a matter of what compiles; types other than those instantiated",
)
