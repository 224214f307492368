import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

TOK="lib/osi/src/json/token.rs"
p("C01","JSON push tokenizer recognises exactly the JSON lexical grammar",
 "For every character sequence followed by end of input, the tokenizer reports the JSON tokens of that sequence in source order, each with the exact source text it covers and, for numbers, the right digits and signs. Text inside the JSON lexical grammar never causes an error report, and text outside of it always causes one; the optional relaxations (leading zeros, plus signs) admit exactly what they name and nothing else.",
 ["inputs","configurations"],"all character sequences up to a length bound, all four relaxation settings, every way of cutting the text into pushed pieces",
 "The tests tokenise a few dozen hand-written literals; the grammar is a state machine with about ten modes whose interactions (sign, zero, digit, dot, exponent, keyword, comment, quote) only show for particular character orders.",
 [TOK],[("character state machine","Tokenizer::push / advance_* in "+TOK),("number accumulator","number states in "+TOK)],
 ["reports delivered to the Report callback","return value of push/push_str/parse_str"])
p("C02","JSON push tokenizer decodes every string literal to the right text",
 "For every string literal, the reported value is the text the JSON standard assigns to it: plain characters unchanged, each two-character escape replaced by its character, four-digit Unicode escapes and surrogate pairs combined into the scalar value they encode. Control characters, unknown or truncated escapes and unpaired surrogates are each reported as an error at that literal and never produce a wrong or invalid scalar silently.",
 ["inputs"],"all string bodies up to a length bound over all Unicode scalar values, all hexadecimal escape payloads including every surrogate combination",
 "65536 escape payloads and their pairings cannot be listed by hand; tests use a handful of code points.",
 [TOK],[("escape decoder","string escape states in "+TOK),("surrogate pairing","surrogate states in "+TOK)],
 ["Token::String value and raw text","error reports"])
p("C03","JSON push tokenizer is reusable after end of input, abort or reset",
 "Whatever was pushed before, once the end of input has been pushed, or a report callback asked to abort, or the tokenizer was reset, the tokenizer behaves on all following input exactly like a newly created one with the same settings. An abort is returned to the caller of the very push that triggered it with the callback's value, and no further report is made for that push.",
 ["inputs","histories","fault_sequences"],"all histories of pushed characters up to a bound, all positions at which the callback aborts, all following inputs up to a bound",
 "The abort point is a fault schedule: any report of any input may be the one that aborts, and left-over accumulator state only shows in the input that follows.",
 [TOK],[("reset on break / end","Tokenizer::prepare, reset and push in "+TOK)],["reports for the second document","status()","return values"])
ARGP="lib/osi/src/args/parse.rs"; ARGL="lib/osi/src/args/layout.rs"; ARGR="lib/osi/src/args/report.rs"; ARGH="lib/osi/src/args/help.rs"
p("C04","Command line selects the longest matching command and its parameters",
 "For every argument list, leading arguments that spell a declared command path select the longest such path, the first argument that does not continue a declared path ends command selection and is delivered, together with all later non-flag arguments in order, as parameters to the selected command. A double dash delivers everything after it as parameters, and arguments that are not valid where they stand are reported to the error target with the offending text. The call yields the selected command exactly if that path is itself declared, and parameters without such a command are errors.",
 ["inputs","configurations"],"all argument lists up to a bound over an alphabet covering declared names, prefixes, unknown names, flags and separators; several declared command trees including ones with undeclared intermediate commands",
 "Tests walk single argument lists on one tree; selection depends on the whole list and on sort order and back-pointers of the declared tree.",
 [ARGP,ARGL],[("command cursor","Cursor in "+ARGP),("sorted command table with up links","CommandSet::with in "+ARGL)],["callbacks on commands, flags and the error target","result of parse"])
p("C05","Flags apply only to the selected command path, innermost first",
 "A long flag is matched only against flags of the selected command and its ancestors, with the innermost declaration winning; a flag of any other command is reported as unknown. Its value is delivered in the form used on the command line: bare, with an attached value, with the following argument as value, or negated, and a missing, superfluous or malformed value is reported as an error for that flag instead of being delivered.",
 ["inputs","configurations"],"all argument lists up to a bound over an alphabet covering every flag spelling, on trees where several commands declare the same flag names with different modes",
 "The combination of position on the command line, declaring command and flag mode is a product space the tests sample a few points of.",
 [ARGP,ARGL],[("flag lookup along the path","find_flag in "+ARGP),("long flag parsing","parse_long in "+ARGP)],["flag callbacks","error target"])
p("C06","Report targets receive exactly the parsed values and aborts stop parsing",
 "Every provided report target ends up holding exactly the values delivered to it: single-value targets the last one, list targets all in order, toggles the last state, and text targets reject non-text without changing. When any target asks to abort, parsing stops at once, nothing further is delivered and the abort value is returned.",
 ["inputs","fault_sequences"],"all delivery sequences up to a bound, all argument bytes including invalid UTF-8, every position at which a target aborts",
 "Each target type is exercised by at most a couple of literal values; abort positions are not varied.",
 [ARGR,ARGP],[("report target impls","FlagReport/CommandReport/ParserReport impls in "+ARGR)],["contents of the targets","result of parse"])
p("C07","Help text lists the info, usage, own flags and direct sub-commands",
 "For every declared command tree and command asked about, the help output consists of the information text, the usage line with the command's path, all of its own flags and exactly its direct sub-commands with their descriptions, in sorted order, each with the width of the widest name of its section counted in characters. It is produced for the command in effect where help was asked for, not at all if it was not asked for or revoked later, and a failing output stops it at once with that failure.",
 ["configurations","fault_sequences"],"all trees of a bounded size over a symbolic choice of declared commands and flags, all entry commands, every write at which the output fails",
 "The tests render one fixed tree; which rows belong to an entry depends on the sorted layout of the whole tree.",
 [ARGH,ARGL],[("help renderer","Help::try_help in "+ARGH)],["rendered text","result of try_help"])
SHA="lib/osi/src/hash/sha256.rs"; HASH="lib/osi/src/hash.rs"
p("C08","SHA-256 computes the FIPS 180-4 digest of every message",
 "For every message, the digest equals the one defined by FIPS 180-4, including the padding for every message length modulo the block size. Its hexadecimal rendering is the lowercase rendering of the same bytes in order.",
 ["inputs"],"all message contents for every length in the bound, which covers every residue modulo the block size",
 "Digest tests check a few vectors; padding has a separate case for each residue of the length, and content is unbounded.",
 [SHA,HASH],[("compression","sha256_round/sha256_step in "+SHA),("padding","finalize in "+SHA)],["finalize()","to_hex()"])
p("C09","SHA-256 digest does not depend on how the message is fed in",
 "Feeding a message in any sequence of pieces, of any sizes including empty ones, with runs of zeros fed through the zero-fill operation or as data, yields the digest of the whole message. After producing a digest or after a reset the engine behaves as new, and it reports being unused exactly when nothing has been fed since.",
 ["histories","inputs"],"all ways of splitting a message into pieces within the bounds, all contents, repeated use of one engine",
 "Split points interact with the block buffer only at particular residues; tests use a few fixed splits.",
 [SHA,HASH],[("block buffer","push/push_zero in "+SHA),("automatic reset","finalize/reset in "+SHA)],["finalize()","is_reset()"])
p("C10","HMAC equals RFC 2104 for every key, message and feeding order",
 "For every key length below, at and above the block size and every message, however it is split into pieces, the authentication code is the RFC 2104 construction over the underlying hash. The same keyed object can be used for any number of messages, each result depending only on the key and that message.",
 ["inputs","histories"],"all keys and messages within the bounds, all splits, several consecutive messages on one object, for a symbolic hash engine and for SHA-256",
 "Key-length cases, lazy inner padding and re-use interact; the tests check published vectors, one message per object.",
 ["lib/osi/src/hmac.rs",HASH],[("key padding and lazy inner pad","Hmac::with_engine/push/finalize in lib/osi/src/hmac.rs")],["finalize()"])
RNG="lib/osi/src/rng.rs"
p("C11","Random generators produce the published SplitMix64 and xoshiro256++ streams",
 "For every seed, the generators produce exactly the value sequences of the published algorithms they are named after, for 32-bit and 64-bit outputs. The same seed always yields the same sequence.",
 ["inputs","histories"],"all seeds and generator states, any number of preceding outputs (one inductive step from an arbitrary state)",
 "The state space is 2^64 to 2^256; tests compare a few outputs for a few seeds.",
 [RNG],[("mixing functions","mix32/mix64/mixg in "+RNG),("state transition","next64 in "+RNG)],["next32()/next64()"])
p("C12","Derived random streams are well formed: seeding, splitting and jumping",
 "Seeding never yields a degenerate generator: the all-zero state is never used, and expanding a small seed fills every word of the state from successive outputs of the seeding generator. Splitting yields a generator whose increment is odd and irregular enough for every parent state and advances the parent, and jumping advances exactly as far as published and commutes with stepping.",
 ["inputs"],"all seeds and states",
 "Degenerate states are single points in a 2^256 space; a test on a few seeds cannot tell a copied word from a fresh one.",
 [RNG],[("seed expansion","with_seed/from_splitmix64 in "+RNG),("split","split in "+RNG),("jump polynomials","jump128/jump192 in "+RNG)],["outputs of the derived generator"])
EN="lib/osi/src/ffi/endian.rs"
p("C13","Endian-annotated integers store the named byte order and act as their value",
 "For every value of every supported integer type, the big-endian and little-endian wrappers occupy exactly the bytes of that value in the named order, converting back returns the value, and raw access neither swaps nor loses bits. Equality, ordering, hashing and display follow the represented value.",
 ["inputs"],"all values (and pairs of values) of all integer widths and signs, non-zero variants included",
 "Tests use one asymmetric constant per type; ordering on swapped bytes differs from ordering on values only for particular pairs.",
 [EN],[("conversion macros and wrappers","BigEndian/LittleEndian in "+EN)],["from_native/to_native/from_raw/to_raw","comparison operators"])
p("C14","Packed and re-aligned integer cells behave as plain storage for their value",
 "A packed or re-aligned integer cell always returns the last value stored in it, at any address its declared alignment permits, and storing into it changes no byte outside of it. Comparison, ordering and hashing agree with those of the contained value, and conversions through raw and native representations are mutually inverse.",
 ["inputs","histories"],"all values, all byte offsets of the cell in a surrounding buffer, all short operation sequences, all declared alignments",
 "Unaligned placement and neighbouring bytes are not varied by the tests.",
 ["lib/osi/src/ffi/integer.rs","lib/osi/src/ffi/packed.rs","lib/osi/src/align.rs"],[("packed storage","Packed in lib/osi/src/ffi/packed.rs"),("alignment wrapper","Integer in lib/osi/src/ffi/integer.rs")],["get/set/replace/take","surrounding bytes"])
p("C15","Foreign addresses round-trip and never represent null",
 "Every non-zero address fits into the address types and comes back unchanged, in every byte order and through every conversion, and zero is refused by every checked conversion. A pointer wrapper compares, casts and dereferences as the plain pointer to the same target would.",
 ["inputs"],"all address values, all address representations, all wrapper conversions",
 "Tests convert a single live address.",
 ["lib/osi/src/ffi/pointer.rs"],[("address conversions","NativeAddress impls in lib/osi/src/ffi/pointer.rs"),("pointer wrapper","Pointer in lib/osi/src/ffi/pointer.rs")],["from_usize/to_usize/get/cast"])
p("C16","ABI integer types have the platform layout and carry every value",
 "For each supported platform, every ABI integer, address and pointer type has the size, alignment and byte order of that platform's C ABI, and every native value stored through it is read back unchanged. The system error codes of all platforms denote the same numbers as the native platform.",
 ["inputs","configurations"],"all values of every ABI type of every supported platform",
 "Tests assert sizes only; byte order and value transport are not covered for foreign platforms.",
 ["lib/osi/src/ffi/abi.rs","lib/sys/src/ffi/linux/mod.rs","lib/sys/src/ffi/linux/common/errno.rs"],[("ABI tables","modules in lib/osi/src/ffi/abi.rs")],["bytes of a stored value","to_native()"])
p("C17","Tagged pointers keep address and tag bits independent",
 "A four-byte-aligned pointer and two tag bits stored together come back exactly as stored: changing either tag bit or the whole tag never alters the address or the other bit, and changing the address never alters the tag. Unaligned pointers are refused by the checked constructor.",
 ["inputs","histories"],"all aligned addresses, all tags, all short sequences of updates",
 "Tests toggle bits on one address; the property is about every combination and order.",
 ["lib/osi/src/ptr.rs"],[("bit packing","NonNull4 in lib/osi/src/ptr.rs")],["ptr()/meta()/get0()/get1()"])
p("C18","Byte-level memory helpers copy, swap and compare exactly",
 "Byte-swapping copies reverse the bytes of values of every size, representation copies truncate or leave the excess untouched and copy the common prefix exactly, byte views expose exactly the bytes of the value, and byte equality holds exactly if both views have the same length and content. None of them reads or writes outside of its operands.",
 ["inputs"],"all byte contents for all operand sizes up to a bound, including sizes without a fast path",
 "The fast paths cover five sizes and tests check a value for some of them.",
 ["lib/osi/src/mem.rs"],[("copy and swap helpers","transmute_copy_uninit/bswap_copy/eq in lib/osi/src/mem.rs")],["returned values and slices"])
p("C19","Field and container projections are inverse and address the right field",
 "Projecting from a container to one of its fields yields a reference to exactly that field, for shared and exclusive access, and projecting back from the field yields the original container, for every field offset.",
 ["inputs","configurations"],"all contents and all fields of containers of several layouts",
 "Tests use one container; an offset error may be invisible for the first field or for equal field values.",
 ["lib/osi/src/meta.rs","lib/osi/src/mem.rs"],[("offset arithmetic","Field and projections in lib/osi/src/meta.rs")],["addresses and values seen through the projections"])
p("C20","Ownership conversions neither leak, duplicate nor alter the owned value",
 "Converting an owning or borrowing pointer into its raw dereferenced form and back yields a pointer to the same value, for all supported pointer kinds, plain and pinned. The value is dropped exactly once, when the last owner goes away, whatever sequence of conversions and clones took place.",
 ["histories"],"all short sequences of convert, restore, clone and drop on every supported pointer kind",
 "Drop counts depend on the history of conversions; tests convert once each.",
 ["lib/osi/src/convert.rs","lib/osi/src/ptr.rs","lib/osi/src/mown.rs"],[("deref conversions","IntoDeref/FromDeref in lib/osi/src/convert.rs")],["pointee address","drop count"])
p("C21","Identity and maybe-owned wrappers order and hash as documented",
 "Identity wrappers and thin pointer wrappers are equal exactly if they refer to the same address, and maybe-owned wrappers exactly if their values are equal, however each is held. Ordering is total and agrees with equality, and equal objects hash equally.",
 ["inputs"],"all pairs and triples of referents and values within small domains, all holding modes",
 "Tests compare a few fixed pairs; consistency of equality, order and hash is a law over all pairs.",
 ["lib/osi/src/cmp.rs","lib/osi/src/mown.rs","lib/osi/src/ptr.rs"],[("comparison impls","impls in lib/osi/src/cmp.rs, mown.rs, ptr.rs")],["Eq/Ord/Hash"])
p("C22","Natural string comparison is a total order that ranks numbers by value",
 "Natural comparison is a total order on all strings: antisymmetric, transitive, and equal only for identical strings. Where two strings first differ inside runs of decimal digits, the run with the smaller numeric value ranks first, whatever the length of the runs.",
 ["inputs"],"all pairs and triples of strings up to a length bound over digits, letters and non-ASCII numerals, and digit runs longer than any machine integer",
 "Transitivity is a law over triples and numeric ranking must hold beyond machine integers; tests compare five literal pairs.",
 ["lib/osi/src/str.rs"],[("run-wise comparison","cmp_natural in lib/osi/src/str.rs")],["returned ordering"])
p("C23","Symbolised strings are valid identifiers that preserve alphanumerics",
 "For every string, the symbolised form is non-empty, does not start with a numeral, consists only of alphanumerics and underscores, keeps every alphanumeric of the input in place and replaces every other character by exactly one underscore. Symbolising a second time changes nothing, and an empty string is reported as absent by the emptiness helper while any other is returned unchanged.",
 ["inputs"],"all strings up to a length bound, all Unicode scalar values",
 "Tests convert six literals.",
 ["lib/osi/src/str.rs"],[("character mapping","symbolize in lib/osi/src/str.rs")],["returned string"])
SIG="lib/tmp/src/fmt/dbus/signature.rs"; EL="lib/tmp/src/fmt/dbus/element.rs"; DV="lib/tmp/src/fmt/dbus/dvar.rs"
p("C24","D-Bus signatures are accepted exactly if they denote one complete type",
 "Parsing a signature succeeds exactly if the bytes denote a single complete type of the D-Bus and GVariant grammar, and renders back to the same bytes. Every other input is refused with the error that names what is wrong and where, without panicking or looping, for every length and every caller-provided buffer size.",
 ["inputs","configurations"],"all byte strings up to a length bound, longer strings of symbolic nesting on both sides of the compact-representation limit, all buffer sizes",
 "The grammar is recursive; tests parse a few dozen literals, almost all short and valid.",
 [SIG,EL],[("single-pass parser","Sig::parse in "+SIG),("element table","ELEMENTS in "+EL)],["result of parse","to_string()"])
p("C25","D-Bus signature navigation agrees with the nesting of the type",
 "On every valid signature, lengths, positions, stepping forward and backward, descending and ascending all agree with the nesting structure of the type, sub-signatures equal the signatures parsed from the same text, and iteration yields each element once in order with an exact size. Equality, ordering and hashing agree with those of the signature text, for short and long signatures alike.",
 ["inputs"],"all valid signatures up to a length bound, all cursor positions and pairs of signatures, plus signatures beyond the compact-representation limit",
 "Metadata is packed into five-bit and byte fields; tests look at a few positions of a few signatures.",
 [SIG],[("packed metadata nodes","Node8/Node64 in "+SIG),("cursor","Cursor in "+SIG)],["cursor methods","Sig::at/len/iter"])
p("C26","D-Bus type alignments follow the D-Bus and GVariant specifications",
 "For every valid signature and every element in it, the reported D-Bus and GVariant alignments are those of the specifications, with containers deriving theirs from their content where the format says so. Element codes, identifiers, pairings and fixed sizes form a consistent one-to-one table.",
 ["inputs"],"all valid signatures up to a length bound, all elements",
 "Alignment of a container depends on everything nested inside; tests check single-level examples.",
 [SIG,EL],[("alignment propagation","Sig::parse in "+SIG),("element table","ELEMENTS in "+EL)],["dvar_alignment_exp/gvar_alignment_exp"])
p("C27","D-Bus encoder emits the specified wire format for every value",
 "For every signature and every sequence of values matching it, in either byte order, the emitted bytes are the D-Bus marshalling of those values: naturally aligned with zero padding, length-prefixed and terminated text, arrays whose length excludes the padding before the first element, variants carrying their own signature. Bytes already present in the output are kept, and nothing uninitialised is ever exposed.",
 ["inputs","configurations"],"all values, texts and element counts within bounds for a family of signatures covering every container kind, both byte orders, all preceding output lengths up to a bound, all chunkings of the output",
 "Padding depends on everything written before; tests compare a few fixed messages.",
 [DV,"lib/tmp/src/io/map.rs"],[("encoder","Enc in "+DV),("output buffer","Write for Vec in lib/tmp/src/io/map.rs")],["committed output bytes"])
p("C28","D-Bus values survive an encode and decode round trip",
 "Decoding what was encoded with the same signature and byte order yields the same values, visits every array element and no more, consumes exactly the encoded bytes, and ends complete. This holds however the input is delivered in chunks.",
 ["inputs","schedules"],"all values, texts and element counts within bounds for a family of signatures, both byte orders, all chunkings of the input",
 "Round trips through arrays are not covered by any test.",
 [DV,"lib/tmp/src/fmt/dbus/ende.rs"],[("decoder","Dec in "+DV),("encoder","Enc in "+DV)],["decoded values","more()","commit()"])
p("C29","D-Bus decoder is safe on arbitrary bytes and leaves state intact on failure",
 "On arbitrary input bytes the decoder never panics, never reads outside the input and never yields text that is not valid UTF-8; it reports truncated input, bad text and requests that do not match the signature as errors. A failed request leaves the decoder where it was, so a corrected request then succeeds as if the failure had not happened.",
 ["inputs","fault_sequences"],"all byte contents and lengths within bounds, all request sequences within bounds for a family of signatures",
 "Hostile input is a universal quantifier over bytes; tests decode well-formed messages only.",
 [DV,"lib/tmp/src/io/map.rs"],[("checked reads","Dec in "+DV),("bounds checks","Read for slices in lib/tmp/src/io/map.rs")],["returned errors","subsequent requests"])
p("C30","D-Bus encoder accepts exactly the operations its signature allows",
 "At every point the encoder accepts an operation exactly if it is the one the signature calls for next, containers can be closed exactly when complete, and committing succeeds exactly when the whole signature has been processed. A refused or failed operation reports which kind of failure it was and changes nothing, so the correct operation then proceeds as if the refused one had not been tried.",
 ["histories","fault_sequences"],"all operation sequences up to a bound on a family of signatures, all output failures",
 "The set of operation sequences grows exponentially; tests follow the correct order.",
 [DV],[("signature cursor and level stack","Enc in "+DV)],["result of each operation","committed bytes"])
p("C31","Random-access buffer helpers move exactly the requested bytes",
 "Reading, writing, filling, zeroing, iterating and aligning through the random-access buffer interfaces transfer exactly the requested bytes at the requested position, whatever chunk sizes the underlying buffer hands out, and report an access beyond the available data as an error. Committing to a growable buffer appends exactly the committed bytes after what it already held.",
 ["inputs","schedules"],"all positions, lengths, contents and previous contents within bounds, all chunkings chosen by the underlying buffer",
 "Chunking is a schedule chosen by the environment; the built-in buffers always return one chunk, so tests never vary it.",
 ["lib/tmp/src/io/map.rs"],[("provided methods","Read/Write in lib/tmp/src/io/map.rs"),("slice and vector impls","lib/tmp/src/io/map.rs")],["transferred bytes","errors"])
p("C32","Stream buffer helpers honour their size contracts",
 "A mapped stream window is at least as long as the requested minimum or the call asks for more data, whatever maximum hint is given, and the scanning helper stops at exactly the first byte that fails its test or at the limit, also when it is resumed after more data arrived. Advancing and committing move the window by exactly the given length and keep all other bytes.",
 ["inputs","schedules"],"all contents, minimum and maximum sizes within bounds, all points at which the data runs out",
 "Resumption after a partial scan depends on where the data ran out; tests use complete buffers.",
 ["lib/tmp/src/io/stream.rs"],[("scanning helper","read_map_while in lib/tmp/src/io/stream.rs"),("slice and vector impls","lib/tmp/src/io/stream.rs")],["returned windows and counters"])
PT="lib/tmp/src/fmt/json/token.rs"
p("C33","JSON pull tokenizer reports the tokens of every byte stream",
 "For every byte sequence, the pull tokenizer reports the JSON tokens in source order with their exact source bytes, decoded string values and number parts, and reports exactly the lexical violations it documents, including bytes that are not UTF-8 and every unescaped control character. It never panics, and finishing the stream reports the pending token once, complete, and then nothing more.",
 ["inputs"],"all byte sequences up to a length bound",
 "Error recovery inside strings and numbers multiplies the state space; tests use literals that are followed by a separator.",
 [PT],[("state machine","advance_* in "+PT),("finishing","complete_inner in "+PT)],["tokens from pop() and complete()"])
p("C34","JSON pull tokenizer output does not depend on how data arrives",
 "However the bytes of a stream become available, one at a time or in any pieces, the pull tokenizer reports the same tokens as if all bytes had been there from the start. When it asks for more data it has consumed nothing of the unfinished token, and the amount it asks for is truly needed.",
 ["schedules","inputs"],"all byte sequences up to a length bound and all ways in which they become available",
 "Every byte boundary of every input is a suspension point; tests always provide the whole input.",
 [PT,"lib/tmp/src/io/stream.rs"],[("resumable scanning","read_map_while in lib/tmp/src/io/stream.rs and state in "+PT)],["tokens and More results from pop()"])
PS="lib/tmp/src/fmt/json/stream.rs"
p("C35","JSON item stream accepts exactly well-formed documents",
 "The item stream reports no error on a prefix of a well-formed JSON document and reports an error at the first token that cannot continue one. Opening and closing items are properly nested and every value is reported once.",
 ["inputs"],"all token sequences up to a length bound",
 "There are no tests; the grammar is a push-down automaton over unbounded nesting.",
 [PS],[("push-down automaton","DecInner::advance in "+PS)],["items from pop()"])
p("C36","DOS executable headers map every byte image to the specified fields",
 "Importing any byte image as a DOS executable header, extended header or relocation entry and exporting it again reproduces the image, and each field reads the little-endian value at its specified offset. The word sum of any byte string is the wrapping sum of its little-endian words with an odd last byte zero-extended, so a file whose checksum field is set as specified sums to all ones.",
 ["inputs"],"all byte images, all byte strings up to a length bound",
 "Tests import a single stub; swapped neighbouring fields with equal values go unnoticed.",
 ["lib/tmp/src/msdosmz.rs"],[("byte import/export","from_bytes/as_bytes in lib/tmp/src/msdosmz.rs"),("checksum","sum16 in lib/tmp/src/msdosmz.rs")],["fields","as_bytes()","sum16()"])
p("C37","PE/COFF structures map every byte image to the specified fields",
 "Overlaying any byte image with a PE/COFF header, optional header, data directory or section header yields for each field the little-endian value at the offset given by the specification, in both the 32-bit and the 64-bit variant. The format magic values tell the variants apart, and flag and subsystem numbers are those of the specification.",
 ["inputs"],"all byte images of each structure",
 "Tests check total sizes only; any permutation of equally sized fields passes them.",
 ["lib/tmp/src/pecoff.rs"],[("repr(C) layouts","structs in lib/tmp/src/pecoff.rs")],["fields of an overlaid image"])
p("C38","ELF structures map every byte image to the specified fields",
 "Overlaying any byte image with an ELF file header, section header, program header, symbol, relocation or dynamic entry yields for each field the value at the offset given by the specification, in the 32-bit and the 64-bit class. Every named number (types, machines, flags, tags) is that of the specification.",
 ["inputs"],"all byte images of each structure and class, all numbers",
 "Tests check sizes and alignments only; the 32-bit and 64-bit symbol and program headers order their fields differently.",
 ["lib/sys/src/ffi/elf.rs"],[("repr(C) layouts","structs in lib/sys/src/ffi/elf.rs")],["fields of an overlaid image"])
p("C39","Operating-system strings and the output bridge pass bytes on unaltered",
 "Operating-system strings refer to exactly the bytes they were made from, also after conversion from and to the standard type, order and compare as those bytes, and convert to text exactly if they are valid UTF-8, with just the invalid parts replaced in the lossy form. Text written through the bridge from formatted to byte output arrives completely and in order, however few bytes the output takes at a time, and a failing output is reported as failure with nothing written after it.",
 ["inputs","fault_sequences"],"all byte strings up to a length bound, all sequences of partial, interrupted and failing writes within the bound",
 "There are no tests of either; validity of text depends on every byte, and partial writes only occur under load.",
 ["lib/osi/src/compat.rs"],[("byte strings","OsStr in lib/osi/src/compat.rs"),("output bridge","Write in lib/osi/src/compat.rs")],["as_encoded_bytes(), to_str(), to_string_lossy(), comparisons","bytes and errors at the output"])
p("C40","Uncaught errors show and keep exactly what was folded into them",
 "An uncaught error shows the debug or display text of what was folded into it, as chosen when folding and labelled with that choice, shows nothing of what was folded in opaquely, and passes on the source of a proper error. What was folded in is kept unaltered until the uncaught error goes away and is then dropped exactly once, and a failing output is passed on.",
 ["inputs","fault_sequences"],"all ways to fold, all texts of two characters for what is folded in, every write at which the output fails",
 "Tests format a number, whose debug and display text are the same, so mixing them up goes unnoticed.",
 ["lib/osi/src/error.rs"],[("constructors","fold_*/box_* in lib/osi/src/error.rs"),("formatting","Debug and Display of Uncaught in lib/osi/src/error.rs")],["formatted text","source()","drops"])
p("C41","Pinned pointer helpers address the target without moving it",
 "For every kind of pinned pointer the helpers yield the address of the target itself, sized or not, and leave its contents alone. Mapping a pinned pointer calls the function once with the pointer itself and yields what it returned.",
 ["inputs","configurations"],"all contents; references, boxes, counted pointers and slices as pointers",
 "Tests use a single integer on the stack for most of it.",
 ["lib/osi/src/pin.rs"],[("pointer access","as_inner/as_ptr/as_mut_ptr/map_unchecked in lib/osi/src/pin.rs")],["returned pointers"])
p("C42","Markers, brands and lifetime coercions change nothing at run time",
 "Marker and brand values take no space, are all equal to each other, and add nothing to the equality, order and hash of what they are stored in. A branded function is called exactly once and its result is passed on unaltered, and coercing a lifetime yields the very same reference or value.",
 ["inputs","configurations"],"all contents of marked data, all results, all referenced positions within the bound",
 "Tests use one fixed value and look at no surrounding data.",
 ["lib/osi/src/marker.rs","lib/osi/src/brand.rs","lib/osi/src/polonius.rs","lib/osi/src/never.rs"],[("markers","PhantomInvariant in lib/osi/src/marker.rs"),("brands","unique() in lib/osi/src/brand.rs"),("coercion","coerce_unsafe! in lib/osi/src/polonius.rs")],["comparisons, hashes and sizes","returned values and references"])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
