#!/usr/bin/env python3
"""Write the per-property part of DESIGN.md from config.py and properties.jsonl.

The costs are those of the evidence files present, so run the checks first.
"""

import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools")
import config  # noqa: E402

# What is specified, the oracle, and why it reaches what tests cannot.
HOW = {
    "C01": ("model/push.rs partitions a character sequence into tokens and erroneous regions as RFC 8259 and the documented relaxations define them. "
            "Reports of the tokenizer must cover the text in the same way: same tokens, same source text, same digits and signs, an error report in every erroneous region and in no other.",
            "Tests run some forty literals; the tokenizer has a state machine whose transitions depend on the pair (state, character), all of which are covered here, up to the bound on characters."),
    "C02": ("The value of a literal is computed independently in model/push.rs (escapes, surrogates, control characters).",
            "All 2^16 values of an escape and all pairs of escapes around the surrogates are one symbolic value each; tests name a few."),
    "C03": ("Differential: one tokenizer with a history (any first text, then an end, an abort by any report, or a reset) against a fresh one, on any second text.",
            "The state left behind depends on where in which token the first text stopped; every place is covered."),
    "C04": ("model/args.rs: path selection by longest declared path over the argument list, written from the layout documentation. Compared are the yielded command, every delivery and every error report.",
            "Arguments are symbolic bytes, the declared tree is one of several or itself symbolic; tests have a handful of command lines."),
    "C05": ("model/args.rs: scope and form of flags. Compared are deliveries and error reports, per flag.",
            "Every combination of declared modes, scopes and spellings; names over symbolic bytes."),
    "C06": ("model/args.rs for what is delivered; each provided target is compared with the list of deliveries reduced as its documentation says.",
            "Which of the deliveries aborts is symbolic, so is the kind of every value."),
    "C07": ("The help text is composed independently in c07.rs from the declared tree and compared character by character through an output that may fail at any write.",
            "Any subset of commands, any lengths of names (symbolic characters of 1 to 4 bytes), any failing write."),
    "C08": ("model/sha.rs is FIPS 180-4 written down step by step; digests are 256-bit terms over symbolic message bytes and must be equal. Messages of any length below 2^60 bytes are reached by one inductive step from an arbitrary running byte count.",
            "One length per residue is symbolic in content; tests have three vectors. A defect at length 63 was found this way."),
    "C09": ("Self-composition: the digest of the pieces equals the digest of the whole, as terms over the same message bytes.",
            "All cut positions around the block boundaries times all contents."),
    "C10": ("RFC 2104 over an order- and length-sensitive stand-in hash with small blocks (all key lengths, splits and repeated use), and over SHA-256 against model/sha.rs.",
            "Key lengths on both sides of the block size and reuse of the object are combined; tests have the RFC 4231 vectors."),
    "C11": ("model/rng.rs, the published algorithms, from every state.",
            "Each step is checked for all 2^64 or 2^256 states rather than along one seeded sequence."),
    "C12": ("model/rng.rs, plus the regularity rule of increments as a bit-level fact for every candidate, and jumps as linear maps over a symbolic state.",
            "The rare candidates that need correction and the all-zero seed are single points tests do not meet."),
    "C13": ("Byte images computed with the standard library's to_be_bytes/to_le_bytes; comparison, order and hash against the plain value.",
            "Every value of every type; tests use one value per type."),
    "C14": ("A plain variable next to the cell, and a guard region around it.",
            "Any offset, any value, any order of operations; the engine places objects with no more alignment than requested, so an over-aligned access is an error on every run and not only by chance."),
    "C15": ("The address as a plain number.", "Every address, in particular zero and the extremes."),
    "C16": ("Size and alignment tables of the psABI documents, error numbers of the kernel headers.",
            "Every value of every type of every platform, also those that are not the host."),
    "C17": ("A pair of address and two flags.", "Every address, tag and operation sequence; tests set one bit."),
    "C18": ("Byte-wise loops in the harness; a guard region shows that nothing else is read or written.",
            "All contents of each size; uninitialised and out-of-bounds bytes are tracked individually."),
    "C19": ("Address arithmetic with offset_of.", "All fields of all layouts, all addresses."),
    "C20": ("A counter of drops and the address of the value.",
            "Every sequence of conversions; double drops and use after free are engine errors, not luck."),
    "C21": ("Order, equality and hash of the key (the address, or the content) for three objects at once.", "Totality and transitivity quantify over triples."),
    "C22": ("A specification by runs in c22.rs (text as text, digits by value), plus antisymmetry and transitivity as such.",
            "Order laws quantify over pairs and triples. The defect found needed a triple with a non-ASCII numeral."),
    "C23": ("Character by character against the documented classes.", "Every character class in every place, including leading numerals."),
    "C24": ("model/sig.rs, a recursive descent parser that also yields the error.",
            "Every byte string within the bound; long signatures with a free byte anywhere, on both sides of the change of representation at 31 characters."),
    "C25": ("model/sig.rs computes nesting from the text; every observation of a cursor at every position is compared.",
            "Every valid signature within the bound, and pairs of them."),
    "C26": ("Alignment rules of the two specifications, evaluated recursively on the text.", "Every valid signature within the bound."),
    "C27": ("model/dvar.rs marshals the same values as the D-Bus specification says.",
            "Values are symbolic and counts of elements free; the vector is preloaded with other data at any alignment. Uninitialised output would be an engine error."),
    "C28": ("The values encoded, and the marshalled length.", "Every value, every way to chunk the input."),
    "C29": ("A reference decoder over the same bytes in c29.rs; the state after a failure is compared by going on.",
            "Arbitrary bytes with arbitrary requests; allocation is limited so that lengths taken on trust are violations."),
    "C30": ("model/dvar.rs tells which operation is next; after a refusal the encoding must complete to the bytes of the undisturbed run.",
            "Every wrong operation at every point of every signature, every failing request of the output."),
    "C31": ("A plain byte array.", "Piece sizes handed out by the buffer are symbolic at each call."),
    "C32": ("A plain byte array and the documented minimum.", "Window sizes, arrival of data, test and limit are all free."),
    "C33": ("model/pull.rs: tokens and errors of a byte stream as documented.",
            "All byte sequences within the bound; three defects were found that need specific contexts (a control character after an escape, a number at the end)."),
    "C34": ("Differential against the model on all bytes at once; what was consumed is compared at each request for more.", "All ways of arrival."),
    "C35": ("A push-down recogniser of token sequences in c35.rs.", "All token sequences within the bound, plus nested contexts."),
    "C36": ("Field offsets of the format; word sum by definition.", "Any image."),
    "C37": ("Field offsets and numbers of the PE/COFF specification.", "Any image; every named number."),
    "C38": ("Field offsets of the ELF specification, numbers from elf.h and the registries.", "Any image; every named number."),
    "C39": ("The bytes; UTF-8 validity and replacement are defined in c39.rs. Output is an adversarial std::io::Write.", "Any bytes, any short write, any failing write."),
    "C40": ("An error type with distinguishable texts and a drop counter.", "Any way of folding, rendering and failing."),
    "C41": ("Plain addresses.", "Any contents and element; little else is left to choose, as these are conversions."),
    "C42": ("The same data without markers; plain references.", "All contents; only run-time behaviour, the point of these types being what does not compile."),
}


def main():
    props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
    out = []
    for p in props:
        i = p["id"]
        c = config.CHECKS[i]
        spec, why = HOW[i]
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("- Specified and oracle: " + spec)
        out.append("- Beyond tests: " + why)
        for tier in ("quick", "thorough"):
            jobs = [j for j in c.jobs if j.tier == tier]
            if jobs:
                names = dict.fromkeys(j.harness for j in jobs)
                bounds = {h: list(dict.fromkeys(j.bound for j in jobs if j.harness == h and j.bound)) for h in names}
                out.append("- Bounds, %s:" % ("both tiers" if tier == "quick" else "thorough only"))
                out += ["  - `%s`: %s" % (h, "; ".join(b)) for h, b in bounds.items()]
        out.append("- Outside: " + c.outside + ".")
        for a in c.assumptions:
            out.append("- Assumption: " + a)
        try:
            e = json.load(open(VERIF + "/evidence/%s.json" % i))
            v = e["coverage"]
            if e["tier"] == "quick":
                out.append("- Cost, quick: about %d s on 8 cores, %s paths, %s solver queries." % (
                    max(1, round(e["wall_s"])), v["states"], v["queries"]))
        except (OSError, KeyError):
            pass
        out.append("")
    f = VERIF + "/DESIGN.md"
    s = open(f).read()
    a, b = "<!-- properties -->\n", "<!-- end -->\n"
    s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
    open(f, "w").write(re.sub(r"\n{3,}", "\n\n", s))


main()
