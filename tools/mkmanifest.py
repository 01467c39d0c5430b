#!/usr/bin/env python3
"""Writes MANIFEST.json. Every property of properties.jsonl is either claimed
here or listed under not_applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation (polyhedra, disjunctive states) of the SSA form"
SOUND = ("Sound over-approximation of every execution of the entry points against arbitrary conforming readers, writers "
         "and sources; trusts go/ssa, the analyser, and the standard-library models. ")
CLAIMS = {
 "C01": (AI + ", panic obligations", "proof", SOUND + "Covers the parsing entry points."),
 "C02": (AI + ", panic obligations, assume-guarantee on LineReaderAt", "other", SOUND + "One slice expression of the line reader for plain sources is not decided (listed in the evidence)."),
 "C03": (AI + ", panic obligations", "proof", SOUND + "Covers every String, Header, Message and Validate method."),
 "C04": (AI + ", ghost read-error flag", "proof", SOUND),
 "C05": (AI + ", ghost source/destination error flags", "proof", SOUND),
 "C06": (AI + ", dynamic type of returned errors", "proof", SOUND),
 "C07": (AI + " under the most general client (typestate)", "proof", SOUND),
 "C08": (AI + ", ownership of stored-to memory", "proof", SOUND + "Every store, copy, append, sort and unmodelled call is an obligation."),
 "C09": (AI + ", ownership of stored-to memory; effect rules over the SSA form", "proof", SOUND + "Independence of interleavings follows from the absence of writes to shared memory."),
 "C10": ("taint analysis of declared numbers over SSA; " + AI + ", bounds of allocation sizes", "proof", SOUND + "A bound is accepted if it is a constant, the length of something in memory, or the limit in force."),
 "C11": (AI + ", ghost counters for bytes written and inflated", "proof", SOUND + "Sizes declared by a delta are observed where a function from bytes to an int64 and the remaining bytes returns, and by deltas of given shapes."),
 "C12": (AI + ", ghost counters; deltas of given shapes with unknown bytes", "proof", SOUND + "The size equalities cover every delta; zero and truncated instructions are decided for families of delta shapes."),
 "C13": (AI + " under the most general reader", "proof", SOUND + "The decompressor is modelled as any conforming reader."),
 "C14": (AI + ", provenance of source lines, ghost position of the next unconsumed line", "other", SOUND + "Covers any history of any fragments over a LineReaderAt of any length. Which line of the fragment a source line is compared with is not decided, only that it was compared and found equal; negative old positions are not covered."),
 "C15": (AI + ", dynamic type of returned errors under assumed mismatches", "other", SOUND + "Text mismatches are decided for fragments of given shapes (one to three lines of mixed kinds, or any number of lines of one kind) with any positions and contents, partly after any history; delta source sizes for every delta."),
 "C17": (AI + ", assertions on every object that becomes part of the result", "proof", SOUND),
 "C18": (AI + ", census of slice contents by class, templates for widening", "proof", SOUND),
 "C19": (AI + " under a source that never fails and may return io.EOF with a full read", "other", SOUND + "Covers copying of unchanged sources, the emptiness and size tests, and deltas of given shapes; line reading is decided for the first line of sources of 1, 2 and 1024 bytes."),
 "C21": ("effect rules over the type-checked program and its SSA form", "proof", "Every reference to an external function, method or variable in every function of the package is classified; map iterations are checked for order dependence. Trusts the classification of standard-library packages."),
 "C22": (AI + ", assertions at every write", "other", SOUND + "Any history and any fragment. Of a fragment's counters those of old, new, added and deleted lines are decided; wrong leading and trailing context counters are not."),
 "C23": (AI + ", provenance of source lines, ghost position of the next unconsumed line", "proof", SOUND + "The source is a LineReaderAt of any number of lines that does not fail; the line reader made for plain sources is covered by C02 and C05 only up to its contract, not its contents."),
}
NA = {
 "C16": "Progress of the loops that read depends on the caller's reader, on lengths of strings that are abstracted and on the values that string searches return; a ranking argument for every loop would need relational string facts that the analyser does not have. A purely syntactic ranking lint would alarm on equivalent rewrites.",
 "C20": "The tables are built by loops at initialisation and applied by bit arithmetic on array contents, which the analyser abstracts; comparing the literals with Git's would judge how the tables are written, not what the code does.",
 "C24": "Parity of a run of backslashes is a property of string contents; the analyser keeps lengths, prefixes and suffixes of strings only.",
 "C30": "Equality of unbounded strings under two inverse programs is a relational property of string contents that no abstract domain in reach expresses; creation of a file in traditional format is also known not to round-trip byte for byte.",
 "C31": "The oracle (git apply) is another program; equivalence with it is not decidable from this source alone.",
 "C32": "Needs equality of the concatenation of an unbounded number of read lines with a prefix of the input; string contents are abstracted.",
 "C33": "Depends on the contents of strings and on time and mail parsing in the standard library; contents are abstracted.",
 "C34": "Needs byte-level functional equality over unbounded arrays; array contents are abstracted.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "Every check is one run of the static analyser built by setup.sh; nothing of /repo is executed."}
for p in props:
    if p in CLAIMS:
        t, l, n = CLAIMS[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA[p]})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
