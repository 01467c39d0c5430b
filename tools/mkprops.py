#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is reviewable)."""
import json, os
A = lambda files, mech, state=(), obs=(), hook=None: dict(
    files=["gitdiff/%s.go" % f for f in files.split()],
    state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
    mechanism=[dict(name=n, where=w) for n, w in mech],
    observe_at=list(obs), hook_needed=hook)
P = []
def p(id, title, statement, over, text, why, anchors):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))

p("C01", "Parsing never panics",
  "For every byte stream and every conforming reader, Parse returns a result or an error and never panics; the same holds for ParsePatchHeader, ParsePatchIdentity and ParsePatchDate on every string (with a documented subject clean mode).",
  ["inputs"], "all byte streams, all conforming io.Readers, all strings",
  "Tests feed a few hundred literal inputs; an out-of-range index needs one specific malformed line (a header that stops after the quote, a stream that ends inside a fragment) out of infinitely many.",
  A("parser gitdiff text binary base85 file_header patch_header patch_identity", [
    ("length and prefix tests in front of every index and slice expression", "file_header.go parseGitHeaderName/parseQuotedName/parseName, text.go ParseTextFragmentHeader/ParseTextChunk, binary.go ParseBinaryChunk, patch_identity.go ParsePatchIdentity, patch_header.go cleanSubject"),
    ("a current line is never empty unless the stream ended", "parser.go parser.Next")],
    [("parser.lines", "current line and read-ahead", "parser.go")],
    ["Parse", "ParsePatchHeader", "ParsePatchIdentity", "ParsePatchDate"]))
p("C02", "Applying never panics",
  "For every patch value (parsed or built by hand, with any field values), every source content and every conforming reader and writer, Apply, the appliers' methods and the readers returned by BinaryFragment.Data return a result or an error and never panic, in any order of calls.",
  ["inputs", "histories"], "all fragment values, sources, and call sequences on one applier",
  "The tests apply about forty well-formed or slightly damaged patches; counts that disagree with content, positions near the integer limits and truncated delta programs are sampled a handful of times at best.",
  A("apply apply_text apply_binary binary_reader io gitdiff", [
    ("fragment validation and bounds-overflow test before positions are used", "apply_text.go TextApplier.ApplyFragment"),
    ("remaining-length tests in front of every delta read", "apply_binary.go applyBinaryDeltaFragment/applyBinaryDeltaAdd/applyBinaryDeltaCopy"),
    ("line index arithmetic", "io.go lineReaderAt")],
    [("TextApplier.nextLine", "first source line not yet consumed", "apply_text.go")],
    ["Apply", "TextApplier", "BinaryApplier", "BinaryFragment.Data"]))
p("C03", "Formatting never panics",
  "For every File, fragment, line, operator, identity and header value whose fragment pointers are non-nil, String, Header and Message return a string and never panic.",
  ["inputs"], "all values of the exported types",
  "Formatting is tested on sixteen golden patches and random binary data of a few sizes; values reachable only by hand-built fragments or by unusual data lengths are not.",
  A("format gitdiff base85 patch_header patch_identity", [("chunked base85 output with a padded remainder", "format.go FormatBinaryFragment, base85.go base85Encode")],
    (), ["File.String", "TextFragment.String", "BinaryFragment.String", "PatchIdentity.String", "PatchHeader.Message"]))
p("C04", "A failing input stream is never mistaken for a complete patch",
  "If the reader given to Parse ever returns an error other than io.EOF during the call, Parse returns a non-nil error.",
  ["inputs", "fault_sequences"], "all inputs and every point at which one read can fail, including failures that do not repeat",
  "The tests only use in-memory readers, which never fail; whether a failure is swallowed depends on which parsing step requested the line.",
  A("gitdiff parser text binary file_header", [("every advance of the parser propagates non-EOF errors", "parser.go parser.Next and its callers")],
    [("parser.lines", "read-ahead that decides when a failure is seen", "parser.go")], ["Parse"]))
p("C05", "Source and destination failures surface when applying",
  "If, during Apply or an applier method, a write to the destination fails or a read from the source fails with something other than io.EOF, that call returns a non-nil error.",
  ["inputs", "fault_sequences"], "all patches and every single failing read or write",
  "The tests apply with in-memory sources and destinations that cannot fail; each write and read site has its own error path.",
  A("apply apply_text apply_binary io", [("error returns of Write/ReadAt/ReadLinesAt", "apply_text.go, apply_binary.go, io.go copyFrom/copyLinesFrom/isLen")],
    (), ["Apply", "TextApplier.ApplyFragment", "TextApplier.Close", "BinaryApplier.ApplyFragment", "BinaryApplier.Close"]))
p("C06", "Every apply failure is an ApplyError",
  "Every non-nil error returned by Apply, TextApplier.ApplyFragment or BinaryApplier.ApplyFragment is an *ApplyError.",
  ["inputs", "histories", "fault_sequences"], "all patches, sources, call orders and failing reads or writes",
  "Tests check the wrapped cause of some conflicts, never the wrapper type, and never on the paths that only fail when I/O fails.",
  A("apply apply_text apply_binary", [("applyError wraps every failure", "apply.go applyError and its callers")], (), ["Apply", "ApplyFragment"]))
p("C07", "Applier lifecycle is enforced",
  "After Close, ApplyFragment on either applier fails and touches neither source nor destination, and a further Close does nothing and returns nil. A BinaryApplier accepts at most one ApplyFragment call: any later non-trivial call fails without writing, even if the first one failed.",
  ["histories"], "all sequences of ApplyFragment and Close calls, with any fragments and any failures in between",
  "No test applies after Close, closes twice, or reuses a binary applier; the property is about call histories.",
  A("apply_text apply_binary", [("closed and dirty flags tested and set before any other work", "apply_text.go, apply_binary.go")],
    [("closed", "applier was closed", "apply_text.go, apply_binary.go"), ("dirty", "an apply was attempted", "apply_text.go, apply_binary.go")],
    ["TextApplier", "BinaryApplier"]))
p("C08", "Applying, validating and formatting never modify the caller's patch",
  "Apply, the appliers, Validate, Data, and all String/Header methods leave every File, fragment, line slice, raw data slice and option slice passed to them unchanged, and never write into buffers owned by the caller.",
  ["inputs", "histories"], "all values and all call sequences",
  "A test would have to deep-compare the patch after every operation on every shape; none does, and an in-place sort or edit only shows when fragments are out of order or a value is used twice.",
  A("apply apply_text apply_binary binary_reader gitdiff format base85", [("fragments are copied before sorting; all other code only reads", "apply.go Apply")], (), ["Apply", "File.String", "TextFragment.Validate"]))
p("C09", "No shared mutable package state",
  "After package initialisation no operation of the library modifies package-level data or starts concurrent activity, so operations on distinct values may run concurrently in any interleaving without synchronisation.",
  ["schedules", "histories"], "all interleavings of operations on distinct values",
  "A race needs two goroutines and the right interleaving; the tests are sequential and the race detector only sees what they run.",
  A("base85 format apply parser gitdiff", [("lookup tables are written only by init", "base85.go init, format.go quoteEscapeTable")],
    [("b85Table, b85Alpha, quoteEscapeTable", "read-only tables", "base85.go, format.go")], ["all exported functions"]))
p("C10", "Memory use is not driven by numbers declared in a patch",
  "While parsing or applying, no single buffer is allocated whose size is taken from a number declared in the patch: each allocation is bounded by a fixed constant (at most 16 MiB), by the amount of data actually present in the input or source, or by the binary size limit in force.",
  ["inputs"], "all declared line counts, positions, sizes and delta instructions",
  "Tests include one oversized line count; every other declared number and every allocation site would need its own hostile input.",
  A("apply_text apply_binary binary io format", [("preimage is read in fixed-size chunks", "apply_text.go readPreimage"), ("copy size is at most three bytes wide", "apply_binary.go applyBinaryDeltaCopy"), ("limit checked before inflating", "apply_binary.go BinaryApplier.ApplyFragment")],
    (), ["Parse", "Apply"]))
p("C11", "The binary size limit is enforced",
  "With a non-negative limit in force (100 MiB unless set otherwise), applying a binary fragment that declares more than the limit, or a delta whose declared result exceeds it, fails without writing; otherwise no more than the declared size plus one byte is ever inflated, a successful apply never writes more than the limit, and a delta never writes more than its declared size. The limit in force is the last one given, and applies identically through Apply and through BinaryApplier.",
  ["inputs", "configurations"], "all fragments, limits and option lists",
  "Four tests try two limits; the bound must hold at every write, for every instruction mix and every limit.",
  A("apply_options apply_binary binary_reader", [("limit tests before inflating and before executing", "apply_binary.go"), ("limitWriter", "apply_binary.go"), ("default limit", "apply_options.go collectApplyOptions")],
    [("applyOptions.maxBinaryFragmentBytes", "limit in force", "apply_options.go")], ["BinaryApplier.ApplyFragment", "Apply"]))
p("C12", "A successful delta produced exactly the declared result",
  "Applying a delta fragment succeeds only if the source was tested against the declared source size and the number of bytes written equals the declared result size; a delta containing a zero opcode or a truncated instruction never succeeds.",
  ["inputs"], "all delta programs, including malformed varints, and all sources",
  "Six malformed deltas are tested; the size relation is a sum over arbitrary instruction sequences.",
  A("apply_binary io", [("source size test", "apply_binary.go checkBinarySrcSize"), ("remaining size accounting", "apply_binary.go limitWriter, applyBinaryDeltaFragment")], (), ["BinaryApplier.ApplyFragment"]))
p("C13", "Binary data ends cleanly only if size and checksum are right",
  "A reader returned by BinaryFragment.Data reports io.EOF only after it has delivered exactly Size bytes, the compressed stream has ended, and closing the decompressor reported no error; decompression failures are reported as non-EOF errors.",
  ["inputs", "histories"], "all raw data, sizes and sequences of read calls with any buffer sizes",
  "Five tests read with io.ReadAll only; partial reads, reads after the end and the interaction of size and checksum are not covered.",
  A("binary_reader gitdiff", [("size and checksum verification on end of data", "binary_reader.go binaryReader.Read")],
    [("LimitedReader.N", "bytes that may still be delivered plus one", "binary_reader.go")], ["BinaryFragment.Data"]))
p("C14", "Text fragments only apply where the source matches",
  "A text fragment applies successfully only if each of its context and deleted lines was compared equal to the next unconsumed source line, in order, the fragment's first line being the source line the fragment's old position names (for a pure insertion, the line after it).",
  ["inputs"], "all fragments and sources",
  "The tests have two mismatch cases; the comparison must happen for every line of every fragment at the right source line.",
  A("apply_text", [("per-line comparison with the preimage", "apply_text.go applyTextLine"), ("fragment start computation", "apply_text.go TextApplier.ApplyFragment")],
    [("TextApplier.nextLine", "first source line not yet consumed", "apply_text.go")], ["TextApplier.ApplyFragment"]))
p("C15", "Mismatches with the source are reported as conflicts",
  "When a text fragment starts before content already consumed, creates a file over a non-empty source, needs more lines than the source has, contains a line that differs from the source, or deletes a whole file and leaves content behind, ApplyFragment returns an error that matches Conflict; so does a delta whose declared source size differs from the source.",
  ["inputs", "histories"], "all fragments, sources and sequences of fragments",
  "Each conflict has at most one or two tests, all with a fresh applier and an in-memory source.",
  A("apply_text apply_binary apply", [("Conflict construction", "apply_text.go, apply_binary.go checkBinarySrcSize"), ("Conflict.Is and ApplyError.Unwrap", "apply.go")], (), ["ApplyFragment"]))
p("C16", "Parsing, applying and formatting terminate",
  "On every finite input stream, patch value and finite source, every exported operation returns after finitely many steps, and every loop makes progress towards its end on each iteration.",
  ["inputs"], "all finite inputs",
  "A non-terminating input is one that no finished test run contains.",
  A("gitdiff parser text binary file_header patch_header patch_identity io apply_text apply_binary base85 format", [("each loop advances the input, an index or a shrinking remainder", "all loops")], (), ["all exported functions"]))
p("C17", "Parsed numbers are in range",
  "In every patch returned by Parse, fragment positions, line counts and binary sizes are non-negative, scores are between 0 and 100, and file modes fit in 31 bits.",
  ["inputs"], "all input streams",
  "Tests use ordinary values; signs and out-of-range numbers appear in a couple of error cases only.",
  A("text binary file_header", [("parseRange, size and score and mode parsing", "text.go parseRange, binary.go ParseBinaryFragmentHeader, file_header.go parseGitHeaderScore/parseMode")], (), ["Parse"]))
p("C18", "Fragment counters agree with fragment content",
  "In every text fragment returned by Parse, the old and new line counts equal the context lines plus the deleted and added lines respectively, the number of lines equals context plus added plus deleted, leading plus trailing context do not exceed the context lines, and at least one line is added or deleted; a fragment of a file marked new has no old lines and a fragment of a file marked deleted has no new lines.",
  ["inputs"], "all input streams",
  "The relation must hold for every interleaving of line kinds, no-newline markers and truncated input; tests list a dozen fragments.",
  A("text gitdiff", [("counter updates per line and final count test", "text.go ParseTextChunk"), ("new/delete content tests", "text.go ParseTextFragments")], (), ["Parse"]))
p("C19", "Every conforming source reader is accepted",
  "The outcome of applying depends only on the bytes of the source and the errors it reports: a source that returns io.EOF together with the last bytes of a full read is treated exactly like one that returns them without an error, and short reads at the end are never taken for failures.",
  ["inputs", "configurations"], "all implementations of io.ReaderAt permitted by its contract",
  "The tests use bytes.Reader and strings.Reader, which never return io.EOF with a full read.",
  A("io apply_binary", [("handling of ReadAt results", "io.go readBytes/indexTo/isLen/copyFrom, apply_binary.go applyBinaryDeltaCopy")], (), ["Apply", "TextApplier", "BinaryApplier"]))
p("C20", "The Git wire tables are exact",
  "The base85 alphabet, the line operators, the binary line-length characters, the quoting escapes and the binary method names that the library writes are Git's and are the ones it reads: each written symbol is decoded back to the value it was written for.",
  ["inputs"], "all byte values, operators and line lengths",
  "Tests cover some values of each table; a wrong entry for one rare byte or length is invisible unless that byte is tried.",
  A("base85 format text binary gitdiff", [("b85Alpha and b85Table", "base85.go"), ("length byte arithmetic", "binary.go ParseBinaryChunk, format.go FormatBinaryFragment"), ("operators", "gitdiff.go LineOp.String, text.go ParseTextChunk"), ("escapes", "format.go quoteByte")], (), ["File.String", "Parse"]))
p("C21", "The library has no ambient effects",
  "Parsing, applying and formatting depend only on their arguments (and the local time zone for dates without one) and affect only the destination they are given: no operation opens files, runs programs, uses the network, the environment, the clock or randomness, prints, exits, or lets map iteration order reach a result.",
  ["inputs", "histories", "configurations"], "all operations in all environments",
  "Tests run in one environment; nondeterminism from map order, time or environment shows on some runs only.",
  A("apply apply_binary apply_options apply_text base85 binary binary_reader file_header format gitdiff io parser patch_header patch_identity text", [("only pure standard library packages are used", "imports")], (), ["all exported functions"]))
p("C22", "Nothing is written for a fragment that is invalid or misplaced",
  "If a text fragment is nil, inconsistent with its own counters, overlaps consumed source, needs lines the source does not have, or creates a file over a non-empty source, ApplyFragment fails before writing anything to the destination.",
  ["inputs", "histories"], "all fragments, sources and sequences of fragments",
  "Tests look at the error, not at the destination, in every failing case.",
  A("apply_text gitdiff", [("validation, overlap test and preimage read precede the first write", "apply_text.go TextApplier.ApplyFragment")], (), ["TextApplier.ApplyFragment"]))
p("C23", "Unchanged source content is copied once, in order",
  "Over any sequence of successful ApplyFragment calls followed by Close, the source lines are consumed strictly in order without gaps or repeats: each one is either copied to the destination unchanged or matched by exactly one context or deleted line of a fragment.",
  ["inputs", "histories"], "all sources and all sequences of fragments",
  "Tests apply at most two fragments to sources of a few lines; an off-by-one at a chunk boundary or after a particular fragment shape loses or repeats a line only there.",
  A("apply_text io", [("nextLine bookkeeping and copying of leading and trailing lines", "apply_text.go ApplyFragment/Close, io.go copyLinesFrom")],
    [("TextApplier.nextLine", "first source line not yet consumed", "apply_text.go")], ["TextApplier"]))
p("C24", "Quoted names are read to their real end",
  "A quoted file name that the library writes is read back up to exactly its closing quote, whatever bytes the name contains: a closing quote is one preceded by an even number of backslashes.",
  ["inputs"], "all file names",
  "One quoted-name test has an escaped quote; runs of backslashes before the quote are not tried.",
  A("file_header format", [("closing quote search", "file_header.go parseQuotedName"), ("quoting", "format.go WriteQuotedName")], (), ["Parse", "File.String"]))
p("C30", "Formatting and parsing are inverse",
  "For every File returned by Parse, parsing its String yields an equal File.",
  ["inputs"], "all parsed files",
  "Sixteen golden files are compared; equality over all values cannot be sampled.",
  A("format file_header text binary", [("FormatFile and the header parsers", "format.go, file_header.go")], (), ["File.String", "Parse"]))
p("C31", "Acceptance matches git apply",
  "Every patch accepted by git apply is accepted by Parse with the same meaning, apart from the documented differences.",
  ["inputs"], "all patches",
  "Tests are examples taken from Git's behaviour.",
  A("file_header text binary", [("translation of apply.c", "file_header.go, text.go, binary.go")], (), ["Parse"]))
p("C32", "The preamble is preserved verbatim",
  "The second result of a successful Parse is exactly the input before the first file header.",
  ["inputs"], "all inputs", "Tests compare four preambles.",
  A("parser gitdiff file_header", [("preamble accumulation", "file_header.go ParseNextFileHeader")], (), ["Parse"]))
p("C33", "Commit headers are decoded faithfully",
  "ParsePatchHeader returns the author, dates, subject, prefix, body and appendix that the pretty or mail header contains.",
  ["inputs"], "all headers", "Tests are some thirty examples.",
  A("patch_header patch_identity", [("header scanners", "patch_header.go"), ("identity heuristic", "patch_identity.go")], (), ["ParsePatchHeader", "ParsePatchIdentity", "ParsePatchDate"]))
p("C34", "Delta and base85 content is computed correctly",
  "Executing a valid delta yields the bytes Git yields, and base85 decoding inverts encoding for all data.",
  ["inputs"], "all deltas and data", "Tests use three deltas and fuzz seeds.",
  A("apply_binary base85", [("copy/add execution", "apply_binary.go"), ("base85", "base85.go")], (), ["BinaryApplier.ApplyFragment", "BinaryFragment.String"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
