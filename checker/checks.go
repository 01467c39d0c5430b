package main

import (
	"fmt"

	"verif/checker/ai"
)

var baseAssumptions = []string{
	"readers, writers and sources given by the caller meet the contracts of io.Reader, io.Writer, io.ReaderAt and LineReaderAt",
	"slices, strings and source contents are shorter than 2^48 bytes; counters of lines and offsets stay below 2^60",
	"int is 64 bits wide; running out of memory or stack is out of scope",
	"standard-library functions behave as their models in checker/overlay and checker/ai/natives.go say",
}

func kinds(l ...string) []string { return l }

func deltaSizes(kind string) (r []harnessUse) {
	for i := 0; i < 7; i++ {
		r = append(r, harnessUse{Name: fmt.Sprintf("vh_DeltaSize%d", i), First: 1, Kinds: kinds(kind)})
	}
	return r
}

func init() {
	hooksFns["extstore"] = func(in *ai.Interp) { in.Hooks.ExtStore = true }
	hooksFns["deltasize"] = func(in *ai.Interp) { in.After = deltaSizeFns(in) }
	hooksFns["match"] = func(in *ai.Interp) { in.Match = true }
	hooksFns["attach"] = func(in *ai.Interp) { in.Attach = true }
	hooksFns["alloc"] = func(in *ai.Interp) { in.Alloc = declared(in) }
	hooksFns["globstore"] = func(in *ai.Interp) { in.Hooks.GlobStore = true }
}

var checks = map[string]*check{
	"C01": {
		Level: "proof",
		Rule:  "every instruction that can panic (nil dereference, index, slice, make, division, shift, type assertion, explicit panic) in code reachable from the parsing entry points is proved not to, for every input",
		Uses: []harnessUse{
			{Name: "vh_Parse", Kinds: panicKinds},
			{Name: "vh_Header", Kinds: panicKinds},
			{Name: "vh_Strings", Kinds: panicKinds},
		},
	},
	"C02": {
		Level: "other",
		Rule:  "every instruction that can panic in code reachable from Apply and the appliers is proved not to, for every patch value, source and call order",
		Uses: []harnessUse{
			{Name: "vh_TextLine", Watch: true, First: 1, Kinds: panicKinds},
			{Name: "vh_ApplyLine", Watch: true, First: 1, Kinds: panicKinds},
			{Name: "vh_Binary", Watch: true, First: 1, Kinds: panicKinds},
			{Name: "vh_Lines", Watch: true, First: 1, Kinds: append(kinds("C02"), panicKinds...), Undecided: kinds("slice", "make")},
			{Name: "vh_Data", Kinds: panicKinds},
		},
	},
	"C03": {
		Level: "proof",
		Rule:  "every instruction that can panic in code reachable from String, Header and Message is proved not to, for every value whose fragment pointers are non-nil",
		Uses: []harnessUse{
			{Name: "vh_Format", Kinds: panicKinds},
		},
	},
	"C04": {
		Level: "proof",
		Rule:  "on every path on which the reader returned an error other than io.EOF, Parse returns a non-nil error",
		Uses: []harnessUse{
			{Name: "vh_Parse", Kinds: kinds("C04")},
		},
	},
	"C05": {
		Level: "proof",
		Rule:  "on every path on which the source or destination failed, the operation in progress returns a non-nil error",
		Uses: []harnessUse{
			{Name: "vh_TextLine", Watch: true, First: 1, Kinds: kinds("C05")},
			{Name: "vh_ApplyLine", Watch: true, First: 1, Kinds: kinds("C05")},
			{Name: "vh_Binary", Watch: true, First: 1, Kinds: kinds("C05")},
			{Name: "vh_Lines", Watch: true, First: 1, Kinds: kinds("C05")},
		},
	},
	"C06": {
		Level: "proof",
		Rule:  "on every path, a non-nil error returned by Apply or ApplyFragment has dynamic type *ApplyError",
		Uses: []harnessUse{
			{Name: "vh_TextLine", Watch: true, First: 1, Kinds: kinds("C06")},
			{Name: "vh_ApplyLine", Watch: true, First: 1, Kinds: kinds("C06")},
			{Name: "vh_Binary", Watch: true, First: 1, Kinds: kinds("C06")},
		},
	},
	"C07": {
		Level: "proof",
		Rule:  "over every sequence of ApplyFragment and Close calls on an applier, the lifecycle assertions hold",
		Uses: []harnessUse{
			{Name: "vh_TextLine", Watch: true, First: 1, Kinds: kinds("C07")},
			{Name: "vh_Binary", Watch: true, First: 1, Kinds: kinds("C07")},
		},
	},
	"C08": {
		Level: "proof",
		Rule:  "no store, copy, append, sort or call writes into memory reachable from a patch value, option slice or other argument of the caller",
		Uses: []harnessUse{
			{Name: "vh_TextLine", Watch: true, First: 1, Hooks: "extstore", Kinds: kinds("ext-store")},
			{Name: "vh_ApplyLine", Watch: true, First: 1, Hooks: "extstore", Kinds: kinds("ext-store")},
			{Name: "vh_Binary", Watch: true, First: 1, Hooks: "extstore", Kinds: kinds("ext-store")},
			{Name: "vh_Lines", Watch: true, First: 1, Hooks: "extstore", Kinds: kinds("ext-store")},
			{Name: "vh_Data", Hooks: "extstore", Kinds: kinds("ext-store")},
			{Name: "vh_Format", Hooks: "extstore", Kinds: kinds("ext-store")},
			{Name: "vh_Opts", Hooks: "extstore", Kinds: kinds("ext-store")},
		},
	},
	"C09": {
		Level:  "proof",
		Rule:   "no store, copy, append, sort or call writes into package-level memory after initialisation, and no goroutine is started",
		Static: []staticCheck{sharedState},
		Uses: []harnessUse{
			{Name: "vh_Parse", Hooks: "globstore", Kinds: kinds("global-store")},
			{Name: "vh_Header", Hooks: "globstore", Kinds: kinds("global-store")},
			{Name: "vh_Strings", Hooks: "globstore", Kinds: kinds("global-store")},
			{Name: "vh_TextLine", Watch: true, First: 1, Hooks: "globstore", Kinds: kinds("global-store")},
			{Name: "vh_ApplyLine", Watch: true, First: 1, Hooks: "globstore", Kinds: kinds("global-store")},
			{Name: "vh_Binary", Watch: true, First: 1, Hooks: "globstore", Kinds: kinds("global-store")},
			{Name: "vh_Lines", Watch: true, First: 1, Hooks: "globstore", Kinds: kinds("global-store")},
			{Name: "vh_Data", Hooks: "globstore", Kinds: kinds("global-store")},
			{Name: "vh_Format", Hooks: "globstore", Kinds: kinds("global-store")},
			{Name: "vh_Opts", Hooks: "globstore", Kinds: kinds("global-store")},
		},
	},
	"C10": {
		Level: "proof",
		Rule:  "every allocation whose size is computed from a declared number is at most 16 MiB, or bounded by the length of data in memory or by the limit in force, for every input",
		Uses: []harnessUse{
			{Name: "vh_Parse", Hooks: "alloc", Kinds: kinds("alloc")},
			{Name: "vh_Header", Hooks: "alloc", Kinds: kinds("alloc")},
			{Name: "vh_TextLine", Watch: true, First: 1, Hooks: "alloc", Kinds: kinds("alloc")},
			{Name: "vh_ApplyLine", Watch: true, First: 1, Hooks: "alloc", Kinds: kinds("alloc")},
			{Name: "vh_Lines", Watch: true, First: 1, Hooks: "alloc", Kinds: kinds("alloc")},
			{Name: "vh_Data", Hooks: "alloc", Kinds: kinds("alloc")},
			{Name: "vh_LimitOne", Hooks: "alloc", First: 1, Kinds: kinds("alloc")},
			{Name: "vh_LimitApply", Hooks: "alloc", First: 1, Kinds: kinds("alloc")},
			{Name: "vh_LimitNone", Hooks: "alloc", First: 1, Kinds: kinds("alloc")},
		},
	},
	"C11": {
		Level: "proof",
		Rule:  "for every fragment, limit, list of options, source and destination, the limit assertions hold at every write, at every read of the decompressor and when applying ends",
		Uses: append([]harnessUse{
			{Name: "vh_LimitDefault", First: 1, Kinds: kinds("C11")},
			{Name: "vh_LimitOne", First: 1, Kinds: kinds("C11")},
			{Name: "vh_LimitLast", First: 1, Kinds: kinds("C11")},
			{Name: "vh_LimitApply", First: 1, Kinds: kinds("C11")},
			{Name: "vh_LimitApplyDefault", First: 1, Kinds: kinds("C11")},
			{Name: "vh_LimitLiteral", First: 1, Kinds: kinds("C11"), Reach: kinds("a literal is applied")},
			{Name: "vh_LimitDelta", Hooks: "deltasize", First: 1, Kinds: kinds("C11")},
		}, deltaSizes("C11")...),
	},
	"C12": {
		Level: "proof",
		Rule:  "for every delta, source and destination, applying it returns nil only if the source has the first declared size and the second declared size was written; deltas with zero or truncated instructions return an error",
		Uses: append([]harnessUse{
			{Name: "vh_LimitDelta", Hooks: "deltasize", First: 1, Kinds: kinds("C12")},
			{Name: "vh_DeltaZero", Kinds: kinds("C12")},
			{Name: "vh_DeltaZero2", Kinds: kinds("C12")},
			{Name: "vh_DeltaZeros", Kinds: kinds("C12")},
			{Name: "vh_DeltaAdd", Kinds: kinds("C12")},
			{Name: "vh_DeltaAdd2", Kinds: kinds("C12")},
			{Name: "vh_DeltaCopy", Kinds: kinds("C12")},
			{Name: "vh_DeltaCopy2", First: 1, Kinds: kinds("C12")},
		}, deltaSizes("C12")...),
	},
	"C13": {
		Level: "proof",
		Rule:  "for every fragment and sequence of Read calls, Read returns io.EOF only if the declared number of bytes was delivered, the decompressor reported the end of its data and was closed without error",
		Uses: []harnessUse{
			{Name: "vh_DataEnd", Kinds: kinds("C13"), Reach: kinds("Data ends")},
		},
	},
	"C14": {
		Level: "proof",
		Rule:  "after any history of fragments, a fragment that applies has had every source line it is about compared and found equal in order, starting at the line its old position names, for every fragment and source",
		Uses: []harnessUse{
			{Name: "vh_PlaceInsert", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C14"), Reach: kinds("a fragment applies")},
			{Name: "vh_PlaceInsert2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C14"), Reach: kinds("a fragment applies")},
			{Name: "vh_PlaceOld", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C14"), Reach: kinds("a fragment applies")},
			{Name: "vh_PlaceOld2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C14"), Reach: kinds("a fragment applies")},
			{Name: "vh_Place0", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C14"), Reach: kinds("a fragment applies")},
			{Name: "vh_Place1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C14"), Reach: kinds("a fragment applies")},
			{Name: "vh_Place2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C14"), Reach: kinds("a fragment applies")},
			{Name: "vh_Place3", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C14"), Reach: kinds("a fragment applies")},
			{Name: "vh_Place4", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C14"), Reach: kinds("a fragment applies")},
		},
	},
	"C15": {
		Level: "proof",
		Rule:  "for fragments of given shapes with any positions and contents, every mismatch with a source of any size is returned as an error that errors.Is finds to be a Conflict; for every delta, a wrong source size is",
		Uses: []harnessUse{
			{Name: "vh_ConfCreate", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort0", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort3", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap0", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap3", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfDiffer1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfDiffer2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfDiffer3", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfDiffer4", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfLeft1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfLeft4", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfDelta1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfCreate7", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort5", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort6", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort7", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap4", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap5", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap6", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap7", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfDiffer5", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfDiffer6", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfDiffer7", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfLeft5", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfLeft6", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfDeltaAny", Watch: true, First: 1, Hooks: "match,deltasize", Kinds: kinds("C15"), Reach: kinds("conflict tested")},
		},
	},
	"C17": {
		Level: "proof",
		Rule:  "every number in every file and fragment that Parse returns is in range when the file is returned or the fragment becomes part of it, for every input",
		Uses: []harnessUse{
			{Name: "vh_Parse", Watch: true, Kinds: kinds("C17"), Reach: kinds("Parse succeeds", "a file is returned", "a fragment is returned")},
		},
	},
	"C18": {
		Level: "proof",
		Rule:  "the counters of every fragment agree with a census of its lines when it becomes part of a file, and with the kind of the file it is attached to, for every input",
		Uses: []harnessUse{
			{Name: "vh_Parse", Watch: true, First: 6, Only: true, Kinds: kinds("C18"), Reach: kinds("a fragment is returned")},
			{Name: "vh_Parse", Hooks: "attach", Kinds: kinds("C18"), Reach: kinds("Parse succeeds")},
		},
	},
	"C19": {
		Level: "proof",
		Rule:  "a source that never fails is copied to its end, found empty or not, and read by deltas without an error, whether or not it reports io.EOF with its last bytes, for every size; the first line of sources of one and two bytes is read without an error",
		Uses: []harnessUse{
			{Name: "vh_EofText", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofBinary", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofApply", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofCreate", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofDeltaCopy", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofDeltaAll", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofDeltaAdd", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofLine1", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofLine2", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofLineK", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofDeltaSize", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
			{Name: "vh_EofCreateOver", First: 1, Kinds: kinds("C19"), Reach: kinds("the source is used")},
		},
	},
	"C22": {
		Level: "proof",
		Rule:  "after any history of fragments, nothing is written for a fragment that is nil, miscounted, overlapping, behind the end or creating over content, for every fragment and source",
		Uses: []harnessUse{
			{Name: "vh_Forbid0", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("rejected")},
			{Name: "vh_Forbid1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("rejected")},
			{Name: "vh_Forbid2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("rejected")},
			{Name: "vh_Forbid3", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("rejected")},
			{Name: "vh_Forbid4", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("rejected")},
			{Name: "vh_Forbid5", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("rejected")},
			{Name: "vh_Forbid6", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("rejected")},
			{Name: "vh_ForbidCount", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("a fragment is written")},
			{Name: "vh_ConfCreate7", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort5", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort6", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort7", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap4", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap5", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap6", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap7", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfCreate", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort0", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfShort3", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap0", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
			{Name: "vh_ConfOverlap3", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C22"), Reach: kinds("conflict tested")},
		},
	},
	"C23": {
		Level: "proof",
		Rule:  "over any history of successful fragments and Close, every source line is written or matched once and in order, up to the last one, for every source",
		Uses: []harnessUse{
			{Name: "vh_Place", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C23"), Reach: kinds("everything is copied")},
			{Name: "vh_PlaceInsert", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C23"), Reach: kinds("a fragment applies")},
			{Name: "vh_PlaceOld", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C23"), Reach: kinds("a fragment applies")},
			{Name: "vh_Place0", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C23"), Reach: kinds("everything is copied")},
			{Name: "vh_Place1", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C23"), Reach: kinds("everything is copied")},
			{Name: "vh_Place2", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C23"), Reach: kinds("everything is copied")},
			{Name: "vh_Place3", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C23"), Reach: kinds("everything is copied")},
			{Name: "vh_Place4", Watch: true, First: 1, Hooks: "match", Kinds: kinds("C23"), Reach: kinds("everything is copied")},
		},
	},
	"C21": {
		Level:  "proof",
		Rule:   "every external object used by the package is free of ambient effects, and no map iteration order reaches a result",
		Static: []staticCheck{ambient},
	},
}
