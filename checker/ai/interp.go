package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const firstID = 1000

// Interp is one analysis run.
type Interp struct {
	Cfg     Config
	Prog    *ssa.Program
	Pkg     *ssa.Package
	PkgPath string
	Fset    *token.FileSet

	nextID  int
	nextSym Sym
	fixed   map[int]*Obj // lazily created shared objects
	fixedID map[string]int
	globals map[*ssa.Global]int
	globOf  map[int]*ssa.Global
	base    map[int]*Obj // heap after package initialisation

	fns   map[*ssa.Function]*fnInfo
	memo  map[string]*memoEntry
	Hooks Hooks
	After map[*ssa.Function]*ssa.Function // called with the results of a function

	nJoin, nCall, nHit, nInstr int
	depth                      int
	stack                      []*frame
	initing                    bool
	Debug                      bool
	Steps, MaxSteps            int
	loopStats                  map[string]int
	lastPhis                   map[Sym]bool
	lastPairs                  []joinPair
	Funcs                      map[*ssa.Function]bool // analysed
	Watch                      bool
	Match                      bool // run ve_compared
	Attach                     bool // run vattach functions
	sticky                     map[string][]int
	Reached                    map[string]bool
	TraceKey                   string
	nnElems                    bool // pointers in caller-owned slices are not nil
	fstats                     map[string]*fstat
	Unmodelled                 map[string]int
	intrinsics                 map[string]bool
	Alloc                      map[ssa.Instruction]AllocSite // allocations to check
}

// Hooks customise the analysis for a property.
type Hooks struct {
	ExtStore  bool // report stores into caller-owned memory
	GlobStore bool // report stores into package-level memory
	Rank      bool // check loop progress
}

// Oblig is a checked proof obligation.
type Oblig struct {
	Kind, Fn string
	Pos      token.Pos
	Failed   bool
	Msg      string
	Stack    string
	N        int
}

type Recorder struct {
	m map[string]*Oblig
}

func newRecorder() *Recorder { return &Recorder{m: map[string]*Oblig{}} }

func (r *Recorder) merge(o *Recorder) {
	for k, x := range o.m {
		y, ok := r.m[k]
		if !ok {
			c := *x
			r.m[k] = &c
			continue
		}
		y.N += x.N
		if x.Failed && !y.Failed {
			n := y.N
			*y = *x
			y.N = n
		}
	}
}

// Obligs returns the obligations in a deterministic order.
func (r *Recorder) Obligs() []*Oblig {
	var ks []string
	for k := range r.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := make([]*Oblig, len(ks))
	for i, k := range ks {
		out[i] = r.m[k]
	}
	return out
}

type memoEntry struct {
	done   bool
	rec    *Recorder
	outs   []outcome
	entry  *State
	busy   bool
	failed string
}

type outcome struct {
	st   *State
	vals []Val
}

func NewInterp(prog *ssa.Program, pkg *ssa.Package) *Interp {
	in := &Interp{Prog: prog, Pkg: pkg, PkgPath: pkg.Pkg.Path(), Fset: prog.Fset, nextID: firstID, nextSym: 10,
		fixed: map[int]*Obj{}, fixedID: map[string]int{}, globals: map[*ssa.Global]int{}, globOf: map[int]*ssa.Global{},
		fns: map[*ssa.Function]*fnInfo{}, memo: map[string]*memoEntry{}, loopStats: map[string]int{},
		Funcs: map[*ssa.Function]bool{}, fstats: map[string]*fstat{}, Reached: map[string]bool{}, MaxSteps: 1 << 40}
	return in
}

func (in *Interp) id() int {
	in.nextID++
	return in.nextID
}
func (in *Interp) sym() Sym {
	in.nextSym++
	return in.nextSym
}

type bail struct{ msg string }

func (in *Interp) fail(format string, args ...any) {
	s := ""
	for _, f := range in.stack {
		s += f.info.fn.Name() + ">"
	}
	panic(bail{fmt.Sprintf(format, args...) + " in " + s})
}

// fixedObj returns the id of the shared object named key.
func (in *Interp) fixedObj(key string, mk func() *Obj) int {
	if id, ok := in.fixedID[key]; ok {
		return id
	}
	id := 500 + len(in.fixedID)
	if id >= firstID {
		in.fail("too many shared objects")
	}
	in.fixedID[key] = id
	in.fixed[id] = mk()
	return id
}

// anyObj is the object standing for every value of type t.
func (in *Interp) anyObj(t types.Type) int {
	return in.fixedObj("any:"+typeKey(t), func() *Obj {
		return &Obj{T: t, C: VLazy{T: t}, Sum: true, Site: "any " + typeKey(t)}
	})
}

func (in *Interp) global(g *ssa.Global) int {
	if id, ok := in.globals[g]; ok {
		return id
	}
	id := 1 + len(in.globals)
	in.globals[g] = id
	in.globOf[id] = g
	return id
}

// ---- function information ----

type fnInfo struct {
	types   []types.Type
	fn      *ssa.Function
	idx     map[ssa.Value]int
	n       int
	liveIn  []map[int]bool // by block index
	wto     []*wtoElem
	loopOf  map[*ssa.BasicBlock]*wtoElem // innermost loop containing the block
	globals []int

	deferSlot int
	defers    []*ssa.Defer
}

type wtoElem struct {
	b      *ssa.BasicBlock
	comp   []*wtoElem // non-nil for loops; b is the head
	loop   bool
	blocks map[*ssa.BasicBlock]bool
	itSlot int
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if f, ok := in.fns[fn]; ok {
		return f
	}
	f := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, loopOf: map[*ssa.BasicBlock]*wtoElem{}}
	in.fns[fn] = f
	add := func(v ssa.Value) { f.idx[v] = f.n; f.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	if fn.Recover != nil {
		// reached only after a recovered panic; not modelled
	}
	f.wto = buildWTO(fn)
	var number func(es []*wtoElem)
	number = func(es []*wtoElem) {
		for _, e := range es {
			if e.loop {
				e.itSlot = f.n
				f.n++
				number(e.comp)
			}
		}
	}
	number(f.wto)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				f.defers = append(f.defers, d)
			}
		}
	}
	if len(f.defers) > 0 {
		if f.n == 0 {
			f.n++
		}
		f.deferSlot = f.n
		f.n++
	}
	f.liveness()
	if f.deferSlot > 0 {
		for _, l := range f.liveIn {
			l[f.deferSlot] = true
		}
	}
	f.globals = in.usedGlobals(fn)
	return f
}

func buildWTO(fn *ssa.Function) []*wtoElem {
	num := 0
	dfn := map[*ssa.BasicBlock]int{}
	var stack []*ssa.BasicBlock
	const inf = 1 << 30
	var component func(b *ssa.BasicBlock) []*wtoElem
	var visit func(b *ssa.BasicBlock, part *[]*wtoElem) int
	visit = func(b *ssa.BasicBlock, part *[]*wtoElem) int {
		stack = append(stack, b)
		num++
		dfn[b] = num
		head := num
		loop := false
		for _, s := range b.Succs {
			var m int
			if dfn[s] == 0 {
				m = visit(s, part)
			} else {
				m = dfn[s]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[b] {
			dfn[b] = inf
			e := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for e != b {
					dfn[e] = 0
					e = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				c := &wtoElem{b: b, loop: true, comp: component(b), blocks: map[*ssa.BasicBlock]bool{b: true}}
				var mark func(es []*wtoElem)
				mark = func(es []*wtoElem) {
					for _, x := range es {
						c.blocks[x.b] = true
						if x.loop {
							mark(x.comp)
						}
					}
				}
				mark(c.comp)
				*part = append([]*wtoElem{c}, *part...)
			} else {
				*part = append([]*wtoElem{{b: b}}, *part...)
			}
		}
		return head
	}
	component = func(b *ssa.BasicBlock) []*wtoElem {
		var part []*wtoElem
		for _, s := range b.Succs {
			if dfn[s] == 0 {
				visit(s, &part)
			}
		}
		return part
	}
	var top []*wtoElem
	if len(fn.Blocks) > 0 {
		visit(fn.Blocks[0], &top)
	}
	return top
}

func (f *fnInfo) liveness() {
	n := len(f.fn.Blocks)
	f.liveIn = make([]map[int]bool, n)
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	for i, b := range f.fn.Blocks {
		use[i], def[i] = map[int]bool{}, map[int]bool{}
		f.liveIn[i] = map[int]bool{}
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); !ok {
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if k, ok := f.idx[*op]; ok && !def[i][k] {
						use[i][k] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[i][f.idx[v]] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := f.fn.Blocks[i]
			out := map[int]bool{}
			for _, s := range b.Succs {
				for k := range f.liveIn[s.Index] {
					out[k] = true
				}
				pi := predIndex(s, b)
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(out, f.idx[ph])
				}
				for _, ins := range s.Instrs {
					ph, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for pj, p := range s.Preds {
						if p == b {
							_ = pi
							if k, ok := f.idx[ph.Edges[pj]]; ok {
								out[k] = true
							}
						}
					}
				}
			}
			for k := range use[i] {
				if !f.liveIn[i][k] {
					f.liveIn[i][k] = true
					ch = true
				}
			}
			for k := range out {
				if !def[i][k] && !f.liveIn[i][k] {
					f.liveIn[i][k] = true
					ch = true
				}
			}
		}
	}
	// phis defined in the block are live on entry for our purposes
	for i, b := range f.fn.Blocks {
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				f.liveIn[i][f.idx[ph]] = true
			}
		}
	}
	var mark func(es []*wtoElem)
	mark = func(es []*wtoElem) {
		for _, e := range es {
			if e.loop {
				for b := range e.blocks {
					f.liveIn[b.Index][e.itSlot] = true
				}
				mark(e.comp)
			}
		}
	}
	mark(f.wto)
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

// usedGlobals lists the package variables fn may touch, directly or through
// calls.
func (in *Interp) usedGlobals(fn *ssa.Function) []int {
	seen := map[*ssa.Function]bool{}
	gl := map[int]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		visit(in.After[f])
		if in.isIntrinsic(f) {
			return
		}
		if f.Blocks == nil || !in.analysable(f) {
			if m := in.overlayModel(f); m != nil && m != f {
				visit(m)
			}
			if f.Blocks == nil || !in.analysable(f) {
				return
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range i.Operands(ops[:0]) {
					if op == nil || *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Global:
						gl[in.global(x)] = true
					case *ssa.Function:
						visit(x)
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						for _, m := range in.implementers(cc.Method) {
							visit(m)
						}
					} else if sf := cc.StaticCallee(); sf != nil {
						visit(sf)
					}
				}
				if mi, ok := i.(*ssa.MakeInterface); ok {
					_ = mi
				}
			}
		}
	}
	visit(fn)
	var out []int
	for g := range gl {
		out = append(out, g)
	}
	sort.Ints(out)
	return out
}

// implementers returns the package methods an invoke of m may reach.
func (in *Interp) implementers(m *types.Func) []*ssa.Function {
	var out []*ssa.Function
	for _, name := range keysOf(in.Pkg.Members) {
		mem := in.Pkg.Members[name]
		tn, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if sel := in.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
				if f := in.Prog.MethodValue(sel); f != nil {
					out = append(out, f)
				}
			}
		}
	}
	for _, t := range in.stdTypes() {
		if sel := in.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name()); sel != nil {
			if f := in.Prog.MethodValue(sel); f != nil {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// stdTypes lists imported types with overlay models (methods named
// vm_pkg_Type_Method).
func (in *Interp) stdTypes() []types.Type {
	var out []types.Type
	for _, imp := range in.Pkg.Pkg.Imports() {
		for _, n := range []string{"Reader", "LimitedReader", "Buffer", "Builder", "Scanner", "Writer"} {
			if o := imp.Scope().Lookup(n); o != nil {
				if tn, ok := o.(*types.TypeName); ok && !types.IsInterface(tn.Type()) {
					out = append(out, types.NewPointer(tn.Type()))
				}
			}
		}
	}
	return out
}

func (in *Interp) isIntrinsic(f *ssa.Function) bool {
	return f.Pkg == in.Pkg && f.Signature.Recv() == nil && in.intrinsics[f.Name()] && f.Parent() == nil
}

func (in *Interp) analysable(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if f.Pkg == in.Pkg {
		return true
	}
	if f.Pkg == nil { // synthetic wrappers
		return true
	}
	return false
}

// ---- execution of a function body ----

type frame struct {
	in   *Interp
	info *fnInfo
	keep []int
	rec  *Recorder
	outs []outcome
	ghost
}

type ghost struct{}

func (fr *frame) posOf(i ssa.Instruction) token.Pos {
	if i == nil {
		return fr.info.fn.Pos()
	}
	if p := i.Pos(); p.IsValid() {
		return p
	}
	b := i.Block()
	if b != nil {
		seen := false
		for _, x := range b.Instrs {
			if x == i {
				seen = true
			}
			if x.Pos().IsValid() && seen {
				return x.Pos()
			}
		}
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			if b.Instrs[k].Pos().IsValid() {
				return b.Instrs[k].Pos()
			}
		}
	}
	return fr.info.fn.Pos()
}

// check records an obligation.
func (fr *frame) check(kind string, i ssa.Instruction, ok bool, st *State, msg func() string) {
	pos := fr.posOf(i)
	fn := fr.info.fn.String()
	key := fmt.Sprintf("%s|%s|%d", kind, fn, pos)
	o := fr.rec.m[key]
	if o == nil {
		o = &Oblig{Kind: kind, Fn: fn, Pos: pos}
		fr.rec.m[key] = o
	}
	o.N++
	if !ok && !o.Failed {
		o.Failed = true
		o.Msg = msg()
		if st != nil && os.Getenv("AI_DUMP") != "" {
			o.Msg += "\n   POLY " + st.P.String()
			for _, id := range keysOf(st.heap) {
				if ob := st.heap[id]; !ob.Keep {
					o.Msg += fmt.Sprintf("\n   o%d %s = %s", id, ob.Site, valStr(ob.C))
				}
			}
			for v, k := range fr.info.idx {
				if k < len(st.env) && st.env[k] != nil {
					o.Msg += fmt.Sprintf("\n   %s = %s", v.Name(), valStr(st.env[k]))
				}
			}
		}
		for _, f := range fr.in.stack {
			if o.Stack != "" {
				o.Stack += " > "
			}
			o.Stack += f.info.fn.Name()
		}
		if st != nil {
			var ms []string
			for p, k := st.path, 0; p != nil && k < 12; p, k = p.up, k+1 {
				ms = append([]string{p.msg}, ms...)
			}
			if len(ms) > 0 {
				o.Stack += " | " + fmt.Sprint(ms)
			}
		}
	}
}

// Config says how many disjuncts are kept apart. Every choice is sound; an
// obligation discharged under one of them holds.
type Config struct {
	Block int  // states at a block
	Head  int  // states at a loop head
	Out   int  // outcomes of a call
	Raw   int  // outcomes with numbers that are not joined at all
	Tight bool // use relational bounds of compound values in joins
	Split int  // ways into a loop that are kept apart
	Const bool // keep small constants apart first
	Solo  bool // hardly join where control does not meet
	Wide  bool // express large quantities by small ones
}

// Configs are tried in order.
var Configs = []Config{
	{4, 8, 10, 0, false, 0, false, false, false},
	{6, 10, 14, 8, true, 0, false, false, false},
	{6, 10, 14, 8, false, 0, false, false, false},
	{6, 16, 14, 16, true, 4, true, false, false},
	{6, 10, 14, 8, true, 0, false, true, false},
	{10, 24, 20, 16, true, 8, true, false, false},
	{6, 10, 14, 8, true, 0, false, false, true},
	{4, 8, 10, 0, false, 0, false, false, true},
}

func (fr *frame) widenInfo() *widenInfo { return &widenInfo{keepObjs: fr.keep} }

// mergeStates reduces a set of states by joining those with equal signatures.
func (fr *frame) mergeStates(sts []*State, limit int) []*State {
	if len(sts) <= limit {
		return sts
	}
	if fr.in.Attach {
		n := map[string]bool{}
		for _, s := range sts {
			var b strings.Builder
			s.stickySig(&b)
			n[b.String()] = true
		}
		limit *= min(len(n), 4)
	}
	for level := fr.in.firstLevel(); level <= sigShape; level++ {
		sts = fr.mergeBy(sts, level)
		if len(sts) <= limit {
			return sts
		}
	}
	if len(sts) > 4*limit {
		// force
		out := sts[:limit]
		for _, s := range sts[limit:] {
			j, _ := fr.in.joinStates(out[limit-1], s, nil, nil, nil, fr.widenInfo())
			out[limit-1] = j
		}
		sts = out
	}
	return sts
}

func (fr *frame) mergeBy(sts []*State, level int) []*State {
	bySig := map[string]int{}
	var out []*State
	for _, s := range sts {
		k := s.signature(level, nil, fr.keep)
		if i, ok := bySig[k]; ok {
			out[i], _ = fr.in.joinStates(out[i], s, nil, nil, nil, fr.widenInfo())
		} else {
			bySig[k] = len(out)
			out = append(out, s)
		}
	}
	return out
}

type pend map[*ssa.BasicBlock][]*State

func (fr *frame) runElems(es []*wtoElem, pd pend) {
	for _, e := range es {
		if e.loop {
			fr.runLoop(e, pd)
			continue
		}
		sts := pd[e.b]
		delete(pd, e.b)
		if len(sts) == 0 {
			continue
		}
		limit := fr.in.Cfg.Block
		if fr.in.Cfg.Solo && len(e.b.Preds) == 1 {
			limit *= 3 // nothing meets here
		}
		sts = fr.mergeStates(sts, limit)
		fr.runBlock(e.b, sts, pd)
	}
}

// prune drops dead locals.
func (fr *frame) prune(st *State, b *ssa.BasicBlock) {
	live := fr.info.liveIn[b.Index]
	for i := range st.env {
		if st.env[i] != nil && !live[i] {
			st.env[i] = nil
		}
	}
}

func (fr *frame) edge(st *State, from, to *ssa.BasicBlock, pi int, pd pend) {
	var newv []Val
	var slots []int
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		newv = append(newv, fr.get(st, ph.Edges[pi]))
		slots = append(slots, fr.info.idx[ph])
	}
	for i, s := range slots {
		st.env[s] = newv[i]
	}
	fr.prune(st, to)
	pd[to] = append(pd[to], st)
}

func (fr *frame) runBlock(b *ssa.BasicBlock, sts []*State, pd pend) {
	cur := sts
	for _, ins := range b.Instrs {
		switch ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		}
		switch t := ins.(type) {
		case *ssa.Jump:
			for _, s := range cur {
				fr.edge(s, b, b.Succs[0], predIndexOf(b, b.Succs[0], 0), pd)
			}
			return
		case *ssa.If:
			for _, s := range cur {
				tr, fa := fr.branch(s, t.Cond)
				if tr != nil {
					if tr == fa {
						panic("branch aliasing")
					}
					fr.edge(tr, b, b.Succs[0], predIndexOf(b, b.Succs[0], 0), pd)
				}
				if fa != nil {
					fr.edge(fa, b, b.Succs[1], predIndexOf(b, b.Succs[1], 1), pd)
				}
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				vals := make([]Val, len(t.Results))
				for i, r := range t.Results {
					vals[i] = fr.get(s, r)
				}
				s.cls = 0
				fr.outs = append(fr.outs, outcome{s, vals})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				s := s
				fr.check("panic", t, false, s, func() string { return "explicit panic is reachable" })
			}
			return
		}
		var next []*State
		for _, s := range cur {
			fr.in.Steps++
			if fr.in.Steps > fr.in.MaxSteps {
				fr.in.fail("step limit")
			}
			next = append(next, fr.exec(s, ins)...)
		}
		cur = next
		if len(cur) == 0 {
			return
		}
		if len(cur) > 3*fr.in.Cfg.Block {
			cur = fr.mergeStates(cur, fr.in.Cfg.Block)
		}
	}
}

// predIndexOf finds the predecessor slot of succ for the k-th edge of b.
func predIndexOf(b, succ *ssa.BasicBlock, k int) int {
	// with duplicate edges the first belongs to the first successor slot
	n := 0
	for i := 0; i < k; i++ {
		if b.Succs[i] == succ {
			n++
		}
	}
	for i, p := range succ.Preds {
		if p == b {
			if n == 0 {
				return i
			}
			n--
		}
	}
	return 0
}

// branch splits on a boolean.
func (fr *frame) branch(st *State, cond ssa.Value) (tr, fa *State) {
	v := fr.get(st, cond)
	x, ok := v.(VInt)
	if !ok {
		return st, st.clone()
	}
	l := st.P.norm(x.L)
	if c, ok := l.constVal(); ok {
		if c != 0 {
			return st, nil
		}
		return nil, st
	}
	f := st.clone()
	if st.P.addGE(l.addC(-1)) {
		tr = st
	}
	if f.P.addGE(l.neg()) {
		fa = f
	}
	return
}

// ---- loops ----

type headState struct {
	st        *State
	phis      map[Sym]bool
	practical map[Sym]Bound
	sig       string
}

const maxUnroll = 24

func (fr *frame) loopName(e *wtoElem) string {
	return fmt.Sprintf("%s:%d", fr.info.fn.Name(), e.b.Index)
}

func (fr *frame) runLoop(e *wtoElem, pd pend) {
	entry := pd[e.b]
	delete(pd, e.b)
	if len(entry) == 0 {
		return
	}
	entry = fr.mergeStates(entry, fr.in.Cfg.Block)
	for _, s := range entry {
		s.env[e.itSlot] = cint(0)
	}
	headExits := false
	if _, ok := e.b.Instrs[len(e.b.Instrs)-1].(*ssa.If); ok {
		for _, s := range e.b.Succs {
			if !e.blocks[s] {
				headExits = true
			}
		}
	}
	unroll := maxUnroll
	if fr.in.initing {
		unroll = 300
	}
	// the first iteration is peeled
	out := pend{}
	back := fr.iterate(e, entry, out, fr.rec)
	for b, ss := range out {
		pd[b] = append(pd[b], ss...)
	}
	if len(back) == 0 {
		return
	}
	if headExits && fr.headDecided(e, back) {
		// unroll loops with few iterations
		saved := make([]*State, len(back))
		for i, s := range back {
			saved[i] = s.clone()
		}
		outs, rec := fr.outs, newRecorder()
		fr.outs = nil
		out := pend{}
		cur := back
		ok := false
		for it := 1; it < unroll; it++ {
			cur = fr.mergeStates(cur, fr.in.Cfg.Block)
			cur = fr.iterate(e, cur, out, rec)
			if len(cur) == 0 {
				ok = true
				break
			}
			if !fr.headDecided(e, cur) {
				ok = it <= 4
				break
			}
		}
		if ok {
			fr.outs = append(outs, fr.outs...)
			fr.rec.merge(rec)
			for b, ss := range out {
				pd[b] = append(pd[b], ss...)
			}
			back = cur
			if len(back) == 0 {
				return
			}
		} else {
			fr.outs = outs
			back = saved
		}
	}
	fr.fixpoint(e, back, pd)
}

// headDecided reports whether the head test has a single outcome in every
// state.
func (fr *frame) headDecided(e *wtoElem, sts []*State) bool {
	for _, s := range sts {
		c := s.clone()
		scratch := pend{}
		save, so := fr.rec, fr.outs
		fr.rec = newRecorder()
		fr.runBlock(e.b, []*State{c}, scratch)
		fr.rec, fr.outs = save, so
		in, out := false, false
		for b, l := range scratch {
			if len(l) == 0 {
				continue
			}
			if e.blocks[b] {
				in = true
			} else {
				out = true
			}
		}
		if in && out {
			return false
		}
	}
	return true
}

// iterate runs the loop once from the head states; it returns the states at
// the back edges. Exits are added to out.
func (fr *frame) iterate(e *wtoElem, heads []*State, out pend, rec *Recorder) []*State {
	save := fr.rec
	fr.rec = rec
	defer func() { fr.rec = save }()
	local := pend{}
	cl := make([]*State, len(heads))
	for i, h := range heads {
		cl[i] = h.clone()
	}
	fr.runBlock(e.b, cl, local)
	back := local[e.b]
	delete(local, e.b)
	fr.runElems(e.comp, local)
	back = append(back, local[e.b]...)
	delete(local, e.b)
	for b, ss := range local {
		if len(ss) > 0 {
			if e.blocks[b] {
				fr.in.fail("irregular loop")
			}
			out[b] = append(out[b], ss...)
		}
	}
	for _, s := range back {
		if x, ok := s.env[e.itSlot].(VInt); ok {
			s.env[e.itSlot] = VInt{x.L.addC(1), false}
		}
	}
	return back
}

func (fr *frame) groupHeads(sts []*State) ([]*headState, int) {
	level := sigStrict
	for ; level <= sigShape; level++ {
		n := map[string]bool{}
		for _, s := range sts {
			n[s.signature(level, nil, fr.keep)] = true
		}
		if len(n) <= fr.in.Cfg.Head {
			break
		}
	}
	if level > sigShape {
		level = sigShape
	}
	var hs []*headState
	by := map[string]*headState{}
	for _, s := range sts {
		k := s.signature(level, nil, fr.keep)
		if h, ok := by[k]; ok {
			h.st, _ = fr.in.joinStates(h.st, s, nil, nil, nil, fr.widenInfo())
			continue
		}
		h := &headState{st: s, phis: map[Sym]bool{}, practical: map[Sym]Bound{}, sig: k}
		by[k] = h
		hs = append(hs, h)
	}
	return hs, level
}

func (fr *frame) fixpoint(e *wtoElem, start []*State, pd pend) {
	in := fr.in
	for _, s := range start {
		s.normAll()
		fr.foldDead(s)
		s.collect(fr.keep)
	}
	start = fr.leaving(e, start, pd)
	if len(start) == 0 {
		return
	}
	// keep the ways into the loop apart
	split := false
	if n := len(start); n > 1 && n <= in.Cfg.Split && start[0].cls < 1<<20 {
		split = true
		for i, s := range start {
			s.cls = s.cls*16 + i + 1
		}
	}
	var starts []*State
	for _, s := range start {
		starts = append(starts, s.clone())
	}
	hs, level := fr.groupHeads(start)
	savedOuts := fr.outs
	narrowed := false
	for iter := 0; ; iter++ {
		if iter > 60 {
			in.fail("no fixpoint in loop %s (%d heads)", fr.loopName(e), len(hs))
		}
		in.loopStats[fr.loopName(e)]++
		// run the body
		fr.outs = nil
		var heads []*State
		for _, h := range hs {
			heads = append(heads, h.st)
		}
		out := pend{}
		rec := newRecorder()
		back := fr.iterate(e, heads, out, rec)
		changed := false
		// rename the head symbols of back states
		for _, b := range back {
			b.normAll()
			fr.foldDead(b)
			ren := map[Sym]Sym{}
			for _, h := range hs {
				for s := range h.phis {
					ren[s] = 0
				}
			}
			fr.renameSyms(b, ren)
			b.collect(fr.keep)
		}
		save := fr.rec
		fr.rec = rec
		back = fr.leaving(e, back, out)
		fr.rec = save
		cover := map[*headState][]map[Sym]Bound{}
		for _, b := range back {
			k := b.signature(level, nil, fr.keep)
			var h *headState
			for _, x := range hs {
				if x.sig == k {
					h = x
					break
				}
			}
			if h == nil && len(hs) >= fr.in.Cfg.Head {
				if level < sigShape {
					// coarsen everything
					var all []*State
					for _, x := range hs {
						all = append(all, x.st)
					}
					all = append(all, b)
					level++
					hs = fr.regroup(hs, b, level)
					changed = true
					continue
				}
				if len(hs) >= 3*fr.in.Cfg.Head {
					h = hs[len(hs)-1] // forced join
				}
			}
			if h == nil {
				hs = append(hs, &headState{st: b, phis: map[Sym]bool{}, practical: map[Sym]Bound{}, sig: k})
				changed = true
				continue
			}
			if fr.absorb(e, h, b, iter) {
				changed = true
			} else {
				cover[h] = append(cover[h], pairBounds(b, in.lastPairs))
			}
		}
		if !changed && !narrowed {
			narrowed = true
			if fr.narrow(hs, level, starts, cover) {
				continue
			}
		}
		if in.TraceKey != "" && fr.info.fn.Name() == in.TraceKey {
			fmt.Printf("LOOP %s iter %d heads %d back %d changed %v\n", fr.loopName(e), iter, len(hs), len(back), changed)
			for _, h := range hs {
				fmt.Printf("   %s || %s\n", h.sig, h.st.P)
				for v, k := range fr.info.idx {
					if k < len(h.st.env) && h.st.env[k] != nil {
						fmt.Printf("      ENV %s = %.200s\n", v.Name(), valStr(h.st.env[k]))
					}
				}
				for id, o := range h.st.heap {
					if !o.Keep {
						fmt.Printf("      HEAP %d %s = %.300s\n", id, typeKey(o.T), valStr(o.C))
					}
				}
			}
		}
		if !changed {
			fr.outs = append(savedOuts, fr.outs...)
			fr.rec.merge(rec)
			for b, ss := range out {
				if split {
					for _, s := range ss {
						s.cls /= 16
					}
				}
				pd[b] = append(pd[b], ss...)
			}
			return
		}
	}
}

// pairBounds has the interval in b of what a head symbol stands for.
func pairBounds(b *State, pairs []joinPair) map[Sym]Bound {
	m := map[Sym]Bound{}
	for _, pr := range pairs {
		if s, ok := pr.ea.single(); !ok || s != pr.phi {
			continue
		}
		x := b.P.tight(b.P.norm(pr.eb))
		if y, ok := m[pr.phi]; ok {
			x = hull(x, y)
		}
		m[pr.phi] = x
	}
	return m
}

func hull(x, y Bound) Bound {
	r := Bound{}
	if x.hasLo && y.hasLo {
		r.hasLo, r.lo = true, x.lo
		if y.lo.cmp(r.lo) < 0 {
			r.lo = y.lo
		}
	}
	if x.hasHi && y.hasHi {
		r.hasHi, r.hi = true, x.hi
		if y.hi.cmp(r.hi) > 0 {
			r.hi = y.hi
		}
	}
	return r
}

// narrow takes back what widening gave up: every state at a stable head is
// covered by a state entering the loop or a state at a back edge.
func (fr *frame) narrow(hs []*headState, level int, starts []*State, cover map[*headState][]map[Sym]Bound) bool {
	for _, s := range starts {
		k := s.signature(level, nil, fr.keep)
		found := false
		for _, h := range hs {
			if h.sig == k {
				if len(h.phis) > 0 {
					fr.in.joinStates(h.st, s, nil, nil, h.phis, fr.widenInfo())
					cover[h] = append(cover[h], pairBounds(s, fr.in.lastPairs))
				}
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	any := false
	for _, h := range hs {
		for s := range h.phis {
			old, ok := h.st.P.bnd[s]
			if !ok {
				continue
			}
			var all Bound
			ok = len(cover[h]) > 0
			for i, m := range cover[h] {
				b, has := m[s]
				if !has {
					ok = false
					break
				}
				if i == 0 {
					all = b
				} else {
					all = hull(all, b)
				}
			}
			if !ok {
				continue
			}
			if all.hasHi && (!old.hasHi || all.hi.cmp(old.hi) < 0) {
				h.st.P.addGE(Lin{C: all.hi, T: []Term{{s, -1}}})
				any = true
			}
			if all.hasLo && (!old.hasLo || all.lo.cmp(old.lo) > 0) {
				h.st.P.addGE(Lin{C: all.lo.neg(), T: []Term{{s, 1}}})
				any = true
			}
		}
	}
	return any
}

// leaving runs the head for the states that certainly leave the loop there.
func (fr *frame) leaving(e *wtoElem, sts []*State, out pend) []*State {
	if _, ok := e.b.Instrs[len(e.b.Instrs)-1].(*ssa.If); !ok {
		return sts
	}
	var rest []*State
	for _, s := range sts {
		scratch := pend{}
		so := fr.outs
		sr := fr.rec
		fr.rec = newRecorder()
		fr.runBlock(e.b, []*State{s.clone()}, scratch)
		fr.outs = so
		nr := fr.rec
		fr.rec = sr
		stays := false
		for b, l := range scratch {
			if len(l) > 0 && e.blocks[b] {
				stays = true
			}
		}
		if stays {
			rest = append(rest, s)
			continue
		}
		fr.rec.merge(nr)
		for b, l := range scratch {
			out[b] = append(out[b], l...)
		}
	}
	return rest
}

func (fr *frame) regroup(hs []*headState, b *State, level int) []*headState {
	by := map[string]*headState{}
	var out []*headState
	add := func(s *State, src *headState) {
		k := s.signature(level, nil, fr.keep)
		if h, ok := by[k]; ok {
			h.st, _ = fr.in.joinStates(h.st, s, nil, nil, nil, fr.widenInfo())
			return
		}
		h := &headState{st: s, phis: map[Sym]bool{}, practical: map[Sym]Bound{}, sig: k}
		if src != nil {
			h.phis, h.practical = src.phis, src.practical
		}
		by[k] = h
		out = append(out, h)
	}
	for _, h := range hs {
		add(h.st, h)
	}
	add(b, nil)
	return out
}

// renameSyms gives fresh names to the symbols in ren.
func (fr *frame) renameSyms(st *State, ren map[Sym]Sym) {
	if len(ren) == 0 {
		return
	}
	f := func(s Sym) Sym {
		t, ok := ren[s]
		if !ok {
			return s
		}
		if t == 0 {
			t = fr.in.sym()
			ren[s] = t
		}
		return t
	}
	m := mapper{lin: func(l Lin) Lin { return l.rename(f) },
		obj: func(i int) int { return i }, root: func(i int) int { return i }, alt: func(i int) int { return i }}
	for i, v := range st.env {
		if v != nil {
			st.env[i] = m.val(v)
		}
	}
	for _, id := range keysOf(st.heap) {
		o := st.heap[id]
		if o.Keep {
			continue
		}
		c := *o
		c.C = m.val(o.C)
		st.heap[id] = &c
	}
	for i, b := range st.bytes {
		st.bytes[i].At = m.lin(b.At)
		st.bytes[i].V = m.lin(b.V)
	}
	st.P = st.P.rename(f)
}

// induct adds what the shape of the code says about the counters of a loop:
// a variable that starts at constants and is only ever increased stays at or
// above the least of them (counters do not overflow, see practicalBound).
func (fr *frame) induct(e *wtoElem, st *State) {
	for _, i := range e.b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		b, ok := ph.Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Int && b.Kind() != types.Int64 {
			continue
		}
		lo, n, good := int64(0), 0, true
		seen := map[ssa.Value]bool{ph: true}
		var incr func(v ssa.Value) bool
		incr = func(v ssa.Value) bool {
			if seen[v] {
				return true
			}
			switch x := v.(type) {
			case *ssa.BinOp:
				if x.Op == token.ADD {
					if c, ok := constInt(x.Y); ok && c >= 0 && c < 1<<32 {
						return incr(x.X)
					}
					if c, ok := constInt(x.X); ok && c >= 0 && c < 1<<32 {
						return incr(x.Y)
					}
				}
			case *ssa.Phi:
				if !e.blocks[x.Block()] {
					return false
				}
				seen[x] = true
				for _, y := range x.Edges {
					if !incr(y) {
						return false
					}
				}
				return true
			}
			return false
		}
		for k, p := range e.b.Preds {
			v := ph.Edges[k]
			if e.blocks[p] {
				good = good && incr(v)
				continue
			}
			c, ok := constInt(v)
			good = good && ok
			if n == 0 || c < lo {
				lo = c
			}
			n++
		}
		if !good || n == 0 {
			continue
		}
		k, ok := fr.info.idx[ph]
		if !ok || k >= len(st.env) {
			continue
		}
		if x, ok := st.env[k].(VInt); ok {
			if d, ok := x.L.sub(LC(lo)); ok {
				st.P.addGE(d)
			}
		}
	}
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// absorb joins b into h; it reports whether h changed.
func (fr *frame) absorb(e *wtoElem, h *headState, b *State, iter int) bool {
	in := fr.in
	w := fr.widenInfo()
	w.on = iter >= 3
	w.practical = h.practical
	// practical bounds: a position that moves by a bounded step
	j, _ := in.joinStates(h.st, b, nil, nil, h.phis, w)
	if iter > 25 {
		// give up relational information
		j.P.rows = nil
	}
	phis := in.lastPhis
	for k, t := range fr.info.slotTypes() {
		if t != nil && k < len(j.env) && j.env[k] != nil {
			j.typed(j.env[k], t)
		}
	}
	fr.induct(e, j)
	j.normAll()
	j.collect(fr.keep)
	// stable?
	same := fr.sameValues(h.st, j)
	if same {
		for _, c := range constraintsOf(h.st.P) {
			if !j.P.entails(c) {
				same = false
				if in.Debug {
					fmt.Printf("   %s: lost %v\n", fr.info.fn.Name(), c)
				}
				break
			}
		}
	}
	if same {
		return false
	}
	// new head symbols
	h.st = j
	h.phis = map[Sym]bool{}
	for s := range phis {
		h.phis[s] = true
	}
	return true
}

func constraintsOf(p *Poly) []Lin {
	var out []Lin
	out = append(out, p.rows...)
	for _, s := range keysOf(p.bnd) {
		b := p.bnd[s]
		if b.hasLo {
			out = append(out, Lin{C: b.lo.neg(), T: []Term{{s, 1}}})
		}
		if b.hasHi {
			out = append(out, Lin{C: b.hi, T: []Term{{s, -1}}})
		}
	}
	for _, s := range keysOf(p.sub) {
		e := p.sub[s]
		d, ok := LS(s).sub(e)
		if ok {
			out = append(out, d, d.neg())
		}
	}
	return out
}

// sameValues compares the structure of two states over the same names.
func (fr *frame) sameValues(a, b *State) bool {
	na := mapper{lin: func(l Lin) Lin { return b.P.norm(a.P.norm(l)) }, obj: func(i int) int { return i }, root: func(i int) int { return 0 }, alt: func(i int) int { return 0 }}
	for i := range a.env {
		x, y := a.env[i], b.env[i]
		if (x == nil) != (y == nil) {
			return false
		}
		if x != nil && valStr(na.val(x)) != valStr(na.val(y)) {
			if a.in.Debug {
				fmt.Printf("   differ %s slot %d: %s / %s\n", a.in.stack[len(a.in.stack)-1].info.fn.Name(), i, valStr(na.val(x)), valStr(na.val(y)))
			}
			return false
		}
	}
	if len(a.heap) != len(b.heap) {
		return false
	}
	for id, o := range a.heap {
		p, ok := b.heap[id]
		if !ok {
			return false
		}
		if o.Keep {
			continue
		}
		if valStr(na.val(o.C)) != valStr(na.val(p.C)) {
			return false
		}
	}
	return true
}

func (f *fnInfo) slotTypes() []types.Type {
	if f.types == nil {
		f.types = make([]types.Type, f.n)
		for v, k := range f.idx {
			if k < f.n {
				f.types[k] = v.Type()
			}
		}
	}
	return f.types
}
