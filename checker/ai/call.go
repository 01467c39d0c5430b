package ai

import (
	"time"

	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// IsHarness says that fn belongs to the overlay.
func (in *Interp) IsHarness(fn *ssa.Function) bool { return in.isHarness(fn) }

func (in *Interp) isHarness(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := in.Fset.Position(fn.Pos())
	return strings.Contains(p.Filename, "zz_verif")
}

// overlayModel returns the Go model of an external function.
func (in *Interp) overlayModel(f *ssa.Function) *ssa.Function {
	if f == nil || f.Pkg == in.Pkg {
		return nil
	}
	return in.Pkg.Func(modelName(f))
}

func modelName(f *ssa.Function) string {
	if f.Pkg == nil || f.Pkg.Pkg == nil {
		return ""
	}
	p := f.Pkg.Pkg.Path()
	p = p[strings.LastIndex(p, "/")+1:]
	n := "vm_" + p + "_"
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			n += nt.Obj().Name() + "_"
		}
	}
	return n + f.Name()
}

func extName(f *ssa.Function) string {
	if f.Pkg == nil {
		return f.String()
	}
	p := f.Pkg.Pkg.Path()
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
			star = "*"
		}
		if nt, ok := types.Unalias(t).(*types.Named); ok {
			return "(" + star + p + "." + nt.Obj().Name() + ")." + f.Name()
		}
	}
	return p + "." + f.Name()
}

func (fr *frame) call(st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, k func(*State, Val)) []*State {
	args := make([]Val, len(cc.Args))
	for i, a := range cc.Args {
		args[i] = fr.get(st, a)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, ins, b.Name(), cc, args, k)
	}
	return fr.callVal(st, ins, cc, fr.calleeVal(st, cc), args, k)
}

func (fr *frame) calleeVal(st *State, cc *ssa.CallCommon) Val { return fr.get(st, cc.Value) }

// callVal calls cc with an already evaluated function value or receiver.
func (fr *frame) callVal(st *State, ins ssa.CallInstruction, cc *ssa.CallCommon, fv Val, args []Val, k func(*State, Val)) []*State {
	in := fr.in
	rt := cc.Signature().Results()
	if cc.IsInvoke() {
		return fr.cases(st, fv, func(s *State, v Val) []*State {
			switch r := v.(type) {
			case VNil:
				fr.check("nil", ins, false, s, func() string { return "method " + cc.Method.Name() + " called on a nil interface" })
				return nil
			case VIface:
				fr.check("nil", ins, true, s, nil)
				if m := in.method(r.T, cc.Method); m != nil {
					return fr.callFn(s, ins, m, append([]Val{r.V}, args...), nil, k)
				}
			}
			return fr.havocCall(s, ins, "dynamic "+cc.Method.FullName(), rt, nil, k)
		})
	}
	return fr.cases(st, fv, func(s *State, v Val) []*State {
		switch f := v.(type) {
		case VFunc:
			if cc.StaticCallee() == nil {
				fr.check("nil", ins, true, s, nil)
			}
			return fr.callFn(s, ins, f.Fn, args, f.Bind, k)
		case VNil:
			fr.check("nil", ins, false, s, func() string { return "call of a nil function" })
			return nil
		}
		return fr.havocCall(s, ins, "dynamic function", rt, args, k)
	})
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	if typeKey(t) == "*sentinelError" {
		return nil
	}
	sel := in.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return in.Prog.MethodValue(sel)
}

func (fr *frame) callFn(st *State, ins ssa.CallInstruction, fn *ssa.Function, args, bind []Val, k func(*State, Val)) []*State {
	in := fr.in
	if in.isIntrinsic(fn) {
		return fr.intrinsic(st, ins, fn, args, k)
	}
	// a promoted or wrapped external method
	fr.checkAllocCall(st, ins, args)
	if !in.analysable(fn) {
		name := extName(fn)
		if m, ok := natives[name]; ok {
			return m(fr, st, ins, args, k)
		}
		if m := in.overlayModel(fn); m != nil {
			return fr.inline(st, ins, m, args, nil, k)
		}
		return fr.havocCall(st, ins, name, fn.Signature.Results(), args, k)
	}
	if fn.Pkg == nil && fn.Synthetic != "" && fn.Blocks == nil {
		return fr.havocCall(st, ins, fn.String(), fn.Signature.Results(), args, k)
	}
	if h := in.After[fn]; h != nil {
		res := map[*State]Val{}
		sts := fr.inline(st, ins, fn, args, bind, func(s *State, v Val) { res[s] = v; k(s, v) })
		var out []*State
		for _, s := range sts {
			v := res[s]
			vs := []Val{v}
			if t, ok := v.(VTuple); ok {
				vs = t.V
			}
			out = append(out, fr.inline(s, nil, h, vs, nil, func(*State, Val) {})...)
		}
		return out
	}
	return fr.inline(st, ins, fn, args, bind, k)
}

// pureRoots are packages whose functions do not write through their arguments.
var pureRoots = map[string]bool{"strings": true, "strconv": true, "errors": true, "unicode": true, "time": true,
	"fmt": true, "math": true, "utf8": true, "path": true, "filepath": true, "mail": true, "bits": true, "regexp": true, "unsafe": true}

// havocCall returns arbitrary results.
func (fr *frame) havocCall(st *State, ins ssa.CallInstruction, name string, rt *types.Tuple, args []Val, k func(*State, Val)) []*State {
	in := fr.in
	if in.Unmodelled == nil {
		in.Unmodelled = map[string]int{}
	}
	in.Unmodelled[name]++
	pkg := name
	if i := strings.LastIndex(pkg, "/"); i >= 0 {
		pkg = pkg[i+1:]
	}
	pkg = strings.TrimLeft(pkg, "(*")
	if i := strings.IndexByte(pkg, '.'); i >= 0 {
		pkg = pkg[:i]
	}
	if !pureRoots[pkg] || strings.Contains(name, "Scan") {
		for _, a := range args {
			if i, ok := a.(VIface); ok {
				a = i.V
			}
			switch s := a.(type) {
			case VSlice:
				fr.havocSlice(st, ins, s)
				if strings.Contains(name, "Scan") {
					fr.havocElems(st, ins, s)
				}
			case VPtr:
				fr.havocPtr(st, ins, s)
			}
		}
	}
	sts := []*State{st}
	for _, a := range args {
		if f, ok := a.(VFunc); ok {
			var next []*State
			for _, s := range sts {
				var fa []Val
				for i := 0; i < f.Fn.Signature.Params().Len(); i++ {
					fa = append(fa, in.force(s, in.anyVal(s, f.Fn.Signature.Params().At(i).Type(), false), false))
				}
				next = append(next, s)
				next = append(next, fr.callFn(s.clone(), ins, f.Fn, fa, f.Bind, func(*State, Val) {})...)
			}
			sts = next
		}
	}
	var out []*State
	for _, s := range sts {
		out = append(out, fr.havocResults(s, rt, k)...)
	}
	return out
}

var errType = types.Universe.Lookup("error").Type()

func (fr *frame) havocResults(st *State, rt *types.Tuple, k func(*State, Val)) []*State {
	in := fr.in
	n := 0
	if rt != nil {
		n = rt.Len()
	}
	mk := func(s *State, t types.Type, nn bool) Val {
		if types.Identical(t, errType) {
			return VTop{}
		}
		v := in.anyVal(s, t, true)
		if nn {
			v = in.lazyVal(s, VLazy{T: t, NN: true}, true)
		}
		return in.force(s, v, true)
	}
	if n == 0 {
		k(st, VTuple{})
		return []*State{st}
	}
	last := rt.At(n - 1).Type()
	if types.Identical(last, errType) {
		// success or failure
		f := st.clone()
		build := func(s *State, ok bool) Val {
			vs := make([]Val, n)
			for i := 0; i < n-1; i++ {
				t := rt.At(i).Type()
				if _, isp := under(t).(*types.Pointer); isp && !ok {
					vs[i] = VNil{}
				} else {
					vs[i] = mk(s, t, ok)
				}
			}
			if ok {
				vs[n-1] = VNil{}
			} else {
				vs[n-1] = in.someErr()
			}
			if n == 1 {
				return vs[0]
			}
			return VTuple{vs}
		}
		v1, v2 := build(st, true), build(f, false)
		k(st, v1)
		k(f, v2)
		return []*State{st, f}
	}
	if n == 1 {
		k(st, mk(st, last, false))
		return []*State{st}
	}
	vs := make([]Val, n)
	for i := range vs {
		vs[i] = mk(st, rt.At(i).Type(), false)
	}
	k(st, VTuple{vs})
	return []*State{st}
}

// someErr is an error value unlike every other.
func (in *Interp) someErr() Val {
	id := in.fixedObj("some error", func() *Obj {
		return &Obj{T: sentinelType, C: VTop{}, Site: "error", Sum: true}
	})
	return VIface{sentinelPtr, VPtr{Obj: id}}
}

// ioErr is an unknown error that is not io.EOF.
func (in *Interp) ioErr() int {
	return in.fixedObj("io error", func() *Obj {
		return &Obj{T: sentinelType, C: VTop{}, Site: "I/O error", Sum: true}
	})
}

func (in *Interp) unknownErr(v Val) bool {
	if i, ok := v.(VIface); ok {
		v = i.V
	}
	p, ok := v.(VPtr)
	return ok && (p.Obj == in.fixedID["io error"] || p.Obj == in.fixedID["some error"])
}

func (fr *frame) havocSlice(st *State, ins ssa.Instruction, s VSlice) {
	o := st.obj(s.Obj)
	if o == nil {
		return
	}
	fr.noteStore(st, ins, VPtr{s.Obj, s.Path}, o)
	if st.heap[s.Obj] == nil || o.Sum {
		return
	}
	c := contentAt(o.C, s.Path)
	var elem types.Type
	switch t := under(o.T).(type) {
	case *types.Slice:
		elem = t.Elem()
	case *types.Array:
		elem = t.Elem()
	}
	sm, ok := fr.in.asSmashIn(st, c)
	if !ok || elem == nil {
		return
	}
	sm.T = elem
	if _, isArr := c.(VArr); isArr {
		sm.N = LC(int64(len(c.(VArr).E)))
	}
	if b, ok := under(elem).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		lo, hi, _ := intRange(elem)
		sm.El = VRange{Lo: lo, Hi: hi}
	} else {
		sm.El = VLazy{T: elem}
	}
	sm.Cen, sm.Seq, sm.Prov = nil, nil, nil
	n := *o
	n.C = replaceAt(o.C, s.Path, sm)
	st.heap[s.Obj] = &n
}

// havocPtr forgets what p points to.
func (fr *frame) havocPtr(st *State, ins ssa.Instruction, p VPtr) {
	o := st.obj(p.Obj)
	if o == nil {
		return
	}
	fr.noteStore(st, ins, p, o)
	if st.heap[p.Obj] == nil || o.Sum {
		return
	}
	t := o.T
	for _, e := range p.Path {
		switch u := under(t).(type) {
		case *types.Struct:
			if e.IsIdx || e.F >= u.NumFields() {
				return
			}
			t = u.Field(e.F).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return
		}
	}
	n := *o
	n.C = fr.wr(st, o.C, p.Path, fr.in.anyVal(st, t, false), o.T)
	st.heap[p.Obj] = &n
}

// havocElems forgets what the pointers in a small slice point to.
func (fr *frame) havocElems(st *State, ins ssa.Instruction, s VSlice) {
	o := st.obj(s.Obj)
	if o == nil {
		return
	}
	if a, ok := contentAt(o.C, s.Path).(VArr); ok {
		for _, e := range a.E {
			if i, ok := e.(VIface); ok {
				e = i.V
			}
			if p, ok := e.(VPtr); ok {
				fr.havocPtr(st, ins, p)
			}
		}
	}
}

func replaceAt(c Val, path []PE, v Val) Val {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	switch x := c.(type) {
	case VStruct:
		if !e.IsIdx && e.F < len(x.F) {
			f := append([]Val(nil), x.F...)
			f[e.F] = replaceAt(x.F[e.F], path[1:], v)
			return VStruct{f}
		}
	case VArr:
		if k, ok := e.Idx.constVal(); ok && k >= 0 && k < int64(len(x.E)) {
			f := append([]Val(nil), x.E...)
			f[k] = replaceAt(x.E[k], path[1:], v)
			return VArr{f}
		}
	}
	return c
}

// ---- inlining ----

func (fr *frame) inline(st *State, ins ssa.CallInstruction, fn *ssa.Function, args, bind []Val, k func(*State, Val)) []*State {
	in := fr.in
	info := in.info(fn)
	in.nCall++
	// a pointer argument that may be nil is decided at the call
	for i, a := range args {
		alt, ok := a.(VAlt)
		if !ok || alt.ID == 0 {
			continue
		}
		ptrs := true
		for _, x := range alt.Alts {
			switch x.(type) {
			case VNil, VPtr:
			default:
				ptrs = false
			}
		}
		if !ptrs {
			continue
		}
		return fr.cases(st, a, func(s *State, v Val) []*State {
			na := append([]Val(nil), args...)
			for j := range na {
				na[j] = chosen(na[j], alt.ID, v)
			}
			na[i] = v
			return fr.inline(s, ins, fn, na, bind, k)
		})
	}
	all := append(append([]Val(nil), args...), bind...)
	c := newCanon(st)
	for _, g := range info.globals {
		if _, ok := st.heap[g]; ok {
			c.addObj(g)
		}
	}
	entry, vals, key := c.state(all, nil)
	key = fn.String() + "|" + key
	me := in.memo[key]
	if me == nil {
		if in.TraceKey != "" && fn.Name() == in.TraceKey {
			fmt.Printf("KEY %s\n", key)
		}
		me = &memoEntry{busy: true}
		in.memo[key] = me
		t0, j0 := time.Now(), in.nJoin
		in.runFn(fn, info, entry, vals, me)
		if in.TraceKey == fn.Name() {
			for _, o := range me.outs {
				fmt.Printf("OUT %s %s :: %v | %s\n", fn.Name(), valStr(VTuple{o.vals}), o.st.bytes, o.st.P)
			}
		}
		fs := in.fstat(fn.Name())
		fs.n++
		fs.t += time.Since(t0)
		fs.j += in.nJoin - j0
		me.busy = false
		if in.Debug {
			fmt.Fprintf(os.Stderr, "%s%s: %d outcomes (steps %d)\n", strings.Repeat(" ", len(in.stack)), fn.Name(), len(me.outs), in.Steps)
		}
	} else {
		if me.busy {
			in.fail("recursive call of %s", fn)
		}
		in.nHit++
	}
	fr.rec.merge(me.rec)
	in.fstat(fn.Name()).calls++
	rev := newReverse(in, c)
	var out []*State
	for i := range me.outs {
		s, vs, ok := rev.apply(st, me.outs[i])
		if !ok {
			continue
		}
		switch len(vs) {
		case 0:
			k(s, VTuple{})
		case 1:
			k(s, vs[0])
		default:
			k(s, VTuple{vs})
		}
		out = append(out, s)
	}
	return out
}

// chosen resolves the alternative id of v if v is exactly it.
func chosen(v Val, id int, to Val) Val {
	if a, ok := v.(VAlt); ok && a.ID == id {
		return to
	}
	return v
}

func (in *Interp) runFn(fn *ssa.Function, info *fnInfo, entry *State, vals []Val, me *memoEntry) {
	if len(in.stack) > 60 {
		in.fail("call stack too deep")
	}
	in.Funcs[fn] = true
	fr := &frame{in: in, info: info, rec: newRecorder()}
	for id := range entry.heap {
		fr.keep = append(fr.keep, id)
	}
	sort.Ints(fr.keep)
	in.stack = append(in.stack, fr)
	st := entry.clone()
	st.env = make([]Val, info.n)
	for i := range vals {
		st.env[i] = vals[i]
	}
	if info.deferSlot > 0 {
		st.env[info.deferSlot] = VTuple{}
	}
	pd := pend{fn.Blocks[0]: {st}}
	fr.runElems(info.wto, pd)
	me.outs = fr.mergeOuts()
	me.rec = fr.rec
	in.stack = in.stack[:len(in.stack)-1]
}

func (fr *frame) mergeOuts() []outcome {
	outs := fr.outs
	for i := range outs {
		o := &outs[i]
		o.st.env = nil
		o.st.normAll()
		m := mapper{lin: o.st.P.norm, obj: func(i int) int { return i }, root: func(i int) int { return i }, alt: func(i int) int { return i }}
		vs := make([]Val, len(o.vals))
		for k, v := range o.vals {
			vs[k] = m.val(v)
		}
		o.vals = vs
		// keep the results alive while folding
		o.st.env = vs
		fr.foldDead(o.st)
		o.vals = o.st.env
		o.st.env = nil
		o.st.collect(fr.keep, o.vals...)
	}
	if fr.in.TraceKey != "" && strings.Contains(fr.info.fn.String(), fr.in.TraceKey) {
		for _, o := range outs {
			fmt.Println("RAW", valsStr(o.vals), o.st.P.String())
		}
	}
	if len(outs) <= fr.in.Cfg.Raw && numericResult(outs) {
		return outs
	}
	merge := func(level int, all bool) {
		by := map[string]int{}
		var res []outcome
		for i, o := range outs {
			key := strconv.Itoa(i)
			if all || failing(o) {
				key = o.st.signature(level, o.vals, fr.keep)
			}
			if i, ok := by[key]; ok {
				s, v := fr.in.joinStates(res[i].st, o.st, res[i].vals, o.vals, nil, fr.widenInfo())
				res[i] = outcome{s, v}
			} else {
				by[key] = len(res)
				res = append(res, o)
			}
		}
		outs = res
	}
	first := fr.in.firstLevel()
	if fr.in.Cfg.Wide {
		// what a failing call leaves behind matters less
		for level := first; level <= sigRets && len(outs) > fr.in.Cfg.Out; level++ {
			merge(level, false)
		}
		if len(outs) <= fr.in.Cfg.Out {
			return outs
		}
	}
	for level := first; level <= sigRets; level++ {
		merge(level, true)
		if len(outs) <= fr.in.Cfg.Out {
			break
		}
	}
	return outs
}

// failing reports whether an outcome has an error that is not nil.
func failing(o outcome) bool {
	if len(o.vals) == 0 {
		return false
	}
	_, ok := o.vals[len(o.vals)-1].(VIface)
	return ok
}

// numericResult reports whether some outcome has a number that is not known.
func numericResult(outs []outcome) bool {
	for _, o := range outs {
		for _, v := range o.vals {
			if x, ok := v.(VInt); ok && !x.B && len(x.L.T) > 0 {
				return true
			}
		}
	}
	return false
}

// reverse maps canonical names back to the caller's.
type reverse struct {
	in   *Interp
	c    *canon
	sym  map[Sym]Sym
	obj  map[int]int
	root map[int]int
	alt  map[int]int
}

func newReverse(in *Interp, c *canon) *reverse {
	r := &reverse{in: in, c: c, sym: map[Sym]Sym{}, obj: map[int]int{}, root: map[int]int{}, alt: map[int]int{}}
	for a, b := range c.sym {
		r.sym[b] = a
	}
	for a, b := range c.obj {
		r.obj[b] = a
	}
	for a, b := range c.root {
		r.root[b] = a
	}
	for a, b := range c.alt {
		r.alt[b] = a
	}
	return r
}

func (r *reverse) apply(caller *State, o outcome) (*State, []Val, bool) {
	in := r.in
	n := caller.clone()
	for _, id := range keysOf(o.st.picked) {
		pick := o.st.picked[id]
		if a, ok := r.alt[id]; ok {
			n.choose(a, pick)
		}
	}
	sym := map[Sym]Sym{}
	obj := map[int]int{}
	root := map[int]int{}
	alt := map[int]int{}
	ms := func(s Sym) Sym {
		if s < 0 {
			if x, ok := r.sym[s]; ok {
				return x
			}
			panic("reverse: unknown symbol")
		}
		x, ok := sym[s]
		if !ok {
			x = in.sym()
			sym[s] = x
		}
		return x
	}
	memo := func(m, rev map[int]int, id int) int {
		if id < 0 {
			if x, ok := rev[id]; ok {
				return x
			}
		}
		x, ok := m[id]
		if !ok {
			x = in.id()
			m[id] = x
		}
		return x
	}
	m := mapper{
		lin: func(l Lin) Lin { return l.rename(ms) },
		obj: func(id int) int {
			if id > 0 && id < firstID {
				return id
			}
			return memo(obj, r.obj, id)
		},
		root: func(id int) int {
			return memo(root, r.root, id)
		},
		alt: func(id int) int { return memo(alt, r.alt, id) },
	}
	vals := m.list(o.vals)
	for _, id := range keysOf(o.st.heap) {
		ob := o.st.heap[id]
		a := m.obj(id)
		if ob.Keep {
			n.heap[a] = ob
			continue
		}
		x := *ob
		x.C = m.val(ob.C)
		n.heap[a] = &x
	}
	// constraints
	var ss []Sym
	for s := range o.st.P.bnd {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, s := range ss {
		b := o.st.P.bnd[s]
		t := ms(s)
		if s > 0 {
			n.P.bnd[t] = b
			continue
		}
		iv := n.P.interval(n.P.norm(LS(t)))
		if b.hasLo && (!iv.hasLo || iv.lo.cmp(b.lo) < 0) {
			l := LS(t)
			l.C = b.lo.neg()
			if !n.P.addGE(l) {
				return nil, nil, false
			}
		}
		if b.hasHi && (!iv.hasHi || iv.hi.cmp(b.hi) > 0) {
			l := LS(t).neg()
			l.C = b.hi
			if !n.P.addGE(l) {
				return nil, nil, false
			}
		}
	}
	ss = ss[:0]
	for s := range o.st.P.sub {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, s := range ss {
		e := o.st.P.sub[s].rename(ms)
		t := ms(s)
		if s > 0 {
			if _, ok := n.P.bnd[t]; !ok {
				n.P.bnd[t] = Bound{}
			}
		}
		d, ok := LS(t).sub(e)
		if !ok {
			continue
		}
		if !n.P.addEQ(d) {
			return nil, nil, false
		}
	}
	for _, row := range o.st.P.rows {
		l := n.P.norm(row.rename(ms))
		if iv := n.P.interval(l); iv.hasLo && iv.lo.sign() >= 0 {
			continue
		}
		if !n.P.addGE(l) {
			return nil, nil, false
		}
	}
	for _, id := range keysOf(o.st.facts) {
		f := o.st.facts[id]
		a := m.root(id)
		if g, ok := n.facts[a]; !ok || len(g.Pre) < len(f.Pre) {
			n.facts[a] = f
		}
	}
	for _, b := range o.st.bytes {
		nb := ByteFact{m.root(b.Root), m.lin(b.At), m.lin(b.V)}
		dup := false
		for _, x := range n.bytes {
			if x.Root == nb.Root && x.At.equal(nb.At) && x.V.equal(nb.V) {
				dup = true
				break
			}
		}
		if !dup {
			n.bytes = append(n.bytes, nb)
		}
	}
	if len(n.bytes) > 24 {
		n.bytes = n.bytes[len(n.bytes)-24:]
	}
	return n, vals, true
}

// ---- builtins ----

func (fr *frame) lenOf(st *State, v Val, t types.Type) Lin {
	switch x := v.(type) {
	case VStr:
		return x.Len
	case VSlice:
		return x.Len
	case VNil:
		if p, ok := under(t).(*types.Pointer); ok {
			if a, ok := under(p.Elem()).(*types.Array); ok {
				return LC(a.Len())
			}
		}
		return LC(0)
	case VArr:
		return LC(int64(len(x.E)))
	case VSmash:
		return x.N
	case VPtr:
		if p, ok := under(t).(*types.Pointer); ok {
			if a, ok := under(p.Elem()).(*types.Array); ok {
				return LC(a.Len())
			}
		}
		if mv, _ := fr.mapObj(st, v); mv != nil && mv.Closed {
			return LC(int64(len(mv.Consts)))
		}
	}
	return st.fresh(I(0), maxLen)
}

func (fr *frame) builtin(st *State, ins ssa.CallInstruction, name string, cc *ssa.CallCommon, args []Val, k func(*State, Val)) []*State {
	in := fr.in
	one := func(v Val) []*State {
		k(st, v)
		return []*State{st}
	}
	switch name {
	case "len", "cap":
		return fr.cases(st, args[0], func(s *State, v Val) []*State {
			if sl, ok := v.(VSlice); ok && name == "cap" {
				k(s, VInt{L: sl.Cap})
			} else {
				k(s, VInt{L: fr.lenOf(s, v, cc.Args[0].Type())})
			}
			return []*State{s}
		})
	case "append":
		if len(args) == 1 {
			return one(args[0])
		}
		return fr.appendVals(st, ins, args[0], args[1], cc.Args[0].Type(), k)
	case "copy":
		return fr.cases(st, args[0], func(s *State, d Val) []*State {
			return fr.cases(s, args[1], func(s *State, src Val) []*State {
				return fr.copySlice(s, ins, d, src, cc, k)
			})
		})
	case "min", "max":
		acc, ok := asInt(args[0])
		if !ok {
			return one(in.anyVal(st, cc.Args[0].Type(), false))
		}
		sts := []*State{st}
		cur := map[*State]Lin{st: acc}
		for _, a := range args[1:] {
			l, ok := asInt(a)
			if !ok {
				return one(in.anyVal(st, cc.Args[0].Type(), false))
			}
			var next []*State
			nc := map[*State]Lin{}
			for _, s := range sts {
				f := s.clone()
				c := cur[s]
				op := token.LEQ
				if name == "max" {
					op = token.GEQ
				}
				for _, x := range fr.assumeCmp(s, op, c, l) {
					next = append(next, x)
					nc[x] = c
				}
				for _, x := range fr.assumeCmp(f, negOp(op), c, l) {
					next = append(next, x)
					nc[x] = l
				}
			}
			sts, cur = next, nc
		}
		for _, s := range sts {
			k(s, VInt{L: cur[s]})
		}
		return sts
	case "ssa:wrapnilchk":
		return fr.cases(st, args[0], func(s *State, v Val) []*State {
			fr.nilCheck(s, ins, v)
			if isNil(v) {
				return nil
			}
			k(s, v)
			return []*State{s}
		})
	case "recover":
		return one(VNil{})
	case "print", "println", "close":
		return one(VTuple{})
	case "delete", "clear":
		if s, ok := args[0].(VSlice); ok {
			fr.havocSlice(st, ins, s)
		} else if mv, id := fr.mapObj(st, args[0]); mv != nil && st.heap[id] != nil {
			n := *st.heap[id]
			n.C = VMap{K: mv.K, V: mv.V}
			fr.noteStore(st, ins, VPtr{Obj: id}, &n)
			st.heap[id] = &n
		}
		return one(VTuple{})
	}
	var t types.Type = types.Typ[types.Int]
	if v := ins.Value(); v != nil {
		t = v.Type()
	}
	return one(in.anyVal(st, t, false))
}

func (fr *frame) copySlice(st *State, ins ssa.CallInstruction, d, src Val, cc *ssa.CallCommon, k func(*State, Val)) []*State {
	in := fr.in
	if isNil(d) || isNil(src) {
		k(st, cint(0))
		return []*State{st}
	}
	ds, ok := d.(VSlice)
	if !ok {
		k(st, VInt{L: st.fresh(I(0), maxLen)})
		return []*State{st}
	}
	sn := fr.lenOf(st, src, cc.Args[1].Type())
	var out []*State
	do := func(s *State, n Lin) {
		if s.P.entails(n.neg()) {
			k(s, VInt{L: n})
			out = append(out, s)
			return
		}
		o := s.obj(ds.Obj)
		if o != nil {
			fr.noteStore(s, ins, VPtr{ds.Obj, ds.Path}, o)
		}
		if o != nil && s.heap[ds.Obj] != nil && !o.Sum {
			if nc, ok := copyArr(s, o, ds, src, n); ok {
				nn := *o
				nn.C = replaceAt(o.C, ds.Path, nc)
				s.heap[ds.Obj] = &nn
				k(s, VInt{L: n})
				out = append(out, s)
				return
			}
			var el Val = VRange{Lo: I(0), Hi: I(255)}
			var from *VSmash
			if ss, ok := src.(VSlice); ok {
				so := s.obj(ss.Obj)
				c := contentAt(so.C, ss.Path)
				if sm, ok := in.asSmashIn(s, c); ok {
					el = sm.El
					if _, is := c.(VSmash); is {
						e, _ := ss.Len.sub(sm.N)
						if ss.Off.isConst() && ss.Off.C.sign() == 0 && s.P.entailsEQ(e) {
							from = &sm
						}
					}
				} else {
					el = VTop{}
				}
			}
			c := contentAt(o.C, ds.Path)
			if dm, ok := in.asSmashIn(s, c); ok {
				if dm.T == nil {
					switch t := under(o.T).(type) {
					case *types.Slice:
						dm.T = t.Elem()
					case *types.Array:
						dm.T = t.Elem()
					}
				}
				full := false
				e, _ := n.sub(dm.N)
				if ds.Off.isConst() && ds.Off.C.sign() == 0 && s.P.entailsEQ(e) {
					full = true
				}
				if full && from != nil {
					dm.El, dm.Cen, dm.Seq, dm.Prov, dm.ProvN = from.El, from.Cen, from.Seq, from.Prov, from.ProvN
				} else {
					dm.El = tmplJoin(dm.El, el)
					old := dm.Prov
					dm.Cen, dm.Seq, dm.Prov = nil, nil, nil
					if psrc, is := src.(VSlice); is {
						if first, pn, ok := s.lineProv(psrc, contentAt(s.obj(psrc.Obj).C, psrc.Path)); ok {
							if d, _ := pn.sub(n); s.P.entails(d) {
								dm.Prov = old
								if e, _ := ds.Off.sub(dm.ProvN); old != nil && !s.P.entailsEQ(e) {
									dm.Prov = nil
								}
								dm = s.extendProv(dm, ds.Off, first, n)
							}
						}
					}
				}
				nn := *o
				nn.C = replaceAt(o.C, ds.Path, dm)
				s.heap[ds.Obj] = &nn
			}
		}
		k(s, VInt{L: n})
		out = append(out, s)
	}
	f := st.clone()
	dif, _ := sn.sub(ds.Len)
	if st.P.addGE(dif) {
		do(st, ds.Len)
	}
	if f.P.addGE(dif.neg().addC(-1)) {
		do(f, sn)
	}
	return out
}

// copyArr copies n elements one by one between arrays whose elements are
// followed separately.
func copyArr(s *State, o *Obj, ds VSlice, src Val, n Lin) (Val, bool) {
	ss, ok := src.(VSlice)
	if !ok || !n.isConst() || !ds.Off.isConst() || !ss.Off.isConst() {
		return nil, false
	}
	so := s.heap[ss.Obj]
	if so == nil || so.Sum {
		return nil, false
	}
	dc, ok1 := contentAt(o.C, ds.Path).(VArr)
	sc, ok2 := contentAt(so.C, ss.Path).(VArr)
	if !ok1 || !ok2 {
		return nil, false
	}
	num, do, sf := int(n.C.i64()), int(ds.Off.C.i64()), int(ss.Off.C.i64())
	if num < 0 || do < 0 || sf < 0 || do+num > len(dc.E) || sf+num > len(sc.E) {
		return nil, false
	}
	moved := append([]Val(nil), sc.E[sf:sf+num]...)
	e := append([]Val(nil), dc.E...)
	copy(e[do:], moved)
	return VArr{E: e}, true
}

// ---- defers ----

func (fr *frame) deferCall(st *State, x *ssa.Defer) []*State {
	cc := x.Common()
	vs := []Val{cint(int64(fr.deferIndex(x)))}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		vs = append(vs, VNil{})
	} else {
		vs = append(vs, fr.get(st, cc.Value))
	}
	for _, a := range cc.Args {
		vs = append(vs, fr.get(st, a))
	}
	l, _ := st.env[fr.info.deferSlot].(VTuple)
	st.env[fr.info.deferSlot] = VTuple{append(append([]Val(nil), l.V...), VTuple{vs})}
	if len(l.V) > 8 {
		fr.in.fail("too many deferred calls")
	}
	return []*State{st}
}

func (fr *frame) deferIndex(x *ssa.Defer) int {
	for i, d := range fr.info.defers {
		if d == x {
			return i
		}
	}
	return 0
}

func (fr *frame) runDefers(st *State, x *ssa.RunDefers) []*State {
	sts := []*State{st}
	var done []*State
	for len(sts) > 0 {
		s := sts[0]
		sts = sts[1:]
		l, _ := s.env[fr.info.deferSlot].(VTuple)
		if len(l.V) == 0 {
			done = append(done, s)
			continue
		}
		d := l.V[len(l.V)-1].(VTuple)
		s.env[fr.info.deferSlot] = VTuple{l.V[:len(l.V)-1]}
		i, _ := d.V[0].(VInt)
		c, _ := i.L.constVal()
		di := fr.info.defers[c]
		cc := di.Common()
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			sts = append(sts, fr.builtin(s, di, b.Name(), cc, d.V[2:], func(*State, Val) {})...)
			continue
		}
		sts = append(sts, fr.callVal(s, di, cc, d.V[1], d.V[2:], func(*State, Val) {})...)
	}
	return done
}

// ---- folding ----

// foldDead replaces objects that only summarised elements refer to by the
// object standing for all values of their type.
func (fr *frame) foldDead(st *State) {
	in := fr.in
	type site struct{ id int }
	ref := map[int]bool{}  // referenced precisely
	elem := map[int]bool{} // referenced from summaries
	note := func(m map[int]bool) *mapper {
		return &mapper{lin: func(l Lin) Lin { return l },
			obj:  func(i int) int { m[i] = true; return i },
			root: func(i int) int { return i }, alt: func(i int) int { return i }}
	}
	pr, pe := note(ref), note(elem)
	any := false
	hooked := func(id int) bool {
		o := st.heap[id]
		return o != nil && !o.Sum && !o.Ext && in.foldHook(o.T) != nil
	}
	var walk func(v Val)
	walk = func(v Val) {
		switch x := v.(type) {
		case VSmash:
			pe.val(x.El)
		case VStruct:
			for _, f := range x.F {
				walk(f)
			}
		case VArr:
			for _, f := range x.E {
				if p, ok := f.(VPtr); ok && len(p.Path) == 0 && hooked(p.Obj) {
					elem[p.Obj], any = true, true
					continue
				}
				walk(f)
			}
		case VMap:
			pe.val(x.K)
			pe.val(x.V)
			for _, f := range x.Consts {
				pe.val(f)
			}
		case nil:
		default:
			pr.val(x)
		}
	}
	for _, v := range st.env {
		if v != nil {
			pr.val(v)
		}
	}
	for _, o := range st.heap {
		if o.Keep {
			continue
		}
		if _, ok := o.C.(VSmash); ok {
			any = true
		}
		walk(o.C)
	}
	if !any || len(elem) == 0 {
		return
	}
	for _, id := range fr.keep {
		ref[id] = true
	}
	fold := map[int]int{}
	var ids []int
	for id := range elem {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := st.heap[id]
		if ref[id] || o == nil || id > 0 && id < firstID || o.Ext || o.Sum {
			continue
		}
		if hook := in.foldHook(o.T); hook != nil {
			s := st.clone()
			args := []Val{VPtr{Obj: id}}
			if len(hook.Params) > 1 {
				args = append(args, s.owner(id, hook.Params[1].Type()))
			}
			fr.inline(s, nil, hook, args, nil, func(*State, Val) {})
		}
		fold[id] = in.anyObj(o.T)
	}
	if len(fold) == 0 {
		return
	}
	m := mapper{lin: func(l Lin) Lin { return l },
		obj: func(i int) int {
			if j, ok := fold[i]; ok {
				return j
			}
			return i
		},
		root: func(i int) int { return i }, alt: func(i int) int { return i }}
	var redo func(v Val) Val
	redo = func(v Val) Val {
		switch x := v.(type) {
		case VSmash:
			x.El = dedupe(m.val(x.El))
			return x
		case VStruct:
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = redo(x.F[i])
			}
			return VStruct{f}
		case VArr:
			f := make([]Val, len(x.E))
			for i := range f {
				if p, ok := x.E[i].(VPtr); ok && fold[p.Obj] != 0 {
					f[i] = m.val(p)
					continue
				}
				f[i] = redo(x.E[i])
			}
			return VArr{f}
		case VMap:
			return m.val(x)
		}
		return v
	}
	for id, o := range st.heap {
		if o.Keep {
			continue
		}
		n := *o
		n.C = redo(o.C)
		st.heap[id] = &n
	}
	for id := range fold {
		delete(st.heap, id)
	}
}

// owner points to the only object of the type that pt points to with a slice
// that holds a pointer to the object id, if there is one.
func (st *State) owner(id int, pt types.Type) Val {
	var r Val = VNil{}
	p, ok := under(pt).(*types.Pointer)
	if !ok {
		return r
	}
	for _, k := range keysOf(st.heap) {
		o := st.heap[k]
		sv, is := o.C.(VStruct)
		if !is || o.Keep || o.Sum || o.T == nil || !types.Identical(o.T, p.Elem()) {
			continue
		}
		for _, f := range sv.F {
			sl, is := f.(VSlice)
			if !is || st.heap[sl.Obj] == nil {
				continue
			}
			c := contentAt(st.heap[sl.Obj].C, sl.Path)
			if sm, is := c.(VSmash); is {
				c = sm.El
			}
			found := false
			m := mapper{lin: func(l Lin) Lin { return l },
				obj:  func(i int) int { found = found || i == id; return i },
				root: func(i int) int { return i }, alt: func(i int) int { return i }}
			if c != nil {
				m.val(c)
			}
			if found {
				if !isNil(r) {
					return VNil{}
				}
				r = VPtr{Obj: k}
				break
			}
		}
	}
	return r
}

func dedupe(v Val) Val {
	a, ok := v.(VAlt)
	if !ok || a.ID != 0 {
		return v
	}
	var r Val = VBot{}
	for _, x := range a.Alts {
		r = tmplJoin(r, x)
	}
	return r
}

// foldHook is the overlay function vfold_<Type>, if the harness enables it.
func (in *Interp) foldHook(t types.Type) *ssa.Function {
	if !in.Watch {
		return nil
	}
	return in.overlayFn("vfold_", t)
}

func (in *Interp) overlayFn(prefix string, t types.Type) *ssa.Function {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != in.PkgPath {
		return nil
	}
	return in.Pkg.Func(prefix + n.Obj().Name())
}

type fstat struct {
	n, calls, j int
	t           time.Duration
}

func (in *Interp) fstat(n string) *fstat {
	f := in.fstats[n]
	if f == nil {
		f = &fstat{}
		in.fstats[n] = f
	}
	return f
}

// DumpStats prints per-function counts.
func (in *Interp) DumpStats() {
	var ns []string
	for n := range in.fstats {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return in.fstats[ns[i]].t > in.fstats[ns[j]].t })
	for i, n := range ns {
		if i < 40 {
			f := in.fstats[n]
			fmt.Printf("%-30s inst %5d calls %6d joins %7d time %v\n", n, f.n, f.calls, f.j, f.t)
		}
	}
}

func (in *Interp) firstLevel() int {
	if in.Cfg.Const {
		return sigConst
	}
	return sigStrict
}
