package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) get(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.in.constVal(x)
	case *ssa.Global:
		id := fr.in.global(x)
		if _, ok := st.heap[id]; !ok {
			if o, ok := fr.in.base[id]; ok {
				st.heap[id] = o
			} else {
				t := x.Type().(*types.Pointer).Elem()
				o := &Obj{T: t, Site: "global " + x.Name()}
				if x.Pkg == fr.in.Pkg {
					o.C = fr.in.zero(t)
				} else {
					o.C = fr.in.extGlobal(x, t)
				}
				st.heap[id] = o
			}
		}
		return VPtr{Obj: id}
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Builtin:
		return VTop{}
	}
	i, ok := fr.info.idx[v]
	if !ok {
		fr.in.fail("no slot for %v", v)
	}
	r := st.env[i]
	if r == nil {
		fr.in.fail("undefined value %s = %v at %v", v.Name(), v, fr.in.Fset.Position(v.Pos()))
	}
	return r
}

// extGlobal models a variable of another package.
func (in *Interp) extGlobal(g *ssa.Global, t types.Type) Val {
	if types.IsInterface(t) {
		// distinct sentinel
		id := in.fixedObj("sentinel:"+g.String(), func() *Obj {
			return &Obj{T: sentinelType, C: VTop{}, Site: g.String(), Keep: true}
		})
		return VIface{types.NewPointer(sentinelType), VPtr{Obj: id}}
	}
	if p, ok := under(t).(*types.Pointer); ok {
		id := in.fixedObj("ext:"+g.String(), func() *Obj {
			return &Obj{T: p.Elem(), C: VTop{}, Site: g.String(), Sum: true}
		})
		return VPtr{Obj: id}
	}
	return VTop{}
}

var sentinelType = types.NewNamed(types.NewTypeName(0, nil, "sentinelError", nil), types.NewStruct(nil, nil), nil)
var sentinelPtr = types.NewPointer(sentinelType)

func init() {
	typeKeys[sentinelPtr] = "*sentinelError"
}

func (in *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return cbool(constant.BoolVal(c.Value))
	case constant.String:
		return cstr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := under(c.Type()).(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
			return VTop{}
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return cint(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return VInt{L: LC128(I128{0, u})}
		}
	}
	return VTop{}
}

func (fr *frame) set(st *State, v ssa.Value, x Val) {
	st.env[fr.info.idx[v]] = x
}

// cases splits st by the alternatives of v.
func (fr *frame) cases(st *State, v Val, f func(*State, Val) []*State) []*State {
	if a, ok := v.(VAlt); ok {
		var out []*State
		for i := range a.Alts {
			s := st
			if i < len(a.Alts)-1 {
				s = st.clone()
			}
			s.choose(a.ID, i)
			out = append(out, fr.cases(s, a.Alts[i], f)...)
		}
		return out
	}
	if l, ok := v.(VLazy); ok {
		return fr.cases(st, fr.in.lazyVal(st, l, true), f)
	}
	return f(st, v)
}

func (fr *frame) exec(st *State, ins ssa.Instruction) []*State {
	in := fr.in
	in.nInstr++
	one := []*State{st}
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := in.newObj(st, &Obj{T: t, C: in.zero(t), Site: fr.info.fn.Name() + ":" + x.Comment})
		fr.set(st, x, VPtr{Obj: id})
		return one
	case *ssa.BinOp:
		return fr.binop(st, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return fr.cases(st, fr.get(st, x.X), func(s *State, p Val) []*State {
				return fr.load(s, x, p, x.Type(), func(s *State, v Val) { fr.set(s, x, v) })
			})
		case token.NOT:
			if b, ok := fr.get(st, x.X).(VInt); ok {
				l := b.L.neg().addC(1)
				fr.set(st, x, VInt{l, true})
			} else {
				fr.set(st, x, in.anyVal(st, x.Type(), false))
			}
			return one
		case token.SUB:
			if b, ok := fr.get(st, x.X).(VInt); ok {
				return fr.wrap(st, b.L.neg(), x.Type(), func(s *State, v Val) { fr.set(s, x, v) })
			}
		case token.ARROW:
			fr.check("unsupported", x, false, st, func() string { return "channel receive" })
		}
		fr.set(st, x, in.anyVal(st, x.Type(), false))
		return one
	case *ssa.Store:
		v := fr.get(st, x.Val)
		return fr.cases(st, fr.get(st, x.Addr), func(s *State, p Val) []*State {
			return fr.store(s, x, p, v)
		})
	case *ssa.FieldAddr:
		return fr.cases(st, fr.get(st, x.X), func(s *State, p Val) []*State {
			q, ok := p.(VPtr)
			if !ok {
				fr.nilCheck(s, x, p)
				return nil
			}
			fr.nilCheck(s, x, p)
			fr.set(s, x, VPtr{q.Obj, append(append([]PE(nil), q.Path...), PE{F: x.Field})})
			return []*State{s}
		})
	case *ssa.Field:
		v := fr.get(st, x.X)
		if s, ok := v.(VStruct); ok && x.Field < len(s.F) {
			fr.set(st, x, in.force(st, s.F[x.Field], true))
			return one
		}
		fr.set(st, x, in.anyVal(st, x.Type(), false))
		return one
	case *ssa.IndexAddr:
		return fr.cases(st, fr.get(st, x.X), func(s *State, p Val) []*State {
			return fr.indexAddr(s, x, p)
		})
	case *ssa.Index:
		return fr.index(st, x, x.X, x.Index)
	case *ssa.Lookup:
		if isString(x.X.Type()) {
			return fr.index(st, x, x.X, x.Index)
		}
		return fr.cases(st, fr.get(st, x.X), func(s *State, m Val) []*State { return fr.lookup(s, x, m) })
	case *ssa.Slice:
		return fr.cases(st, fr.get(st, x.X), func(s *State, v Val) []*State { return fr.slice(s, x, v) })
	case *ssa.Extract:
		t := fr.get(st, x.Tuple)
		if tv, ok := t.(VTuple); ok {
			fr.set(st, x, tv.V[x.Index])
		} else {
			fr.set(st, x, in.anyVal(st, x.Type(), false))
		}
		return one
	case *ssa.ChangeType:
		fr.set(st, x, fr.get(st, x.X))
		return one
	case *ssa.ChangeInterface:
		fr.set(st, x, fr.get(st, x.X))
		return one
	case *ssa.MakeInterface:
		v := fr.get(st, x.X)
		fr.set(st, x, VIface{x.X.Type(), v})
		return one
	case *ssa.MakeClosure:
		b := make([]Val, len(x.Bindings))
		for i, y := range x.Bindings {
			b[i] = fr.get(st, y)
		}
		fr.set(st, x, VFunc{x.Fn.(*ssa.Function), b})
		return one
	case *ssa.MakeSlice:
		return fr.makeSlice(st, x)
	case *ssa.MakeMap:
		if a, ok := fr.in.Alloc[ins]; ok {
			if n, ok := fr.get(st, x.Reserve).(VInt); ok {
				fr.checkAlloc(st, ins, n.L, a.Elem)
			}
		}
		m := x.Type().Underlying().(*types.Map)
		_ = m
		id := in.newObj(st, &Obj{T: x.Type(), C: VMap{K: VBot{}, V: VBot{}, Consts: map[string]Val{}, Closed: true}, Site: fr.info.fn.Name() + ":map"})
		fr.set(st, x, VPtr{Obj: id})
		return one
	case *ssa.MapUpdate:
		return fr.cases(st, fr.get(st, x.Map), func(s *State, m Val) []*State { return fr.mapUpdate(s, x, m) })
	case *ssa.Convert:
		return fr.convert(st, x)
	case *ssa.MultiConvert:
		fr.set(st, x, in.anyVal(st, x.Type(), false))
		return one
	case *ssa.TypeAssert:
		return fr.cases(st, fr.get(st, x.X), func(s *State, v Val) []*State { return fr.typeAssert(s, x, v) })
	case *ssa.Call:
		return fr.call(st, x, x.Common(), func(s *State, v Val) { fr.set(s, x, v) })
	case *ssa.Range:
		fr.set(st, x, VIter{fr.get(st, x.X), LC(0)})
		return one
	case *ssa.Next:
		return fr.next(st, x)
	case *ssa.SliceToArrayPointer:
		return fr.cases(st, fr.get(st, x.X), func(s *State, v Val) []*State {
			n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			sl, ok := v.(VSlice)
			if !ok {
				if n == 0 {
					fr.set(s, x, VNil{})
					return []*State{s}
				}
				fr.check("slice", x, false, s, func() string { return "conversion of a short slice to an array pointer" })
				return nil
			}
			if !fr.require(s, "slice", x, sl.Len.addC(-n), func() string { return "conversion of a short slice to an array pointer" }) {
				return nil
			}
			fr.set(s, x, VTop{})
			return []*State{s}
		})
	case *ssa.Defer:
		return fr.deferCall(st, x)
	case *ssa.RunDefers:
		return fr.runDefers(st, x)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		fr.check("concurrency", ins, false, st, func() string { return "concurrent construct: " + ins.String() })
		if v, ok := ins.(ssa.Value); ok {
			fr.set(st, v, in.anyVal(st, v.Type(), false))
		}
		return one
	}
	fr.check("unsupported", ins, false, st, func() string { return fmt.Sprintf("unsupported instruction %T", ins) })
	if v, ok := ins.(ssa.Value); ok {
		fr.set(st, v, in.anyVal(st, v.Type(), false))
	}
	return one
}

// require checks l >= 0 and assumes it.
func (fr *frame) require(st *State, kind string, i ssa.Instruction, l Lin, msg func() string) bool {
	ok := st.P.entails(l)
	fr.check(kind, i, ok, st, func() string { return msg() + "; state: " + st.describe(l) })
	if ok {
		return true
	}
	return st.P.addGE(l)
}

func (st *State) describe(l Lin) string {
	l = st.P.norm(l)
	rows := st.P.cone(l.T)
	s := fmt.Sprintf("need %v >= 0 given", l)
	for i, r := range rows {
		if i > 14 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" {%v>=0}", r)
	}
	return s
}

func (fr *frame) nilCheck(st *State, i ssa.Instruction, p Val) {
	_, bad := p.(VNil)
	_, top := p.(VTop)
	fr.check("nil", i, !bad && !top, st, func() string { return "nil pointer dereference" })
}

// force turns lazy content into values, one level deep through structs.
func (in *Interp) force(st *State, v Val, ext bool) Val {
	switch x := v.(type) {
	case VLazy:
		return in.force(st, in.lazyVal(st, x, ext), ext)
	case VStruct:
		any := false
		for _, f := range x.F {
			switch f.(type) {
			case VLazy, VStruct, VArr:
				any = true
			}
		}
		if !any {
			return v
		}
		f := make([]Val, len(x.F))
		for i := range f {
			f[i] = in.force(st, x.F[i], ext)
		}
		return VStruct{f}
	case VArr:
		f := make([]Val, len(x.E))
		for i := range f {
			f[i] = in.force(st, x.E[i], ext)
		}
		return VArr{f}
	}
	return v
}

// ---- memory ----

// rd reads content c (of type t) along path. It returns the value and the new
// content (reading may materialise lazy parts or move a census cursor).
func (fr *frame) rd(st *State, c Val, path []PE, sum, ext bool) (v, nc Val, ok bool) {
	in := fr.in
	if l, is := c.(VLazy); is {
		c = in.lazyVal(st, l, ext)
		if a, is := c.(VAlt); is && sum {
			c = VAlt{in.id(), a.Alts}
		}
	}
	if len(path) == 0 {
		f := in.force(st, c, ext)
		return f, f, true
	}
	e := path[0]
	switch x := c.(type) {
	case VStruct:
		if e.IsIdx || e.F >= len(x.F) {
			return VTop{}, c, true
		}
		v, n, ok := fr.rd(st, x.F[e.F], path[1:], sum, ext)
		f := append([]Val(nil), x.F...)
		f[e.F] = n
		return v, VStruct{f}, ok
	case VArr:
		if k, is := fr.constIdx(st, e.Idx); is && k >= 0 && k < int64(len(x.E)) {
			v, n, ok := fr.rd(st, x.E[k], path[1:], sum, ext)
			f := append([]Val(nil), x.E...)
			f[k] = n
			return v, VArr{f}, ok
		}
		s, _ := in.asSmashIn(st, x)
		v, _, ok := fr.rd(st, s, path, sum, ext)
		return v, c, ok
	case VSmash:
		return fr.rdSmash(st, x, e, path[1:], sum, ext)
	}
	return VTop{}, c, true
}

func (in *Interp) asSmashIn(st *State, v Val) (VSmash, bool) {
	switch v := v.(type) {
	case VSmash:
		return v, true
	case VArr:
		s := VSmash{N: LC(int64(len(v.E))), El: VBot{}}
		for _, e := range v.E {
			s.El = tmplJoin(s.El, in.tmpl(st, e, nil))
		}
		return s, true
	}
	return VSmash{}, false
}

func (fr *frame) constIdx(st *State, l Lin) (int64, bool) {
	l = st.P.norm(l)
	if c, ok := l.constVal(); ok {
		return c, true
	}
	return 0, false
}

func (fr *frame) rdSmash(st *State, s VSmash, e PE, rest []PE, sum, ext bool) (v, nc Val, ok bool) {
	in := fr.in
	el := in.inst(st, s.El, ext)
	nc = s
	if s.Cen != nil {
		el, nc = fr.censusRead(st, s, e.Idx, el)
	}
	if s.Prov != nil {
		d, _ := s.ProvN.sub(e.Idx)
		if al, is := el.(VAlt); is {
			for _, x := range al.Alts {
				if sl, is := x.(VSlice); is {
					el = sl // a line is not nil
				}
			}
		}
		if sl, is := el.(VSlice); is && st.P.entails(d.addC(-1)) {
			l, _ := s.Prov.add(e.Idx)
			sl.Prov = &Prov{Kind: 1, L: l}
			el = sl
		}
	}
	if s.Seq != nil {
		if iv, is := el.(VInt); is {
			last, _ := s.Seq.N.sub(e.Idx)
			last = last.addC(-1)
			if st.P.entails(last) { // idx <= N-1
				d, _ := s.Seq.Last.sub(iv.L)
				st.P.addGE(d)
				if st.P.entails(last.neg()) {
					st.P.addEQ(d)
				}
			}
			// order against other remembered elements
			for _, b := range st.bytes {
				if b.Root == s.Seq.Root {
					if d, ok := e.Idx.sub(b.At); ok {
						if st.P.entails(d) {
							g, _ := iv.L.sub(b.V)
							st.P.addGE(g)
						} else if st.P.entails(d.neg()) {
							g, _ := b.V.sub(iv.L)
							st.P.addGE(g)
						}
					}
				}
			}
			st.bytes = append(st.bytes, ByteFact{s.Seq.Root, e.Idx, iv.L})
			if len(st.bytes) > 24 {
				st.bytes = st.bytes[1:]
			}
		}
	}
	if len(rest) == 0 {
		return in.force(st, el, ext), nc, true
	}
	v, _, ok = fr.rd(st, el, rest, sum, ext)
	return v, nc, ok
}

// load reads through p.
func (fr *frame) load(st *State, i ssa.Instruction, p Val, t types.Type, k func(*State, Val)) []*State {
	fr.nilCheck(st, i, p)
	q, ok := p.(VPtr)
	if !ok {
		if _, top := p.(VTop); top {
			k(st, fr.in.anyVal(st, t, false))
			return []*State{st}
		}
		return nil
	}
	o := st.obj(q.Obj)
	if o == nil {
		fr.in.fail("load from missing object %d", q.Obj)
	}
	// census arrays fork by class
	if states, idx := fr.censusFork(st, o, q); states != nil {
		var out []*State
		for _, s := range states {
			_ = idx
			out = append(out, fr.loadOne(s, q, t, k)...)
		}
		return out
	}
	return fr.loadOne(st, q, t, k)
}

func (fr *frame) loadOne(st *State, q VPtr, t types.Type, k func(*State, Val)) []*State {
	o := st.obj(q.Obj)
	v, nc, _ := fr.rd(st, o.C, q.Path, o.Sum, o.Ext)
	if !o.Sum && !o.Keep {
		if _, ok := st.heap[q.Obj]; ok {
			n := *o
			n.C = nc
			st.heap[q.Obj] = &n
		}
	}
	if _, ok := v.(VTop); ok && !types.IsInterface(t) {
		v = fr.in.force(st, fr.in.anyVal(st, t, false), false)
	}
	k(st, v)
	return []*State{st}
}

// wr writes v into content c along path.
func (fr *frame) wr(st *State, c Val, path []PE, v Val, t types.Type) Val {
	in := fr.in
	if len(path) == 0 {
		return v
	}
	if l, is := c.(VLazy); is {
		c = in.lazyVal(st, l, true)
	}
	e := path[0]
	switch x := c.(type) {
	case VStruct:
		if e.IsIdx || e.F >= len(x.F) {
			return VTop{}
		}
		f := append([]Val(nil), x.F...)
		f[e.F] = fr.wr(st, x.F[e.F], path[1:], v, nil)
		return VStruct{f}
	case VArr:
		if k, is := fr.constIdx(st, e.Idx); is && k >= 0 && k < int64(len(x.E)) {
			f := append([]Val(nil), x.E...)
			f[k] = fr.wr(st, x.E[k], path[1:], v, nil)
			return VArr{f}
		}
		s, _ := in.asSmashIn(st, x)
		return fr.wr(st, s, path, v, t)
	case VSmash:
		// weak update
		el := in.inst(st, x.El, false)
		if _, bot := x.El.(VBot); bot {
			el = VTop{}
		}
		if len(path) == 1 {
			el = v
		} else {
			el = fr.wr(st, in.force(st, el, false), path[1:], v, nil)
		}
		x.El = tmplJoin(x.El, in.tmpl(st, el, x.T))
		if x.Cen != nil {
			if len(path) == 1 {
				x.Cen = nil
			} else if f, ok := in.isCensus(x.T); !ok || path[1].F == f {
				x.Cen = nil
			}
		}
		x.Seq = nil
		old := x.Prov
		if x.Prov != nil {
			if d, ok := path[0].Idx.sub(x.ProvN); !ok || !st.P.entails(d) {
				x.Prov = nil
			}
		}
		if p := provOf(v); len(path) == 1 && p != nil && p.Kind == 1 && (x.Prov != nil || old == nil) {
			x = st.extendProv(x, path[0].Idx, p.L, LC(1))
		}
		return x
	}
	return VTop{}
}

func (fr *frame) store(st *State, i ssa.Instruction, p Val, v Val) []*State {
	fr.nilCheck(st, i, p)
	q, ok := p.(VPtr)
	if !ok {
		return nil
	}
	o := st.obj(q.Obj)
	if o == nil {
		fr.in.fail("store to missing object %d", q.Obj)
	}
	fr.noteStore(st, i, q, o)
	if o.Sum || st.heap[q.Obj] == nil {
		return []*State{st}
	}
	n := *o
	n.C = fr.wr(st, o.C, q.Path, v, o.T)
	st.heap[q.Obj] = &n
	if fr.in.Attach {
		fr.attached(st, q, v)
	}
	return []*State{st}
}

// attached runs the overlay function vattach_<Type> for every known object
// of that type that the slice v, which was stored into a field of the struct
// at q, refers to.
func (fr *frame) attached(st *State, q VPtr, v Val) {
	sl, ok := v.(VSlice)
	if !ok || len(q.Path) == 0 || q.Path[len(q.Path)-1].IsIdx || st.heap[sl.Obj] == nil {
		return
	}
	c := contentAt(st.heap[sl.Obj].C, sl.Path)
	if sm, is := c.(VSmash); is {
		c = sm.El
	}
	if c == nil {
		return
	}
	ids := map[int]bool{}
	m := mapper{lin: func(l Lin) Lin { return l },
		obj:  func(i int) int { ids[i] = true; return i },
		root: func(i int) int { return i }, alt: func(i int) int { return i }}
	m.val(c)
	for _, id := range keysOf(st.heap) {
		o := st.heap[id]
		if !ids[id] || o.Sum || o.Ext || o.Keep {
			continue
		}
		if hook := fr.in.overlayFn("vattach_", o.T); hook != nil && len(hook.Params) == 2 {
			owner := VPtr{Obj: q.Obj, Path: q.Path[:len(q.Path)-1]}
			fr.inline(st.clone(), nil, hook, []Val{VPtr{Obj: id}, owner}, nil, func(*State, Val) {})
		}
	}
}

// stickyFields are the boolean fields that a vattach function reads through
// its second parameter: states that differ in them are not joined.
func (in *Interp) stickyFields(t types.Type) []int {
	if in.sticky == nil {
		in.sticky = map[string][]int{}
		for _, mem := range in.Pkg.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok || !strings.HasPrefix(fn.Name(), "vattach_") || len(fn.Params) != 2 {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					fa, ok := i.(*ssa.FieldAddr)
					if !ok || fa.X != fn.Params[1] {
						continue
					}
					pt := under(fa.X.Type()).(*types.Pointer).Elem()
					if st, ok := under(pt).(*types.Struct); ok && isBool(st.Field(fa.Field).Type()) {
						k := typeKey(pt)
						in.sticky[k] = append(in.sticky[k], fa.Field)
					}
				}
			}
		}
	}
	if t == nil {
		return nil
	}
	return in.sticky[typeKey(t)]
}

// noteStore reports writes to caller-owned and package-level memory.
func (fr *frame) noteStore(st *State, i ssa.Instruction, q VPtr, o *Obj) {
	if fr.in.initing {
		return
	}
	if fr.in.Hooks.ExtStore {
		fr.check("ext-store", i, !o.Ext, st, func() string { return "write into memory owned by the caller (" + typeKey(o.T) + ")" })
	}
	if fr.in.Hooks.GlobStore {
		fr.check("global-store", i, !o.Glob, st, func() string { return "write into package-level memory (" + o.Site + ")" })
	}
}

// ---- indexing ----

func (fr *frame) indexAddr(st *State, x *ssa.IndexAddr, p Val) []*State {
	idx, ok := fr.get(st, x.Index).(VInt)
	if !ok {
		fr.in.fail("index is not an integer")
	}
	switch b := p.(type) {
	case VSlice:
		if !fr.bounds(st, x, idx.L, b.Len, "index out of range") {
			return nil
		}
		off, _ := b.Off.add(idx.L)
		pp := VPtr{b.Obj, append(append([]PE(nil), b.Path...), PE{IsIdx: true, Idx: st.P.norm(off)})}
		return fr.splitIdx(st, x, pp)
	case VPtr:
		at, ok := under(x.X.Type()).(*types.Pointer)
		if !ok {
			break
		}
		n := at.Elem().Underlying().(*types.Array).Len()
		if !fr.bounds(st, x, idx.L, LC(n), "index out of range") {
			return nil
		}
		pp := VPtr{b.Obj, append(append([]PE(nil), b.Path...), PE{IsIdx: true, Idx: st.P.norm(idx.L)})}
		return fr.splitIdx(st, x, pp)
	case VNil:
		if _, ok := under(x.X.Type()).(*types.Slice); ok {
			fr.check("index", x, false, st, func() string { return "index of a nil slice" })
		} else {
			fr.nilCheck(st, x, p)
		}
		return nil
	}
	fr.check("index", x, false, st, func() string { return "index of an unknown value" })
	return nil
}

func (fr *frame) bounds(st *State, x ssa.Instruction, idx, n Lin, what string) bool {
	if !fr.require(st, "index", x, idx, func() string { return what + " (negative)" }) {
		return false
	}
	d, _ := n.sub(idx)
	return fr.require(st, "index", x, d.addC(-1), func() string { return what })
}

// splitIdx forks over the positions of small precise arrays.
func (fr *frame) splitIdx(st *State, x *ssa.IndexAddr, p VPtr) []*State {
	o := st.obj(p.Obj)
	idx := p.Path[len(p.Path)-1].Idx
	if _, isc := idx.constVal(); !isc && o != nil {
		if c, ok := contentAt(o.C, p.Path[:len(p.Path)-1]).(VArr); ok && len(c.E) <= 4 {
			var out []*State
			for k := range c.E {
				s := st.clone()
				if !s.P.addEQ(idx.addC(int64(-k))) {
					continue
				}
				q := VPtr{p.Obj, append([]PE(nil), p.Path...)}
				q.Path[len(q.Path)-1].Idx = LC(int64(k))
				fr.set(s, x, q)
				out = append(out, s)
			}
			return out
		}
	}
	fr.set(st, x, p)
	return []*State{st}
}

func contentAt(c Val, path []PE) Val {
	for _, e := range path {
		switch x := c.(type) {
		case VStruct:
			if e.IsIdx || e.F >= len(x.F) {
				return nil
			}
			c = x.F[e.F]
		case VArr:
			k, ok := e.Idx.constVal()
			if !ok || k < 0 || k >= int64(len(x.E)) {
				return nil
			}
			c = x.E[k]
		default:
			return nil
		}
	}
	return c
}

// index handles values: strings and arrays.
func (fr *frame) index(st *State, x ssa.Value, xv, iv ssa.Value) []*State {
	ins := x.(ssa.Instruction)
	idx, ok := fr.get(st, iv).(VInt)
	if !ok {
		fr.in.fail("index is not an integer")
	}
	switch b := fr.get(st, xv).(type) {
	case VStr:
		if !fr.bounds(st, ins, idx.L, b.Len, "string index out of range") {
			return nil
		}
		fr.set(st, x, VInt{L: fr.strByte(st, b, idx.L)})
		return []*State{st}
	case VArr:
		if !fr.bounds(st, ins, idx.L, LC(int64(len(b.E))), "index out of range") {
			return nil
		}
		v, _, _ := fr.rd(st, b, []PE{{IsIdx: true, Idx: idx.L}}, false, false)
		fr.set(st, x, v)
		return []*State{st}
	case VSmash:
		if !fr.bounds(st, ins, idx.L, b.N, "index out of range") {
			return nil
		}
		v, _, _ := fr.rd(st, b, []PE{{IsIdx: true, Idx: idx.L}}, false, false)
		fr.set(st, x, v)
		return []*State{st}
	}
	fr.set(st, x, fr.in.anyVal(st, x.Type(), false))
	return []*State{st}
}

// strByte returns the byte of s at idx.
func (fr *frame) strByte(st *State, s VStr, idx Lin) Lin {
	if pre, ok := st.strPrefix(s); ok {
		if k, ok := st.P.norm(idx).constVal(); ok && k >= 0 && k < int64(len(pre)) {
			return LC(int64(pre[k]))
		}
	}
	if s.IsC {
		lo, hi := byte(255), byte(0)
		for i := 0; i < len(s.C); i++ {
			if s.C[i] < lo {
				lo = s.C[i]
			}
			if s.C[i] > hi {
				hi = s.C[i]
			}
		}
		if len(s.C) == 0 {
			lo, hi = 0, 255
		}
		return st.fresh(I(int64(lo)), I(int64(hi)))
	}
	at, _ := s.Off.add(idx)
	at = st.P.norm(at)
	for _, f := range st.bytes {
		if f.Root == s.Root && st.P.norm(f.At).equal(at) {
			return f.V
		}
	}
	for _, f := range st.bytes {
		if f.Root == s.Root {
			if d, ok := f.At.sub(at); ok && st.P.entailsEQ(d) {
				return f.V
			}
		}
	}
	v := st.fresh(I(0), I(255))
	st.bytes = append(st.bytes, ByteFact{s.Root, at, v})
	if len(st.bytes) > 24 {
		st.bytes = st.bytes[1:]
	}
	return v
}

// ---- slices ----

func (fr *frame) slice(st *State, x *ssa.Slice, v Val) []*State {
	geti := func(y ssa.Value, d Lin) Lin {
		if y == nil {
			return d
		}
		if i, ok := fr.get(st, y).(VInt); ok {
			return i.L
		}
		return st.fresh(I(0), maxLen)
	}
	switch b := v.(type) {
	case VStr:
		lo := geti(x.Low, LC(0))
		hi := geti(x.High, b.Len)
		if !fr.require(st, "slice", x, lo, func() string { return "slice bounds out of range (negative low)" }) {
			return nil
		}
		d, _ := hi.sub(lo)
		if !fr.require(st, "slice", x, d, func() string { return "slice bounds out of range (low > high)" }) {
			return nil
		}
		d2, _ := b.Len.sub(hi)
		if !fr.require(st, "slice", x, d2, func() string { return "slice bounds out of range (high > length)" }) {
			return nil
		}
		fr.set(st, x, fr.substr(st, b, lo, hi))
		return []*State{st}
	case VSlice:
		return fr.sliceOf(st, x, b, geti(x.Low, LC(0)), geti(x.High, b.Len), x.Max)
	case VPtr:
		at, ok := under(x.X.Type()).(*types.Pointer)
		if ok {
			n := LC(at.Elem().Underlying().(*types.Array).Len())
			return fr.sliceOf(st, x, VSlice{Obj: b.Obj, Path: b.Path, Off: LC(0), Len: n, Cap: n}, geti(x.Low, LC(0)), geti(x.High, n), x.Max)
		}
	case VNil:
		if _, ok := under(x.X.Type()).(*types.Pointer); ok {
			fr.nilCheck(st, x, v)
			return nil
		}
		lo := geti(x.Low, LC(0))
		hi := geti(x.High, LC(0))
		if !fr.require(st, "slice", x, lo, func() string { return "slice bounds out of range" }) {
			return nil
		}
		d, _ := hi.sub(lo)
		if !fr.require(st, "slice", x, d, func() string { return "slice bounds out of range" }) {
			return nil
		}
		if !fr.require(st, "slice", x, hi.neg(), func() string { return "slice bounds out of range (nil slice)" }) {
			return nil
		}
		fr.set(st, x, VNil{})
		return []*State{st}
	}
	fr.set(st, x, fr.in.anyVal(st, x.Type(), false))
	return []*State{st}
}

func (fr *frame) sliceOf(st *State, x *ssa.Slice, b VSlice, lo, hi Lin, maxv ssa.Value) []*State {
	if !fr.require(st, "slice", x, lo, func() string { return "slice bounds out of range (negative low)" }) {
		return nil
	}
	d, _ := hi.sub(lo)
	if !fr.require(st, "slice", x, d, func() string { return "slice bounds out of range (low > high)" }) {
		return nil
	}
	capv := b.Cap
	if maxv != nil {
		if m, ok := fr.get(st, maxv).(VInt); ok {
			d, _ := capv.sub(m.L)
			if !fr.require(st, "slice", x, d, func() string { return "slice bounds out of range (max > capacity)" }) {
				return nil
			}
			capv = m.L
		}
	}
	d2, _ := capv.sub(hi)
	if !fr.require(st, "slice", x, d2, func() string { return "slice bounds out of range (high > capacity)" }) {
		return nil
	}
	off, _ := b.Off.add(lo)
	n, _ := hi.sub(lo)
	c, _ := capv.sub(lo)
	r := VSlice{Obj: b.Obj, Path: b.Path, Off: st.P.norm(off), Len: st.P.norm(n), Cap: st.P.norm(c)}
	if b.Prov != nil && st.P.entailsEQ(lo) {
		if e, _ := hi.sub(b.Len); st.P.entailsEQ(e) {
			r.Prov = b.Prov
		}
	}
	fr.set(st, x, r)
	return []*State{st}
}

// substr returns s[lo:hi]; the bounds hold.
func (fr *frame) substr(st *State, s VStr, lo, hi Lin) VStr {
	lo, hi = st.P.norm(lo), st.P.norm(hi)
	n, _ := hi.sub(lo)
	n = st.P.norm(n)
	if s.IsC {
		l, ok1 := lo.constVal()
		h, ok2 := hi.constVal()
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s.C)) {
			return cstr(s.C[l:h])
		}
		return VStr{Root: fr.in.id(), Off: LC(0), Len: n}
	}
	off, _ := s.Off.add(lo)
	r := VStr{Root: s.Root, Off: st.P.norm(off), Len: n}
	if s.Prov != nil {
		e, _ := s.Len.sub(hi)
		if st.P.entailsEQ(lo) && st.P.entailsEQ(e) {
			r.Prov = s.Prov
		}
	}
	return r
}

func (fr *frame) makeSlice(st *State, x *ssa.MakeSlice) []*State {
	n, ok1 := fr.get(st, x.Len).(VInt)
	c, ok2 := fr.get(st, x.Cap).(VInt)
	if !ok1 || !ok2 {
		fr.in.fail("make with unknown size")
	}
	elem := x.Type().Underlying().(*types.Slice).Elem()
	if a, ok := fr.in.Alloc[x]; ok {
		fr.checkAlloc(st, x, c.L, a.Elem)
	}
	if !fr.require(st, "make", x, n.L, func() string { return "makeslice: negative length" }) {
		return nil
	}
	d, _ := c.L.sub(n.L)
	if !fr.require(st, "make", x, d, func() string { return "makeslice: length above capacity" }) {
		return nil
	}
	fr.set(st, x, fr.mkSlice(st, elem, n.L, c.L, fr.in.zero(elem), fr.info.fn.Name()+":make"))
	return []*State{st}
}

func (fr *frame) mkSlice(st *State, elem types.Type, n, c Lin, el Val, site string) Val {
	in := fr.in
	n, c = st.P.norm(n), st.P.norm(c)
	if k, ok := c.constVal(); ok && k <= 8 && !isByte(elem) {
		e := make([]Val, k)
		for i := range e {
			e[i] = el
		}
		id := in.newObj(st, &Obj{T: types.NewArray(elem, k), C: VArr{e}, Site: site})
		return VSlice{Obj: id, Off: LC(0), Len: n, Cap: c}
	}
	sm := in.newSmash(elem, c, in.tmpl(st, el, elem))
	if _, ok := in.isCensus(elem); ok {
		sm.Cen = &Census{Cur: LC(0), Last: -1}
		for i := range sm.Cen.Tot {
			sm.Cen.Tot[i], sm.Cen.Cnt[i] = LC(0), LC(0)
		}
		sm.Cen.Tot[0] = n // zero value is class 0
	}
	id := in.newObj(st, &Obj{T: types.NewSlice(elem), C: sm, Site: site})
	return VSlice{Obj: id, Off: LC(0), Len: n, Cap: c}
}

// appendVals implements append(s, more...).
func (fr *frame) appendVals(st *State, i ssa.Instruction, sv, mv Val, t types.Type, k func(*State, Val)) []*State {
	in := fr.in
	elem := under(t).(*types.Slice).Elem()
	return fr.cases(st, sv, func(st *State, sv Val) []*State {
		return fr.cases(st, mv, func(st *State, mv Val) []*State {
			var addN Lin
			var addEl Val = VBot{}
			var addC Val
			switch m := mv.(type) {
			case VNil:
				k(st, sv)
				return []*State{st}
			case VSlice:
				addN = m.Len
				if o := st.obj(m.Obj); o != nil {
					addC = contentAt(o.C, m.Path)
				}
				if a, ok := addC.(VArr); ok {
					s, _ := in.asSmashIn(st, a)
					addEl = s.El
				} else if s, ok := addC.(VSmash); ok {
					addEl = s.El
				} else {
					addEl = VLazy{T: elem}
				}
			case VStr:
				addN = m.Len
				addEl = VRange{Lo: I(0), Hi: I(255)}
			default:
				addN = st.fresh(I(0), maxLen)
				addEl = VLazy{T: elem}
			}
			base := LC(0)
			pfirst, pn, prov := st.lineProv(mv, addC)
			var sm VSmash
			switch s := sv.(type) {
			case VNil:
				sm = in.newSmash(elem, LC(0), VBot{})
				if _, ok := in.isCensus(elem); ok {
					sm.Cen = &Census{Cur: LC(0), Last: -1}
					for j := range sm.Cen.Tot {
						sm.Cen.Tot[j], sm.Cen.Cnt[j] = LC(0), LC(0)
					}
				}
				if isInt(elem) && !isByte(elem) {
					sm.Seq = &Seq{LC(0), LC(0), in.id()}
				}
			case VSlice:
				base = s.Len
				o := st.obj(s.Obj)
				if o.Ext {
					// may write behind the caller's slice
					d, _ := s.Cap.sub(s.Len)
					if !st.P.entails(d.neg()) || !isByte(elem) {
						// the capacity of other slices is not tracked
						fr.noteStore(st, i, VPtr{s.Obj, s.Path}, o)
					}
				}
				c := contentAt(o.C, s.Path)
				x, ok := in.asSmashIn(st, c)
				if !ok {
					x = in.newSmash(elem, s.Len, VLazy{T: elem})
				}
				sm = x
				sm.T = elem
				if e, _ := s.Len.sub(x.N); !s.Off.isConst() || s.Off.C.sign() != 0 || !st.P.entailsEQ(e) {
					if sm.Cen != nil {
						sm.Cen = nil
					}
					sm.Prov = nil
					if sm.Seq != nil {
						if e, _ := s.Len.sub(sm.Seq.N); !st.P.entailsEQ(e) {
							sm.Seq = nil
						}
					}
				}
				if !o.Ext && !o.Sum && st.heap[s.Obj] != nil && s.Obj >= 0 {
					// the old array may be written in place beyond its length
					if y, ok := c.(VSmash); ok && len(s.Path) == 0 {
						if d, _ := s.Cap.sub(s.Len); !st.P.entails(d.neg()) {
							y.El = tmplJoin(y.El, addEl)
							n := *o
							n.C = y
							st.heap[s.Obj] = &n
						}
					}
				}
			default:
				k(st, in.anyVal(st, t, false))
				return []*State{st}
			}
			n, _ := base.add(addN)
			n = st.P.norm(n)
			st.P.addGE(LC128(maxLen.sub(I(0))).subOr(n))
			sm.El = tmplJoin(sm.El, addEl)
			sm.N = n
			if prov {
				sm = st.extendProv(sm, base, pfirst, pn)
			}
			finish := func(st *State, sm VSmash) *State {
				id := in.newObj(st, &Obj{T: types.NewSlice(elem), C: sm, Site: fr.info.fn.Name() + ":append"})
				capv := st.fresh(I(0), maxLen)
				d, _ := capv.sub(n)
				st.P.addGE(d)
				k(st, VSlice{Obj: id, Off: LC(0), Len: n, Cap: capv})
				return st
			}
			if sm.Seq != nil {
				sm.Seq = fr.seqAppend(st, sm.Seq, base, addN, addC)
			}
			if sm.Cen != nil {
				return fr.censusAppend(st, sm, addN, addC, finish)
			}
			return []*State{finish(st, sm)}
		})
	})
}

// lineProv returns the source lines that the slice v with content c holds from
// its start: the first one and their number.
func (st *State) lineProv(v, c Val) (first, n Lin, ok bool) {
	sl, is := v.(VSlice)
	if !is {
		return
	}
	switch c := c.(type) {
	case VArr:
		if len(c.E) != 1 {
			return
		}
		d := sl.Len.addC(-1)
		if p := provOf(c.E[0]); p != nil && p.Kind == 1 && st.P.entailsEQ(sl.Off) && st.P.entailsEQ(d) {
			return p.L, LC(1), true
		}
	case VSmash:
		if c.Prov == nil {
			return
		}
		first, ok1 := c.Prov.add(sl.Off)
		n, ok2 := c.ProvN.sub(sl.Off)
		if d, ok3 := n.sub(sl.Len); ok1 && ok2 && ok3 && st.P.entails(d) {
			return first, sl.Len, true // all of them
		}
	}
	return
}

// extendProv says that the elements of s from at on are n source lines.
func (st *State) extendProv(s VSmash, at, first, n Lin) VSmash {
	if s.Prov != nil {
		p, _ := s.Prov.add(at)
		d, _ := first.sub(p)
		e, _ := s.ProvN.sub(at)
		if st.P.entailsEQ(d) && st.P.entailsEQ(e) {
			l, _ := at.add(n)
			s.ProvN = st.P.norm(l)
			return s
		}
	}
	if st.P.entailsEQ(at) {
		first = st.P.norm(first)
		s.Prov, s.ProvN = &first, st.P.norm(n)
	}
	return s
}

func (l Lin) subOr(m Lin) Lin {
	r, ok := l.sub(m)
	if !ok {
		return LC(0)
	}
	return r
}

// seqAppend keeps an array known to be sorted sorted.
func (fr *frame) seqAppend(st *State, q *Seq, base, addN Lin, addC Val) *Seq {
	a, ok := addC.(VArr)
	if !ok || len(a.E) != 1 {
		return nil
	}
	if c, ok := st.P.norm(addN).constVal(); !ok || c != 1 {
		return nil
	}
	v, ok := a.E[0].(VInt)
	if !ok {
		return nil
	}
	d, _ := v.L.sub(q.Last)
	if !st.P.entails(d) {
		return nil
	}
	return &Seq{st.P.norm(base.addC(1)), v.L, q.Root}
}

// ---- census ----

// censusFork splits a read of an unvisited census element by class.
func (fr *frame) censusFork(st *State, o *Obj, q VPtr) ([]*State, int) {
	k := -1
	for i, e := range q.Path {
		if e.IsIdx {
			k = i
			break
		}
	}
	if k < 0 {
		return nil, 0
	}
	sm, ok := contentAt(o.C, q.Path[:k]).(VSmash)
	if !ok || sm.Cen == nil || o.Sum || len(q.Path[:k]) != 0 {
		return nil, 0
	}
	c := sm.Cen
	idx := st.P.norm(q.Path[k].Idx)
	put := func(s *State, n Census) {
		x := sm
		x.Cen = &n
		no := *s.heap[q.Obj]
		no.C = x
		s.heap[q.Obj] = &no
	}
	d, _ := idx.sub(c.Cur)
	switch {
	case c.Last >= 0 && st.P.entailsEQ(d.addC(1)):
		return nil, 0 // the element just visited
	case st.P.entailsEQ(d):
	case st.P.entailsEQ(idx):
		// restart from the beginning
		n := *c
		n.Cur = LC(0)
		for i := range n.Cnt {
			n.Cnt[i] = LC(0)
		}
		c = &n
	default:
		n := *c
		n.Last = -2 // unknown element
		n.Cur = LC(0)
		for i := range n.Cnt {
			n.Cnt[i] = LC(0)
		}
		n.Last = -1
		put(st, n)
		return nil, 0
	}
	var out []*State
	for cl := 0; cl < 4; cl++ {
		s := st.clone()
		n := *c
		rem, _ := n.Tot[cl].sub(n.Cnt[cl])
		if !s.P.addGE(rem.addC(-1)) {
			continue
		}
		n.Cnt[cl] = n.Cnt[cl].addC(1)
		n.Cur = n.Cur.addC(1)
		n.Last = cl
		// what remains
		okk := true
		sum := LC(0)
		for i := range n.Tot {
			r, _ := n.Tot[i].sub(n.Cnt[i])
			if !s.P.addGE(r) {
				okk = false
			}
			sum, _ = sum.add(r)
		}
		if !okk {
			continue
		}
		put(s, n)
		out = append(out, s)
	}
	return out, 0
}

// censusRead fixes the class of the element being read.
func (fr *frame) censusRead(st *State, s VSmash, idx Lin, el Val) (Val, Val) {
	f, ok := fr.in.isCensus(s.T)
	if !ok {
		return el, s
	}
	c := s.Cen
	d, _ := idx.sub(c.Cur)
	if c.Last < 0 || !st.P.entailsEQ(d.addC(1)) {
		return el, s
	}
	el = fr.in.force(st, el, true)
	sv, ok := el.(VStruct)
	if !ok {
		return el, s
	}
	fs := append([]Val(nil), sv.F...)
	switch c.Last {
	case 0, 1, 2:
		fs[f] = cint(int64(c.Last))
	default:
		// any other operator: split is left to the reader
		v := st.fresh(I(3), pow2(63).sub(I(1)))
		fs[f] = VInt{L: v}
	}
	for i := range fs {
		if str, ok := fs[i].(VStr); ok {
			str.Prov = &Prov{Kind: 2, L: c.Cur.addC(-1)}
			fs[i] = str
		}
	}
	return VStruct{fs}, s
}

// censusAppend adds elements, forking on the class of a single new element.
func (fr *frame) censusAppend(st *State, sm VSmash, addN Lin, addC Val, finish func(*State, VSmash) *State) []*State {
	f, _ := fr.in.isCensus(sm.T)
	a, ok := addC.(VArr)
	if !ok || len(a.E) != 1 {
		if s, ok := addC.(VSmash); ok && s.Cen != nil {
			if e, _ := s.N.sub(addN); st.P.entailsEQ(e) {
				c := *sm.Cen
				for i := range c.Tot {
					c.Tot[i], _ = c.Tot[i].add(s.Cen.Tot[i])
				}
				sm.Cen = &c
				return []*State{finish(st, sm)}
			}
		}
		sm.Cen = nil
		return []*State{finish(st, sm)}
	}
	sv, ok := a.E[0].(VStruct)
	var op VInt
	if ok {
		op, ok = sv.F[f].(VInt)
	}
	if !ok {
		sm.Cen = nil
		return []*State{finish(st, sm)}
	}
	var out []*State
	for cl := 0; cl < 4; cl++ {
		var ss []*State
		if cl < 3 {
			s := st.clone()
			if s.P.addEQ(op.L.addC(int64(-cl))) {
				ss = append(ss, s)
			}
		} else {
			s := st.clone()
			if s.P.addGE(op.L.addC(-3)) {
				ss = append(ss, s)
			}
			s = st.clone()
			if s.P.addGE(op.L.neg().addC(-1)) {
				ss = append(ss, s)
			}
		}
		for _, s := range ss {
			x := sm
			c := *sm.Cen
			c.Tot[cl] = c.Tot[cl].addC(1)
			x.Cen = &c
			out = append(out, finish(s, x))
		}
	}
	return out
}
