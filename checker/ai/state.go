package ai

import (
	"cmp"
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"
)

// RootFact is what is known about the bytes of an immutable string root.
type RootFact struct {
	Pre string // bytes at offset 0
	Fst int    // 0 unknown; else 1+first byte
}

// ByteFact remembers the value of one byte of a string root.
type ByteFact struct {
	Root int
	At   Lin
	V    Lin
}

// State is one disjunct.
type State struct {
	in     *Interp
	P      *Poly
	env    []Val
	heap   map[int]*Obj
	facts  map[int]RootFact
	cls    int // way into the surrounding loops
	bytes  []ByteFact
	path   *pathNode
	picked map[int]int // alternatives of the entry state that were decided
}

type pathNode struct {
	up  *pathNode
	msg string
	n   int
}

func (st *State) note(msg string) {
	n := 1
	if st.path != nil {
		n = st.path.n + 1
	}
	st.path = &pathNode{st.path, msg, n}
}

func (st *State) clone() *State {
	n := &State{in: st.in, P: st.P.clone(), path: st.path, cls: st.cls}
	n.env = append([]Val(nil), st.env...)
	n.heap = make(map[int]*Obj, len(st.heap)+2)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.facts = make(map[int]RootFact, len(st.facts))
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.bytes = append([]ByteFact(nil), st.bytes...)
	if st.picked != nil {
		n.picked = make(map[int]int, len(st.picked))
		for k, v := range st.picked {
			n.picked[k] = v
		}
	}
	return n
}

func (st *State) fresh(lo, hi I128) Lin {
	s := st.in.sym()
	if lo == hi {
		return LC128(lo)
	}
	st.P.fresh(s, lo, hi)
	return LS(s)
}

func (st *State) obj(id int) *Obj {
	if o, ok := st.heap[id]; ok {
		return o
	}
	return st.in.fixed[id]
}

func (in *Interp) newObj(st *State, o *Obj) int {
	id := in.id()
	st.heap[id] = o
	return id
}

// mapper rewrites the identities inside values.
type mapper struct {
	lin  func(Lin) Lin
	obj  func(int) int
	root func(int) int
	alt  func(int) int
}

func (m *mapper) path(p []PE) []PE {
	if len(p) == 0 {
		return p
	}
	q := make([]PE, len(p))
	for i, e := range p {
		q[i] = e
		if e.IsIdx {
			q[i].Idx = m.lin(e.Idx)
		}
	}
	return q
}
func (m *mapper) list(vs []Val) []Val {
	if vs == nil {
		return nil
	}
	out := make([]Val, len(vs))
	for i, v := range vs {
		out[i] = m.val(v)
	}
	return out
}
func (m *mapper) prov(p *Prov) *Prov {
	if p == nil {
		return nil
	}
	q := *p
	q.L = m.lin(p.L)
	if q.Obj != 0 {
		q.Obj = m.obj(q.Obj)
	}
	return &q
}
func (m *mapper) val(v Val) Val {
	switch v := v.(type) {
	case nil, VNil, VLazy, VTop, VBot, VRange, VAnyStr, VAnySlice:
		return v
	case VInt:
		return VInt{m.lin(v.L), v.B}
	case VStr:
		v.Len = m.lin(v.Len)
		if !v.IsC {
			v.Off = m.lin(v.Off)
			v.Root = m.root(v.Root)
		}
		v.Prov = m.prov(v.Prov)
		return v
	case VPtr:
		return VPtr{m.obj(v.Obj), m.path(v.Path)}
	case VSlice:
		return VSlice{m.obj(v.Obj), m.path(v.Path), m.lin(v.Off), m.lin(v.Len), m.lin(v.Cap), m.prov(v.Prov)}
	case VIface:
		return VIface{v.T, m.val(v.V)}
	case VFunc:
		return VFunc{v.Fn, m.list(v.Bind)}
	case VStruct:
		return VStruct{m.list(v.F)}
	case VArr:
		return VArr{m.list(v.E)}
	case VTuple:
		return VTuple{m.list(v.V)}
	case VSmash:
		v.N = m.lin(v.N)
		v.El = m.val(v.El)
		if v.Cen != nil {
			c := *v.Cen
			for i := range c.Tot {
				c.Tot[i] = m.lin(c.Tot[i])
				c.Cnt[i] = m.lin(c.Cnt[i])
			}
			c.Cur = m.lin(c.Cur)
			v.Cen = &c
		}
		if v.Seq != nil {
			v.Seq = &Seq{m.lin(v.Seq.N), m.lin(v.Seq.Last), m.root(v.Seq.Root)}
		}
		if v.Prov != nil {
			l := m.lin(*v.Prov)
			v.Prov, v.ProvN = &l, m.lin(v.ProvN)
		}
		return v
	case VAlt:
		return VAlt{m.alt(v.ID), m.list(v.Alts)}
	case VExt:
		return VExt{m.lin(v.N)}
	case VMap:
		v.K, v.V = m.val(v.K), m.val(v.V)
		if v.Consts != nil {
			c := map[string]Val{}
			for _, k := range keysOf(v.Consts) {
				x := v.Consts[k]
				c[k] = m.val(x)
			}
			v.Consts = c
		}
		return v
	case VIter:
		return VIter{m.val(v.Of), m.lin(v.Pos)}
	}
	panic(fmt.Sprintf("mapper: %T", v))
}

// reachable walks values and the objects they reach in a deterministic order.
type reach struct {
	st    *State
	objs  []int
	seen  map[int]bool
	syms  map[Sym]bool
	roots map[int]bool
	queue []int
	m     mapper
}

func newReach(st *State) *reach {
	r := &reach{st: st, seen: map[int]bool{}, syms: map[Sym]bool{}, roots: map[int]bool{}}
	r.m = mapper{
		lin: func(l Lin) Lin {
			for _, t := range l.T {
				r.syms[t.S] = true
			}
			return l
		},
		obj:  func(id int) int { r.addObj(id); return id },
		root: func(id int) int { r.roots[id] = true; return id },
		alt:  func(id int) int { return id },
	}
	return r
}
func (r *reach) addObj(id int) {
	if r.seen[id] {
		return
	}
	r.seen[id] = true
	if _, ok := r.st.heap[id]; !ok {
		return // fixed object
	}
	r.objs = append(r.objs, id)
	r.queue = append(r.queue, id)
}
func (r *reach) val(v Val) {
	r.m.val(v)
	r.drain()
}
func (r *reach) drain() {
	for len(r.queue) > 0 {
		id := r.queue[0]
		r.queue = r.queue[1:]
		if o := r.st.heap[id]; o.C != nil {
			r.m.val(o.C)
		}
	}
}
func (r *reach) bytesFacts() {
	for _, f := range r.st.bytes {
		if r.roots[f.Root] {
			r.m.lin(f.At)
			r.m.lin(f.V)
		}
	}
}

// normVals rewrites every value with the poly's equalities.
func (st *State) normAll() {
	m := mapper{
		lin:  st.P.norm,
		obj:  func(i int) int { return i },
		root: func(i int) int { return i },
		alt:  func(i int) int { return i },
	}
	for i, v := range st.env {
		if v != nil {
			st.env[i] = m.val(v)
		}
	}
	for _, id := range keysOf(st.heap) {
		o := st.heap[id]
		if o.Keep {
			continue
		}
		c := *o
		c.C = m.val(o.C)
		st.heap[id] = &c
	}
	for i, f := range st.bytes {
		st.bytes[i].At = st.P.norm(f.At)
		st.bytes[i].V = st.P.norm(f.V)
	}
}

// collect drops unreachable objects and symbols. roots lists extra values.
func (st *State) collect(extra []int, vals ...Val) {
	r := newReach(st)
	for _, v := range st.env {
		if v != nil {
			r.val(v)
		}
	}
	for _, v := range vals {
		r.val(v)
	}
	for _, id := range extra {
		r.addObj(id)
	}
	var gl []int
	for id := range st.heap {
		if id > 0 && id < firstID {
			gl = append(gl, id)
		}
	}
	sort.Ints(gl)
	for _, id := range gl {
		r.addObj(id)
	}
	r.drain()
	for id := range st.heap {
		if !r.seen[id] {
			delete(st.heap, id)
		}
	}
	for id := range st.facts {
		if !r.roots[id] {
			delete(st.facts, id)
		}
	}
	var nb []ByteFact
	for _, f := range st.bytes {
		if r.roots[f.Root] {
			nb = append(nb, f)
		}
	}
	st.bytes = nb
	r.bytesFacts()
	st.P.project(func(s Sym) bool { return s < 0 || r.syms[s] })
}

// subst replaces an alternative everywhere.
func (st *State) choose(id int, pick int) {
	if id < 0 {
		if st.picked == nil {
			st.picked = map[int]int{}
		}
		st.picked[id] = pick
	}
	var m mapper
	idl := func(l Lin) Lin { return l }
	idi := func(i int) int { return i }
	m = mapper{lin: idl, obj: idi, root: idi, alt: idi}
	var fix func(v Val) (Val, bool)
	fixList := func(vs []Val) ([]Val, bool) {
		ch := false
		out := vs
		for i, x := range vs {
			if y, c := fix(x); c {
				if !ch {
					out = append([]Val(nil), vs...)
					ch = true
				}
				out[i] = y
			}
		}
		return out, ch
	}
	fix = func(v Val) (Val, bool) {
		switch v := v.(type) {
		case VAlt:
			if v.ID == id {
				if pick < len(v.Alts) {
					x, _ := fix(v.Alts[pick])
					return x, true
				}
				return v, false
			}
			l, c := fixList(v.Alts)
			return VAlt{v.ID, l}, c
		case VStruct:
			l, c := fixList(v.F)
			return VStruct{l}, c
		case VArr:
			l, c := fixList(v.E)
			return VArr{l}, c
		case VTuple:
			l, c := fixList(v.V)
			return VTuple{l}, c
		case VIface:
			x, c := fix(v.V)
			return VIface{v.T, x}, c
		case VFunc:
			l, c := fixList(v.Bind)
			return VFunc{v.Fn, l}, c
		}
		return v, false
	}
	_ = m
	for i, v := range st.env {
		if v != nil {
			if x, c := fix(v); c {
				st.env[i] = x
			}
		}
	}
	for _, k := range keysOf(st.heap) {
		o := st.heap[k]
		if x, c := fix(o.C); c {
			n := *o
			n.C = x
			st.heap[k] = &n
		}
	}
}

// ---- canonical form ----

type canon struct {
	st    *State
	sym   map[Sym]Sym
	obj   map[int]int
	root  map[int]int
	alt   map[int]int
	order []int // objects in order
	queue []int
	b     strings.Builder
	m     mapper
	exprs []Lin // compound expressions of the state
	// generalised printing
	typed bool
}

func newCanon(st *State) *canon {
	c := &canon{st: st, sym: map[Sym]Sym{}, obj: map[int]int{}, root: map[int]int{}, alt: map[int]int{}}
	c.m = mapper{
		lin: func(l Lin) Lin {
			l = st.P.norm(l)
			for _, t := range l.T {
				if _, ok := c.sym[t.S]; !ok {
					c.sym[t.S] = Sym(-1 - len(c.sym))
				}
			}
			r := l.rename(func(s Sym) Sym { return c.sym[s] })
			if len(r.T) > 1 || len(r.T) == 1 && (r.T[0].K != 1 || r.C.sign() != 0) {
				c.exprs = append(c.exprs, r)
			}
			return r
		},
		obj: func(id int) int {
			if id > 0 && id < firstID {
				c.addObj(id)
				return id
			}
			c.addObj(id)
			return c.obj[id]
		},
		root: func(id int) int {
			n, ok := c.root[id]
			if !ok {
				n = -1 - len(c.root)
				c.root[id] = n
			}
			return n
		},
		alt: func(id int) int {
			n, ok := c.alt[id]
			if !ok {
				n = -1 - len(c.alt)
				c.alt[id] = n
			}
			return n
		},
	}
	return c
}

func (c *canon) addObj(id int) {
	if _, ok := c.obj[id]; ok {
		return
	}
	if id > 0 && id < firstID {
		c.obj[id] = id
	} else {
		c.obj[id] = -1 - len(c.obj)
	}
	if _, ok := c.st.heap[id]; !ok {
		return
	}
	c.order = append(c.order, id)
	c.queue = append(c.queue, id)
}

// state builds the canonical entry state for the given values and globals.
func (c *canon) state(vals []Val, globals []int) (*State, []Val, string) {
	in := c.st.in
	n := &State{in: in, heap: map[int]*Obj{}, facts: map[int]RootFact{}}
	out := make([]Val, len(vals))
	for i, v := range vals {
		out[i] = c.m.val(v)
		c.b.WriteString(valStr(out[i]))
		c.b.WriteByte(';')
	}
	for _, g := range globals {
		c.addObj(g)
	}
	for len(c.queue) > 0 {
		id := c.queue[0]
		c.queue = c.queue[1:]
		o := c.st.heap[id]
		no := *o
		if !o.Keep {
			no.C = c.m.val(o.C)
			fmt.Fprintf(&c.b, "o%d:%s%v%v=%s;", c.obj[id], typeKey(o.T), o.Ext, o.Sum, valStr(no.C))
		}
		n.heap[c.obj[id]] = &no
	}
	for _, f := range c.st.bytes {
		if _, ok := c.root[f.Root]; ok {
			nf := ByteFact{c.root[f.Root], c.m.lin(f.At), c.m.lin(f.V)}
			n.bytes = append(n.bytes, nf)
			fmt.Fprintf(&c.b, "b%d[%v]=%v;", nf.Root, nf.At, nf.V)
		}
	}
	var rs []string
	for r, nr := range c.root {
		if f, ok := c.st.facts[r]; ok {
			n.facts[nr] = f
			rs = append(rs, fmt.Sprintf("r%d=%q/%d;", nr, f.Pre, f.Fst))
		}
	}
	sort.Strings(rs)
	c.b.WriteString(strings.Join(rs, ""))
	p := c.st.P.clone()
	p.project(func(s Sym) bool { _, ok := c.sym[s]; return ok })
	n.P = p.rename(func(s Sym) Sym {
		x, ok := c.sym[s]
		if !ok {
			panic("canon: symbol escaped projection")
		}
		return x
	})
	n.P.snap(c.exprs)
	c.b.WriteString(n.P.String())
	return n, out, c.b.String()
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	if s, ok := typeKeys[t]; ok {
		return s
	}
	s := types.TypeString(t, nil)
	typeKeys[t] = s
	return s
}

// keysOf lists the keys of m in order.
func keysOf[K cmp.Ordered, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	slices.Sort(ks)
	return ks
}
