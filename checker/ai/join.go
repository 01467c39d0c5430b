package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ---- signatures: which states may be joined ----

const (
	sigConst  = iota // shapes, booleans, small constants of locals
	sigStrict        // shapes, booleans everywhere
	sigEnv           // booleans of locals and ghosts only
	sigShape         // shapes only
	sigRets          // shapes of the given values only
)

type signer struct {
	st    *State
	level int
	b     strings.Builder
	obj   map[int]int
	alt   map[int]int
	queue []int
	heap  bool
	ret   bool
}

func (s *signer) objID(id int) {
	n, ok := s.obj[id]
	if !ok {
		n = len(s.obj) + 1
		s.obj[id] = n
		if s.level < sigRets {
			s.queue = append(s.queue, id)
		}
	}
	if id < firstID && id > 0 {
		fmt.Fprintf(&s.b, "g%d", id)
	} else if s.level < sigRets {
		fmt.Fprintf(&s.b, "o%d", n)
	} else {
		s.b.WriteByte('o')
	}
}
func (s *signer) list(vs []Val) {
	for _, v := range vs {
		s.val(v)
		s.b.WriteByte(',')
	}
}
func (s *signer) val(v Val) {
	switch v := v.(type) {
	case nil, VLazy, VTop, VExt, VBot, VRange, VAnyStr, VAnySlice:
	case VNil:
		s.b.WriteByte('N')
	case VInt:
		if v.B && (s.level <= sigStrict || (s.level == sigEnv && !s.heap) || s.level == sigRets) {
			if c, ok := s.st.P.norm(v.L).constVal(); ok {
				fmt.Fprintf(&s.b, "b%d", c)
			} else {
				s.b.WriteString("b?")
			}
		} else if !v.B && (s.ret && s.level <= sigStrict || s.level == sigConst && !s.heap) {
			if c, ok := s.st.P.norm(v.L).constVal(); ok && c >= -1 && c <= 1 {
				fmt.Fprintf(&s.b, "c%d", c)
			}
		}
	case VStr:
		if v.Prov != nil {
			fmt.Fprintf(&s.b, "p%d", v.Prov.Kind)
		}
	case VPtr:
		s.b.WriteByte('&')
		s.objID(v.Obj)
		for _, e := range v.Path {
			if e.IsIdx {
				s.b.WriteString("[]")
			} else {
				fmt.Fprintf(&s.b, ".%d", e.F)
			}
		}
	case VSlice:
		s.b.WriteByte('S')
		s.objID(v.Obj)
		for _, e := range v.Path {
			if e.IsIdx {
				s.b.WriteString("[]")
			} else {
				fmt.Fprintf(&s.b, ".%d", e.F)
			}
		}
		if v.Prov != nil {
			fmt.Fprintf(&s.b, "p%d", v.Prov.Kind)
		}
	case VIface:
		s.b.WriteString("I<" + typeKey(v.T) + ">")
		s.val(v.V)
	case VFunc:
		s.b.WriteString("F" + v.Fn.String())
		s.list(v.Bind)
	case VStruct:
		s.b.WriteByte('{')
		s.list(v.F)
		s.b.WriteByte('}')
	case VArr:
		s.b.WriteByte('[')
		s.list(v.E)
		s.b.WriteByte(']')
	case VTuple:
		s.b.WriteByte('(')
		s.list(v.V)
		s.b.WriteByte(')')
	case VSmash:
		s.b.WriteByte('*')
		if v.Cen != nil {
			fmt.Fprintf(&s.b, "c%d", v.Cen.Last)
		}
		if v.Seq != nil {
			s.b.WriteByte('q')
		}
		if v.Prov != nil {
			s.b.WriteByte('p')
		}
	case VAlt:
		n, ok := s.alt[v.ID]
		if !ok {
			n = len(s.alt)
			s.alt[v.ID] = n
		}
		if s.level < sigShape {
			fmt.Fprintf(&s.b, "A%d<", n)
		} else {
			s.b.WriteString("A<")
		}
		s.list(v.Alts)
		s.b.WriteByte('>')
	case VMap:
		s.b.WriteByte('M')
	case VIter:
		s.b.WriteByte('T')
		s.val(v.Of)
	default:
		panic(fmt.Sprintf("sig %T", v))
	}
}

// signature of a state. vals are extra values (results).
func (st *State) signature(level int, vals []Val, extra []int) string {
	s := &signer{st: st, level: level, obj: map[int]int{}, alt: map[int]int{}}
	s.ret = true
	s.list(vals)
	s.ret = false
	if st.cls != 0 {
		fmt.Fprintf(&s.b, "^%d", st.cls)
	}
	if level < sigRets {
		for i, v := range st.env {
			if v != nil {
				fmt.Fprintf(&s.b, "|%d:", i)
				s.val(v)
			}
		}
		for _, id := range extra {
			s.objID(id)
		}
	}
	// ghost and package variables take part at every level
	var gl []int
	for id, o := range st.heap {
		if id > 0 && id < firstID && !o.Keep {
			gl = append(gl, id)
		}
	}
	sort.Ints(gl)
	for _, id := range gl {
		if o := st.heap[id]; isBool(o.T) || level < sigRets {
			fmt.Fprintf(&s.b, "|g%d=", id)
			lv := s.level
			if isBool(o.T) && level != sigShape {
				s.level = min(s.level, sigStrict)
			}
			s.val(o.C)
			s.level = lv
			s.obj[id] = 0
		}
	}
	if st.in != nil && st.in.Attach {
		st.stickySig(&s.b)
	}
	s.heap = true
	for len(s.queue) > 0 {
		id := s.queue[0]
		s.queue = s.queue[1:]
		o := st.heap[id]
		if o == nil || o.Keep || (id > 0 && id < firstID) {
			continue
		}
		fmt.Fprintf(&s.b, "|%d=%v", s.obj[id], o.Sum)
		s.val(o.C)
	}
	return s.b.String()
}

// stickySig writes the sticky fields of all objects.
func (st *State) stickySig(b *strings.Builder) {
	var l []string
	held := false // something that can be attached is held
	for _, o := range st.heap {
		if o.Sum || o.Keep {
			continue
		}
		if !o.Ext && st.in.overlayFn("vattach_", o.T) != nil {
			held = true
		}
		sv, ok := o.C.(VStruct)
		if !ok {
			continue
		}
		e := ""
		for _, f := range st.in.stickyFields(o.T) {
			if v, ok := sv.F[f].(VInt); ok {
				if c, ok := st.P.norm(v.L).constVal(); ok {
					e += fmt.Sprint(c)
					continue
				}
			}
			e += "?"
		}
		l = append(l, e)
	}
	if held {
		sort.Strings(l)
		b.WriteString(strings.Join(l, "!"))
	}
}

// ---- joins ----

type joinPair struct {
	phi    Sym
	ea, eb Lin
	g      int64 // phi stands for a quantity divided by g
}

type joiner struct {
	scale  int64
	in     *Interp
	a, b   *State
	out    *State
	pairs  map[string]Sym
	list   []joinPair
	phis   map[Sym]bool // head symbols of a that may be reused
	used   map[Sym]bool
	objAB  map[int]int
	objBA  map[int]int
	queue  [][2]int
	roots  map[[2]int]rootPair
	rootOf map[int][2]int
	alts   map[[2]int]int
	imp    map[int]int
}

type rootPair struct{ id int }

func (j *joiner) lin(ea, eb Lin) Lin {
	ea, eb = j.a.P.norm(ea), j.b.P.norm(eb)
	if ea.equal(eb) {
		return ea
	}
	k := ea.key() + "|" + eb.key()
	if s, ok := j.pairs[k]; ok {
		return LS(s)
	}
	if g, r := congruence(ea, eb); g > 1 {
		old := j.scale
		if j.scale < 1<<30 && g < 1<<30 {
			j.scale = max(j.scale, 1) * g
		}
		l, ok := j.lin(ea.divExact(r, g), eb.divExact(r, g)).scale(g)
		j.scale = old
		if ok {
			return l.addC(r)
		}
	}
	var s Sym
	if x, ok := ea.single(); ok && j.phis[x] && !j.used[x] {
		s = x
		j.used[x] = true
	} else {
		s = j.in.sym()
	}
	j.pairs[k] = s
	j.list = append(j.list, joinPair{s, ea, eb, max(j.scale, 1)})
	return LS(s)
}

// congruence finds g and r such that both values are r modulo g, at least one
// of them being a multiple of a symbol.
func congruence(a, b Lin) (g, r int64) {
	if len(a.T)+len(b.T) == 0 {
		return 1, 0
	}
	for _, t := range a.T {
		g = gcd(g, t.K)
	}
	for _, t := range b.T {
		g = gcd(g, t.K)
	}
	d := a.C.sub(b.C)
	if g <= 1 || !d.isI64() || !a.C.isI64() {
		return 1, 0
	}
	g = gcd(g, d.i64())
	if g <= 1 {
		return 1, 0
	}
	r = a.C.i64() % g
	if r < 0 {
		r += g
	}
	return g, r
}

// divExact is (l-r)/g.
func (l Lin) divExact(r, g int64) Lin {
	n := Lin{C: l.C.sub(I(r)).floorDiv(g)}
	for _, t := range l.T {
		t.K /= g
		n.T = append(n.T, t)
	}
	return n
}

func samePathShape(p, q []PE) bool {
	if len(p) != len(q) {
		return false
	}
	for i := range p {
		if p[i].IsIdx != q[i].IsIdx || p[i].F != q[i].F {
			return false
		}
	}
	return true
}
func (j *joiner) path(p, q []PE) []PE {
	if len(p) == 0 {
		return nil
	}
	out := make([]PE, len(p))
	for i := range p {
		out[i] = p[i]
		if p[i].IsIdx {
			out[i].Idx = j.lin(p[i].Idx, q[i].Idx)
		}
	}
	return out
}

// matchObj pairs object x of a with y of b.
func (j *joiner) matchObj(x, y int) bool {
	xf := x > 0 && x < firstID
	yf := y > 0 && y < firstID
	if xf || yf {
		if x == y {
			if _, ok := j.objAB[x]; !ok {
				j.objAB[x], j.objBA[y] = y, x
				if _, live := j.a.heap[x]; live {
					j.queue = append(j.queue, [2]int{x, y})
				}
			}
			return true
		}
		return false
	}
	if m, ok := j.objAB[x]; ok {
		return m == y
	}
	if _, ok := j.objBA[y]; ok {
		return false
	}
	ox, oy := j.a.heap[x], j.b.heap[y]
	if ox == nil || oy == nil || typeKey(ox.T) != typeKey(oy.T) || ox.Ext != oy.Ext || ox.Sum != oy.Sum {
		return false
	}
	j.objAB[x], j.objBA[y] = y, x
	j.queue = append(j.queue, [2]int{x, y})
	return true
}

// importB brings an unmatched value of b into the result.
func (j *joiner) importVal(v Val, from *State) Val {
	var m mapper
	m = mapper{
		lin: func(l Lin) Lin {
			l = from.P.norm(l)
			if l.isConst() {
				return l
			}
			s := j.in.sym()
			b := from.P.interval(l)
			j.out.P.bnd[s] = b
			return LS(s)
		},
		root: func(r int) int { return j.in.id() },
		alt:  func(r int) int { return j.in.id() },
		obj: func(id int) int {
			if id > 0 && id < firstID {
				return id
			}
			if from == j.a {
				if _, ok := j.objAB[id]; ok {
					return id
				}
			} else if x, ok := j.objBA[id]; ok {
				return x
			}
			k := id * 2
			if from == j.a {
				k++
			}
			if n, ok := j.imp[k]; ok {
				return n
			}
			n := j.in.id()
			j.imp[k] = n
			o := from.heap[id]
			if o == nil {
				return n
			}
			c := *o
			j.out.heap[n] = &c
			c2 := c
			c2.C = m.val(o.C)
			j.out.heap[n] = &c2
			return n
		},
	}
	return m.val(v)
}

func (j *joiner) altOf(va, vb Val) Val {
	// union of alternatives
	var as, bs []Val
	if x, ok := va.(VAlt); ok {
		as = x.Alts
	} else {
		as = []Val{va}
	}
	if x, ok := vb.(VAlt); ok {
		bs = x.Alts
	} else {
		bs = []Val{vb}
	}
	var out []Val
	usedB := make([]bool, len(bs))
	for _, a := range as {
		done := false
		for i, b := range bs {
			if usedB[i] || !j.compatible(a, b) {
				continue
			}
			usedB[i] = true
			out = append(out, j.val(a, b))
			done = true
			break
		}
		if !done {
			out = append(out, j.importVal(a, j.a))
		}
	}
	for i, b := range bs {
		if !usedB[i] {
			out = append(out, j.importVal(b, j.b))
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) > 10 {
		return VTop{}
	}
	return VAlt{j.in.id(), out}
}

func (j *joiner) compatible(a, b Val) bool {
	switch x := a.(type) {
	case VNil:
		return isNil(b)
	case VPtr:
		y, ok := b.(VPtr)
		if !ok || !samePathShape(x.Path, y.Path) {
			return false
		}
		if m, ok := j.objAB[x.Obj]; ok {
			return m == y.Obj
		}
		if _, ok := j.objBA[y.Obj]; ok {
			return false
		}
		if x.Obj > 0 && x.Obj < firstID || y.Obj > 0 && y.Obj < firstID {
			return x.Obj == y.Obj
		}
		ox, oy := j.a.heap[x.Obj], j.b.heap[y.Obj]
		return ox != nil && oy != nil && typeKey(ox.T) == typeKey(oy.T) && ox.Ext == oy.Ext && ox.Sum == oy.Sum
	case VSlice:
		y, ok := b.(VSlice)
		return ok && j.compatible(VPtr{x.Obj, x.Path}, VPtr{y.Obj, y.Path})
	case VIface:
		y, ok := b.(VIface)
		return ok && typeKey(x.T) == typeKey(y.T) && j.compatible(x.V, y.V)
	case VFunc:
		y, ok := b.(VFunc)
		if !ok || x.Fn != y.Fn || len(x.Bind) != len(y.Bind) {
			return false
		}
		for i := range x.Bind {
			if !j.compatible(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case VInt:
		_, ok := b.(VInt)
		return ok
	case VStr:
		_, ok := b.(VStr)
		return ok
	case VStruct:
		y, ok := b.(VStruct)
		return ok && len(x.F) == len(y.F)
	case VArr:
		y, ok := b.(VArr)
		return ok && len(x.E) == len(y.E)
	}
	return fmt.Sprintf("%T", a) == fmt.Sprintf("%T", b)
}

func (j *joiner) prov(p, q *Prov) *Prov {
	if p == nil || q == nil || p.Kind != q.Kind {
		return nil
	}
	r := *p
	if p.Obj != 0 || q.Obj != 0 {
		if j.objAB[p.Obj] != q.Obj || q.Obj == 0 {
			return nil
		}
	}
	r.L = j.lin(p.L, q.L)
	return &r
}

func (j *joiner) lists(a, b []Val) []Val {
	out := make([]Val, len(a))
	for i := range a {
		out[i] = j.val(a[i], b[i])
	}
	return out
}

func (j *joiner) val(va, vb Val) Val {
	if va == nil || vb == nil {
		return nil
	}
	if _, ok := va.(VTop); ok {
		return VTop{}
	}
	if _, ok := vb.(VTop); ok {
		return VTop{}
	}
	if x, ok := va.(VAlt); ok {
		if y, ok := vb.(VAlt); ok && len(x.Alts) == len(y.Alts) {
			same := true
			for i := range x.Alts {
				if !j.compatible(x.Alts[i], y.Alts[i]) {
					same = false
				}
			}
			if same {
				k := [2]int{x.ID, y.ID}
				id, ok := j.alts[k]
				if !ok {
					if x.ID == y.ID {
						id = x.ID
					} else {
						id = j.in.id()
					}
					j.alts[k] = id
				}
				return VAlt{id, j.lists(x.Alts, y.Alts)}
			}
		}
		return j.altOf(va, vb)
	}
	if _, ok := vb.(VAlt); ok {
		return j.altOf(va, vb)
	}
	if x, ok := va.(VLazy); ok {
		if y, ok := vb.(VLazy); ok {
			x.NN = x.NN && y.NN
			x.Ext = x.Ext || y.Ext
			return x
		}
		va = j.in.lazyVal(j.a, x, true)
		return j.val(va, vb)
	}
	if y, ok := vb.(VLazy); ok {
		vb = j.in.lazyVal(j.b, y, true)
		return j.val(va, vb)
	}
	switch a := va.(type) {
	case VNil:
		if isNil(vb) {
			return va
		}
	case VInt:
		if b, ok := vb.(VInt); ok {
			return VInt{j.lin(a.L, b.L), a.B}
		}
	case VStr:
		b, ok := vb.(VStr)
		if !ok {
			break
		}
		if a.IsC && b.IsC && a.C == b.C {
			a.Prov = j.prov(a.Prov, b.Prov)
			return a
		}
		if !a.IsC && !b.IsC && a.Root == b.Root {
			return VStr{Root: a.Root, Off: j.lin(a.Off, b.Off), Len: j.lin(a.Len, b.Len), Prov: j.prov(a.Prov, b.Prov)}
		}
		if !a.IsC && !b.IsC {
			k := [2]int{a.Root, b.Root}
			r, ok := j.roots[k]
			if !ok {
				r = rootPair{j.in.id()}
				j.roots[k] = r
			}
			return VStr{Root: r.id, Off: j.lin(a.Off, b.Off), Len: j.lin(a.Len, b.Len), Prov: j.prov(a.Prov, b.Prov)}
		}
		id := j.in.id()
		if f, ok := j.commonFact(a, b); ok {
			j.out.facts[id] = f
		}
		return VStr{Root: id, Off: LC(0), Len: j.lin(a.Len, b.Len), Prov: j.prov(a.Prov, b.Prov)}
	case VPtr:
		if b, ok := vb.(VPtr); ok && samePathShape(a.Path, b.Path) && j.matchObj(a.Obj, b.Obj) {
			return VPtr{a.Obj, j.path(a.Path, b.Path)}
		}
		return j.altOf(va, vb)
	case VSlice:
		if b, ok := vb.(VSlice); ok && samePathShape(a.Path, b.Path) && j.matchObj(a.Obj, b.Obj) {
			return VSlice{a.Obj, j.path(a.Path, b.Path), j.lin(a.Off, b.Off), j.lin(a.Len, b.Len), j.lin(a.Cap, b.Cap), j.prov(a.Prov, b.Prov)}
		}
		return j.altOf(va, vb)
	case VIface:
		if b, ok := vb.(VIface); ok && typeKey(a.T) == typeKey(b.T) {
			if _, isp := a.V.(VPtr); isp && !j.compatible(a.V, b.V) {
				return j.altOf(va, vb)
			}
			return VIface{a.T, j.val(a.V, b.V)}
		}
		return j.altOf(va, vb)
	case VFunc:
		if b, ok := vb.(VFunc); ok && a.Fn == b.Fn && len(a.Bind) == len(b.Bind) && j.compatible(va, vb) {
			return VFunc{a.Fn, j.lists(a.Bind, b.Bind)}
		}
		return j.altOf(va, vb)
	case VStruct:
		if b, ok := vb.(VStruct); ok && len(a.F) == len(b.F) {
			return VStruct{j.lists(a.F, b.F)}
		}
	case VArr:
		if b, ok := vb.(VArr); ok && len(a.E) == len(b.E) {
			return VArr{j.lists(a.E, b.E)}
		}
		return j.joinArr(va, vb)
	case VTuple:
		if b, ok := vb.(VTuple); ok && len(a.V) == len(b.V) {
			return VTuple{j.lists(a.V, b.V)}
		}
	case VSmash:
		if b, ok := vb.(VSmash); ok {
			return j.joinSmash(a, b)
		}
		return j.joinArr(va, vb)
	case VExt:
		if b, ok := vb.(VExt); ok {
			return VExt{j.lin(a.N, b.N)}
		}
	case VMap:
		if b, ok := vb.(VMap); ok {
			if a.Closed && b.Closed && len(a.Consts) == len(b.Consts) {
				same := true
				for k := range a.Consts {
					if x, ok := b.Consts[k]; !ok || valStr(x) != valStr(a.Consts[k]) {
						same = false
					}
				}
				if same {
					return a
				}
			}
			return VMap{K: tmplJoin(a.K, b.K), V: tmplJoin(a.V, b.V)}
		}
	case VIter:
		if b, ok := vb.(VIter); ok {
			return VIter{j.val(a.Of, b.Of), j.lin(a.Pos, b.Pos)}
		}
	case VRange, VAnyStr, VAnySlice, VBot:
		return tmplJoin(va, vb)
	}
	if isNil(va) || isNil(vb) {
		return j.altOf(va, vb)
	}
	return VTop{}
}

func (j *joiner) commonFact(a, b VStr) (RootFact, bool) {
	pa, oka := j.a.strPrefix(a)
	pb, okb := j.b.strPrefix(b)
	if !oka || !okb {
		return RootFact{}, false
	}
	n := 0
	for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
		n++
	}
	if n == 0 {
		return RootFact{}, false
	}
	return RootFact{Pre: pa[:n]}, true
}

// strPrefix returns the known first bytes of s.
func (st *State) strPrefix(s VStr) (string, bool) {
	if s.IsC {
		return s.C, true
	}
	o, ok := st.P.norm(s.Off).constVal()
	if !ok || o < 0 {
		return "", false
	}
	f, ok := st.facts[s.Root]
	if !ok || int64(len(f.Pre)) <= o {
		return "", false
	}
	return f.Pre[o:], true
}

func (j *joiner) joinArr(va, vb Val) Val {
	a, oka := j.in.asSmash(va)
	b, okb := j.in.asSmash(vb)
	if oka && okb {
		return j.joinSmash(a, b)
	}
	return VTop{}
}

func (j *joiner) joinSmash(a, b VSmash) Val {
	r := VSmash{T: a.T, N: j.lin(a.N, b.N), El: tmplJoin(a.El, b.El)}
	if r.T == nil {
		r.T = b.T
	}
	if a.Cen != nil && b.Cen != nil {
		c := &Census{Cur: j.lin(a.Cen.Cur, b.Cen.Cur), Last: a.Cen.Last}
		if b.Cen.Last != a.Cen.Last {
			c.Last = -1
		}
		for i := range c.Tot {
			c.Tot[i] = j.lin(a.Cen.Tot[i], b.Cen.Tot[i])
			c.Cnt[i] = j.lin(a.Cen.Cnt[i], b.Cen.Cnt[i])
		}
		r.Cen = c
	}
	if a.Seq != nil && b.Seq != nil {
		r.Seq = &Seq{j.lin(a.Seq.N, b.Seq.N), j.lin(a.Seq.Last, b.Seq.Last), a.Seq.Root}
		if a.Seq.Root != b.Seq.Root {
			k := [2]int{a.Seq.Root, b.Seq.Root}
			p, ok := j.roots[k]
			if !ok {
				p = rootPair{j.in.id()}
				j.roots[k] = p
			}
			r.Seq.Root = p.id
		}
	}
	if a.Prov != nil && b.Prov != nil {
		l := j.lin(*a.Prov, *b.Prov)
		r.Prov, r.ProvN = &l, j.lin(a.ProvN, b.ProvN)
	}
	return r
}

// asSmash converts array content to a summary.
func (in *Interp) asSmash(v Val) (VSmash, bool) {
	switch v := v.(type) {
	case VSmash:
		return v, true
	case VArr:
		s := VSmash{N: LC(int64(len(v.E))), El: VBot{}}
		for _, e := range v.E {
			s.El = tmplJoin(s.El, in.tmpl(nil, e, nil))
		}
		return s, true
	}
	return VSmash{}, false
}

// joinStates joins b into a; both must have the same signature for precision.
// phis are the reusable head symbols of a (may be nil).
func (in *Interp) joinStates(a, b *State, vals, valsB []Val, phis map[Sym]bool, widen *widenInfo) (*State, []Val) {
	in.nJoin++
	out := &State{in: in, P: newPoly(), heap: map[int]*Obj{}, facts: map[int]RootFact{}, path: a.path, cls: a.cls}
	j := &joiner{in: in, a: a, b: b, out: out, pairs: map[string]Sym{}, phis: phis, used: map[Sym]bool{},
		objAB: map[int]int{}, objBA: map[int]int{}, roots: map[[2]int]rootPair{}, alts: map[[2]int]int{}, imp: map[int]int{}}
	for _, k := range keysOf(a.picked) {
		v := a.picked[k]
		if w, ok := b.picked[k]; ok && w == v {
			if out.picked == nil {
				out.picked = map[int]int{}
			}
			out.picked[k] = v
		}
	}
	// pin head symbols to their own positions first
	out.env = make([]Val, len(a.env))
	var gl []int
	for id := range a.heap {
		if id > 0 && id < firstID {
			gl = append(gl, id)
		}
	}
	sort.Ints(gl)
	for _, id := range gl {
		j.matchObj(id, id)
	}
	if widen != nil {
		for _, id := range widen.keepObjs {
			if _, ok := a.heap[id]; ok {
				j.matchObj(id, id)
			}
		}
	}
	for i := range a.env {
		out.env[i] = j.val(a.env[i], b.env[i])
	}
	rv := make([]Val, len(vals))
	for i := range vals {
		rv[i] = j.val(vals[i], valsB[i])
	}
	for len(j.queue) > 0 {
		q := j.queue[0]
		j.queue = j.queue[1:]
		x, y := a.heap[q[0]], b.heap[q[1]]
		if x == nil || y == nil {
			if x != nil {
				out.heap[q[0]] = x
			}
			continue
		}
		if x.Keep && y.Keep {
			out.heap[q[0]] = x
			continue
		}
		o := *x
		o.C = j.val(x.C, y.C)
		out.heap[q[0]] = &o
	}
	for _, r := range keysOf(a.facts) {
		f := a.facts[r]
		if g, ok := b.facts[r]; ok {
			n := 0
			for n < len(f.Pre) && n < len(g.Pre) && f.Pre[n] == g.Pre[n] {
				n++
			}
			if n > 0 {
				out.facts[r] = RootFact{Pre: f.Pre[:n]}
			}
		}
	}
	for k, r := range j.roots {
		f, g := a.facts[k[0]], b.facts[k[1]]
		n := 0
		for n < len(f.Pre) && n < len(g.Pre) && f.Pre[n] == g.Pre[n] {
			n++
		}
		if n > 0 {
			out.facts[r.id] = RootFact{Pre: f.Pre[:n]}
		}
	}
	for _, f := range a.bytes {
		for _, g := range b.bytes {
			if f.Root != g.Root {
				continue
			}
			va, vb := a.P.norm(f.V), b.P.norm(g.V)
			if a.P.norm(f.At).equal(b.P.norm(g.At)) && va.equal(vb) {
				out.bytes = append(out.bytes, f)
				break
			}
			// a remembered element whose value is still in use
			if s, ok := j.pairs[va.key()+"|"+vb.key()]; ok && len(out.bytes) < 24 {
				out.bytes = append(out.bytes, ByteFact{f.Root, j.lin(f.At, g.At), LS(s)})
				break
			}
		}
	}
	rs := newReach(out)
	for _, v := range out.env {
		if v != nil {
			rs.val(v)
		}
	}
	for _, v := range rv {
		if v != nil {
			rs.val(v)
		}
	}
	for id := range out.heap {
		rs.addObj(id)
	}
	rs.drain()
	rs.bytesFacts()
	for s := range a.P.bnd {
		if s < 0 {
			rs.syms[s] = true
		}
	}
	for s := range a.P.sub {
		if s < 0 {
			rs.syms[s] = true
		}
	}
	in.lastPhis = map[Sym]bool{}
	for _, p := range j.list {
		in.lastPhis[p.phi] = true
		if widen == nil || widen.practical == nil {
			continue
		}
		if _, ok := widen.practical[p.phi]; !ok {
			iv := a.P.interval(a.P.norm(p.ea))
			if !iv.hasLo || !iv.hasHi || iv.lo.cmp(pow2(60).neg()) < 0 || iv.hi.cmp(pow2(60)) > 0 {
				iv.lo, iv.hasLo = a.P.minOf(a.P.norm(p.ea))
				iv.hi, iv.hasHi = a.P.maxOf(a.P.norm(p.ea))
			}
			if iv.hasLo && iv.hasHi {
				widen.practical[p.phi] = practicalBound(iv, p.g)
			}
		}
	}
	in.lastPairs = j.list
	out.P = polyJoin(a.P, b.P, j.list, rs.syms, out.P, widen, in.Cfg.Tight, out.templates(in))
	out.lengths(rv)
	if in.TraceKey != "" && len(in.stack) > 0 && in.stack[len(in.stack)-1].info.fn.Name() == in.TraceKey {
		fmt.Printf("JOIN\n  A %s\n  B %s\n", a.P, b.P)
		for _, q := range j.list {
			fmt.Printf("   %v: %v %v\n", q.phi, q.ea, q.eb)
		}
		fmt.Printf("  R %s\n", out.P)
	}
	return out, rv
}

// lengths restores what holds of every string and slice and may have been
// lost by widening.
func (st *State) lengths(vals []Val) {
	ge := func(l Lin) {
		l = st.P.norm(l)
		if len(l.T) == 0 {
			return
		}
		if iv := st.P.interval(l); iv.hasLo && iv.lo.sign() >= 0 {
			return
		}
		if !st.P.entails(l) {
			st.P.addGE(l)
		}
	}
	length := func(l Lin) {
		if !l.isConst() {
			ge(l)
			d, _ := LC128(maxLen).sub(l)
			ge(d)
		}
	}
	var walk func(v Val)
	list := func(vs []Val) {
		for _, v := range vs {
			walk(v)
		}
	}
	walk = func(v Val) {
		switch v := v.(type) {
		case VStr:
			if !v.IsC {
				length(v.Len)
				length(v.Off)
			}
		case VSlice:
			length(v.Len)
			length(v.Off)
			if d, ok := v.Cap.sub(v.Len); ok {
				ge(d)
			}
		case VStruct:
			list(v.F)
		case VArr:
			list(v.E)
		case VTuple:
			list(v.V)
		case VAlt:
			list(v.Alts)
		case VIface:
			walk(v.V)
		case VFunc:
			list(v.Bind)
		case VSmash:
			length(v.N)
			if v.Cen == nil {
				break
			}
			rest, cur, okR := v.N, v.Cen.Cur, true
			minus := func(a *Lin, b Lin) {
				d, ok := a.sub(b)
				*a, okR = d, okR && ok
			}
			for i := range v.Cen.Tot {
				ge(v.Cen.Tot[i])
				ge(v.Cen.Cnt[i])
				if d, ok := v.Cen.Tot[i].sub(v.Cen.Cnt[i]); ok {
					ge(d)
				}
				minus(&rest, v.Cen.Tot[i])
				minus(&cur, v.Cen.Cnt[i])
			}
			for _, l := range []Lin{rest, cur} {
				if !okR {
					break
				}
				if l = st.P.norm(l); !st.P.entailsEQ(l) {
					st.P.addEQ(l)
				}
			}
		}
	}
	list(st.env)
	list(vals)
	var ids []int
	for id, o := range st.heap {
		if !o.Keep {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		walk(st.heap[id].C)
		st.typed(st.heap[id].C, st.heap[id].T)
	}
}

// typed restores the range of the type of integers.
func (st *State) typed(v Val, t types.Type) {
	if v == nil || t == nil {
		return
	}
	switch v := v.(type) {
	case VInt:
		lo, hi, ok := intRange(t)
		if !ok {
			return
		}
		l := st.P.norm(v.L)
		if len(l.T) == 0 {
			return
		}
		iv := st.P.interval(l)
		if !iv.hasLo || iv.lo.cmp(lo) < 0 {
			if d, ok := l.sub(LC128(lo)); ok {
				st.P.addGE(d)
			}
		}
		if !iv.hasHi || iv.hi.cmp(hi) > 0 {
			if d, ok := LC128(hi).sub(l); ok {
				st.P.addGE(d)
			}
		}
	case VStruct:
		if u, ok := under(t).(*types.Struct); ok && u.NumFields() == len(v.F) {
			for i, f := range v.F {
				st.typed(f, u.Field(i).Type())
			}
		}
	}
}

// practicalBound is how far a counter starting in iv may get when it moves by
// bounded steps: counters do not reach 2^60.
func practicalBound(iv Bound, g int64) Bound {
	lim := pow2(60).floorDiv(g)
	b := Bound{iv.lo.sub(lim), iv.hi.add(lim), true, true}
	if iv.hi.cmp(lim) <= 0 {
		b.hi = lim
	}
	if iv.lo.cmp(lim.neg()) >= 0 {
		b.lo = lim.neg()
	}
	return b
}

type widenInfo struct {
	on        bool
	practical map[Sym]Bound
	keepObjs  []int
}

var thresholds = []int64{-1, 0, 1, 2, 4, 26, 52, 255, 256, 4096, 32767, 65535, 65536, 1<<24 - 1, 1<<31 - 1, 1<<32 - 1, 1 << 48}

// wThresholds are the stops of widening.
var fineThresholds []int64 // with small constants of the package
var wThresholds = []int64{-1, 0, 1, 2, 4, 52, 256, 1<<32 - 1, 1 << 48}

// polyJoin joins two polyhedra after equating the pairs.
func polyJoin(pa, pb *Poly, pairs []joinPair, keep map[Sym]bool, extra *Poly, w *widenInfo, tight bool, templates []Lin) *Poly {
	A, B := pa.clone(), pb.clone()
	isPhi := map[Sym]bool{}
	for _, pr := range pairs {
		isPhi[pr.phi] = true
		if s, ok := pr.ea.single(); !ok || s != pr.phi {
			x, _ := LS(pr.phi).sub(pr.ea)
			A.addEQ(x)
		}
		x, _ := LS(pr.phi).sub(pr.eb)
		B.addEQ(x)
	}
	kf := func(s Sym) bool { return keep[s] }
	A.project(kf)
	B.project(kf)
	out := newPoly()
	for s, b := range extra.bnd {
		out.bnd[s] = b
	}
	var ks []Sym
	for s := range keep {
		_, inA := A.bnd[s]
		_, subA := A.sub[s]
		_, inB := B.bnd[s]
		_, subB := B.sub[s]
		if (inA || subA) && (inB || subB) {
			ks = append(ks, s)
		} else if _, ok := out.bnd[s]; !ok {
			out.bnd[s] = Bound{}
		}
	}
	// phis last, others by age
	sort.Slice(ks, func(i, j int) bool {
		if isPhi[ks[i]] != isPhi[ks[j]] {
			return !isPhi[ks[i]]
		}
		return prefer(ks[j], ks[i])
	})
	for _, s := range ks {
		ba, bb := A.interval(A.norm(LS(s))), B.interval(B.norm(LS(s)))
		if tight {
			ba, bb = A.tight(LS(s)), B.tight(LS(s))
		}
		b := Bound{}
		if ba.hasLo && bb.hasLo {
			b.hasLo, b.lo = true, ba.lo
			if bb.lo.cmp(b.lo) < 0 {
				b.lo = bb.lo
			}
		}
		if ba.hasHi && bb.hasHi {
			b.hasHi, b.hi = true, ba.hi
			if bb.hi.cmp(b.hi) > 0 {
				b.hi = bb.hi
			}
		}
		if w != nil && w.on && isPhi[s] {
			b = widenBound(b, ba, s, w)
		}
		if b.hasLo && b.hasHi && b.lo == b.hi {
			out.sub[s] = LC128(b.lo)
			continue
		}
		out.bnd[s] = b
	}
	// affine hull
	for _, eq := range affineHull(A, B, ks, isPhi) {
		out.addEQ(eq)
	}
	// inequalities
	widening := w != nil && w.on
	tryAdd := func(l Lin, other *Poly, relax bool) {
		l = out.norm(l)
		if len(l.T) < 1 {
			return
		}
		if b := out.interval(l); b.hasLo && b.lo.sign() >= 0 {
			return
		}
		if other.entails(l) {
			out.rawAdd(l)
			return
		}
		if relax && !widening {
			if m, ok := other.minOf(l); ok && m.sign() < 0 {
				l.C = l.C.sub(m)
				if len(l.T) > 1 && l.C.abs().cmp(pow2(40)) > 0 {
					return
				}
				if b := out.interval(l); b.hasLo && b.lo.sign() >= 0 {
					return
				}
				out.rawAdd(l)
			}
		}
	}
	rowsOf := func(p *Poly) []Lin {
		var rs []Lin
		rs = append(rs, p.rows...)
		var ss []Sym
		for s := range p.bnd {
			ss = append(ss, s)
		}
		sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
		for _, s := range ss {
			b := p.bnd[s]
			if b.hasLo {
				rs = append(rs, Lin{C: b.lo.neg(), T: []Term{{s, 1}}})
			}
			if b.hasHi {
				rs = append(rs, Lin{C: b.hi, T: []Term{{s, -1}}})
			}
		}
		// bounds of solved symbols, seen from the other side
		ss = ss[:0]
		for s := range p.sub {
			ss = append(ss, s)
		}
		sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
		for _, s := range ss {
			d, ok := LS(s).sub(p.sub[s])
			if ok && len(d.T) > 1 {
				rs = append(rs, d, d.neg())
			}
		}
		return rs
	}
	ra, rb := rowsOf(A), rowsOf(B)
	for _, l := range ra {
		tryAdd(l, B, true)
	}
	if !widening {
		for _, l := range rb {
			tryAdd(l, A, true)
		}
		// variants of rows with equalities substituted backwards
		for k, side := range [][]Lin{ra, rb} {
			p, q := A, B
			if k == 1 {
				p, q = B, A
			}
			n := 0
			for _, l := range side {
				for _, v := range variants(l, p, isPhi) {
					if n++; n > 60 {
						break
					}
					tryAdd(v, q, false)
				}
			}
		}
		facets(A, B, out, ks, isPhi, ra, rb)
		var ph []Sym
		for _, s := range ks {
			if isPhi[s] {
				ph = append(ph, s)
			}
		}
		if len(ph) <= 8 {
			for i := range ph {
				for k := range ph {
					if i == k {
						continue
					}
					l, _ := LS(ph[i]).sub(LS(ph[k]))
					ma, oka := A.minOf(l)
					if !oka || ma.abs().cmp(pow2(40)) > 0 {
						continue
					}
					mb, okb := B.minOf(l)
					if !okb || mb.abs().cmp(pow2(40)) > 0 {
						continue
					}
					if mb.cmp(ma) < 0 {
						ma = mb
					}
					l.C = l.C.sub(ma)
					l = out.norm(l)
					if b := out.interval(l); b.hasLo && b.lo.sign() >= 0 {
						continue
					}
					if !out.entails(l) {
						out.rawAdd(l)
					}
				}
			}
		}
	}
	for _, l := range templates {
		if A.entails(l) && B.entails(l) && !out.entails(l) {
			out.rawAdd(out.norm(l))
		}
	}
	if len(out.rows) > 30 {
		out.reduce()
	}
	return out
}

// templates are inequalities between the numbers of a structure and the census
// of the slices it holds; joins keep them where they can.
func (st *State) templates(in *Interp) []Lin {
	if !in.Cfg.Wide || !in.Watch {
		return nil
	}
	var ids []int
	for id, o := range st.heap {
		if s, ok := o.C.(VStruct); ok && !o.Keep && len(s.F) > 1 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var out []Lin
	for _, id := range ids {
		var nums, tots []Lin
		for _, f := range st.heap[id].C.(VStruct).F {
			switch f := f.(type) {
			case VInt:
				if !f.B && !f.L.isConst() {
					nums = append(nums, f.L)
				}
			case VSlice:
				o := st.heap[f.Obj]
				if o == nil {
					break
				}
				if v, ok := contentAt(o.C, f.Path).(VSmash); ok && v.Cen != nil {
					for _, l := range v.Cen.Tot {
						if !l.isConst() {
							tots = append(tots, l)
						}
					}
				}
			}
		}
		for i, a := range nums {
			for _, b := range nums[i+1:] {
				if d, ok := a.add(b); ok && len(tots) > 0 {
					out = append(out, d.addC(-1))
				}
			}
		}
		for _, t := range tots {
			for i, a := range nums {
				d, ok := t.sub(a)
				if !ok {
					continue
				}
				if len(d.T) > 0 {
					out = append(out, d)
				}
				for _, b := range nums[i+1:] {
					if e, ok := d.sub(b); ok && len(e.T) > 0 {
						out = append(out, e)
					}
				}
			}
		}
	}
	return out
}

// facets relates quantities that are constant on both sides (but different) to
// the other inequalities: with p = ca and l >= ma on one side and p = cb and
// l >= mb on the other, l grows with p.
func facets(A, B, out *Poly, ks []Sym, isPhi map[Sym]bool, ra, rb []Lin) {
	for _, s := range ks {
		if !isPhi[s] {
			continue
		}
		ca, oka := A.norm(LS(s)).constVal()
		cb, okb := B.norm(LS(s)).constVal()
		if !oka || !okb || ca == cb {
			continue
		}
		e := cb - ca
		if abs64(e) > 16 {
			continue
		}
		n := 0
		for _, side := range [][]Lin{ra, rb} {
			for _, l := range side {
				if l.coef(s) != 0 {
					continue
				}
				if n++; n > 40 {
					break
				}
				if l.C.abs().cmp(pow2(30)) > 0 {
					continue
				}
				ma, oka := A.minOf(l)
				mb, okb := B.minOf(l)
				if !oka || !okb || ma == mb {
					continue
				}
				dm := mb.sub(ma)
				if !dm.isI64() || abs64(dm.i64()) > 1024 {
					continue
				}
				d, f := dm.i64(), e
				if f < 0 {
					d, f = -d, -f
				}
				// f*(l-ma) - d*(s-ca) >= 0
				l0 := l
				l0.C = l0.C.sub(ma)
				c, ok := l0.scale(f)
				if !ok {
					continue
				}
				c, ok = c.addMul(LS(s).addC(-ca), -d)
				if !ok {
					continue
				}
				c = out.norm(c)
				if b := out.interval(c); b.hasLo && b.lo.sign() >= 0 {
					continue
				}
				out.rawAdd(c)
			}
		}
	}
}

// variants rewrites row l of p using p's equalities backwards: with s = e and
// a symbol t of e occurring in l, replace t.
func variants(l Lin, p *Poly, isPhi map[Sym]bool) []Lin {
	var out []Lin
	var ss []Sym
	for s := range p.sub {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, s := range ss {
		e := p.sub[s]
		if len(e.T) == 0 {
			// constants: add s - c in both directions with the row's sign
			continue
		}
		for _, t := range e.T {
			if k := l.coef(t.S); k != 0 && (t.K == 1 || t.K == -1) {
				// t = (s - rest)/tk
				rest := Lin{C: e.C}
				for _, x := range e.T {
					if x.S != t.S {
						rest.T = append(rest.T, x)
					}
				}
				d, ok := LS(s).sub(rest)
				if !ok {
					continue
				}
				if t.K == -1 {
					d = d.neg()
				}
				if v, ok := l.subst(t.S, d); ok {
					out = append(out, v)
				}
			}
		}
	}
	return out
}

func widenBound(b, old Bound, s Sym, w *widenInfo) Bound {
	if pr, ok := w.practical[s]; ok {
		// A quantity that moves by bounded additive steps does not get
		// further than 2^60 from where it started.
		if old.hasLo && b.hasLo && b.lo.cmp(old.lo) < 0 && old.lo.sub(b.lo).cmp(pow2(52)) <= 0 && old.lo.cmp(I(-8)) <= 0 {
			b.lo = pr.lo
			old.lo = pr.lo
		}
		if old.hasHi && b.hasHi && b.hi.cmp(old.hi) > 0 && b.hi.sub(old.hi).cmp(pow2(52)) <= 0 && old.hi.cmp(I(256)) >= 0 {
			b.hi = pr.hi
			old.hi = pr.hi
		}
	}
	stops := wThresholds
	if WideFirst {
		stops = fineThresholds
	}
	if b.hasLo && (!old.hasLo || b.lo.cmp(old.lo) < 0) {
		ok := false
		for i := len(stops) - 1; i >= 0; i-- {
			if t := I(stops[i]); t.cmp(b.lo) <= 0 {
				b.lo, ok = t, true
				break
			}
		}
		if !ok {
			if b.lo.cmp(pow2(62).neg()) >= 0 {
				b.lo = pow2(62).neg()
			} else {
				b.hasLo = false
			}
		}
	}
	if b.hasHi && (!old.hasHi || b.hi.cmp(old.hi) > 0) {
		ok := false
		for _, t := range stops {
			if x := I(t); x.cmp(b.hi) >= 0 {
				b.hi, ok = x, true
				break
			}
		}
		if !ok {
			if b.hi.cmp(pow2(62)) <= 0 {
				b.hi = pow2(62)
			} else {
				b.hasHi = false
			}
		}
	}
	return b
}

// affineHull returns equalities (==0) valid in both polyhedra.
func affineHull(A, B *Poly, ks []Sym, isPhi map[Sym]bool) []Lin {
	type key struct {
		side int
		s    Sym
	}
	type vec struct {
		v    map[key]I128 // coordinates
		comb map[Sym]int64
		cc   int64 // coefficient of the constant-one vector
	}
	mk := func(la, lb Lin) map[key]I128 {
		v := map[key]I128{}
		for _, t := range la.T {
			v[key{0, t.S}] = I(t.K)
		}
		for _, t := range lb.T {
			v[key{1, t.S}] = I(t.K)
		}
		if la.C.sign() != 0 {
			v[key{2, 0}] = la.C
		}
		if lb.C.sign() != 0 {
			v[key{3, 0}] = lb.C
		}
		return v
	}
	type row struct {
		vec
		piv key
	}
	var basis []row
	less := func(a, b key) bool {
		if a.side != b.side {
			return a.side < b.side
		}
		return a.s < b.s
	}
	var out []Lin
	add := func(s Sym, v map[key]I128, isOne bool) {
		x := vec{v: v, comb: map[Sym]int64{}}
		if isOne {
			x.cc = 1
		} else {
			x.comb[s] = 1
		}
		for _, r := range basis {
			c, ok := x.v[r.piv]
			if !ok || c.sign() == 0 {
				continue
			}
			p := r.v[r.piv]
			if !c.isI64() || !p.isI64() {
				return
			}
			g := gcd(c.i64(), p.i64())
			if g == 0 {
				return
			}
			kx, kr := p.i64()/g, -(c.i64() / g)
			if abs64(kx) > 1<<20 || abs64(kr) > 1<<30 {
				return
			}
			nv := map[key]I128{}
			for k, e := range x.v {
				m, ok := e.mul(kx)
				if !ok {
					return
				}
				nv[k] = m
			}
			for k, e := range r.v {
				m, ok := e.mul(kr)
				if !ok {
					return
				}
				y := nv[k].add(m)
				if y.sign() == 0 {
					delete(nv, k)
				} else {
					nv[k] = y
				}
			}
			x.v = nv
			for k := range x.comb {
				x.comb[k] *= kx
			}
			x.cc *= kx
			for k, e := range r.comb {
				x.comb[k] += e * kr
				if x.comb[k] == 0 {
					delete(x.comb, k)
				}
			}
			x.cc += r.cc * kr
		}
		if len(x.v) == 0 {
			l := LC(x.cc)
			var ss []Sym
			for s := range x.comb {
				ss = append(ss, s)
			}
			sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
			for _, s := range ss {
				if abs64(x.comb[s]) > maxCoef {
					return
				}
				l.T = append(l.T, Term{s, x.comb[s]})
			}
			if len(l.T) > 0 {
				out = append(out, l)
			}
			return
		}
		var piv key
		first := true
		for k := range x.v {
			if first || less(k, piv) {
				piv, first = k, false
			}
		}
		basis = append(basis, row{x, piv})
	}
	add(0, map[key]I128{{2, 0}: I(1), {3, 0}: I(1)}, true)
	for _, s := range ks {
		la, lb := A.norm(LS(s)), B.norm(LS(s))
		add(s, mk(la, lb), false)
	}
	return out
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// ---- templates ----

// tmpl abstracts a value into a symbol-free template.
func (in *Interp) tmpl(st *State, v Val, t types.Type) Val {
	switch v := v.(type) {
	case VInt:
		if st == nil {
			if v.L.isConst() {
				return VRange{v.L.C, v.L.C, v.B}
			}
			return VTop{}
		}
		b := Bound{}
		if l := st.P.norm(v.L); true {
			lo, okl := st.P.minOf(l)
			hi, okh := st.P.maxOf(l)
			b = Bound{lo, hi, okl, okh}
		}
		if !b.hasLo || !b.hasHi {
			if t != nil {
				if lo, hi, ok := intRange(t); ok {
					return VRange{lo, hi, v.B}
				}
			}
			return VTop{}
		}
		// snap to a few values so that chains are short
		lo, hi := snapLo(b.lo), snapHi(b.hi)
		if t != nil {
			if tl, th, ok := intRange(t); ok {
				if lo.cmp(tl) < 0 {
					lo = tl
				}
				if hi.cmp(th) > 0 {
					hi = th
				}
			}
		}
		return VRange{lo, hi, v.B}
	case VStr:
		if v.IsC {
			return VStr{C: v.C, IsC: true, Len: v.Len}
		}
		return VAnyStr{}
	case VSlice:
		if st != nil {
			if o := st.obj(v.Obj); o != nil {
				if s, ok := under(o.T).(*types.Slice); ok {
					return VAnySlice{s.Elem()}
				}
				if s, ok := under(o.T).(*types.Array); ok && len(v.Path) == 0 {
					return VAnySlice{s.Elem()}
				}
			}
		}
		if t != nil {
			if s, ok := under(t).(*types.Slice); ok {
				return VAnySlice{s.Elem()}
			}
		}
		return VTop{}
	case VStruct:
		f := make([]Val, len(v.F))
		for i := range f {
			var ft types.Type
			if t != nil {
				if s, ok := under(t).(*types.Struct); ok && i < s.NumFields() {
					ft = s.Field(i).Type()
				}
			}
			f[i] = in.tmpl(st, v.F[i], ft)
		}
		return VStruct{f}
	case VIface:
		return VIface{v.T, in.tmpl(st, v.V, v.T)}
	case VAlt:
		out := make([]Val, len(v.Alts))
		for i := range out {
			out[i] = in.tmpl(st, v.Alts[i], t)
		}
		return VAlt{0, out}
	case VPtr:
		for _, e := range v.Path {
			if e.IsIdx && !e.Idx.isConst() {
				return VTop{}
			}
		}
		return v
	case VFunc:
		return v
	case VExt:
		return VTop{}
	case VArr:
		e := make([]Val, len(v.E))
		for i := range e {
			e[i] = in.tmpl(st, v.E[i], nil)
		}
		return VArr{e}
	case VSmash:
		return VTop{}
	}
	return v
}

func snapLo(x I128) I128 {
	for i := len(thresholds) - 1; i >= 0; i-- {
		if t := I(thresholds[i]); t.cmp(x) <= 0 {
			return t
		}
	}
	return pow2(63).neg()
}
func snapHi(x I128) I128 {
	for _, t := range thresholds {
		if v := I(t); v.cmp(x) >= 0 {
			return v
		}
	}
	if x.cmp(pow2(63).sub(I(1))) <= 0 {
		return pow2(63).sub(I(1))
	}
	return pow2(64).sub(I(1))
}

// tmplJoin joins two templates.
func tmplJoin(a, b Val) Val {
	if _, ok := a.(VBot); ok || a == nil {
		return b
	}
	if _, ok := b.(VBot); ok || b == nil {
		return a
	}
	lazy := func(x VLazy, o Val) Val {
		switch o := o.(type) {
		case VLazy:
			x.NN = x.NN && o.NN
			x.Ext = x.Ext || o.Ext
		case VPtr:
		default:
			x.NN = false
		}
		return x
	}
	if x, ok := a.(VLazy); ok {
		return lazy(x, b)
	}
	if y, ok := b.(VLazy); ok {
		return lazy(y, a)
	}
	switch x := a.(type) {
	case VRange:
		if y, ok := b.(VRange); ok {
			if y.Lo.cmp(x.Lo) < 0 {
				x.Lo = y.Lo
			}
			if y.Hi.cmp(x.Hi) > 0 {
				x.Hi = y.Hi
			}
			return x
		}
	case VStr:
		if y, ok := b.(VStr); ok && x.IsC && y.IsC && x.C == y.C {
			return x
		}
		switch b.(type) {
		case VStr, VAnyStr:
			return VAnyStr{}
		}
	case VAnyStr:
		switch b.(type) {
		case VStr, VAnyStr:
			return x
		}
	case VAnySlice:
		switch b.(type) {
		case VAnySlice, VNil:
			return x
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			f := make([]Val, len(x.F))
			for i := range f {
				f[i] = tmplJoin(x.F[i], y.F[i])
			}
			return VStruct{f}
		}
	case VArr:
		if y, ok := b.(VArr); ok && len(x.E) == len(y.E) {
			f := make([]Val, len(x.E))
			for i := range f {
				f[i] = tmplJoin(x.E[i], y.E[i])
			}
			return VArr{f}
		}
	case VNil:
		switch b.(type) {
		case VNil:
			return x
		case VAnySlice:
			return b
		}
	case VTop:
		return x
	}
	if _, ok := b.(VTop); ok {
		return b
	}
	// alternatives
	var out []Val
	add := func(v Val) {
		var l []Val
		if x, ok := v.(VAlt); ok {
			l = x.Alts
		} else {
			l = []Val{v}
		}
		for _, e := range l {
			dup := false
			for i, o := range out {
				if valStr(o) == valStr(e) {
					dup = true
					break
				}
				if x, ok := o.(VIface); ok {
					if y, ok := e.(VIface); ok && typeKey(x.T) == typeKey(y.T) {
						if _, p := x.V.(VPtr); !p {
							out[i] = VIface{x.T, tmplJoin(x.V, y.V)}
							dup = true
							break
						}
					}
				}
			}
			if !dup {
				out = append(out, e)
			}
		}
	}
	add(a)
	add(b)
	if len(out) == 1 {
		return out[0]
	}
	if len(out) > 8 {
		return VTop{}
	}
	return VAlt{0, out}
}

// inst makes a value from a template.
func (in *Interp) inst(st *State, v Val, ext bool) Val {
	switch v := v.(type) {
	case VRange:
		return VInt{st.fresh(v.Lo, v.Hi), v.B}
	case VAnyStr:
		return in.anyStr(st)
	case VAnySlice:
		return in.anySlice(st, v.T, ext)
	case VLazy:
		return in.lazyVal(st, v, ext)
	case VStruct:
		f := make([]Val, len(v.F))
		for i := range f {
			f[i] = in.inst(st, v.F[i], ext)
		}
		return VStruct{f}
	case VArr:
		f := make([]Val, len(v.E))
		for i := range f {
			f[i] = in.inst(st, v.E[i], ext)
		}
		return VArr{f}
	case VIface:
		return VIface{v.T, in.inst(st, v.V, ext)}
	case VAlt:
		if v.ID == 0 {
			out := make([]Val, len(v.Alts))
			for i := range out {
				out[i] = in.inst(st, v.Alts[i], ext)
			}
			return VAlt{in.id(), out}
		}
	case VBot:
		return VTop{}
	}
	return v
}

func (in *Interp) lazyVal(st *State, l VLazy, ext bool) Val {
	v := in.anyVal(st, l.T, ext || l.Ext)
	if a, ok := v.(VAlt); ok && l.NN {
		for _, x := range a.Alts {
			if !isNil(x) {
				return x
			}
		}
	}
	return v
}

// tight is the interval of l, using the rows for compound values.
func (p *Poly) tight(l Lin) Bound {
	l = p.norm(l)
	b := p.interval(l)
	if len(l.T) == 0 {
		return b
	}
	if far := pow2(40); len(l.T) == 1 && (!WideFirst || b.hasLo && b.hasHi && b.lo.neg().cmp(far) < 0) {
		return b
	}
	if m, ok := p.minOf(l); ok && (!b.hasLo || m.cmp(b.lo) > 0) {
		b.lo, b.hasLo = m, true
	}
	if m, ok := p.minOf(l.neg()); ok && (!b.hasHi || m.neg().cmp(b.hi) < 0) {
		b.hi, b.hasHi = m.neg(), true
	}
	return b
}
