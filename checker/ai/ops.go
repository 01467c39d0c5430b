package ai

import (
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// wrap gives l the range of type t; a value outside of it wraps around.
func (fr *frame) wrap(st *State, l Lin, t types.Type, k func(*State, Val)) []*State {
	lo, hi, ok := intRange(t)
	if !ok {
		k(st, VTop{})
		return []*State{st}
	}
	l = st.P.norm(l)
	up, _ := LC128(hi).sub(l)
	dn, _ := l.sub(LC128(lo))
	okUp, okDn := st.P.entails(up), st.P.entails(dn)
	if okUp && okDn {
		k(st, VInt{L: l})
		return []*State{st}
	}
	span := hi.sub(lo).add(I(1))
	var out []*State
	over := func(above bool) {
		s := st.clone()
		var c Lin
		var w Lin
		if above {
			c = up.neg().addC(-1)
			w = l
			w.C = w.C.sub(span)
		} else {
			c = dn.neg().addC(-1)
			w = l
			w.C = w.C.add(span)
		}
		if !s.P.addGE(c) {
			return
		}
		a, _ := LC128(hi).sub(w)
		b, _ := w.sub(LC128(lo))
		if s.P.entails(a) && s.P.entails(b) {
			if w = s.P.norm(w); len(w.T) > 0 && span.cmp(pow2(60)) > 0 {
				iv := s.P.interval(w)
				if !iv.hasLo || iv.lo.cmp(lo) < 0 {
					iv.lo = lo
				}
				if !iv.hasHi || iv.hi.cmp(hi) > 0 {
					iv.hi = hi
				}
				k(s, VInt{L: s.fresh(iv.lo, iv.hi)})
			} else {
				k(s, VInt{L: w})
			}
		} else {
			k(s, VInt{L: s.fresh(lo, hi)})
		}
		out = append(out, s)
	}
	if !okUp {
		over(true)
	}
	if !okDn {
		over(false)
	}
	if st.P.addGE(up) && st.P.addGE(dn) {
		k(st, VInt{L: st.P.norm(l)})
		out = append(out, st)
	}
	return out
}

func asInt(v Val) (Lin, bool) {
	x, ok := v.(VInt)
	return x.L, ok
}

func (fr *frame) binop(st *State, x *ssa.BinOp) []*State {
	return fr.cases(st, fr.get(st, x.X), func(s *State, a Val) []*State {
		return fr.cases(s, fr.get(s, x.Y), func(s *State, b Val) []*State {
			if _, alt := a.(VAlt); alt {
				a = fr.get(s, x.X)
			}
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				return fr.compare(s, x.Op, a, b, func(s *State, r bool) { fr.set(s, x, cbool(r)) })
			}
			return fr.arith(s, x, x.Op, a, b, x.Type(), func(s *State, v Val) { fr.set(s, x, v) })
		})
	})
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	}
	return token.LSS
}

// assumeCmp returns the states of st in which a op b.
func (fr *frame) assumeCmp(st *State, op token.Token, a, b Lin) []*State {
	d, ok := a.sub(b)
	if !ok {
		return []*State{st}
	}
	switch op {
	case token.EQL:
		if st.P.addEQ(d) {
			return []*State{st}
		}
		return nil
	case token.NEQ:
		if st.P.entailsEQ(d) {
			return nil
		}
		var out []*State
		s := st.clone()
		if s.P.addGE(d.addC(-1)) {
			out = append(out, s)
		}
		if st.P.addGE(d.neg().addC(-1)) {
			out = append(out, st)
		}
		return out
	case token.LSS:
		d = d.neg().addC(-1)
	case token.LEQ:
		d = d.neg()
	case token.GTR:
		d = d.addC(-1)
	}
	if st.P.addGE(d) {
		return []*State{st}
	}
	return nil
}

// compare forks st on a op b.
func (fr *frame) compare(st *State, op token.Token, a, b Val, k func(*State, bool)) []*State {
	both := func() []*State {
		s := st.clone()
		k(s, true)
		k(st, false)
		return []*State{s, st}
	}
	one := func(r bool) []*State {
		k(st, r)
		return []*State{st}
	}
	if la, ok := asInt(a); ok {
		lb, ok := asInt(b)
		if !ok {
			return both()
		}
		f := st.clone()
		var out []*State
		for _, s := range fr.assumeCmp(st, op, la, lb) {
			k(s, true)
			out = append(out, s)
		}
		for _, s := range fr.assumeCmp(f, negOp(op), la, lb) {
			k(s, false)
			out = append(out, s)
		}
		return out
	}
	if op != token.EQL && op != token.NEQ {
		return both()
	}
	eq := func(r bool) bool { return r == (op == token.EQL) }
	if sa, ok := a.(VStr); ok {
		sb, ok := b.(VStr)
		if !ok {
			return both()
		}
		hook := fr.matchHook(sa, sb)
		res := map[*State]bool{}
		outs := fr.strEq(st, sa, sb, func(s *State, r bool) {
			k(s, eq(r))
			res[s] = r
		})
		if hook == nil {
			return outs
		}
		p := sa.Prov
		if p == nil || p.Kind != 1 {
			p = sb.Prov
		}
		var all []*State
		for _, s := range outs {
			all = append(all, fr.inline(s, nil, hook, []Val{VInt{L: p.L}, cbool(res[s])}, nil, func(*State, Val) {})...)
		}
		return all
	}
	switch r := fr.same(st, a, b); r {
	case 1:
		return one(eq(true))
	case 0:
		return one(eq(false))
	}
	return both()
}

// matchHook is the overlay function to run where a source line is compared.
func (fr *frame) matchHook(a, b VStr) *ssa.Function {
	if !fr.in.Match || (a.Prov == nil || a.Prov.Kind != 1) == (b.Prov == nil || b.Prov.Kind != 1) {
		return nil
	}
	return fr.in.Pkg.Func("ve_compared")
}

// same compares references: 1 equal, 0 different, -1 unknown.
func (fr *frame) same(st *State, a, b Val) int {
	if isNil(a) && isNil(b) {
		return 1
	}
	if isNil(b) {
		a, b = b, a
	}
	if isNil(a) {
		switch b.(type) {
		case VPtr, VIface, VFunc, VSlice:
			return 0
		}
		return -1
	}
	switch x := a.(type) {
	case VIface:
		y, ok := b.(VIface)
		if !ok {
			return -1
		}
		if typeKey(x.T) != typeKey(y.T) {
			return 0
		}
		return fr.same(st, x.V, y.V)
	case VPtr:
		y, ok := b.(VPtr)
		if !ok {
			return -1
		}
		ox, oy := st.obj(x.Obj), st.obj(y.Obj)
		if x.Obj != y.Obj {
			if io, eof := fr.in.fixedID["io error"], fr.in.fixedID["sentinel:io.EOF"]; x.Obj == io && y.Obj == eof || y.Obj == io && x.Obj == eof {
				return 0
			}
			if ox != nil && oy != nil && (ox.Sum || oy.Sum) && typeKey(ox.T) == typeKey(oy.T) {
				return -1
			}
			return 0
		}
		if ox != nil && ox.Sum {
			return -1
		}
		if !samePathShape(x.Path, y.Path) {
			return 0
		}
		for i := range x.Path {
			if x.Path[i].IsIdx {
				d, _ := x.Path[i].Idx.sub(y.Path[i].Idx)
				if !st.P.entailsEQ(d) {
					return -1
				}
			}
		}
		return 1
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return -1
		}
		r := 1
		for i := range x.F {
			switch fr.same(st, x.F[i], y.F[i]) {
			case 0:
				return 0
			case -1:
				r = -1
			}
		}
		return r
	case VInt:
		if y, ok := b.(VInt); ok {
			d, _ := x.L.sub(y.L)
			if st.P.entailsEQ(d) {
				return 1
			}
			if st.P.entails(d.addC(-1)) || st.P.entails(d.neg().addC(-1)) {
				return 0
			}
		}
	case VStr:
		if y, ok := b.(VStr); ok && x.IsC && y.IsC {
			if x.C == y.C {
				return 1
			}
			return 0
		}
	}
	return -1
}

func (fr *frame) strEq(st *State, a, b VStr, k func(*State, bool)) []*State {
	if a.IsC {
		a, b = b, a
	}
	if a.IsC {
		k(st, a.C == b.C)
		return []*State{st}
	}
	ln, _ := a.Len.sub(b.Len)
	if !b.IsC {
		if a.Root == b.Root {
			od, _ := a.Off.sub(b.Off)
			if st.P.entailsEQ(od) && st.P.entailsEQ(ln) {
				k(st, true)
				return []*State{st}
			}
		}
		f := st.clone()
		k(f, false)
		out := []*State{f}
		if st.P.addEQ(ln) {
			k(st, true)
			out = append(out, st)
		}
		return out
	}
	var out []*State
	f := st.clone()
	if ss := fr.assumePrefix(st, a, b.C); ss != nil && ss.P.addEQ(ln) {
		k(ss, true)
		out = append(out, ss)
	}
	if len(b.C) == 0 {
		if !f.P.addGE(a.Len.addC(-1)) {
			return out
		}
	} else if p, ok := f.strPrefix(a); ok && len(p) >= len(b.C) && p[:len(b.C)] == b.C {
		// equal unless longer
		if !f.P.addGE(ln.addC(-1)) {
			return out
		}
	} else if len(b.C) == 1 {
		// a[0] == c: then the length differs
		if v, ok := f.byteAt(a, LC(0)); ok {
			if f.P.entailsEQ(v.addC(-int64(b.C[0]))) {
				var res []*State
				for _, s := range fr.assumeCmp(f, token.NEQ, a.Len, LC(1)) {
					k(s, false)
					res = append(res, s)
				}
				return append(out, res...)
			}
		}
	}
	k(f, false)
	return append(out, f)
}

// byteAt returns a remembered byte.
func (st *State) byteAt(s VStr, idx Lin) (Lin, bool) {
	at, _ := s.Off.add(idx)
	at = st.P.norm(at)
	for _, f := range st.bytes {
		if f.Root == s.Root {
			if d, ok := f.At.sub(at); ok && st.P.entailsEQ(d) {
				return f.V, true
			}
		}
	}
	return Lin{}, false
}

// assumePrefix assumes that s starts with p; nil if impossible.
func (fr *frame) assumePrefix(st *State, s VStr, p string) *State {
	if s.IsC {
		if len(s.C) >= len(p) && s.C[:len(p)] == p {
			return st
		}
		return nil
	}
	if known, ok := st.strPrefix(s); ok {
		for i := 0; i < len(known) && i < len(p); i++ {
			if known[i] != p[i] {
				return nil
			}
		}
		if len(known) >= len(p) {
			if !st.P.addGE(s.Len.addC(-int64(len(p)))) {
				return nil
			}
			return st
		}
	}
	if !st.P.addGE(s.Len.addC(-int64(len(p)))) {
		return nil
	}
	for i := 0; i < len(p); i++ {
		if v, ok := st.byteAt(s, LC(int64(i))); ok {
			if !st.P.addEQ(v.addC(-int64(p[i]))) {
				return nil
			}
		}
		if i > 8 {
			break
		}
	}
	if o, ok := st.P.norm(s.Off).constVal(); ok && o >= 0 {
		f := st.facts[s.Root]
		if int64(len(f.Pre)) >= o && int64(len(f.Pre)) < o+int64(len(p)) {
			f.Pre = f.Pre[:o] + p
			st.facts[s.Root] = f
			return st
		}
		if int64(len(f.Pre)) >= o+int64(len(p)) {
			return st
		}
	}
	for i := 0; i < len(p) && i < 2; i++ {
		st.setByte(s, LC(int64(i)), LC(int64(p[i])))
	}
	return st
}

func (st *State) setByte(s VStr, idx, v Lin) {
	if s.IsC {
		return
	}
	at, _ := s.Off.add(idx)
	st.bytes = append(st.bytes, ByteFact{s.Root, st.P.norm(at), v})
	if len(st.bytes) > 24 {
		st.bytes = st.bytes[1:]
	}
}

// ---- arithmetic ----

func bitCover(hi I128) I128 {
	for n := 0; n <= 64; n++ {
		if c := pow2(n).sub(I(1)); c.cmp(hi) >= 0 {
			return c
		}
	}
	return hi
}

func (fr *frame) arith(st *State, ins ssa.Instruction, op token.Token, a, b Val, t types.Type, k func(*State, Val)) []*State {
	in := fr.in
	any := func(st *State) []*State {
		k(st, in.force(st, in.anyVal(st, t, false), false))
		return []*State{st}
	}
	if sa, ok := a.(VStr); ok {
		if sb, ok := b.(VStr); ok && op == token.ADD {
			return fr.concat(st, sa, sb, k)
		}
		return any(st)
	}
	la, oka := asInt(a)
	lb, okb := asInt(b)
	if !oka || !okb {
		return any(st)
	}
	isB := a.(VInt).B
	la, lb = st.P.norm(la), st.P.norm(lb)
	ca, aConst := la.constVal()
	cb, bConst := lb.constVal()
	lo, hi, okr := intRange(t)
	if !okr {
		return any(st)
	}
	if isB {
		switch op {
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			if aConst && bConst {
				x, y := ca, cb
				var r int64
				switch op {
				case token.AND:
					r = x & y
				case token.OR:
					r = x | y
				case token.XOR:
					r = x ^ y
				}
				k(st, cbool(r != 0))
				return []*State{st}
			}
		}
		k(st, VInt{st.fresh(I(0), I(1)), true})
		return []*State{st}
	}
	ia, ib := st.P.interval(la), st.P.interval(lb)
	nonneg := func(b Bound) bool { return b.hasLo && b.lo.sign() >= 0 }
	bounded := func(lo, hi I128) []*State {
		k(st, VInt{L: st.fresh(lo, hi)})
		return []*State{st}
	}
	switch op {
	case token.ADD:
		if r, ok := la.add(lb); ok {
			if !st.counter(ia, ib, r) {
				return nil
			}
			return fr.wrap(st, r, t, k)
		}
	case token.SUB:
		if r, ok := la.sub(lb); ok {
			if !st.counter(ia, Bound{ib.hi.neg(), ib.lo.neg(), ib.hasHi, ib.hasLo}, r) {
				return nil
			}
			return fr.wrap(st, r, t, k)
		}
	case token.MUL:
		if aConst {
			if r, ok := lb.scale(ca); ok {
				return fr.wrap(st, r, t, k)
			}
		}
		if bConst {
			if r, ok := la.scale(cb); ok {
				return fr.wrap(st, r, t, k)
			}
		}
		if nonneg(ia) && nonneg(ib) && ia.hasHi && ib.hasHi && ib.hi.isI64() {
			if m, ok := ia.hi.mul(ib.hi.i64()); ok && m.cmp(hi) <= 0 {
				return bounded(I(0), m)
			}
		}
	case token.QUO, token.REM:
		nz := bConst && cb != 0
		if !nz {
			z := st.P.entails(lb.addC(-1)) || st.P.entails(lb.neg().addC(-1))
			fr.check("divide", ins, z, st, func() string { return "division by zero is possible; " + st.describe(lb.addC(-1)) })
			if bConst {
				return nil
			}
		}
		if bConst && cb > 0 && !aConst {
			var out []*State
			pos := st.clone()
			if pos.P.addGE(la) {
				q := pos.fresh(I(0), hi)
				cq, _ := q.scale(cb)
				r, _ := la.sub(cq)
				pos.P.addGE(r)
				pos.P.addGE(r.neg().addC(cb - 1))
				if op == token.QUO {
					k(pos, VInt{L: q})
				} else {
					k(pos, VInt{L: r})
				}
				out = append(out, pos)
			}
			if st.P.addGE(la.neg().addC(-1)) {
				q := st.fresh(lo, I(0))
				cq, _ := q.scale(cb)
				r, _ := la.sub(cq)
				st.P.addGE(r.neg())
				st.P.addGE(r.addC(cb - 1))
				if op == token.QUO {
					k(st, VInt{L: q})
				} else {
					k(st, VInt{L: r})
				}
				out = append(out, st)
			}
			return out
		}
		if aConst && bConst && cb != 0 {
			if op == token.QUO {
				return fr.wrap(st, LC(ca/cb), t, k)
			}
			return fr.wrap(st, LC(ca%cb), t, k)
		}
		if op == token.REM && nonneg(ia) && ib.hasLo && ib.lo.sign() > 0 && ib.hasHi {
			r := st.fresh(I(0), ib.hi.sub(I(1)))
			d, _ := la.sub(r)
			st.P.addGE(d)
			d, _ = lb.sub(r)
			st.P.addGE(d.addC(-1))
			k(st, VInt{L: r})
			return []*State{st}
		}
	case token.SHL:
		if !fr.shiftCount(st, ins, lb) {
			return nil
		}
		if bConst && cb >= 0 && cb < 62 {
			if r, ok := la.scale(1 << uint(cb)); ok {
				up, _ := LC128(hi).sub(r)
				dn, _ := r.sub(LC128(lo))
				if st.P.entails(up) && st.P.entails(dn) {
					k(st, VInt{L: r})
					return []*State{st}
				}
			}
		}
		if aConst && ca == 1 && ib.hasLo && ib.hasHi && ib.lo.sign() >= 0 && ib.hi.cmp(I(16)) <= 0 {
			// a power of two per count
			var out []*State
			for c := ib.lo.i64(); c <= ib.hi.i64(); c++ {
				s := st.clone()
				if s.P.addEQ(lb.addC(-c)) {
					out = append(out, fr.wrap(s, LC(1<<uint(c)), t, k)...)
				}
			}
			return out
		}
	case token.SHR:
		if !fr.shiftCount(st, ins, lb) {
			return nil
		}
		if bConst && cb >= 0 && cb < 62 {
			if cb == 0 {
				k(st, VInt{L: la})
				return []*State{st}
			}
			q := st.fresh(lo, hi)
			cq, _ := q.scale(1 << uint(cb))
			r, _ := la.sub(cq)
			st.P.addGE(r)
			st.P.addGE(r.neg().addC(1<<uint(cb) - 1))
			k(st, VInt{L: st.P.norm(q)})
			return []*State{st}
		}
		if nonneg(ia) {
			r := st.fresh(I(0), hi)
			d, _ := la.sub(r)
			st.P.addGE(d)
			k(st, VInt{L: r})
			return []*State{st}
		}
	case token.AND:
		if aConst && !bConst {
			la, lb, ca, cb, ia, ib, aConst, bConst = lb, la, cb, ca, ib, ia, false, true
		}
		if aConst && bConst {
			k(st, VInt{L: LC(ca & cb)})
			return []*State{st}
		}
		if bConst && cb > 0 {
			if cb&(cb-1) == 0 { // one bit
				s := st.clone()
				k(s, VInt{L: LC(0)})
				if nonneg(ia) && !st.P.addGE(la.addC(-cb)) {
					return []*State{s}
				}
				k(st, VInt{L: LC(cb)})
				if ia.hasHi && nonneg(ia) && ia.hi.cmp(I(2*cb-1)) <= 0 {
					if !s.P.addGE(la.neg().addC(cb - 1)) {
						return []*State{st}
					}
				}
				return []*State{s, st}
			}
			r := st.fresh(I(0), I(cb))
			if nonneg(ia) {
				d, _ := la.sub(r)
				st.P.addGE(d)
				if cb&(cb+1) == 0 && ia.hasHi && ia.hi.cmp(I(cb)) <= 0 {
					st.P.addEQ(d)
				}
			}
			k(st, VInt{L: st.P.norm(r)})
			return []*State{st}
		}
		if nonneg(ia) || nonneg(ib) {
			r := st.fresh(I(0), hi)
			if nonneg(ia) {
				d, _ := la.sub(r)
				st.P.addGE(d)
			}
			if nonneg(ib) {
				d, _ := lb.sub(r)
				st.P.addGE(d)
			}
			k(st, VInt{L: r})
			return []*State{st}
		}
	case token.OR, token.XOR:
		if aConst && bConst {
			if op == token.OR {
				k(st, VInt{L: LC(ca | cb)})
			} else {
				k(st, VInt{L: LC(ca ^ cb)})
			}
			return []*State{st}
		}
		if aConst && ca == 0 {
			k(st, VInt{L: lb})
			return []*State{st}
		}
		if bConst && cb == 0 {
			k(st, VInt{L: la})
			return []*State{st}
		}
		if nonneg(ia) && nonneg(ib) && ia.hasHi && ib.hasHi {
			m := ia.hi
			if ib.hi.cmp(m) > 0 {
				m = ib.hi
			}
			r := st.fresh(I(0), bitCover(m))
			if op == token.OR {
				d, _ := r.sub(la)
				st.P.addGE(d)
				d, _ = r.sub(lb)
				st.P.addGE(d)
			}
			s, _ := la.add(lb)
			d, _ := s.sub(r)
			st.P.addGE(d)
			k(st, VInt{L: r})
			return []*State{st}
		}
	case token.AND_NOT:
		if nonneg(ia) {
			r := st.fresh(I(0), hi)
			d, _ := la.sub(r)
			st.P.addGE(d)
			k(st, VInt{L: r})
			return []*State{st}
		}
	}
	return any(st)
}

func (fr *frame) shiftCount(st *State, ins ssa.Instruction, c Lin) bool {
	ok := st.P.entails(c)
	fr.check("shift", ins, ok, st, func() string { return "negative shift count; " + st.describe(c) })
	return ok || st.P.addGE(c)
}

func (fr *frame) concat(st *State, a, b VStr, k func(*State, Val)) []*State {
	if a.IsC && b.IsC {
		k(st, cstr(a.C+b.C))
		return []*State{st}
	}
	if a.IsC && a.C == "" {
		k(st, b)
		return []*State{st}
	}
	if b.IsC && b.C == "" {
		k(st, a)
		return []*State{st}
	}
	n, _ := a.Len.add(b.Len)
	st.P.addGE(LC128(maxLen).subOr(n))
	r := VStr{Root: fr.in.id(), Off: LC(0), Len: st.P.norm(n)}
	if a.IsC {
		pre := a.C
		if p, ok := st.strPrefix(b); ok {
			pre += p
		}
		st.facts[r.Root] = RootFact{Pre: pre}
	} else if p, ok := st.strPrefix(a); ok {
		st.facts[r.Root] = RootFact{Pre: p}
	}
	k(st, r)
	return []*State{st}
}

// ---- conversions ----

func (fr *frame) convert(st *State, x *ssa.Convert) []*State {
	return fr.cases(st, fr.get(st, x.X), func(st *State, v Val) []*State {
		in := fr.in
		from, to := under(x.X.Type()), under(x.Type())
		put := func(v Val) []*State {
			fr.set(st, x, v)
			return []*State{st}
		}
		if iv, ok := v.(VInt); ok {
			if isInt(to) {
				return fr.wrap(st, iv.L, to, func(s *State, v Val) { fr.set(s, x, v) })
			}
			if isString(to) {
				if c, ok := st.P.norm(iv.L).constVal(); ok {
					return put(cstr(string(rune(c))))
				}
				return put(VStr{Root: in.id(), Off: LC(0), Len: st.fresh(I(1), I(4))})
			}
			return put(VTop{})
		}
		if sl, ok := to.(*types.Slice); ok && isString(from) {
			s, ok := v.(VStr)
			if !ok {
				return put(in.anyVal(st, x.Type(), false))
			}
			if !isByte(sl.Elem()) {
				r := in.anySlice(st, sl.Elem(), false).(VSlice)
				d, _ := s.Len.sub(r.Len)
				st.P.addGE(d)
				return put(r)
			}
			if s.IsC && len(s.C) <= 128 {
				e := make([]Val, len(s.C))
				for i := range e {
					e[i] = cint(int64(s.C[i]))
				}
				id := in.newObj(st, &Obj{T: types.NewArray(sl.Elem(), int64(len(e))), C: VArr{e}, Site: fr.info.fn.Name() + ":[]byte"})
				return put(VSlice{Obj: id, Off: LC(0), Len: s.Len, Cap: s.Len})
			}
			sm := in.newSmash(sl.Elem(), s.Len, VRange{Lo: I(0), Hi: I(255)})
			id := in.newObj(st, &Obj{T: types.NewSlice(sl.Elem()), C: sm, Site: fr.info.fn.Name() + ":[]byte"})
			c := st.fresh(I(0), maxLen)
			d, _ := c.sub(s.Len)
			st.P.addGE(d)
			return put(VSlice{Obj: id, Off: LC(0), Len: s.Len, Cap: c, Prov: s.Prov})
		}
		if isString(to) {
			if isString(from) {
				return put(v)
			}
			if isNil(v) {
				return put(cstr(""))
			}
			if s, ok := v.(VSlice); ok {
				if sl, ok := from.(*types.Slice); ok && isByte(sl.Elem()) {
					if o := st.obj(s.Obj); o != nil {
						if a, ok := contentAt(o.C, s.Path).(VArr); ok {
							off, ok1 := st.P.norm(s.Off).constVal()
							n, ok2 := st.P.norm(s.Len).constVal()
							if ok1 && ok2 && off >= 0 && off+n <= int64(len(a.E)) {
								var b []byte
								for i := off; i < off+n; i++ {
									if iv, ok := a.E[i].(VInt); ok {
										if c, ok := st.P.norm(iv.L).constVal(); ok {
											b = append(b, byte(c))
											continue
										}
									}
									break
								}
								if int64(len(b)) == n {
									return put(cstr(string(b)))
								}
							}
						}
					}
					return put(VStr{Root: in.id(), Off: LC(0), Len: s.Len, Prov: s.Prov})
				}
				r := in.anyStr(st)
				m, _ := s.Len.scale(utf8.UTFMax)
				d, _ := m.sub(r.Len)
				st.P.addGE(d)
				return put(r)
			}
		}
		return put(in.force(st, in.anyVal(st, x.Type(), false), false))
	})
}

// ---- type assertions ----

func (in *Interp) implements(t types.Type, iface *types.Interface) bool {
	if typeKey(t) == "*sentinelError" {
		for i := 0; i < iface.NumMethods(); i++ {
			if iface.Method(i).Name() != "Error" {
				return false
			}
		}
		return true
	}
	return types.Implements(t, iface)
}

func (fr *frame) typeAssert(st *State, x *ssa.TypeAssert, v Val) []*State {
	in := fr.in
	result := func(s *State, ok bool, v Val) []*State {
		if x.CommaOk {
			if !ok {
				v = in.zero(x.AssertedType)
			}
			fr.set(s, x, VTuple{[]Val{v, cbool(ok)}})
			return []*State{s}
		}
		fr.check("typeassert", x, ok, s, func() string { return "type assertion to " + x.AssertedType.String() + " can fail" })
		if !ok {
			return nil
		}
		fr.set(s, x, v)
		return []*State{s}
	}
	switch y := v.(type) {
	case VNil:
		return result(st, false, nil)
	case VIface:
		if it, ok := under(x.AssertedType).(*types.Interface); ok {
			if in.unknownErr(y) && !in.implements(y.T, it) {
				s := st.clone()
				return append(result(s, true, VTop{}), result(st, false, nil)...)
			}
			return result(st, in.implements(y.T, it), y)
		}
		if typeKey(y.T) == typeKey(x.AssertedType) {
			return result(st, true, y.V)
		}
		return result(st, false, nil)
	}
	s := st.clone()
	var some Val
	if types.IsInterface(x.AssertedType) {
		some = VTop{}
	} else {
		some = in.lazyVal(s, VLazy{T: x.AssertedType, NN: true}, true)
	}
	return append(result(s, true, some), result(st, false, nil)...)
}

// ---- maps and ranges ----

func (fr *frame) mapObj(st *State, m Val) (*VMap, int) {
	if p, ok := m.(VPtr); ok {
		if o := st.obj(p.Obj); o != nil {
			if x, ok := o.C.(VMap); ok {
				return &x, p.Obj
			}
		}
	}
	return nil, 0
}

func constKey(st *State, v Val) (string, bool) {
	switch x := v.(type) {
	case VStr:
		if x.IsC {
			return "s" + x.C, true
		}
	case VInt:
		if c, ok := st.P.norm(x.L).constVal(); ok {
			return "i" + I(c).String(), true
		}
	}
	return "", false
}

func (fr *frame) lookup(st *State, x *ssa.Lookup, m Val) []*State {
	in := fr.in
	et := x.X.Type().Underlying().(*types.Map).Elem()
	put := func(s *State, v Val, ok bool) {
		if x.CommaOk {
			fr.set(s, x, VTuple{[]Val{v, cbool(ok)}})
		} else {
			fr.set(s, x, v)
		}
	}
	if isNil(m) {
		put(st, in.zero(et), false)
		return []*State{st}
	}
	mv, _ := fr.mapObj(st, m)
	key := fr.get(st, x.Index)
	if mv != nil && mv.Closed {
		if k, ok := constKey(st, key); ok {
			if v, ok := mv.Consts[k]; ok {
				put(st, v, true)
			} else {
				put(st, in.zero(et), false)
			}
			return []*State{st}
		}
	}
	f := st.clone()
	put(f, in.zero(et), false)
	var v Val
	if mv != nil {
		v = in.inst(st, mv.V, false)
		if _, bot := mv.V.(VBot); bot {
			return []*State{f}
		}
	} else {
		v = in.anyVal(st, et, true)
	}
	put(st, in.force(st, v, true), true)
	return []*State{st, f}
}

func (fr *frame) mapUpdate(st *State, x *ssa.MapUpdate, m Val) []*State {
	if isNil(m) {
		fr.check("nilmap", x, false, st, func() string { return "assignment to entry in nil map" })
		return nil
	}
	mv, id := fr.mapObj(st, m)
	if mv == nil {
		return []*State{st}
	}
	o := st.obj(id)
	fr.noteStore(st, x, VPtr{Obj: id}, o)
	if st.heap[id] == nil || o.Sum {
		return []*State{st}
	}
	k, v := fr.get(st, x.Key), fr.get(st, x.Value)
	n := VMap{K: tmplJoin(mv.K, fr.in.tmpl(st, k, nil)), V: tmplJoin(mv.V, fr.in.tmpl(st, v, nil)), Closed: mv.Closed}
	if mv.Closed {
		if ck, ok := constKey(st, k); ok && len(mv.Consts) < 64 {
			n.Consts = map[string]Val{}
			for a, b := range mv.Consts {
				n.Consts[a] = b
			}
			n.Consts[ck] = v
		} else {
			n.Closed = false
		}
	}
	c := *o
	c.C = n
	st.heap[id] = &c
	return []*State{st}
}

func (fr *frame) next(st *State, x *ssa.Next) []*State {
	in := fr.in
	slot := fr.info.idx[x.Iter]
	it, ok := st.env[slot].(VIter)
	tt := x.Type().(*types.Tuple)
	put := func(s *State, ok bool, k, v Val) {
		fr.set(s, x, VTuple{[]Val{cbool(ok), k, v}})
	}
	if !ok {
		it = VIter{VTop{}, LC(0)}
	}
	if x.IsString {
		s, ok := it.Of.(VStr)
		if !ok {
			s = in.anyStr(st)
		}
		// end
		end := st.clone()
		var out []*State
		d, _ := it.Pos.sub(s.Len)
		if end.P.addGE(d) {
			put(end, false, cint(0), cint(0))
			out = append(out, end)
		}
		if st.P.addGE(d.neg().addC(-1)) {
			// ASCII or longer
			wide := st.clone()
			b := fr.strByte(st, s, it.Pos)
			if st.P.addGE(b.neg().addC(127)) {
				put(st, true, VInt{L: it.Pos}, VInt{L: b})
				st.env[slot] = VIter{it.Of, it.Pos.addC(1)}
				out = append(out, st)
			}
			b = fr.strByte(wide, s, it.Pos)
			if wide.P.addGE(b.addC(-128)) {
				r := wide.fresh(I(128), I(0x10FFFF))
				w := wide.fresh(I(1), I(4))
				p, _ := it.Pos.add(w)
				e, _ := s.Len.sub(p)
				if wide.P.addGE(e) {
					put(wide, true, VInt{L: it.Pos}, VInt{L: r})
					wide.env[slot] = VIter{it.Of, wide.P.norm(p)}
					out = append(out, wide)
				}
			}
		}
		return out
	}
	end := st.clone()
	var kz, vz Val = VTop{}, VTop{}
	if tt.At(1).Type() != types.Typ[types.Invalid] {
		kz = in.zero(tt.At(1).Type())
	}
	if tt.At(2).Type() != types.Typ[types.Invalid] {
		vz = in.zero(tt.At(2).Type())
	}
	put(end, false, kz, vz)
	var k, v Val = kz, vz
	if mv, _ := fr.mapObj(st, it.Of); mv != nil {
		if _, bot := mv.K.(VBot); bot {
			return []*State{end}
		}
		k, v = in.inst(st, mv.K, false), in.inst(st, mv.V, false)
	} else {
		if tt.At(1).Type() != types.Typ[types.Invalid] {
			k = in.anyVal(st, tt.At(1).Type(), true)
		}
		if tt.At(2).Type() != types.Typ[types.Invalid] {
			v = in.anyVal(st, tt.At(2).Type(), true)
		}
	}
	put(st, true, k, v)
	st.env[slot] = VIter{it.Of, it.Pos.addC(1)}
	return []*State{st, end}
}

// counter applies the practical bound on counters: a quantity that lies
// within 2^60 and moves by less than 2^52 stays within 2^60. (Counting there
// by such steps would take longer than any execution lasts.)
func (st *State) counter(a, b Bound, r Lin) bool {
	lim, step := pow2(60), pow2(52)
	if !a.hasLo || !a.hasHi || !b.hasLo || !b.hasHi {
		return true
	}
	in := func(x Bound, l I128) bool { return x.lo.cmp(l.neg()) >= 0 && x.hi.cmp(l) <= 0 }
	if !(in(a, lim) && in(b, step) || in(a, step) && in(b, lim)) {
		return true
	}
	if a.hi.add(b.hi).cmp(lim) > 0 {
		l := r.neg()
		l.C = l.C.add(lim)
		if !st.P.addGE(l) {
			return false
		}
	}
	if a.lo.add(b.lo).cmp(lim.neg()) < 0 {
		l := r
		l.C = l.C.add(lim)
		if !st.P.addGE(l) {
			return false
		}
	}
	return true
}
