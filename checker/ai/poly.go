package ai

import (
	"fmt"
	"sort"
	"strings"
)

// Bound is an interval; every live free symbol has one.
type Bound struct {
	lo, hi       I128
	hasLo, hasHi bool
}

// Poly is a conjunction of integer linear constraints: solved equalities,
// per-symbol bounds and general inequalities row >= 0.
type Poly struct {
	sub  map[Sym]Lin
	bnd  map[Sym]Bound
	rows []Lin
}

func newPoly() *Poly { return &Poly{sub: map[Sym]Lin{}, bnd: map[Sym]Bound{}} }

func (p *Poly) clone() *Poly {
	q := &Poly{sub: make(map[Sym]Lin, len(p.sub)+4), bnd: make(map[Sym]Bound, len(p.bnd)+4)}
	for k, v := range p.sub {
		q.sub[k] = v
	}
	for k, v := range p.bnd {
		q.bnd[k] = v
	}
	q.rows = append([]Lin(nil), p.rows...)
	return q
}

func (p *Poly) String() string {
	var out []string
	for s, e := range p.sub {
		out = append(out, fmt.Sprintf("s%d=%v", s, e))
	}
	for s, b := range p.bnd {
		lo, hi := "-inf", "+inf"
		if b.hasLo {
			lo = b.lo.String()
		}
		if b.hasHi {
			hi = b.hi.String()
		}
		out = append(out, fmt.Sprintf("s%d in [%s,%s]", s, lo, hi))
	}
	for _, r := range p.rows {
		out = append(out, r.String()+">=0")
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func (p *Poly) norm(l Lin) Lin {
	if len(p.sub) == 0 {
		return l
	}
	hit := false
	for _, t := range l.T {
		if _, ok := p.sub[t.S]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return l
	}
	r := Lin{C: l.C}
	for _, t := range l.T {
		var ok bool
		if e, is := p.sub[t.S]; is {
			r, ok = r.addMul(e, t.K)
		} else {
			r, ok = r.addMul(LS(t.S), t.K)
		}
		if !ok {
			return l
		}
	}
	return r
}

// interval evaluates l using the symbol bounds only.
func (p *Poly) interval(l Lin) Bound {
	b := Bound{lo: l.C, hi: l.C, hasLo: true, hasHi: true}
	for _, t := range l.T {
		sb := p.bnd[t.S]
		if e, ok := p.sub[t.S]; ok {
			sb = p.interval(e)
		}
		k := t.K
		lo, hi, hl, hh := sb.lo, sb.hi, sb.hasLo, sb.hasHi
		if k < 0 {
			lo, hi, hl, hh = hi, lo, hh, hl
		}
		if b.hasLo {
			if v, ok := lo.mul(k); hl && ok {
				b.lo = b.lo.add(v)
			} else {
				b.hasLo = false
			}
		}
		if b.hasHi {
			if v, ok := hi.mul(k); hh && ok {
				b.hi = b.hi.add(v)
			} else {
				b.hasHi = false
			}
		}
	}
	return b
}

var (
	fmRowCap   = 260
	coneRowCap = 48
	// Stats
	nEntail, nFM int
)

// cone gathers the rows connected to the given symbols, nearest first.
func (p *Poly) cone(seed []Term) []Lin {
	if len(p.rows) == 0 {
		// still need bounds
	}
	seen := map[Sym]bool{}
	for _, t := range seed {
		seen[t.S] = true
	}
	used := make([]bool, len(p.rows))
	var out []Lin
	for depth := 0; depth < 4; depth++ {
		added := false
		var newSyms []Sym
		for i, r := range p.rows {
			if used[i] {
				continue
			}
			touch := false
			for _, t := range r.T {
				if seen[t.S] {
					touch = true
					break
				}
			}
			if !touch {
				continue
			}
			used[i] = true
			added = true
			out = append(out, r)
			for _, t := range r.T {
				if !seen[t.S] {
					newSyms = append(newSyms, t.S)
				}
			}
			if len(out) >= coneRowCap {
				break
			}
		}
		for _, s := range newSyms {
			seen[s] = true
		}
		if !added || len(out) >= coneRowCap {
			break
		}
	}
	for _, s := range keysOf(seen) {
		b := p.bnd[s]
		if b.hasLo {
			out = append(out, Lin{C: b.lo.neg(), T: []Term{{s, 1}}})
		}
		if b.hasHi {
			out = append(out, Lin{C: b.hi, T: []Term{{s, -1}}})
		}
	}
	return out
}

func (l Lin) thash() uint64 {
	h := uint64(1469598103934665603)
	for _, t := range l.T {
		h = (h ^ uint64(uint32(t.S))) * 1099511628211
		h = (h ^ uint64(t.K)) * 1099511628211
		h ^= h >> 29
	}
	return h
}

func sameTerms(a, b []Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func negTerms(a, b []Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].S != b[i].S || a[i].K != -b[i].K {
			return false
		}
	}
	return true
}

// drow is a dense row over local symbol numbers.
type drow struct {
	k []int64
	c I128
	h uint64
}

func (r *drow) rehash() {
	h := uint64(1469598103934665603)
	for i, x := range r.k {
		if x != 0 {
			h = (h ^ uint64(i)) * 1099511628211
			h = (h ^ uint64(x)) * 1099511628211
			h ^= h >> 29
		}
	}
	r.h = h
}

type fm struct {
	ns   int
	rows []drow
	slab []int64
	idx  map[uint64]int
}

func (f *fm) vec() []int64 {
	if len(f.slab) < f.ns {
		f.slab = make([]int64, f.ns*64)
	}
	v := f.slab[:f.ns:f.ns]
	f.slab = f.slab[f.ns:]
	return v
}

// add inserts a row; it reports a contradiction.
func (f *fm) add(r drow) bool {
	var g int64
	zero := true
	for _, x := range r.k {
		if x != 0 {
			zero = false
			if g != 1 {
				g = gcd(g, x)
			}
		}
	}
	if zero {
		return r.c.sign() < 0
	}
	if g > 1 {
		for i := range r.k {
			r.k[i] /= g
		}
		r.c = r.c.floorDiv(g)
	}
	r.rehash()
	if i, ok := f.idx[r.h]; ok {
		o := &f.rows[i]
		same := true
		for j := range r.k {
			if r.k[j] != o.k[j] {
				same = false
				break
			}
		}
		if same {
			if r.c.cmp(o.c) < 0 {
				o.c = r.c
			}
			return false
		}
	} else {
		f.idx[r.h] = len(f.rows)
	}
	f.rows = append(f.rows, r)
	return false
}

const fmCoef = 1 << 30

// eliminate removes every symbol except keep from rows. It returns the
// remaining rows, whether a contradiction was derived and whether the result
// is complete (no cap hit).
func eliminate(rows []Lin, keep Sym, rowCap int) (rest []Lin, contra, complete bool) {
	nFM++
	var syms []Sym
	num := map[Sym]int{}
	for _, r := range rows {
		for _, t := range r.T {
			if _, ok := num[t.S]; !ok {
				num[t.S] = len(syms)
				syms = append(syms, t.S)
			}
		}
	}
	ns := len(syms)
	f := &fm{ns: ns, idx: make(map[uint64]int, len(rows)*2)}
	f.slab = make([]int64, ns*(len(rows)+32))
	for _, r := range rows {
		d := drow{k: f.vec(), c: r.C}
		bad := false
		for _, t := range r.T {
			if t.K > fmCoef || t.K < -fmCoef {
				bad = true
			}
			d.k[num[t.S]] = t.K
		}
		if bad {
			complete = false
			continue
		}
		if f.add(d) {
			return nil, true, true
		}
	}
	complete = true
	pos, neg := make([]int, ns), make([]int, ns)
	for {
		for i := range pos {
			pos[i], neg[i] = 0, 0
		}
		for i := range f.rows {
			for j, x := range f.rows[i].k {
				if x > 0 {
					pos[j]++
				} else if x < 0 {
					neg[j]++
				}
			}
		}
		best, bestCost := -1, 1<<30
		for j := 0; j < ns; j++ {
			if syms[j] == keep && keep >= 0 || pos[j]+neg[j] == 0 {
				continue
			}
			c := pos[j]*neg[j] - pos[j] - neg[j]
			if c < bestCost || (c == bestCost && syms[j] < syms[best]) {
				best, bestCost = j, c
			}
		}
		if best < 0 {
			break
		}
		old := f.rows
		np, nn := pos[best], neg[best]
		f.rows = make([]drow, 0, len(old)+np*nn)
		clear(f.idx)
		var ps, nsx []int
		for i := range old {
			k := old[i].k[best]
			switch {
			case k > 0:
				ps = append(ps, i)
			case k < 0:
				nsx = append(nsx, i)
			default:
				if _, ok := f.idx[old[i].h]; !ok {
					f.idx[old[i].h] = len(f.rows)
				}
				f.rows = append(f.rows, old[i])
			}
		}
		if len(f.rows)+np*nn > rowCap {
			complete = false
			continue
		}
		for _, ia := range ps {
			for _, ib := range nsx {
				a, b := &old[ia], &old[ib]
				ka, kb := a.k[best], -b.k[best]
				g := gcd(ka, kb)
				ma, mb := kb/g, ka/g
				d := drow{k: f.vec()}
				ok := true
				for j := range d.k {
					x := a.k[j]*ma + b.k[j]*mb
					if x > fmCoef || x < -fmCoef {
						ok = false
						break
					}
					d.k[j] = x
				}
				if !ok {
					complete = false
					continue
				}
				ca, ok1 := a.c.mul(ma)
				cb, ok2 := b.c.mul(mb)
				if !ok1 || !ok2 {
					complete = false
					continue
				}
				d.c = ca.add(cb)
				if d.c.huge() {
					complete = false
					continue
				}
				if f.add(d) {
					return nil, true, true
				}
			}
		}
	}
	if keep < 0 {
		return nil, false, complete
	}
	for i := range f.rows {
		l := Lin{C: f.rows[i].c}
		for j, x := range f.rows[i].k {
			if x != 0 {
				l.T = append(l.T, Term{syms[j], x})
			}
		}
		if len(l.T) > 1 {
			sort.Slice(l.T, func(a, b int) bool { return l.T[a].S < l.T[b].S })
		}
		rest = append(rest, l)
	}
	return rest, false, complete
}

// infeasibleWith reports whether adding l >= 0 gives a contradiction.
func (p *Poly) infeasibleWith(l Lin) bool {
	l = p.norm(l)
	if b := p.interval(l); b.hasHi && b.hi.sign() < 0 {
		return true
	}
	if len(l.T) == 0 {
		return l.C.sign() < 0
	}
	nEntail++
	rows := append(p.cone(l.T), l)
	_, contra, _ := eliminate(rows, -1, fmRowCap)
	return contra
}

// entails reports whether l >= 0 holds.
func (p *Poly) entails(l Lin) bool {
	l = p.norm(l)
	if b := p.interval(l); b.hasLo && b.lo.sign() >= 0 {
		return true
	} else if len(l.T) == 1 || (b.hasHi && b.hi.sign() < 0) {
		// a single symbol: rows may still bound it further
		if len(p.rows) == 0 || (b.hasHi && b.hi.sign() < 0) {
			return false
		}
	}
	for _, r := range p.rows {
		if sameTerms(r.T, l.T) && r.C.cmp(l.C) <= 0 {
			return true
		}
		if WideFirst {
			if d, ok := l.sub(r); ok {
				if b := p.interval(d); b.hasLo && b.lo.sign() >= 0 {
					return true
				}
			}
		}
	}
	return p.infeasibleWith(l.neg().addC(-1))
}

func (p *Poly) entailsEQ(l Lin) bool {
	l = p.norm(l)
	if len(l.T) == 0 {
		return l.C.sign() == 0
	}
	return p.entails(l) && p.entails(l.neg())
}

// maxOf returns an upper bound for l.
func (p *Poly) maxOf(l Lin) (v I128, bounded bool) {
	l = p.norm(l)
	if len(l.T) == 0 {
		return l.C, true
	}
	b := p.interval(l)
	const z = Sym(0)
	rows := p.cone(l.T)
	if len(rows) > 0 {
		d, ok := l.addMul(LS(z), -1)
		if ok {
			rows = append(rows, d)
			rest, contra, _ := eliminate(rows, z, fmRowCap)
			if contra {
				return I(-1 << 62), true
			}
			for _, r := range rest {
				if k := r.coef(z); k < 0 && len(r.T) == 1 {
					x := r.C.floorDiv(-k)
					if !b.hasHi || x.cmp(b.hi) < 0 {
						b.hi, b.hasHi = x, true
					}
				}
			}
		}
	}
	return b.hi, b.hasHi
}
func (p *Poly) minOf(l Lin) (I128, bool) {
	v, ok := p.maxOf(l.neg())
	return v.neg(), ok
}

// rawAdd adds l >= 0 without consistency checks beyond bounds.
func (p *Poly) rawAdd(l Lin) bool {
	l = p.norm(l).tighten()
	switch len(l.T) {
	case 0:
		return l.C.sign() >= 0
	case 1:
		s, k := l.T[0].S, l.T[0].K
		b := p.bnd[s]
		if k > 0 { // s >= -C
			lo := l.C.neg()
			if !b.hasLo || lo.cmp(b.lo) > 0 {
				b.lo, b.hasLo = lo, true
			}
		} else {
			hi := l.C
			if !b.hasHi || hi.cmp(b.hi) < 0 {
				b.hi, b.hasHi = hi, true
			}
		}
		if b.hasLo && b.hasHi {
			if c := b.lo.cmp(b.hi); c > 0 {
				return false
			} else if c == 0 {
				return p.addSub(s, LC128(b.lo))
			}
		}
		p.bnd[s] = b
		return true
	}
	if b := p.interval(l); b.hasLo && b.lo.sign() >= 0 {
		return true
	} else if b.hasHi && b.hi.sign() < 0 {
		return false
	}
	for i, r := range p.rows {
		if len(r.T) != len(l.T) {
			continue
		}
		if sameTerms(r.T, l.T) {
			if l.C.cmp(r.C) < 0 {
				p.rows[i] = l
			}
			return true
		}
		if negTerms(r.T, l.T) { // r = -x + c1 >= 0, l = x + c2 >= 0
			s := r.C.add(l.C)
			if s.sign() < 0 {
				return false
			}
			if s.sign() == 0 {
				p.rows = append(append([]Lin(nil), p.rows[:i]...), p.rows[i+1:]...)
				return p.addEQ(l)
			}
		}
	}
	p.rows = append(p.rows, l)
	return true
}

// addGE assumes l >= 0; it returns false when the result is infeasible.
func (p *Poly) addGE(l Lin) bool {
	l = p.norm(l).tighten()
	if len(l.T) == 0 {
		return l.C.sign() >= 0
	}
	if b := p.interval(l); b.hasLo && b.lo.sign() >= 0 {
		return true
	} else if b.hasHi && b.hi.sign() < 0 {
		return false
	}
	hi, ok := p.maxOf(l)
	if ok {
		if hi.sign() < 0 {
			return false
		}
		if hi.sign() == 0 {
			return p.addEQ(l)
		}
	}
	return p.rawAdd(l)
}

// addEQ assumes l == 0.
func (p *Poly) addEQ(l Lin) bool {
	l = p.norm(l)
	if len(l.T) == 0 {
		return l.C.sign() == 0
	}
	// choose a unit-coefficient symbol, newest first
	var g int64
	best := -1
	for i, t := range l.T {
		g = gcd(g, t.K)
		if t.K == 1 || t.K == -1 {
			if best < 0 || p.eliminate(t.S, l.T[best].S) {
				best = i
			}
		}
	}
	if g > 1 {
		q := l.C.floorDiv(g)
		if m, ok := q.mul(g); !ok || m != l.C {
			return false
		}
		r := Lin{C: q, T: make([]Term, len(l.T))}
		for i, t := range l.T {
			r.T[i] = Term{t.S, t.K / g}
		}
		return p.addEQ(r)
	}
	if best < 0 {
		ok := p.rawRow(l)
		return p.rawRow(l.neg()) && ok
	}
	s, k := l.T[best].S, l.T[best].K
	rest := Lin{C: l.C}
	for i, t := range l.T {
		if i != best {
			rest.T = append(rest.T, t)
		}
	}
	if k == 1 {
		rest = rest.neg()
	}
	return p.addSub(s, rest)
}

func (p *Poly) rawRow(l Lin) bool {
	for i, r := range p.rows {
		if sameTerms(r.T, l.T) {
			if l.C.cmp(r.C) < 0 {
				p.rows[i] = l
			}
			return true
		}
	}
	p.rows = append(p.rows, l)
	return true
}

// prefer reports whether a should be eliminated in favour of keeping b.
func prefer(a, b Sym) bool {
	if (a < 0) != (b < 0) {
		return b < 0
	}
	if a < 0 {
		return a < b
	}
	return a > b
}

// WideFirst eliminates quantities of unknown size before small ones.
var WideFirst bool

// eliminate reports whether a should be expressed by b.
func (p *Poly) eliminate(a, b Sym) bool {
	if WideFirst && (a < 0) == (b < 0) {
		wide := func(s Sym) bool {
			x := p.bnd[s]
			return !x.hasLo || !x.hasHi || x.hi.sub(x.lo).cmp(pow2(50)) > 0
		}
		if wa, wb := wide(a), wide(b); wa != wb {
			return wa
		}
	}
	return prefer(a, b)
}

// addSub installs s = e (e reduced, not containing s).
func (p *Poly) addSub(s Sym, e Lin) bool {
	b := p.bnd[s]
	delete(p.bnd, s)
	for _, k := range keysOf(p.sub) {
		v := p.sub[k]
		if v.coef(s) != 0 {
			nv, ok := v.subst(s, e)
			if !ok {
				// cannot represent: forget the equality of k
				delete(p.sub, k)
				p.bnd[k] = Bound{}
				continue
			}
			p.sub[k] = nv
		}
	}
	p.sub[s] = e
	old := p.rows
	p.rows = make([]Lin, 0, len(old))
	var redo []Lin
	for _, r := range old {
		if r.coef(s) != 0 {
			if nr, ok := r.subst(s, e); ok {
				redo = append(redo, nr)
			}
		} else {
			p.rows = append(p.rows, r)
		}
	}
	for _, r := range redo {
		if !p.rawAdd(r) {
			return false
		}
	}
	if b.hasLo {
		if l := e; true {
			l.C = l.C.sub(b.lo)
			if !p.rawAdd(l) {
				return false
			}
		}
	}
	if b.hasHi {
		l := e.neg()
		l.C = l.C.add(b.hi)
		if !p.rawAdd(l) {
			return false
		}
	}
	return true
}

// project eliminates every symbol for which keep is false.
func (p *Poly) project(keep func(Sym) bool) {
	for i := 0; i < 8; i++ {
		p.projectOnce(keep)
		if !p.mentionsDead(keep) {
			break
		}
	}
	// whatever is left is dropped (sound: fewer constraints)
	dead := func(e Lin) bool {
		for _, t := range e.T {
			if !keep(t.S) {
				return true
			}
		}
		return false
	}
	for _, s := range keysOf(p.sub) {
		e := p.sub[s]
		if !keep(s) {
			delete(p.sub, s)
		} else if dead(e) {
			b := p.interval(e)
			delete(p.sub, s)
			p.bnd[s] = b
		}
	}
	rows := p.rows
	p.rows = nil
	for _, r := range rows {
		if !dead(r) {
			p.rows = append(p.rows, r)
		}
	}
	for s := range p.bnd {
		if !keep(s) {
			delete(p.bnd, s)
		}
	}
	if len(p.rows) > 40 {
		p.reduce()
	}
}

func (p *Poly) mentionsDead(keep func(Sym) bool) bool {
	for s, e := range p.sub {
		if !keep(s) {
			return true
		}
		for _, t := range e.T {
			if !keep(t.S) {
				return true
			}
		}
	}
	for _, r := range p.rows {
		for _, t := range r.T {
			if !keep(t.S) {
				return true
			}
		}
	}
	return false
}

func (p *Poly) projectOnce(keep func(Sym) bool) {
	for s := range p.sub {
		if !keep(s) {
			delete(p.sub, s)
		}
	}
	// kept symbols defined through dead ones
	for guard := 0; guard < 1000; guard++ {
		again := false
		var keys []Sym
		for s := range p.sub {
			keys = append(keys, s)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		if WideFirst {
			// small quantities stand for the dead ones
			rank := map[Sym]int{}
			for _, s := range keys {
				b := p.interval(p.sub[s])
				rank[s] = len(p.sub[s].T)
				if !b.hasLo || !b.hasHi || b.hi.sub(b.lo).cmp(pow2(50)) > 0 {
					rank[s] += 1000
				}
			}
			sort.SliceStable(keys, func(i, j int) bool { return rank[keys[i]] < rank[keys[j]] })
		}
		for _, s := range keys {
			e := p.sub[s]
			var d Sym
			var dk int64
			dead := false
			for _, t := range e.T {
				if !keep(t.S) {
					if !dead || (dk != 1 && dk != -1) {
						d, dk, dead = t.S, t.K, true
					}
				}
			}
			if !dead {
				continue
			}
			delete(p.sub, s)
			if _, ok := p.bnd[s]; !ok {
				p.bnd[s] = p.interval(e)
			}
			if dk == 1 || dk == -1 {
				// d = (s - rest)/dk
				rest := Lin{C: e.C}
				for _, t := range e.T {
					if t.S != d {
						rest.T = append(rest.T, t)
					}
				}
				x, ok := LS(s).sub(rest)
				if ok {
					if dk == -1 {
						x = x.neg()
					}
					p.addSub(d, x)
					delete(p.sub, d)
				}
			} else {
				x, ok := LS(s).sub(e)
				if ok {
					p.rawRow(x)
					p.rawRow(x.neg())
				}
			}
			again = true
			break
		}
		if !again {
			break
		}
	}
	// free dead symbols in rows
	for {
		cnt := map[Sym][2]int{}
		for _, r := range p.rows {
			for _, t := range r.T {
				if keep(t.S) {
					continue
				}
				c := cnt[t.S]
				if t.K > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[t.S] = c
			}
		}
		if len(cnt) == 0 {
			break
		}
		var best Sym
		bc := 1 << 30
		for _, s := range keysOf(cnt) {
			c := cnt[s]
			b := p.bnd[s]
			if b.hasLo {
				c[0]++
			}
			if b.hasHi {
				c[1]++
			}
			cost := c[0]*c[1] - c[0] - c[1]
			if cost < bc || (cost == bc && s < best) {
				best, bc = s, cost
			}
		}
		var ps, ns []Lin
		old := p.rows
		p.rows = nil
		for _, r := range old {
			switch k := r.coef(best); {
			case k > 0:
				ps = append(ps, r)
			case k < 0:
				ns = append(ns, r)
			default:
				p.rows = append(p.rows, r)
			}
		}
		b := p.bnd[best]
		if b.hasLo {
			ps = append(ps, Lin{C: b.lo.neg(), T: []Term{{best, 1}}})
		}
		if b.hasHi {
			ns = append(ns, Lin{C: b.hi, T: []Term{{best, -1}}})
		}
		delete(p.bnd, best)
		if len(ps)*len(ns) > 150 {
			continue
		}
		for _, a := range ps {
			for _, c := range ns {
				ka, kb := a.coef(best), -c.coef(best)
				g := gcd(ka, kb)
				x, ok := a.scale(kb / g)
				if !ok {
					continue
				}
				y, ok := x.addMul(c, ka/g)
				if !ok {
					continue
				}
				y = y.tighten()
				if len(y.T) == 0 {
					continue
				}
				p.rawAdd(y)
			}
		}
		if len(p.rows) > 120 {
			p.reduce()
		}
	}
}

// reduce drops rows entailed by the others.
func (p *Poly) reduce() {
	for i := 0; i < len(p.rows); i++ {
		r := p.rows[i]
		rest := append(append([]Lin(nil), p.rows[:i]...), p.rows[i+1:]...)
		save := p.rows
		p.rows = rest
		if p.entails(r) {
			i--
			continue
		}
		p.rows = save
	}
}

func (p *Poly) fresh(s Sym, lo, hi I128) { p.bnd[s] = Bound{lo, hi, true, true} }

// rename applies an injective renaming.
func (p *Poly) rename(f func(Sym) Sym) *Poly {
	q := newPoly()
	for s, e := range p.sub {
		q.sub[f(s)] = e.rename(f)
	}
	for s, b := range p.bnd {
		q.bnd[f(s)] = b
	}
	for _, r := range p.rows {
		q.rows = append(q.rows, r.rename(f))
	}
	return q
}

var snapLos, snapHis []I128

func init() {
	for _, x := range []int64{-1 << 63, -1 << 62, -1 << 60, -1 << 48, -1 << 32, -1 << 31, -256, -1, 0, 1, 2, 4, 7, 8, 16, 32, 64, 256, 32767, 1 << 16} {
		snapLos = append(snapLos, I(x))
	}
	for _, x := range []int64{-1, 0, 1, 2, 4, 8, 16, 26, 32, 52, 64, 127, 255, 256, 4096, 32767, 65535, 65536, 1<<24 - 1, 1<<31 - 1, 1<<32 - 1, 1 << 48, 1 << 60, 1 << 62, 1<<63 - 1} {
		snapHis = append(snapHis, I(x))
	}
}

// snap rounds the bounds outward so that a function is analysed for few
// distinct entry states.
func (p *Poly) snap(exprs []Lin) {
	var ss []Sym
	for s, e := range p.sub {
		if len(e.T) > 0 {
			ss = append(ss, s)
		}
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, s := range ss {
		exprs = append(exprs, p.sub[s])
	}
	was := make([]Bound, len(exprs))
	for i, e := range exprs {
		exprs[i] = p.norm(e)
		was[i] = p.interval(exprs[i])
	}
	defer func() {
		// compound expressions keep their (rounded) bounds
		for i, e := range exprs {
			b := snapBound(was[i])
			if b.hasLo && b.lo.cmp(snapLos[0]) >= 0 {
				l := e
				l.C = l.C.sub(b.lo)
				p.rawAdd(l)
			}
			if b.hasHi && b.hi.cmp(snapHis[len(snapHis)-1]) <= 0 {
				l := e.neg()
				l.C = l.C.add(b.hi)
				p.rawAdd(l)
			}
		}
	}()
	for s, b := range p.bnd {
		p.bnd[s] = snapBound(b)
	}
}

func snapBound(b Bound) Bound {
	if b.hasLo {
		for i := len(snapLos) - 1; i >= 0; i-- {
			if snapLos[i].cmp(b.lo) <= 0 {
				b.lo = snapLos[i]
				break
			}
		}
	}
	if b.hasHi {
		for _, t := range snapHis {
			if t.cmp(b.hi) >= 0 {
				b.hi = t
				break
			}
		}
	}
	return b
}
