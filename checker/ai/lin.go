// Package ai is a forward abstract interpreter over go/ssa.
package ai

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// I128 is a signed 128-bit integer (two's complement). Operations saturate the
// "ok" result when the magnitude leaves the range |x| < 2^120.
type I128 struct {
	hi int64
	lo uint64
}

func I(x int64) I128 {
	if x < 0 {
		return I128{-1, uint64(x)}
	}
	return I128{0, uint64(x)}
}

func (a I128) add(b I128) I128 {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	hi, _ := bits.Add64(uint64(a.hi), uint64(b.hi), c)
	return I128{int64(hi), lo}
}

func (a I128) neg() I128 {
	lo, br := bits.Sub64(0, a.lo, 0)
	hi, _ := bits.Sub64(0, uint64(a.hi), br)
	return I128{int64(hi), lo}
}
func (a I128) sub(b I128) I128 { return a.add(b.neg()) }
func (a I128) sign() int {
	if a.hi < 0 {
		return -1
	}
	if a.hi == 0 && a.lo == 0 {
		return 0
	}
	return 1
}
func (a I128) cmp(b I128) int {
	if a.hi != b.hi {
		if a.hi < b.hi {
			return -1
		}
		return 1
	}
	if a.lo != b.lo {
		if a.lo < b.lo {
			return -1
		}
		return 1
	}
	return 0
}
func (a I128) abs() I128 {
	if a.sign() < 0 {
		return a.neg()
	}
	return a
}

// huge reports whether a is too large to be multiplied or added safely.
func (a I128) huge() bool {
	b := a.abs()
	return b.hi >= 1<<44
}

// mul multiplies by a coefficient; ok is false when the result is too large.
func (a I128) mul(k int64) (I128, bool) {
	if k == 1 {
		return a, true
	}
	if k == -1 {
		return a.neg(), true
	}
	x := a.abs()
	m := k
	if m < 0 {
		m = -m
	}
	if m < 0 {
		return I128{}, false
	}
	h1, l1 := bits.Mul64(x.lo, uint64(m))
	h2, l2 := bits.Mul64(uint64(x.hi), uint64(m))
	if h2 != 0 {
		return I128{}, false
	}
	hi, c := bits.Add64(h1, l2, 0)
	if c != 0 || hi >= 1<<50 {
		return I128{}, false
	}
	r := I128{int64(hi), l1}
	if (a.sign() < 0) != (k < 0) {
		r = r.neg()
	}
	return r, true
}

// floorDiv divides by d > 0 rounding towards minus infinity.
func (a I128) floorDiv(d int64) I128 {
	if d == 1 {
		return a
	}
	x := a.abs()
	q1, r1 := uint64(x.hi)/uint64(d), uint64(x.hi)%uint64(d)
	q0, r0 := bits.Div64(r1, x.lo, uint64(d))
	q := I128{int64(q1), q0}
	if a.sign() < 0 {
		q = q.neg()
		if r0 != 0 {
			q = q.sub(I(1))
		}
	}
	return q
}
func (a I128) isI64() bool { return (a.hi == 0 && a.lo>>63 == 0) || (a.hi == -1 && a.lo>>63 == 1) }
func (a I128) i64() int64  { return int64(a.lo) }
func (a I128) String() string {
	if a.isI64() {
		return strconv.FormatInt(a.i64(), 10)
	}
	return fmt.Sprintf("0x%x%016x", a.hi, a.lo)
}

// Sym is an immutable integer unknown. Negative symbols are the canonical
// names of a function's entry state.
type Sym int32

// symIdx stands for the element index inside the element summary of an array.
const symIdx Sym = 1

type Term struct {
	S Sym
	K int64
}

// Lin is a linear expression: constant plus terms sorted by symbol.
type Lin struct {
	C I128
	T []Term
}

func LC(c int64) Lin   { return Lin{C: I(c)} }
func LC128(c I128) Lin { return Lin{C: c} }
func LS(s Sym) Lin     { return Lin{T: []Term{{s, 1}}} }

func (l Lin) isConst() bool { return len(l.T) == 0 }
func (l Lin) constVal() (int64, bool) {
	if len(l.T) == 0 && l.C.isI64() {
		return l.C.i64(), true
	}
	return 0, false
}
func (l Lin) single() (Sym, bool) {
	if len(l.T) == 1 && l.T[0].K == 1 && l.C.sign() == 0 {
		return l.T[0].S, true
	}
	return 0, false
}
func (l Lin) coef(s Sym) int64 {
	for _, t := range l.T {
		if t.S == s {
			return t.K
		}
	}
	return 0
}
func (l Lin) equal(m Lin) bool {
	if l.C != m.C || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i] != m.T[i] {
			return false
		}
	}
	return true
}

const maxCoef = 1 << 40

// addMul returns l + k*m. ok is false on coefficient overflow.
func (l Lin) addMul(m Lin, k int64) (Lin, bool) {
	if k == 0 || (len(m.T) == 0 && m.C.sign() == 0) {
		return l, true
	}
	c, ok := m.C.mul(k)
	if !ok {
		return Lin{}, false
	}
	r := Lin{C: l.C.add(c)}
	if r.C.huge() {
		return Lin{}, false
	}
	r.T = make([]Term, 0, len(l.T)+len(m.T))
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j >= len(m.T) || (i < len(l.T) && l.T[i].S < m.T[j].S):
			r.T = append(r.T, l.T[i])
			i++
		case i >= len(l.T) || m.T[j].S < l.T[i].S:
			kk := m.T[j].K * k
			if kk > maxCoef || kk < -maxCoef {
				return Lin{}, false
			}
			r.T = append(r.T, Term{m.T[j].S, kk})
			j++
		default:
			kk := l.T[i].K + m.T[j].K*k
			if kk > maxCoef || kk < -maxCoef {
				return Lin{}, false
			}
			if kk != 0 {
				r.T = append(r.T, Term{l.T[i].S, kk})
			}
			i++
			j++
		}
	}
	if len(r.T) == 0 {
		r.T = nil
	}
	return r, true
}
func (l Lin) add(m Lin) (Lin, bool) { return l.addMul(m, 1) }
func (l Lin) sub(m Lin) (Lin, bool) { return l.addMul(m, -1) }
func (l Lin) addC(c int64) Lin {
	r := l
	r.C = l.C.add(I(c))
	return r
}
func (l Lin) scale(k int64) (Lin, bool) { return Lin{}.addMul(l, k) }
func (l Lin) neg() Lin {
	r := Lin{C: l.C.neg(), T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.S, -t.K}
	}
	if len(r.T) == 0 {
		r.T = nil
	}
	return r
}

// subst replaces s by e.
func (l Lin) subst(s Sym, e Lin) (Lin, bool) {
	k := l.coef(s)
	if k == 0 {
		return l, true
	}
	r := Lin{C: l.C}
	for _, t := range l.T {
		if t.S != s {
			r.T = append(r.T, t)
		}
	}
	return r.addMul(e, k)
}

func (l Lin) rename(f func(Sym) Sym) Lin {
	if len(l.T) == 0 {
		return l
	}
	r := Lin{C: l.C, T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{f(t.S), t.K}
	}
	sort.Slice(r.T, func(i, j int) bool { return r.T[i].S < r.T[j].S })
	// merge duplicates
	out := r.T[:0]
	for _, t := range r.T {
		if n := len(out); n > 0 && out[n-1].S == t.S {
			out[n-1].K += t.K
			if out[n-1].K == 0 {
				out = out[:n-1]
			}
		} else {
			out = append(out, t)
		}
	}
	r.T = out
	if len(r.T) == 0 {
		r.T = nil
	}
	return r
}

func (l Lin) tkey() string {
	var b strings.Builder
	for _, t := range l.T {
		b.WriteString(strconv.FormatInt(t.K, 10))
		b.WriteByte('*')
		b.WriteString(strconv.Itoa(int(t.S)))
		b.WriteByte('+')
	}
	return b.String()
}
func (l Lin) key() string { return l.tkey() + l.C.String() }

func (l Lin) String() string {
	var b strings.Builder
	for i, t := range l.T {
		if i > 0 {
			b.WriteByte('+')
		}
		if t.K != 1 {
			fmt.Fprintf(&b, "%d*", t.K)
		}
		fmt.Fprintf(&b, "s%d", t.S)
	}
	if l.C.sign() != 0 || len(l.T) == 0 {
		if len(l.T) > 0 {
			b.WriteByte('+')
		}
		b.WriteString(l.C.String())
	}
	return b.String()
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten divides an inequality l >= 0 by the gcd of its coefficients,
// rounding the constant down (valid over the integers).
func (l Lin) tighten() Lin {
	if len(l.T) == 0 {
		return l
	}
	var g int64
	for _, t := range l.T {
		g = gcd(g, t.K)
		if g == 1 {
			return l
		}
	}
	r := Lin{C: l.C.floorDiv(g), T: make([]Term, len(l.T))}
	for i, t := range l.T {
		r.T[i] = Term{t.S, t.K / g}
	}
	return r
}
