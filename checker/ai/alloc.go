package ai

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// An AllocSite is an instruction that allocates memory of a size computed
// from a number declared in a patch.
type AllocSite struct {
	Arg  int // argument that is the size, or -1 for make
	Elem int64
}

// allocMax is the number of bytes that may always be allocated.
const allocMax = 1 << 24

func (fr *frame) checkAllocCall(st *State, ins ssa.CallInstruction, args []Val) {
	a, ok := fr.in.Alloc[ins]
	if !ok || a.Arg >= len(args) {
		return
	}
	if n, ok := args[a.Arg].(VInt); ok {
		fr.checkAlloc(st, ins, n.L, a.Elem)
	} else {
		fr.check("alloc", ins, false, st, func() string { return "allocation of an unknown size" })
	}
}

// checkAlloc requires that size bytes*elem are at most allocMax, or bounded by
// a length of something in memory or by the limit in force.
func (fr *frame) checkAlloc(st *State, ins ssa.Instruction, n Lin, elem int64) {
	in := fr.in
	if elem < 1 {
		elem = 1
	}
	under := func(k int64, b Lin) bool {
		// k*b + allocMax - elem*n >= 0
		d, ok := b.scale(k)
		if !ok {
			return false
		}
		m, ok := n.scale(elem)
		if !ok {
			return false
		}
		if d, ok = d.sub(m); !ok {
			return false
		}
		return st.P.entails(d.addC(allocMax))
	}
	ok := under(0, LC(0))
	if !ok {
		seen := map[string]bool{}
		try := func(l Lin, k int64) {
			if ok || l.isConst() || seen[l.key()] {
				return
			}
			seen[l.key()] = true
			ok = under(k, l)
		}
		var walk func(v Val)
		walk = func(v Val) {
			switch x := v.(type) {
			case VStr:
				try(x.Len, 64)
			case VSlice:
				try(x.Len, 64)
			case VStruct:
				for _, f := range x.F {
					walk(f)
				}
			case VIface:
				walk(x.V)
			}
		}
		for _, v := range st.env {
			walk(v)
		}
		for id, o := range st.heap {
			if g := in.globOf[id]; g != nil && g.Pkg == in.Pkg && g.Name() == "gLimit" {
				if v, isInt := o.C.(VInt); isInt {
					try(v.L, elem)
				}
			}
			walk(o.C)
		}
	}
	fr.check("alloc", ins, ok, st, func() string {
		return fmt.Sprintf("a number declared in the patch decides how much memory is allocated (%v elements of %d bytes)", st.P.norm(n), elem) + "; state: " + st.describe(LC(allocMax).subOr(n))
	})
}

// SizeOf is the size of t in bytes.
func SizeOf(t types.Type) int64 {
	return (&types.StdSizes{WordSize: 8, MaxAlign: 8}).Sizeof(t)
}
