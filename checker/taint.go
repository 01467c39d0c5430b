package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

// declared finds the allocations whose size is computed from a number that a
// patch declares: parsed integers, integer fields of the exported structs and
// integers assembled from bytes. Lengths are not declared numbers. The flow is
// followed through arithmetic, variables, fields, calls and results, without
// regard to order.
func declared(in *ai.Interp) map[ssa.Instruction]ai.AllocSite {
	all := ssautil.AllFunctions(in.Prog)
	var funcs []*ssa.Function
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	byName := map[string][]*ssa.Function{}
	for f := range all {
		if top(f).Pkg != in.Pkg && !(f.Origin() != nil && top(f.Origin()).Pkg == in.Pkg) || in.IsHarness(f) {
			continue
		}
		funcs = append(funcs, f)
		if f.Signature.Recv() != nil {
			byName[f.Name()] = append(byName[f.Name()], f)
		}
	}
	sort.Slice(funcs, func(i, j int) bool { return funcs[i].String() < funcs[j].String() })
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], c)
					} else if c.Common().IsInvoke() {
						for _, g := range byName[c.Common().Method.Name()] {
							callers[g] = append(callers[g], c)
						}
					} else {
						// a function value: any function literal
						for _, g := range funcs {
							if g.Parent() != nil && types.Identical(g.Signature, c.Common().Signature()) {
								callers[g] = append(callers[g], c)
							}
						}
					}
				}
			}
		}
	}
	type cell struct {
		t string
		i int
	}
	val := map[ssa.Value]bool{}
	fields := map[cell]bool{}
	results := map[*ssa.Function]map[int]bool{}
	changed := true
	mark := func(v ssa.Value) {
		if v != nil && !val[v] {
			val[v] = true
			changed = true
		}
	}
	fieldOf := func(t types.Type, i int) (cell, bool) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return cell{types.TypeString(t, nil), i}, true
	}
	// declaredField says that a field of an exported struct holds a number
	declaredField := func(t types.Type, i int) bool {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() != in.Pkg.Pkg || !n.Obj().Exported() {
			return false
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok || !s.Field(i).Exported() {
			return false
		}
		b, ok := s.Field(i).Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	isByte := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32)
	}
	isInt := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	resultOf := func(c *ssa.Call, i int) bool {
		g := c.Call.StaticCallee()
		if g != nil {
			if p := g.Pkg; p != nil && p != in.Pkg {
				n := p.Pkg.Path()
				return n == "strconv" && (strings.HasPrefix(g.Name(), "Parse") || g.Name() == "Atoi") || n == "encoding/binary" && i == 0 || n == "math/big"
			}
			if g.Pkg == nil && g.Origin() != nil && g.Origin().Pkg != nil {
				switch g.Origin().Pkg.Pkg.Path() {
				case "cmp", "slices":
					for _, a := range c.Call.Args {
						if val[a] {
							return true
						}
					}
				}
			}
			return results[g][i]
		}
		for g, cs := range callers {
			for _, x := range cs {
				if x == ssa.CallInstruction(c) && results[g][i] {
					return true
				}
			}
		}
		return false
	}
	for changed {
		changed = false
		for _, f := range funcs {
			for k, p := range f.Params {
				if val[p] || !isInt(p.Type()) && !isPtrInt(p.Type()) {
					continue
				}
				for _, c := range callers[f] {
					args := c.Common().Args
					j := k
					if c.Common().IsInvoke() {
						j--
					}
					if j >= 0 && j < len(args) && val[args[j]] {
						mark(p)
					}
				}
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					switch x := i.(type) {
					case *ssa.BinOp:
						switch x.Op {
						case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.SHL, token.SHR, token.OR, token.AND, token.XOR, token.AND_NOT:
							if val[x.X] || val[x.Y] && x.Op != token.SHL && x.Op != token.SHR {
								mark(x)
							}
						}
					case *ssa.Phi:
						for _, e := range x.Edges {
							if val[e] {
								mark(x)
							}
						}
					case *ssa.ChangeType:
						if val[x.X] {
							mark(x)
						}
					case *ssa.Convert:
						if val[x.X] || isInt(x.Type()) && isByte(x.X.Type()) && !isByte(x.Type()) {
							mark(x)
						}
					case *ssa.MultiConvert:
						if val[x.X] {
							mark(x)
						}
					case *ssa.Field:
						c, _ := fieldOf(x.X.Type(), x.Field)
						if fields[c] || declaredField(x.X.Type(), x.Field) {
							mark(x)
						}
					case *ssa.UnOp:
						switch x.Op {
						case token.SUB, token.XOR:
							if val[x.X] {
								mark(x)
							}
						case token.MUL:
							if fa, ok := x.X.(*ssa.FieldAddr); ok {
								c, _ := fieldOf(fa.X.Type(), fa.Field)
								if fields[c] || declaredField(fa.X.Type(), fa.Field) {
									mark(x)
								}
							} else if val[x.X] && isInt(x.Type()) {
								mark(x)
							}
						}
					case *ssa.Store:
						if val[x.Val] && isInt(x.Val.Type()) {
							if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
								c, _ := fieldOf(fa.X.Type(), fa.Field)
								if !fields[c] {
									fields[c] = true
									changed = true
								}
							} else if _, ok := x.Addr.(*ssa.IndexAddr); !ok {
								mark(x.Addr)
							}
						}
					case *ssa.MakeClosure:
						g := x.Fn.(*ssa.Function)
						for j, b := range x.Bindings {
							if j < len(g.FreeVars) {
								if val[b] && isPtrInt(b.Type()) {
									mark(g.FreeVars[j])
								}
								if val[g.FreeVars[j]] && isPtrInt(b.Type()) {
									mark(b)
								}
							}
						}
					case *ssa.Return:
						for j, r := range x.Results {
							if val[r] && isInt(r.Type()) && !results[f][j] {
								if results[f] == nil {
									results[f] = map[int]bool{}
								}
								results[f][j] = true
								changed = true
							}
						}
					case *ssa.Extract:
						if c, ok := x.Tuple.(*ssa.Call); ok && isInt(x.Type()) && resultOf(c, x.Index) {
							mark(x)
						}
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
							if bi.Name() == "min" || bi.Name() == "max" {
								for _, a := range x.Call.Args {
									if val[a] {
										mark(x)
									}
								}
							}
						} else {
							if isInt(x.Type()) && resultOf(x, 0) {
								mark(x)
							}
							g := x.Call.StaticCallee()
							if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "fmt" && strings.Contains(g.Name(), "can") {
								markScanned(f, mark)
							}
						}
					}
				}
			}
		}
	}
	sites := map[ssa.Instruction]ai.AllocSite{}
	size := func(t types.Type) int64 { return ai.SizeOf(t) }
	for _, f := range funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.MakeSlice:
					if val[x.Len] || val[x.Cap] {
						sites[i] = ai.AllocSite{Arg: -1, Elem: size(x.Type().Underlying().(*types.Slice).Elem())}
					}
				case *ssa.MakeMap:
					if x.Reserve != nil && val[x.Reserve] {
						m := x.Type().Underlying().(*types.Map)
						sites[i] = ai.AllocSite{Arg: -1, Elem: size(m.Key()) + size(m.Elem())}
					}
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if g == nil {
						continue
					}
					o := g
					if g.Origin() != nil {
						o = g.Origin()
					}
					if o.Pkg == nil || o.Pkg == in.Pkg {
						continue
					}
					arg := map[string]int{"slices.Grow": 1, "slices.Repeat": 1, "strings.Repeat": 1, "bytes.Repeat": 1,
						"bufio.NewReaderSize": 1, "bufio.NewWriterSize": 1}[o.Pkg.Pkg.Path()+"."+o.Name()]
					if o.Signature.Recv() != nil {
						arg = 0
						if o.Name() == "Grow" {
							arg = 1
						}
					}
					if arg == 0 || arg >= len(x.Common().Args) || !val[x.Common().Args[arg]] {
						continue
					}
					e := int64(1)
					if s, ok := x.Common().Args[0].Type().Underlying().(*types.Slice); ok {
						e = size(s.Elem())
					}
					if c, ok := x.Common().Args[0].(*ssa.Const); ok && c.Value != nil && isString(c.Type()) {
						e = int64(len(c.Value.String()))
					}
					sites[i] = ai.AllocSite{Arg: arg, Elem: e}
				}
			}
		}
	}
	return sites
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isPtrInt(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	b, ok := p.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// markScanned marks the local numbers whose addresses f passes to fmt.Sscan
// and the like.
func markScanned(f *ssa.Function, mark func(ssa.Value)) {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if m, ok := i.(*ssa.MakeInterface); ok && isPtrInt(m.X.Type()) {
				mark(m.X)
			}
		}
	}
}
