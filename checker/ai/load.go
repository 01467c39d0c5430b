package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Load type-checks the gitdiff package of the repository together with the
// overlay files and builds its SSA form.
func Load(repo, overlay string) (*Interp, error) {
	dir := filepath.Join(repo, "gitdiff")
	ov := map[string][]byte{}
	intr := map[string]bool{}
	if overlay != "" {
		ents, err := os.ReadDir(overlay)
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go.txt") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(overlay, e.Name()))
			if err != nil {
				return nil, err
			}
			// functions without a body are intrinsics
			lines := strings.Split(string(b), "\n")
			for i, l := range lines {
				if strings.HasPrefix(l, "func v") && !strings.Contains(l, "{") {
					n := l[len("func "):strings.IndexByte(l, '(')]
					intr[n] = true
					if k := strings.Index(l, " //"); k >= 0 {
						l = l[:k]
					}
					lines[i] = l + ` { panic("intrinsic") }`
				}
			}
			b = []byte(strings.Join(lines, "\n"))
			ov[filepath.Join(dir, strings.TrimSuffix(e.Name(), ".txt"))] = b
		}
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedExportFile,
		Dir: repo, Fset: token.NewFileSet(), Overlay: ov}
	pkgs, err := packages.Load(cfg, "./gitdiff")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("load: %d packages", len(pkgs))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	if sp[0] == nil {
		return nil, fmt.Errorf("load: no SSA package")
	}
	prog.Build()
	in := NewInterp(prog, sp[0])
	in.addThresholds()
	in.intrinsics = intr
	return in, nil
}

var thresholdsOnce sync.Once

// addThresholds makes the large constants of the package stops of widening.
func (in *Interp) addThresholds() {
	thresholdsOnce.Do(func() {
		found := map[int64]bool{}
		for fn := range ssautil.AllFunctions(in.Prog) {
			if fn.Pkg != in.Pkg || strings.Contains(in.Fset.Position(fn.Pos()).Filename, "zz_verif") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						c, ok := (*op).(*ssa.Const)
						if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
							continue
						}
						b, ok := c.Type().Underlying().(*types.Basic)
						if !ok {
							continue
						}
						wide := false // a limit
						if op, ok := i.(*ssa.BinOp); ok && b.Kind() == types.Int64 {
							switch op.Op {
							case token.LSS, token.LEQ, token.GTR, token.GEQ:
								wide = true
							}
						}
						if v, ok := constant.Int64Val(c.Value); ok && (v > 256 || v >= 64 && wide) && v < 1<<40 {
							found[v] = true
						}
					}
				}
			}
		}
		fineThresholds = append(fineThresholds, wThresholds...)
		for v := range found {
			fineThresholds = addSorted(fineThresholds, v)
			if v <= 256 {
				snapHis = addI(snapHis, I(v))
				continue
			}
			thresholds = addSorted(thresholds, v)
			wThresholds = addSorted(wThresholds, v)
			snapHis = addI(snapHis, I(v))
			snapLos = addI(snapLos, I(v-1))
			snapLos = addI(snapLos, I(v))
			snapLos = addI(snapLos, I(v+1))
		}
	})
}

func addI(l []I128, v I128) []I128 {
	i := sort.Search(len(l), func(i int) bool { return l[i].cmp(v) >= 0 })
	if i < len(l) && l[i].cmp(v) == 0 {
		return l
	}
	l = append(l, I128{})
	copy(l[i+1:], l[i:])
	l[i] = v
	return l
}

func addSorted(l []int64, v int64) []int64 {
	i := sort.Search(len(l), func(i int) bool { return l[i] >= v })
	if i < len(l) && l[i] == v {
		return l
	}
	l = append(l, 0)
	copy(l[i+1:], l[i:])
	l[i] = v
	return l
}

// Run analyses the harness function name from the state after package
// initialisation.
func (in *Interp) Run(name string) (rec *Recorder, err error) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(bail); ok {
				err = fmt.Errorf("analysis gave up: %s", b.msg)
				return
			}
			panic(r)
		}
	}()
	if in.base == nil {
		if err := in.runInit(); err != nil {
			return nil, err
		}
	}
	fn := in.Pkg.Func(name)
	if fn == nil {
		return nil, fmt.Errorf("no harness %s", name)
	}
	info := in.info(fn)
	st := &State{in: in, P: newPoly(), heap: map[int]*Obj{}, facts: map[int]RootFact{}}
	in.stack = nil
	for _, g := range info.globals {
		in.materialise(st, g)
	}
	me := &memoEntry{}
	in.runFn(fn, info, st, nil, me)
	return me.rec, nil
}

// ghost reports whether g belongs to the harness.
func (in *Interp) ghost(g *ssa.Global) bool {
	return strings.Contains(in.Fset.Position(g.Pos()).Filename, "zz_verif")
}

func (in *Interp) materialise(st *State, id int) {
	if o, ok := in.base[id]; ok {
		st.heap[id] = o
		return
	}
	g := in.globOf[id]
	t := g.Type().(*types.Pointer).Elem()
	o := &Obj{T: t, Site: "global " + g.Name()}
	if g.Pkg == in.Pkg {
		o.C = in.zero(t)
		o.Glob = !in.ghost(g)
	} else {
		o.C = in.extGlobal(g, t)
		o.Keep = true
	}
	st.heap[id] = o
}

// runInit executes the package initialiser.
func (in *Interp) runInit() error {
	in.base = map[int]*Obj{}
	fn := in.Pkg.Func("init")
	if fn == nil {
		return nil
	}
	in.initing = true
	info := in.info(fn)
	st := &State{in: in, P: newPoly(), heap: map[int]*Obj{}, facts: map[int]RootFact{}}
	for _, g := range info.globals {
		in.materialise(st, g)
	}
	me := &memoEntry{}
	in.runFn(fn, info, st, nil, me)
	in.initing = false
	in.memo = map[string]*memoEntry{}
	if len(me.outs) == 0 {
		return fmt.Errorf("package initialisation does not finish")
	}
	o := me.outs[0].st
	if len(me.outs) > 1 {
		for _, x := range me.outs[1:] {
			o, _ = in.joinStates(o, x.st, nil, nil, nil, nil)
		}
	}
	// objects reachable from package variables become shared
	o.normAll()
	r := newReach(o)
	var gl []int
	for id := range o.heap {
		if id < firstID {
			gl = append(gl, id)
		}
	}
	sort.Ints(gl)
	for _, id := range gl {
		r.addObj(id)
	}
	r.drain()
	ren := map[int]int{}
	for _, id := range r.objs {
		if id >= firstID {
			key := fmt.Sprintf("base:%d", id)
			ren[id] = in.fixedObj(key, func() *Obj { return nil })
		}
	}
	m := mapper{
		lin: func(l Lin) Lin {
			l = o.P.norm(l)
			if !l.isConst() {
				in.fail("package variable with an unknown number")
			}
			return l
		},
		obj: func(i int) int {
			if j, ok := ren[i]; ok {
				return j
			}
			return i
		},
		root: func(i int) int { return i }, alt: func(i int) int { return i },
	}
	for _, id := range r.objs {
		ob := *o.heap[id]
		ob.C = m.val(ob.C)
		if id >= firstID {
			ob.Keep = true
			ob.Glob = true
			in.fixed[ren[id]] = &ob
		} else {
			g := in.globOf[id]
			ob.Glob = g != nil && !in.ghost(g)
			ob.Keep = g != nil && (g.Pkg != in.Pkg || !in.written(g))
			in.base[id] = &ob
		}
	}
	for g, id := range in.globals {
		if _, ok := in.base[id]; !ok && g.Pkg == in.Pkg {
			_ = id
		}
	}
	return nil
}

// written reports whether g may be stored to outside of initialisation.
func (in *Interp) written(g *ssa.Global) bool {
	for fn := range ssautil.AllFunctions(in.Prog) {
		if fn.Pkg != in.Pkg || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if op != nil && *op == ssa.Value(g) && !onlyRead(i) {
						return true
					}
				}
			}
		}
	}
	return false
}

func onlyRead(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL
	case *ssa.FieldAddr:
		return readRefs(x)
	case *ssa.IndexAddr:
		return readRefs(x)
	case *ssa.DebugRef:
		return true
	}
	return false
}

func readRefs(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if !onlyRead(r) {
			return false
		}
	}
	return true
}

func (in *Interp) Stats() string {
	return fmt.Sprintf("calls %d hits %d joins %d instrs %d fns %d", in.nCall, in.nHit, in.nJoin, in.nInstr, len(in.Funcs))
}

// RepoFuncs lists the analysed functions of the repository.
func (in *Interp) RepoFuncs() []string {
	var out []string
	for f := range in.Funcs {
		if f.Pos().IsValid() && strings.Contains(in.Fset.Position(f.Pos()).Filename, "zz_verif") {
			continue
		}
		if f.Pkg == in.Pkg || f.Parent() != nil && f.Parent().Pkg == in.Pkg {
			out = append(out, f.RelString(in.Pkg.Pkg))
		}
	}
	sort.Strings(out)
	return out
}
