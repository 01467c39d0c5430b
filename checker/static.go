package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/checker/ai"
)

// program is the SSA form of the package without harness code.
type program struct {
	in    *ai.Interp
	funcs []*ssa.Function // reachable from the API, methods included
	repo  string
}

func loadProgram(repo string) (*program, error) {
	in, err := ai.Load(repo, "")
	if err != nil {
		return nil, err
	}
	p := &program{in: in, repo: repo}
	all := ssautil.AllFunctions(in.Prog)
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || reach[f] || top(f).Pkg != in.Pkg && !(f.Pkg == nil && f.Synthetic != "" && len(f.Blocks) > 0) {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	// everything but what only initialisation uses
	for f := range all {
		if f.Pkg != in.Pkg || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if f.Signature.Recv() != nil || token.IsExported(f.Name()) {
			visit(f)
		}
	}
	// functions stored in package variables may be called later
	if ini := in.Pkg.Func("init"); ini != nil {
		for _, b := range ini.Blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(ssa.CallInstruction); ok {
					continue
				}
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	for f := range reach {
		p.funcs = append(p.funcs, f)
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	return p, nil
}

func top(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func (p *program) names() []string {
	var l []string
	for _, f := range p.funcs {
		l = append(l, f.String())
	}
	return l
}

func (p *program) at(f *ssa.Function, i ssa.Instruction, kind, msg string) finding {
	pos := i.Pos()
	if !pos.IsValid() {
		pos = f.Pos()
	}
	q := p.in.Fset.Position(pos)
	file := q.Filename
	if r, err := filepath.Rel(p.repo, file); err == nil {
		file = r
	}
	return finding{Kind: kind, Fn: f.String(), Pos: fmt.Sprintf("%s:%d:%d", file, q.Line, q.Column), Msg: msg}
}

// globalOf is the package variable an address or a reference was taken from.
func globalOf(v ssa.Value) *ssa.Global {
	seen := map[ssa.Value]bool{}
	for !seen[v] {
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			switch x.Type().Underlying().(type) {
			case *types.Pointer, *types.Slice:
				if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
					return nil // a copy
				}
				v = x.X
			default:
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

// sharedState: no code used after initialisation stores to package variables
// or starts a goroutine.
func sharedState(repo string) (*staticResult, error) {
	p, err := loadProgram(repo)
	if err != nil {
		return nil, err
	}
	r := &staticResult{Rule: "no store, map update, append or copy goes to memory rooted at a package variable and no go statement exists in any function used after initialisation", Examined: map[string]int{}, Funcs: p.names()}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					r.Examined["stores"]++
					if g := globalOf(x.Addr); g != nil {
						r.Findings = append(r.Findings, p.at(f, i, "global-store", "store to package variable "+g.Name()))
					}
				case *ssa.MapUpdate:
					r.Examined["map updates"]++
					if g := globalOf(x.Map); g != nil {
						r.Findings = append(r.Findings, p.at(f, i, "global-store", "update of package-level map "+g.Name()))
					}
				case *ssa.Go:
					r.Examined["go statements"]++
					r.Findings = append(r.Findings, p.at(f, i, "concurrency", "starts a goroutine"))
				case *ssa.Call:
					r.Examined["calls"]++
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "delete", "clear":
							if g := globalOf(x.Call.Args[0]); g != nil {
								r.Findings = append(r.Findings, p.at(f, i, "global-store", bi.Name()+" into package variable "+g.Name()))
							}
						}
						continue
					}
					if c := x.Call.StaticCallee(); c != nil && c.Pkg != nil && c.String() == "time.AfterFunc" {
						r.Findings = append(r.Findings, p.at(f, i, "concurrency", "starts a timer goroutine"))
					}
				}
			}
		}
	}
	return r, nil
}

var purePkgs = map[string]bool{"bufio": true, "bytes": true, "cmp": true, "compress/flate": true, "compress/zlib": true, "compress/gzip": true,
	"container/heap": true, "container/list": true, "encoding/base64": true, "encoding/binary": true, "encoding/hex": true,
	"errors": true, "fmt": true, "hash": true, "hash/adler32": true, "hash/crc32": true, "io": true, "iter": true, "maps": true, "math": true, "math/bits": true,
	"mime": true, "mime/quotedprintable": true, "net/mail": true, "net/textproto": true, "regexp": true, "slices": true, "sort": true, "strconv": true, "strings": true,
	"sync": true, "sync/atomic": true, "text/scanner": true, "unicode": true, "unicode/utf16": true, "unicode/utf8": true, "crypto/sha1": true, "crypto/sha256": true}

// names allowed or banned in packages that also have effects
var pureNames = map[string]map[string]bool{
	"io/ioutil": {"ReadAll": true, "NopCloser": true, "Discard": true},
	"path":      nil,
}

var effectPkgs = map[string]string{"os/exec": "runs programs", "net": "uses the network", "net/http": "uses the network", "math/rand": "uses randomness", "math/rand/v2": "uses randomness",
	"crypto/rand": "uses randomness", "syscall": "makes system calls", "os/signal": "handles signals", "os/user": "reads the user database", "log": "prints", "log/slog": "prints", "flag": "reads the command line",
	"plugin": "loads code", "io/ioutil": "uses the file system", "os": "uses the operating system", "hash/maphash": "uses randomness", "runtime/debug": "changes the runtime", "expvar": "publishes variables", "testing": "test code", "embed": ""}

var bannedNames = map[string]map[string]string{
	"fmt": {"Print": "prints", "Printf": "prints", "Println": "prints", "Scan": "reads standard input", "Scanf": "reads standard input", "Scanln": "reads standard input"},
	"time": {"Now": "reads the clock", "Since": "reads the clock", "Until": "reads the clock", "Sleep": "waits", "After": "waits", "Tick": "starts a timer", "NewTimer": "starts a timer",
		"NewTicker": "starts a timer", "AfterFunc": "starts a timer", "LoadLocation": "reads files and the environment"},
	"maps":          {},
	"path/filepath": {"Abs": "reads the working directory", "EvalSymlinks": "uses the file system", "Glob": "uses the file system", "Walk": "uses the file system", "WalkDir": "uses the file system"},
	"runtime":       {"GOMAXPROCS": "changes the runtime", "GC": "changes the runtime", "Gosched": "yields", "NumGoroutine": "observes the runtime", "NumCPU": "observes the machine", "Caller": "observes the program", "ReadMemStats": "observes the runtime", "Goexit": "ends the goroutine", "Stack": "observes the runtime"},
}

// effectOf says what is ambient about using the external object.
func effectOf(pkg, name string, method bool) (effect string, known bool) {
	if m, ok := bannedNames[pkg]; ok {
		if method {
			return "", true
		}
		return m[name], true
	}
	if pkg == "os" {
		if method || strings.HasPrefix(name, "Err") {
			if method && name != "String" && name != "IsDir" && name != "IsRegular" && name != "Perm" && name != "Type" && name != "Error" && name != "Unwrap" && name != "Timeout" {
				return "uses the operating system", true
			}
			return "", true
		}
		switch name {
		case "Stdout", "Stderr", "Stdin":
			return "uses a standard stream", true
		case "Exit":
			return "exits", true
		case "Getenv", "LookupEnv", "Environ", "ExpandEnv", "Setenv", "Unsetenv":
			return "uses the environment", true
		case "IsNotExist", "IsExist", "IsPermission", "IsPathSeparator":
			return "", true
		}
		return "uses the operating system", true
	}
	if m, ok := pureNames[pkg]; ok && (m == nil || m[name] || method) {
		return "", true
	}
	if e, ok := effectPkgs[pkg]; ok {
		if pkg == "net" && method || e == "" {
			return "", true
		}
		return e, true
	}
	if purePkgs[pkg] {
		return "", true
	}
	if pkg == "io/fs" {
		return "", true
	}
	return "", false
}

// ambient: no code of the package uses an ambient effect.
func ambient(repo string) (*staticResult, error) {
	p, err := loadProgram(repo)
	if err != nil {
		return nil, err
	}
	r := &staticResult{Rule: "every external function, method and variable used is free of ambient effects and no map iteration order reaches a result", Examined: map[string]int{}, Funcs: p.names()}
	unk := map[string]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					var pkg *types.Package
					name, method := "", false
					switch x := (*op).(type) {
					case *ssa.Function:
						o := x
						if x.Origin() != nil {
							o = x.Origin()
						}
						if o.Object() != nil {
							pkg = o.Object().Pkg()
						}
						name = o.Name()
						method = o.Signature.Recv() != nil
					case *ssa.Global:
						pkg = x.Pkg.Pkg
						name = x.Name()
					case *ssa.Builtin:
						if x.Name() == "print" || x.Name() == "println" {
							r.Findings = append(r.Findings, p.at(f, i, "effect", "builtin "+x.Name()+" prints"))
						}
						continue
					default:
						continue
					}
					if pkg == nil || pkg == p.in.Pkg.Pkg {
						continue
					}
					r.Examined["uses of external objects"]++
					e, known := effectOf(pkg.Path(), name, method)
					if !known {
						unk[pkg.Path()+"."+name] = true
					}
					if e != "" {
						r.Findings = append(r.Findings, p.at(f, i, "effect", pkg.Path()+"."+name+" "+e))
					}
				}
				switch x := i.(type) {
				case *ssa.Select:
					if len(x.States) > 1 {
						r.Findings = append(r.Findings, p.at(f, i, "effect", "select chooses at random"))
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						r.Examined["map iterations"]++
						if why := mapOrder(f, x); why != "" {
							r.Findings = append(r.Findings, p.at(f, i, "map-order", "iteration order of a map reaches a result: "+why))
						}
					}
				case *ssa.Call:
					if c := x.Call.StaticCallee(); c != nil {
						o := c
						if c.Origin() != nil {
							o = c.Origin()
						}
						if o.Pkg != nil && o.Pkg.Pkg.Path() == "maps" && (o.Name() == "Keys" || o.Name() == "Values" || o.Name() == "All") {
							r.Examined["map iterations"]++
							if !sorted(x, 0) {
								r.Findings = append(r.Findings, p.at(f, i, "map-order", "maps."+o.Name()+" is used without sorting"))
							}
						}
					}
				}
			}
		}
	}
	var l []string
	for u := range unk {
		l = append(l, u)
	}
	sort.Strings(l)
	for _, u := range l {
		r.Undecided = append(r.Undecided, "effects of "+u+" are not known")
	}
	return r, nil
}

// sorted reports whether v is given to a sorting function.
func sorted(v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case ssa.CallInstruction:
			if c := x.Common().StaticCallee(); c != nil {
				o := c
				if c.Origin() != nil {
					o = c.Origin()
				}
				if o.Pkg != nil {
					switch o.Pkg.Pkg.Path() {
					case "sort":
						return true
					case "slices":
						if strings.HasPrefix(o.Name(), "Sort") {
							return true
						}
						if w, ok := x.(*ssa.Call); ok && sorted(w, depth+1) {
							return true
						}
					}
				}
			}
		case *ssa.MakeInterface:
			if sorted(x, depth+1) {
				return true
			}
		case *ssa.ChangeType:
			if sorted(x, depth+1) {
				return true
			}
		case *ssa.Phi:
			if sorted(x, depth+1) {
				return true
			}
		case *ssa.Slice:
			if sorted(x, depth+1) {
				return true
			}
		}
	}
	return false
}

// mapOrder decides whether the order of a map iteration can influence
// anything; it returns how.
func mapOrder(f *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	// the natural loop of head
	loop := map[*ssa.BasicBlock]bool{head: true}
	for _, b := range f.Blocks {
		if b == head || !head.Dominates(b) {
			continue
		}
		// b reaches head
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(c *ssa.BasicBlock) bool
		walk = func(c *ssa.BasicBlock) bool {
			if c == head {
				return true
			}
			if seen[c] {
				return false
			}
			seen[c] = true
			for _, s := range c.Succs {
				if walk(s) {
					return true
				}
			}
			return false
		}
		if walk(b) {
			loop[b] = true
		}
	}
	// values that depend on the element
	taint := map[ssa.Value]bool{}
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index > 0 {
			taint[e] = true
		}
	}
	for again := true; again; {
		again = false
		for b := range loop {
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || taint[v] {
					continue
				}
				for _, op := range i.Operands(nil) {
					if op != nil && taint[*op] {
						taint[v] = true
						again = true
						break
					}
				}
			}
		}
	}
	commutes := func(ph *ssa.Phi) bool {
		b, ok := ph.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
			return sorted(ph, 0)
		}
		// ints: only changed by + | & ^ * of values that do not depend on it
		var okv func(v ssa.Value, seen map[ssa.Value]bool) bool
		okv = func(v ssa.Value, seen map[ssa.Value]bool) bool {
			if v == ph || seen[v] {
				return true
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.Const:
				return true
			case *ssa.Phi:
				for _, e := range x.Edges {
					if !okv(e, seen) {
						return false
					}
				}
				return true
			case *ssa.BinOp:
				switch x.Op {
				case token.ADD, token.OR, token.AND, token.XOR, token.MUL, token.SUB:
					return okv(x.X, seen) && !dependsOn(x.Y, ph, loop)
				}
			}
			return !taint[v]
		}
		for k, p := range head.Preds {
			if loop[p] && !okv(ph.Edges[k], map[ssa.Value]bool{}) {
				return false
			}
		}
		return true
	}
	for _, i := range head.Instrs {
		if ph, ok := i.(*ssa.Phi); ok && taint[ph] && !commutes(ph) {
			return "a variable accumulates elements in iteration order"
		}
		if ph, ok := i.(*ssa.Phi); ok && !taint[ph] {
			if _, isb := ph.Type().Underlying().(*types.Basic); !isb && !commutes(ph) {
				for k, p := range head.Preds {
					if loop[p] && ph.Edges[k] != ph {
						return "a variable is changed in iteration order"
					}
				}
			}
		}
	}
	for b := range loop {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if taint[x.Val] {
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && taint[ia.Index] {
						continue
					}
					if a, ok := x.Addr.(*ssa.Alloc); ok && loop[a.Block()] {
						continue
					}
					if localAddr(x.Addr, loop) {
						continue
					}
					return "an element is stored in iteration order"
				}
			case ssa.CallInstruction:
				t := false
				cc := x.Common()
				for _, a := range cc.Args {
					t = t || taint[a]
				}
				t = t || taint[cc.Value]
				if !t {
					continue
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append", "len", "cap", "delete", "min", "max":
						continue // append shows up in a variable
					}
				}
				if c := cc.StaticCallee(); c != nil && c.Pkg != nil {
					switch c.Pkg.Pkg.Path() {
					case "strings", "strconv", "unicode", "unicode/utf8", "math", "errors":
						if c.Signature.Recv() == nil {
							continue
						}
					}
				}
				return "elements are handed to " + cc.Value.String() + " in iteration order"
			case *ssa.Return:
				for _, v := range x.Results {
					if taint[v] {
						return "returns whichever element comes first"
					}
				}
			}
		}
		// leaving early with an element
		if b == head {
			continue
		}
		for _, s := range b.Succs {
			if loop[s] {
				continue
			}
			for _, j := range s.Instrs {
				if ph, ok := j.(*ssa.Phi); ok {
					for k, p := range s.Preds {
						if p == b && taint[ph.Edges[k]] {
							return "uses whichever element comes first"
						}
					}
				}
			}
			for _, c := range f.Blocks {
				if loop[c] || !s.Dominates(c) {
					continue
				}
				for _, j := range c.Instrs {
					for _, op := range j.Operands(nil) {
						if op != nil && taint[*op] {
							return "uses whichever element comes first"
						}
					}
				}
			}
		}
	}
	return ""
}

func localAddr(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return loop[x.Block()]
	case *ssa.FieldAddr:
		return localAddr(x.X, loop)
	case *ssa.IndexAddr:
		return localAddr(x.X, loop)
	}
	return false
}

func dependsOn(v, on ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == on {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		i, ok := v.(ssa.Instruction)
		if !ok || !loop[i.Block()] {
			return false
		}
		for _, op := range i.Operands(nil) {
			if op != nil && *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

// deltaSizeFns finds the functions that read a size from a delta by their
// type: from []byte to int64, []byte and perhaps an error.
func deltaSizeFns(in *ai.Interp) map[*ssa.Function]*ssa.Function {
	// only functions that read a size by themselves
	r := map[*ssa.Function]*ssa.Function{}
	defer func() {
		for f := range r {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok && r[c.Common().StaticCallee()] != nil {
						delete(r, f)
					}
				}
			}
		}
	}()
	bytes := types.NewSlice(types.Typ[types.Byte])
	for _, m := range in.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || strings.HasPrefix(f.Name(), "va_") {
			continue
		}
		p, q := f.Signature.Params(), f.Signature.Results()
		if p.Len() != 1 || !types.Identical(p.At(0).Type(), bytes) || q.Len() < 2 || q.Len() > 3 ||
			!types.Identical(q.At(0).Type(), types.Typ[types.Int64]) || !types.Identical(q.At(1).Type(), bytes) {
			continue
		}
		if q.Len() == 2 {
			r[f] = in.Pkg.Func("va_deltaSize")
		} else if q.At(2).Type().String() == "error" {
			r[f] = in.Pkg.Func("va_deltaSizeErr")
		}
	}
	return r
}
