// Command checker decides the properties in /verif/properties.jsonl for the
// go-gitdiff source tree in -repo, without running it.
//
//	checker -property C01          decide one property (exit 0 or 1)
//	checker -harness vh_Parse      debugging: run one analysis and print it
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"verif/checker/ai"
)

var (
	repo    = flag.String("repo", "/repo", "repository to analyse")
	overlay = flag.String("overlay", "", "overlay directory")
)

func main() {
	prop := flag.String("property", "", "property to decide")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	h := flag.String("harness", "", "harness to analyse")
	jsonOut := flag.String("json", "", "write the result of -harness to this file")
	dbg := flag.Bool("debug", false, "")
	prof := flag.String("prof", "", "")
	tk := flag.String("key", "", "")
	watch := flag.Bool("watch", false, "")
	hooks := flag.String("hooks", "", "")
	cfg := flag.Int("cfg", 0, "")
	verifDir := flag.String("verif", "", "the /verif directory")
	flag.Parse()
	if *verifDir == "" {
		exe, _ := os.Executable()
		*verifDir = filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(*verifDir, "checker", "overlay")); err != nil {
			*verifDir = "/verif"
		}
	}
	if *overlay == "" {
		*overlay = filepath.Join(*verifDir, "checker", "overlay")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *prop != "" {
		os.Exit(decide(*prop, *tier, *verifDir))
	}
	res := runHarness(*h, *cfg, *watch, *hooks, *dbg, *tk)
	if *jsonOut != "" {
		b, _ := json.Marshal(res)
		if err := os.WriteFile(*jsonOut, b, 0o644); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		return
	}
	fmt.Println("ran", res.Wall, res.Stats, res.Err)
	n := 0
	for _, o := range res.Obligs {
		n++
		if o.Failed {
			fmt.Printf("%s %s %s: %s\n   %s\n", o.Pos, o.Kind, o.Fn, o.Msg, o.Stack)
		}
	}
	fmt.Println(n, "obligations", res.Unmodelled, res.Reached)
}

// Result is the outcome of one analysis.
type Result struct {
	Harness    string
	Cfg        int
	Err        string
	Panic      bool
	Obligs     []Ob
	Reached    map[string]bool
	Funcs      []string
	Unmodelled map[string]int
	Stats      string
	Wall       float64
	TimedOut   bool
}

// Ob is an obligation.
type Ob struct {
	Kind, Fn, Pos, Msg, Stack string
	Failed                    bool
	N                         int
}

func runHarness(h string, cfg int, watch bool, hooks string, dbg bool, tk string) (res *Result) {
	t := time.Now()
	res = &Result{Harness: h, Cfg: cfg}
	defer func() {
		if r := recover(); r != nil {
			res.Err = fmt.Sprint("internal error: ", r)
			res.Panic = true
			if dbg {
				debug.PrintStack()
			}
		}
		res.Wall = time.Since(t).Seconds()
	}()
	in, err := ai.Load(*repo, *overlay)
	if err != nil {
		res.Err = err.Error()
		return
	}
	in.Debug = dbg
	in.Cfg = ai.Configs[cfg]
	ai.WideFirst = in.Cfg.Wide
	in.Watch = watch
	in.TraceKey = tk
	setHooks(in, hooks)
	rec, err := in.Run(h)
	if err != nil {
		res.Err = err.Error()
	}
	res.Stats = in.Stats()
	res.Reached = in.Reached
	res.Unmodelled = map[string]int{}
	for k, n := range in.Unmodelled {
		if !strings.HasSuffix(k, ".init") {
			res.Unmodelled[k] = n
		}
	}
	res.Funcs = in.RepoFuncs()
	if rec != nil {
		for _, o := range rec.Obligs() {
			p := in.Fset.Position(o.Pos)
			ps := ""
			if o.Pos.IsValid() {
				f := p.Filename
				if r, err := filepath.Rel(*repo, f); err == nil {
					f = r
				}
				ps = fmt.Sprintf("%s:%d:%d", f, p.Line, p.Column)
			}
			res.Obligs = append(res.Obligs, Ob{strings.TrimPrefix(o.Kind, "assert:"), o.Fn, ps, o.Msg, o.Stack, o.Failed, o.N})
		}
	}
	if dbg {
		in.DumpStats()
	}
	return
}
