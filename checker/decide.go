package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/checker/ai"
)

// A harnessUse is an analysis a property needs.
type harnessUse struct {
	Name  string
	Watch bool
	Hooks string
	First int // configuration to try first
	// Only says that no other configuration is worth trying.
	Only bool
	// Kinds lists the kinds of obligations that decide the property.
	Kinds []string
	// Undecided lists kinds of obligations that this analysis cannot decide
	// on any tree; they are counted and reported in the evidence.
	Undecided []string
	// Reach lists labels that must be reachable for the property to hold.
	Reach []string
}

type finding struct {
	Kind, Fn, Pos, Msg, Stack string
	Harness                   string
}

// A staticCheck is a rule on the type-checked program.
type staticCheck func(repo string) (*staticResult, error)

type staticResult struct {
	Rule      string
	Examined  map[string]int
	Funcs     []string
	Findings  []finding
	Undecided []string
}

type check struct {
	Level       string // level if every obligation is decided
	Uses        []harnessUse
	Static      []staticCheck
	Rule        string
	Assumptions []string
}

var panicKinds = []string{"nil", "index", "slice", "make", "divide", "shift", "typeassert", "panic", "nilmap", "repeat", "badconv"}

var hooksFns = map[string]func(in *ai.Interp){}

func setHooks(in *ai.Interp, hooks string) {
	for _, h := range strings.Split(hooks, ",") {
		if f := hooksFns[h]; f != nil {
			f(in)
		}
	}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// spawn analyses one harness in a subprocess.
func spawn(ctx context.Context, u harnessUse, cfg int, dir string) *Result {
	out := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", u.Name, strings.ReplaceAll(u.Hooks, ",", "_"), cfg))
	exe, err := os.Executable()
	if err != nil {
		return &Result{Harness: u.Name, Cfg: cfg, Err: err.Error()}
	}
	args := []string{"-repo", *repo, "-overlay", *overlay, "-harness", u.Name, "-cfg", strconv.Itoa(cfg), "-json", out, "-hooks", u.Hooks}
	if u.Watch {
		args = append(args, "-watch")
	}
	cmd := exec.CommandContext(ctx, exe, args...)
	cmd.Env = append(os.Environ(), "GOGC=400", "GOMEMLIMIT=4GiB")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	t := time.Now()
	err = cmd.Run()
	r := &Result{Harness: u.Name, Cfg: cfg}
	if ctx.Err() != nil {
		r.Err, r.TimedOut, r.Wall = "time limit", true, time.Since(t).Seconds()
		return r
	}
	if err != nil {
		r.Err = err.Error() + ": " + tail(errb.String(), 400)
		return r
	}
	b, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, r)
	}
	if err != nil {
		r.Err = err.Error()
	}
	return r
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// useResult is what the analyses of one harness established.
type useResult struct {
	use        harnessUse
	runs       []*Result
	total      int
	discharged int
	undecided  []string
	findings   []finding
	funcs      map[string]bool
	unmodelled map[string]int
}

// evaluate collects the failures common to all runs that finished.
func (ur *useResult) evaluate() {
	u := ur.use
	ur.total, ur.discharged, ur.undecided, ur.findings = 0, 0, nil, nil
	type agg struct {
		ob     Ob
		failed int
		seen   int
	}
	m := map[string]*agg{}
	var keys []string
	done := 0
	reach := map[string]bool{}
	for _, r := range ur.runs {
		if r.Err != "" {
			continue
		}
		done++
		for l := range r.Reached {
			reach[l] = true
		}
		for _, o := range r.Obligs {
			if o.Failed && (o.Kind == "unsupported" || o.Kind == "concurrency") {
				ur.undecided = append(ur.undecided, u.Name+": "+o.Msg+" at "+o.Pos)
				continue
			}
			if !has(u.Kinds, o.Kind) {
				continue
			}
			k := o.Kind + "|" + o.Fn + "|" + o.Pos
			a := m[k]
			if a == nil {
				a = &agg{ob: o}
				m[k] = a
				keys = append(keys, k)
			}
			a.seen++
			if o.Failed {
				a.failed++
				a.ob = o
			}
		}
	}
	sort.Strings(keys)
	if done == 0 {
		e := "no analysis finished"
		if len(ur.runs) > 0 {
			e += ": " + ur.runs[0].Err
		}
		ur.undecided = append(ur.undecided, u.Name+": "+e)
		return
	}
	for _, k := range keys {
		a := m[k]
		ur.total++
		switch {
		case a.failed < done:
			ur.discharged++
		case has(u.Undecided, a.ob.Kind):
			ur.undecided = append(ur.undecided, fmt.Sprintf("%s: %s in %s at %s (%s)", u.Name, a.ob.Kind, a.ob.Fn, a.ob.Pos, a.ob.Msg))
		default:
			ur.findings = append(ur.findings, finding{a.ob.Kind, a.ob.Fn, a.ob.Pos, a.ob.Msg, a.ob.Stack, u.Name})
		}
	}
	for _, l := range u.Reach {
		ur.total++
		if reach[l] {
			ur.discharged++
		} else {
			ur.findings = append(ur.findings, finding{Kind: "unreachable", Msg: "no execution reaches: " + l, Harness: u.Name})
		}
	}
}

func decide(prop, tier, verif string) int {
	t0 := time.Now()
	c := checks[prop]
	if c == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	tmp, err := os.MkdirTemp("", "verif-checker-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)

	first, second := 300*time.Second, 150*time.Second
	for _, u := range c.Uses {
		if u.Only {
			first = 600 * time.Second
		}
	}
	cfgs := 5
	if tier == "thorough" {
		first, second = 1200*time.Second, 1800*time.Second
		cfgs = len(ai.Configs)
	}

	// first pass: the default configuration
	urs := make([]*useResult, len(c.Uses))
	ctx, cancel := context.WithTimeout(context.Background(), first)
	var wg sync.WaitGroup
	for i, u := range c.Uses {
		urs[i] = &useResult{use: u}
		wg.Add(1)
		go func() {
			defer wg.Done()
			urs[i].runs = append(urs[i].runs, spawn(ctx, u, u.First, tmp))
			urs[i].evaluate()
		}()
	}
	var stat []*staticResult
	var undecided []string
	for _, s := range c.Static {
		r, err := s(*repo)
		if err != nil {
			undecided = append(undecided, err.Error())
			continue
		}
		stat = append(stat, r)
	}
	wg.Wait()
	cancel()

	// second pass: other configurations for what is not discharged; an
	// obligation holds if any of them proves it
	ctx, cancel = context.WithTimeout(context.Background(), second)
	sem := make(chan bool, 8)
	for _, ur := range urs {
		if ur.use.Only && tier != "thorough" {
			continue
		}
		again := len(ur.findings) > 0
		for _, r := range ur.runs {
			if r.Err != "" && !strings.HasPrefix(r.Err, "load:") {
				again = true
			}
		}
		if !again {
			continue
		}
		var mu sync.Mutex
		for cfg := 0; cfg < cfgs; cfg++ {
			if cfg == ur.use.First {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				r := spawn(ctx, ur.use, cfg, tmp)
				<-sem
				mu.Lock()
				ur.runs = append(ur.runs, r)
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	cancel()

	ev := newEvidence(prop, tier, c)
	var findings []finding
	for _, ur := range urs {
		ur.evaluate()
		findings = append(findings, ur.findings...)
		undecided = append(undecided, ur.undecided...)
		ev.use(ur)
	}
	for _, s := range stat {
		findings = append(findings, s.Findings...)
		undecided = append(undecided, s.Undecided...)
		ev.static(s)
	}
	known := knownFindings(verif, prop)
	var fresh []finding
	for _, f := range findings {
		if k := matchKnown(known, f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		fresh = append(fresh, f)
	}
	ev.finish(verif, undecided, fresh, time.Since(t0).Seconds())
	for _, u := range undecided {
		fmt.Printf("undecided: %s\n", u)
	}
	if len(fresh) == 0 {
		fmt.Printf("%s: no violation found (%d obligations, %d discharged, %.0f s)\n", prop, ev.total, ev.discharged, time.Since(t0).Seconds())
		return 0
	}
	dir := filepath.Join(verif, "evidence", "violations")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, prop+".txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", prop)
	for _, f := range fresh {
		fmt.Fprintf(&b, "%s", f.String())
	}
	fmt.Fprintf(&b, "\nre-run: bash %s/check.sh %s\n", verif, prop)
	os.WriteFile(path, []byte(b.String()), 0o644)
	fmt.Print(b.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	return 1
}

func (f finding) String() string {
	s := fmt.Sprintf("- [%s] %s", f.Kind, f.Msg)
	if f.Fn != "" {
		s += "\n  in " + f.Fn
	}
	if f.Pos != "" {
		s += " at " + f.Pos
	}
	if f.Stack != "" {
		s += "\n  reached through: " + f.Stack
	}
	if f.Harness != "" {
		s += "\n  analysis entry point: " + f.Harness
	}
	return s + "\n"
}

// known-findings.txt lines: "property=<id> kind=<kind> fn=<function> <text>"
func knownFindings(verif, prop string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "finding: property="+prop+" "))
		}
	}
	return out
}

func matchKnown(known []string, f finding) string {
	for _, k := range known {
		if strings.HasPrefix(k, "kind="+f.Kind+" fn="+f.Fn+" ") {
			return k
		}
	}
	return ""
}

// ---- evidence ----

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	Wall        float64        `json:"wall_s"`
	Violations  int            `json:"violations"`

	total, discharged int
	analyses          []any
	funcs             map[string]bool
	unmodelled        map[string]int
	rule              string
	samples           []string
	statics           []any
}

func newEvidence(prop, tier string, c *check) *evidence {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &evidence{Property: prop, Tier: tier, Seed: seed, Level: c.Level, Coverage: map[string]any{}, Assumptions: append(append([]string{}, c.Assumptions...), baseAssumptions...),
		funcs: map[string]bool{}, unmodelled: map[string]int{}, rule: c.Rule}
}

func (e *evidence) use(ur *useResult) {
	e.total += ur.total
	e.discharged += ur.discharged
	for _, r := range ur.runs {
		a := map[string]any{"entry": r.Harness, "config": r.Cfg, "wall_s": r.Wall}
		if r.Err != "" {
			a["error"] = r.Err
		} else {
			a["stats"] = r.Stats
		}
		e.analyses = append(e.analyses, a)
		for _, f := range r.Funcs {
			e.funcs[f] = true
		}
		for k, n := range r.Unmodelled {
			e.unmodelled[k] = n
		}
		if len(e.samples) < 40 && r.Cfg == ur.use.First {
			n := 0
			for _, o := range r.Obligs {
				if has(ur.use.Kinds, o.Kind) && n < 8 {
					n++
					s := o.Kind + " in " + o.Fn
					if o.Pos != "" {
						s += " at " + o.Pos
					}
					if o.Msg != "" {
						s += ": " + o.Msg
					}
					e.samples = append(e.samples, s)
				}
			}
		}
	}
}

func (e *evidence) static(s *staticResult) {
	n := 0
	for _, k := range s.Examined {
		n += k
	}
	e.total += n
	e.discharged += n - len(s.Findings)
	e.statics = append(e.statics, map[string]any{"rule": s.Rule, "examined": s.Examined, "findings": len(s.Findings)})
	for _, f := range s.Funcs {
		e.funcs[f] = true
	}
}

func (e *evidence) finish(verif string, undecided []string, fresh []finding, wall float64) {
	var fs []string
	for f := range e.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	e.Coverage["obligations"] = e.total
	e.Coverage["discharged"] = e.discharged
	e.Coverage["checker_cmd"] = "bash check.sh " + e.Property
	e.Coverage["trusted_base"] = []string{"go/types and golang.org/x/tools/go/ssa", "the abstract interpreter in checker/ai", "the standard-library models in checker/overlay", "the entry points and assertions in checker/overlay"}
	e.Coverage["rule"] = e.rule
	e.Coverage["functions_analysed"] = fs
	if len(e.analyses) > 0 {
		e.Coverage["analyses"] = e.analyses
	}
	if len(e.statics) > 0 {
		e.Coverage["rules"] = e.statics
	}
	if len(e.samples) > 0 {
		e.Coverage["samples"] = e.samples
	}
	if len(e.unmodelled) > 0 {
		e.Coverage["calls_without_model_havocked"] = e.unmodelled
	}
	if len(undecided) > 0 {
		e.Coverage["undecided"] = undecided
	}
	if e.Level != "proof" || len(undecided) > 0 {
		e.Coverage["explanation"] = "Sound abstract interpretation and program-wide rules over the current source. Obligations under 'undecided' were neither proved nor reported."
		e.Level = "other"
	}
	if len(fresh) > 0 {
		var l []string
		for _, f := range fresh {
			l = append(l, f.String())
		}
		e.Coverage["violations"] = l
	}
	e.Violations = len(fresh)
	e.Wall = wall
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", e.Property+".json"), append(b, '\n'), 0o644)
}
