package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// check -prop Cnn -tier quick|thorough decides one property; -replay FILE runs a
// reported case against the real code again.

type knownFinding struct{ prop, harness, label, text string }

// readFindings reads lines
//
//	finding: property=C03 harness=H label="..." what fails
//	fixed: property=C03 <commit> what failed
func readFindings(file string) (out []knownFinding) {
	b, _ := os.ReadFile(file)
	re := regexp.MustCompile(`^finding: property=(\S+) harness=(\S+) label="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, knownFinding{m[1], m[2], m[3], m[4]})
		}
	}
	return
}

type hResult struct {
	name     string
	e        *Explorer
	wall     float64
	val      int // native runs agreeing with the engine
	mismatch []string
	skipped  int
	opts     Opts
}

type found struct {
	v     Violation
	how   string
	path  string
	known *knownFinding
}

type checker struct {
	prop, tier, repo, verif string
	seed                    int64
	p                       *Program
	dropped                 []string
	replay                  *replayer
}

func main() {
	var c checker
	var only, replayFile string
	flag.StringVar(&c.prop, "prop", "", "property id")
	flag.StringVar(&c.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&c.repo, "repo", "/repo", "repository")
	flag.StringVar(&c.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&only, "harness", "", "run only this harness")
	flag.StringVar(&replayFile, "replay", "", "replay a reported case")
	budget := flag.Duration("budget", 0, "time budget per harness")
	flag.Parse()
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if replayFile != "" {
		os.Exit(c.replayOne(replayFile))
	}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	os.Exit(c.run(only, *budget))
}

func (c *checker) load() error {
	drop := map[string]bool{}
	for try := 0; try < 12; try++ {
		p, err := Load(c.repo, c.harnessFiles(drop), []string{"./adapter/..."})
		if err == nil {
			c.p = p
			return nil
		}
		if p == nil {
			return err
		}
		n := len(drop)
		re := regexp.MustCompile(`([^\s:]+zz_verif[^\s:]*\.go):\d+`)
		for _, e := range p.loadErrs {
			for _, m := range re.FindAllStringSubmatch(e, -1) {
				f := m[1]
				if !filepath.IsAbs(f) {
					f = filepath.Join(c.repo, f)
				}
				if !drop[f] {
					drop[f] = true
					c.dropped = append(c.dropped, strings.TrimPrefix(f, c.repo+"/")+": "+e)
				}
			}
		}
		if len(drop) == n {
			return err
		}
	}
	return fmt.Errorf("harness files do not compile")
}

// harnessFiles maps the files of this property (and the shared ones) to their
// place in the repository.
func (c *checker) harnessFiles(drop map[string]bool) map[string]string {
	dir := filepath.Join(c.verif, "harness")
	all, err := overlayFiles(dir, c.repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	out := map[string]string{}
	id := strings.ToLower(c.prop)
	for dst, src := range all {
		base := filepath.Base(dst)
		if drop[dst] {
			continue
		}
		if strings.HasPrefix(base, "zz_verif_c") && !strings.HasPrefix(base, "zz_verif_common") && !strings.HasPrefix(base, "zz_verif_"+id) {
			continue
		}
		out[dst] = src
	}
	return out
}

func dirInt(m map[string]string, k string, def int) int {
	if s, ok := m[k]; ok {
		if n, err := strconv.Atoi(s); err == nil {
			return n
		}
	}
	return def
}

func (c *checker) opts(h string, budget time.Duration) Opts {
	d := c.p.hopts[h]
	b := 60
	if c.tier == "thorough" {
		b = 300
	}
	o := Opts{
		MaxPaths:  0,
		MaxInstr:  dirInt(d, "instr", 2000000),
		MaxViol:   4,
		Workers:   runtime.NumCPU(),
		Preempt:   dirInt(d, "preempt", 0),
		WitCap:    dirInt(d, "wit", 16),
		Seed:      c.seed,
		MapOrders: dirInt(d, "maporders", 0) == 1,
		Race:      dirInt(d, "race", 0) == 1,
		Thorough:  c.tier == "thorough",
	}
	if c.tier == "thorough" {
		o.Preempt = dirInt(d, "tpreempt", o.Preempt)
		b = dirInt(d, "tbudget", b)
	} else {
		b = dirInt(d, "budget", b)
	}
	o.Budget = time.Duration(b) * time.Second
	if budget > 0 {
		o.Budget = budget
	}
	return o
}

func (c *checker) run(only string, budget time.Duration) int {
	start := time.Now()
	if err := c.load(); err != nil {
		fmt.Fprintln(os.Stderr, "check:", err)
		return 2
	}
	hs := c.p.harnesses("Verif_" + c.prop + "_")
	if only != "" {
		hs = []string{only}
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "check: no harness for", c.prop, "could be built:", strings.Join(c.dropped, "; "))
		return 2
	}
	loadS := time.Since(start).Seconds()
	c.replay = newReplayer(c)
	defer c.replay.close()
	var res []*hResult
	for _, h := range hs {
		if t := c.p.hopts[h]["tier"]; t == "thorough" && c.tier != "thorough" {
			continue
		}
		t0 := time.Now()
		o := c.opts(h, budget)
		e := NewExplorer(c.p, h, o)
		e.Run()
		r := &hResult{name: h, e: e, wall: time.Since(t0).Seconds(), opts: o}
		res = append(res, r)
		fmt.Printf("%s: paths %d (completed %d, infeasible %d), assertions %d (%d proved by the solver, %d by simplification), queries %d, solver %.1fs, wall %.1fs, candidates %d, incomplete %v, unknown %v\n",
			h, e.paths, e.completed, e.infeas, e.asserts, e.provedN, e.provedT, e.stats.Queries, float64(e.stats.Nanos)/1e9, r.wall, len(e.viol), e.incompl, e.unkAssert)
	}
	fs := c.confirm(res)
	code := 0
	nviol := 0
	known := map[string]bool{}
	for i := range fs {
		f := &fs[i]
		if f.known != nil {
			if !known[f.known.label+f.known.harness] {
				known[f.known.label+f.known.harness] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, f.known.text)
			}
			continue
		}
		nviol++
		code = 1
		fmt.Printf("%s: %s\n  %s\n", f.v.Harness, f.v.Label, strings.ReplaceAll(strings.TrimSpace(firstLines(f.v.Where, 3)), "\n", "\n  "))
		for _, in := range f.v.Inputs {
			fmt.Printf("    %s = %s\n", in.Label, strings.Trim(strconv.QuoteToASCII(fmt.Sprint(in.Val)), "\""))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, f.path)
	}
	done := int64(0)
	for _, r := range res {
		done += r.e.completed
	}
	c.evidence(res, fs, nviol, loadS, time.Since(start).Seconds())
	if code == 0 && done == 0 {
		fmt.Fprintln(os.Stderr, "check: no path of any harness could be completed")
		return 2
	}
	return code
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// confirm replays candidates against the real code and validates witnesses.
func (c *checker) confirm(res []*hResult) []found {
	kf := readFindings(filepath.Join(c.verif, "known_findings.txt"))
	var fs []found
	var cases []caseIn
	type ref struct {
		r    *hResult
		viol *Violation
		wit  *Witness
	}
	var refs []ref
	byLabel := map[string]bool{}
	for _, r := range res {
		rep := dirInt(c.p.hopts[r.name], "replay", 1)
		for _, l := range sortedKeys(r.e.viol) {
			for i := range r.e.viol[l] {
				v := &r.e.viol[l][i]
				race := strings.HasPrefix(l, "race: ")
				ci := caseIn{Harness: r.name, Inputs: v.Inputs, Repeat: rep, race: race, isolate: race || rep > 1}
				if race && rep < 20 {
					ci.Repeat = 20
				}
				cases = append(cases, ci)
				refs = append(refs, ref{r: r, viol: v})
			}
		}
		if r.opts.Race {
			// schedules are not reproduced natively
			r.skipped = len(r.e.wit)
			continue
		}
		seen := map[string]bool{}
		add := func(w Witness) {
			b, _ := json.Marshal(w.Inputs)
			if seen[string(b)] {
				return
			}
			seen[string(b)] = true
			ww := w
			cases = append(cases, caseIn{Harness: r.name, Inputs: w.Inputs, Repeat: 1})
			refs = append(refs, ref{r: r, wit: &ww})
		}
		for _, l := range sortedKeys(r.e.reachWit) {
			add(r.e.reachWit[l])
		}
		for _, w := range r.e.wit {
			add(w)
		}
	}
	if len(cases) == 0 {
		return nil
	}
	outs := c.replay.run(cases)
	// disagreements of witnesses are run once more before they are believed
	for i, rf := range refs {
		o := outs[i]
		if rf.wit == nil {
			continue
		}
		if o != nil && (len(o.Fails) > 0 || o.Panic != "" || o.Hang) {
			again := c.replay.run([]caseIn{cases[i]})[0]
			if again != nil && (len(again.Fails) > 0 || again.Panic != "" || again.Hang) {
				l := "panic: " + again.Panic
				if len(again.Fails) > 0 {
					l = again.Fails[0]
				} else if again.Hang {
					l = "hang"
				}
				refs[i].viol = &Violation{Harness: rf.r.name, Label: l, Where: "found while validating a witness of a path the solver accepted", Inputs: rf.wit.Inputs}
				refs[i].wit = nil
				outs[i] = again
			}
		}
	}
	unconfirmed := map[string]int{}
	for i, rf := range refs {
		o := outs[i]
		if rf.wit != nil {
			if d := witDiff(rf.wit, o); d != "" {
				if !c.p.nondet(rf.r.name) {
					rf.r.mismatch = append(rf.r.mismatch, d)
					fmt.Printf("%s: real run differs from the symbolic one: %s\n", rf.r.name, d)
				} else {
					rf.r.skipped++
				}
			} else {
				rf.r.val++
			}
			continue
		}
		v := rf.viol
		how := ""
		if o != nil {
			switch {
			case strings.HasPrefix(v.Label, "race: "):
				if o.DataRace != "" {
					how = o.DataRace
				} else if strings.HasPrefix(o.Crash, "fatal error: concurrent") {
					how = o.Crash
				}
			case o.Panic != "":
				how = "panic: " + o.Panic
			case o.Hang:
				how = "the real code does not return"
			case o.Crash != "":
				how = o.Crash
			case len(o.Fails) > 0:
				how = "assertion failed: " + strings.Join(o.Fails, "; ")
				if !contains(o.Fails, v.Label) {
					v.Label = o.Fails[0]
				}
			}
		}
		if how == "" {
			unconfirmed[v.Label]++
			rf.r.mismatch = append(rf.r.mismatch, "candidate not reproduced: "+v.Label)
			if os.Getenv("SYMDEBUG") != "" {
				b, _ := json.MarshalIndent(v, "", " ")
				ob, _ := json.Marshal(o)
				fmt.Printf("unconfirmed %s\n%s\n", b, ob)
			}
			continue
		}
		key := v.Harness + "\x00" + v.Label
		if byLabel[key] {
			continue
		}
		byLabel[key] = true
		f := found{v: *v, how: how}
		for k := range kf {
			if kf[k].prop == c.prop && kf[k].harness == v.Harness && kf[k].label == v.Label {
				f.known = &kf[k]
			}
		}
		dir := filepath.Join(c.verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		f.path = filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.prop, len(fs)+1))
		b, _ := json.MarshalIndent(map[string]any{"property": c.prop, "harness": v.Harness, "label": v.Label, "where": v.Where, "inputs": v.Inputs, "observed": how, "repeat": cases[i].Repeat, "race": cases[i].race, "tier": c.tier,
			"rerun": "/verif/check.sh -replay " + f.path}, "", " ")
		os.WriteFile(f.path, b, 0o644)
		fs = append(fs, f)
	}
	for _, l := range sortedKeys(unconfirmed) {
		fmt.Printf("candidate not reproduced by the real code (not reported): %s (%d)\n", l, unconfirmed[l])
	}
	return fs
}

func (p *Program) nondet(h string) bool {
	return p.hopts[h]["nondet"] == "1" || p.hopts[h]["preempt"] != ""
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func witDiff(w *Witness, o *caseOut) string {
	if o == nil {
		return "no native result"
	}
	if o.Assume {
		return "the real run leaves the assumptions"
	}
	if o.Crash != "" {
		return "crash " + o.Crash
	}
	a := append([]string{}, w.Reached...)
	b := append([]string{}, o.Reached...)
	sort.Strings(a)
	sort.Strings(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return fmt.Sprintf("reached %v, natively %v (inputs %s)", a, b, briefInputs(w.Inputs))
	}
	if len(w.Obs) != len(o.Obs) {
		return fmt.Sprintf("%d observations, natively %d", len(w.Obs), len(o.Obs))
	}
	for i := range w.Obs {
		if w.Obs[i].Label != o.Obs[i].Label || w.Obs[i].Val != o.Obs[i].Val {
			return fmt.Sprintf("%s=%s, natively %s=%s (inputs %s)", w.Obs[i].Label, w.Obs[i].Val, o.Obs[i].Label, o.Obs[i].Val, briefInputs(w.Inputs))
		}
	}
	return ""
}

func briefInputs(in []Input) string {
	var l []string
	for _, x := range in {
		l = append(l, fmt.Sprintf("%s=%v", x.Label, x.Val))
	}
	return strings.Join(l, " ")
}

func (c *checker) replayOne(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Harness, Label, Tier string
		Inputs                         []Input
		Repeat                         int
		Race                           bool
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.prop, c.tier = r.Property, r.Tier
	if err := c.load(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.replay = newReplayer(c)
	defer c.replay.close()
	o := c.replay.run([]caseIn{{Harness: r.Harness, Inputs: r.Inputs, Repeat: r.Repeat, race: r.Race, isolate: true}})[0]
	ob, _ := json.MarshalIndent(o, "", " ")
	fmt.Println(string(ob))
	if o != nil && (len(o.Fails) > 0 || o.Panic != "" || o.Hang || o.DataRace != "" || o.Crash != "") {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, file)
		return 1
	}
	return 0
}

func (c *checker) evidence(res []*hResult, fs []found, nviol int, loadS, wall float64) {
	funcs := map[string]bool{}
	var states, trans, val, asserts, provedN, provedT, queries, sat, unsat, unk, cacheHits, completed, decisions, events, raceQ, skipped, cross, crossDis int64
	var nanos int64
	inc := map[string]int{}
	unkA := map[string]int{}
	reach := map[string]int{}
	mism := []string{}
	var samples []any
	hs := []any{}
	depth := 0
	for _, r := range res {
		e := r.e
		for f := range e.funcs {
			funcs[f] = true
		}
		states += e.completed + e.infeas
		completed += e.completed
		trans += e.transit
		val += int64(r.val)
		skipped += int64(r.skipped)
		asserts += e.asserts
		provedN += e.provedN
		provedT += e.provedT
		decisions += e.decisions
		queries += e.stats.Queries
		sat += e.stats.SatN
		unsat += e.stats.UnsatN
		unk += e.stats.UnknownN
		cacheHits += e.stats.CacheHits
		cross += e.stats.Crossed
		crossDis += e.stats.CrossDisagree
		nanos += e.stats.Nanos
		events += e.events
		raceQ += e.raceQ
		if e.maxDepth > depth {
			depth = e.maxDepth
		}
		for k, n := range e.incompl {
			inc[r.name+": "+k] += n
		}
		for k, n := range e.unkAssert {
			unkA[r.name+": "+k] += n
		}
		for k, n := range e.reach {
			reach[r.name+": "+k] += n
		}
		for _, m := range r.mismatch {
			mism = append(mism, r.name+": "+m)
		}
		hs = append(hs, map[string]any{"harness": r.name, "bound": c.p.hopts[r.name]["bound"], "doc": c.p.hdoc[r.name], "paths": e.paths, "completed": e.completed, "infeasible": e.infeas, "assertions": e.asserts,
			"exhausted_within_bounds": len(e.incompl) == 0 && e.branchUnk == 0 && len(e.unkAssert) == 0, "preemptions": r.opts.Preempt, "race_analysis": r.opts.Race, "wall_s": r.wall, "time_budget_s": r.opts.Budget.Seconds(), "instr_limit_per_path": r.opts.MaxInstr})
		for i, w := range e.wit {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": r.name, "inputs": w.Inputs, "reached": w.Reached})
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
		"what_is_counted":              "states: symbolic paths explored to their end; transitions: SSA instructions of the real code executed symbolically; traces: solver-made inputs run against the compiled code whose observations agreed with the symbolic path",
		"functions_encoded":            fl,
		"harnesses":                    hs,
		"paths_completed":              completed,
		"branch_decisions":             decisions,
		"max_decision_depth":           depth,
		"assertions_checked":           asserts,
		"assertions_by_solver":         provedN,
		"assertions_by_simplification": provedT,
		"solver_queries":               queries, "solver_sat": sat, "solver_unsat": unsat, "solver_unknown": unk, "solver_cache_hits": cacheHits,
		"solver_s": float64(nanos) / 1e9, "cross_checked": cross, "cross_disagreements": crossDis,
		"situations_reached": reach, "incomplete": inc, "undecided_assertions": unkA, "native_mismatches": mism, "witnesses_not_replayed": skipped,
		"sync_events": events, "race_queries": raceQ, "harness_files_dropped": c.dropped, "load_s": loadS,
		"known_findings": len(fs) - nviol,
	}
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"bounds are those written in each harness; values outside them are not covered",
			"standard library, kubernetes, istio and JWT/JOSE primitives are modelled as described in DESIGN.md; their models are compared with the real code on the validated traces",
			"SMT solver verdicts (z3, cvc5) are trusted; 'unknown' is counted as undecided, never as proved",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}
