package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// Native replay: solver-made inputs are run against the compiled code.

type caseIn struct {
	Harness string  `json:"harness"`
	Inputs  []Input `json:"inputs"`
	Repeat  int     `json:"repeat"`
	race    bool
	isolate bool
}

type caseOut struct {
	Fails    []string `json:"fails"`
	Reached  []string `json:"reached"`
	Obs      []Obs    `json:"obs"`
	Panic    string   `json:"panic"`
	Assume   bool     `json:"assume"`
	Hang     bool     `json:"hang"`
	Missing  []string `json:"missing"`
	Runs     int      `json:"runs"`
	Crash    string   `json:"crash,omitempty"`
	DataRace string   `json:"datarace,omitempty"`
}

type replayer struct {
	c    *checker
	dir  string
	mu   sync.Mutex
	bins map[string]string // package + mode -> binary ("" if it does not build)
	seq  int
}

func newReplayer(c *checker) *replayer {
	d, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		panic(err)
	}
	return &replayer{c: c, dir: d, bins: map[string]string{}}
}

func (r *replayer) close() { os.RemoveAll(r.dir) }

// binary builds the test binary of a package with the harnesses in it.
func (r *replayer) binary(pkg string, race, jitter bool) string {
	key := fmt.Sprint(pkg, race, jitter)
	if b, ok := r.bins[key]; ok {
		return b
	}
	r.bins[key] = ""
	ssaPkg := r.c.p.pkgs[pkg]
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/")
	var names []string
	for h, p := range r.c.p.hpkg {
		if p == pkg {
			names = append(names, h)
		}
	}
	sort.Strings(names)
	var src strings.Builder
	fmt.Fprintf(&src, "package %s\n\nimport (\n\t\"testing\"\n\n\t\"%s/adapter/zzverif\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\terr := zzverif.Replay(map[string]func(){\n", ssaPkg.Pkg.Name(), modPath)
	for _, n := range names {
		fmt.Fprintf(&src, "\t\t%q: %s,\n", n, n)
	}
	src.WriteString("\t})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n")
	r.seq++
	tf := filepath.Join(r.dir, fmt.Sprintf("t%d_test.go", r.seq))
	if err := os.WriteFile(tf, []byte(src.String()), 0o644); err != nil {
		return ""
	}
	ov := map[string]string{}
	for dst, s := range r.c.p.files {
		ov[dst] = s
	}
	// the package's own tests are not needed
	olds, _ := filepath.Glob(filepath.Join(r.c.repo, rel, "*_test.go"))
	for _, f := range olds {
		ov[f] = ""
	}
	ov[filepath.Join(r.c.repo, rel, "zz_verif_replay_test.go")] = tf
	if jitter {
		jitterOverlay(r.c.repo, r.dir, ov)
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(r.dir, fmt.Sprintf("ov%d.json", r.seq))
	os.WriteFile(of, b, 0o644)
	bin := filepath.Join(r.dir, fmt.Sprintf("replay%d.test", r.seq))
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+rel)
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/opt/veriftools/go1.23.12/bin/go", args...)
	cmd.Dir = r.c.repo
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "replay build of %s failed: %v\n%s\n", pkg, err, out)
		return ""
	}
	r.bins[key] = bin
	return bin
}

// run runs every case and returns the results in the same order.
func (r *replayer) run(cases []caseIn) []*caseOut {
	outs := make([]*caseOut, len(cases))
	groups := map[string][]int{}
	var single []int
	for i, c := range cases {
		if c.isolate || c.race {
			single = append(single, i)
			continue
		}
		pkg := r.c.p.hpkg[c.Harness]
		groups[pkg] = append(groups[pkg], i)
	}
	for _, pkg := range sortedKeys(groups) {
		todo := groups[pkg]
		bin := r.binary(pkg, false, false)
		if bin == "" {
			continue
		}
		for len(todo) > 0 {
			var cs []caseIn
			for _, i := range todo {
				cs = append(cs, cases[i])
			}
			res, log := r.exec(bin, cs, 120*time.Second)
			n := 0
			for n < len(res) && res[n] != nil {
				outs[todo[n]] = res[n]
				n++
			}
			if n == len(todo) {
				break
			}
			if n > 0 && res[n-1].Hang {
				todo = todo[n:]
				continue
			}
			// the process died in case n
			outs[todo[n]] = &caseOut{Crash: crashLine(log)}
			todo = todo[n+1:]
		}
	}
	confirmed := map[string]int{}
	for _, i := range single {
		c := cases[i]
		bin := r.binary(r.c.p.hpkg[c.Harness], c.race, c.Repeat > 1)
		if bin == "" {
			continue
		}
		if c.race && confirmed[c.Harness] >= 3 {
			continue // enough of them are shown
		}
		res, log := r.exec(bin, []caseIn{c}, 120*time.Second)
		var o *caseOut
		if len(res) > 0 {
			o = res[0]
		}
		if o == nil {
			o = &caseOut{Crash: crashLine(log)}
		}
		o.DataRace = raceReport(log, r.c.repo)
		if c.race && o.DataRace != "" {
			confirmed[c.Harness]++
		}
		outs[i] = o
	}
	return outs
}

func crashLine(log string) string {
	for _, l := range strings.Split(log, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return "process died"
}

var frameRe = regexp.MustCompile(`(?m)^\s+(\S+\.go):(\d+)`)

// raceReport extracts the first data race between two accesses of which at
// least one is made by the repository's own code.
func raceReport(log, repo string) string {
	parts := strings.Split(log, "WARNING: DATA RACE")
	for _, p := range parts[1:] {
		if i := strings.Index(p, "=================="); i >= 0 {
			p = p[:i]
		}
		acc := p
		if i := strings.Index(acc, "\nGoroutine "); i >= 0 {
			acc = acc[:i]
		}
		ok := false
		for _, m := range frameRe.FindAllStringSubmatch(acc, -1) {
			if strings.HasPrefix(m[1], repo+"/") && !strings.Contains(m[1], "zz_verif") && !strings.Contains(m[1], "zzverif") {
				ok = true
			}
		}
		if ok {
			return "DATA RACE " + strings.TrimSpace(acc)
		}
	}
	return ""
}

func (r *replayer) exec(bin string, cases []caseIn, limit time.Duration) ([]*caseOut, string) {
	r.mu.Lock()
	r.seq++
	n := r.seq
	r.mu.Unlock()
	inF := filepath.Join(r.dir, fmt.Sprintf("in%d.json", n))
	outF := filepath.Join(r.dir, fmt.Sprintf("out%d.json", n))
	b, _ := json.Marshal(cases)
	os.WriteFile(inF, b, 0o644)
	work := filepath.Join(r.dir, fmt.Sprintf("w%d", n))
	os.MkdirAll(work, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
	cmd.Dir = work
	cmd.Env = append(goEnv(), "ZZVERIF_IN="+inF, "ZZVERIF_OUT="+outF, "GORACE=halt_on_error=1")
	var log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &log, &log
	err := cmd.Run()
	var res []*caseOut
	if ob, e := os.ReadFile(outF); e == nil {
		json.Unmarshal(ob, &res)
	}
	if os.Getenv("SYMDEBUG") != "" && err != nil {
		fmt.Fprintln(os.Stderr, "replay:", err, log.String())
	}
	return res, log.String()
}
