package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Model map[*Term]any // var -> bool | *big.Int | string

// ---- evaluation -------------------------------------------------------------

type evalErr struct{ s string }

func (c *Ctx) Eval(t *Term, m Model) any {
	memo := map[*Term]any{}
	return c.eval(t, m, memo)
}

func defaultVal(c *Ctx, t *Term) any {
	switch t.sort {
	case SBool:
		return false
	case SInt:
		vi := c.info[t]
		z := new(big.Int)
		if vi != nil {
			if vi.lo != nil && vi.lo.Cmp(z) > 0 {
				return vi.lo
			}
			if vi.hi != nil && vi.hi.Cmp(z) < 0 {
				return vi.hi
			}
		}
		return z
	}
	vi := c.info[t]
	ch := byte('a')
	if !vi.chars.has(ch) {
		for i := 0; i < 256; i++ {
			if vi.chars.has(byte(i)) {
				ch = byte(i)
				break
			}
		}
	}
	return strings.Repeat(string([]byte{ch}), vi.minLen)
}

func (c *Ctx) eval(t *Term, m Model, memo map[*Term]any) any {
	if v, ok := memo[t]; ok {
		return v
	}
	var r any
	ev := func(i int) any { return c.eval(t.args[i], m, memo) }
	bi := func(i int) *big.Int { return ev(i).(*big.Int) }
	bs := func(i int) string { return ev(i).(string) }
	bb := func(i int) bool { return ev(i).(bool) }
	switch t.op {
	case OVar:
		if v, ok := m[t]; ok {
			r = v
		} else if s, ok := c.subst[t]; ok {
			r = c.eval(s, m, memo)
		} else {
			r = defaultVal(c, t)
		}
	case OConst:
		switch t.sort {
		case SBool:
			r = t.b
		case SInt:
			r = t.c
		default:
			r = t.str
		}
	case ONot:
		r = !bb(0)
	case OAnd:
		r = true
		for i := range t.args {
			if !bb(i) {
				r = false
				break
			}
		}
	case OOr:
		r = false
		for i := range t.args {
			if bb(i) {
				r = true
				break
			}
		}
	case OEq:
		switch x := ev(0).(type) {
		case bool:
			r = x == bb(1)
		case string:
			r = x == bs(1)
		case *big.Int:
			r = x.Cmp(bi(1)) == 0
		}
	case OIte:
		if bb(0) {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OLin:
		z := new(big.Int).Set(t.c)
		for i := range t.args {
			z.Add(z, new(big.Int).Mul(t.coef[i], bi(i)))
		}
		r = z
	case OMul:
		r = new(big.Int).Mul(bi(0), bi(1))
	case ODiv:
		q, _ := new(big.Int).DivMod(bi(0), bi(1), new(big.Int))
		r = q
	case OMod:
		r = new(big.Int).Mod(bi(0), bi(1))
	case OLe:
		r = bi(0).Sign() <= 0
	case OConcat:
		var sb strings.Builder
		for i := range t.args {
			sb.WriteString(bs(i))
		}
		r = sb.String()
	case OLen:
		r = big.NewInt(int64(len(bs(0))))
	case OSubstr:
		s := bs(0)
		o, n := bi(1), bi(2)
		l := int64(len(s))
		if o.Sign() < 0 || o.Cmp(big.NewInt(l)) >= 0 || n.Sign() <= 0 {
			r = ""
		} else {
			e := new(big.Int).Add(o, n)
			if e.Cmp(big.NewInt(l)) > 0 {
				e.SetInt64(l)
			}
			r = s[o.Int64():e.Int64()]
		}
	case OIndexOf:
		s, sub, f := bs(0), bs(1), bi(2)
		if f.Sign() < 0 || f.Cmp(big.NewInt(int64(len(s)))) > 0 {
			r = big.NewInt(-1)
		} else if i := strings.Index(s[f.Int64():], sub); i < 0 {
			r = big.NewInt(-1)
		} else {
			r = big.NewInt(f.Int64() + int64(i))
		}
	case OPrefix:
		r = strings.HasPrefix(bs(1), bs(0))
	case OSuffix:
		r = strings.HasSuffix(bs(1), bs(0))
	case OContains:
		r = strings.Contains(bs(0), bs(1))
	case OFromCode:
		z := bi(0)
		if z.Sign() < 0 || z.Cmp(big.NewInt(255)) > 0 {
			r = ""
		} else {
			r = string([]byte{byte(z.Int64())})
		}
	case OToCode:
		s := bs(0)
		if len(s) == 1 {
			r = big.NewInt(int64(s[0]))
		} else {
			r = big.NewInt(-1)
		}
	case OFromInt:
		if bi(0).Sign() < 0 {
			r = ""
		} else {
			r = bi(0).String()
		}
	case OToInt:
		r = c.ToInt(c.Str(bs(0))).c
	case OReplaceAll:
		if bs(1) == "" {
			r = bs(0)
		} else {
			r = strings.ReplaceAll(bs(0), bs(1), bs(2))
		}
	case OStrLt:
		r = bs(0) < bs(1)
	case OInRe:
		re, ok := goRegex(t.str)
		if !ok {
			panic(evalErr{"regex"})
		}
		r = re.MatchString(bs(0))
	default:
		panic(evalErr{"eval " + opName[t.op]})
	}
	memo[t] = r
	return r
}

var reMap sync.Map // smt regex -> *regexp.Regexp
func regRe(smt, goRe string) string {
	if _, ok := reMap.Load(smt); !ok {
		reMap.Store(smt, regexp.MustCompile("^(?s:"+goRe+")$"))
	}
	return smt
}
func goRegex(smt string) (*regexp.Regexp, bool) {
	v, ok := reMap.Load(smt)
	if !ok {
		return nil, false
	}
	return v.(*regexp.Regexp), true
}

func (c *Ctx) evalBool(t *Term, m Model) (res bool, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(evalErr); is {
				ok = false
				return
			}
			panic(e)
		}
	}()
	return c.Eval(t, m).(bool), true
}

// ---- SMT-LIB printing -----------------------------------------------------------

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		b := s[i]
		switch {
		case b == '"':
			sb.WriteString(`""`)
		case b < 32 || b > 126 || b == '\\':
			fmt.Fprintf(&sb, `\u{%x}`, b)
		default:
			sb.WriteByte(b)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func smtInt(z *big.Int) string {
	if z.Sign() < 0 {
		return "(- " + new(big.Int).Neg(z).String() + ")"
	}
	return z.String()
}

type printer struct {
	c     *Ctx
	names map[*Term]string
	uses  map[*Term]int
	out   *strings.Builder
	n     int
	vars  []*Term
	isvar map[*Term]bool
}

func (p *printer) count(t *Term) {
	p.uses[t]++
	if p.uses[t] > 1 {
		return
	}
	if t.op == OVar && !p.isvar[t] {
		p.isvar[t] = true
		p.vars = append(p.vars, t)
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func (p *printer) term(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var s string
	switch t.op {
	case OVar:
		s = "|" + t.str + "|"
		p.names[t] = s
		return s
	case OConst:
		switch t.sort {
		case SBool:
			s = fmt.Sprint(t.b)
		case SInt:
			s = smtInt(t.c)
		default:
			s = smtStr(t.str)
		}
		return s
	case OLin:
		var parts []string
		if t.c.Sign() != 0 {
			parts = append(parts, smtInt(t.c))
		}
		for i, a := range t.args {
			x := p.term(a)
			if t.coef[i].Cmp(big.NewInt(1)) == 0 {
				parts = append(parts, x)
			} else {
				parts = append(parts, "(* "+smtInt(t.coef[i])+" "+x+")")
			}
		}
		if len(parts) == 1 {
			s = parts[0]
		} else {
			s = "(+ " + strings.Join(parts, " ") + ")"
		}
	case OLe:
		s = "(<= " + p.term(t.args[0]) + " 0)"
	case OInRe:
		s = "(str.in_re " + p.term(t.args[0]) + " " + t.str + ")"
	default:
		var sb strings.Builder
		sb.WriteString("(" + opName[t.op])
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(p.term(a))
		}
		sb.WriteByte(')')
		s = sb.String()
	}
	if p.uses[t] > 1 && len(s) > 24 {
		p.n++
		n := fmt.Sprintf("t!%d", p.n)
		fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t] = n
		return n
	}
	return s
}

func charsetRe(cs charset) string {
	var rs []string
	for i := 0; i < 256; {
		if !cs.has(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && cs.has(byte(j+1)) {
			j++
		}
		rs = append(rs, fmt.Sprintf(`(re.range "\u{%x}" "\u{%x}")`, i, j))
		i = j + 1
	}
	switch len(rs) {
	case 0:
		return "re.none"
	case 1:
		return rs[0]
	}
	return "(re.union " + strings.Join(rs, " ") + ")"
}

// query prints declarations and assertions for the conjunction.
func (c *Ctx) query(conds []*Term) (string, []*Term) {
	var out strings.Builder
	p := &printer{c: c, names: map[*Term]string{}, uses: map[*Term]int{}, out: &out, isvar: map[*Term]bool{}}
	for _, t := range conds {
		p.count(t)
	}
	for i := 0; i < len(p.vars); i++ {
		if vi := c.info[p.vars[i]]; vi != nil {
			for _, e := range vi.extra {
				p.count(e)
			}
		}
	}
	var decl strings.Builder
	for _, v := range p.vars {
		fmt.Fprintf(&decl, "(declare-const |%s| %s)\n", v.str, v.sort)
		vi := c.info[v]
		n := "|" + v.str + "|"
		switch v.sort {
		case SInt:
			if vi.lo != nil {
				fmt.Fprintf(&decl, "(assert (<= %s %s))\n", smtInt(vi.lo), n)
			}
			if vi.hi != nil {
				fmt.Fprintf(&decl, "(assert (<= %s %s))\n", n, smtInt(vi.hi))
			}
		case SStr:
			re := charsetRe(vi.chars)
			fmt.Fprintf(&decl, "(assert (str.in_re %s (re.* %s)))\n", n, re)
			if vi.minLen > 0 {
				fmt.Fprintf(&decl, "(assert (<= %d (str.len %s)))\n", vi.minLen, n)
			}
			if vi.maxLen >= 0 && vi.maxLen < opaqueMax {
				fmt.Fprintf(&decl, "(assert (<= (str.len %s) %d))\n", n, vi.maxLen)
			}
		}
	}
	var asserts []string
	for _, t := range conds {
		asserts = append(asserts, "(assert "+p.term(t)+")")
	}
	for _, v := range p.vars {
		for _, e := range c.info[v].extra {
			asserts = append(asserts, "(assert "+p.term(e)+")")
		}
	}
	return decl.String() + out.String() + strings.Join(asserts, "\n") + "\n", p.vars
}

// ---- solver processes --------------------------------------------------------------

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type proc struct {
	name string
	argv []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

func (p *proc) start() error {
	p.cmd = exec.Command(p.argv[0], p.argv[1:]...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	p.cmd.Stderr = nil
	if err := p.cmd.Start(); err != nil {
		return err
	}
	p.in, p.out = in, bufio.NewReaderSize(out, 1<<16)
	return nil
}
func (p *proc) kill() {
	if p.cmd != nil && p.cmd.Process != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	p.cmd = nil
}

type Solver struct {
	procs []*proc
	stats *SolverStats
	cache *sync.Map
	dump  string
}

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, ModelHits, SyntN int64
	Nanos                                                        int64
	Crossed, CrossDisagree                                       int64
}

func NewSolver(stats *SolverStats, cache *sync.Map) *Solver {
	return &Solver{stats: stats, cache: cache, procs: []*proc{
		{name: "z3", argv: []string{"z3-new", "-in", "-smt2"}},
		{name: "cvc5", argv: []string{"cvc5", "--incremental", "--produce-models", "--strings-exp", "--lang=smt2"}},
	}}
}

func (s *Solver) Close() {
	for _, p := range s.procs {
		p.kill()
	}
}

type cacheEnt struct {
	r Result
	m map[string]any
}

var dumpN int64

// Check decides the conjunction; on Sat the model covers the variables of the query.
func (s *Solver) Check(c *Ctx, conds []*Term) (Result, Model) {
	q, vars := c.query(conds)
	if e, ok := s.cache.Load(q); ok {
		atomic.AddInt64(&s.stats.CacheHits, 1)
		ce := e.(cacheEnt)
		return ce.r, nameModel(vars, ce.m)
	}
	t0 := time.Now()
	var res Result
	var raw map[string]any
	timeouts := []time.Duration{1500 * time.Millisecond, 4 * time.Second, 12 * time.Second}
	order := []int{0, 1, 0}
	if strings.Contains(q, "str.replace_all") || strings.Contains(q, "str.from_int") {
		order = []int{1, 0, 1}
	}
	for k := 0; k < len(order) && res == Unknown; k++ {
		res, raw = s.run(s.procs[order[k]], q, vars, timeouts[k])
		if res == Sat { // validate the model against our own semantics
			m := nameModel(vars, raw)
			for _, t := range conds {
				if v, ok := c.evalBool(t, m); ok && !v {
					res = Unknown
					if os.Getenv("SYMDEBUG") != "" {
						fmt.Fprintf(os.Stderr, "model rejected (%s) for %s\n%v\n", s.procs[order[k]].name, t, raw)
					}
					break
				}
			}
		}
	}
	d := time.Since(t0)
	atomic.AddInt64(&s.stats.Nanos, int64(d))
	atomic.AddInt64(&s.stats.Queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	if dir := os.Getenv("SYMDUMP"); dir != "" && (d > 800*time.Millisecond || res == Unknown) {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/q%d_%s_%dms.smt2", dir, n, res, d.Milliseconds()), []byte("(set-logic ALL)\n"+q+"(check-sat)\n"), 0o644)
	}
	s.cache.Store(q, cacheEnt{res, raw})
	return res, nameModel(vars, raw)
}

func nameModel(vars []*Term, raw map[string]any) Model {
	if raw == nil {
		return nil
	}
	m := Model{}
	for _, v := range vars {
		if x, ok := raw[v.str]; ok {
			m[v] = x
		}
	}
	return m
}

func (s *Solver) run(p *proc, q string, vars []*Term, timeout time.Duration) (Result, map[string]any) {
	if p.cmd == nil {
		if err := p.start(); err != nil {
			return Unknown, nil
		}
		io.WriteString(p.in, "(set-option :produce-models true)\n(set-logic ALL)\n")
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	if p.name == "z3" {
		fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeout.Milliseconds())
	}
	sb.WriteString(q)
	sb.WriteString("(check-sat)\n(echo \"@done\")\n")
	type reply struct {
		lines []string
		err   error
	}
	read := func() chan reply {
		ch := make(chan reply, 1)
		go func() {
			var r reply
			for {
				l, err := p.out.ReadString('\n')
				if err != nil {
					r.err = err
					break
				}
				l = strings.TrimRight(l, "\n")
				if strings.Trim(l, "\"") == "@done" {
					break
				}
				r.lines = append(r.lines, l)
			}
			ch <- r
		}()
		return ch
	}
	if _, err := io.WriteString(p.in, sb.String()); err != nil {
		p.kill()
		return Unknown, nil
	}
	ask := func(d time.Duration) (reply, bool) {
		ch := read()
		select {
		case r := <-ch:
			if r.err != nil {
				p.kill()
				return r, false
			}
			return r, true
		case <-time.After(d):
			p.kill()
			return reply{}, false
		}
	}
	r, ok := ask(timeout + 700*time.Millisecond)
	if !ok {
		return Unknown, nil
	}
	res := Unknown
	for _, l := range r.lines {
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("SYMDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver error:", p.name, l)
				fmt.Fprintln(os.Stderr, q)
			}
			p.kill()
			return Unknown, nil
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	var m map[string]any
	if res == Sat && len(vars) > 0 {
		var g strings.Builder
		g.WriteString("(get-value (")
		for _, v := range vars {
			g.WriteString("|" + v.str + "| ")
		}
		g.WriteString("))\n(echo \"@done\")\n")
		io.WriteString(p.in, g.String())
		r, ok := ask(5 * time.Second)
		if !ok {
			return Unknown, nil
		}
		var err error
		m, err = parseModel(strings.Join(r.lines, "\n"), vars)
		if err != nil {
			if os.Getenv("SYMDEBUG") != "" {
				fmt.Fprintln(os.Stderr, "model parse:", err, r.lines)
			}
			res = Unknown
		}
	} else if res == Sat {
		m = map[string]any{}
	}
	io.WriteString(p.in, "(pop 1)\n")
	return res, m
}

// parseModel reads ((|a| val) (|b| val)).
func parseModel(s string, vars []*Term) (map[string]any, error) {
	toks := tokenize(s)
	m := map[string]any{}
	i := 0
	next := func() string {
		if i < len(toks) {
			i++
			return toks[i-1]
		}
		return ""
	}
	if next() != "(" {
		return nil, fmt.Errorf("bad model")
	}
	sortOf := map[string]Sort{}
	for _, v := range vars {
		sortOf[v.str] = v.sort
	}
	for {
		t := next()
		if t == ")" {
			return m, nil
		}
		if t != "(" {
			return nil, fmt.Errorf("bad model at %q", t)
		}
		n := strings.Trim(next(), "|")
		v := next()
		switch sortOf[n] {
		case SBool:
			m[n] = v == "true"
		case SInt:
			neg := false
			if v == "(" {
				if next() != "-" {
					return nil, fmt.Errorf("int")
				}
				v = next()
				neg = true
				next()
			}
			z, ok := new(big.Int).SetString(v, 10)
			if !ok {
				return nil, fmt.Errorf("int %q", v)
			}
			if neg {
				z.Neg(z)
			}
			m[n] = z
		case SStr:
			u, err := unSmt(v)
			if err != nil {
				return nil, err
			}
			m[n] = u
		}
		if next() != ")" {
			return nil, fmt.Errorf("bad model end")
		}
	}
}

func unSmt(v string) (string, error) {
	if len(v) < 2 || v[0] != '"' {
		return "", fmt.Errorf("string %q", v)
	}
	v = strings.ReplaceAll(v[1:len(v)-1], `""`, `"`)
	var sb strings.Builder
	for i := 0; i < len(v); i++ {
		if v[i] == '\\' && i+1 < len(v) && v[i+1] == 'u' {
			if i+2 < len(v) && v[i+2] == '{' {
				j := strings.IndexByte(v[i:], '}')
				if j > 0 {
					n, err := strconv.ParseInt(v[i+3:i+j], 16, 32)
					if err == nil {
						if n > 255 {
							return "", fmt.Errorf("char %x", n)
						}
						sb.WriteByte(byte(n))
						i += j
						continue
					}
				}
			}
		}
		sb.WriteByte(v[i])
	}
	return sb.String(), nil
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch b := s[i]; {
		case b == ' ' || b == '\n' || b == '\t' || b == '\r':
			i++
		case b == '(' || b == ')':
			out = append(out, string(b))
			i++
		case b == '"':
			j := i + 1
			for j < len(s) {
				if s[j] == '"' {
					if j+1 < len(s) && s[j+1] == '"' {
						j += 2
						continue
					}
					break
				}
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case b == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
