package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ibm-cloud-security/app-identity-and-access-adapter"

type nativeImpl func(in *Interp, fr *frame, fn *ssa.Function, a []value) value

type Program struct {
	prog    *ssa.Program
	fset    *token.FileSet
	slots   sync.Map // *ssa.Function -> map[ssa.Value]int32
	harness map[string]*ssa.Function
	hopts   map[string]map[string]string // directives
	hpkg    map[string]string            // package path of a harness
	hdoc    map[string]string            // its documentation
	files   map[string]string            // overlay: place in the repository -> file

	pkgs map[string]*ssa.Package

	natives map[string]nativeImpl
	natC    sync.Map
	methC   sync.Map
	repoC   sync.Map

	runtimeErr types.Type
	overlay    map[string][]byte
	root       string
	loadErrs   []string
}

// overlayFiles maps every file under harnessDir to its place in the repository.
func overlayFiles(harnessDir, repo string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(harnessDir, p)
		out[filepath.Join(repo, rel)] = p
		return nil
	})
	return out, err
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GO") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH=/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"), "GOROOT=/opt/veriftools/go1.23.12", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GO111MODULE=on",
		"GOMODCACHE=/root/go/pkg/mod", "GOPATH=/root/go", "GOCACHE="+goCache())
}

func goCache() string {
	if c := os.Getenv("GOCACHE"); c != "" {
		return c
	}
	return "/root/.cache/go-build"
}

func Load(repo string, files map[string]string, patterns []string) (*Program, error) {
	ov := map[string][]byte{}
	for dst, src := range files {
		if strings.HasSuffix(dst, "_test.go") {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	p := &Program{harness: map[string]*ssa.Function{}, hopts: map[string]map[string]string{}, hpkg: map[string]string{}, pkgs: map[string]*ssa.Package{}, files: files, hdoc: map[string]string{}, overlay: ov, root: repo}
	p.fset = token.NewFileSet()
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: goEnv(), Fset: p.fset}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		for _, e := range q.Errors {
			if strings.HasPrefix(q.PkgPath, modPath) {
				p.loadErrs = append(p.loadErrs, e.Error())
			}
		}
	})
	if len(p.loadErrs) > 0 {
		return p, fmt.Errorf("load: %s", strings.Join(p.loadErrs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for _, q := range prog.AllPackages() {
		p.pkgs[q.Pkg.Path()] = q
		for name, m := range q.Members {
			if fn, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, "Verif_") && strings.HasPrefix(q.Pkg.Path(), modPath) {
				p.harness[name] = fn
				p.hpkg[name] = q.Pkg.Path()
				p.hopts[name] = map[string]string{}
				if fd, ok := fn.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
					p.hdoc[name] = strings.TrimSpace(strings.ReplaceAll(fd.Doc.Text(), "\n", " "))
					for _, c := range fd.Doc.List {
						if s, ok := strings.CutPrefix(c.Text, "//verif:"); ok {
							for _, kv := range strings.Fields(s) {
								k, v, _ := strings.Cut(kv, "=")
								p.hopts[name][k] = v
							}
						}
					}
				}
			}
		}
	}
	if r := p.pkgs["runtime"]; r != nil {
		if t := r.Type("Error"); t != nil {
			_ = t
		}
		if t := r.Pkg.Scope().Lookup("errorString"); t != nil {
			p.runtimeErr = t.Type()
		}
	}
	p.natives = buildNatives()
	return p, nil
}

func (p *Program) harnesses(prefix string) []string {
	var out []string
	for n := range p.harness {
		if strings.HasPrefix(n, prefix) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func (p *Program) isRepo(pkg *ssa.Package) bool {
	return pkg != nil && strings.HasPrefix(pkg.Pkg.Path(), modPath)
}

func isVerifPkg(path string) bool { return strings.HasSuffix(path, "/zzverif") }

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.fset.Position(ps)
	return strings.TrimPrefix(q.Filename, p.root+"/") + ":" + fmt.Sprint(q.Line)
}

func (p *Program) noteFunc(e *Explorer, fn *ssa.Function) {
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		return
	}
	if _, ok := e.fnSeen.Load(fn); ok {
		return
	}
	e.fnSeen.Store(fn, true)
	if strings.HasSuffix(fn.Pkg.Pkg.Path(), "/zzverif") {
		return
	}
	if f := p.fset.Position(fn.Pos()).Filename; strings.Contains(filepath.Base(f), "zz_verif") {
		return
	}
	e.note2(fn.String())
}

func (e *Explorer) note2(n string) {
	e.mu.Lock()
	e.funcs[strings.ReplaceAll(n, modPath+"/", "")] = true
	e.mu.Unlock()
}

func (p *Program) native(fn *ssa.Function) nativeImpl {
	if v, ok := p.natC.Load(fn); ok {
		if v == nil {
			return nil
		}
		return v.(nativeImpl)
	}
	impl := p.findNative(fn)
	if impl == nil {
		p.natC.Store(fn, nativeImpl(nil))
	} else {
		p.natC.Store(fn, impl)
	}
	return impl
}

func (p *Program) findNative(fn *ssa.Function) nativeImpl {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	if n, ok := p.natives[f.String()]; ok {
		return n
	}
	// packages replaced as a whole (logging)
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if strings.HasPrefix(pkg, zapPkg) && f.Name() != "init" {
		return p.logNative(fn, f)
	}
	if isVerifPkg(pkg) && p.natives["zz."+f.Name()] != nil && f.Signature.Recv() == nil {
		return p.natives["zz."+f.Name()]
	}
	return nil
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (p *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if v, ok := p.methC.Load(k); ok {
		return v.(*ssa.Function)
	}
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		return nil
	}
	p.methC.Store(k, f)
	return f
}

// method finds a method by name for engine-initiated calls.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	q := p.pkgs[pkg]
	if q == nil || q.Func(name) == nil {
		panic(unsupported("function %s.%s", pkg, name))
	}
	return q.Func(name)
}

func (p *Program) typeOf(pkg, name string) types.Type {
	q := p.pkgs[pkg]
	if q == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	o := q.Pkg.Scope().Lookup(name)
	if o == nil {
		panic(unsupported("type %s.%s", pkg, name))
	}
	return o.Type()
}

// field returns the address of a named field of a struct value (embedded
// structs are searched one level deep).
func fieldIdx(t types.Type, name string) []int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if r := fieldIdx(st.Field(i).Type(), name); r != nil {
				return append([]int{i}, r...)
			}
		}
	}
	return nil
}

func fieldPtr(s value, t types.Type, name string) *value {
	ix := fieldIdx(t, name)
	if ix == nil {
		panic(unsupported("no field %s in %s", name, t))
	}
	var p *value
	cur := s
	for _, i := range ix {
		st, ok := cur.(structure)
		if !ok {
			panic(unsupported("field %s of %T", name, cur))
		}
		p = &st[i]
		cur = *p
	}
	return p
}
