package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const hdir = "internal/zzverif"

type Prog struct {
	prog         *ssa.Program
	pkgs         []*ssa.Package
	mod          string
	tString      *tinfo
	tError       *tinfo
	tErrorString *tinfo
	tWrapError   *tinfo
	swapStub     *ssa.Function
	redirects    map[*ssa.Function]*ssa.Function
	std          map[*ssa.Function]*ssa.Function
	impl         sync.Map
}

// Harness is one entry point.
type Harness struct {
	Name string // dir.Func
	Dir  string
	Func string
	Opts map[string]string
	fn   *ssa.Function
}

var goEnv = []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GO111MODULE=on"}

// overlay maps harness sources into the repository's module.
func overlayFiles(repo, verif string) (map[string]string, error) {
	m := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		m[filepath.Join(repo, hdir, rel)] = p
		return nil
	})
	return m, err
}

var hfn = regexp.MustCompile(`(?m)^func (H_([A-Z0-9]+)_\w+)\(\)`)

// harnessDirs finds the harness packages with entry points for prop.
func harnessDirs(verif, prop string) ([]string, error) {
	seen := map[string]bool{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		for _, x := range hfn.FindAllStringSubmatch(string(b), -1) {
			if prop == "" || x[2] == prop {
				rel, _ := filepath.Rel(root, filepath.Dir(p))
				seen[rel] = true
			}
		}
		return nil
	})
	var r []string
	for d := range seen {
		r = append(r, d)
	}
	sort.Strings(r)
	return r, err
}

func loadProg(repo, verif string, dirs []string, prop string) (*Prog, []*Harness, error) {
	files, err := overlayFiles(repo, verif)
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), goEnv...),
	}
	pats := []string{"./" + hdir + "/nd"}
	for _, d := range dirs {
		pats = append(pats, "./"+hdir+"/"+d)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	var bad, good []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if i := strings.Index(p.PkgPath, "/"+hdir+"/"); i >= 0 && len(p.Errors) > 0 {
			bad = append(bad, p.PkgPath[i+len(hdir)+2:])
		}
	})
	if len(bad) > 0 {
		for _, d := range dirs {
			if !contains(bad, d) {
				good = append(good, d)
			}
		}
		// a harness that names something the code no longer has is left out,
		// the others still decide the property
		if len(good) > 0 && len(good) < len(dirs) {
			fmt.Println("NOTE: left out, they do not compile against this tree:", strings.Join(bad, " "), errs[0])
			return loadProg(repo, verif, good, prop)
		}
	}
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, nil, fmt.Errorf("the code does not load: %s", strings.Join(errs, "; "))
	}
	sp, spk := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	sp.Build()
	p := &Prog{prog: sp, pkgs: spk, redirects: map[*ssa.Function]*ssa.Function{}}
	p.mod = "github.com/mem-memov/semnet"
	for _, pk := range pkgs {
		if pk.Module != nil {
			p.mod = pk.Module.Path
		}
	}
	p.tString = ti(types.Typ[types.String])
	p.tError = ti(types.Universe.Lookup("error").Type())
	get := func(path, name string) *tinfo {
		for _, q := range sp.AllPackages() {
			if q.Pkg.Path() == path {
				if t := q.Type(name); t != nil {
					return ti(types.NewPointer(t.Type()))
				}
			}
		}
		return nil
	}
	p.tErrorString = get("errors", "errorString")
	p.tWrapError = get("fmt", "wrapError")
	var hs []*Harness
	byPath := map[string]*ssa.Function{}
	for _, q := range sp.AllPackages() {
		path := q.Pkg.Path()
		i := strings.Index(path, "/"+hdir+"/")
		if i < 0 {
			continue
		}
		dir := path[i+len(hdir)+2:]
		if dir == "nd" {
			p.swapStub = q.Func("SwapStub")
			p.std = map[*ssa.Function]*ssa.Function{}
			for from, to := range stdStubs {
				if a, b := p.findFunc(from), q.Func(to); a != nil && b != nil {
					p.std[a] = b
				}
			}
		}
		for name, m := range q.Members {
			fn, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			byPath[dir+"."+name] = fn
			if x := hfn.FindStringSubmatch("func " + name + "()"); x != nil && (prop == "" || x[2] == prop) {
				h := &Harness{Name: dir + "." + name, Dir: dir, Func: name, fn: fn, Opts: map[string]string{}}
				if d, ok := fn.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
					for _, c := range d.Doc.List {
						t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
						if strings.HasPrefix(t, "verif:") {
							kv := strings.SplitN(strings.TrimPrefix(t, "verif:"), " ", 2)
							v := ""
							if len(kv) == 2 {
								v = strings.TrimSpace(kv[1])
							}
							if o := h.Opts[kv[0]]; o != "" {
								v = o + " " + v
							}
							h.Opts[kv[0]] = v
						}
					}
				}
				hs = append(hs, h)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Name < hs[j].Name })
	return p, hs, nil
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

// stdStubs are the library functions replaced by those of harness/nd/std.go.
var stdStubs = map[string]string{
	"errors.Is": "ErrorsIs", "errors.As": "ErrorsAs",
	"fmt.Sprintf": "Sprintf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln",
	"fmt.Fprintf": "Fprintf", "fmt.Fprint": "Fprint", "fmt.Fprintln": "Fprintln",
	"(*sync.Pool).Get": "PoolGet", "(*sync.Pool).Put": "PoolPut",
	"(*sync.Map).Load": "MapLoad", "(*sync.Map).Store": "MapStore", "(*sync.Map).Delete": "MapDelete",
	"(*sync.Map).LoadOrStore": "MapLoadOrStore", "(*sync.Map).LoadAndDelete": "MapLoadAndDelete", "(*sync.Map).Range": "MapRange",
	"time.Now": "Now", "time.Since": "Since", "os.Getenv": "Getenv", "os.LookupEnv": "LookupEnv",
}

// findFunc resolves "path.Func" or "(*path.Type).Method" relative to the module.
func (p *Prog) findFunc(spec string) *ssa.Function {
	spec = strings.ReplaceAll(spec, "MOD", p.mod)
	for _, q := range p.prog.AllPackages() {
		path := q.Pkg.Path()
		if strings.HasPrefix(spec, "(") {
			in := strings.TrimPrefix(spec, "(")
			i := strings.Index(in, ").")
			recv, meth := in[:i], in[i+2:]
			ptr := strings.HasPrefix(recv, "*")
			recv = strings.TrimPrefix(recv, "*")
			if !strings.HasPrefix(recv, path+".") {
				continue
			}
			tn := recv[len(path)+1:]
			t := q.Type(tn)
			if t == nil {
				continue
			}
			ty := t.Type()
			if ptr {
				ty = types.NewPointer(ty)
			}
			if p.prog.MethodSets.MethodSet(ty).Lookup(q.Pkg, meth) == nil {
				return nil
			}
			return p.prog.LookupMethod(ty, q.Pkg, meth)
		}
		if strings.HasPrefix(spec, path+".") {
			if f := q.Func(spec[len(path)+1:]); f != nil {
				return f
			}
		}
	}
	return nil
}

func (p *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	return p.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (p *Prog) implements(t, it *tinfo) bool {
	k := [2]int{t.id, it.id}
	if r, ok := p.impl.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t.t, it.Underlying())
	p.impl.Store(k, r)
	return r
}

func (t *tinfo) Underlying() *types.Interface { return t.t.Underlying().(*types.Interface) }

func (p *Prog) hasStringer(t *tinfo) bool {
	ms := p.prog.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" || n == "Format" || n == "GoString" {
			return true
		}
	}
	return false
}

var noInitPrefixes = []string{"runtime", "internal/", "os", "syscall", "reflect", "time", "log", "testing", "errors", "fmt", "sync", "unsafe", "math/rand", "crypto", "net", "context", "io/fs", "path"}

func (p *Prog) noInit(q *ssa.Package) bool {
	path := q.Pkg.Path()
	for _, x := range noInitPrefixes {
		if path == x || strings.HasPrefix(path, x+"/") || (strings.HasSuffix(x, "/") && strings.HasPrefix(path, x)) {
			return true
		}
	}
	return false
}

// redirect replaces calls to a summarised function, except from its summary.
func (e *Eng) redirect(f *Frame, fn *ssa.Function) *ssa.Function {
	if r := e.prog.std[fn]; r != nil {
		return r
	}
	if len(e.prog.redirects) == 0 || !e.job.redirect {
		return nil
	}
	r := e.prog.redirects[fn]
	if r == nil {
		return nil
	}
	c := f.cf.fn
	if c.Pkg != nil && strings.Contains(c.Pkg.Pkg.Path(), hdir) {
		return nil
	}
	return r
}
