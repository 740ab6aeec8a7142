package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ngicks/go-fsys-helper/"

// modules joined by the build's workspace; aferofs is frozen upstream and
// stands alone.
var moduleDirs = []string{"fsutil", "stream", "tarfs", "vroot", "vroot-adapter/overlayfs", "vroot-adapter/sftpfs"}

// Prog is the loaded, type-checked and SSA-built repository.
type Prog struct {
	cursors            map[*types.Var]bool
	immOnce            sync.Once
	mutable, fieldSeen map[*types.Var]bool
	ltf                map[*types.Var]bool
	Repo               string
	Lean               bool // every function is decided by itself: calls of others are not entered
	GOOS               string
	Fset               *token.FileSet
	Pkgs               map[string]*packages.Package // by import path without modPath
	SSA                *ssa.Program
	Funcs              []*ssa.Function // every source function with a body, generic origins, incl. anonymous
	byObj              map[*types.Func]*ssa.Function
	files              map[string]*ast.File
	// Skip are packages loaded for types but never analysed as subjects.
}

// support packages: test scaffolding shipped as ordinary packages.
func isSupportPkg(p string) bool {
	return strings.Contains(p, "testhelper") || strings.Contains(p, "acceptancetest") ||
		strings.HasSuffix(p, "/example") || strings.Contains(p, "/example/") || strings.Contains(p, "/internal/cmd") ||
		strings.Contains(p, "osfslite")
}

// loadAfero loads the aferofs module, which stands outside the workspace.
// Its code generators (cmd) are not library code.
func loadAfero(repo string) (*Prog, error) {
	env := append(os.Environ(),
		"GOWORK=off", "GOFLAGS=", "GOENV=off", "GOPROXY=off", "GOTOOLCHAIN=local",
		"GOPATH=/root/go", "GOCACHE="+goCache(), "HOME=/root", "CGO_ENABLED=1",
	)
	p, err := loadPkgs(repo, repo+"/aferofs", "", env, []string{".", "./synth/...", "./clock/...", "./internal/..."})
	if p != nil {
		p.Lean = true
	}
	return p, err
}

func loadRepo(repo, goos string) (*Prog, error) {
	work := "/opt/vp/go.work"
	if repo != "/repo" {
		b, err := os.ReadFile(work)
		if err != nil {
			return nil, err
		}
		s := strings.ReplaceAll(string(b), "/repo/", repo+"/")
		f, err := os.CreateTemp("", "gowork*.work")
		if err != nil {
			return nil, err
		}
		f.WriteString(s)
		f.Close()
		defer os.Remove(f.Name())
		sum := "/opt/vp/go.work.sum"
		if sb, err := os.ReadFile(sum); err == nil {
			os.WriteFile(f.Name()+".sum", sb, 0o644)
			defer os.Remove(f.Name() + ".sum")
		}
		work = f.Name()
	}
	const goBin = "/opt/veriftools/go1.26.10/bin"
	if !strings.HasPrefix(os.Getenv("PATH"), goBin) {
		os.Setenv("PATH", goBin+":"+os.Getenv("PATH"))
	}
	os.Unsetenv("GOROOT")
	env := os.Environ()
	env = append(env,
		"GOWORK="+work, "GOFLAGS=", "GOENV=off", "GOPROXY=off", "GOTOOLCHAIN=local",
		"GOPATH=/root/go", "GOCACHE="+goCache(), "HOME=/root",
	)
	if goos != "" {
		env = append(env, "GOOS="+goos, "CGO_ENABLED=0")
	} else {
		env = append(env, "CGO_ENABLED=1")
	}
	var pats []string
	for _, m := range moduleDirs {
		pats = append(pats, "./"+m+"/...")
	}
	return loadPkgs(repo, repo, goos, env, pats)
}

func loadPkgs(repo, dir, goos string, env, pats []string) (*Prog, error) {
	mode := packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
		packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: mode, Dir: dir, Env: env, Fset: fset}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Prog{Repo: repo, GOOS: goos, Fset: fset, Pkgs: map[string]*packages.Package{}, byObj: map[*types.Func]*ssa.Function{}, files: map[string]*ast.File{}}
	for _, pk := range pkgs {
		if len(pk.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, pk.Errors[0])
		}
		p.Pkgs[strings.TrimPrefix(pk.PkgPath, modPath)] = pk
		for _, f := range pk.Syntax {
			p.files[fset.Position(f.Pos()).Filename] = f
		}
	}
	sp, _ := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	sp.Build()
	p.SSA = sp
	p.collect()
	return p, nil
}

func goCache() string {
	if c := os.Getenv("GOCACHE"); c != "" {
		return c
	}
	return "/root/.cache/go-build"
}

func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil {
			return
		}
		seen[fn] = true
		p.Funcs = append(p.Funcs, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	keys := make([]string, 0, len(p.Pkgs))
	for k := range p.Pkgs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if isSupportPkg(k) {
			continue
		}
		pk := p.Pkgs[k]
		var objs []*types.Func
		for _, o := range pk.TypesInfo.Defs {
			if f, ok := o.(*types.Func); ok {
				objs = append(objs, f)
			}
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
		for _, f := range objs {
			fn := p.SSA.FuncValue(f)
			if fn != nil {
				p.byObj[f] = fn
				add(fn)
			}
		}
		if sp := p.SSA.Package(pk.Types); sp != nil {
			add(sp.Func("init"))
		}
	}
}

// rel renders a position relative to the repository root.
func (p *Prog) rel(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func pkgRel(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	return strings.TrimPrefix(pk.Path(), modPath)
}

func inRepo(pk *types.Package) bool {
	return pk != nil && strings.HasPrefix(pk.Path(), modPath)
}

// Type looks up a named type: pkg is relative to the module root.
func (p *Prog) Type(pkg, name string) *types.Named {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	if n == nil {
		if a, ok := o.Type().(*types.Alias); ok {
			n, _ = types.Unalias(a).(*types.Named)
		}
	}
	return n
}

// Func looks up a package-level function.
func (p *Prog) Func(pkg, name string) *ssa.Function {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	o, _ := pk.Types.Scope().Lookup(name).(*types.Func)
	if o == nil {
		return nil
	}
	return p.SSA.FuncValue(o)
}

// Method finds the declared (not promoted) method of a named type.
func (p *Prog) Method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

// fnName is a stable, line-free name for reports and known-finding keys.
func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath, "")
	return s
}
