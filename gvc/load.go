package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPrefix = "reduction.dev/reduction"

type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	tpkgs map[string]*types.Package // every loaded types package by path
	fns   map[string]*ssa.Function  // pkg.key -> function
	Errs  []string

	stored     map[string]bool // globals assigned outside package initializers
	storedOnce sync.Once
}

func inModule(path string) bool {
	return path == modPrefix || strings.HasPrefix(path, modPrefix+"/")
}

func loadCfg(repo, scr string) *packages.Config {
	ov := map[string][]byte{}
	if data, err := os.ReadFile(filepath.Join(scr, "overlay.json")); err == nil {
		var o struct{ Replace map[string]string }
		if err := json.Unmarshal(data, &o); err != nil {
			panic(err)
		}
		for k, f := range o.Replace {
			if f == "" {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				panic(err)
			}
			ov[k] = b
		}
	}
	goroot := "/opt/veriftools/go1.24.13"
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOROOT=") || strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOEXPERIMENT=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOROOT="+goroot, "PATH="+goroot+"/bin:"+os.Getenv("PATH"), "GOEXPERIMENT=synctest",
		"GOFLAGS=-modfile="+scr+"/go.mod -mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile | packages.NeedDeps,
		Dir: repo, Env: env, Overlay: ov,
	}
	return cfg
}

func load(repo, scr string, patterns []string) (*Program, error) {
	cfg := loadCfg(repo, scr)
	// Types of dependencies come from export data, not source.
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	P := &Program{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, fns: map[string]*ssa.Function{}}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			P.Errs = append(P.Errs, e.Error())
		}
	}
	if len(P.Errs) > 0 {
		return P, fmt.Errorf("load: %s", strings.Join(P.Errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	P.prog = prog
	prog.Build()
	for i, p := range spkgs {
		if p != nil {
			P.pkgs[pkgs[i].PkgPath] = p
		}
	}
	var addT func(t *types.Package)
	addT = func(t *types.Package) {
		if P.tpkgs[t.Path()] != nil {
			return
		}
		P.tpkgs[t.Path()] = t
		for _, i := range t.Imports() {
			addT(i)
		}
	}
	for _, p := range pkgs {
		addT(p.Types)
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Origin() != nil && f.Origin() != f {
			continue
		}
		pk, key := fnKey(f)
		if pk != "" && f.Synthetic == "" {
			P.fns[pk+"."+key] = f
		}
	}
	// generic methods and functions are not reached by AllFunctions: add declared members
	for path, p := range P.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				pk, key := fnKey(m)
				P.fns[pk+"."+key] = m
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						_, key := fnKey(f)
						P.fns[path+"."+key] = f
					}
				}
			}
		}
	}
	return P, nil
}

func fnKey(f *ssa.Function) (string, string) {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		pk, k := fnKey(f.Parent())
		n := f.Name()
		if i := strings.LastIndex(n, "$"); i >= 0 {
			n = n[i:]
		}
		return pk, k + n
	}
	obj, ok := f.Object().(*types.Func)
	if !ok || obj == nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path(), f.Name()
		}
		return "", f.Name()
	}
	return funcObjKey(obj)
}

func funcObjKey(obj *types.Func) (string, string) {
	if o := obj.Origin(); o != nil {
		obj = o
	}
	pk := ""
	if obj.Pkg() != nil {
		pk = obj.Pkg().Path()
	}
	sig := obj.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		switch t := t.(type) {
		case *types.Named:
			return pk, "(" + star + t.Obj().Name() + ")." + obj.Name()
		default:
			_ = t
		}
		return pk, "(iface)." + obj.Name()
	}
	return pk, obj.Name()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
