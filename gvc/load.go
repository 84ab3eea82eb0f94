package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program: /repo's current working tree in SSA form.
type Prog struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	funcs map[string]*ssa.Function // by canonical key, for example "pkg.(*T).M" or "pkg.F"
	all   map[*ssa.Function]bool
	mods  map[*ssa.Global]bool // globals stored to outside init
}

func loadProg(dir string, patterns []string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	for _, p := range initial {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load error:", e)
			nerr++
		}
	}
	if nerr > 0 {
		return nil, fmt.Errorf("%d package load errors", nerr)
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	// Only the packages of the repository are built; everything else is external (contract or error).
	P := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, mods: map[*ssa.Global]bool{}}
	for _, p := range prog.AllPackages() {
		if p.Pkg == nil {
			continue
		}
		P.pkgs[p.Pkg.Path()] = p
		if isBody(p.Pkg.Path()) {
			p.Build()
		}
	}
	P.all = ssautil.AllFunctions(prog)
	for f := range P.all {
		if k := funcKey(f); k != "" {
			P.funcs[k] = f
		}
		if f.Pkg == nil || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						P.mods[g] = true
					}
				}
			}
		}
	}
	return P, nil
}

const repoPath = "github.com/katydid/katydid"

// isBody reports whether calls into a package are replaced by the bodies of its functions.
func isBody(path string) bool {
	return isRepo(path) || path == "github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
}

func isRepo(path string) bool {
	return path == repoPath || strings.HasPrefix(path, repoPath+"/")
}

func shortPkg(path string) string {
	return strings.TrimPrefix(path, repoPath+"/")
}

// funcKey names a function: "relapse/sets.Zip", "relapse/sets.Bits.Get", "relapse/sets.*Bits.Set".
func funcKey(f *ssa.Function) string {
	if f.Parent() != nil || f.Synthetic != "" && f.Name() != "init" {
		return ""
	}
	obj := f.Object()
	if obj == nil {
		if f.Name() == "init" && f.Pkg != nil {
			return shortPkg(f.Pkg.Pkg.Path()) + ".init"
		}
		return ""
	}
	if obj.Pkg() == nil {
		return ""
	}
	return objKey(obj.(*types.Func))
}

func objKey(fn *types.Func) string {
	pkg := ""
	if fn.Pkg() != nil {
		pkg = shortPkg(fn.Pkg().Path())
	}
	sig := fn.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				pkg = shortPkg(n.Obj().Pkg().Path())
			}
			return pkg + "." + star + n.Obj().Name() + "." + fn.Name()
		}
		return pkg + ".?." + fn.Name()
	}
	return pkg + "." + fn.Name()
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
