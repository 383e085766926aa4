package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const antlrPath = "github.com/antlr/antlr4/runtime/Go/antlr"

// Program is the type-checked program and its SSA form.
type Program struct {
	Dir    string
	Fset   *token.FileSet
	Root   *packages.Package // package rfc5322
	Parser *packages.Package // package parser
	Antlr  *packages.Package
	All    map[string]*packages.Package
	SSA    *ssa.Program
	RootS  *ssa.Package
	ParS   *ssa.Package
	AntS   *ssa.Package
	// Own are the packages of the repository (those whose source is in Dir).
	Own map[*types.Package]bool
}

// goEnv is the environment the analysed repository is built with.
func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=mod")
	set("GOWORK", "off")
	set("CGO_ENABLED", "0")
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	return env
}

// Load loads every package of the repository in dir, with the SSA form of all dependencies.
func Load(dir string) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Fset:  fset,
		Env:   goEnv(),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	all := map[string]*packages.Package{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		all[p.PkgPath] = p
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	pr := &Program{Dir: dir, Fset: fset, All: all, Own: map[*types.Package]bool{}}
	for _, p := range pkgs {
		pr.Own[p.Types] = true
		switch p.Name {
		case "rfc5322":
			pr.Root = p
		case "parser":
			pr.Parser = p
		}
	}
	pr.Antlr = all[antlrPath]
	if pr.Root == nil || pr.Parser == nil || pr.Antlr == nil {
		return nil, fmt.Errorf("packages rfc5322, parser and antlr are not all present")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	pr.SSA = prog
	pr.RootS = prog.Package(pr.Root.Types)
	pr.ParS = prog.Package(pr.Parser.Types)
	pr.AntS = prog.Package(pr.Antlr.Types)
	return pr, nil
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	if rel, err := filepath.Rel(p.Dir, ps.Filename); err == nil && !strings.HasPrefix(rel, "..") {
		return fmt.Sprintf("%s:%d", rel, ps.Line)
	}
	return fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line)
}

// ownFunctions returns every source function of the repository, sorted by name, including anonymous ones.
func (p *Program) ownFunctions() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.SSA) {
		if fn.Pkg != nil && p.Own[fn.Pkg.Pkg] {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// constInt evaluates a constant expression of a package to an int.
func constInt(info *types.Info, e ast.Expr) (int64, bool) {
	tv, ok := info.Types[e]
	if !ok || tv.Value == nil {
		return 0, false
	}
	v := constant.ToInt(tv.Value)
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

func constString(info *types.Info, e ast.Expr) (string, bool) {
	tv, ok := info.Types[e]
	if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(tv.Value), true
}
