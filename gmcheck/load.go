package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked repository with its SSA form.
type Program struct {
	repo    string
	modPath string
	fset    *token.FileSet
	pkgs    []*packages.Package // repository packages
	prog    *ssa.Program
	ssaPkg  map[string]*ssa.Package
	funcs   []*ssa.Function // every function with a body in the repository
	seqEqOK map[*ssa.Function]int
	sortOK  map[string]int
	allFns  map[*ssa.Function]bool
}

// Load type-checks /repo's current tree. The two modules that cannot be
// fetched (logging, libxml) are replaced by declaration stubs kept in /verif;
// everything else is the real source.
func Load(repo, stubs string) (*Program, error) {
	tmp, err := os.MkdirTemp("", "gmcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	mod := string(gomod)
	for _, m := range []string{"logging", "libxml"} {
		mod += fmt.Sprintf("\nreplace github.com/amarin/%s => %s\n", m, filepath.Join(stubs, m))
	}
	mf := filepath.Join(tmp, "go.mod")
	if err := os.WriteFile(mf, []byte(mod), 0o644); err != nil {
		return nil, err
	}
	if sum, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		if err := os.WriteFile(filepath.Join(tmp, "go.sum"), sum, 0o644); err != nil {
			return nil, err
		}
	}
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "CGO_ENABLED=0")
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		Fset:       fset,
		BuildFlags: []string{"-modfile=" + mf},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	var errs []string
	for _, p := range pkgs {
		if strings.Contains(p.PkgPath, "/pkg/opencorpora") || strings.Contains(p.PkgPath, "/cmd/") {
			continue // looked at by checks which ask for them
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		if p.IllTyped && len(p.Errors) == 0 {
			errs = append(errs, p.PkgPath+": ill typed")
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{repo: repo, fset: fset, pkgs: pkgs, prog: prog, ssaPkg: map[string]*ssa.Package{},
		seqEqOK: map[*ssa.Function]int{}, sortOK: map[string]int{}}
	for i, p := range pkgs {
		if p.Module != nil && P.modPath == "" {
			P.modPath = p.Module.Path
		}
		if spkgs[i] != nil && !p.IllTyped {
			P.ssaPkg[p.PkgPath] = spkgs[i]
		}
	}
	if P.modPath == "" {
		P.modPath = "github.com/amarin/gomorphy"
	}
	P.allFns = ssautil.AllFunctions(prog)
	for fn := range P.allFns {
		if P.inRepo(fn) && len(fn.Blocks) > 0 && (fn.Synthetic == "" || fn.Origin() != nil) {
			P.funcs = append(P.funcs, fn)
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool {
		if P.funcs[i].Pos() != P.funcs[j].Pos() {
			return P.funcs[i].Pos() < P.funcs[j].Pos()
		}
		return P.funcs[i].String() < P.funcs[j].String()
	})
	P.initGlobals()
	return P, nil
}

func (P *Program) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	pk := fn.Pkg
	if pk == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return P.repoPath(o.Pkg().Path())
		}
		return false
	}
	return P.repoPath(pk.Pkg.Path())
}

func (P *Program) repoPath(p string) bool {
	return p == P.modPath || strings.HasPrefix(p, P.modPath+"/")
}

// rel: "pkg/dag" for a package path of the repository.
func (P *Program) rel(p string) string { return strings.TrimPrefix(p, P.modPath+"/") }

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	x := P.fset.Position(p)
	f, err := filepath.Rel(P.repo, x.Filename)
	if err != nil {
		f = x.Filename
	}
	return fmt.Sprintf("%s:%d", f, x.Line)
}

// pkg returns the SSA package with the given path below the module.
func (P *Program) pkg(rel string) *ssa.Package { return P.ssaPkg[P.modPath+"/"+rel] }

// Fn finds a package-level function.
func (P *Program) Fn(rel, name string) *ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// Type finds a named type.
func (P *Program) Type(rel, name string) *types.Named {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Method finds the declared method of a named type (value or pointer
// receiver), looking through embedding.
func (P *Program) Method(rel, typ, name string) *ssa.Function {
	n := P.Type(rel, typ)
	if n == nil {
		return nil
	}
	return P.methodOf(n, name)
}

func (P *Program) methodOf(n types.Type, name string) *ssa.Function {
	var pkg *types.Package
	if nn, ok := n.(*types.Named); ok {
		pkg = nn.Obj().Pkg()
	}
	o, _, _ := types.LookupFieldOrMethod(n, true, pkg, name)
	f, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	return P.prog.FuncValue(f)
}

func (P *Program) Global(rel, name string) *ssa.Global {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	return p.Var(name)
}

// initGlobals finds package variables that are assigned exactly once, in their
// package initialiser, and never have their address taken: such a variable
// keeps that value; sentinel errors among them are known to be non-nil.
func (P *Program) initGlobals() {
	nonNilGlobals = map[*ssa.Global]bool{}
	globalConst = map[*ssa.Global]*Term{}
	stores := map[*ssa.Global][]*ssa.Store{}
	leaked := map[*ssa.Global]bool{}
	for fn := range P.allFns {
		if !P.inRepo(fn) && !(fn.Pkg != nil && fn.Name() == "init" && P.repoPath(fn.Pkg.Pkg.Path())) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], st)
						if v, ok := st.Val.(*ssa.Global); ok {
							leaked[v] = true
						}
						continue
					}
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				var rands [8]*ssa.Value
				for _, op := range in.Operands(rands[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok {
						leaked[g] = true
					}
				}
			}
		}
	}
	for g, ss := range stores {
		if leaked[g] || len(ss) != 1 || ss[0].Parent().Name() != "init" {
			continue
		}
		switch v := ss[0].Val.(type) {
		case *ssa.Const:
			globalConst[g] = constTerm(v)
		case *ssa.Slice, *ssa.Convert:
			if s, ok := constBytes(v); ok && P.onlyRead(g) {
				globalConst[g] = mk(OConv, derefType(g.Type()), false, 0, "bytes", nil, nil, nil, tStr(s))
			}
		case *ssa.Call:
			if c := v.Call.StaticCallee(); c != nil {
				switch fnName(c) {
				case "errors.New", "fmt.Errorf":
					nonNilGlobals[g] = true
				}
			}
		case *ssa.Function:
			nonNilGlobals[g] = true
			globalConst[g] = mk(OFunc, v.Type(), false, 0, "", v, nil, nil)
		case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeClosure:
			nonNilGlobals[g] = true
		}
	}
	P.globalStructs()
	// variables of other packages such as io.EOF
	for fn := range P.allFns {
		if fn.Pkg == nil || P.repoPath(fn.Pkg.Pkg.Path()) {
			continue
		}
		if fn.Name() != "init" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if c, ok := st.Val.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && (fnName(f) == "errors.New" || fnName(f) == "fmt.Errorf") {
						nonNilGlobals[g] = true
					}
				}
			}
		}
	}
}

// globalStructs finds package variables of struct types whose fields are only
// set by package initialisers: values of such a type are otherwise written in
// newly made objects only, and no field has its address taken.
func (P *Program) globalStructs() {
	globalField = map[globalPart]*Term{}
	written := map[types.Type]bool{}
	n := map[globalPart]int{}
	var named func(t types.Type) types.Type
	named = func(t types.Type) types.Type {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		return t
	}
	for fn := range P.allFns {
		if !P.inRepo(fn) && !(fn.Pkg != nil && fn.Name() == "init" && P.repoPath(fn.Pkg.Pkg.Path())) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if _, fresh := x.Addr.(*ssa.Alloc); !fresh {
						if _, ok := named(x.Addr.Type()).Underlying().(*types.Struct); ok {
							written[named(x.Addr.Type())] = true
						}
					}
				case *ssa.FieldAddr:
					T := named(x.X.Type())
					_, fresh := x.X.(*ssa.Alloc)
					g, _ := x.X.(*ssa.Global)
					if g != nil && fn.Name() != "init" {
						g = nil
					}
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if y.Val == ssa.Value(x) || !fresh && g == nil {
								written[T] = true
								continue
							}
							if g == nil {
								continue
							}
							k := globalPart{g, x.Field}
							n[k]++
							switch v := y.Val.(type) {
							case *ssa.Const:
								globalField[k] = constTerm(v)
							case *ssa.Function:
								globalField[k] = mk(OFunc, v.Type(), false, 0, "", v, nil, nil)
							case *ssa.UnOp:
								if h, ok := v.X.(*ssa.Global); ok && globalConst[h] != nil {
									globalField[k] = globalConst[h]
								}
							}
						default:
							written[T] = true
						}
					}
				}
			}
		}
	}
	for k := range globalField {
		if n[k] != 1 || written[named(k.g.Type())] {
			delete(globalField, k)
		}
	}
}

// constBytes: v is a byte slice with known contents, built in place.
func constBytes(v ssa.Value) (string, bool) {
	t, ok := v.Type().Underlying().(*types.Slice)
	if !ok || !types.Identical(t.Elem().Underlying(), types.Typ[types.Uint8]) {
		return "", false
	}
	switch v := v.(type) {
	case *ssa.Convert:
		if c, ok := v.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value), true
		}
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return "", false
		}
		at, ok := derefType(a.Type()).Underlying().(*types.Array)
		if !ok {
			return "", false
		}
		b := make([]byte, at.Len())
		for _, r := range *a.Referrers() {
			if r == ssa.Instruction(v) {
				continue
			}
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				return "", false
			}
			i, ok := ia.Index.(*ssa.Const)
			if !ok || len(*ia.Referrers()) != 1 {
				return "", false
			}
			st, ok := (*ia.Referrers())[0].(*ssa.Store)
			if !ok {
				return "", false
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok {
				return "", false
			}
			b[i.Int64()] = byte(c.Int64())
		}
		return string(b), true
	}
	return "", false
}

// onlyRead: the slice held by g is only indexed for reading, measured,
// converted or compared, everywhere.
func (P *Program) onlyRead(g *ssa.Global) bool {
	for fn := range P.allFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok || u.X != ssa.Value(g) {
					continue
				}
				for _, r := range *u.Referrers() {
					switch r := r.(type) {
					case *ssa.DebugRef, *ssa.Convert, *ssa.BinOp:
					case *ssa.IndexAddr:
						for _, q := range *r.Referrers() {
							if _, ok := q.(*ssa.UnOp); !ok {
								return false
							}
						}
					case *ssa.Call:
						if bi, ok := r.Call.Value.(*ssa.Builtin); ok {
							if bi.Name() == "len" || (bi.Name() == "append" || bi.Name() == "copy") && r.Call.Args[0] != ssa.Value(u) {
								continue
							}
							return false
						}
						if c := r.Call.StaticCallee(); c != nil && (hasPrefixAny(fnName(c), "bytes.Equal", "bytes.Compare", "(*github.com/amarin/binutils.BinaryWriter).")) {
							continue
						}
						return false
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

func run(dir string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	b, err := c.CombinedOutput()
	return string(b), err
}

// fileOf returns the syntax of the file a position lies in.
func (P *Program) fileOf(p token.Pos) (*packages.Package, *ast.File) {
	for _, pk := range P.pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= p && p < f.FileEnd {
				return pk, f
			}
		}
	}
	return nil, nil
}
