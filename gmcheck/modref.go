package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Transitive write sets: the pointee types (and map types) a function may
// write through memory it did not allocate itself. Used for the effect of
// recursive calls and for the read-only rules.

type modInfo struct {
	types   []types.Type
	unknown []string
}

func (P *Program) modTypes(fn *ssa.Function) []types.Type {
	seen := map[*ssa.Function]bool{}
	var out []types.Type
	add := func(t types.Type) {
		for _, o := range out {
			if types.Identical(o, t) {
				return
			}
		}
		out = append(out, t)
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if !localRoot(in.Addr) {
						add(derefType(in.Addr.Type()))
					}
				case *ssa.MapUpdate:
					add(in.Map.Type())
				case *ssa.MakeClosure:
					visit(in.Fn.(*ssa.Function))
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if g := cc.StaticCallee(); g != nil {
						if P.inRepo(g) {
							visit(g)
						} else if n := fnName(g); !readOnlyExternal(n) {
							for _, a := range cc.Args {
								switch u := a.Type().Underlying().(type) {
								case *types.Slice:
									add(u.Elem())
								}
							}
						}
					} else if cc.IsInvoke() {
						for _, g := range P.implementors(cc) {
							visit(g)
						}
					} else if b, ok := cc.Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "copy":
							if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
								add(s.Elem())
							}
						case "append":
							if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
								add(s.Elem())
							}
						case "delete":
							add(cc.Args[0].Type())
						}
					}
				}
			}
		}
	}
	visit(fn)
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// localRoot: the address lies in an object allocated in this function.
func localRoot(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.MakeSlice:
			return true
		default:
			return false
		}
	}
}

// implementors: repository methods an interface call may reach.
func (P *Program) implementors(cc *ssa.CallCommon) []*ssa.Function {
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for _, p := range P.ssaPkg {
		for _, m := range p.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.IsInterface(T) || !types.Implements(T, it) {
					continue
				}
				if f := P.prog.LookupMethod(T, cc.Method.Pkg(), cc.Method.Name()); f != nil {
					r = append(r, f)
				}
			}
		}
	}
	return r
}
