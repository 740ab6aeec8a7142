package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// immutable reports whether nothing writes field f once the value holding it
// was built: every store, to the field or to a struct around it, goes into a
// fresh object, and the field's address is used for nothing else.
func (p *Prog) immutable(f *types.Var) bool {
	p.immOnce.Do(p.findMutable)
	return f != nil && !p.mutable[f] && p.fieldSeen[f]
}

// freshBase: the address leads into an object its function made, or was handed
// by the function that made it.
func freshBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc, *ssa.MakeSlice:
			return true
		case *ssa.Extract:
			_, ok := x.Tuple.(*ssa.Call)
			return ok
		case *ssa.Call:
			return x.Call.StaticCallee() != nil
		default:
			return false
		}
	}
}

func (p *Prog) findMutable() {
	p.mutable = map[*types.Var]bool{}
	p.fieldSeen = map[*types.Var]bool{}
	var all func(t types.Type, do func(*types.Var))
	all = func(t types.Type, do func(*types.Var)) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				do(u.Field(i).Origin())
				all(u.Field(i).Type(), do)
			}
		case *types.Array:
			all(u.Elem(), do)
		}
	}
	mark := func(f *types.Var) { p.mutable[f] = true }
	whole := map[types.Type]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					f := fieldOf(x.X.Type(), x.Field)
					if f == nil {
						continue
					}
					p.fieldSeen[f] = true
					for _, r := range *x.Referrers() {
						switch y := r.(type) {
						case *ssa.UnOp:
							if y.Op == token.MUL {
								continue
							}
						case *ssa.FieldAddr, *ssa.DebugRef:
							continue
						case *ssa.Store:
							if y.Addr == x && freshBase(x.X) {
								continue
							}
						}
						mark(f)
						all(f.Type(), mark)
					}
				case *ssa.Store:
					t := deref(x.Addr.Type())
					if _, ok := t.Underlying().(*types.Struct); ok && !freshBase(x.Addr) && !whole[t] {
						whole[t] = true
						all(t, mark)
					}
				}
			}
		}
	}
}
