package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkLeaks }

// needsClose: values of the type must be closed by whoever holds them.
func needsClose(t types.Type) bool {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "net/http.Response", "database/sql.Tx":
			return true
		}
	}
	return hasMethods(t, "Close")
}

// view: a filesystem or the like, from which handles are opened, rather than a handle.
func view(t types.Type) bool { return hasMethods(t, "Open") }

// ends: calling the method ends a value's life.
func ends(name string) bool { return name == "Close" || name == "Commit" || name == "Rollback" }

// opens: the call hands its caller something that must be closed, or an error.
func opens(sig *types.Signature, name string) bool {
	if sig.Results().Len() >= 2 && view(sig.Results().At(0).Type()) && !strings.HasPrefix(name, "Open") {
		return false
	}
	if sig.Results().Len() < 2 {
		return false
	}
	_, anything := types.Unalias(sig.Results().At(0).Type()).(*types.TypeParam) // whatever the caller says a handle is
	return (anything || needsClose(sig.Results().At(0).Type())) && isErrorType(sig.Results().At(sig.Results().Len()-1).Type())
}

// wrapsArg: a constructor around a closable it is given takes that over rather than opening something.
func wrapsArg(sig *types.Signature, name string) bool {
	if !strings.HasPrefix(name, "New") && !strings.HasPrefix(name, "Wrap") && !strings.HasPrefix(name, "Widen") && !strings.HasPrefix(name, "Expand") {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if needsClose(t) {
			return true
		}
	}
	return false
}

// held visits what whoever has v can reach and close through it.
func held(v *Val, f func(*Val) bool) {
	seen := map[*Val]bool{}
	var rec func(*Val)
	rec = func(x *Val) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		down := x.a
		switch x.k {
		case KIface, KAssert, KClosure, KTuple, KSlice, KFieldVal, KField, KElem, KLoad, KIndex, KMapElem:
		case KPhi:
			down = append(append([]*Val(nil), x.a...), x.in...)
		case KRes: // something made around it
			if x.typ == nil || isErrorType(x.typ) || !needsClose(x.typ) && !hasMethods(x.typ, "Read") && !hasMethods(x.typ, "ReadAt") {
				return
			}
			down = x.a[0].in
		default:
			return
		}
		for _, y := range down {
			rec(y)
		}
	}
	rec(v)
}

// ownedFields: the closable fields of a type that one of its own methods closes.
func ownedFields(p *Prog) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for _, fn := range p.Funcs {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Signature.Recv() == nil {
			continue
		}
		own := namedOf(top.Signature.Recv().Type())
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				cc, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := cc.Common()
				var recv ssa.Value
				if cm.IsInvoke() && ends(cm.Method.Name()) {
					recv = cm.Value
				} else if f := cm.StaticCallee(); f != nil && ends(f.Name()) && f.Signature.Recv() != nil && len(cm.Args) > 0 {
					recv = cm.Args[0]
				}
				for recv != nil {
					switch x := recv.(type) {
					case *ssa.UnOp:
						recv = x.X
						continue
					case *ssa.TypeAssert:
						recv = x.X
						continue
					case *ssa.ChangeInterface:
						recv = x.X
						continue
					case *ssa.Extract:
						recv = x.Tuple
						continue
					case *ssa.FieldAddr:
						if f := fieldOf(x.X.Type(), x.Field); own != nil && namedOf(x.X.Type()) != nil && namedOf(x.X.Type()).Origin() == own.Origin() && needsClose(f.Type()) {
							out[f] = true
						}
					}
					break
				}
			}
		}
	}
	return out
}

func checkLeaks(c *Ck) {
	owned := ownedFields(c.P)
	c.Rule("closed", "what a function opened is, on each of its returns, closed, handed to the caller, or kept by an object that outlives the call", 100)
	c.Rule("replaced", "before a field whose value its type closes is given another value, the old one was nil or closed, or it is closed or handed on by the return", 5)
	p := c.P
	cmName := func(cm *ssa.CallCommon) string {
		if cm.IsInvoke() {
			return cm.Method.Name()
		}
		if f := cm.StaticCallee(); f != nil {
			return f.Name()
		}
		return ""
	}
	acq := p.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		return ok && opens(cc.Common().Signature(), cmName(cc.Common()))
	})
	rel := p.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cm := cc.Common()
		return opens(cm.Signature(), cmName(cm)) || cm.IsInvoke() && ends(cm.Method.Name()) || cm.StaticCallee() != nil && ends(cm.StaticCallee().Name())
	})
	for _, fn := range p.Funcs {
		if acq[fn] || fn.Parent() != nil && acq[fn.Parent()] {
			rel[fn] = true
		}
	}
	overwrites := map[*ssa.Function]bool{} // stores over an owned field
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && owned[fieldOf(fa.X.Type(), fa.Field)] {
						if _, fresh := fa.X.(*ssa.Alloc); !fresh {
							overwrites[fn], rel[fn] = true, true
						}
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || !acq[fn] && !overwrites[fn] || fn.Pkg == nil || !inRepo(fn.Pkg.Pkg) || skipPkg(pkgRel(fn.Pkg.Pkg)) || isRangeFuncBody(fn) {
			continue
		}
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			e := newEng(p)
			e.Relevant = rel
			sib := map[*Val]*Val{}                 // the error a value came with
			e.NoInline = func(ci *CallInfo) bool { // opening helpers are judged on their own
				if ci.Fn == nil || ci.Fn.Parent() != nil || !opens(ci.Fn.Signature, ci.Fn.Name()) {
					return false
				}
				for i := 0; i < ci.Fn.Signature.Params().Len(); i++ {
					if f, ok := ci.Fn.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok && opens(f, "open") {
						return false // it hands on what it is given the means to open
					}
				}
				return true
			}
			tag := func(ci *CallInfo) string {
				return fmt.Sprintf("open %s %d", ci.Name()+ordinal(ci.Instr), e.u.site(ci.fr.ctx, ci.Instr).id)
			}
			hand := func(st *State, v *Val) {
				seen := map[*Val]bool{}
				var rec func(v *Val)
				rec = func(v *Val) {
					if v == nil {
						return
					}
					held(v, func(x *Val) bool {
						if seen[x] {
							return false
						}
						seen[x] = true
						if strings.HasPrefix(st.S[x], "open ") {
							delete(st.S, x)
						}
						if x.k == KAlloc {
							suf := fmt.Sprintf("<%d", x.id)
							for w := range st.S {
								if strings.Contains(st.T[fmt.Sprintf("in:%d", w.id)]+"<", suf+"<") {
									delete(st.S, w)
								}
							}
						}
						return true
					})
				}
				rec(v)
			}
			keep := func(st *State, v, in *Val) { // v is kept inside the local object in
				a := root(in)
				held(v, func(x *Val) bool {
					if strings.HasPrefix(st.S[x], "open ") {
						k := fmt.Sprintf("in:%d", x.id)
						if s := fmt.Sprintf("<%d", a.id); !strings.Contains(st.T[k]+"<", s+"<") {
							st.T[k] += s
						}
					}
					if x.k == KAlloc && x != a {
						suf := fmt.Sprintf("<%d", x.id)
						for k, t := range st.T {
							if strings.HasPrefix(k, "in:") && strings.Contains(t+"<", suf+"<") {
								if s := fmt.Sprintf("<%d", a.id); !strings.Contains(t+"<", s+"<") {
									st.T[k] += s
								}
							}
						}
					}
					return true
				})
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				t := tag(ci)
			again:
				for v, k := range st.S {
					for _, d := range st.defers { // closed by a pending deferred call
						if d.Name() == "Close" && d.Recv != nil && d.Recv.contains(func(x *Val) bool { return x == v }) {
							continue again
						}
					}
					if k == t && e.nilness(st, v) != FNil && e.nilness(st, sib[v]) != FNonNil {
						c.BadAt("closed", what+": "+ci.Name()+ordinal(ci.Instr), e, ci.fr, ci.Instr, "%s opens anew with %s while what it opened on an earlier round is not closed", what, ci.Name())
					}
				}
				if ends(ci.Name()) && ci.Recv != nil {
					r := ci.Recv.strip()
					if r.k == KLoad {
						st.T[fmt.Sprintf("ended:%d", r.a[0].id)] = "y"
					} else {
						st.S[r] = "ended"
					}
					held(r, func(x *Val) bool {
						if strings.HasPrefix(st.S[x], "open ") {
							delete(st.S, x)
						}
						return true
					})
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				if inlined {
					return
				}
				if ci.Builtin == "append" || ci.Fn != nil && inRepoFn(ci.Fn) && ci.Rec {
					for _, a := range ci.Args {
						hand(st, a)
					}
				}
				for _, a := range ci.Args { // a function that may close it
					held(a, func(x *Val) bool {
						if x.k == KClosure {
							hand(st, x)
						}
						return true
					})
				}
				if ci.Builtin != "" || res == nil || !opens(ci.Common.Signature(), ci.Name()) || wrapsArg(ci.Common.Signature(), ci.Name()) {
					return
				}
				r := resOf(res, 0)
				if r == nil {
					return
				}
				c.Did("closed", what+": "+ci.Name()+ordinal(ci.Instr))
				sib[r.strip()] = errOf(ci, res)
				st.S[r.strip()] = tag(ci)
			}
			e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) { // a failed open opened nothing
				for v, k := range st.S {
					if strings.HasPrefix(k, "open ") && (e.nilness(st, v) == FNil || e.nilness(st, sib[v]) == FNonNil) {
						delete(st.S, v)
					}
				}
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond.contains(func(x *Val) bool { // an owned field seen empty
					if x.k == KLoad && x.a[0].k == KField && owned[x.a[0].fld] && e.nilness(st, x) == FNil {
						st.T[fmt.Sprintf("ended:%d", x.a[0].id)] = "y"
					}
					return false
				})
			}
			e.OnGo = func(e *Eng, st *State, ci *CallInfo) {
				hand(st, ci.Recv)
				hand(st, ci.Closure)
				for _, a := range ci.Args {
					hand(st, a)
				}
			}
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				if addr.k == KField && owned[addr.fld] && root(addr).k != KAlloc {
					old := e.load(st, addr, addr.fld.Type()).strip()
					gone := fmt.Sprintf("ended:%d", addr.id)
					c.Did("replaced", what+": "+addr.fld.Name())
					if st.T[gone] == "" && st.S[old] != "ended" && e.nilness(st, old) != FNil && !v.contains(func(x *Val) bool { return x == old }) {
						st.S[old] = "open the-old-" + addr.fld.Name() + " 0"
					}
					if delete(st.T, gone); e.nilness(st, v) == FNil {
						st.T[gone] = "y"
					}
				}
				if root(addr).k == KAlloc {
					keep(st, v, addr)
				} else {
					hand(st, v)
				}
			}
			e.OnMisc = func(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
				if s, ok := in.(*ssa.Send); ok {
					hand(st, e.eval(fr, st, s.X))
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				for _, r := range res {
					hand(st, r)
				}
				for v, k := range st.S {
					if !strings.HasPrefix(k, "open ") || e.nilness(st, v) == FNil || e.nilness(st, sib[v]) == FNonNil {
						continue
					}
					k = strings.Fields(k)[1]
					rule, msg := "closed", k+" opened"
					if old, ok := strings.CutPrefix(k, "the-old-"); ok {
						rule, msg = "replaced", "the field "+old+" held before"
					}
					c.BadAt(rule, what+": "+k, e, nil, in, "%s may return without closing or handing over what %s", what, msg)
				}
			}
			return e
		}, fn, nil)
	}
}
