package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C04"] = checkRootRemoval
	checks["C06"] = checkOpenPairs
	checks["C07"] = checkIoFsNames
	checks["C08"] = checkWalk
	checks["C09"] = checkLinkBounds
	checks["C10"] = checkLinkEscape
}

// ---- C04 ----

// rootViews: every type offering Remove and RemoveAll beneath a root of its own.
func rootViews(p *Prog) []confType {
	out := confTypes(p)
	if n := p.Type("vroot/synthfs", "Root"); n != nil {
		out = append(out, confType{n: n, sink: func(ci *CallInfo) bool {
			return ci.Builtin == "delete" || ci.RecvName() == "List" && ci.Name() == "Remove"
		}})
	}
	if n := p.Type("vroot-adapter/overlayfs", "Fs"); n != nil {
		out = append(out, confType{n: n, sink: func(ci *CallInfo) bool {
			return ci.Recv != nil && ci.RecvT != nil && isFsIface(ci.RecvT) && removalNames[ci.Name()]
		}})
	}
	return out
}

var removalNames = map[string]bool{"Remove": true, "RemoveAll": true, "RemoveDirectory": true, "Unlink": true, "Rename": true, "PosixRename": true}

// nameNotRoot: the path proves that the caller's name is not the view's root.
func nameNotRoot(st *State, n int) bool {
	return factFalse(st, func(f *Val) bool {
		x, ok := eqConst(f, ".")
		return ok && isPure(x, "path/filepath.Clean", "path.Clean", "path/filepath.ToSlash") && x.contains(func(y *Val) bool { return y.k == KParam && y.n == n })
	})
}

func checkRootRemoval(c *Ck) {
	c.Rule("root-kept", "a removal is carried out only on paths that prove the name is not the root of the view", 8)
	for _, ct := range rootViews(c.P) {
		tn := typeRel(ct.n)
		conf := false
		for _, x := range confTypes(c.P) {
			if x.n == ct.n {
				conf = true
			}
		}
		for _, m := range c.P.methodSet(ct.n) {
			if m.Fn == nil || m.Promoted || !(m.Name == "Remove" || m.Name == "RemoveAll" || m.Name == "Rename" && !conf) {
				continue
			}
			what := tn + "." + m.Name
			c.RunEntry(func() *Eng {
				e := newEng(c.P)
				see := func(e *Eng, st *State, ci *CallInfo) {
					if !ct.sink(ci) {
						return
					}
					if conf && !(removalNames[ci.Name()] || strings.HasPrefix(ci.Name(), "Remove")) {
						return
					}
					c.Did("root-kept", what)
					if conf {
						for i, a := range ci.Args {
							if ps := ci.Common.Signature().Params(); i < ps.Len() && isStringType(ps.At(i).Type()) && !notRoot(e, st, a) && !nameNotRoot(st, 1) {
								c.BadAt("root-kept", what, e, ci.fr, ci.Instr, "%s may be handed the root of the view itself: %s", ci.Full(), a)
							}
						}
						return
					}
					sig := m.Obj.Type().(*types.Signature)
					for i := 0; i < sig.Params().Len(); i++ {
						if isStringType(sig.Params().At(i).Type()) && !nameNotRoot(st, i+1) {
							c.BadAt("root-kept", what, e, ci.fr, ci.Instr, "%s is reached although argument %d may name the root of the view", ci.Full(), i)
						}
					}
				}
				e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
					see(e, st, ci)
					if conf {
						return nil, false
					}
					// what is proved of the caller's names stays proved
					for i := 0; i < m.Obj.Type().(*types.Signature).Params().Len(); i++ {
						if isStringType(m.Obj.Type().(*types.Signature).Params().At(i).Type()) && !nameNotRoot(st, i+1) {
							return nil, false
						}
					}
					c.Did("root-kept", what)
					return nil, true
				}
				e.OnMap = func(e *Eng, fr *Frame, st *State, mp, k *Val, write bool, in ssa.Instruction) {
					if cc, ok := in.(ssa.CallInstruction); ok && write {
						if b, ok := cc.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
							see(e, st, &CallInfo{Instr: in, Common: cc.Common(), Builtin: "delete", fr: fr})
						}
					}
				}
				return e
			}, m.Fn, nil)
		}
	}
}

// ---- C06 ----

// openers: functions that return something to close together with an error.
func openers(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if !inRepoFn(fn) || fn.Blocks == nil {
			continue
		}
		sig := fn.Signature
		rs := sig.Results()
		if rs.Len() < 2 || !isErrorType(rs.At(rs.Len()-1).Type()) {
			continue
		}
		for i := 0; i < rs.Len()-1; i++ {
			if closable(rs.At(i).Type()) {
				out = append(out, fn)
				break
			}
		}
	}
	return out
}

func closable(t types.Type) bool {
	if !hasMethods(t, "Close") {
		return false
	}
	switch types.Unalias(t).Underlying().(type) {
	case *types.Interface, *types.Pointer:
		return true
	}
	_, tp := types.Unalias(t).(*types.TypeParam)
	return tp
}

// exportedFuncs lists the functions callers outside the package can name:
// exported functions and exported methods, in every analysed package.
func (p *Prog) exportedFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if fn.Pkg == nil || !inRepo(fn.Pkg.Pkg) {
			continue
		}
		out = append(out, fn)
	}
	return out
}

func checkOpenPairs(c *Ck) {
	c.Rule("handle-xor-error", "a call that fails hands out nothing to close, and a call that succeeds hands out a usable value", 30)
	c.Rule("typed-nil", "a nil pointer is never handed out wrapped in an interface", 10)
	for _, fn := range openers(c.P) {
		fn := fn
		what := fnName(fn)
		sig := fn.Signature
		ei := sig.Results().Len() - 1
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.Relevant = map[*ssa.Function]bool{}
			e.NoInline = func(ci *CallInfo) bool { return false }
			e.BoxParams = true
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				er := res[ei]
				en := e.nilness(st, er)
				for i := 0; i < ei; i++ {
					if !closable(sig.Results().At(i).Type()) {
						continue
					}
					c.Did("handle-xor-error", what)
					r := res[i]
					raw := r
					for raw.k == KIface {
						raw = raw.a[0]
					}
					if raw != r && isNilOrZero(raw) && en == FNonNil && (fn.Object() == nil || !fn.Object().Exported()) {
						continue // a typed nil nobody outside the package sees
					}
					// both halves of one call's answer
					if raw.k == KRes && er.k == KRes && raw.a[0] == er.a[0] && (r.k != KIface || fn.Object() == nil || !fn.Object().Exported()) {
						continue
					}
					rn := e.nilness(st, r)
					if exported := fn.Object() != nil && fn.Object().Exported(); exported && r.k == KIface {
						c.Did("typed-nil", what)
						_, ptr := r.typ.Underlying().(*types.Pointer)
						if _, tp := types.Unalias(r.typ).(*types.TypeParam); tp {
							ptr = true // any file type, pointers among them
						}
						if ptr {
							if n := e.nilness(st, raw); n == FNil || n == 0 && raw.k == KRes && en != FNil {
								c.BadAt("typed-nil", what, e, nil, in, "hands out an interface that may hold a nil %v", r.typ)
								continue
							}
						}
					}
					switch {
					case en == FNonNil && rn != FNil && !isNilOrZero(r):
						if raw.k == KRes && failedTogether(e, st, raw) {
							continue
						}
						c.BadAt("handle-xor-error", what, e, nil, in, "returns %s together with a non-nil error", r)
					case en == FNil && (rn == FNil || isNilOrZero(r)):
						c.BadAt("handle-xor-error", what, e, nil, in, "returns nothing and a nil error")
					case en == 0 && (rn == FNonNil || rn == 0 && raw.k == KAlloc):
						c.BadAt("handle-xor-error", what, e, nil, in, "returns %s although the error %s may be non-nil", r, er)
					}
				}
			}
			return e
		}, fn, nil)
	}
}

// failedTogether: raw is the value half of a call whose error half is non-nil
// here, so it carries nothing by that call's own contract.
func failedTogether(e *Eng, st *State, raw *Val) bool {
	return st.fact(func(v *Val, f int8) bool {
		return f == FNonNil && v.k == KRes && v.a[0] == raw.a[0] && v != raw && v.typ != nil && isErrorType(v.typ)
	})
}

// ---- C07 ----

func ioFsTypes(p *Prog) []*types.Named {
	var out []*types.Named
	for _, n := range []string{"ToIoFs", "ToIoFsRoot"} {
		out = append(out, p.concreteResults(p.Func("vroot", n), 0)...)
	}
	if n := p.Type("tarfs", "Fs"); n != nil {
		out = append(out, n)
	}
	return out
}

func checkIoFsNames(c *Ck) {
	c.Rule("validated", "before an io/fs name reaches the wrapped filesystem or the entry table, the path proves fs.ValidPath of it", 14)
	for _, n := range ioFsTypes(c.P) {
		tn := typeRel(n)
		for _, m := range c.P.methodSet(n) {
			if m.Fn == nil || m.Promoted || !m.Obj.Exported() || !takesString(m.Obj) {
				continue
			}
			what := tn + "." + m.Name
			c.RunEntry(func() *Eng {
				e := newEng(c.P)
				checkArg := func(e *Eng, fr *Frame, st *State, in ssa.Instruction, v *Val, sink string) {
					v.walk(func(x *Val) bool {
						if x.k == KCall || x.k == KRes {
							return false
						}
						if x.k == KParam && x.n > 0 && x.n < 1000 && isStringType(x.typ) {
							c.Did("validated", what)
							if !st.fact(func(f *Val, t int8) bool { return t == FTrue && isPure(f, "io/fs.ValidPath") && f.a[0] == x }) {
								c.BadAt("validated", what, e, fr, in, "the name reaches %s without having passed fs.ValidPath", sink)
							}
						}
						return true
					})
				}
				e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
					if ci.Builtin != "" {
						return nil, false
					}
					if ci.Fn != nil && inRepoFn(ci.Fn) {
						return nil, false
					}
					if _, pure := pureCall(ci); pure {
						return nil, false
					}
					for _, a := range ci.Args {
						if a.typ == nil || isStringType(a.typ) || a.k == KPure || a.k == KBin {
							checkArg(e, ci.fr, st, ci.Instr, a, ci.Full())
						}
					}
					return nil, false
				}
				e.OnMap = func(e *Eng, fr *Frame, st *State, mp, k *Val, write bool, in ssa.Instruction) {
					checkArg(e, fr, st, in, k, "a table lookup")
				}
				return e
			}, m.Fn, nil)
		}
	}
}

// ---- C08 ----

// loopOf finds the natural loops of fn: header -> body.
func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := out[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				out[h] = body
			}
			var stack []*ssa.BasicBlock
			if !body[b] {
				body[b] = true
				stack = append(stack, b)
			}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				for _, p := range x.Preds {
					if !body[p] {
						body[p] = true
						stack = append(stack, p)
					}
				}
			}
		}
	}
	return out
}

func checkWalk(c *Ck) {
	c.Rule("callback-errors", "WalkDir returns nil or what the callback returned; no other error ends the walk", 1)
	c.Rule("siblings", "the walk over a directory's entries ends early only because the callback said so", 1)
	c.Rule("loop-guard", "a directory is listed only after it was looked up among, and recorded with, the directories being walked", 1)
	c.Rule("unrecord", "a directory's record is withdrawn when its walk ends, so that it is visited under every name it has", 1)
	c.Rule("link-budget", "a link is followed only within the remaining budget, which is reduced before anything beneath the link is visited and restored afterwards", 2)
	fn := c.P.Func("vroot", "WalkDir")
	if fn == nil {
		c.Bad("callback-errors", "vroot.WalkDir", token.NoPos, "WalkDir not found")
		return
	}
	rec := c.P.recursiveBelow(fn)
	fnParam := len(fn.Params) - 1
	isCb := func(ci *CallInfo) bool {
		return ci.Fn == nil && ci.FnVal != nil && ci.FnVal.strip().k == KParam && ci.FnVal.strip().n == fnParam
	}
	loops := map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		cbRes := map[*Val]bool{}
		var fromCb func(v *Val, d int) bool
		fromCb = func(v *Val, d int) bool {
			if cbRes[v] || v.isNilConst() {
				return true
			}
			if v.k != KPhi || len(v.in) == 0 || d > 20 {
				return false
			}
			for _, x := range v.in {
				if x != v && !fromCb(x, d+1) {
					return false
				}
			}
			return true
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined || ci.Builtin != "" {
				return
			}
			if isCb(ci) || ci.Rec {
				if x := errOf(ci, res); x != nil {
					cbRes[x] = true
					st.S[x] = "cb"
					st.T["last"] = "1"
					st.T["lastcb"] = map[bool]string{true: "rec", false: "cb"}[ci.Rec]
				}
				return
			}
			switch ci.Name() {
			case "ResolveSymlink":
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if isListing(ci) && st.T["cbseen"] != "" || isListing(ci) {
				c.Did("loop-guard", c.P.rel(instrPos(ci.Instr)))
				if st.T["rec"] == "" && st.T["nopath"] == "" {
					c.BadAt("loop-guard", "listing", e, ci.fr, ci.Instr, "lists a directory that was not recorded as being walked: a loop is not detected")
				}
				// the entry just recorded was proved absent before
			}
			if ci.Name() == "ResolveSymlink" && len(ci.Args) > 0 {
				c.Did("link-budget", "bound")
				b := ci.Args[len(ci.Args)-1].strip()
				if !(b.k == KLoad && b.a[0].k == KField) && !b.contains(func(x *Val) bool { return x.k == KLoad && x.a[0].k == KField }) {
					if _, isC := b.constInt(); isC && ci.fr.parent == nil || !isC {
						c.BadAt("link-budget", "bound", e, ci.fr, ci.Instr, "the number of links to follow is %s, not the walk's remaining budget", b)
					}
				}
			}
			return nil, false
		}
		e.OnMap = func(e *Eng, fr *Frame, st *State, mp, k *Val, write bool, in ssa.Instruction) {
			if _, ok := in.(*ssa.MapUpdate); ok {
				absent := factFalse(st, func(f *Val) bool { return isPure(f, "has") && f.a[1] == k })
				if !absent {
					c.BadAt("loop-guard", "lookup", e, fr, in, "records a directory without having found it absent: a loop is followed")
				}
				st.T["rec"] = "1"
				st.T["reckey"] = keyName(k)
			}
			if cc, ok := in.(ssa.CallInstruction); ok && write {
				if b, ok := cc.Common().Value.(*ssa.Builtin); ok && b.Name() == "delete" {
					st.T["unrec"] += keyName(k)
				}
			}
		}
		e.OnExit = func(e *Eng, fr *Frame, st *State, res []*Val, in ssa.Instruction) {
			if !rec[fr.fn] {
				if st.T["rec"] == "" && fr.call != nil && updatesMap(fr.fn) {
					for _, a := range fr.call.Args {
						if s, ok := a.constStr(); ok && s == "" {
							st.T["nopath"] = "1"
						}
					}
				}
				return
			}
			if n := len(res); n > 0 && e.nilness(st, res[n-1]) == FNil {
				for x, m := range st.S {
					if m != "cb" || e.nilness(st, x) != FNonNil {
						continue
					}
					skip := st.fact(func(f *Val, t int8) bool {
						return t == FTrue && f.k == KBin && f.s == "==" && (f.a[0] == x && isGlobalLoad(f.a[1]) || f.a[1] == x && isGlobalLoad(f.a[0]))
					})
					if !skip {
						c.BadAt("callback-errors", fnName(fr.fn), e, fr, in, "reports success although the callback returned an error other than SkipDir and SkipAll")
					}
				}
			}
			if st.T["rec"] != "" {
				c.Did("unrecord", fnName(fr.fn))
				if st.T["unrec"] == "" {
					c.BadAt("unrecord", fnName(fr.fn), e, fr, in, "a directory stays recorded after its walk ended: its other names are skipped")
				}
			}
			if st.T["inloop"] != "" {
				c.Did("siblings", fnName(fr.fn))
				if st.T["stopped"] == "" {
					c.BadAt("siblings", fnName(fr.fn), e, fr, in, "leaves the loop over the entries although the callback did not ask to stop")
				}
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			if x, ok := eqConst(cond, ""); ok && x != nil && st.T["rec"] == "" && isStringType(x.typ) {
				if truth {
					st.T["nopath"] = "1"
				} else {
					delete(st.T, "nopath")
				}
			}
			if !rec[fr.fn] {
				return
			}
			ls := loops[fr.fn]
			if ls == nil {
				ls = loopsOf(fr.fn)
				loops[fr.fn] = ls
			}
			b := in.Block()
			if body, ok := ls[b]; ok {
				s := b.Succs[1]
				if truth {
					s = b.Succs[0]
				}
				if body[s] {
					st.T["inloop"] = "1"
				} else {
					delete(st.T, "inloop")
				}
				delete(st.T, "stopped")
				return
			}
			// the callback's verdict is being acted on
			if cond.contains(func(x *Val) bool { return st.S[x] == "cb" }) {
				for x := range st.S {
					if e.nilness(st, x) == FNonNil {
						st.T["stopped"] = "1"
					}
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			r := res[len(res)-1]
			c.Did("callback-errors", c.P.rel(instrPos(in)))
			if e.nilness(st, r) == FNil {
				return
			}
			if !fromCb(r, 0) {
				c.BadAt("callback-errors", "vroot.WalkDir", e, nil, in, "returns %s, which the callback did not return", r)
			}
		}
		return e
	}, fn, nil)
	checkWalkBudget(c, rec)
}

func updatesMap(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.MapUpdate); ok {
				return true
			}
		}
	}
	return false
}

func isGlobalLoad(v *Val) bool { return v.k == KLoad && v.a[0].k == KGlobal || v.k == KGlobal }

func keyName(k *Val) string { return k.String() + ";" }

func isListing(ci *CallInfo) bool {
	if ci.Name() == "ReadDir" && ci.Obj != nil && (ci.Recv != nil && ci.RecvT != nil && isFsIface(ci.RecvT) || ci.Recv == nil && ci.Fn != nil && inRepoFn(ci.Fn)) {
		return true
	}
	return false
}

// recursiveBelow: the functions reachable from fn that can call themselves.
func (p *Prog) recursiveBelow(fn *ssa.Function) map[*ssa.Function]bool {
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	var succ func(f *ssa.Function) map[*ssa.Function]bool
	succ = func(f *ssa.Function) map[*ssa.Function]bool {
		if m := reach[f]; m != nil {
			return m
		}
		m := map[*ssa.Function]bool{}
		reach[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					if g := cc.Common().StaticCallee(); g != nil {
						if o := g.Origin(); o != nil {
							g = o
						}
						if inRepoFn(g) && g.Blocks != nil {
							m[g] = true
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					m[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
		return m
	}
	all := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if all[f] {
			return
		}
		all[f] = true
		for g := range succ(f) {
			visit(g)
		}
	}
	visit(fn)
	out := map[*ssa.Function]bool{}
	for f := range all {
		seen := map[*ssa.Function]bool{}
		var st []*ssa.Function
		for g := range succ(f) {
			st = append(st, g)
		}
		for len(st) > 0 {
			g := st[len(st)-1]
			st = st[:len(st)-1]
			if g == f {
				out[f] = true
				break
			}
			if seen[g] {
				continue
			}
			seen[g] = true
			for h := range succ(g) {
				st = append(st, h)
			}
		}
	}
	return out
}

// checkWalkBudget: on every path of the recursive walk, between learning that
// an entry is a link that is followed (Stat of it) and descending, the budget
// field is stored with a smaller value; and every exit after that restores it.
func checkWalkBudget(c *Ck, rec map[*ssa.Function]bool) {
	for fn := range rec {
		fn := fn
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				if ci.Name() == "Stat" && ci.Recv != nil && ci.RecvT != nil && isFsIface(ci.RecvT) {
					st.T["stat"] = "1"
				}
				if isListing(ci) && st.T["stat"] != "" {
					c.Did("link-budget", "spent before listing")
					if st.T["spent"] == "" {
						c.BadAt("link-budget", "spent before listing", e, ci.fr, ci.Instr, "lists what a followed link leads to without having reduced the link budget")
					}
				}
				return nil, false
			}
			// What the walk still owes the budget, as a sum of terms: a store of
			// (old value) + terms adds them, and a walk that ends owes nothing.
			owed := map[string]map[*Val]int{}
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				if addr.k != KField || addr.a[0].k == KAlloc || !isIntType(addr.fld.Type()) {
					return
				}
				f := linForm(v)
				var old *Val
				for t := range f {
					if t != nil && t.k == KLoad && t.a[0] == addr && f[t] == 1 {
						old = t
					}
				}
				if old == nil {
					return
				}
				delete(f, old)
				id := addr.path()
				for k, x := range st.S {
					// an earlier store is still visible: v counts from the value
					// before it
					if x == "budget "+id && k != old {
						for t, n := range owed[st.T["owed "+id]] {
							if f[t] += n; f[t] == 0 {
								delete(f, t)
							}
						}
					}
				}
				if len(f) == 0 {
					delete(st.T, "owed "+id)
				} else {
					k := formKey(f)
					owed[k] = f
					st.T["owed "+id] = k
				}
				st.T["spent"] = "1"
				st.T["budget"] = id
				for k, x := range st.S {
					if x == "budget "+id {
						delete(st.S, k)
					}
				}
				st.S[old] = "budget " + id
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if st.T["spent"] != "" {
					c.Did("link-budget", "restored")
					if st.T["owed "+st.T["budget"]] != "" {
						c.BadAt("link-budget", "restored", e, nil, in, "the link budget is not restored when the walk of a link ends: later links are refused")
					}
				}
			}
			return e
		}, fn, nil)
	}
}

// linForm writes v as a sum of terms with integer factors; nil is the constant.
func linForm(v *Val) map[*Val]int {
	out := map[*Val]int{}
	var rec func(x *Val, f int)
	rec = func(x *Val, f int) {
		x = unconv(x.strip())
		if k, ok := x.constInt(); ok {
			if out[nil] += f * int(k); out[nil] == 0 {
				delete(out, nil)
			}
			return
		}
		if x.k == KBin && (x.s == "+" || x.s == "-") {
			rec(x.a[0], f)
			if x.s == "-" {
				f = -f
			}
			rec(x.a[1], f)
			return
		}
		if out[x] += f; out[x] == 0 {
			delete(out, x)
		}
	}
	rec(v, 1)
	return out
}

func formKey(f map[*Val]int) string {
	var ks []string
	for t, n := range f {
		s := "1"
		if t != nil {
			s = t.String()
		}
		ks = append(ks, fmt.Sprintf("%d*%s", n, s))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// ---- C09 ----

// linkReads: places where a symbolic (or hard) link's target is obtained in
// order to be followed.
func (p *Prog) linkReads(fn *ssa.Function) []ssa.Instruction {
	tf := p.linkTargetFields()
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				cc := x.Common()
				name := ""
				if cc.IsInvoke() {
					name = cc.Method.Name()
				} else if g := cc.StaticCallee(); g != nil {
					name = g.Name()
					if o := g.Origin(); o != nil {
						g = o
					}
					if inRepoFn(g) && p.small(g) && p.loadsField(g, tf) && !strings.EqualFold(name, "readlink") {
						out = append(out, in)
						continue
					}
				}
				if strings.EqualFold(name, "readlink") || name == "ResolveSymlink" {
					out = append(out, in)
				}
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if fa, ok := x.X.(*ssa.FieldAddr); ok {
						if f := fieldOf(fa.X.Type(), fa.Field); f != nil && tf[f] {
							out = append(out, in)
						}
					}
				}
			}
		}
	}
	return out
}

func (p *Prog) loadsField(fn *ssa.Function, tf map[*types.Var]bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if f := fieldOf(fa.X.Type(), fa.Field); f != nil && tf[f] {
					return true
				}
			}
		}
	}
	return false
}

// linkTargetFields: string fields that a method called ReadLink returns.
func (p *Prog) linkTargetFields() map[*types.Var]bool {
	if p.ltf != nil {
		return p.ltf
	}
	out := map[*types.Var]bool{}
	for _, fn := range p.Funcs {
		if !strings.EqualFold(fn.Name(), "readlink") || fn.Signature.Recv() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && isStringType(u.Type()) {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						if f := fieldOf(fa.X.Type(), fa.Field); f != nil && strings.Contains(strings.ToLower(f.Name()), "target") || f != nil && strings.Contains(strings.ToLower(f.Name()), "link") {
							out[f] = true
						}
					}
				}
			}
		}
	}
	p.ltf = out
	return out
}

func checkLinkBounds(c *Ck) {
	c.Rule("bounded-loop", "every cycle through a link-following site counts the link and leaves when the count reaches a limit", 4)
	c.Rule("bounded-recursion", "no recursion passes through a link-following site without a budget that the site spends", 1)
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil && fn.Parent() == nil && fn.Origin() == nil || !inRepoFn(fn) {
			continue
		}
		sites := c.P.linkReads(fn)
		if len(sites) == 0 {
			continue
		}
		c.Funcs[fnName(fn)] = true
		ls := loopsOf(fn)
		for _, s := range sites {
			what := fnName(fn) + ": " + siteName(s)
			for h, body := range ls {
				if !body[s.Block()] {
					continue
				}
				// innermost or not: only cycles actually through s matter
				if !feedsBack(s, h, body) {
					continue
				}
				c.Did("bounded-loop", what)
				if !boundedCycle(fn, s, h, body) {
					c.Bad("bounded-loop", what, instrPos(s), "links are followed in a loop that does not count them against a limit")
				}
			}
		}
		if c.P.recursiveBelow(fn)[fn] && fn.Object() != nil {
			for _, s := range sites {
				cc, ok := s.(ssa.CallInstruction)
				what := fnName(fn) + ": " + siteName(s)
				c.Did("bounded-recursion", what)
				bounded := false
				if ok {
					for _, a := range cc.Common().Args {
						if isIntType(a.Type()) {
							bounded = true
						}
					}
				}
				if !bounded && recursiveFollow(c.P, fn, s) {
					c.Bad("bounded-recursion", what, instrPos(s), "a link is followed in a recursion that carries no budget")
				}
			}
		}
	}
	// recursion between functions of which one follows links
	for _, fn := range c.P.Funcs {
		if fn.Object() == nil || !inRepoFn(fn) || !c.P.recursiveBelow(fn)[fn] {
			continue
		}
		if len(c.P.linkReads(fn)) > 0 {
			continue
		}
		for _, g := range c.P.cycleMembers(fn) {
			if g == fn {
				continue
			}
			for _, s := range c.P.linkReads(g) {
				if cc, ok := s.(ssa.CallInstruction); ok && hasIntArg(cc) {
					continue
				}
				if !recursiveFollow(c.P, g, s) {
					continue
				}
				c.Bad("bounded-recursion", fnName(g)+": "+siteName(s), instrPos(s), "a link is followed in a recursion through %s that carries no budget", fnName(fn))
			}
		}
	}
}

func hasIntArg(cc ssa.CallInstruction) bool {
	for _, a := range cc.Common().Args {
		if isIntType(a.Type()) {
			return true
		}
	}
	return false
}

func siteName(in ssa.Instruction) string {
	switch x := in.(type) {
	case ssa.CallInstruction:
		if x.Common().IsInvoke() {
			return x.Common().Method.Name()
		}
		if g := x.Common().StaticCallee(); g != nil {
			return g.Name()
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldOf(fa.X.Type(), fa.Field).Name()
		}
	}
	return "link"
}

// cycleMembers: functions on a call cycle with fn.
func (p *Prog) cycleMembers(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, g := range p.Funcs {
		if g != fn && inRepoFn(g) && p.reaches(fn, g) && p.reaches(g, fn) {
			out = append(out, g)
		}
	}
	return out
}

func (p *Prog) reaches(a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	st := []*ssa.Function{a}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					if g := cc.Common().StaticCallee(); g != nil {
						if o := g.Origin(); o != nil {
							g = o
						}
						if g == b {
							return true
						}
						if inRepoFn(g) {
							st = append(st, g)
						}
					}
				}
			}
		}
	}
	return false
}

// feedsBack: the value read at s influences a loop-carried value, i.e. the loop
// goes on with what the link said.
func feedsBack(s ssa.Instruction, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	v, ok := s.(ssa.Value)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	st := []ssa.Value{v}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.Referrers() == nil {
			continue
		}
		for _, r := range *x.Referrers() {
			if ph, ok := r.(*ssa.Phi); ok && ph.Block() == h && !isErrorType(ph.Type()) {
				return true
			}
			if stt, ok := r.(*ssa.Store); ok && stt.Val == x && body[stt.Block()] {
				// a variable kept in memory
				st = append(st, stt.Addr)
				if !isErrorType(x.Type()) {
					if al, ok := stt.Addr.(*ssa.Alloc); ok && !body[al.Block()] {
						return true
					}
				}
			}
			if val, ok := r.(ssa.Value); ok && body[r.Block()] {
				st = append(st, val)
			}
		}
	}
	return false
}

// boundedCycle: some integer carried round the loop is increased, and compared
// against a loop-invariant limit by a branch that leaves the loop, on every
// cycle through s.
func boundedCycle(fn *ssa.Function, s ssa.Instruction, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntType(ph.Type()) {
			continue
		}
		// values that are the counter in this iteration
		same := map[ssa.Value]bool{ph: true}
		inc := map[*ssa.BasicBlock]bool{}
		for changed := true; changed; {
			changed = false
			for b := range body {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || same[v] {
						continue
					}
					switch x := in.(type) {
					case *ssa.BinOp:
						if x.Op == token.ADD && (same[x.X] && positive(x.Y, s) || same[x.Y] && positive(x.X, s)) {
							same[v] = true
							inc[b] = true
							changed = true
						}
					case *ssa.Phi:
						if x.Block() == h {
							continue
						}
						all := true
						for _, e := range x.Edges {
							if !same[e] {
								all = false
							}
						}
						if all {
							same[v] = true
							changed = true
						}
					}
				}
			}
		}
		// the phi must only be fed by its own family on back edges
		okEdges := true
		for i, e := range ph.Edges {
			if body[h.Preds[i]] && !same[e] {
				okEdges = false
			}
		}
		if !okEdges || len(inc) == 0 {
			continue
		}
		test := map[*ssa.BasicBlock]bool{}
		for b := range body {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if body[b.Succs[0]] && body[b.Succs[1]] && !exits(b.Succs[0]) && !exits(b.Succs[1]) {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch cmp.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			default:
				continue
			}
			if same[cmp.X] && invariant(cmp.Y, body) || same[cmp.Y] && invariant(cmp.X, body) {
				test[b] = true
			}
		}
		if !onCycle(s.Block(), body, inc) && !onCycle(s.Block(), body, test) {
			return true
		}
	}
	return false
}

func exits(b *ssa.BasicBlock) bool { return len(b.Succs) == 0 }

// positive: a positive constant, or a count the followed link's own call reported.
func positive(v ssa.Value, s ssa.Instruction) bool {
	if c, ok := v.(*ssa.Const); ok {
		n, ok := constInt64(c)
		return ok && n > 0
	}
	if ex, ok := v.(*ssa.Extract); ok {
		if sv, ok := s.(ssa.Value); ok && ex.Tuple == sv {
			return true
		}
	}
	return false
}

func invariant(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.Global, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, ok := u.X.(*ssa.FieldAddr); ok {
				return true // a configured limit
			}
			_, ok := u.X.(*ssa.Global)
			return ok
		}
		return !body[x.Block()]
	}
	return false
}

// onCycle: b can reach itself within body without entering a removed block.
func onCycle(b *ssa.BasicBlock, body, removed map[*ssa.BasicBlock]bool) bool {
	if removed[b] {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] || !body[x] || removed[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

// recursiveFollow: the recursion fn takes part in goes on with the link's
// target (as opposed to listing entries, each of which is a distinct name).
func recursiveFollow(p *Prog, fn *ssa.Function, s ssa.Instruction) bool {
	v, ok := s.(ssa.Value)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	st := []ssa.Value{v}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[x] || x.Referrers() == nil {
			continue
		}
		seen[x] = true
		for _, r := range *x.Referrers() {
			if cc, ok := r.(ssa.CallInstruction); ok {
				if g := cc.Common().StaticCallee(); g != nil {
					if o := g.Origin(); o != nil {
						g = o
					}
					if g == fn || p.reaches(g, fn) {
						return true
					}
				}
			}
			if val, ok := r.(ssa.Value); ok {
				st = append(st, val)
			}
		}
	}
	return false
}

func constInt64(c *ssa.Const) (int64, bool) {
	if c.Value == nil {
		return 0, false
	}
	return c.Int64(), true
}

// ---- C10 ----

func checkLinkEscape(c *Ck) {
	c.Rule("upward", "a step to the parent directory during resolution is taken only where the path proves the current directory is not the boundary", 2)
	c.Rule("absolute", "a link's target becomes part of the path being resolved only where it is proved not absolute", 2)
	c.Rule("local-result", "a resolved path is used or returned as a success only when proved local to the root", 3)
	for _, fn := range c.P.resolvers() {
		fn := fn
		what := fnName(fn)
		var dirFields []*types.Var
		if r := fn.Signature.Params(); r != nil {
			for i := 0; i < r.Len(); i++ {
				if n := namedOf(r.At(i).Type()); n != nil {
					if s, ok := n.Underlying().(*types.Struct); ok && n.Obj().Name() == "Fs" {
						for j := 0; j < s.NumFields(); j++ {
							if strings.Contains(strings.ToLower(s.Field(j).Name()), "root") && namedOf(s.Field(j).Type()) != nil {
								dirFields = append(dirFields, s.Field(j))
							}
						}
					}
				}
			}
		}
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.OnLoad = func(e *Eng, fr *Frame, st *State, addr *Val, in ssa.Instruction) {
				if addr.k != KField || addr.fld == nil || addr.fld.Name() != "parent" {
					return
				}
				u, ok := in.(*ssa.UnOp)
				if !ok || !flowsToPhi(u) {
					return
				}
				cur := addr.a[0]
				c.Did("upward", what)
				if st.T["unrooted"] != "" {
					return
				}
				if len(dirFields) > 0 {
					for _, d := range dirFields {
						if st.T["ne "+d.Name()] != cur.String() {
							c.BadAt("upward", what, e, fr, in, "steps above a directory that may be the boundary %s", d.Name())
						}
					}
				} else if st.T["ne"] != cur.String() {
					c.BadAt("upward", what, e, fr, in, "steps above a directory that may be the boundary")
				}
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				if truth {
					return
				}
				if (cond.k == KLoad || cond.k == KParam) && isBoolLoad(cond) && len(dirFields) > 0 {
					st.T["unrooted"] = "1"
				}
				if cond.k != KBin || cond.s != "==" {
					return
				}
				for i := 0; i < 2; i++ {
					x, lim := cond.a[i], cond.a[1-i]
					if lim.k == KLoad && lim.a[0].k == KField && lim.a[0].fld != nil {
						st.T["ne "+lim.a[0].fld.Name()] = x.String()
					}
					if (lim.k == KParam || lim.k == KLoad && lim.a[0].k == KField) && lim.typ != nil && namedOf(lim.typ) != nil && namedOf(lim.typ) == namedOf(x.typ) {
						st.T["ne"] = x.String()
					}
				}
			}
			return e
		}, fn, nil)
		// the absolute-target test dominates the use of the target
		for _, s := range c.P.linkReads(fn) {
			v, ok := s.(ssa.Value)
			if !ok {
				continue
			}
			if tup, ok := v.Type().(*types.Tuple); ok {
				_ = tup
				for _, r := range *v.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && isStringType(ex.Type()) {
						v = ex
						break
					}
				}
			}
			if !isStringType(v.Type()) {
				continue
			}
			// the target, and its cleaned forms
			forms := []ssa.Value{v}
			for i := 0; i < len(forms); i++ {
				for _, r := range *forms[i].Referrers() {
					if cc, ok := r.(*ssa.Call); ok {
						if g := cc.Call.StaticCallee(); g != nil && (g.Name() == "Clean" || g.Name() == "ToSlash" || g.Name() == "FromSlash") {
							forms = append(forms, cc)
						}
					}
				}
			}
			for _, f := range forms {
				for _, u := range pathUses(f) {
					w := what + ": " + siteName(s)
					c.Did("absolute", w)
					ok := fromHardlink(s)
					for _, g := range forms {
						ok = ok || guardedRel(g, u)
					}
					if !ok {
						c.Bad("absolute", w, instrPos(u), "the link's target joins the path without having been tested for being absolute")
					}
				}
			}
		}
	}
	checkLocalResult(c)
}

// fromHardlink: a hard link names an archive member, which is relative to the
// archive's own root by format.
func fromHardlink(s ssa.Instruction) bool {
	if cc, ok := s.(ssa.CallInstruction); ok {
		if g := cc.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil {
			return strings.Contains(strings.ToLower(typeName(g.Signature.Recv().Type())), "hardlink")
		}
	}
	return false
}

func isBoolLoad(f *Val) bool {
	if f.typ == nil {
		return false
	}
	b, ok := f.typ.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// flowsToPhi: the loaded parent becomes the current directory of a loop.
func flowsToPhi(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.Phi); ok {
			return true
		}
		if _, ok := r.(*ssa.Return); ok {
			return true
		}
		if mi, ok := r.(*ssa.MakeInterface); ok && flowsToPhi(mi) {
			return true
		}
		if _, ok := r.(*ssa.Store); ok {
			return true
		}
	}
	return false
}

// pathUses: where a link's target string is concatenated into, or carried on
// as, the rest of the path.
func pathUses(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.BinOp:
			if x.Op == token.ADD {
				out = append(out, x)
			}
		case *ssa.Phi:
			out = append(out, x)
		case *ssa.Store:
			// an argument of a variadic Join
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || x.Val != v {
				continue
			}
			for _, r2 := range *ia.X.Referrers() {
				sl, ok := r2.(*ssa.Slice)
				if !ok {
					continue
				}
				for _, r3 := range *sl.Referrers() {
					if cc, ok := r3.(*ssa.Call); ok {
						if g := cc.Call.StaticCallee(); g != nil && g.Name() == "Join" {
							out = append(out, cc)
						}
					}
				}
			}
		}
	}
	return out
}

// guardedRel: a branch on HasPrefix(v, "/") (or IsAbs(v)) being false dominates u.
func guardedRel(v ssa.Value, u ssa.Instruction) bool {
	for _, r := range *v.Referrers() {
		cc, ok := r.(*ssa.Call)
		if !ok {
			continue
		}
		g := cc.Call.StaticCallee()
		if g == nil || !(g.Name() == "HasPrefix" || g.Name() == "IsAbs" || g.Name() == "IsLocal") {
			continue
		}
		if g.Name() == "HasPrefix" {
			k, ok := cc.Call.Args[1].(*ssa.Const)
			if !ok || k.Value == nil || k.Value.ExactString() != `"/"` {
				continue
			}
		}
		for _, rr := range *cc.Referrers() {
			iff, ok := rr.(*ssa.If)
			if !ok {
				continue
			}
			i := 1
			if g.Name() == "IsLocal" {
				i = 0
			}
			s := iff.Block().Succs[i]
			ub := u.Block()
			if ph, ok := u.(*ssa.Phi); ok {
				all := true
				for k, e := range ph.Edges {
					if e == v && !(s.Dominates(ph.Block().Preds[k]) || ph.Block().Preds[k] == iff.Block() && s == ph.Block()) {
						all = false
					}
				}
				if all {
					return true
				}
				continue
			}
			if s.Dominates(ub) && len(s.Preds) == 1 {
				return true
			}
		}
	}
	return false
}

// resolvers: functions that walk a directory tree of nodes with parents,
// following links: they load both a parent field and a link target.
func (p *Prog) resolvers() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if !inRepoFn(fn) || fn.Object() == nil || len(p.linkReads(fn)) == 0 {
			continue
		}
		up := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if f := fieldOf(fa.X.Type(), fa.Field); f != nil && f.Name() == "parent" {
						up = true
					}
				}
			}
		}
		if up || fn.Name() == "ResolveSymlink" {
			out = append(out, fn)
		}
	}
	return out
}

// checkLocalResult: path-string resolution (fsutil) hands back, and goes on
// with, only local paths; the overlay maps only local names.
func checkLocalResult(c *Ck) {
	type ent struct {
		fn *ssa.Function
		ri int
	}
	var es []ent
	if f := c.P.Func("fsutil", "ResolveSymlink"); f != nil {
		es = append(es, ent{f, 0})
	}
	for _, x := range es {
		x := x
		ei := errResult(x.fn.Signature)
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				r := res[x.ri]
				c.Did("local-result", fnName(x.fn))
				if s, ok := r.constStr(); ok && s == "" {
					return
				}
				if e.nilness(st, res[ei]) == FNonNil {
					return
				}
				if !isLocalName(e, st, r) {
					c.BadAt("local-result", fnName(x.fn), e, nil, in, "returns %s, not proved local", r)
				}
			}
			return e
		}, x.fn, nil)
	}
	if f := c.P.Func("fsutil", "ResolvePath"); f != nil {
		// what a link resolved to goes on only when local
		for _, s := range c.P.linkReads(f) {
			v, ok := s.(ssa.Value)
			if !ok || siteName(s) != "ResolveSymlink" {
				continue
			}
			for _, r := range *v.Referrers() {
				ex, ok := r.(*ssa.Extract)
				if !ok || ex.Index != 0 {
					continue
				}
				for _, u := range pathUses(ex) {
					c.Did("local-result", fnName(f)+": link")
					if !guardedRel(ex, u) {
						c.Bad("local-result", fnName(f)+": link", instrPos(u), "goes on with what a link resolved to, not proved local")
					}
				}
			}
		}
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.NoInline = func(ci *CallInfo) bool { return ci.Name() == "ResolveSymlink" }
			see := func(e *Eng, fr *Frame, st *State, in ssa.Instruction, v *Val) {
				v.walk(func(x *Val) bool {
					if x.k == KParam && isStringType(x.typ) {
						c.Did("local-result", fnName(f)+": name")
						if !st.fact(func(g *Val, t int8) bool {
							return t == FTrue && isPure(g, "path/filepath.IsLocal") && sameName(g.a[0], x)
						}) {
							c.BadAt("local-result", fnName(f)+": name", e, fr, in, "looks up %s, not proved local", x)
						}
					}
					return true
				})
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				if ci.RecvName() == "Buffer" && (ci.Name() == "WriteString" || ci.Name() == "Write") {
					see(e, ci.fr, st, ci.Instr, ci.Args[0])
				}
				if ci.Recv != nil && ci.Fn == nil && (ci.Name() == "Lstat" || strings.EqualFold(ci.Name(), "readlink")) {
					for _, a := range ci.Args {
						see(e, ci.fr, st, ci.Instr, a)
					}
				}
				return nil, false
			}
			return e
		}, f, nil)
	}
	// the overlay: every name that reaches the merged view went through the
	// local-name gate
	if n := c.P.Type("vroot-adapter/overlayfs", "Fs"); n != nil {
		for _, m := range c.P.methodSet(n) {
			if m.Fn == nil || m.Promoted || !m.Obj.Exported() || !takesString(m.Obj) {
				continue
			}
			what := typeRel(n) + "." + m.Name
			c.RunEntry(func() *Eng {
				e := newEng(c.P)
				sig := m.Obj.Type().(*types.Signature)
				var names []int
				for i := 0; i < sig.Params().Len(); i++ {
					if isStringType(sig.Params().At(i).Type()) && !(m.Name == "Symlink" && i == 0) {
						names = append(names, i+1)
					}
				}
				from := func(v *Val, n int) bool {
					return v.contains(func(y *Val) bool { return y.k == KParam && y.n == n && isStringType(y.typ) })
				}
				local := func(st *State, n int) bool { return st.T["local "+strconv.Itoa(n)] != "" }
				e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
					if !truth || !isPure(cond, "path/filepath.IsLocal") {
						return
					}
					for _, n := range names {
						if from(cond.a[0], n) {
							st.T["local "+strconv.Itoa(n)] = "1"
						}
					}
				}
				e.NoInline = func(ci *CallInfo) bool { return ci.Name() == "ResolvePath" }
				e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
					if ci.Builtin != "" || ci.Name() == "ResolvePath" {
						return nil, false
					}
					done := true
					for _, n := range names {
						if !local(st, n) {
							done = false
						}
					}
					if done {
						c.Did("local-result", what)
						return nil, true
					}
					if ci.Recv == nil || ci.Fn != nil || ci.RecvT == nil || !isFsIface(ci.RecvT) {
						return nil, false
					}
					ps := ci.Common.Signature().Params()
					for i, a := range ci.Args {
						if i >= ps.Len() || !isStringType(ps.At(i).Type()) || ci.Name() == "Symlink" && i == 0 {
							continue
						}
						for _, n := range names {
							if from(a, n) {
								c.Did("local-result", what)
								if !local(st, n) {
									c.BadAt("local-result", what, e, ci.fr, ci.Instr, "the caller's name reaches layer operation %s without having been proved local", ci.Name())
								}
							}
						}
					}
					return nil, false
				}
				return e
			}, m.Fn, nil)
		}
	}
}
