package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C14"] = checkClosedHandles
	checks["C15"] = checkPositional
	checks["C16"] = checkIterStop
	checks["C17"] = checkPooled
}

// condLoad peels negations off a branch condition.
func condPeel(cond *Val, truth bool) (*Val, bool) {
	for cond != nil && cond.k == KNot {
		cond, truth = cond.a[0], !truth
	}
	return cond, truth
}

// fieldOfBase: a is the address of a field of base itself (embedded structs
// included), not of something base points to.
func fieldOfBase(a, base *Val) *types.Var {
	for a != nil && a.k == KField {
		if a.a[0] == base {
			return a.fld
		}
		a = a.a[0]
	}
	return nil
}

// ---- C14 ----

// closedFlags: handle types whose Close marks a bool field of the handle.
func closedFlags(p *Prog) map[*types.Named]*types.Var {
	out := map[*types.Named]*types.Var{}
	for _, n := range p.structs() {
		fn := p.Method(n, "Close")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		e := newEng(p)
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			if b, ok := v.constBool(); ok && b && addr.k == KField && addr.a[0].k == KParam && addr.a[0].n == 0 && isBool(addr.fld.Type()) {
				out[n] = addr.fld
			}
		}
		e.Run(fn, nil)
	}
	return out
}

func checkClosedHandles(c *Ck) {
	c.Rule("refused", "a handle's method reports success, or touches what the handle wraps, only on paths that proved the handle is not closed", 30)
	c.Rule("marked", "Close returns only after the handle is marked closed, and releases what the handle wraps only if it was open", 5)
	c.Rule("kept", "nothing clears the closed mark of a handle", 5)
	flags := closedFlags(c.P)
	for _, n := range c.P.structs() {
		fl := flags[n]
		if fl == nil {
			continue
		}
		tn := typeRel(n)
		isFlag := func(v *Val) bool {
			return v != nil && v.k == KLoad && v.a[0].k == KField && v.a[0].fld == fl && v.a[0].a[0].k == KParam && v.a[0].a[0].n == 0
		}
		own := func(v *Val) bool { // what the handle wraps
			f, ok := recvField(v)
			return ok && !isMutexType(f.Type()) && hasMethods(f.Type(), "Close")
		}
		for _, m := range c.P.methodSet(n) {
			if !m.Obj.Exported() {
				continue
			}
			sig := m.Obj.Type().(*types.Signature)
			ei := errResult(sig)
			if m.Name == "Close" || ei < 0 {
				continue
			}
			what := tn + "." + m.Name
			if m.Promoted || m.Fn == nil {
				c.Did("refused", what)
				c.Bad("refused", what, m.Obj.Pos(), "%s is promoted from an embedded value: it does not look at the closed mark", what)
				continue
			}
			c.RunEntry(func() *Eng {
				e := newEng(c.P)
				e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
					cond, truth = condPeel(cond, truth)
					if isFlag(cond) && !truth {
						st.T["open"] = "1"
					}
				}
				e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
					if ci.Recv != nil && own(ci.Recv) && st.T["open"] == "" {
						c.BadAt("refused", what, e, ci.fr, ci.Instr, "%s is called before the handle is known to be open", ci.Full())
					}
					return nil, false
				}
				e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
					if st.T["open"] == "" && root(addr).k == KParam && root(addr).n == 0 {
						c.BadAt("refused", what, e, fr, in, "%s is changed before the handle is known to be open", addr)
					}
				}
				e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
					c.Did("refused", what)
					if e.nilness(st, res[ei]) != FNonNil && st.T["open"] == "" {
						c.BadAt("refused", what, e, nil, in, "%s may report success without having looked at the closed mark", what)
					}
				}
				return e
			}, m.Fn, nil)
		}
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				if isFlag(cond) {
					if truth {
						st.T["closed"] = "1"
					} else {
						st.T["open"] = "1"
					}
				}
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				if ci.Recv != nil && own(ci.Recv) && ci.Name() == "Close" && st.T["open"] == "" {
					c.BadAt("marked", tn, e, ci.fr, ci.Instr, "a second Close releases %s again", ci.Recv)
				}
				return nil, false
			}
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				if addr.k == KField && addr.fld == fl {
					if b, ok := v.constBool(); ok && b {
						st.T["closed"] = "1"
					}
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				c.Did("marked", tn)
				if st.T["closed"] == "" {
					c.BadAt("marked", tn, e, nil, in, "Close returns without marking the handle closed")
				}
			}
			return e
		}, c.P.Method(n, "Close"), nil)
		c.Did("kept", tn)
		for _, fn := range c.P.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field) != fl {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); fresh {
						continue
					}
					k, ok := s.Val.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.ExactString() != "true" {
						c.Bad("kept", tn, s.Pos(), "%s in %s may clear the closed mark", fl.Name(), fnName(fn))
					}
				}
			}
		}
	}
}

// ---- C15 ----

var cursorMoves = map[string]bool{"Read": true, "Seek": true, "Write": true, "WriteString": true, "ReadFrom": true, "WriteTo": true, "ReadByte": true, "UnreadByte": true, "WriteByte": true, "ReadRune": true, "Discard": true, "Next": true}
var readerFuncs = map[string]bool{"io.ReadFull": true, "io.ReadAtLeast": true, "io.Copy": true, "io.CopyN": true, "io.CopyBuffer": true, "io.ReadAll": true, "io.WriteString": true}

func checkPositional(c *Ck) {
	c.Rule("positional", "ReadAt and WriteAt neither move nor set the state Read, Write and Seek keep their position in", 12)
	c.Rule("advance", "Read and Write move a position they keep by exactly the number of bytes they report", 3)
	for _, n := range c.P.structs() {
		tn := typeRel(n)
		cursor := map[*types.Var]bool{}
		seq := 0
		for _, name := range []string{"Read", "Write", "Seek", "WriteString"} {
			fn := c.P.Method(n, name)
			if fn == nil || fn.Blocks == nil {
				continue
			}
			seq++
			e := newEng(c.P)
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				r := root(addr)
				if r.k == KParam && r.n == 0 {
					if f := fieldOfBase(addr, r); f != nil {
						cursor[f] = true
					}
				}
			}
			e.Run(fn, nil)
		}
		if seq == 0 {
			continue
		}
		for _, name := range []string{"ReadAt", "WriteAt"} {
			fn := c.P.Method(n, name)
			if fn == nil || fn.Blocks == nil {
				continue
			}
			what := tn + "." + name
			c.Did("positional", what)
			onRecv := func(v *Val) bool {
				v = v.strip()
				if v == nil || v.k == KCall || v.k == KRes {
					return false
				}
				return v.contains(func(x *Val) bool { return x.k == KParam && x.n == 0 }) && !v.contains(func(x *Val) bool { return x.k == KCall || x.k == KRes })
			}
			c.RunEntry(func() *Eng {
				e := newEng(c.P)
				e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
					if ci.Fn != nil && ci.Fn.Blocks != nil && inRepoFn(ci.Fn) {
						return nil, false // looked into
					}
					if ci.Recv != nil && cursorMoves[ci.Name()] && onRecv(ci.Recv) {
						c.BadAt("positional", what, e, ci.fr, ci.Instr, "%s on %s moves a position shared with the sequential methods", ci.Full(), ci.Recv)
					}
					if readerFuncs[ci.Full()] {
						for _, a := range ci.Args {
							if onRecv(a) && hasMethods(a.strip().typ, "Read") {
								c.BadAt("positional", what, e, ci.fr, ci.Instr, "%s consumes %s", ci.Full(), a)
							}
						}
					}
					return nil, false
				}
				e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
					r := root(addr)
					if r.k == KParam && r.n == 0 {
						if f := fieldOfBase(addr, r); f != nil && cursor[f] {
							c.BadAt("positional", what, e, fr, in, "%s sets %s, which the sequential methods keep their position in", name, f.Name())
						}
					}
				}
				return e
			}, fn, nil)
		}
		// advance: integer cursors
		posField := map[*types.Named]map[string]bool{n: {}}
		for _, name := range []string{"Read", "Write"} {
			if fn := c.P.Method(n, name); fn != nil && fn.Blocks != nil {
				e := newEng(c.P)
				e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
					if r := root(addr); r.k == KParam && r.n == 0 && addr.k == KField && addr.a[0] == r {
						if b, ok := addr.fld.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
							posField[n][name] = true
						}
					}
				}
				e.Run(fn, nil)
			}
		}
		for _, name := range []string{"Read", "Write"} {
			fn := c.P.Method(n, name)
			if fn == nil || fn.Blocks == nil || fn.Signature.Results().Len() != 2 {
				continue
			}
			what := tn + "." + name
			c.RunEntry(func() *Eng {
				e := newEng(c.P)
				addrs := map[string]*Val{}
				e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
					r := root(addr)
					if r.k == KParam && r.n == 0 && fieldOfBase(addr, r) != nil && addr.k == KField && addr.a[0] == r {
						if b, ok := addr.fld.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
							for x := range st.S {
								if st.S[x] == "now"+addr.path() {
									delete(st.S, x)
								}
							}
							st.S[v] = "now" + addr.path()
							addrs[addr.path()] = addr
						}
					}
				}
				e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
					if len(st.S) == 0 && posField[n] != nil && posField[n][name] && mayBePositive(e, st, res[0]) {
						c.BadAt("advance", what, e, nil, in, "%s bytes are reported although the position stays", res[0])
					}
					for now, k := range st.S {
						c.Did("advance", what)
						addr := addrs[strings.TrimPrefix(k, "now")]
						if !advancedBy(now, addr, res[0]) {
							c.BadAt("advance", what, e, nil, in, "%s becomes %s although %s bytes are reported", addr, now, res[0])
						}
					}
				}
				return e
			}, fn, nil)
		}
	}
}

func unconv(v *Val) *Val {
	for v != nil && v.k == KConv {
		v = v.a[0]
	}
	return v
}

// advancedBy: now is the old value at addr plus n, or an end position reported
// by the same call that reported n.
func advancedBy(now, addr, n *Val) bool {
	now, n = unconv(now), unconv(n)
	if now.k == KBin && now.s == "+" {
		for i := 0; i < 2; i++ {
			x, y := unconv(now.a[i]), unconv(now.a[1-i])
			same := y == n
			if a, ok := y.constInt(); ok {
				b, ok2 := n.constInt()
				same = same || ok2 && a == b
			}
			if x.k == KLoad && x.a[0] == addr && same {
				return true
			}
			// a partial sum
			if y == n && x.k == KBin && advancedBy(x, addr, x) {
				return true
			}
		}
	}
	if now.k == KLoad && now.a[0] == addr {
		if k, ok := n.constInt(); ok && k == 0 {
			return true
		}
	}
	// not derived from the old position at all: a fresh end (append)
	return !now.contains(func(x *Val) bool { return x.k == KLoad && x.a[0] == addr })
}

// mayBePositive: nothing on the path shows that n is at most zero.
func mayBePositive(e *Eng, st *State, n *Val) bool {
	if k, ok := n.constInt(); ok {
		return k > 0
	}
	x := unconv(n)
	if x.k == KZero {
		return false
	}
	for f, t := range st.facts {
		if f.k == KBin && f.s == "<" && t == FFalse && unconv(f.a[1]) == x {
			if k, ok := f.a[0].constInt(); ok && k <= 0 {
				return false
			}
		}
		if f.k == KBin && f.s == "==" && t == FTrue && (unconv(f.a[1]) == x || unconv(f.a[0]) == x) {
			for _, y := range f.a {
				if k, ok := y.constInt(); ok && k == 0 {
					return false
				}
			}
		}
	}
	return true
}

// ---- C16 ----

func checkIterStop(c *Ck) {
	c.Rule("stop", "an iterator never calls yield again unless the previous call returned true", 5)
	for _, fn := range c.P.Funcs {
		if fn.Blocks == nil || !inRepoFn(fn) || isRangeFuncBody(fn) {
			continue
		}
		yi := -1
		for i, p := range fn.Params {
			if s, ok := p.Type().Underlying().(*types.Signature); ok && s.Results().Len() == 1 && isBool(s.Results().At(0).Type()) && fn.Signature.Results().Len() == 0 && len(fn.Params) == 1 {
				yi = i
			}
		}
		if yi < 0 || fn.Parent() == nil && fn.Object() != nil && !fn.Object().Exported() && fn.Signature.Recv() == nil {
			continue
		}
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			isYield := func(ci *CallInfo) bool {
				n, ok := isParam(ci.FnVal)
				return ci.FnVal != nil && ok && n == yi
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				if isYield(ci) {
					c.Did("stop", what)
					if st.T["pending"] != "" {
						c.BadAt("stop", what, e, ci.fr, ci.Instr, "yield is called again although its previous result may have been false")
					}
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
				if isYield(ci) {
					st.T["pending"] = "1"
					for v := range st.S {
						delete(st.S, v)
					}
					if res != nil {
						st.S[res] = "yield"
					}
				}
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				if st.S[cond] == "yield" && truth {
					delete(st.T, "pending")
					delete(st.S, cond)
				}
			}
			return e
		}, fn, nil)
	}
}

func isRangeFuncBody(fn *ssa.Function) bool { return strings.Contains(fn.Synthetic, "range-over-func") }

// ---- C17 ----

// checkPooled: what a sync.Pool handed out is not used once it was put back.
func checkPooled(c *Ck) {
	c.Rule("returned", "nothing taken from a sync.Pool is used, returned or put back again after it went back", 3)
	c.Rule("private", "nothing taken from a sync.Pool is returned to callers of exported API or kept in a shared object", 3)
	isPool := func(ci *CallInfo, name string) bool {
		return ci.PkgPath() == "sync" && ci.RecvName() == "Pool" && ci.Name() == name
	}
	seed := func(fn *ssa.Function, in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := cc.Common().StaticCallee()
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" && (f.Name() == "Get" || f.Name() == "Put")
	}
	rel := c.P.reachMap(seed)
	for _, fn := range c.P.Funcs {
		if !rel[fn] || fn.Blocks == nil || !inRepoFn(fn) {
			continue
		}
		direct := false
		what := fnName(fn)
		internal := fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/internal/")
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.Relevant = rel
			pooled := func(st *State, v *Val, want string) *Val {
				var hit *Val
				v.walk(func(x *Val) bool {
					if st.S[x] == want {
						hit = x
					}
					return hit == nil
				})
				return hit
			}
			use := func(e *Eng, fr *Frame, st *State, v *Val, in ssa.Instruction, how string) {
				if v == nil {
					return
				}
				if h := pooled(st, v, "put"); h != nil {
					c.BadAt("returned", what, e, fr, in, "%s is %s after it went back to its pool", h, how)
				}
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				if isPool(ci, "Put") {
					direct = true
					for _, a := range ci.Args {
						x := a.strip()
						use(e, ci.fr, st, x, ci.Instr, "put back")
						st.S[x] = "put"
					}
					return nil, false
				}
				for _, a := range ci.Args {
					use(e, ci.fr, st, a, ci.Instr, "used")
				}
				use(e, ci.fr, st, ci.Recv, ci.Instr, "used")
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
				if isPool(ci, "Get") {
					direct = true
					c.Did("returned", what)
					c.Did("private", what)
					if res != nil {
						st.S[res.strip()] = "got"
						st.S[res] = "got"
					}
				}
			}
			e.OnLoad = func(e *Eng, fr *Frame, st *State, addr *Val, in ssa.Instruction) { use(e, fr, st, addr, in, "read") }
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				use(e, fr, st, addr, in, "written")
				if h := pooled(st, v, "got"); h != nil && addr.k == KField && root(addr).k != KAlloc && root(addr) != h {
					c.BadAt("private", what, e, fr, in, "%s is kept in %s", h, addr)
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				for i, r := range res {
					if isErrorType(fn.Signature.Results().At(i).Type()) || r.isNumeric() {
						continue
					}
					if !nilable(fn.Signature.Results().At(i).Type()) {
						continue
					}
					if h := pooled(st, r, "put"); h != nil {
						c.BadAt("returned", what, e, nil, in, "%s is returned after it went back to its pool", h)
					}
					if h := pooled(st, r, "got"); h != nil && !internal && fn.Object() != nil && fn.Object().Exported() {
						c.BadAt("private", what, e, nil, in, "%s, taken from a pool, is handed to the caller", h)
					}
				}
			}
			return e
		}, fn, nil)
		_ = direct
	}
	_ = fmt.Sprint
}
