package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine is a typestate dataflow analysis in the style of property
// simulation: at every block it keeps a finite set of abstract states, each a
// property state (T and S, driven by the rule's hooks) paired with the nil-ness
// and truth facts that decide correlated branches. Calls to repository
// functions are analysed in the caller's context; loops run to a fixpoint over
// the finite domain. No condition is ever solved: a branch the facts do not
// decide takes both edges.

const (
	FNil int8 = iota + 1
	FNonNil
	FTrue
	FFalse
)

type State struct {
	env    map[ssa.Value]*Val
	heap   map[*Val]*Val
	facts  map[*Val]int8
	eq     map[*Val]*Val
	ep     map[*Val]int
	defers []*CallInfo
	T      map[string]string
	S      map[*Val]string
}

func newState() *State {
	return &State{env: map[ssa.Value]*Val{}, heap: map[*Val]*Val{}, facts: map[*Val]int8{}, eq: map[*Val]*Val{}, ep: map[*Val]int{}, T: map[string]string{}, S: map[*Val]string{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) clone() *State {
	return &State{env: cp(s.env), heap: cp(s.heap), facts: cp(s.facts), eq: cp(s.eq), ep: cp(s.ep), defers: append([]*CallInfo(nil), s.defers...), T: cp(s.T), S: cp(s.S)}
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	ctx    *Ctx
	parent *Frame
	free   []*Val
	roots  []*Val // caller values alive across the call
	call   *CallInfo
}

// CallInfo is a resolved call.
type CallInfo struct {
	Instr   ssa.Instruction
	Common  *ssa.CallCommon
	Fn      *ssa.Function // statically known callee (generic origin)
	Obj     *types.Func   // declared function or interface method
	Recv    *Val
	RecvT   types.Type
	Args    []*Val
	Builtin string
	Closure *Val // the closure value when the callee is one
	FnVal   *Val // callee value of a dynamic call
	Defer   bool
	Rec     bool // recursive call cut off
	fr      *Frame
}

func (c *CallInfo) PkgPath() string {
	if c.Obj != nil && c.Obj.Pkg() != nil {
		return c.Obj.Pkg().Path()
	}
	if c.Fn != nil && c.Fn.Pkg != nil {
		return c.Fn.Pkg.Pkg.Path()
	}
	return ""
}

func (c *CallInfo) Name() string {
	if c.Obj != nil {
		return c.Obj.Name()
	}
	if c.Fn != nil {
		return c.Fn.Name()
	}
	return c.Builtin
}

// RecvName is the name of the receiver's named type, pointers stripped.
func (c *CallInfo) RecvName() string {
	if c.Obj == nil {
		return ""
	}
	sig := c.Obj.Type().(*types.Signature)
	if sig.Recv() == nil {
		return ""
	}
	return typeName(sig.Recv().Type())
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	if n, ok := t.(*types.TypeParam); ok {
		return n.Obj().Name()
	}
	return ""
}

// Full names the callee: pkg.Func or pkg.Type.Method.
func (c *CallInfo) Full() string {
	if c.Builtin != "" {
		return "builtin." + c.Builtin
	}
	p := strings.TrimPrefix(c.PkgPath(), modPath)
	if r := c.RecvName(); r != "" {
		return p + "." + r + "." + c.Name()
	}
	return p + "." + c.Name()
}

func (c *CallInfo) IsInvoke() bool { return c.Common.IsInvoke() }

// Eng analyses entries of one program under one rule.
type Eng struct {
	P *Prog
	u *univ

	// hooks
	OnCall   func(e *Eng, st *State, c *CallInfo) (outs []CallOut, handled bool)
	OnPost   func(e *Eng, st *State, c *CallInfo, res *Val, inlined bool)
	OnLoad   func(e *Eng, fr *Frame, st *State, addr *Val, in ssa.Instruction)
	OnStore  func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction)
	OnMap    func(e *Eng, fr *Frame, st *State, m, k *Val, write bool, in ssa.Instruction)
	OnReturn func(e *Eng, st *State, res []*Val, in ssa.Instruction)
	OnExit   func(e *Eng, fr *Frame, st *State, res []*Val, in ssa.Instruction) // any frame
	OnGo     func(e *Eng, st *State, c *CallInfo)
	OnPanic  func(e *Eng, fr *Frame, st *State, in ssa.Instruction)
	OnBranch func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction)
	OnEdge   func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) // before phis take their values
	OnMake   func(st *State, s, n *Val)                                   // a slice made
	OnBlock  func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock)
	OnSlice  func(e *Eng, st *State, base, lo, hi *Val, in ssa.Instruction)
	OnMisc   func(e *Eng, fr *Frame, st *State, in ssa.Instruction) // sends, receives, selects
	// BoxParams keeps apart a value of a type parameter and the interface made of it.
	BoxParams bool
	Steady    func(fr *Frame, head *ssa.BasicBlock, addr *Val) bool // the loop leaves the memory alone
	NoInline  func(c *CallInfo) bool
	Opaque    func(c *CallInfo) bool                  // never inline, treat as library
	Decide    func(e *Eng, st *State, cond *Val) int8 // truths a case split fixes
	Relevant  map[*ssa.Function]bool
	MergeKey  func(st *State) string // extra facts that must survive joins
	K         int                    // states kept apart per block and property state
	KOut      int
	vno       map[ssa.Value]uint64
	ino       map[ssa.Instruction]uint64
	resVars   []ssa.Value

	Params  []*Val        // of the analysed entry
	makeLen map[*Val]*Val // length of a slice made there

	steps    int
	MaxSteps int
	Over     string
	live     map[*ssa.Function]*liveness
	depthMax int

	// coverage
	Visited  map[*ssa.Function]bool
	Calls    int
	Paths    int
	States   int
	Dump     bool
	dumpSt   *State
	maxState int
}

type CallOut struct {
	St  *State
	Res *Val
}

func newEng(p *Prog) *Eng {
	return &Eng{P: p, u: newUniv(), makeLen: map[*Val]*Val{}, MaxSteps: 150000, live: map[*ssa.Function]*liveness{}, depthMax: 30, K: 6, KOut: 3, vno: map[ssa.Value]uint64{}, ino: map[ssa.Instruction]uint64{}, Visited: map[*ssa.Function]bool{}}
}

type Out struct {
	st  *State
	res []*Val
	in  ssa.Instruction
}

// Run analyses fn as an entry: parameters are unknown.
func (e *Eng) Run(fn *ssa.Function, init func(st *State, params []*Val)) []Out {
	st := newState()
	e.steps = 0
	e.Over = ""
	ctx := e.u.ctx(nil, nil, fn)
	var args []*Val
	for i, p := range fn.Params {
		args = append(args, e.u.mk(Val{k: KParam, n: i, s: fnName(fn), typ: p.Type()}))
	}
	var free []*Val
	for i, f := range fn.FreeVars {
		free = append(free, e.u.mk(Val{k: KParam, n: 1000 + i, s: fnName(fn), typ: f.Type()}))
	}
	if init != nil {
		init(st, args)
	}
	e.Params = args
	fr := &Frame{fn: fn, ctx: ctx, free: free}
	outs := e.exec(fr, st, args)
	for _, o := range outs {
		e.Paths++
		if e.OnReturn != nil {
			e.OnReturn(e, o.st, o.res, o.in)
		}
	}
	return outs
}

// ---- liveness ----

type liveness struct {
	in   []map[ssa.Value]bool
	back map[[2]int]bool
	loop map[int]bool
}

func (e *Eng) liveFor(fn *ssa.Function) *liveness {
	if l := e.live[fn]; l != nil {
		return l
	}
	n := len(fn.Blocks)
	l := &liveness{in: make([]map[ssa.Value]bool, n), back: map[[2]int]bool{}, loop: map[int]bool{}}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l.back[[2]int{b.Index, s.Index}] = true
				l.loop[s.Index] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for bi := n - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s.Index] {
					cur[v] = true
				}
				pi := -1
				for i, p := range s.Preds {
					if p == b {
						pi = i
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
					if l.back[[2]int{bi, s.Index}] {
						cur[ph] = true // the widening needs the previous value
					}
					if pi >= 0 {
						cur[ph.Edges[pi]] = true
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			// phis are defined at entry: keep them as live-in so their value is
			// part of the state.
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				cur[ph] = true
			}
			if len(cur) != len(l.in[bi]) {
				changed = true
			}
			l.in[bi] = cur
		}
	}
	if fn.Recover != nil {
		// named results stay reachable
	}
	e.live[fn] = l
	return l
}

// ---- execution ----

type work struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	st   *State
}

func (e *Eng) exec(fr *Frame, st *State, args []*Val) []Out {
	fn := fr.fn
	e.Visited[fn] = true
	l := e.liveFor(fn)
	st.env = map[ssa.Value]*Val{}
	savedDefers := st.defers
	st.defers = nil
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(fr.free) {
			st.env[f] = fr.free[i]
		}
	}
	seen := map[int]map[hkey]bool{}
	type grp struct {
		n   int
		acc *State
		k   hkey
	}
	groups := map[hkey]*grp{}
	var outs []Out
	outSeen := map[hkey]bool{}
	outGroups := map[hkey][]int{}
	kLimit := e.K
	if fr.ctx.depth > 1 {
		kLimit = (e.K + 1) / 2
	}
	wl := []work{{fn.Blocks[0], nil, st}}
	for len(wl) > 0 {
		w := wl[len(wl)-1]
		wl = wl[:len(wl)-1]
		if e.Over != "" {
			return outs
		}
		e.steps++
		if e.steps > e.MaxSteps {
			e.Over = "state budget exceeded in " + fnName(fn)
			return outs
		}
		s := w.st
		// phis
		if w.pred != nil {
			if e.OnEdge != nil {
				e.OnEdge(e, fr, s, w.pred, w.b)
			}
			pi := -1
			for i, p := range w.b.Preds {
				if p == w.pred {
					pi = i
					break
				}
			}
			isBack := l.back[[2]int{w.pred.Index, w.b.Index}]
			type pv struct {
				ph *ssa.Phi
				v  *Val
			}
			var upd []pv
			for _, in := range w.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				nv := e.eval(fr, s, ph.Edges[pi])
				if isBack {
					old := s.env[ph]
					if old != nil && nv != old && (nv.k != KConst || nv.isNumeric()) {
						if nv.isNumeric() || nv.depth > maxDepth || nv.contains(func(x *Val) bool { return x == old }) || nv.k == KPhi || nv.k == KRes && isErrorType(ph.Type()) && e.nilness(s, nv) == FNonNil {
							pt := e.u.mk(Val{k: KPhi, site: e.u.site(fr.ctx, ph), typ: ph.Type()})
							addIn(pt, nv)
							addIn(pt, old)
							f := e.nilness(s, nv)
							if pt != nv {
								e.kill(s, pt.site.id)
								if f != 0 {
									s.facts[pt] = f
								}
							}
							nv = pt
						}
					}
				}
				upd = append(upd, pv{ph, nv})
			}
			for _, u := range upd {
				s.env[u.ph] = u.v
			}
			if isBack {
				// a number a loop keeps building up in memory
				for k, v := range s.heap {
					if v.k == KBin && v.depth > 5 && isIntType(v.typ) && (e.Steady == nil || !e.Steady(fr, w.b, k)) {
						pt := e.u.mk(Val{k: KPhi, site: e.u.site(fr.ctx, joinKey{w.b, k}), typ: v.typ})
						addIn(pt, v)
						e.kill(s, pt.site.id)
						s.heap[k] = pt
					}
				}
			}
		}
		e.prune(fr, s, l.in[w.b.Index])
		key := e.key(s, true)
		if seen[w.b.Index] == nil {
			seen[w.b.Index] = map[hkey]bool{}
		}
		if seen[w.b.Index][key] {
			continue
		}
		seen[w.b.Index][key] = true
		if len(w.b.Preds) > 1 {
			var gk hkey
			e.propKey(s, &gk, true)
			gk.add(20, uint64(w.b.Index), 0)
			if e.MergeKey != nil {
				gk.add(21, strHash(e.MergeKey(s)), 0)
			}
			g := groups[gk]
			if g == nil {
				g = &grp{}
				groups[gk] = g
			}
			g.n++
			if g.n > kLimit {
				if g.acc == nil {
					g.acc = s
				} else {
					m := g.acc.clone()
					e.merge(fr, w.b, m, s)
					e.prune(fr, m, l.in[w.b.Index])
					g.acc = m
				}
				k2 := e.key(g.acc, true)
				if g.n > kLimit+1 && k2 == g.k {
					continue
				}
				g.k = k2
				s = g.acc.clone()
			}
		}
		e.States++
		if n := len(s.heap) + len(s.facts) + len(s.env); n > e.maxState {
			e.maxState = n
			if e.Dump {
				e.dumpSt = s.clone()
			}
		}
		if e.OnBlock != nil {
			e.OnBlock(e, fr, s, w.b)
		}
		e.step(fr, w.b, 0, s, func(b *ssa.BasicBlock, st *State) {
			wl = append(wl, work{b, w.b, st})
		}, func(o Out) {
			o.st.defers = savedDefers
			o.st.env = map[ssa.Value]*Val{}
			k := e.key(o.st, false)
			for i, r := range o.res {
				k.add(30, uint64(i), uint64(r.id))
			}
			if outSeen[k] {
				return
			}
			outSeen[k] = true
			var gk hkey
			e.propKey(o.st, &gk, false)
			for i, r := range o.res {
				x := uint64(e.nilness(o.st, r))
				if r.k == KConst && r.cv != nil {
					x = 100 + uint64(r.id)
				} else if isEOF(r) {
					x = 40
				} else if isBool(r.typ) {
					x = 50 + uint64(e.truth(o.st, r))
				}
				gk.add(31, uint64(i), x)
			}
			if e.MergeKey != nil {
				gk.add(21, strHash(e.MergeKey(o.st)), 0)
			}
			if g := outGroups[gk]; fr.parent != nil && len(g) >= e.KOut {
				t := &outs[g[len(g)-1]]
				m := t.st.clone()
				for i := range o.res {
					m.env[e.resKey(i)] = t.res[i]
					o.st.env[e.resKey(i)] = o.res[i]
				}
				e.merge(fr, fn, m, o.st)
				res := make([]*Val, len(o.res))
				for i := range o.res {
					res[i] = m.env[e.resKey(i)]
				}
				m.env = map[ssa.Value]*Val{}
				t.st, t.res = m, res
				return
			}
			outGroups[gk] = append(outGroups[gk], len(outs))
			outs = append(outs, o)
		})
	}
	return outs
}

// resKey is a stand-in variable for the i'th result while states are merged.
func (e *Eng) resKey(i int) ssa.Value {
	for len(e.resVars) <= i {
		e.resVars = append(e.resVars, new(ssa.Alloc))
	}
	return e.resVars[i]
}

func addIn(pt, v *Val) {
	if pt == v {
		return
	}
	for _, x := range pt.in {
		if x == v {
			return
		}
	}
	if len(pt.in) < 12 {
		pt.in = append(pt.in, v)
	}
}

// step runs instructions from index i to the end of the block.
func (e *Eng) step(fr *Frame, b *ssa.BasicBlock, i int, st *State, next func(*ssa.BasicBlock, *State), ret func(Out)) {
	for ; i < len(b.Instrs); i++ {
		if e.Over != "" {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := e.eval(fr, st, in.Cond)
			tv := e.truth(st, c)
			if tv != FFalse {
				s2 := st
				if tv == 0 {
					s2 = st.clone()
				}
				if e.assume(s2, c, true) {
					if e.OnBranch != nil {
						e.OnBranch(e, fr, s2, c, true, in)
					}
					next(b.Succs[0], s2)
				}
			}
			if tv != FTrue {
				if e.assume(st, c, false) {
					if e.OnBranch != nil {
						e.OnBranch(e, fr, st, c, false, in)
					}
					next(b.Succs[1], st)
				}
			}
			return
		case *ssa.Jump:
			next(b.Succs[0], st)
			return
		case *ssa.Return:
			var res []*Val
			for _, r := range in.Results {
				res = append(res, e.eval(fr, st, r))
			}
			if e.OnExit != nil {
				e.OnExit(e, fr, st, res, in)
			}
			ret(Out{st, res, in})
			return
		case *ssa.Panic:
			if e.OnPanic != nil {
				e.OnPanic(e, fr, st, in)
			}
			return
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			states := []*State{st}
			for k := len(ds) - 1; k >= 0; k-- {
				d := ds[k]
				var nx []*State
				for _, s := range states {
					s.defers = ds[:k:k] // what is still to run stays reachable
					fr.roots = nil
					for _, o := range e.call(fr, s, d) {
						nx = append(nx, o.St)
					}
				}
				states = e.dedupe(nx)
			}
			fr.roots = nil
			if len(states) == 0 {
				return
			}
			for _, s := range states[1:] {
				e.step(fr, b, i+1, s, next, ret)
			}
			st = states[0]
		case *ssa.Defer:
			ci := e.resolve(fr, st, &in.Call, in)
			ci.Defer = true
			if len(st.defers) > 40 {
				break
			}
			dup := false
			for _, d := range st.defers {
				if d.Instr == ci.Instr && sameArgs(d, ci) {
					dup = true
				}
			}
			if !dup {
				st.defers = append(append([]*CallInfo(nil), st.defers...), ci)
			}
		case *ssa.Go:
			ci := e.resolve(fr, st, &in.Call, in)
			if e.OnGo != nil {
				e.OnGo(e, st, ci)
			}
			// Everything the goroutine captured may change under us from here on.
			e.leakArgs(fr, st, ci, e.u.site(fr.ctx, in).id)
		case *ssa.Call:
			ci := e.resolve(fr, st, &in.Call, in)
			e.kill(st, e.u.site(fr.ctx, in).id)
			fr2 := *fr
			fr2.roots = e.liveRoots(fr, st)
			outs := e.call(&fr2, st, ci)
			if len(outs) == 0 {
				return
			}
			for k := range outs {
				outs[k].St.env[in] = outs[k].Res
			}
			for _, o := range outs[1:] {
				e.step(fr, b, i+1, o.St, next, ret)
			}
			st = outs[0].St
		default:
			e.simple(fr, st, in)
		}
	}
}

func sameArgs(a, b *CallInfo) bool {
	if a.Closure != b.Closure || a.Recv != b.Recv || len(a.Args) != len(b.Args) {
		return false
	}
	for i := range a.Args {
		if a.Args[i] != b.Args[i] {
			return false
		}
	}
	return true
}

func (e *Eng) liveRoots(fr *Frame, st *State) []*Val {
	r := append([]*Val(nil), fr.roots...)
	for _, v := range st.env {
		r = append(r, v)
	}
	for _, d := range st.defers {
		r = append(r, d.Recv, d.Closure)
		r = append(r, d.Args...)
	}
	return r
}

func (e *Eng) dedupe(ss []*State) []*State {
	if len(ss) < 2 {
		return ss
	}
	seen := map[hkey]bool{}
	var out []*State
	for _, s := range ss {
		k := e.key(s, true)
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

// kill forgets facts about a value about to be produced anew.
func (e *Eng) kill(st *State, site int) {
	for v := range st.facts {
		if v.hasSite(site) {
			delete(st.facts, v)
		}
	}
	for v := range st.eq {
		if v.hasSite(site) {
			delete(st.eq, v)
		}
	}
	for v := range st.heap {
		if v.hasSite(site) {
			delete(st.heap, v)
		}
	}
}

func (e *Eng) eval(fr *Frame, st *State, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if nilable(x.Type()) {
				return e.u.mk(Val{k: KConst, typ: nil})
			}
			return e.u.mk(Val{k: KZero, typ: x.Type()})
		}
		return e.u.mk(Val{k: KConst, cv: x.Value, typ: constBase(x.Type())})
	case *ssa.Global:
		return e.u.mk(Val{k: KGlobal, glob: x, typ: x.Type()})
	case *ssa.Function:
		f := x
		if o := x.Origin(); o != nil {
			f = o
		}
		return e.u.mk(Val{k: KFunc, fn: f, typ: x.Type()})
	case *ssa.Builtin:
		return e.u.mk(Val{k: KOther, s: "builtin:" + x.Name()})
	}
	if t := st.env[v]; t != nil {
		return t
	}
	return e.u.mk(Val{k: KOther, s: "?" + v.Name(), site: e.u.site(fr.ctx, v), typ: v.Type()})
}

func constBase(t types.Type) types.Type {
	// constants of different named types but equal value stay distinct only for
	// named types.
	return t
}

func (e *Eng) simple(fr *Frame, st *State, in ssa.Instruction) {
	u := e.u
	v, isV := in.(ssa.Value)
	set := func(t *Val) {
		if t.depth > maxDepth {
			pt := u.mk(Val{k: KPhi, site: u.site(fr.ctx, v), typ: v.Type()})
			addIn(pt, t)
			t = pt
		}
		st.env[v] = t
	}
	op := func(x ssa.Value) *Val { return e.eval(fr, st, x) }
	switch x := in.(type) {
	case *ssa.Alloc:
		s := u.site(fr.ctx, x)
		e.kill(st, s.id)
		t := u.mk(Val{k: KAlloc, site: s, typ: x.Type()})
		delete(st.ep, t)
		set(t)
	case *ssa.BinOp:
		set(e.binop(st, x.Op, op(x.X), op(x.Y), x.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := op(x.X)
			if e.OnLoad != nil {
				e.OnLoad(e, fr, st, a, in)
			}
			set(e.load(st, a, x.Type()))
		case token.NOT:
			set(e.not(op(x.X)))
		case token.ARROW:
			if e.OnMisc != nil {
				e.OnMisc(e, fr, st, in)
			}
			s := u.site(fr.ctx, x)
			e.kill(st, s.id)
			c := u.mk(Val{k: KCall, s: "<-", site: s, a: []*Val{op(x.X)}})
			if x.CommaOk {
				set(u.mk(Val{k: KTuple, a: []*Val{u.mk(Val{k: KRes, n: 0, a: []*Val{c}}), u.mk(Val{k: KRes, n: 1, a: []*Val{c}})}}))
			} else {
				set(u.mk(Val{k: KRes, n: 0, a: []*Val{c}, typ: x.Type()}))
			}
		default:
			set(u.mk(Val{k: KUn, s: opStr(x.Op), a: []*Val{op(x.X)}, typ: x.Type()}))
		}
	case *ssa.ChangeInterface:
		set(e.widen(op(x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeType:
		set(e.widen(op(x.X), x.X.Type(), x.Type()))
	case *ssa.Convert:
		o := op(x.X)
		if c, ok := o.constStr(); ok && isStringType(x.Type()) {
			set(u.mk(Val{k: KConst, cv: constant.MakeString(c), typ: x.Type()}))
			break
		}
		if o.isConst() && isIntType(x.Type()) && o.cv.Kind() == constant.Int {
			set(u.mk(Val{k: KConst, cv: o.cv, typ: x.Type()}))
			break
		}
		if isIntType(x.Type()) && o.typ != nil && isIntType(o.typ) {
			// integer width changes keep the term recognisable
			set(u.mk(Val{k: KConv, s: "int", a: []*Val{o}, typ: x.Type()}))
			break
		}
		set(u.mk(Val{k: KConv, s: "conv", a: []*Val{o}, typ: x.Type()}))
	case *ssa.MultiConvert:
		set(u.mk(Val{k: KConv, s: "mconv", a: []*Val{op(x.X)}, typ: x.Type()}))
	case *ssa.MakeInterface:
		set(u.mk(Val{k: KIface, a: []*Val{op(x.X)}, typ: x.X.Type()}))
	case *ssa.MakeClosure:
		var b []*Val
		for _, y := range x.Bindings {
			b = append(b, op(y))
		}
		set(u.mk(Val{k: KClosure, fn: x.Fn.(*ssa.Function), a: b, typ: x.Type()}))
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		s := u.site(fr.ctx, v)
		e.kill(st, s.id)
		t := u.mk(Val{k: KAlloc, site: s, typ: v.Type()})
		if m, ok := in.(*ssa.MakeSlice); ok {
			e.makeLen[t] = op(m.Len)
			if e.OnMake != nil {
				e.OnMake(st, t, e.makeLen[t])
			}
		}
		set(t)
	case *ssa.FieldAddr:
		set(u.mk(Val{k: KField, a: []*Val{op(x.X)}, fld: fieldOf(x.X.Type(), x.Field), typ: x.Type()}))
	case *ssa.Field:
		b := op(x.X)
		f := fieldOf(x.X.Type(), x.Field)
		set(e.fieldVal(st, b, f, x.Type()))
	case *ssa.IndexAddr:
		b := op(x.X)
		if b.k == KSlice && b.a[1] == nil {
			b = b.a[0]
		}
		set(u.mk(Val{k: KIndex, a: []*Val{b, op(x.Index)}, typ: x.Type()}))
	case *ssa.Index:
		set(u.mk(Val{k: KElem, a: []*Val{op(x.X), op(x.Index)}, typ: x.Type()}))
	case *ssa.Lookup:
		m, k := op(x.X), op(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			if e.OnMap != nil {
				e.OnMap(e, fr, st, m, k, false, in)
			}
			a := u.mk(Val{k: KMapElem, a: []*Val{m, k}})
			ep := e.epoch(st, m)
			val := st.heap[a]
			okv := u.mk(Val{k: KPure, s: "has", a: []*Val{m, k}, n: ep})
			if val == nil {
				vt := x.Type()
				if t, ok := vt.(*types.Tuple); ok {
					vt = t.At(0).Type()
				}
				val = u.mk(Val{k: KLoad, a: []*Val{a}, n: ep, typ: vt})
			} else if x.CommaOk {
				okv = e.boolc(true)
			}
			if x.CommaOk {
				set(u.mk(Val{k: KTuple, a: []*Val{val, okv}}))
			} else {
				set(val)
			}
		} else {
			set(u.mk(Val{k: KElem, a: []*Val{m, k}, typ: x.Type()}))
		}
	case *ssa.MapUpdate:
		m, k, val := op(x.Map), op(x.Key), op(x.Value)
		if e.OnMap != nil {
			e.OnMap(e, fr, st, m, k, true, in)
		}
		e.bump(st, m, u.site(fr.ctx, in).id)
		st.heap[u.mk(Val{k: KMapElem, a: []*Val{m, k}})] = val
	case *ssa.Extract:
		t := op(x.Tuple)
		if t.k == KTuple && x.Index < len(t.a) {
			set(t.a[x.Index])
		} else {
			set(u.mk(Val{k: KRes, n: x.Index, a: []*Val{t}, typ: x.Type()}))
		}
	case *ssa.TypeAssert:
		o := op(x.X)
		okv, val := e.assert(st, o, x.AssertedType)
		if x.CommaOk {
			set(u.mk(Val{k: KTuple, a: []*Val{val, okv}}))
		} else {
			e.assume(st, okv, true)
			set(val)
		}
	case *ssa.Slice:
		b := op(x.X)
		lo, hi, mx := (*Val)(nil), (*Val)(nil), (*Val)(nil)
		if x.Low != nil {
			lo = op(x.Low)
		}
		if x.High != nil {
			hi = op(x.High)
		}
		if x.Max != nil {
			mx = op(x.Max)
		}
		if e.OnSlice != nil {
			e.OnSlice(e, st, b, lo, hi, in)
		}
		set(u.mk(Val{k: KSlice, a: []*Val{b, lo, hi, mx}, typ: x.Type()}))
	case *ssa.Store:
		a, val := op(x.Addr), op(x.Val)
		if e.OnStore != nil {
			e.OnStore(e, fr, st, a, val, in)
		}
		if val.depth > maxDepth {
			pt := u.mk(Val{k: KPhi, site: u.site(fr.ctx, in), typ: x.Val.Type()})
			addIn(pt, val)
			val = pt
		}
		e.store(st, a, val)
	case *ssa.Range:
		set(op(x.X))
	case *ssa.Next:
		s := u.site(fr.ctx, x)
		e.kill(st, s.id)
		c := u.mk(Val{k: KCall, s: "next", site: s, a: []*Val{op(x.Iter)}})
		if e.OnMisc != nil {
			e.OnMisc(e, fr, st, in)
		}
		set(c)
	case *ssa.Select:
		s := u.site(fr.ctx, x)
		e.kill(st, s.id)
		if e.OnMisc != nil {
			e.OnMisc(e, fr, st, in)
		}
		set(u.mk(Val{k: KCall, s: "select", site: s}))
	case *ssa.Send:
		if e.OnMisc != nil {
			e.OnMisc(e, fr, st, in)
		}
	case *ssa.SliceToArrayPointer:
		set(op(x.X))
	default:
		if isV {
			set(u.mk(Val{k: KOther, site: u.site(fr.ctx, v), typ: v.Type()}))
		}
	}
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func fieldOf(t types.Type, i int) *types.Var {
	t = types.Unalias(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		if tp, ok2 := types.Unalias(t).(*types.TypeParam); ok2 {
			s, _ = tp.Underlying().(*types.Struct)
		}
	}
	if s == nil {
		return types.NewField(token.NoPos, nil, fmt.Sprint("f", i), types.Typ[types.Invalid], false)
	}
	return s.Field(i).Origin()
}

func (e *Eng) boolc(b bool) *Val {
	return e.u.mk(Val{k: KConst, cv: constant.MakeBool(b), typ: types.Typ[types.Bool]})
}

func (e *Eng) not(v *Val) *Val {
	if b, ok := v.constBool(); ok {
		return e.boolc(!b)
	}
	if v.k == KNot {
		return v.a[0]
	}
	return e.u.mk(Val{k: KNot, a: []*Val{v}, typ: types.Typ[types.Bool]})
}

func (e *Eng) binop(st *State, op token.Token, x, y *Val, t types.Type) *Val {
	u := e.u
	if x.isConst() && y.isConst() {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.cv.Kind() == y.cv.Kind() {
				return e.boolc(constant.Compare(x.cv, op, y.cv))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.cv.Kind() == y.cv.Kind() {
				return u.mk(Val{k: KConst, cv: constant.BinaryOp(x.cv, op, y.cv), typ: t})
			}
		}
	}
	bt := types.Typ[types.Bool]
	switch op {
	case token.EQL, token.NEQ:
		if x.id > y.id {
			x, y = y, x
		}
		if x == y && x.k != KPhi {
			return e.boolc(op == token.EQL)
		}
		// nil comparison against a known value
		var r *Val
		if x.isNilConst() || y.isNilConst() {
			o := x
			if x.isNilConst() {
				o = y
			}
			switch e.nilness(st, o) {
			case FNil:
				r = e.boolc(true)
			case FNonNil:
				r = e.boolc(false)
			}
		}
		if r == nil {
			// distinct boxed pointers to different sentinel objects
			r = u.mk(Val{k: KBin, s: "==", a: []*Val{x, y}, typ: bt})
		}
		if op == token.NEQ {
			return e.not(r)
		}
		return r
	case token.LSS:
		return u.mk(Val{k: KBin, s: "<", a: []*Val{x, y}, typ: bt})
	case token.GTR:
		return u.mk(Val{k: KBin, s: "<", a: []*Val{y, x}, typ: bt})
	case token.LEQ:
		return e.not(u.mk(Val{k: KBin, s: "<", a: []*Val{y, x}, typ: bt}))
	case token.GEQ:
		return e.not(u.mk(Val{k: KBin, s: "<", a: []*Val{x, y}, typ: bt}))
	}
	return u.mk(Val{k: KBin, s: opStr(op), a: []*Val{x, y}, typ: t})
}

// ---- memory ----

func root(a *Val) *Val {
	for {
		switch a.k {
		case KField, KIndex, KMapElem:
			a = a.a[0]
		case KSlice:
			a = a.a[0]
		default:
			return a
		}
	}
}

func (e *Eng) epoch(st *State, a *Val) int {
	r := root(a)
	if n, ok := st.ep[r]; ok {
		return n
	}
	if r.k == KAlloc {
		return 0
	}
	return st.ep[nil]
}

// bump makes every later read of memory under a produce a new value.
func (e *Eng) bump(st *State, a *Val, site int) {
	r := root(a)
	for k := range st.heap {
		if root(k) == r && k.k == KMapElem {
			delete(st.heap, k)
		}
	}
	st.ep[r] = site
}

func (e *Eng) load(st *State, a *Val, t types.Type) *Val {
	if v := st.heap[a]; v != nil {
		return v
	}
	if a.k == KGlobal {
		// package-level sentinels never change after init
		return e.u.mk(Val{k: KLoad, a: []*Val{a}, typ: t})
	}
	// a field of a struct stored whole
	if a.k == KField {
		if b := st.heap[a.a[0]]; b != nil {
			return e.fieldVal(st, b, a.fld, t)
		}
		for up := a.a[0]; up.k == KField; up = up.a[0] {
			if st.heap[up.a[0]] != nil {
				return e.fieldVal(st, e.load(st, a.a[0], a.a[0].fld.Type()), a.fld, t)
			}
		}
	}
	r := root(a)
	if r.k == KAlloc {
		if _, leaked := st.ep[r]; !leaked {
			if _, isStruct := t.Underlying().(*types.Struct); !isStruct {
				if a.k == KIndex && a.a[1].k != KConst {
					// unknown index into a local array: any element
					l := e.u.mk(Val{k: KLoad, a: []*Val{a}, typ: t})
					for k, v := range st.heap {
						if k.k == KIndex && k.a[0] == a.a[0] {
							addIn(l, v)
						}
					}
					return l
				}
				if a == r || r.site.val == nil || isAllocInstr(r) {
					return e.zero(t)
				}
			}
		}
	}
	ep := e.epoch(st, a)
	if ofResponse(a) || a.k == KField && r.k != KAlloc && !inElem(a) && e.P.immutable(a.fld) {
		ep = 0
	}
	return e.u.mk(Val{k: KLoad, a: []*Val{a}, n: ep, typ: t})
}

// inElem: the address lies in an element of a slice or map.
func inElem(a *Val) bool {
	for a != nil && a.k == KField {
		a = a.a[0]
	}
	return a == nil || a.k == KIndex || a.k == KMapElem
}

// ofResponse: memory reached through a field of an HTTP response, which
// nothing changes behind the caller's back.
func ofResponse(a *Val) bool {
	for a != nil {
		switch {
		case a.k == KField && a.a[0].typ != nil && isHTTP(a.a[0].typ, "Response"):
			return root(a.a[0]).k != KAlloc
		case a.k == KField, a.k == KLoad:
			a = a.a[0]
		default:
			return false
		}
	}
	return false
}

func isAllocInstr(r *Val) bool {
	_, ok := r.site.val.(*ssa.Alloc)
	return ok
}

func (e *Eng) zero(t types.Type) *Val {
	if nilable(t) {
		return e.u.mk(Val{k: KConst})
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return e.boolc(false)
		case b.Info()&types.IsInteger != 0:
			return e.u.mk(Val{k: KConst, cv: constant.MakeInt64(0), typ: t})
		case b.Info()&types.IsString != 0:
			return e.u.mk(Val{k: KConst, cv: constant.MakeString(""), typ: t})
		}
	}
	return e.u.mk(Val{k: KZero, typ: t})
}

func (e *Eng) fieldVal(st *State, b *Val, f *types.Var, t types.Type) *Val {
	switch b.k {
	case KLoad:
		a := e.u.mk(Val{k: KField, a: []*Val{b.a[0]}, fld: f})
		if v := st.heap[a]; v != nil {
			return v
		}
		if root(a).k == KAlloc {
			return e.load(st, a, t)
		}
		return e.u.mk(Val{k: KLoad, a: []*Val{a}, n: b.n, typ: t})
	case KZero:
		return e.zero(t)
	case KConst:
		return e.zero(t)
	}
	return e.u.mk(Val{k: KFieldVal, a: []*Val{b}, fld: f, typ: t})
}

func (e *Eng) store(st *State, a, v *Val) {
	// forget parts of what is overwritten
	for k := range st.heap {
		if k != a && (k.k == KField || k.k == KIndex) && under(k, a) {
			delete(st.heap, k)
		}
	}
	for f := range st.facts {
		if f.k == KLoad && f.a[0] == a {
			delete(st.facts, f)
		}
	}
	st.heap[a] = v
	// copying a struct copies what is known of its fields
	if v.k == KLoad {
		src := v.a[0]
		type kv struct{ k, v *Val }
		var add []kv
		for k, x := range st.heap {
			if k.k == KField && k.a[0] == src {
				add = append(add, kv{e.u.mk(Val{k: KField, a: []*Val{a}, fld: k.fld, typ: k.typ}), x})
			}
		}
		for _, x := range add {
			st.heap[x.k] = x.v
		}
	}
	// may-alias: other names of the same field are no longer known
	if a.k == KField {
		for k := range st.heap {
			if k != a && k.k == KField && k.fld == a.fld && mayAlias(k.a[0], a.a[0]) {
				delete(st.heap, k)
			}
		}
		r := root(a)
		if r.k != KAlloc {
			// reads of the same field through other names must not be believed
			for f := range st.facts {
				if f.k == KLoad && f.a[0].k == KField && f.a[0].fld == a.fld && f.a[0] != a {
					delete(st.facts, f)
				}
			}
		}
	}
}

func mayAlias(x, y *Val) bool {
	if x == y {
		return true
	}
	if x.k == KAlloc && y.k == KAlloc {
		return false
	}
	if x.k == KParam && y.k == KParam {
		return x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ)
	}
	if x.k == KAlloc || y.k == KAlloc {
		return false
	}
	return true
}

func under(k, a *Val) bool {
	for k.k == KField || k.k == KIndex {
		k = k.a[0]
		if k == a {
			return true
		}
	}
	return false
}

// havoc forgets memory another party may write: everything not local when all
// is set, otherwise only memory reachable from the given values.
func (e *Eng) havocAll(st *State, site int) {
	for k := range st.heap {
		if root(k).k != KAlloc {
			delete(st.heap, k)
		}
	}
	st.ep[nil] = site
	for r := range st.ep {
		if r != nil {
			st.ep[r] = site
			for k := range st.heap {
				if root(k) == r {
					delete(st.heap, k)
				}
			}
		}
	}
}

func (e *Eng) leakArgs(fr *Frame, st *State, c *CallInfo, site int) {
	var vs []*Val
	vs = append(vs, c.Args...)
	if c.Closure != nil {
		vs = append(vs, c.Closure.a...)
	}
	seen := map[*Val]bool{}
	var rec func(v *Val)
	rec = func(v *Val) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v.k {
		case KIface, KSlice, KAssert:
			rec(v.a[0])
		case KClosure:
			for _, b := range v.a {
				rec(b)
			}
		case KField, KIndex, KAlloc:
			r := root(v)
			if r.k == KAlloc {
				var sub []*Val
				for k, x := range st.heap {
					if root(k) == r {
						sub = append(sub, x)
						delete(st.heap, k)
					}
				}
				st.ep[r] = site
				for _, x := range sub {
					if y := x.strip(); y != nil && isPtrLike(y) && root(y).k == KAlloc {
						rec(y)
					}
				}
			} else {
				for k := range st.heap {
					if k == v || under(k, v) {
						delete(st.heap, k)
					}
				}
				st.ep[r] = site
			}
		}
	}
	for _, v := range vs {
		// passing a pointer by value to a library function lets it write the pointee
		if v != nil && isPtrLike(v) {
			rec(v)
		}
	}
}

func isPtrLike(v *Val) bool {
	switch v.k {
	case KAlloc, KField, KIndex, KClosure:
		return true
	case KIface, KSlice:
		return isPtrLike(v.a[0])
	}
	return false
}

// ---- facts ----

func (e *Eng) nilness(st *State, v *Val) int8 {
	if v == nil {
		return 0
	}
	switch v.k {
	case KConst:
		if v.cv == nil {
			return FNil
		}
		return FNonNil
	case KAlloc, KField, KIndex, KFunc, KClosure, KGlobal, KIface:
		if v.k == KIface && v.typ != nil {
			if _, ok := types.Unalias(v.typ).(*types.TypeParam); ok {
				break
			}
		}
		return FNonNil
	case KSlice:
		return e.nilness(st, v.a[0])
	}
	if f := st.facts[v]; f == FNil || f == FNonNil {
		return f
	}
	if v.k == KLoad && v.a[0].k == KGlobal {
		g := v.a[0].glob
		if isErrorType(deref(g.Type())) {
			return FNonNil
		}
	}
	if v.k == KAssert {
		if f := e.nilness(st, v.a[0]); f == FNil {
			return FNil
		}
	}
	if v.k == KIface {
		return e.nilness(st, v.a[0])
	}
	return 0
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Eng) truth(st *State, c *Val) int8 {
	if b, ok := c.constBool(); ok {
		if b {
			return FTrue
		}
		return FFalse
	}
	if e.Decide != nil {
		if r := e.Decide(e, st, c); r != 0 {
			return r
		}
	}
	switch c.k {
	case KNot:
		switch e.truth(st, c.a[0]) {
		case FTrue:
			return FFalse
		case FFalse:
			return FTrue
		}
		return 0
	case KBin:
		if c.s == "==" {
			x, y := c.a[0], c.a[1]
			if x.isNilConst() {
				x, y = y, x
			}
			if y.isNilConst() {
				switch e.nilness(st, x) {
				case FNil:
					return FTrue
				case FNonNil:
					return FFalse
				}
				return 0
			}
			cx, cy := st.eqc(x), st.eqc(y)
			for i := 0; i < 2; i++ {
				if cx != nil {
					if t, ok := cx.constStr(); ok && t == "" && hasText(y) {
						return FFalse
					}
				}
				cx, cy, x, y = cy, cx, y, x
			}
			if cx != nil && cy != nil && cx.isConst() && cy.isConst() && cx.cv.Kind() == cy.cv.Kind() {
				if constant.Compare(cx.cv, token.EQL, cy.cv) {
					return FTrue
				}
				return FFalse
			}
		}
	case KPure:
		if c.s == "errors.Is" || c.s == "errors.As" {
			if e.nilness(st, c.a[0]) == FNil {
				return FFalse
			}
		}
		if c.s == "errors.Is" && len(c.a) == 2 && c.a[0].strip() == c.a[1].strip() && e.nilness(st, c.a[0]) == FNonNil {
			return FTrue
		}
	}
	return st.facts[c]
}

// hasText: the string v holds at least one literal character.
func hasText(v *Val) bool {
	v = v.strip()
	switch {
	case v == nil:
	case isPure(v, "fmt.Sprintf") && len(v.a) > 0:
		f, ok := v.a[0].constStr()
		if !ok {
			return false
		}
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				return true
			}
			for i++; i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0; i++ {
			}
			if i < len(f) && (f[i] == '%' || f[i] == 'd' || f[i] == 'q') {
				return true
			}
		}
	case v.k == KBin && v.s == "+":
		return hasText(v.a[0]) || hasText(v.a[1])
	case v.k == KPhi && len(v.in) > 0:
		for _, x := range v.in {
			if !hasText(x) {
				return false
			}
		}
		return true
	default:
		t, ok := v.constStr()
		return ok && t != ""
	}
	return false
}

func (s *State) eqc(v *Val) *Val {
	if v.isConst() {
		return v
	}
	return s.eq[v]
}

// assume records a branch outcome; false means the facts contradict it.
func (e *Eng) assume(st *State, c *Val, truth bool) bool {
	switch e.truth(st, c) {
	case FTrue:
		return truth
	case FFalse:
		return !truth
	}
	switch c.k {
	case KNot:
		return e.assume(st, c.a[0], !truth)
	case KBin:
		if c.s == "==" {
			x, y := c.a[0], c.a[1]
			if x.isNilConst() {
				x, y = y, x
			}
			if y.isNilConst() {
				if truth {
					st.facts[x] = FNil
				} else {
					st.facts[x] = FNonNil
				}
				return true
			}
			if truth {
				if y.isConst() {
					st.eq[x] = y
				} else if x.isConst() {
					st.eq[y] = x
				}
				// a value equal to a known non-nil one
				if e.nilness(st, x) == FNonNil && nilable(y.typ) && y.k != KConst {
					st.facts[y] = FNonNil
				} else if e.nilness(st, y) == FNonNil && nilable(x.typ) && x.k != KConst {
					st.facts[x] = FNonNil
				}
			}
		}
	case KPure:
		if truth && (c.s == "errors.Is" || c.s == "errors.As") {
			if e.nilness(st, c.a[0]) == 0 {
				st.facts[c.a[0]] = FNonNil
			}
		}
		if c.s == "okassert" && truth {
			st.facts[c.a[0]] = FNonNil
		}
	}
	if truth {
		st.facts[c] = FTrue
	} else {
		st.facts[c] = FFalse
	}
	return true
}

func (e *Eng) assert(st *State, o *Val, t types.Type) (ok, val *Val) {
	u := e.u
	if o.k == KIface {
		ct := o.typ
		if _, isTP := types.Unalias(ct).(*types.TypeParam); !isTP {
			if it, isI := t.Underlying().(*types.Interface); isI {
				if types.Implements(ct, it) {
					return e.boolc(true), o
				}
				if !hasTypeParam(ct) {
					return e.boolc(false), u.mk(Val{k: KConst})
				}
			} else if types.Identical(ct, t) {
				return e.boolc(true), o.a[0]
			} else if !hasTypeParam(ct) && !hasTypeParam(t) {
				return e.boolc(false), e.zero(t)
			}
		}
	}
	if o.isNilConst() {
		return e.boolc(false), e.zero(t)
	}
	okv := u.mk(Val{k: KPure, s: "okassert", a: []*Val{o, u.mk(Val{k: KZero, typ: t})}, typ: types.Typ[types.Bool]})
	v := u.mk(Val{k: KAssert, a: []*Val{o}, typ: t})
	return okv, v
}

func hasTypeParam(t types.Type) bool {
	found := false
	var rec func(types.Type, int)
	rec = func(t types.Type, d int) {
		if d > 6 || found {
			return
		}
		switch x := types.Unalias(t).(type) {
		case *types.TypeParam:
			found = true
		case *types.Pointer:
			rec(x.Elem(), d+1)
		case *types.Slice:
			rec(x.Elem(), d+1)
		case *types.Named:
			for i := 0; i < x.TypeArgs().Len(); i++ {
				rec(x.TypeArgs().At(i), d+1)
			}
		}
	}
	rec(t, 0)
	return found
}

// ---- pruning and keys ----

func (e *Eng) prune(fr *Frame, st *State, live map[ssa.Value]bool) {
	for v := range st.env {
		if !live[v] {
			delete(st.env, v)
		}
	}
	reach := map[*Val]bool{}
	var stack []*Val
	push := func(v *Val) {
		if v != nil && !reach[v] {
			reach[v] = true
			stack = append(stack, v)
		}
	}
	for _, v := range st.env {
		push(v)
	}
	for _, v := range fr.free {
		push(v)
	}
	for f := fr; f != nil; f = f.parent {
		for _, v := range f.roots {
			push(v)
		}
	}
	for _, d := range st.defers {
		push(d.Recv)
		push(d.Closure)
		for _, a := range d.Args {
			push(a)
		}
	}
	for v := range st.S {
		push(v)
	}
	byRoot := map[*Val][]*Val{}
	for k, v := range st.heap {
		r := root(k)
		if r.k == KAlloc || r.k == KRes || r.k == KPhi {
			byRoot[r] = append(byRoot[r], v)
		} else {
			push(v)
			push(k)
		}
	}
	for {
		for len(stack) > 0 {
			v := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			for _, x := range v.a {
				push(x)
			}
			for _, x := range byRoot[v] {
				push(x)
			}
		}
		break
	}
	for k := range st.heap {
		r := root(k)
		if (r.k == KAlloc || r.k == KRes || r.k == KPhi) && !reach[r] {
			delete(st.heap, k)
		}
	}
	keep := map[*Val]bool{}
	var ok func(v *Val) bool
	ok = func(v *Val) bool {
		if reach[v] {
			return true
		}
		if r, seen := keep[v]; seen {
			return r
		}
		r := true
		switch v.k {
		case KCall, KAlloc, KPhi, KOther:
			r = false
		}
		if r {
			for _, x := range v.a {
				if x != nil && !ok(x) {
					r = false
					break
				}
			}
		}
		keep[v] = r
		return r
	}
	for f := range st.facts {
		if !ok(f) {
			delete(st.facts, f)
		}
	}
	for f := range st.eq {
		if !ok(f) {
			delete(st.eq, f)
		}
	}
	for r := range st.ep {
		if r != nil && !ok(r) {
			delete(st.ep, r)
		}
	}
}

type hkey struct{ a, b uint64 }

func mix(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

func (h *hkey) add(kind, x, y uint64) {
	v := mix(mix(mix(kind+0x9e3779b97f4a7c15)^x*0x9e3779b97f4a7c15) ^ y*0xc2b2ae3d27d4eb4f)
	h.a += v
	h.b += mix(v ^ 0x5851f42d4c957f2d)
}

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (e *Eng) valNo(v ssa.Value) uint64 {
	if n, ok := e.vno[v]; ok {
		return n
	}
	n := uint64(len(e.vno) + 1)
	e.vno[v] = n
	return n
}

func vid(v *Val) uint64 {
	if v == nil {
		return 0
	}
	return uint64(v.id)
}

func (e *Eng) key(st *State, withEnv bool) hkey {
	var h hkey
	if withEnv {
		for v, t := range st.env {
			h.add(1, e.valNo(v), uint64(t.id))
		}
	}
	for k, v := range st.heap {
		h.add(2, uint64(k.id), uint64(v.id))
	}
	for k, v := range st.facts {
		h.add(3, uint64(k.id), uint64(v))
	}
	for k, v := range st.eq {
		h.add(4, uint64(k.id), uint64(v.id))
	}
	for k, v := range st.ep {
		h.add(5, vid(k), uint64(v))
	}
	e.propKey(st, &h, withEnv)
	return h
}

// propKey hashes the property state: what must not be merged.
func (e *Eng) propKey(st *State, h *hkey, withDefers bool) {
	for k, v := range st.T {
		h.add(6, strHash(k), strHash(v))
	}
	for k, v := range st.S {
		h.add(7, uint64(k.id), strHash(v))
	}
	if withDefers {
		for i, d := range st.defers {
			x := uint64(i) << 40
			x ^= e.instrNo(d.Instr) << 20
			h.add(8, x+vid(d.Recv), vid(d.Closure))
			for j, a := range d.Args {
				h.add(9, x+uint64(j), vid(a))
			}
		}
	}
}

func (e *Eng) instrNo(in ssa.Instruction) uint64 {
	if n, ok := e.ino[in]; ok {
		return n
	}
	n := uint64(len(e.ino) + 1)
	e.ino[in] = n
	return n
}

type joinKey struct {
	b any
	v any
}

// merge joins b into a at a program point: facts both agree on survive, values
// that differ become a join value.
func (e *Eng) merge(fr *Frame, at any, a, b *State) {
	u := e.u
	join := func(what any, x, y *Val) *Val {
		if x == y {
			return x
		}
		s := u.site(fr.ctx, joinKey{at, what})
		pt := u.mk(Val{k: KPhi, site: s, typ: x.typ})
		if pt.typ == nil {
			pt.typ = y.typ
		}
		fx, fy := e.nilness(a, x), e.nilness(b, y)
		e.kill(a, s.id)
		e.kill(b, s.id)
		if fx == fy && fx != 0 {
			a.facts[pt] = fx
			b.facts[pt] = fx
		}
		addIn(pt, x)
		addIn(pt, y)
		return pt
	}
	type upd struct {
		k, v *Val
	}
	for v, x := range a.env {
		y := b.env[v]
		if y == nil {
			continue
		}
		if x != y {
			a.env[v] = join(v, x, y)
		}
	}
	for v, y := range b.env {
		if a.env[v] == nil {
			a.env[v] = y
		}
	}
	var us []upd
	seenk := map[*Val]bool{}
	look := func(s *State, k *Val) *Val {
		if v := s.heap[k]; v != nil {
			return v
		}
		t := types.Type(nil)
		if k.typ != nil {
			t = deref(k.typ)
		}
		if t == nil {
			t = types.Typ[types.Invalid]
		}
		if k.k == KMapElem {
			return u.mk(Val{k: KLoad, a: []*Val{k}, n: e.epoch(s, k), typ: t})
		}
		return e.load(s, k, t)
	}
	for k := range a.heap {
		seenk[k] = true
	}
	for k := range b.heap {
		seenk[k] = true
	}
	for k := range seenk {
		x, y := look(a, k), look(b, k)
		if x != y {
			x = join(k, x, y)
		}
		us = append(us, upd{k, x})
	}
	eps := map[*Val]bool{}
	for k := range a.ep {
		eps[k] = true
	}
	for k := range b.ep {
		eps[k] = true
	}
	for k := range eps {
		x, y := a.ep[k], b.ep[k]
		if k != nil && k.k != KAlloc {
			if _, ok := a.ep[k]; !ok {
				x = a.ep[nil]
			}
			if _, ok := b.ep[k]; !ok {
				y = b.ep[nil]
			}
		}
		if x != y {
			s := u.site(fr.ctx, joinKey{at, k})
			a.ep[k] = s.id
			for f := range a.facts {
				if f.contains(func(z *Val) bool { return z.k == KLoad && z.n == s.id }) {
					delete(a.facts, f)
				}
			}
		} else {
			a.ep[k] = x
		}
	}
	for _, x := range us {
		a.heap[x.k] = x.v
	}
	for f, v := range a.facts {
		if b.facts[f] == v {
			continue
		}
		if v == FNil || v == FNonNil {
			if e.nilness(b, f) == v {
				continue
			}
		} else if e.truth(b, f) == v {
			continue
		}
		delete(a.facts, f)
	}
	for f, v := range b.facts {
		if _, ok := a.facts[f]; ok {
			continue
		}
		if v == FNil || v == FNonNil {
			if e.nilness(a, f) == v {
				a.facts[f] = v
			}
		} else if e.truth(a, f) == v {
			a.facts[f] = v
		}
	}
	for f, v := range a.eq {
		if b.eq[f] != v {
			delete(a.eq, f)
		}
	}
}

func (s *State) String() string {
	var b strings.Builder
	for k, v := range s.env {
		fmt.Fprintf(&b, "env %s = %s\n", k.Name(), v)
	}
	for k, v := range s.heap {
		fmt.Fprintf(&b, "heap %s = %s\n", k, v)
	}
	for k, v := range s.facts {
		fmt.Fprintf(&b, "fact %s: %d\n", k, v)
	}
	for k, v := range s.eq {
		fmt.Fprintf(&b, "eq %s: %s\n", k, v)
	}
	for k, v := range s.T {
		fmt.Fprintf(&b, "T %s: %s\n", k, v)
	}
	for k, v := range s.S {
		fmt.Fprintf(&b, "S %s: %s\n", k, v)
	}
	return b.String()
}

// widen is a value made a value of another type that holds the same.
func (e *Eng) widen(v *Val, from, to types.Type) *Val {
	if !e.BoxParams || v.k == KIface {
		return v
	}
	_, tp := types.Unalias(from).(*types.TypeParam)
	_, tq := types.Unalias(to).(*types.TypeParam)
	if !tp || tq || !types.IsInterface(to) {
		return v
	}
	return e.u.mk(Val{k: KIface, a: []*Val{v}, typ: from})
}
