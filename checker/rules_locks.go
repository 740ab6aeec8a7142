package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = checkLocksReleased
	checks["C12"] = checkNoDeadlock
	checks["C13"] = checkGuarded
}

func isMutexType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// lockOp classifies a call on a mutex.
func lockOp(ci *CallInfo) (op string, mu *Val) {
	if ci.Obj == nil || ci.PkgPath() != "sync" || ci.Recv == nil {
		return "", nil
	}
	switch ci.RecvName() {
	case "Mutex", "RWMutex":
	default:
		return "", nil
	}
	switch ci.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock":
		return ci.Name(), ci.Recv
	}
	return "", nil
}

// lockFacts tracks the locks held on the path in st.T: "L:<path>" = W or R.
type lockTracker struct {
	onAcquire func(e *Eng, st *State, ci *CallInfo, path, class, mode string)
	onRelease func(e *Eng, st *State, ci *CallInfo, path string, held string)
}

func lockClass(mu *Val) string {
	v := mu
	for v != nil {
		switch v.k {
		case KField:
			if o := ownerOf[v.fld]; o != "" {
				return o + "." + v.fld.Name()
			}
			return v.fld.Name()
		case KGlobal:
			return v.glob.String()
		case KAlloc:
			return "local"
		}
		if len(v.a) == 0 {
			break
		}
		v = v.a[0]
	}
	return "?"
}

// ownerOf names the struct a field is declared in; filled per program.
var ownerOf = map[*types.Var]string{}
var ownerType = map[*types.Var]*types.Named{}

func (p *Prog) structs() []*types.Named {
	var out []*types.Named
	keys := make([]string, 0, len(p.Pkgs))
	for k := range p.Pkgs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if isSupportPkg(k) {
			continue
		}
		sc := p.Pkgs[k].Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); ok {
				out = append(out, nt)
			}
		}
	}
	return out
}

func (p *Prog) fillOwners() {
	for _, n := range p.structs() {
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			ownerOf[s.Field(i)] = typeRel(n)
			ownerType[s.Field(i)] = n
		}
	}
}

func (lt *lockTracker) call(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
	op, mu := lockOp(ci)
	if op == "" {
		return nil, false
	}
	path := mu.path()
	key := "L:" + path
	held := st.T[key]
	acq := func(s *State, mode string) {
		if lt.onAcquire != nil {
			lt.onAcquire(e, s, ci, path, lockClass(mu), mode)
		}
		s.T[key] = held + mode
	}
	rel := func(mode string) {
		if lt.onRelease != nil {
			lt.onRelease(e, st, ci, path, held)
		}
		h := held
		if i := strings.LastIndex(h, mode); i >= 0 {
			h = h[:i] + h[i+1:]
		}
		if h == "" {
			delete(st.T, key)
		} else {
			st.T[key] = h
		}
	}
	void := e.u.mk(Val{k: KTuple})
	// other goroutines may have written shared memory before we got the lock
	if op == "Lock" || op == "RLock" {
		e.havocAll(st, e.u.site(ci.fr.ctx, ci.Instr).id)
	}
	switch op {
	case "Lock":
		acq(st, "W")
	case "RLock":
		acq(st, "R")
	case "Unlock":
		rel("W")
	case "RUnlock":
		rel("R")
	case "TryLock", "TryRLock":
		s2 := st.clone()
		m := "W"
		if op == "TryRLock" {
			m = "R"
		}
		acq(st, m)
		return []CallOut{{st, e.boolc(true)}, {s2, e.boolc(false)}}, true
	}
	return []CallOut{{st, void}}, true
}

func heldLocks(st *State) []string {
	var out []string
	for k := range st.T {
		if strings.HasPrefix(k, "L:") {
			out = append(out, k[2:])
		}
	}
	sort.Strings(out)
	return out
}

// lockSeed: functions that lock, or touch anything guarded.
func lockSeed(fn *ssa.Function, in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if f := c.Common().StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok && o.Pkg() != nil && o.Pkg().Path() == "sync" {
			if r := o.Type().(*types.Signature).Recv(); r != nil && isMutexType(r.Type()) {
				return true
			}
		}
	}
	return false
}

// roots are the functions control enters from outside: exported functions and
// methods, and function values that escape.
func (p *Prog) roots() []*ssa.Function {
	if p.Lean {
		own, other := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if f, ok := (*op).(*ssa.Function); ok {
							if ownHelper(fn, f) {
								own[f] = true
							} else {
								other[f] = true
							}
						}
					}
				}
			}
		}
		var out []*ssa.Function
		for _, fn := range p.Funcs {
			if fn.Parent() == nil && (!own[fn] || other[fn] || exportedFn(fn)) {
				out = append(out, fn)
			}
		}
		return out
	}
	direct := map[*ssa.Function]bool{} // only ever called where it is created
	escaped := map[*ssa.Function]bool{}
	called := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						if o := f.Origin(); o != nil {
							f = o
						}
						called[f] = true
						if _, isGo := in.(*ssa.Go); isGo {
							escaped[f] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == f {
						continue
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue
					}
					if o := f.Origin(); o != nil {
						f = o
					}
					escaped[f] = true
				}
			}
		}
	}
	_ = direct
	// concrete types that become an interface value: their methods can be entered
	// by whoever gets hold of it
	boxed := map[*types.Named]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if n := namedOf(mi.X.Type()); n != nil && valueEscapes(mi, 0) {
						boxed[n] = true
					}
				}
			}
		}
	}
	internal := func(fn *ssa.Function) bool {
		f, ok := fn.Object().(*types.Func)
		if !ok {
			return false
		}
		r := f.Type().(*types.Signature).Recv()
		if r == nil {
			return false
		}
		n := namedOf(r.Type())
		return n != nil && !n.Obj().Exported() && !boxed[n]
	}
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		switch {
		case fn.Parent() != nil:
			// closures are run where their parent's analysis reaches them; a
			// goroutine body or a closure that leaves the function is an entry
			if escaped[fn] || closureEscapes(fn) {
				out = append(out, fn)
			}
		case fn.Object() == nil:
		case internal(fn) && !escaped[fn] && (called[fn] || promotedUse(fn)):
		case fn.Object().Exported() || escaped[fn] || !called[fn]:
			out = append(out, fn)
		}
	}
	return out
}

// promotedUse: every use of an unexported, never boxed receiver type is a
// generic argument or a direct call, so its methods run inside the caller.
func promotedUse(fn *ssa.Function) bool { return fn.Object().Exported() }

// closureEscapes: made into a value that is returned, stored, sent or started
// as a goroutine.
func closureEscapes(fn *ssa.Function) bool {
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			if valueEscapes(mc, 0) {
				return true
			}
		}
	}
	return false
}

func valueEscapes(v ssa.Value, d int) bool {
	if v.Referrers() == nil || d > 4 {
		return true
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Return, *ssa.Go, *ssa.Send, *ssa.MapUpdate:
			return true
		case *ssa.Store:
			if r.Val == v {
				return true
			}
		case *ssa.MakeInterface:
			if valueEscapes(r, d+1) {
				return true
			}
		case *ssa.ChangeType:
			if valueEscapes(r, d+1) {
				return true
			}
		case *ssa.Phi:
			if valueEscapes(r, d+1) {
				return true
			}
		case *ssa.MakeClosure:
			return true
		case ssa.CallInstruction:
			if _, isBox := v.(*ssa.MakeInterface); !isBox {
				break // a closure argument is run by the callee's analysis
			}
			cc := r.Common()
			f := cc.StaticCallee()
			if f == nil || f.Blocks == nil {
				return true
			}
			if o := f.Origin(); o != nil {
				f = o
			}
			for i, a := range cc.Args {
				if a == v && i < len(f.Params) && paramEscapes(f.Params[i], d+1) {
					return true
				}
			}
		}
	}
	return false
}

func paramEscapes(p *ssa.Parameter, d int) bool {
	if d > 4 {
		return true
	}
	for _, r := range *p.Referrers() {
		switch r := r.(type) {
		case *ssa.Return, *ssa.Go, *ssa.Send, *ssa.MapUpdate, *ssa.MakeClosure:
			return true
		case *ssa.Store:
			if r.Val == p {
				return true
			}
		case ssa.CallInstruction:
			cc := r.Common()
			f := cc.StaticCallee()
			if f == nil {
				if cc.IsInvoke() && cc.Value == p {
					continue
				}
				return true
			}
			if o := f.Origin(); o != nil {
				f = o
			}
			for i, a := range cc.Args {
				if a == p && (i >= len(f.Params) || paramEscapes(f.Params[i], d+1)) {
					return true
				}
			}
		}
	}
	return false
}

func lockEng(c *Ck, lt *lockTracker, rel map[*ssa.Function]bool) *Eng {
	e := newEng(c.P)
	e.Relevant = rel
	e.MaxSteps = 400000
	e.OnCall = lt.call
	if c.P.Lean {
		e.NoInline = func(ci *CallInfo) bool {
			return ci.Fn != nil && ci.Fn.Parent() == nil && !ownHelper(ci.fr.fn, ci.Fn)
		}
	}
	return e
}

// ownHelper: g is an unexported method of the type fn is a method of.
func ownHelper(fn, g *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return recvNamed(fn) != "" && recvNamed(fn) == recvNamed(g) && fn.Pkg == g.Pkg && !exportedFn(g)
}

func lockRoots(c *Ck) ([]*ssa.Function, map[*ssa.Function]bool) {
	c.P.fillOwners()
	rel := c.P.reachMap(lockSeed)
	var out []*ssa.Function
	for _, fn := range c.P.roots() {
		if rel[fn] {
			out = append(out, fn)
		}
	}
	return out, rel
}

func checkLocksReleased(c *Ck) {
	c.Rule("released", "every lock taken during an operation is released on every path out of it", 100)
	c.Rule("owned", "a lock is released only where this path took it", 100)
	roots, rel := lockRoots(c)
	for _, fn := range roots {
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			lt := &lockTracker{}
			lt.onAcquire = func(e *Eng, st *State, ci *CallInfo, path, class, mode string) {
				c.Did("released", what+" "+class)
			}
			lt.onRelease = func(e *Eng, st *State, ci *CallInfo, path, held string) {
				c.Did("owned", what+" "+path)
				need := "W"
				if ci.Name() == "RUnlock" {
					need = "R"
				}
				if !strings.Contains(held, need) && fn.Parent() == nil {
					c.BadAt("owned", what, e, ci.fr, ci.Instr, "%s of %s which this path does not hold that way (held %q): the program crashes", ci.Name(), path, held)
				}
			}
			e := lockEng(c, lt, rel)
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				for _, l := range heldLocks(st) {
					c.BadAt("released", what, e, nil, in, "returns still holding %s: every later operation that needs it blocks for ever", l)
				}
			}
			return e
		}, fn, nil)
	}
}

func checkNoDeadlock(c *Ck) {
	c.Rule("no-reentry", "no path takes a lock it already holds", 100)
	c.Rule("order", "locks of different kinds are taken in one global order", 3)
	roots, rel := lockRoots(c)
	type edge struct{ a, b string }
	edges := map[edge]string{}
	for _, fn := range roots {
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			lt := &lockTracker{}
			lt.onAcquire = func(e *Eng, st *State, ci *CallInfo, path, class, mode string) {
				c.Did("no-reentry", what+" "+class)
				if h := st.T["L:"+path]; h != "" {
					c.BadAt("no-reentry", what+" "+class, e, ci.fr, ci.Instr, "%s of %s while this path already holds it (%s): the operation blocks for ever", ci.Name(), path, h)
					return
				}
				for _, h := range heldLocks(st) {
					hc := st.T["C:"+h]
					if hc == "" || hc == "local" || class == "local" || hc == class {
						continue
					}
					ed := edge{hc, class}
					c.Did("order", hc+" -> "+class)
					if edges[ed] == "" {
						edges[ed] = e.Stack(ci.fr, ci.Instr)
					}
				}
				st.T["C:"+path] = class
			}
			return lockEng(c, lt, rel)
		}, fn, nil)
	}
	// cycles
	next := map[string][]string{}
	for ed := range edges {
		next[ed.a] = append(next[ed.a], ed.b)
	}
	var names []string
	for n := range next {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		seen := map[string]bool{}
		var dfs func(x string, path []string) []string
		dfs = func(x string, path []string) []string {
			for _, y := range next[x] {
				if y == n {
					return append(path, y)
				}
				if seen[y] {
					continue
				}
				seen[y] = true
				if r := dfs(y, append(path, y)); r != nil {
					return r
				}
			}
			return nil
		}
		if cyc := dfs(n, []string{n}); cyc != nil {
			m := cyc[0]
			for _, x := range cyc {
				if x < m {
					m = x
				}
			}
			if m != n {
				continue
			}
			var ps []string
			for i := 0; i+1 < len(cyc); i++ {
				ps = append(ps, fmt.Sprintf("%s then %s at %s", cyc[i], cyc[i+1], edges[edge{cyc[i], cyc[i+1]}]))
			}
			c.bad("order", strings.Join(cyc, " -> "), "?", strings.Join(ps, "; "), "locks are taken in opposite orders: two goroutines can block each other for ever")
		}
	}
}

// ---- C13 ----

// extra guard domains: memory without a lock of its own that another struct's
// lock protects.
var guardDomains = []struct {
	pkg, lockType string
	types         []string
}{
	{"vroot/synthfs", "state", []string{"dir", "file", "symlink", "metadata"}},
	{"vroot-adapter/overlayfs", "overlayState", []string{"layerMask"}},
}

func checkGuarded(c *Ck) {
	c.Ladder = []int{3, 1}
	c.Rule("guarded", "a field some operation changes after construction is read and written only while the lock that belongs to it is held, for writing when it is written", 120)
	c.Rule("position", "a stream kept in a field of an object with locks has its position moved only under the lock under which its position is moved elsewhere", 3)
	c.P.fillOwners()
	// fields changed anywhere outside construction
	mutated := map[*types.Var]bool{}
	isAlloc := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.TypeAssert:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.Call:
				return freshResult(x.Call.StaticCallee(), 0)
			default:
				return false
			}
		}
	}
	fieldOf := func(v ssa.Value) *types.Var {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			return deref(x.X.Type()).Underlying().(*types.Struct).Field(x.Field)
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
			}
		case *ssa.Field:
			return x.X.Type().Underlying().(*types.Struct).Field(x.Field)
		}
		return nil
	}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if f := fieldOf(in.Addr); f != nil && !isAlloc(in.Addr) {
						mutated[f] = true
					}
				case *ssa.MapUpdate:
					if f := fieldOf(in.Map); f != nil {
						mutated[f] = true
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						if f := fieldOf(in.Call.Args[0]); f != nil {
							mutated[f] = true
						}
					}
					if fn := in.Call.StaticCallee(); containerMethod(fn) && containerWrites[fn.Name()] {
						if f := fieldOf(in.Call.Args[0]); f != nil {
							mutated[f] = true
						}
					}
				}
			}
		}
	}
	type guard struct {
		own  []string // names of mutex fields of the same struct
		ext  string   // class prefix of an outside lock
		name string
	}
	guards := map[*types.Var]*guard{}
	for _, n := range c.P.structs() {
		s := n.Underlying().(*types.Struct)
		var mus []string
		for i := 0; i < s.NumFields(); i++ {
			if isMutexType(s.Field(i).Type()) {
				mus = append(mus, s.Field(i).Name())
			}
		}
		ext := ""
		for _, d := range guardDomains {
			if pkgRel(n.Obj().Pkg()) != d.pkg {
				continue
			}
			for _, t := range d.types {
				if t == n.Obj().Name() {
					ext = d.pkg + "." + d.lockType + "."
				}
			}
		}
		if len(mus) == 0 && ext == "" {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isMutexType(f.Type()) || isSyncType(f.Type()) || !mutated[f] {
				continue
			}
			guards[f] = &guard{own: mus, ext: ext, name: typeRel(n) + "." + f.Name()}
		}
	}
	seed := func(fn *ssa.Function, in ssa.Instruction) bool {
		if lockSeed(fn, in) {
			return true
		}
		switch in := in.(type) {
		case *ssa.FieldAddr:
			return guards[deref(in.X.Type()).Underlying().(*types.Struct).Field(in.Field)] != nil
		case *ssa.Field:
			return guards[in.X.Type().Underlying().(*types.Struct).Field(in.Field)] != nil
		}
		return false
	}
	// A stream behind a field keeps its position to itself; a lock of the
	// struct that some operation holds while it moves that position is the lock
	// every operation moving it has to hold.
	locked := map[*types.Var]map[string]bool{} // the lock fields seen held
	var moves []func()
	rel := c.P.reachMap(seed)
	for _, fn := range c.P.roots() {
		if !rel[fn] {
			continue
		}
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			lt := &lockTracker{}
			lt.onAcquire = func(e *Eng, st *State, ci *CallInfo, path, class, mode string) { st.T["C:"+path] = class }
			e := lockEng(c, lt, rel)
			inner := e.OnCall
			var check func(e *Eng, fr *Frame, st *State, f *types.Var, base *Val, write bool, in ssa.Instruction)
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				if f, base := listBehind(e, st, ci); f != nil {
					check(e, ci.fr, st, f, base, containerWrites[ci.Name()], ci.Instr)
				}
				if f, base := streamBehind(ci); f != nil && root(base).k != KAlloc {
					held := map[string]bool{}
					bp := base.path()
					for _, m := range ownLocks(f) {
						if h := st.T["L:"+bp+"."+m]; h != "" {
							held[m] = true
							if locked[f] == nil {
								locked[f] = map[string]bool{}
							}
							locked[f][m] = true
						}
					}
					c.Did("position", what+" "+f.Name()+"."+ci.Name())
					fr, in, name := ci.fr, ci.Instr, ci.Name()
					moves = append(moves, func() {
						for m := range locked[f] {
							if !held[m] {
								c.BadAt("position", fnName(fr.fn)+" "+f.Name(), e, fr, in, "%s moves the position of the stream in %s without the lock %s, under which other operations move it", name, f.Name(), m)
							}
						}
					})
				}
				return inner(e, st, ci)
			}
			check = func(e *Eng, fr *Frame, st *State, f *types.Var, base *Val, write bool, in ssa.Instruction) {
				g := guards[f]
				if g == nil {
					return
				}
				bp := ""
				if base != nil {
					if root(base).k == KAlloc || base.k == KZero {
						return
					}
					bp = base.path()
				}
				c.Did("guarded", what+" "+g.name)
				ok := false
				for k, h := range st.T {
					if !strings.HasPrefix(k, "L:") {
						continue
					}
					p := k[2:]
					match := false
					for _, m := range g.own {
						if p == bp+"."+m || bp == "" && st.T["C:"+p] == ownerOf[f]+"."+m {
							match = true
						}
					}
					if g.ext != "" && strings.HasPrefix(st.T["C:"+p], g.ext) {
						match = true
					}
					if match && (!write || strings.Contains(h, "W")) {
						ok = true
					}
				}
				if !ok {
					verb := "reads"
					if write {
						verb = "writes"
					}
					var hl []string
					for _, l := range heldLocks(st) {
						hl = append(hl, l+":"+st.T["L:"+l])
					}
					c.BadAt("guarded", fnName(fr.fn)+" "+g.name, e, fr, in, "%s %s of %s without holding its lock (held: %v)", verb, g.name, bp, hl)
				}
			}
			fieldBase := func(a *Val) (*types.Var, *Val) {
				if a != nil && a.k == KField {
					return a.fld, a.a[0]
				}
				return nil, nil
			}
			e.OnLoad = func(e *Eng, fr *Frame, st *State, addr *Val, in ssa.Instruction) {
				if f, b := fieldBase(addr); f != nil {
					check(e, fr, st, f, b, false, in)
				}
			}
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				if f, b := fieldBase(addr); f != nil {
					check(e, fr, st, f, b, true, in)
				}
			}
			e.OnMap = func(e *Eng, fr *Frame, st *State, m, k *Val, write bool, in ssa.Instruction) {
				switch m.k {
				case KLoad:
					if f, b := fieldBase(m.a[0]); f != nil {
						check(e, fr, st, f, b, write, in)
					}
				case KFieldVal:
					check(e, fr, st, m.fld, m.a[0], write, in)
				}
			}
			return e
		}, fn, nil)
	}
	for _, f := range moves {
		f()
	}
}

// The methods of the standard containers that change them.
var containerWrites = map[string]bool{
	"Init": true, "PushFront": true, "PushBack": true, "PushFrontList": true, "PushBackList": true, "InsertBefore": true,
	"InsertAfter": true, "MoveToFront": true, "MoveToBack": true, "MoveBefore": true, "MoveAfter": true, "Remove": true,
	"Link": true, "Unlink": true,
}

func containerMethod(fn *ssa.Function) bool {
	return fn != nil && fn.Signature.Recv() != nil && fn.Object() != nil && fn.Object().Pkg() != nil && strings.HasPrefix(fn.Object().Pkg().Path(), "container/")
}

// listBehind: a call that reads or changes a standard container kept in a
// field, or steps along one of its elements. The base is nil where the path no
// longer knows whose field it was.
func listBehind(e *Eng, st *State, ci *CallInfo) (*types.Var, *Val) {
	if !containerMethod(ci.Fn) || len(ci.Common.Args) == 0 || ci.fr == nil {
		return nil, nil
	}
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) (*types.Var, *Val)
	field := func(f *ssa.FieldAddr) (*types.Var, *Val) {
		return deref(f.X.Type()).Underlying().(*types.Struct).Field(f.Field), st.env[f.X]
	}
	from = func(v ssa.Value) (*types.Var, *Val) {
		if seen[v] {
			return nil, nil
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				if f, b := from(y); f != nil {
					return f, b
				}
			}
		case *ssa.Call:
			if containerMethod(x.Call.StaticCallee()) {
				return from(x.Call.Args[0])
			}
		case *ssa.FieldAddr:
			return field(x) // a container by value
		case *ssa.UnOp:
			if f, ok := x.X.(*ssa.FieldAddr); ok {
				return field(f)
			}
		case *ssa.Parameter, *ssa.FreeVar:
			a := st.env[v]
			if a != nil && a.k == KLoad {
				a = a.a[0]
			}
			if a != nil && (a.k == KField || a.k == KFieldVal) {
				return a.fld, a.a[0]
			}
		}
		return nil, nil
	}
	return from(ci.Common.Args[0])
}

// streamBehind: a call that moves the position of a stream kept in a field.
func streamBehind(ci *CallInfo) (*types.Var, *Val) {
	switch ci.Name() {
	case "Read", "Seek", "Write":
	case "ReadDir", "Readdir", "Readdirnames":
		if ci.Obj == nil {
			return nil, nil
		}
		if ps := ci.Obj.Signature().Params(); ps.Len() != 1 || !isIntType(ps.At(0).Type()) {
			return nil, nil // lists a name, moves nothing
		}
	default:
		return nil, nil
	}
	v := ci.Recv
	for v != nil && (v.k == KIface || v.k == KLoad) {
		v = v.a[0]
	}
	if v == nil || v.k != KField && v.k != KFieldVal || len(ownLocks(v.fld)) == 0 {
		return nil, nil
	}
	return v.fld, v.a[0]
}

// ownLocks: the locks in the struct f is a field of.
func ownLocks(f *types.Var) []string {
	n := ownerType[f.Origin()]
	if n == nil {
		return nil
	}
	s := n.Underlying().(*types.Struct)
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if isMutexType(s.Field(i).Type()) {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

func isSyncType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// freshResult: every return of fn hands out an object it just allocated.
func freshResult(fn *ssa.Function, d int) bool {
	if fn == nil || fn.Blocks == nil || d > 3 {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || len(r.Results) == 0 {
				continue
			}
			n++
			v := r.Results[0]
			for {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
					continue
				}
				break
			}
			switch v := v.(type) {
			case *ssa.Alloc:
			case *ssa.Call:
				if !freshResult(v.Call.StaticCallee(), d+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return n > 0
}
