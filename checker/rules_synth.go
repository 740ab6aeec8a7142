package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C39"] = checkTree
}

// memTree describes a tree of entries kept in memory: directories that hold
// their entries in a map and, in order, in a list.
type memTree struct {
	p       *Prog
	pkg     string
	dir     *types.Named
	file    *types.Named
	node    *types.Named // what an entry is: an interface
	index   *types.Var   // dir: name -> element of the list
	ordered *types.Var   // dir: the list
	parent  *types.Var   // dir: the directory it is in
	view    *types.Var   // file: its content
	links   *types.Var   // file: how many entries share the content
	meta    *types.Named
	name    *types.Var // meta
	refs    *types.Var // meta: handles that are open
	optOff  *types.Var // the option that forbids removing what is open
	verdict types.Type // what a merge callback answers
	rel     map[*ssa.Function]bool
	writes  map[*ssa.Function]bool // changes a tree
	frees   map[*ssa.Function]int  // recursive functions that let go of a subtree, and the parameter that is its top
}

func ptrTo(t types.Type) types.Type {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// memTrees finds every such tree of the program by its shape.
func (p *Prog) memTrees() []*memTree {
	var out []*memTree
	for _, n := range p.structs() {
		s := n.Underlying().(*types.Struct)
		t := &memTree{p: p, dir: n, pkg: pkgRel(n.Obj().Pkg())}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			ft := f.Type().Underlying()
			if m, ok := ft.(*types.Map); ok && isStringType(m.Key()) && typeIs(m.Elem(), "container/list", "Element") {
				t.index = f
			}
			if typeIs(ft, "container/list", "List") {
				t.ordered = f
			}
			if e := ptrTo(f.Type()); e != nil && types.Identical(e, n) {
				t.parent = f
			}
			if f.Embedded() {
				t.meta = namedOf(f.Type())
			}
		}
		if t.index == nil || t.ordered == nil || t.parent == nil || t.meta == nil {
			continue
		}
		ms, ok := t.meta.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < ms.NumFields(); i++ {
			if f := ms.Field(i); isStringType(f.Type()) {
				t.name = f
			}
		}
		sc := n.Obj().Pkg().Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			switch u := nt.Underlying().(type) {
			case *types.Interface:
				for i := 0; i < u.NumMethods(); i++ {
					r := u.Method(i).Type().(*types.Signature).Results()
					if r.Len() == 1 && ptrTo(r.At(0).Type()) == types.Type(t.meta) {
						t.node = nt
					}
				}
			case *types.Struct:
				emb := false
				for i := 0; i < u.NumFields(); i++ {
					emb = emb || u.Field(i).Embedded() && namedOf(u.Field(i).Type()) == t.meta
				}
				for i := 0; i < u.NumFields(); i++ {
					f := u.Field(i)
					if _, ok := f.Type().Underlying().(*types.Interface); ok && emb && hasMethods(f.Type(), "Close", "Open") {
						t.file, t.view = nt, f
					}
					if e := ptrTo(f.Type()); e != nil && isIntType(e) && emb {
						t.links = f
					}
					if isBool(f.Type()) && strings.Contains(strings.ToLower(f.Name()), "openfileremoval") && !f.Exported() {
						t.optOff = f
					}
				}
			case *types.Signature:
				if u.Results().Len() == 2 && isIntType(u.Results().At(0).Type()) && isErrorType(u.Results().At(1).Type()) && namedOf(u.Results().At(0).Type()) != nil {
					t.verdict = u.Results().At(0).Type()
				}
			}
		}
		if t.node == nil || t.file == nil || t.name == nil {
			continue
		}
		// the number of handles: the int of the metadata that is counted up and down
		for _, fn := range p.Funcs {
			if pkgRelFn(fn) != t.pkg {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == t.meta {
							if bo, ok := st.Val.(*ssa.BinOp); ok && (bo.Op == token.ADD || bo.Op == token.SUB) {
								if f := fieldOf(fa.X.Type(), fa.Field); f.Name() != "size" {
									t.refs = f
								}
							}
						}
					}
				}
			}
		}
		t.find()
		out = append(out, t)
	}
	return out
}

func typeIs(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func pkgRelFn(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return ""
	}
	return pkgRel(fn.Pkg.Pkg)
}

func ssaField(v ssa.Value) *types.Var {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return fieldOf(fa.X.Type(), fa.Field)
	}
	return nil
}

func isListCall(in ssa.Instruction) (string, []ssa.Value) {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return "", nil
	}
	f := c.Common().StaticCallee()
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "container/list" {
		return "", nil
	}
	return f.Name(), c.Common().Args
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func (t *memTree) find() {
	p := t.p
	writes := func(fn *ssa.Function, in ssa.Instruction) bool {
		if pkgRelFn(fn) != t.pkg {
			return false
		}
		switch in := in.(type) {
		case *ssa.MapUpdate:
			return ssaField(in.Map) == t.index
		case *ssa.Store:
			f := ssaField(in.Addr)
			return f != nil && (f == t.index || f == t.ordered || f == t.parent || f == t.links || f == t.refs) || t.counts(in.Addr)
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
				return ssaField(in.Call.Args[0]) == t.index
			}
			if n, as := isListCall(in); n != "" && n != "Front" && n != "Next" && n != "Len" && n != "New" {
				return len(as) > 0
			}
			return in.Call.IsInvoke() && in.Call.Method.Name() == "Close" && ssaField(in.Call.Value) == t.view
		}
		return false
	}
	t.writes = p.reachMap(writes)
	t.rel = map[*ssa.Function]bool{}
	for fn := range t.writes {
		if pkgRelFn(fn) == t.pkg {
			t.rel[fn] = true
		}
	}
	// readers of one entry, and walks up the tree
	for _, fn := range p.Funcs {
		if pkgRelFn(fn) != t.pkg {
			continue
		}
		returnsNode := fn.Signature.Results().Len() > 0 && (types.Identical(fn.Signature.Results().At(0).Type(), t.node) || ptrTo(fn.Signature.Results().At(0).Type()) == types.Type(t.dir))
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if l, ok := in.(*ssa.Lookup); ok && ssaField(l.X) == t.index && !hasLoop(fn) {
					t.rel[fn] = true
				}
				if u, ok := in.(*ssa.UnOp); ok && t.parent == ssaField(u) && u.Op == token.MUL && !returnsNode && !splitsNames(fn) {
					t.rel[fn] = true
				}
			}
		}
	}
	// what only wraps these
	for again := true; again; {
		again = false
		for _, fn := range p.Funcs {
			if t.rel[fn] || pkgRelFn(fn) != t.pkg || hasLoop(fn) || !p.small(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := c.Common().StaticCallee(); f != nil && t.rel[f] {
							t.rel[fn] = true
							again = true
						}
					}
				}
			}
		}
	}
	// recursive functions that let go of what they are given
	t.frees = map[*ssa.Function]int{}
	for fn := range t.writes {
		if pkgRelFn(fn) != t.pkg || !p.reaches(fn, fn) {
			continue
		}
		closes := false
		for _, g := range append([]*ssa.Function{fn}, p.cycleMembers(fn)...) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if f := c.Call.StaticCallee(); f != nil && t.closesView(f, 0) {
							closes = true
						}
						if c.Call.IsInvoke() && c.Call.Method.Name() == "Close" && ssaField(c.Call.Value) == t.view {
							closes = true
						}
					}
				}
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if mu, ok := in.(*ssa.MapUpdate); ok && ssaField(mu.Map) == t.index {
						closes = false
					}
				}
			}
		}
		if !closes || t.adds(fn) {
			continue
		}
		for i, q := range fn.Params {
			if types.Identical(q.Type(), t.node) || ptrTo(q.Type()) == types.Type(t.dir) {
				t.frees[fn] = i
			}
		}
	}
}

// adds: puts entries into a directory.
func (t *memTree) adds(fn *ssa.Function) bool {
	for g := range t.p.recursiveBelow(fn) {
		_ = g
	}
	m := t.p.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && ssaField(mu.Map) == t.index
	})
	return m[fn]
}

func (t *memTree) closesView(fn *ssa.Function, d int) bool {
	if fn.Blocks == nil || pkgRelFn(fn) != t.pkg || d > 3 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if c.Call.IsInvoke() && c.Call.Method.Name() == "Close" && ssaField(c.Call.Value) == t.view {
					return true
				}
				if f := c.Call.StaticCallee(); f != nil && t.closesView(f, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// splitsNames: walks a path down, which takes a name apart.
func splitsNames(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "strings" {
					return true
				}
			}
		}
	}
	return false
}

// counts: the address is a number of links.
func (t *memTree) counts(addr ssa.Value) bool {
	u, ok := addr.(*ssa.UnOp)
	return ok && t.links != nil && ssaField(u) == t.links
}

// field reports the base of an address of the given field.
func fieldBase(a *Val, f *types.Var) *Val {
	if a != nil && a.k == KField && a.fld == f && f != nil {
		return a.a[0]
	}
	return nil
}

func loadOf(v *Val, f *types.Var) *Val {
	if v = v.strip(); v != nil && v.k == KLoad {
		return fieldBase(v.a[0], f)
	}
	return nil
}

// owner is the node whose metadata an address lies in.
func (t *memTree) owner(a *Val) *Val {
	for a != nil && a.k == KField && (a.fld.Embedded() || namedOf(a.typ) == t.meta) {
		a = a.a[0]
	}
	if isPure(a, "meta") {
		a = a.a[0]
	}
	return a.strip()
}

type treeRun struct {
	c    *Ck
	t    *memTree
	what string
	fn   *ssa.Function
	vals map[string]*Val
}

func (r *treeRun) id(v *Val) string {
	s := fmt.Sprint(v.id)
	r.vals[s] = v
	return s
}

func (r *treeRun) each(st *State, prefix string, f func(rest, v string)) {
	var ks []string
	for k := range st.T {
		if strings.HasPrefix(k, prefix) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		f(k[len(prefix):], st.T[k])
	}
}

// holder: the directory and name a node was found under.
func (r *treeRun) holder(st *State, n *Val) (d, k *Val) {
	n = n.strip()
	if n.k != KLoad || n.a[0].k != KField || n.a[0].fld.Name() != "Value" {
		return nil, nil
	}
	el := n.a[0].a[0]
	if el.k != KLoad || el.a[0].k != KMapElem {
		return nil, nil
	}
	return r.dirOf(st, el.a[0].a[0]), el.a[0].a[1]
}

func (r *treeRun) dirOf(st *State, m *Val) *Val {
	d := r.at(st, m, r.t.index)
	if d == nil {
		return nil
	}
	return d.strip()
}

// at: the object whose field holds the value.
func (r *treeRun) at(st *State, v *Val, f *types.Var) *Val {
	if d := loadOf(v, f); d != nil {
		return d
	}
	var best *Val
	for k, x := range st.heap {
		if k.k == KField && k.fld == f && x == v && (best == nil || k.id < best.id) {
			best = k
		}
	}
	if best == nil {
		return nil
	}
	return best.a[0]
}

// known reports what the path found out about a node's kind.
func (r *treeRun) known(st *State, n *Val, kind *types.Named) string {
	n = n.strip()
	if n.k == KAlloc {
		return fmt.Sprint(namedOf(deref(n.typ)) == kind || namedOf(n.typ) == kind)
	}
	if s := st.T["is:"+r.id(n)+":"+kind.Obj().Name()]; s != "" {
		return s
	}
	for _, k := range []*types.Named{r.t.dir, r.t.file} {
		if k != kind && st.T["is:"+r.id(n)+":"+k.Obj().Name()] == "true" {
			return "false"
		}
	}
	if st.T["nil:"+r.id(n)] == "true" {
		return "false"
	}
	return ""
}

func (r *treeRun) ne(st *State, a, b *Val) bool {
	if a == nil || b == nil {
		return false
	}
	x, y := r.id(a.strip()), r.id(b.strip())
	return st.T["ne:"+x+"|"+y] != "" || st.T["ne:"+y+"|"+x] != ""
}

// freed: everything the node holds was let go of on the path.
func (r *treeRun) freed(e *Eng, st *State, n *Val) (bool, string) {
	n = n.strip()
	id := r.id(n)
	if st.T["freed:"+id] != "" {
		return st.T["freed:"+id] == "1", "it is let go of more than once"
	}
	switch {
	case st.T["nil:"+id] == "true":
		return true, ""
	case r.known(st, n, r.t.dir) == "true":
		if st.T["empty:"+id] != "" {
			return true, ""
		}
		return false, "a directory that may hold entries is dropped and what they hold stays open"
	case r.known(st, n, r.t.file) == "true":
		return r.viewFreed(e, st, id)
	case r.known(st, n, r.t.file) == "false":
		if r.known(st, n, r.t.dir) == "false" || st.T["empty:"+id] != "" {
			return true, ""
		}
		return false, "it may be a directory that holds entries, and what they hold stays open"
	}
	return false, "it may be a file, and its view is not let go of"
}

func (r *treeRun) viewFreed(e *Eng, st *State, id string) (bool, string) {
	cl, dec := st.T["close:"+id], st.T["dec:"+id]
	switch {
	case cl == "" && dec == "":
		return false, "its view is not let go of"
	case len(cl) > 1 || len(dec) > 1:
		return false, "its view is let go of more than once"
	case cl == "": // others share the view
		if st.T["more:"+id] != "true" {
			return false, "its view is not closed although no other entry may share it"
		}
	default:
		if st.T["lone:"+id] == "" && !(dec != "" && st.T["more:"+id] == "false") {
			return false, "its view is closed although another entry may share it"
		}
	}
	return true, ""
}

func (r *treeRun) engine() *Eng {
	c, t := r.c, r.t
	r.vals = map[string]*Val{}
	e := newEng(c.P)
	e.Relevant = t.rel
	bad := func(rule string, fr *Frame, e *Eng, in ssa.Instruction, f string, as ...any) {
		if fr == nil {
			c.BadAt(rule, r.what, e, nil, in, f, as...)
			return
		}
		c.BadAt(rule, r.what, e, fr, in, f, as...)
	}
	e.NoInline = func(ci *CallInfo) bool {
		return ci.Fn == nil || !t.rel[ci.Fn] && hasLoop(ci.Fn)
	}
	kindOf := func(T types.Type) *types.Named {
		for _, k := range []*types.Named{t.dir, t.file} {
			if e := ptrTo(T); e != nil && namedOf(e) == k {
				return k
			}
		}
		return nil
	}
	e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
		res := func(v *Val) ([]CallOut, bool) { return []CallOut{{st, v}}, true }
		if ci.Builtin != "" {
			return nil, false
		}
		// the list of a directory
		if ci.PkgPath() == "container/list" && ci.Fn != nil {
			list := ci.Recv
			args := ci.Args
			if list == nil && len(args) > 0 {
				list, args = args[0], args[1:]
			}
			d := r.at(st, list, t.ordered)
			switch ci.Name() {
			case "New":
				return res(e.resultTerm(ci.fr, ci))
			case "Len":
				return res(e.u.mk(Val{k: KPure, s: "listlen", a: []*Val{list}, n: e.epoch(st, list), typ: types.Typ[types.Int]}))
			case "Front", "Next", "Back", "Prev":
				return res(e.resultTerm(ci.fr, ci))
			case "PushBack":
				el := e.resultTerm(ci.fr, ci)
				st.T["push:"+r.id(el)] = r.id(list)
				st.T["val:"+r.id(el)] = r.id(args[0].strip())
				return res(el)
			case "Remove":
				el := r.id(args[0])
				if st.T["del:"+el] != "" {
					if d == nil || st.T["del:"+el] != r.id(d.strip()) {
						bad("paired", ci.fr, e, ci.Instr, "an entry leaves the list of another directory than the one whose map it left")
					}
					delete(st.T, "del:"+el)
				} else if d != nil {
					st.T["rem:"+el] = r.id(d.strip())
				}
				e.bump(st, list, e.u.site(ci.fr.ctx, ci.Instr).id)
				return res(e.resultTerm(ci.fr, ci))
			case "Init":
				if d != nil {
					st.T["init:"+r.id(d.strip())] = "1"
					c.Did("paired", r.what+": empties a directory")
				}
				e.bump(st, list, e.u.site(ci.fr.ctx, ci.Instr).id)
				return res(list)
			}
			bad("paired", ci.fr, e, ci.Instr, "the list of a directory is changed in a way that is not understood (%s)", ci.Name())
			return res(e.resultTerm(ci.fr, ci))
		}
		// the metadata of an entry
		if ci.IsInvoke() {
			if rt := ci.Common.Signature().Results(); rt.Len() == 1 && ptrTo(rt.At(0).Type()) == types.Type(t.meta) && ci.Recv != nil && ci.Fn == nil {
				return res(e.u.mk(Val{k: KPure, s: "meta", a: []*Val{ci.Recv.strip()}, typ: rt.At(0).Type()}))
			}
			if ci.Name() == "Close" {
				if f := loadOf(ci.Recv, t.view); f != nil {
					id := r.id(f.strip())
					st.T["close:"+id] += "1"
					c.Did("view", r.what+": closes a view")
				}
			}
		}
		if ci.Fn != nil && pkgRelFn(ci.Fn) == t.pkg && ci.Fn.Blocks != nil {
			g := ci.Fn
			if i, ok := t.frees[g]; ok && g != r.fn || ok && ci.fr.ctx.has(g) {
				args := ci.Args
				if ci.Recv != nil {
					args = append([]*Val{ci.Recv}, args...)
				}
				id := r.id(args[i].strip())
				st.T["freed:"+id] += "1"
				if len(st.T["freed:"+id]) > 1 {
					st.T["freed:"+id] = "11"
				}
				c.Did("view", r.what+": lets go of a subtree")
				return res(e.resultTerm(ci.fr, ci))
			}
			if ci.fr.ctx.has(g) || t.p.reaches(g, g) && t.writes[g] && g != r.fn {
				return res(e.resultTerm(ci.fr, ci)) // decided as an entry of its own
			}
			if t.rel[g] || !hasLoop(g) && t.p.small(g) && !t.finds(g) {
				return nil, false
			}
			return res(e.resultTerm(ci.fr, ci))
		}
		if ci.FnVal != nil && ci.Fn == nil {
			if rt := ci.Common.Signature().Results(); rt.Len() == 2 && t.verdict != nil && types.Identical(rt.At(0).Type(), t.verdict) {
				v := e.resultTerm(ci.fr, ci)
				st.T["verdict"] = r.id(v.a[0])
				st.T["verdicterr"] = r.id(v.a[1])
				c.Did("verdict", r.what)
				return res(v)
			}
		}
		if ci.Closure != nil || ci.Fn != nil && ci.Fn.Parent() != nil {
			return nil, false
		}
		if ci.Fn != nil && inRepoFn(ci.Fn) && t.p.small(ci.Fn) {
			return nil, false
		}
		if isSyncOp(ci) {
			return res(e.resultTerm(ci.fr, ci))
		}
		if _, ok := pureCall(ci); ok {
			return nil, false
		}
		if ci.PkgPath() == "errors" {
			return nil, false
		}
		return res(e.resultTerm(ci.fr, ci)) // nothing outside can reach the tree while it is locked
	}
	e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
		if m := emptied(in); m != nil && !truth {
			if d := r.dirOf(st, e.eval(fr, st, m)); d != nil {
				st.T["drain:"+r.id(d)] = "1"
			}
		}
		cond, truth = condPeel(cond, truth)
		if isPure(cond, "okassert") {
			if k := kindOf(cond.a[1].typ); k != nil {
				st.T["is:"+r.id(cond.a[0].strip())+":"+k.Obj().Name()] = fmt.Sprint(truth)
			}
			return
		}
		if cond.k == KBin && cond.s == "==" && isPure(cond.a[0], "okassert") && isPure(cond.a[1], "okassert") {
			for i := 0; i < 2; i++ {
				x, y := cond.a[i], cond.a[1-i]
				kx, ky := kindOf(x.a[1].typ), kindOf(y.a[1].typ)
				if kx == nil || ky == nil {
					continue
				}
				if w := r.known(st, x.a[0], kx); w != "" && r.known(st, y.a[0], ky) == "" {
					st.T["is:"+r.id(y.a[0].strip())+":"+ky.Obj().Name()] = fmt.Sprint((w == "true") == truth)
				}
			}
		}
		if isPure(cond, "has") && !truth {
			if d := r.dirOf(st, cond.a[0]); d != nil {
				st.T["free:"+r.id(d)+"|"+r.id(cond.a[1])] = "1"
			}
			return
		}
		if v := cond.strip(); v.k == KLoad && v.a[0].k == KField && isBool(v.a[0].fld.Type()) {
			if n, ok := isParam(v.a[0].a[0]); ok && n == 0 {
				st.T["closed"] = fmt.Sprint(truth)
			}
		}
		if f := loadOf(cond, t.optOff); f != nil && !truth {
			st.T["optoff"] = "1"
		}
		if v := cond.strip(); v != nil && (v.k == KFieldVal && v.fld == t.optOff && t.optOff != nil) && !truth {
			st.T["optoff"] = "1"
		}
		if cond.k == KBin && cond.s == "==" {
			x, y := cond.a[0].strip(), cond.a[1].strip()
			if x.isNilConst() {
				x, y = y, x
			}
			if y.isNilConst() {
				st.T["nil:"+r.id(x)] = fmt.Sprint(truth)
				if f := loadOf(x, t.links); f != nil && truth {
					st.T["lone:"+r.id(f.strip())] = "1"
				}
				if truth { // a walk up the tree that came to its end
					r.each(st, "chain:", func(k, v string) {
						p := strings.Split(v, " ") // start cur cmp
						if len(p) == 3 && p[1] == r.id(x) {
							for _, x := range strings.Split(p[2], ",") {
								st.T["under:"+p[0]+"|"+x] = "no"
							}
						}
					})
				}
				if id := st.T["verdicterr"]; id == r.id(x) && truth {
					st.T["verdictok"] = "1"
				}
			} else {
				if !truth {
					st.T["ne:"+r.id(x)+"|"+r.id(y)] = "1"
				}
				for i := 0; i < 2; i++ {
					if st.T["verdict"] == r.id(x) {
						if n, ok := y.constInt(); ok {
							st.T[fmt.Sprintf("v=%d", n)] = fmt.Sprint(truth)
						}
					}
					x, y = y, x
				}
			}
		}
		if cond.k == KBin && (cond.s == "<" || cond.s == "==" || cond.s == "<=") {
			// x > 0 for the numbers that count
			for id, x := range map[string]*Val{"a": cond.a[0], "b": cond.a[1]} {
				o := cond.a[1]
				if id == "b" {
					o = cond.a[0]
				}
				n, ok := o.constInt()
				if !ok {
					continue
				}
				pos := "" // what the branch says of x > 0, for x >= 0
				switch {
				case cond.s == "==" && n == 0:
					pos = fmt.Sprint(!truth)
				case id == "b" && (cond.s == "<" && n == 0 || cond.s == "<=" && n == 1): // n < x
					pos = fmt.Sprint(truth)
				case id == "a" && (cond.s == "<" && n == 1 || cond.s == "<=" && n == 0): // x < n
					pos = fmt.Sprint(!truth)
				}
				if pos == "" {
					continue
				}
				x = unconv(x)
				if isPure(x, "listlen", "len") {
					f := t.ordered
					if x.s == "len" {
						f = t.index
					}
					if d := r.at(st, x.a[0], f); d != nil && pos == "false" {
						st.T["empty:"+r.id(d.strip())] = "1"
					}
				}
				r.each(st, "cnt:", func(k, v string) {
					if v == r.id(x) {
						st.T["more:"+k] = pos
					}
				})
				if x.k == KLoad && t.refs != nil && x.a[0].k == KField && x.a[0].fld == t.refs && pos == "false" {
					st.T["unused:"+r.id(t.owner(x.a[0].a[0]))] = "1"
				}
			}
		}
	}
	// walks from a directory to the root
	e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if ptrTo(ph.Type()) != types.Type(t.dir) {
				continue
			}
			key := "chain:" + fmt.Sprint(e.u.site(fr.ctx, ph).id)
			nv := e.eval(fr, st, ph.Edges[pi]).strip()
			if !to.Dominates(from) {
				st.T[key] = r.id(nv) + " " + r.id(nv)
				continue
			}
			old := st.env[ph]
			p := strings.Split(st.T[key], " ")
			if old == nil || len(p) < 2 {
				continue
			}
			var cmp []string
			r.each(st, "ne:", func(k, _ string) {
				q := strings.Split(k, "|")
				for i := 0; i < 2; i++ {
					if q[i] == r.id(old.strip()) && (len(p) < 3 || strings.Contains(","+p[2]+",", ","+q[1-i]+",")) {
						cmp = append(cmp, q[1-i])
					}
				}
			})
			sort.Strings(cmp)
			if b := loadOf(nv, t.parent); b == nil || b.strip() != old.strip() || len(cmp) == 0 {
				delete(st.T, key)
				continue
			}
			st.T[key] = p[0] + " " + r.id(nv) + " " + strings.Join(cmp, ",")
		}
	}
	e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
		// after a join the walk stands on what its variable now is
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			key := "chain:" + fmt.Sprint(e.u.site(fr.ctx, ph).id)
			if p := strings.Split(st.T[key], " "); len(p) >= 2 && st.env[ph] != nil {
				p[1] = r.id(st.env[ph].strip())
				st.T[key] = strings.Join(p, " ")
			}
		}
	}
	out := func(e *Eng, fr *Frame, st *State, d, n *Val, in ssa.Instruction) {
		id := r.id(n)
		if st.T["in:"+id] == "" {
			st.T["out:"+id] = r.id(d)
		}
		st.T["gone:"+id] = "1"
		c.Did("released", r.what)
		if st.T["verdict"] != "" {
			if st.T["verdictok"] == "" {
				bad("verdict", fr, e, in, "an entry is taken out although the callback may have failed")
			}
			if st.T["v=0"] == "true" || st.T["v=0"] == "" && st.T["v=2"] != "true" {
				bad("verdict", fr, e, in, "an entry is taken out although the callback said to skip the new one")
			}
			if st.T["v=1"] == "true" || st.T["v=1"] == "" && st.T["v=2"] != "true" {
				bad("verdict", fr, e, in, "an entry is taken out although the callback said to keep it")
			}
		}
	}
	e.OnMap = func(e *Eng, fr *Frame, st *State, m, k *Val, write bool, in ssa.Instruction) {
		d := r.dirOf(st, m)
		if d == nil || !write {
			return
		}
		a := e.u.mk(Val{k: KMapElem, a: []*Val{m, k}})
		slot := r.id(d) + "|" + r.id(k)
		mu, isPut := in.(*ssa.MapUpdate)
		if !isPut { // delete
			if st.T["free:"+slot] != "" {
				return
			}
			if rangedKey(in) {
				return
			}
			c.Did("paired", r.what+": takes an entry out")
			el := st.heap[a]
			if el == nil {
				el = e.u.mk(Val{k: KLoad, a: []*Val{a}, n: e.epoch(st, m), typ: t.index.Type().Underlying().(*types.Map).Elem()})
			}
			eid := r.id(el)
			if st.T["rem:"+eid] != "" {
				if st.T["rem:"+eid] != r.id(d) {
					bad("paired", fr, e, in, "an entry leaves the map of another directory than the one whose list it left")
				}
				delete(st.T, "rem:"+eid)
			} else {
				st.T["del:"+eid] = r.id(d)
			}
			st.T["free:"+slot] = "1"
			n := r.nodeOf(e, st, el)
			out(e, fr, st, d, n, in)
			return
		}
		val := e.eval(fr, st, mu.Value)
		c.Did("paired", r.what+": puts an entry in")
		vid := r.id(val)
		if l := st.T["push:"+vid]; l == "" {
			bad("paired", fr, e, in, "an entry is put into the map of a directory that was not put into its list")
		} else {
			if ld := r.at(st, r.vals[l], t.ordered); ld == nil || ld.strip() != d {
				bad("paired", fr, e, in, "an entry is put into the map of one directory and the list of another")
			}
			delete(st.T, "push:"+vid)
		}
		if st.T["free:"+slot] == "" {
			bad("replaced", fr, e, in, "an entry is put under a name that may be taken: what was there stays in the list and is not let go of")
		}
		c.Did("replaced", r.what)
		r.each(st, "free:", func(k, _ string) { delete(st.T, "free:"+k) })
		n := r.vals[st.T["val:"+vid]]
		if n == nil {
			bad("named", fr, e, in, "what is put into the directory is not known")
			return
		}
		id := r.id(n)
		if st.T["out:"+id] != "" {
			delete(st.T, "out:"+id)
		}
		st.T["in:"+id] = slot
		// name
		c.Did("named", r.what)
		fresh := n.k == KAlloc
		var nm *Val
		if x := st.T["name:"+id]; x != "" {
			nm = r.vals[x]
		}
		if mf := r.metaField(n); fresh && mf != nil {
			fa := e.u.mk(Val{k: KField, a: []*Val{n}, fld: mf, typ: types.NewPointer(t.meta)})
			nm = e.load(st, e.u.mk(Val{k: KField, a: []*Val{fa}, fld: t.name, typ: types.NewPointer(t.name.Type())}), t.name.Type())
		}
		if nm != k {
			bad("named", fr, e, in, "an entry is put under %s but calls itself %s", k, nm)
		}
		// parent
		if kd := r.known(st, n, t.dir); kd != "false" {
			if st.T["parent:"+id] != r.id(d) {
				bad("parent", fr, e, in, "a directory is put into another without its parent being set to it")
			}
			c.Did("parent", r.what)
			if !fresh {
				c.Did("acyclic", r.what)
				if st.T["under:"+r.id(d)+"|"+id] == "" && st.T["nil:"+r.id(d)] != "true" {
					bad("acyclic", fr, e, in, "a directory may be moved beneath itself: the way from where it goes up to the root is not known to be free of it")
				}
			}
		}
		if st.T["verdict"] != "" {
			if st.T["verdictok"] == "" {
				bad("verdict", fr, e, in, "an entry is added although the callback may have failed")
			}
			if st.T["v=0"] == "true" || st.T["v=0"] == "" && st.T["v=2"] != "true" {
				bad("verdict", fr, e, in, "an entry is added although the callback said to skip it")
			}
			if (st.T["v=1"] == "true" || st.T["v=1"] == "" && st.T["v=2"] != "true") && !(fresh && r.known(st, n, t.dir) == "true") {
				bad("verdict", fr, e, in, "an entry is added although the callback said to keep what is there")
			}
		}
		// a view two entries share is counted
		if fresh && r.known(st, n, t.file) == "true" {
			vw := st.heap[e.u.mk(Val{k: KField, a: []*Val{n}, fld: t.view, typ: types.NewPointer(t.view.Type())})]
			if vw != nil {
				if g := loadOf(vw, t.view); g != nil {
					c.Did("links", r.what)
					gid := r.id(g.strip())
					ln := st.heap[e.u.mk(Val{k: KField, a: []*Val{n}, fld: t.links, typ: types.NewPointer(t.links.Type())})]
					switch {
					case st.T["inc:"+gid] != "1":
						bad("links", fr, e, in, "an entry that shares the view of another is not counted once")
					case ln == nil || r.id(ln) != st.T["ctr:"+gid]:
						bad("links", fr, e, in, "an entry that shares the view of another does not share its count of links")
					default:
						st.T["inc:"+gid] = "ok"
					}
				}
			}
		}
	}
	e.Decide = func(e *Eng, st *State, cond *Val) int8 {
		if isPure(cond, "okassert") {
			if k := kindOf(cond.a[1].typ); k != nil {
				switch r.known(st, cond.a[0], k) {
				case "true":
					return FTrue
				case "false":
					return FFalse
				}
			}
		}
		if cond.k == KBin && cond.s == "==" {
			for i := 0; i < 2; i++ { // what a directory holds is never nil
				if x := cond.a[i].strip(); cond.a[1-i].isNilConst() && x.k == KLoad && x.a[0].k == KField && x.a[0].fld.Name() == "Value" && x.a[0].fld.Pkg().Path() == "container/list" {
					return FFalse
				}
			}
		}
		if isPure(cond, "has") {
			if d := r.dirOf(st, cond.a[0]); d != nil && st.T["free:"+r.id(d)+"|"+r.id(cond.a[1])] != "" {
				return FFalse
			}
		}
		return 0
	}
	e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
		if ci.Builtin == "clear" {
			if d := r.dirOf(st, ci.Args[0]); d != nil {
				st.T["drain:"+r.id(d)] = "1"
			}
		}
	}
	e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
		if addr.k == KField {
			switch addr.fld {
			default:
				if n, ok := isParam(addr.a[0]); ok && n == 0 && isBool(addr.fld.Type()) && v.isConst() && v.cv.Kind() == constant.Bool && constant.BoolVal(v.cv) {
					st.T["shut"] = "1"
				}
			case t.name:
				st.T["name:"+r.id(t.owner(addr.a[0]))] = r.id(v)
			case t.parent:
				st.T["parent:"+r.id(addr.a[0].strip())] = r.id(v.strip())
			case t.index, t.ordered:
				b := addr.a[0].strip()
				if b.k != KAlloc {
					if addr.fld == t.index {
						st.T["drain:"+r.id(b)] = "1"
					} else {
						st.T["init:"+r.id(b)] = "1"
					}
					if !isFreshEmpty(v) {
						bad("paired", fr, e, in, "the entries of a directory are replaced by %s", v)
					}
				}
			case t.refs:
				if t.refs == nil {
					break
				}
				b := t.owner(addr.a[0])
				if b.k == KAlloc {
					break
				}
				cur := e.load(st, addr, t.refs.Type())
				d := formSub(linForm(v), linForm(cur), 1)
				switch {
				case len(d) == 1 && d[nil] == 1:
					st.T["ref:"+r.id(b)] = plus(st.T["ref:"+r.id(b)], 1)
				case len(d) == 1 && d[nil] == -1:
					st.T["ref:"+r.id(b)] = plus(st.T["ref:"+r.id(b)], -1)
				default:
					bad("handles", fr, e, in, "the number of open handles is set to %s", v)
				}
			case t.links:
				b := addr.a[0].strip()
				if b.k != KAlloc && v.k != KLoad {
					st.T["ctr:"+r.id(b)] = r.id(v)
					n, ok := e.load(st, v, types.Typ[types.Int]).constInt()
					if st.T["lone:"+r.id(b)] == "" || v.k != KAlloc || !ok || n != 1 {
						bad("links", fr, e, in, "the count of links of a file is replaced although other entries may share its view, or does not start from the one that is there")
					}
				}
			}
			return
		}
		// a number of links
		f := loadOf(addr, t.links)
		if f == nil && addr.k == KAlloc {
			r.each(st, "ctr:", func(k, v string) {
				if v == r.id(addr) {
					f = r.vals[k]
				}
			})
		}
		if f == nil {
			return
		}
		id := r.id(f.strip())
		cur := e.load(st, addr, types.Typ[types.Int])
		d := formSub(linForm(v), linForm(cur), 1)
		switch {
		case len(d) == 1 && d[nil] == 1:
			st.T["inc:"+id] += "1"
			st.T["ctr:"+id] = r.id(addr)
		case len(d) == 1 && d[nil] == -1:
			st.T["dec:"+id] += "1"
			st.T["cnt:"+id] = r.id(v)
		default:
			bad("links", fr, e, in, "the number of links of a view is set to %s", v)
		}
	}
	return e
}

func isFreshEmpty(v *Val) bool {
	v = v.strip()
	return v.k == KAlloc || v.k == KRes && v.a[0].k == KCall && strings.HasSuffix(v.a[0].s, "list.New")
}

func plus(s string, n int) string {
	k := 0
	fmt.Sscan(s, &k)
	if k += n; k == 0 {
		return "0"
	}
	return fmt.Sprint(k)
}

// nodeOf is the entry an element of a list holds.
func (r *treeRun) nodeOf(e *Eng, st *State, el *Val) *Val {
	if x := st.T["val:"+r.id(el)]; x != "" {
		return r.vals[x]
	}
	var vf *types.Var
	if n := namedOf(el.typ); n != nil {
		if s, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "Value" {
					vf = s.Field(i)
				}
			}
		}
	}
	if vf == nil {
		return el
	}
	a := e.u.mk(Val{k: KField, a: []*Val{el}, fld: vf, typ: types.NewPointer(vf.Type())})
	return e.load(st, a, vf.Type()).strip()
}

// emptied: the branch ends a loop over a map that deletes every key.
func emptied(in ssa.Instruction) ssa.Value {
	iff, ok := in.(*ssa.If)
	if !ok {
		return nil
	}
	x, ok := iff.Cond.(*ssa.Extract)
	if !ok {
		return nil
	}
	nx, ok := x.Tuple.(*ssa.Next)
	if !ok {
		return nil
	}
	rg, ok := nx.Iter.(*ssa.Range)
	if !ok {
		return nil
	}
	h := in.Block()
	for b := range loopBody(h) {
		for _, i := range b.Instrs {
			if !rangedKey(i) {
				continue
			}
			all := true
			for _, p := range h.Preds {
				if h.Dominates(p) && !b.Dominates(p) {
					all = false
				}
			}
			if all {
				return rg
			}
		}
	}
	return nil
}

// rangedKey: the delete of the key a range over the same map gave.
func rangedKey(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	x, ok := c.Call.Args[1].(*ssa.Extract)
	if !ok {
		return false
	}
	nx, ok := x.Tuple.(*ssa.Next)
	if !ok {
		return false
	}
	rg, ok := nx.Iter.(*ssa.Range)
	return ok && ssaField(rg.X) != nil && ssaField(rg.X) == ssaField(c.Call.Args[0]) && sameBase(rg.X, c.Call.Args[0])
}

func sameBase(a, b ssa.Value) bool {
	base := func(v ssa.Value) ssa.Value {
		if u, ok := v.(*ssa.UnOp); ok {
			v = u.X
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			return fa.X
		}
		return v
	}
	return base(a) == base(b)
}

// visitsAll finds the loop of a function that hands every entry of a directory
// to a function that lets go of it.
func (t *memTree) visitsAll(fn *ssa.Function) (head *ssa.BasicBlock, why string) {
	why = "no loop hands every entry of a directory on"
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil {
				continue
			}
			i, ok := t.frees[g]
			if !ok {
				continue
			}
			h := loopHead(b)
			if h == nil {
				continue
			}
			body := loopBody(h)
			ok = true
			for x := range body {
				for _, s := range x.Succs {
					if !body[s] && x != h {
						ok, why = false, "the loop may end before every entry was handed on"
					}
					if s == h && !b.Dominates(x) {
						ok, why = false, "an entry may be passed over"
					}
				}
			}
			if !ok {
				continue
			}
			if w := t.wholeListing(c.Call.Args[i], map[ssa.Value]bool{}); w != "" {
				why = w
				continue
			}
			return h, ""
		}
	}
	return nil, why
}

func loopHead(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for h := b; h != nil; h = h.Idom() {
		for _, p := range h.Preds {
			if h.Dominates(p) && loopBody(h)[b] {
				if best == nil {
					best = h
				}
			}
		}
	}
	return best
}

// wholeListing: the value is an element of everything a directory holds.
func (t *memTree) wholeListing(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.TypeAssert:
		return t.wholeListing(v.X, seen)
	case *ssa.ChangeInterface:
		return t.wholeListing(v.X, seen)
	case *ssa.MakeInterface:
		return t.wholeListing(v.X, seen)
	case *ssa.UnOp:
		return t.wholeListing(v.X, seen)
	case *ssa.FieldAddr:
		if f := fieldOf(v.X.Type(), v.Field); f == t.index || f == t.ordered {
			return ""
		}
		return t.wholeListing(v.X, seen)
	case *ssa.IndexAddr:
		if ph, ok := stripAdd(v.Index).(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if k, ok := e.(*ssa.Const); ok && k.Value != nil {
					if n, _ := constant.Int64Val(k.Value); n > 0 {
						return "the first entries are passed over"
					}
				}
			}
		}
		return t.wholeListing(v.X, seen)
	case *ssa.Extract:
		return t.wholeListing(v.Tuple, seen)
	case *ssa.Next:
		return t.wholeListing(v.Iter, seen)
	case *ssa.Range:
		return t.wholeListing(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if w := t.wholeListing(e, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Slice:
		if v.Low != nil || v.High != nil {
			return "only part of the entries is handed on"
		}
		return t.wholeListing(v.X, seen)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil {
			break
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "container/list" {
			switch f.Name() {
			case "Front", "Next", "Back", "Prev":
				return ""
			}
		}
		if pkgRelFn(f) == t.pkg && t.lists(f) {
			return ""
		}
	}
	return "what is handed on is not every entry of a directory"
}

// finds: returns a place in the tree.
func (t *memTree) finds(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		T := rs.At(i).Type()
		if types.Identical(T, t.node) || ptrTo(T) == types.Type(t.dir) {
			return true
		}
		if s, ok := T.Underlying().(*types.Struct); ok {
			for j := 0; j < s.NumFields(); j++ {
				if types.Identical(s.Field(j).Type(), t.node) || ptrTo(s.Field(j).Type()) == types.Type(t.dir) {
					return true
				}
			}
		}
	}
	return false
}

func stripAdd(v ssa.Value) ssa.Value {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return b.X
	}
	return v
}

// lists: the function returns a slice with every entry of a directory.
func (t *memTree) lists(fn *ssa.Function) bool {
	if fn.Blocks == nil || fn.Signature.Results().Len() != 1 {
		return false
	}
	s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok || !types.Identical(s.Elem(), t.node) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if n, as := isListCall(in); (n == "Front" || n == "Back") && len(as) == 1 && ssaField(as[0]) == t.ordered {
				return t.listsAll(fn) == ""
			}
		}
	}
	return false
}

// listsAll: from one end of the list to the other, every value is appended.
func (t *memTree) listsAll(fn *ssa.Function) string {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok || !typeIs(ph.Type(), "container/list", "Element") {
				continue
			}
			body := loopBody(b)
			if len(body) < 2 {
				continue
			}
			first, step := "", ""
			for _, e := range ph.Edges {
				c, ok := e.(*ssa.Call)
				if !ok {
					return "the list is walked from an unknown place"
				}
				n, as := isListCall(c)
				if as == nil {
					return "the list is walked from an unknown place"
				}
				if as[0] == ssa.Value(ph) {
					step = n
				} else if ssaField(as[0]) == t.ordered {
					first = n
				}
			}
			if !(first == "Front" && step == "Next" || first == "Back" && step == "Prev") {
				return "the list is not walked from its one end to the other"
			}
			for x := range body {
				for _, s := range x.Succs {
					if !body[s] && x != b {
						return "the walk of the list may end early"
					}
				}
			}
			// appended every time round
			for x := range body {
				for _, i2 := range x.Instrs {
					c, ok := i2.(*ssa.Call)
					if !ok {
						continue
					}
					if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
						continue
					}
					all := true
					for y := range body {
						for _, s := range y.Succs {
							if s == b && !x.Dominates(y) {
								all = false
							}
						}
					}
					if all {
						return ""
					}
				}
			}
			return "an entry may be left out"
		}
	}
	return "no walk of the list"
}

func checkTree(c *Ck) {
	c.Ladder = []int{40, 8, 3}
	c.Rule("paired", "what enters or leaves the map of a directory enters or leaves its list too, on every path", 6)
	c.Rule("replaced", "an entry is put only under a name that is free, or was freed by taking out what was there", 8)
	c.Rule("named", "an entry calls itself what it is put under", 8)
	c.Rule("parent", "a directory's parent is the directory it is put into", 4)
	c.Rule("acyclic", "a directory is never moved beneath itself", 1)
	c.Rule("moved", "an entry that is moved leaves the place it had", 1)
	c.Rule("released", "an entry that leaves the tree lets go of its view, once, a directory of all it holds, and one that stays does not", 6)
	c.Rule("view", "a view is closed with the last entry that has it", 2)
	c.Rule("links", "an entry that shares the view of another shares and raises its count", 1)
	c.Rule("handles", "a handle given out is counted once, a failed open not at all, and the first Close takes it off again", 4)
	c.Rule("in-use", "Remove takes out nothing a handle is open on where that is forbidden", 1)
	c.Rule("kinds", "a rename replaces a directory only by a directory and anything else only by what is none", 1)
	c.Rule("all-or-nothing", "an operation on single names that fails leaves the tree as it was", 4)
	c.Rule("verdict", "what the merge callback answered is what happens", 2)
	c.Rule("listing", "a listing holds every entry", 1)
	for _, t := range c.P.memTrees() {
		for _, fn := range c.P.Funcs {
			if pkgRelFn(fn) != t.pkg || fn.Signature.Results().Len() != 1 {
				continue
			}
			if s, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), t.node) && hasLoop(fn) {
				c.Did("listing", fnName(fn))
				if w := t.listsAll(fn); w != "" {
					c.Bad("listing", fnName(fn), fn.Pos(), "%s", w)
				}
			}
		}
		entries := map[*ssa.Function]bool{}
		for _, fn := range c.P.roots() {
			if pkgRelFn(fn) == t.pkg && (t.writes[fn] || t.closes(fn)) {
				entries[fn] = true
			}
		}
		for fn := range t.writes {
			if pkgRelFn(fn) == t.pkg && c.P.reaches(fn, fn) {
				entries[fn] = true
			}
		}
		var fns []*ssa.Function
		for fn := range entries {
			fns = append(fns, fn)
		}
		sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
		for _, fn := range fns {
			t.run(c, fn)
		}
	}
}

// closes: fn closes a handle on an entry of the tree.
func (t *memTree) closes(fn *ssa.Function) bool {
	if t.refs == nil || fn.Name() != "Close" || fn.Signature.Recv() == nil || !hasMethods(fn.Signature.Recv().Type(), "Read", "ReadAt", "Close") {
		return false
	}
	s, _ := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if x := ptrTo(s.Field(i).Type()); x != nil && (namedOf(x) == t.dir || namedOf(x) == t.file) {
			return true
		}
	}
	return false
}

var oneName = map[string]bool{"Rename": true, "Link": true, "Symlink": true, "Mkdir": true, "Remove": true}

func (t *memTree) run(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	top, isFree := t.frees[fn]
	exported := fn.Object() != nil && fn.Object().Exported()
	c.RunEntry(func() *Eng {
		r := &treeRun{c: c, t: t, what: what, fn: fn}
		e := r.engine()
		var kids *ssa.BasicBlock
		if isFree {
			h, why := t.visitsAll(fn)
			if h == nil && !t.visitsElsewhere(fn) {
				c.Bad("released", what+": entries of a directory", fn.Pos(), "%s", why)
			}
			kids = h
		}
		blk := e.OnBlock
		e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
			if b == kids {
				st.T["kids"] = "1"
			}
			blk(e, fr, st, b)
		}
		var self *Val
		_ = self
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			r.atReturn(e, st, res, in, isFree, top, exported)
		}
		return e
	}, fn, nil)
}

// visitsElsewhere: another function of the same recursion hands the entries on.
func (t *memTree) visitsElsewhere(fn *ssa.Function) bool {
	for _, g := range t.p.cycleMembers(fn) {
		if g != fn {
			if h, _ := t.visitsAll(g); h != nil {
				return true
			}
		}
	}
	return false
}

func (r *treeRun) atReturn(e *Eng, st *State, res []*Val, in ssa.Instruction, isFree bool, top int, exported bool) {
	c, t := r.c, r.t
	bad := func(rule, f string, as ...any) { c.BadAt(rule, r.what, e, nil, in, f, as...) }
	r.each(st, "del:", func(k, v string) {
		bad("paired", "an entry leaves the map of its directory but stays in the list")
	})
	r.each(st, "rem:", func(k, v string) {
		bad("paired", "an entry leaves the list of its directory but stays in the map")
	})
	r.each(st, "push:", func(k, v string) {
		bad("paired", "an entry enters the list of a directory but not its map")
	})
	r.each(st, "init:", func(k, v string) {
		if st.T["drain:"+k] == "" {
			bad("paired", "the list of a directory is emptied but not its map")
		}
	})
	r.each(st, "drain:", func(k, v string) {
		if st.T["init:"+k] == "" {
			bad("paired", "the map of a directory is emptied but not its list")
		}
	})
	changed := false
	// what left
	moved := ""
	r.each(st, "in:", func(k, v string) {
		changed = true
		if r.vals[k].k != KAlloc {
			moved = k
		}
	})
	r.each(st, "gone:", func(k, v string) {
		changed = true
		n := r.vals[k]
		if st.T["in:"+k] != "" {
			if st.T["close:"+k]+st.T["dec:"+k]+st.T["freed:"+k] != "" {
				bad("released", "the view of an entry is let go of although the entry is put back into the tree")
			}
			return
		}
		if ok, why := r.freed(e, st, n); !ok {
			bad("released", "an entry leaves the tree: %s", why)
		}
		if moved != "" {
			// what gave way is not what was moved
			d1, k1 := r.holder(st, n)
			d2, k2 := r.holder(st, r.vals[moved])
			if !r.ne(st, d1, d2) && !r.ne(st, k1, k2) && !r.ne(st, n, r.vals[moved]) {
				bad("moved", "what gives way to the moved entry may be the entry itself: its view is let go of")
			}
			a, b := r.known(st, n, t.dir), r.known(st, r.vals[moved], t.dir)
			c.Did("kinds", r.what)
			if st.T["nil:"+k] != "true" && (a == "" || b == "" || a != b) {
				bad("kinds", "the entry that is moved may take the place of one of another kind (a directory of a file, or the reverse)")
			}
		}
	})
	r.each(st, "in:", func(k, v string) {
		if r.vals[k].k == KAlloc {
			return
		}
		c.Did("moved", r.what)
		if st.T["gone:"+k] == "" {
			bad("moved", "an entry that is in the tree is put under a second name")
		}
	})
	for _, pre := range []string{"close:", "freed:", "dec:"} {
		r.each(st, pre, func(k, v string) {
			if st.T["gone:"+k] != "" {
				return
			}
			if isFree {
				n := r.vals[k]
				if p, ok := isParam(n); ok && p == top || pre == "freed:" {
					return
				}
			}
			bad("released", "the view of an entry is let go of although the entry stays in the tree")
		})
	}
	r.each(st, "inc:", func(k, v string) {
		changed = true
		if v != "ok" {
			bad("links", "the number of links is raised although no entry that shares the view is put into the tree")
		}
	})
	if isFree {
		c.Did("released", r.what+": contract")
		var n *Val
		r.each(st, "is:", func(k, v string) {
			id := strings.Split(k, ":")[0]
			if p, ok := isParam(r.vals[id]); ok && p == top {
				n = r.vals[id]
			}
		})
		isDir := r.known1(st, n, t.dir)
		if n == nil {
			isDir = fmt.Sprint(ptrTo(r.fn.Params[top].Type()) == types.Type(t.dir))
		}
		switch {
		case isDir == "true":
			if st.T["kids"] == "" && !t.visitsElsewhere(r.fn) {
				bad("released", "a directory is let go of but not what it holds")
			}
		case n != nil && r.known(st, n, t.file) == "true":
			if ok, why := r.viewFreed(e, st, r.id(n.strip())); !ok {
				bad("released", "a file is let go of: %s", why)
			}
		case n == nil || r.known(st, n, t.file) != "false" || isDir != "false":
			bad("released", "an entry that may be a file or a directory is let go of and nothing is done")
		}
		return
	}
	// failures
	if errAt := errResult(r.fn.Signature); errAt >= 0 && errAt < len(res) && oneName[r.fn.Name()] && exported {
		c.Did("all-or-nothing", r.what)
		if changed && e.nilness(st, res[errAt]) != FNil {
			bad("all-or-nothing", "the tree is changed although the operation fails")
		}
	}
	if r.fn.Name() == "Remove" && exported && t.optOff != nil {
		r.each(st, "gone:", func(k, v string) {
			c.Did("in-use", r.what)
			if st.T["optoff"] == "" && st.T["unused:"+k] == "" {
				bad("in-use", "an entry is removed although a handle may be open on it and removing what is open is forbidden")
			}
		})
	}
	// handles
	if t.refs == nil {
		return
	}
	handle := -1
	for i := 0; i < r.fn.Signature.Results().Len(); i++ {
		if hasMethods(r.fn.Signature.Results().At(i).Type(), "Read", "ReadAt", "Close") {
			handle = i
		}
	}
	if handle >= 0 && handle < len(res) {
		h := res[handle].strip()
		want := ""
		if h.k == KAlloc {
			c.Did("handles", r.what)
			s, _ := deref(h.typ).Underlying().(*types.Struct)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				f := s.Field(i)
				if x := ptrTo(f.Type()); x != nil && (namedOf(x) == t.dir || namedOf(x) == t.file) {
					if nv := st.heap[e.u.mk(Val{k: KField, a: []*Val{h}, fld: f, typ: types.NewPointer(f.Type())})]; nv != nil {
						want = r.id(nv.strip())
						if nv.strip().k == KAlloc { // a new entry: its counter is memory of its own
							fa := e.u.mk(Val{k: KField, a: []*Val{nv.strip()}, fld: r.metaField(nv.strip()), typ: types.NewPointer(t.meta)})
							ra := e.u.mk(Val{k: KField, a: []*Val{fa}, fld: t.refs, typ: types.NewPointer(t.refs.Type())})
							if n, ok := e.load(st, ra, t.refs.Type()).constInt(); ok {
								st.T["ref:"+want] = fmt.Sprint(n)
							}
						}
					}
				}
			}
			if want == "" || st.T["ref:"+want] != "1" {
				bad("handles", "a handle is given out that is not counted once among those open on its entry")
			}
		}
		r.each(st, "ref:", func(k, v string) {
			if k != want && v != "0" {
				bad("handles", "a handle is counted (%s) that is not given out", v)
			}
		})
		return
	}
	if r.fn.Name() == "Close" && r.fn.Signature.Recv() != nil {
		c.Did("handles", r.what)
		n := 0
		r.each(st, "ref:", func(k, v string) {
			x := 0
			fmt.Sscan(v, &x)
			n += x
		})
		first := st.T["closed"] != "true"
		unused := false
		r.each(st, "unused:", func(k, v string) { unused = true })
		switch {
		case st.T["closed"] == "" && n != 0:
			bad("handles", "a Close takes the handle off the count without asking whether an earlier one did")
		case first && n != -1 && !unused:
			bad("handles", "the first Close takes %d handles off the count", -n)
		case first && st.T["shut"] == "":
			bad("handles", "the first Close does not note that the handle is closed")
		case !first && n != 0:
			bad("handles", "a Close of what is closed changes the count of handles")
		}
		return
	}
	r.each(st, "ref:", func(k, v string) {
		if v != "0" {
			bad("handles", "the count of handles is changed (%s) where none is given out or closed", v)
		}
	})
}

func (r *treeRun) metaField(n *Val) *types.Var {
	s, _ := deref(n.typ).Underlying().(*types.Struct)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if namedOf(s.Field(i).Type()) == r.t.meta {
			return s.Field(i)
		}
	}
	return nil
}

func (r *treeRun) known1(st *State, n *Val, k *types.Named) string {
	if n == nil {
		return ""
	}
	return r.known(st, n, k)
}
