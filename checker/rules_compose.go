package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C27"] = checkComposite }

// borrowed: parts a type uses but says it does not own.
var borrowed = map[string]bool{
	"vroot-adapter/sftpfs.SftpFs.client": true, // the caller's connection
}

// part is something a composite owns, named by the way to it from the receiver.
type part struct {
	path, list string // list: the slice it is an element of
	maybe      bool   // closable only if its dynamic type says so
	end        string // the method that ends it
}

func isHandleType(t types.Type) bool {
	for _, m := range []string{"Read", "ReadAt", "Write", "ReadDir"} {
		if hasMethods(t, m) {
			return true
		}
	}
	return false
}

// partsOf lists what closing a T has to close.
func partsOf(t types.Type) []part {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	handle := isHandleType(types.NewPointer(n))
	var out []part
	lists := func(st *types.Struct, at string) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			sl, ok := f.Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			list := at + "." + f.Name()
			if needsClose(sl.Elem()) {
				out = append(out, part{path: list + "[]", list: list, end: "Close"})
				continue
			}
			var in func(t types.Type, at string)
			in = func(t types.Type, at string) {
				s, ok := t.Underlying().(*types.Struct)
				if !ok {
					return
				}
				for i := 0; i < s.NumFields(); i++ {
					f := s.Field(i)
					switch {
					case f.Embedded():
						in(f.Type(), at+"."+f.Name())
					case needsClose(f.Type()):
						out = append(out, part{path: at + "." + f.Name(), list: list, end: "Close"})
					case types.IsInterface(f.Type()) && isHandleType(f.Type()):
						out = append(out, part{path: at + "." + f.Name(), list: list, maybe: true, end: "Close"})
					}
				}
			}
			in(sl.Elem(), list+"[]")
		}
	}
	lists(st, "")
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		at := "." + f.Name()
		switch {
		case borrowed[pkgRel(n.Obj().Pkg())+"."+n.Obj().Name()+at]:
		case needsClose(f.Type()):
			if handle && view(f.Type()) { // the filesystem it came from
				continue
			}
			out = append(out, part{path: at, end: "Close"})
		case hasMethods(f.Type(), "Unregister"):
			out = append(out, part{path: at, end: "Unregister"})
		case namedOf(f.Type()) != nil && namedOf(f.Type()).Obj().Name() == "CancelFunc":
			out = append(out, part{path: at, end: "call"})
		default:
			p, ok := f.Type().Underlying().(*types.Pointer)
			if !ok || handle {
				continue
			}
			if m := namedOf(p); m != nil && m.Obj().Pkg() == n.Obj().Pkg() {
				if s, ok := m.Underlying().(*types.Struct); ok {
					lists(s, at)
				}
			}
		}
	}
	return out
}

// wayTo spells how a value is reached from the receiver, "" if it is not.
func wayTo(v *Val) (string, bool) {
	switch v = v.strip(); v.k {
	case KParam:
		return "", v.n == 0
	case KAssert, KIface, KConv:
		return wayTo(v.a[0])
	case KLoad:
		return wayTo(v.a[0])
	case KField, KFieldVal:
		s, ok := wayTo(v.a[0])
		return s + "." + v.fld.Name(), ok
	case KIndex, KElem:
		s, ok := wayTo(v.a[0])
		return s + "[]", ok
	}
	return "", false
}

// loopTest: cond asks whether an index is still inside a list.
func loopTest(cond *Val, truth bool) (idx *Val, list string, more, ok bool) {
	for cond.k == KNot {
		cond, truth = cond.a[0], !truth
	}
	if cond.k != KBin {
		return
	}
	length := func(v *Val) string {
		if isPure(v, "len") {
			if s, ok := wayTo(v.a[0]); ok {
				return "@" + s
			}
		}
		return ""
	}
	x, y := cond.a[0], cond.a[1]
	switch cond.s {
	case "<":
		if s := length(y); s != "" { // i < len(s)
			return x, s, truth, true
		}
		if n, c := y.constInt(); c && n == 0 { // not i < 0, counting down
			s := ""
			x.walk(func(v *Val) bool {
				if l := length(v); l != "" {
					s = l
				}
				return s == ""
			})
			return x, s, !truth, s != ""
		}
	case "==":
		if s := length(y); s != "" {
			return x, s, !truth, true
		}
		if s := length(x); s != "" {
			return y, s, !truth, true
		}
	}
	return
}

// steps: the index takes every value, starting at an end; last is the one
// before it, where that is known.
func steps(v *Val, last string) bool {
	if n, ok := v.constInt(); ok {
		return n == 0 && last == "" || fmt.Sprint(n-1) == last
	}
	seen := map[*Val]bool{}
	top := v
	var rec func(v *Val) bool
	rec = func(v *Val) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if _, ok := v.constInt(); ok {
			return v != top
		}
		switch {
		case isPure(v, "len"):
			return true
		case v.k == KBin && (v.s == "+" || v.s == "-"):
			for i := range v.a {
				if n, ok := v.a[i].constInt(); ok {
					return (n == 1 || n == -1) && rec(v.a[1-i])
				}
			}
			return false
		case v.k == KPhi:
			for _, x := range v.in {
				if !rec(x) {
					return false
				}
			}
			return true
		}
		return false
	}
	return rec(v)
}

func noteIdx(st *State, key string, idx *Val, more bool) {
	delete(st.T, key)
	if n, ok := idx.constInt(); ok && more {
		st.T[key] = fmt.Sprint(n)
	}
}

// onlyClose: nothing with a Close fails the assertion to t.
func onlyClose(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 1 && i.Method(0).Name() == "Close"
}

// keepErr notes in which local objects an error is kept.
func keepErr(st *State, addr, v *Val) {
	a := root(addr)
	if a.k != KAlloc {
		return
	}
	for k, t := range st.T {
		var id int
		if n, _ := fmt.Sscanf(k, "err:%d", &id); n != 1 || strings.Contains(t, fmt.Sprintf("<%d>", a.id)) {
			continue
		}
		if saysErr(v, id, t) {
			st.T[k] += fmt.Sprintf("<%d>", a.id)
		}
	}
}

// saysErr: v holds the error, or an object it is kept in.
func saysErr(v *Val, id int, t string) bool {
	said := false
	v.walk(func(x *Val) bool {
		if x.id == id || x.k == KAlloc && strings.Contains(t, fmt.Sprintf("<%d>", x.id)) {
			said = true
		}
		return !said && !(x.k == KLoad && x.a[0].k == KIndex) // one element is not the list
	})
	return said
}

func checkComposite(c *Ck) {
	c.Rule("closes", "on every path through a composite's Close, every part it owns is closed: each field that is not nil, each element of each list, whatever the others answered", 20)
	c.Rule("reports", "every error a part's close gives is nil or contained in what Close returns", 20)
	p := c.P
	flags := closedFlags(p)
	gather := map[*ssa.Function]bool{}
	type share struct {
		flag *types.Var
		val  string
	}
	owner := map[*types.Named]share{}
	for _, fn := range p.Funcs {
		if fn.Name() != "Close" || fn.Signature.Recv() == nil || fn.Pkg == nil || fn.Parent() != nil || !inRepo(fn.Pkg.Pkg) || skipPkg(pkgRel(fn.Pkg.Pkg)) {
			continue
		}
		self := namedOf(fn.Signature.Recv().Type())
		ps := partsOf(self)
		what := fnName(fn)
		if len(ps) == 0 {
			continue
		}
		byPath := map[string]part{}
		for _, q := range ps {
			byPath[q.path] = q
		}
		var ends []string
		for _, q := range ps {
			ends = append(ends, q.end)
		}
		c.RunEntry(func() *Eng {
			e := newEng(p)
			vals := map[int]*Val{}
			e.NoInline = func(ci *CallInfo) bool {
				if ci.Fn != nil && ci.Fn.Pkg != nil && strings.HasSuffix(ci.Fn.Pkg.Pkg.Path(), "/serr") {
					gather[ci.Fn] = true
					return true
				}
				return (ci.Name() == "Close" || ci.Name() == "Unregister") && !(ci.Recv != nil && ci.Recv.k == KParam)
			}
			settle := func(st *State) { // errors known nil are reported
				for k := range st.T {
					var id int
					if n, _ := fmt.Sscanf(k, "err:%d", &id); n == 1 && e.nilness(st, vals[id]) == FNil {
						delete(st.T, k)
					}
				}
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				if inlined {
					return
				}
				recv, end := ci.Recv, ci.Name()
				if ci.Recv == nil && ci.FnVal != nil {
					recv, end = ci.FnVal, "call"
				}
				if recv == nil {
					return
				}
				way, ok := wayTo(recv)
				q, known := byPath[way]
				if !ok || !known || q.end != end {
					return
				}
				if q.list != "" {
					pend := st.T["pending:"+q.path]
					hit := false
					recv.walk(func(x *Val) bool {
						if (x.k == KIndex || x.k == KElem) && fmt.Sprint(x.a[1].id) == pend {
							hit = true
						}
						return !hit
					})
					if !hit {
						return
					}
					delete(st.T, "pending:"+q.path)
				} else {
					st.T["done:"+q.path] = "y"
				}
				if err := errOf(ci, res); err != nil {
					vals[err.id] = err
					if k := fmt.Sprintf("err:%d", err.id); st.T[k] == "" || !strings.Contains(st.T[k], "<") {
						if st.T[k] != "" {
							c.BadAt("reports", what+": "+q.path, e, ci.fr, ci.Instr, "%s closes %s again with the error of the round before not kept", what, q.path)
						}
						st.T[k] = q.path + " "
					}
				}
			}
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) { keepErr(st, addr, v) }
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				settle(st)
				if idx, list, more, ok := loopTest(cond, truth); ok {
					defer noteIdx(st, "last:"+list, idx, more)
					for _, q := range ps {
						if q.list == "" || "@"+q.list != list {
							continue
						}
						if st.T["pending:"+q.path] != "" {
							c.BadAt("closes", what+": "+q.path, e, fr, in, "%s goes on to the next of %s without closing this one", what, list)
						}
						if !steps(idx, st.T["last:"+list]) {
							c.BadAt("closes", what+": "+q.path, e, fr, in, "%s does not go through all of %s (index %s)", what, list, idx)
						}
						if more {
							st.T["pending:"+q.path] = fmt.Sprint(idx.id)
						} else {
							delete(st.T, "pending:"+q.path)
							st.T["done:"+q.path] = "y"
						}
					}
					return
				}
				base, pos := cond, truth
				for base.k == KNot {
					base, pos = base.a[0], !pos
				}
				base.walk(func(x *Val) bool {
					way, ok := wayTo(x)
					if !ok || way == "" {
						return true
					}
					q, known := byPath[way]
					switch {
					case known && (e.nilness(st, x) == FNil || q.maybe && isPure(base, "okassert") && !pos && onlyClose(base.a[1].typ)):
						if q.list != "" {
							delete(st.T, "pending:"+q.path)
						} else {
							st.T["done:"+q.path] = "y"
						}
					case x == base && x.k == KLoad && x.a[0].k == KField && x.a[0].a[0].k == KParam:
						f := x.a[0].fld
						if flags[self] == f && pos {
							st.T["closed"] = "y"
						} else if isBool(f.Type()) && p.immutable(f) {
							st.T["flag"] = fmt.Sprint(pos)
							owner[self] = share{flag: f, val: owner[self].val}
						}
					case x.k == KLoad && x.a[0].k == KField && base.k == KBin && flags[self] == x.a[0].fld:
						st.T["closed"] = "y"
					}
					return true
				})
			}
			e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) { settle(st) }
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				settle(st)
				var missing []string
				for _, q := range ps {
					if st.T["done:"+q.path] == "" {
						missing = append(missing, strings.TrimPrefix(q.path, "."))
					}
				}
				if st.T["closed"] != "" {
					return
				}
				if st.T["flag"] != "" {
					if len(missing) == len(ps) { // not the owner
						o := owner[self]
						if o.val != "" && o.val != st.T["flag"] {
							c.BadAt("closes", what, e, nil, in, "%s closes nothing whatever %s says", what, o.flag.Name())
						}
						o.val = st.T["flag"]
						owner[self] = o
						return
					}
				}
				for _, m := range missing {
					c.BadAt("closes", what+": "+m, e, nil, in, "%s may return without closing %s", what, m)
				}
				for k, t := range st.T {
					var id int
					if n, _ := fmt.Sscanf(k, "err:%d", &id); n != 1 {
						continue
					}
					path := strings.Fields(t)[0]
					said := len(res) > 0 && saysErr(res[len(res)-1], id, t)
					if !said {
						c.BadAt("reports", what+": "+path, e, nil, in, "%s may return without the error closing %s gave", what, strings.TrimPrefix(path, "."))
					}
				}
			}
			return e
		}, fn, nil)
		for i, q := range ps {
			c.Did("closes", what+": "+strings.TrimPrefix(q.path, "."))
			if ends[i] == "Close" {
				c.Did("reports", what+": "+strings.TrimPrefix(q.path, "."))
			}
		}
	}
	c.Rule("joins", "what the errors are joined with answers nil only when all of them are, and otherwise something that holds each of them", 1)
	for _, fn := range p.Funcs {
		if gather[fn] {
			c.Did("joins", fnName(fn))
			checkJoin(c, fn)
		}
	}
	c.Rule("owner", "a composite made around the parts of another is told that it does not own them, and one made around its own that it does", 2)
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || fn.Parent() != nil || fn.Pkg == nil || !inRepo(fn.Pkg.Pkg) {
			continue
		}
		for n, o := range owner {
			if makesStruct(fn, n) {
				c.checkOwner(fn, n, o.flag, o.val == "true")
			}
		}
	}
}

func makesStruct(fn *ssa.Function, n *types.Named) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && namedOf(a.Type()) == n {
				return true
			}
		}
	}
	return false
}

// checkOwner: fn makes an n, for which flag == borrows means its parts are another's.
func (c *Ck) checkOwner(fn *ssa.Function, n *types.Named, flag *types.Var, borrows bool) {
	what := fnName(fn)
	var lists []string
	for _, q := range partsOf(n) {
		lists = append(lists, strings.Split(q.path, ".")[1])
	}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			seen := map[*Val]bool{}
			for _, r := range res {
				r.walk(func(x *Val) bool {
					if x.k != KAlloc || seen[x] || x.typ == nil || namedOf(x.typ) != n {
						return true
					}
					seen[x] = true
					own, shared := false, false
					if whole := st.heap[x]; whole != nil && whole.contains(func(y *Val) bool { return y.k == KLoad && namedOf(y.typ) == n }) {
						own, shared = !borrows, true // a copy, mark included
					}
					for k, v := range st.heap {
						if k.k != KField || k.a[0] != x {
							continue
						}
						if k.fld == flag {
							b, ok := v.constBool()
							if !ok {
								c.BadAt("owner", what, e, nil, in, "%s makes a %s whose %s is not settled", what, n.Obj().Name(), flag.Name())
							}
							own = b
						}
						for _, l := range lists {
							if k.fld.Name() == l {
								shared = v.contains(func(y *Val) bool {
									return y.k == KLoad && y.a[0].k == KField && y.a[0].fld == k.fld
								})
							}
						}
					}
					c.Did("owner", what)
					if (own == borrows) != shared {
						c.BadAt("owner", what, e, nil, in, "%s makes a %s with %s = %v although its parts are %s", what, n.Obj().Name(), flag.Name(), own, map[bool]string{true: "another's", false: "its own"}[shared])
					}
					return true
				})
			}
		}
		return e
	}, fn, nil)
}

// checkJoin: fn joins a list of errors, or of structs holding one each.
func checkJoin(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		vals := map[int]*Val{}
		elem := func(v *Val) *Val { // the error of an element v speaks of, and its index
			var idx *Val
			v.walk(func(x *Val) bool {
				if way, ok := wayTo(x); ok && strings.HasPrefix(way, "[]") && x.typ != nil && isErrorType(x.typ) && idx == nil {
					x.walk(func(y *Val) bool {
						if (y.k == KIndex || y.k == KElem) && idx == nil {
							idx = y.a[1]
							vals[idx.id] = x
						}
						return idx == nil
					})
				}
				return idx == nil
			})
			return idx
		}
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			if idx := elem(v); idx != nil {
				x := vals[idx.id]
				if k := fmt.Sprintf("err:%d", x.id); st.T[k] == "" {
					st.T[k] = " "
				}
				if st.T["pending"] == fmt.Sprint(idx.id) {
					delete(st.T, "pending")
				}
			}
			keepErr(st, addr, v)
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			if idx, list, more, ok := loopTest(cond, truth); ok && list == "@" {
				if n, c := idx.constInt(); c && n == 0 && cond.k == KBin && cond.s == "==" { // an empty list
					if !more {
						st.T["all"] = "y"
					}
					return
				}
				if n, first := idx.constInt(); first && n == 0 {
					delete(st.T, "last")
					delete(st.T, "all")
					delete(st.T, "gap")
					delete(st.T, "pending")
				}
				if st.T["pending"] != "" || !steps(idx, st.T["last"]) {
					st.T["gap"] = "y"
				}
				noteIdx(st, "last", idx, more)
				if more {
					st.T["pending"] = fmt.Sprint(idx.id)
				} else {
					delete(st.T, "pending")
					if st.T["gap"] == "" {
						st.T["all"] = "y"
					}
				}
				return
			}
			elem(cond)
			if !truth { // none of them, by a library search with a test of its own
				cond.walk(func(x *Val) bool {
					if x.k == KCall && strings.HasPrefix(x.s, "slices.ContainsFunc") || isPure(x, "slices.ContainsFunc") {
						st.T["all"] = "y"
					}
					return true
				})
			}
		}
		e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
			var id int
			if _, err := fmt.Sscan(st.T["pending"], &id); err == nil && vals[id] != nil && e.nilness(st, vals[id]) == FNil {
				delete(st.T, "pending")
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			r := res[len(res)-1]
			if st.T["all"] == "" {
				c.BadAt("joins", what, e, nil, in, "%s may return without having looked at, or kept, every error", what)
				return
			}
			for k, t := range st.T {
				var id int
				if n, _ := fmt.Sscanf(k, "err:%d", &id); n == 1 && !saysErr(r, id, t) {
					c.BadAt("joins", what, e, nil, in, "%s may return something that does not hold an error it was given", what)
				}
			}
		}
		return e
	}, fn, nil)
}
