package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C42"] = checkContext
}

func isCtxType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context"
}

func isCancelType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && strings.HasPrefix(n.Obj().Name(), "Cancel")
}

// ctxFieldOf: the field of t (or of what t points at) that holds a context.
func ctxFieldOf(t types.Type) *types.Var {
	if t == nil {
		return nil
	}
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if isCtxType(s.Field(i).Type()) {
			return s.Field(i)
		}
	}
	return nil
}

// ctxParam: the context the function, or the one it is written in, is given.
func ctxParam(fn *ssa.Function) *ssa.Parameter {
	for ; fn != nil; fn = fn.Parent() {
		for _, p := range fn.Params {
			if isCtxType(p.Type()) {
				return p
			}
		}
	}
	return nil
}

// recvCtx: the context kept by the receiver of the function or of the one it is written in.
func recvCtx(fn *ssa.Function) *types.Var {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Signature.Recv() == nil {
		return nil
	}
	return ctxFieldOf(fn.Signature.Recv().Type())
}

// ctxSrc: where a context comes from.
type ctxSrc struct {
	param *ssa.Parameter
	field *types.Var
	bad   string
}

func ctxSources(v ssa.Value) []ctxSrc {
	seen := map[ssa.Value]bool{}
	out := map[ctxSrc]bool{}
	var rec func(v ssa.Value, d int)
	addr := func(a ssa.Value, d int) {
		switch a := a.(type) {
		case *ssa.FieldAddr:
			if isCtxType(deref(a.Type())) {
				out[ctxSrc{field: deref(a.X.Type()).Underlying().(*types.Struct).Field(a.Field)}] = true
			}
		case *ssa.Alloc:
			for _, s := range storesInto(a) {
				rec(s, d)
			}
		case *ssa.Global:
			out[ctxSrc{bad: "the package variable " + a.Name()}] = true
		}
	}
	rec = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 8 {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Parameter:
			out[ctxSrc{param: v}] = true
		case *ssa.FreeVar:
			rec(bindingOf(v), d)
		case *ssa.UnOp:
			x := v.X
			for {
				if fv, ok := x.(*ssa.FreeVar); ok {
					x = bindingOf(fv)
					continue
				}
				break
			}
			addr(x, d)
		case *ssa.Field:
			if isCtxType(v.Type()) {
				out[ctxSrc{field: v.X.Type().Underlying().(*types.Struct).Field(v.Field)}] = true
			}
		case *ssa.Phi:
			for _, x := range v.Edges {
				rec(x, d)
			}
		case *ssa.Extract:
			rec(v.Tuple, d)
		case *ssa.ChangeInterface:
			rec(v.X, d)
		case *ssa.ChangeType:
			rec(v.X, d)
		case *ssa.TypeAssert:
			rec(v.X, d)
		case *ssa.MakeInterface:
			if n := namedOf(v.X.Type()); n != nil && n.Obj().Pkg() != nil && pkgRel(n.Obj().Pkg()) != "" {
				for i := 0; i < n.NumMethods(); i++ {
					if m := n.Method(i).Name(); m == "Done" || m == "Err" {
						out[ctxSrc{bad: "a context of its own kind, " + n.Obj().Name()}] = true
					}
				}
			}
		case *ssa.Const:
			out[ctxSrc{bad: "no context at all"}] = true
		case *ssa.Call:
			f := v.Call.StaticCallee()
			if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "context" {
				switch f.Name() {
				case "Background", "TODO", "WithoutCancel":
					out[ctxSrc{bad: "context." + f.Name()}] = true
					return
				}
			}
			if f != nil && f.Blocks != nil && inRepoFn(f) {
				for _, b := range f.Blocks {
					r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
					if !ok {
						continue
					}
					for _, x := range r.Results {
						if !isCtxType(x.Type()) {
							continue
						}
						for _, s := range ctxSources(x) {
							if s.param == nil {
								out[s] = true
								continue
							}
							for i, p := range f.Params {
								if p == s.param && i < len(v.Call.Args) {
									rec(v.Call.Args[i], d+1)
								}
							}
						}
					}
				}
				return
			}
			for _, a := range v.Call.Args {
				if isCtxType(a.Type()) {
					rec(a, d)
				}
			}
		}
	}
	rec(v, 0)
	var l []ctxSrc
	for s := range out {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].bad < l[j].bad })
	return l
}

// bindingOf: what a closure was made with for one of its free variables.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	i := -1
	for k, x := range fn.FreeVars {
		if x == fv {
			i = k
		}
	}
	if fn.Parent() == nil || i < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && i < len(mc.Bindings) {
				return mc.Bindings[i]
			}
		}
	}
	return nil
}

// storesInto: everything stored in a local variable, by closures too.
func storesInto(a *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, in := range *v.Referrers() {
			switch in := in.(type) {
			case *ssa.Store:
				if in.Addr == v {
					out = append(out, in.Val)
				}
			case *ssa.MakeClosure:
				for i, b := range in.Bindings {
					if b == v {
						scan(in.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	scan(a)
	return out
}

var ctxlessCalls = map[string]bool{
	"net/http.NewRequest": true, "net/http.Get": true, "net/http.Head": true, "net/http.Post": true, "net/http.PostForm": true,
	"(*net/http.Client).Get": true, "(*net/http.Client).Head": true, "(*net/http.Client).Post": true, "(*net/http.Client).PostForm": true,
	"os/exec.Command": true, "net.Dial": true, "net.DialTimeout": true,
}

func libraryFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil || !inRepoFn(fn) {
		return false
	}
	rel := pkgRel(fn.Pkg.Pkg)
	return !strings.Contains(rel, "testhelper") && !strings.Contains(rel, "acceptancetest") && !strings.Contains(rel, "testutil")
}

func checkContext(c *Ck) {
	c.Ladder = []int{64, 12}
	c.Rule("given", "what an operation starts on behalf of a context is given that context, or one that ends with it, never one of its own", 14)
	c.Rule("kept", "an object that keeps a context keeps one that ends with the context it was made with", 3)
	c.Rule("asked", "a source is read on behalf of a context only after the context was asked since the read before and had not ended", 3)
	c.Rule("stopped", "once the context is found ended nothing more is started, and the operation fails with the context's own error", 2)
	c.Rule("passed-on", "a reader handed on while a context is in force asks that context before each read", 2)
	c.Rule("both", "a request made for a call's context by an object with a context of its own ends with either", 1)
	c.Rule("closed", "closing an object that holds the cancel function of its context ends that context, before it waits for anything", 1)
	p := c.P
	p.fillOwners()
	for _, fn := range p.Funcs {
		if fn.Blocks != nil && libraryFn(fn) {
			ctxGiven(c, fn)
		}
	}
	for _, fn := range p.Funcs {
		if fn.Blocks == nil || fn.Parent() != nil || !libraryFn(fn) {
			continue
		}
		sig := fn.Signature
		rf := recvCtx(fn)
		switch {
		case rf != nil && fn.Name() == "Read" && sig.Params().Len() == 1:
			ctxReads(c, fn)
		case rf != nil && fn.Name() == "Close" && cancelFieldOf(sig.Recv().Type()) != nil:
			ctxClose(c, fn)
		case rf != nil && ctxParam(fn) != nil && exportedFn(fn):
			ctxBoth(c, fn)
		case rf == nil && ctxParam(fn) != nil && exportedFn(fn) && (fn.Name() == "Pull" || fn.Name() == "Push" || makesReader(sig)):
			ctxReads(c, fn)
		}
	}
}

func exportedFn(fn *ssa.Function) bool { return fn.Object() != nil && fn.Object().Exported() }

// makesReader: a context and a reader in, a reader out.
func makesReader(sig *types.Signature) bool {
	in := false
	for i := 0; i < sig.Params().Len(); i++ {
		in = in || plainReader(sig.Params().At(i).Type())
	}
	return in && sig.Results().Len() == 1 && plainReader(sig.Results().At(0).Type())
}

func plainReader(t types.Type) bool { return types.IsInterface(t) && hasMethods(t, "Read") }

func cancelFieldOf(t types.Type) *types.Var {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if isCancelType(s.Field(i).Type()) {
			return s.Field(i)
		}
	}
	return nil
}

// ctxGiven: the contexts one function passes on and keeps.
func ctxGiven(c *Ck, fn *ssa.Function) {
	own, held := ctxParam(fn), recvCtx(fn)
	judge := func(rule, what string, v ssa.Value, in ssa.Instruction) {
		c.Did(rule, fnName(fn)+" "+what)
		for _, s := range ctxSources(v) {
			switch {
			case s.bad != "":
				c.Bad(rule, fnName(fn)+": "+what, instrPos(in), "%s is given %s, which does not end when the caller's context does", what, s.bad)
			case own != nil && s.param == nil && !(held != nil && s.field == held):
				c.Bad(rule, fnName(fn)+": "+what, instrPos(in), "%s is given another context than the one the operation was called with", what)
			}
		}
	}
	type pair struct{ ctx, cancel ssa.Value }
	made := map[ssa.Value]*pair{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case ssa.CallInstruction:
				cc := in.Common()
				name := ""
				if f := cc.StaticCallee(); f != nil {
					name = f.String()
					if f.Pkg != nil && f.Pkg.Pkg.Path() == "context" {
						continue
					}
				} else if cc.IsInvoke() {
					name = cc.Method.Name()
				}
				if ctxlessCalls[name] && (own != nil || held != nil) {
					c.Bad("given", fnName(fn)+": "+name, instrPos(in), "%s starts something that no context can end", name)
				}
				for _, a := range cc.Args {
					if isCtxType(a.Type()) {
						judge("given", "the call of "+name, a, in)
					}
				}
			case *ssa.Store:
				fa, ok := in.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				f := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
				if made[fa.X] == nil {
					made[fa.X] = &pair{}
				}
				if isCtxType(f.Type()) && isCtxType(in.Val.Type()) {
					judge("kept", "the field "+f.Name(), in.Val, in)
					made[fa.X].ctx = in.Val
				}
				if isCancelType(f.Type()) {
					made[fa.X].cancel = in.Val
				}
			}
		}
	}
	for _, m := range made {
		if m.cancel == nil {
			continue
		}
		c.Did("kept", fnName(fn)+" cancel")
		x, ok1 := m.ctx.(*ssa.Extract)
		y, ok2 := m.cancel.(*ssa.Extract)
		if ok1 && ok2 && x.Tuple != y.Tuple || ok2 && !ok1 {
			c.Bad("kept", fnName(fn)+": cancel", instrPos(m.cancel.(ssa.Instruction)), "the cancel function kept is not the one of the context kept beside it")
		}
	}
}

// ownCtx: the context the entry is given or its receiver keeps.
func ownCtx(v *Val) bool {
	v = unconv(v)
	if v == nil {
		return false
	}
	if v.k == KParam {
		return isCtxType(v.typ)
	}
	if v.k == KLoad && v.a[0].k == KField {
		return isCtxType(v.a[0].fld.Type()) && root(v.a[0]).k == KParam
	}
	return false
}

func onCtx(ci *CallInfo, name string) bool {
	return ci.Name() == name && ci.IsInvoke() && isCtxType(ci.RecvT)
}

// ctxError: what a context says about its end.
func ctxError(v *Val) bool {
	return v != nil && v.contains(func(x *Val) bool {
		return (x.k == KCall || x.k == KPure) && (strings.HasSuffix(x.s, "context.Context.Err") || strings.HasSuffix(x.s, "context.Cause"))
	})
}

// watchful: a reader of a type whose Read asks the context it keeps, keeping the entry's.
func (e *Eng) watchful(st *State, v *Val) bool {
	return e.reaches(st, v, func(x *Val) bool {
		if x.k != KAlloc || x.typ == nil {
			return false
		}
		f := ctxFieldOf(x.typ)
		if f == nil || !hasMethods(types.NewPointer(deref(x.typ)), "Read") {
			return false
		}
		for k, w := range st.heap {
			if k.k == KField && k.a[0] == x && k.fld == f && ownCtx(w) {
				return true
			}
		}
		return false
	})
}

func ctxReads(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	reader := fn.Name() == "Read"
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		source := func(st *State, v *Val) bool {
			return e.reaches(st, v, func(x *Val) bool {
				if reader {
					return x.k == KLoad && x.a[0].k == KField && plainReader(x.a[0].fld.Type())
				}
				return x.k == KRes && x.n == 0 && x.a[0].k == KCall && strings.HasSuffix(x.a[0].s, "ResumableSource.Open")
			})
		}
		read := func(st *State, ci *CallInfo) bool {
			ok := false
			for v, k := range st.S {
				if k == "asked" && e.nilness(st, v) == FNil {
					ok = true
				}
			}
			ok = ok || st.T["asked"] != ""
			for v, k := range st.S {
				if k == "asked" {
					delete(st.S, v)
				}
			}
			delete(st.T, "asked")
			return ok
		}
		ended := func(st *State) bool {
			if st.T["ended"] != "" {
				return true
			}
			for v, k := range st.S {
				if k == "asked" && e.nilness(st, v) == FNonNil {
					return true
				}
			}
			return false
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			if done, hit := onDone(in); done {
				if hit == truth {
					st.T["ended"] = "1"
				} else {
					st.T["asked"] = "1"
				}
				return
			}
			cond, truth = condPeel(cond, truth)
			if cond.k == KBin && cond.s == "==" && len(cond.a) == 2 && !truth {
				for i := 0; i < 2; i++ {
					if cond.a[1-i].isNilConst() && st.S[cond.a[i].strip()] == "asked" {
						st.T["ended"] = "1"
					}
				}
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			args := callArgs(ci)
			starts := false
			switch {
			case ci.Name() == "Read" && ci.IsInvoke() && source(st, ci.Recv):
				starts = true
				c.Did("asked", what)
				if !read(st, ci) {
					c.BadAt("asked", what, e, ci.fr, ci.Instr, "the source may be read although the context has ended since it was last asked")
				}
			case !repoCall(ci) && !ci.IsInvoke() && ci.Builtin == "":
				n := ci.Full()
				if !strings.HasPrefix(n, "io.Copy") && !strings.HasPrefix(n, "io.Read") && !strings.HasSuffix(n, ".ReadFrom") && !strings.HasSuffix(n, ".WriteTo") && n != "os.WriteFile" {
					break
				}
				for _, a := range append(args, ci.Recv) {
					if a != nil && source(st, a) {
						starts = true
						c.Did("asked", what)
						if !e.watchful(st, a) {
							c.BadAt("asked", what, e, ci.fr, ci.Instr, "%s reads the source on and on without asking the context", n)
						}
					}
				}
			case isSink(ci, "Append"):
				starts = true
				c.Did("passed-on", what)
				if len(args) < 4 || !e.watchful(st, args[len(args)-1]) {
					c.BadAt("passed-on", what, e, ci.fr, ci.Instr, "the sink is handed a reader that does not ask the context before each read")
				}
			case isSink(ci, "Commit"), isSink(ci, "State"), isSource(ci), onFs(ci) && ci.Name() == "Rename":
				starts = true
			}
			if starts && ended(st) {
				c.BadAt("stopped", what+": "+ci.Name(), e, ci.fr, ci.Instr, "%s may be called although the context was found ended", ci.Name())
			}
			return nil, false
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if onCtx(ci, "Err") && ownCtx(ci.Recv) && res != nil {
				st.S[res.strip()] = "asked"
				if st.T["ended"] != "" && e.nilness(st, res) == 0 {
					st.facts[res.strip()] = FNonNil // an ended context stays ended
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if makesReader(fn.Signature) {
				c.Did("passed-on", what)
				if !e.watchful(st, res[0]) {
					c.BadAt("passed-on", what, e, nil, in, "the reader handed out does not ask the context before each read")
				}
				return
			}
			if ei < 0 || !ended(st) {
				return
			}
			c.Did("stopped", what)
			if !e.reaches(st, res[ei], ctxError) {
				c.BadAt("stopped", what, e, nil, in, "the context was found ended, and the error returned is not its own")
			}
		}
		return e
	}, fn, nil)
}

// onDone: a branch on whether a select that does not wait found a context ended;
// hit is the outcome that means it has.
func onDone(in ssa.Instruction) (done, hit bool) {
	i, ok := in.(*ssa.If)
	if !ok {
		return false, false
	}
	b, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false, false
	}
	x, ok := b.X.(*ssa.Extract)
	if !ok {
		return false, false
	}
	s, ok := x.Tuple.(*ssa.Select)
	k, isC := b.Y.(*ssa.Const)
	if !ok || !isC || s.Blocking || len(s.States) != 1 || x.Index != 0 {
		return false, false
	}
	call, ok := s.States[0].Chan.(*ssa.Call)
	if !ok || !call.Call.IsInvoke() || call.Call.Method.Name() != "Done" || !isCtxType(call.Call.Value.Type()) {
		return false, false
	}
	return k.Int64() == 0, b.Op.String() == "=="
}

func ctxBoth(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	rel := c.P.reachMap(func(_ *ssa.Function, in ssa.Instruction) bool {
		call, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, a := range call.Common().Args {
			if isCtxType(a.Type()) {
				return true
			}
		}
		return call.Common().IsInvoke() && call.Common().Method.Name() == "Do"
	})
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.Relevant = rel
		made := func(v *Val) *Val { // the call that made this context or cancel function
			v = unconv(v)
			if v != nil && v.k == KRes && v.a[0].k == KCall && strings.HasPrefix(v.a[0].s, "context.With") {
				return v.a[0]
			}
			return nil
		}
		bases := func(st *State, v *Val) (own, held bool) {
			seen := map[*Val]bool{}
			var rec func(v *Val)
			rec = func(v *Val) {
				v = unconv(v)
				if v == nil || seen[v] {
					return
				}
				seen[v] = true
				if ownCtx(v) {
					if v.k == KParam {
						own = true
					} else {
						held = true
					}
					return
				}
				call := made(v)
				if call == nil {
					return
				}
				for _, a := range call.in {
					rec(a)
				}
				if strings.Contains(st.T["tied:"+call.path()], "own") {
					own = true
				}
				if strings.Contains(st.T["tied:"+call.path()], "held") {
					held = true
				}
			}
			rec(v)
			return
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			n := ci.Full()
			switch {
			case n == "context.AfterFunc" && len(ci.Args) == 2:
				if call := made(ci.Args[1]); call != nil {
					own, held := bases(st, ci.Args[0])
					k := "tied:" + call.path()
					if own {
						st.T[k] += "own"
					}
					if held {
						st.T[k] += "held"
					}
					st.T["last"] = k
				}
			case ci.Fn == nil && stopsAfter(ci.FnVal):
				delete(st.T, st.T["last"])
				delete(st.T, "sent:both")
			case !repoCall(ci) && ci.PkgPath() != "context":
				for _, a := range callArgs(ci) {
					if a == nil || a.typ != nil && !isCtxType(a.typ) {
						continue
					}
					own, held := bases(st, a)
					if !own && !held {
						continue
					}
					c.Did("both", what+" "+ci.Name())
					if !own || !held {
						c.BadAt("both", what, e, ci.fr, ci.Instr, "%s does not end with both the context of the call and that of the object", ci.Name())
					} else {
						st.T["sent:both"] = "1"
					}
				}
				if ci.Name() == "Do" && st.T["sent:both"] == "" {
					c.BadAt("both", what+": Do", e, ci.fr, ci.Instr, "the request is sent when it no longer ends with both contexts")
				}
			}
			return nil, false
		}
		return e
	}, fn, nil)
}

// stopsAfter: the function context.AfterFunc returned.
func stopsAfter(v *Val) bool {
	v = unconv(v)
	return v != nil && v.k == KRes && v.a[0].k == KCall && v.a[0].s == "context.AfterFunc"
}

func ctxClose(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	cf := cancelFieldOf(fn.Signature.Recv().Type())
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if v := unconv(ci.FnVal); v != nil && v.k == KLoad && v.a[0].k == KField && v.a[0].fld == cf {
				st.T["cancelled"] = "1"
			}
			if op, _ := lockOp(ci); (op == "Lock" || op == "RLock") && st.T["cancelled"] == "" {
				c.BadAt("closed", what+": waits", e, ci.fr, ci.Instr, "%s may wait for a lock before it ends the context", what)
			}
			return nil, false
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			c.Did("closed", what)
			if st.T["cancelled"] == "" {
				c.BadAt("closed", what, e, nil, in, "%s may return with its context still in force", what)
			}
		}
		return e
	}, fn, nil)
}

func repoCall(ci *CallInfo) bool { return strings.HasPrefix(ci.PkgPath()+"/", modPath) }
