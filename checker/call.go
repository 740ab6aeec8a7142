package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) resolve(fr *Frame, st *State, c *ssa.CallCommon, in ssa.Instruction) *CallInfo {
	ci := &CallInfo{Instr: in, Common: c, fr: fr}
	for _, a := range c.Args {
		ci.Args = append(ci.Args, e.eval(fr, st, a))
	}
	if c.IsInvoke() {
		ci.Recv = e.eval(fr, st, c.Value)
		ci.Obj = c.Method.Origin()
		ci.RecvT = c.Value.Type()
		// devirtualise a receiver whose concrete type is known
		if ci.Recv.k == KIface {
			if fn, recv := e.concreteMethod(ci.Recv, c.Method); fn != nil {
				ci.Fn = fn
				ci.Recv = recv
				if o, ok := fn.Object().(*types.Func); ok {
					ci.Obj = o
				}
				ci.RecvT = recv.typ
			}
		}
		return ci
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		ci.Builtin = v.Name()
		return ci
	}
	fv := e.eval(fr, st, c.Value)
	ci.FnVal = fv
	e.bindFn(ci, fv)
	return ci
}

func (e *Eng) bindFn(ci *CallInfo, fv *Val) {
	switch fv.k {
	case KFunc, KClosure:
		fn := fv.fn
		if o := fn.Origin(); o != nil {
			fn = o
		}
		ci.Fn = fn
		if fv.k == KClosure {
			ci.Closure = fv
		}
		if o, ok := fn.Object().(*types.Func); ok {
			ci.Obj = o.Origin()
			sig := o.Type().(*types.Signature)
			if sig.Recv() != nil && len(ci.Args) > 0 && fn.Signature.Recv() != nil {
				ci.Recv = ci.Args[0]
				ci.Args = ci.Args[1:]
				ci.RecvT = sig.Recv().Type()
			}
		}
	}
}

func (e *Eng) concreteMethod(recv *Val, m *types.Func) (fn *ssa.Function, rv *Val) {
	defer func() {
		if recover() != nil {
			fn, rv = nil, nil
		}
	}()
	t := recv.typ
	if t == nil {
		return nil, nil
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return nil, nil
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil, nil
	}
	obj, idx, _ := types.LookupFieldOrMethod(t, true, m.Pkg(), m.Name())
	f, ok := obj.(*types.Func)
	if !ok || len(idx) != 1 {
		return nil, nil
	}
	f = f.Origin()
	if !inRepo(f.Pkg()) {
		// still useful: the concrete library method
		return nil, nil
	}
	fn = e.P.SSA.FuncValue(f)
	if fn == nil || fn.Blocks == nil {
		return nil, nil
	}
	v := recv.a[0]
	// value in interface, pointer-receiver mismatch cannot happen; value receiver
	// through pointer: load
	_, rp := f.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
	_, vp := t.Underlying().(*types.Pointer)
	if vp && !rp {
		v = e.u.mk(Val{k: KLoad, a: []*Val{v}, typ: deref(t)})
	}
	return fn, v
}

// pure library functions by package; everything else in these packages that is
// listed in impure is excluded.
var purePkgs = map[string]bool{
	"path": true, "path/filepath": true, "strings": true, "strconv": true, "errors": true,
	"unicode": true, "unicode/utf8": true, "cmp": true, "math": true, "math/bits": true,
	"time": true, "net/textproto": true, "mime": true, "encoding/hex": true,
}
var impure = map[string]bool{
	"path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Abs": true, "path/filepath.EvalSymlinks": true,
	"path/filepath.Glob": true, "time.Now": true, "time.Sleep": true, "time.After": true, "time.AfterFunc": true,
	"time.NewTimer": true, "time.NewTicker": true, "time.Since": true, "errors.As": false,
}

func pureCall(c *CallInfo) (string, bool) {
	if c.Obj == nil || c.IsInvoke() && c.Fn == nil {
		// interface methods of value-like library interfaces
		if c.Obj != nil && c.IsInvoke() {
			n := c.Full()
			if strings.HasSuffix(n, ".error.Error") || n == "error.Error" {
				return "error.Error", true
			}
			if c.PkgPath() == "io/fs" && c.RecvName() == "FileInfo" {
				return "io/fs.FileInfo." + c.Name(), true
			}
			if c.PkgPath() == "io/fs" && c.RecvName() == "DirEntry" && c.Name() != "Info" {
				return "io/fs.DirEntry." + c.Name(), true
			}
		}
		return "", false
	}
	p := c.PkgPath()
	sig := c.Obj.Type().(*types.Signature)
	full := p + "." + c.Name()
	if sig.Recv() != nil {
		rn := c.RecvName()
		switch {
		case p == "io/fs" && rn == "FileMode":
			return p + "." + rn + "." + c.Name(), true
		case p == "time" && (rn == "Time" || rn == "Duration" || rn == "Month"):
			return p + "." + rn + "." + c.Name(), true
		case p == "net/url" && rn == "URL" && (c.Name() == "String" || c.Name() == "Redacted" || c.Name() == "EscapedPath"):
			return p + "." + rn + "." + c.Name(), true
		case p == "net/http" && rn == "Header" && (c.Name() == "Get" || c.Name() == "Values"):
			return "", false // headers change
		case p == "syscall" && rn == "Errno":
			return p + "." + rn + "." + c.Name(), true
		}
		return "", false
	}
	if purePkgs[p] {
		if impure[full] {
			return "", false
		}
		return full, true
	}
	switch full {
	case "fmt.Sprintf", "fmt.Errorf", "fmt.Sprint", "fmt.Sprintln", "io/fs.ValidPath", "bytes.Equal", "bytes.Compare",
		"slices.Contains", "slices.Equal", "slices.Index", "io/fs.FileInfoToDirEntry", "io/fs.FormatFileInfo",
		"net/http.CanonicalHeaderKey", "net/http.StatusText", "net/url.PathEscape", "net/url.QueryEscape":
		return full, true
	}
	return "", false
}

// flatten expands a variadic slice built at the call site.
func (e *Eng) flatten(st *State, c *CallInfo) []*Val {
	args := c.Args
	if c.Obj == nil {
		return args
	}
	sig := c.Obj.Type().(*types.Signature)
	if !sig.Variadic() || len(args) == 0 {
		return args
	}
	last := args[len(args)-1]
	out := append([]*Val(nil), args[:len(args)-1]...)
	el, ok := e.elems(st, last)
	if !ok {
		return args
	}
	return append(out, el...)
}

// elems lists the elements of a slice literal, in order.
func (e *Eng) elems(st *State, s *Val) ([]*Val, bool) {
	if s.isNilConst() {
		return nil, true
	}
	b := s
	if b.k == KSlice {
		b = b.a[0]
	}
	if b.k != KAlloc {
		return nil, false
	}
	m := map[int64]*Val{}
	mx := int64(-1)
	for k, v := range st.heap {
		if k.k == KIndex && k.a[0] == b {
			n, ok := k.a[1].constInt()
			if !ok {
				return nil, false
			}
			m[n] = v
			if n > mx {
				mx = n
			}
		}
	}
	var out []*Val
	for i := int64(0); i <= mx; i++ {
		v := m[i]
		if v == nil {
			v = e.u.mk(Val{k: KConst})
		}
		out = append(out, v)
	}
	return out, true
}

func (e *Eng) call(fr *Frame, st *State, c *CallInfo) []CallOut {
	e.Calls++
	c.fr = fr
	if c.Builtin != "" {
		return e.builtin(fr, st, c)
	}
	if e.OnCall != nil {
		if outs, ok := e.OnCall(e, st, c); ok {
			return outs
		}
	}
	// known models
	if outs, ok := e.model(fr, st, c); ok {
		for _, o := range outs {
			if e.OnPost != nil {
				e.OnPost(e, o.St, c, o.Res, false)
			}
		}
		return outs
	}
	fn := c.Fn
	if fn != nil && fn.Blocks != nil && (fn.Pkg == nil || inRepoFn(fn)) && !(e.Opaque != nil && e.Opaque(c)) {
		if !fr.ctx.has(fn) && fr.ctx.depth < e.depthMax {
			if (e.Relevant == nil || e.Relevant[fn] || e.P.small(fn)) && (e.NoInline == nil || !e.NoInline(c)) {
				return e.inline(fr, st, c)
			}
		} else {
			c.Rec = true
		}
	}
	return e.opaque(fr, st, c)
}

func inRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return inRepo(fn.Pkg.Pkg)
	}
	if o := fn.Object(); o != nil {
		return inRepo(o.Pkg())
	}
	return fn.Synthetic != ""
}

func (e *Eng) inline(fr *Frame, st *State, c *CallInfo) []CallOut {
	fn := c.Fn
	args := c.Args
	if c.Recv != nil {
		args = append([]*Val{c.Recv}, c.Args...)
	}
	var free []*Val
	if c.Closure != nil {
		free = c.Closure.a
	}
	saved := st.env
	nf := &Frame{fn: fn, ctx: e.u.ctx(fr.ctx, c.Instr, fn), parent: fr, free: free, call: c}
	savedDefers := st.defers
	if fr.roots == nil {
		fr.roots = e.liveRoots(fr, st)
	}
	outs := e.exec(nf, st.clone(), args)
	var res []CallOut
	for _, o := range outs {
		o.st.env = cp(saved)
		o.st.defers = savedDefers
		var r *Val
		switch len(o.res) {
		case 0:
			r = e.u.mk(Val{k: KTuple})
		case 1:
			r = o.res[0]
		default:
			r = e.u.mk(Val{k: KTuple, a: o.res})
		}
		if e.OnPost != nil {
			e.OnPost(e, o.st, c, r, true)
		}
		res = append(res, CallOut{o.st, r})
	}
	return res
}

func (e *Eng) resultTerm(fr *Frame, c *CallInfo) *Val {
	site := e.u.site(fr.ctx, c.Instr)
	if c.Defer {
		site = e.u.site(fr.ctx, deferKey{c.Instr})
	}
	name := c.Full()
	if c.FnVal != nil && c.Fn == nil {
		name = "dyn"
	}
	var in []*Val
	if c.Recv != nil {
		in = append(in, c.Recv)
	} else if c.FnVal != nil && c.Fn == nil {
		in = append(in, c.FnVal)
	}
	in = append(in, c.Args...)
	// the call's identity is its site; arguments are provenance only
	call := e.u.mk(Val{k: KCall, s: name, site: site})
	for _, x := range in {
		addIn(call, x)
	}
	rt := c.Common.Signature().Results()
	switch rt.Len() {
	case 0:
		return e.u.mk(Val{k: KTuple})
	case 1:
		return e.u.mk(Val{k: KRes, n: 0, a: []*Val{call}, typ: rt.At(0).Type()})
	}
	var rs []*Val
	for i := 0; i < rt.Len(); i++ {
		rs = append(rs, e.u.mk(Val{k: KRes, n: i, a: []*Val{call}, typ: rt.At(i).Type()}))
	}
	return e.u.mk(Val{k: KTuple, a: rs})
}

type deferKey struct{ i ssa.Instruction }

func (e *Eng) opaque(fr *Frame, st *State, c *CallInfo) []CallOut {
	site := e.u.site(fr.ctx, c.Instr).id
	if isSyncOp(c) || c.Rec || (c.Fn == nil && !c.IsInvoke()) || (c.Fn != nil && inRepoFn(c.Fn) && c.Fn.Blocks != nil) {
		e.havocAll(st, site)
	}
	var clos []*Val
	for _, a := range e.flattenAny(st, c) {
		b := a.strip()
		if (b.k == KClosure || b.k == KFunc) && b.fn.Blocks != nil && inRepoFn(b.fn) {
			clos = append(clos, b)
		}
	}
	e.leakArgs(fr, st, c, site)
	res := e.resultTerm(fr, c)
	outs := []*State{st}
	// a callback may run, or not
	for _, cl := range clos {
		if fr.ctx.has(cl.fn) || fr.ctx.depth >= e.depthMax {
			continue
		}
		var nx []*State
		for _, s := range outs {
			nx = append(nx, s)
			nx = append(nx, e.callback(fr, s, c, cl)...)
		}
		outs = e.dedupe(nx)
	}
	var r []CallOut
	for _, s := range outs {
		if e.OnPost != nil {
			e.OnPost(e, s, c, res, false)
		}
		r = append(r, CallOut{s, res})
	}
	return r
}

func (e *Eng) flattenAny(st *State, c *CallInfo) []*Val {
	return c.Args
}

// callback runs a closure handed to code we do not see.
func (e *Eng) callback(fr *Frame, st *State, c *CallInfo, cl *Val) []*State {
	var out []*State
	for _, o := range e.callbackRes(fr, st, c, cl) {
		out = append(out, o.st)
	}
	return out
}

// callbackRes is callback, with what the closure returned.
func (e *Eng) callbackRes(fr *Frame, st *State, c *CallInfo, cl *Val) []Out {
	fn := cl.fn
	if o := fn.Origin(); o != nil {
		fn = o
	}
	ci := &CallInfo{Instr: c.Instr, Common: c.Common, Fn: fn, fr: fr}
	if cl.k == KClosure {
		ci.Closure = cl
	}
	var args []*Val
	for i, p := range fn.Params {
		args = append(args, e.u.mk(Val{k: KRes, n: 100 + i, a: []*Val{e.u.mk(Val{k: KCall, s: "cb", site: e.u.site(fr.ctx, c.Instr)})}, typ: p.Type()}))
	}
	ci.Args = args
	s := st.clone()
	var out []Out
	saved := st.env
	nf := &Frame{fn: fn, ctx: e.u.ctx(fr.ctx, c.Instr, fn), parent: fr, call: ci}
	if ci.Closure != nil {
		nf.free = ci.Closure.a
	}
	sd := st.defers
	for _, o := range e.exec(nf, s, args) {
		o.st.env = cp(saved)
		o.st.defers = sd
		out = append(out, o)
	}
	return out
}

func isSyncOp(c *CallInfo) bool {
	return c.PkgPath() == "sync" || c.PkgPath() == "sync/atomic"
}

func (e *Eng) builtin(fr *Frame, st *State, c *CallInfo) []CallOut {
	if e.OnCall != nil {
		if outs, ok := e.OnCall(e, st, c); ok {
			return outs
		}
	}
	u := e.u
	var r *Val
	switch c.Builtin {
	case "len", "cap", "min", "max", "real", "imag":
		if s, ok := c.Args[0].constStr(); ok && c.Builtin == "len" {
			r = e.intc(int64(len(s)))
			break
		}
		if c.Builtin == "len" && c.Args[0].isNilConst() {
			r = e.intc(0)
			break
		}
		ep := 0
		if v, ok := c.Instr.(ssa.Value); ok {
			if len(c.Common.Args) > 0 {
				if _, isMap := c.Common.Args[0].Type().Underlying().(*types.Map); isMap {
					ep = e.epoch(st, c.Args[0])
				}
			}
			_ = v
		}
		r = u.mk(Val{k: KPure, s: c.Builtin, a: c.Args, n: ep, typ: types.Typ[types.Int]})
	case "append":
		r = u.mk(Val{k: KPure, s: "append", a: c.Args, typ: c.Common.Signature().Results().At(0).Type()})
	case "copy":
		s := u.site(fr.ctx, c.Instr)
		call := u.mk(Val{k: KCall, s: "copy", site: s})
		for _, a := range c.Args {
			addIn(call, a)
		}
		r = u.mk(Val{k: KRes, n: 0, a: []*Val{call}, typ: types.Typ[types.Int]})
	case "delete":
		if e.OnMap != nil {
			e.OnMap(e, fr, st, c.Args[0], c.Args[1], true, c.Instr)
		}
		e.bump(st, c.Args[0], u.site(fr.ctx, c.Instr).id)
		r = u.mk(Val{k: KTuple})
	case "clear":
		e.bump(st, c.Args[0], u.site(fr.ctx, c.Instr).id)
		r = u.mk(Val{k: KTuple})
	case "panic":
		return nil
	case "recover":
		r = u.mk(Val{k: KConst})
	default:
		r = u.mk(Val{k: KOther, s: c.Builtin, site: u.site(fr.ctx, c.Instr)})
	}
	if e.OnPost != nil {
		e.OnPost(e, st, c, r, false)
	}
	return []CallOut{{st, r}}
}

func (e *Eng) intc(n int64) *Val {
	return e.u.mk(Val{k: KConst, cv: mkInt(n), typ: types.Typ[types.Int]})
}

func (e *Eng) model(fr *Frame, st *State, c *CallInfo) ([]CallOut, bool) {
	u := e.u
	full := c.Full()
	one := func(r *Val) ([]CallOut, bool) { return []CallOut{{st, r}}, true }
	switch full {
	case "errors.New", "fmt.Errorf":
		args := e.flatten(st, c)
		r := u.mk(Val{k: KPure, s: full, a: args, typ: types.Universe.Lookup("error").Type()})
		st.facts[r] = FNonNil
		return one(r)
	case "errors.Join":
		args := e.flatten(st, c)
		var rest []*Val
		non := false
		for _, a := range args {
			switch e.nilness(st, a) {
			case FNil:
				continue
			case FNonNil:
				non = true
			}
			rest = append(rest, a)
		}
		if _, ok := e.elems(st, c.Args[0]); !ok {
			r := u.mk(Val{k: KPure, s: full, a: c.Args, typ: types.Universe.Lookup("error").Type()})
			return one(r)
		}
		if len(rest) == 0 {
			return one(u.mk(Val{k: KConst}))
		}
		r := u.mk(Val{k: KPure, s: full, a: rest, typ: types.Universe.Lookup("error").Type()})
		if non {
			st.facts[r] = FNonNil
			return one(r)
		}
		// nil exactly when every argument is
		var outs []CallOut
		s2 := st.clone()
		for _, a := range rest {
			s2.facts[a] = FNil
		}
		outs = append(outs, CallOut{s2, u.mk(Val{k: KConst})})
		for i, a := range rest {
			s3 := st.clone()
			for _, b := range rest[:i] {
				s3.facts[b] = FNil
			}
			s3.facts[a] = FNonNil
			s3.facts[r] = FNonNil
			outs = append(outs, CallOut{s3, r})
		}
		return outs, true
	case "sync/atomic.Pointer.Load":
	}
	if n, ok := pureCall(c); ok {
		args := e.flatten(st, c)
		if c.Recv != nil {
			args = append([]*Val{c.Recv}, args...)
		}
		rt := c.Common.Signature().Results()
		// callbacks passed to pure helpers still run
		for _, a := range c.Args {
			b := a.strip()
			if (b.k == KClosure || b.k == KFunc) && b.fn.Blocks != nil && inRepoFn(b.fn) {
				return nil, false
			}
		}
		if n == "errors.As" || n == "errors.AsType" {
			e.leakArgs(fr, st, c, e.u.site(fr.ctx, c.Instr).id)
		}
		if n == "errors.AsType" {
			// which error is looked for is part of the question
			args = append(args, u.mk(Val{k: KPure, s: "type:" + rt.At(0).Type().String(), typ: rt.At(0).Type()}))
		}
		if r := e.foldPure(st, n, args); r != nil {
			return one(r)
		}
		if rt.Len() == 1 {
			return one(u.mk(Val{k: KPure, s: n, a: args, typ: rt.At(0).Type()}))
		}
		var rs []*Val
		for i := 0; i < rt.Len(); i++ {
			rs = append(rs, u.mk(Val{k: KPure, s: n, n: i, a: args, typ: rt.At(i).Type()}))
		}
		return one(u.mk(Val{k: KTuple, a: rs}))
	}
	// sync.Once and friends run their callback at most once
	return nil, false
}

func (e *Eng) foldPure(st *State, n string, a []*Val) *Val {
	switch n {
	case "path/filepath.Clean", "path.Clean":
		if a[0].k == KPure && a[0].s == n {
			return a[0]
		}
		if s, ok := a[0].constStr(); ok && s == "" {
			return e.u.mk(Val{k: KConst, cv: mkStr("."), typ: types.Typ[types.String]})
		}
	case "path/filepath.FromSlash", "path/filepath.ToSlash":
		if s, ok := a[0].constStr(); ok && !strings.ContainsAny(s, "/\\") {
			return a[0]
		}
	}
	return nil
}

// Stack renders the inlining chain of a frame, innermost first.
func (e *Eng) Stack(fr *Frame, in ssa.Instruction) string {
	var parts []string
	if in != nil {
		parts = append(parts, e.P.rel(instrPos(in)))
	}
	for c := fr.ctx; c != nil; c = c.parent {
		s := fnName(c.fn)
		if c.call != nil {
			s += " <- " + e.P.rel(instrPos(c.call))
		}
		parts = append(parts, s)
		if len(parts) > 9 {
			break
		}
	}
	return strings.Join(parts, " in ")
}

var _ = fmt.Sprint
