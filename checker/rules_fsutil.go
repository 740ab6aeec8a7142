package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C20"] = checkSafeWrite
}

// origin looks for a value v was made from, through the operands of calls too.
func origin(v *Val, pred func(x *Val) bool) bool {
	seen := map[*Val]bool{}
	var rec func(x *Val) bool
	rec = func(x *Val) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.a {
			if rec(a) {
				return true
			}
		}
		if x.k == KCall || x.k == KPhi {
			for _, a := range x.in {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

// callArgs: the arguments without the receiver.
func callArgs(ci *CallInfo) []*Val {
	if n := ci.Common.Signature().Params().Len(); len(ci.Args) > n {
		return ci.Args[len(ci.Args)-n:]
	}
	return ci.Args
}

// fsMutators: methods of a filesystem that change what is at the names they are given.
var fsMutators = map[string]bool{
	"Chmod": true, "Chown": true, "Lchown": true, "Chtimes": true, "Link": true, "Symlink": true, "Create": true,
	"Mkdir": true, "MkdirAll": true, "Rename": true, "Remove": true, "RemoveAll": true, "Truncate": true, "WriteFile": true,
}

// onFs: a call of a method of the filesystem parameter a function was given.
func onFs(ci *CallInfo) bool {
	return ci.IsInvoke() && ci.Recv != nil && ci.RecvT != nil && hasMethods(ci.RecvT, "OpenFile")
}

func isFuncSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Signature)
	return ok
}

// hookSlice: the slice a called function value is an element of.
func hookSlice(v *Val) *Val {
	for v != nil {
		v = v.strip()
		switch v.k {
		case KLoad:
			v = v.a[0]
		case KIndex:
			b := v.a[0].strip()
			for b.k == KSlice || b.k == KConv {
				b = b.a[0].strip()
			}
			return b
		default:
			return nil
		}
	}
	return nil
}

// sliceKey names a hook slice whichever way it was read.
func sliceKey(v *Val) string {
	if n, ok := isParam(v); ok {
		return "p" + string(rune('0'+n))
	}
	if v.k == KLoad && v.a[0].k == KField {
		return v.a[0].fld.Name()
	}
	if v.k == KFieldVal {
		return v.fld.Name()
	}
	return v.path()
}

func recvNamed(fn *ssa.Function) string {
	if fn.Signature.Recv() == nil {
		return ""
	}
	if n := namedOf(fn.Signature.Recv().Type()); n != nil {
		return n.Obj().Name()
	}
	return ""
}

func checkSafeWrite(c *Ck) {
	c.Rule("publish", "the target name is touched by one rename only, whose source is the temporary, made after every hook and the writing step succeeded and the temporary was closed", 3)
	c.Rule("hooks", "every configured and given hook has run before the rename", 3)
	c.Rule("cleanup", "once the temporary exists, every return without a completed rename closes and removes it", 3)
	c.Rule("success", "success is reported only after the rename succeeded", 3)
	c.Rule("exclusive", "a random name is created with O_CREATE and O_EXCL and tried again only after it existed already, a bounded number of times", 2)
	c.Rule("leftover", "a directory made under a random name does not stay when it cannot be opened", 1)
	c.Rule("sweep", "a cleanup walk removes nothing but the path it was called for, and that only if it matches the policy", 2)
	p := c.P
	for _, fn := range p.exportedFuncs() {
		if pkgRel(fn.Pkg.Pkg) != "fsutil" {
			continue
		}
		switch {
		case recvNamed(fn) == "SafeWriteOption" && (fn.Name() == "Write" || fn.Name() == "Copy" || fn.Name() == "CopyFs"):
			safeWriteEntry(c, fn)
		case fn.Name() == "OpenFileRandom" || fn.Name() == "MkdirRandom":
			randomEntry(c, fn)
		case fn.Name() == "WalkFunc":
			sweepEntry(c, fn)
		}
	}
}

// isTempMaker: (File, string, error) results of the policy.
func isTempMaker(ci *CallInfo) bool {
	r := ci.Common.Signature().Results()
	return (ci.Name() == "Create" || ci.Name() == "Mkdir") && r.Len() == 3 && isStringType(r.At(1).Type()) && isErrorType(r.At(2).Type())
}

func safeWriteEntry(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	var hooks []string // hook slices given as parameters or kept in the receiver
	for i, q := range fn.Params {
		if isFuncSlice(q.Type()) {
			hooks = append(hooks, "p"+string(rune('0'+i)))
		}
	}
	if s := structOf(fn.Signature.Recv().Type()); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if isFuncSlice(s.Field(i).Type()) {
				hooks = append(hooks, s.Field(i).Name())
			}
		}
	}
	nameIdx := -1
	for i, q := range fn.Params {
		if isStringType(q.Type()) {
			nameIdx = i
			break
		}
	}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.NoInline = func(ci *CallInfo) bool {
			return isTempMaker(ci) || ci.Fn != nil && recvNamed(ci.Fn) == "CopyFsOption"
		}
		isName := func(v *Val) bool {
			n, ok := isParam(stripClean(unconv(v)))
			return ok && n == nameIdx
		}
		isTmpPath := func(st *State, v *Val) bool {
			f, d := marked(st, "tmp"), marked(st, "dir")
			return f != nil && d != nil && origin(v, func(x *Val) bool { return x == f }) && origin(v, func(x *Val) bool { return x == d })
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if truth && cond.contains(func(x *Val) bool {
				return (x.k == KField || x.k == KFieldVal) && x.fld != nil && x.fld.Name() == "IgnoreCloseErr"
			}) {
				for v, k := range st.S {
					if k == "need:close" {
						delete(st.S, v)
					}
				}
			}
			// the end of a loop over a slice of hooks
			if cond.k == KBin && cond.s == "<" && !truth {
				if l := cond.a[1].strip(); l.k == KPure && l.s == "len" && len(l.a) == 1 && isFuncSlice(l.a[0].typ) {
					st.T["over:"+sliceKey(l.a[0].strip())] = "1"
				}
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Name() == "Close" && ci.Recv != nil && st.S[ci.Recv.strip()] == "tmp" {
				st.T["closed"] = "1"
			}
			if !onFs(ci) {
				return nil, false
			}
			args := callArgs(ci)
			switch name := ci.Name(); {
			case name == "Rename" && len(args) == 2:
				c.Did("publish", what)
				if !isTmpPath(st, args[0]) {
					c.BadAt("publish", what+": source", e, ci.fr, ci.Instr, "what is renamed is %s, not the temporary", args[0])
				}
				if !isName(args[1]) {
					c.BadAt("publish", what+": target", e, ci.fr, ci.Instr, "the temporary is renamed to %s, not to the target name", args[1])
				}
				if st.T["wrote"] == "" {
					c.BadAt("publish", what+": empty", e, ci.fr, ci.Instr, "the temporary is renamed before anything was written to it")
				}
				if st.T["closed"] == "" {
					c.BadAt("publish", what+": open", e, ci.fr, ci.Instr, "the temporary is renamed before it is closed")
				}
				for v, k := range st.S {
					if strings.HasPrefix(k, "need:") && e.nilness(st, v) != FNil {
						c.BadAt("publish", what+": "+k[5:], e, ci.fr, ci.Instr, "the temporary is renamed although %s may have failed", k[5:])
					}
				}
				for _, h := range hooks {
					c.Did("hooks", what)
					if st.T["over:"+h] == "" {
						c.BadAt("hooks", what+": "+h, e, ci.fr, ci.Instr, "the temporary is renamed before every hook of %s has run", h)
					}
				}
			case name == "Remove" || name == "RemoveAll":
				if len(args) == 1 && isTmpPath(st, args[0]) {
					st.T["removed"] = "1"
				} else if len(args) == 1 && isName(args[0]) {
					c.BadAt("publish", what+": removal", e, ci.fr, ci.Instr, "the target name is removed")
				}
			default:
				for _, a := range args {
					if a.typ != nil && isStringType(a.typ) && isName(a) && (fsMutators[name] || name == "OpenFile") {
						c.BadAt("publish", what+": direct", e, ci.fr, ci.Instr, "%s is called on the target name itself", name)
					}
				}
			}
			return nil, false
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined {
				return
			}
			switch {
			case isTempMaker(ci):
				st.S[resOf(res, 0).strip()] = "tmp"
				st.S[resOf(res, 1).strip()] = "dir"
				st.S[resOf(res, 2).strip()] = "made"
			case ci.FnVal != nil && ci.Fn == nil && ci.Builtin == "":
				er := errOf(ci, res)
				if er == nil {
					return
				}
				if h := hookSlice(ci.FnVal); h != nil {
					st.S[er.strip()] = "need:a hook"
					return
				}
				st.T["wrote"] = "1"
				st.S[er.strip()] = "need:the writing step"
			case ci.Fn != nil && recvNamed(ci.Fn) == "CopyFsOption", strings.HasPrefix(ci.Name(), "Copy") && ci.PkgPath() == "io":
				if er := errOf(ci, res); er != nil {
					st.T["wrote"] = "1"
					st.S[er.strip()] = "need:the writing step"
				}
			case ci.Name() == "Close" && ci.Recv != nil && st.S[ci.Recv.strip()] == "tmp":
				if er := errOf(ci, res); er != nil {
					st.S[er.strip()] = "need:close"
				}
			case onFs(ci) && ci.Name() == "Rename":
				st.S[errOf(ci, res).strip()] = "renamed"
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			m, r := marked(st, "made"), marked(st, "renamed")
			renamed := r != nil && e.nilness(st, r) == FNil
			if !renamed && r != nil && e.nilness(st, res[ei]) != FNonNil {
				for _, x := range wrapped(res[ei]) {
					renamed = renamed || x.strip() == r
				}
			}
			if m != nil && e.nilness(st, m) != FNonNil {
				c.Did("cleanup", what)
				if (r == nil || e.nilness(st, r) != FNil) && (st.T["removed"] == "" || st.T["closed"] == "") {
					c.BadAt("cleanup", what, e, nil, in, "%s may return without having closed and removed its temporary", what)
				}
			}
			if e.nilness(st, res[ei]) != FNonNil {
				c.Did("success", what)
				if !renamed {
					c.BadAt("success", what, e, nil, in, "%s may report success without a completed rename", what)
				}
			}
		}
		return e
	}, fn, nil)
}

func randomEntry(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	mk := fn.Name() == "MkdirRandom"
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		isMake := func(ci *CallInfo) bool {
			return onFs(ci) && (mk && ci.Name() == "Mkdir" || !mk && ci.Name() == "OpenFile")
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if isPure(cond, "errors.Is") && truth && strings.HasSuffix(cond.a[1].String(), "ErrExist") && st.S[cond.a[0].strip()] != "" {
				st.T["existed"] = "1"
			}
			if isPure(cond, "okassert") && !truth && hasMethods(cond.a[1].typ, "Remove") {
				st.T["removed"] = "cannot"
			}
			if cond.k == KBin && (cond.s == "<" || cond.s == "==") {
				for i := 0; i < 2; i++ {
					if _, ok := cond.a[i].constInt(); ok && isIntType(cond.a[1-i].typ) && truth == (cond.s == "<" && i == 1) {
						st.T["counted"] = "1"
					}
				}
			}
			if cond.k == KBin && cond.s == "==" && truth {
				for i := 0; i < 2; i++ {
					if cond.a[1-i].isNilConst() && st.S[cond.a[i].strip()] == "made" {
						st.T["ok"] = "1"
					}
				}
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			args := callArgs(ci)
			switch {
			case isMake(ci):
				c.Did("exclusive", what)
				if st.T["tried"] != "" && (st.T["existed"] == "" || st.T["counted"] == "" && st.T["tried"] == "2") {
					c.BadAt("exclusive", what+": retry", e, ci.fr, ci.Instr, "another name may be tried although the last one did not exist already, or without counting the tries")
				}
				if !mk {
					if f, ok := args[1].constInt(); !ok || f&0x40 == 0 || f&0x80 == 0 {
						c.BadAt("exclusive", what+": flags", e, ci.fr, ci.Instr, "the file is not created with O_CREATE and O_EXCL")
					}
				}
				if len(args) > 0 && !(st.fact(func(v *Val, f int8) bool {
					return f == FFalse && v.k == KPure && strings.HasPrefix(v.s, "strings.Contains") && isParamVal(v.a[0])
				})) {
					c.BadAt("exclusive", what+": separator", e, ci.fr, ci.Instr, "the pattern may hold a path separator")
				}
				if st.T["tried"] != "" {
					st.T["tried"] = "2" // the first count is a constant
				} else {
					st.T["tried"] = "1"
				}
				for _, k := range []string{"existed", "counted", "ok"} {
					delete(st.T, k)
				}
				for v := range st.S {
					delete(st.S, v)
				}
			case onFs(ci) && ci.Name() == "OpenFile":
				if st.T["ok"] == "" {
					c.BadAt("leftover", what+": order", e, ci.fr, ci.Instr, "the directory is opened although making it may have failed")
				}
			case (ci.Name() == "Remove" || ci.Name() == "RemoveAll") && len(args) == 1:
				if st.T["ok"] == "" {
					c.BadAt("leftover", what+": foreign", e, ci.fr, ci.Instr, "something this call did not make is removed")
				}
				st.T["removed"] = "1"
			}
			return nil, false
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			switch {
			case inlined:
			case isMake(ci):
				st.S[errOf(ci, res).strip()] = "made"
			case onFs(ci) && ci.Name() == "OpenFile":
				st.S[errOf(ci, res).strip()] = "open"
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if mk && e.nilness(st, res[ei]) == FNonNil && st.T["ok"] != "" {
				c.Did("leftover", what)
				if st.T["removed"] == "" {
					c.BadAt("leftover", what, e, nil, in, "%s may leave its directory behind when it fails", what)
				}
			}
			if e.nilness(st, res[ei]) != FNonNil && st.T["ok"] == "" {
				c.BadAt("exclusive", what+": result", e, nil, in, "%s may report success although nothing was made", what)
			}
		}
		return e
	}, fn, nil)
}

func isParamVal(v *Val) bool { _, ok := isParam(unconv(v)); return ok }

func sweepEntry(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.NoInline = func(ci *CallInfo) bool { return ci.Name() == "Match" && ci.Fn != nil && inRepoFn(ci.Fn) }
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if !onFs(ci) || !fsMutators[ci.Name()] {
				return nil, false
			}
			c.Did("sweep", what)
			args := callArgs(ci)
			if ci.Name() != "Remove" && ci.Name() != "RemoveAll" || len(args) != 1 {
				c.BadAt("sweep", what+": "+ci.Name(), e, ci.fr, ci.Instr, "a cleanup walk calls %s", ci.Name())
				return nil, false
			}
			path := stripSlash(args[0])
			if !isParamVal(path) {
				c.BadAt("sweep", what+": other", e, ci.fr, ci.Instr, "a cleanup walk removes %s, not the path it was called for", args[0])
			}
			if st.T["matched:"+path.path()] == "" {
				c.BadAt("sweep", what+": unmatched", e, ci.fr, ci.Instr, "a cleanup walk may remove a path that does not match the policy")
			}
			return nil, false
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if args := callArgs(ci); ci.Name() == "Match" && len(args) == 1 {
				st.S[res] = "match:" + stripSlash(args[0]).path()
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if k := st.S[cond]; truth && strings.HasPrefix(k, "match:") {
				st.T["matched:"+k[6:]] = "1"
			}
		}
		return e
	}, fn, nil)
}

// stripSlash removes cleaning and slash conversion around a path.
func stripSlash(v *Val) *Val {
	for v != nil {
		v = unconv(v)
		if isPure(v, "path/filepath.FromSlash", "path/filepath.ToSlash", "path/filepath.Clean", "path.Clean") {
			v = v.a[0]
			continue
		}
		return v
	}
	return v
}
