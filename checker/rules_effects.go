package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C19"] = checkErrorsKept
}

// stepNames: operations that change what a filesystem or a file holds.
var stepNames = map[string]bool{
	"Write": true, "WriteString": true, "WriteAt": true, "Truncate": true, "Sync": true, "ReadFrom": true, "WriteTo": true,
	"Chmod": true, "Chown": true, "Lchown": true, "Chtimes": true, "Link": true, "Symlink": true,
	"Mkdir": true, "MkdirAll": true, "Rename": true, "Remove": true, "RemoveAll": true, "WriteFile": true,
	"Copy": true, "CopyN": true, "CopyBuffer": true, "Exec": true, "ExecContext": true, "Commit": true, "Append": true, "Put": true,
	"SetWhiteout": true, "ClearWhiteout": true, "SetOpaque": true, "ClearOpaque": true, "CopyUp": true,
}

func libStep(ci *CallInfo) bool {
	if !stepNames[ci.Name()] || errResult(ci.Common.Signature()) < 0 {
		return false
	}
	return !inMemory(ci.PkgPath()) && ci.PkgPath() != "net/http"
}

// inMemory: writing to these only fills memory.
func inMemory(p string) bool {
	return strings.HasPrefix(p, "hash") || p == "strings" || p == "bytes" || p == "bufio"
}

func ssaBuffer(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	n := namedOf(v.Type())
	return n != nil && n.Obj().Pkg() != nil && inMemory(n.Obj().Pkg().Path()) && n.Obj().Pkg().Path() != "bufio"
}

// writesIn: the operand a library copy writes to, or the receiver of a write.
func writesIn(ci *CallInfo) *Val {
	switch ci.Name() {
	case "Write", "WriteString", "WriteAt", "Truncate", "ReadFrom":
		if ci.Recv != nil {
			return ci.Recv
		}
		if len(ci.Args) > 0 {
			return ci.Args[0]
		}
	case "Copy", "CopyN", "CopyBuffer":
		if len(ci.Args) > 0 {
			return ci.Args[0]
		}
	}
	return nil
}

func isDiscard(v *Val) bool {
	return v != nil && v.contains(func(x *Val) bool {
		return x.k == KGlobal && strings.HasSuffix(x.s, "io.Discard") || x.k == KLoad && strings.HasSuffix(x.a[0].String(), "io.Discard")
	})
}

func ssaDiscard(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		g, ok := u.X.(*ssa.Global)
		return ok && g.String() == "io.Discard"
	}
	return false
}

// ordinal tells same-named calls of one function apart.
func ordinal(in ssa.Instruction) string {
	n := 1
	for _, b := range in.Parent().Blocks {
		for _, x := range b.Instrs {
			if x == in {
				if n == 1 {
					return ""
				}
				return "#" + string(rune('0'+n%10))
			}
			if _, ok := x.(ssa.CallInstruction); ok && siteName(x) == siteName(in) {
				n++
			}
		}
	}
	return ""
}

func checkErrorsKept(c *Ck) {
	c.Rule("kept", "a function reports success only if every change it made on the path succeeded, was tolerated by a test for a particular error, or its error is part of the returned one", 60)
	p := c.P
	mut := p.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cm := cc.Common()
		name := ""
		if cm.IsInvoke() {
			name = cm.Method.Name()
		} else if f := cm.StaticCallee(); f != nil && !inRepoFn(f) {
			name = f.Name()
			if f.Pkg != nil && inMemory(f.Pkg.Pkg.Path()) {
				return false
			}
		}
		if strings.HasPrefix(name, "Copy") && len(cm.Args) > 0 && ssaBuffer(cm.Args[0]) {
			return false
		}
		if strings.HasPrefix(name, "Copy") && len(cm.Args) > 0 && ssaDiscard(cm.Args[0]) {
			return false
		}
		return stepNames[name] && errResult(cm.Signature()) >= 0
	})
	rel := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		rel[fn] = mut[fn]
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			rel[fn] = rel[fn] || isErrorType(fn.Signature.Params().At(i).Type())
		}
	}
	for _, fn := range p.Funcs {
		ei := errResult(fn.Signature)
		if ei < 0 || fn.Blocks == nil || !mut[fn] || fn.Pkg == nil || !inRepo(fn.Pkg.Pkg) || skipPkg(pkgRel(fn.Pkg.Pkg)) || isRangeFuncBody(fn) {
			continue
		}
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			e := newEng(p)
			e.NoInline = func(ci *CallInfo) bool {
				return ci.Fn != nil && ci.Fn.Parent() == nil && errResult(ci.Fn.Signature) >= 0 && mut[ci.Fn]
			}
			e.Relevant = rel
			done := func(st *State, v *Val) { // an earlier try of the same call no longer matters
				k := st.S[v]
				delete(st.S, v)
				if i := strings.Index(k, "|"); i >= 0 && strings.Contains(k, "step:") {
					for w, x := range st.S {
						if strings.Contains(x, "step:") && strings.HasSuffix(x, k[i:]) {
							delete(st.S, w)
						}
					}
				}
			}
			gone := func(st *State, v *Val) { // another look at the same name found it gone: so it is removed
				if v.k != KRes {
					return
				}
				for _, a := range v.a[0].in {
					if a.typ != nil && isStringType(a.typ) {
						for w, x := range st.S {
							if strings.Contains(x, "step:Remove") && strings.HasSuffix(x, ","+a.path()) {
								delete(st.S, w)
							}
						}
					}
				}
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				// an option telling to ignore the error of one kind of step
				if truth && cond.contains(func(x *Val) bool {
					return (x.k == KField || x.k == KFieldVal) && x.fld != nil && x.fld.Name() == "IgnoreCloseErr"
				}) {
					for v, k := range st.S {
						if strings.Contains(k, "step:Close") {
							delete(st.S, v)
						}
					}
				}
				if isPure(cond, "errors.Is", "errors.As", "errors.AsType") && truth {
					gone(st, cond.a[0].strip())
					done(st, cond.a[0].strip())
				}
				if cond.k == KBin && cond.s == "==" && !truth {
					for i := 0; i < 2; i++ {
						if x := cond.a[i].strip(); cond.a[1-i].isNilConst() && strings.HasPrefix(st.S[x], "step:") {
							st.S[x] = "failed " + st.S[x]
						}
					}
				}
				if cond.k == KBin && cond.s == "==" && truth {
					for i := 0; i < 2; i++ {
						if y := cond.a[1-i]; y.isNilConst() || isGlobalLoad(y) {
							done(st, cond.a[i].strip())
						}
					}
				}
			}
			tag := func(ci *CallInfo) string { return "step:" + ci.Name() + ordinal(ci.Instr) }
			full := func(ci *CallInfo) string {
				k := tag(ci) + "|" + ci.Full()
				for _, a := range ci.Args {
					k += "," + a.path()
				}
				return k
			}
			short := func(k string) string {
				k = strings.TrimPrefix(strings.TrimPrefix(k, "failed "), "step:")
				if i := strings.Index(k, "|"); i >= 0 {
					k = k[:i]
				}
				return k
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				t := tag(ci)
				for v, k := range st.S {
					switch {
					case strings.HasPrefix(k, "failed "+t+"|"):
						st.T["failed:"+t] = "1"
					case !strings.HasPrefix(k, t+"|"):
						continue
					case e.nilness(st, v) == FNil:
					default:
						st.T["lost:"+t] = "1"
					}
					delete(st.S, v)
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				cl := ci.Fn != nil && ci.Fn.Parent() != nil && errResult(ci.Fn.Signature) >= 0 && mut[ci.Fn]
				if inlined && !cl {
					return
				}
				for fr := ci.fr; fr != nil && fr.parent != nil; fr = fr.parent {
					if (fr.fn.Parent() != nil || strings.HasPrefix(fr.fn.Synthetic, "bound method")) && errResult(fr.fn.Signature) >= 0 {
						return // the closure reports it; its own run checks that
					}
				}
				step := cl || libStep(ci) || ci.Fn != nil && mut[ci.Fn] || ci.FnVal != nil && ci.Fn == nil && ci.Builtin == ""
				if step && !cl && besteffort[ci.Name()] && ignored(ci.Instr) && !strings.HasPrefix(strings.ToLower(fn.Name()), strings.ToLower(ci.Name())) {
					return
				}
				if w := writesIn(ci); w != nil {
					if isDiscard(w) {
						return
					}
					st.T["wr:"+w.strip().path()] = "1"
				}
				if ci.Name() == "Close" && ci.Recv != nil && ci.Recv.contains(func(x *Val) bool { return x.k == KCall && strings.HasSuffix(x.s, "os.CreateTemp") }) {
					return // a scratch file nobody reads again
				}
				if step && ci.Name() != "Close" { // handed to something that may write to it
					ps := ci.Common.Signature().Params()
					for i, off := 0, len(ci.Args)-ps.Len(); off >= 0 && i < ps.Len(); i++ {
						if hasMethods(ps.At(i).Type(), "Write") {
							st.T["wr:"+ci.Args[i+off].strip().path()] = "1"
						}
					}
				}
				if ci.Name() == "Close" && ci.Recv != nil && st.T["wr:"+ci.Recv.strip().path()] != "" {
					step = true
				}
				if !step {
					return
				}
				er := errOf(ci, res)
				if er == nil {
					return
				}
				c.Did("kept", what+": "+tag(ci))
				st.S[er.strip()] = full(ci)
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if e.nilness(st, res[ei]) == FNonNil {
					return
				}
				in2 := map[*Val]bool{}
				for _, x := range wrapped(res[ei]) {
					in2[x.strip()] = true
					for _, m := range x.in {
						if x.k == KPhi {
							in2[m.strip()] = true
						}
					}
				}
				for v, k := range st.S {
					if !strings.Contains(k, "step:") || in2[v] || e.nilness(st, v) == FNil {
						continue
					}
					c.BadAt("kept", what+": "+short(k), e, nil, in, "%s may report success although %s failed", what, short(k))
				}
				for k := range st.T {
					if strings.HasPrefix(k, "failed:") {
						c.BadAt("kept", what+": "+k, e, nil, in, "%s may report success although %s failed on an earlier round", what, strings.TrimPrefix(k, "failed:step:"))
					}
					if strings.HasPrefix(k, "lost:") {
						c.BadAt("kept", what+": "+k, e, nil, in, "%s may report success although %s failed on an earlier round", what, strings.TrimPrefix(k, "lost:step:"))
					}
				}
			}
			return e
		}, fn, nil)
	}
}

// besteffort: changes whose failure a caller may choose not to hear about.
var besteffort = map[string]bool{"Chmod": true, "Chown": true, "Lchown": true, "Chtimes": true, "Remove": true, "RemoveAll": true}

// ignored: nothing looks at the call's error.
func ignored(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return true
	}
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	for _, r := range *rs {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return false
		}
	}
	return true
}

func skipPkg(rel string) bool {
	return strings.HasPrefix(rel, "aferofs") || strings.Contains(rel, "acceptancetest") || strings.Contains(rel, "testhelper") || strings.Contains(rel, "internal/test") || strings.HasPrefix(rel, "doc")
}

var _ = types.Typ
