package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C34"] = checkCopyUp
	checks["C36"] = checkOpenRemoval
}

const (
	modeDir     = int64(1) << 31
	modeSymlink = int64(1) << 27
	modeType    = modeDir | modeSymlink | 1<<26 | 1<<25 | 1<<24 | 1<<21 | 1<<19 // dir, symlink, device, pipe, socket, chardevice, irregular
)

// ---- C34 ----

// isMode: v is the mode, or the type bits, of a file info marked m.
func isMode(st *State, v *Val, m string) bool {
	v = unconv(v)
	for isPure(v, "io/fs.FileMode.Type", "io/fs.FileMode.Perm") {
		v = unconv(v.a[0])
	}
	if v != nil && v.k == KBin && v.s == "&" {
		return isMode(st, v.a[0], m) || isMode(st, v.a[1], m)
	}
	return isPure(v, "io/fs.FileInfo.Mode") && st.S[v.a[0].strip()] == m
}

func checkCopyUp(c *Ck) {
	c.Rule("refused-first", "nothing is made in the top before the entry's type was found to be one a copy-up can reproduce", 3)
	c.Rule("staged", "a regular file's copy is made exclusively in the staging area and is never written at its content path", 1)
	c.Rule("whole", "a staged copy is published only after all of the source was copied into it and closing it succeeded", 1)
	c.Rule("place", "an entry is published at the content path of the name that was read, as the kind it is there", 3)
	c.Rule("attrs", "mode and times are brought over before a copy is published", 1)
	c.Rule("cleanup", "a staged copy that is not published is removed", 1)
	c.Rule("done", "success is reported only once the entry was published", 3)
	p := c.P
	rel := p.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		if !ok || fn.Pkg == nil || !strings.HasPrefix(pkgRel(fn.Pkg.Pkg), overlayPkg) {
			return false
		}
		n := ""
		if cm := cc.Common(); cm.IsInvoke() {
			n = cm.Method.Name()
		} else if f := cm.StaticCallee(); f != nil {
			n = f.Name()
		}
		return fsMutators[n] || n == "OpenFile" || n == "Open" || n == "Close" || strings.HasPrefix(n, "Copy") || strings.Contains(n, "FileClone") || n == "ContentPath" || n == "StagingPath"
	})
	for _, fn := range ovEntries(p) {
		if fn.Name() != "CopyUp" || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 3 || !rel[fn] {
			continue
		}
		what := fnName(fn)
		ei := errResult(fn.Signature)
		if ei < 0 {
			continue
		}
		c.RunEntry(func() *Eng {
			e := newEng(p)
			e.NoInline = func(ci *CallInfo) bool {
				return ci.Fn != nil && inRepoFn(ci.Fn) && (!rel[ci.Fn] && !p.small(ci.Fn) && ci.Fn.Parent() == nil || !strings.HasPrefix(pkgRel(ci.Fn.Pkg.Pkg), overlayPkg) || ci.Fn.Name() == "ContentPath" || ci.Fn.Name() == "StagingPath")
			}
			name := func(v *Val) bool { n := ovName(v); i, ok := isParam(n); return ok && i == 3 }
			settle := func(st *State, x *Val) {
				if k := st.S[x]; strings.HasPrefix(k, "step:") {
					st.T[strings.TrimPrefix(k, "step:")] = "1"
					switch k {
					case "step:published":
						delete(st.T, "staging")
					case "step:opened":
						st.T["staging"] = st.T["opening"]
					}
					delete(st.S, x)
				}
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				switch {
				case isPure(cond, "io/fs.FileInfo.IsDir") && st.S[cond.a[0].strip()] == "info", isPure(cond, "io/fs.FileMode.IsDir") && isMode(st, cond.a[0], "info"):
					st.T["dir"] = map[bool]string{true: "yes", false: "no"}[truth]
				case isPure(cond, "io/fs.FileMode.IsRegular") && isMode(st, cond.a[0], "info"):
					if truth {
						st.T["dir"], st.T["link"], st.T["typed"] = "no", "no", "1"
					}
				case cond.k == KBin && cond.s == "==":
					for i := 0; i < 2; i++ {
						x, y := unconv(cond.a[i]), unconv(cond.a[1-i])
						if y != nil && y.isNilConst() && truth {
							settle(st, x.strip())
						}
						k, ok := y.constInt()
						if !ok || x == nil || x.k != KBin || len(x.a) != 2 {
							continue
						}
						for j := 0; j < 2; j++ {
							b, isC := unconv(x.a[1-j]).constInt()
							if !isC || !isMode(st, x.a[j], "info") {
								continue
							}
							if x.s == "&^" && j == 0 && k == 0 && truth && b&^(modeDir|modeSymlink)&modeType == 0 {
								st.T["typed"] = "1"
							}
							if x.s == "&" && k == 0 && b&modeType == modeSymlink {
								st.T["link"] = map[bool]string{true: "no", false: "yes"}[truth]
							}
							if x.s == "&" && k == 0 && b&modeType == modeDir {
								st.T["dir"] = map[bool]string{true: "no", false: "yes"}[truth]
							}
							if x.s == "&" && k == 0 && truth && b&modeType|modeDir|modeSymlink == modeType {
								st.T["typed"] = "1"
							}
							if x.s == "&" && k == modeSymlink && b&modeType == modeType && truth {
								st.T["link"], st.T["typed"] = "yes", "1"
							}
						}
						if isMode(st, x, "info") && k == modeSymlink && truth {
							st.T["link"], st.T["typed"] = "yes", "1"
						}
					}
				}
			}
			pathKind := func(st *State, v *Val) string {
				v = stripClean(v)
				k := st.S[v.strip()]
				return k
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				n := ci.Name()
				args := callArgs(ci)
				bad := func(rule, f string, a ...any) {
					c.BadAt(rule, what+": "+n, e, ci.fr, ci.Instr, f, a...)
				}
				if onFs(ci) && (fsMutators[n] || n == "OpenFile" && !readOnlyFlag(st, args[1])) {
					if l := ovLayer(ci.Recv); l != "source" {
						return nil, false // C30's subject
					}
					c.Did("refused-first", what+": "+siteName(ci.Instr))
					if st.T["typed"] == "" {
						bad("refused-first", "%s is called before the entry's type was found to be one that can be copied up", n)
					}
					switch n {
					case "OpenFile":
						c.Did("staged", what+": "+siteName(ci.Instr))
						f, ok := args[1].constInt()
						if pathKind(st, args[0]) != "stagingpath" {
							bad("staged", "the copy is written at %s, which is not in the staging area", args[0])
						} else if !ok || f&0x40 == 0 || f&0x80 == 0 {
							bad("staged", "the staged copy is not created exclusively")
						}
					case "Rename":
						c.Did("whole", what+": "+siteName(ci.Instr))
						c.Did("attrs", what+": "+siteName(ci.Instr))
						c.Did("place", what+": "+siteName(ci.Instr))
						if st.T["staging"] == "" || st.T["staging"] != args[0].path() {
							bad("staged", "%s is published, which is not the staged copy", args[0])
						}
						if st.T["copied"] == "" {
							bad("whole", "the staged copy is published before all of the source was copied into it")
						}
						if st.T["closed"] == "" {
							bad("whole", "the staged copy is published before closing it succeeded")
						}
						if st.T["chmod"] == "" || st.T["chtimes"] == "" {
							bad("attrs", "the staged copy is published without the mode and times of the source")
						}
						if pathKind(st, args[1]) != "contentpath" {
							bad("place", "the copy is published at %s, which is not the content path of the name", args[1])
						}
						if st.T["dir"] != "no" || st.T["link"] != "no" {
							bad("place", "an entry that may not be a regular file is copied as one")
						}
					case "Mkdir":
						if k := pathKind(st, args[0]); k == "contentpath" {
							c.Did("place", what+": "+siteName(ci.Instr))
							if st.T["dir"] != "yes" {
								bad("place", "an entry that may not be a directory is made as one")
							}
						} else if k != "otherpath" {
							bad("place", "a directory is made at %s, outside the content tree", args[0])
						}
					case "Symlink":
						c.Did("place", what+": "+siteName(ci.Instr))
						if pathKind(st, args[1]) != "contentpath" || st.T["link"] != "yes" {
							bad("place", "a link is made at %s, or for an entry that may not be one", args[1])
						}
						if st.S[args[0].strip()] != "target" {
							bad("place", "the link is given %s, which was not read from the source", args[0])
						}
					case "Remove", "RemoveAll":
						if st.T["staging"] == args[0].path() {
							delete(st.T, "staging")
						} else {
							bad("staged", "%s removes %s, which is not the staged copy", n, args[0])
						}
					case "Chmod", "Chtimes":
						ok := true
						for i, a := range args[1:] {
							if n == "Chmod" {
								ok = ok && (isMode(st, a, "info") || isMode(st, a, "parent"))
							} else if i == 1 {
								m := a.strip()
								ok = ok && isPure(m, "io/fs.FileInfo.ModTime") && (st.S[m.a[0].strip()] == "info" || st.S[m.a[0].strip()] == "parent")
							}
						}
						if pathKind(st, args[0]) == "otherpath" {
							var of string
							origin(args[1], func(x *Val) bool {
								if st.S[x.strip()] == "parent" {
									of = st.T["of:"+x.strip().path()]
								}
								return of != ""
							})
							if of != st.T["of:"+stripClean(args[0]).path()] {
								bad("attrs", "%s is given what is not its own mode or times", args[0])
							}
						}
						if ok && args[0].path() == st.T["staging"] {
							st.T[strings.ToLower(n)] = "1"
						}
					case "Link", "WriteFile", "Truncate", "MkdirAll", "Create":
						bad("staged", "%s writes the content tree directly", n)
					}
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				if inlined {
					return
				}
				n := ci.Name()
				args := callArgs(ci)
				er := errOf(ci, res)
				step := func(s string) {
					if er != nil {
						st.S[er.strip()] = "step:" + s
					}
				}
				fromSrc := onFs(ci) && ovLayer(ci.Recv) == "param"
				switch {
				case n == "ContentPath" && len(args) == 1:
					if name(args[0]) {
						st.S[res.strip()] = "contentpath"
					} else {
						st.S[res.strip()] = "otherpath"
						st.T["of:"+res.path()] = nk(ovName(args[0]))
					}
				case n == "StagingPath":
					st.S[res.strip()] = "stagingpath"
				case fromSrc && n == "Lstat" && name(args[0]):
					st.S[resOf(res, 0).strip()] = "info"
				case fromSrc && (n == "Lstat" || n == "Stat"):
					st.S[resOf(res, 0).strip()] = "parent"
					st.T["of:"+resOf(res, 0).path()] = nk(ovName(args[0]))
				case fromSrc && (n == "Open" || n == "OpenFile") && name(args[0]):
					st.S[resOf(res, 0).strip()] = "src"
				case fromSrc && n == "ReadLink" && name(args[0]):
					st.S[resOf(res, 0).strip()] = "target"
				case onFs(ci) && ovLayer(ci.Recv) == "source" && n == "OpenFile" && !readOnlyFlag(st, args[1]):
					st.S[resOf(res, 0).strip()] = "tmp"
					if er != nil {
						st.T["opening"] = args[0].path()
						st.S[er.strip()] = "step:opened"
					}
				case onFs(ci) && ovLayer(ci.Recv) == "source" && (n == "Rename"):
					step("published")
				case onFs(ci) && ovLayer(ci.Recv) == "source" && (n == "Mkdir" && pathKind(st, args[0]) == "contentpath" || n == "Symlink"):
					step("made")
				case n == "Close" && ci.Recv != nil && st.S[ci.Recv.strip()] == "tmp":
					step("closed")
				case ci.PkgPath() == "io" && (n == "Copy" || n == "CopyBuffer"):
					if st.S[ci.Args[0].strip()] == "tmp" && st.S[ci.Args[1].strip()] == "src" {
						step("copied")
					}
				case strings.Contains(n, "FileClone") && len(ci.Args) == 2:
					is := func(v *Val, m string) bool { return origin(v, func(x *Val) bool { return st.S[x] == m }) }
					if is(ci.Args[0], "tmp") && is(ci.Args[1], "src") {
						step("copied")
					}
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if st.T["opened"] != "" {
					c.Did("cleanup", what)
				}
				if st.T["staging"] != "" && e.nilness(st, res[ei]) == FNonNil {
					c.BadAt("cleanup", what, e, nil, in, "a staged copy is left behind on a failing return")
				}
				if e.nilness(st, res[ei]) == FNonNil {
					return
				}
				settle(st, res[ei].strip())
				c.Did("done", what+" "+st.T["dir"]+st.T["link"])
				if st.T["published"] == "" && st.T["made"] == "" {
					c.BadAt("done", what, e, nil, in, "success is reported while nothing was published")
				}
				if st.T["staging"] != "" {
					c.BadAt("cleanup", what, e, nil, in, "a staged copy is left behind")
				}
			}
			return e
		}, fn, nil)
	}
}

// ---- C36 ----

// counters: functions that count a name up or down in a map of counts, and those that read it.
func counters(p *Prog) map[*ssa.Function]string {
	out := map[*ssa.Function]string{}
	isCounts := func(v ssa.Value) bool {
		m, ok := v.Type().Underlying().(*types.Map)
		return ok && isStringType(m.Key()) && isIntType(m.Elem())
	}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != overlayPkg || fn.Signature.Recv() == nil {
			continue
		}
		ranges, looks, ups, downs := false, false, false, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					ranges = ranges || isCounts(x.X)
				case *ssa.Lookup:
					looks = looks || isCounts(x.X)
				case *ssa.MapUpdate:
					if isCounts(x.Map) {
						if bo, ok := x.Value.(*ssa.BinOp); ok && bo.Op == token.ADD {
							ups = true
						} else {
							downs = true
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && isCounts(x.Call.Args[0]) {
						downs = true
					}
				}
			}
		}
		switch {
		case ups:
			out[fn] = "up"
		case downs:
			out[fn] = "down"
		case ranges:
			out[fn] = "tree"
		case looks:
			out[fn] = "one"
		}
	}
	return out
}

func checkOpenRemoval(c *Ck) {
	c.Rule("refused", "with removal of open files disabled, a name leaves the top only when no handle on it, or for a tree beneath it, is out", 2)
	c.Rule("counted", "a handle is handed out only once it was counted under the resolved name it carries, while the state lock is held", 1)
	c.Rule("released", "closing a handle counts it down once, under the name it was counted with", 1)
	c.Rule("tally", "a count goes up and down by one, is dropped with the last handle, and a tree's count covers the name and exactly what is under it", 4)
	p := c.P
	cnt := counters(p)
	rel, ops := overlayRelevant(p), maskOps(p)
	c.tally(cnt)
	up, down := map[string]bool{}, map[string]bool{}
	for _, fn := range ovEntries(p) {
		what := fnName(fn)
		ei := errResult(fn.Signature)
		c.RunEntry(func() *Eng {
			e := newEng(p)
			e.NoInline = func(ci *CallInfo) bool {
				return ci.Fn != nil && inRepoFn(ci.Fn) && !rel[ci.Fn] && !p.small(ci.Fn) && ci.Fn.Parent() == nil ||
					ci.Fn != nil && (cnt[ci.Fn] != "" || resolves(ci.Fn) || isEntries(ci) || looksUp(ci) || ops[ci.Fn] != nil)
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				if b, ok := recvField(cond); ok && isBool(cond.typ) && strings.Contains(strings.ToLower(b.Name()), "removal") && !truth {
					st.T["allowed"] = "1"
				}
				if f, ok := recvField(cond); ok && isBool(f.Type()) || origin(cond, func(x *Val) bool { return x.k == KCall && strings.HasPrefix(x.s, "(*sync/atomic.Bool).") }) {
					st.T["flag"] = "1"
				}
				if cond.k != KBin {
					return
				}
				for i := 0; i < 2; i++ {
					x := unconv(cond.a[i])
					k, ok := cond.a[1-i].constInt()
					if !ok || x == nil || !strings.HasPrefix(st.S[x.strip()], "count:") {
						continue
					}
					if cond.s == "==" && k == 0 && truth || cond.s == "<" && i == 1 && k == 0 && !truth || cond.s == "<" && i == 0 && k == 1 && truth {
						st.T[st.S[x.strip()]] = "1"
					}
				}
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				n := ci.Name()
				args := callArgs(ci)
				switch {
				case ci.PkgPath() == "sync" && n == "Do" && ci.Recv != nil && namedIs(deref(ci.Recv.typ), "Once") && len(args) == 1:
					// whether it is the first is not this call's to decide: the first is followed
					cl := args[0].strip()
					if (cl.k == KClosure || cl.k == KFunc) && cl.fn.Blocks != nil {
						st.T["flag"] = "1"
						var outs []CallOut
						for _, s := range e.callback(ci.fr, st, ci, cl) {
							outs = append(outs, CallOut{s, e.u.mk(Val{k: KTuple})})
						}
						return outs, true
					}
				case ci.PkgPath() == "sync" && ci.Recv != nil && namedIs(deref(ci.Recv.typ), "RWMutex") && (n == "Lock" || n == "RLock"):
					st.T["held"] = "1"
				case ci.PkgPath() == "sync" && ci.Recv != nil && namedIs(deref(ci.Recv.typ), "RWMutex") && (n == "Unlock" || n == "RUnlock") && !ci.Defer:
					delete(st.T, "held")
					for k := range st.T {
						if strings.HasPrefix(k, "count:") {
							delete(st.T, k)
						}
					}
				case ci.Fn != nil && cnt[ci.Fn] == "up" && len(args) == 1:
					st.T["up:"+nk(ovName(args[0]))] += "1"
					if st.T["held"] == "" {
						c.BadAt("counted", what, e, ci.fr, ci.Instr, "a handle is counted without the state lock held")
					}
				case ci.Fn != nil && cnt[ci.Fn] == "down" && len(args) == 1:
					c.Did("released", what)
					st.T["down"] += "1"
					if st.T["flag"] == "" {
						c.BadAt("released", what, e, ci.fr, ci.Instr, "a second Close would count the handle down again")
					}
					if f, ok := recvField(args[0]); !ok || !isStringType(f.Type()) {
						c.BadAt("released", what, e, ci.fr, ci.Instr, "the handle is counted down under %s, not under the name it carries", args[0])
					} else {
						down[f.Name()] = true
					}
				case ci.Fn != nil && ops[ci.Fn]["SetWhiteout"] && strings.HasPrefix(fn.Name(), "Remove") && len(args) > 0 && isStringType(args[0].typ):
					k := nk(ovName(args[0]))
					if st.T["allowed"] == "" && st.T["count:tree:"+k] == "" && (fn.Name() == "RemoveAll" || st.T["count:one:"+k] == "") {
						c.BadAt("refused", what+": "+n, e, ci.fr, ci.Instr, "%s is masked while a handle on it may be out", args[0])
					}
				case onFs(ci) && ovLayer(ci.Recv) == "top" && (n == "Remove" || n == "RemoveAll"):
					c.Did("refused", what+": "+siteName(ci.Instr))
					k := nk(ovName(args[0]))
					if st.T["allowed"] == "" && st.T["count:tree:"+k] == "" && (n == "RemoveAll" || st.T["count:one:"+k] == "") {
						c.BadAt("refused", what+": "+n, e, ci.fr, ci.Instr, "%s is removed while a handle on it may be out", args[0])
					}
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				args := callArgs(ci)
				if !inlined && ci.Fn != nil && resolves(ci.Fn) {
					st.S[resOf(res, 0).strip()] = "resolved"
				}
				if k := cnt[ci.Fn]; !inlined && ci.Fn != nil && (k == "one" || k == "tree") && len(args) == 1 {
					st.S[res.strip()] = "count:" + k + ":" + nk(ovName(args[0]))
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if fn.Name() == "Close" && fn.Signature.Recv() != nil && isFileType(fn.Signature.Recv().Type()) && holdsCounts(fn.Signature.Recv().Type(), cnt) {
					c.Did("released", what+" returns")
					if d := len(st.T["down"]); d > 1 || d == 0 && st.T["flag"] == "" {
						c.BadAt("released", what, e, nil, in, "the handle is counted down %d times on this path", len(st.T["down"]))
					}
				}
				if ei != 1 || fn.Signature.Recv() == nil || !isFileType(fn.Signature.Results().At(0).Type()) || !hasMethods(fn.Signature.Recv().Type(), "OpenFile") {
					return
				}
				ups := 0
				for k, v := range st.T {
					if strings.HasPrefix(k, "up:") {
						ups += len(v)
					}
				}
				if e.nilness(st, res[ei]) == FNonNil {
					if ups > 0 {
						c.BadAt("counted", what, e, nil, in, "a handle is counted although none is handed out")
					}
					return
				}
				c.Did("counted", what)
				h := res[0].strip()
				ok := false
				for k, w := range st.heap {
					if k.k == KField && k.a[0] == h && st.T["up:"+nk(ovName(w))] != "" {
						if s, isC := ovName(w).constStr(); st.S[ovName(w).strip()] != "resolved" && !(isC && s == "") {
							c.BadAt("counted", what, e, nil, in, "the handle is counted under %s, which is not a resolved name", w)
						}
						ok = true
						up[k.fld.Name()] = true
					}
				}
				if ups != 1 || !ok {
					c.BadAt("counted", what, e, nil, in, "the handle %s is handed out without having been counted once under the name it carries", h)
				}
			}
			return e
		}, fn, nil)
	}
	for f := range down {
		if !up[f] {
			c.Bad("released", "key "+f, token.NoPos, "handles are counted down under their %s, but not counted up under it", f)
		}
	}
}

// holdsCounts: the type keeps what counts handles.
func holdsCounts(t types.Type, cnt map[*ssa.Function]string) bool {
	s := structOf(deref(t))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		for fn := range cnt {
			if types.Identical(deref(s.Field(i).Type()), deref(fn.Signature.Recv().Type())) {
				return true
			}
		}
	}
	return false
}

// tally checks what counts names up and down, and what reads the counts.
func (c *Ck) tally(cnt map[*ssa.Function]string) {
	p := c.P
	for fn, kind := range cnt {
		what := fnName(fn)
		if len(fn.Params) < 2 {
			continue
		}
		loop := map[*ssa.BasicBlock]bool{}
		adds := map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			for _, pr := range b.Preds {
				loop[b] = loop[b] || b.Dominates(pr)
			}
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.ADD || !isIntType(bo.Type()) {
					continue
				}
				for _, o := range []ssa.Value{bo.X, bo.Y} {
					if ex, ok := o.(*ssa.Extract); ok {
						if nx, ok := ex.Tuple.(*ssa.Next); ok && !nx.IsString && ex.Index == 2 {
							adds[b] = true
						}
					}
					if l, ok := o.(*ssa.Lookup); ok && kind == "tree" {
						_ = l
						adds[b] = true
					}
				}
			}
		}
		c.RunEntry(func() *Eng {
			e := newEng(p)
			isName := func(v *Val) bool { i, ok := isParam(v); return ok && i == 1 }
			// held: v is the count of the name plus d
			var held func(v *Val) (int64, bool)
			held = func(v *Val) (int64, bool) {
				v = unconv(v)
				if v == nil {
					return 0, false
				}
				if v.k == KLoad && v.a[0].k == KMapElem && isName(v.a[0].a[1]) {
					return 0, true
				}
				if v.k == KBin && (v.s == "+" || v.s == "-") && len(v.a) == 2 {
					for i := 0; i < 2; i++ {
						d, ok1 := held(v.a[i])
						k, ok2 := v.a[1-i].constInt()
						if !ok1 || !ok2 || v.s == "-" && i == 1 {
							continue
						}
						if v.s == "-" {
							k = -k
						}
						return d + k, true
					}
				}
				return 0, false
			}
			key := func(v *Val) bool { // an element of the range
				return origin(v, func(x *Val) bool { return x.k == KCall && x.s == "next" })
			}
			slash := func(v *Val, base func(*Val) bool) bool {
				if v == nil || v.k != KBin || v.s != "+" || !base(v.a[0]) {
					return false
				}
				s, ok := v.a[1].constStr()
				return ok && s == "/"
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				yn := map[bool]string{true: "yes", false: "no"}[truth]
				if cond.k == KBin && len(cond.a) == 2 {
					for i := 0; i < 2; i++ {
						x, y := cond.a[i], cond.a[1-i]
						if cond.s == "==" && isName(y) && key(x) && !slash(x, key) {
							st.T["eq"] = yn
						}
						if s, ok := y.constStr(); ok && s == "" && isName(x) && cond.s == "==" && truth {
							st.T["root"] = "1"
						}
						d, ok := held(x)
						k, okk := y.constInt()
						if !ok || !okk {
							continue
						}
						// count+d OP k
						switch {
						case cond.s == "==" && truth:
							st.T["le"] = fmt.Sprint(k - d)
						case cond.s == "<" && i == 0 && truth: // count < k-d
							st.T["le"] = fmt.Sprint(k - d - 1)
						case cond.s == "<" && i == 1 && !truth: // not k < count+d
							st.T["le"] = fmt.Sprint(k - d)
						case cond.s == "<=" && i == 0 && truth:
							st.T["le"] = fmt.Sprint(k - d)
						case cond.s == "<=" && i == 1 && !truth:
							st.T["le"] = fmt.Sprint(k - d - 1)
						}
					}
				}
				if isPure(cond, "strings.HasPrefix") || cond.k == KPure && cond.s == "strings.CutPrefix" && cond.n == 1 {
					x, q := cond.a[0], cond.a[1]
					switch s, isC := q.constStr(); {
					case isC && s == "" && st.T["root"] != "":
						st.T["pre"] = yn // it has every name under it
					case slash(q, isName) && slash(x, key):
						st.T["pre"], st.T["eq"] = yn, yn
					case slash(q, isName) && key(x):
						st.T["pre"] = yn
					default:
						st.T["pre"] = "other"
					}
				}
			}
			e.OnMap = func(e *Eng, fr *Frame, st *State, m, k *Val, write bool, in ssa.Instruction) {
				if !write {
					return
				}
				mt, ok := m.typ.Underlying().(*types.Map)
				if !ok || !isIntType(mt.Elem()) {
					return
				}
				c.Did("tally", what+": "+siteName(in))
				st.T["wrote"] += "1"
				if !isName(k) {
					c.BadAt("tally", what, e, fr, in, "the count of %s is changed, which is not the name given", k)
				}
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					if kind == "up" {
						c.BadAt("tally", what, e, fr, in, "counting a name up drops its count")
					} else if n, err := strconv.Atoi(st.T["le"]); err != nil || n > 1 {
						c.BadAt("tally", what, e, fr, in, "a count is dropped while more than one handle may be out")
					}
					return
				}
				d, ok := held(e.eval(fr, st, mu.Value))
				want := map[string]int64{"up": 1, "down": -1}[kind]
				if !ok || d != want {
					c.BadAt("tally", what, e, fr, in, "the count is set to %s, not changed by one", e.eval(fr, st, mu.Value))
				}
			}
			e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
				if kind != "tree" || fr.fn != fn {
					return
				}
				if adds[b] {
					st.T["added"] = "1"
				}
				if !loop[b] || st.T["eq"]+st.T["pre"]+st.T["added"] == "" {
					return
				}
				c.Did("tally", what+": "+st.T["eq"]+st.T["pre"])
				yes := st.T["eq"] == "yes" || st.T["pre"] == "yes"
				no := st.T["eq"] == "no" && st.T["pre"] == "no"
				if st.T["added"] != "" && !yes {
					c.BadAt("tally", what, e, fr, b.Instrs[0], "a handle on a name that may not be the name, or under it, is counted")
				}
				if st.T["added"] == "" && !no {
					c.BadAt("tally", what, e, fr, b.Instrs[0], "a handle on the name, or under it, may not be counted")
				}
				delete(st.T, "eq")
				delete(st.T, "pre")
				delete(st.T, "added")
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if (kind == "up" || kind == "down") && len(st.T["wrote"]) != 1 {
					c.BadAt("tally", what, e, nil, in, "the count is changed %d times on this path", len(st.T["wrote"]))
				}
				if kind == "one" && len(res) == 1 {
					c.Did("tally", what)
					if d, ok := held(res[0]); !ok || d != 0 {
						c.BadAt("tally", what, e, nil, in, "%s is not the count of the name", res[0])
					}
				}
			}
			return e
		}, fn, nil)
	}
}
