package main

import (
	"fmt"
	"go/types"
	"maps"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C30"] = checkLowers
	checks["C31"] = checkMasks
	checks["C32"] = checkTopReady
}

const overlayPkg = "vroot-adapter/overlayfs"

var storeOps = map[string]bool{"SetWhiteout": true, "ClearWhiteout": true, "SetOpaque": true, "ClearOpaque": true}

// onStore: a call of the store the overlay keeps its marks in.
func onStore(ci *CallInfo) bool {
	return ci.IsInvoke() && storeOps[ci.Name()] && ci.RecvT != nil && hasMethods(ci.RecvT, "SetWhiteout", "SetOpaque")
}

func overlayEng(p *Prog, rel map[*ssa.Function]bool, ops map[*ssa.Function]map[string]bool) *Eng {
	e := newEng(p)
	e.NoInline = func(ci *CallInfo) bool {
		return ci.Fn != nil && inRepoFn(ci.Fn) && !rel[ci.Fn] && !p.small(ci.Fn) && ci.Fn.Parent() == nil || ci.Fn != nil && (ops[ci.Fn] != nil || resolves(ci.Fn) || isEntries(ci) || looksUp(ci))
	}
	return e
}

func looksUp(ci *CallInfo) bool {
	_, _, ok := isLookup(ci)
	return ok
}

// resolves: a function from a caller's name to the overlay name it stands for.
func resolves(fn *ssa.Function) bool {
	if fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != overlayPkg || fn.Signature.Results().Len() != 2 {
		return false
	}
	r := fn.Signature.Results()
	return isStringType(r.At(0).Type()) && isErrorType(r.At(1).Type())
}

// maskOps: methods of the type that owns the marks, by the store operations they reach.
func maskOps(p *Prog) map[*ssa.Function]map[string]bool {
	owner := map[string]bool{}
	key := func(fn *ssa.Function) string {
		if fn.Signature.Recv() == nil || fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != overlayPkg {
			return ""
		}
		return recvNamed(fn)
	}
	reach := map[string]map[*ssa.Function]bool{}
	for op := range storeOps {
		reach[op] = p.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
			cc, ok := in.(ssa.CallInstruction)
			if !ok || !cc.Common().IsInvoke() || cc.Common().Method.Name() != op || fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != overlayPkg {
				return false
			}
			owner[key(fn)] = true
			return true
		})
	}
	out := map[*ssa.Function]map[string]bool{}
	for _, fn := range p.Funcs {
		if k := key(fn); k == "" || !owner[k] || fn.Parent() != nil {
			continue
		}
		for op := range storeOps {
			if reach[op][fn] {
				if out[fn] == nil {
					out[fn] = map[string]bool{}
				}
				out[fn][op] = true
			}
		}
	}
	return out
}

func overlayRelevant(p *Prog) map[*ssa.Function]bool {
	return p.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		if !ok || fn.Pkg == nil || !strings.HasPrefix(pkgRel(fn.Pkg.Pkg), overlayPkg) {
			return false
		}
		cm := cc.Common()
		if cm.IsInvoke() {
			n := cm.Method.Name()
			return fsMutators[n] || n == "OpenFile" || n == "CopyUp" || n == "Lstat" || storeOps[n]
		}
		f := cm.StaticCallee()
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync"
	})
}

// ovName: the overlay name a content path, or a cleaned name, stands for.
func ovName(v *Val) *Val {
	for v != nil {
		v = stripClean(unconv(v))
		switch {
		case isPure(v, "path/filepath.FromSlash", "path/filepath.ToSlash", "path.Clean", "path/filepath.Clean"):
			v = v.a[0]
		case isPure(v, "strings.TrimPrefix") && len(v.a) == 2 && isSlash(v.a[1]):
			v = v.a[0]
		case isPure(v, "path/filepath.Join", "path.Join") && len(v.a) > 0:
			v = v.a[len(v.a)-1]
		case v.k == KBin && v.s == "+" && isSlash(v.a[0]):
			v = v.a[1]
		default:
			return v
		}
	}
	return v
}

func isSlash(v *Val) bool {
	s, ok := v.constStr()
	return ok && s == "/"
}

// ovLayer: which layer's filesystem a call goes to.
func ovLayer(v *Val) string {
	v = v.strip()
	b, ok := fieldLoad(v, "fsys")
	if !ok {
		if v.k == KParam {
			return "param"
		}
		return ""
	}
	b = b.strip()
	if b.k == KParam || b.k == KLoad && b.a[0].k == KParam {
		return "source"
	}
	if b.k == KLoad && b.a[0].k == KIndex {
		if i, ok := b.a[0].a[1].constInt(); ok && i == 0 && !isSlicedFrom(b.a[0].a[0]) {
			return "top"
		}
		return "lower"
	}
	return "lower"
}

// isSlicedFrom: an element of part of the layers, not of all of them.
func isSlicedFrom(v *Val) bool {
	return v.contains(func(x *Val) bool { return x.k == KSlice })
}

func isFileType(t types.Type) bool {
	return t != nil && hasMethods(t, "Read", "Close", "Stat") && !hasMethods(t, "OpenFile")
}

var fileMutators = map[string]bool{"Write": true, "WriteAt": true, "WriteString": true, "Truncate": true, "Chmod": true, "Chown": true, "ReadFrom": true}

// readOnlyFlag: the flag is known to ask for reading only.
func readOnlyFlag(st *State, f *Val) bool {
	return zeroBits(st, f)&writeBits == writeBits
}

func ovEntries(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.exportedFuncs() {
		if pkgRel(fn.Pkg.Pkg) == overlayPkg {
			out = append(out, fn)
		}
	}
	return out
}

// ---- C30 ----

func checkLowers(c *Ck) {
	c.Rule("top-only", "every call that changes a filesystem goes to the first layer, and a lower layer is only opened for reading", 15)
	c.Rule("handle", "a file of a lower layer is handed out only behind a read-only wrapper or a type without writes", 2)
	c.Rule("file", "files are only written, truncated or given attributes when they were opened on the top layer", 1)
	p := c.P
	rel := p.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		if !ok || fn.Pkg == nil || !strings.HasPrefix(pkgRel(fn.Pkg.Pkg), overlayPkg) {
			return false
		}
		n := ""
		if cm := cc.Common(); cm.IsInvoke() {
			n = cm.Method.Name()
		} else if f := cm.StaticCallee(); f != nil {
			n = f.Name()
		}
		return fsMutators[n] || n == "OpenFile" || fileMutators[n] || n == "NewReadOnlyFile" || strings.HasPrefix(n, "Copy") || strings.Contains(n, "FileClone")
	})
	for _, fn := range ovEntries(p) {
		what := fnName(fn)
		ei := errResult(fn.Signature)
		c.RunEntry(func() *Eng {
			e := newEng(p)
			e.NoInline = func(ci *CallInfo) bool {
				return ci.Fn != nil && inRepoFn(ci.Fn) && !rel[ci.Fn] && !p.small(ci.Fn) && ci.Fn.Parent() == nil || ci.Fn != nil && ci.Fn.Name() == "NewReadOnlyFile" || ci.Fn != nil && inRepoFn(ci.Fn) && ci.Fn.Pkg != nil && !strings.HasPrefix(pkgRel(ci.Fn.Pkg.Pkg), overlayPkg)
			}
			isTop := func(l string) bool {
				return l == "top" || l == "source" || (l == "param" || l == "") && fn.Signature.Recv() == nil
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				if cond.k != KBin {
					return
				}
				for i := 0; i < 2; i++ {
					k, ok := cond.a[1-i].constInt()
					x := unconv(cond.a[i])
					if !ok || x == nil || (x.k != KLoad && x.k != KFieldVal) || !isIntType(x.typ) {
						continue
					}
					if cond.s == "==" && k == 0 && truth || cond.s == "<" && i == 1 && k == 0 && !truth || cond.s == "<" && i == 0 && k == 1 && truth {
						if b, ok := fieldLoad(x, "layer"); ok {
							st.T["toplayer:"+b.path()] = "1"
						}
					}
				}
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				name := ci.Name()
				switch {
				case onFs(ci) && fsMutators[name]:
					c.Did("top-only", what+": "+siteName(ci.Instr))
					if l := ovLayer(ci.Recv); !isTop(l) {
						c.BadAt("top-only", what+": "+name, e, ci.fr, ci.Instr, "%s is called on %s, which may be below the top layer", name, ci.Recv)
					}
				case onFs(ci) && name == "OpenFile":
					c.Did("top-only", what+": "+siteName(ci.Instr))
					if l := ovLayer(ci.Recv); !isTop(l) && !readOnlyFlag(st, callArgs(ci)[1]) {
						c.BadAt("top-only", what+": OpenFile", e, ci.fr, ci.Instr, "%s, which may be below the top layer, may be opened for writing", ci.Recv)
					}
				case ci.IsInvoke() && fileMutators[name] && ci.RecvT != nil && isFileType(ci.RecvT):
					c.Did("file", what+": "+siteName(ci.Instr))
					if st.S[ci.Recv.strip()] != "top" {
						c.BadAt("file", what+": "+name, e, ci.fr, ci.Instr, "%s is called on %s, which may belong to a lower layer", name, ci.Recv)
					}
				default:
					if w := writesIn(ci); w != nil && ci.PkgPath() == "io" {
						c.Did("file", what+": "+siteName(ci.Instr))
						if st.S[w.strip()] != "top" {
							c.BadAt("file", what+": "+name, e, ci.fr, ci.Instr, "content is copied into %s, which may belong to a lower layer", w)
						}
					}
					if strings.Contains(name, "FileClone") && ci.Fn != nil && !inRepoFn(ci.Fn) && len(ci.Args) > 0 {
						c.Did("file", what+": "+siteName(ci.Instr))
						if !origin(ci.Args[0], func(x *Val) bool { return st.S[x] == "top" }) {
							c.BadAt("file", what+": "+name, e, ci.fr, ci.Instr, "content is cloned into %s, which may belong to a lower layer", ci.Args[0])
						}
					}
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				if inlined {
					return
				}
				switch {
				case onFs(ci) && ci.Name() == "OpenFile":
					f := resOf(res, 0).strip()
					if isTop(ovLayer(ci.Recv)) {
						st.S[f] = "top"
					} else {
						st.S[f] = "raw"
						if b, ok := fieldLoad(ci.Recv.strip(), "fsys"); ok {
							if s, ok := fieldLoad(b.strip(), "src"); ok {
								st.S[f] = "raw:" + s.path()
							}
						}
					}
				case ci.Name() == "NewReadOnlyFile":
					st.S[resOf(res, 0).strip()] = "ro"
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if ei <= 0 || !isFileType(res[0].typ) && !isFileType(fn.Signature.Results().At(0).Type()) || e.nilness(st, res[ei]) == FNonNil {
					return
				}
				c.Did("handle", what)
				if v := e.rawFile(st, res[0]); v != nil && st.T["toplayer:"+strings.TrimPrefix(st.S[v], "raw:")] == "" {
					c.BadAt("handle", what, e, nil, in, "the file %s may belong to a lower layer and is handed out as it is", v)
				}
			}
			return e
		}, fn, nil)
	}
}

// rawFile: a file marked raw that operations on v go to unchecked.
func (e *Eng) rawFile(st *State, v *Val) *Val {
	seen := map[*Val]bool{}
	var rec func(x *Val) *Val
	rec = func(x *Val) *Val {
		x = x.strip()
		if x == nil || seen[x] {
			return nil
		}
		seen[x] = true
		if strings.HasPrefix(st.S[x], "raw") {
			return x
		}
		if x.k != KAlloc || definesWrite(x.typ) {
			return nil
		}
		for k, w := range st.heap {
			if k.k == KField && k.a[0] == x {
				if r := rec(w); r != nil {
					return r
				}
			}
		}
		return nil
	}
	return rec(v)
}

// definesWrite: the type has Write and Truncate of its own, not promoted ones.
func definesWrite(t types.Type) bool {
	ms := types.NewMethodSet(t)
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		ms = types.NewMethodSet(types.NewPointer(t))
	}
	for _, n := range []string{"Write", "WriteAt", "Truncate", "Chmod"} {
		found := false
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); s.Obj().Name() == n && len(s.Index()) == 1 {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// ---- C31, C32 ----

// ovMark: the mark ("whiteout", "opaque") a map of the mask holds.
func ovMark(m *Val) string {
	name := ""
	m.walk(func(x *Val) bool {
		if (x.k == KField || x.k == KFieldVal) && x.fld != nil && name == "" {
			for _, k := range []string{"whiteout", "opaque"} {
				if strings.HasPrefix(strings.ToLower(x.fld.Name()), k) {
					name = k
				}
			}
		}
		return name == ""
	})
	return name
}

// isLookup: a call that finds a name in the layers, and from which layer on.
func isLookup(ci *CallInfo) (name *Val, from string, ok bool) {
	if ci.Fn == nil || !inRepoFn(ci.Fn) || ci.Fn.Pkg == nil || pkgRel(ci.Fn.Pkg.Pkg) != overlayPkg {
		return nil, "", false
	}
	r := ci.Common.Signature().Results()
	if r.Len() != 2 || !isErrorType(r.At(1).Type()) {
		return nil, "", false
	}
	s := structOf(r.At(0).Type())
	has := false
	for i := 0; s != nil && i < s.NumFields(); i++ {
		has = has || namedIs(s.Field(i).Type(), "FileInfo")
	}
	if !has {
		return nil, "", false
	}
	from = "0"
	for _, a := range callArgs(ci) {
		if a.typ != nil && isStringType(a.typ) {
			name = ovName(a)
		} else if k, ok := a.constInt(); ok {
			from = string(rune('0' + k))
		} else {
			from = "?"
		}
	}
	return name, from, name != nil
}

// ov carries what a path of an overlay operation has established.
type ov struct {
	c    *Ck
	what string
	ops  map[*ssa.Function]map[string]bool

	settled func(e *Eng, st *State, x *Val)
}

func (o *ov) hooks(e *Eng, mutate func(e *Eng, st *State, ci *CallInfo, name string, args []*Val), clear func(e *Eng, st *State, ci *CallInfo, op string, names []*Val), done func(e *Eng, st *State, name string, args []string)) {
	o.settled = func(e *Eng, st *State, x *Val) { // the error x is nil
		k := st.S[x]
		switch {
		case strings.HasPrefix(k, "copyup:"):
			n := strings.TrimPrefix(k, "copyup:")
			st.T["own:"+n] = "1"
			st.T["copied:"+n] = "1"
		case strings.HasPrefix(k, "look:0:"):
			st.T["found:"+strings.TrimPrefix(k, "look:0:")] = "1"
		case strings.HasPrefix(k, "mask:"):
			f := strings.SplitN(k, ":", 3)
			for _, op := range strings.Split(f[1], ",") {
				st.T[op+":"+f[2]] = "1"
				if op == "ClearOpaque" {
					delete(st.T, "SetOpaque:"+f[2])
				}
			}
		case strings.HasPrefix(k, "top:"):
			f := strings.Split(strings.TrimPrefix(k, "top:"), "\x00")
			done(e, st, f[0], f[1:])
		default:
			return
		}
		delete(st.S, x)
	}
	e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
		cond, truth = condPeel(cond, truth)
		switch {
		case isPure(cond, "errors.Is") && truth && strings.HasSuffix(cond.a[1].String(), "ErrNotExist"):
			if k := st.S[cond.a[0].strip()]; strings.HasPrefix(k, "look:") {
				st.T["abs:"+strings.TrimPrefix(k, "look:")] = "1"
			} else if strings.HasPrefix(k, "top:") { // what was to go is gone
				f := strings.Split(strings.TrimPrefix(k, "top:"), "\x00")
				done(e, st, f[0], f[1:])
			}
			if k := st.S[cond.a[0].strip()]; strings.HasPrefix(k, "lowerstat") {
				delete(st.S, cond.a[0].strip())
			}
		case isPure(cond, "errors.Is") && truth && strings.HasSuffix(cond.a[1].String(), "ENOTDIR") || isPure(cond, "errors.Is") && truth && isErrno(cond.a[1], 20):
			if strings.HasPrefix(st.S[cond.a[0].strip()], "lowerstat") {
				delete(st.S, cond.a[0].strip())
			}
		case isPure(cond, "has") && !truth:
			if k := ovMark(cond.a[0]); k != "" {
				st.T["un"+k+":"+nk(ovName(cond.a[1]))] = "1"
			}
		case isPure(cond, "io/fs.FileInfo.IsDir"):
			if b, ok := fieldLoad(cond.a[0].strip(), "info"); ok {
				if n := st.T["res:"+b.path()]; n != "" {
					st.T["dir:"+n] = map[bool]string{true: "yes", false: "no"}[truth]
				}
			}
		case isPure(cond, "strings.HasPrefix") && !truth:
			a, b := ovTrail(cond.a[0]), ovTrail(cond.a[1])
			if a != nil && b != nil {
				st.T["notunder:"+nk(a)+":"+nk(b)] = "1"
			}
		case cond.k == KBin && len(cond.a) == 2:
			for i := 0; i < 2; i++ {
				x, y := unconv(cond.a[i]), unconv(cond.a[1-i])
				if x == nil || y == nil {
					continue
				}
				k, isC := y.constInt()
				switch {
				case cond.s == "==" && truth && y.isNilConst():
					o.settled(e, st, x.strip())
				case cond.s == "==" && isC && k == 0 && truth, cond.s == "<" && i == 1 && isC && k == 0 && !truth, cond.s == "<" && i == 0 && isC && k == 1 && truth:
					if b, ok := fieldLoad(x, "layer"); ok && st.T["res:"+b.path()] != "" {
						st.T["own:"+st.T["res:"+b.path()]] = "1"
					}
					if isPure(x, "len") {
						for v, s := range st.S {
							if strings.HasPrefix(s, "entries:") && x.a[0].strip() == v {
								st.T["empty:"+strings.TrimPrefix(s, "entries:")] = "1"
							}
						}
					}
				}
				if s, ok := y.constStr(); ok && s == "" && cond.s == "==" {
					if truth {
						st.T["own:"+nk(ovName(x))] = "1"
					} else {
						st.T["nonroot:"+nk(ovName(x))] = "1"
					}
				}
				if cond.s == "==" && !truth && x.typ != nil && isStringType(x.typ) {
					st.T["differ:"+nk(ovName(x))+":"+nk(ovName(y))] = "1"
				}
				if cond.s == "<" && i == 0 && truth && isC && k == 0 && isPure(x, "strings.LastIndexByte", "strings.LastIndex") {
					st.T["flat:"+nk(ovName(x.a[0]))] = "1"
				}
			}
			// the scan over the lower layers ran to its end: !(i <= cut) is cut < i
			if cond.s == "<" && truth {
				var of *Val
				cond.a[0].walk(func(x *Val) bool {
					if st.T["cutcall:"+x.path()] != "" {
						of = x
					}
					return of == nil
				})
				if of != nil {
					name, ok := st.T["cutcall:"+of.path()], true
					upto := 2
					if k, isC := cond.a[1].constInt(); isC {
						upto = int(k)
					}
					for i := 1; i < upto; i++ {
						ok = ok && st.T[fmt.Sprintf("lstat:%d:%s", i, name)] != ""
					}
					if ok {
						st.T["scanned:"+name] = "1"
					}
				}
			}
		}
	}
	// what was known about an element of a list is about another element the next time round
	e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
		header := false
		for _, p := range b.Preds {
			header = header || b.Dominates(p)
		}
		if !header {
			return
		}
		carried := func(k string) bool { return strings.Contains(k, "[]") || strings.Contains(k, "phi#") }
		for k, v := range st.T {
			if carried(k) || carried(v) {
				delete(st.T, k)
			}
		}
		for x, v := range st.S {
			if carried(v) {
				delete(st.S, x)
			}
		}
	}
	e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
		args := callArgs(ci)
		name := ci.Name()
		switch {
		case ci.PkgPath() == "sync" && (name == "Unlock" || name == "RUnlock") && !ci.Defer && ci.Recv != nil && namedIs(deref(ci.Recv.typ), "RWMutex"):
			for k := range st.T { // what was found may have changed
				if i := strings.Index(k, ":"); i > 0 && factKinds[k[:i]] {
					delete(st.T, k)
				}
			}
		case onFs(ci) && ovLayer(ci.Recv) == "top" && (fsMutators[name] || name == "OpenFile"):
			mutate(e, st, ci, name, args)
		case ci.Fn != nil && o.ops[ci.Fn] != nil:
			var names []*Val
			for _, a := range args {
				if a.typ != nil && isStringType(a.typ) {
					names = append(names, ovName(a))
				}
			}
			op := ""
			for _, k := range []string{"SetWhiteout", "ClearWhiteout", "SetOpaque", "ClearOpaque"} {
				if o.ops[ci.Fn][k] {
					op += "," + k
				}
			}
			clear(e, st, ci, strings.TrimPrefix(op, ","), names)
		}
		return nil, false
	}
	e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
		if inlined {
			return
		}
		args := callArgs(ci)
		name := ci.Name()
		er := errOf(ci, res)
		switch {
		case ci.Fn != nil && o.ops[ci.Fn] != nil:
			op := ""
			for _, k := range []string{"SetWhiteout", "ClearWhiteout", "SetOpaque", "ClearOpaque"} {
				if o.ops[ci.Fn][k] {
					op += "," + k
				}
			}
			var names []string
			for _, a := range args {
				if a.typ != nil && isStringType(a.typ) {
					names = append(names, nk(ovName(a)))
				}
			}
			if len(names) == 1 && er != nil {
				st.S[er.strip()] = "mask:" + strings.TrimPrefix(op, ",") + ":" + names[0]
			}
		case ci.IsInvoke() && name == "CopyUp" && len(args) > 0:
			n := nk(ovName(args[len(args)-1]))
			delete(st.T, "unopaque:"+n)
			st.S[er.strip()] = "copyup:" + n
		case onFs(ci) && ovLayer(ci.Recv) == "top" && (fsMutators[name] || name == "OpenFile"):
			k := "top:" + name
			for _, a := range args {
				if a.typ != nil && isStringType(a.typ) {
					k += "\x00" + nk(ovName(a))
				}
			}
			if er != nil {
				st.S[er.strip()] = k
			}
		case onFs(ci) && (name == "Lstat" || name == "Stat") && ovLayer(ci.Recv) == "lower":
			n := nk(ovName(args[0]))
			st.S[er.strip()] = "lowerstat:" + n
			if b, ok := fieldLoad(ci.Recv.strip(), "fsys"); ok && b.strip().k == KLoad {
				if i, ok := b.strip().a[0].a[len(b.strip().a[0].a)-1].constInt(); ok {
					st.T[fmt.Sprintf("lstat:%d:%s", i, n)] = "1"
				}
			}
		case ci.Fn != nil && er == nil && inRepoFn(ci.Fn) && res.typ != nil && isIntType(res.typ) && len(args) > 0 && args[0].typ != nil && isStringType(args[0].typ):
			st.T["cutcall:"+res.path()] = nk(ovName(args[0]))
		case er != nil && isEntries(ci):
			for _, a := range args {
				if a.typ != nil && isStringType(a.typ) {
					st.S[resOf(res, 0).strip()] = "entries:" + nk(ovName(a))
				}
			}
		default:
			if n, from, ok := isLookup(ci); ok {
				st.S[er.strip()] = "look:" + from + ":" + nk(n)
				if from == "0" {
					st.T["res:"+resOf(res, 0).path()] = nk(n)
				}
			}
		}
	}
}

// nk is the key facts about a name are kept under.
func nk(n *Val) string { return fmt.Sprintf("%s#%d", n.path(), n.id) }

// factKinds are forgotten when the state lock is let go: what was found may have changed.
var factKinds = map[string]bool{"abs": true, "found": true, "own": true, "copied": true, "unwhiteout": true, "unopaque": true,
	"dir": true, "empty": true, "scanned": true, "made": true, "madedir": true}

// ovTrail: v is a name with a separator appended.
func ovTrail(v *Val) *Val {
	v = unconv(v)
	if v.k == KBin && v.s == "+" && isSlash(v.a[1]) {
		return ovName(v.a[0])
	}
	return nil
}

func isErrno(v *Val, n int64) bool {
	k, ok := unconv(v.strip()).constInt()
	return ok && k == n
}

// isEntries: a call listing the merged entries of a name.
func isEntries(ci *CallInfo) bool {
	r := ci.Common.Signature().Results()
	if r.Len() != 2 || ci.Fn == nil || !inRepoFn(ci.Fn) {
		return false
	}
	s, ok := r.At(0).Type().Underlying().(*types.Slice)
	return ok && namedIs(s.Elem(), "DirEntry")
}

// ---- C31 ----

func checkMasks(c *Ck) {
	c.Rule("hide-first", "a name is taken from the top only once it is whited out or no lower layer shows it", 3)
	c.Rule("clear-last", "a whiteout is lifted only once the top holds the name or no lower layer shows it, and from a new directory only once it is opaque", 4)
	c.Rule("opaque", "a directory made or moved in the top is marked opaque before success is reported", 3)
	c.Rule("unopaque", "after a copy-up no opaque mark is left on the copied name", 5)
	c.Rule("beneath", "the marks dropped with a name, or moved with a directory, are exactly those of both kinds beneath it", 8)
	c.Rule("store-first", "a mark changes in memory only after the store recorded the change, and success means both did", 6)
	p := c.P
	rel, ops := overlayRelevant(p), maskOps(p)
	for _, fn := range ovEntries(p) {
		if !rel[fn] {
			continue
		}
		what := fnName(fn)
		ei := errResult(fn.Signature)
		c.RunEntry(func() *Eng {
			e := overlayEng(p, rel, ops)
			o := &ov{c: c, what: what, ops: ops}
			o.hooks(e,
				func(e *Eng, st *State, ci *CallInfo, name string, args []*Val) {
					if name != "Remove" && name != "RemoveAll" && name != "Rename" {
						return
					}
					n := nk(ovName(args[0]))
					c.Did("hide-first", what+": "+siteName(ci.Instr))
					if st.T["SetWhiteout:"+n] == "" && st.T["abs:1:"+n] == "" {
						c.BadAt("hide-first", what+": "+name, e, ci.fr, ci.Instr, "%s leaves the top while a lower layer may show it", args[0])
					}
				},
				func(e *Eng, st *State, ci *CallInfo, op string, names []*Val) {
					if len(names) != 1 {
						return
					}
					n := nk(names[0])
					if strings.Contains(op, "ClearWhiteout") && !strings.Contains(op, "SetWhiteout") {
						c.Did("clear-last", what+": "+siteName(ci.Instr))
						switch {
						case st.T["abs:1:"+n] != "":
						case st.T["made:"+n] == "":
							c.BadAt("clear-last", what, e, ci.fr, ci.Instr, "the whiteout of %s is lifted before the top holds it", names[0])
						case st.T["madedir:"+n] != "" && (st.T["SetOpaque:"+n] == "" || strings.Contains(op, "ClearOpaque")):
							c.BadAt("clear-last", what, e, ci.fr, ci.Instr, "the whiteout of the directory %s is lifted before it is opaque", names[0])
						}
					}
					if strings.Contains(op, "ClearOpaque") || strings.Contains(op, "SetWhiteout") {
						delete(st.T, "SetOpaque:"+n)
					}
					if strings.Contains(op, "ClearWhiteout") {
						delete(st.T, "SetWhiteout:"+n)
					}
					if strings.Contains(op, "SetOpaque") {
						delete(st.T, "unopaque:"+n)
					}
				},
				func(e *Eng, st *State, name string, args []string) {
					switch name {
					case "Mkdir":
						st.T["made:"+args[0]] = "1"
						st.T["madedir:"+args[0]] = "1"
					case "Rename":
						st.T["made:"+args[1]] = "1"
						if st.T["dir:"+args[0]] != "no" {
							st.T["madedir:"+args[1]] = "1"
						}
					case "OpenFile", "Symlink", "Link":
						st.T["made:"+args[len(args)-1]] = "1"
					}
				})
			owed := func(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
				for k := range st.T {
					if n := strings.TrimPrefix(k, "madedir:"); n != k {
						c.Did("opaque", what)
						if st.T["SetOpaque:"+n] == "" {
							c.BadAt("opaque", what, e, fr, in, "the directory %s is reported made without an opaque mark", n)
						}
					}
					if n := strings.TrimPrefix(k, "copied:"); n != k {
						c.Did("unopaque", what)
						if st.T["unopaque:"+n] == "" && st.T["ClearOpaque:"+n] == "" {
							c.BadAt("unopaque", what, e, fr, in, "%s was copied up and may still be marked opaque", n)
						}
					}
				}
			}
			block := e.OnBlock
			e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
				n := len(st.T)
				old := maps.Clone(st.T)
				if block(e, fr, st, b); len(st.T) != n {
					s := &State{T: old}
					owed(e, fr, s, b.Instrs[0])
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if ei < 0 || e.nilness(st, res[ei]) == FNonNil {
					return
				}
				if k := st.S[res[ei].strip()]; k != "" { // returned as it came: nil on success
					o.settled(e, st, res[ei].strip())
				}
				owed(e, nil, st, in)
			}
			return e
		}, fn, nil)
	}
	c.storeFirst(ops, c.beneath())
}

// storeFirst checks the methods that keep the marks in memory and in the store.
// beneath checks the functions that go through the marks for those under a name.
func (c *Ck) beneath() map[*ssa.Function]bool {
	p := c.P
	out := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != overlayPkg || fn.Parent() != nil {
			continue
		}
		ni := -1
		for i, pa := range fn.Params {
			if isStringType(pa.Type()) && ni < 0 {
				ni = i
			}
		}
		kinds, drops := map[string]bool{}, false
		loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
		for _, b := range fn.Blocks {
			if body := loopBody(b); body != nil {
				loops[b] = body
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if k := markField(x.X); k != "" {
						kinds[k] = true
					}
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && markField(x.Call.Args[0]) != "" {
						drops = true
					}
					if f := x.Call.StaticCallee(); f != nil && f.Origin() != nil && f.Origin().Name() == "DeleteFunc" && len(x.Call.Args) == 2 {
						if k := markField(x.Call.Args[0]); k != "" {
							kinds[k], drops = true, true
						}
					}
				}
			}
		}
		if ni < 0 || len(kinds) == 0 {
			continue
		}
		out[fn] = drops
		what := fnName(fn)
		for _, cls := range []string{"self", "below", "sibling", "other", "root:self", "root:below"} {
			root := strings.HasPrefix(cls, "root:")
			rel := strings.TrimPrefix(cls, "root:")
			seen := map[string]bool{}
			c.RunEntry(func() *Eng {
				e := newEng(p)
				isName := func(v *Val) bool { i, ok := isParam(stripStore(v)); return ok && i == ni }
				key := func(v *Val) bool {
					v = v.strip()
					return v != nil && v.k != KBin && isStringType(v.typ) && origin(v, func(x *Val) bool { return x.k == KCall && (x.s == "next" || x.s == "cb") })
				}
				slash := func(v *Val) (*Val, bool) {
					if v == nil || v.k != KBin || v.s != "+" {
						return v, false
					}
					s, ok := v.a[1].constStr()
					return v.a[0], ok && s == "/"
				}
				yn := func(b bool) int8 {
					if b {
						return FTrue
					}
					return FFalse
				}
				e.Decide = func(e *Eng, st *State, cond *Val) int8 {
					switch {
					case cond.k == KBin && cond.s == "==":
						for i := 0; i < 2; i++ {
							x, y := cond.a[i], cond.a[1-i]
							if s, ok := y.constStr(); ok && s == "" && isName(x) {
								return yn(root)
							}
							if s, ok := y.constStr(); ok && s == "" && key(x) {
								return yn(root && rel == "self")
							}
							if key(x) && isName(y) {
								return yn(rel == "self")
							}
						}
					case isPure(cond, "strings.HasPrefix"), cond.k == KPure && cond.s == "strings.CutPrefix" && cond.n == 1:
						x, q := cond.a[0], cond.a[1]
						if s, ok := q.constStr(); ok && s == "" {
							return FTrue
						}
						qb, qs := slash(q)
						xb, xs := slash(x)
						switch {
						case !isName(qb):
						case key(x) && !qs:
							return yn(rel != "other")
						case key(x) && qs:
							return yn(rel == "below" && !root)
						case key(xb) && xs && qs:
							return yn(!root && (rel == "self" || rel == "below"))
						}
					}
					if cond.contains(func(x *Val) bool {
						return (x.k == KSlice || x.k == KElem || isPure(x, "len") || x.k == KPure && strings.HasPrefix(x.s, "strings.Cut")) && x.contains(key)
					}) {
						st.T["unknown"] = "1"
					}
					return 0
				}
				judge := func(e *Eng, fr *Frame, st *State, kind string, got bool, in ssa.Instruction) {
					if kind == "" {
						return
					}
					c.Did("beneath", what+": "+kind+" "+cls)
					seen[kind] = true
					want := rel == "below"
					if st.T["unknown"] != "" || got == want {
						return
					}
					if got {
						c.BadAt("beneath", what+": "+kind, e, fr, in, "the %s mark of a name that is not beneath it (%s) is taken for one that is", kind, map[string]string{"self": "the name itself", "sibling": "a sibling that begins alike", "other": "an unrelated name"}[rel])
					} else {
						c.BadAt("beneath", what+": "+kind, e, fr, in, "the %s mark of a name beneath it is passed over", kind)
					}
				}
				e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
					if ci.Builtin == "append" && len(ci.Args) == 2 {
						if el, ok := e.elems(st, ci.Args[1]); ok && len(el) == 1 && key(el[0]) {
							st.T["ev"] = "1"
							if v, ok := ci.Instr.(ssa.Value); ok && ci.fr.fn == fn {
								for i := range appendTo(v, fn) {
									if w := markWord(fn.Signature.Results().At(i).Name()); w != "" && st.T["kind"] != "" && w != st.T["kind"] {
										c.BadAt("beneath", what, e, ci.fr, ci.Instr, "a %s mark is taken for one of the other kind", st.T["kind"])
									}
								}
							}
						}
					}
					if ci.PkgPath() == "maps" && ci.Name() == "DeleteFunc" && len(ci.Args) == 2 {
						kind := ovMark(ci.Args[0])
						cl := ci.Args[1].strip()
						if kind != "" && (cl.k == KClosure || cl.k == KFunc) && cl.fn.Blocks != nil {
							var outs []CallOut
							for _, o := range e.callbackRes(ci.fr, st, ci, cl) {
								if len(o.res) == 1 {
									if t := e.truth(o.st, o.res[0]); t == 0 {
										judge(e, ci.fr, o.st, kind, true, ci.Instr)
										judge(e, ci.fr, o.st, kind, false, ci.Instr)
									} else {
										judge(e, ci.fr, o.st, kind, t == FTrue, ci.Instr)
									}
								}
								outs = append(outs, CallOut{o.st, e.u.mk(Val{k: KTuple})})
							}
							return outs, true
						}
					}
					return nil, false
				}
				e.OnMap = func(e *Eng, fr *Frame, st *State, m, k *Val, write bool, in ssa.Instruction) {
					if _, ok := in.(*ssa.MapUpdate); write && !ok && key(k) {
						st.T["ev"] = "1"
					}
				}
				e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
					body := loops[to]
					if fr.fn != fn || body == nil {
						return
					}
					kind := ""
					for _, in := range to.Instrs {
						if nx, ok := in.(*ssa.Next); ok {
							if r, ok := nx.Iter.(*ssa.Range); ok {
								kind = markField(r.X)
							}
						}
					}
					st.T["kind"] = kind
					if body[from] {
						judge(e, fr, st, kind, st.T["ev"] != "", to.Instrs[0])
					}
					delete(st.T, "ev")
					delete(st.T, "unknown")
				}
				return e
			}, fn, nil)
			if len(seen) == 1 {
				c.Bad("beneath", what, fn.Pos(), "only one kind of mark beneath a name is looked at")
			}
		}
	}
	return out
}

func (c *Ck) storeFirst(ops map[*ssa.Function]map[string]bool, droppers map[*ssa.Function]bool) {
	p := c.P
	want := map[string][]string{"whiteout+": {"SetWhiteout"}, "whiteout-": {"ClearWhiteout", "SetWhiteout"}, "opaque+": {"SetOpaque"}, "opaque-": {"ClearOpaque", "SetWhiteout"}}
	own := map[string]string{"SetWhiteout": "whiteout+", "ClearWhiteout": "whiteout-", "SetOpaque": "opaque+", "ClearOpaque": "opaque-"}
	for _, fn := range p.Funcs {
		if ops[fn] == nil {
			continue
		}
		what := fnName(fn)
		ei := errResult(fn.Signature)
		if ei < 0 {
			continue
		}
		c.RunEntry(func() *Eng {
			e := newEng(p)
			e.NoInline = func(ci *CallInfo) bool {
				return ci.Fn != nil && inRepoFn(ci.Fn) && ops[ci.Fn] == nil && !p.small(ci.Fn) && ci.Fn.Parent() == nil
			}
			settle := func(st *State, x *Val) {
				if k := st.S[x]; strings.HasPrefix(k, "store:") {
					f := strings.SplitN(k, ":", 3)
					st.T["did:"+f[1]+":"+f[2]] = "1"
					delete(st.S, x)
				}
			}
			change := func(e *Eng, fr *Frame, st *State, m, k *Val, sign string, in ssa.Instruction) {
				mark := ovMark(m)
				if mark == "" {
					return
				}
				c.Did("store-first", what)
				n := ""
				if k != nil {
					n = nk(ovName(k))
				}
				ok := false
				for _, op := range want[mark+sign] {
					for t := range st.T {
						ok = ok || t == "did:"+op+":"+n || n == "" && strings.HasPrefix(t, "did:"+op+":")
					}
				}
				if !ok {
					c.BadAt("store-first", what, e, fr, in, "the %s mark of %s changes in memory before the store has recorded it", mark, k)
				}
				st.T["mem:"+mark+sign+":"+n] = "1"
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				if cond, truth = condPeel(cond, truth); cond.k == KBin && cond.s == "==" && truth {
					for i := 0; i < 2; i++ {
						if cond.a[1-i].isNilConst() {
							settle(st, cond.a[i].strip())
						}
					}
				}
			}
			e.OnMap = func(e *Eng, fr *Frame, st *State, m, k *Val, write bool, in ssa.Instruction) {
				if !write {
					return
				}
				if _, ok := in.(*ssa.MapUpdate); ok {
					change(e, fr, st, m, k, "+", in)
				} else {
					change(e, fr, st, m, k, "-", in)
				}
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				if ci.PkgPath() == "maps" && ci.Name() == "DeleteFunc" {
					change(e, ci.fr, st, ci.Args[0], nil, "-", ci.Instr)
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				if ci.Fn != nil && droppers[ci.Fn] {
					for _, a := range ci.Args {
						if isStringType(a.typ) {
							st.T["mem:sub:"+nk(ovName(a))] = "1"
						}
					}
				}
				if !inlined && onStore(ci) && len(ci.Args) > 0 {
					st.S[errOf(ci, res).strip()] = "store:" + ci.Name() + ":" + nk(ovName(ci.Args[0]))
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if e.nilness(st, res[ei]) == FNonNil {
					return
				}
				settle(st, res[ei].strip())
				for t := range st.T {
					f := strings.SplitN(t, ":", 3)
					if f[0] != "did" {
						continue
					}
					c.Did("store-first", what+": "+f[1])
					if st.T["mem:"+own[f[1]]+":"+f[2]] == "" {
						c.BadAt("store-first", what+": "+f[1], e, nil, in, "%s of %s reached the store but not the marks in memory", f[1], f[2])
					}
					if f[1] == "SetWhiteout" && st.T["mem:sub:"+f[2]] == "" && !droppers[fn] {
						c.BadAt("store-first", what+": "+f[1], e, nil, in, "the marks beneath %s stay in memory when it is whited out", f[2])
					}
					if f[1] == "SetWhiteout" && st.T["mem:opaque-:"+f[2]] == "" {
						c.BadAt("store-first", what+": "+f[1], e, nil, in, "the opaque mark of %s stays in memory when it is whited out", f[2])
					}
				}
			}
			return e
		}, fn, nil)
	}
}

// ---- C32 ----

func checkTopReady(c *Ck) {
	c.Rule("parent", "a name is made in the top only when the top holds its parent", 4)
	c.Rule("absent", "a name is made only when the merged view does not show it", 3)
	c.Rule("copied", "an entry is changed in the top only after it was copied up", 4)
	c.Rule("empty", "a directory is removed or replaced only when the merged view shows nothing in it", 2)
	c.Rule("rename", "a rename is refused onto itself, into its own subtree, over another kind, and for a directory lower layers contribute to", 1)
	p := c.P
	rel, ops := overlayRelevant(p), maskOps(p)
	for _, fn := range ovEntries(p) {
		if !rel[fn] {
			continue
		}
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			e := overlayEng(p, rel, ops)
			o := &ov{c: c, what: what, ops: ops}
			parentReady := func(st *State, n *Val) bool {
				if st.T["flat:"+nk(n)] != "" {
					return true
				}
				for k := range st.T {
					if x := strings.TrimPrefix(strings.TrimPrefix(k, "own:"), "abs:0:"); x != k && x != nk(n) && strings.Contains(x, n.path()) {
						return true
					}
				}
				return false
			}
			o.hooks(e, func(e *Eng, st *State, ci *CallInfo, name string, args []*Val) {
				site := siteName(ci.Instr)
				bad := func(rule, f string, a ...any) {
					c.BadAt(rule, what+": "+name, e, ci.fr, ci.Instr, f, a...)
				}
				make := func(n *Val) {
					c.Did("parent", what+": "+site)
					if !parentReady(st, n) {
						bad("parent", "%s is made before the top holds its parent", n)
					}
					c.Did("absent", what+": "+site)
					if st.T["abs:0:"+nk(n)] == "" {
						bad("absent", "%s is made without the merged view being known not to show it", n)
					}
				}
				n := ovName(args[0])
				isDir := func(x *Val) string { return st.T["dir:"+nk(x)] }
				switch name {
				case "Mkdir", "MkdirAll":
					make(n)
				case "Symlink":
					make(ovName(args[1]))
				case "Link":
					c.Did("copied", what+": "+site)
					if st.T["own:"+nk(n)] == "" && st.T["abs:0:"+nk(n)] == "" {
						bad("copied", "%s is linked before it was copied up", n)
					}
					make(ovName(args[1]))
				case "OpenFile":
					if readOnlyFlag(st, args[1]) {
						return
					}
					c.Did("copied", what+": "+site)
					if st.T["own:"+nk(n)] == "" && (st.T["abs:0:"+nk(n)] == "" || !parentReady(st, n) && st.T["found:"+nk(n)] == "") {
						bad("copied", "%s is opened in the top before it, or its parent, was copied up", n)
					}
				case "Chmod", "Chown", "Lchown", "Chtimes", "Truncate":
					c.Did("copied", what+": "+site)
					if st.T["own:"+nk(n)] == "" && st.T["abs:0:"+nk(n)] == "" {
						bad("copied", "%s is changed in the top before it was copied up", n)
					}
				case "Remove":
					c.Did("empty", what+": "+site)
					if isDir(n) != "no" && (isDir(n) != "yes" || st.T["empty:"+nk(n)] == "") {
						bad("empty", "%s is removed while it may be a directory with entries", n)
					}
				case "Rename":
					t := ovName(args[1])
					c.Did("rename", what+": "+site)
					c.Did("empty", what+": "+site)
					c.Did("copied", what+": "+site)
					if st.T["own:"+nk(n)] == "" && st.T["abs:0:"+nk(n)] == "" {
						bad("copied", "%s is moved before it was copied up", n)
					}
					if !parentReady(st, t) {
						bad("parent", "%s is made before the top holds its parent", t)
					}
					if st.T["differ:"+nk(n)+":"+nk(t)] == "" {
						bad("rename", "%s may be moved onto itself", n)
					}
					if st.T["notunder:"+nk(t)+":"+nk(n)] == "" {
						bad("rename", "%s may be moved beneath itself", n)
					}
					if st.T["abs:0:"+nk(t)] == "" {
						switch {
						case isDir(t) == "" || isDir(t) != isDir(n):
							bad("rename", "%s may replace %s, which may be of another kind", n, t)
						case isDir(t) == "yes" && st.T["empty:"+nk(t)] == "":
							bad("empty", "%s may be replaced while the merged view shows entries in it", t)
						}
					}
					if isDir(n) != "no" {
						open := ""
						for x, k := range st.S {
							if k == "lowerstat:"+nk(n) {
								open = x.String()
							}
						}
						if st.T["scanned:"+nk(n)] == "" || open != "" {
							bad("rename", "the directory %s may be moved while lower layers contribute to it", n)
						}
					}
				}
			}, func(e *Eng, st *State, ci *CallInfo, op string, names []*Val) {}, func(e *Eng, st *State, name string, args []string) {})
			return e
		}, fn, nil)
	}
}
