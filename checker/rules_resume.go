package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C22"] = checkResume
}

func isSource(ci *CallInfo) bool {
	r := ci.Common.Signature().Results()
	return ci.IsInvoke() && ci.Name() == "Open" && r.Len() == 3 && namedIs(r.At(1).Type(), "ContentInfo")
}

func isSink(ci *CallInfo, name string) bool {
	return ci.IsInvoke() && ci.Name() == name && ci.RecvT != nil && hasMethods(ci.RecvT, "State", "Append", "Commit")
}

func checkResume(c *Ck) {
	c.Rule("commit", "the part file is renamed to the target only after the copy succeeded with exactly the size known for it, every hook succeeded on the rewound file and closing it succeeded", 1)
	c.Rule("identity", "content is copied only from a source whose ETag does not differ from the expected one, and appended to a part only if the part's recorded ETag is that of the source", 2)
	c.Rule("sidecar", "before content is copied the sidecar holds its ETag, or is gone for fresh content without one", 2)
	c.Rule("position", "content is copied from the offset the source was opened at to the same offset of the part: a fresh part is truncated, a resumed one is sought to its length", 2)
	c.Rule("final", "nothing is changed while the target exists, and an existing target is taken as complete only if its size is the expected one or none is expected", 3)
	c.Rule("push", "a sink is committed only after the append succeeded with all the file's bytes or when it holds exactly those, under an ETag that does not differ", 1)
	c.Rule("copy", "the copying loop reports success only at the source's end with every byte written", 1)
	c.Rule("state", "a sink is complete only if its target exists, and an unreadable sidecar is an error", 1)
	c.Rule("seek", "a file source is handed out only at the offset asked for", 1)
	p := c.P
	c.Ladder = []int{64, 12}
	for _, fn := range p.exportedFuncs() {
		if pkgRel(fn.Pkg.Pkg) != "fsutil" {
			continue
		}
		switch r := recvNamed(fn); {
		case r == "ResumableCopyOption" && fn.Name() == "Pull":
			resumeWriter(c, fn)
		case r == "ResumableCopyOption" && fn.Name() == "Push":
			pushEntry(c, fn)
		case r == "FsSink" && (fn.Name() == "Append" || fn.Name() == "Commit"):
			resumeWriter(c, fn)
		case r == "FsSink" && fn.Name() == "State":
			sinkStateEntry(c, fn)
		case r == "FsSource" && fn.Name() == "Open":
			sourceEntry(c, fn)
		}
	}
	for _, fn := range p.Funcs {
		if fn.Blocks != nil && fn.Parent() == nil && inRepoFn(fn) && pkgRel(fn.Pkg.Pkg) == "fsutil" && isCopyLoop(fn) {
			copyLoopEntry(c, fn)
		}
	}
}

// isCopyLoop: an in-repo io.Copy.
func isCopyLoop(fn *ssa.Function) bool {
	s := fn.Signature
	w, r := false, false
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		w = w || hasMethods(t, "Write") && !hasMethods(t, "Read")
		r = r || hasMethods(t, "Read") && !hasMethods(t, "Write")
	}
	return w && r && s.Results().Len() == 2 && isIntType(s.Results().At(0).Type()) && isErrorType(s.Results().At(1).Type())
}

// sidecarPath: the path of an ETag sidecar.
func sidecarPath(v *Val) bool {
	return v != nil && v.contains(func(x *Val) bool { s, ok := x.constStr(); return ok && strings.HasSuffix(s, ".etag") })
}

// storedETag: read from the sidecar.
func storedETag(v *Val) bool {
	return origin(v, func(x *Val) bool {
		if x.k != KCall || !strings.HasSuffix(x.s, "OpenFile") {
			return false
		}
		for _, a := range x.in {
			if sidecarPath(a) {
				return true
			}
		}
		return false
	})
}

// infoField: a field of the content info of the source or of the parameter.
func infoField(v *Val, fld string) (side string) {
	v = unconv(v)
	b, ok := fieldLoad(v, fld)
	if !ok {
		return ""
	}
	if b.k == KRes && b.a[0].k == KCall && strings.HasSuffix(b.a[0].s, "Open") {
		return "src"
	}
	if b.k == KParam {
		return "exp"
	}
	return ""
}

// statSize: the size of what Stat found under a name; the name's value path.
func statSize(v *Val) (string, bool) {
	v = unconv(v)
	if v == nil || v.k != KCall && v.k != KPure || !strings.HasSuffix(v.s, ".Size") {
		return "", false
	}
	name := ""
	origin(v, func(x *Val) bool {
		if x.k == KCall && strings.HasSuffix(x.s, "Stat") {
			for _, a := range x.in {
				if a.typ != nil && isStringType(a.typ) {
					name = a.path()
				}
			}
		}
		return false
	})
	return name, name != ""
}

// resumeWriter checks Pull and the part-file side of a sink.
func resumeWriter(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	pull := fn.Name() == "Pull"
	isTarget := func(v *Val) bool { // the final name: a parameter, or the receiver's name
		v = stripClean(unconv(v))
		if v == nil || v.typ == nil || !isStringType(v.typ) {
			return false
		}
		return v.k == KParam || v.k == KLoad && v.a[0].k == KField && v.a[0].a[0].k == KParam || v.k == KFieldVal && v.a[0].k == KParam
	}
	isETag := func(v *Val) bool { return infoField(v, "ETag") != "" }
	var offParam *Val
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.MaxSteps = 2000000
		e.NoInline = func(ci *CallInfo) bool { return ci.Fn != nil && isCopyLoop(ci.Fn) }
		eqs := func(st *State, a, b string) { st.T["eq:"+a+","+b], st.T["eq:"+b+","+a] = "1", "1" }
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if truth && isPure(cond, "errors.Is") && strings.HasSuffix(cond.a[1].String(), "ErrNotExist") {
				switch st.S[cond.a[0].strip()] {
				case "stat:final":
					st.T["absent"] = "1"
				case "rmside":
					st.T["sidegone"] = "1"
				case "openside":
					st.T["nostored"] = "1"
				}
			}
			if cond.k != KBin || len(cond.a) != 2 {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := unconv(cond.a[i]), unconv(cond.a[1-i])
				if x == nil || y == nil {
					continue
				}
				k, isC := y.constInt()
				if cond.s == "==" && truth {
					if s, ok := y.constStr(); ok && s == "" && isETag(x) {
						st.T["noetag:"+infoField(x, "ETag")] = "1"
					}
					if s, ok := y.constStr(); ok && s == "" && storedETag(x) {
						st.T["nostored"] = "1"
					}
					if isETag(x) && isETag(y) && infoField(x, "ETag") != infoField(y, "ETag") {
						st.T["etageq"] = "1"
					}
					if isETag(x) && storedETag(y) && st.T["stored0"] == "" {
						st.T["stored:"+infoField(x, "ETag")] = "1"
					}
					if a, b := infoField(x, "Size"), infoField(y, "Size"); a != "" && b != "" {
						eqs(st, "size:"+a, "size:"+b)
					}
					if _, ok := statSize(x); ok && infoField(y, "Size") == "exp" {
						st.T["finalsize"] = "1"
					}
					if y.isNilConst() {
						if strings.HasPrefix(st.S[x.strip()], "need:") {
							delete(st.S, x.strip())
						}
						switch st.S[x.strip()] {
						case "seek":
							st.T["sought"] = st.T["seekto"]
						case "trunc":
							st.T["length"] = st.T["truncto"]
						case "side":
							st.T["sidewritten"] = "1"
						case "rmside":
							st.T["sidegone"] = "1"
						}
					}
					// start + written == size
					f := linForm(x)
					g := formSub(f, linForm(y), 1)
					w := marked(st, "written")
					if n := g[w]; w != nil && (n == 1 || n == -1) {
						size := ""
						rest := 0
						for t, m := range g {
							if t == w {
								continue
							}
							if s := infoField(t, "Size"); t != nil && s != "" && m == -n {
								size = s
								continue
							}
							rest++
							if t != nil && m == n && t.path() == st.T["sp"] {
								rest--
							}
						}
						st0 := st.T["start"] == "0"
						hasStart := st0
						for t := range g {
							if t != nil && t.path() == st.T["sp"] {
								hasStart = true
							}
						}
						if size != "" && rest == 0 && hasStart {
							st.T["sized:"+size] = "1"
						}
					}
					if _, ok := statSize(x); ok && y == offParam && offParam != nil {
						st.T["length"] = y.path()
					}
				}
				if isC && cond.s == "<" && k == 0 && i == 0 { // x < 0
					if s := infoField(x, "Size"); s != "" && truth {
						st.T["nosize:"+s] = "1"
					}
				}
				if isC && cond.s == "<" && i == 1 && k <= 0 && !truth { // !(0 < x)
					if x.path() == st.T["start"] {
						st.T["startzero"] = "1"
					}
				}
				if isC && cond.s == "==" && k == 0 && truth && x.path() == st.T["start"] {
					st.T["start"] = "0"
				}
			}
			// neither longer nor shorter
			if offParam != nil && cond.s == "<" && !truth {
				for i := 0; i < 2; i++ {
					if _, ok := statSize(cond.a[i]); ok && unconv(cond.a[1-i]) == offParam {
						st.T["nlt"+string(rune('0'+i))] = "1"
						if st.T["nlt0"] != "" && st.T["nlt1"] != "" {
							st.T["length"] = offParam.path()
						}
					}
				}
			}
			if offParam != nil && cond.s == "==" && truth {
				for i := 0; i < 2; i++ {
					if k, ok := cond.a[i].constInt(); ok && k == 0 && unconv(cond.a[1-i]) == offParam {
						st.T["start"] = "0"
					}
				}
			}
		}
		guard := func(e *Eng, st *State, ci *CallInfo) {
			if st.T["absent"] == "" && (pull || fn.Name() == "Commit") && !(fn.Name() == "Commit" && (ci.Name() == "Remove" || ci.Name() == "RemoveAll")) {
				c.Did("final", what)
				c.BadAt("final", what+": "+ci.Name(), e, ci.fr, ci.Instr, "%s is called although the target may exist", ci.Name())
			}
			c.Did("final", what)
		}
		unmet := func(e *Eng, st *State) string {
			for v, k := range st.S {
				if strings.HasPrefix(k, "need:") && e.nilness(st, v) != FNil {
					return k[5:]
				}
			}
			return ""
		}
		isCopy := func(ci *CallInfo) bool {
			return ci.Fn != nil && (inRepoFn(ci.Fn) && isCopyLoop(ci.Fn) || ci.PkgPath() == "io" && strings.HasPrefix(ci.Name(), "Copy"))
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			args := callArgs(ci)
			name := ci.Name()
			file := ci.Recv != nil && st.S[ci.Recv.strip()] == "part"
			switch {
			case isCopy(ci):
				c.Did("identity", what)
				var dst, src *Val
				for i, ps := 0, ci.Common.Signature().Params(); i < ps.Len() && i < len(args); i++ {
					if t := ps.At(i).Type(); hasMethods(t, "Write") {
						dst = args[i].strip()
					} else if hasMethods(t, "Read") {
						src = args[i].strip()
					}
				}
				if dst == nil || st.S[dst] != "part" {
					c.BadAt("position", what+": destination", e, ci.fr, ci.Instr, "content is copied to %s, not to the part file", dst)
				}
				fresh := st.T["start"] == "0"
				if pull {
					if src == nil || st.S[src] != "reader" {
						c.BadAt("position", what+": source", e, ci.fr, ci.Instr, "content is copied from %s, not from the source opened last", src)
					}
					if st.T["etageq"] == "" && st.T["noetag:src"] == "" && st.T["noetag:exp"] == "" {
						c.BadAt("identity", what+": expected", e, ci.fr, ci.Instr, "content is copied although the source's ETag may differ from the expected one")
					}
					if !fresh && st.T["startzero"] == "" && st.T["noetag:src"] == "" && st.T["stored:src"] == "" && !((st.T["nostored"] != "" || st.T["stored0"] != "") && st.T["etageq"] != "") {
						c.BadAt("identity", what+": part", e, ci.fr, ci.Instr, "content is appended to a part recorded under another ETag")
					}
				}
				c.Did("position", what)
				switch {
				case fresh && st.T["trunc"] == "":
					c.BadAt("position", what+": stale", e, ci.fr, ci.Instr, "fresh content is copied into a part file that was not truncated")
				case !fresh && st.T["trunc"] != "":
					c.BadAt("position", what+": truncated", e, ci.fr, ci.Instr, "resumed content is copied into a truncated part file")
				case !fresh && st.T["startzero"] == "" && (st.T["sought"] == "" || st.T["sought"] != st.T["sp"]):
					c.BadAt("position", what+": seek", e, ci.fr, ci.Instr, "resumed content is copied to another offset than the one it was read from")
				}
				if !pull && !fresh && st.T["length"] != st.T["start"] {
					c.BadAt("position", what+": length", e, ci.fr, ci.Instr, "content is appended to a part file that may not end at the offset")
				}
				c.Did("sidecar", what)
				known := st.T["stored:src"] != "" || st.T["stored:exp"] != "" && (st.T["noetag:src"] != "" || st.T["etageq"] != "")
				none := st.T["noetag:exp"] != "" && (!pull || st.T["noetag:src"] != "")
				switch {
				case none && fresh && st.T["sidegone"] == "":
					c.BadAt("sidecar", what+": stale", e, ci.fr, ci.Instr, "content of unknown identity is copied beside the sidecar of other content")
				case !none && !known && st.T["sidewritten"] == "":
					c.BadAt("sidecar", what+": unwritten", e, ci.fr, ci.Instr, "content is copied before its ETag is recorded")
				}
			case file && name == "Close":
				st.T["closed"] = "1"
			case ci.FnVal != nil && ci.Fn == nil && ci.Builtin == "" && hookSlice(ci.FnVal) != nil:
				if st.T["sought"] != "0" {
					c.BadAt("commit", what+": rewind", e, ci.fr, ci.Instr, "a hook is run on a file that may not be rewound")
				}
				if s := unmet(e, st); s != "" {
					c.BadAt("commit", what+": hook after "+s, e, ci.fr, ci.Instr, "a hook is run although %s may have failed", s)
				}
			case onFs(ci) && name == "Rename" && len(args) == 2:
				guard(e, st, ci)
				c.Did("commit", what)
				if !isTarget(args[1]) || isTarget(args[0]) {
					c.BadAt("commit", what+": names", e, ci.fr, ci.Instr, "%s is renamed to %s, not the part to the target", args[0], args[1])
				}
				if !pull {
					break
				}
				if s := unmet(e, st); s != "" {
					c.BadAt("commit", what+": "+s, e, ci.fr, ci.Instr, "the part is renamed although %s may have failed", s)
				}
				if st.T["closed"] == "" {
					c.BadAt("commit", what+": open", e, ci.fr, ci.Instr, "the part is renamed before it is closed")
				}
				if st.T["copied"] == "" {
					c.BadAt("commit", what+": empty", e, ci.fr, ci.Instr, "the part is renamed before anything was copied")
				}
				if st.T["over:PreCommitHooks"] == "" {
					c.BadAt("commit", what+": hooks", e, ci.fr, ci.Instr, "the part is renamed before every hook has run")
				}
				for _, s := range []string{"src", "exp"} {
					o := map[string]string{"src": "exp", "exp": "src"}[s]
					if st.T["nosize:"+s] == "" && st.T["sized:"+s] == "" && !(st.T["sized:"+o] != "" && st.T["eq:size:"+s+",size:"+o] != "") {
						c.BadAt("commit", what+": size "+s, e, ci.fr, ci.Instr, "the part is renamed although its size may not be the one known")
					}
				}
			case onFs(ci) && fsMutators[name]:
				guard(e, st, ci)
				for _, a := range args {
					if isTarget(a) {
						c.BadAt("final", what+": direct", e, ci.fr, ci.Instr, "%s is called on the target itself", name)
					}
				}
			case onFs(ci) && name == "OpenFile":
				if f, ok := args[1].constInt(); ok && f == 0 {
					break
				}
				guard(e, st, ci)
				if isTarget(args[0]) {
					c.BadAt("final", what+": direct", e, ci.fr, ci.Instr, "the target itself is opened for writing")
				}
			}
			return nil, false
		}
		drop := func(st *State, ks ...string) {
			for _, k := range ks {
				delete(st.T, k)
				for v, s := range st.S {
					if s == k {
						delete(st.S, v)
					}
				}
			}
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined {
				return
			}
			args := callArgs(ci)
			name := ci.Name()
			file := ci.Recv != nil && st.S[ci.Recv.strip()] == "part"
			switch {
			case isSource(ci):
				drop(st, "etageq", "noetag:src", "nosize:src", "reader", "startzero", "stored:src")
				st.S[resOf(res, 0).strip()] = "reader"
				st.T["start"] = unconv(args[1]).path()
				st.T["sp"] = st.T["start"]
				drop(st, "eq:size:src,size:exp", "eq:size:exp,size:src")
				if k, ok := args[1].constInt(); ok && k == 0 {
					st.T["start"] = "0"
				}
			case isCopy(ci):
				st.T["copied"] = "1"
				drop(st, "sought")
				st.S[unconv(resOf(res, 0))] = "written"
				st.S[resOf(res, 1).strip()] = "need:the copy"
			case ci.FnVal != nil && ci.Fn == nil && ci.Builtin == "" && hookSlice(ci.FnVal) != nil:
				drop(st, "sought")
				st.S[errOf(ci, res).strip()] = "need:a hook"
			case file && name == "Close":
				st.S[errOf(ci, res).strip()] = "need:closing"
			case file && name == "Seek":
				drop(st, "seek", "seekto", "sought")
				if w, ok := args[1].constInt(); ok && w == 0 {
					st.T["seekto"] = unconv(args[0]).path()
					if k, ok := args[0].constInt(); ok && k == 0 {
						st.T["seekto"] = "0"
					}
					st.S[errOf(ci, res).strip()] = "seek"
				}
			case file && name == "Truncate":
				drop(st, "trunc:e", "truncto", "length")
				st.T["truncto"] = unconv(args[0]).path()
				st.S[errOf(ci, res).strip()] = "trunc"
			case onFs(ci) && (name == "Stat" || name == "Lstat") && isTarget(args[0]):
				st.S[errOf(ci, res).strip()] = "stat:final"
			case onFs(ci) && name == "OpenFile":
				if f, ok := args[1].constInt(); ok && f == 0 {
					if sidecarPath(args[0]) {
						st.S[errOf(ci, res).strip()] = "openside"
					}
					break
				} else if sidecarPath(args[0]) {
					st.S[resOf(res, 0).strip()] = "sidefile"
				} else {
					st.S[resOf(res, 0).strip()] = "part"
					drop(st, "trunc", "sought")
					if ok && f&0x200 != 0 {
						st.T["trunc"] = "1"
					} else if !ok {
						st.T["trunc"] = "?"
					}
				}
			case (name == "WriteString" || name == "Write"):
				var f *Val
				if len(args) == 2 {
					f = args[0].strip()
				} else {
					f = ci.Recv.strip()
				}
				if f != nil && st.S[f] == "sidefile" && isETag(unconv(args[len(args)-1])) {
					st.S[errOf(ci, res).strip()] = "side"
				}
			case onFs(ci) && (name == "Remove" || name == "RemoveAll") && len(args) == 1:
				if sidecarPath(args[0]) {
					drop(st, "rmside", "sidegone", "stored:src", "stored:exp", "sidewritten")
					st.S[errOf(ci, res).strip()] = "rmside"
					st.T["stored0"] = "1"
				}
			}
		}
		ob := e.OnBranch
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			ob(e, fr, st, cond, truth, in)
			cc, tr := condPeel(cond, truth)
			if cc.k == KBin && cc.s == "<" && !tr {
				if l := cc.a[1].strip(); l.k == KPure && l.s == "len" && len(l.a) == 1 && isFuncSlice(l.a[0].typ) {
					st.T["over:"+sliceKey(l.a[0].strip())] = "1"
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if e.nilness(st, res[ei]) == FNonNil || !pull {
				return
			}
			if st.T["absent"] == "" { // the target was there
				c.Did("final", what)
				if st.T["finalsize"] == "" && st.T["nosize:exp"] == "" {
					c.BadAt("final", what+": size", e, nil, in, "a target of another size may be taken as complete")
				}
			}
		}
		return e
	}, fn, func(e *Eng, st *State, ps []*Val) {
		if fn.Name() == "Append" {
			for _, q := range ps {
				if isIntType(q.typ) {
					offParam = q
					st.T["start"] = q.path()
					st.T["sp"] = q.path()
				}
			}
		}
	})
}

func namedIs(t types.Type, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name
}

// sinkField: a field of what the sink reported about itself.
func sinkField(v *Val, fld string) bool {
	b, ok := fieldLoad(unconv(v), fld)
	return ok && b.k == KRes && b.a[0].k == KCall && strings.HasSuffix(b.a[0].s, "State")
}

func pushEntry(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		isETag := func(v *Val) bool { b, ok := fieldLoad(unconv(v), "ETag"); return ok && b.k == KParam }
		fileSize := func(v *Val) bool { _, ok := statSize(v); return ok }
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if sinkField(cond, "Complete") && truth {
				st.T["complete"] = "1"
			}
			if cond.k != KBin || len(cond.a) != 2 {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := unconv(cond.a[i]), unconv(cond.a[1-i])
				if x == nil || y == nil {
					continue
				}
				k, isC := y.constInt()
				if cond.s == "==" && truth {
					if s, ok := y.constStr(); ok && s == "" && (isETag(x) || sinkField(x, "ETag")) {
						st.T["sameid"] = "1"
					}
					if isETag(x) && sinkField(y, "ETag") {
						st.T["sameid"] = "1"
					}
					if sinkField(x, "Offset") && fileSize(y) {
						st.T["full"] = "1"
					}
					if isC && k == 0 && fileSize(x) {
						st.T["nofile"] = "1"
					}
					if isC && k == 0 && limitLeft(x) {
						st.T["drained"] = "1"
					}
					if y.isNilConst() && st.S[x.strip()] == "seek" {
						st.T["sought"] = st.T["seekto"]
					}
				}
				if cond.s == "<" && i == 0 && sinkField(y, "Offset") && fileSize(x) && !truth { // !(size < offset)
					st.T["within"] = "1"
				}
				if cond.s == "<" && i == 1 && isC && k == 0 && !truth && limitLeft(x) { // !(0 < left)
					st.T["drained"] = "1"
				}
				if cond.s == "<" && i == 0 && isC && k == 1 && truth && limitLeft(x) {
					st.T["drained"] = "1"
				}
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			args := callArgs(ci)
			switch {
			case isSink(ci, "Append"):
				c.Did("push", what)
				off := unconv(args[2])
				if k, ok := off.constInt(); ok && k == 0 {
					st.T["from"] = "0"
				} else if sinkField(off, "Offset") {
					st.T["from"] = "off"
					if st.T["within"] == "" {
						c.BadAt("push", what+": beyond", e, ci.fr, ci.Instr, "content is sent from an offset that may lie beyond the file's end")
					}
					if st.T["sameid"] == "" {
						c.BadAt("push", what+": identity", e, ci.fr, ci.Instr, "content is appended to other content of the sink")
					}
					if st.T["sought"] != off.path() && !st.fact(func(v *Val, f int8) bool { // !(0 < offset)
						v = unconv(v)
						return f == FFalse && v.k == KBin && v.s == "<" && v.a[1] == off && v.a[0].isNumeric()
					}) {
						c.BadAt("push", what+": seek", e, ci.fr, ci.Instr, "content is sent from another offset of the file than the one announced")
					}
				} else {
					c.BadAt("push", what+": offset", e, ci.fr, ci.Instr, "content is sent from %s, neither 0 nor the sink's offset", off)
				}
				if !origin(args[3], func(x *Val) bool { return st.S[x] == "file" }) && !st.fact(func(v *Val, f int8) bool { return false }) {
					if !e.reaches(st, args[3], func(x *Val) bool { return st.S[x] == "file" }) {
						c.BadAt("push", what+": reader", e, ci.fr, ci.Instr, "what is sent is not the file's content")
					}
				}
			case isSink(ci, "Commit"):
				c.Did("push", what)
				switch a := marked(st, "append"); {
				case a != nil && e.nilness(st, a) != FNil:
					c.BadAt("push", what+": append", e, ci.fr, ci.Instr, "the sink is committed although the append may have failed")
				case a != nil && st.T["drained"] == "":
					c.BadAt("push", what+": short", e, ci.fr, ci.Instr, "the sink is committed although the file may have ended early")
				case a == nil && !(st.T["full"] != "" && st.T["sameid"] != "") && st.T["nofile"] == "":
					c.BadAt("push", what+": unsent", e, ci.fr, ci.Instr, "the sink is committed without the file's content")
				}
			}
			return nil, false
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined {
				return
			}
			args := callArgs(ci)
			switch {
			case isSink(ci, "Append"):
				st.S[errOf(ci, res).strip()] = "append"
				delete(st.T, "drained")
			case isSink(ci, "Commit"):
				st.S[errOf(ci, res).strip()] = "commit"
			case onFs(ci) && ci.Name() == "OpenFile":
				st.S[resOf(res, 0).strip()] = "file"
			case ci.Name() == "Seek" && ci.Recv != nil && st.S[ci.Recv.strip()] == "file":
				delete(st.T, "sought")
				if w, ok := args[1].constInt(); ok && w == 0 {
					st.T["seekto"] = unconv(args[0]).path()
					st.S[errOf(ci, res).strip()] = "seek"
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if e.nilness(st, res[ei]) == FNonNil {
				return
			}
			c.Did("push", what)
			if st.T["complete"] != "" {
				return
			}
			r := marked(st, "commit")
			if r != nil {
				for _, x := range wrapped(res[ei]) {
					if x.strip() == r {
						return
					}
				}
				if e.nilness(st, r) == FNil {
					return
				}
			}
			c.BadAt("push", what+": success", e, nil, in, "%s may report success without a committed sink", what)
		}
		return e
	}, fn, nil)
}

// limitLeft: what a LimitedReader has not read yet.
func limitLeft(v *Val) bool {
	v = unconv(v)
	return v != nil && (v.k == KLoad && v.a[0].k == KField && v.a[0].fld.Name() == "N" || v.contains(func(x *Val) bool { return x.k == KField && x.fld.Name() == "N" }))
}

// reaches: pred holds for something v refers to, through the memory it points at.
func (e *Eng) reaches(st *State, v *Val, pred func(x *Val) bool) bool {
	seen := map[*Val]bool{}
	var rec func(x *Val) bool
	rec = func(x *Val) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if pred(x) {
			return true
		}
		for _, a := range x.a {
			if rec(a) {
				return true
			}
		}
		for k, w := range st.heap {
			if k == x || k.k == KField && k.a[0] == x {
				if rec(w) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

func sinkStateEntry(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined {
				return
			}
			args := callArgs(ci)
			switch {
			case onFs(ci) && (ci.Name() == "Stat" || ci.Name() == "Lstat"):
				st.S[errOf(ci, res).strip()] = "stat:" + args[0].path()
				if marked(st, "first") == nil && st.T["first"] == "" {
					st.T["first"] = "stat:" + args[0].path()
				}
			case onFs(ci) && ci.Name() == "OpenFile" && sidecarPath(args[0]):
				st.S[errOf(ci, res).strip()] = "open"
			case ci.Name() == "ReadAll" || ci.Name() == "Read":
				if er := errOf(ci, res); er != nil {
					st.S[er.strip()] = "read"
				}
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if truth && isPure(cond, "errors.Is") && strings.HasSuffix(cond.a[1].String(), "ErrNotExist") {
				st.T["gone:"+st.S[cond.a[0].strip()]] = "1"
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if e.nilness(st, res[ei]) == FNonNil {
				return
			}
			c.Did("state", what)
			get := func(fld string) *Val { return e.fieldOf(st, res[0], fld) }
			if v := get("Complete"); v != nil {
				if b, ok := v.constBool(); !ok || b {
					okf := false
					for w, k := range st.S {
						okf = okf || k == st.T["first"] && e.nilness(st, w) == FNil
					}
					if !okf {
						c.BadAt("state", what+": complete", e, nil, in, "the sink may be reported complete although its target may not exist")
					}
				}
			}
			for v, k := range st.S {
				if (k == "open" || k == "read") && e.nilness(st, v) != FNil && st.T["gone:"+k] == "" {
					c.BadAt("state", what+": "+k, e, nil, in, "an unreadable sidecar is taken for an absent one")
				}
				if strings.HasPrefix(k, "stat:") && e.nilness(st, v) != FNil && st.T["gone:"+k] == "" {
					c.BadAt("state", what+": stat", e, nil, in, "a failed Stat is taken for an absent file")
				}
			}
		}
		return e
	}, fn, nil)
}

func sourceEntry(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		isOff := func(v *Val) bool { v = unconv(v); return v != nil && v.k == KParam && isIntType(v.typ) }
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if ci.Name() == "Seek" && !inlined {
				args := callArgs(ci)
				if w, ok := args[1].constInt(); ok && w == 0 && isOff(args[0]) {
					st.S[errOf(ci, res).strip()] = "seek"
				}
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if cond.k != KBin {
				return
			}
			if k, ok := cond.a[0].constInt(); ok && cond.s == "<" && k <= 0 && isOff(cond.a[1]) && !truth {
				st.T["zero"] = "1"
			}
			for i := 0; i < 2; i++ {
				if k, ok := cond.a[i].constInt(); ok && cond.s == "==" && k == 0 && isOff(cond.a[1-i]) && truth {
					st.T["zero"] = "1"
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if e.nilness(st, res[ei]) == FNonNil {
				return
			}
			c.Did("seek", what)
			s := marked(st, "seek")
			if st.T["zero"] == "" && (s == nil || e.nilness(st, s) != FNil) {
				c.BadAt("seek", what, e, nil, in, "the source may be handed out at another offset")
			}
		}
		return e
	}, fn, nil)
}

func copyLoopEntry(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined {
				return
			}
			clear := func(ks ...string) {
				for v, s := range st.S {
					for _, k := range ks {
						if s == k {
							delete(st.S, v)
						}
					}
				}
			}
			switch ci.Name() {
			case "Read":
				if st.T["unwritten"] != "" {
					c.BadAt("copy", what+": lost", e, ci.fr, ci.Instr, "more is read although what was read before may not be written")
				}
				clear("n", "rerr", "w", "werr")
				st.S[unconv(resOf(res, 0))] = "n"
				st.S[errOf(ci, res).strip()] = "rerr"
				st.T["unwritten"] = "1"
				delete(st.T, "eof")
			case "Write":
				st.S[unconv(resOf(res, 0))] = "w"
				st.S[errOf(ci, res).strip()] = "werr"
				if !callArgs(ci)[0].contains(func(x *Val) bool { return st.S[x] == "n" }) {
					c.BadAt("copy", what+": bytes", e, ci.fr, ci.Instr, "what is written is not exactly what was read")
				}
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if isPure(cond, "errors.Is") && truth && isEOF(cond.a[1]) && st.S[cond.a[0].strip()] == "rerr" {
				st.T["eof"] = "1"
			}
			if cond.k != KBin {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := unconv(cond.a[i]), unconv(cond.a[1-i])
				k, isC := y.constInt()
				switch {
				case cond.s == "==" && truth && st.S[x.strip()] == "rerr" && isEOF(y):
					st.T["eof"] = "1"
				case cond.s == "==" && truth && st.S[x] == "w" && st.S[y] == "n":
					if we := marked(st, "werr"); we != nil && e.nilness(st, we) == FNil {
						delete(st.T, "unwritten")
					}
				case cond.s == "<" && i == 1 && isC && k == 0 && !truth && st.S[x] == "n", // !(0 < n)
					cond.s == "==" && isC && k == 0 && truth && st.S[x] == "n":
					delete(st.T, "unwritten")
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if e.nilness(st, res[1]) == FNonNil {
				return
			}
			c.Did("copy", what)
			if st.T["eof"] == "" {
				c.BadAt("copy", what+": end", e, nil, in, "the copy may report success before the source's end")
			}
			if st.T["unwritten"] != "" {
				c.BadAt("copy", what+": unwritten", e, nil, in, "the copy may report success with bytes unwritten")
			}
		}
		return e
	}, fn, nil)
}

// fieldOf: the value of a named field of a struct value.
func (e *Eng) fieldOf(st *State, v *Val, name string) *Val {
	v = v.strip()
	if v == nil || v.typ == nil {
		return nil
	}
	s := structOf(v.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if f := s.Field(i); f.Name() == name {
			return e.fieldVal(st, v, f, f.Type())
		}
	}
	return nil
}
