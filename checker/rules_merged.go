package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C33"] = checkMerged }

// markRead: cond asks whether a layer's marks hold a name.
func markRead(cond *Val) (kind string, idx, name *Val) {
	if cond == nil || cond.k != KPure || cond.s != "has" || len(cond.a) != 2 {
		return "", nil, nil
	}
	kind = ovMark(cond.a[0])
	if kind == "" {
		return "", nil, nil
	}
	cond.a[0].walk(func(x *Val) bool {
		if x.k == KIndex && idx == nil {
			idx = x.a[1]
		}
		return idx == nil
	})
	if idx == nil {
		return "", nil, nil
	}
	return kind, idx, cond.a[1]
}

func markField(v ssa.Value) string {
	for i := 0; i < 4; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			v = x.X
		case *ssa.FieldAddr:
			return markWord(structOf(deref(x.X.Type())).Field(x.Field).Name())
		case *ssa.Field:
			return markWord(structOf(x.X.Type()).Field(x.Field).Name())
		default:
			return ""
		}
	}
	return ""
}

func markWord(n string) string {
	for _, k := range []string{"whiteout", "opaque"} {
		if strings.HasPrefix(strings.ToLower(n), k) {
			return k
		}
	}
	return ""
}

// loopBody: the natural loop headed by h, nil if h heads none.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	var body map[*ssa.BasicBlock]bool
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
			}
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}

type mergedCk struct {
	*Ck
	bounds map[*ssa.Function]string // functions answering how deep a name, or a directory's children, may come from
	bools  map[*ssa.Function]bool   // functions answering whether a layer above one whited a name out
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	marks  map[*ssa.BasicBlock]bool // innermost loops over layers asking for marks
	climbs map[*ssa.BasicBlock]bool // loops around those
}

// vals keeps terms by their id, for a state to refer to by role.
type vals map[string]*Val

func (r vals) set(st *State, k string, v *Val) {
	if v == nil {
		delete(st.T, "v:"+k)
		return
	}
	id := fmt.Sprint(v.id)
	r[id] = v
	st.T["v:"+k] = id
}

func (r vals) get(st *State, k string) *Val { return r[st.T["v:"+k]] }

func (m *mergedCk) find() {
	p := m.P
	m.bounds, m.bools = map[*ssa.Function]string{}, map[*ssa.Function]bool{}
	m.loops, m.marks, m.climbs = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
	asks := func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if l, ok := in.(*ssa.Lookup); ok && markField(l.X) != "" {
				return true
			}
		}
		return false
	}
	reader := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != overlayPkg {
			continue
		}
		fns = append(fns, fn)
		for _, b := range fn.Blocks {
			if body := loopBody(b); body != nil {
				m.loops[b] = body
			}
			reader[fn] = reader[fn] || asks(b)
		}
	}
	looped := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			if m.loops[b] != nil {
				return true
			}
		}
		return false
	}
	calls := func(b *ssa.BasicBlock, loop bool) bool { // b calls a reader of marks, with or without a loop in it
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && reader[f] && looped(f) == loop {
					return true
				}
			}
		}
		return false
	}
	for h, body := range m.loops {
		for b := range body {
			if asks(b) || calls(b, false) {
				m.marks[h] = true
			}
		}
	}
	for h, body := range m.loops {
		for h2 := range m.marks {
			if h != h2 && body[h2] {
				m.climbs[h] = true
			}
		}
		for b := range body {
			if calls(b, true) && !m.marks[h] {
				m.climbs[h] = true
			}
		}
	}
	for h := range m.climbs {
		delete(m.marks, h)
	}
	hasLoop := func(fn *ssa.Function, set map[*ssa.BasicBlock]bool) bool {
		for _, b := range fn.Blocks {
			if set[b] {
				return true
			}
		}
		return false
	}
	for _, fn := range fns {
		r := fn.Signature.Results()
		if r.Len() != 1 || fn.Parent() != nil || !hasLoop(fn, m.marks) && !hasLoop(fn, m.climbs) {
			continue
		}
		switch t, _ := r.At(0).Type().Underlying().(*types.Basic); {
		case t != nil && t.Kind() == types.Int && hasLoop(fn, m.climbs):
			m.bounds[fn] = "name"
		case t != nil && t.Kind() == types.Int:
			m.bounds[fn] = "children"
		case t != nil && t.Kind() == types.Bool:
			m.bools[fn] = true
		}
	}
}

// below: the state shows index i to be at most the bound b.
func below(st *State, i, b *Val) bool {
	if i == b {
		return true
	}
	if st.T["le:"+nk(i)] == nk(b) {
		return true
	}
	for v, f := range st.facts {
		if within(v, f == FTrue, i, b) {
			return true
		}
	}
	return false
}

// within: v being so shows index i to be at most the bound b.
func within(v *Val, truth bool, i, b *Val) bool {
	top := func(x *Val) bool { // x is b+1
		if x == nil || x.k != KBin || x.s != "+" {
			return false
		}
		k, ok := x.a[1].constInt()
		return ok && k == 1 && x.a[0] == b
	}
	if v.k != KBin || v.s != "<" || len(v.a) != 2 {
		return false
	}
	x, y := v.a[0], v.a[1]
	switch {
	case !truth && x == b && y == i, truth && x == i && (top(y) || y == b):
		return true
	case truth && x == i && strings.HasPrefix(y.String(), "len(") && len(y.a) == 1 && y.a[0].k == KSlice:
		hi := y.a[0].a[2]
		return hi != nil && (top(hi) || hi == b)
	}
	return false
}

func checkMerged(c *Ck) {
	c.Rule("marks-bound", "a mark bounds the search at the layer that holds it: a whiteout on the name or above it, an opaque mark above it, for a directory's children also on it, and nothing else does", 3)
	c.Rule("every-ancestor", "the bound of a name is answered only once the marks on every name above it, up to the root, were asked for", 1)
	c.Rule("bounded", "a layer is asked for a name only within the bound of that name, for a directory's entries within the bound of its children", 2)
	c.Rule("no-answer", "a layer that fails to answer ends the operation with an error; it is never taken for one that shows nothing", 2)
	c.Rule("passed-over", "the next layer is asked only where this one shows nothing at the name, nor a file on the way to it", 2)
	c.Rule("merged", "an entry is taken exactly if no layer above showed or whited it out", 2)
	c.Rule("loaded", "every mark of every layer's store is loaded, as what it is, under its cleaned name", 2)
	m := &mergedCk{Ck: c}
	m.find()
	for fn := range m.bounds {
		m.bound(fn)
	}
	for fn := range m.bools {
		m.above(fn)
	}
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != overlayPkg || fn.Parent() != nil {
			continue
		}
		asks, loads := false, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					f := cc.Common().StaticCallee()
					asks = asks || f != nil && (m.bounds[f] != "" || f.Signature.Results().Len() == 1 && isIntType(f.Signature.Results().At(0).Type()) && callsAny(f, m.bounds))
					loads = loads || cc.Common().IsInvoke() && cc.Common().Method.Name() == "Load" && hasMethods(cc.Common().Value.Type(), "SetWhiteout", "Load")
				}
			}
		}
		if asks && errResult(fn.Signature) >= 0 {
			m.reads(fn)
		}
		if loads {
			m.load(fn)
		}
	}
}

func callsAny(fn *ssa.Function, set map[*ssa.Function]string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(ssa.CallInstruction); ok && set[cc.Common().StaticCallee()] != "" {
				return true
			}
		}
	}
	return false
}

// bound checks a function answering how deep a name may come from.
func (m *mergedCk) bound(fn *ssa.Function) {
	c := m.Ck
	what := fnName(fn)
	kind := m.bounds[fn]
	c.RunEntry(func() *Eng {
		e, reg := newEng(c.P), vals{}
		e.K = 64
		e.NoInline = func(ci *CallInfo) bool {
			return ci.Fn != nil && m.bounds[ci.Fn] != ""
		}
		self := func(st *State, n *Val) bool {
			n = ovName(n)
			i, ok := isParam(n)
			return ok && i > 0
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			if x, ok := in.(*ssa.If); ok {
				if b, ok := x.Cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && isStringType(b.X.Type()) {
					for _, o := range []ssa.Value{b.X, b.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `""` {
							if truth == (b.Op == token.EQL) {
								st.T["root"] = "1"
							} else {
								delete(st.T, "root")
							}
						}
					}
				}
			}
			cond, truth = condPeel(cond, truth)
			if o := reg.get(st, "outer"); o != nil && cond.k == KBin && cond.s == "<" {
				for _, i := range cond.a {
					if within(cond, truth, i, o) {
						st.T["le:"+nk(i)] = nk(o)
					}
				}
			}
			k, idx, name := markRead(cond)
			if k == "" || !truth {
				return
			}
			if k == "whiteout" && kind == "name" || k == "opaque" && self(st, name) == (kind == "children") {
				st.T["mark"] = nk(idx)
				reg.set(st, "mark", idx)
			}
		}
		// settle compares what the path found with what it makes the bound
		settle := func(e *Eng, fr *Frame, st *State, in ssa.Instruction, got []*Val) {
			mark := reg.get(st, "mark")
			hit := false
			for _, v := range got {
				hit = hit || v == mark && mark != nil
				if mark == nil && v != nil && reg.get(st, "idx") == v && v != nil {
					c.BadAt("marks-bound", what, e, fr, in, "the search is bounded at %s, where no mark that hides the name was found", v)
				}
			}
			if mark != nil {
				c.Did("marks-bound", what)
				if !hit {
					c.BadAt("marks-bound", what, e, fr, in, "a mark that hides the name in the layers below %s does not bound the search there", mark)
				}
			}
			reg.set(st, "mark", nil)
			delete(st.T, "mark")
			reg.set(st, "idx", nil)
		}
		e.OnMap = func(e *Eng, fr *Frame, st *State, mp, k *Val, write bool, in ssa.Instruction) {
			if kd, idx, _ := markRead(e.u.mk(Val{k: KPure, s: "has", a: []*Val{mp, k}})); kd != "" {
				reg.set(st, "idx", idx)
			}
		}
		e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
			if m.loops[to] == nil {
				return
			}
			for k := range st.T {
				if strings.HasPrefix(k, "le:") {
					delete(st.T, k)
				}
			}
			if m.climbs[to] {
				delete(st.T, "looped")
				st.T["round"] = fmt.Sprint(m.loops[to][from])
			}
			pi := -1
			for i, p := range to.Preds {
				if p == from {
					pi = i
				}
			}
			if m.marks[to] {
				st.T["looped"] = "1"
			}
			if !m.loops[to][from] && !m.marks[to] {
				return
			}
			var got []*Val
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !isIntType(ph.Type()) || induction(ph) {
					continue
				}
				got = append(got, e.eval(fr, st, ph.Edges[pi]))
			}
			settle(e, fr, st, to.Instrs[0], got)
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if m.bounds[ci.Fn] != "" && !inlined {
				for _, a := range callArgs(ci) {
					if isStringType(a.typ) && self(st, a) {
						reg.set(st, "outer", res.strip())
					}
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			idx, mark := reg.get(st, "idx"), reg.get(st, "mark")
			settle(e, nil, st, in, res)
			if kind == "name" {
				c.Did("every-ancestor", what)
				if st.T["root"] == "" || st.T["looped"] == "" {
					c.BadAt("every-ancestor", what, e, nil, in, "the bound is answered before the marks on every name above were asked for")
				}
				return
			}
			o := reg.get(st, "outer")
			c.Did("marks-bound", what+" answers")
			switch {
			case o == nil:
				c.BadAt("marks-bound", what, e, nil, in, "the bound of a directory's children is answered without that of the directory itself")
			case mark == nil && res[0] != o:
				c.BadAt("marks-bound", what, e, nil, in, "the bound is %s although no mark was found", res[0])
			case mark != nil && !below(st, idx, o):
				c.BadAt("marks-bound", what, e, nil, in, "a mark is counted in layer %s, which may lie below the bound of the directory itself", idx)
			}
		}
		return e
	}, fn, nil)
}

// induction: the loop's own counter.
func induction(ph *ssa.Phi) bool {
	for _, e := range ph.Edges {
		if b, ok := e.(*ssa.BinOp); ok && (b.X == ph || b.Y == ph) && (b.Op == token.ADD || b.Op == token.SUB) {
			return true
		}
	}
	return false
}

// above checks a function answering whether a layer above one whited a name out.
func (m *mergedCk) above(fn *ssa.Function) {
	c := m.Ck
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		e, reg := newEng(c.P), vals{}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if cond.k == KBin && cond.s == "<" && truth {
				idx, y := cond.a[0], cond.a[1]
				isInt := func(v *Val) bool { i, ok := isParam(v); return ok && i > 0 && isIntType(v.typ) }
				if isInt(y) || strings.HasPrefix(y.String(), "len(") && len(y.a) == 1 && y.a[0].k == KSlice && y.a[0].a[2] != nil && isInt(y.a[0].a[2]) {
					st.T["lt"] = nk(idx)
				}
			}
			if k, idx, name := markRead(cond); k != "" && truth {
				reg.set(st, "mark", idx)
				if i, ok := isParam(ovName(name)); !ok || i == 0 {
					c.BadAt("marks-bound", what, e, fr, in, "the marks are asked for %s, not for the name given", name)
				}
				if st.T["lt"] != nk(idx) {
					c.BadAt("marks-bound", what, e, fr, in, "a mark of layer %s counts, which may not lie above the layer given", idx)
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			c.Did("marks-bound", what)
			b, ok := res[0].constBool()
			if ok && b != (reg.get(st, "mark") != nil) {
				c.BadAt("marks-bound", what, e, nil, in, "the answer is %v although a mark was found: %v", b, reg.get(st, "mark") != nil)
			}
		}
		return e
	}, fn, nil)
}

// layerIdx: the index of the layer v, a filesystem or a data source, belongs to.
func layerIdx(v *Val) *Val {
	if v == nil {
		return nil
	}
	v = v.strip()
	if b, ok := fieldLoad(v, "fsys"); ok {
		v = b.strip()
	}
	if v.k == KLoad && v.a[0].k == KIndex {
		return v.a[0].a[1]
	}
	return nil
}

// reads checks a function that asks the layers for a name, within its bound.
func (m *mergedCk) reads(fn *ssa.Function) {
	c := m.Ck
	what := fnName(fn)
	ei := errResult(fn.Signature)
	c.RunEntry(func() *Eng {
		e, reg := newEng(c.P), vals{}
		e.K = 32
		e.NoInline = func(ci *CallInfo) bool {
			return ci.Fn != nil && inRepoFn(ci.Fn) && (m.bounds[ci.Fn] != "" || m.bools[ci.Fn] || pkgRel(ci.Fn.Pkg.Pkg) != overlayPkg || ci.Fn.Name() == "ContentPath" || looksUp(ci))
		}
		own := func(v *Val) bool { i, ok := isParam(ovName(v)); return ok && i > 0 }
		pend := func(st *State) string {
			for k := range st.T {
				if strings.HasPrefix(k, "pend:") {
					return strings.TrimPrefix(k, "pend:")
				}
			}
			return ""
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			if x, ok := in.(*ssa.If); ok {
				if b, ok := x.Cond.(*ssa.BinOp); ok && b.Op == token.EQL && isStringType(b.X.Type()) && truth {
					for _, o := range []ssa.Value{b.X, b.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == `""` && st.T["enotdir"] != "" {
							st.T["probe"] = "1"
						}
					}
				}
			}
			cond, truth = condPeel(cond, truth)
			switch {
			case cond.k == KBin && cond.s == "==":
				for i := 0; i < 2; i++ {
					if s, ok := cond.a[1-i].constStr(); ok && s == "" && truth && (own(cond.a[i]) || isPure(unconv(cond.a[i]), "io/fs.DirEntry.Name")) {
						st.T["empty"] = "1"
					}
					if x := cond.a[i]; cond.a[1-i].isNilConst() && strings.HasPrefix(st.S[x.strip()], "lerr") && truth {
						delete(st.T, "pend:"+nk(x.strip()))
						if st.S[x.strip()] == "lerr-own" {
							st.T["found"] = "1"
						}
					}
				}
			case isPure(cond, "errors.Is") && strings.HasPrefix(st.S[cond.a[0].strip()], "lerr") && truth:
				x := cond.a[0].strip()
				switch {
				case strings.HasSuffix(cond.a[1].String(), "ErrNotExist"):
					delete(st.T, "pend:"+nk(x))
					if st.S[x] == "lerr-up" {
						st.T["probe"] = "1"
					}
				case isErrno(cond.a[1], 20):
					delete(st.T, "pend:"+nk(x))
					if st.S[x] == "lerr-own" {
						st.T["enotdir"] = "1"
						delete(st.T, "probe")
					}
				}
			case isPure(cond, "io/fs.FileInfo.IsDir"):
				switch st.S[cond.a[0].strip()] {
				case "own":
					st.T["dir"] = map[bool]string{true: "yes", false: "no"}[truth]
				case "up":
					if truth {
						st.T["probe"] = "1"
					} else {
						st.T["blocked"] = "1"
					}
				}
			case cond.k == KPure && cond.s == "has" && ovMark(cond.a[0]) == "":
				st.T["seen"] = fmt.Sprint(truth)
				reg.set(st, "seen", cond.a[1])
			case strings.HasPrefix(st.S[cond], "above"):
				st.T["above"] = fmt.Sprint(truth)
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			n := ci.Name()
			args := callArgs(ci)
			var fsv, path *Val
			switch {
			case onFs(ci) && (n == "Lstat" || n == "Stat" || n == "Open" || n == "OpenFile" || n == "ReadDir" || n == "ReadLink") && len(args) > 0:
				fsv, path = ci.Recv, args[0]
			case ci.Fn != nil && n == "ReadDir" && len(args) == 2 && pkgRel(ci.Fn.Pkg.Pkg) == "vroot":
				fsv, path = args[0], args[1]
			case ci.Builtin == "append" && len(ci.Args) > 0 && isDirEntries(ci.Common.Args[0].Type()):
				c.Did("merged", what+": "+siteName(ci.Instr))
				if st.T["seen"] != "false" {
					c.BadAt("merged", what, e, ci.fr, ci.Instr, "an entry is taken without having found that no layer above shows it")
				}
				if st.T["above"] != "false" {
					c.BadAt("merged", what, e, ci.fr, ci.Instr, "an entry is taken without having found that no layer above whited it out")
				}
				if k := pend(st); k != "" {
					c.BadAt("no-answer", what, e, ci.fr, ci.Instr, "an entry is taken although the layer may have failed to answer")
				}
				st.T["taken"] = "1"
				return nil, false
			}
			if fsv == nil {
				return nil, false
			}
			idx := layerIdx(fsv)
			if idx == nil {
				return nil, false
			}
			if k := pend(st); k != "" {
				c.BadAt("no-answer", what, e, ci.fr, ci.Instr, "%s is called after the layer may have failed to answer", n)
			}
			c.Did("bounded", what+": "+siteName(ci.Instr))
			b, kind := reg.get(st, "bound"), st.T["bound"]
			if b == nil || !below(st, idx, b) {
				c.BadAt("bounded", what, e, ci.fr, ci.Instr, "layer %s is asked, which may lie below the bound", idx)
			} else if n == "ReadDir" && kind != "children" {
				c.BadAt("bounded", what, e, ci.fr, ci.Instr, "the entries of layer %s are read within the bound of the name, not of its children", idx)
			}
			if at := reg.get(st, "at:"+nk(path.strip())); at != nil && at != idx {
				c.BadAt("bounded", what, e, ci.fr, ci.Instr, "layer %s is asked with the path the name has in another layer", idx)
			}
			reg.set(st, "layer", idx)
			return nil, false
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined {
				return
			}
			n := ci.Name()
			args := callArgs(ci)
			er := errOf(ci, res)
			switch {
			case m.bounds[ci.Fn] != "":
				for _, a := range args {
					if isStringType(a.typ) && own(a) {
						reg.set(st, "bound", res.strip())
						st.T["bound"] = m.bounds[ci.Fn]
					}
				}
			case m.bools[ci.Fn]:
				ok := false
				for _, a := range args {
					l := reg.get(st, "layer")
					ok = ok || a == l
					if k, isC := a.constInt(); isC && l != nil {
						k2, isC2 := l.constInt()
						ok = ok || isC2 && k == k2
					}
				}
				named := false
				for _, a := range args {
					named = named || isStringType(a.typ) && a.contains(func(x *Val) bool { return isPure(x, "io/fs.DirEntry.Name") }) &&
						(a.contains(func(x *Val) bool { return x.k == KParam && x.n > 0 }) || isPure(a, "io/fs.DirEntry.Name"))
				}
				for _, a := range args { // an entry without a name, or of a directory without one
					s, empty := st.T["empty"], isStringType(a.typ)
					named = named && !(empty && isPure(unconv(a), "io/fs.DirEntry.Name") && s == "") || empty && own(a) && s != ""
				}
				if ok && named {
					st.S[res.strip()] = "above"
				}
			case n == "ContentPath" && ci.Recv != nil:
				if i := layerIdx(ci.Recv); i != nil {
					reg.set(st, "at:"+nk(res.strip()), i)
				}
				if own(args[0]) {
					st.S[res.strip()] = "ownpath"
				}
			case er != nil && (onFs(ci) && layerIdx(ci.Recv) != nil && len(args) > 0 || n == "ReadDir" && len(args) == 2 && layerIdx(args[0]) != nil):
				path := args[0]
				if !onFs(ci) {
					path = args[1]
				}
				k, info := "lerr-up", "up"
				if n == "Lstat" && st.S[path.strip()] == "ownpath" {
					k, info = "lerr-own", "own"
					delete(st.T, "dir")
				} else if n == "ReadDir" {
					k = "lerr-dir"
					st.T["read"] = "1"
				}
				st.S[er.strip()] = k
				st.T["pend:"+nk(er.strip())] = "1"
				if n == "Lstat" {
					st.S[resOf(res, 0).strip()] = info
				}
			}
		}
		e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
			body := m.loops[to]
			if body == nil {
				return
			}
			in := to.Instrs[len(to.Instrs)-1]
			if body[from] {
				if k := pend(st); k != "" {
					c.BadAt("no-answer", what, e, fr, in, "the search goes on although a layer may have failed to answer")
				}
			}
			if reg.get(st, "layer") != nil && body[from] && stepsOver(e, fr, st, to, reg.get(st, "layer")) {
				c.Did("passed-over", what+" "+st.T["found"]+st.T["dir"]+st.T["enotdir"])
				switch {
				case st.T["found"] != "" && st.T["read"] == "":
					c.BadAt("passed-over", what, e, fr, in, "the next layer is asked although this one shows the name")
				case st.T["enotdir"] != "" && st.T["probe"] == "" && fn.Signature.Results().Len() > 1:
					c.BadAt("passed-over", what, e, fr, in, "the next layer is asked although a file may stand in the way in this one")
				}
				for _, k := range []string{"found", "dir", "enotdir", "probe", "read", "blocked"} {
					delete(st.T, k)
				}
				reg.set(st, "layer", nil)
			}
			if readsEntries(body) && body[from] {
				if st.T["inentry"] != "" {
					c.Did("merged", what+": skipped")
					if st.T["taken"] == "" && st.T["seen"] != "true" && st.T["above"] != "true" {
						c.BadAt("merged", what, e, fr, in, "an entry is left out although no layer above shows it or whited it out")
					}
					if st.T["taken"] != "" && st.T["noted"] == "" {
						c.BadAt("merged", what, e, fr, in, "an entry is taken without being noted as seen")
					}
				}
			}
			if readsEntries(body) {
				for _, k := range []string{"taken", "noted", "seen", "above", "inentry", "empty"} {
					delete(st.T, k)
				}
			}
		}
		e.OnMap = func(e *Eng, fr *Frame, st *State, mp, k *Val, write bool, in ssa.Instruction) {
			if write && isPure(unconv(k), "io/fs.DirEntry.Name") {
				st.T["noted"] = "1"
			}
			if !write && isPure(unconv(k), "io/fs.DirEntry.Name") {
				st.T["inentry"] = "1"
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			k := pend(st)
			c.Did("no-answer", what)
			if k == "" {
				return
			}
			if !origin(res[ei], func(x *Val) bool { return strings.HasPrefix(st.S[x], "lerr") && st.T["pend:"+nk(x)] != "" }) {
				c.BadAt("no-answer", what, e, nil, in, "a layer may have failed to answer, and %s is returned", res[ei])
			}
		}
		return e
	}, fn, nil)
}

// stepsOver: the loop headed by h counts over what idx, the layer just asked, stands for.
func stepsOver(e *Eng, fr *Frame, st *State, h *ssa.BasicBlock, idx *Val) bool {
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isIntType(ph.Type()) || !induction(ph) {
			continue
		}
		v := e.eval(fr, st, ph)
		if v == idx || idx.k == KBin && idx.s == "+" && idx.a[0] == v {
			return true
		}
		if idx.isConst() && v.isConst() {
			return true
		}
	}
	return false
}

// readsEntries: the innermost loop over a layer's entries.
func readsEntries(body map[*ssa.BasicBlock]bool) bool {
	has := false
	for b := range body {
		for _, in := range b.Instrs {
			cc, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if cc.Common().IsInvoke() && cc.Common().Method.Name() == "Name" && namedIs(cc.Common().Value.Type(), "DirEntry") {
				has = true
			}
			if cc.Common().IsInvoke() && cc.Common().Method.Name() == "Lstat" {
				return false
			}
		}
	}
	return has
}

func isDirEntries(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && namedIs(s.Elem(), "DirEntry")
}

// load checks the function that takes the marks of every layer's store into memory.
func (m *mergedCk) load(fn *ssa.Function) {
	c := m.Ck
	what := fnName(fn)
	ei := errResult(fn.Signature)
	kinds := []string{"whiteout", "opaque"}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if cond.k != KBin || cond.s != "==" || !truth {
				return
			}
			for i := 0; i < 2; i++ {
				x := cond.a[i]
				if !cond.a[1-i].isNilConst() {
					continue
				}
				if st.S[x.strip()] == "loaderr" {
					st.T["loaded"] = "1"
				}
				if _, ok := fieldLoad(x.strip(), "store"); ok || hasMethods(x.typ, "SetWhiteout", "Load") {
					st.T["loaded"] = "1"
				}
			}
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if ci.IsInvoke() && ci.Name() == "Load" && hasMethods(ci.RecvT, "SetWhiteout", "Load") {
				st.S[resOf(res, 0).strip()], st.S[resOf(res, 1).strip()] = "names0", "names1"
				if er := errOf(ci, res); er != nil {
					st.S[er.strip()] = "loaderr"
				}
			}
		}
		e.OnLoad = func(e *Eng, fr *Frame, st *State, addr *Val, in ssa.Instruction) {
			if addr.k == KIndex {
				if s := st.S[addr.a[0].strip()]; strings.HasPrefix(s, "names") {
					st.T["elem"] = s
				}
			}
		}
		e.OnMap = func(e *Eng, fr *Frame, st *State, mp, k *Val, write bool, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !write {
				return
			}
			kind := markField(mu.Map)
			if kind == "" {
				return
			}
			c.Did("loaded", what+": "+kind)
			want := ""
			k.walk(func(x *Val) bool {
				if x.k == KIndex || x.k == KElem {
					if s := st.S[x.a[0].strip()]; strings.HasPrefix(s, "names") {
						want = kinds[s[5]-'0']
					}
				}
				return want == ""
			})
			if want != kind {
				c.BadAt("loaded", what, e, fr, in, "%s is loaded as a %s mark", k, kind)
			}
			if !k.contains(func(x *Val) bool { return isPure(x, "path.Clean") }) {
				c.BadAt("loaded", what, e, fr, in, "%s is loaded without being cleaned", k)
			}
			delete(st.T, "elem")
		}
		e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
			body := m.loops[to]
			if body == nil && fr.fn == fn {
				return
			}
			in := to.Instrs[0]
			if st.T["elem"] != "" && body[from] {
				c.BadAt("loaded", what, e, fr, in, "a mark is not taken in")
				delete(st.T, "elem")
			}
			outer := false
			for b := range body {
				for _, in := range b.Instrs {
					cc, ok := in.(ssa.CallInstruction)
					outer = outer || ok && cc.Common().IsInvoke() && cc.Common().Method.Name() == "Load"
				}
			}
			if outer && body[from] && st.T["loaded"] == "" {
				c.BadAt("loaded", what, e, fr, in, "the next layer is taken up before this one's marks were loaded")
			}
			if outer {
				delete(st.T, "loaded")
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if ei >= 0 && e.nilness(st, res[ei]) == FNonNil {
				return
			}
			if st.T["elem"] != "" {
				c.BadAt("loaded", what, e, nil, in, "a mark is not taken in")
			}
		}
		return e
	}, fn, nil)
}
