package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C38"] = checkTar }

// tarSection is what the analysis knows of tarfs' Section.
type tarSection struct {
	n                    *types.Named
	headerEnd, bodyEnd   *types.Var
	headerStart          *types.Var
	header               *types.Var
	holes                *types.Var
	holeOffset, holeSize *types.Var
}

// tarSections finds the section type by its exported accessors.
func (p *Prog) tarSections() *tarSection {
	for _, n := range p.structs() {
		if pkgRel(n.Obj().Pkg()) != "tarfs" {
			continue
		}
		t := &tarSection{n: n}
		t.headerEnd = p.accessed(n, "HeaderEnd")
		t.bodyEnd = p.accessed(n, "BodyEnd")
		t.headerStart = p.accessed(n, "HeaderStart")
		t.header = p.accessed(n, "Header")
		if t.headerEnd == nil || t.bodyEnd == nil || t.header == nil {
			continue
		}
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			sl, ok := s.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			el, ok := sl.Elem().Underlying().(*types.Struct)
			if !ok || el.NumFields() != 2 {
				continue
			}
			for j := 0; j < 2; j++ {
				switch el.Field(j).Name() {
				case "Offset":
					t.holeOffset = el.Field(j)
				case "Length":
					t.holeSize = el.Field(j)
				}
			}
			if t.holeOffset != nil && t.holeSize != nil {
				t.holes = s.Field(i)
				return t
			}
		}
	}
	return nil
}

// accessed is the field an accessor returns.
func (p *Prog) accessed(n *types.Named, name string) *types.Var {
	fn := p.Method(n, name)
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	var out *types.Var
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
				if u, ok := r.Results[0].(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						out = fieldOf(deref(fa.X.Type()), fa.Field)
					}
				}
			}
		}
	}
	return out
}

func checkTar(c *Ck) {
	c.Rule("pieces", "what makes an entry's reader covers the body, or each hole and the data before it, in order and with nothing between: data from where the last data ended, zeros over each hole, up to the last hole of the map", 4)
	c.Rule("extent", "a section's body ends where its header ends, plus, unless its type is one archive/tar gives no body, the size in its header less the holes of its map", 3)
	c.Rule("errors", "no section is handed on, and no filesystem made, once a read of the archive failed", 4)
	c.Rule("mapped", "a sparse map is taken only if it was found valid for the size of its file; one found invalid, and an entry that could not be parsed, is an error", 3)
	c.Rule("latest", "of several entries of one name the map of headers keeps the last", 1)
	c.Rule("listed", "every entry of a supported type and a valid name is added to the tree; a directory's map and its list change together", 2)
	c.Rule("openable", "an entry that is opened has been found to be neither a symbolic nor a hard link, so its open cannot panic; the root is a directory", 2)
	t := c.P.tarSections()
	if t == nil {
		c.Bad("pieces", "tarfs", 0, "no section type was found")
		return
	}
	making := c.P.tarMaking(t)
	for _, fn := range c.P.Funcs {
		if fn.Blocks == nil || fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != "tarfs" || !inRepoFn(fn) {
			continue
		}
		ra, sec := -1, -1
		for i, p := range fn.Params {
			switch {
			case namedOf(p.Type()) == t.n:
				sec = i
			case hasMethods(p.Type(), "ReadAt"):
				ra = i
			}
		}
		if res := fn.Signature.Results(); ra >= 0 && sec >= 0 && res.Len() > 0 && hasMethods(res.At(0).Type(), "Read") {
			c.tarPieces(t, fn, ra, sec)
		}
		if making[fn] {
			c.tarErrors(t, fn)
			c.tarMapped(t, fn)
			c.tarLatest(t, fn)
			c.tarListed(t, fn)
		}
		if len(fn.Params) == 1 && fn.Parent() != nil {
			if s, ok := fn.Params[0].Type().Underlying().(*types.Signature); ok && s.Params().Len() == 2 && namedOf(s.Params().At(0).Type()) == t.n && s.Results().Len() == 1 {
				c.tarSections(t, fn)
			}
		}
	}
	// the tree
	var dir *types.Named
	var files, list *types.Var
	for _, n := range c.P.structs() {
		if pkgRel(n.Obj().Pkg()) != "tarfs" {
			continue
		}
		var f, l *types.Var
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			switch x := s.Field(i).Type().Underlying().(type) {
			case *types.Map:
				if types.IsInterface(x.Elem()) {
					f = s.Field(i)
				}
			case *types.Slice:
				if types.IsInterface(x.Elem()) {
					l = s.Field(i)
				}
			}
		}
		if f != nil && l != nil {
			dir, files, list = n, f, l
		}
	}
	if dir == nil {
		c.Bad("listed", "tarfs", 0, "no type of directory was found")
		return
	}
	ent := list.Type().Underlying().(*types.Slice).Elem()
	writes := func(fn *ssa.Function, in ssa.Instruction) bool {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			return types.Identical(x.Map.Type(), files.Type())
		case *ssa.FieldAddr:
			return fieldOf(deref(x.X.Type()), x.Field) == list
		}
		return false
	}
	var kinds []types.Type
	for _, fn := range c.P.Funcs {
		if fn.Blocks == nil || fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != "tarfs" || !inRepoFn(fn) {
			continue
		}
		touches := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeInterface); ok && making[fn] && types.Identical(m.Type(), ent) {
					have := false
					for _, k := range kinds {
						have = have || types.Identical(k, m.X.Type())
					}
					if !have {
						kinds = append(kinds, m.X.Type())
					}
				}
				touches = touches || writes(fn, in)
			}
		}
		if touches {
			c.tarTree(dir, files, list, fn)
		}
	}
	rel := c.P.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		if l, ok := in.(*ssa.Lookup); ok {
			return types.Identical(l.X.Type(), files.Type())
		}
		if a, ok := in.(*ssa.TypeAssert); ok {
			return types.Identical(a.X.Type(), ent)
		}
		return false
	})
	k := &tarKinds{p: c.P, ent: ent, kinds: kinds, rel: rel, sums: map[string]string{}, seen: map[*ssa.Function]bool{}}
	for _, fn := range c.P.exportedFuncs() {
		if fn.Pkg != nil && pkgRel(fn.Pkg.Pkg) == "tarfs" && fn.Signature.Recv() != nil && rel[fn] && !making[fn] {
			c.tarOpenable(k, fn)
		}
	}
	for fn := range k.seen {
		c.Funcs[fnName(fn)] = true
	}
}

// tarPieces follows the reader of an entry as it is put together. G is the
// end of the last hole, D the data taken so far, both zero before the first.
func (c *Ck) tarPieces(t *tarSection, fn *ssa.Function, ra, sec int) {
	what := fnName(fn)
	vals := map[string]*Val{}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		id := func(v *Val) string {
			s := fmt.Sprint(v.id)
			vals[s] = v
			return s
		}
		ofSec := func(v *Val, f *types.Var) bool {
			v = unconv(v.strip())
			if v == nil || v.k != KLoad || v.a[0].k != KField || v.a[0].fld != f {
				return false
			}
			n, ok := isParam(v.a[0].a[0])
			return ok && n == sec
		}
		// hole: a field of one hole of the map
		hole := func(v *Val) (idx *Val, f *types.Var) {
			v = unconv(v.strip())
			var at *Val
			switch {
			case v.k == KLoad && v.a[0].k == KField:
				at, f = v.a[0].a[0], v.a[0].fld
			case v.k == KFieldVal && v.a[0].k == KLoad:
				at, f = v.a[0].a[0], v.fld
			default:
				return nil, nil
			}
			if at.k != KIndex || !ofSec(at.a[0], t.holes) || f != t.holeOffset && f != t.holeSize {
				return nil, nil
			}
			return at.a[1], f
		}
		// offs: how far an index is beyond the last hole dealt with
		offs := func(st *State, idx *Val) (int, bool) {
			f := linForm(idx)
			if at := st.T["at"]; at != "" {
				i := strings.Index(at, ":")
				var d int
				fmt.Sscan(at[i+1:], &d)
				f = formSub(f, linForm(vals[at[:i]]), 1)
				if f[nil] -= d; f[nil] == 0 {
					delete(f, nil)
				}
			} else if f[nil]++; f[nil] == 0 {
				delete(f, nil)
			}
			if len(f) > 1 || len(f) == 1 && f[nil] == 0 {
				return 0, false
			}
			return f[nil], true
		}
		norm := func(st *State, v *Val) map[string]int {
			out := map[string]int{}
			add := func(s string, k int) {
				if st.T["at"] == "" && (s == "G" || s == "D") || s == "D" && st.T["nodata"] != "" {
					return
				}
				if out[s] += k; out[s] == 0 {
					delete(out, s)
				}
			}
			for x, k := range linForm(v) {
				if x == nil {
					add("1", k)
					continue
				}
				switch st.T["c:"+fmt.Sprint(x.id)] {
				case "G":
					add("G", k)
					continue
				case "D":
					add("D", k)
					continue
				case "H":
					add("G", k)
					add("D", -k)
					continue
				}
				if idx, f := hole(x); idx != nil {
					if d, ok := offs(st, idx); ok && d == 0 && f == t.holeOffset {
						add("P", k)
						continue
					} else if ok && d == 0 {
						add("G", k)
						add("P", -k)
						continue
					} else if ok && d == 1 && f == t.holeOffset {
						add("O", k)
						continue
					} else if ok && d == 1 {
						add("L", k)
						continue
					}
				}
				switch {
				case ofSec(x, t.headerEnd):
					add("HE", k)
				case ofSec(x, t.bodyEnd):
					add("BE", k)
				case x.k == KLoad && x.a[0].k == KField && x.a[0].fld.Name() == "Size" && ofSec(x.a[0].a[0], t.header):
					add("S", k)
				default:
					add("?"+fmt.Sprint(x.id), k)
				}
			}
			return out
		}
		is := func(f map[string]int, st *State, want ...any) bool {
			w := map[string]int{}
			for i := 0; i < len(want); i += 2 {
				s := want[i].(string)
				if st.T["at"] == "" && (s == "G" || s == "D") || s == "D" && st.T["nodata"] != "" {
					continue
				}
				if w[s] += want[i+1].(int); w[s] == 0 {
					delete(w, s)
				}
			}
			same := func() bool {
				if len(w) != len(f) {
					return false
				}
				for k, n := range w {
					if f[k] != n {
						return false
					}
				}
				return true
			}
			if same() {
				return true
			}
			if st.T["gap"] != "none" {
				return false
			}
			// O and G are one
			for _, m := range []map[string]int{w, f} {
				if n, ok := m["O"]; ok {
					delete(m, "O")
					if st.T["at"] != "" {
						if m["G"] += n; m["G"] == 0 {
							delete(m, "G")
						}
					}
				}
			}
			return same()
		}
		// piece describes a reader: zeros or the archive, from where, how much
		piece := func(v *Val) (off, n *Val, zeros, ok bool) {
			v = v.strip()
			for v.k == KIface {
				v = v.a[0].strip()
			}
			if !isPure(v, "section") {
				return
			}
			src := v.a[0].strip()
			for src.k == KIface {
				src = src.a[0].strip()
			}
			if isPure(src, "zeros") {
				return v.a[1], v.a[2], true, true
			}
			if i, p := isParam(src); p && i == ra {
				return v.a[1], v.a[2], false, true
			}
			return
		}
		e.Relevant = c.P.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
			cc, ok := in.(ssa.CallInstruction)
			if !ok || fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != "tarfs" {
				return false
			}
			f := cc.Common().StaticCallee()
			return f != nil && (f.Name() == "NewSectionReader" || f.Name() == "NewMultiReadAtSeekCloser")
		})
		e.NoInline = func(ci *CallInfo) bool {
			return ci.Fn != nil && !strings.HasPrefix(ci.Full(), "/tarfs") && !strings.HasPrefix(ci.Full(), "tarfs")
		}
		e.Decide = func(e *Eng, st *State, cond *Val) int8 {
			if cond.k != KBin {
				return 0
			}
			at0 := func(v *Val) bool { d, ok := offs(st, v); return ok && d == 1 && st.T["at"] != "" } // at least 1
			k0, c0 := cond.a[0].constInt()
			k1, c1 := cond.a[1].constInt()
			switch {
			case cond.s == "<" && c0 && k0 <= 0 && at0(cond.a[1]):
				return FTrue
			case cond.s == "<" && c1 && k1 <= 1 && at0(cond.a[0]):
				return FFalse
			case cond.s == "==" && (c0 && k0 <= 0 && at0(cond.a[1]) || c1 && k1 <= 0 && at0(cond.a[0])):
				return FFalse
			}
			return 0
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			pure := func(s string, a ...*Val) ([]CallOut, bool) {
				return []CallOut{{st, e.u.mk(Val{k: KPure, s: s, a: a, typ: ci.Common.Signature().Results().At(0).Type()})}}, true
			}
			switch {
			case ci.Full() == "io.NewSectionReader":
				return pure("section", ci.Args...)
			case ci.PkgPath() == "io" && ci.RecvName() == "SectionReader" && ci.Name() == "Size":
				if v := ci.Recv.strip(); isPure(v, "section") {
					return []CallOut{{st, v.a[2]}}, true
				}
			case ci.Name() == "NewByteRepeater":
				if n, ok := ci.Args[0].constInt(); ok && n == 0 {
					return pure("zeros")
				}
			case ci.Name() == "NewMultiReadAtSeekCloser":
				return pure("multi", ci.Args...)
			case ci.Builtin == "append" && len(ci.Args) == 2:
				sl, ok := ci.Common.Signature().Results().At(0).Type().Underlying().(*types.Slice)
				if !ok {
					return nil, false
				}
				s := structOf(sl.Elem())
				if s == nil || s.NumFields() != 2 {
					return nil, false
				}
				bad := func(f string, a ...any) { c.BadAt("pieces", what, e, ci.fr, ci.Instr, f, a...) }
				if l := st.T["list"]; l != "" && ci.Args[0] != vals[l] {
					bad("a piece is added to %s, not to those put together so far", ci.Args[0])
				}
				els, ok := e.elems(st, ci.Args[1])
				b := ci.Args[1].strip()
				if b.k == KSlice {
					b = b.a[0]
				}
				if b.k == KAlloc && len(els) == 0 {
					// stored field by field
					els = append(els, e.load(st, e.u.mk(Val{k: KIndex, a: []*Val{b, e.intc(0)}}), sl.Elem()))
					ok = true
				}
				if !ok {
					bad("what is added is not known")
				}
				for _, el := range els {
					var r, size *Val
					for i := 0; i < 2; i++ {
						v := e.fieldVal(st, el, s.Field(i), s.Field(i).Type())
						if isIntType(s.Field(i).Type()) {
							size = v
						} else {
							r = v
						}
					}
					if r == nil || size == nil {
						return nil, false
					}
					off, n, zeros, ok := piece(r)
					if !ok {
						bad("%s is neither a stretch of the archive nor zeros", r)
						continue
					}
					if d := formSub(linForm(size), linForm(n), 1); len(d) != 0 {
						bad("a piece of %s bytes is said to hold %s", n, size)
					}
					c.Did("pieces", what+": "+map[bool]string{true: "zeros", false: "data"}[zeros]+map[bool]string{true: " at the end"}[st.T["done"] != ""])
					switch {
					case zeros && st.T["done"] != "":
						if !is(norm(st, n), st, "S", 1, "G", -1) {
							bad("the zeros after the last hole are %s long, not what is left of the size", n)
						}
					case zeros:
						if st.T["gap"] == "" {
							bad("a hole is added without the data before it")
						} else if st.T["hole"] != "" {
							bad("a second stretch of zeros for one hole")
						} else if !is(norm(st, n), st, "L", 1) {
							bad("the zeros of a hole are %s long", n)
						}
						st.T["hole"] = "1"
					case st.T["done"] != "" || st.T["gap"] != "" || st.T["hole"] != "":
						bad("data is added where the map has none")
					default:
						if !is(norm(st, n), st, "O", 1, "G", -1) {
							bad("the data before a hole is %s long, which does not lead from the end of the last hole to it", n)
						}
						if !is(norm(st, off), st, "HE", 1, "D", 1) {
							bad("the data before a hole is read at %s, not where the last data ended", off)
						}
						st.T["gap"] = "data"
					}
				}
				r := e.u.mk(Val{k: KPure, s: "append", a: ci.Args, typ: ci.Common.Signature().Results().At(0).Type()})
				st.T["list"] = id(r)
				return []CallOut{{st, r}}, true
			}
			return nil, false
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if cond.k != KBin {
				return
			}
			x, y := cond.a[0], cond.a[1]
			isLen := func(v *Val) bool { v = unconv(v); return isPure(v, "len") && ofSec(v.a[0], t.holes) }
			if cond.s == "<" && isLen(y) && !truth || cond.s == "==" && (isLen(x) || isLen(y)) && truth {
				i := x
				if isLen(x) {
					i = y
				}
				if d, ok := offs(st, i); ok && d == 1 {
					st.T["done"] = "1"
				}
			}
			// the next hole follows at once: nothing to add before it
			if cond.s == "==" && truth || cond.s == "<" && !truth {
				f := formSub(linForm(x), linForm(y), 1)
				d := &Val{}
				_ = d
				n := map[string]int{}
				for v, k := range f {
					if v == nil {
						n["1"] += k
						continue
					}
					for s, m := range norm(st, v) {
						if n[s] += k * m; n[s] == 0 {
							delete(n, s)
						}
					}
				}
				if (is(n, st, "O", 1, "G", -1) || is(n, st, "O", -1, "G", 1) && cond.s == "==") && st.T["gap"] == "" {
					st.T["gap"] = "none"
				}
				if is(n, st, "L", 1) || is(n, st, "L", -1) && cond.s == "==" {
					st.T["hole"] = "empty"
				}
			}
		}
		loops := func(fr *Frame, b *ssa.BasicBlock) bool { return e.liveFor(fr.fn).loop[b.Index] }
		e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
			for k := range st.T {
				if strings.HasPrefix(k, "pend:") {
					delete(st.T, k)
				}
			}
			back := e.liveFor(fr.fn).back[[2]int{from.Index, to.Index}]
			if st.T["done"] != "" && back {
				return
			}
			pi := -1
			for i, p := range to.Preds {
				if p == from {
					pi = i
				}
			}
			worked := st.T["gap"] != "" || st.T["hole"] != ""
			if back && worked && (st.T["gap"] == "" || st.T["hole"] == "") {
				c.BadAt("pieces", what, e, fr, from.Instrs[len(from.Instrs)-1], "the next hole is turned to before this one was added")
			}
			class := func(v *Val) string {
				f := func() map[string]int { return norm(st, v) }
				var G, D []any
				G = []any{"G", 1}
				D = []any{"D", 1}
				if worked {
					G = []any{"O", 1, "L", 1}
					if st.T["gap"] == "data" {
						D = []any{"D", 1, "O", 1, "G", -1}
					}
				}
				H := append([]any{}, G...)
				for i := 0; i < len(D); i += 2 {
					H = append(H, D[i], -D[i+1].(int))
				}
				switch {
				case is(f(), st, G...):
					return "G"
				case is(f(), st, D...):
					return "D"
				case is(f(), st, H...):
					return "H"
				}
				return ""
			}
			idx := func(v *Val) (int, bool) {
				d, ok := offs(st, v)
				if worked {
					d--
				}
				return d, ok
			}
			for i, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := e.eval(fr, st, ph.Edges[pi])
				k := fmt.Sprintf("pend:%d", i)
				if l := st.T["list"]; l != "" && v == vals[l] {
					st.T[k] = "list"
				} else if isIntType(ph.Type()) {
					if !v.isConst() {
						if cl := class(v); cl != "" {
							st.T[k] = cl
						}
					}
					if back && worked {
						if d, ok := idx(v); ok {
							st.T[k] += fmt.Sprintf("@%d", -d)
						}
					} else if st.T["at"] != "" && !worked {
						if d, ok := idx(v); ok && !v.isConst() {
							st.T[k] += fmt.Sprintf("@%d", -d)
						}
					}
				}
			}
			if back {
				// numbers kept in memory over the rounds
				for k, v := range st.heap {
					if !isIntType(v.typ) || v.isConst() && !worked || root(k).k != KAlloc {
						continue
					}
					cl := class(v)
					if d, ok := idx(v); ok && worked {
						cl += fmt.Sprintf("@%d", -d)
					}
					if cl == "" {
						continue
					}
					pt := e.u.mk(Val{k: KPhi, site: e.u.site(fr.ctx, joinKey{to, k}), typ: v.typ})
					st.T["pend:h"+id(k)] = cl
					st.heap[k] = pt
				}
				for k, v := range st.heap {
					if l := st.T["list"]; l != "" && v == vals[l] && root(k).k == KAlloc {
						pt := e.u.mk(Val{k: KPhi, site: e.u.site(fr.ctx, joinKey{to, k}), typ: v.typ})
						st.T["pend:h"+id(k)] = "list"
						st.heap[k] = pt
					}
				}
			}
			if back && worked {
				st.T["pend:next"] = "1"
			}
		}
		e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
			next := st.T["pend:next"] != ""
			type upd struct{ v, cl string }
			var us []upd
			for k, cl := range st.T {
				if !strings.HasPrefix(k, "pend:") || k == "pend:next" {
					continue
				}
				delete(st.T, k)
				var v *Val
				if h := strings.TrimPrefix(k, "pend:"); h[0] == 'h' {
					v = st.heap[vals[h[1:]]]
				} else {
					var i int
					fmt.Sscan(h, &i)
					ph := b.Instrs[i].(*ssa.Phi)
					if v = st.env[ph]; next && v != nil && v.k == KBin && cl[0] != '@' && cl != "list" {
						v = e.u.mk(Val{k: KPhi, site: e.u.site(fr.ctx, joinKey{b, ph}), typ: v.typ})
						st.env[ph] = v
					}
				}
				if v != nil {
					us = append(us, upd{id(v), cl})
				}
			}
			delete(st.T, "pend:next")
			if next {
				for k := range st.T {
					if strings.HasPrefix(k, "c:") {
						delete(st.T, k)
					}
				}
				if st.T["gap"] == "none" && (st.T["at"] == "" || st.T["nodata"] != "") {
					st.T["nodata"] = "1"
				} else {
					delete(st.T, "nodata")
				}
				delete(st.T, "gap")
				delete(st.T, "hole")
				st.T["at"] = "?:0"
				vals["?"] = e.u.mk(Val{k: KOther, s: "nowhere"})
			}
			for _, u := range us {
				cl := u.cl
				if i := strings.Index(cl, "@"); i >= 0 {
					at := u.v + ":" + cl[i+1:]
					if vals[u.v].isConst() {
						// not what counts the holes
					} else if next && (st.T["at"] == "?:0" || at < st.T["at"]) {
						st.T["at"] = at
					} else if !next && st.T["at"] != "" && !loops(fr, b) {
						_ = at
					}
					cl = cl[:i]
				}
				if cl == "list" {
					st.T["list"] = u.v
				} else if cl != "" && !vals[u.v].isConst() {
					st.T["c:"+u.v] = cl
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			v := res[0].strip()
			for v.k == KIface {
				v = v.a[0].strip()
			}
			c.Did("pieces", what+map[bool]string{true: ": joined", false: ": whole"}[isPure(v, "multi")])
			bad := func(f string, a ...any) { c.BadAt("pieces", what, e, nil, in, f, a...) }
			if isPure(v, "multi") {
				if l := st.T["list"]; l != "" && v.a[0] != vals[l] {
					bad("the reader is made of %s, not of every piece", v.a[0])
				}
				if st.T["done"] == "" {
					bad("the reader is made before every hole of the map was added")
				}
				return
			}
			off, n, zeros, ok := piece(v)
			if !ok || zeros {
				bad("the reader %s is not a stretch of the archive", v)
				return
			}
			if !is(norm(st, off), st, "HE", 1) || !is(norm(st, n), st, "BE", 1, "HE", -1) {
				bad("the reader covers %s bytes from %s, not the body", n, off)
			}
			if !st.fact(func(v *Val, f int8) bool {
				if ofSec(v, t.holes) && f == FNil {
					return true
				}
				// len(holes) == 0
				if v.k != KBin || v.s != "==" && v.s != "<" {
					return false
				}
				for i := 0; i < 2; i++ {
					k, ok := v.a[1-i].constInt()
					if x := unconv(v.a[i]); ok && isPure(x, "len") && ofSec(x.a[0], t.holes) {
						return v.s == "==" && k == 0 && f == FTrue || v.s == "<" && i == 1 && k == 0 && f == FFalse || v.s == "<" && i == 0 && k == 1 && f == FTrue
					}
				}
				return false
			}) {
				bad("the body is read as it is although its map was not found to be without holes")
			}
		}
		return e
	}, fn, nil)
}

// noBody: the types archive/tar gives no body, whatever size they claim.
var noBody = map[int64]bool{'1': true, '2': true, '3': true, '4': true, '5': true, '6': true}

// neverEntries: types archive/tar acts on itself, or hands out without a size.
var neverEntries = map[int64]bool{'x': true, 'g': true, 'L': true, 'K': true}

// tarSections follows the sections an archive is cut into.
func (c *Ck) tarSections(t *tarSection, fn *ssa.Function) {
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		headerField := func(v *Val, name string) bool {
			v = unconv(v.strip())
			return v != nil && v.k == KLoad && v.a[0].k == KField && v.a[0].fld.Name() == name && v.a[0].fld.Pkg() != nil && v.a[0].fld.Pkg().Path() == "archive/tar"
		}
		holeLen := func(v *Val) *Val {
			v = unconv(v.strip())
			var at *Val
			switch {
			case v.k == KLoad && v.a[0].k == KField && v.a[0].fld == t.holeSize:
				at = v.a[0].a[0]
			case v.k == KFieldVal && v.fld == t.holeSize && v.a[0].k == KLoad:
				at = v.a[0].a[0]
			}
			if at == nil || at.k != KIndex {
				return nil
			}
			return at
		}
		// parts: v is base, less the lengths of holes a loop went over one by one
		// (sign -1), or the sum of those (sign 1). Each value given to a loop's
		// variable is one hole more than the last, or the first.
		var list *Val
		parts := func(v *Val, sign int, base func(map[*Val]int) bool) bool {
			seen := map[*Val]bool{}
			var rec func(v *Val) bool
			rec = func(v *Val) bool {
				v = unconv(v.strip())
				if seen[v] {
					return true
				}
				seen[v] = true
				if v.k == KPhi && len(v.in) > 0 {
					for _, x := range v.in {
						if !rec(x) {
							return false
						}
					}
					return true
				}
				rest := map[*Val]int{}
				first, later := false, false
				var loop *Val
				for y, k := range linForm(v) {
					switch {
					case y != nil && holeLen(y) != nil && (k == sign || k*sign > 0 && sign < 0):
						at := holeLen(y)
						if i, ok := at.a[1].constInt(); ok && i == 0 {
							first = true
						} else if steps(at.a[1], "") {
							later = true
						} else {
							return false
						}
						list = at.a[0]
					case y != nil && y.k == KPhi && k == 1 && loop == nil && y.contains(func(x *Val) bool { return x == y }) && len(y.in) > 0:
						loop = y
					default:
						rest[y] = k
					}
				}
				if loop != nil && len(rest) == 0 {
					return (first || later) && rec(loop)
				}
				if loop != nil {
					rest[loop] = 1
				}
				return (first || !later) && base(rest)
			}
			return rec(v)
		}
		holeSum := func(v *Val) bool {
			return parts(v, 1, func(f map[*Val]int) bool { return len(f) == 0 }) && list != nil
		}
		// bodyEnds: how the end of the body was found
		bodyEnds := func(v, head *Val) string {
			// a sum made beforehand
			f := formSub(linForm(v), linForm(head), 1)
			size := false
			var sum *Val
			for x, k := range f {
				switch {
				case x != nil && k == 1 && headerField(x, "Size") && !size:
					size = true
				case x != nil && k == -1 && sum == nil && holeLen(x) == nil:
					sum = x
				default:
					size, sum = false, &Val{}
				}
			}
			list = nil
			switch {
			case !size && sum == nil:
				return "head"
			case size && sum == nil:
				return "whole"
			case size && holeSum(sum):
				return "sparse"
			}
			list = nil
			if parts(v, -1, func(f map[*Val]int) bool {
				f = formSub(f, linForm(head), 1)
				for x, k := range f {
					if x == nil || k != 1 || !headerField(x, "Size") || len(f) != 1 {
						return false
					}
				}
				return len(f) == 1
			}) && list != nil {
				return "sparse"
			}
			return ""
		}
		// padded: v is the end of a body brought up to the next block
		padded := func(st *State, v *Val) bool {
			ends := map[*Val]bool{}
			for k, x := range st.heap {
				if k.k == KField && k.fld == t.bodyEnd {
					ends[x] = true
				}
			}
			var at func(v *Val, x int64) (int64, bool)
			at = func(v *Val, x int64) (int64, bool) {
				v = unconv(v.strip())
				if n, ok := v.constInt(); ok {
					return n, true
				}
				if ends[v] || v.k == KLoad && v.a[0].k == KField && v.a[0].fld == t.bodyEnd {
					return x, true
				}
				switch v.k {
				case KUn:
					n, ok := at(v.a[0], x)
					if v.s == "-" {
						return -n, ok
					} else if v.s == "^" {
						return ^n, ok
					}
				case KBin:
					m, ok1 := at(v.a[0], x)
					n, ok2 := at(v.a[1], x)
					if !ok1 || !ok2 {
						return 0, false
					}
					switch v.s {
					case "+":
						return m + n, true
					case "-":
						return m - n, true
					case "*":
						return m * n, true
					case "&":
						return m & n, true
					case "|":
						return m | n, true
					case "^":
						return m ^ n, true
					case "&^":
						return m &^ n, true
					case "/":
						if n != 0 {
							return m / n, true
						}
					case "%":
						if n != 0 {
							return m % n, true
						}
					case "<<":
						return m << uint(n), true
					case ">>":
						return m >> uint(n), true
					}
				}
				return 0, false
			}
			for x := int64(0); x < 2048; x++ {
				if n, ok := at(v, x); !ok || n != (x+511)/512*512 {
					// only for ends found to lie off a block
					if !ok || n != x || x%512 == 0 || st.T["aligned"] == "" {
						return false
					}
				}
			}
			return true
		}
		e.NoInline = func(ci *CallInfo) bool {
			return ci.Fn != nil && (!inRepoFn(ci.Fn) || !c.P.small(ci.Fn) && ci.Fn.Signature.Results().Len() > 0 && errResult(ci.Fn.Signature) >= 0)
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
			if ci.Name() == "Next" && ci.PkgPath() == "archive/tar" {
				for k := range st.T {
					if k != "later" {
						delete(st.T, k)
					}
				}
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if cond.k != KBin {
				return
			}
			x, y := cond.a[0], cond.a[1]
			if cond.s == "==" {
				for i := 0; i < 2; i++ {
					if y.isNilConst() && isHoles(x, t) {
						st.T["holes"] = map[bool]string{true: "none", false: "some"}[truth]
					}
					if k, ok := y.constInt(); ok && k == 0 && truth {
						if l := unconv(x); isPure(l, "len") && isHoles(l.a[0], t) {
							st.T["holes"] = "none"
						}
					}
					if k, ok := y.constInt(); ok && headerField(x, "Typeflag") {
						switch {
						case truth:
							st.T["type"] = fmt.Sprint(k)
						case noBody[k]:
							st.T["not:"+fmt.Sprint(k)] = "1"
						}
					}
					x, y = y, x
				}
			}
			if isLenOf := func(v *Val) bool {
				v = unconv(v)
				return isPure(v, "len") && isHoles(v.a[0], t)
			}; isLenOf(cond.a[1]) || isLenOf(cond.a[0]) {
				more := cond.s == "<" && truth || cond.s == "==" && !truth
				st.T["loop"] = map[bool]string{true: "more", false: "done"}[more]
			}
		}
		e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
			// the section before is not the one made in its place
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if v := st.env[ph]; v != nil && namedOf(ph.Type()) == t.n && v.strip().k == KAlloc {
					v = e.u.mk(Val{k: KOther, s: "the section before", typ: ph.Type()})
					st.facts[v] = FNonNil
					st.env[ph] = v
				}
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if n, ok := isParam(ci.FnVal); ci.FnVal == nil || !ok || n != 0 || len(ci.Args) != 2 {
				return nil, false
			}
			if e.nilness(st, ci.Args[1]) == FNonNil {
				return nil, false
			}
			bad := func(rule, f string, a ...any) { c.BadAt(rule, what, e, ci.fr, ci.Instr, f, a...) }
			s := ci.Args[0].strip()
			if s.k != KAlloc {
				bad("extent", "%s is handed on, which was not made here", s)
				return nil, false
			}
			get := func(f *types.Var) *Val {
				return e.load(st, e.u.mk(Val{k: KField, a: []*Val{s}, fld: f}), f.Type())
			}
			if t.headerStart != nil && st.T["start"] == "" && st.T["later"] != "" {
				bad("extent", "where a later section starts is not said")
			}
			st.T["later"] = "1"
			end := bodyEnds(get(t.bodyEnd), get(t.headerEnd))
			if st.T["set"] == "" {
				end = "none"
			}
			if end == "whole" && st.T["loop"] == "done" {
				end = "sparse"
			} else if end == "sparse" {
				if list != nil && (!isHoles(list, t) || unphi(list) != unphi(get(t.holes))) {
					bad("extent", "the holes of another file are left out of the body")
				}
				if st.T["loop"] != "done" {
					bad("extent", "not every hole is counted")
				}
			}
			var k int64
			tf := st.T["type"]
			fmt.Sscan(tf, &k)
			switch end {
			case "none":
				bad("extent", "where the body ends is not said")
			case "":
				bad("extent", "the body is taken to end at %s", get(t.bodyEnd))
			case "head":
				c.Did("extent", what+": no body")
				if tf == "" || !noBody[k] && !neverEntries[k] {
					bad("extent", "a body is left out although the entry's type was not found to be one without")
				}
			default:
				c.Did("extent", what+map[string]string{"whole": ": body", "sparse": ": body of a sparse file"}[end])
				if tf == "" {
					for n := range noBody {
						if st.T["not:"+fmt.Sprint(n)] == "" {
							bad("extent", "an entry of type %q is given a body", rune(n))
						}
					}
				} else if noBody[k] {
					bad("extent", "an entry of type %q is given a body", rune(k))
				}
				if end == "whole" && st.T["holes"] != "none" && e.nilness(st, e.load(st, e.u.mk(Val{k: KField, a: []*Val{s}, fld: t.holes}), t.holes.Type())) != FNil {
					bad("extent", "the holes of a sparse file are counted as part of its body")
				}
			}
			return nil, false
		}
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			if addr.k == KField && addr.fld == t.holes {
				st.T["holes"] = map[int8]string{FNil: "none", FNonNil: "some"}[e.nilness(st, v)]
			}
			if addr.k != KField {
				return
			}
			switch addr.fld {
			case t.bodyEnd:
				st.T["set"] = "1"
			case t.headerStart:
				if !v.isConst() {
					st.T["start"] = "1"
					c.Did("extent", what+": start")
					if !padded(st, v) {
						c.BadAt("extent", what, e, fr, in, "a section is said to start at %s, not at the block after the last body", v)
					}
				}
			}
		}
		return e
	}, fn, nil)
}

func unphi(v *Val) *Val { return unconv(v.strip()) }

func isHoles(v *Val, t *tarSection) bool {
	if v == nil || v.typ == nil {
		return false
	}
	s, ok := v.typ.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), t.holes.Type().Underlying().(*types.Slice).Elem())
}

// tarErrors: one function at a time, no error of a read, or of a function
// that reads, is lost.
func (c *Ck) tarErrors(t *tarSection, fn *ssa.Function) {
	what := fnName(fn)
	yields := -1
	if takesYield(fn) {
		yields = 0
	}
	body := isRangeFuncBody(fn) && fn.Signature.Params().Len() == 2 && isErrorType(fn.Signature.Params().At(1).Type())
	ei := errResult(fn.Signature)
	if yields < 0 && !body && ei < 0 {
		return
	}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		isRead := func(ci *CallInfo) bool {
			if ci.Fn != nil && inRepoFn(ci.Fn) {
				return pkgRel(ci.Fn.Pkg.Pkg) == "tarfs"
			}
			if f := ci.Closure; f != nil {
				return true
			}
			switch ci.Name() {
			case "Read", "ReadAt", "ReadFull", "ReadAtLeast", "Next", "CopyN", "Copy", "ReadAll":
				p := ci.PkgPath()
				return (p == "io" || p == "archive/tar") && ci.Common.Signature().Results().Len() == 2
			case "ParseInt", "ParseUint", "Atoi":
				return ci.PkgPath() == "strconv" && ci.fr.fn == fn
			}
			return false
		}
		e.NoInline = func(ci *CallInfo) bool {
			return ci.Fn != nil && errResult(ci.Fn.Signature) >= 0
		}
		settle := func(st *State, v *Val) {
			v.walk(func(x *Val) bool {
				delete(st.T, "failed:"+fmt.Sprint(x.id))
				return true
			})
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
			if inl || !isRead(ci) {
				return
			}
			for f := ci.fr; f != nil; f = f.parent {
				if f.fn != fn && takesYield(f.fn) {
					return // an iterator answers for itself
				}
			}
			if x := errOf(ci, res); x != nil && x.k != KConst {
				c.Did("errors", what+": "+siteName(ci.Instr))
				st.T["failed:"+fmt.Sprint(x.id)] = siteName(ci.Instr)
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if isPure(cond, "errors.Is") && truth && isEOF(cond.a[1]) {
				settle(st, cond.a[0])
			}
			if cond.k == KBin && cond.s == "==" && truth {
				for i := 0; i < 2; i++ {
					if y := cond.a[1-i]; y.isNilConst() || isEOF(y) {
						settle(st, cond.a[i])
					}
				}
			}
		}
		lost := func(st *State, res *Val) string {
			for k, f := range st.T {
				if !strings.HasPrefix(k, "failed:") {
					continue
				}
				var id int
				fmt.Sscan(strings.TrimPrefix(k, "failed:"), &id)
				if e.nilness(st, res) == FNonNil || res.contains(func(x *Val) bool { return x.id == id }) {
					continue
				}
				return f
			}
			return ""
		}
		nilc := e.u.mk(Val{k: KConst})
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if n, ok := isParam(ci.FnVal); yields >= 0 && ci.FnVal != nil && ok && n == 0 && len(ci.Args) == 2 {
				if f := lost(st, ci.Args[1]); f != "" {
					c.BadAt("errors", what, e, ci.fr, ci.Instr, "a section is handed on although the error of %s was not found to be nil", f)
				}
			}
			return nil, false
		}
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			if body && root(addr).k == KParam {
				if n, ok := isParam(v.strip()); ok && n == 1 || isErrorType(v.typ) && e.nilness(st, v) == FNonNil {
					st.T["kept"] = "1"
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			bad := func(f string, a ...any) { c.BadAt("errors", what, e, nil, in, f, a...) }
			if body {
				p := e.u.mk(Val{k: KParam, n: 1, s: fnName(fn), typ: fn.Params[1].Type()})
				c.Did("errors", what)
				if e.nilness(st, p) != FNil && st.T["kept"] == "" {
					bad("the error an iterator gives is dropped")
				} else if b, ok := res[0].constBool(); e.nilness(st, p) != FNil && (!ok || b) {
					bad("the iteration goes on after an error")
				}
				return
			}
			if ei >= 0 {
				if f := lost(st, res[ei]); f != "" {
					bad("the error of %s is dropped", f)
				}
			} else if f := lost(st, nilc); f != "" && yields >= 0 {
				// the consumer was told, or stopped
				if st.T["told"] == "" {
					bad("the sections end without a word although the error of %s was not found to be nil", f)
				}
			}
		}
		e.OnPost = func(old func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool)) func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
			return func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
				if n, ok := isParam(ci.FnVal); yields >= 0 && ci.FnVal != nil && ok && n == 0 && len(ci.Args) == 2 {
					if e.nilness(st, ci.Args[1]) == FNonNil {
						st.T["told"] = "1"
					}
				}
				old(e, st, ci, res, inl)
			}
		}(e.OnPost)
		return e
	}, fn, nil)
}

// tarMapped: no sparse map is made up of what was not found valid.
func (c *Ck) tarMapped(t *tarSection, fn *ssa.Function) {
	el := t.holes.Type().Underlying().(*types.Slice).Elem()
	isMap := func(ty types.Type) bool {
		s, ok := ty.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), el)
	}
	// takes a map and a size, gives what
	mapFn := func(f *ssa.Function, gives func(types.Type) bool) bool {
		if f == nil || !inRepoFn(f) || f.Signature.Results().Len() != 1 || f.Signature.Params().Len() != 2 {
			return false
		}
		ps := f.Signature.Params()
		return isMap(ps.At(0).Type()) && isIntType(ps.At(1).Type()) && gives(f.Signature.Results().At(0).Type())
	}
	ei := errResult(fn.Signature)
	uses, builds := false, false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			cc, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := cc.Common().StaticCallee()
			uses = uses || mapFn(f, isBool) || mapFn(f, isMap)
			if bi, ok := cc.Common().Value.(*ssa.Builtin); ok && bi.Name() == "append" && isMap(cc.Common().Args[0].Type()) && ei >= 0 {
				builds = true
			}
		}
	}
	if !uses && !builds {
		return
	}
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		// parsing: a parser that keeps its error to itself
		parsing := func(ci *CallInfo) *types.Var {
			if ci.Fn == nil || ci.Recv == nil || !inRepoFn(ci.Fn) || errResult(ci.Fn.Signature) >= 0 || ci.Fn.Signature.Results().Len() == 0 {
				return nil
			}
			s := structOf(deref(ci.Recv.typ))
			for i := 0; s != nil && i < s.NumFields(); i++ {
				if isErrorType(s.Field(i).Type()) {
					return s.Field(i)
				}
			}
			return nil
		}
		// failing: a parser has an error that was not found to be nil
		failing := func(st *State, returned *Val) bool {
			for k, id := range st.T {
				if strings.HasPrefix(k, "parser:") && (returned == nil || !returned.contains(func(x *Val) bool { return fmt.Sprint(x.id) == id })) {
					return true
				}
			}
			return false
		}
		e.NoInline = func(ci *CallInfo) bool {
			return ci.Fn != nil && (parsing(ci) != nil || mapFn(ci.Fn, isBool) || mapFn(ci.Fn, isMap) || errResult(ci.Fn.Signature) >= 0)
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
			if f := parsing(ci); f != nil && builds {
				a := e.u.mk(Val{k: KField, a: []*Val{ci.Recv}, fld: f})
				k := "parser:" + fmt.Sprint(a.id)
				site := e.u.site(ci.fr.ctx, joinKey{ci.Instr, f})
				e.kill(st, site.id)
				v := e.u.mk(Val{k: KPhi, site: site, typ: f.Type()})
				st.heap[a] = v
				st.T[k] = fmt.Sprint(v.id)
			}
			if mapFn(ci.Fn, isBool) {
				st.T["asked:"+fmt.Sprint(res.id)] = fmt.Sprint(unphi(ci.Args[0]).id, " ", unphi(ci.Args[1]).id)
			}
			if mapFn(ci.Fn, isMap) {
				c.Did("mapped", what+": "+siteName(ci.Instr))
				if k := "valid:" + fmt.Sprint(unphi(ci.Args[0]).id, " ", unphi(ci.Args[1]).id); st.T[k] == "" {
					c.BadAt("mapped", what, e, ci.fr, ci.Instr, "a sparse map is taken though it was not found valid for the size")
				}
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if cond.k == KBin && cond.s == "==" && truth {
				for i := 0; i < 2; i++ {
					for k, id := range st.T {
						if strings.HasPrefix(k, "parser:") && cond.a[1-i].isNilConst() && fmt.Sprint(cond.a[i].id) == id {
							delete(st.T, k)
						}
					}
				}
			}
			if a := st.T["asked:"+fmt.Sprint(cond.id)]; a != "" {
				if truth {
					st.T["valid:"+a] = "1"
				} else {
					st.T["invalid"] = "1"
				}
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if ci.Builtin != "append" || ci.fr.fn != fn || !isMap(ci.Args[0].typ) || ei < 0 {
				return nil, false
			}
			c.Did("mapped", what+": entry")
			if failing(st, nil) {
				c.BadAt("mapped", what, e, ci.fr, ci.Instr, "an entry is added to a sparse map though its parsing may have failed")
			}
			return nil, false
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if st.T["invalid"] != "" && (ei < 0 || e.nilness(st, res[ei]) != FNonNil) {
				c.BadAt("mapped", what, e, nil, in, "a sparse map found invalid is not an error")
			}
			if !builds || e.nilness(st, res[ei]) == FNonNil {
				return
			}
			if failing(st, res[ei]) {
				c.BadAt("mapped", what, e, nil, in, "an entry of a sparse map that could not be parsed is passed over")
			}
		}
		return e
	}, fn, nil)
}

// tarMaking lists what runs while a filesystem is made of an archive: all
// that New and the iterator of sections reach inside the package.
func (p *Prog) tarMaking(t *tarSection) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if o := fn.Origin(); o != nil {
			fn = o
		}
		if out[fn] || fn.Blocks == nil || !inRepoFn(fn) || fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != "tarfs" {
			return
		}
		out[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	for _, fn := range p.exportedFuncs() {
		if fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != "tarfs" || fn.Signature.Recv() != nil {
			continue
		}
		for _, x := range fn.Params {
			if hasMethods(x.Type(), "ReadAt") {
				add(fn)
			}
		}
	}
	return out
}

// takesYield: fn is an iterator over pairs.
func takesYield(fn *ssa.Function) bool {
	if len(fn.Params) != 1 || fn.Parent() == nil {
		return false
	}
	s, ok := fn.Params[0].Type().Underlying().(*types.Signature)
	return ok && s.Results().Len() == 1 && s.Params().Len() == 2
}

// tarLatest: what gathers sections by name keeps the last of each.
func (c *Ck) tarLatest(t *tarSection, fn *ssa.Function) {
	sig := fn.Signature
	if fn.Parent() == nil || sig.Params().Len() != 2 || !isErrorType(sig.Params().At(1).Type()) || sig.Results().Len() != 1 || !isBool(sig.Results().At(0).Type()) {
		return
	}
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnMap = func(e *Eng, fr *Frame, st *State, m, k *Val, write bool, in ssa.Instruction) {
			if u, ok := in.(*ssa.MapUpdate); ok && write {
				v := e.eval(fr, st, u.Value).strip()
				if n, ok := isParam(v); ok && n == 0 && k.contains(func(x *Val) bool { n, ok := isParam(x); return ok && n == 0 }) {
					st.T["kept"] = "1"
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			b, ok := res[0].constBool()
			if ok && !b {
				return
			}
			c.Did("latest", what)
			if st.T["kept"] == "" {
				c.BadAt("latest", what, e, nil, in, "an entry is passed over without taking the place of an earlier one of its name")
			}
		}
		return e
	}, fn, nil)
}

// tarListed: New adds every entry it should.
func (c *Ck) tarListed(t *tarSection, fn *ssa.Function) {
	adds := func(ci *ssa.CallCommon) bool {
		f := ci.StaticCallee()
		if f == nil || !inRepoFn(f) || f.Signature.Recv() == nil || errResult(f.Signature) >= 0 {
			return false
		}
		for _, a := range ci.Args[1:] {
			if namedOf(a.Type()) == t.n {
				return len(ci.Args) == 3
			}
		}
		return false
	}
	loops := map[*ssa.BasicBlock]bool{} // heads of loops that add
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cc, ok := in.(ssa.CallInstruction); ok && adds(cc.Common()) {
				for h := b; h != nil; h = h.Idom() {
					back := false
					for _, p := range h.Preds {
						back = back || h.Dominates(p)
					}
					if back {
						loops[h] = true
						break
					}
				}
			}
		}
	}
	if len(loops) == 0 {
		return
	}
	what := fnName(fn)
	need := map[int64]string{'0': "TypeReg", 0: "TypeRegA", 'S': "TypeGNUSparse", '5': "TypeDir", '1': "TypeLink", '2': "TypeSymlink", '3': "TypeChar", '4': "TypeBlock", '6': "TypeFifo"}
	wants := map[int64]string{'2': "HandleSymlink", '3': "AllowDev", '4': "AllowDev", '6': "AllowDev"}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.NoInline = func(ci *CallInfo) bool { return ci.Fn != nil && (adds(ci.Common) || errResult(ci.Fn.Signature) >= 0) }
		atRoot := func(v *Val) bool { // the header of the root
			v = v.strip()
			if v.k != KLoad || v.a[0].k != KMapElem {
				return false
			}
			s, ok := v.a[0].a[1].constStr()
			return ok && s == "."
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if len(res) == 0 || res[0].isNilConst() {
				return
			}
			if st.T["roothdr"] != "" {
				c.Did("openable", what+": root")
				if st.T["rootdir"] == "" {
					c.BadAt("openable", what+": root", e, nil, in, "an entry not found to be a directory is the root")
				}
			}
		}
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			if addr.k == KField && namedOf(addr.fld.Type()) == t.n && atRoot(v) {
				st.T["roothdr"] = "1"
			}
		}
		clean := func(st *State) {
			for k := range st.T {
				if k == "rootdir" || k == "roothdr" {
					continue
				}
				delete(st.T, k)
			}
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
			if adds(ci.Common) {
				c.Did("listed", what+": "+siteName(ci.Instr))
				st.T["added"] = "1"
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if isPure(cond, "io/fs.ValidPath") {
				if !truth {
					st.T["invalid"] = "1"
				}
				return
			}
			if cond.k == KLoad && cond.a[0].k == KField && isBool(cond.typ) {
				st.T["opt:"+cond.a[0].fld.Name()] = map[bool]string{true: "on", false: "off"}[truth]
			}
			if cond.k != KBin || cond.s != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := unconv(cond.a[i].strip()), cond.a[1-i]
				if s, ok := y.constStr(); ok && s == "." && truth {
					st.T["invalid"] = "1" // the root
				}
				if k, ok := y.constInt(); ok && x.k == KLoad && x.a[0].k == KField && x.a[0].fld.Name() == "Typeflag" {
					if k == '5' && truth && x.contains(atRoot) {
						st.T["rootdir"] = "1"
						continue
					}
					if truth {
						st.T["type"] = fmt.Sprint(k)
					} else if need[k] != "" {
						st.T["not:"+fmt.Sprint(k)] = "1"
					}
				}
			}
		}
		e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
			if fr.fn != fn || !loops[to] {
				return
			}
			if to.Dominates(from) && st.T["added"] == "" && st.T["invalid"] == "" {
				var k int64
				tf := st.T["type"]
				fmt.Sscan(tf, &k)
				for n, name := range need {
					if tf != "" && k != n || st.T["not:"+fmt.Sprint(n)] != "" {
						continue
					}
					if w := wants[n]; w != "" && st.T["opt:"+w] == "off" {
						continue
					}
					c.BadAt("listed", what, e, fr, from.Instrs[len(from.Instrs)-1], "an entry of %s may be left out of the tree", name)
				}
			}
			clean(st)
		}
		return e
	}, fn, nil)
}

// tarTree: a directory's map and list change together.
func (c *Ck) tarTree(n *types.Named, files, list *types.Var, fn *ssa.Function) {
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		vals := map[string]*Val{}
		id := func(v *Val) string { vals[fmt.Sprint(v.id)] = v; return fmt.Sprint(v.id) }
		at := func(v *Val, f *types.Var) *Val { // the directory a map or list belongs to
			v = v.strip()
			if v.k == KLoad && v.a[0].k == KField && v.a[0].fld == f {
				return v.a[0].a[0]
			}
			return nil
		}
		settle := func(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
			if st.T["map"] != "" && st.T["list"] != "" {
				c.Did("listed", what)
				if st.T["map"] != st.T["list"] {
					c.BadAt("listed", what, e, fr, in, "the map and the list of a directory are not given the same entry")
				}
				delete(st.T, "map")
				delete(st.T, "list")
			}
		}
		e.OnMap = func(e *Eng, fr *Frame, st *State, m, k *Val, write bool, in ssa.Instruction) {
			d := at(m, files)
			u, ok := in.(*ssa.MapUpdate)
			if !ok && write && d != nil {
				c.BadAt("listed", what, e, fr, in, "a name is taken out of a directory's map")
			}
			if !ok || !write || d == nil {
				return
			}
			if st.T["map"] != "" {
				c.BadAt("listed", what, e, fr, in, "two names are added to the map of a directory, one to its list")
			}
			st.T["map"] = id(d) + " " + id(e.eval(fr, st, u.Value).strip())
			if x := st.T["name"]; x != "" && vals[x] != k {
				c.BadAt("listed", what, e, fr, in, "the list was changed for %s, the map for %s", vals[x], k)
			}
			st.T["name"] = id(k)
			settle(e, fr, st, in)
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			name := func(m, k *Val) string { return id(at(m, files)) + " " + id(k) }
			if isPure(cond, "has") && at(cond.a[0], files) != nil {
				st.T["has:"+name(cond.a[0], cond.a[1])] = fmt.Sprint(truth)
			}
			if cond.k == KBin && cond.s == "==" {
				for i := 0; i < 2; i++ {
					if x := cond.a[i]; cond.a[1-i].isNilConst() && x.k == KLoad && x.a[0].k == KMapElem && at(x.a[0].a[0], files) != nil {
						st.T["has:"+name(x.a[0].a[0], x.a[0].a[1])] = fmt.Sprint(!truth)
					}
				}
			}
		}
		listed := func(e *Eng, fr *Frame, st *State, d, ent, key *Val, in ssa.Instruction) {
			if st.T["list"] != "" {
				c.BadAt("listed", what, e, fr, in, "the list of a directory is changed twice for one name")
			}
			st.T["list"] = id(d) + " " + id(ent.strip())
			if x := st.T["name"]; key != nil && x != "" && vals[x] != key {
				c.BadAt("listed", what, e, fr, in, "the list was changed for %s, the map for %s", key, vals[x])
			}
			if key != nil {
				st.T["name"] = id(key)
			}
			settle(e, fr, st, in)
		}
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			// the list grows
			if addr.k == KField && addr.fld == list {
				d := addr.a[0]
				v = v.strip()
				if root(d).k == KAlloc && (v.isNilConst() || !isPure(v, "append")) {
					return // a new directory
				}
				if !isPure(v, "append") || at(v.a[0], list) != d {
					c.BadAt("listed", what, e, fr, in, "the list of a directory is replaced by %s", v)
					return
				}
				els, ok := e.elems(st, v.a[1])
				if !ok || len(els) != 1 {
					c.BadAt("listed", what, e, fr, in, "what is added to the list is not known")
					return
				}
				absent := ""
				for k, t := range st.T {
					if strings.HasPrefix(k, "has:"+id(d)+" ") && t == "false" {
						absent = strings.Fields(k)[1]
					}
				}
				if absent == "" {
					c.BadAt("listed", what, e, fr, in, "an entry is added to the list although its name may be there already")
					listed(e, fr, st, d, els[0], nil, in)
					return
				}
				listed(e, fr, st, d, els[0], vals[absent], in)
				return
			}
			// an entry gives way to another
			if addr.k == KIndex && at(addr.a[0], list) != nil {
				d := at(addr.a[0], list)
				i := unconv(addr.a[1])
				var key *Val
				if isPure(i, "slices.Index") && at(i.a[0], list) == d {
					if x := i.a[1].strip(); x.k == KLoad && x.a[0].k == KMapElem && at(x.a[0].a[0], files) == d {
						key = x.a[0].a[1]
					}
				} else if !st.fact(func(f *Val, t int8) bool { // found by comparing
					if t != FTrue || f.k != KBin || f.s != "==" {
						return false
					}
					for j := 0; j < 2; j++ {
						x, y := f.a[j].strip(), f.a[1-j].strip()
						if x.k == KLoad && x.a[0] == addr && y.k == KLoad && y.a[0].k == KMapElem && at(y.a[0].a[0], files) == d {
							key = y.a[0].a[1]
							return true
						}
					}
					return false
				}) {
					c.BadAt("listed", what, e, fr, in, "the place of an unknown entry of the list is taken")
				}
				listed(e, fr, st, d, v, key, in)
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if st.T["map"] != "" {
				c.BadAt("listed", what, e, nil, in, "a name is added to the map of a directory but not to its list")
			}
			if st.T["list"] != "" {
				c.BadAt("listed", what, e, nil, in, "an entry is added to the list of a directory but not to its map")
			}
		}
		return e
	}, fn, nil)
}

// tarKinds decides which kinds of entry a value may be.
type tarKinds struct {
	p     *Prog
	ent   types.Type
	kinds []types.Type
	rel   map[*ssa.Function]bool
	sums  map[string]string
	seen  map[*ssa.Function]bool
}

func (k *tarKinds) rest(st *State, v *Val) []types.Type {
	var out []types.Type
	if v.isNilConst() {
		return nil
	}
	for _, t := range k.kinds {
		if v.k == KIface && !types.Identical(v.typ, t) {
			continue
		}
		if !strings.Contains(st.S[v]+";", ";"+typeName(t)+";") {
			out = append(out, t)
		}
	}
	return out
}

// engine follows what is found out about entries.
func (k *tarKinds) engine() *Eng {
	e := newEng(k.p)
	e.Relevant = k.rel
	result := func(fn *ssa.Function) bool {
		if fn == nil || fn.Signature.Results().Len() == 0 {
			return false
		}
		return types.Identical(fn.Signature.Results().At(0).Type(), k.ent)
	}
	loops := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					return true
				}
			}
		}
		return false
	}
	e.NoInline = func(ci *CallInfo) bool {
		if ci.Fn == nil || !inRepoFn(ci.Fn) {
			return true
		}
		res := ci.Fn.Signature.Results()
		return res.Len() == 1 && isErrorType(res.At(0).Type()) || result(ci.Fn) && loops(ci.Fn)
	}
	note := func(st *State, v *Val, t types.Type) {
		if !strings.Contains(st.S[v]+";", ";"+typeName(t)+";") {
			l := strings.Split(st.S[v]+";"+typeName(t), ";")
			sort.Strings(l)
			st.S[v] = strings.Join(l, ";")
		}
	}
	e.OnMap = func(e *Eng, fr *Frame, st *State, m, key *Val, write bool, in ssa.Instruction) {
		for v := range st.S { // looked up anew
			if v.k == KLoad && v.a[0].k == KMapElem && v.a[0].a[0] == m && v.a[0].a[1] == key {
				delete(st.S, v)
			}
		}
	}
	e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
		cond, truth = condPeel(cond, truth)
		if !isPure(cond, "okassert") {
			return
		}
		for _, t := range k.kinds {
			if types.Identical(cond.a[1].typ, t) != truth {
				note(st, cond.a[0], t)
			}
		}
	}
	// a loop's string that was just given text is not empty
	e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		for i, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if v := e.eval(fr, st, ph.Edges[pi]); types.Identical(ph.Type(), k.ent) {
				if may := k.rest(st, v); len(may) < len(k.kinds) {
					not := ""
					for _, t := range k.kinds {
						if !typeIn(may, t) {
							not += ";" + typeName(t)
						}
					}
					st.T[fmt.Sprintf("pend:%d", i)] = not
				}
			} else if isStringType(ph.Type()) {
				if hasText(v) || st.T["text:"+fmt.Sprint(v.id)] != "" {
					st.T[fmt.Sprintf("pend:%d", i)] = "1"
				}
			}
		}
	}
	e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
		if fr.parent == nil && len(st.S) > 0 { // what is found out about values that are gone
			live := map[*Val]bool{}
			for _, v := range st.env {
				live[v] = true
			}
			for _, v := range st.heap {
				live[v] = true
			}
			for v := range st.S {
				if !live[v] {
					delete(st.S, v)
				}
			}
		}
		if len(b.Preds) == 0 {
			return
		}
		if _, ok := b.Instrs[0].(*ssa.Phi); !ok {
			return
		}
		var ids []string
		for i, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if k := fmt.Sprintf("pend:%d", i); st.T[k] != "" {
				not := st.T[k]
				delete(st.T, k)
				if not == "1" {
					ids = append(ids, "text:"+fmt.Sprint(st.env[ph].id))
				} else {
					st.S[st.env[ph]] = not
				}
			}
		}
		for k := range st.T {
			if strings.HasPrefix(k, "text:") {
				delete(st.T, k)
			}
		}
		for _, k := range ids {
			st.T[k] = "1"
		}
	}
	e.Decide = func(e *Eng, st *State, cond *Val) int8 {
		if cond.k != KBin || len(st.T) == 0 {
			return 0
		}
		text := func(v *Val) bool {
			v = unconv(v)
			return isPure(v, "len") && st.T["text:"+fmt.Sprint(v.a[0].id)] != "" || st.T["text:"+fmt.Sprint(v.id)] != ""
		}
		k0, c0 := cond.a[0].constInt()
		s1, z1 := cond.a[1].constStr()
		s0, z0 := cond.a[0].constStr()
		k1, c1 := cond.a[1].constInt()
		switch {
		case cond.s == "<" && c0 && k0 <= 0 && text(cond.a[1]):
			return FTrue
		case cond.s == "==" && (c0 && k0 == 0 || z0 && s0 == "") && text(cond.a[1]):
			return FFalse
		case cond.s == "==" && (c1 && k1 == 0 || z1 && s1 == "") && text(cond.a[0]):
			return FFalse
		}
		return 0
	}
	e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
		if inl || !result(ci.Fn) || !inRepoFn(ci.Fn) {
			return
		}
		v := resOf(res, 0)
		if v == nil {
			return
		}
		delete(st.S, v)
		if s := k.summary(ci); s != "" {
			st.S[v] = s
		}
	}
	return e
}

// summary: the kinds of entry a function called with these flags never gives.
func (k *tarKinds) summary(ci *CallInfo) string {
	fn := ci.Fn
	key := fnName(fn)
	args := ci.Args
	if ci.Recv != nil && len(fn.Params) == len(args)+1 {
		args = append([]*Val{ci.Recv}, args...)
	}
	consts := map[int]bool{}
	for i, a := range args {
		if b, ok := a.constBool(); ok {
			key += fmt.Sprintf(" %d:%v", i, b)
			consts[i] = b
		}
	}
	if s, ok := k.sums[key]; ok {
		return s
	}
	k.sums[key] = ""
	for _, depth := range []int{8, 3, 1} {
		e := k.engine()
		e.K, e.KOut = depth, depth
		out := ""
		for _, t := range k.kinds {
			out += ";" + typeName(t)
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			for _, t := range k.rest(st, res[0]) {
				out = strings.ReplaceAll(out+";", ";"+typeName(t)+";", ";")
				out = strings.TrimSuffix(out, ";")
			}
		}
		e.Run(fn, func(st *State, ps []*Val) {
			for i, b := range consts {
				ps[i] = e.boolc(b)
			}
		})
		for f := range e.Visited {
			k.seen[f] = true
		}
		if e.Over == "" {
			k.sums[key] = out
			break
		}
	}
	return k.sums[key]
}

// tarOpenable: what Open opens can be opened.
func (c *Ck) tarOpenable(k *tarKinds, fn *ssa.Function) {
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		e := k.engine()
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if !ci.IsInvoke() || ci.Fn != nil || ci.Recv == nil || !types.Identical(ci.Common.Value.Type(), k.ent) {
				return nil, false
			}
			c.Did("openable", what+": "+ci.Name())
			for _, t := range k.rest(st, ci.Recv) {
				if m := c.P.Method(namedOf(t), ci.Name()); m != nil && alwaysPanics(m) {
					c.BadAt("openable", what, e, ci.fr, ci.Instr, "%s may be a %s here, whose %s panics", ci.Recv, typeName(t), ci.Name())
				}
			}
			return nil, false
		}
		e.OnPanic = func(e *Eng, fr *Frame, st *State, in ssa.Instruction) {
			// unreachable once every kind of entry is ruled out
			for v, s := range st.S {
				if s != "" && len(k.rest(st, v)) == 0 {
					c.Did("openable", what+": panic in "+fnName(fr.fn))
					return
				}
			}
			c.BadAt("openable", what+": panic", e, fr, in, "the panic is not ruled out")
		}
		return e
	}, fn, nil)
}

func typeIn(ts []types.Type, t types.Type) bool {
	for _, x := range ts {
		if types.Identical(x, t) {
			return true
		}
	}
	return false
}

func alwaysPanics(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
	}
	return fn.Blocks != nil
}
