package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C41: reading a directory handle page by page gives every entry of one
// listing once.

func init() { checks["C41"] = checkListing }

func isLister(fn *ssa.Function) bool {
	switch fn.Name() {
	case "ReadDir", "Readdir", "Readdirnames":
	default:
		return false
	}
	s := fn.Signature
	if fn.Blocks == nil || fn.Synthetic != "" || fn.Pkg == nil || s.Params().Len() == 0 || s.Results().Len() != 2 || !isErrorType(s.Results().At(1).Type()) {
		return false
	}
	_, ok := s.Results().At(0).Type().Underlying().(*types.Slice)
	return ok
}

// pages: the method reads the next n entries of an open directory.
func pages(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Recv() != nil && s.Params().Len() == 1 && isIntType(s.Params().At(0).Type())
}

func checkListing(c *Ck) {
	c.Rule("page", "a page of a listing holds at most the entries asked for, as many as the position moves past, all the rest when no number is asked for, and is never empty without io.EOF", 8)
	c.Rule("eof", "io.EOF is given only to a caller who asked for a number of entries, once nothing is left", 3)
	c.Rule("fill", "a loop that builds a page adds every entry it goes over, and none of them nil", 6)
	c.Rule("kept", "the position indexes a listing the handle keeps: one read once and dropped only with the position back at the start", 3)
	c.Rule("seek", "a seek on a directory goes to the start of a listing read anew or to the end of the one the pages come from", 3)
	c.Rule("forward", "a page read through another handle is asked for with the caller's own number, and comes back whole with the error it came with", 6)
	c.Rule("nofollow", "what a listing says of an entry is said of the entry itself, not of what a link leads to", 2)
	guards := map[*types.Var]*types.Var{}
	mk := func(fn *ssa.Function) *listRun {
		return &listRun{c: c, fn: fn, what: fnName(fn), guards: guards, loops: map[*ssa.Function][]*cntLoop{}, delta: map[deltaKey]map[string]map[*Val]int{}, fills: map[*cntLoop]bool{}}
	}
	for _, fn := range c.P.Funcs {
		if isLister(fn) {
			run := mk(fn)
			run.go_(false)
			run.go_(true)
			noFollow(c, fn)
		}
	}
	for _, fn := range c.P.Funcs {
		if fn.Name() == "Seek" && fn.Signature.Recv() != nil && fn.Signature.Params().Len() == 2 && fn.Blocks != nil && fn.Synthetic == "" {
			if n := namedOf(fn.Signature.Recv().Type()); n != nil {
				run := mk(fn)
				run.read = readFields(c.P, n)
				run.go_(false)
				run.go_(true)
			}
		}
	}
}

// ---- loops that count ----

// cntLoop is a loop left at one place, where a number that grows by one is
// compared with a limit.
type cntLoop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	exit *ssa.BasicBlock // the block of the test
	out  *ssa.BasicBlock // where the loop goes on
	cnt  ssa.Value
	lim  ssa.Value
	neq  bool
	late bool // the test comes after the body
	fail bool // it is also left for an error
}

func countLoops(fn *ssa.Function) []*cntLoop {
	heads := map[*ssa.BasicBlock]*cntLoop{}
	var out []*cntLoop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := heads[s]
			if l == nil {
				l = &cntLoop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				heads[s] = l
				out = append(out, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, l := range out {
		for b := range l.body {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || l.body[b.Succs[0]] == l.body[b.Succs[1]] {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			in := l.body[b.Succs[0]]
			o := b.Succs[1]
			if !in {
				o = b.Succs[0]
			}
			if !ok || !isIntType(cmp.X.Type()) {
				continue
			}
			x, y, op := cmp.X, cmp.Y, cmp.Op
			if !in {
				switch op {
				case token.GEQ:
					op = token.LSS
				case token.LEQ:
					op = token.GTR
				case token.EQL:
					op = token.NEQ
				default:
					continue
				}
			}
			if op == token.GTR {
				x, y, op = y, x, token.LSS
			}
			if op != token.LSS && op != token.NEQ || l.exit != nil {
				continue
			}
			l.exit, l.out, l.cnt, l.lim, l.neq = b, o, x, y, op == token.NEQ
			for _, s := range b.Succs {
				l.late = l.late || s == l.head
			}
		}
	}
	return out
}

// breaks: the loop is also left at other places for where it goes on.
func (l *cntLoop) breaks() bool {
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		if b == l.out {
			return true
		}
		if seen[b] || l.body[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if reach(s) {
				return true
			}
		}
		return false
	}
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] && !(b == l.exit && s == l.out) && reach(s) {
				return true
			}
		}
	}
	return false
}

type deltaKey struct {
	l *cntLoop
	k any // a phi, or the cursor
}

type listRun struct {
	memRun
	c     *Ck
	fn    *ssa.Function
	what  string
	loops map[*ssa.Function][]*cntLoop
	delta map[deltaKey]map[string]map[*Val]int
	fills map[*cntLoop]bool
	read  map[*types.Var]bool // what the listing methods of the handle use
	judge bool

	// which field of the handle says whether a listing was read
	guards map[*types.Var]*types.Var
	// what the numbers a loop changes were when it began
	syms map[*Val]*Val
	at   map[*Val]deltaKey
	tab  map[string]map[*Val]int
}

func (r *listRun) of(fn *ssa.Function) []*cntLoop {
	ls, ok := r.loops[fn]
	if !ok {
		ls = countLoops(fn)
		r.loops[fn] = ls
	}
	return ls
}

// ---- lengths ----

// length is the length of a slice, by what its loop is known to add.
func (r *listRun) length(e *Eng, v *Val) map[*Val]int {
	return r.spell(e, r.lenForm(e, v))
}

func (r *listRun) spell(e *Eng, f map[*Val]int) map[*Val]int {
	f = r.norm(e, f)
	for i := 0; i < 8; i++ {
		done := true
		for t, n := range f {
			if t == nil {
				continue
			}
			s := t
			if isPure(t, "len") && len(t.a) == 1 {
				s = t.a[0].strip()
			}
			b := r.syms[s]
			if b == nil {
				continue
			}
			k := r.at[s]
			d, ok := r.step(k.l, k.k)
			if !ok {
				continue
			}
			// as often as the loop went round
			g := r.size(e, b)
			if d != 0 {
				g = formSub(g, map[*Val]int{r.rounds(e, s, k.l): 1}, -d)
			}
			h := cp(f)
			delete(h, t)
			f, done = r.norm(e, formSub(h, g, -n)), false
			break
		}
		if done {
			break
		}
	}
	return f
}

// rounds is how often the loop went round.
func (r *listRun) rounds(e *Eng, sym *Val, l *cntLoop) *Val {
	return e.u.mk(Val{k: KPhi, site: e.u.site(sym.site.ctx, joinKey{l.head, "rounds"}), typ: types.Typ[types.Int]})
}

// known: the form speaks of nothing a loop left open.
func (r *listRun) known(f map[*Val]int) bool {
	for t := range f {
		if t != nil && t.contains(func(v *Val) bool { return v.k == KPhi && r.plen[v] == nil }) {
			return false
		}
	}
	return true
}

// holds: the form is never negative, whichever of two numbers a min takes.
func (r *listRun) holds(e *Eng, st *State, f map[*Val]int, extra ...map[*Val]int) bool {
	f = r.spell(e, f)
	for t, n := range f {
		if !isPure(t, "min", "max", "builtin.min", "builtin.max") || len(t.a) < 1 {
			continue
		}
		rest := cp(f)
		delete(rest, t)
		var args []map[*Val]int
		for _, a := range t.a {
			args = append(args, r.spell(e, linForm(a)))
		}
		for i, a := range args {
			x := append([]map[*Val]int{}, extra...)
			for j, b := range args {
				if i != j {
					if strings.HasSuffix(t.s, "min") {
						x = append(x, formSub(b, a, 1))
					} else {
						x = append(x, formSub(a, b, 1))
					}
				}
			}
			if !r.holds(e, st, formSub(rest, a, -n), x...) {
				return false
			}
		}
		return true
	}
	if r.nonNeg(e, st, f) {
		return true
	}
	r.each(st, "f:", func(k, t string) {
		v := r.vals[k]
		for i := 0; i < 2 && v.s == "==" && t == "0"; i++ {
			if isZeroInt(v.a[i]) && isPure(v.a[1-i], "len") {
				// not empty
				extra = append(extra, formSub(r.spell(e, linForm(v.a[1-i])), map[*Val]int{nil: 1}, 1))
			}
		}
	})
	for i, x := range extra {
		d := formSub(f, x, 1)
		if r.nonNeg(e, st, d) {
			return true
		}
		for _, y := range extra[i+1:] {
			if r.nonNeg(e, st, formSub(d, y, 1)) {
				return true
			}
		}
	}
	return false
}

func (r *listRun) equal(e *Eng, st *State, a, b map[*Val]int) bool {
	d := formSub(r.spell(e, a), r.spell(e, b), 1)
	return len(d) == 0 || r.holds(e, st, d) && r.holds(e, st, formSub(map[*Val]int{}, d, 1))
}

// ---- what a handle keeps ----

// own: the address is a field of the handle.
func own(a *Val) bool {
	if a.k != KField {
		return false
	}
	n, ok := isParam(a.a[0])
	return ok && n == 0
}

func isIntField(f *types.Var) bool {
	b, ok := f.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// keptList: the slice is what a field of the handle holds, or of something no
// method changes.
func (r *listRun) keptList(st *State, v *Val) bool {
	v = v.strip()
	for v.k == KSlice {
		v = v.a[0].strip()
	}
	for a, h := range st.heap {
		if own(a) && isSliceType(a.fld.Type()) && h.strip() == v {
			return true
		}
	}
	switch {
	case v.k == KLoad && own(v.a[0]):
		return true
	case v.k == KLoad && v.a[0].k == KField:
		return settled(r.c.P, v.a[0].fld)
	case v.k == KFieldVal:
		return settled(r.c.P, v.fld)
	}
	return false
}

// settled: nothing a method can be asked to do stores the field.
func settled(p *Prog, f *types.Var) bool {
	if p.immutable(f) {
		return true
	}
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function) bool
	rec = func(fn *ssa.Function) bool {
		if seen[fn] {
			return true
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field) == f && !freshBase(fa.X) {
						return false
					}
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil && g.Pkg == fn.Pkg && !rec(g) {
						return false
					}
				case *ssa.MakeClosure:
					if !rec(in.Fn.(*ssa.Function)) {
						return false
					}
				}
			}
		}
		return true
	}
	for _, fn := range p.Funcs {
		if fn.Pkg != nil && fn.Pkg.Pkg == f.Pkg() && fn.Signature.Recv() != nil && token.IsExported(fn.Name()) && !rec(fn) {
			return false
		}
	}
	return true
}

// ---- one listing method ----

func (r *listRun) sym(e *Eng, fr *Frame, l *cntLoop, k any, t types.Type) *Val {
	v := e.u.mk(Val{k: KPhi, site: e.u.site(fr.ctx, joinKey{l.head, k}), typ: t})
	r.at[v] = deltaKey{l, k}
	return v
}

func (r *listRun) end(e *Eng, fr *Frame, l *cntLoop, k any, t types.Type) *Val {
	return e.u.mk(Val{k: KPhi, site: e.u.site(fr.ctx, joinKey{l.out, k}), typ: t})
}

func counted(t types.Type) bool { return isIntType(t) || isSliceType(t) }

// size of a counted value as a form.
func (r *listRun) size(e *Eng, v *Val) map[*Val]int {
	if isSliceType(v.typ) || v.isNilConst() {
		return r.length(e, v)
	}
	return r.spell(e, linForm(v))
}

func (r *listRun) lkey(fr *Frame, l *cntLoop, k any) string {
	s := "cursor"
	if ph, ok := k.(*ssa.Phi); ok {
		s = ph.Name()
	}
	return fmt.Sprintf("lb:%d:%d:%s", fr.ctx.id, l.head.Index, s)
}

func loopStores(l *cntLoop, f *types.Var) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field) == f {
					return true
				}
			}
		}
	}
	return false
}

// loopCalls: the loop calls methods of its own receiver.
func loopCalls(l *cntLoop) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if len(b.Parent().Params) > 0 {
				for _, a := range ci.Common().Args {
					if a == b.Parent().Params[0] {
						return true
					}
				}
			}
		}
	}
	return false
}

// steps: the numbers and slices of the handle the loop stores to.
func (r *listRun) steps(e *Eng, fr *Frame, l *cntLoop) []*Val {
	var out []*Val
	recv := e.Params[0]
	st, ok := deref(recv.typ).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := fieldOf(recv.typ, i)
		if counted(f.Type()) && loopStores(l, f) {
			out = append(out, e.u.mk(Val{k: KField, a: []*Val{recv}, fld: f, typ: types.NewPointer(f.Type())}))
		}
	}
	return out
}

func (r *listRun) round(l *cntLoop, k any, f map[*Val]int) {
	dk := deltaKey{l, k}
	if r.delta[dk] == nil {
		r.delta[dk] = map[string]map[*Val]int{}
	}
	r.delta[dk][formKey(f)] = f
}

// step: by how much each round changes k.
func (r *listRun) step(l *cntLoop, k any) (int, bool) {
	d := r.delta[deltaKey{l, k}]
	if len(d) != 1 {
		return 0, false
	}
	for _, f := range d {
		for t := range f {
			if t != nil {
				return 0, false
			}
		}
		return f[nil], true
	}
	return 0, false
}

func (r *listRun) edge(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
	for _, l := range r.of(fr.fn) {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		switch {
		case to == l.head && !l.body[from]: // in
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if counted(ph.Type()) {
					b := e.eval(fr, st, ph.Edges[pi])
					st.T[r.lkey(fr, l, ph)] = r.id(b)
					st.T["sb:"+r.id(r.sym(e, fr, l, ph, ph.Type()))] = r.id(b)
				}
			}
			for _, a := range r.steps(e, fr, l) {
				st.T[r.lkey(fr, l, a.fld)+a.fld.Name()] = r.id(e.load(st, a, a.fld.Type()))
				s := r.sym(e, fr, l, a.fld, a.fld.Type())
				st.T["sb:"+r.id(s)] = r.id(e.load(st, a, a.fld.Type()))
				e.kill(st, s.site.id)
				st.heap[a] = s
			}
			r.sync(e, st)
		case to == l.head: // round
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if counted(ph.Type()) {
					v := e.eval(fr, st, ph.Edges[pi])
					s := r.sym(e, fr, l, ph, ph.Type())
					d := formSub(r.size(e, v), r.size(e, s), 1)
					if b := r.vals[st.T[r.lkey(fr, l, ph)]]; r.judge && b != nil && isResultElem(r.fn, ph.Type()) && r.grows(l, ph) {
						if n := e.makeLen[b.strip()]; n != nil && !isZeroInt(n) && types.IsInterface(ph.Type().Underlying().(*types.Slice).Elem()) {
							r.c.BadAt("fill", r.what, e, fr, from.Instrs[len(from.Instrs)-1], "the page begins with elements that are nil")
						}
					}
					if isSliceType(ph.Type()) && len(d) == 0 && r.judge && isResultElem(r.fn, ph.Type()) && r.grows(l, ph) {
						r.left(e, fr, st, from)
					}
					r.round(l, ph, d)
				}
			}
			for _, a := range r.steps(e, fr, l) {
				s := r.sym(e, fr, l, a.fld, a.fld.Type())
				r.round(l, a.fld, formSub(r.size(e, e.load(st, a, a.fld.Type())), r.size(e, s), 1))
				e.kill(st, s.site.id)
				st.heap[a] = s
			}
			if r.fills[l] && st.T["set"] == "" && r.judge {
				r.left(e, fr, st, from)
			}
			delete(st.T, "set")
		case from == l.exit && to == l.out:
			r.leave(e, fr, st, l)
		}
	}
}

// sync: the lengths of what this path made.
func (r *listRun) sync(e *Eng, st *State) {
	r.each(st, "mk:", func(k, v string) { e.makeLen[r.vals[k]] = r.vals[v] })
	r.plen = map[*Val]map[*Val]int{}
	r.syms = map[*Val]*Val{}
	r.each(st, "sb:", func(k, v string) { r.syms[r.vals[k]] = r.vals[v] })
	r.each(st, "pl:", func(k, v string) { r.plen[r.vals[k]] = r.tab[v] })
}

// setLen: how long v is on this path.
func (r *listRun) setLen(st *State, v *Val, f map[*Val]int) {
	k := formKey(f)
	r.tab[k] = f
	st.T["pl:"+r.id(v)] = k
	r.plen[v] = f
}

func isResultElem(fn *ssa.Function, t types.Type) bool {
	return types.Identical(fn.Signature.Results().At(0).Type().Underlying(), t.Underlying())
}

// grows: some round adds to the slice.
func (r *listRun) grows(l *cntLoop, k any) bool {
	for _, f := range r.delta[deltaKey{l, k}] {
		if len(f) > 0 {
			return true
		}
	}
	return false
}

// left: a round adds nothing to the page.
func (r *listRun) left(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
	if st.T["gone"] != "" {
		return
	}
	in := b.Instrs[len(b.Instrs)-1]
	r.c.BadAt("fill", r.what, e, fr, in, "an entry the loop goes over does not get into the page")
}

// leave: the loop is done; what it counted is known.
func (r *listRun) leave(e *Eng, fr *Frame, st *State, l *cntLoop) {
	base := func(k any) *Val {
		s := r.lkey(fr, l, k)
		if f, ok := k.(*types.Var); ok {
			s += f.Name()
		}
		return r.vals[st.T[s]]
	}
	if l.breaks() {
		return
	}
	// rounds done
	cnt := linForm(e.eval(fr, st, l.cnt))
	lim := r.spell(e, linForm(e.eval(fr, st, l.lim)))
	cnt = r.norm(e, cnt)
	for t := range lim {
		if t != nil && t.k == KPhi && r.plen[t] == nil {
			return
		}
	}
	var keys []any
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if counted(ph.Type()) {
			keys = append(keys, ph)
		}
	}
	var addrs []*Val
	addrs = append(addrs, r.steps(e, fr, l)...)
	for _, a := range addrs {
		keys = append(keys, a.fld)
	}
	start := cnt
	found := false
	for _, k := range keys {
		var s, t *Val
		if ph, ok := k.(*ssa.Phi); ok {
			s = r.sym(e, fr, l, ph, ph.Type())
			t = s
			if isSliceType(ph.Type()) {
				t = r.lenOf(e, s)
			}
		} else {
			s = r.sym(e, fr, l, k, k.(*types.Var).Type())
			t = s
			if isSliceType(s.typ) {
				t = r.lenOf(e, s)
			}
		}
		if n := cnt[t]; n != 0 {
			d, ok := r.step(l, k)
			if b := base(k); ok && d == 1 && n == 1 && b != nil && !found {
				found = true
				g := formSub(cnt, map[*Val]int{t: 1}, 1)
				start = formSub(g, r.size(e, b), -1)
			} else {
				return
			}
		}
		if lim[t] != 0 {
			return
		}
	}
	if !found {
		return
	}
	rounds := formSub(lim, start, 1)
	if l.late {
		rounds = formSub(rounds, map[*Val]int{nil: 1}, -1)
	} else if !r.holds(e, st, rounds) {
		return
	}
	for _, k := range keys {
		d, ok := r.step(l, k)
		b := base(k)
		if !ok || b == nil {
			continue
		}
		total := formSub(r.size(e, b), rounds, -d)
		ph, isPhi := k.(*ssa.Phi)
		if !isPhi {
			f := k.(*types.Var)
			for _, a := range addrs {
				if a.fld != f {
					continue
				}
				if st.heap[a] = b; d != 0 && isSliceType(f.Type()) {
					st.heap[a] = r.end(e, fr, l, f, f.Type())
					r.setLen(st, st.heap[a], total)
				} else if d != 0 {
					st.heap[a] = r.build(e, total)
				}
			}
			continue
		}
		var v *Val
		if isSliceType(ph.Type()) {
			v = r.end(e, fr, l, ph, ph.Type())
			if d == 0 {
				v = b
			} else {
				r.setLen(st, v, total)
			}
		} else {
			v = r.build(e, total)
		}
		if !l.late {
			st.env[ph] = v
			continue
		}
		for i, p := range l.head.Preds {
			if p == l.exit {
				st.env[ph.Edges[i]] = v
			}
		}
	}
}

// build is a number of the form.
func (r *listRun) build(e *Eng, f map[*Val]int) *Val {
	var out *Val
	for _, sign := range []int{1, -1} {
		for t, n := range f {
			if n*sign < 0 {
				continue
			}
			for i := 0; i < n*sign; i++ {
				x := t
				if x == nil {
					x, i = e.intc(int64(n*sign)), n*sign
				}
				switch {
				case out == nil && sign > 0:
					out = x
				case out == nil:
					out = e.u.mk(Val{k: KBin, s: "-", a: []*Val{e.intc(0), x}, typ: types.Typ[types.Int]})
				default:
					s := "+"
					if sign < 0 {
						s = "-"
					}
					out = e.u.mk(Val{k: KBin, s: s, a: []*Val{out, x}, typ: types.Typ[types.Int]})
				}
			}
		}
	}
	if out == nil {
		return e.intc(0)
	}
	return out
}

func (r *listRun) go_(judge bool) {
	c, fn := r.c, r.fn
	r.judge = judge
	seek := fn.Name() == "Seek"
	paged := pages(fn) || seek
	c.RunEntry(func() *Eng {
		r.memRun = memRun{c: c, vals: map[string]*Val{}, what: r.what}
		r.at = map[*Val]deltaKey{}
		r.plen, r.tab = map[*Val]map[*Val]int{}, map[string]map[*Val]int{}
		e := newEng(c.P)
		bad := func(rule string, fr *Frame, in ssa.Instruction, f string, a ...any) {
			if judge {
				c.BadAt(rule, r.what, e, fr, in, f, a...)
			}
		}
		did := func(rule, what string) {
			if judge {
				c.Did(rule, what)
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			for a, v := range st.heap {
				if own(a) {
					st.T["pin:"+r.id(a)] = r.id(v)
				}
			}
			if isSyncOp(ci) {
				return []CallOut{{st, e.u.mk(Val{k: KTuple})}}, true
			}
			return nil, false
		}
		e.OnEdge = func(e *Eng, fr *Frame, st *State, from, to *ssa.BasicBlock) {
			r.sync(e, st)
			r.edge(e, fr, st, from, to)
		}
		e.Steady = func(fr *Frame, head *ssa.BasicBlock, addr *Val) bool {
			for _, l := range r.of(fr.fn) {
				if l.head == head {
					return !own(addr) || !loopStores(l, addr.fld) && !loopCalls(l)
				}
			}
			return false
		}
		e.OnMake = func(st *State, s, n *Val) { st.T["mk:"+r.id(s)] = r.id(n) }
		e.NoInline = func(ci *CallInfo) bool {
			// a listing made elsewhere is just a listing
			if ci.Recv == nil || !paged {
				return false
			}
			n, ok := isParam(ci.Recv)
			return !(ok && n == 0) && (hasLoop(ci.Fn) || !c.P.small(ci.Fn))
		}
		e.OnBlock = func(e *Eng, fr *Frame, st *State, b *ssa.BasicBlock) {
			for _, l := range r.of(fr.fn) {
				if l.head != b {
					continue
				}
				delete(st.T, "gone")
				for _, in := range b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if counted(ph.Type()) {
						s := r.sym(e, fr, l, ph, ph.Type())
						e.kill(st, s.site.id)
						st.env[ph] = s
					}
				}
			}
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			r.found(st, cond, truth)
			for cond.k == KNot {
				cond, truth = cond.a[0], !truth
			}
			if cond.k == KBin && cond.s == "==" {
				for i := 0; i < 2; i++ {
					if !cond.a[i].isNilConst() {
						continue
					}
					k := "nil:" + r.id(cond.a[1-i].strip())
					st.T[k] = "no"
					if truth {
						st.T[k] = "yes"
					}
				}
			}
			if err := r.vals[st.T["info"]]; err != nil && truth && strings.HasSuffix(cond.s, "errors.Is") && cond.contains(func(v *Val) bool { return v == err }) && cond.contains(func(v *Val) bool { return v.k == KGlobal && v.glob.Name() == "ErrNotExist" }) {
				st.T["gone"] = "1" // the entry was removed meanwhile
			}
			if f, ok := recvField(cond); ok {
				// what the handle knows of its listing
				if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					if st.T["seen:"+f.Name()] = "1"; !truth {
						delete(st.T, "seen:"+f.Name())
						st.T["unread"] = r.id(cond)
					}
				}
			}
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if !inlined && ci.Builtin == "" && !isSyncOp(ci) {
				// what a handle keeps changes under its own lock only
				r.each(st, "pin:", func(k, v string) { st.heap[r.vals[k]] = r.vals[v] })
			}
			r.each(st, "pin:", func(k, _ string) { delete(st.T, "pin:"+k) })
			if f := ci.Full(); (f == "slices.Clone" || f == "slices.Clip") && len(ci.Args) == 1 {
				r.sync(e, st)
				r.setLen(st, res.strip(), r.length(e, ci.Args[0]))
			}
			if ci.Name() == "Info" && !inlined {
				if err := errOf(ci, res); err != nil {
					st.T["info"] = r.id(err)
				}
			}
			if inlined || !paged || seek {
				return
			}
			switch ci.Name() {
			case "ReadDir", "Readdir", "Readdirnames":
				s := ci.Common.Signature()
				if s.Params().Len() == 1 && isIntType(s.Params().At(0).Type()) && len(ci.Args) > 0 {
					st.T["inner"] = r.id(res)
					did("forward", r.what)
					if a := ci.Args[len(ci.Args)-1]; !sameForm(linForm(a), linForm(e.Params[1])) {
						bad("forward", ci.fr, ci.Instr, "the page is asked for with a number that is not the caller's")
					}
				}
			}
		}
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			if addr.k == KIndex {
				x := sliceBase(addr.a[0])
				if x.k == KAlloc && isMakeSlice(x) {
					for _, l := range r.of(fr.fn) {
						if l.body[in.Block()] {
							r.fills[l] = true
							st.T["set"] = "1"
							did("fill", r.what)
						}
					}
				}
				if types.IsInterface(deref(addr.typ)) && root(addr).k == KAlloc && r.maybeGone(e, st, v) {
					bad("fill", fr, in, "an element of the page is the result of a call that may have failed, and so may be nil")
				}
				return
			}
			if !own(addr) || !isSliceType(addr.fld.Type()) || !paged {
				return
			}
			v = v.strip()
			if b := sliceBase(v).strip(); b == sliceBase(e.load(st, addr, addr.fld.Type())).strip() || v.isNilConst() {
				// moves on in what it keeps
				return
			}
			did("kept", r.what)
			st.T["list"] = r.id(v)
			if r.nilness(e, st, r.kept(e, addr)) == FNil {
			} else if u := r.vals[st.T["unread"]]; u != nil {
				st.T["guard"] = r.id(u)
				if f, ok := recvField(u); ok {
					r.guards[addr.fld] = f
				}
			} else {
				bad("kept", fr, in, "the listing the position indexes is read again")
			}
		}
		e.OnSlice = func(e *Eng, st *State, base, lo, hi *Val, in ssa.Instruction) {
			if lo == nil {
				return
			}
			for t := range linForm(lo) {
				if t != nil && t.k == KLoad && own(t.a[0]) && isIntField(t.a[0].fld) {
					st.T["src"] = r.id(base)
					if len(linForm(lo)) != 1 {
						bad("page", nil, in, "a page does not begin at the position")
					}
				}
			}
		}
		e.OnLoad = func(e *Eng, fr *Frame, st *State, addr *Val, in ssa.Instruction) {
			if addr.k != KIndex {
				return
			}
			for t := range linForm(addr.a[1]) {
				if t == nil {
					continue
				}
				if t.k == KLoad && own(t.a[0]) && isIntField(t.a[0].fld) {
					st.T["src"] = r.id(addr.a[0])
				}
				for _, l := range r.of(fr.fn) {
					if t.k != KPhi {
						continue
					}
					for _, a := range r.steps(e, fr, l) {
						if t == r.sym(e, fr, l, a.fld, a.fld.Type()) {
							st.T["src"] = r.id(addr.a[0])
						}
					}
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			r.sync(e, st)
			if seek {
				r.sought(e, st, res, in, bad, did)
				return
			}
			r.ret(e, st, res, in, paged, bad, did)
		}
		return e
	}, fn, func(e *Eng, st *State, ps []*Val) {
		if !paged {
			return
		}
		t, ok := deref(ps[0].typ).Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < t.NumFields(); i++ {
			f := fieldOf(ps[0].typ, i)
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				continue
			}
			a := e.u.mk(Val{k: KField, a: []*Val{ps[0]}, fld: f, typ: types.NewPointer(f.Type())})
			st.heap[a] = r.kept(e, a)
		}
	})
}

// kept is what a field of the handle holds when the call begins.
func (r *listRun) kept(e *Eng, a *Val) *Val {
	return e.u.mk(Val{k: KLoad, a: []*Val{a}, typ: a.fld.Type()})
}

// maybeGone: v is what an Info call gave that may have failed.
func (r *listRun) maybeGone(e *Eng, st *State, v *Val) bool {
	v = v.strip()
	if v.k != KRes || !strings.HasSuffix(v.a[0].s, "Info") {
		return false
	}
	err := r.vals[st.T["info"]]
	return err == nil || err.k != KRes || err.a[0] != v.a[0] || r.nilness(e, st, err) != FNil
}

// found keeps what a branch says about numbers no loop is still changing.
func (r *listRun) found(st *State, cond *Val, truth bool) {
	for cond.k == KNot {
		cond, truth = cond.a[0], !truth
	}
	if cond.k == KBin && len(cond.a) == 2 && (cond.s == "<" || cond.s == "==") && isIntType(cond.a[0].typ) &&
		!cond.contains(func(v *Val) bool { return v.k == KPhi && st.T["pl:"+r.id(v)] == "" }) {
		st.T["f:"+r.id(cond)] = "0"
		if truth {
			st.T["f:"+r.id(cond)] = "1"
		}
	}
}

// nilness of a value the path may have compared with nil.
func (r *listRun) nilness(e *Eng, st *State, v *Val) int8 {
	switch st.T["nil:"+r.id(v.strip())] {
	case "yes":
		return FNil
	case "no":
		return FNonNil
	}
	return e.nilness(st, v)
}

func (r *listRun) ret(e *Eng, st *State, res []*Val, in ssa.Instruction, paged bool, bad func(string, *Frame, ssa.Instruction, string, ...any), did func(string, string)) {
	if !paged {
		return
	}
	n := linForm(e.Params[1])
	one := map[*Val]int{nil: 1}
	asked := r.holds(e, st, formSub(n, one, 1))
	whole := r.holds(e, st, formSub(map[*Val]int{}, n, 1))
	if in2 := r.vals[st.T["inner"]]; in2 != nil {
		ierr := resOf(in2, 1)
		switch {
		case res[1].strip() == ierr.strip():
		case r.nilness(e, st, ierr) != FNil && r.nilness(e, st, res[1]) != FNonNil:
			bad("forward", nil, in, "the error a page came with is lost")
			return
		}
		if r.nilness(e, st, res[1]) == FNonNil {
			return
		}
		if l, m := r.length(e, res[0]), r.length(e, resOf(in2, 0)); r.known(l) && !r.equal(e, st, l, m) {
			bad("forward", nil, in, "the page is not as long as the one it was read from")
		}
		return
	}
	// what is kept, and what is left of it
	var cur, old map[*Val]int
	var list *Val
	cursor := r.cursorOf(e, st)
	if cursor != nil {
		old = linForm(r.kept(e, cursor))
		cur = r.spell(e, linForm(e.load(st, cursor, cursor.fld.Type())))
	}
	lens := r.totals(e, st, cursor)
	if isEOF(res[1]) {
		did("eof", r.what)
		if !asked {
			bad("eof", nil, in, "io.EOF although no number of entries was asked for")
		}
		ok := false
		for _, t := range lens {
			if cursor != nil {
				ok = ok || r.holds(e, st, formSub(old, t, 1))
			} else {
				ok = ok || r.holds(e, st, formSub(map[*Val]int{}, t, 1))
			}
		}
		if !ok {
			bad("eof", nil, in, "io.EOF although entries may be left")
		}
		if cursor != nil && !sameForm(cur, old) {
			bad("eof", nil, in, "the position moves although nothing is given")
		}
		return
	}
	if e.nilness(st, res[1]) == FNonNil || res[1].strip().k == KRes {
		return
	}
	did("page", r.what)
	l := r.length(e, res[0])
	list = r.vals[st.T["src"]]
	// how far the position moved
	var moved, rest map[*Val]int
	switch {
	case cursor != nil:
		moved = formSub(cur, old, 1)
		if list != nil {
			rest = formSub(r.length(e, list), old, 1)
		} else if len(lens) > 0 {
			rest = formSub(lens[0], old, 1)
		}
	default:
		a := r.listField(e, st)
		if a == nil {
			return
		}
		list = r.kept(e, a)
		if x := r.vals[st.T["list"]]; x != nil {
			list = x
		}
		now := r.length(e, e.load(st, a, a.fld.Type()))
		rest = r.length(e, list)
		moved = formSub(rest, now, 1)
		if v := res[0].strip(); v.k == KSlice && v.a[1] != nil && !isZeroInt(v.a[1]) {
			bad("page", nil, in, "a page does not begin with the first entry left")
		}
	}
	dropped := false // an entry may be left out that is gone
	for t := range l {
		dropped = dropped || t != nil && t.contains(func(v *Val) bool { return v.k == KPhi && isSliceType(v.typ) && r.plen[v] == nil })
	}
	if !dropped && !r.equal(e, st, l, moved) {
		bad("page", nil, in, "the position moves past %s entries but the page holds %s", formKey(moved), formKey(l))
	}
	if !r.known(l) {
		l = moved
	}
	if !r.known(l) || rest == nil {
		return
	}
	if len(l) > 0 && list != nil && cursor != nil {
		did("kept", r.what)
		if !r.keptList(st, list) {
			bad("kept", nil, in, "the position indexes a listing made anew for each page, so entries removed in between make others go missing")
		}
	}
	if g := r.vals[st.T["guard"]]; g != nil && g.k == KLoad {
		if now := e.load(st, g.a[0], g.typ); now == g || !isTrue(now) {
			bad("kept", nil, in, "the listing read is not remembered as read")
		}
	}
	if !whole {
		if !r.holds(e, st, formSub(n, l, 1)) {
			bad("page", nil, in, "a page may hold more entries than asked for")
		}
		if !r.holds(e, st, formSub(l, one, 1)) {
			bad("page", nil, in, "a page may be empty without io.EOF")
		}
	}
	if !asked && !r.equal(e, st, l, rest) && !r.holds(e, st, formSub(l, rest, 1)) {
		bad("page", nil, in, "not all the rest comes although no number was asked for")
	}
	if !r.holds(e, st, formSub(rest, l, 1)) && len(l) > 0 {
		bad("page", nil, in, "a page may run past the end of the listing")
	}
}

func isTrue(v *Val) bool {
	b, ok := v.constBool()
	return ok && b
}

// cursorOf: the number of the handle that is its position.
func (r *listRun) cursorOf(e *Eng, st *State) *Val {
	var out *Val
	for a, v := range st.heap {
		if own(a) && isIntField(a.fld) && v != r.kept(e, a) {
			out = a
		}
	}
	if out != nil {
		return out
	}
	r.each(st, "f:", func(k, _ string) {
		r.vals[k].contains(func(t *Val) bool {
			if t.k == KLoad && own(t.a[0]) && isIntField(t.a[0].fld) {
				out = t.a[0]
			}
			return false
		})
	})
	return out
}

// totals: the lengths the path compared with the position.
func (r *listRun) totals(e *Eng, st *State, cursor *Val) []map[*Val]int {
	var out []map[*Val]int
	r.each(st, "f:", func(k, _ string) {
		f := formSub(linForm(r.vals[k].a[0]), linForm(r.vals[k].a[1]), 1)
		for t := range f {
			if isPure(t, "len") {
				out = append(out, r.spell(e, map[*Val]int{t: 1}))
			}
		}
	})
	return out
}

// listField: the slice of the handle that holds the entries left.
func (r *listRun) listField(e *Eng, st *State) *Val {
	var out *Val
	for a, v := range st.heap {
		if own(a) && isSliceType(a.fld.Type()) && (v != r.kept(e, a) || out == nil) {
			out = a
		}
	}
	return out
}

// sought: a seek leaves the position at an end of the listing kept, and drops
// the listing only with the position at its start.
func (r *listRun) sought(e *Eng, st *State, res []*Val, in ssa.Instruction, bad func(string, *Frame, ssa.Instruction, string, ...any), did func(string, string)) {
	var cursor, list *Val
	t, ok := deref(e.Params[0].typ).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < t.NumFields(); i++ {
		f := fieldOf(e.Params[0].typ, i)
		a := e.u.mk(Val{k: KField, a: []*Val{e.Params[0]}, fld: f, typ: types.NewPointer(f.Type())})
		switch {
		case isSliceType(f.Type()) && r.read[f]:
			list = a
		case isIntField(f) && r.read[f]:
			cursor = a
		}
	}
	if cursor == nil || r.nilness(e, st, res[1]) == FNonNil {
		return
	}
	did("seek", r.what)
	now := linForm(e.load(st, cursor, cursor.fld.Type()))
	w := int64(-1)
	r.each(st, "f:", func(k, t string) {
		if v := r.vals[k]; v.s == "==" && t == "1" {
			for i := 0; i < 2; i++ {
				if k, ok := v.a[i].constInt(); ok && v.a[1-i].strip() == e.Params[2] {
					w = k
				}
			}
		}
	})
	dropped := false
	if list != nil {
		for a, v := range st.heap {
			if !own(a) || v == r.kept(e, a) {
				continue
			}
			if a == list && v.isNilConst() {
				dropped = true
			}
			if b, ok := v.constBool(); ok && !b && r.guards[list.fld] == a.fld {
				dropped = true
			}
		}
		if g := r.guards[list.fld]; g != nil && st.heap[list] != nil && st.heap[list].isNilConst() {
			a := e.u.mk(Val{k: KField, a: []*Val{e.Params[0]}, fld: g, typ: types.NewPointer(g.Type())})
			if b, ok := e.load(st, a, g.Type()).constBool(); !ok || b {
				bad("seek", nil, in, "the listing is dropped but still counts as read")
			}
		}
	}
	switch {
	case dropped && len(now) != 0:
		bad("seek", nil, in, "the listing is dropped but the position stays")
	case w == 0 && list != nil && !dropped:
		bad("seek", nil, in, "a seek to the start goes on with the listing read before")
	case w == 0 && len(now) != 0:
		bad("seek", nil, in, "a seek to the start leaves the position elsewhere")
	case w == 2:
		ok := false
		for t, n := range now {
			if isPure(t, "len") && n == 1 && len(now) == 1 && r.keptList(st, t.a[0]) {
				ok = true
			}
		}
		if ok && list != nil && st.T["list"] == "" && r.nilness(e, st, r.kept(e, list)) != FNonNil {
			if g := r.guards[list.fld]; g == nil || st.T["seen:"+g.Name()] == "" {
				bad("seek", nil, in, "a seek to the end goes to the end of a listing that may not have been read")
			}
		}
		if !ok {
			bad("seek", nil, in, "a seek to the end goes to %s, not to the end of the listing the pages come from", formKey(now))
		}
	case w == 1 && len(now) != 0 && !sameForm(now, linForm(r.kept(e, cursor))):
		bad("seek", nil, in, "a seek that stays moves the position")
	}
}

// readFields: the fields of the handle its listing methods use.
func readFields(p *Prog, n *types.Named) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function)
	rec = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Signature.Recv() == nil || namedOf(fn.Signature.Recv().Type()) == nil || namedOf(fn.Signature.Recv().Type()).Obj() != n.Obj() {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					out[fieldOf(in.X.Type(), in.Field)] = true
				case ssa.CallInstruction:
					rec(in.Common().StaticCallee())
				}
			}
		}
	}
	for _, m := range []string{"ReadDir", "Readdir", "Readdirnames"} {
		if fn := p.Method(n, m); fn != nil && pages(fn) {
			rec(fn)
		}
	}
	return out
}

// noFollow: a listing does not look its entries up through links.
func noFollow(c *Ck, top *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	follows := func(name string, sig *types.Signature) bool {
		return name == "Stat" && sig.Params().Len() == 1 && isStringType(sig.Params().At(0).Type())
	}
	looks := func(name string, sig *types.Signature) bool {
		return follows(name, sig) || name == "Lstat" && sig.Params().Len() == 1
	}
	var rec func(fn *ssa.Function)
	rec = func(fn *ssa.Function) {
		if seen[fn] || fn.Blocks == nil || fn.Pkg != top.Pkg {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn.(*ssa.Function).Parent() == fn {
					rec(mc.Fn.(*ssa.Function))
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				name := ""
				switch {
				case com.IsInvoke():
					name = com.Method.Name()
				case com.StaticCallee() != nil:
					name = com.StaticCallee().Name()
					if !looks(name, com.Signature()) && !isLister(com.StaticCallee()) && com.StaticCallee().Signature.Recv() != nil {
						rec(com.StaticCallee())
					}
				default:
					ld, ok := com.Value.(*ssa.UnOp)
					if !ok {
						continue
					}
					fa, ok := ld.X.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					f := fieldOf(fa.X.Type(), fa.Field)
					for _, g := range c.P.Funcs {
						for _, s := range storesTo(g, f) {
							w := boundName(s.Val)
							if w == "" || !looks(w, com.Signature()) {
								if mc, ok := s.Val.(*ssa.MakeClosure); ok {
									rec(mc.Fn.(*ssa.Function))
								}
								continue
							}
							c.Did("nofollow", fnName(g)+"."+f.Name())
							if follows(w, com.Signature()) {
								c.Bad("nofollow", fnName(top), s.Pos(), "%s looks entries up by %s, which follows links", f.Name(), w)
							}
						}
					}
					continue
				}
				if !looks(name, com.Signature()) {
					continue
				}
				c.Did("nofollow", fnName(fn))
				if follows(name, com.Signature()) {
					c.Bad("nofollow", fnName(top), in.Pos(), "an entry is looked up by %s, which follows links", name)
				}
			}
		}
	}
	rec(top)
}

// storesTo: where fn stores the field, whatever the type arguments.
func storesTo(fn *ssa.Function, f *types.Var) []*ssa.Store {
	var out []*ssa.Store
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldOf(fa.X.Type(), fa.Field) == f {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// boundName is the name of the function or method a value stands for.
func boundName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.MakeClosure:
		return strings.TrimSuffix(v.Fn.Name(), "$bound")
	case *ssa.Function:
		return v.Name()
	}
	return ""
}
