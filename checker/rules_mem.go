package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C40: an in-memory file holds exactly what was written to it, positions move
// where they were asked to, and opening does what the flags say.

func init() { checks["C40"] = checkMem }

// ---- flags of an open ----

// flagDom is the finite domain of os.OpenFile flags that matter: each access
// mode with each subset of APPEND, CREATE, EXCL and TRUNC.
type flagDom struct {
	names []string // bit names, index into val
	vals  []int64  // the value of each combination
	mode  []int64
	wr    int64
	rw    int64
	bit   map[string]int64
}

func (p *Prog) flagDomain() *flagDom {
	var os *types.Package
	for _, fn := range p.Funcs {
		if fn.Pkg == nil {
			continue
		}
		for _, im := range fn.Pkg.Pkg.Imports() {
			if im.Path() == "os" {
				os = im
			}
		}
		if os != nil {
			break
		}
	}
	if os == nil {
		return nil
	}
	get := func(n string) int64 {
		c, ok := os.Scope().Lookup(n).(*types.Const)
		if !ok {
			return 0
		}
		v, _ := constant.Int64Val(c.Val())
		return v
	}
	d := &flagDom{bit: map[string]int64{}, wr: get("O_WRONLY"), rw: get("O_RDWR")}
	d.names = []string{"APPEND", "CREATE", "EXCL", "TRUNC"}
	for _, n := range d.names {
		d.bit[n] = get("O_" + n)
	}
	for _, m := range []int64{get("O_RDONLY"), d.wr, d.rw} {
		for s := 0; s < 1<<len(d.names); s++ {
			v := m
			for i, n := range d.names {
				if s>>i&1 == 1 {
					v |= d.bit[n]
				}
			}
			d.vals = append(d.vals, v)
			d.mode = append(d.mode, m)
		}
	}
	return d
}

func (d *flagDom) has(v int64, n string) bool { return v&d.bit[n] != 0 }
func (d *flagDom) readable(m int64) bool      { return m != d.wr }
func (d *flagDom) writable(m int64) bool      { return m == d.wr || m == d.rw }

// all is the set of combinations for which keep holds.
func (d *flagDom) all(keep func(v, mode int64) bool) string {
	b := make([]byte, len(d.vals))
	for i := range b {
		b[i] = '0'
		if keep == nil || keep(d.vals[i], d.mode[i]) {
			b[i] = '1'
		}
	}
	return string(b)
}

// some: a combination of the set for which f holds.
func (d *flagDom) some(set string, f func(v, mode int64) bool) bool {
	for i := range d.vals {
		if (set == "" || set[i] == '1') && f(d.vals[i], d.mode[i]) {
			return true
		}
	}
	return false
}

// evalFlag evaluates a term over the flags; ok is false for anything else.
func evalFlag(v *Val, isFlag func(*Val) bool, flag int64) (r constant.Value, ok bool) {
	v = v.strip()
	switch {
	case isFlag(v):
		return constant.MakeInt64(flag), true
	case v.isConst():
		return v.cv, true
	case v.k == KConv:
		return evalFlag(v.a[0], isFlag, flag)
	case v.k == KNot:
		if x, ok := evalFlag(v.a[0], isFlag, flag); ok && x.Kind() == constant.Bool {
			return constant.MakeBool(!constant.BoolVal(x)), true
		}
	case v.k == KUn && v.s == "^":
		if x, ok := evalFlag(v.a[0], isFlag, flag); ok && x.Kind() == constant.Int {
			return constant.UnaryOp(token.XOR, x, 0), true
		}
	case v.k == KBin && len(v.a) == 2:
		x, ok1 := evalFlag(v.a[0], isFlag, flag)
		y, ok2 := evalFlag(v.a[1], isFlag, flag)
		if !ok1 || !ok2 || x.Kind() != y.Kind() {
			return nil, false
		}
		switch v.s {
		case "==":
			return constant.MakeBool(constant.Compare(x, token.EQL, y)), true
		case "<":
			if x.Kind() == constant.Int {
				return constant.MakeBool(constant.Compare(x, token.LSS, y)), true
			}
		}
		ops := map[string]token.Token{"&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT, "+": token.ADD, "-": token.SUB}
		if op, ok := ops[v.s]; ok && x.Kind() == constant.Int {
			return constant.BinaryOp(x, op, y), true
		}
	}
	return nil, false
}

// narrow keeps of the flags possible on a path those a branch allows.
func (d *flagDom) narrow(st *State, cond *Val, truth bool, isFlag func(*Val) bool) {
	if !cond.contains(isFlag) {
		return
	}
	set := st.T["flags"]
	if set == "" {
		set = d.all(nil)
	}
	b := []byte(set)
	for i, v := range d.vals {
		if r, ok := evalFlag(cond, isFlag, v); ok && r.Kind() == constant.Bool && constant.BoolVal(r) != truth {
			b[i] = '0'
		}
	}
	st.T["flags"] = string(b)
}

// checkFlagTables: what the predicates over flags answer, for every flag.
func (d *flagDom) checkFlagTables(c *Ck) {
	want := map[string]func(v, m int64) bool{
		"Readable":  func(v, m int64) bool { return d.readable(m) },
		"Writable":  func(v, m int64) bool { return d.writable(m) },
		"ReadWrite": func(v, m int64) bool { return m == d.rw },
		"ReadOnly":  func(v, m int64) bool { return m == 0 },
		"WriteOnly": func(v, m int64) bool { return m == d.wr },
	}
	changes := func(v, m int64) bool {
		return d.writable(m) || d.has(v, "APPEND") || d.has(v, "CREATE") || d.has(v, "TRUNC")
	}
	want["WriteOp"], want["writeFlag"], want["WriteFlag"] = changes, changes, changes
	for _, fn := range c.P.Funcs {
		s := fn.Signature
		f := want[fn.Name()]
		if f == nil || s.Recv() != nil || s.Params().Len() != 1 || s.Results().Len() != 1 || !isIntType(s.Params().At(0).Type()) || !isBool(s.Results().At(0).Type()) || fn.Blocks == nil {
			continue
		}
		what := fnName(fn)
		isFlag := func(v *Val) bool { n, ok := isParam(v); return ok && n == 0 }
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				d.narrow(st, cond, truth, isFlag)
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				for i, v := range d.vals {
					if set := st.T["flags"]; set != "" && set[i] != '1' {
						continue
					}
					c.Did("flags", fmt.Sprintf("%s(%#x)", what, v))
					r, ok := evalFlag(res[0], isFlag, v)
					if !ok || r.Kind() != constant.Bool {
						c.BadAt("flags", what, e, nil, in, "what it answers for the flag %#x is not decided by the flag: %s", v, res[0])
						return
					}
					if constant.BoolVal(r) != f(v, d.mode[i]) {
						c.BadAt("flags", what, e, nil, in, "it answers %v for the flag %s", constant.BoolVal(r), d.show(i))
						return
					}
				}
			}
			return e
		}, fn, nil)
	}
}

func (d *flagDom) show(i int) string {
	s := []string{"O_RDONLY"}
	if d.mode[i] == d.wr {
		s[0] = "O_WRONLY"
	} else if d.mode[i] == d.rw {
		s[0] = "O_RDWR"
	}
	for _, n := range d.names {
		if d.has(d.vals[i], n) {
			s = append(s, "O_"+n)
		}
	}
	return strings.Join(s, "|")
}

// ---- in-memory buffers ----

// memBuf is a struct whose byte slice grows and is read and written through
// handles.
type memBuffer struct {
	n       *types.Named
	content *types.Var
	handles []*memHandleT
	views   []*types.Named
}

type memHandleT struct {
	n    *types.Named
	buf  *types.Var
	pos  *types.Var
	flag *types.Var
}

func (p *Prog) memBuffers() []*memBuffer {
	by := map[*types.Named]*memBuffer{}
	var out []*memBuffer
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isBytes(deref(fa.Type())) {
					continue
				}
				if a, ok := fa.X.(*ssa.Alloc); ok && a.Parent() == fn {
					continue // made there
				}
				n := namedOf(fa.X.Type())
				if n == nil || !inRepo(n.Obj().Pkg()) || by[n] != nil {
					continue
				}
				st, _ := n.Underlying().(*types.Struct)
				guarded := false
				for i := 0; st != nil && i < st.NumFields(); i++ {
					guarded = guarded || hasMethods(types.NewPointer(st.Field(i).Type()), "Lock", "Unlock")
				}
				if guarded {
					by[n] = &memBuffer{n: n, content: fieldOf(fa.X.Type(), fa.Field)}
					out = append(out, by[n])
				}
			}
		}
	}
	var res []*memBuffer
	for _, m := range out {
		m.users(p)
		if len(m.handles) > 0 {
			res = append(res, m)
		}
	}
	return res
}

func (m *memBuffer) users(p *Prog) {
	sc := m.n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, _ := tn.Type().(*types.Named)
		if n == nil {
			continue
		}
		st, _ := n.Underlying().(*types.Struct)
		h := &memHandleT{n: n}
		for i := 0; st != nil && i < st.NumFields(); i++ {
			f := st.Field(i)
			b, _ := f.Type().Underlying().(*types.Basic)
			switch {
			case ptrTo(f.Type()) != nil && namedOf(ptrTo(f.Type())) == m.n:
				h.buf = f
			case b != nil && b.Kind() == types.Int64:
				h.pos = f
			case b != nil && b.Kind() == types.Int:
				h.flag = f
			}
		}
		if h.buf == nil {
			continue
		}
		switch {
		case hasMethods(types.NewPointer(n), "ReadAt", "WriteAt", "Read", "Write"):
			m.handles = append(m.handles, h)
		case hasMethods(types.NewPointer(n), "Stat"):
			m.views = append(m.views, n)
		}
	}
}

type memRun struct {
	c    *Ck
	m    *memBuffer
	h    *memHandleT
	d    *flagDom
	vals map[string]*Val
	what string

	forms map[string]map[*Val]int // positions written to
	plen  map[*Val]map[*Val]int   // lengths known otherwise, on the path looked at
}

func (r *memRun) id(v *Val) string {
	k := fmt.Sprintf("v%d", v.id)
	r.vals[k] = v
	return k
}

// isContent: v is the address of the bytes of a buffer.
func (r *memRun) isAddr(v *Val) bool { return v.k == KField && v.fld == r.m.content }

// chain: the slices v was made from without losing what its front holds.
func (r *memRun) chain(v *Val) []*Val {
	var out []*Val
	for v != nil {
		v = v.strip()
		out = append(out, v)
		switch {
		case v.k == KSlice && (v.a[1] == nil || isZeroInt(v.a[1])):
			v = v.a[0]
		case isPure(v, "append") && len(v.a) == 2 && isFreshEmptySlice(v.a[0]):
			v = v.a[1]
		case isPure(v, "append"):
			v = v.a[0]
		default:
			return out
		}
	}
	return out
}

func isZeroInt(v *Val) bool { n, ok := v.constInt(); return ok && n == 0 }

// lenForm is the length of a slice as a linear form.
func (r *memRun) lenForm(e *Eng, v *Val) map[*Val]int {
	v = v.strip()
	if g := r.plen[v]; g != nil {
		return g
	}
	switch {
	case v.isNilConst():
		return map[*Val]int{}
	case v.k == KSlice:
		var hi map[*Val]int
		if v.a[2] != nil {
			hi = linForm(v.a[2])
		} else {
			hi = r.lenForm(e, v.a[0])
		}
		if v.a[1] != nil {
			hi = formSub(hi, linForm(v.a[1]), 1)
		}
		return r.norm(e, hi)
	case isPure(v, "append") && len(v.a) == 2:
		return r.norm(e, formSub(r.lenForm(e, v.a[0]), r.lenForm(e, v.a[1]), -1))
	case v.k == KAlloc:
		if n := e.makeLen[v]; n != nil {
			return r.norm(e, linForm(n))
		}
		if a, ok := deref(v.typ).Underlying().(*types.Array); ok {
			return linForm(e.intc(a.Len()))
		}
	case v.k == KConv:
		if _, ok := v.a[0].strip().constStr(); !ok {
			return r.lenForm(e, v.a[0])
		}
	}
	return map[*Val]int{r.lenOf(e, v): 1}
}

func (r *memRun) lenOf(e *Eng, v *Val) *Val {
	return e.u.mk(Val{k: KPure, s: "len", a: []*Val{v}, typ: types.Typ[types.Int]})
}

// norm spells out the lengths a form mentions, and takes what was copied into
// room that was proved big enough as all there was to copy.
func (r *memRun) norm(e *Eng, f map[*Val]int) map[*Val]int {
	for i := 0; i < 8; i++ {
		done := true
		for t, n := range f {
			var g map[*Val]int
			if t == nil {
				continue
			}
			if isPure(t, "len") && len(t.a) == 1 {
				g = r.lenForm(e, t.a[0])
				if len(g) == 1 && g[t] == 1 {
					continue
				}
				same := false
				for x := range g {
					same = same || x == t
				}
				if same {
					continue
				}
			} else if x := r.vals["all:"+r.id(t)]; x != nil {
				g = r.lenForm(e, x)
			}
			if g == nil {
				continue
			}
			h := map[*Val]int{}
			for k, m := range f {
				if k != t {
					h[k] = m
				}
			}
			f, done = formSub(h, g, -n), false
			break
		}
		if done {
			break
		}
	}
	return f
}

func formSum(f map[*Val]int, g map[*Val]int) map[*Val]int { return formSub(f, g, -1) }

// nonNeg: the form cannot be negative, by what the path found out.
func (r *memRun) nonNeg(e *Eng, st *State, f map[*Val]int) bool {
	f = r.norm(e, f)
	pos := func(f map[*Val]int) bool {
		for t, n := range f {
			if n < 0 {
				return false
			}
			if t != nil && !isPure(t, "len", "cap") && !(t.k == KRes && t.a[0].k == KCall && t.a[0].s == "copy") {
				return false
			}
		}
		return true
	}
	if pos(f) {
		return true
	}
	var facts []map[*Val]int
	add := func(a, b *Val, k int) { // a - b + k >= 0
		g := formSub(linForm(a), linForm(b), 1)
		if g[nil] += k; g[nil] == 0 {
			delete(g, nil)
		}
		facts = append(facts, r.norm(e, g))
	}
	r.each(st, "f:", func(k, truth string) {
		v, t := r.vals[k], int8(FFalse)
		if truth == "1" {
			t = FTrue
		}
		switch {
		case v.s == "<" && t == FTrue:
			add(v.a[1], v.a[0], -1)
		case v.s == "<" && t == FFalse:
			add(v.a[0], v.a[1], 0)
		case v.s == "==" && t == FFalse:
			// what was copied is at most what there was room for
			for i := 0; i < 2; i++ {
				n, l := unconv(v.a[i].strip()), v.a[1-i]
				for _, w := range []string{"dst:", "src:"} {
					if x := r.vals[w+r.id(n)]; x != nil && sameForm(r.lenForm(e, x), r.norm(e, linForm(l))) {
						add(l, n, -1)
					}
				}
			}
		case v.s == "==" && t == FTrue:
			add(v.a[0], v.a[1], 0)
			add(v.a[1], v.a[0], 0)
		}
	})
	for i, g := range facts {
		d := formSub(f, g, 1)
		if pos(d) {
			return true
		}
		for _, h := range facts[i:] {
			if pos(formSub(d, h, 1)) {
				return true
			}
		}
	}
	return false
}

// fact keeps what a branch says about numbers.
func (r *memRun) fact(st *State, cond *Val, truth bool) {
	for cond.k == KNot {
		cond, truth = cond.a[0], !truth
	}
	if cond.k == KBin && len(cond.a) == 2 && (cond.s == "<" || cond.s == "==") && isIntType(cond.a[0].typ) && !cond.contains(func(v *Val) bool { return v.k == KPhi }) {
		st.T["f:"+r.id(cond)] = "0"
		if truth {
			st.T["f:"+r.id(cond)] = "1"
		}
	}
}

func sameForm(a, b map[*Val]int) bool { return len(formSub(a, b, 1)) == 0 }

// zeroes: every byte of v was never written.
func zeroes(v *Val) bool {
	v = v.strip()
	if v.k == KSlice {
		return zeroes(v.a[0])
	}
	return v.k == KAlloc && v.site != nil && isMakeSlice(v)
}

func isMakeSlice(v *Val) bool {
	_, ok := v.site.val.(*ssa.MakeSlice)
	return ok
}

func (r *memRun) isFlag(v *Val) bool {
	if r.h == nil || r.h.flag == nil {
		return false
	}
	v = v.strip()
	if v.k == KLoad && v.a[0].k == KField && v.a[0].fld == r.h.flag {
		n, ok := isParam(v.a[0].a[0])
		return ok && n == 0
	}
	return v.k == KFieldVal && v.fld == r.h.flag
}

// cur is the bytes of the one buffer at this point.
func (r *memRun) cur(e *Eng, st *State) *Val {
	var a *Val
	r.each(st, "buf:", func(k, v string) { a = r.vals[v] })
	if a == nil {
		return nil
	}
	return e.load(st, a, r.m.content.Type()).strip()
}

func (r *memRun) each(st *State, pre string, f func(k, v string)) {
	var ks []string
	for k := range st.T {
		if strings.HasPrefix(k, pre) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		f(k[len(pre):], st.T[k])
	}
}

func (r *memRun) note(st *State, addr *Val) { st.T["buf:"] = r.id(addr) }

func (r *memRun) engine(fn *ssa.Function) *Eng {
	c := r.c
	e := newEng(c.P)
	bad := func(rule string, fr *Frame, in ssa.Instruction, f string, a ...any) {
		c.BadAt(rule, r.what, e, fr, in, f, a...)
	}
	e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
		// a lock taken: what is read after it may be new. What is read under it
		// stays what it is.
		if isSyncOp(ci) && ci.Recv != nil {
			a := ci.Recv
			for a.k == KField && namedOf(a.typ) != nil && inRepo(namedOf(a.typ).Obj().Pkg()) == false {
				a = a.a[0]
			}
			if n := ci.Name(); n == "Lock" || n == "RLock" {
				s := e.u.site(ci.fr.ctx, ci.Instr).id
				for k := range st.heap {
					if k.k == KField && k.a[0] == a {
						delete(st.heap, k)
					}
				}
				if root(a) == a && a.k != KAlloc {
					st.ep[a] = s
				}
			}
			return []CallOut{{st, e.u.mk(Val{k: KTuple})}}, true
		}
		if ci.Builtin == "copy" || ci.Builtin == "clear" {
			r.bytes(e, st, ci)
		}
		return nil, false
	}
	e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
		if ci.Builtin == "copy" && len(ci.Args) == 2 {
			r.copied(e, st, ci, res)
		}
	}
	e.OnLoad = func(e *Eng, fr *Frame, st *State, addr *Val, in ssa.Instruction) {
		if r.isAddr(addr) {
			r.note(st, addr)
		}
	}
	e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
		if addr.k == KIndex {
			for _, x := range r.chain(sliceBase(addr.a[0])) {
				if x.k == KLoad && r.isAddr(x.a[0]) {
					bad("content", fr, in, "a byte of the content is set by itself")
				}
			}
		}
		if !r.isAddr(addr) || root(addr).k == KAlloc {
			return
		}
		r.note(st, addr)
		c.Did("content", r.what+": replaces the content")
		st.T["set"] = "1"
		r.stored(e, fr, st, addr, v.strip(), in)
	}
	e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
		r.d.narrow(st, cond, truth, r.isFlag)
		r.fact(st, cond, truth)
	}
	return e
}

// stored: the content becomes v, which must be what it was, made longer by
// zeros or cut for good.
func (r *memRun) stored(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
	c := r.c
	bad := func(f string, a ...any) { c.BadAt("content", r.what, e, fr, in, f, a...) }
	old := e.load(st, addr, r.m.content.Type()).strip()
	var walk func(x *Val)
	walk = func(x *Val) {
		x = x.strip()
		switch {
		case x == old:
		case x.k == KSlice:
			if x.a[1] != nil && !isZeroInt(x.a[1]) {
				bad("the content loses its front")
			}
			if x.a[2] != nil {
				more := r.nonNeg(e, st, formSub(linForm(x.a[2]), r.lenForm(e, x.a[0]), 1))
				clip := x.a[3] != nil && sameForm(linForm(x.a[3]), linForm(x.a[2]))
				from := r.vals[st.T["cleared:"+r.id(sliceBase(x.a[0]).strip())]]
				if !more && !clip && !(from != nil && sameForm(linForm(from), linForm(x.a[2]))) {
					bad("the content may be cut without its old end being dropped: it comes back when the content grows again")
				}
			}
			walk(x.a[0])
		case isPure(x, "append") && len(x.a) == 2:
			if isFreshEmptySlice(x.a[0]) { // moved to memory of its own
				walk(x.a[1])
				return
			}
			if !zeroes(x.a[1]) {
				if n := unconv(sliceBase(x.a[1]).strip()); n.k == KParam {
					r.put(e, st, x.a[1].strip(), r.lenForm(e, x.a[0]), x)
				} else {
					bad("the content is made longer by %s", x.a[1])
				}
			}
			walk(x.a[0])
		case isPure(x, "slices.Grow", "slices.Clip", "slices.Clone", "bytes.Clone"):
			walk(x.a[0])
		case x.k == KAlloc && st.T["whole:"+r.id(x)] == r.id(old):
		case x.k == KAlloc && len(r.lenForm(e, x)) == 0, x.isNilConst():
			if st.T["clears"] == "" {
				// an empty content: only a truncation to nothing does that, which
				// the rule on sizes decides
				st.T["empty"] = "1"
			}
		default:
			bad("the content is replaced by %s, which is not the old one", x)
		}
	}
	walk(v)
}

func isFreshEmptySlice(v *Val) bool {
	v = v.strip()
	return v.isNilConst() || v.k == KZero
}

// bytes: a builtin that changes bytes is about to run.
func (r *memRun) bytes(e *Eng, st *State, ci *CallInfo) {
	if ci.Builtin == "clear" {
		x := ci.Args[0].strip()
		if x.k == KSlice && x.a[2] == nil && x.a[1] != nil {
			st.T["cleared:"+r.id(sliceBase(x).strip())] = r.id(x.a[1])
		}
	}
}

// copied: bytes went into the content, or out of it.
func (r *memRun) copied(e *Eng, st *State, ci *CallInfo, res *Val) {
	c := r.c
	bad := func(rule, f string, a ...any) { c.BadAt(rule, r.what, e, ci.fr, ci.Instr, f, a...) }
	dst, src := ci.Args[0].strip(), ci.Args[1].strip()
	r.vals["dst:"+r.id(res)], r.vals["src:"+r.id(res)] = dst, src
	cur := r.cur(e, st)
	lo := func(x *Val) (map[*Val]int, *Val) {
		f := map[*Val]int{}
		for x.k == KSlice {
			if x.a[1] != nil {
				f = formSum(f, linForm(x.a[1]))
			}
			x = x.a[0].strip()
			if x == cur {
				break
			}
		}
		return f, x
	}
	ofBuf := func(x *Val) bool {
		for _, y := range r.chain(x) {
			if y == cur || y.k == KLoad && r.isAddr(y.a[0]) {
				return true
			}
		}
		return false
	}
	df, db := lo(dst)
	sf, sb := lo(src)
	switch {
	case ofBuf(sb) && isMake(db):
		// the old bytes into new memory
		if len(df) == 0 && len(sf) == 0 && r.nonNeg(e, st, formSub(r.lenForm(e, db), r.lenForm(e, src), 1)) {
			st.T["whole:"+r.id(db)] = r.id(sb)
		}
	case ofBuf(sb) && sb.k != KParam:
		if sb != cur {
			bad("content", "what is read is not the content as it is")
			return
		}
		if _, ok := isParam(unconv(db)); !ok || len(df) != 0 {
			bad("content", "bytes of the content are moved to %s", dst)
			return
		}
		if st.T["got"] != "" {
			bad("read", "bytes are read twice")
		}
		st.T["got"] = r.id(e.u.mk(Val{k: KTuple, a: []*Val{res, src, dst}}))
		if dst.k == KSlice || dst != db {
			st.T["part"] = "1"
		}
	case ofBuf(db) || isMake(db):
		if !ofBuf(db) && !ofBuf(sb) && !isParamVal(sb) && !(sb.k == KConv && isParamVal(sb.a[0])) {
			return
		}
		if ofBuf(db) && db != cur && !isMake(db) {
			for _, y := range r.chain(cur) {
				if y == db {
					bad("content", "bytes are written to what the content was before")
				}
			}
		}
		if !r.nonNeg(e, st, formSub(r.lenForm(e, dst), r.lenForm(e, src), 1)) {
			bad("write", "the content may be too short for what is written into it")
			return
		}
		r.vals["all:"+r.id(res)] = src
		r.put(e, st, src, df, db)
	}
}

func isMake(v *Val) bool { return v.k == KAlloc && v.site != nil && isMakeSlice(v) }

func (r *memRun) put(e *Eng, st *State, src *Val, at map[*Val]int, into *Val) {
	st.T["put"] = plus(st.T["put"], 1)
	k := fmt.Sprintf("at%d", len(r.vals))
	for x, f := range r.forms {
		if sameForm(f, at) {
			k = x
		}
	}
	if r.forms == nil {
		r.forms = map[string]map[*Val]int{}
	}
	r.forms[k] = at
	st.T["put:at"], st.T["put:src"], st.T["put:into"] = k, r.id(src), r.id(into)
}

func checkMem(c *Ck) {
	c.Ladder = []int{40, 8, 3}
	c.Rule("flags", "what a flag is said to allow is what it allows, for every combination", 48)
	c.Rule("content", "what the content becomes is what it was, longer by zeros or cut for good", 2)
	c.Rule("write", "a write that succeeds has put all it was given at the position asked for, at the end found under the same lock if appending, and moved nothing else", 3)
	c.Rule("read", "a read hands out the bytes at the position asked for and reports an end only there", 2)
	c.Rule("truncate", "a truncation that succeeds leaves exactly the size asked for", 1)
	c.Rule("allowed", "a handle reads and writes only if it was opened for that", 4)
	c.Rule("size", "the size reported is that of the content", 1)
	c.Rule("seek", "a seek goes where it was asked to or fails where it was", 2)
	c.Rule("open", "opening creates, refuses and truncates as the flags say", 2)
	d := c.P.flagDomain()
	if d == nil {
		return
	}
	d.checkFlagTables(c)
	for _, m := range c.P.memBuffers() {
		for _, h := range m.handles {
			for _, n := range []string{"Read", "ReadAt", "Write", "WriteAt", "WriteString", "Truncate", "Stat", "Chmod", "Chown", "Sync", "Close", "Seek"} {
				if fn := c.P.Method(h.n, n); fn != nil {
					runMem(c, d, m, h, fn, n)
				}
			}
		}
		for _, v := range m.views {
			if fn := c.P.Method(v, "Stat"); fn != nil {
				runMem(c, d, m, nil, fn, "Stat")
			}
			if fn := c.P.Method(v, "Open"); fn != nil {
				memOpen(c, m, fn)
			}
		}
	}
	checkSeeks(c)
	checkOpens(c, d)
}

func runMem(c *Ck, d *flagDom, m *memBuffer, h *memHandleT, fn *ssa.Function, name string) {
	c.RunEntry(func() *Eng {
		r := &memRun{c: c, m: m, h: h, d: d, vals: map[string]*Val{}, what: fnName(fn)}
		e := r.engine(fn)
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) { r.atReturn(e, st, res, in, fn, name) }
		return e
	}, fn, nil)
}

func (r *memRun) atReturn(e *Eng, st *State, res []*Val, in ssa.Instruction, fn *ssa.Function, name string) {
	c, d, what := r.c, r.d, r.what
	bad := func(rule, f string, a ...any) { c.BadAt(rule, what, e, nil, in, f, a...) }
	var err *Val
	if n := len(res); n > 0 && isErrorType(fn.Signature.Results().At(n-1).Type()) {
		err = res[n-1]
	}
	ok := err != nil && e.nilness(st, err) == FNil
	mayOK := err != nil && e.nilness(st, err) != FNonNil
	changed := st.T["set"] != "" || st.T["put"] != ""
	cur := r.cur(e, st)
	isWrite := name == "Write" || name == "WriteAt" || name == "WriteString"
	isRead := name == "Read" || name == "ReadAt"
	var posAddr *Val
	if r.h != nil && r.h.pos != nil {
		posAddr = e.u.mk(Val{k: KField, a: []*Val{e.Params[0]}, fld: r.h.pos, typ: types.NewPointer(r.h.pos.Type())})
	}
	switch {
	case isWrite:
		c.Did("write", what)
		c.Did("allowed", what)
		if !mayOK || !ok && changed && !mayOK {
			if changed {
				bad("write", "a write that fails changes the content")
			}
			off := map[*Val]int{}
			if name == "WriteAt" {
				off = linForm(e.Params[2])
			} else if posAddr != nil {
				off = linForm(e.load(st, posAddr, r.h.pos.Type()))
			}
			if !r.mustFail(e, st, off, formSum(off, r.lenForm(e, e.Params[1]))) && d.some(st.T["flags"], func(v, m int64) bool {
				return d.writable(m) && (name != "WriteAt" || !d.has(v, "APPEND"))
			}) {
				bad("write", "a write is refused although the handle may be open for writing and the offset be valid")
			}
			return
		}
		set := st.T["flags"]
		if d.some(set, func(v, m int64) bool { return !d.writable(m) }) {
			bad("allowed", "a write succeeds on a handle that may not be open for writing")
		}
		if name == "WriteAt" && d.some(set, func(v, m int64) bool { return d.has(v, "APPEND") }) {
			bad("allowed", "a write at an offset succeeds on a handle that may be appending")
		}
		p := e.Params[1]
		plen := r.lenForm(e, p)
		none := r.nonNeg(e, st, formSub(map[*Val]int{}, plen, 1)) // len(p) <= 0
		if st.T["put"] == "" {
			if !none {
				bad("write", "a write succeeds that wrote nothing")
			}
			if st.T["set"] != "" {
				bad("write", "a write of nothing changes the content")
			}
			if !none {
				return
			}
			if f := r.norm(e, linForm(res[0])); len(f) != 0 && !sameForm(f, plen) {
				bad("write", "a write of nothing reports %s bytes", res[0])
			}
			return
		}
		drop := func(f map[*Val]int) map[*Val]int {
			if none { // what is written is known to be empty
				for t := range plen {
					if t != nil && f[t] != 0 {
						f = formSub(f, map[*Val]int{t: f[t]}, 1)
					}
				}
			}
			return f
		}
		if st.T["put"] != "1" {
			bad("write", "bytes are written more than once")
			return
		}
		at := r.forms[st.T["put:at"]]
		src := unconv(r.vals[st.T["put:src"]].strip())
		if src != unconv(p) {
			bad("write", "what is written is not what was given: %s", src)
		}
		into := r.vals[st.T["put:into"]]
		base := cur
		found := false
		for _, x := range r.chain(cur) {
			found = found || x == into
			base = x
		}
		if w := r.vals[st.T["whole:"+r.id(base)]]; w != nil {
			base = w
			for _, x := range r.chain(w) {
				base = x
			}
		}
		if !found {
			bad("write", "what was written is not in the content afterwards")
		}
		if !(base.k == KLoad && r.isAddr(base.a[0])) {
			bad("write", "the content after a write is not made from the one before")
			return
		}
		initial := map[*Val]int{r.lenOf(e, base): 1}
		var off map[*Val]int
		app := false
		if name == "WriteAt" {
			off = linForm(e.Params[2])
		} else {
			if d.some(set, func(v, m int64) bool { return d.has(v, "APPEND") }) {
				app = true
				if d.some(set, func(v, m int64) bool { return d.writable(m) && !d.has(v, "APPEND") }) {
					bad("write", "it does not depend on O_APPEND where the bytes go")
					return
				}
			}
			off = r.posForm(at)
		}
		if app {
			if !sameForm(r.norm(e, at), initial) {
				bad("write", "an appending write does not go to the end of the content as it was found under the same lock")
			}
		} else if off == nil || !sameForm(at, off) {
			bad("write", "the bytes go to %s, not where the write was asked to put them", formKey(at))
		}
		if none {
			at = r.norm(e, at)
		}
		end := drop(r.norm(e, formSum(at, plen)))
		fin := drop(r.lenForm(e, cur))
		switch {
		case sameForm(fin, initial): // room was proved at the copy
		case sameForm(fin, end) && r.nonNeg(e, st, formSub(end, initial, 1)):
		default:
			bad("write", "the content is %s bytes long after a write", formKey(fin))
		}
		if f := r.norm(e, linForm(res[0])); !sameForm(drop(f), drop(plen)) {
			bad("write", "a write of all bytes reports %s", formKey(f))
		}
		if posAddr != nil && name != "WriteAt" {
			if f := drop(r.norm(e, linForm(e.load(st, posAddr, r.h.pos.Type())))); !sameForm(f, end) {
				bad("write", "the position after a write is %s, not the end of what was written", formKey(f))
			}
		}
	case isRead:
		c.Did("read", what)
		c.Did("allowed", what)
		if changed {
			bad("read", "a read changes the content")
		}
		set := st.T["flags"]
		p := e.Params[1]
		plen := r.lenForm(e, p)
		off := func(f map[*Val]int) bool {
			if name == "ReadAt" {
				return sameForm(f, linForm(e.Params[2]))
			}
			return r.posForm(f) != nil
		}
		if got := r.vals[st.T["got"]]; got != nil {
			if d.some(set, func(v, m int64) bool { return !d.readable(m) }) {
				bad("allowed", "a read hands out bytes on a handle that may not be open for reading")
			}
			n, src := got.a[0], got.a[1]
			lo := map[*Val]int{}
			x := src
			for x.k == KSlice {
				if x.a[1] != nil {
					lo = formSum(lo, linForm(x.a[1]))
				}
				x = x.a[0].strip()
			}
			if !off(lo) {
				bad("read", "the bytes come from %s, not from where the read was asked to take them", formKey(lo))
				return
			}
			left := r.lenForm(e, src)
			all := r.lenForm(e, x)
			full := sameForm(r.norm(e, formSum(lo, left)), all)
			fits := r.nonNeg(e, st, formSub(left, plen, 1)) || r.nonNeg(e, st, formSub(map[*Val]int{n: 1}, plen, 1))
			short := r.nonNeg(e, st, formSub(formSub(plen, map[*Val]int{n: 1}, 1), map[*Val]int{nil: 1}, 1)) ||
				r.nonNeg(e, st, formSub(plen, left, 1))
			if st.T["part"] != "" || !full && !fits {
				bad("read", "a read may leave out bytes that are there")
			}
			if res[0].strip() != n {
				f := r.norm(e, linForm(res[0]))
				if !sameForm(f, linForm(n)) && !(fits && sameForm(f, plen)) {
					bad("read", "a read reports %s, not the bytes it copied", res[0])
				}
			}
			switch {
			case isEOF(err):
				if !short {
					bad("read", "a read reports the end of the file although it may have filled the buffer")
				}
			case mayOK:
				if name == "ReadAt" && !fits {
					bad("read", "a ReadAt succeeds that may have been short")
				}
			}
			if posAddr != nil && name == "Read" {
				f := formSub(linForm(e.load(st, posAddr, r.h.pos.Type())), lo, 1)
				if !sameForm(f, linForm(n)) {
					bad("read", "the position after a read is not the end of what was read")
				}
			}
			return
		}
		none := r.nonNeg(e, st, formSub(map[*Val]int{}, plen, 1))
		past := false // the position is known not to be before the end
		var offv map[*Val]int
		if name == "ReadAt" {
			offv = linForm(e.Params[2])
		} else if posAddr != nil {
			offv = linForm(e.load(st, posAddr, r.h.pos.Type()))
		}
		if cur != nil {
			past = r.nonNeg(e, st, formSub(offv, r.lenForm(e, cur), 1))
		}
		neg := r.nonNeg(e, st, formSub(map[*Val]int{nil: -1}, offv, 1))
		if !isZeroInt(res[0]) && len(r.norm(e, linForm(res[0]))) != 0 {
			bad("read", "a read that copied nothing reports %s bytes", res[0])
		}
		switch {
		case isEOF(err):
			if !past {
				bad("read", "a read reports the end of the file although the position may be before it")
			}
		case mayOK:
			if !none {
				bad("read", "a read succeeds that copied nothing")
			}
		default:
			if !neg && d.some(set, func(v, m int64) bool { return d.readable(m) }) {
				bad("read", "a read is refused although the handle may be open for reading and the offset be valid")
			}
		}
	case name == "Truncate":
		c.Did("truncate", what)
		c.Did("allowed", what)
		if !mayOK {
			if changed {
				bad("truncate", "a truncation that fails changes the content")
			}
			size := linForm(e.Params[1])
			if !r.mustFail(e, st, size, size) && d.some(st.T["flags"], func(v, m int64) bool { return d.writable(m) }) {
				bad("truncate", "a truncation is refused although the handle may be open for writing and the size be valid")
			}
			return
		}
		if d.some(st.T["flags"], func(v, m int64) bool { return !d.writable(m) }) {
			bad("allowed", "a truncation succeeds on a handle that may not be open for writing")
		}
		size := linForm(e.Params[1])
		if cur == nil || !sameForm(r.lenForm(e, cur), size) {
			same := cur != nil && r.nonNeg(e, st, formSub(r.lenForm(e, cur), size, 1)) && r.nonNeg(e, st, formSub(size, r.lenForm(e, cur), 1))
			if !same {
				bad("truncate", "the content may not have the size asked for after a truncation")
			}
		}
		if st.T["put"] != "" {
			bad("truncate", "a truncation writes bytes")
		}
	case name == "Stat":
		if !mayOK {
			return
		}
		c.Did("size", what)
		v := res[0].strip()
		f := sizeField(c.P, v)
		if f == nil {
			bad("size", "what Stat reports as the size is not found in %s", v)
			return
		}
		got := e.fieldVal(st, v, f, f.Type())
		if v.k == KAlloc {
			a := e.u.mk(Val{k: KField, a: []*Val{v}, fld: f, typ: types.NewPointer(f.Type())})
			got = e.load(st, a, f.Type())
		}
		if cur == nil || !sameForm(r.norm(e, linForm(got)), r.lenForm(e, cur)) {
			bad("size", "the size reported is %s, not that of the content", got)
		}
	default:
		if changed {
			bad("content", "%s changes the content", name)
		}
	}
}

// mustFail: off is known to be negative, or end not to be zero and so, as far
// as it was compared at all, to be too large.
func (r *memRun) mustFail(e *Eng, st *State, off, end map[*Val]int) bool {
	one := map[*Val]int{nil: 1}
	return r.nonNeg(e, st, formSub(formSub(map[*Val]int{}, off, 1), one, 1)) || r.large(e, st, end)
}

// large: the path found f to be past a constant.
func (r *memRun) large(e *Eng, st *State, f map[*Val]int) bool {
	g := map[*Val]int{}
	for t, n := range f {
		g[t] = n
	}
	if g[nil]--; g[nil] == 0 {
		delete(g, nil)
	}
	return r.nonNeg(e, st, g)
}

// posForm: f is the position of the handle as it was found.
func (r *memRun) posForm(f map[*Val]int) map[*Val]int {
	if len(f) != 1 || r.h == nil || r.h.pos == nil {
		return nil
	}
	for t, n := range f {
		if t != nil && n == 1 && t.k == KLoad && t.a[0].k == KField && t.a[0].fld == r.h.pos {
			if i, ok := isParam(t.a[0].a[0]); ok && i == 0 {
				return f
			}
		}
	}
	return nil
}

// sizeField: the field the Size method of what v holds returns.
func sizeField(p *Prog, v *Val) *types.Var {
	n := namedOf(v.typ)
	if n == nil {
		return nil
	}
	fn := p.Method(n, "Size")
	if fn == nil || len(fn.Blocks) != 1 {
		return nil
	}
	ret, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return nil
	}
	x := ret.Results[0]
	if cv, ok := x.(*ssa.Convert); ok {
		x = cv.X
	}
	switch x := x.(type) {
	case *ssa.Field:
		return fieldOf(x.X.Type(), x.Field)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fieldOf(fa.X.Type(), fa.Field)
		}
	}
	return nil
}

// memOpen: a view hands out handles on its own buffer, with the flag given.
func memOpen(c *Ck, m *memBuffer, fn *ssa.Function) {
	what := fnName(fn)
	if fn.Signature.Params().Len() != 1 || !isIntType(fn.Signature.Params().At(0).Type()) {
		return
	}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if e.nilness(st, res[len(res)-1]) == FNonNil {
				return
			}
			c.Did("open", what)
			v := res[0].strip()
			for _, h := range m.handles {
				if v.k != KAlloc || namedOf(v.typ) != h.n {
					continue
				}
				get := func(f *types.Var) *Val {
					return e.load(st, e.u.mk(Val{k: KField, a: []*Val{v}, fld: f, typ: types.NewPointer(f.Type())}), f.Type()).strip()
				}
				if h.flag != nil && get(h.flag) != e.Params[1] {
					c.BadAt("open", what, e, nil, in, "a handle does not have the flag it was opened with")
				}
				if b := get(h.buf); b.k != KLoad || b.a[0].k != KField || b.a[0].a[0] != e.Params[0] {
					c.BadAt("open", what, e, nil, in, "a handle is not on the buffer of its view")
				}
				if h.pos != nil && !isZeroInt(get(h.pos)) && get(h.pos).k != KZero {
					c.BadAt("open", what, e, nil, in, "a handle does not start at the beginning")
				}
			}
		}
		return e
	}, fn, nil)
}

// ---- seeks ----

// checkSeeks: every Seek that keeps its own position.
func checkSeeks(c *Ck) {
	for _, fn := range c.P.Funcs {
		s := fn.Signature
		if fn.Name() != "Seek" || s.Recv() == nil || s.Params().Len() != 2 || s.Results().Len() != 2 || fn.Blocks == nil {
			continue
		}
		if !isIntType(s.Params().At(0).Type()) || !isIntType(s.Params().At(1).Type()) || !isErrorType(s.Results().At(1).Type()) {
			continue
		}
		if fn.Pkg == nil || fn.Synthetic != "" {
			continue
		}
		checkSeek(c, fn)
	}
}

func checkSeek(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	c.RunEntry(func() *Eng {
		r := &memRun{c: c, vals: map[string]*Val{}, what: what}
		e := newEng(c.P)
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if isSyncOp(ci) {
				// nobody moves this position but under the lock this call holds
				return []CallOut{{st, e.u.mk(Val{k: KTuple})}}, true
			}
			return nil, false
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			if fr.fn == fn || !hasLoop(fr.fn) {
				r.fact(st, cond, truth)
			}
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if ci.Name() == "Seek" && !inlined && len(ci.Args) >= 2 {
				a := ci.Args[len(ci.Args)-2:]
				st.T["inner"] = r.id(res)
				if a[0].strip() != e.Params[1] || a[1].strip() != e.Params[2] {
					st.T["other"] = "1"
				}
			}
		}
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			if addr.k != KField || !isIntType(deref(addr.typ)) {
				return
			}
			if n, ok := isParam(addr.a[0]); !ok || n != 0 {
				return
			}
			if b, ok := addr.fld.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
				st.T["pos"] = r.id(addr)
			} else if ok && b.Kind() == types.Int {
				st.T["cursor"] = r.id(addr)
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			bad := func(f string, a ...any) { c.BadAt("seek", what, e, nil, in, f, a...) }
			w := -1
			r.each(st, "f:", func(k, t string) {
				if v := r.vals[k]; v.s == "==" && t == "1" {
					for i := 0; i < 2; i++ {
						if k, ok := v.a[i].constInt(); ok && v.a[1-i].strip() == e.Params[2] {
							w = int(k)
						}
					}
				}
			})
			off := linForm(e.Params[1])
			failed := e.nilness(st, res[1]) == FNonNil
			if in := r.vals[st.T["inner"]]; in != nil {
				c.Did("seek", what)
				if st.T["other"] != "" && st.T["pos"] == "" {
					bad("the seek passed on is not the one asked for")
				}
				if x := res[0].strip(); !failed && !(x.k == KRes && x.a[0] == in.strip() || x.k == KRes && in.k == KRes && x.a[0] == in.a[0] || x == in) && x.k != KPhi {
					if in.k != KTuple || len(in.a) == 0 || in.a[0].strip() != x {
						bad("the position reported is not that of what was moved")
					}
				}
				return
			}
			pos := r.vals[st.T["pos"]]
			if pos == nil {
				if cu := r.vals[st.T["cursor"]]; cu != nil && w == 0 && !failed {
					c.Did("seek", what)
					if !isZeroInt(e.load(st, cu, types.Typ[types.Int])) {
						bad("a seek to the start leaves the listing elsewhere")
					}
				}
				if !failed && seekOwn(fn) != nil && !keepsListing(fn) {
					bad("a seek succeeds that went nowhere")
				}
				return
			}
			c.Did("seek", what)
			if failed {
				bad("a seek that fails moves the position")
				return
			}
			now := linForm(e.load(st, pos, types.Typ[types.Int64]))
			if keepsListing(fn) {
				// A position in a listing means nothing to the caller but at its start.
				if w == 0 && len(now) != 0 {
					bad("a seek to the start leaves the listing elsewhere")
				}
				return
			}
			if !sameForm(linForm(res[0]), now) {
				bad("the position reported is not the one the seek went to")
			}
			if !r.nonNeg(e, st, now) {
				bad("the position may be negative")
			}
			d := formSub(now, off, 1)
			switch w {
			case 0:
				if len(d) != 0 {
					bad("a seek from the start goes to %s", formKey(now))
				}
			case 1:
				if len(d) != 1 || !oneLoad(d, pos) {
					bad("a seek from the position goes to %s", formKey(now))
				}
			case 2:
				if len(d) != 1 || oneLoad(d, pos) {
					bad("a seek from the end goes to %s", formKey(now))
				}
				for t, n := range d {
					if t == nil || n != 1 {
						bad("a seek from the end goes to %s", formKey(now))
					}
				}
			default:
				bad("a seek succeeds although where it starts from is unknown")
			}
		}
		return e
	}, fn, nil)
}

// keepsListing: the receiver keeps the entries of a directory.
func keepsListing(fn *ssa.Function) bool {
	s := structOf(deref(fn.Signature.Recv().Type()))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if l, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && hasMethods(l.Elem(), "IsDir", "Name") {
			return true
		}
	}
	return false
}

// seekOwn: the position a Seek keeps itself.
func seekOwn(fn *ssa.Function) *types.Var {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					f := fieldOf(fa.X.Type(), fa.Field)
					if bt, ok := f.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Int64 {
						return f
					}
				}
			}
		}
	}
	return nil
}

func oneLoad(d map[*Val]int, pos *Val) bool {
	for t, n := range d {
		if t != nil && n == 1 && t.k == KLoad && t.a[0] == pos {
			return true
		}
	}
	return false
}

// ---- opens ----

// checkOpens: what opening a name in an in-memory tree does under each flag,
// and which flags the shorthands stand for.
func checkOpens(c *Ck, d *flagDom) {
	for _, t := range c.P.memTrees() {
		for _, fn := range c.P.Funcs {
			if pkgRelFn(fn) != t.pkg || fn.Signature.Recv() == nil || fn.Name() != "OpenFile" || fn.Object() == nil {
				continue
			}
			checkOpen(c, d, t, fn)
		}
	}
	want := map[string]int64{
		"Create": d.rw | d.bit["CREATE"] | d.bit["TRUNC"], "Open": 0, "WriteFile": d.wr | d.bit["CREATE"] | d.bit["TRUNC"],
	}
	for _, fn := range c.P.Funcs {
		w, ok := want[fn.Name()]
		if !ok || fn.Object() == nil || fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				name := ""
				args := com.Args
				if com.IsInvoke() {
					name = com.Method.Name()
				} else if f := com.StaticCallee(); f != nil {
					name = f.Name()
					if f.Signature.Recv() != nil {
						args = args[1:]
					}
				}
				if name != "OpenFile" || len(args) != 3 {
					continue
				}
				k, ok := args[1].(*ssa.Const)
				if !ok {
					continue
				}
				c.Did("open", fnName(fn))
				v := k.Int64()
				if fn.Name() == "WriteFile" && v&^d.wr&^d.rw == w&^d.wr && v&(d.wr|d.rw) != 0 {
					continue
				}
				if v != w {
					c.Bad("open", fnName(fn), in.Pos(), "%s opens with the flag %#x instead of %#x", fn.Name(), v, w)
				}
			}
		}
	}
}

func checkOpen(c *Ck, d *flagDom, t *memTree, fn *ssa.Function) {
	what := fnName(fn)
	fi := -1
	for i, p := range fn.Params {
		if b, ok := p.Type().(*types.Basic); ok && b.Kind() == types.Int {
			fi = i
		}
	}
	if fi < 0 {
		return
	}
	isFlag := func(v *Val) bool { n, ok := isParam(v); return ok && n == fi }
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		vals := map[string]*Val{}
		id := func(v *Val) string { k := fmt.Sprintf("v%d", v.id); vals[k] = v; return k }
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			d.narrow(st, cond, truth, isFlag)
			if tr := vals[st.T["trunc"]]; tr != nil && e.nilness(st, tr) == FNil {
				st.T["emptied"] = "1"
			}
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined || ci.Recv == nil {
				return
			}
			switch {
			case ci.Name() == "Truncate" && len(ci.Args) == 1:
				c.Did("open", what+": truncates")
				if !isZeroInt(ci.Args[0]) {
					c.BadAt("open", what, e, ci.fr, ci.Instr, "opening truncates to %s", ci.Args[0])
				}
				if d.some(st.T["flags"], func(v, m int64) bool { return !d.has(v, "TRUNC") || !d.writable(m) }) {
					c.BadAt("open", what, e, ci.fr, ci.Instr, "a file is emptied although the flag may not ask for it")
				}
				st.T["trunc"] = id(res)
			case ci.Name() == "Open" && len(ci.Args) == 1 && isIntType(ci.Args[0].typ):
				c.Did("open", what+": opens a view")
				if !isFlag(ci.Args[0].strip()) {
					c.BadAt("open", what, e, ci.fr, ci.Instr, "a view is opened with %s, not the flag given", ci.Args[0])
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			bad := func(f string, a ...any) { c.BadAt("open", what, e, nil, in, f, a...) }
			if len(res) != 2 || e.nilness(st, res[1]) == FNonNil {
				return
			}
			h := res[0].strip()
			s, _ := deref(h.typ).Underlying().(*types.Struct)
			if h.k != KAlloc || s == nil {
				return
			}
			set := st.T["flags"]
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				get := func() *Val {
					return e.load(st, e.u.mk(Val{k: KField, a: []*Val{h}, fld: f, typ: types.NewPointer(f.Type())}), f.Type()).strip()
				}
				if b, ok := f.Type().(*types.Basic); ok && b.Kind() == types.Int && strings.Contains(strings.ToLower(f.Name()), "flag") {
					if !isFlag(get()) {
						bad("a handle does not have the flag it was opened with")
					}
				}
				x := ptrTo(f.Type())
				if x == nil || namedOf(x) != t.dir && namedOf(x) != t.file {
					continue
				}
				c.Did("open", what+": "+namedOf(x).Obj().Name())
				n := get()
				if n.k == KAlloc {
					if d.some(set, func(v, m int64) bool { return !d.has(v, "CREATE") }) {
						bad("a file is made although the flag may not ask for it")
					}
					continue
				}
				if d.some(set, func(v, m int64) bool { return d.has(v, "CREATE") && d.has(v, "EXCL") }) {
					bad("what is there is opened although the flag may ask for a new file only")
				}
				if namedOf(x) == t.dir {
					if d.some(set, func(v, m int64) bool { return d.writable(m) }) {
						bad("a directory is opened although the flag may ask for writing")
					}
					continue
				}
				if d.some(set, func(v, m int64) bool { return d.has(v, "TRUNC") && d.writable(m) }) {
					if tr := vals[st.T["trunc"]]; tr == nil {
						bad("a file is not emptied although the flag may ask for it")
					} else if st.T["emptied"] == "" && e.nilness(st, tr) != FNil {
						bad("a file is handed out although it may not have been emptied")
					}
				}
			}
		}
		return e
	}, fn, nil)
}
