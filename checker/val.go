package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is the shape of an abstract value.
type Kind uint8

const (
	KParam  Kind = iota // a parameter (or receiver, free variable) of the analysed entry
	KConst              // constant; nil is KConst with nil constant value
	KGlobal             // address of a package-level variable
	KFunc               // a declared function used as a value
	KClosure
	KAlloc    // an object allocated at a site
	KField    // address of a field: a[0] base address
	KFieldVal // field of a struct value
	KIndex    // address of an element: a[0] base, a[1] index
	KElem     // element value of a non-addressable aggregate
	KMapElem  // pseudo-address of a map element
	KLoad     // memory read that nothing on this path wrote
	KCall     // an opaque call
	KRes      // the i'th result of an opaque call
	KTuple
	KPure   // call of a side-effect-free library function
	KBin    // normalised binary op
	KNot    // boolean negation
	KUn     // other unary op
	KConv   // numeric/string conversion
	KIface  // value boxed into an interface; typ is the concrete type
	KAssert // type assertion
	KSlice
	KPhi // loop-carried value
	KOther
	KZero // zero value of a type
)

// Val is a hash-consed abstract value: pointer equality is term equality.
type Val struct {
	id    int
	k     Kind
	s     string // operator, function name, field name
	a     []*Val
	typ   types.Type
	fn    *ssa.Function
	fld   *types.Var
	site  *Site
	n     int
	cv    constant.Value
	glob  *ssa.Global
	sites []int
	depth int
	in    []*Val // KPhi: values that flowed in
}

// Site is an instruction in an inlining context.
type Site struct {
	id    int
	ctx   *Ctx
	instr ssa.Instruction
	val   ssa.Value
}

// Ctx is a chain of inlined calls.
type Ctx struct {
	id     int
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

func (c *Ctx) has(fn *ssa.Function) bool {
	for x := c; x != nil; x = x.parent {
		if x.fn == fn {
			return true
		}
	}
	return false
}

type univ struct {
	tab   map[string]*Val
	nval  int
	sites map[siteKey]*Site
	ctxs  map[ctxKey]*Ctx
}
type siteKey struct {
	ctx *Ctx
	i   any
}
type ctxKey struct {
	parent *Ctx
	call   ssa.Instruction
	fn     *ssa.Function
}

func newUniv() *univ {
	return &univ{tab: map[string]*Val{}, sites: map[siteKey]*Site{}, ctxs: map[ctxKey]*Ctx{}}
}

func (u *univ) ctx(parent *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	k := ctxKey{parent, call, fn}
	if c := u.ctxs[k]; c != nil {
		return c
	}
	d := 0
	if parent != nil {
		d = parent.depth + 1
	}
	c := &Ctx{id: len(u.ctxs) + 1, parent: parent, call: call, fn: fn, depth: d}
	u.ctxs[k] = c
	return c
}

func (u *univ) site(ctx *Ctx, i any) *Site {
	k := siteKey{ctx, i}
	if s := u.sites[k]; s != nil {
		return s
	}
	s := &Site{id: len(u.sites) + 1, ctx: ctx}
	if in, ok := i.(ssa.Instruction); ok {
		s.instr = in
	}
	if v, ok := i.(ssa.Value); ok {
		s.val = v
	}
	u.sites[k] = s
	return s
}

const maxDepth = 24

func (u *univ) mk(v Val) *Val {
	var b strings.Builder
	b.WriteByte(byte(v.k) + 'A')
	b.WriteString(v.s)
	b.WriteByte('|')
	for _, x := range v.a {
		if x != nil {
			b.WriteString(strconv.Itoa(x.id))
		}
		b.WriteByte(',')
	}
	if v.fn != nil {
		fmt.Fprintf(&b, "f%p", v.fn)
	}
	if v.fld != nil {
		fmt.Fprintf(&b, "v%p", v.fld)
	}
	if v.glob != nil {
		fmt.Fprintf(&b, "g%p", v.glob)
	}
	if v.site != nil {
		b.WriteByte('s')
		b.WriteString(strconv.Itoa(v.site.id))
	}
	b.WriteByte('n')
	b.WriteString(strconv.Itoa(v.n))
	if v.cv != nil {
		b.WriteString(v.cv.ExactString())
	}
	switch v.k {
	case KConst, KIface, KAssert, KConv, KZero:
		if v.typ != nil {
			b.WriteString(v.typ.String())
		}
	}
	key := b.String()
	if x := u.tab[key]; x != nil {
		return x
	}
	u.nval++
	v.id = u.nval
	d := 0
	seen := map[int]bool{}
	if v.site != nil {
		seen[v.site.id] = true
	}
	for _, x := range v.a {
		if x == nil {
			continue
		}
		if x.depth > d {
			d = x.depth
		}
		for _, s := range x.sites {
			seen[s] = true
		}
	}
	for s := range seen {
		v.sites = append(v.sites, s)
	}
	v.depth = d + 1
	nv := &v
	u.tab[key] = nv
	return nv
}

func (v *Val) hasSite(id int) bool {
	for _, s := range v.sites {
		if s == id {
			return true
		}
	}
	return false
}

func (v *Val) isNilConst() bool { return v != nil && v.k == KConst && v.cv == nil }

func (v *Val) isConst() bool { return v != nil && v.k == KConst && v.cv != nil }

func (v *Val) constStr() (string, bool) {
	if v != nil && v.k == KConst && v.cv != nil && v.cv.Kind() == constant.String {
		return constant.StringVal(v.cv), true
	}
	return "", false
}

func (v *Val) constInt() (int64, bool) {
	if v != nil && v.k == KConst && v.cv != nil && v.cv.Kind() == constant.Int {
		return constant.Int64Val(v.cv)
	}
	return 0, false
}

func (v *Val) constBool() (val, ok bool) {
	if v != nil && v.k == KConst && v.cv != nil && v.cv.Kind() == constant.Bool {
		return constant.BoolVal(v.cv), true
	}
	return false, false
}

// strip removes wrappers that do not change the denoted object.
func (v *Val) strip() *Val {
	for v != nil && (v.k == KIface || (v.k == KAssert && v.n == 0)) {
		v = v.a[0]
	}
	return v
}

// path is the access path of a value, ignoring when it was read: two reads of
// one field have one path.
func (v *Val) path() string {
	if v == nil {
		return "?"
	}
	switch v.k {
	case KParam:
		return fmt.Sprintf("p%d", v.n)
	case KConst:
		if v.cv == nil {
			return "nil"
		}
		return v.cv.ExactString()
	case KGlobal:
		return v.glob.Name()
	case KField:
		return v.a[0].path() + "." + v.fld.Name()
	case KFieldVal:
		return v.a[0].path() + "." + v.fld.Name()
	case KLoad:
		a := v.a[0]
		switch a.k {
		case KField, KGlobal:
			return a.path()
		case KParam:
			return "*" + a.path()
		}
		return "*" + a.path()
	case KIface:
		return v.a[0].path()
	case KAssert:
		return v.a[0].path()
	case KIndex, KElem, KMapElem:
		return v.a[0].path() + "[]"
	case KAlloc:
		return fmt.Sprintf("new#%d", v.site.id)
	case KRes:
		if v.n == 0 {
			return v.a[0].path()
		}
		return v.a[0].path() + "#" + strconv.Itoa(v.n)
	case KCall:
		return v.s + "@" + strconv.Itoa(v.site.id)
	case KPhi:
		return fmt.Sprintf("phi#%d", v.site.id)
	case KPure:
		var p []string
		for _, x := range v.a {
			p = append(p, x.path())
		}
		return v.s + "(" + strings.Join(p, ",") + ")"
	case KBin:
		return "(" + v.a[0].path() + v.s + v.a[1].path() + ")"
	case KNot:
		return "!" + v.a[0].path()
	case KConv, KUn:
		return v.s + "(" + v.a[0].path() + ")"
	case KSlice:
		return v.a[0].path() + "[:]"
	case KFunc, KClosure:
		return v.fn.Name()
	case KTuple:
		return "tuple"
	case KZero:
		return "zero"
	}
	return fmt.Sprintf("v%d", v.id)
}

func (v *Val) String() string { return v.path() }

// walk visits v and everything it is built from, following loop-carried flows.
func (v *Val) walk(f func(*Val) bool) {
	seen := map[*Val]bool{}
	var rec func(*Val)
	rec = func(x *Val) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, y := range x.a {
			rec(y)
		}
		for _, y := range x.in {
			rec(y)
		}
	}
	rec(v)
}

func (v *Val) contains(pred func(*Val) bool) bool {
	ok := false
	v.walk(func(x *Val) bool {
		if ok {
			return false
		}
		if pred(x) {
			ok = true
			return false
		}
		return true
	})
	return ok
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func nilable(t types.Type) bool {
	if t == nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	}
	return false
}

func opStr(t token.Token) string { return t.String() }

func (v *Val) isNumeric() bool {
	return v.k == KConst && v.cv != nil && (v.cv.Kind() == constant.Int || v.cv.Kind() == constant.Float)
}
