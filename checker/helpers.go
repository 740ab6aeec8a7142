package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// methodOf describes one method of a type's method set.
type methodOf struct {
	Name     string
	Obj      *types.Func
	Fn       *ssa.Function // nil when the body is not in the repository
	Promoted bool
}

// methodSet lists the method set of *n, promoted methods included.
func (p *Prog) methodSet(n *types.Named) []methodOf {
	if n == nil {
		return nil
	}
	var t types.Type = n
	if _, ok := n.Underlying().(*types.Interface); !ok {
		t = types.NewPointer(n)
	}
	ms := types.NewMethodSet(t)
	var out []methodOf
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		f := s.Obj().(*types.Func).Origin()
		m := methodOf{Name: f.Name(), Obj: f, Promoted: len(s.Index()) > 1}
		if inRepo(f.Pkg()) {
			if fn := p.SSA.FuncValue(f); fn != nil && fn.Blocks != nil {
				m.Fn = fn
			}
		}
		out = append(out, m)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// concreteResult finds the repository types a function's i'th result may
// have, looking through interfaces.
func (p *Prog) concreteResults(fn *ssa.Function, i int) []*types.Named {
	if fn == nil {
		return nil
	}
	seen := map[*types.Named]bool{}
	var out []*types.Named
	add := func(t types.Type) {
		if n := namedOf(t); n != nil && inRepo(n.Obj().Pkg()) && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	e := newEng(p)
	e.Run(fn, nil)
	e = newEng(p)
	for _, o := range e.Run(fn, nil) {
		if i >= len(o.res) {
			continue
		}
		v := o.res[i]
		if v.k == KIface {
			add(v.typ)
		} else if v.k != KConst {
			add(v.typ)
		}
	}
	return out
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	if n != nil {
		return n.Origin()
	}
	return nil
}

func typeRel(n *types.Named) string {
	if n == nil {
		return "?"
	}
	return pkgRel(n.Obj().Pkg()) + "." + n.Obj().Name()
}

// hasMethods reports whether t's method set has every name.
func hasMethods(t types.Type, names ...string) bool {
	if t == nil {
		return false
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		t = tp.Constraint()
	}
	ms := types.NewMethodSet(t)
	have := map[string]bool{}
	for i := 0; i < ms.Len(); i++ {
		have[ms.At(i).Obj().Name()] = true
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && len(have) == 0 {
		ms = types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			have[ms.At(i).Obj().Name()] = true
		}
	}
	for _, x := range names {
		if !have[x] {
			return false
		}
	}
	return true
}

func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// resOf returns the i'th component of a call's result.
func resOf(v *Val, i int) *Val {
	if v == nil {
		return nil
	}
	if v.k == KTuple {
		if i < len(v.a) {
			return v.a[i]
		}
		return nil
	}
	if i == 0 {
		return v
	}
	return nil
}

// errOf returns the error component of a call's result.
func errOf(c *CallInfo, res *Val) *Val {
	i := errResult(c.Common.Signature())
	if i < 0 {
		return nil
	}
	return resOf(res, i)
}

// isParam reports the index of a plain parameter of the entry.
func isParam(v *Val) (int, bool) {
	v = v.strip()
	if v != nil && v.k == KParam {
		return v.n, true
	}
	return -1, false
}

// recvField reports a field of the entry's receiver read directly.
func recvField(v *Val) (*types.Var, bool) {
	v = v.strip()
	if v == nil {
		return nil, false
	}
	if v.k == KLoad && v.a[0].k == KField {
		if b := v.a[0].a[0]; b.k == KParam && b.n == 0 {
			return v.a[0].fld, true
		}
		// promoted through an embedded struct
		if b := v.a[0].a[0]; b.k == KField && b.a[0].k == KParam && b.a[0].n == 0 {
			return v.a[0].fld, true
		}
	}
	if v.k == KFieldVal {
		if b := v.a[0]; b.k == KParam && b.n == 0 {
			return v.fld, true
		}
	}
	return nil, false
}

// facts about a term under any spelling: calls f for each fact.
func (st *State) fact(pred func(v *Val, f int8) bool) bool {
	for v, f := range st.facts {
		if pred(v, f) {
			return true
		}
	}
	return false
}

func isPure(v *Val, names ...string) bool {
	if v == nil || v.k != KPure {
		return false
	}
	for _, n := range names {
		if v.s == n {
			return true
		}
	}
	return false
}

// stripClean removes path normalisation that keeps the denoted name.
func stripClean(v *Val) *Val {
	for isPure(v, "path/filepath.Clean", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash") && len(v.a) == 1 {
		v = v.a[0]
	}
	return v
}

func sameName(a, b *Val) bool {
	return a == b || stripClean(a) == stripClean(b)
}

func lastElem(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
