package main

import (
	"go/types"
	"os"
	"strings"
	"syscall"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C01"] = checkReadOnly
	checks["C02"] = checkConfinement
	checks["C03"] = checkEscapeTranslation
	checks["C05"] = checkFaithful
}

var mutators = map[string]bool{
	"Chmod": true, "Chown": true, "Chtimes": true, "Create": true, "Lchown": true, "Link": true, "Mkdir": true,
	"MkdirAll": true, "Remove": true, "RemoveAll": true, "Rename": true, "Symlink": true,
	"Truncate": true, "Write": true, "WriteAt": true, "WriteString": true, "ReadFrom": true, "Sync": true,
	"WriteFile": true, "SetDeadline": true,
}

// C01's subjects: the read-only wrappers, found through their public names or
// the constructors that return them.
func readOnlyTypes(p *Prog) []*types.Named {
	var out []*types.Named
	for _, n := range []string{"ReadOnlyFs", "ReadOnlyRoot", "ReadOnlyFile"} {
		if t := p.Type("vroot", n); t != nil {
			out = append(out, t)
		}
	}
	for _, n := range []string{"FromIoFs", "ExpandFsFile"} {
		out = append(out, p.concreteResults(p.Func("vroot", n), 0)...)
	}
	return out
}

const writeBits = int64(os.O_WRONLY | os.O_RDWR | os.O_APPEND | os.O_CREATE | os.O_TRUNC | syscall.O_RDWR)

// zeroBits returns the bits of v proved zero.
func zeroBits(st *State, v *Val) int64 {
	if n, ok := v.constInt(); ok {
		return ^n
	}
	if c := st.eq[v]; c != nil {
		if n, ok := c.constInt(); ok {
			return ^n
		}
	}
	var z int64
	if v.k == KBin && (v.s == "&" || v.s == "|" || v.s == "&^") {
		a, b := zeroBits(st, v.a[0]), zeroBits(st, v.a[1])
		switch v.s {
		case "&":
			z |= a | b
		case "|":
			z |= a & b
		case "&^":
			z |= a
			if n, ok := v.a[1].constInt(); ok {
				z |= n
			}
		}
	}
	if v.k == KConv {
		z |= zeroBits(st, v.a[0])
	}
	for f, t := range st.facts {
		if f.k != KBin || f.s != "==" || t != FTrue {
			continue
		}
		x, y := f.a[0], f.a[1]
		if _, ok := x.constInt(); ok {
			x, y = y, x
		}
		n, ok := y.constInt()
		if !ok || x.k != KBin || x.s != "&" {
			continue
		}
		m, c := x.a[0], x.a[1]
		if _, ok := m.constInt(); ok {
			m, c = c, m
		}
		k, ok := c.constInt()
		if !ok || m != v {
			continue
		}
		z |= k &^ n
	}
	return z
}

func checkReadOnly(c *Ck) {
	c.Rule("no-mutating-call", "no path of any method of a read-only wrapper calls a mutating operation on what it wraps", 60)
	c.Rule("open-flags", "a forwarded open carries flags proved free of every write bit", 2)
	c.Rule("mutator-errors", "every mutating method of a read-only wrapper returns a non-nil error on every path", 30)
	c.Rule("handles-wrapped", "a handle, filesystem or sub-root handed out is itself a read-only wrapper", 6)
	c.Rule("no-exposure", "the wrapped value is not reachable through embedding, an exported field or an accessor", 5)
	ros := readOnlyTypes(c.P)
	isRO := map[*types.Named]bool{}
	for _, n := range ros {
		isRO[n] = true
	}
	for _, n := range ros {
		tn := typeRel(n)
		if s, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				c.Did("no-exposure", tn+"."+f.Name())
				if f.Exported() && canMutate(f.Type()) {
					c.Bad("no-exposure", tn+"."+f.Name(), f.Pos(), "exported field of a read-only wrapper gives direct access to a mutable %s", f.Type())
				}
			}
		}
		for _, m := range c.P.methodSet(n) {
			c.Did("no-mutating-call", tn+"."+m.Name)
			if m.Promoted && !isRO[namedOf(recvType(m.Obj))] {
				if mutators[m.Name] || m.Name == "OpenFile" || returnsMutable(m.Obj) {
					c.Bad("no-mutating-call", tn+"."+m.Name, n.Obj().Pos(), "method %s is promoted from the wrapped value and reaches it unguarded", m.Name)
				}
			}
			if m.Fn == nil || isRO[namedOf(recvType(m.Obj))] && m.Promoted {
				continue
			}
			name, fn := m.Name, m.Fn
			what := tn + "." + name
			sig := m.Obj.Type().(*types.Signature)
			ei := errResult(sig)
			c.RunEntry(func() *Eng {
				e := newEng(c.P)
				e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
					if ci.Builtin != "" {
						return nil, false
					}
					foreign := ci.Fn == nil || !inRepoFn(ci.Fn)
					if !foreign {
						return nil, false
					}
					if mutators[ci.Name()] && (ci.Recv != nil || ci.PkgPath() == "os" || ci.PkgPath() == "io") {
						if ci.Recv == nil || root(ci.Recv.strip()).k != KAlloc {
							c.BadAt("no-mutating-call", what, e, ci.fr, ci.Instr, "reaches the mutating operation %s", ci.Full())
						}
					}
					if ci.Name() == "OpenFile" && len(ci.Args) >= 2 {
						fl := ci.Args[1]
						c.Did("open-flags", what)
						if z := zeroBits(st, fl); writeBits&^z != 0 {
							c.BadAt("open-flags", what, e, ci.fr, ci.Instr, "forwards an open whose flags may still hold write bits %#x", writeBits&^z)
						}
					}
					// handing the wrapped value to foreign code as a writer
					for i, a := range ci.Args {
						if _, ok := recvField(a); !ok {
							continue
						}
						ps := ci.Common.Signature().Params()
						if i < ps.Len() && hasMethods(ps.At(i).Type(), "Write") {
							c.BadAt("no-mutating-call", what, e, ci.fr, ci.Instr, "hands the wrapped value to %s as a writer", ci.Full())
						}
					}
					return nil, false
				}
				e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
					if mutators[name] && ei >= 0 {
						c.Did("mutator-errors", what)
						if e.nilness(st, res[ei]) != FNonNil {
							c.BadAt("mutator-errors", what, e, nil, in, "may return a nil error: the caller believes the mutation happened")
						}
					}
					for i, r := range res {
						rt := sig.Results().At(i).Type()
						if !canMutate(rt) {
							continue
						}
						c.Did("handles-wrapped", what)
						if isNilOrZero(r) || (ei >= 0 && e.nilness(st, res[ei]) == FNonNil && isNilOrZero(r)) {
							continue
						}
						if n2 := namedOf(r.typ); n2 != nil && isRO[n2] {
							continue
						}
						if r.k == KIface && isRO[namedOf(r.typ)] {
							continue
						}
						c.BadAt("handles-wrapped", what, e, nil, in, "hands out %s of type %v instead of a read-only wrapper", r, r.typ)
					}
				}
				return e
			}, fn, nil)
		}
	}
}

func isNilOrZero(v *Val) bool {
	return v.isNilConst() || v.k == KZero
}

func recvType(f *types.Func) types.Type {
	if r := f.Type().(*types.Signature).Recv(); r != nil {
		return r.Type()
	}
	return nil
}

// canMutate reports whether a value of type t lets its holder change a file
// or tree.
func canMutate(t types.Type) bool {
	return hasMethods(t, "Write") || hasMethods(t, "RemoveAll") || hasMethods(t, "Truncate") || hasMethods(t, "Chmod")
}

func returnsMutable(f *types.Func) bool {
	rs := f.Type().(*types.Signature).Results()
	for i := 0; i < rs.Len(); i++ {
		if canMutate(rs.At(i).Type()) {
			return true
		}
	}
	return false
}

// ---- C02 / C04: confinement ----

type confType struct {
	n *types.Named
	// sinks: does this call take paths of the wrapped filesystem?
	sink func(ci *CallInfo) bool
	bare bool // the base is the wrapped filesystem's own root
}

func isFsIface(t types.Type) bool { return hasMethods(t, "OpenFile", "RemoveAll", "Rename", "Lstat") }

func confTypes(p *Prog) []confType {
	innerFs := func(ci *CallInfo) bool {
		return ci.Recv != nil && ci.Fn == nil && ci.RecvT != nil && (isFsIface(ci.RecvT) || hasMethods(ci.RecvT, "Open", "ReadLink"))
	}
	osFn := func(ci *CallInfo) bool {
		return ci.Obj != nil && ci.Recv == nil && (ci.PkgPath() == "os" || ci.PkgPath() == "syscall" || ci.PkgPath() == "io/ioutil")
	}
	client := func(ci *CallInfo) bool {
		return ci.Obj != nil && ci.RecvName() == "Client" && strings.HasSuffix(ci.PkgPath(), "pkg/sftp")
	}
	var out []confType
	add := func(n *types.Named, s func(*CallInfo) bool) {
		if n != nil {
			out = append(out, confType{n: n, sink: s})
		}
	}
	add(p.Type("vroot", "PathPrefixFs"), innerFs)
	add(p.Type("vroot/osfs", "Fs"), osFn)
	add(p.Type("vroot-adapter/sftpfs", "SftpFs"), client)
	return out
}

// isBase: a string field of the receiver, the configured base.
func isBase(v *Val) bool {
	f, ok := recvField(v)
	return ok && isStringType(f.Type())
}

func factFalse(st *State, pred func(*Val) bool) bool {
	return st.fact(func(v *Val, f int8) bool { return f == FFalse && pred(v) })
}

func eqConst(v *Val, s string) (*Val, bool) {
	if v.k != KBin || v.s != "==" {
		return nil, false
	}
	if c, ok := v.a[0].constStr(); ok && c == s {
		return v.a[1], true
	}
	if c, ok := v.a[1].constStr(); ok && c == s {
		return v.a[0], true
	}
	return nil, false
}

func isLocalName(e *Eng, st *State, v *Val) bool {
	if s, ok := v.constStr(); ok {
		return !strings.HasPrefix(s, "/") && !strings.Contains(s, "..")
	}
	if isPure(v, "io/fs.FileInfo.Name", "io/fs.DirEntry.Name") {
		return true
	}
	if v.k == KRes && (strings.HasSuffix(v.a[0].s, "FileInfo.Name") || strings.HasSuffix(v.a[0].s, "DirEntry.Name")) {
		return true
	}
	if st.fact(func(f *Val, t int8) bool {
		return t == FTrue && isPure(f, "path/filepath.IsLocal", "io/fs.ValidPath") && sameName(f.a[0], v)
	}) {
		return true
	}
	if isPure(v, "path/filepath.Localize") && v.n == 0 {
		return st.fact(func(f *Val, t int8) bool {
			return t == FNil && isPure(f, "path/filepath.Localize") && f.n == 1 && f.a[0] == v.a[0]
		})
	}
	// slash-separated reasoning on a cleaned name
	if isPure(v, "path.Clean", "path/filepath.Clean") {
		notAbs := factFalse(st, func(f *Val) bool {
			if isPure(f, "strings.HasPrefix") && f.a[0] == v {
				s, _ := f.a[1].constStr()
				return s == "/"
			}
			return isPure(f, "path.IsAbs", "path/filepath.IsAbs") && f.a[0] == v
		})
		up := factFalse(st, func(f *Val) bool {
			if isPure(f, "strings.HasPrefix") && f.a[0] == v {
				s, _ := f.a[1].constStr()
				return s == ".."
			}
			return false
		})
		if !up {
			a := factFalse(st, func(f *Val) bool { x, ok := eqConst(f, ".."); return ok && x == v })
			b := factFalse(st, func(f *Val) bool {
				if isPure(f, "strings.HasPrefix") && f.a[0] == v {
					s, _ := f.a[1].constStr()
					return s == "../"
				}
				return false
			})
			up = a && b
		}
		return notAbs && up
	}
	return false
}

// confined: v is the base or provably beneath it.
func confined(e *Eng, st *State, v *Val, d int) bool {
	if d > 12 {
		return false
	}
	if isBase(v) {
		return true
	}
	switch {
	case isPure(v, "path/filepath.Join", "path.Join"):
		if !confined(e, st, v.a[0], d+1) {
			return false
		}
		for _, x := range v.a[1:] {
			if !isLocalName(e, st, x) {
				return false
			}
		}
		return true
	case isPure(v, "path/filepath.Clean", "path.Clean", "path/filepath.FromSlash", "path/filepath.ToSlash"):
		return confined(e, st, v.a[0], d+1)
	case v.k == KBin && v.s == "+":
		l, r := v.a[0], v.a[1]
		if s, ok := r.constStr(); ok && (s == "/" || s == string(os.PathSeparator)) {
			return confined(e, st, l, d+1)
		}
		if l.k == KBin && l.s == "+" {
			if s, ok := l.a[1].constStr(); ok && s == "/" {
				return confined(e, st, l.a[0], d+1) && isLocalName(e, st, r)
			}
		}
		return false
	case v.k == KPhi && len(v.in) > 0:
		for _, x := range v.in {
			if !confined(e, st, x, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// localSpelling: a name proved local, or another spelling of it.
func localSpelling(e *Eng, st *State, v *Val) bool {
	if isLocalName(e, st, v) {
		return true
	}
	switch {
	case isPure(v, "path/filepath.ToSlash", "path/filepath.FromSlash", "path/filepath.Clean", "path.Clean"):
		return localSpelling(e, st, v.a[0])
	case isPure(v, "strings.TrimPrefix", "strings.CutPrefix") && len(v.a) == 2 && v.n == 0:
		s, ok := v.a[1].constStr()
		return ok && s == "./" && cleaned(v.a[0]) && localSpelling(e, st, v.a[0])
	case v.k == KSlice && v.a[1] != nil:
		lo, ok := v.a[1].constInt()
		return ok && lo == 2 && cleaned(v.a[0]) && localSpelling(e, st, v.a[0])
	}
	return false
}

// notRoot: a confined path that is provably not the base itself.
func notRoot(e *Eng, st *State, v *Val) bool {
	if factFalse(st, func(f *Val) bool {
		return f.k == KBin && f.s == "==" && (f.a[0] == v && isBase(f.a[1]) || f.a[1] == v && isBase(f.a[0]))
	}) {
		return true
	}
	if isPure(v, "path/filepath.Join", "path.Join") {
		for _, x := range v.a[1:] {
			if factFalse(st, func(f *Val) bool {
				y, ok := eqConst(f, ".")
				return ok && isPure(y, "path/filepath.Clean", "path.Clean") && sameName(y, x)
			}) {
				return true
			}
			if isPure(x, "io/fs.FileInfo.Name", "io/fs.DirEntry.Name") {
				return true
			}
		}
	}
	if v.k == KBin && v.s == "+" {
		if _, ok := v.a[1].constStr(); !ok {
			return true // base + "/" + entry
		}
	}
	return false
}

func checkConfinement(c *Ck) {
	c.Rule("confined", "every path handed to the wrapped filesystem is the base itself or the base joined with a name proved local on that path", 45)
	c.Rule("recursion", "a recursive helper is re-entered only with a path beneath the one it was given", 1)
	c.Rule("every-op", "every name-taking operation reaches its sink or refuses", 45)
	cts := confTypes(c.P)
	for _, t := range c.P.concreteResults(c.P.Func("vroot", "FromIoFs"), 0) {
		cts = append(cts, confType{n: t, bare: true, sink: func(ci *CallInfo) bool {
			if ci.Fn != nil || ci.Obj == nil || ci.PkgPath() != "io/fs" {
				return false
			}
			of := ci.Recv
			if of == nil && len(ci.Args) > 0 {
				of = ci.Args[0]
			}
			if of == nil {
				return false
			}
			of = of.strip()
			if of.k == KAssert {
				of = of.a[0]
			}
			_, ok := recvField(of)
			return ok
		}})
	}
	for _, ct := range cts {
		tn := typeRel(ct.n)
		for _, m := range c.P.methodSet(ct.n) {
			if m.Fn == nil || !m.Obj.Exported() || m.Promoted {
				if m.Promoted && takesString(m.Obj) {
					c.Bad("confined", tn+"."+m.Name, ct.n.Obj().Pos(), "path-taking method %s is promoted from the wrapped value and bypasses the base", m.Name)
				}
				continue
			}
			what := tn + "." + m.Name
			if takesString(m.Obj) {
				c.Did("every-op", what)
			}
			c.RunEntry(func() *Eng {
				e := newEng(c.P)
				e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
					if ci.Builtin != "" {
						return nil, false
					}
					rec := ci.Fn != nil && inRepoFn(ci.Fn) && ci.fr.ctx.has(ci.Fn)
					if !ct.sink(ci) && !rec {
						return nil, false
					}
					ps := ci.Common.Signature().Params()
					for i, a := range ci.Args {
						if i >= ps.Len() || !isStringType(ps.At(i).Type()) {
							continue
						}
						if ci.Name() == "Symlink" && i == 0 {
							continue
						}
						rule := "confined"
						if rec {
							rule = "recursion"
						}
						c.Did(rule, what+"->"+ci.Name())
						if !confined(e, st, a, 0) && !(ct.bare && localSpelling(e, st, a)) {
							c.BadAt(rule, what+"->"+ci.Name(), e, ci.fr, ci.Instr, "argument %d of %s is %s, not proved beneath the base", i, ci.Full(), a)
						}
					}
					return nil, false
				}
				return e
			}, m.Fn, nil)
		}
	}
}

func takesString(f *types.Func) bool {
	ps := f.Type().(*types.Signature).Params()
	for i := 0; i < ps.Len(); i++ {
		if isStringType(ps.At(i).Type()) {
			return true
		}
	}
	return false
}

// ---- C03 ----

const escapeText = "path escapes from parent"

func checkEscapeTranslation(c *Ck) {
	c.Rule("translated", "an error of the underlying root is returned only after its innermost cause was compared with the platform's escape text, and replaced when it matched", 18)
	c.Rule("no-bypass", "no path-taking method of the underlying root is promoted untranslated", 15)
	n := c.P.Type("vroot/osfs", "Root")
	for _, m := range c.P.methodSet(n) {
		if !m.Obj.Exported() {
			continue
		}
		sig := m.Obj.Type().(*types.Signature)
		ei := errResult(sig)
		what := "vroot/osfs.Root." + m.Name
		if takesString(m.Obj) && ei >= 0 {
			c.Did("no-bypass", what)
			if m.Promoted && m.Fn == nil {
				c.Bad("no-bypass", what, n.Obj().Pos(), "%s is promoted from the wrapped root: an escape reaches the caller without the escape sentinel", m.Name)
				continue
			}
		}
		if m.Fn == nil || ei < 0 || !takesString(m.Obj) {
			continue
		}
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			raw := map[*Val]bool{}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				if inlined || ci.Obj == nil || ci.PkgPath() != "os" || ci.RecvName() != "Root" {
					return
				}
				if x := errOf(ci, res); x != nil {
					raw[x] = true
				}
			}
			// a test of the innermost cause settles the errors it was unwrapped from
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				for cond.k == KNot {
					cond, truth = cond.a[0], !truth
				}
				var sub *Val
				if y, ok := eqConst(cond, escapeText); ok {
					// the whole error's text is prefixed by the operation: only its cause compares equal
					if isPure(y, "error.Error") && raw[y.a[0]] && !st.fact(func(f *Val, t int8) bool {
						return t == FNil && isPure(f, "errors.Unwrap") && f.a[0] == y.a[0]
					}) {
						return
					}
					sub = y
				} else if isPure(cond, "strings.Contains", "strings.HasSuffix") && len(cond.a) == 2 {
					if s, ok := cond.a[1].constStr(); ok && s == escapeText {
						sub = cond.a[0]
					}
				}
				if sub == nil {
					return
				}
				sub.walk(func(x *Val) bool {
					if raw[x] {
						st.S[x] = map[bool]string{true: "escape", false: "other"}[truth]
					}
					return true
				})
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				c.Did("translated", what)
				r := res[ei]
				if e.nilness(st, r) == FNil {
					return
				}
				var from []*Val
				r.walk(func(x *Val) bool {
					if raw[x] {
						from = append(from, x)
					}
					return true
				})
				for x, v := range st.S {
					if v == "escape" && !resCarries(e, st, r, "ErrPathEscapes") {
						c.BadAt("translated", what, e, nil, in, "an escape (%s) is recognised but the returned error %s does not carry the escape sentinel", x, r)
					}
				}
				for _, x := range from {
					if e.nilness(st, x) == FNil || st.S[x] != "" {
						continue
					}
					c.BadAt("translated", what, e, nil, in, "returns the platform error %s untranslated", r)
				}
			}
			return e
		}, m.Fn, nil)
	}
}

// resCarries: the value, or memory it points to, holds the named sentinel.
func resCarries(e *Eng, st *State, v *Val, glob string) bool {
	is := func(x *Val) bool {
		return x.contains(func(y *Val) bool { return y.k == KGlobal && y.glob.Name() == glob })
	}
	if is(v) {
		return true
	}
	found := false
	v.walk(func(x *Val) bool {
		if x.k == KAlloc {
			for k, h := range st.heap {
				if root(k) == x && is(h) {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// ---- C05 ----

// allowed delegate names per operation beyond the same name.
var delegateAlias = map[string][]string{
	"ReadLink": {"Readlink"}, "Lstat": {"Stat"}, "Lchown": {"Chown"}, "Rename": {"PosixRename"},
	"Create": {"OpenFile", "Chmod"}, "Open": {"OpenFile"}, "ReadDir": {"Open"}, "ReadFile": {"Open"}, "Sub": {"OpenRoot", "Stat"},
	"Mkdir": {"Chmod"}, "MkdirAll": {"Chmod"}, "OpenFile": {"Chmod", "Open"}, "RemoveAll": {"Remove", "Lstat", "ReadDir"},
	"Readdir": {"ReadDir"}, "Readdirnames": {"ReadDir"},
}

type faithfulType struct {
	n    *types.Named
	sink func(ci *CallInfo) bool
}

func faithfulTypes(p *Prog) []faithfulType {
	innerAny := func(ci *CallInfo) bool {
		// io/fs helpers act on the filesystem they are given
		if ci.Obj != nil && ci.PkgPath() == "io/fs" && ci.Recv == nil && len(ci.Args) > 0 {
			_, ok := recvField(ci.Args[0])
			return ok
		}
		if ci.Fn != nil || ci.Recv == nil {
			return false
		}
		_, ok := recvField(ci.Recv)
		if !ok && ci.Recv.k == KAssert {
			_, ok = recvField(ci.Recv.a[0])
		}
		return ok
	}
	var out []faithfulType
	add := func(n *types.Named, s func(*CallInfo) bool) {
		if n != nil {
			out = append(out, faithfulType{n, s})
		}
	}
	for _, n := range []string{"PathNormalizerFs", "PathNormalizerRoot", "PathLocalizerFs", "PathLocalizerRoot", "PathPrefixFs", "ReadOnlyFs", "ReadOnlyRoot", "ReadOnlyFile"} {
		add(p.Type("vroot", n), innerAny)
	}
	for _, n := range []string{"Widen", "ToIoFs", "ToIoFsRoot", "FromIoFs"} {
		for _, t := range p.concreteResults(p.Func("vroot", n), 0) {
			add(t, innerAny)
		}
	}
	add(p.Type("vroot/osfs", "Root"), func(ci *CallInfo) bool {
		return ci.Obj != nil && ci.PkgPath() == "os" && ci.RecvName() == "Root"
	})
	for _, ct := range confTypes(p) {
		if ct.n.Obj().Name() != "PathPrefixFs" {
			add(ct.n, ct.sink)
		}
	}
	return out
}

func checkFaithful(c *Ck) {
	c.Rule("same-operation", "an adapter's operation reaches only the operation of the same meaning on what it wraps", 120)
	c.Rule("arguments", "each forwarded argument comes from the parameter in the same position; non-path arguments and link targets are forwarded unchanged", 150)
	c.Rule("outcome", "success is reported only when the forwarded operation was performed and succeeded", 120)
	c.Rule("result", "what a successful operation gives is what the forwarded operation gave", 40)
	for _, ft := range faithfulTypes(c.P) {
		tn := typeRel(ft.n)
		isRO := strings.HasPrefix(ft.n.Obj().Name(), "ReadOnly") || strings.HasPrefix(ft.n.Obj().Name(), "ioFsAs")
		for _, m := range c.P.methodSet(ft.n) {
			if m.Fn == nil || !m.Obj.Exported() || m.Promoted {
				continue
			}
			switch m.Name {
			case "Name", "IsRoot", "Client", "Base", "Fd":
				continue
			}
			if isRO && mutators[m.Name] {
				continue
			}
			checkFaithfulMethod(c, tn, m, ft.sink)
		}
	}
}

func checkFaithfulMethod(c *Ck, tn string, m methodOf, sink func(*CallInfo) bool) {
	what := tn + "." + m.Name
	sig := m.Obj.Type().(*types.Signature)
	ei := errResult(sig)
	allowed := map[string]bool{m.Name: true}
	for _, a := range delegateAlias[m.Name] {
		allowed[a] = true
	}
	nstr := 0
	for i := 0; i < sig.Params().Len(); i++ {
		if isStringType(sig.Params().At(i).Type()) {
			nstr++
		}
	}
	answers := map[*Val]bool{}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined || ci.Builtin != "" || !sink(ci) {
				return
			}
			c.Did("same-operation", what)
			if ci.Name() == "Name" || ci.Name() == "IsPathSeparator" {
				return
			}
			primary := ci.Name() == m.Name || allowed[ci.Name()]
			if ci.Name() != m.Name && (m.Name == "Lstat" || m.Name == "Lchown") && primary && offers(ci, m.Name) && !atRoot(st, ci) {
				c.BadAt("same-operation", what, e, ci.fr, ci.Instr, "%s follows links: it forwards to %s although %s is to be had", m.Name, ci.Name(), m.Name)
				return
			}
			if !primary {
				if ci.Name() == "Close" || ci.Name() == "Lstat" || ci.Name() == "Stat" {
					return
				}
				c.BadAt("same-operation", what, e, ci.fr, ci.Instr, "%s forwards to %s", m.Name, ci.Name())
				return
			}
			// arguments by position, among parameters of the same type
			ps := ci.Common.Signature().Params()
			si, oi := 0, 0
			var own []int // parameter indices of the entry that are strings
			var others []int
			for i := 0; i < sig.Params().Len(); i++ {
				if isStringType(sig.Params().At(i).Type()) {
					own = append(own, i)
				} else {
					others = append(others, i)
				}
			}
			for i, a := range ci.Args {
				if i >= ps.Len() {
					break
				}
				if i == 0 && ci.PkgPath() == "io/fs" && ci.Recv == nil {
					continue
				}
				c.Did("arguments", what+"->"+ci.Name()+"#"+string(rune('0'+i)))
				if isStringType(ps.At(i).Type()) {
					if si < len(own) {
						pi := own[si] + 1
						for _, o := range own {
							if o+1 != pi && a.contains(func(x *Val) bool { return x.k == KParam && x.n == o+1 }) {
								c.BadAt("arguments", what, e, ci.fr, ci.Instr, "argument %d of %s is built from a different name parameter", i, ci.Name())
							}
						}
						if m.Name == "Symlink" && si == 0 {
							if n, ok := isParam(a); !ok || n != pi {
								c.BadAt("arguments", what, e, ci.fr, ci.Instr, "the link target is altered: %s", a)
							}
						} else if !(m.Name == "Symlink" && si == 0) && !spellsName(st, a, pi) {
							c.BadAt("arguments", what, e, ci.fr, ci.Instr, "argument %d of %s is not the caller's name: %s", i, ci.Name(), a)
						} else if !a.contains(func(x *Val) bool { return x.k == KParam && x.n == pi }) && !isBase(a) && ci.fr.parent == nil {
							if _, isConst := a.constStr(); !isConst || a != nil {
								c.BadAt("arguments", what, e, ci.fr, ci.Instr, "argument %d of %s does not come from the caller's name: %s", i, ci.Name(), a)
							}
						}
					}
					si++
				} else {
					if ci.Name() == m.Name && oi < len(others) {
						if n, ok := isParam(a); (!ok || n != others[oi]+1) && ci.fr.parent == nil {
							if !sameParam(a, others[oi]+1) {
								c.BadAt("arguments", what, e, ci.fr, ci.Instr, "argument %d of %s is not the caller's argument: %s", i, ci.Name(), a)
							}
						}
					}
					oi++
				}
			}
			if (m.Name == "Create" || m.Name == "Open") && ci.Name() == "OpenFile" && len(ci.Args) > 1 {
				want := int64(os.O_RDONLY)
				if m.Name == "Create" {
					want = int64(os.O_RDWR | os.O_CREATE | os.O_TRUNC)
				}
				if n, ok := ci.Args[1].constInt(); !ok || n != want {
					c.BadAt("arguments", what, e, ci.fr, ci.Instr, "%s opens with flags %s", m.Name, ci.Args[1])
				}
			}
			if ci.Name() != "Chmod" && (ci.Name() != "Open" || m.Name == "Open") {
				answers[res] = true
				st.T["answer"] = "1"
				for _, x := range res.a {
					if res.k == KTuple {
						answers[x] = true
					}
				}
			}
			if x := errOf(ci, res); x != nil {
				if ci.Name() != "Chmod" || m.Name == "Chmod" {
					st.S[x] = "d"
				}
			} else {
				st.T["done"] = "1"
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if ei < 0 {
				return
			}
			c.Did("outcome", what)
			r := res[ei]
			if e.nilness(st, r) == FNonNil {
				return
			}
			for i, x := range res {
				if i != ei && st.T["answer"] != "" && plainAnswer(sig.Results().At(i).Type()) {
					c.Did("result", what)
					if !answered(answers, x) {
						c.BadAt("result", what, e, nil, in, "gives %s, which is not what the forwarded operation gave", x)
					}
				}
			}
			// returned error is an operation's own error, or nil after one succeeded
			if e.nilness(st, r) == FNil {
				okOne, failed := st.T["done"] == "1", false
				for x := range st.S {
					switch e.nilness(st, x) {
					case FNil:
						okOne = true
					case FNonNil:
						failed = true
					case 0:
						failed = true
					}
				}
				if !okOne && m.Name != "Close" && !(failed && (m.Name == "RemoveAll" || m.Name == "Sync")) {
					c.BadAt("outcome", what, e, nil, in, "reports success without having forwarded the operation")
				} else if failed && m.Name != "RemoveAll" && m.Name != "Sync" && m.Name != "Readdir" {
					c.BadAt("outcome", what, e, nil, in, "reports success although the forwarded operation may have failed")
				}
				return
			}
			if _, ok := st.S[r]; ok {
				return
			}
			if r.contains(func(x *Val) bool { _, ok := st.S[x]; return ok }) {
				return
			}
			if len(st.S) == 0 && st.T["done"] == "" {
				c.BadAt("outcome", what, e, nil, in, "returns %s without having forwarded the operation", r)
			}
		}
		return e
	}, m.Fn, nil)
}

// sameParam accepts a value-preserving rewrite of a parameter.
func sameParam(a *Val, n int) bool {
	a = a.strip()
	if a.k == KConv {
		return sameParam(a.a[0], n)
	}
	return a.k == KParam && a.n == n
}

// plainAnswer: a result that is given on as it is.
func plainAnswer(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		b, ok := t.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return hasMethods(t, "ModTime", "Sys")
}

// answered: v is a result of a forwarded operation, respelled at most.
func answered(answers map[*Val]bool, v *Val) bool {
	v = v.strip()
	for isPure(v, "path/filepath.FromSlash", "path/filepath.ToSlash") {
		v = v.a[0].strip()
	}
	return answers[v] || v.k == KRes && answers[v.a[0]]
}

// offers: what the call is made on has the operation of that name as well.
func offers(ci *CallInfo, name string) bool {
	if ci.RecvT != nil && ci.Common.Signature().Recv() != nil || ci.Common.IsInvoke() {
		return hasMethods(ci.RecvT, name)
	}
	return ci.Obj != nil && ci.PkgPath() == "os" && ci.Obj.Pkg().Scope().Lookup(name) != nil
}

// atRoot: the call names the directory the adapter stands on, which is followed.
func atRoot(st *State, ci *CallInfo) bool {
	if len(ci.Args) == 0 {
		return false
	}
	a := ci.Args[0]
	return isBase(a) || namesRoot(st, 1) || st.fact(func(f *Val, t int8) bool {
		return t == FTrue && f.k == KBin && f.s == "==" && (f.a[0] == a && isBase(f.a[1]) || f.a[1] == a && isBase(f.a[0]))
	})
}

// spellsName: a spelling of the caller's name, seen from where the adapter
// stands.
func spellsName(st *State, a *Val, n int) bool {
	switch {
	case a.k == KParam:
		return a.n == n
	case isBase(a):
		return namesRoot(st, n)
	case isPure(a, "path.Clean", "path/filepath.Clean", "path/filepath.ToSlash", "path/filepath.FromSlash"):
		return spellsName(st, a.a[0], n)
	case isPure(a, "path.Join", "path/filepath.Join"):
		last := len(a.a) - 1
		for _, x := range a.a[:max(last, 0)] {
			if !isBase(x) {
				return false
			}
		}
		return last >= 0 && spellsName(st, a.a[last], n)
	case isPure(a, "strings.TrimPrefix", "strings.CutPrefix") && len(a.a) == 2 && a.n == 0:
		// a clean name does not begin so
		s, ok := a.a[1].constStr()
		return ok && s == "./" && cleaned(a.a[0]) && spellsName(st, a.a[0], n)
	case a.k == KSlice && a.a[1] != nil && a.a[2] == nil:
		lo, ok := a.a[1].constInt()
		return ok && lo == 2 && cleaned(a.a[0]) && spellsName(st, a.a[0], n) && st.fact(func(f *Val, t int8) bool {
			if t != FTrue || !isPure(f, "strings.HasPrefix") || f.a[0] != a.a[0] {
				return false
			}
			s, ok := f.a[1].constStr()
			return ok && s == "./"
		})
	case a.k == KBin && a.s == "+":
		// base, separator and a name
		var parts []*Val
		var rec func(v *Val)
		rec = func(v *Val) {
			if v.k == KBin && v.s == "+" {
				rec(v.a[0])
				rec(v.a[1])
				return
			}
			parts = append(parts, v)
		}
		rec(a)
		if len(parts) != 3 {
			return false
		}
		s, ok := parts[1].constStr()
		return ok && (s == "/" || s == string(os.PathSeparator)) && isBase(parts[0]) && !isBase(parts[2]) && spellsName(st, parts[2], n)
	}
	if s, ok := a.constStr(); ok && s == "." {
		return namesRoot(st, n)
	}
	return false
}

// namesRoot: the caller's name was found to be that of the root.
func namesRoot(st *State, n int) bool {
	return st.fact(func(f *Val, t int8) bool {
		for _, s := range []string{".", "", "/"} {
			if y, ok := eqConst(f, s); ok && t == FTrue && spellsName(st, y, n) {
				return true
			}
		}
		if t == FTrue && f.k == KBin && f.s == "==" {
			for i := 0; i < 2; i++ {
				if isBase(f.a[i]) && !isBase(f.a[1-i]) && spellsName(st, f.a[1-i], n) {
					return true
				}
			}
		}
		return false
	})
}

// cleaned: the value went through Clean, and was at most respelled since.
func cleaned(v *Val) bool {
	for isPure(v, "path/filepath.ToSlash", "path/filepath.FromSlash") {
		v = v.a[0]
	}
	return isPure(v, "path.Clean", "path/filepath.Clean", "path.Join", "path/filepath.Join")
}
