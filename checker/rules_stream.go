package main

import (
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C23"] = checkRangeValidated
	checks["C24"] = checkHeaders
	checks["C25"] = checkRedaction
	checks["C26"] = checkPinned
	checks["C28"] = checkCleanEOF
	checks["C29"] = checkFileserver
}

// ---- HTTP vocabulary ----

// isDo: a call that sends a request and yields the response.
func isDo(ci *CallInfo) bool {
	sig := ci.Common.Signature()
	return ci.Name() == "Do" && sig.Params().Len() == 1 && sig.Results().Len() == 2 &&
		isHTTP(sig.Params().At(0).Type(), "Request") && isHTTP(sig.Results().At(0).Type(), "Response")
}

func isHTTP(t types.Type, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/http" && n.Obj().Name() == name
}

// fieldLoad: v reads field name of a value of the named net/http or net/url type.
func fieldLoad(v *Val, name string) (*Val, bool) {
	if v == nil {
		return nil, false
	}
	switch {
	case v.k == KLoad && v.a[0].k == KField && v.a[0].fld.Name() == name:
		return v.a[0].a[0], true
	case v.k == KFieldVal && v.fld.Name() == name:
		return v.a[0], true
	}
	return nil, false
}

// respOf finds the response a value was taken from.
func respOf(v *Val) *Val {
	var out *Val
	v.walk(func(x *Val) bool {
		if out != nil {
			return false
		}
		if x.k == KRes && x.n == 0 && isHTTP(x.typ, "Response") {
			out = x
		}
		return out == nil
	})
	return out
}

// bodyOf: v is the body of a response.
func bodyOf(v *Val) *Val {
	var out *Val
	v.walk(func(x *Val) bool {
		if b, ok := fieldLoad(x, "Body"); ok && (isHTTP(b.typ, "Response") || respOf(b) != nil) {
			out = respOf(b)
			if out == nil {
				out = b
			}
		}
		return out == nil
	})
	return out
}

// headerGet: v is the value of a response header.
func headerGet(v *Val) (string, bool) {
	v = v.strip()
	if v == nil {
		return "", false
	}
	var name string
	ok := false
	if v.k == KRes && v.a[0].k == KCall && strings.HasSuffix(v.a[0].s, "net/http.Header.Get") {
		for _, a := range v.a[0].in {
			if s, is := a.constStr(); is {
				name, ok = s, true
			}
		}
	}
	return name, ok
}

// derivedFrom reports whether v was computed from src through calls and
// arithmetic.
func derivedFrom(v, src *Val) bool {
	seen := map[*Val]bool{}
	var rec func(x *Val) bool
	rec = func(x *Val) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if x == src {
			return true
		}
		for _, a := range x.a {
			if rec(a) {
				return true
			}
		}
		if x.k == KCall || x.k == KPhi {
			for _, a := range x.in {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

// numbersIn lists the numbers a piece of text was built from, in order.
func numbersIn(v *Val) []*Val {
	var out []*Val
	var rec func(x *Val)
	rec = func(x *Val) {
		x = x.strip()
		switch {
		case x == nil:
		case isPure(x, "fmt.Sprintf"), isPure(x, "fmt.Sprint"):
			for _, a := range x.a {
				if a = a.strip(); a != nil && a.typ != nil && isIntType(a.typ) {
					out = append(out, a)
				} else {
					rec(a)
				}
			}
		case isPure(x, "strconv.FormatInt"), isPure(x, "strconv.Itoa"), isPure(x, "strconv.FormatUint"):
			out = append(out, x.a[0].strip())
		case x.k == KRes && x.a[0].k == KCall && (strings.HasSuffix(x.a[0].s, "strconv.FormatInt") || strings.HasSuffix(x.a[0].s, "strconv.Itoa")):
			for _, a := range x.a[0].in {
				if a.typ != nil && isIntType(a.typ) {
					out = append(out, a.strip())
					break
				}
			}
		case x.k == KBin && x.s == "+":
			rec(x.a[0])
			rec(x.a[1])
		case x.k == KConv:
			rec(x.a[0])
		}
	}
	rec(v)
	return out
}

// isRangeParser: takes a header value, reports start, end and total.
func isRangeParser(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	s := fn.Signature
	if s.Params().Len() != 1 || !isStringType(s.Params().At(0).Type()) || s.Results().Len() != 4 {
		return false
	}
	for i := 0; i < 3; i++ {
		if !isIntType(s.Results().At(i).Type()) {
			return false
		}
	}
	return isErrorType(s.Results().At(3).Type())
}

// pinners: functions that hold a response against what is pinned and swap the
// completed description in, reporting a contradiction as text.
func (p *Prog) pinners() map[*ssa.Function]bool {
	cas := p.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		cc, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := cc.Common().StaticCallee()
		return f != nil && f.Name() == "CompareAndSwap" && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath+"stream/httprange") && strings.Contains(f.String(), "Pointer")
	})
	out := map[*ssa.Function]bool{}
	for fn := range cas {
		rs := fn.Signature.Results()
		if rs.Len() != 1 || !isStringType(rs.At(0).Type()) {
			continue
		}
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			if isHTTP(fn.Signature.Params().At(i).Type(), "Response") {
				out[fn] = true
			}
		}
	}
	return out
}

// ---- C23 ----

func checkRangeValidated(c *Ck) {
	c.Rule("validated", "bytes of a response body reach the caller, or are kept for later reads, only once the path proved: no content coding, status 206, a well-formed Content-Range starting at the offset asked for and ending at or before the end asked for, and nothing contradicting the pinned object", 2)
	c.Rule("pinned", "a request's answer is taken as success or end of object only after it was held against the pinned object", 2)
	c.Rule("conditional", "a range request for data carries the pinned strong validator in If-Range whenever one is known", 2)
	pin := c.P.pinners()
	rel := c.P.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		if fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != "stream/httprange" {
			return false
		}
		if cc, ok := in.(ssa.CallInstruction); ok {
			cm := cc.Common()
			sig := cm.Signature()
			for i := 0; i < sig.Params().Len(); i++ {
				if isHTTP(sig.Params().At(i).Type(), "Response") || isHTTP(sig.Params().At(i).Type(), "Request") {
					return true
				}
			}
		}
		fa, ok := in.(*ssa.FieldAddr)
		return ok && isHTTP(deref(fa.X.Type()), "Response")
	})
	for _, fn := range c.P.exportedFuncs() {
		if pkgRel(fn.Pkg.Pkg) != "stream/httprange" || !rel[fn] {
			continue
		}
		what := fnName(fn)
		ei := errResult(fn.Signature)
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.Relevant = rel
			e.NoInline = func(ci *CallInfo) bool { return isRangeParser(ci.Fn) || pin[ci.Fn] }
			set := func(st *State, resp *Val, k string) {
				if resp != nil {
					st.T["v:"+resp.path()+":"+k] = "1"
				}
			}
			has := func(st *State, resp *Val, k string) bool {
				return resp != nil && st.T["v:"+resp.path()+":"+k] != ""
			}
			ours := func(v *Val) *Val { // response a parser result came from
				var out *Val
				v.walk(func(x *Val) bool {
					if x.k == KRes && x.a[0].k == KCall && x.a[0].s != "" {
						for _, a := range x.a[0].in {
							if n, ok := headerGet(a); ok && n == "Content-Range" {
								if r := respIn(a); r != nil {
									out = r
								}
							}
						}
					}
					return out == nil
				})
				return out
			}
			parsed := func(v *Val, n int) *Val {
				x := unconv(v.strip())
				if x == nil || x.k != KRes || x.n != n || len(x.a[0].in) == 0 {
					return nil
				}
				return ours(x)
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				if b, ok := fieldLoad(cond, "Uncompressed"); ok && !truth {
					set(st, respOf(b), "plain")
				}
				if isPure(cond, "strings.EqualFold") && truth {
					for _, a := range cond.a {
						if n, ok := headerGet(a); ok && n == "Content-Encoding" {
							set(st, respIn(a), "identity")
						}
					}
				}
				if cond.k == KBin && cond.s == "==" {
					x, y := cond.a[0], cond.a[1]
					for i := 0; i < 2; i++ {
						if n, ok := headerGet(x); ok && n == "Content-Encoding" && truth {
							if s, is := y.constStr(); is && (s == "" || s == "identity") {
								set(st, respIn(x), "identity")
							}
						}
						if b, ok := fieldLoad(x, "StatusCode"); ok && truth {
							if k, is := y.constInt(); is && k == 206 {
								set(st, respOf(b), "206")
							}
						}
						if r := parsed(x, 3); r != nil && y.isNilConst() && truth {
							set(st, r, "parsed")
						}
						if r := parsed(x, 0); r != nil && truth && st.S[unconv(y)] == "from" {
							set(st, r, "start")
						}
						if r := parsed(x, 1); r != nil && truth && ours(y) == nil {
							set(st, r, "end")
							set(st, r, "full")
						}
						if r := parsed(x, 1); r != nil && truth && ours(y) == r {
							set(st, r, "full") // ends with the object
						}
						if s, ok := y.constStr(); ok && s == "" && truth && x.k == KRes && len(x.a[0].in) > 0 && isStringType(x.typ) {
							for _, a := range x.a[0].in {
								if isHTTP(a.typ, "Response") && st.S[x] == "pin" {
									set(st, a, "pin")
								}
							}
						}
						x, y = y, x
					}
				}
				if cond.k == KBin && cond.s == "<" && !truth {
					if r := parsed(cond.a[1], 1); r != nil { // !(wantEnd < end)
						set(st, r, "end")
					}
				}
				// validators known?
				if cond.k == KBin && cond.s == "==" && truth {
					for i, x := range cond.a {
						y := cond.a[1-i]
						if y.isNilConst() && isMeta(x) {
							st.T["noLM"], st.T["noET"] = "1", "1"
						}
						if s, ok := y.constStr(); ok && s == "" {
							if b, ok := fieldLoad(x, "etag"); ok && isMeta(b) {
								st.T["noET"] = "1"
							}
							if b, ok := fieldLoad(x, "lastModified"); ok && isMeta(b) {
								st.T["noLM"] = "1"
							}
						}
					}
				}
				if isPure(cond, "strings.HasPrefix") {
					if b, ok := fieldLoad(cond.a[0], "etag"); ok && isMeta(b) {
						if truth {
							st.T["noET"] = "1"
						} else {
							st.T["strong"] = "1"
						}
					}
				}
			}
			use := func(e *Eng, fr *Frame, st *State, resp *Val, in ssa.Instruction, how string) {
				c.Did("validated", what+": "+how)
				for _, k := range []struct{ k, msg string }{
					{"plain", "it may have been decompressed in transit"},
					{"identity", "its Content-Encoding may not be identity"},
					{"206", "its status may not be 206"},
					{"parsed", "its Content-Range may be malformed"},
					{"start", "it may start at another offset than asked for"},
					{"full", "it may end short of both the range asked for and the object"},
					{"pin", "it may belong to another object than the pinned one"},
				} {
					if !has(st, resp, k.k) {
						c.BadAt("validated", what+": "+k.k, e, fr, in, "a response body is %s although %s", how, k.msg)
					}
				}
				if !has(st, resp, "end") && st.T["open-ended"] == "" {
					c.BadAt("validated", what+": end", e, fr, in, "a response body is %s although it may extend past the range asked for", how)
				}
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				full := ci.Full()
				if strings.HasSuffix(full, "net/http.Header.Set") && len(ci.Args) == 2 {
					k, _ := ci.Args[0].constStr()
					v := ci.Args[1]
					switch k {
					case "Range":
						delete(st.T, "ifrange")
						delete(st.T, "data")
						for x, t := range st.S {
							if t == "from" {
								delete(st.S, x)
							}
						}
						delete(st.T, "open-ended")
						nums := numbersIn(v)
						switch s, ok := v.constStr(); {
						case len(nums) > 0:
							st.T["data"] = "1"
							st.S[unconv(nums[0])] = "from"
							if len(nums) == 1 {
								st.T["open-ended"] = "1"
							}
						case ok && strings.HasPrefix(s, "bytes=0-"):
							st.S[e.u.mk(Val{k: KConst, cv: mkInt(0), typ: types.Typ[types.Int]})] = "from"
						default:
							st.T["data"] = "1"
						}
					case "If-Range":
						st.T["ifrange"] = "1"
						if b, ok := fieldLoad(v, "etag"); ok && isMeta(b) && st.T["strong"] == "" {
							c.BadAt("conditional", what, e, ci.fr, ci.Instr, "a possibly weak ETag is sent in If-Range")
						} else if !ok {
							if b, ok := fieldLoad(v, "lastModified"); !ok || !isMeta(b) {
								c.BadAt("conditional", what, e, ci.fr, ci.Instr, "If-Range carries %s, which is not a pinned validator", v)
							}
						}
					}
				}
				if isDo(ci) {
					if st.T["data"] != "" {
						c.Did("conditional", what+" "+fnName(ci.fr.fn))
						if st.T["ifrange"] == "" && !(st.T["noET"] != "" && st.T["noLM"] != "") {
							c.BadAt("conditional", what, e, ci.fr, ci.Instr, "the request may go out without If-Range although a validator is known")
						}
					}
					st.T["sent"] = "1"
					delete(st.T, "pinned")
				}
				body := func(v *Val) *Val {
					if v == nil {
						return nil
					}
					if b, ok := fieldLoad(v.strip(), "Body"); ok {
						return respOf(b)
					}
					return nil
				}
				if ci.Fn == nil || ci.Fn.Blocks == nil || !inRepoFn(ci.Fn) {
					local := func(v *Val) bool {
						r := root(v)
						if v.k == KSlice {
							r = root(v.a[0])
						}
						return r.k == KAlloc
					}
					if ci.Recv != nil && ci.Name() == "Read" {
						if r := body(ci.Recv); r != nil && len(ci.Args) == 1 && !local(ci.Args[0]) {
							use(e, ci.fr, st, r, ci.Instr, "read into the caller's buffer")
						}
					} else if ci.Name() != "Close" {
						for i, a := range ci.Args {
							if r := body(a); r != nil {
								if i > 0 && ci.Args[0].contains(func(x *Val) bool { return x.k == KGlobal && x.glob.Name() == "Discard" }) {
									continue
								}
								if i+1 < len(ci.Args) && local(ci.Args[i+1]) {
									continue
								}
								use(e, ci.fr, st, r, ci.Instr, "handed to "+ci.Name())
							}
						}
					}
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
				if pin[ci.Fn] && res != nil {
					st.S[res] = "pin"
					st.T["pinned"] = "1"
				}
			}
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				if addr.k == KField && v != nil {
					if b, ok := fieldLoad(v.strip(), "Body"); ok {
						if r := respOf(b); r != nil {
							use(e, fr, st, r, in, "kept in "+addr.fld.Name())
						}
					}
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if ei < 0 || st.T["sent"] == "" {
					return
				}
				err := res[ei]
				ok := e.nilness(st, err) == FNil || isEOF(err)
				if ok {
					c.Did("pinned", what)
					if st.T["pinned"] == "" {
						c.BadAt("pinned", what, e, nil, in, "%s reports success or the end of the object although the answer was never held against the pinned object", what)
					}
				}
			}
			return e
		}, fn, nil)
	}
}

func isEOF(v *Val) bool {
	v = v.strip()
	return v != nil && (v.k == KLoad && v.a[0].k == KGlobal && v.a[0].glob.Name() == "EOF" && v.a[0].glob.Pkg.Pkg.Path() == "io")
}

// respIn finds the response a header value was read from.
func respIn(v *Val) *Val {
	var out *Val
	seen := map[*Val]bool{}
	var rec func(x *Val)
	rec = func(x *Val) {
		if x == nil || seen[x] || out != nil {
			return
		}
		seen[x] = true
		if x.k == KRes && x.n == 0 && isHTTP(x.typ, "Response") || x.k == KParam && isHTTP(x.typ, "Response") {
			out = x
			return
		}
		for _, a := range x.a {
			rec(a)
		}
		if x.k == KCall {
			for _, a := range x.in {
				rec(a)
			}
		}
	}
	rec(v)
	return out
}

// isMeta: what an atomic pointer holds about the object.
func isMeta(v *Val) bool {
	return v != nil && v.contains(func(x *Val) bool {
		return x.k == KCall && strings.Contains(x.s, "sync/atomic.Pointer.Load")
	})
}

var _ = sort.Strings

// baseOf: v is a field of a struct (read or loaded); the struct and the field.
func baseOf(v *Val) (*Val, *types.Var) {
	v = v.strip()
	switch {
	case v == nil:
	case v.k == KLoad && v.a[0].k == KField:
		return v.a[0].a[0], v.a[0].fld
	case v.k == KFieldVal:
		return v.a[0], v.fld
	}
	return nil, nil
}

// srcCount: v is the i'th result of reading a source.
func srcCall(v *Val, i int) *Val {
	v = unconv(v.strip())
	if v == nil || v.k != KRes || v.n != i || v.a[0].k != KCall || v.a[0].s == "copy" {
		return nil
	}
	return v.a[0]
}

func marked(st *State, k string) *Val {
	for v, x := range st.S {
		if x == k {
			return v
		}
	}
	return nil
}

func formSub(a, b map[*Val]int, k int) map[*Val]int {
	out := cp(a)
	for t, n := range b {
		if out[t] -= k * n; out[t] == 0 {
			delete(out, t)
		}
	}
	return out
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), types.Typ[types.Byte])
}

// numberParser: one of the numbers of a Content-Range.
func numberParser(v *Val) bool {
	if v == nil || v.k != KRes || v.a[0].k != KCall {
		return false
	}
	for _, a := range v.a[0].in {
		if n, ok := headerGet(a); ok && n == "Content-Range" {
			return true
		}
	}
	return false
}

// inElem2: a field read out of an element of a slice.
func inElem2(v *Val) bool {
	v = v.strip()
	for v != nil && (v.k == KLoad || v.k == KFieldVal || v.k == KField) {
		v = v.a[0]
	}
	return v != nil && (v.k == KIndex || v.k == KElem)
}

func hasParser(f map[*Val]int) bool {
	for t := range f {
		if numberParser(t) {
			return true
		}
	}
	return false
}

func hasNumberParser(v *Val) bool { return v.contains(numberParser) }

func sliceBase(v *Val) *Val {
	for v != nil && v.k == KSlice {
		v = v.a[0]
	}
	return v
}

// elemIndex: v belongs to an element of a slice; where it is in the whole
// slice, and that slice.
func elemIndex(v *Val) (map[*Val]int, *Val) {
	for v != nil {
		switch v.k {
		case KIndex:
			f := linForm(v.a[1])
			s := v.a[0]
			for s.k == KSlice {
				if s.a[1] != nil {
					f = formSub(f, linForm(s.a[1]), -1)
				}
				s = s.a[0]
			}
			return f, s
		case KField, KFieldVal, KLoad, KElem:
			v = v.a[0]
		default:
			return nil, nil
		}
	}
	return nil, nil
}

// cursorField: an integer field that reading or seeking moves.
func cursorField(p *Prog, f *types.Var) bool {
	if p.cursors == nil {
		p.cursors = map[*types.Var]bool{}
		for _, fn := range p.Funcs {
			if n := fn.Name(); fn.Signature.Recv() == nil || n != "Read" && n != "ReadAt" && n != "Seek" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
							if fl := fieldOf(fa.X.Type(), fa.Field); fl != nil && isIntType(fl.Type()) {
								p.cursors[fl] = true
							}
						}
					}
				}
			}
		}
	}
	return p.cursors[f]
}

// ---- C28 ----

func checkCleanEOF(c *Ck) {
	c.Rule("source", "a joined source's end of file is passed on only once the source is proved to have delivered all it holds and to be the last one; more bytes than it holds, or none where it should hold some, are never taken for success or an end", 2)
	c.Rule("body", "a response body that ends is never passed on as io.EOF: the read fails with another error", 1)
	c.Rule("end", "io.EOF is reported only where the path compared the position with the end of what is read, or nothing was there", 3)
	c.Rule("filled", "ReadAt returns without error only once the path proved the whole buffer filled and, where the buffer was cut at an end, that this end was not reached", 3)
	rel := c.P.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		if fn.Pkg == nil || !strings.HasPrefix(pkgRel(fn.Pkg.Pkg), "stream") {
			return false
		}
		if s, ok := in.(*ssa.Slice); ok {
			return isBytes(s.Type())
		}
		if fa, ok := in.(*ssa.FieldAddr); ok && isHTTP(deref(fa.X.Type()), "Response") {
			return true
		}
		if b, ok := in.(*ssa.BinOp); ok && isIntType(b.X.Type()) {
			return true
		}
		cc, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		for _, a := range cc.Common().Args {
			if isBytes(a.Type()) {
				return true
			}
		}
		return false
	})
	for _, fn := range c.P.exportedFuncs() {
		pkg := pkgRel(fn.Pkg.Pkg)
		if pkg != "stream" && pkg != "stream/httprange" || fn.Signature.Recv() == nil || fn.Name() != "Read" && fn.Name() != "ReadAt" || errResult(fn.Signature) != 1 {
			continue
		}
		what := fnName(fn)
		var off, buf *Val
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.Relevant = rel
			pin := c.P.pinners()
			e.NoInline = func(ci *CallInfo) bool { return isRangeParser(ci.Fn) || pin[ci.Fn] }
			lenP := func(v *Val) bool {
				return v != nil && v.k == KPure && v.s == "len" && isBytes(v.a[0].typ)
			}
			n := func(st *State) *Val {
				c := marked(st, "src")
				if c == nil {
					return nil
				}
				return e.u.mk(Val{k: KRes, a: []*Val{c}, n: 0, typ: types.Typ[types.Int]})
			}
			// progress: v counts bytes, or is where the reader stands
			progress := func(v *Val) bool {
				if v == nil {
					return false
				}
				if v == off || lenP(v) || v.k == KPhi || srcCall(v, 0) != nil && isIntType(v.typ) && !numberParser(v) {
					return true
				}
				if v.k == KRes && strings.HasSuffix(v.a[0].s, "atomic.Int64.Load") {
					return true
				}
				_, f := baseOf(v)
				return f != nil && cursorField(c.P, f)
			}
			endKey := func(f map[*Val]int) string {
				g := map[*Val]int{}
				for t, k := range f {
					if t == nil && k > -1<<32 && k < 1<<32 || t != nil && progress(t) {
						continue
					}
					g[t] = k
				}
				return formKey(g)
			}
			// granted: what is left of an open response
			granted := func(v *Val) bool {
				b, f := baseOf(v)
				if b == nil || !isIntType(f.Type()) {
					return false
				}
				x := b.strip()
				if x.typ == nil {
					return false
				}
				if s := structOf(deref(x.typ)); s != nil {
					for i := 0; i < s.NumFields(); i++ {
						if hasMethods(s.Field(i).Type(), "Read") {
							return true
						}
					}
				}
				return false
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				src := marked(st, "src")
				if isPure(cond, "errors.Is") && len(cond.a) == 2 && isEOF(cond.a[1]) && !truth && src != nil && srcCall(cond.a[0], 1) == src {
					st.T["noeof"] = "1"
				}
				if cond.k == KRes && cond.n == 1 && strings.Contains(cond.a[0].s, "Search") && !truth || cond.k == KPure && cond.n == 1 && strings.Contains(cond.s, "Search") && !truth {
					st.T["end"] = "1" // nothing holds the position
				}
				if cond.k != KBin || cond.s != "<" && cond.s != "==" {
					return
				}
				x, y := cond.a[0], cond.a[1]
				if cond.s == "==" {
					for i := 0; i < 2; i++ {
						if src != nil && srcCall(x, 1) == src {
							if isEOF(y) && !truth || y.isNilConst() && truth {
								st.T["noeof"] = "1"
							}
							if isEOF(y) && truth {
								st.T["srceof"] = "1"
							}
							if y.isNilConst() && truth {
								st.T["ok"] = "1"
							}
						}
						x, y = y, x
					}
				}
				if x.typ == nil || !isIntType(x.typ) {
					return
				}
				f := formSub(linForm(y), linForm(x), 1) // y - x
				// g >= lo is proved
				type fact struct {
					g  map[*Val]int
					lo int
				}
				var fs []fact
				minus := formSub(map[*Val]int{}, f, 1)
				switch {
				case cond.s == "==" && truth:
					fs = []fact{{f, 0}, {minus, 0}}
				case cond.s == "<" && truth:
					fs = []fact{{f, 1}}
				case cond.s == "<":
					fs = []fact{{minus, 0}}
				default: // they differ: what cannot be negative is positive
					if len(f) == 1 {
						for t, k := range f {
							if t != nil && progress(t) {
								fs = []fact{{map[*Val]int{t: k * k}, 1}}
							}
						}
					}
				}
				nv := n(st)
				if nv != nil && !(cond.s == "==" && truth) {
					// not at an end, which is recorded without the progress made
					for _, g := range []map[*Val]int{f, minus} {
						moved := false
						for t := range g {
							if t != nil && !lenP(t) && progress(t) && g[t] < 0 {
								moved = true
							}
						}
						for t := range g {
							if moved && numberParser(t) {
								st.T["t:total"] = "1"
							}
							if moved && granted(t) {
								st.T["t:granted"] = "1"
							}
						}
						if moved {
							st.T["t:"+endKey(g)] = "1"
						}
					}
				}
				for _, p := range fs {
					g := cp(p.g)
					lo := p.lo - g[nil] // g without its constant >= lo
					delete(g, nil)
					if lo == 1 && len(g) == 1 {
						for t, k := range g {
							if t == nv && k == 1 {
								st.T["some"] = "1"
							}
						}
					}
					if len(g) == 1 && lo >= 0 {
						for t, k := range g {
							if k == -1 && lenP(t) {
								st.T["filled"] = "1" // an empty buffer
							}
							if k == -1 && srcCall(t, 0) != nil && t != nv && !numberParser(t) {
								st.T["end"] = "1" // a probe found nothing
							}
							if k == -1 && lo >= 1 && !numberParser(t) {
								st.T["end"] = "1" // a negative position or index
							}
						}
					}
					if lo >= 0 && len(g) > 1 {
						lens, counts := 0, 0
						for t, k := range g {
							switch {
							case (lenP(t) || t.k == KPhi && slices.ContainsFunc(t.in, func(v *Val) bool { return lenP(unconv(v)) })) && k == -1:
								lens++
							case (srcCall(t, 0) != nil && !numberParser(t) || t.k == KPhi) && k >= 1:
								counts++
							default:
								lens = 9
							}
						}
						if lens == 1 && counts > 0 {
							st.T["filled"] = "1"
						}
					}
					// base and total, or start and length, on either side
					cancels := func(g map[*Val]int) bool {
						p, n := false, false
						for t, k := range g {
							if !progress(t) {
								p, n = p || k > 0, n || k < 0
							}
						}
						return p && n
					}
					wide := func(g map[*Val]int) bool {
						for t := range g {
							b, ok := t.typ.Underlying().(*types.Basic)
							return ok && b.Kind() == types.Int64
						}
						return false
					}
					pr, en, kind := 0, 0, "end"
					for t, k := range g {
						if t.k == KBin || t.k == KUn || inElem2(t) || numberParser(t) && t.n != 2 {
							kind = ""
						}
						if lenP(t) && kind != "" {
							kind = "past" // the buffer reaches past the end
						}
						if progress(t) {
							pr += k
						} else {
							en += k
						}
					}
					if lo >= 0 && (pr > 0 && (en < 0 || lo > 1<<32 || cancels(g)) || pr == 0 && en == -1 && len(g) == 1 && lo == 0 && wide(g) || pr == 0 && cancels(g) && hasParser(g)) && !(len(g) == 1 && en != 0 && hasParser(g)) {
						if kind != "" {
							st.T[kind] = "1"
						}
					}
					// no source left to look at
					if len(g) <= 2 && lo >= -2 {
						for t, k := range g {
							if t.k == KPure && t.s == "len" && !isBytes(t.a[0].typ) && k == -1 {
								st.T["end"] = "1"
							}
						}
					}
					// the last source: idx - len >= -1
					if at, in := elemIndex(marked(st, "src.recv")); at != nil {
						d := formSub(p.g, at, 1)
						ln := e.u.mk(Val{k: KPure, s: "len", a: []*Val{in}, typ: types.Typ[types.Int]})
						if d[ln]++; d[ln] == 0 {
							delete(d, ln)
						}
						c := d[nil]
						delete(d, nil)
						if len(d) == 0 && p.lo-c >= -1 {
							st.T["last"] = "1"
						}
					}
					// against what the source holds
					bs, bf := (*Val)(nil), (*types.Var)(nil)
					if r := marked(st, "src.recv"); r != nil {
						bs, bf = baseOf(r)
					}
					o := marked(st, "src.off")
					if bs == nil || o == nil {
						continue
					}
					for t, k := range g {
						b, fl := baseOf(unconv(t))
						if b != bs || fl == bf || k != 1 && k != -1 {
							continue
						}
						h := formSub(g, map[*Val]int{t: k}, 1)
						h = formSub(h, linForm(o), -k) // h + k*off: held minus offset accounted for
						lo := lo - h[nil]
						delete(h, nil)
						switch {
						case len(h) == 0 && k == -1 && lo >= 0: // nothing is held here
							st.T["some"] = "1"
						case len(h) == 1 && h[nv] == -k && k == -1 && lo >= 0: // n >= rem
							st.T["all"] = "1"
						case len(h) == 1 && h[nv] == -k && k == 1 && lo >= 0: // n <= rem
							st.T["within"] = "1"
						}
					}
				}
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
				if inl || res == nil || ci.Builtin != "" {
					return
				}
				if isDo(ci) {
					delete(st.T, "end")
					delete(st.T, "past")
					delete(st.T, "filled")
				}
				src := srcCall(resOf(res, 0), 0)
				if src == nil || srcCall(resOf(res, 1), 1) != src || !isErrorType(resOf(res, 1).typ) {
					return
				}
				var b, o *Val
				rcv := ci.Recv
				for _, a := range ci.Args {
					switch {
					case isBytes(a.typ):
						b = a
					case isIntType(a.typ):
						o = a
					case rcv == nil:
						rcv = a
					}
				}
				if b == nil || rcv == nil || root(sliceBase(b)).k == KAlloc {
					return
				}
				for v, k := range st.S {
					if strings.HasPrefix(k, "src") {
						delete(st.S, v)
					}
				}
				for k := range st.T {
					if k != "end" && k != "past" && !strings.HasPrefix(k, "cut:") || k == "end" && pkg == "stream/httprange" {
						delete(st.T, k)
					}
				}
				st.S[src], st.S[b], st.S[rcv] = "src", "src.buf", "src.recv"
				if o != nil {
					st.S[o] = "src.off"
				}
				if f, ok := fieldLoad(rcv, "Body"); ok && f != nil {
					st.T["body"] = "1"
				}
				if ci.Full() == "io.ReadFull" {
					st.T["full"] = "1"
				}
			}
			e.OnSlice = func(e *Eng, st *State, base, lo, hi *Val, in ssa.Instruction) {
				x := sliceBase(base)
				if hi == nil || !isBytes(base.typ) || x != buf && x.k != KPhi {
					return
				}
				if _, is := hi.constInt(); is {
					return
				}
				k := "view"
				if hasNumberParser(hi) || isMeta(hi) {
					k = "total"
				}
				st.T["cut:"+endKey(linForm(hi))] = k
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				err := res[1]
				nl := e.nilness(st, err)
				src := marked(st, "src")
				passed := src != nil && (srcCall(err, 1) == src && st.T["noeof"] == "" || isEOF(err) && st.T["srceof"] != "" && st.T["end"] == "" && !(st.T["past"] != "" && st.T["filled"] != ""))
				if src != nil && st.T["body"] != "" {
					c.Did("body", what)
					if passed {
						c.BadAt("body", what, e, nil, in, "%s may pass on the end of a response body as io.EOF", what)
					}
				}
				if src != nil && st.T["body"] == "" && marked(st, "src.off") != nil && (nl == FNil || passed) {
					c.Did("source", what)
					if st.T["within"] == "" {
						c.BadAt("source", what+": more", e, nil, in, "%s may take more bytes than the source holds for a good read", what)
					}
					if st.T["some"] == "" && st.T["noeof"] == "" && st.T["all"] == "" {
						c.BadAt("source", what+": none", e, nil, in, "%s may take a source that delivers nothing where it should hold some for a good read or an end", what)
					}
					if passed && (st.T["all"] == "" || st.T["last"] == "") {
						c.BadAt("source", what+": end", e, nil, in, "%s may pass on a source's end of file although the source was cut short or is not the last", what)
					}
				}
				if isEOF(err) {
					c.Did("end", what)
					if st.T["end"] == "" && !(st.T["past"] != "" && st.T["filled"] != "") && !passed {
						c.BadAt("end", what, e, nil, in, "%s reports io.EOF without having found the position at the end of what is read", what)
					}
				}
				if nl == FNil && fn.Name() == "ReadAt" && src != nil {
					c.Did("filled", what)
					if st.T["filled"] == "" && !(st.T["full"] != "" && st.T["ok"] != "") {
						c.BadAt("filled", what, e, nil, in, "%s returns without error although the buffer may not have been filled", what)
					}
					for k, v := range st.T {
						if h, ok := strings.CutPrefix(k, "cut:"); ok && st.T["t:"+h] == "" && st.T["t:granted"] == "" && !(v == "total" && st.T["t:total"] != "") {
							c.BadAt("filled", what+": cut", e, nil, in, "%s returns without error although the buffer was cut at an end that may have been reached", what)
						}
					}
				}
			}
			return e
		}, fn, func(e *Eng, st *State, ps []*Val) {
			buf = ps[1]
			if len(ps) > 2 {
				off = ps[2]
			}
		})
	}
}

// ---- C24 ----

var protectedHeaders = []string{"Accept-Encoding", "If-Range", "Range"}

// headerField: v is a load of a header field of a struct; the struct's value
// and the field.
func headerField(v *Val) (*Val, *types.Var) {
	v = v.strip()
	if v == nil || v.typ == nil {
		return nil, nil
	}
	if n := namedOf(v.typ); n == nil || n.Obj().Name() != "Header" || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "net/http" {
		return nil, nil
	}
	switch {
	case v.k == KLoad && v.a[0].k == KField:
		return v.a[0].a[0], v.a[0].fld
	case v.k == KFieldVal:
		return v.a[0], v.fld
	}
	return nil, nil
}

func checkHeaders(c *Ck) {
	c.Rule("ours", "no header set or deleted for the protocol (Range, If-Range, Accept-Encoding) is overridden by a configured header before the request is sent; httprange settles all three on every request", 4)
	c.Rule("apart", "configured headers, request headers and header snapshots handed out never share one map: each crossing between an exported and an unexported header field, or into a request, goes through a copy", 4)
	rel := c.P.reachMap(func(fn *ssa.Function, in ssa.Instruction) bool {
		if fn.Pkg == nil || !strings.HasPrefix(pkgRel(fn.Pkg.Pkg), "stream/") {
			return false
		}
		if cc, ok := in.(ssa.CallInstruction); ok {
			cm := cc.Common()
			for _, a := range cm.Args {
				if isHTTP(a.Type(), "Request") {
					return true
				}
			}
			if f := cm.StaticCallee(); f != nil && f.Name() != "Get" && f.Name() != "Values" && f.Signature.Recv() != nil {
				if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Name() == "Header" {
					return true
				}
			}
			sig := cm.Signature()
			for i := 0; i < sig.Results().Len(); i++ {
				if isHTTP(sig.Results().At(i).Type(), "Request") {
					return true
				}
			}
		}
		if st, ok := in.(*ssa.Store); ok {
			n := namedOf(st.Val.Type())
			return n != nil && n.Obj().Name() == "Header"
		}
		return false
	})
	pin := c.P.pinners()
	fns := c.P.exportedFuncs()
	for fn := range pin {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	for _, fn := range fns {
		pkg := pkgRel(fn.Pkg.Pkg)
		if !strings.HasPrefix(pkg, "stream/") || !rel[fn] {
			continue
		}
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.Relevant = rel
			e.NoInline = func(ci *CallInfo) bool { return pin[ci.Fn] }
			request := func(v *Val) bool { // the header of a request being built
				b, f := headerField(v)
				if f != nil {
					return isHTTP(b.typ, "Request")
				}
				return false
			}
			static := func(v *Val) bool {
				_, f := headerField(v)
				return f != nil && f.Pkg() != nil && strings.HasPrefix(f.Pkg().Path(), modPath)
			}
			touch := func(e *Eng, fr *Frame, st *State, h, k *Val, in ssa.Instruction, how string) {
				if static(h) {
					c.BadAt("apart", what+": write", e, fr, in, "%s changes the headers the object was configured with", how)
					return
				}
				if !request(h) && st.S[h] != "copy" {
					return
				}
				key, ok := k.constStr()
				if !ok {
					for _, p := range protectedHeaders {
						delete(st.T, "ours:"+p)
						st.T["static"] = "1"
					}
					return
				}
				for _, p := range protectedHeaders {
					if strings.EqualFold(p, key) {
						st.T["ours:"+p] = "1"
						st.T["set:"+p] = "1"
					}
				}
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				full := ci.Full()
				if ci.Recv != nil && strings.HasSuffix(full, "net/http.Header."+ci.Name()) {
					switch ci.Name() {
					case "Set", "Add", "Del":
						touch(e, ci.fr, st, ci.Recv.strip(), ci.Args[0], ci.Instr, ci.Name())
					}
				}
				if isDo(ci) {
					c.Did("ours", what+" "+fnName(ci.fr.fn))
					for _, p := range protectedHeaders {
						must := pkg == "stream/httprange" || st.T["set:"+p] != ""
						if must && st.T["ours:"+p] == "" {
							c.BadAt("ours", what+": "+p, e, ci.fr, ci.Instr, "the request is sent with a %s that the configured headers may decide", p)
						}
					}
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
				if res == nil {
					return
				}
				if strings.HasSuffix(ci.Full(), "net/http.Header.Clone") {
					st.S[res.strip()] = "copy"
				}
				if f := ci.Full(); strings.HasSuffix(f, "net/http.NewRequestWithContext") || strings.HasSuffix(f, "net/http.NewRequest") {
					for _, p := range protectedHeaders {
						delete(st.T, "ours:"+p)
						delete(st.T, "set:"+p)
					}
				}
			}
			e.OnMap = func(e *Eng, fr *Frame, st *State, m, k *Val, write bool, in ssa.Instruction) {
				if write {
					if n := namedOf(m.typ); n != nil && n.Obj().Name() == "Header" {
						touch(e, fr, st, m.strip(), k, in, "a map write")
					}
				}
			}
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				if addr.k != KField || v == nil || v.typ == nil {
					return
				}
				if n := namedOf(addr.fld.Type()); n == nil || n.Obj().Name() != "Header" {
					return
				}
				if _, f := headerField(v); f != nil {
					c.Did("apart", what+" "+addr.fld.Name()+"<-"+f.Name())
					if f.Exported() != addr.fld.Exported() || f.Pkg() != addr.fld.Pkg() {
						c.BadAt("apart", what+": "+addr.fld.Name(), e, fr, in, "the header map of %s is kept as %s without a copy", f.Name(), addr.fld.Name())
					}
				} else if st.S[v.strip()] == "copy" {
					c.Did("apart", what+" "+addr.fld.Name()+"<-copy")
				} else if r := root(v); r.k == KParam {
					c.BadAt("apart", what+": "+addr.fld.Name(), e, fr, in, "the caller's header map is kept as %s without a copy", addr.fld.Name())
				}
				if isHTTP(addr.a[0].typ, "Request") {
					for _, p := range protectedHeaders {
						delete(st.T, "ours:"+p)
					}
				}
			}
			return e
		}, fn, nil)
	}
}

// ---- C26 ----

// metaField: v reads a field of what an atomic pointer holds (or of a copy of
// it); the field's name.
func metaField(v *Val) string {
	v = v.strip()
	switch {
	case v == nil:
	case v.k == KLoad && v.a[0].k == KField && isMeta(v.a[0].a[0]):
		return v.a[0].fld.Name()
	case v.k == KFieldVal && isMeta(v.a[0]):
		return v.fld.Name()
	}
	return ""
}

func checkPinned(c *Ck) {
	c.Rule("swap", "what later responses are held to is replaced only by compare-and-swap against the description it was completed from; a plain store is for an object not shared yet", 2)
	c.Rule("held", "a description is swapped in only after every identifying property of the response was proved equal to the pinned one or unstated on one side", 4)
	c.Rule("settles", "completing a description only fills properties proved unset; a settled property is never overwritten", 4)
	targets := map[*ssa.Function]bool{}
	pins := c.P.pinners()
	for _, fn := range c.P.Funcs {
		if fn.Pkg == nil || !strings.HasPrefix(pkgRel(fn.Pkg.Pkg), "stream/") || fn.Blocks == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					if f := cc.Common().StaticCallee(); f != nil && strings.Contains(f.String(), "sync/atomic.Pointer") && f.Name() != "Load" {
						targets[fn] = true
					}
				}
			}
		}
	}
	var fns []*ssa.Function
	for fn := range targets {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	// One run per property keeps the abstract state small: each run records only
	// what bears on its property.
	fields := map[string]*types.Struct{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if cc, ok := in.(ssa.CallInstruction); ok {
					if f := cc.Common().StaticCallee(); f != nil && f.Name() == "CompareAndSwap" && len(cc.Common().Args) == 3 {
						if t := structOf(cc.Common().Args[1].Type()); t != nil {
							for i := 0; i < t.NumFields(); i++ {
								fields[t.Field(i).Name()] = t
							}
						}
					}
				}
			}
		}
	}
	type job struct {
		fn    *ssa.Function
		field string
	}
	var jobs []job
	for _, fn := range fns {
		for f := range fields {
			jobs = append(jobs, job{fn, f})
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].field < jobs[j].field })
	for _, j := range jobs {
		fn, only := j.fn, j.field
		mine := func(f string) bool { return f == only || f == only+"Known" }
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				if f := metaField(cond); f != "" && mine(f) && !truth { // !sizeKnown, !verified
					st.T["unset:"+f] = "1"
				}
				if cond.k != KBin || cond.s != "==" || !truth {
					return
				}
				x, y := cond.a[0], cond.a[1]
				for i := 0; i < 2; i++ {
					if f := metaField(x); f != "" && mine(f) {
						if s, ok := y.constStr(); ok && s == "" || y.isNilConst() {
							st.T["unset:"+f] = "1"
						} else if !isMeta(y) {
							if n, ok := headerGet(y); ok {
								st.T["same:"+f] = n
							} else {
								st.T["same:"+f] = "other"
							}
						}
					}
					if isMeta(x) && metaField(x) == "" && y.isNilConst() {
						st.T["none"] = "1"
					}
					if s, ok := y.constStr(); ok && s == "" {
						if n, ok := headerGet(x); ok && st.T["src:"+only] == "header:"+n {
							st.T["got:"+n] = "1"
						}
					}
					x, y = y, x
				}
			}
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				if addr.k != KField || addr.a[0].k != KAlloc || v == nil {
					return
				}
				f := addr.fld.Name()
				if !mine(f) {
					return
				}
				if st.S[addr.a[0]] == "completing" {
					if isMeta(v) && metaField(v) == f {
						return
					}
					c.Did("settles", what+" "+f)
					ok := st.T["unset:"+f] != "" || st.T["unset:"+f+"Known"] != ""
					if !ok {
						c.BadAt("settles", what+": "+f, e, fr, in, "%s is overwritten although it may be settled already", f)
					}
					return
				}
				if n, ok := headerGet(v); ok {
					st.T["src:"+f] = "header:" + n
				} else if s, ok := v.constStr(); ok && s == "" {
					st.T["src:"+f] = "empty"
				} else {
					delete(st.T, "src:"+f)
				}
			}
			held := func(e *Eng, fr *Frame, st *State, t *types.Struct, in ssa.Instruction) {
				for i := 0; i < t.NumFields(); i++ {
					f := t.Field(i).Name()
					if f != only {
						continue
					}
					known := ""
					if !isStringType(t.Field(i).Type()) {
						if !isIntType(t.Field(i).Type()) {
							continue
						}
						for j := 0; j < t.NumFields(); j++ {
							if t.Field(j).Name() == f+"Known" {
								known = f + "Known"
							}
						}
					}
					c.Did("held", what+" "+f)
					src := st.T["src:"+f]
					switch {
					case st.T["unset:"+f] != "" && known == "", known != "" && st.T["unset:"+known] != "", st.T["same:"+f] != "" && (!strings.HasPrefix(src, "header:") || src == "header:"+st.T["same:"+f]), src == "empty",
						strings.HasPrefix(src, "header:") && st.T["got:"+src[7:]] != "":
					default:
						c.BadAt("held", what+": "+f, e, fr, in, "the response may contradict the pinned %s", f)
					}
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if len(res) == 1 && isStringType(res[0].typ) && !hasText(res[0]) && st.T["none"] == "" && pins[fn] {
					held(e, nil, st, fields[only], in)
				}
			}
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				full := ci.Full()
				if !strings.Contains(full, "sync/atomic.Pointer") || ci.Recv == nil {
					return nil, false
				}
				switch ci.Name() {
				case "Store", "Swap":
					c.Did("swap", what+" "+ci.Name())
					if r := root(ci.Recv); r.k != KAlloc {
						c.BadAt("swap", what, e, ci.fr, ci.Instr, "%s replaces what may already be shared and settled", ci.Name())
					}
				case "CompareAndSwap":
					c.Did("swap", what+" "+ci.Name())
					if st.S[ci.Args[0].strip()] != "cur" {
						c.BadAt("swap", what, e, ci.fr, ci.Instr, "the old value is not the one just loaded")
					}
					t := structOf(ci.Args[0].typ)
					if t == nil {
						return nil, false
					}
					if st.T["none"] != "" {
						return nil, false
					}
					if nw := ci.Args[1].strip(); st.S[nw] != "completing" && st.S[nw] != "cur" {
						c.BadAt("settles", what+": whole", e, ci.fr, ci.Instr, "the description swapped in was not completed from the pinned one")
					}
					held(e, ci.fr, st, t, ci.Instr)
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
				if ci.Name() == "Load" && strings.Contains(ci.Full(), "sync/atomic.Pointer") && res != nil {
					for k := range st.T {
						if strings.HasPrefix(k, "unset:") || strings.HasPrefix(k, "same:") || strings.HasPrefix(k, "got:") || k == "none" {
							delete(st.T, k)
						}
					}
					for k, v := range st.S {
						if v == "cur" || v == "completing" {
							delete(st.S, k)
						}
					}
					st.S[res.strip()] = "cur"
				}
			}
			// keep apart what a helper returned: the pinned description itself or
			// the completed copy
			e.OnExit = func(e *Eng, fr *Frame, st *State, res []*Val, in ssa.Instruction) {
				if len(res) == 1 && res[0] != nil && structOf(res[0].typ) != nil {
					st.T["ret"] = st.S[res[0].strip()]
				}
			}
			prev := e.OnStore
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				if addr.k == KAlloc && v != nil && v.k == KLoad && isMeta(v.a[0]) && structOf(addr.typ) != nil {
					st.S[addr] = "completing"
				}
				prev(e, fr, st, addr, v, in)
			}
			return e
		}, fn, nil)
	}
}

// structOf: the struct type behind t, pointers removed.
func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

// ---- C25 ----

var urlSecrets = []string{"User", "RawQuery", "Fragment", "Opaque"}

func isURLType(t types.Type, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "net/url" && n.Obj().Name() == name
}

// rawURLs: fields and parameters whose text is parsed or requested as a URL.
func (p *Prog) rawURLs() (map[*types.Var]bool, map[*ssa.Parameter]bool) {
	fields, params := map[*types.Var]bool{}, map[*ssa.Parameter]bool{}
	mark := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					f := structOf(fa.X.Type()).Field(fa.Field)
					if !fields[f] && f.Pkg() != nil && strings.HasPrefix(f.Pkg().Path(), modPath) {
						fields[f] = true
						return true
					}
				}
				return false
			case *ssa.Parameter:
				if !params[x] {
					params[x] = true
					return true
				}
				return false
			default:
				return false
			}
		}
	}
	for again := true; again; {
		again = false
		for _, fn := range p.Funcs {
			if fn.Pkg == nil || !strings.HasPrefix(pkgRel(fn.Pkg.Pkg), "stream/") {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fields[structOf(fa.X.Type()).Field(fa.Field)] {
							again = mark(st.Val) || again
						}
					}
					cc, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					f := cc.Common().StaticCallee()
					if f == nil {
						continue
					}
					if o := f.Origin(); o != nil {
						f = o
					}
					for i, a := range cc.Common().Args {
						full := f.String()
						if full == "net/url.Parse" || full == "net/http.NewRequest" && i == 1 || full == "net/http.NewRequestWithContext" && i == 2 || i < len(f.Params) && params[f.Params[i]] {
							again = mark(a) || again
						}
					}
				}
			}
		}
	}
	return fields, params
}

func checkRedaction(c *Ck) {
	c.Rule("no-url", "no error an exported function returns carries a URL's userinfo, query, fragment or opaque part, or the unparsed text of a URL", 8)
	c.Rule("no-raw-error", "an error of the transport, of building a request or of reading a response body is returned only after it was found to be no url.Error or had its URL replaced", 6)
	c.Rule("cause", "an error rebuilt around a redacted URL carries the same cause", 4)
	fields, params := c.P.rawURLs()
	pin := c.P.pinners()
	for _, fn := range c.P.exportedFuncs() {
		pkg := pkgRel(fn.Pkg.Pkg)
		ei := errResult(fn.Signature)
		if pkg != "stream/httprange" && pkg != "stream/fileserver" || ei < 0 {
			continue
		}
		what := fnName(fn)
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.NoInline = func(ci *CallInfo) bool { return pin[ci.Fn] || isRangeParser(ci.Fn) }
			dirtyURL := func(st *State, u *Val) bool { // *url.URL or url.URL
				for _, f := range urlSecrets {
					if st.T["red:"+u.path()+":"+f] == "" {
						return true
					}
				}
				return false
			}
			// why says what v would reveal, or "".
			var why func(st *State, v *Val, seen map[*Val]bool) string
			why = func(st *State, v *Val, seen map[*Val]bool) string {
				if v == nil || seen[v] {
					return ""
				}
				seen[v] = true
				if st.S[v] == "checked" || st.S[v] == "clean" {
					return ""
				}
				if st.S[v] == "dirty" {
					return v.String()
				}
				if v.k == KPure && strings.HasPrefix(v.s, "net/url.URL.") {
					return "" // marked when it was made, on the paths that made it
				}
				if v.typ != nil && isURLType(v.typ, "URL") && v.k != KField {
					u := v
					if v.k == KLoad && v.a[0].k == KAlloc {
						u = v.a[0]
					}
					if dirtyURL(st, u) {
						return "the URL " + v.String()
					}
					return ""
				}
				switch v.k {
				case KLoad, KFieldVal:
					b, f := v.a[0], v.fld
					if v.k == KLoad {
						if b.k == KAlloc {
							if isURLType(b.typ, "Error") {
								return ""
							}
						}
						if b.k != KField {
							return ""
						}
						b, f = b.a[0], b.fld
					}
					if fields[f] {
						return "the raw URL " + v.path()
					}
					if b.typ != nil && isURLType(b.typ, "Error") && f.Name() == "URL" {
						return "the raw URL of a url.Error"
					}
					if b.typ != nil && isURLType(b.typ, "URL") {
						for _, n := range urlSecrets {
							if f.Name() == n {
								return n + " of a URL"
							}
						}
					}
					return ""
				case KParam:
					for p := range params {
						if p.Parent() == fn && v.n < len(fn.Params) && fn.Params[v.n] == p {
							return "the raw URL parameter " + p.Name()
						}
					}
					return ""
				case KCall, KAlloc, KConst, KField:
					return ""
				case KRes:
					return "" // marked dirty when it is
				}
				for _, a := range v.a {
					if w := why(st, a, seen); w != "" {
						return w
					}
				}
				for _, a := range v.in {
					if w := why(st, a, seen); w != "" {
						return w
					}
				}
				return ""
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				cond, truth = condPeel(cond, truth)
				if truth {
					return
				}
				var src *Val
				if cond.k == KPure && cond.s == "errors.AsType" && cond.n == 1 {
					if cc, ok := in.(*ssa.If); ok {
						if ex, ok := cc.Cond.(*ssa.Extract); ok {
							if t, ok := ex.Tuple.Type().(*types.Tuple); ok && isURLType(t.At(0).Type(), "Error") {
								src = cond.a[0]
							}
						}
					}
				}
				if cond.k == KPure && cond.s == "errors.As" && len(cond.a) == 2 {
					if t := cond.a[1].strip().typ; t != nil && isURLType(deref(deref(t)), "Error") {
						src = cond.a[0]
					}
				}
				if src != nil {
					if src = src.strip(); st.S[src] == "dirty" {
						c.Did("no-raw-error", what+" "+src.String())
					}
					st.S[src] = "checked"
				}
			}
			e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
				if addr.k != KField {
					if addr.k == KAlloc && isURLType(addr.typ, "URL") {
						for _, f := range urlSecrets {
							delete(st.T, "red:"+addr.path()+":"+f)
						}
					}
					return
				}
				if isURLType(addr.a[0].typ, "URL") {
					for _, f := range urlSecrets {
						if addr.fld.Name() == f {
							if s, ok := v.constStr(); v.isNilConst() || ok && s == "" {
								st.T["red:"+addr.a[0].path()+":"+f] = "1"
							} else {
								delete(st.T, "red:"+addr.a[0].path()+":"+f)
							}
						}
					}
				}
				if isURLType(addr.a[0].typ, "Error") && addr.fld.Name() == "Err" {
					c.Did("cause", what)
					if b, ok := fieldLoad(v.strip(), "Err"); !ok || !isURLType(b.typ, "Error") {
						c.BadAt("cause", what, e, fr, in, "the rebuilt error does not carry the cause of the one it replaces")
					}
				}
				if isURLType(addr.a[0].typ, "Error") && addr.fld.Name() == "URL" {
					if w := why(st, v, map[*Val]bool{}); w != "" {
						c.BadAt("no-url", what+": url.Error", e, fr, in, "an error is built around %s", w)
					}
				}
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inl bool) {
				if res == nil || inl {
					return
				}
				full := ci.Full()
				if strings.HasSuffix(full, "net/url.URL.String") || strings.HasSuffix(full, "net/url.URL.Redacted") {
					u := ci.Recv
					if dirtyURL(st, u) {
						st.S[res.strip()] = "dirty"
					} else {
						st.S[res.strip()] = "clean"
					}
				}
				src := isDo(ci) || strings.Contains(full, "net/http.NewRequest") || full == "net/url.Parse"
				if !src && (ci.Fn == nil || !inRepoFn(ci.Fn)) {
					for _, a := range append([]*Val{ci.Recv}, ci.Args...) {
						if a == nil {
							continue
						}
						if bodyOf(a) != nil {
							src = true
						}
						if b := a.strip(); pkg == "stream/httprange" && b != nil && b.k == KLoad && b.a[0].k == KField && strings.HasSuffix(b.a[0].fld.Type().String(), "io.ReadCloser") {
							src = true
						}
					}
				}
				if src {
					if r := errOf(ci, res); r != nil {
						st.S[r] = "dirty"
						c.Did("no-raw-error", what+" "+r.String())
					}
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				if e.nilness(st, res[ei]) == FNil {
					return
				}
				c.Did("no-url", what)
				if w := why(st, res[ei], map[*Val]bool{}); w != "" {
					c.BadAt("no-url", what, e, nil, in, "%s returns an error that carries %s", what, w)
				}
			}
			return e
		}, fn, nil)
	}
}
