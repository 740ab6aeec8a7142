package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wrapped lists the errors an error built by fmt.Errorf or errors.Join wraps:
// the operands of %w verbs, through any nesting. The value itself comes first.
func wrapped(v *Val) []*Val {
	var out []*Val
	seen := map[*Val]bool{}
	var rec func(x *Val)
	rec = func(x *Val) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		out = append(out, x)
		y := x.strip()
		if y != x {
			rec(y)
			return
		}
		switch {
		case isPure(y, "fmt.Errorf") && len(y.a) > 0:
			f, ok := y.a[0].constStr()
			if !ok {
				return
			}
			arg := 1
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				j := i + 1
				for j < len(f) && strings.ContainsRune("+-# 0123456789.[]", rune(f[j])) {
					j++
				}
				if j < len(f) && f[j] != '%' {
					if f[j] == 'w' && arg < len(y.a) {
						rec(y.a[arg])
					}
					arg++
				}
				i = j
			}
		case isPure(y, "errors.Join"):
			for _, a := range y.a {
				rec(a)
			}
		case y.k == KRes && y.a[0].k == KCall && strings.HasSuffix(y.a[0].s, "errors.Join"):
			for _, a := range y.a[0].in {
				rec(a)
			}
		}
	}
	rec(v)
	return out
}

func wrapsGlobal(v *Val, name string) bool {
	for _, x := range wrapped(v) {
		if isGlobalLoad(x) && lastElem(strings.ReplaceAll(x.String(), ".", "/")) == name || x.k == KLoad && x.a[0].k == KGlobal && strings.HasSuffix(x.a[0].s, "."+name) {
			return true
		}
	}
	return false
}

// fromHeader: v was computed from a response header.
func fromHeader(v *Val, name string) bool {
	found := false
	seen := map[*Val]bool{}
	var rec func(x *Val)
	rec = func(x *Val) {
		if x == nil || seen[x] || found {
			return
		}
		seen[x] = true
		if n, ok := headerGet(x); ok {
			found = found || n == name
			return
		}
		for _, a := range x.a {
			rec(a)
		}
		if x.k == KCall || x.k == KPhi {
			for _, a := range x.in {
				rec(a)
			}
		}
	}
	rec(v)
	return found
}

func isFileClient(t types.Type) bool { return hasMethods(t, "Get", "Put", "Stat") }

func checkFileserver(c *Ck) {
	c.Rule("get", "Get succeeds only with a 200 whose content starts at the offset asked for (offset not above zero) or a 206 whose Content-Range starts at that offset and states a total", 1)
	c.Rule("stat", "Stat succeeds only with status 200 or 204 and a length that is not unknown", 1)
	c.Rule("put", "Put announces the caller's size and succeeds only with a 2xx status", 1)
	c.Rule("absent", "a 404 or 410 answer is reported as an error wrapping fs.ErrNotExist", 2)
	c.Rule("upload", "a chunk is uploaded only from a rewound file that received exactly the chunk's expected bytes, at a chunk-aligned offset, and success is reported only if every upload succeeded", 1)
	c.Rule("spool", "every temporary file of the sink is removed on every path", 1)
	c.Rule("state", "the sink is reported complete only if every probed chunk exists with the expected size, and the offset reported otherwise is that of the first chunk that does not", 1)
	c.Rule("open", "a chunked source is opened only at an offset inside the object, and a chunk's failed Get is a failed read", 1)
	p := c.P
	for _, fn := range p.exportedFuncs() {
		if pkgRel(fn.Pkg.Pkg) != "stream/fileserver" || fn.Signature.Recv() == nil {
			continue
		}
		rt := fn.Signature.Recv().Type()
		switch {
		case isFileClient(rt) && (fn.Name() == "Get" || fn.Name() == "Stat" || fn.Name() == "Put"):
			checkFileClient(c, fn)
		case hasMethods(rt, "State", "Append") && fn.Name() == "Append":
			checkSinkAppend(c, fn)
		case hasMethods(rt, "State", "Append") && fn.Name() == "State":
			checkSinkState(c, fn)
		case fn.Name() == "Open" && fn.Signature.Params().Len() == 2:
			checkSourceOpen(c, fn)
		}
	}
}

// statusOf: cond compares the status of a response with a constant.
func statusCmp(cond *Val) (k int64, lhs bool, ok bool) {
	for i := 0; i < 2; i++ {
		if b, is := fieldLoad(cond.a[i], "StatusCode"); is && isHTTPBase(b) {
			if k, is := cond.a[1-i].constInt(); is {
				return k, i == 0, true
			}
		}
	}
	return 0, false, false
}

func isHTTPBase(b *Val) bool { return isHTTP(b.typ, "Response") || respOf(b) != nil }

// bound narrows [lo,hi] of a status by a comparison.
func narrow(lo, hi int64, cond *Val, truth bool) (int64, int64) {
	k, lhs, ok := statusCmp(cond)
	if !ok {
		return lo, hi
	}
	op := cond.s
	if !lhs {
		op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[op]
	}
	if !truth {
		op = map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
	}
	switch op {
	case "<":
		hi = min(hi, k-1)
	case "<=":
		hi = min(hi, k)
	case ">":
		lo = max(lo, k+1)
	case ">=":
		lo = max(lo, k)
	case "==":
		lo, hi = k, k
	}
	return lo, hi
}

func checkFileClient(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	name := fn.Name()
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		geti := func(st *State, k string, d int64) int64 {
			if s := st.T[k]; s != "" {
				var n int64
				for _, r := range s {
					n = n*10 + int64(r-'0')
				}
				return n
			}
			return d
		}
		num := func(n int64) string {
			if n < 0 {
				n = 0
			}
			b := []byte{}
			for {
				b = append([]byte{byte('0' + n%10)}, b...)
				if n /= 10; n == 0 {
					return string(b)
				}
			}
		}
		isOffset := func(v *Val) bool { v = unconv(v); return v != nil && v.k == KParam && isIntType(v.typ) }
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if cond.k != KBin || len(cond.a) != 2 {
				return
			}
			lo, hi := geti(st, "lo", 0), geti(st, "hi", 9999)
			nl, nh := narrow(lo, hi, cond, truth)
			if nl != lo {
				st.T["lo"] = num(nl)
			}
			if nh != hi {
				st.T["hi"] = num(nh)
			}
			x, y := cond.a[0], cond.a[1]
			if k, _, ok := statusCmp(cond); ok && (cond.s == "==") && !truth {
				st.T["not"+num(k)] = "1"
			}
			// status / 100 == 2
			if cond.s == "==" && truth {
				for i := 0; i < 2; i++ {
					if d := unconv(cond.a[i]); d != nil && d.k == KBin && d.s == "/" {
						if b, ok := fieldLoad(d.a[0], "StatusCode"); ok && isHTTPBase(b) {
							h, ok1 := d.a[1].constInt()
							q, ok2 := cond.a[1-i].constInt()
							if ok1 && ok2 && h == 100 {
								st.T["lo"], st.T["hi"] = num(q*100), num(q*100+99)
							}
						}
					}
				}
			}
			for i := 0; i < 2; i++ {
				k, isC := y.constInt()
				if isOffset(x) && isC {
					le := false
					switch {
					case cond.s == "==" && truth && k == 0:
						le = true
					case cond.s == "<" && i == 0 && truth && k <= 1: // off < 1
						le = true
					case cond.s == "<" && i == 1 && !truth && k >= 0 && k <= 0: // !(0 < off)
						le = true
					case cond.s == "<=" && i == 0 && truth && k <= 0:
						le = true
					}
					if le {
						st.T["off0"] = "1"
					}
				}
				if b, ok := fieldLoad(x, "ContentLength"); ok && isHTTPBase(b) && isC {
					switch {
					case cond.s == "<" && i == 0 && !truth && k >= 0, // !(len < 0)
						cond.s == "<" && i == 1 && truth && k >= -1, // -1 < len
						cond.s == "<=" && i == 1 && truth && k >= 0, // 0 <= len
						cond.s == "==" && !truth && k == -1 && i >= 0:
						st.T["len"] = "1"
					}
				}
				if cond.s == "==" && truth && isOffset(y) && fromHeader(x, "Content-Range") {
					st.T["start"] = "1"
				}
				x, y = y, x
			}
		}
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			if addr.k == KField && addr.fld.Name() == "ContentLength" && isHTTP(addr.a[0].typ, "Request") {
				delete(st.T, "clen")
				if unconv(v).k == KParam {
					st.T["clen"] = "1"
				}
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			full := ci.Full()
			switch {
			case strings.HasSuffix(full, "net/http.Header.Set") && len(ci.Args) == 2:
				if k, _ := ci.Args[0].constStr(); k == "Range" {
					delete(st.T, "range")
					if ns := numbersIn(ci.Args[1]); len(ns) == 1 && isOffset(ns[0]) {
						st.T["range"] = "1"
					}
				}
			case isDo(ci):
				if name == "Get" && st.T["range"] == "" && st.T["off0"] == "" {
					c.BadAt("get", what+": range", e, ci.fr, ci.Instr, "the request may go out without a Range header for an offset above zero")
				}
				if name == "Put" && st.T["clen"] == "" {
					c.BadAt("put", what+": length", e, ci.fr, ci.Instr, "the request is sent without the caller's size as its Content-Length")
				}
				st.T["sent"] = "1"
			}
			return nil, false
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			lo, hi := geti(st, "lo", 0), geti(st, "hi", 9999)
			if lo > hi {
				return // contradictory status tests: no such path
			}
			if e.nilness(st, res[ei]) == FNonNil {
				if lo == hi && (lo == 404 || lo == 410) && name != "Put" {
					c.Did("absent", what)
					if !wrapsGlobal(res[ei], "ErrNotExist") {
						c.BadAt("absent", what, e, nil, in, "status %d is reported as an error that does not wrap fs.ErrNotExist", lo)
					}
				} else if name != "Put" && e.mayHaveAnswer(st) {
					for _, k := range []string{"404", "410"} {
						kk := int64(404)
						if k == "410" {
							kk = 410
						}
						if lo <= kk && kk <= hi && st.T["not"+k] == "" && !wrapsGlobal(res[ei], "ErrNotExist") {
							c.BadAt("absent", what+" "+k, e, nil, in, "a %s answer may be reported as an error that does not wrap fs.ErrNotExist", k)
						}
					}
				}
				return
			}
			switch name {
			case "Get":
				c.Did("get", what)
				switch {
				case lo == 200 && hi == 200:
					if st.T["off0"] == "" {
						c.BadAt("get", what+": ignored range", e, nil, in, "a 200 answer may be taken as the content from an offset above zero")
					}
				case lo == 206 && hi == 206:
					if st.T["start"] == "" {
						c.BadAt("get", what+": start", e, nil, in, "a 206 answer is taken although its range may start at another offset")
					}
					t := unconv(res[1])
					if !fromHeader(t, "Content-Range") {
						c.BadAt("get", what+": total", e, nil, in, "the total size of a 206 answer is %s, not taken from its Content-Range", t)
					} else if t.k == KRes && len(t.a) > 0 {
						if !stNilRes(st, t.a[0]) {
							c.BadAt("get", what+": total", e, nil, in, "the total size of a 206 answer may not have parsed")
						}
					}
				default:
					c.BadAt("get", what+": status", e, nil, in, "Get may succeed with a status other than 200 or 206")
				}
				if respOf(res[0]) == nil {
					c.BadAt("get", what+": body", e, nil, in, "Get returns %s, not the answer's body", res[0])
				}
			case "Stat":
				c.Did("stat", what)
				if !(lo == hi && (lo == 200 || lo == 204)) {
					c.BadAt("stat", what+": status", e, nil, in, "Stat may succeed with a status other than 200 or 204")
				}
				if st.T["len"] == "" {
					c.BadAt("stat", what+": length", e, nil, in, "Stat may report an unknown length as a size")
				}
				if _, ok := fieldLoad(unconv(res[0]), "ContentLength"); !ok {
					c.BadAt("stat", what+": size", e, nil, in, "Stat reports %s, not the answer's length", res[0])
				}
			case "Put":
				c.Did("put", what)
				if lo < 200 || hi > 299 {
					c.BadAt("put", what+": status", e, nil, in, "Put may succeed with a status outside 200..299")
				}
			}
		}
		return e
	}, fn, nil)
}

// mayHaveAnswer: a request went out and its answer arrived.
func (e *Eng) mayHaveAnswer(st *State) bool {
	if st.T["sent"] == "" {
		return false
	}
	ok := false
	for v, f := range st.facts {
		if f == FNil && isErrorType(v.typ) && v.k == KRes && v.a[0].k == KCall && strings.HasSuffix(v.a[0].s, ".Do") {
			ok = true
		}
	}
	return ok
}

// stNilRes: some error result of the call is known to be nil.
func stNilRes(st *State, call *Val) bool {
	for v, f := range st.facts {
		if f == FNil && v.k == KRes && v.a[0] == call && isErrorType(v.typ) {
			return true
		}
	}
	return false
}

// callFailed: some error result of the call is known to be non-nil.
func callFailed(st *State, call *Val) bool {
	for v, f := range st.facts {
		if f == FNonNil && v.k == KRes && v.a[0] == call && isErrorType(v.typ) {
			return true
		}
	}
	return false
}

func sameInt(a, b *Val) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	x, ok1 := a.constInt()
	y, ok2 := b.constInt()
	return ok1 && ok2 && x == y
}

func isIfaceCall(ci *CallInfo, name string) bool {
	return ci.Name() == name && ci.RecvT != nil && isFileClient(ci.RecvT)
}

// pending tracks an error that must be seen nil before the path may go on.
func checkSinkAppend(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if cond.k != KBin || len(cond.a) != 2 {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := unconv(cond.a[i]), unconv(cond.a[1-i])
				if x == nil || y == nil {
					continue
				}
				if cond.s == "==" && truth {
					if k, ok := y.constInt(); ok && k == 0 && x.k == KBin && x.s == "%" {
						st.T["aligned"] = "1"
					}
					if y.isNilConst() {
						switch st.S[x] {
						case "put":
							delete(st.T, "unput")
						case "seek":
							st.T["rewound"] = "1"
						case "copyerr":
							st.T["exact"] = "1"
						}
					}
					if st.S[x] == "written" && st.S[y] == "want" {
						st.T["exact"] = "1"
					}
				}
				// !(written < want), or want <= written
				if st.S[x] == "written" && st.S[y] == "want" {
					if cond.s == "<" && i == 0 && !truth || cond.s == "<=" && i == 1 && truth {
						st.T["exact"] = "1"
					}
				}
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			switch full := ci.Full(); {
			case full == "os.CreateTemp":
				if f := marked(st, "tmp"); f != nil {
					c.BadAt("spool", what+": loop", e, ci.fr, ci.Instr, "a temporary file of the previous chunk may still be there")
				}
			case full == "os.Remove" || full == "os.RemoveAll":
				for v, k := range st.S {
					if k == "tmp" && len(ci.Args) == 1 && derivedFrom(ci.Args[0], v) {
						delete(st.S, v)
					}
				}
			case isIfaceCall(ci, "Put") && len(ci.Args) >= 4:
				c.Did("upload", what)
				bad := func(k, msg string) {
					c.BadAt("upload", what+": "+k, e, ci.fr, ci.Instr, "a chunk is uploaded although %s", msg)
				}
				if st.T["aligned"] == "" {
					bad("alignment", "the offset may not be at the start of a chunk")
				}
				if st.T["exact"] == "" {
					bad("short", "the reader may have ended before the chunk's expected size")
				}
				if st.T["rewound"] == "" {
					bad("rewind", "its file may not be rewound to the start")
				}
				if st.T["unput"] != "" {
					bad("earlier", "an earlier upload may have failed")
				}
				sz := unconv(ci.Args[2])
				if st.S[sz] != "written" && st.S[sz] != "want" {
					bad("size", "the announced size is "+sz.String()+", not the number of bytes spooled")
				}
				if f := ci.Args[3].strip(); f == nil || st.T["file:"+f.path()] == "" {
					bad("file", "it is not the file the chunk was spooled to")
				}
			}
			return nil, false
		}
		clear := func(st *State, k string) {
			for v, s := range st.S {
				if s == k {
					delete(st.S, v)
				}
			}
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			switch full := ci.Full(); {
			case full == "os.CreateTemp":
				st.S[resOf(res, 0).strip()] = "tmp"
				for _, k := range []string{"exact", "rewound"} {
					delete(st.T, k)
				}
			case full == "io.CopyN" && len(ci.Args) == 3:
				for _, k := range []string{"written", "want", "copyerr"} {
					clear(st, k)
				}
				delete(st.T, "exact")
				delete(st.T, "rewound")
				st.S[unconv(resOf(res, 0))] = "written"
				st.S[unconv(ci.Args[2])] = "want"
				st.S[resOf(res, 1).strip()] = "copyerr"
				for k := range st.T {
					if strings.HasPrefix(k, "file:") {
						delete(st.T, k)
					}
				}
				st.T["file:"+ci.Args[0].strip().path()] = "1"
			case ci.Name() == "Seek" && len(ci.Args) == 2:
				clear(st, "seek")
				delete(st.T, "rewound")
				o, ok1 := ci.Args[0].constInt()
				w, ok2 := ci.Args[1].constInt()
				if ok1 && ok2 && o == 0 && w == 0 {
					st.S[resOf(res, 1).strip()] = "seek"
				}
			case isIfaceCall(ci, "Put"):
				clear(st, "put")
				r := res.strip()
				st.S[r] = "put"
				st.T["unput"] = "1"
				delete(st.T, "exact")
				delete(st.T, "rewound")
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			for v, k := range st.S {
				if k != "tmp" {
					continue
				}
				c.Did("spool", what)
				if callFailed(st, v.a[0]) {
					continue
				}
				c.BadAt("spool", what, e, nil, in, "%s may return with its temporary file still there", what)
			}
			c.Did("spool", what)
			if e.nilness(st, res[ei]) == FNonNil {
				return
			}
			if st.T["unput"] != "" {
				r := marked(st, "put")
				for _, x := range wrapped(res[ei]) {
					if x.strip() == r && r != nil {
						return
					}
				}
				c.BadAt("upload", what+": success", e, nil, in, "%s may report success although an upload failed", what)
			}
		}
		return e
	}, fn, nil)
}

func checkSinkState(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if isPure(cond, "errors.Is") && truth && st.S[cond.a[0].strip()] == "err" {
				st.T["absent"] = "1"
			}
			if cond.k != KBin || cond.s != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := unconv(cond.a[i]), unconv(cond.a[1-i])
				if x == nil || y == nil {
					continue
				}
				if st.S[x] == "err" && y.isNilConst() && truth {
					delete(st.T, "uerr")
				}
				if st.S[x] == "size" {
					if truth {
						delete(st.T, "usize")
					} else {
						st.T["absent"] = "1"
					}
				}
			}
		}
		idx := func(v *Val) []*Val { // chunk indices a name was made for
			var out []*Val
			v.walk(func(x *Val) bool {
				if x.k == KCall {
					for _, a := range x.in {
						if a.typ != nil && isIntType(a.typ) {
							out = append(out, unconv(a))
						}
					}
				}
				return true
			})
			return out
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			if isIfaceCall(ci, "Stat") {
				c.Did("state", what)
				if st.T["uerr"] != "" || st.T["usize"] != "" {
					c.BadAt("state", what+": next", e, ci.fr, ci.Instr, "the next chunk is probed although this one may be absent or of another size")
				}
				for v, k := range st.S {
					if k == "index" {
						delete(st.S, v)
					}
				}
				if len(ci.Args) >= 2 {
					for _, i := range idx(ci.Args[1]) {
						st.S[i] = "index"
					}
				}
			}
			return nil, false
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if isIfaceCall(ci, "Stat") {
				st.S[unconv(resOf(res, 0))] = "size"
				st.S[resOf(res, 1).strip()] = "err"
				st.T["uerr"], st.T["usize"] = "1", "1"
				delete(st.T, "absent")
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if e.nilness(st, res[ei]) == FNonNil {
				return
			}
			b, known := res[1].constBool()
			if !known || b {
				if st.T["uerr"] != "" || st.T["usize"] != "" {
					c.BadAt("state", what+": complete", e, nil, in, "the object may be reported complete although a chunk is absent or of another size")
				}
				return
			}
			if st.T["absent"] == "" {
				c.BadAt("state", what+": error", e, nil, in, "a chunk's probe may fail for another reason than absence and be reported as missing data")
			}
			o := unconv(res[0])
			ok := false
			for i, k := range st.S {
				if k == "index" && o != nil && o.k == KBin && o.s == "*" {
					ok = ok || sameInt(unconv(o.a[0]), i) || sameInt(unconv(o.a[1]), i)
				}
			}
			if !ok {
				c.BadAt("state", what+": offset", e, nil, in, "the offset reported is %s, not that of the chunk probed", o)
			}
		}
		return e
	}, fn, nil)
}

func checkSourceOpen(c *Ck, fn *ssa.Function) {
	what := fnName(fn)
	ei := errResult(fn.Signature)
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if cond.k != KBin {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := unconv(cond.a[i]), unconv(cond.a[1-i])
				if x == nil || y == nil || x.k != KParam || !isIntType(x.typ) {
					continue
				}
				_, f := baseOf(y)
				k, isC := y.constInt()
				switch {
				case isC && (cond.s == "<" && i == 0 && !truth && k >= 0 || cond.s == "<" && i == 1 && truth && k >= -1 || cond.s == "<=" && i == 1 && truth && k >= 0):
					st.T["lo"] = "1"
				case f != nil && (cond.s == "<" && i == 1 && !truth || cond.s == "<=" && i == 0 && truth || cond.s == "==" && truth || cond.s == "<" && i == 0 && truth):
					st.T["hi"] = "1"
					if cond.s == "==" && truth {
						st.T["end"] = "1"
					}
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			if e.nilness(st, res[ei]) == FNonNil {
				return
			}
			c.Did("open", what)
			if st.T["lo"] == "" && st.T["end"] == "" {
				c.BadAt("open", what+": negative", e, nil, in, "a negative offset may be opened")
			}
			if st.T["hi"] == "" {
				c.BadAt("open", what+": beyond", e, nil, in, "an offset beyond the object may be opened")
			}
		}
		return e
	}, fn, nil)
	// the per-chunk opener hands on what Get answered
	for _, an := range c.P.Funcs {
		if an.Parent() == nil || an.Pkg == nil || an.Pkg != fn.Pkg {
			continue
		}
		ei := errResult(an.Signature)
		if ei < 0 {
			continue
		}
		c.RunEntry(func() *Eng {
			e := newEng(c.P)
			e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
				if isIfaceCall(ci, "Get") && len(ci.Args) == 3 {
					c.Did("open", fnName(an))
					if o := unconv(ci.Args[2]); o == nil || o.k != KParam {
						c.BadAt("open", fnName(an)+": offset", e, ci.fr, ci.Instr, "a chunk is asked for from %s instead of the offset wanted", o)
					}
				}
				return nil, false
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				if isIfaceCall(ci, "Get") {
					st.S[resOf(res, 2).strip()] = "err"
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				r := marked(st, "err")
				if r == nil || e.nilness(st, r) == FNil {
					return
				}
				for _, x := range wrapped(res[ei]) {
					if x.strip() == r {
						return
					}
				}
				if e.nilness(st, res[ei]) != FNonNil {
					c.BadAt("open", fnName(an)+": error", e, nil, in, "a failed Get may be handed on as a chunk's reader")
				}
			}
			return e
		}, an, nil)
	}
}
