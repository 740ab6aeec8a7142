package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C37"] = checkStore }

// onSQL: a method of database/sql's type of that name.
func onSQL(ci *CallInfo, typ string) bool {
	return ci.PkgPath() == "database/sql" && ci.RecvName() == typ
}

// sqlUser: a value of the type holds a database handle.
func sqlUser(t types.Type) bool {
	s := structOf(deref(t))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		ft := deref(s.Field(i).Type())
		if typeName(ft) == "DB" && (s.Field(i).Embedded() || !s.Field(i).Embedded()) {
			return true
		}
	}
	return false
}

// storeSpec: what a setter does to the marks of the name, and of the names beneath it.
func storeSpec(op string, w, o int) (int, int) {
	switch op {
	case "SetWhiteout":
		return 1, 0
	case "ClearWhiteout":
		return 0, o
	case "SetOpaque":
		return w, 1
	case "ClearOpaque":
		return w, 0
	}
	return w, o
}

func checkStore(c *Ck) {
	c.Rule("transaction", "a change is made in one transaction, committed only once each of its statements succeeded, and ended on every return", 5)
	c.Rule("committed", "success is reported only once the commit succeeded", 5)
	c.Rule("statements", "the statements a setter runs leave in the table exactly the marks it promises, whatever was there", 4)
	c.Rule("version", "a store is handed out only after the version recorded in it was read and found to be the one written here", 2)
	c.Rule("closed", "a store that cannot be handed out is closed", 2)
	c.Rule("load", "loading reports every mark, as its kind, or an error", 1)
	c.Rule("schema", "a database found is never brought to another version, and names are compared byte by byte", 3)
	p := c.P
	for _, fn := range p.exportedFuncsAnd(func(fn *ssa.Function) bool {
		return fn.Parent() == nil && fn.Signature.Recv() == nil && pkgRel(fn.Pkg.Pkg) == overlayPkg && fn.Signature.Results().Len() > 0 && sqlUser(fn.Signature.Results().At(0).Type())
	}) {
		if pkgRel(fn.Pkg.Pkg) != overlayPkg {
			continue
		}
		isMethod := fn.Signature.Recv() != nil && sqlUser(fn.Signature.Recv().Type())
		isNew := fn.Signature.Recv() == nil && fn.Signature.Results().Len() > 0 && sqlUser(fn.Signature.Results().At(0).Type())
		if (isMethod || isNew) && errResult(fn.Signature) >= 0 {
			storeEntry(c, fn, isNew)
		}
	}
	// the statements that shape a database
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || pkgRel(fn.Pkg.Pkg) != overlayPkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					k, ok := (*o).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}
					t, err := sqlLex(constant.StringVal(k.Value))
					if err != nil || len(t) < 3 || t[0].k != "id" || t[0].s != "create" && t[0].s != "drop" && t[0].s != "alter" || t[1].k != "id" || t[1].s != "table" && t[1].s != "index" && t[1].s != "unique" {
						continue
					}
					c.Did("schema", fnName(fn)+": "+ddlName(t))
					if m := ddlBad(t); m != "" {
						c.BadAt("schema", fnName(fn)+": "+ddlName(t), nil, nil, in, "%s", m)
					}
				}
			}
		}
	}
	checkVFS(c)
}

// exportedFuncsAnd lists the exported functions and those more that qualify.
func (p *Prog) exportedFuncsAnd(more func(*ssa.Function) bool) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, fn := range p.exportedFuncs() {
		seen[fn] = true
		out = append(out, fn)
	}
	for _, fn := range p.Funcs {
		if !seen[fn] && fn.Blocks != nil && fn.Pkg != nil && more(fn) {
			out = append(out, fn)
		}
	}
	return out
}

// appendTo: which results of the function a value may end up in.
func appendTo(v ssa.Value, fn *ssa.Function) map[int]bool {
	out := map[int]bool{}
	seen := map[any]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Phi:
				walk(x)
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					walk(x)
				}
			case *ssa.Store:
				if x.Val == v {
					if al, ok := x.Addr.(*ssa.Alloc); ok && !seen[al] {
						seen[al] = true
						for _, rr := range *al.Referrers() {
							if u, ok := rr.(*ssa.UnOp); ok {
								walk(u)
							}
						}
					}
				}
			case *ssa.Return:
				if x.Parent() == fn {
					for i, y := range x.Results {
						if y == v {
							out[i] = true
						}
					}
				}
			}
		}
	}
	walk(v)
	return out
}

func storeEntry(c *Ck, fn *ssa.Function, isNew bool) {
	p := c.P
	what := fnName(fn)
	ei := errResult(fn.Signature)
	setter := !isNew && (strings.HasPrefix(fn.Name(), "Set") || strings.HasPrefix(fn.Name(), "Clear"))
	loader := !isNew && fn.Name() == "Load" && fn.Signature.Results().Len() == 3
	type query struct {
		st   *sqlStmt
		args []string
	}
	queries := map[string]query{}
	c.RunEntry(func() *Eng {
		e := newEng(p)
		e.NoInline = func(ci *CallInfo) bool {
			return ci.Fn != nil && inRepoFn(ci.Fn) && ci.Fn.Pkg != nil && pkgRel(ci.Fn.Pkg.Pkg) != overlayPkg && !strings.HasPrefix(ci.Fn.Name(), "Widen") ||
				ci.Fn != nil && typeName(recvT(ci.Fn)) == "DB"
		}
		settle := func(st *State, x *Val) {
			k := st.S[x]
			if k == "" {
				return
			}
			f := strings.SplitN(k, ":", 2)
			switch f[0] {
			case "exec":
				delete(st.T, "dirty:"+f[1])
			case "begin":
				st.T["tx"] = "open"
			case "open":
				st.T["db"] = "open"
			case "query":
				st.T["rows"] = "open"
			case "commit":
				st.T["done"] = "1"
			case "rowserr":
				if st.T["rows"] == "ended" {
					st.T["rows"] = "ok"
				}
			default:
				return
			}
			delete(st.S, x)
		}
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if st.S[cond.strip()] == "next" && !truth && st.T["rows"] != "" {
				st.T["rows"] = "ended"
				delete(st.S, cond.strip())
			}
			if i, ok := scanned(st, cond); ok && isBool(cond.typ) {
				st.T["flag:"+i] = map[bool]string{true: "yes", false: "no"}[truth]
			}
			if cond.k != KBin {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := cond.a[i].strip(), cond.a[1-i]
				if y.isNilConst() && truth && cond.s == "==" {
					settle(st, x)
				}
				s, ok := y.constStr()
				if !ok || cond.s != "==" {
					continue
				}
				if _, is := isParam(stripStore(x)); is && s == "" {
					st.T["root"] = map[bool]string{true: "yes", false: "no"}[truth]
				}
				if j, is := scanned(st, x); is && truth {
					st.T["equals:"+j] = s
				}
				if j, is := scanned(st, x); is {
					if k, isInt := y.constInt(); isInt && (k == 0 || k == 1) {
						st.T["flag:"+j] = map[bool]string{true: "yes", false: "no"}[truth == (k == 1)]
					}
				}
			}
		}
		// a statement is issued
		issue := func(e *Eng, st *State, ci *CallInfo, args []*Val) {
			if len(args) == 0 {
				return
			}
			q, ok := args[0].constStr()
			if !ok {
				if q, ok = constCat(args[0]); !ok {
					st.T["undecided"] = "1"
					return
				}
			}
			var kinds []string
			for _, a := range sqlArgs(e, st, args[1:]) {
				kinds = append(kinds, argKind(a))
			}
			s, err := sqlParse(q)
			if err != nil {
				dbg("sql %v: %s", err, q)
				st.T["undecided"] = "1"
				return
			}
			for i, k := range kinds {
				if k == "raw" {
					c.BadAt("statements", what, e, ci.fr, ci.Instr, "the name is recorded without being cleaned")
					kinds[i] = "n:"
				}
			}
			if s.pars != len(kinds) && s.verb != "create" {
				c.BadAt("statements", what, e, ci.fr, ci.Instr, "the statement takes %d values and is given %d", s.pars, len(kinds))
				return
			}
			switch {
			case s.table == "schema_info" && s.verb != "select":
				c.Did("schema", what+": version")
				if s.verb != "insert" || s.onConfl != "ignore" {
					c.BadAt("schema", what, e, ci.fr, ci.Instr, "the version recorded in a database may be overwritten")
				}
				for i, col := range s.cols {
					if col == "value" && s.vals[i].op == "par" && s.vals[i].n < len(kinds) {
						st.T["wrote"] = kinds[s.vals[i].n]
					} else if col == "value" && s.vals[i].op == "str" {
						st.T["wrote"] = "=" + s.vals[i].s
					}
				}
			case s.table == "node" && s.verb != "select":
				k := fmt.Sprintf("%s|%s", q, strings.Join(kinds, ","))
				queries[k] = query{s, kinds}
				st.T["ran"] += k + "\x00"
				if len(st.T["ran"]) > 4000 {
					st.T["undecided"] = "1"
					st.T["ran"] = ""
				}
			case s.verb == "select":
				k := fmt.Sprintf("%s|%s", q, strings.Join(kinds, ","))
				queries[k] = query{s, kinds}
				st.T["select"] = k
			}
		}
		e.OnCall = func(e *Eng, st *State, ci *CallInfo) ([]CallOut, bool) {
			n := ci.Name()
			bad := func(rule, f string, a ...any) {
				c.BadAt(rule, what+": "+siteName(ci.Instr), e, ci.fr, ci.Instr, f, a...)
			}
			if ci.Builtin == "append" && loader && len(ci.Args) == 2 {
				v, ok := ci.Instr.(ssa.Value)
				if !ok {
					return nil, false
				}
				to := appendTo(v, fn)
				if el, ok := e.elems(st, ci.Args[1]); ok && len(el) == 1 {
					if j, ok := scanned(st, el[0]); ok {
						q := queries[st.T["select"]]
						for i := range to {
							kind := []string{"whiteout", "opaque", ""}[i]
							c.Did("load", what+": "+kind)
							if q.st == nil || kind == "" {
								continue
							}
							if colName(q.st, j) != "path" {
								bad("load", "%s is reported as a name", colName(q.st, j))
							}
							if flagOf(st, q.st, kind) != "yes" {
								bad("load", "a name is reported as a %s mark that may not be one", kind)
							}
							st.T["took:"+kind] = "1"
						}
					}
				}
				return nil, false
			}
			isDB := typeName(recvTypeOf(ci)) == "DB"
			if (onSQL(ci, "Tx") || isDB) && (strings.HasPrefix(n, "Exec") || strings.HasPrefix(n, "Query")) {
				defer issue(e, st, ci, ci.Args)
			}
			if n == "Scan" && (onSQL(ci, "Row") || onSQL(ci, "Rows")) {
				ds := sqlArgs(e, st, ci.Args)
				for i, d := range ds {
					d = d.strip()
					st.S[d] = fmt.Sprint("dest:", i)
					delete(st.T, fmt.Sprint("flag:", i))
				}
				if onSQL(ci, "Rows") {
					st.T["row1"] = "1"
				}
				if q := queries[st.T["select"]]; q.st != nil {
					c.Did("load", what+": "+siteName(ci.Instr))
					if len(q.st.cols) != len(ds) {
						c.BadAt("load", what, e, ci.fr, ci.Instr, "%d columns are read into %d places", len(q.st.cols), len(ds))
					}
					st.T["versioned"] = ""
					if q.st.table == "schema_info" {
						st.T["versioned"] = "1"
					}
				}
			}
			switch {
			case onSQL(ci, "Tx") && (n == "Exec" || n == "ExecContext" || n == "Query" || n == "QueryRow"):
				c.Did("transaction", what+": "+siteName(ci.Instr))
				if st.T["tx"] != "open" {
					bad("transaction", "a statement runs outside an open transaction")
				}
				if k := "dirty:" + siteName(ci.Instr); st.T[k] != "" {
					st.T["lost"] = "1"
				}
			case onSQL(ci, "Tx") && n == "Commit":
				c.Did("transaction", what+": "+siteName(ci.Instr))
				if st.T["tx"] != "open" {
					bad("transaction", "a transaction that is not open is committed")
				}
				for k := range st.T {
					if strings.HasPrefix(k, "dirty:") || k == "lost" {
						bad("transaction", "the transaction is committed though a statement in it may have failed")
						break
					}
				}
			case isDB && (n == "Exec" || n == "Begin" || n == "BeginTx" || n == "ExecContext"):
				if st.T["tx"] == "open" || st.T["rows"] == "open" {
					bad("transaction", "%s waits for the only connection, which this very call holds", n)
				}
				if setter && st.T["began"] != "" {
					bad("transaction", "the change is spread over more than one transaction")
				}
				st.T["began"] = "1"
			case isDB && (strings.HasPrefix(n, "Query") || n == "Ping" || n == "Conn"):
				if st.T["tx"] == "open" || st.T["rows"] == "open" {
					bad("transaction", "%s waits for the only connection, which this very call holds", n)
				}
			case onSQL(ci, "Rows") && n == "Next":
				loadRow(c, e, st, ci, what, queries[st.T["select"]].st)
				for k := range st.T {
					if strings.HasPrefix(k, "dirty:") {
						bad("load", "the next row is read though reading this one may have failed")
					}
				}
			}
			return nil, false
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined {
				return
			}
			n := ci.Name()
			er := errOf(ci, res)
			mark := func(k string) {
				if er != nil {
					st.S[er.strip()] = k
				}
			}
			isDB := typeName(recvTypeOf(ci)) == "DB"
			site := siteName(ci.Instr)
			switch {
			case ci.Fn != nil && ci.Fn.Signature.Recv() == nil && er != nil && typeName(resOf(res, 0).typ) == "DB":
				mark("open:")
			case onSQL(ci, "Tx") && strings.HasPrefix(n, "Exec"):
				st.T["dirty:"+site] = "1"
				mark("exec:" + site)
			case onSQL(ci, "Tx") && n == "Commit":
				st.T["tx"] = "ended"
				mark("commit:")
			case onSQL(ci, "Tx") && n == "Rollback":
				if st.T["tx"] == "open" {
					st.T["tx"] = "ended"
				}
			case isDB && (n == "Begin" || n == "BeginTx"):
				mark("begin:")
			case isDB && strings.HasPrefix(n, "Exec"):
				mark("commit:")
			case strings.HasPrefix(n, "QueryRow") && (isDB || onSQL(ci, "Tx")):
				st.T["row"] = "1"
			case strings.HasPrefix(n, "Query") && (isDB || onSQL(ci, "Tx")):
				mark("query:")
			case isDB && n == "Close":
				delete(st.T, "db")
				st.T["dbclosed"] = "1"
			case onSQL(ci, "Row") && n == "Scan", onSQL(ci, "Rows") && n == "Scan":
				delete(st.T, "row")
				st.T["dirty:"+site] = "1"
				mark("exec:" + site)
			case onSQL(ci, "Rows") && n == "Next":
				st.S[res.strip()] = "next"
			case onSQL(ci, "Rows") && n == "Err":
				mark("rowserr:")
			case onSQL(ci, "Rows") && n == "Close":
				if st.T["rows"] == "open" {
					st.T["rows"] = "closed"
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			bad := func(rule, f string, a ...any) { c.BadAt(rule, what, e, nil, in, f, a...) }
			if st.T["tx"] == "open" {
				bad("transaction", "the transaction is left open, and with it the only connection")
			}
			if st.T["rows"] == "open" {
				bad("load", "the rows are left open, and with them the only connection")
			}
			if st.T["row"] != "" {
				bad("load", "a row is asked for and never read: the only connection stays with it")
			}
			fails := e.nilness(st, res[ei]) == FNonNil
			if !fails {
				settle(st, res[ei].strip())
			}
			if isNew {
				if fails {
					if st.T["db"] == "open" {
						bad("closed", "the database is left open")
					}
					if st.T["dbclosed"] != "" {
						c.Did("closed", what)
					}
					return
				}
				c.Did("version", what)
				if st.T["dbclosed"] != "" {
					bad("closed", "a store is handed out whose database was closed")
				}
				v := ""
				for i := 0; i < 2; i++ {
					if s := st.T[fmt.Sprint("equals:", i)]; s != "" && st.T["versioned"] != "" {
						v = s
					}
				}
				if v == "" || hasDirty(st) {
					bad("version", "a store is handed out without its version having been read and compared")
				} else if w := st.T["wrote"]; w != "" && w != "="+v {
					bad("version", "the version recorded, %s, is not the one asked for, %q", w, v)
				}
				if st.T["began"] != "" && st.T["done"] == "" {
					bad("committed", "a store is handed out before the transaction that shaped it was committed")
				}
				c.Did("committed", what)
				return
			}
			if fails {
				return
			}
			if setter {
				c.Did("committed", what)
				if st.T["done"] == "" {
					bad("committed", "success is reported without a commit that succeeded")
				}
				c.Did("statements", what)
				if st.T["undecided"] == "" {
					roots := []string{"no", "yes"}
					if r := st.T["root"]; r != "" {
						roots = []string{r}
					}
					var qs []query
					for _, k := range strings.Split(st.T["ran"], "\x00") {
						if k != "" {
							qs = append(qs, queries[k])
						}
					}
					for _, r := range roots {
						cls := rowClasses
						if r == "yes" {
							cls = rootClasses
						}
						for i, cl := range cls {
							for _, row := range []sqlRow{{}, {true, 1, 0}, {true, 0, 1}, {true, 1, 1}} {
								cur := []sqlRow{row}
								for _, q := range qs {
									var nx []sqlRow
									for _, x := range cur {
										o, failed, err := q.st.apply(cl, x, q.args)
										if err != nil {
											dbg("sql: %v", err)
											return
										}
										if failed {
											bad("statements", "the change fails on a name that is already marked")
										}
										nx = append(nx, o...)
									}
									cur = nx
								}
								w, o := row.marks()
								under := strings.HasPrefix(cl.suf, "/") || r == "yes" && i > 0
								switch {
								case i == 0:
									w, o = storeSpec(fn.Name(), w, o)
								case under && fn.Name() == "SetWhiteout":
									w, o = 0, 0
								}
								for _, x := range cur {
									if gw, gopq := x.marks(); gw != w || gopq != o {
										bad("statements", "%s (whiteout %d, opaque %d) may be left with whiteout %d and opaque %d; it is to have %d and %d", cl.name, row.w, row.o, gw, gopq, w, o)
									}
								}
							}
						}
					}
				}
			}
			if loader {
				c.Did("load", what)
				if st.T["rows"] != "ok" {
					bad("load", "success is reported before reading the rows was seen to have ended without an error")
				}
				if q := queries[st.T["select"]]; q.st != nil && st.T["undecided"] == "" {
					if q.st.limited || q.st.table != "node" {
						bad("load", "not every mark is asked for")
					}
					for _, r := range []sqlRow{{true, 1, 0}, {true, 0, 1}, {true, 1, 1}} {
						v := &sqlEval{cls: rowClass{}, row: r}
						if d := v.cond(q.st.where); d != 1 && !v.unk {
							bad("load", "a row with whiteout %d and opaque %d may not be asked for", r.w, r.o)
						}
					}
				}
			}
		}
		return e
	}, fn, nil)
}

func hasDirty(st *State) bool {
	for k := range st.T {
		if strings.HasPrefix(k, "dirty:") {
			return true
		}
	}
	return false
}

// loadRow: the row at hand must have been taken for what its flags say.
func loadRow(c *Ck, e *Eng, st *State, ci *CallInfo, what string, q *sqlStmt) {
	if st.T["row1"] != "" && q != nil {
		for _, kind := range []string{"whiteout", "opaque"} {
			f := flagOf(st, q, kind)
			if f != "no" && st.T["took:"+kind] == "" {
				c.BadAt("load", what+": "+kind, e, ci.fr, ci.Instr, "a %s mark may not be reported", kind)
			}
		}
	}
	delete(st.T, "row1")
	delete(st.T, "took:whiteout")
	delete(st.T, "took:opaque")
}

func flagOf(st *State, q *sqlStmt, kind string) string {
	for i, col := range q.cols {
		if col == kind {
			return st.T[fmt.Sprint("flag:", i)]
		}
	}
	return ""
}

func colName(q *sqlStmt, i string) string {
	n := 0
	fmt.Sscan(i, &n)
	if n < len(q.cols) {
		return q.cols[n]
	}
	return "?"
}

// scanned: v was read from where a scan put a column.
func scanned(st *State, v *Val) (string, bool) {
	v = unconv(v.strip())
	if v == nil || v.k != KLoad {
		return "", false
	}
	s, ok := strings.CutPrefix(st.S[v.a[0]], "dest:")
	return s, ok
}

func recvT(fn *ssa.Function) types.Type {
	if fn.Signature.Recv() == nil {
		return nil
	}
	return fn.Signature.Recv().Type()
}

func recvTypeOf(ci *CallInfo) types.Type {
	if ci.Obj == nil {
		return nil
	}
	sig := ci.Obj.Type().(*types.Signature)
	if sig.Recv() == nil {
		return nil
	}
	return sig.Recv().Type()
}

// sqlArgs lists the values of a variadic argument.
func sqlArgs(e *Eng, st *State, args []*Val) []*Val {
	if len(args) == 1 {
		if args[0].isNilConst() {
			return nil
		}
		if el, ok := e.elems(st, args[0]); ok {
			return el
		}
	}
	return args
}

// stripStore removes the cleaning a name is given.
func stripStore(v *Val) *Val {
	v = unconv(v.strip())
	for i := 0; i < 8 && v != nil; i++ {
		switch {
		case isPure(v, "strings.TrimPrefix", "strings.Trim", "strings.TrimLeft", "path.Clean") && len(v.a) > 0:
			v = v.a[0]
		case v.k == KBin && v.s == "+" && isSlash(v.a[0]):
			v = v.a[1]
		default:
			return v
		}
	}
	return v
}

func argKind(a *Val) string {
	a = unconv(a.strip())
	if s, ok := a.constStr(); ok {
		return "=" + s
	}
	if n, ok := a.constInt(); ok {
		return fmt.Sprint("#", n)
	}
	suf := ""
	if a.k == KBin && a.s == "+" && len(a.a) == 2 {
		if s, ok := a.a[1].constStr(); ok {
			a, suf = a.a[0], s
		}
	}
	if isPure(a, "strings.TrimPrefix", "path.Clean", "strings.TrimLeft") {
		if i, ok := isParam(stripStore(a)); ok && i == 1 {
			return "n:" + suf
		}
	}
	if i, ok := isParam(stripStore(a)); ok && i == 1 {
		return "raw"
	}
	return "?"
}

func constCat(v *Val) (string, bool) {
	v = unconv(v)
	if s, ok := v.constStr(); ok {
		return s, true
	}
	if v != nil && v.k == KBin && v.s == "+" {
		a, ok1 := constCat(v.a[0])
		b, ok2 := constCat(v.a[1])
		return a + b, ok1 && ok2
	}
	return "", false
}

func ddlName(t []sqlTok) string {
	var w []string
	for _, x := range t {
		if x.k != "id" {
			break
		}
		w = append(w, x.s)
	}
	return strings.Join(w, " ")
}

// ddlBad reports what is wrong with a statement that shapes the database.
func ddlBad(t []sqlTok) string {
	n := ddlName(t)
	switch {
	case strings.HasPrefix(n, "drop"), strings.HasPrefix(n, "alter"):
		return "the database found is reshaped"
	case strings.HasPrefix(n, "create") && !strings.Contains(n, "if not exists"):
		return "a database that already exists cannot be opened: what is there is created again"
	case strings.HasPrefix(n, "create unique index"):
		return "two names may not be stored side by side"
	}
	if !strings.Contains(n, "table if not exists node") {
		return ""
	}
	// the columns
	depth, cur, cols := 0, []sqlTok{}, [][]sqlTok{}
	for _, x := range t {
		switch {
		case x.k == "op" && x.s == "(":
			depth++
			if depth == 1 {
				continue
			}
		case x.k == "op" && x.s == ")":
			depth--
			if depth == 0 {
				cols = append(cols, cur)
			}
		case x.k == "op" && x.s == "," && depth == 1:
			cols = append(cols, cur)
			cur = nil
			continue
		}
		if depth >= 1 {
			cur = append(cur, x)
		}
	}
	unique := false
	text := ""
	for _, col := range cols {
		if len(col) == 0 {
			continue
		}
		var w []string
		for _, x := range col {
			w = append(w, x.s)
		}
		s := strings.Join(w, " ")
		if col[0].s == "path" {
			text = s
			unique = unique || strings.Contains(s, "primary key") || strings.Contains(s, "unique")
		}
		if strings.HasPrefix(s, "primary key ( path )") || strings.HasPrefix(s, "unique ( path )") {
			unique = true
		}
	}
	switch {
	case text == "" || !strings.HasPrefix(text, "path text"):
		return "names are not stored as text"
	case !unique:
		return "a name may be stored twice"
	case strings.Contains(text, "collate") && !strings.Contains(text, "collate binary"):
		return "names are not compared byte by byte"
	}
	return ""
}

// ---- the database's file layer ----

func checkVFS(c *Ck) {
	c.Rule("forwarded", "the database's reads, writes, truncations and syncs reach the file as asked, and succeed only if they did there", 6)
	c.Rule("locked", "a lock level is taken on only once the file's lock covers it, and a level given up gives the lock back", 3)
	c.Rule("journal", "a file the database asks about is absent only if the filesystem says so, and is removed under its own name", 3)
	c.Rule("opened", "a file is opened for what the database asked, and an open that fails leaves nothing registered or open", 3)
	c.Rule("defensive", "the database is run with a durable journal and is told of no guarantee the file does not give", 3)
	p := c.P
	for _, fn := range p.exportedFuncsAnd(func(fn *ssa.Function) bool { return false }) {
		if fn.Signature.Recv() == nil || fn.Blocks == nil {
			continue
		}
		switch rt := fn.Signature.Recv().Type(); {
		case hasMethods(rt, "CheckReservedLock", "SectorSize", "ReadAt"):
			vfsFileMethod(c, fn)
		case hasMethods(rt, "FullPathname", "Access", "Delete"):
			vfsMethod(c, fn)
		}
	}
	vfsOpens(c)
}

// ownFile: v is the file the receiver wraps.
func ownFile(v *Val) bool {
	f, ok := recvField(v)
	return ok && hasMethods(f.Type(), "ReadAt", "Sync", "Truncate")
}

func ownLocker(v *Val) bool {
	f, ok := recvField(v)
	return ok && hasMethods(f.Type(), "Lock", "Unlock") && !hasMethods(f.Type(), "ReadAt")
}

func levelField(v *Val) bool {
	f, ok := recvField(v)
	return ok && typeName(f.Type()) == "LockLevel"
}

const (
	sqlShared   = 1
	sqlReserved = 2
)

func vfsFileMethod(c *Ck, fn *ssa.Function) {
	n := fn.Name()
	what := fnName(fn)
	ei := errResult(fn.Signature)
	want := map[string]string{"ReadAt": "ReadAt", "WriteAt": "WriteAt", "Truncate": "Truncate", "Sync": "Sync", "Size": "Stat", "Close": "Close"}[n]
	switch n {
	case "SectorSize", "DeviceCharacteristics", "LockState", "CheckReservedLock", "Lock", "Unlock":
	default:
		if want == "" {
			return
		}
	}
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		excl := func(v *Val) bool { k, ok := v.constInt(); return ok && k != 0 && levelName(c.P, k) == "exclusive" }
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if isPure(cond, "errors.Is") && st.S[cond.a[0].strip()] == "err" && isEOF(cond.a[1]) {
				st.T["eof"] = map[bool]string{true: "yes", false: "no"}[truth]
			}
			if cond.k != KBin {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := cond.a[i], cond.a[1-i]
				if y.isNilConst() && cond.s == "==" {
					if st.S[x.strip()] == "err" {
						st.T["ok"] = map[bool]string{true: "1", false: "failed"}[truth]
					}
					if ownLocker(x) && truth {
						st.T["nolock"] = "1"
					}
				}
				_, isP := isParam(unconv(x))
				if k, ok := y.constInt(); ok && isP && k == sqlShared {
					switch {
					case cond.s == "==":
						st.T["shared"] = map[bool]string{true: "yes", false: "no"}[truth]
					case cond.s == "<" && i == 1 && truth: // SHARED < lock
						st.T["shared"] = "no"
					}
				}
				if k, ok := y.constInt(); ok && isP && k == sqlReserved && cond.s == "<" && i == 0 && !truth {
					st.T["shared"] = "no"
				}
				if cond.s == "<" && i == 0 && levelField(x) && isP2(y) && !truth {
					st.T["has"] = "1" // held >= asked
				}
				if cond.s == "<" && i == 1 && levelField(x) && isP2(y) && !truth {
					st.T["low"] = "1" // held <= asked
				}
			}
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined || ci.Recv == nil {
				return
			}
			m := ci.Name()
			er := errOf(ci, res)
			bad := func(rule, f string, a ...any) { c.BadAt(rule, what, e, ci.fr, ci.Instr, f, a...) }
			switch {
			case ownFile(ci.Recv) && want != "":
				if m == want {
					c.Did("forwarded", what)
					st.T["called"] = "1"
					delete(st.T, "ok")
					for i, a := range ci.Args {
						if k, ok := isParam(a); !ok || k != i+1 {
							bad("forwarded", "the file's %s is given %s in place of what was asked", m, a)
						}
					}
					if er != nil {
						st.S[er.strip()] = "err"
					}
				} else if fileMutators[m] {
					bad("forwarded", "%s calls the file's %s", n, m)
				}
			case ownLocker(ci.Recv) && m == "Lock" && len(ci.Args) == 1:
				c.Did("locked", what+": "+siteName(ci.Instr))
				st.T["ok"] = ""
				if er != nil {
					st.S[er.strip()] = "err"
				}
				st.T["taken"] = "shared"
				if excl(ci.Args[0]) {
					st.T["taken"] = "exclusive"
				}
			case ownLocker(ci.Recv) && m == "Unlock":
				c.Did("locked", what+": "+siteName(ci.Instr))
				st.T["taken"] = "none"
			}
		}
		e.OnStore = func(e *Eng, fr *Frame, st *State, addr, v *Val, in ssa.Instruction) {
			if addr.k != KField || addr.fld == nil || typeName(addr.fld.Type()) != "LockLevel" || n != "Lock" && n != "Unlock" {
				return
			}
			c.Did("locked", what)
			if !isP2(v) {
				c.BadAt("locked", what, e, fr, in, "the level held is set to %s, not to the one asked for", v)
			}
			st.T["level"] = "1"
			switch n {
			case "Lock":
				switch {
				case st.T["nolock"] != "":
				case st.T["taken"] == "":
					c.BadAt("locked", what, e, fr, in, "a level is taken on without the file's lock")
				case st.T["ok"] != "1":
					c.BadAt("locked", what, e, fr, in, "a level is taken on though the file's lock may not have been granted")
				case st.T["taken"] == "shared" && st.T["shared"] != "yes":
					c.BadAt("locked", what, e, fr, in, "a level for writing is taken on under a shared lock")
				}
			case "Unlock":
				switch {
				case st.T["nolock"] != "":
				case st.T["taken"] == "":
					c.BadAt("locked", what, e, fr, in, "a level is given up and the file's lock kept")
				case st.T["shared"] == "yes" && st.T["taken"] != "shared":
					c.BadAt("locked", what, e, fr, in, "the lock of a reader is given up, or kept for writing")
				case st.T["shared"] != "yes" && st.T["taken"] != "none":
					c.BadAt("locked", what, e, fr, in, "the lock stays with a file that is not to hold any")
				}
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			bad := func(rule, f string, a ...any) { c.BadAt(rule, what, e, nil, in, f, a...) }
			switch n {
			case "SectorSize":
				c.Did("defensive", what)
				if k, ok := res[0].constInt(); ok && k < 4096 {
					bad("defensive", "a sector of %d bytes is claimed, less than a torn write may damage", k)
				}
				return
			case "DeviceCharacteristics":
				c.Did("defensive", what)
				if k, ok := res[0].constInt(); !ok || k != 0 {
					bad("defensive", "a guarantee is claimed that not every filesystem gives")
				}
				return
			case "LockState":
				if !levelField(res[0]) {
					bad("locked", "the level reported is %s, not the one held", res[0])
				}
				return
			}
			if ei < 0 {
				return
			}
			fails := e.nilness(st, res[ei]) == FNonNil
			own := st.S[res[ei].strip()] == "err"
			switch n {
			case "Lock":
				if !fails && st.T["level"] == "" && st.T["has"] == "" {
					bad("locked", "success is reported without the level asked for")
				}
			case "Unlock":
				if st.T["level"] == "" && st.T["low"] == "" {
					bad("locked", "the level held is not lowered")
				}
			case "ReadAt":
				if st.T["called"] == "" || !own && !fails && st.T["ok"] != "1" {
					bad("forwarded", "success is reported though the file's %s was not seen to succeed", want)
				}
				if own && st.T["ok"] != "1" && st.T["eof"] != "no" {
					bad("forwarded", "an end of file may reach the database in another shape than it recognizes")
				}
				if st.T["eof"] == "yes" && !isEOF(res[ei]) {
					bad("forwarded", "an end of file is not reported as one")
				}
				if st.T["eof"] != "yes" && isEOF(res[ei]) {
					bad("forwarded", "a failed read is reported as the end of the file")
				}
				if !isResult(res[0], 0, "ReadAt") {
					bad("forwarded", "the count reported is not the file's")
				}
			case "CheckReservedLock":
				c.Did("locked", what)
			case "Close":
				if st.T["called"] == "" {
					bad("forwarded", "the file is not closed")
				}
			default:
				if !fails && (st.T["called"] == "" || !own && st.T["ok"] != "1") {
					bad("forwarded", "success is reported though the file's %s was not seen to succeed", want)
				}
				if n == "WriteAt" && !isResult(res[0], 0, "WriteAt") {
					bad("forwarded", "the count reported is not the file's")
				}
				if n == "Size" && !fails {
					v := unconv(res[0])
					if !isPure(v, "io/fs.FileInfo.Size") {
						bad("forwarded", "the size reported is not the file's")
					}
				}
			}
		}
		return e
	}, fn, nil)
}

func isP2(v *Val) bool { i, ok := isParam(unconv(v)); return ok && i == 1 }

// isResult: v is the i'th result of a call of that name.
func isResult(v *Val, i int, name string) bool {
	v = v.strip()
	return v != nil && v.k == KRes && v.n == i && strings.HasSuffix(v.a[0].s, "."+name)
}

// levelName names a value of the repository's lock levels.
func levelName(p *Prog, k int64) string {
	for _, pkg := range p.Pkgs {
		if pkgRel(pkg.Types) != "vroot" {
			continue
		}
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			cn, ok := sc.Lookup(n).(*types.Const)
			if !ok || !strings.HasPrefix(n, "Lock") {
				continue
			}
			if v, ok := constant.Int64Val(cn.Val()); ok && v == k {
				return strings.ToLower(strings.TrimPrefix(n, "Lock"))
			}
		}
	}
	return ""
}

func vfsMethod(c *Ck, fn *ssa.Function) {
	n := fn.Name()
	what := fnName(fn)
	ei := errResult(fn.Signature)
	if n != "Delete" && n != "Access" && n != "Open" && n != "FullPathname" {
		return
	}
	name := func(v *Val) bool { i, ok := isParam(stripStore(v)); return ok && i == 1 }
	clean := func(v *Val) bool { return name(v) && v.contains(func(x *Val) bool { return isPure(x, "path.Clean") }) }
	bits := map[int64]string{0x2: "write", 0x4: "create", 0x10: "exclusive"}   // SQLITE_OPEN_*
	flags := map[string]int64{"write": 0x2, "create": 0x40, "exclusive": 0x80} // os.O_*
	c.RunEntry(func() *Eng {
		e := newEng(c.P)
		e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
			cond, truth = condPeel(cond, truth)
			if isPure(cond, "errors.Is") && st.S[cond.a[0].strip()] == "err" {
				if cond.a[1].contains(func(x *Val) bool { return x.k == KGlobal && x.glob.Name() == "ErrNotExist" }) {
					st.T["absent"] = map[bool]string{true: "yes", false: "no"}[truth]
				}
			}
			if cond.k != KBin || cond.s != "==" {
				return
			}
			for i := 0; i < 2; i++ {
				x, y := unconv(cond.a[i]), cond.a[1-i]
				if y.isNilConst() && st.S[x.strip()] == "err" {
					st.T["ok"] = map[bool]string{true: "1", false: "failed"}[truth]
				}
				if s, ok := y.constStr(); ok && s == "" && name(x) && truth {
					st.T["unnamed"] = "1"
				}
				k, ok := y.constInt()
				if !ok || x.k != KBin || x.s != "&" {
					continue
				}
				for j := 0; j < 2; j++ {
					b, isC := x.a[j].constInt()
					if p, isP := isParam(unconv(x.a[1-j])); isC && isP && p == 2 && bits[b] != "" && (k == 0 || k == b) {
						st.T["asked:"+bits[b]] = map[bool]string{true: "yes", false: "no"}[truth == (k == b)]
					}
				}
			}
		}
		e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
			if inlined || !onFs(ci) {
				return
			}
			m, args := ci.Name(), callArgs(ci)
			er := errOf(ci, res)
			bad := func(rule, f string, a ...any) { c.BadAt(rule, what, e, ci.fr, ci.Instr, f, a...) }
			if len(args) > 0 && isStringType(args[0].typ) && !clean(args[0]) {
				bad("journal", "%s is called on %s, which is not the name the database gave, cleaned", m, args[0])
			}
			switch {
			case n == "Delete" && m == "Remove", n == "Access" && (m == "Stat" || m == "Lstat"):
				c.Did("journal", what)
				if er != nil {
					st.S[er.strip()] = "err"
				}
				st.T["called"] = "1"
			case n == "Open" && m == "OpenFile":
				c.Did("opened", what)
				if er != nil {
					st.S[er.strip()] = "err"
				}
				st.T["called"] = "1"
				f, ok := args[1].constInt()
				for w, b := range flags {
					switch {
					case !ok:
						continue
					case f&b == 0 && st.T["asked:"+w] != "no":
						bad("opened", "the file is opened without %s, which may have been asked for", w)
					case f&b != 0 && st.T["asked:"+w] != "yes":
						bad("opened", "the file is opened with %s, which may not have been asked for", w)
					}
				}
				if ok && f&0x200 != 0 {
					bad("opened", "the database is truncated when it is opened")
				}
			case fsMutators[m]:
				bad("journal", "%s calls %s", n, m)
			}
		}
		e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
			bad := func(rule, f string, a ...any) { c.BadAt(rule, what, e, nil, in, f, a...) }
			fails := ei >= 0 && (e.nilness(st, res[ei]) == FNonNil || isResult(res[ei], 0, "SystemError"))
			own := ei >= 0 && st.S[res[ei].strip()] == "err"
			switch n {
			case "Delete":
				if !fails && (st.T["called"] == "" || !own && st.T["ok"] != "1") {
					bad("journal", "a file is reported removed that may still be there")
				}
				if st.T["ok"] != "1" && own && st.T["absent"] != "no" {
					bad("journal", "a file that is absent is not reported as such: the database takes it for a failed removal")
				}
			case "Access":
				b, ok := res[0].constBool()
				if !fails && !own {
					if !ok && !isNotExistTest(res[0]) {
						return
					}
					if ok && b && st.T["ok"] != "1" {
						bad("journal", "a file is reported present that was not seen")
					}
					if ok && !b && st.T["absent"] != "yes" {
						bad("journal", "a file is reported absent though the filesystem may have failed to answer: a journal left by a crash is passed over")
					}
				}
			case "Open":
				if fails || st.T["unnamed"] != "" {
					return
				}
				if st.T["called"] == "" || !own && st.T["ok"] != "1" {
					bad("opened", "a file is handed out that was not opened")
				}
			case "FullPathname":
				c.Did("journal", what)
				if !clean(res[0]) {
					bad("journal", "the full name of a file is %s, not the one it is opened under", res[0])
				}
			}
		}
		return e
	}, fn, nil)
}

func isNotExistTest(v *Val) bool { return isPure(v, "errors.Is") }

// vfsOpens checks the functions that open and close a database on a filesystem.
func vfsOpens(c *Ck) {
	p := c.P
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || !strings.HasPrefix(pkgRel(fn.Pkg.Pkg), overlayPkg) || pkgRel(fn.Pkg.Pkg) == overlayPkg || fn.Parent() != nil || fn.Blocks == nil {
			continue
		}
		pragmas(c, fn)
		res := fn.Signature.Results()
		isOpen := fn.Signature.Recv() == nil && res.Len() == 2 && typeName(res.At(0).Type()) == "DB"
		isClose := fn.Name() == "Close" && typeName(recvT(fn)) == "DB"
		if !isOpen && !isClose || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		what := fnName(fn)
		ei := errResult(fn.Signature)
		c.RunEntry(func() *Eng {
			e := newEng(p)
			settle := func(st *State, x *Val) {
				if k := st.S[x]; k != "" {
					st.T[k] = "1"
					delete(st.S, x)
				}
			}
			e.OnBranch = func(e *Eng, fr *Frame, st *State, cond *Val, truth bool, in ssa.Instruction) {
				if cond, truth = condPeel(cond, truth); cond.k == KBin && cond.s == "==" && truth {
					for i := 0; i < 2; i++ {
						if cond.a[1-i].isNilConst() {
							settle(st, cond.a[i].strip())
						}
					}
				}
			}
			e.OnPost = func(e *Eng, st *State, ci *CallInfo, res *Val, inlined bool) {
				n := ci.Name()
				er := errOf(ci, res)
				switch {
				case inlined:
				case strings.HasSuffix(ci.PkgPath(), "/vfs") && n == "Register":
					st.T["registered"] = "1"
				case strings.HasSuffix(ci.PkgPath(), "/vfs") && n == "Unregister":
					delete(st.T, "registered")
					st.T["unregistered"] = "1"
				case n == "Open" && er != nil && typeName(resOf(res, 0).typ) == "DB":
					st.S[er.strip()] = "db"
				case onSQL(ci, "DB") && n == "SetMaxOpenConns":
					if k, ok := ci.Args[0].constInt(); ok && k == 1 {
						st.T["single"] = "1"
					}
				case onSQL(ci, "DB") && strings.HasPrefix(n, "Ping"):
					if st.T["single"] == "" {
						c.BadAt("defensive", what, e, ci.fr, ci.Instr, "a database held exclusively may be opened twice by its own pool")
					}
					st.S[er.strip()] = "pinged"
				case onSQL(ci, "DB") && n == "Close":
					delete(st.T, "db")
					st.T["closed"] = "1"
					if er != nil {
						st.S[er.strip()] = "closeok"
					}
				}
			}
			e.OnReturn = func(e *Eng, st *State, res []*Val, in ssa.Instruction) {
				bad := func(f string, a ...any) { c.BadAt("opened", what, e, nil, in, f, a...) }
				fails := e.nilness(st, res[ei]) == FNonNil
				own := st.S[res[ei].strip()]
				c.Did("opened", what)
				if isClose {
					if st.T["closed"] == "" || st.T["unregistered"] == "" {
						bad("closing leaves the database open or its filesystem registered")
					}
					if !fails && own != "closeok" && st.T["closeok"] == "" {
						bad("an error of closing the database is dropped")
					}
					return
				}
				switch {
				case fails && st.T["db"] != "":
					bad("a failed open leaves the database open")
				case fails && st.T["registered"] != "":
					bad("a failed open leaves the filesystem registered")
				case !fails && (st.T["db"] == "" || st.T["pinged"] == ""):
					bad("a database is handed out that was not seen to open")
				case !fails && st.T["registered"] == "":
					bad("a database is handed out whose filesystem is not registered")
				case !fails && st.T["single"] == "":
					bad("a database held exclusively may be opened twice by its own pool")
				}
			}
			return e
		}, fn, nil)
	}
}

// pragmas checks the settings a database is opened with.
func pragmas(c *Ck, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				k, ok := (*o).(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				s := strings.ToLower(strings.ReplaceAll(constant.StringVal(k.Value), " ", ""))
				what := fnName(fn) + ": " + s
				for _, pre := range []string{"journal_mode", "synchronous", "locking_mode"} {
					if !strings.HasPrefix(s, pre+"(") && !strings.HasPrefix(s, pre+"=") {
						continue
					}
					v := strings.Trim(s[len(pre):], "()=")
					c.Did("defensive", what)
					switch {
					case pre == "journal_mode" && v != "delete" && v != "truncate" && v != "persist":
						c.BadAt("defensive", what, nil, nil, in, "the database is run with journal_mode %s: a crash may leave it torn, or it cannot run on a filesystem without shared memory", v)
					case pre == "synchronous" && (v == "off" || v == "0" || v == "normal" || v == "1"):
						c.BadAt("defensive", what, nil, nil, in, "the database is run with synchronous %s: what was committed may not be on disk", v)
					case pre == "locking_mode" && v != "exclusive":
						c.BadAt("defensive", what, nil, nil, in, "the database is not held exclusively")
					}
				}
			}
		}
	}
}
