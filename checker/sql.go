package main

import (
	"fmt"
	"strings"
)

// A reading of the few SQL statements the metadata store is written in: what a
// statement does to a row, decided from its text for every class of row.

type sqlTok struct{ k, s string } // k: id, num, str, par, op

func sqlLex(q string) ([]sqlTok, error) {
	var out []sqlTok
	for i := 0; i < len(q); {
		ch := q[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			j := strings.Index(q[i:], "*/")
			if j < 0 {
				return nil, fmt.Errorf("comment")
			}
			i += j + 2
		case ch == '\'':
			var b strings.Builder
			j := i + 1
			for ; j < len(q); j++ {
				if q[j] == '\'' {
					if j+1 < len(q) && q[j+1] == '\'' {
						j++
					} else {
						break
					}
				}
				b.WriteByte(q[j])
			}
			if j >= len(q) {
				return nil, fmt.Errorf("string")
			}
			out = append(out, sqlTok{"str", b.String()})
			i = j + 1
		case ch == '"' || ch == '`' || ch == '[':
			e := map[byte]byte{'"': '"', '`': '`', '[': ']'}[ch]
			j := strings.IndexByte(q[i+1:], e)
			if j < 0 {
				return nil, fmt.Errorf("identifier")
			}
			out = append(out, sqlTok{"id", strings.ToLower(q[i+1 : i+1+j])})
			i += j + 2
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			out = append(out, sqlTok{"num", q[i:j]})
			i = j
		case ch == '?':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			out = append(out, sqlTok{"par", q[i+1 : j]})
			i = j
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			out = append(out, sqlTok{"id", strings.ToLower(q[i:j])})
			i = j
		default:
			for _, o := range []string{"||", "<>", "!=", "<=", ">=", "=="} {
				if strings.HasPrefix(q[i:], o) {
					out = append(out, sqlTok{"op", o})
					i += 2
					goto next
				}
			}
			if !strings.ContainsRune("=<>(),;.*-+", rune(ch)) {
				return nil, fmt.Errorf("character %q", ch)
			}
			out = append(out, sqlTok{"op", string(ch)})
			i++
		next:
		}
	}
	return out, nil
}

type sqlExpr struct {
	op string // col, num, str, par, bin ops
	s  string
	n  int
	a  []*sqlExpr
}

type sqlSet struct {
	col string
	val *sqlExpr
}

type sqlStmt struct {
	verb    string // select insert update delete create
	table   string
	cols    []string
	vals    []*sqlExpr
	where   *sqlExpr
	onConfl string // "" (fails), ignore, replace, update
	sets    []sqlSet
	limited bool
	pars    int
	raw     []sqlTok
}

type sqlParser struct {
	t    []sqlTok
	i    int
	pars int
}

type sqlErr struct{ s string }

func (p *sqlParser) fail(f string, a ...any) { panic(sqlErr{fmt.Sprintf(f, a...)}) }
func (p *sqlParser) peek() sqlTok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return sqlTok{"end", ""}
}
func (p *sqlParser) is(s string) bool {
	t := p.peek()
	return (t.k == "id" || t.k == "op") && t.s == s
}
func (p *sqlParser) eat(s ...string) bool {
	for j, x := range s {
		if p.i+j >= len(p.t) {
			return false
		}
		if t := p.t[p.i+j]; t.k != "id" && t.k != "op" || t.s != x {
			return false
		}
	}
	p.i += len(s)
	return true
}
func (p *sqlParser) want(s string) {
	if !p.eat(s) {
		p.fail("%q where %q is expected", p.peek().s, s)
	}
}
func (p *sqlParser) id() string {
	t := p.peek()
	if t.k != "id" {
		p.fail("%q where a name is expected", t.s)
	}
	p.i++
	return t.s
}

func (p *sqlParser) or() *sqlExpr {
	x := p.and()
	for p.eat("or") {
		x = &sqlExpr{op: "or", a: []*sqlExpr{x, p.and()}}
	}
	return x
}
func (p *sqlParser) and() *sqlExpr {
	x := p.not()
	for p.eat("and") {
		x = &sqlExpr{op: "and", a: []*sqlExpr{x, p.not()}}
	}
	return x
}
func (p *sqlParser) not() *sqlExpr {
	if p.eat("not") {
		return &sqlExpr{op: "not", a: []*sqlExpr{p.not()}}
	}
	x := p.cat()
	for _, o := range []string{"<=", ">=", "<>", "!=", "==", "=", "<", ">"} {
		if p.eat(o) {
			return &sqlExpr{op: strings.Replace(strings.Replace(o, "==", "=", 1), "!=", "<>", 1), a: []*sqlExpr{x, p.cat()}}
		}
	}
	neg := p.eat("not")
	switch {
	case p.eat("between"):
		lo := p.cat()
		p.want("and")
		hi := p.cat()
		x = &sqlExpr{op: "and", a: []*sqlExpr{{op: ">=", a: []*sqlExpr{x, lo}}, {op: "<=", a: []*sqlExpr{x, hi}}}}
	case p.eat("like"), p.eat("glob"):
		x = &sqlExpr{op: "like", a: []*sqlExpr{x, p.cat()}}
		if p.is("escape") {
			p.fail("escape")
		}
	case neg:
		p.fail("not")
	}
	if neg {
		x = &sqlExpr{op: "not", a: []*sqlExpr{x}}
	}
	return x
}
func (p *sqlParser) cat() *sqlExpr {
	x := p.prim()
	for p.eat("||") {
		x = &sqlExpr{op: "||", a: []*sqlExpr{x, p.prim()}}
	}
	return x
}
func (p *sqlParser) prim() *sqlExpr {
	t := p.peek()
	p.i++
	switch t.k {
	case "num":
		return &sqlExpr{op: "num", s: t.s}
	case "str":
		return &sqlExpr{op: "str", s: t.s}
	case "par":
		n := p.pars
		if t.s != "" {
			fmt.Sscan(t.s, &n)
			n--
		}
		if n+1 > p.pars {
			p.pars = n + 1
		}
		return &sqlExpr{op: "par", n: n}
	case "id":
		if p.is("(") {
			p.fail("function %s", t.s)
		}
		if p.eat(".") {
			return &sqlExpr{op: "col", s: t.s + "." + p.id()}
		}
		return &sqlExpr{op: "col", s: t.s}
	case "op":
		if t.s == "(" {
			x := p.or()
			p.want(")")
			return x
		}
	}
	p.fail("%q in an expression", t.s)
	return nil
}
func (p *sqlParser) sets() []sqlSet {
	var out []sqlSet
	for {
		c := p.id()
		if p.eat(".") {
			c = p.id()
		}
		p.want("=")
		out = append(out, sqlSet{c, p.cat()})
		if !p.eat(",") {
			return out
		}
	}
}

// sqlParse reads one statement; a statement outside the subset is an error.
func sqlParse(q string) (s *sqlStmt, err error) {
	toks, err := sqlLex(q)
	if err != nil {
		return nil, err
	}
	p := &sqlParser{t: toks}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(sqlErr)
			if !ok {
				panic(r)
			}
			s, err = nil, fmt.Errorf("%s", e.s)
		}
	}()
	s = &sqlStmt{raw: toks}
	switch s.verb = p.id(); s.verb {
	case "select":
		for {
			s.cols = append(s.cols, p.id())
			if !p.eat(",") {
				break
			}
		}
		p.want("from")
		s.table = p.id()
		if p.eat("where") {
			s.where = p.or()
		}
		if p.eat("order", "by") {
			for {
				p.id()
				_ = p.eat("asc") || p.eat("desc")
				if !p.eat(",") {
					break
				}
			}
		}
		if p.eat("limit") {
			s.limited = true
			p.i = len(p.t)
		}
	case "replace", "insert":
		if s.verb == "replace" {
			s.verb, s.onConfl = "insert", "replace"
		} else if p.eat("or") {
			s.onConfl = p.id()
		}
		p.want("into")
		s.table = p.id()
		p.want("(")
		for {
			s.cols = append(s.cols, p.id())
			if !p.eat(",") {
				break
			}
		}
		p.want(")")
		p.want("values")
		p.want("(")
		for {
			s.vals = append(s.vals, p.or())
			if !p.eat(",") {
				break
			}
		}
		p.want(")")
		if p.eat("on", "conflict") {
			if p.eat("(") {
				if p.id() != "path" {
					p.fail("conflict target")
				}
				p.want(")")
			}
			p.want("do")
			if p.eat("nothing") {
				s.onConfl = "ignore"
			} else {
				p.want("update")
				p.want("set")
				s.onConfl = "update"
				s.sets = p.sets()
				if p.eat("where") {
					s.where = p.or()
				}
			}
		}
		if len(s.cols) != len(s.vals) {
			p.fail("columns")
		}
	case "update":
		s.table = p.id()
		p.want("set")
		s.sets = p.sets()
		if p.eat("where") {
			s.where = p.or()
		}
	case "delete":
		p.want("from")
		s.table = p.id()
		if p.eat("where") {
			s.where = p.or()
		}
	default:
		p.i = len(p.t)
	}
	p.eat(";")
	if p.i < len(p.t) {
		p.fail("%q after the statement", p.peek().s)
	}
	s.pars = p.pars
	return s, nil
}

// A class of rows by their path, relative to the name a statement is given.
type rowClass struct {
	name string
	suf  string // the path is the name followed by this, when ext
	ext  bool
	less bool // sorts before every extension of the name, or after
	root bool // the path is ""
}

// the classes when the name is not the root, and when it is
var (
	rowClasses = []rowClass{
		{name: "the name", ext: true},
		{name: "a name beneath it", ext: true, suf: "/x"},
		{name: "a sibling with a byte before / appended", ext: true, suf: "-x"},
		{name: "a sibling with 0 appended", ext: true, suf: "0"},
		{name: "a sibling with 0 and more appended", ext: true, suf: "0x"},
		{name: "a sibling with a later byte appended", ext: true, suf: "x"},
		{name: "an unrelated name before it", less: true},
		{name: "an unrelated name after it"},
		{name: "the root", less: true, root: true},
	}
	rootClasses = []rowClass{
		{name: "the root", ext: true, root: true},
		{name: "a name beneath it", ext: true, suf: "x/y"},
		{name: "a name beneath it, before 0", ext: true, suf: "-y"},
		{name: "a name beneath it, at 0", ext: true, suf: "0y"},
	}
)

type sqlRow struct {
	present bool
	w, o    int
}

func (r sqlRow) marks() (int, int) {
	if !r.present {
		return 0, 0
	}
	return r.w, r.o
}

type sqlVal struct {
	k string // int, text (name+lit when ext, else a literal), row path, unknown
	n int
	s string
	e bool // relative to the name
}

type sqlEval struct {
	cls  rowClass
	row  sqlRow
	ins  map[string]sqlVal
	args []string // n:suffix: the name and a suffix; =lit, #int: a constant; ?: unknown
	unk  bool     // something that is not decided was compared
}

func (v *sqlEval) val(x *sqlExpr) sqlVal {
	switch x.op {
	case "num":
		n := 0
		fmt.Sscan(x.s, &n)
		return sqlVal{k: "int", n: n}
	case "str":
		return sqlVal{k: "text", s: x.s}
	case "par":
		if x.n < len(v.args) {
			switch a := v.args[x.n]; {
			case strings.HasPrefix(a, "n:"):
				return sqlVal{k: "text", e: true, s: a[2:]}
			case strings.HasPrefix(a, "="):
				return sqlVal{k: "text", s: a[1:]}
			case strings.HasPrefix(a, "#"):
				n := 0
				fmt.Sscan(a[1:], &n)
				return sqlVal{k: "int", n: n}
			}
		}
	case "col":
		c := strings.TrimPrefix(x.s, "node.")
		if strings.HasPrefix(c, "excluded.") {
			return v.ins[strings.TrimPrefix(c, "excluded.")]
		}
		switch c {
		case "path":
			return sqlVal{k: "path"}
		case "whiteout":
			return sqlVal{k: "int", n: v.row.w}
		case "opaque":
			return sqlVal{k: "int", n: v.row.o}
		}
	case "||":
		a, b := v.val(x.a[0]), v.val(x.a[1])
		if a.k == "text" && b.k == "text" && !b.e {
			return sqlVal{k: "text", e: a.e, s: a.s + b.s}
		}
	}
	return sqlVal{k: "unknown"}
}

// cmp compares the row's path with a text: -1, 0, 1; ok is false when the class does not decide.
func (v *sqlEval) cmp(t sqlVal) (int, bool) {
	if t.k != "text" {
		return 0, false
	}
	c := v.cls
	if t.e {
		switch {
		case c.root && !c.ext:
			return -1, true
		case c.ext:
			return strings.Compare(c.suf, t.s), true
		case c.less:
			return -1, true
		}
		return 1, true
	}
	if c.root {
		return strings.Compare("", t.s), true
	}
	if t.s == "" {
		return 1, true
	}
	return 0, false
}

// cond: 1 true, 0 false, -1 undecided or both.
func (v *sqlEval) cond(x *sqlExpr) int {
	if x == nil {
		return 1
	}
	switch x.op {
	case "and", "or":
		a, b := v.cond(x.a[0]), v.cond(x.a[1])
		if x.op == "or" {
			a, b = neg3(a), neg3(b)
		}
		r := -1
		if a == 0 || b == 0 {
			r = 0
		} else if a == 1 && b == 1 {
			r = 1
		}
		if x.op == "or" {
			return neg3(r)
		}
		return r
	case "not":
		return neg3(v.cond(x.a[0]))
	case "like":
		p := v.val(x.a[1])
		if v.val(x.a[0]).k != "path" || p.k != "text" {
			v.unk = true
			return -1
		}
		if !p.e || !strings.HasSuffix(p.s, "%") && !strings.HasSuffix(p.s, "*") {
			return -1
		}
		if c := v.cls; c.ext && strings.HasPrefix(c.suf, strings.TrimRight(p.s, "%*")) {
			return 1
		}
		return -1 // a name may hold wildcards
	case "=", "<>", "<", "<=", ">", ">=":
		a, b := v.val(x.a[0]), v.val(x.a[1])
		op := x.op
		if b.k == "path" && a.k != "path" {
			a, b = b, a
			op = map[string]string{"=": "=", "<>": "<>", "<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
		}
		d, ok := 0, false
		switch {
		case a.k == "path":
			d, ok = v.cmp(b)
		case a.k == "int" && b.k == "int":
			d, ok = a.n-b.n, true
		}
		if !ok {
			v.unk = true
			return -1
		}
		var r bool
		switch op {
		case "=":
			r = d == 0
		case "<>":
			r = d != 0
		case "<":
			r = d < 0
		case "<=":
			r = d <= 0
		case ">":
			r = d > 0
		case ">=":
			r = d >= 0
		}
		if r {
			return 1
		}
		return 0
	}
	// a column used as a condition
	if w := v.val(x); w.k == "int" {
		if w.n != 0 {
			return 1
		}
		return 0
	}
	v.unk = true
	return -1
}

func neg3(a int) int {
	switch a {
	case 0:
		return 1
	case 1:
		return 0
	}
	return a
}

// apply lists what may become of a row under a statement on the node table;
// failed reports that the statement may fail on it.
func (s *sqlStmt) apply(cls rowClass, r sqlRow, args []string) (out []sqlRow, failed bool, err error) {
	v := &sqlEval{cls: cls, row: r, args: args}
	set := func(r sqlRow, sets []sqlSet) (sqlRow, error) {
		n := r
		for _, s := range sets {
			x := v.val(s.val)
			switch s.col {
			case "whiteout", "opaque":
				if x.k != "int" {
					return r, fmt.Errorf("%s set to what is not decided", s.col)
				}
				if s.col == "whiteout" {
					n.w = x.n
				} else {
					n.o = x.n
				}
			case "parent":
			default:
				return r, fmt.Errorf("column %s set", s.col)
			}
		}
		return n, nil
	}
	switch s.verb {
	case "insert":
		in := sqlRow{present: true}
		v.ins = map[string]sqlVal{}
		at := sqlVal{k: "unknown"}
		for i, c := range s.cols {
			x := v.val(s.vals[i])
			v.ins[c] = x
			switch c {
			case "path":
				at = x
			case "whiteout", "opaque":
				if x.k != "int" {
					return nil, false, fmt.Errorf("%s inserted as what is not decided", c)
				}
				if c == "whiteout" {
					in.w = x.n
				} else {
					in.o = x.n
				}
			}
		}
		d, ok := v.cmp(at)
		if !ok {
			return nil, false, fmt.Errorf("a row is inserted at what is not the name")
		}
		if d != 0 {
			return []sqlRow{r}, false, nil
		}
		if !r.present {
			return []sqlRow{in}, false, nil
		}
		switch s.onConfl {
		case "ignore":
			return []sqlRow{r}, false, nil
		case "replace":
			return []sqlRow{in}, false, nil
		case "update":
			n, err := set(r, s.sets)
			if err != nil {
				return nil, false, err
			}
			switch d := v.cond(s.where); {
			case v.unk:
				return nil, false, fmt.Errorf("a condition that is not decided")
			case d == 1:
				return []sqlRow{n}, false, nil
			case d == 0:
				return []sqlRow{r}, false, nil
			}
			return []sqlRow{r, n}, false, nil
		}
		return []sqlRow{r}, true, nil
	case "update", "delete":
		if !r.present {
			return []sqlRow{r}, false, nil
		}
		c := v.cond(s.where)
		if v.unk {
			return nil, false, fmt.Errorf("a condition that is not decided")
		}
		n := sqlRow{}
		if s.verb == "update" {
			if n, err = set(r, s.sets); err != nil {
				return nil, false, err
			}
		}
		switch c {
		case 1:
			return []sqlRow{n}, false, nil
		case 0:
			return []sqlRow{r}, false, nil
		}
		return []sqlRow{r, n}, false, nil
	case "select":
		return []sqlRow{r}, false, nil
	}
	return nil, false, fmt.Errorf("a %s statement", s.verb)
}
