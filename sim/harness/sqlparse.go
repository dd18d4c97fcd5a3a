package main

import (
	fmt "github.com/amarin/query/zz_verif/simfmt"
	"strconv"
	"strings"
)

// A small SQL parser: the simulated server's, and the oracles'.

const badPlaceholder = "bad placeholder"

type tok struct {
	s  string
	kw string // upper-cased word
	ph bool   // placeholder
	n  int    // placeholder number, 0 for ?
}

func tokenize(s string) ([]tok, error) {
	var r []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '(' || c == ')' || c == ',' || c == '=':
			r = append(r, tok{s: string(c)})
			i++
		case c == '<' || c == '>':
			if i+1 < len(s) && s[i+1] == '=' {
				r = append(r, tok{s: s[i : i+2]})
				i += 2
			} else {
				r = append(r, tok{s: string(c)})
				i++
			}
		case c == '@':
			if i+1 < len(s) && s[i+1] == '@' {
				r = append(r, tok{s: "@@"})
				i += 2
			} else {
				r = append(r, tok{s: "@"})
				i++
			}
		case c == '\'' || c == '"': // a literal or a quoted name, neither of which statements have
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				return nil, fmt.Errorf("unfinished literal at %d", i)
			}
			r = append(r, tok{s: s[i : i+j+2]})
			i += j + 2
		case c == '?':
			r = append(r, tok{s: "?", ph: true})
			i++
		case c == '$':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			n, err := strconv.Atoi(s[i+1 : j])
			if err != nil {
				return nil, fmt.Errorf(badPlaceholder+" at %d", i)
			}
			r = append(r, tok{s: s[i:j], ph: true, n: n})
			i = j
		case inName(c):
			j := i
			for j < len(s) && (inName(s[j]) || s[j] == '$') {
				j++
			}
			r = append(r, tok{s: s[i:j], kw: strings.ToUpper(s[i:j])})
			i = j
		default:
			r = append(r, tok{s: string(c)}) // unexpected everywhere
			i++
		}
	}
	return r, nil
}

// inName tells whether a character can be a part of a name.
func inName(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || strings.IndexByte("*_.`[]%", c) >= 0
}

// placeholders returns the placeholders of a text in order.
func placeholders(s string) ([]tok, error) {
	ts, err := tokenize(s)
	if err != nil {
		return nil, err
	}
	var r []tok
	for _, t := range ts {
		if t.ph {
			r = append(r, t)
		}
	}
	return r, nil
}

// shape is the token text with every placeholder replaced by ?.
func shape(s string) string {
	ts, err := tokenize(s)
	if err != nil {
		return "!" + s
	}
	var r []string
	for _, t := range ts {
		if t.ph {
			r = append(r, "?")
		} else {
			r = append(r, t.s)
		}
	}
	return strings.Join(r, " ")
}

// PLeaf is a parsed condition.
type PLeaf struct {
	Field string
	Op    string
	Neg   bool  // f NOT LIKE, IS NOT NULL, NOT IN
	Phs   []int // indexes into Stmt.Phs
}

// PExpr is a parsed expression.
type PExpr struct {
	Op   string // leaf and or not
	L    *PLeaf
	Kids []*PExpr
}

// Stmt is a parsed statement.
type Stmt struct {
	Verb   string // SELECT COUNT INSERT UPDATE DELETE
	Fields []string
	Count  string
	Table  string
	Joins  []string
	Where  *PExpr
	Order  []string
	Offset int // placeholder index or -1
	Limit  int // placeholder index or -1
	LimitN int // literal limit or 0
	Cols   []string
	ColPhs []int
	Phs    []tok
}

type parser struct {
	ts []tok
	i  int
	st *Stmt
}

func (p *parser) peek() tok {
	if p.i < len(p.ts) {
		return p.ts[p.i]
	}
	return tok{}
}

func (p *parser) next() tok { t := p.peek(); p.i++; return t }

func (p *parser) is(w string) bool { t := p.peek(); return t.kw == w || (t.kw == "" && t.s == w) }

func (p *parser) accept(w string) bool {
	if p.i < len(p.ts) && p.is(w) {
		p.i++
		return true
	}
	return false
}

func (p *parser) expect(w string) error {
	if !p.accept(w) {
		return fmt.Errorf("expected %s at token %d (%q)", w, p.i, p.peek().s)
	}
	return nil
}

var reserved = map[string]bool{"SELECT": true, "FROM": true, "WHERE": true, "AND": true, "OR": true, "NOT": true,
	"ORDER": true, "BY": true, "LIMIT": true, "OFFSET": true, "INSERT": true, "INTO": true, "VALUES": true, "UPDATE": true, "SET": true,
	"DELETE": true, "ON": true, "JOIN": true, "INNER": true, "LEFT": true, "RIGHT": true, "FULL": true, "AS": true, "IS": true, "NULL": true,
	"IN": true, "LIKE": true, "ILIKE": true}

func (p *parser) name() (string, error) {
	t := p.peek()
	if t.kw == "" || reserved[t.kw] || t.s == "." || strings.HasSuffix(t.s, ".") || strings.HasPrefix(t.s, ".") {
		return "", fmt.Errorf("expected a name at token %d (%q)", p.i, t.s)
	}
	p.i++
	return t.s, nil
}

func (p *parser) ph() (int, error) {
	t := p.peek()
	if !t.ph {
		return 0, fmt.Errorf("expected a placeholder at token %d (%q)", p.i, t.s)
	}
	p.i++
	p.st.Phs = append(p.st.Phs, t)
	return len(p.st.Phs) - 1, nil
}

// is2 accepts the first of two tokens if both follow.
func (p *parser) is2(a, b string) bool {
	if p.peek().s != a || p.i+1 >= len(p.ts) || p.ts[p.i+1].s != b {
		return false
	}
	p.i++
	return true
}

func (p *parser) spec() (string, error) {
	n, err := p.name()
	if err != nil {
		return "", err
	}
	if p.accept("AS") {
		a, err := p.name()
		if err != nil {
			return "", err
		}
		n += " AS " + a
	}
	return n, nil
}

func (p *parser) expr() (*PExpr, error) {
	l, err := p.conj()
	if err != nil {
		return nil, err
	}
	kids := []*PExpr{l}
	for p.accept("OR") {
		r, err := p.conj()
		if err != nil {
			return nil, err
		}
		kids = append(kids, r)
	}
	if len(kids) == 1 {
		return l, nil
	}
	return &PExpr{Op: "or", Kids: kids}, nil
}

func (p *parser) conj() (*PExpr, error) {
	l, err := p.unary()
	if err != nil {
		return nil, err
	}
	kids := []*PExpr{l}
	for p.accept("AND") {
		r, err := p.unary()
		if err != nil {
			return nil, err
		}
		kids = append(kids, r)
	}
	if len(kids) == 1 {
		return l, nil
	}
	return &PExpr{Op: "and", Kids: kids}, nil
}

func (p *parser) unary() (*PExpr, error) {
	if p.accept("NOT") {
		x, err := p.unary()
		if err != nil {
			return nil, err
		}
		return &PExpr{Op: "not", Kids: []*PExpr{x}}, nil
	}
	if p.accept("(") {
		x, err := p.expr()
		if err != nil {
			return nil, err
		}
		return x, p.expect(")")
	}
	return p.leaf()
}

func (p *parser) leaf() (*PExpr, error) {
	f, err := p.name()
	if err != nil {
		return nil, err
	}
	l := &PLeaf{Field: f}
	e := &PExpr{Op: "leaf", L: l}
	if p.accept("IS") {
		l.Neg = p.accept("NOT")
		l.Op = "NULL"
		return e, p.expect("NULL")
	}
	if p.accept("NOT") {
		l.Neg = true
	}
	switch {
	case p.accept("LIKE"):
		l.Op = "LIKE"
	case p.accept("ILIKE"):
		l.Op = "ILIKE"
	case p.accept("IN"), p.is2("@@", "("):
		l.Op = "IN"
		if p.ts[p.i-1].s == "@@" {
			l.Op = "@@"
		}
		if err := p.expect("("); err != nil {
			return nil, err
		}
		for !p.accept(")") {
			if len(l.Phs) > 0 {
				if err := p.expect(","); err != nil {
					return nil, err
				}
			}
			k, err := p.ph()
			if err != nil {
				return nil, err
			}
			l.Phs = append(l.Phs, k)
		}
		return e, nil
	default:
		t := p.next()
		switch t.s {
		case "=", "<", "<=", ">", ">=", "@@":
			l.Op = t.s
		default:
			return nil, fmt.Errorf("expected an operator at token %d (%q)", p.i-1, t.s)
		}
		if l.Neg {
			return nil, fmt.Errorf("NOT before %s", t.s)
		}
	}
	k, err := p.ph()
	if err != nil {
		return nil, err
	}
	l.Phs = append(l.Phs, k)
	return e, nil
}

func parseCond(s string) (st *Stmt, err error) {
	ts, err := tokenize(s)
	if err != nil {
		return nil, err
	}
	st = &Stmt{Verb: "COND", Offset: -1, Limit: -1}
	if len(ts) == 0 {
		return st, nil
	}
	p := &parser{ts: ts, st: st}
	if st.Where, err = p.expr(); err != nil {
		return nil, err
	}
	return st, p.end()
}

func (p *parser) end() error {
	if p.i < len(p.ts) {
		return fmt.Errorf("unexpected text after the statement at token %d (%q)", p.i, p.peek().s)
	}
	return nil
}

func parseStmt(s string) (st *Stmt, err error) {
	ts, err := tokenize(s)
	if err != nil {
		return nil, err
	}
	st = &Stmt{Offset: -1, Limit: -1}
	p := &parser{ts: ts, st: st}
	switch {
	case p.accept("SELECT"):
		err = p.sel()
	case p.accept("INSERT"):
		err = p.ins()
	case p.accept("UPDATE"):
		err = p.upd()
	case p.accept("DELETE"):
		st.Verb = "DELETE"
		if err = p.expect("FROM"); err == nil {
			if st.Table, err = p.name(); err == nil {
				err = p.where()
			}
		}
	default:
		err = fmt.Errorf("unknown statement")
	}
	if err == nil {
		err = p.end()
	}
	if err != nil {
		return nil, err
	}
	return st, nil
}

func (p *parser) where() (err error) {
	if p.accept("WHERE") {
		p.st.Where, err = p.expr()
	}
	return err
}

func (p *parser) from() (err error) {
	if err = p.expect("FROM"); err != nil {
		return err
	}
	if p.st.Table, err = p.spec(); err != nil {
		return err
	}
	for {
		kind := ""
		switch p.peek().kw {
		case "INNER", "LEFT", "RIGHT", "FULL":
			kind = p.next().kw + " JOIN"
			if err = p.expect("JOIN"); err != nil {
				return err
			}
		default:
			return p.where()
		}
		t, err := p.spec()
		if err != nil {
			return err
		}
		if err = p.expect("ON"); err != nil {
			return err
		}
		l, err := p.name()
		if err != nil {
			return err
		}
		if err = p.expect("="); err != nil {
			return err
		}
		r, err := p.name()
		if err != nil {
			return err
		}
		p.st.Joins = append(p.st.Joins, kind+" "+t+" ON "+l+"="+r)
	}
}

func (p *parser) sel() (err error) {
	st := p.st
	if p.is("COUNT") && p.i+1 < len(p.ts) && p.ts[p.i+1].s == "(" {
		st.Verb = "COUNT"
		p.i += 2
		if st.Count, err = p.name(); err != nil {
			return err
		}
		if err = p.expect(")"); err != nil {
			return err
		}
		return p.from()
	}
	st.Verb = "SELECT"
	for {
		f, err := p.spec()
		if err != nil {
			return err
		}
		st.Fields = append(st.Fields, f)
		if !p.accept(",") {
			break
		}
	}
	if err = p.from(); err != nil {
		return err
	}
	if p.accept("ORDER") {
		if err = p.expect("BY"); err != nil {
			return err
		}
		for {
			f, err := p.name()
			if err != nil {
				return err
			}
			d := p.next()
			if d.kw != "ASC" && d.kw != "DESC" {
				return fmt.Errorf("expected a direction, found %q", d.s)
			}
			st.Order = append(st.Order, f+" "+d.kw)
			if !p.accept(",") {
				break
			}
		}
	}
	return p.limits()
}

func (p *parser) limits() (err error) {
	st := p.st
	if p.accept("OFFSET") {
		if st.Offset, err = p.ph(); err != nil {
			return err
		}
	}
	if p.accept("LIMIT") {
		if p.peek().ph {
			st.Limit, err = p.ph()
			return err
		}
		n, err := strconv.Atoi(p.next().s)
		if err != nil || n <= 0 {
			return fmt.Errorf("bad LIMIT")
		}
		st.LimitN = n
	}
	return nil
}

func (p *parser) ins() (err error) {
	st := p.st
	st.Verb = "INSERT"
	if err = p.expect("INTO"); err != nil {
		return err
	}
	if st.Table, err = p.name(); err != nil {
		return err
	}
	if err = p.expect("("); err != nil {
		return err
	}
	for {
		c, err := p.name()
		if err != nil {
			return err
		}
		st.Cols = append(st.Cols, c)
		if !p.accept(",") {
			break
		}
	}
	for _, w := range []string{")", "VALUES", "("} {
		if err = p.expect(w); err != nil {
			return err
		}
	}
	for {
		k, err := p.ph()
		if err != nil {
			return err
		}
		st.ColPhs = append(st.ColPhs, k)
		if !p.accept(",") {
			break
		}
	}
	if len(st.Cols) != len(st.ColPhs) {
		return fmt.Errorf("%d columns but %d values", len(st.Cols), len(st.ColPhs))
	}
	return p.expect(")")
}

func (p *parser) upd() (err error) {
	st := p.st
	st.Verb = "UPDATE"
	if st.Table, err = p.name(); err != nil {
		return err
	}
	if err = p.expect("SET"); err != nil {
		return err
	}
	for {
		c, err := p.name()
		if err != nil {
			return err
		}
		if err = p.expect("="); err != nil {
			return err
		}
		k, err := p.ph()
		if err != nil {
			return err
		}
		st.Cols = append(st.Cols, c)
		st.ColPhs = append(st.ColPhs, k)
		if !p.accept(",") {
			break
		}
	}
	return p.where()
}

type ppLeaf struct {
	L   *PLeaf
	Neg bool
}

func (e *PExpr) leaves(neg bool, out []ppLeaf) []ppLeaf {
	if e == nil {
		return out
	}
	switch e.Op {
	case "leaf":
		return append(out, ppLeaf{e.L, neg != e.L.Neg})
	case "not":
		return e.Kids[0].leaves(!neg, out)
	}
	for _, k := range e.Kids {
		out = k.leaves(neg, out)
	}
	return out
}
