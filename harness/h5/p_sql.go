package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- the SQL text, read back ------------------------------------------------

// convertible: SQL has a translation (regular expressions have none).
func convertible(n *T) bool {
	ok := true
	n.walk(func(m *T) { ok = ok && m.F != "regex" && m.F != "nregex" })
	return ok
}

// inSQL writes a tree as SQL has it: booleans are 1 and 0, dates texts.
func inSQL(n *T) *T {
	if n == nil {
		return nil
	}
	c := *n
	switch n.F {
	case "boolean":
		if n.B {
			return num(1)
		}
		return num(0)
	case "in", "nin":
		if len(n.R.E) == 0 { // in no list
			return &T{F: "const", B: n.F == "nin"}
		}
	}
	c.L, c.R, c.E = inSQL(n.L), inSQL(n.R), nil
	for _, e := range n.E {
		c.E = append(c.E, inSQL(e))
	}
	return &c
}

// chains makes one node of a chain of ANDs or ORs, which may be grouped either way.
func chains(n *T) *T {
	if n == nil {
		return nil
	}
	c := *n
	if n.F == "and" || n.F == "or" {
		c = T{F: n.F + "s"}
		var flat func(*T)
		flat = func(m *T) {
			if m.F == n.F {
				flat(m.L)
				flat(m.R)
				return
			}
			c.E = append(c.E, chains(m))
		}
		flat(n)
		return &c
	}
	c.L, c.R, c.E = chains(n.L), chains(n.R), nil
	for _, e := range n.E {
		c.E = append(c.E, chains(e))
	}
	return &c
}

var sqlToken = func() *regexp.Regexp {
	r := regexp.MustCompile(`\A(?:[A-Za-z_][A-Za-z_0-9.]*|[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?|'[^']*'|` + quoted + `|<=|>=|<>|!=|[()?,+*/%=<>-])`)
	r.Longest()
	return r
}()

var sqlWords = map[string]bool{"AND": true, "OR": true, "NOT": true, "IN": true, "BETWEEN": true, "LIKE": true, "ILIKE": true, "IS": true, "NULL": true}

// readSQL reads SQL text with the precedence all dialects share. Names must be
// those of the phrase, quoted texts dates, and placeholders take the arguments
// in order.
var sqlColumn = regexp.MustCompile("(?s)^(\\w+|\"([^\"]|\"\")*\"|`([^`]|``)*`|\\[[^\\]]*\\])(\\.(\\w+|\"([^\"]|\"\")*\"|`([^`]|``)*`|\\[[^\\]]*\\]))*$")

func readSQL(text string, args []interface{}, n *T) (m *T, err error) {
	names := map[string]bool{}
	n.walk(func(k *T) {
		if k.F == "ident" {
			names[string(k.S)] = true
		}
	})
	var toks []tok
	for s := text; s != ""; {
		if s[0] == ' ' {
			s = s[1:]
			continue
		}
		if strings.HasPrefix(s, "--") || strings.HasPrefix(s, "/*") {
			return nil, fmt.Errorf("a comment in the SQL: %q", s)
		}
		w := ""
		for k := range names { // the longest name that stands here
			if strings.HasPrefix(s, k) && len(k) > len(w) {
				w = k
			}
		}
		if w != "" && !sqlColumn.MatchString(w) {
			return nil, fmt.Errorf("the name %q stands unquoted", w)
		}
		t := sqlToken.FindString(s)
		if t == "" && w == "" {
			return nil, fmt.Errorf("%q in the SQL is no token", s)
		}
		switch {
		case len(w) >= len(t):
			toks = append(toks, tok{"id", w})
			t = w
		case t[0] == '_' || t[0]|0x20 >= 'a' && t[0]|0x20 <= 'z' && t[0] >= 'A':
			if !sqlWords[strings.ToUpper(t)] {
				return nil, fmt.Errorf("%q in the SQL is neither a name of the phrase nor a keyword", t)
			}
			toks = append(toks, tok{strings.ToUpper(t), t})
		case t[0] >= '0' && t[0] <= '9':
			toks = append(toks, tok{"num", t})
		case t[0] == '\'':
			if len(t) < 12 || !rx(day+`(?:T`+clock+`(?:Z|`+zone+`))?\z`).MatchString(t[1:len(t)-1]) {
				return nil, fmt.Errorf("the text %s stands in the SQL", t)
			}
			toks = append(toks, tok{"date", t[1 : len(t)-1]})
		default:
			toks = append(toks, tok{t, t})
		}
		s = s[len(t):]
	}
	p := &sqlParser{refParser{t: toks}, args}
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(giveUp); ok {
				m, err = nil, g.err
				return
			}
			panic(r)
		}
	}()
	m = p.or()
	if p.i != len(toks) {
		return nil, fmt.Errorf("%q is left over", toks[p.i].s)
	}
	if len(p.args) > 0 {
		return nil, fmt.Errorf("%d arguments have no placeholder", len(p.args))
	}
	return m, nil
}

type sqlParser struct {
	refParser
	args []interface{}
}

func (p *sqlParser) or() *T {
	n := p.and()
	for p.accept("OR") {
		n = bin("or", n, p.and())
	}
	return n
}

func (p *sqlParser) and() *T {
	n := p.not()
	for p.accept("AND") {
		n = bin("and", n, p.not())
	}
	return n
}

func (p *sqlParser) not() *T {
	if p.accept("NOT") {
		return not(p.not())
	}
	l := p.sum()
	if op, ok := cmpOps[p.peek()]; ok {
		p.i++
		r := p.sum()
		if l.F == "number" && r.F == "number" && op == "eq" { // stands for a truth value
			return &T{F: "const", B: l.N == r.N}
		}
		return bin(op, l, r)
	}
	if p.accept("IS") {
		f := "nexists"
		if p.accept("NOT") {
			f = "exists"
		}
		p.expect("NULL")
		return &T{F: f, L: l}
	}
	neg := p.accept("NOT")
	switch {
	case p.accept("LIKE"), p.accept("ILIKE"):
		n := bin(strings.ToLower(p.t[p.i-1].k), l, p.sum())
		if neg {
			n = not(n)
		}
		return n
	case p.accept("BETWEEN"):
		a := p.sum()
		p.expect("AND")
		return bin(map[bool]string{false: "between", true: "nbetween"}[neg], l, list(a, p.sum()))
	case p.accept("IN"):
		p.expect("(")
		a := list()
		for !p.accept(")") {
			if len(a.E) > 0 {
				p.expect(",")
			}
			a.E = append(a.E, p.sum())
		}
		return bin(map[bool]string{false: "in", true: "nin"}[neg], l, a)
	}
	if neg {
		p.fail(fmt.Errorf("NOT where an operator was expected"))
	}
	return l
}

func (p *sqlParser) sum() *T {
	n := p.product()
	for addOps[p.peek()] != "" {
		op := addOps[p.peek()]
		p.i++
		n = bin(op, n, p.product())
	}
	return n
}

func (p *sqlParser) product() *T {
	n := p.operand()
	for mulOps[p.peek()] != "" {
		op := mulOps[p.peek()]
		p.i++
		n = bin(op, n, p.operand())
	}
	return n
}

func (p *sqlParser) operand() *T {
	k := p.peek()
	p.i++
	switch k {
	case "(":
		n := p.or()
		p.expect(")")
		return n
	case "-":
		n := p.operand()
		if n.F != "number" {
			p.fail(fmt.Errorf("a sign before %v", n))
		}
		return num(-n.N)
	case "id":
		return id(p.t[p.i-1].s)
	case "date":
		return date(p.t[p.i-1].s)
	case "num":
		f, err := strconv.ParseFloat(p.t[p.i-1].s, 64)
		if err != nil {
			p.fail(err)
		}
		return num(f)
	case "?":
		if len(p.args) == 0 {
			p.fail(fmt.Errorf("more placeholders than arguments"))
		}
		a := p.args[0]
		p.args = p.args[1:]
		switch v := a.(type) {
		case string:
			return str(v)
		case float64:
			return num(v)
		case int:
			return num(float64(v))
		case int64:
			return num(float64(v))
		case bool:
			if v {
				return num(1)
			}
			return num(0)
		case time.Time:
			return date(v.Format(stampForm))
		}
		p.fail(fmt.Errorf("argument of type %T", a))
	}
	p.fail(fmt.Errorf("%q where an operand was expected", k))
	return nil
}

// texts turns dates into the texts SQL binds, where got has texts.
func texts(got, want *T) {
	if got == nil || want == nil {
		return
	}
	if want.F == "date" && got.F == "string" && rx(day+`(?:T`+clock+`(?:Z|`+zone+`))?\z`).MatchString(string(got.S)) {
		got.F = "date"
	}
	if len(got.E) == len(want.E) {
		for i := range got.E {
			texts(got.E[i], want.E[i])
		}
	}
	texts(got.L, want.L)
	texts(got.R, want.R)
}

// sqlNames gives every identifier a name that is a column name in SQL too.
func sqlNames(t *rapid.T, n *T) *T {
	n.walk(func(m *T) {
		if m.F != "ident" {
			return
		}
		names := []string{"a", "b", "name", "user_id", "_x", "inner_x", "t.name", "s.t.c", "A", "nulls", "e5", "x1", "and_", "T"}
		if V == 4 {
			names = append(names, `"q x"`, `"a""b"`, "`t`.c", "[w x].y", `"?"`, `"and"`, "`x'y`", "[--]", `"/*"`)
		}
		m.S = kit.Str(names[upto(t, "column", len(names)-1)])
	})
	return n
}

type sqlCase struct {
	Tree *T
	Alt  *T // the same with other values of its literals (only those outside arithmetic)
}

var sqlish = []string{"' OR '1'='1", "?", "??", "x') --", "$1", ":a", "a ? b", "%", "/*", "\\", "\"", "`", ";", "?,?", "(?)", "NULL", "", "t", "1=1"}

func otherLiteral(t *rapid.T, n *T) *T {
	switch n.F {
	case "number":
		return num(genNumber(t))
	case "boolean":
		return boolean(rapid.Bool().Draw(t, "bool"))
	case "date":
		return date(genDate(t))
	case "string":
		if chance(t, "sqlish", 60) {
			return str(sqlish[upto(t, "which", len(sqlish)-1)])
		}
		return str(genString(t))
	}
	return n.clone()
}

// vary changes the literals that stand outside arithmetic.
func vary(t *rapid.T, n *T) *T {
	if n == nil {
		return nil
	}
	if n.leaf() {
		return otherLiteral(t, n)
	}
	if n.math() {
		return n.clone()
	}
	c := &T{F: n.F, L: vary(t, n.L), R: vary(t, n.R)}
	for _, e := range n.E {
		c.E = append(c.E, vary(t, e))
	}
	return c
}

func toSQL(n *T) (text string, args []interface{}, refused error, err error) {
	phrase := render(nil, n)
	t, m, err := parse(phrase)
	if err != nil {
		return "", nil, nil, fmt.Errorf("%q: %v", phrase, err)
	}
	if !same(t, n) {
		return "", nil, nil, fmt.Errorf("%q parses to %v", phrase, t)
	}
	before := copyNode(m)
	f, refused := sql.Walk(m)
	if !unchanged(before, m) {
		return "", nil, nil, fmt.Errorf("%q: the walk changes the tree", phrase)
	}
	if refused != nil {
		return
	}
	if f == nil {
		return "", nil, nil, fmt.Errorf("%q: no filter and no error", phrase)
	}
	text, args, err = f.ToSql()
	if err != nil {
		err = fmt.Errorf("%q: ToSql fails: %v", phrase, err)
	}
	return
}

func checkSQL(c sqlCase, x *kit.X) error {
	text, args, refused, err := toSQL(c.Tree)
	if err != nil {
		return err
	}
	phrase := render(nil, c.Tree)
	if (refused == nil) != convertible(c.Tree) {
		return fmt.Errorf("%q: error %v, wanted an error: %v", phrase, refused, !convertible(c.Tree))
	}
	if refused != nil {
		x.Label("refused")
		return nil
	}
	want := inSQL(c.Tree)
	got, err := readSQL(text, args, c.Tree)
	if err != nil {
		return fmt.Errorf("%q gives SQL %q %v: %v", phrase, text, args, err)
	}
	got, want = chains(got), chains(want)
	texts(got, want)
	if !same(got, want) {
		return fmt.Errorf("%q gives SQL %q %v, which reads\n  %v\nwanted\n  %v", phrase, text, args, got, want)
	}
	alt, _, _, err := toSQL(c.Alt)
	if err != nil {
		return err
	}
	if alt != text {
		return fmt.Errorf("the SQL depends on literal values:\n%q gives\n  %s\n%q gives\n  %s", phrase, text, render(nil, c.Alt), alt)
	}
	if len(args) > 0 && c.Tree.size() >= 5 {
		x.NonTrivial()
	}
	c.Tree.walk(func(n *T) { x.LabelIf(!n.leaf(), n.F) })
	x.Sample("%s: %s %v", phrase, text, args)
	return nil
}

var _ = tsl.IdentOp

func init() {
	register("C23/text", "a tree of the language (0-4 levels) over plain column names (v4: quoted ones too), strings rich in SQL; the SQL text is read back by an own reader, its arguments taking the placeholders in order, and compared with the tree; replacing the literals outside arithmetic must leave the text as it is; non-trivial: at least 5 nodes and an argument",
		func(t *rapid.T) sqlCase {
			n := sqlNames(t, genTree(t, upto(t, "depth", 4)))
			n.walk(func(m *T) {
				switch {
				case m.F == "regex" && chance(t, "noRegex", 85):
					m.F = "eq"
				case m.F == "nregex" && chance(t, "noRegex", 85):
					m.F = "ne"
				case m.F == "string" && chance(t, "inject", 30):
					m.S = kit.Str(sqlish[upto(t, "which", len(sqlish)-1)])
				}
			})
			return sqlCase{n, vary(t, n)}
		}, checkSQL)
}
