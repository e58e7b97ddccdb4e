package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- the SQL text, read back -------------------------------------------------

// convertible: the SQL walker has a translation for n.
func convertible(n *N) bool {
	if n == nil {
		return false
	}
	switch n.K {
	case "ARRAY":
		return false
	case "UNARY_EXP":
		return (n.Op == "NOT" || n.Op == "NEG") && convertible(n.R)
	case "BINARY_EXP":
		if !convertible(n.L) || n.R == nil {
			return false
		}
		switch n.Op {
		case "IN", "BETWEEN":
			if n.R.K != "ARRAY" || n.Op == "BETWEEN" && len(n.R.E) != 2 {
				return false
			}
			for _, e := range n.R.E {
				if !convertible(e) {
					return false
				}
			}
			return true
		case "IS":
			return n.R.K == "NULL"
		}
		return convertible(n.R)
	}
	return true
}

// bound is the argument a literal is bound as.
func bound(n *N) interface{} {
	switch n.K {
	case "NUMBER":
		return n.F
	case "BOOLEAN":
		if n.B {
			return 1
		}
		return 0
	case "DATE", "TIMESTAMP":
		t, ok := instant(n.S)
		if !ok {
			return n.S
		}
		return t.UTC().Format("2006-01-02 15:04:05.999999999")
	}
	return n.S
}

func isLiteral(n *N) bool {
	switch n.K {
	case "NUMBER", "BOOLEAN", "DATE", "TIMESTAMP", "STRING":
		return true
	}
	return false
}

// literals lists the literals of n in the order they are written.
func literals(n *N) (out []*N) {
	if n == nil {
		return
	}
	if isLiteral(n) {
		return []*N{n}
	}
	out = append(literals(n.L), literals(n.R)...)
	for _, e := range n.E {
		out = append(out, literals(e)...)
	}
	return
}

func sameArg(a, b interface{}) bool {
	if f, ok := number(a); ok {
		g, ok := number(b)
		return ok && f == g
	}
	if ta, ok := a.(time.Time); ok {
		tb, ok := instant(strings.Replace(fmt.Sprint(b), " ", "T", 1) + "Z")
		return ok && ta.Equal(tb)
	}
	s, ok := a.(string)
	u, ok2 := b.(string)
	return ok && ok2 && s == u
}

var sqlWords = map[string]bool{"AND": true, "OR": true, "NOT": true, "IN": true, "BETWEEN": true, "LIKE": true, "ILIKE": true, "IS": true, "NULL": true, "REGEXP": true}

// sqlLex splits SQL text into identifiers, upper-case keywords, placeholders
// and operators; anything else is an error.
func sqlLex(s string, names map[string]bool) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		if c == ' ' {
			i++
			continue
		}
		if n := identLen(s[i:]); n > 0 {
			w := s[i : i+n]
			i += n
			if names[w] {
				out = append(out, "id:"+w)
				continue
			}
			if !sqlWords[strings.ToUpper(w)] {
				return nil, fmt.Errorf("%q in the SQL is neither a name of the phrase nor a keyword", w)
			}
			out = append(out, strings.ToUpper(w))
			continue
		}
		if i+1 < len(s) {
			switch two := s[i : i+2]; two {
			case "<=", ">=", "!=", "<>":
				out = append(out, two)
				i += 2
				continue
			case "--", "/*":
				return nil, fmt.Errorf("%q starts a comment in the SQL", two)
			}
		}
		if !strings.ContainsRune("()?,+-*/%=<>", rune(c)) {
			return nil, fmt.Errorf("%q in the SQL is no operator", s[i:])
		}
		out = append(out, s[i:i+1])
		i++
	}
	return out, nil
}

// sqlParser reads an SQL condition with the precedence all SQL dialects share;
// what dialects group differently (a comparison of a comparison without
// parentheses) is an error.
type sqlParser struct {
	toks []string
	lits []*N
}

type sqlErr string

func (p *sqlParser) peek() string {
	if len(p.toks) == 0 {
		return ""
	}
	return p.toks[0]
}

func (p *sqlParser) next() string {
	s := p.peek()
	if s != "" {
		p.toks = p.toks[1:]
	}
	return s
}

func (p *sqlParser) want(s string) {
	if g := p.next(); g != s {
		panic(sqlErr(fmt.Sprintf("%q where %q was expected", g, s)))
	}
}

func (p *sqlParser) or() *N {
	n := p.and()
	for p.peek() == "OR" {
		p.next()
		n = bin("OR", n, p.and())
	}
	return n
}

func (p *sqlParser) and() *N {
	n := p.not()
	for p.peek() == "AND" {
		p.next()
		n = bin("AND", n, p.not())
	}
	return n
}

func (p *sqlParser) not() *N {
	if p.peek() == "NOT" {
		p.next()
		return un("NOT", p.not())
	}
	return p.cmp()
}

var sqlCmp = map[string]string{"=": "EQ", "!=": "NE", "<>": "NE", "<": "LT", "<=": "LE", ">": "GT", ">=": "GE", "LIKE": "LIKE", "ILIKE": "ILIKE", "REGEXP": "REQ"}

func (p *sqlParser) cmp() *N {
	l := p.sum()
	neg := func(n *N) *N { return n }
	if p.peek() == "NOT" {
		p.next()
		neg = func(n *N) *N { return un("NOT", n) }
	}
	switch t := p.peek(); {
	case sqlCmp[t] != "":
		p.next()
		return neg(bin(sqlCmp[t], l, p.sum()))
	case t == "IN":
		p.next()
		p.want("(")
		a := arr()
		for p.peek() != ")" {
			if len(a.E) > 0 {
				p.want(",")
			}
			a.E = append(a.E, p.or())
		}
		p.next()
		return neg(bin("IN", l, a))
	case t == "BETWEEN":
		p.next()
		lo := p.sum()
		p.want("AND")
		return neg(bin("BETWEEN", l, arr(lo, p.sum())))
	case t == "IS":
		p.next()
		if p.peek() == "NOT" {
			p.next()
			neg = func(n *N) *N { return un("NOT", n) }
		}
		p.want("NULL")
		return neg(bin("IS", l, null()))
	}
	return l
}

func (p *sqlParser) sum() *N {
	n := p.prod()
	for p.peek() == "+" || p.peek() == "-" {
		op := map[string]string{"+": "ADD", "-": "SUB"}[p.next()]
		n = bin(op, n, p.prod())
	}
	return n
}

func (p *sqlParser) prod() *N {
	n := p.unary()
	for p.peek() == "*" || p.peek() == "/" || p.peek() == "%" {
		op := map[string]string{"*": "MUL", "/": "DIV", "%": "MOD"}[p.next()]
		n = bin(op, n, p.unary())
	}
	return n
}

func (p *sqlParser) unary() *N {
	switch t := p.next(); {
	case t == "-":
		return un("NEG", p.unary())
	case t == "(":
		n := p.or()
		p.want(")")
		return n
	case t == "NULL":
		return null()
	case t == "?":
		if len(p.lits) == 0 {
			panic(sqlErr("more placeholders than literals"))
		}
		n := p.lits[0]
		p.lits = p.lits[1:]
		return n
	case strings.HasPrefix(t, "id:"):
		return id(t[3:])
	default:
		panic(sqlErr(fmt.Sprintf("%q where an operand was expected", t)))
	}
}

// readSQL gives the tree the SQL text stands for, its placeholders standing
// for the literals of n in order.
func readSQL(text string, n *N) (m *N, err error) {
	names := map[string]bool{}
	n.walk(func(m *N) {
		if m.K == "IDENTIFIER" {
			names[m.S] = true
		}
	})
	toks, err := sqlLex(text, names)
	if err != nil {
		return nil, err
	}
	p := &sqlParser{toks, literals(n)}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(sqlErr); ok {
				m, err = nil, fmt.Errorf("%s", string(s))
				return
			}
			panic(r)
		}
	}()
	m = p.or()
	if p.peek() != "" {
		return nil, fmt.Errorf("%q is left over", strings.Join(p.toks, " "))
	}
	if len(p.lits) > 0 {
		return nil, fmt.Errorf("%d literals have no placeholder", len(p.lits))
	}
	return m, nil
}

// plainOps writes ~! as not ~=, as the SQL does.
func plainOps(n *N) *N {
	if n == nil {
		return nil
	}
	c := *n
	c.L, c.R, c.E = plainOps(n.L), plainOps(n.R), nil
	for _, e := range n.E {
		c.E = append(c.E, plainOps(e))
	}
	switch {
	case c.K == "BINARY_EXP" && c.Op == "RNE":
		return un("NOT", bin("REQ", c.L, c.R))
	}
	return &c
}

// sameMeaning compares trees up to spelling; AND and OR chains may be grouped
// either way, and a double negation or a sign may be folded into its operand.
func sameMeaning(a, b *N) bool { return equalN(normal(a), normal(b)) }

func normal(n *N) *N {
	n = plainOps(n)
	var f func(*N) *N
	f = func(m *N) *N {
		if m == nil {
			return nil
		}
		c := *m
		if m.K == "BINARY_EXP" && (m.Op == "AND" || m.Op == "OR") {
			c = N{K: "CHAIN", Op: m.Op}
			var flat func(*N)
			flat = func(x *N) {
				if x != nil && x.K == "BINARY_EXP" && x.Op == m.Op {
					flat(x.L)
					flat(x.R)
					return
				}
				c.E = append(c.E, f(x))
			}
			flat(m)
			return &c
		}
		c.L, c.R, c.E = f(m.L), f(m.R), nil
		for _, e := range m.E {
			c.E = append(c.E, f(e))
		}
		return &c
	}
	return f(n)
}

// toSQL runs the walker and renders its filter.
func toSQL(t *tsl.TSLNode) (string, []interface{}, error, error) {
	f, err := sql.Walk(t)
	if err != nil {
		return "", nil, err, nil
	}
	if f == nil {
		return "", nil, nil, fmt.Errorf("no filter and no error")
	}
	s, args, err := f.ToSql()
	if err != nil {
		return "", nil, nil, fmt.Errorf("ToSql fails: %v", err)
	}
	return s, args, nil, nil
}

// sqlTree draws a tree the SQL walker can mostly convert.
func sqlTree(t *rapid.T, d int, cond bool) *N {
	if d <= 0 {
		return genLeaf(t)
	}
	list := func(n int) *N {
		a := arr()
		for i := 0; i < n; i++ {
			a.E = append(a.E, sqlTree(t, d-1, false))
		}
		return a
	}
	switch rapid.IntRange(0, 9).Draw(t, "sqlNode") {
	case 0, 1:
		return bin(pick(t, "logic", "AND", "OR"), sqlTree(t, d-1, true), sqlTree(t, d-1, true))
	case 2, 3:
		return bin(pick(t, "cmp", cmpNames...), sqlTree(t, d-1, false), sqlTree(t, d-1, false))
	case 4:
		return bin("IN", sqlTree(t, d-1, false), list(rapid.IntRange(0, 4).Draw(t, "len")))
	case 5:
		return bin("BETWEEN", sqlTree(t, d-1, false), list(2))
	case 6:
		return bin(pick(t, "like", "LIKE", "ILIKE"), sqlTree(t, d-1, false), sqlTree(t, d-1, false))
	case 7:
		return bin(pick(t, "math", "ADD", "SUB", "MUL", "DIV", "MOD"), sqlTree(t, d-1, false), sqlTree(t, d-1, false))
	case 8:
		if chance(t, "is", 40) {
			return bin("IS", sqlTree(t, d-1, false), null())
		}
		return un(pick(t, "un", "NOT", "NOT", "NEG"), sqlTree(t, d-1, cond))
	}
	return genLeaf(t)
}

// ---- C14: literals stay out of the text ----------------------------------------

type literalCase struct {
	Tree *N
	Alt  []*N // other literals, taken in order where the kind fits
}

func otherLiteral(t *rapid.T, n *N) *N {
	for i := 0; i < 20; i++ {
		var m *N
		switch n.K {
		case "NUMBER":
			m = num(genNumber(t))
		case "BOOLEAN":
			m = boolean(rapid.Bool().Draw(t, "bool"))
		case "DATE":
			m = str(genDateText(t))
		case "TIMESTAMP":
			m = str(genStampText(t))
		default:
			m = str(pick(t, "sqlish", "' OR '1'='1", "?", "??", "x') --", "$1", ":a", "a ? b", "%", "/*", "\\", "\"", "`", ";", "?,?", "(?)", genString(t)))
		}
		if m.K == n.K {
			return m
		}
	}
	return n.clone()
}

func genLiterals(t *rapid.T) literalCase {
	c := literalCase{Tree: stretch(t, sqlTree(t, rapid.IntRange(0, 4).Draw(t, "depth"), true), 6, true)}
	if chance(t, "inject", 40) { // awkward strings in the first phrase too
		c.Tree.walk(func(m *N) {
			if m.K == "STRING" {
				*m = *otherLiteral(t, m)
			}
		})
	}
	for _, l := range literals(c.Tree) {
		c.Alt = append(c.Alt, otherLiteral(t, l))
	}
	return c
}

func checkLiterals(c literalCase, x *kit.X) error {
	run := func(n *N) (string, []interface{}, error, error) {
		t, err := build(n)
		if err != nil {
			return "", nil, nil, err
		}
		defer t.Free()
		s, a, we, err := toSQL(t)
		if err != nil {
			return "", nil, nil, fmt.Errorf("%s: %v", cut(render(nil, n)), err)
		}
		if we != nil {
			return "", nil, we, nil
		}
		lits := literals(n)
		if strings.Count(s, "?") != len(a) {
			return "", nil, nil, fmt.Errorf("%s: SQL %q has %d placeholders for %d arguments", cut(render(nil, n)), s, strings.Count(s, "?"), len(a))
		}
		if len(a) != len(lits) {
			return "", nil, nil, fmt.Errorf("%s: SQL %q has arguments %v for %d literals", cut(render(nil, n)), s, a, len(lits))
		}
		for i, l := range lits {
			if !sameArg(a[i], bound(l)) {
				return "", nil, nil, fmt.Errorf("%s: SQL %q binds %#v as argument %d, wanted %#v", cut(render(nil, n)), s, a[i], i, bound(l))
			}
		}
		names := map[string]bool{}
		n.walk(func(m *N) {
			if m.K == "IDENTIFIER" {
				names[m.S] = true
			}
		})
		if _, err := sqlLex(s, names); err != nil {
			return "", nil, nil, fmt.Errorf("%s: SQL %q: %v", cut(render(nil, n)), s, err)
		}
		return s, a, nil, nil
	}
	s1, _, e1, err := run(c.Tree)
	if err != nil {
		return err
	}
	other := c.Tree.clone()
	for i, l := range literals(other) {
		if i < len(c.Alt) && c.Alt[i].K == l.K {
			*l = *c.Alt[i].clone()
		}
	}
	s2, _, e2, err := run(other)
	if err != nil {
		return err
	}
	if (e1 == nil) != (e2 == nil) || s1 != s2 {
		return fmt.Errorf("%s gives SQL %q (%v), but\n%s gives %q (%v)", cut(render(nil, c.Tree)), s1, e1, cut(render(nil, other)), s2, e2)
	}
	x.LabelIf(e1 != nil, "not convertible")
	if e1 == nil && len(c.Alt) > 0 {
		x.NonTrivial()
	}
	x.Sample("%s / %s -> %s", render(nil, c.Tree), render(nil, other), s1)
	return nil
}

// ---- C16: converts or refuses --------------------------------------------------

type convertCase struct {
	Tree *N
	Cuts []int
	Put  []put // operands replaced
}

type put struct {
	At   int
	With *N // nil: the null literal
}

// replace puts trees in place of operands, in the model and in the tree.
func replace(root *N, t *tsl.TSLNode, puts []put) error {
	for _, p := range puts {
		ss := slots(root)
		if len(ss) == 0 {
			return nil
		}
		s := ss[p.At%len(ss)]
		tn := find(root, t, s.n)
		if tn == nil {
			return fmt.Errorf("the tree lacks a node of its own model: %v", root)
		}
		with := p.With.clone()
		var w *tsl.TSLNode
		var err error
		if with == nil {
			with = null()
			is, err := build(bin("IS", id("x"), null()))
			if err != nil {
				return err
			}
			w = is.DetachRight()
			is.Free()
		} else if w, err = build(with); err != nil {
			return err
		}
		var old *tsl.TSLNode
		ok := false
		switch {
		case s.side == 'L':
			old = tn.DetachLeft()
			ok = tn.AttachLeft(w)
			s.n.L = with
		case s.n.K == "UNARY_EXP":
			old = tn.DetachChild()
			ok = tn.AttachChild(w)
			s.n.R = with
		default:
			old = tn.DetachRight()
			ok = tn.AttachRight(w)
			s.n.R = with
		}
		old.Free()
		if !ok {
			return fmt.Errorf("attaching %v to %v is refused", with, s.n)
		}
	}
	return nil
}

func genConvert(t *rapid.T) convertCase {
	var c convertCase
	if chance(t, "anyTree", 40) {
		c.Tree = genTree(t, rapid.IntRange(0, 4).Draw(t, "depth"))
	} else {
		c.Tree = stretch(t, sqlTree(t, rapid.IntRange(0, 5).Draw(t, "depth"), true), 6, true)
	}
	c.Cuts = genCuts(t, 15)
	if chance(t, "replacing", 25) {
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "puts"); i < n; i++ {
			p := put{At: rapid.IntRange(0, 40).Draw(t, "at")}
			if chance(t, "tree", 60) {
				p.With = sqlTree(t, rapid.IntRange(0, 2).Draw(t, "with"), false)
			} else if chance(t, "array", 50) {
				p.With = genTree(t, 2)
			}
			c.Put = append(c.Put, p)
		}
	}
	return c
}

func checkConvert(c convertCase, x *kit.X) error {
	model := c.Tree.clone()
	t, err := build(model)
	if err != nil {
		return err
	}
	defer t.Free()
	if err := replace(model, t, c.Put); err != nil {
		return err
	}
	if err := cutTree(model, t, c.Cuts); err != nil {
		return err
	}
	s, args, we, err := toSQL(t)
	if err != nil {
		return fmt.Errorf("%v: %v", model, err)
	}
	if got := fromTSL(t); !equalN(got, model) {
		return fmt.Errorf("converting changed the tree to\n  %v\nfrom\n  %v", got, model)
	}
	if want := convertible(model); (we == nil) != want {
		return fmt.Errorf("%v gives SQL %q (error: %v), wanted a conversion: %v", model, s, we, want)
	}
	x.LabelIf(len(c.Cuts)+len(c.Put) > 0, "edited")
	if we != nil {
		x.Label("refused")
		return nil
	}
	x.Label("converted")
	if strings.Count(s, "?") != len(args) {
		return fmt.Errorf("%v: SQL %q has %d arguments", model, s, len(args))
	}
	back, err := readSQL(s, model)
	if err != nil {
		return fmt.Errorf("%v: SQL %q: %v", model, s, err)
	}
	if !sameMeaning(back, model) {
		return fmt.Errorf("SQL %q means\n  %v\nbut the phrase means\n  %v", s, back, model)
	}
	for i, l := range literals(model) {
		if !sameArg(args[i], bound(l)) {
			return fmt.Errorf("%v: SQL %q binds %#v as argument %d, wanted %#v", model, s, args[i], i, bound(l))
		}
	}
	if model.size() >= 3 {
		x.NonTrivial()
	}
	x.Sample("%v -> %s", model, s)
	return nil
}

func init() {
	kit.Register("C14/literals", "a tree of SQL operators (0-5 levels) and the same tree with every literal replaced by another of its kind (strings with quotes, ?, --, comments, placeholders); non-trivial: it converts and has a literal", genLiterals, checkLiterals)
	kit.Register("C16/convert", "any tree, or one of SQL operators, with 0-2 operands replaced and 0-3 detached; converted, the text parsed back by an own SQL reader; non-trivial: it converts and has at least 3 nodes", genConvert, checkConvert)
}
