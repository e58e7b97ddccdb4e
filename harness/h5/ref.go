package main

import (
	"errors"
	"math"
	"regexp"
	"strconv"
	"strings"
)

// ---- reference lexer --------------------------------------------------------

type tok struct {
	k string // "id", "num", "str", "date", "stamp", "time", "offset", an upper-case keyword or the punctuation itself
	s string
}

func rx(s string) *regexp.Regexp {
	r := regexp.MustCompile(`\A(?:` + s + `)`)
	r.Longest()
	return r
}

type rule struct {
	k  string
	re *regexp.Regexp
}

var keywords = []string{"LIKE", "ILIKE", "AND", "OR", "BETWEEN", "IN", "IS", "NULL", "NOT", "TRUE", "FALSE"}

func isKeyword(s string) bool {
	for i, k := range keywords {
		if V == 4 && i >= 9 {
			break
		}
		if strings.EqualFold(s, k) && len(s) == len(k) {
			return true
		}
	}
	return false
}

var (
	quoted  = `"(?:[^"]|"")*"` + "|`(?:[^`]|``)*`" + `|\[[^\]]*\]`
	plainId = map[bool]string{true: `[a-zA-Z_][a-zA-Z_./0-9]*`, false: `[a-zA-Z_][a-zA-Z_0-9]*`}[V == 5]
	day     = `[0-9]{4}-[0-9]{2}-[0-9]{2}`
	clock   = `[0-9]{2}:[0-9]{2}:[0-9]{2}(?:\.[0-9]+)?`
	zone    = `[+-][0-9]{2}:[0-9]{2}`
)

// The rules in the order that settles equally long matches.
var rules = func() (r []rule) {
	add := func(k, s string) { r = append(r, rule{k, rx(s)}) }
	for _, p := range []string{"(", ",", ")", "<", "<=", ">", ">=", "=", "!=", "<>", "~=", "~!", "*", "/", "%", "+", "-"} {
		add(p, regexp.QuoteMeta(p))
	}
	if V == 4 {
		add(".", `\.`)
	}
	add("id", quoted+"|"+plainId)
	n := `[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?|\.[0-9]+(?:[eE][-+]?[0-9]+)?`
	if V == 5 {
		n += `|[0-9]+[KMGTP]i?`
	}
	add("num", n)
	add("str", `'(?:[^']|'')*'`)
	add("space", "[ \v\t\r\n]")
	if V == 5 {
		add("date", day)
		add("time", clock)
		add("offset", zone)
		add("stamp", day+"T"+clock+"(?:Z|"+zone+")")
	}
	return
}()

// lex splits a text into tokens; ok is false when a character begins none.
func lex(s string) (out []tok, ok bool) {
	s = string([]rune(s)) // what is no UTF-8 reads as U+FFFD
	for s != "" {
		best, kind := -1, ""
		for _, r := range rules {
			if m := r.re.FindStringIndex(s); m != nil && m[1] > best {
				best, kind = m[1], r.k
			}
		}
		if best < 1 {
			return out, false
		}
		w := s[:best]
		s = s[best:]
		if kind == "space" {
			continue
		}
		if kind == "id" && isKeyword(w) {
			kind = strings.ToUpper(w)
		}
		out = append(out, tok{kind, w})
	}
	return out, true
}

// ---- reference parser -------------------------------------------------------

var errSyntax = errors.New("syntax error")
var errValue = errors.New("value out of range")
var errUnsure = errors.New("not specified")

type refParser struct {
	t   []tok
	i   int
	far int // the token furthest on that could not be read
}

// reach notes that the next token cannot be read.
func (p *refParser) reach() { p.far = max(p.far, p.i) }

type giveUp struct{ err error }

func (p *refParser) fail(err error) {
	p.reach()
	panic(giveUp{err})
}

func (p *refParser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i].k
	}
	return ""
}

func (p *refParser) accept(k string) bool {
	if p.peek() == k {
		p.i++
		return true
	}
	return false
}

func (p *refParser) expect(k string) {
	if !p.accept(k) {
		p.fail(errSyntax)
	}
}

// refParse parses a phrase. Errors of form come before errors of value.
func refParse(s string) (n *T, err error) {
	t, ok := lex(s)
	if !ok {
		return nil, errSyntax
	}
	p := &refParser{t: t}
	defer func() {
		if r := recover(); r != nil {
			g, ok := r.(giveUp)
			if !ok {
				panic(r)
			}
			n, err = nil, g.err
		}
	}()
	n = p.or()
	if p.i != len(t) {
		return nil, errSyntax
	}
	n.walk(func(m *T) {
		switch m.F {
		case "bad":
			err = errValue
		case "unsure":
			if err == nil {
				err = errUnsure
			}
		}
	})
	if err != nil {
		return nil, err
	}
	return n, nil
}

func (p *refParser) or() *T {
	n := p.and()
	for p.accept("OR") {
		n = bin("or", n, p.and())
	}
	return n
}

func (p *refParser) and() *T {
	n := p.unary()
	for p.accept("AND") {
		n = bin("and", n, p.unary())
	}
	return n
}

func (p *refParser) unary() *T {
	if p.accept("NOT") {
		return not(p.unary())
	}
	if p.peek() == "(" {
		// a parenthesized condition, or a comparison whose arithmetic begins with one
		at := p.i
		if n := p.try(func() *T {
			p.expect("(")
			n := p.or()
			p.expect(")")
			return n
		}); n != nil {
			return n
		}
		p.i = at
	}
	return p.comparison()
}

func (p *refParser) try(f func() *T) (n *T) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(giveUp); !ok {
				panic(r)
			}
			n = nil
		}
	}()
	return f()
}

var cmpOps = map[string]string{"<": "lt", "<=": "lte", ">": "gt", ">=": "gte", "=": "eq", "!=": "ne", "<>": "ne"}

func (p *refParser) comparison() *T {
	l := p.math()
	k := p.peek()
	if op, ok := cmpOps[k]; ok {
		p.i++
		return bin(op, l, p.right())
	}
	if k == "~=" || k == "~!" {
		p.i++
		r := p.right()
		n := bin(map[string]string{"~=": "regex", "~!": "nregex"}[k], l, r)
		if r.F != "string" && r.F != "ident" {
			return &T{F: "bad", L: n}
		}
		return n
	}
	if p.accept("IS") {
		neg := p.accept("NOT")
		if p.accept("NULL") {
			if neg {
				return &T{F: "exists", L: l}
			}
			return &T{F: "nexists", L: l}
		}
		r := p.literal()
		if neg {
			return bin("ne", l, r)
		}
		return bin("eq", l, r)
	}
	neg := p.accept("NOT")
	switch p.peek() {
	case "LIKE", "ILIKE":
		op := strings.ToLower(p.peek())
		p.i++
		r := p.literal()
		n := bin(op, l, r)
		if r.F != "string" {
			return &T{F: "bad", L: n}
		}
		if neg {
			n = not(n)
		}
		return n
	case "BETWEEN":
		p.i++
		a := p.literal()
		p.expect("AND")
		b := p.literal()
		return bin(map[bool]string{false: "between", true: "nbetween"}[neg], l, list(a, b))
	case "IN":
		p.i++
		p.expect("(")
		a := list()
		if !p.accept(")") {
			a.E = append(a.E, p.literal())
			for p.accept(",") {
				a.E = append(a.E, p.literal())
			}
			p.expect(")")
		}
		return bin(map[bool]string{false: "in", true: "nin"}[neg], l, a)
	}
	p.fail(errSyntax)
	return nil
}

// right is the right side of a comparison: v4 takes literals only.
func (p *refParser) right() *T {
	if k := p.peek(); V == 5 && (k == "id" || k == "(") {
		return p.math()
	}
	return p.literal()
}

var addOps = map[string]string{"+": "add", "-": "subtract"}
var mulOps = map[string]string{"*": "multiply", "/": "divide", "%": "modulo"}

// math is arithmetic: it begins with a name or a parenthesis.
func (p *refParser) math() *T {
	n := p.term(p.primary(true))
	for {
		op, ok := addOps[p.peek()]
		if !ok {
			return n
		}
		p.i++
		n = bin(op, n, p.term(p.operand()))
	}
}

func (p *refParser) term(n *T) *T {
	for {
		op, ok := mulOps[p.peek()]
		if !ok {
			return n
		}
		p.i++
		n = bin(op, n, p.operand())
	}
}

// operand is an operand on the right of an arithmetic operator.
func (p *refParser) operand() *T {
	n := p.primary(false)
	if n.F == "string" {
		return &T{F: "bad", L: n}
	}
	return n
}

func (p *refParser) primary(first bool) *T {
	switch p.peek() {
	case "(":
		p.i++
		n := p.math()
		p.expect(")")
		return n
	case "id":
		return p.ident()
	}
	if first {
		p.fail(errSyntax)
	}
	return p.literal()
}

func (p *refParser) ident() *T {
	s := p.t[p.i].s
	p.i++
	if V == 5 {
		if strings.ContainsRune("\"`[", rune(s[0])) {
			s = s[1 : len(s)-1]
		}
		return id(s)
	}
	for k := 0; k < 2 && p.peek() == "."; k++ {
		p.i++
		if p.peek() != "id" {
			p.fail(errSyntax)
		}
		s += "." + p.t[p.i].s
		p.i++
	}
	return id(s)
}

func (p *refParser) literal() *T {
	k := p.peek()
	switch k {
	case "+", "-", "num":
		sign := ""
		if k != "num" {
			sign = k
			p.i++
		}
		if p.peek() != "num" {
			p.fail(errSyntax)
		}
		f, err := refNumber(sign + p.t[p.i].s)
		p.i++
		if err != nil {
			return &T{F: "bad"}
		}
		return num(f)
	case "str":
		s := p.t[p.i].s
		p.i++
		return str(strings.ReplaceAll(s[1:len(s)-1], "''", "'"))
	case "TRUE", "FALSE":
		p.i++
		return boolean(k == "TRUE")
	case "date", "stamp":
		s := p.t[p.i].s
		p.i++
		m := readDate(s)
		switch {
		case m.unsure:
			return &T{F: "unsure"}
		case !m.ok:
			return &T{F: "bad"}
		}
		return date(s)
	}
	p.fail(errSyntax)
	return nil
}

func refNumber(s string) (float64, error) {
	s = strings.TrimSuffix(s, "i")
	mul := 1.0
	if k := strings.IndexByte("KMGTP", s[len(s)-1]); k >= 0 {
		s = s[:len(s)-1]
		for ; k >= 0; k-- {
			mul *= 1024
		}
	}
	f, err := strconv.ParseFloat(s, 64)
	if err == nil && math.IsInf(f*mul, 0) {
		err = errValue
	}
	return f * mul, err
}
