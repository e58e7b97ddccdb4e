package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// An independent scanner and parser for the v6 language, written from the
// language reference and the token definitions (not from the generated code).

type tok struct {
	T    string // token class: KW name, operator text, NUM STR ID EOF BAD
	S    string // decoded value for STR/ID, source text otherwise
	P, Q int    // byte span [P,Q)
	Date string // for STR: "", "DATE" or "TIMESTAMP" when written unquoted
}

var keywords = map[string]bool{"LIKE": true, "ILIKE": true, "AND": true, "OR": true, "BETWEEN": true, "IN": true,
	"IS": true, "NULL": true, "NOT": true, "TRUE": true, "FALSE": true, "LEN": true, "ANY": true, "ALL": true, "SUM": true}

func isDigit(c byte) bool  { return c >= '0' && c <= '9' }
func isLetter(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' }
func asciiUpper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// identLen is the length of the longest identifier at the start of s.
func identLen(s string) int {
	if s == "" || !(isLetter(s[0]) || s[0] == '_') {
		return 0
	}
	i := 1
	for i < len(s) {
		c := s[i]
		if isLetter(c) || isDigit(c) || c == '_' || c == '.' || c == '/' {
			i++
			continue
		}
		if c == '[' {
			j := i + 1
			if strings.HasPrefix(s[j:], "*]") {
				i = j + 2
				continue
			}
			for j < len(s) && (isLetter(s[j]) || isDigit(s[j]) || strings.IndexByte("_./-", s[j]) >= 0) {
				j++
			}
			if j > i+1 && j < len(s) && s[j] == ']' {
				i = j + 1
				continue
			}
		}
		break
	}
	return i
}

// numLen is the length of the longest number at the start of s.
func numLen(s string) int {
	i := 0
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		i++
	}
	d := i
	for i < len(s) && isDigit(s[i]) {
		i++
	}
	if i == d {
		return 0
	}
	if i < len(s) && s[i] == '.' {
		i++
		for i < len(s) && isDigit(s[i]) {
			i++
		}
	}
	best := i
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		j := i + 1
		if j < len(s) && (s[j] == '+' || s[j] == '-') {
			j++
		}
		k := j
		for k < len(s) && isDigit(s[k]) {
			k++
		}
		if k > j {
			return k
		}
	}
	if i < len(s) && strings.IndexByte("kKmMgGtTpP", s[i]) >= 0 {
		best = i + 1
		if best < len(s) && (s[best] == 'i' || s[best] == 'I') {
			best++
		}
	}
	return best
}

func numValue(s string) float64 {
	i := len(s)
	mult := 1.0
	base := 1000.0
	if i > 0 && (s[i-1] == 'i' || s[i-1] == 'I') {
		base = 1024
		i--
	}
	if i > 0 {
		if k := strings.IndexByte("kmgtp", s[i-1]|0x20); k >= 0 {
			mult = math.Pow(base, float64(k+1))
			i--
		}
	}
	t := s[:i]
	f, _ := strconv.ParseFloat(t, 64) // out of range gives ±Inf, as the language does
	return f * mult
}

// dateLen is the length of the longest date or timestamp at the start of s.
func dateLen(s string) int {
	if len(s) < 10 || !isDateForm(s[:10]) {
		return 0
	}
	// [T]hh:mm:ss
	t := s[10:]
	if len(t) < 9 || t[0] != 'T' || !digits(t[1:3]) || t[3] != ':' || !digits(t[4:6]) || t[6] != ':' || !digits(t[7:9]) {
		return 10
	}
	i := 19
	if i < len(s) && s[i] == '.' {
		j := i + 1
		for j < len(s) && isDigit(s[j]) {
			j++
		}
		if j > i+1 {
			i = j
		}
	}
	if i < len(s) && s[i] == 'Z' {
		return i + 1
	}
	if len(s) >= i+6 && isTimestampForm(s[:i+6]) {
		return i + 6
	}
	return 10
}

// strLen is the length of the quoted string at the start of s; 0 if none.
func strLen(s string) int {
	if s == "" || strings.IndexByte("'\"`", s[0]) < 0 {
		return 0
	}
	q := s[0]
	for i := 1; i < len(s); i++ {
		switch s[i] {
		case q:
			return i + 1
		case '\\':
			i++
			if i >= len(s) || s[i] == '\n' {
				return 0
			}
		}
	}
	return 0
}

func unescape(s string) string {
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\\' && i+1 < len(s) {
			i++
			switch s[i] {
			case 'n':
				c = '\n'
			case 't':
				c = '\t'
			case 'r':
				c = '\r'
			case 'b':
				c = '\b'
			case 'f':
				c = '\f'
			default:
				c = s[i]
			}
		}
		b = append(b, c)
	}
	return string(b)
}

var opTokens = []string{"<=", ">=", "!=", "<>", "~=", "~!", "<", ">", "=", "(", ")", ",", "+", "-", "*", "/", "%", "[", "]"}

// refLex splits the whole input; a byte that starts no token is a BAD token.
func refLex(s string) []tok {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		if strings.IndexByte(" \t\r\n\f\v", c) >= 0 {
			i++
			continue
		}
		rest := s[i:]
		if n := dateLen(rest); n > 0 && n >= numLen(rest) {
			k := "DATE"
			if n > 10 {
				k = "TIMESTAMP"
			}
			out = append(out, tok{T: "STR", S: rest[:n], P: i, Q: i + n, Date: k})
			i += n
			continue
		}
		if n := numLen(rest); n > 0 {
			out = append(out, tok{T: "NUM", S: rest[:n], P: i, Q: i + n})
			i += n
			continue
		}
		if n := identLen(rest); n > 0 {
			w := rest[:n]
			if u := asciiUpper(w); keywords[u] {
				out = append(out, tok{T: u, S: w, P: i, Q: i + n})
			} else {
				out = append(out, tok{T: "ID", S: w, P: i, Q: i + n})
			}
			i += n
			continue
		}
		if n := strLen(rest); n > 0 {
			out = append(out, tok{T: "STR", S: unescape(rest[1 : n-1]), P: i, Q: i + n})
			i += n
			continue
		}
		matched := false
		for _, op := range opTokens {
			if strings.HasPrefix(rest, op) {
				t := op
				if t == "<>" {
					t = "!="
				}
				out = append(out, tok{T: t, S: op, P: i, Q: i + len(op)})
				i += len(op)
				matched = true
				break
			}
		}
		if !matched {
			out = append(out, tok{T: "BAD", S: rest[:1], P: i, Q: i + 1})
			i++
		}
	}
	return append(out, tok{T: "EOF", P: len(s), Q: len(s)})
}

type refErr struct{ at int } // index of the first token that cannot continue any query

func (e refErr) Error() string { return fmt.Sprintf("syntax error at token %d", e.at) }

type refParser struct {
	t []tok
	i int
}

// refParse parses s: the tree, or the offending token.
func refParse(s string) (n *N, bad *tok, depth int) {
	p := &refParser{t: refLex(s)}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(refErr)
			if !ok {
				panic(r)
			}
			n, bad = nil, &p.t[e.at]
		}
	}()
	if i := strings.IndexByte(s, 0); i >= 0 {
		// no query holds a NUL byte, not even inside quotes
		for k := range p.t {
			if p.t[k].Q > i {
				p.t[k].T, p.t[k].S = "BAD", s[p.t[k].P:p.t[k].Q]
				break
			}
		}
	}
	n = p.or()
	if p.cur() != "EOF" {
		p.fail()
	}
	return n, nil, 0
}

func (p *refParser) cur() string { return p.t[p.i].T }
func (p *refParser) next() tok   { t := p.t[p.i]; p.i++; return t }
func (p *refParser) fail()       { panic(refErr{p.i}) }
func (p *refParser) want(t string) {
	if p.cur() != t {
		p.fail()
	}
	p.i++
}

func (p *refParser) or() *N {
	l := p.and()
	for p.cur() == "OR" {
		p.i++
		l = bin("OR", l, p.and())
	}
	return l
}

func (p *refParser) and() *N {
	l := p.cmp()
	for p.cur() == "AND" {
		p.i++
		l = bin("AND", l, p.cmp())
	}
	return l
}

var cmpOps = map[string]string{"=": "EQ", "!=": "NE", "<": "LT", "<=": "LE", ">": "GT", ">=": "GE", "~=": "REQ", "~!": "RNE"}

func (p *refParser) cmp() *N {
	l := p.member()
	for {
		op, ok := cmpOps[p.cur()]
		if !ok {
			return l
		}
		p.i++
		l = bin(op, l, p.member())
	}
}

func (p *refParser) member() *N {
	l := p.add()
	for {
		neg := false
		switch p.cur() {
		case "LIKE", "ILIKE", "IN", "BETWEEN", "IS":
		case "NOT":
			neg = true
			p.i++
			switch p.cur() {
			case "LIKE", "ILIKE", "IN", "BETWEEN":
			default:
				p.fail()
			}
		default:
			return l
		}
		var n *N
		switch op := p.next().T; op {
		case "LIKE", "ILIKE", "IN":
			n = bin(op, l, p.add())
		case "BETWEEN":
			a := p.add()
			p.want("AND")
			n = bin(op, l, arr(a, p.add()))
		case "IS":
			if p.cur() == "NOT" {
				neg = true
				p.i++
			}
			p.want("NULL")
			n = bin(op, l, null())
		}
		if neg {
			n = un("NOT", n)
		}
		l = n
	}
}

func (p *refParser) add() *N {
	l := p.mul()
	for {
		switch p.cur() {
		case "+":
			p.i++
			l = bin("ADD", l, p.mul())
		case "-":
			p.i++
			l = bin("SUB", l, p.mul())
		default:
			return l
		}
	}
}

func (p *refParser) mul() *N {
	l := p.not()
	for {
		switch p.cur() {
		case "*":
			p.i++
			l = bin("MUL", l, p.not())
		case "/":
			p.i++
			l = bin("DIV", l, p.not())
		case "%":
			p.i++
			l = bin("MOD", l, p.not())
		default:
			return l
		}
	}
}

func (p *refParser) not() *N {
	switch c := p.cur(); c {
	case "NOT", "LEN", "ANY", "ALL", "SUM":
		p.i++
		return un(c, p.not())
	}
	return p.unary()
}

func (p *refParser) unary() *N {
	switch p.cur() {
	case "-":
		p.i++
		return un("NEG", p.unary())
	case "+":
		p.i++
		return p.unary()
	case "(":
		p.i++
		n := p.or()
		p.want(")")
		return n
	case "[":
		p.i++
		n := arr()
		for p.cur() != "]" {
			n.E = append(n.E, p.or())
			if p.cur() == "]" {
				break
			}
			p.want(",")
		}
		p.i++
		return n
	case "NUM":
		return num(numValue(p.next().S))
	case "STR":
		t := p.next()
		if t.Date != "" {
			return &N{K: t.Date, S: t.S}
		}
		return classify(t.S)
	case "ID":
		return id(p.next().S)
	case "TRUE":
		p.i++
		return boolean(true)
	case "FALSE":
		p.i++
		return boolean(false)
	}
	p.fail()
	return nil
}
