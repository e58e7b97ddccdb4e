package main

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	kit "vkit"
)

func pick[X any](t *rapid.T, name string, xs ...X) X {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, name)]
}

func chance(t *rapid.T, name string, pct int) bool {
	return rapid.IntRange(0, 99).Draw(t, name) >= 100-pct
}

func upto(t *rapid.T, name string, n int) int { return rapid.IntRange(0, n).Draw(t, name) }

// ---- names, strings, numbers, dates -----------------------------------------

func plainName(t *rapid.T) string {
	if chance(t, "wordName", 8) {
		if s := kit.OtherCase(t, pick(t, "word", kit.Words...)); !isKeyword(s) {
			return s
		}
	}
	if chance(t, "oddName", 25) {
		for {
			var b strings.Builder
			b.WriteString(pick(t, "start", "a", "Z", "_", "n", "e", "T"))
			for i, n := 0, upto(t, "len", 5); i < n; i++ {
				part := pick(t, "part", "b", "0", "_", "in", "not", "Q9", "or", "e5", "K", "true")
				if V == 5 {
					part = pick(t, "part5", part, part, ".", "/")
				}
				b.WriteString(part)
			}
			if s := b.String(); !isKeyword(s) {
				return s
			}
		}
	}
	s := pick(t, "name", "a", "b", "name", "user_id", "_x", "inner", "android", "orchid", "nullable", "isbn", "likes", "notes", "between_x", "T", "e5", "x1", "truec", "falsey")
	if V == 5 && chance(t, "path", 20) {
		s = pick(t, "pathName", "spec.pages", "a/b", "a.", "a..b", "in.x", "true/x", "x.true")
	}
	if o := kit.OtherCase(t, s); !isKeyword(o) {
		return o
	}
	return s
}

// genName draws an identifier as the tree holds it.
func genName(t *rapid.T) string {
	if V == 4 {
		part := func() string {
			if chance(t, "quotedPart", 20) {
				q := pick(t, "quote", `"`, "`", "[")
				s := nameText(t, q)
				if q == "[" {
					return "[" + s + "]"
				}
				return q + s + q
			}
			return plainName(t)
		}
		s := part()
		for i, n := 0, pick(t, "parts", 0, 0, 0, 1, 2); i < n; i++ {
			s += "." + part()
		}
		return s
	}
	if chance(t, "quotedName", 25) {
		return nameText(t, pick(t, "quote", `"`, "`", "["))
	}
	return plainName(t)
}

// nameText draws what may stand between quotes; a quote comes doubled.
func nameText(t *rapid.T, q string) string {
	var b strings.Builder
	for i, n := 0, upto(t, "nameLen", 4); i < n; i++ {
		s := pick(t, "namePart", "a", "B", " ", ".", "and", "'", `"`, "`", "[", "]", "é", "日", "1", "-", "%", "\n", "\\", "$x", "=")
		switch {
		case q == "[" && s == "]":
			continue
		case s == q && q != "[":
			s += s
		}
		b.WriteString(s)
	}
	return b.String()
}

// spellings gives the ways to write a v5 name.
func spellings(s string) (out []string) {
	if !isKeyword(s) && rx(plainId+`\z`).MatchString(s) {
		out = append(out, s)
	}
	ok := func(q string) bool { return !strings.Contains(strings.ReplaceAll(s, q+q, ""), q) }
	if ok(`"`) {
		out = append(out, `"`+s+`"`)
	}
	if ok("`") {
		out = append(out, "`"+s+"`")
	}
	if !strings.Contains(s, "]") {
		out = append(out, "["+s+"]")
	}
	return
}

var strParts = []string{"a", "b", "Z", "0", " ", "'", "''", "\"", "`", "\\", "\n", "\t", "\r", "\b", "\f", "%", "_", ".", "*", "?", "é", "日本", "--", ";", "$1", "and", "or",
	"{", "}", "|", "<", ">", "[", "]", "(", ")", "n", "t", "\\n", "T", "+", "-", ":", "2020", "\u0001", "\v", "\x7f", "\u00a0", "\x00", "\U0001F600", "\ufeff"}

func genString(t *rapid.T) string {
	switch upto(t, "strKind", 9) {
	case 0:
		return pick(t, "special", "", "t", "true", "TZ", "2020-01-01", "2020-13-45", "2020-01-01T00:00:00Z", "' OR '1'='1", "null", "5", "a'b", `a\`, "$gt", "{$ne: 1}", "?", "$1", "%")
	case 1:
		return strings.ToValidUTF8(rapid.StringN(0, 8, 24).Draw(t, "anyStr"), "")
	}
	var b strings.Builder
	for i, n := 0, upto(t, "strLen", 7); i < n; i++ {
		b.WriteString(strParts[upto(t, "strPart", len(strParts)-1)])
	}
	return b.String()
}

func genNumber(t *rapid.T) float64 {
	switch upto(t, "numKind", 5) {
	case 0:
		return float64(rapid.IntRange(-5, 20).Draw(t, "small"))
	case 1:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, "int"))
	case 2:
		return float64(rapid.IntRange(-4000, 4000).Draw(t, "quarter")) / 4
	case 3:
		return float64(rapid.IntRange(1, 64).Draw(t, "mant")) * pick(t, "unit", 1e3, 1e6, 1e9, 1e15, 1024.0, 1048576.0, 1073741824.0, 1099511627776.0, 1125899906842624.0)
	case 4:
		f := rapid.Float64().Draw(t, "float")
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return 1.5
		}
		return f
	}
	return pick(t, "edge", 0, 1, -1, 0.1, 1e21, 1e-7, 9007199254740992, 1e308, math.MaxFloat64, 5e-324)
}

func two(n int) string { return string([]byte{'0' + byte(n/10), '0' + byte(n%10)}) }

// genDate draws the text of a date of the calendar.
func genDate(t *rapid.T) string {
	y := rapid.IntRange(1, 9999).Draw(t, "y")
	if chance(t, "recent", 50) {
		y = 2000 + y%30
	}
	m := rapid.IntRange(1, 12).Draw(t, "mo")
	d := rapid.IntRange(1, daysIn(y, m)).Draw(t, "d")
	if chance(t, "lastDay", 10) {
		d = daysIn(y, m)
	}
	s := two(y/100) + two(y%100) + "-" + two(m) + "-" + two(d)
	if chance(t, "dayOnly", 40) {
		return s
	}
	s += "T" + two(upto(t, "h", 23)) + ":" + two(upto(t, "mi", 59)) + ":" + two(upto(t, "s", 59))
	if chance(t, "frac", 30) {
		s += "." + pick(t, "fr", "5", "50", "000", "123", "123456", "123456789", "999999999", "1234567891", "000000001")
	}
	switch upto(t, "zone", 3) {
	case 0, 1:
		return s + "Z"
	case 2:
		return s + "+" + two(upto(t, "oh", 14)) + ":" + pick(t, "om", "00", "30", "45")
	}
	return s + "-" + two(upto(t, "oh", 12)) + ":" + pick(t, "om", "00", "30")
}

// ---- trees -------------------------------------------------------------------

// tree kinds of literals: a v4 literal is a number or a string.
func genLiteral(t *rapid.T) *T {
	k := upto(t, "literal", 7)
	switch {
	case k <= 2:
		return num(genNumber(t))
	case k <= 5 || V == 4:
		return str(genString(t))
	case k == 6:
		return boolean(rapid.Bool().Draw(t, "bool"))
	}
	return date(genDate(t))
}

func mathLiteral(t *rapid.T) *T {
	l := genLiteral(t)
	if l.F == "string" {
		return num(genNumber(t))
	}
	return l
}

var mathNames = []string{"add", "subtract", "multiply", "divide", "modulo"}

func product(f string) bool { return f == "multiply" || f == "divide" || f == "modulo" }

// genMath draws arithmetic that begins with a name.
func genMath(t *rapid.T, d int) *T {
	if d <= 0 || chance(t, "name", 40) {
		return id(genName(t))
	}
	op := pick(t, "math", mathNames...)
	l := genMath(t, d-1)
	if chance(t, "literalRight", 50) {
		r := mathLiteral(t)
		if !product(op) { // a + 1 * b: a product may begin with a literal
			for i := upto(t, "factors", 4) - 2; i > 0; i-- {
				f := genMath(t, 0)
				if chance(t, "literalFactor", 30) {
					f = mathLiteral(t)
				}
				r = bin(pick(t, "product", mathNames[2:]...), r, f)
			}
		}
		return bin(op, l, r)
	}
	return bin(op, l, genMath(t, d-1))
}

var cmpNames = []string{"eq", "ne", "lt", "lte", "gt", "gte"}

func genCond(t *rapid.T, d int) *T {
	if d > 0 {
		switch upto(t, "cond", 5) {
		case 0, 1, 2:
			return bin(pick(t, "logic", "and", "or"), genCond(t, d-1), genCond(t, d-1))
		case 3:
			return not(genCond(t, d-1))
		}
	}
	l := genMath(t, pick(t, "leftDepth", 0, 0, 0, 1, 2, 3))
	right := func() *T {
		if V == 5 && chance(t, "mathRight", 30) {
			return genMath(t, pick(t, "rightDepth", 0, 0, 1, 2))
		}
		return genLiteral(t)
	}
	switch upto(t, "form", 8) {
	case 0:
		r := str(genString(t))
		if V == 5 && chance(t, "nameRight", 30) {
			r = id(genName(t))
		}
		return bin(pick(t, "regex", "regex", "nregex"), l, r)
	case 1:
		n := bin(pick(t, "like", "like", "ilike"), l, str(genString(t)))
		if chance(t, "negate", 30) {
			return not(n)
		}
		return n
	case 2:
		return &T{F: pick(t, "null", "exists", "nexists"), L: l}
	case 3:
		return bin(pick(t, "between", "between", "nbetween"), l, list(genLiteral(t), genLiteral(t)))
	case 4, 5:
		n := bin(pick(t, "in", "in", "nin"), l, list())
		for i := upto(t, "listLen", 4); i > 0; i-- {
			n.R.E = append(n.R.E, genLiteral(t))
		}
		return n
	}
	return bin(pick(t, "cmp", cmpNames...), l, right())
}

// genTree draws any tree of the language; at times one dimension is large.
func genTree(t *rapid.T, d int) *T { return stretch(t, genCond(t, d), 4, true) }

// stretch makes one dimension of a few trees large: a list, a text, a chain of
// conditions, a name (where rename says that names carry no meaning).
func stretch(t *rapid.T, n *T, permille int, rename bool) *T {
	if upto(t, "stretch", 999) < 1000-permille {
		return n
	}
	size := pick(t, "stretchTo", 9, 17, 33, 65, 100, 129, 257, 300)
	var found []*T
	collect := func(ok func(m, up *T) bool) {
		var walk func(m, up *T)
		walk = func(m, up *T) {
			if m == nil {
				return
			}
			if ok(m, up) {
				found = append(found, m)
			}
			walk(m.L, m)
			walk(m.R, m)
			for _, e := range m.E {
				walk(e, m)
			}
		}
		walk(n, nil)
	}
	what := pick(t, "stretched", "list", "list", "text", "chain", "name")
	switch {
	case what == "list":
		collect(func(m, up *T) bool { return m.F == "array" && len(m.E) > 0 && (up.F == "in" || up.F == "nin") })
	case what == "text":
		collect(func(m, up *T) bool {
			return m.F == "string" && up.F != "regex" && up.F != "nregex" && !((up.F == "like" || up.F == "ilike") && strings.Contains(string(m.S), "%"))
		})
	case what == "name" && rename:
		collect(func(m, _ *T) bool {
			return m.F == "ident" && !strings.ContainsAny(string(m.S), "`\"'[]")
		})
	}
	if len(found) == 0 { // a chain of copies of the whole
		if size = min(size, 300/n.size()+2); size > 70 {
			size = 70
		}
		op := pick(t, "chained", "and", "or")
		one := n
		for i := 1; i < size; i++ {
			n = bin(op, n, one.clone())
		}
		return n
	}
	m := found[upto(t, "which", len(found)-1)]
	switch what {
	case "list":
		unit := m.E
		if rapid.Bool().Draw(t, "oneUnit") { // copies of one element before the others, so that what comes last may decide
			unit = unit[:1]
		}
		var more []*T
		for i := 0; len(more)+len(m.E) < size; i++ {
			more = append(more, unit[i%len(unit)].clone())
		}
		if rapid.Bool().Draw(t, "before") {
			m.E = append(more, m.E...)
		} else {
			m.E = append(m.E[:len(m.E):len(m.E)], more...)
		}
	case "text":
		m.S = kit.Str(strings.Repeat(string(m.S)+"x", size))
	case "name":
		m.S += kit.Str(strings.Repeat("_n", size))
	}
	return n
}

// ---- rendering ------------------------------------------------------------------

type renderer struct {
	t    *rapid.T // nil: canonical spelling
	toks []string
}

func (r *renderer) emit(s ...string) { r.toks = append(r.toks, s...) }

func (r *renderer) coin(name string, pct int) bool { return r.t != nil && chance(r.t, name, pct) }

func (r *renderer) kw(s string) {
	if r.t != nil {
		switch upto(r.t, "kwCase", 3) {
		case 1:
			s = strings.ToLower(s)
		case 2:
			s = s[:1] + strings.ToLower(s[1:])
		case 3:
			b := []byte(s)
			for i := range b {
				if rapid.Bool().Draw(r.t, "kwBit") {
					b[i] |= 0x20
				}
			}
			s = string(b)
		}
	}
	r.emit(s)
}

func (r *renderer) paren(f func()) {
	r.emit("(")
	f()
	r.emit(")")
}

func level(n *T) int {
	switch {
	case n.F == "or":
		return 1
	case n.F == "and":
		return 2
	case n.F == "not":
		return 3
	case n.F == "add" || n.F == "subtract":
		return 5
	case product(n.F):
		return 6
	case n.leaf():
		return 7
	}
	return 4 // comparisons
}

// startsWithName tells whether arithmetic may stand in parentheses.
func startsWithName(n *T) bool {
	for n.L != nil {
		n = n.L
	}
	return n.F == "ident"
}

func (r *renderer) cond(n *T, min int) {
	if level(n) < min || r.coin("extraParens", 8) {
		r.paren(func() { r.cond(n, 1) })
		return
	}
	switch n.F {
	case "or":
		r.cond(n.L, 1)
		r.kw("OR")
		r.cond(n.R, 2)
		return
	case "and":
		r.cond(n.L, 2)
		r.kw("AND")
		r.cond(n.R, 3)
		return
	case "not":
		if (n.L.F == "like" || n.L.F == "ilike") && (r.t == nil || rapid.Bool().Draw(r.t, "inner")) {
			r.math(n.L.L, 5)
			r.kw("NOT")
			r.kw(strings.ToUpper(n.L.F))
			r.math(n.L.R, 7)
			return
		}
		r.kw("NOT")
		r.cond(n.L, 3)
		return
	}
	r.math(n.L, 5)
	switch n.F {
	case "like", "ilike":
		r.kw(strings.ToUpper(n.F))
		r.math(n.R, 7)
	case "exists", "nexists":
		r.kw("IS")
		if n.F == "exists" {
			r.kw("NOT")
		}
		r.kw("NULL")
	case "between", "nbetween":
		if n.F == "nbetween" {
			r.kw("NOT")
		}
		r.kw("BETWEEN")
		r.math(n.R.E[0], 7)
		r.kw("AND")
		r.math(n.R.E[1], 7)
	case "in", "nin":
		if n.F == "nin" {
			r.kw("NOT")
		}
		r.kw("IN")
		r.paren(func() {
			for i, e := range n.R.E {
				if i > 0 {
					r.emit(",")
				}
				r.math(e, 7)
			}
		})
	case "regex":
		r.emit("~=")
		r.math(n.R, 7)
	case "nregex":
		r.emit("~!")
		r.math(n.R, 7)
	default:
		if (n.F == "eq" || n.F == "ne") && n.R.leaf() && n.R.F != "ident" && r.coin("is", 20) {
			r.kw("IS")
			if n.F == "ne" {
				r.kw("NOT")
			}
			r.math(n.R, 7)
			return
		}
		op := map[string]string{"eq": "=", "ne": "!=", "lt": "<", "lte": "<=", "gt": ">", "gte": ">="}[n.F]
		if n.F == "ne" && r.coin("unequal", 50) {
			op = "<>"
		}
		r.emit(op)
		r.math(n.R, 5)
	}
}

func (r *renderer) math(n *T, min int) {
	if level(n) < min || (n.math() || n.F == "ident") && startsWithName(n) && r.coin("mathParens", 8) {
		r.paren(func() { r.math(n, 5) })
		return
	}
	switch n.F {
	case "ident":
		r.name(string(n.S))
	case "string":
		r.emit("'" + strings.ReplaceAll(string(n.S), "'", "''") + "'")
	case "number":
		r.number(n.N)
	case "boolean":
		r.kw(strings.ToUpper(strconv.FormatBool(n.B)))
	case "date":
		r.emit(string(n.S))
	case "add", "subtract":
		r.math(n.L, 5)
		r.emit(map[string]string{"add": "+", "subtract": "-"}[n.F])
		r.math(n.R, 6)
	default:
		r.math(n.L, 6)
		r.emit(map[string]string{"multiply": "*", "divide": "/", "modulo": "%"}[n.F])
		r.math(n.R, 7)
	}
}

func (r *renderer) name(s string) {
	if V == 4 {
		toks, ok := lex(s)
		if !ok {
			kit.Bug("name %q", s)
		}
		for _, k := range toks {
			r.emit(k.s)
		}
		return
	}
	w := spellings(s)
	if len(w) == 0 {
		kit.Bug("no way to write the name %q", s)
	}
	if r.t == nil {
		r.emit(w[0])
		return
	}
	i := 0
	if chance(r.t, "quoteName", 15) {
		i = upto(r.t, "quoting", len(w)-1)
	}
	r.emit(w[i])
}

func (r *renderer) number(f float64) {
	if math.Signbit(f) {
		r.emit("-")
		f = -f
	} else if r.coin("plus", 5) {
		r.emit("+")
	}
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if len(s) > 40 {
		s = strconv.FormatFloat(f, 'e', -1, 64)
	}
	if r.t != nil {
		var alt []string
		alt = append(alt, s, strconv.FormatFloat(f, 'e', -1, 64), strings.ToUpper(strconv.FormatFloat(f, 'e', -1, 64)))
		if f == math.Trunc(f) && !strings.ContainsAny(s, "e.") {
			alt = append(alt, s+".", s+".0", "0"+s)
			if V == 5 {
				u := f
				for _, k := range []string{"K", "M", "G", "T", "P"} {
					u /= 1024
					if u != math.Trunc(u) || u == 0 {
						break
					}
					w := strconv.FormatFloat(u, 'f', -1, 64)
					alt = append(alt, w+k, w+k+"i")
				}
			}
		}
		if f >= 1e-9 && f < 1e15 && chance(r.t, "digits", 10) { // every digit of the double
			alt = append(alt, strconv.FormatFloat(f, 'f', 85, 64))
		}
		if strings.HasPrefix(s, "0.") {
			alt = append(alt, s[1:])
		}
		s = alt[upto(r.t, "spelling", len(alt)-1)]
	}
	r.emit(s)
}

// render writes a tree as a phrase; t nil gives the canonical spelling.
func render(t *rapid.T, n *T) string {
	r := &renderer{t: t}
	r.cond(n, 1)
	if t == nil {
		return strings.Join(r.toks, " ")
	}
	var b strings.Builder
	style := upto(t, "spacing", 2)
	for i, k := range r.toks {
		if i > 0 {
			switch style {
			case 0:
				b.WriteByte(' ')
			case 1:
				if chance(t, "space", 50) {
					b.WriteString(pick(t, "blank", " ", "  ", "\t", "\n", "\r\n", "\v"))
				}
			}
		}
		b.WriteString(k)
	}
	if s := b.String(); reads(s, r.toks) {
		if chance(t, "outer", 20) {
			return pick(t, "before", "", " ", "\n") + s + pick(t, "after", "", " ", "\t\n")
		}
		return s
	}
	return strings.Join(r.toks, " ")
}

func reads(s string, want []string) bool {
	toks, ok := lex(s)
	if !ok || len(toks) != len(want) {
		return false
	}
	for i := range want {
		if toks[i].s != want[i] {
			return false
		}
	}
	return true
}
