package main

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
	kit "vkit"
)

var cmpNames = []string{"EQ", "NE", "LT", "LE", "GT", "GE", "REQ", "RNE"}
var memberNames = []string{"LIKE", "ILIKE", "IN", "BETWEEN", "IS"}
var prefixNames = []string{"NOT", "LEN", "ANY", "ALL", "SUM"}

var opText = map[string][]string{
	"EQ": {"="}, "NE": {"!=", "<>"}, "LT": {"<"}, "LE": {"<="}, "GT": {">"}, "GE": {">="}, "REQ": {"~="}, "RNE": {"~!"},
	"ADD": {"+"}, "SUB": {"-"}, "MUL": {"*"}, "DIV": {"/"}, "MOD": {"%"},
}

func pick[T any](t *rapid.T, name string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, name)]
}

func chance(t *rapid.T, name string, pct int) bool {
	return rapid.IntRange(0, 99).Draw(t, name) >= 100-pct
}

// genIdent draws any identifier the language defines.
func genIdent(t *rapid.T) string {
	if chance(t, "wordId", 8) {
		if s := kit.OtherCase(t, pick(t, "word", kit.Words...)); !keywords[asciiUpper(s)] {
			return s
		}
	}
	if chance(t, "plainId", 60) {
		return kit.OtherCase(t, pick(t, "id", "a", "name", "spec.pages", "user_id", "_x", "Pods[0].status", "services[my.service].ip", "labels[*]", "a/b", "x1",
			"inner", "android", "orchid", "nullable", "isbn", "likes", "notes", "lens", "anyone", "allow", "summary", "truec", "between_x", "T", "e5"))
	}
	for {
		var b strings.Builder
		b.WriteString(pick(t, "idStart", "a", "Z", "_", "n", "q"))
		for i, n := 0, rapid.IntRange(0, 6).Draw(t, "idLen"); i < n; i++ {
			b.WriteString(pick(t, "idPart", "b", "0", "_", ".", "/", "in", "not", "Q9", "[0]", "[12]", "[*]", "[a.b]", "[k-v/w_1]", "or", "e5", "K"))
		}
		if s := b.String(); !keywords[asciiUpper(s)] {
			return s
		}
	}
}

var strParts = []string{"a", "b", "Z", "0", " ", "'", "\"", "`", "\\", "\n", "\t", "\r", "\b", "\f", "%", "_", ".", "*", "?", "é", "日本", "--", ";", "$1", "and", "or",
	"{", "}", "|", "<", ">", "[", "]", "(", ")", "n", "t", "\\n", "T", "Z", "+", "-", ":", "2020", "\u0001", "\v", "\x7f", "\u00a0"}

// genString draws the content of a string literal (no NUL byte).
func genString(t *rapid.T) string {
	switch rapid.IntRange(0, 9).Draw(t, "strKind") {
	case 0:
		return pick(t, "special", "", "TZ", "The Zoo", "T+", "AT+Z", "2020-01-01", "2020-13-45", "0000-00-00", "12ab-cd-ef", "----------",
			"2020-01-01T00:00:00Z", "2020-06-01T12:30:45.123+05:30", "2020-01-01T00:00:00-08:00", "2020-99-99T99:99:99Z", "2020-01-01T00:00:00",
			"2020-01-01T00:00:00z", "2020-01-01 00:00:00Z", "2020-1-1", "2020-01-01 ", "2020-01-01T00:00:00.Z", "2020-01-01T00:00:00+0530",
			"' OR '1'='1", "true", "null", "5", "a'b", `a\`, `\`)
	case 1:
		return genDateText(t)
	case 2:
		return genStampText(t)
	case 3: // arbitrary unicode
		return strings.ReplaceAll(rapid.StringN(0, 8, 24).Draw(t, "anyStr"), "\x00", "")
	}
	var b strings.Builder
	for i, n := 0, rapid.IntRange(0, 7).Draw(t, "strLen"); i < n; i++ {
		b.WriteString(strParts[rapid.IntRange(0, len(strParts)-1).Draw(t, "strPart")])
	}
	return b.String()
}

func d2(n int) string { return string([]byte{'0' + byte(n/10), '0' + byte(n%10)}) }
func d4(n int) string { return d2(n/100) + d2(n%100) }

// genDateText: mostly real calendar dates, sometimes only the form.
func genDateText(t *rapid.T) string {
	if chance(t, "badDate", 15) {
		return d4(rapid.IntRange(0, 9999).Draw(t, "y")) + "-" + d2(rapid.IntRange(0, 99).Draw(t, "mo")) + "-" + d2(rapid.IntRange(0, 99).Draw(t, "d"))
	}
	return d4(rapid.IntRange(1, 9999).Draw(t, "y")) + "-" + d2(rapid.IntRange(1, 12).Draw(t, "mo")) + "-" + d2(rapid.IntRange(1, 28).Draw(t, "d"))
}

func genStampText(t *rapid.T) string {
	s := genDateText(t) + "T"
	if chance(t, "badTime", 10) {
		s += d2(rapid.IntRange(0, 99).Draw(t, "h")) + ":" + d2(rapid.IntRange(0, 99).Draw(t, "mi")) + ":" + d2(rapid.IntRange(0, 99).Draw(t, "s"))
	} else {
		s += d2(rapid.IntRange(0, 23).Draw(t, "h")) + ":" + d2(rapid.IntRange(0, 59).Draw(t, "mi")) + ":" + d2(rapid.IntRange(0, 59).Draw(t, "s"))
	}
	if chance(t, "frac", 30) {
		if chance(t, "anyFrac", 50) {
			s += "." + rapid.StringMatching(`[0-9]{1,12}`).Draw(t, "digits")
		} else {
			s += "." + pick(t, "fr", "5", "50", "000", "123", "000001", "123456", "000000001", "123456789", "999999999", "9999999999", "1234567891")
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, "zone") {
	case 0, 1:
		return s + "Z"
	case 2:
		return s + "+" + d2(rapid.IntRange(0, 14).Draw(t, "oh")) + ":" + pick(t, "om", "00", "30", "45")
	}
	return s + "-" + d2(rapid.IntRange(0, 12).Draw(t, "oh")) + ":" + pick(t, "om", "00", "30")
}

// genNumber draws a value together with nothing else; the spelling is chosen
// when it is rendered.
func genNumber(t *rapid.T) float64 {
	switch rapid.IntRange(0, 5).Draw(t, "numKind") {
	case 0:
		return float64(rapid.IntRange(-5, 20).Draw(t, "small"))
	case 1:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, "int"))
	case 2:
		return float64(rapid.IntRange(-4000, 4000).Draw(t, "quarter")) / 4
	case 3:
		return float64(rapid.IntRange(1, 64).Draw(t, "mant")) * pick(t, "unit", 1e3, 1e6, 1e9, 1e12, 1e15, 1024.0, 1048576.0, 1073741824.0, 1099511627776.0, 1125899906842624.0)
	case 4:
		f := rapid.Float64().Draw(t, "float")
		if math.IsInf(f, 0) || math.IsNaN(f) {
			return 1.5
		}
		return f
	}
	return pick(t, "edge", 0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e-7, 9007199254740993, 1e308, 5e-324)
}

type treeOpt struct {
	noStamps bool
}

func genLeaf(t *rapid.T) *N {
	switch rapid.IntRange(0, 9).Draw(t, "leaf") {
	case 0, 1, 2:
		return num(genNumber(t))
	case 3, 4:
		return str(genString(t))
	case 5:
		return boolean(rapid.Bool().Draw(t, "bool"))
	case 6:
		if chance(t, "stamp", 50) {
			return str(genStampText(t))
		}
		return str(genDateText(t))
	}
	return id(genIdent(t))
}

// genTree draws any syntax tree the v6 grammar can produce.
func genTree(t *rapid.T, depth int) *N {
	if depth <= 0 {
		return genLeaf(t)
	}
	d := depth - 1
	switch rapid.IntRange(0, 12).Draw(t, "node") {
	case 0, 1:
		return genLeaf(t)
	case 2, 3:
		return bin(pick(t, "logic", "AND", "OR"), genTree(t, d), genTree(t, d))
	case 4, 5:
		return bin(pick(t, "cmp", cmpNames...), genTree(t, d), genTree(t, d))
	case 6, 7:
		op := pick(t, "member", memberNames...)
		l := genTree(t, d)
		var n *N
		switch op {
		case "IS":
			n = bin(op, l, null())
		case "BETWEEN":
			n = bin(op, l, arr(genTree(t, d), genTree(t, d)))
		default:
			n = bin(op, l, genTree(t, d))
		}
		if chance(t, "negated", 30) {
			n = un("NOT", n)
		}
		return n
	case 8, 9:
		return bin(pick(t, "math", "ADD", "SUB", "MUL", "DIV", "MOD"), genTree(t, d), genTree(t, d))
	case 10:
		return un(pick(t, "prefix", prefixNames...), genTree(t, d))
	case 11:
		return un("NEG", genTree(t, d))
	}
	a := arr()
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "arrLen"); i < n; i++ {
		a.E = append(a.E, genTree(t, d))
	}
	return a
}

var stretchSizes = []int{9, 17, 33, 65, 100, 129, 257, 300, 513, 1001, 1025, 1500}

// stretch makes one dimension of a few trees large: a list, a text, a chain of
// operators, a name (where rename says that names carry no meaning).
func stretch(t *rapid.T, n *N, permille int, rename bool) *N {
	return stretchTo(t, n, permille, rename, 600)
}

func stretchTo(t *rapid.T, n *N, permille int, rename bool, max int) *N {
	if rapid.IntRange(0, 999).Draw(t, "stretch") < 1000-permille { // 0, which shrinking prefers, is the plain tree
		return n
	}
	size := stretchSizes[rapid.IntRange(0, len(stretchSizes)-1).Draw(t, "stretchTo")]
	var found []*N
	var collect func(m *N, want string)
	collect = func(m *N, want string) {
		if m == nil {
			return
		}
		if m.K == want && (want != "ARRAY" || len(m.E) > 0) {
			found = append(found, m)
		}
		collect(m.L, want)
		if m.Op == "BETWEEN" && m.R != nil && m.R.K == "ARRAY" { // has two bounds
			for _, e := range m.R.E {
				collect(e, want)
			}
		} else {
			collect(m.R, want)
		}
		for _, e := range m.E {
			collect(e, want)
		}
	}
	what := pick(t, "stretched", "list", "list", "text", "chain", "name")
	switch {
	case what == "list":
		collect(n, "ARRAY")
	case what == "text":
		collect(n, "STRING")
	case what == "name" && rename:
		collect(n, "IDENTIFIER")
	}
	if len(found) == 0 { // a chain of copies of the whole
		if s := n.size(); s*size > max {
			size = max/s + 2
		}
		op := pick(t, "chained", "AND", "OR")
		one := n
		for i := 1; i < size; i++ {
			n = bin(op, n, one.clone())
		}
		return n
	}
	m := found[rapid.IntRange(0, len(found)-1).Draw(t, "which")]
	switch what {
	case "list":
		unit := append([]*N(nil), m.E...)
		if rapid.Bool().Draw(t, "oneUnit") { // copies of one element before the others, so that what comes last may decide
			unit = unit[:1]
		}
		var more []*N
		for i, s := 0, m.size(); len(more)+len(m.E) < size && s < 10*max; i++ {
			e := unit[i%len(unit)].clone()
			s += e.size()
			more = append(more, e)
		}
		if rapid.Bool().Draw(t, "before") {
			m.E = append(more, m.E...)
		} else {
			m.E = append(m.E, more...)
		}
	case "text":
		for len(m.S) < size {
			m.S += "x" + m.S
		}
	case "name":
		m.S += "_" + strings.Repeat("n", size)
	}
	return n
}

// ---- rendering -----------------------------------------------------------

func level(n *N) int {
	switch n.K {
	case "BINARY_EXP":
		switch n.Op {
		case "OR":
			return 1
		case "AND":
			return 2
		case "LIKE", "ILIKE", "IN", "BETWEEN", "IS":
			return 4
		case "ADD", "SUB":
			return 5
		case "MUL", "DIV", "MOD":
			return 6
		}
		return 3
	case "UNARY_EXP":
		if n.Op == "NEG" {
			return 8
		}
		return 7
	}
	return 9
}

type renderer struct {
	t     *rapid.T // nil: canonical spelling
	toks  []string
	plain bool
}

func (r *renderer) coin(name string, pct int) bool { return r.t != nil && chance(r.t, name, pct) }

func (r *renderer) kw(s string) {
	if r.t == nil {
		r.toks = append(r.toks, s)
		return
	}
	switch rapid.IntRange(0, 3).Draw(r.t, "kwCase") {
	case 0:
	case 1:
		s = strings.ToLower(s)
	case 2:
		s = s[:1] + strings.ToLower(s[1:])
	case 3:
		b := []byte(s)
		for i := range b {
			if rapid.Bool().Draw(r.t, "kwBit") {
				b[i] |= 0x20
			}
		}
		s = string(b)
	}
	r.toks = append(r.toks, s)
}

func (r *renderer) emit(s string) { r.toks = append(r.toks, s) }

func (r *renderer) op(name string) {
	v := opText[name]
	if r.t == nil || len(v) == 1 {
		r.emit(v[0])
		return
	}
	r.emit(pick(r.t, "spelling", v...))
}

func (r *renderer) at(min int, n *N) {
	lv := level(n)
	infixNot := n.K == "UNARY_EXP" && n.Op == "NOT" && n.R.K == "BINARY_EXP" && level(n.R) == 4 && (r.t == nil || r.coin("infixNot", 70))
	if infixNot {
		lv = 4
	}
	paren := lv < min
	if !paren && r.coin("extraParen", 8) {
		paren = true
	}
	if paren {
		r.emit("(")
	} else if min <= 8 && lv >= 8 && r.coin("unaryPlus", 3) {
		r.emit("+")
	}
	r.node(n, infixNot)
	if paren {
		r.emit(")")
	}
}

func (r *renderer) node(n *N, infixNot bool) {
	switch n.K {
	case "BINARY_EXP":
		r.binary(n, false)
	case "UNARY_EXP":
		switch {
		case infixNot:
			r.binary(n.R, true)
		case n.Op == "NEG":
			r.emit("-")
			r.at(8, n.R)
		default:
			r.kw(n.Op)
			r.at(7, n.R)
		}
	case "ARRAY":
		r.emit("[")
		for i, e := range n.E {
			if i > 0 {
				r.emit(",")
			}
			r.at(1, e)
		}
		if len(n.E) > 0 && r.coin("trailingComma", 15) {
			r.emit(",")
		}
		r.emit("]")
	case "NUMBER":
		r.emit(r.number(n.F))
	case "BOOLEAN":
		if n.B {
			r.kw("TRUE")
		} else {
			r.kw("FALSE")
		}
	case "IDENTIFIER":
		r.emit(n.S)
	case "DATE", "TIMESTAMP":
		if r.coin("bareDate", 40) {
			r.emit(n.S)
		} else {
			r.emit(r.quote(n.S))
		}
	case "STRING":
		r.emit(r.quote(n.S))
	default:
		panic("render " + n.K)
	}
}

func (r *renderer) binary(n *N, neg bool) {
	switch n.Op {
	case "OR", "AND":
		lv := level(n)
		r.at(lv, n.L)
		r.kw(n.Op)
		r.at(lv+1, n.R)
	case "ADD", "SUB", "MUL", "DIV", "MOD":
		lv := level(n)
		r.at(lv, n.L)
		r.op(n.Op)
		r.at(lv+1, n.R)
	case "LIKE", "ILIKE", "IN", "BETWEEN", "IS":
		r.at(4, n.L)
		if neg && n.Op != "IS" {
			r.kw("NOT")
		}
		r.kw(n.Op)
		switch n.Op {
		case "IS":
			if neg {
				r.kw("NOT")
			}
			r.kw("NULL")
		case "BETWEEN":
			r.at(5, n.R.E[0])
			r.kw("AND")
			r.at(5, n.R.E[1])
		default:
			r.at(5, n.R)
		}
	default:
		r.at(3, n.L)
		r.op(n.Op)
		r.at(4, n.R)
	}
}

func (r *renderer) quote(s string) string {
	q := byte('\'')
	if r.t != nil {
		q = pick(r.t, "quote", byte('\''), byte('"'), byte('`'))
	}
	var b strings.Builder
	b.WriteByte(q)
	esc := map[byte]string{'\n': `\n`, '\t': `\t`, '\r': `\r`, '\b': `\b`, '\f': `\f`}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == q || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case esc[c] != "" && r.coin("escCtl", 50):
			b.WriteString(esc[c])
		case (c == '\'' || c == '"' || c == '`' || c == '%' || c == 'q' || c == 'Z') && r.coin("escOpt", 15):
			b.WriteByte('\\')
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

// number spells f in one of the forms the language has for it.
func (r *renderer) number(f float64) string {
	base := strconv.FormatFloat(f, 'g', -1, 64)
	forms := []string{strings.Replace(base, "e+", "E", 1)}
	if math.Abs(f) < 1e18 && math.Abs(f) > 1e-6 || f == 0 {
		forms = append(forms, strconv.FormatFloat(f, 'f', -1, 64))
	}
	if r.t == nil {
		return forms[len(forms)-1]
	}
	forms = append(forms, base, strings.ToUpper(base), strconv.FormatFloat(f, 'e', -1, 64))
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		i := strconv.FormatFloat(f, 'f', 0, 64)
		neg := strings.HasPrefix(i, "-")
		forms = append(forms, i+".", i+".0", i+"E0", i+"e+00")
		if !neg {
			forms = append(forms, "+"+i, "00"+i)
		}
	}
	for k, suf := range []string{"k", "m", "g", "t", "p"} {
		for _, b := range []float64{1000, 1024} {
			m := f / math.Pow(b, float64(k+1))
			if f != 0 && m == math.Trunc(m*8)/8 && math.Abs(m) < 1e6 && m*math.Pow(b, float64(k+1)) == f {
				s := strconv.FormatFloat(m, 'f', -1, 64)
				for _, sf := range []string{suf, strings.ToUpper(suf)} {
					if b == 1024 {
						forms = append(forms, s+sf+"i", s+sf+"I")
					} else {
						forms = append(forms, s+sf)
					}
				}
			}
		}
	}
	return pick(r.t, "spelling", forms...)
}

var spaces = []string{" ", "  ", "\t", "\n", "\r\n", " \n ", "\f", "\v", "\n\n\t"}

// join lays tokens out; adjacent tokens touch only where the scanner keeps
// them apart.
func join(t *rapid.T, toks []string, pad bool) string {
	var b strings.Builder
	sp := func(must bool) string {
		if t == nil {
			if must {
				return " "
			}
			return ""
		}
		if !must && chance(t, "tight", 50) {
			return ""
		}
		return spaces[rapid.IntRange(0, len(spaces)-1).Draw(t, "space")]
	}
	if pad && t != nil {
		b.WriteString(sp(false))
	}
	for i, k := range toks {
		if i > 0 {
			b.WriteString(sp(mustSpace(toks[i-1], k)))
		}
		b.WriteString(k)
	}
	if pad && t != nil {
		b.WriteString(sp(false))
	}
	s := b.String()
	if sameToks(s, toks) {
		return s
	}
	return strings.Join(toks, " ")
}

func mustSpace(a, b string) bool {
	if b == "[" && identLen(a) == len(a) {
		return true
	}
	return !sameToks(a+b, []string{a, b})
}

func sameToks(s string, toks []string) bool {
	l := refLex(s)
	if len(l) != len(toks)+1 {
		return false
	}
	for i, k := range toks {
		if s[l[i].P:l[i].Q] != k {
			return false
		}
	}
	return true
}

// render spells n with layout choices drawn from t (nil: canonical).
func render(t *rapid.T, n *N) string {
	r := &renderer{t: t}
	r.at(1, n)
	if t == nil {
		return strings.Join(r.toks, " ")
	}
	return join(t, r.toks, true)
}

// renderTokens gives the token list of the canonical spelling.
func renderTokens(n *N) []string {
	r := &renderer{}
	r.at(1, n)
	return r.toks
}
