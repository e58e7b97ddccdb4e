package main

import (
	"errors"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode"

	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- records ------------------------------------------------------------------

// Val is a field of a record, of a Go type named by K.
type Val struct {
	K string
	S kit.Str   `json:",omitempty"`
	F float64   `json:",omitempty"`
	I int64     `json:",omitempty"`
	B bool      `json:",omitempty"`
	L []kit.Str `json:",omitempty"`
}

// value gives the Go value; ok is false for a field the record lacks.
func (v Val) value() (interface{}, bool) {
	switch v.K {
	case "string":
		return string(v.S), true
	case "bool":
		return v.B, true
	case "float64":
		return v.F, true
	case "float32":
		return float32(v.F), true
	case "int":
		return int(v.I), true
	case "int32":
		return int32(v.I), true
	case "int64":
		return v.I, true
	case "uint":
		return uint(v.I), true
	case "uint32":
		return uint32(v.I), true
	case "uint64":
		return uint64(v.I), true
	case "time":
		return readDate(string(v.S)).time(), true
	case "local": // a time in another zone, with a monotonic-free location of its own
		return readDate(string(v.S)).time().In(time.FixedZone("X", int(v.I)*900)), true
	case "list":
		l := make([]string, len(v.L))
		for i := range l {
			l[i] = string(v.L[i])
		}
		return l, true
	case "nil":
		return nil, true
	case "int8":
		return int8(v.I), true
	case "map":
		return map[string]int{"a": 1}, true
	case "anys":
		return []interface{}{"a"}, true
	case "pointer":
		return &v.F, true
	case "nan":
		return math.NaN(), true
	case "inf":
		return math.Inf(1), true
	}
	return nil, false
}

// meaning gives the value a phrase works on; odd is set for types no one promised.
func (v Val) meaning() (x interface{}, odd bool) {
	g, _ := v.value()
	switch k := g.(type) {
	case nil, float64, string:
		return k, false
	case bool:
		if V == 4 {
			return fmt.Sprint(k), false
		}
		return k, false
	case float32:
		return float64(k), false
	case int:
		return float64(k), false
	case int32:
		return float64(k), false
	case int64:
		return float64(k), false
	case uint:
		return float64(k), false
	case uint32:
		return float64(k), false
	case uint64:
		return float64(k), false
	case time.Time:
		return stamp{k.Unix(), k.Nanosecond()}, V == 4
	case []string:
		return k, V == 4
	}
	return nil, true
}

// Record is a record by field name.
type Record map[string]Val

func (r Record) eval(k string) (interface{}, bool) { return r[k].value() }

func (r Record) String() string {
	var out []string
	for k := range r {
		v, ok := r.eval(k)
		if !ok {
			continue
		}
		out = append(out, fmt.Sprintf("%s: %T %#v", k, v, v))
		if t, ok := v.(time.Time); ok {
			out[len(out)-1] = fmt.Sprintf("%s: time %s", k, t.Format(time.RFC3339Nano))
		}
	}
	sort.Strings(out)
	return "{" + strings.Join(out, ", ") + "}"
}

// ---- reference evaluator ---------------------------------------------------------

// stamp is an instant.
type stamp struct {
	sec  int64
	nano int
}

var errType = errors.New("operands of these types")

// refEval evaluates a condition. errUnsure means that nothing is specified.
type refEval struct {
	r    Record
	math bool // compute in v4 too, as databases do
}

func (e refEval) cond(n *T) (bool, error) {
	switch n.F {
	case "and", "or":
		a, err1 := e.cond(n.L)
		b, err2 := e.cond(n.R)
		if err1 == errUnsure || err2 == errUnsure {
			return false, errUnsure
		}
		if err1 != nil || err2 != nil {
			return false, errType
		}
		if n.F == "and" {
			return a && b, nil
		}
		return a || b, nil
	case "not":
		a, err := e.cond(n.L)
		return !a, err
	case "exists", "nexists":
		v, err := e.value(n.L)
		if err != nil {
			return false, err
		}
		return (v == nil) == (n.F == "nexists"), nil
	}
	l, err := e.value(n.L)
	if n.R.F == "array" {
		if err != nil {
			return false, err
		}
		if l == nil {
			return false, nil
		}
		var list []interface{}
		for _, x := range n.R.E {
			list = append(list, literal(x))
		}
		return member(n.F, l, list)
	}
	r, err2 := e.value(n.R)
	if err == errUnsure || err2 == errUnsure {
		return false, errUnsure
	}
	if err != nil || err2 != nil {
		return false, errType
	}
	if l == nil || r == nil {
		return false, nil
	}
	return compare(n.F, l, r)
}

func literal(n *T) interface{} {
	switch n.F {
	case "string":
		return string(n.S)
	case "number":
		return n.N
	case "boolean":
		return n.B
	case "date":
		m := readDate(string(n.S))
		return stamp{m.sec, m.nano}
	}
	kit.Bug("literal %v", n)
	return nil
}

func (e refEval) value(n *T) (interface{}, error) {
	switch {
	case n.F == "ident":
		v, odd := e.r[string(n.S)].meaning()
		if odd {
			return nil, errUnsure
		}
		return v, nil
	case n.leaf():
		return literal(n), nil
	case V == 4 && !e.math:
		return nil, errType // v4 does not compute
	}
	l, err := e.value(n.L)
	r, err2 := e.value(n.R)
	if err == errUnsure || err2 == errUnsure {
		return nil, errUnsure
	}
	if err != nil || err2 != nil {
		return nil, errType
	}
	x, ok := l.(float64)
	y, ok2 := r.(float64)
	if l == nil || r == nil {
		if l != nil && !ok || r != nil && !ok2 {
			return nil, errUnsure // null and something that is no number
		}
		return nil, nil
	}
	if !ok || !ok2 {
		return nil, errType
	}
	switch n.F {
	case "add":
		return x + y, nil
	case "subtract":
		return x - y, nil
	case "multiply":
		return x * y, nil
	case "divide":
		return x / y, nil
	}
	return math.Mod(x, y), nil
}

func order(l, r interface{}) (lt, eq, ok bool) {
	switch x := l.(type) {
	case float64:
		if y, ok := r.(float64); ok {
			return x < y, x == y, true
		}
	case string:
		if y, ok := r.(string); ok {
			return x < y, x == y, true
		}
	case stamp:
		if y, ok := r.(stamp); ok {
			return x.sec < y.sec || x.sec == y.sec && x.nano < y.nano, x == y, true
		}
	}
	return
}

func nan(v interface{}) bool { f, ok := v.(float64); return ok && math.IsNaN(f) }

func compare(op string, l, r interface{}) (bool, error) {
	if b, ok := l.(bool); ok {
		var c bool
		switch y := r.(type) {
		case bool:
			c = y
		case float64:
			c = y != 0
		case string:
			switch {
			case strings.EqualFold(y, "t") || strings.EqualFold(y, "true"):
				c = true
			case y != "" && (y[0] == 't' || y[0] == 'T'):
				return false, errUnsure
			}
		default:
			return false, errType
		}
		switch op {
		case "eq":
			return b == c, nil
		case "ne":
			return b != c, nil
		}
		return false, errType
	}
	switch op {
	case "like", "ilike", "regex", "nregex":
		s, ok := l.(string)
		p, ok2 := r.(string)
		if !ok || !ok2 {
			return false, errType
		}
		switch op {
		case "like":
			return kit.Like(s, p, false), nil
		case "ilike":
			s, ok := fold(s)
			p, ok2 := fold(p)
			if !ok || !ok2 {
				return false, errUnsure
			}
			return kit.Like(s, p, false), nil
		}
		re, err := regexp.Compile(p)
		if err != nil {
			return false, errType
		}
		return re.MatchString(s) == (op == "regex"), nil
	}
	if _, ok := l.([]string); ok {
		return false, errType
	}
	lt, eq, ok := order(l, r)
	if !ok {
		return false, errType
	}
	if nan(l) || nan(r) {
		return op == "ne", nil
	}
	switch op {
	case "eq":
		return eq, nil
	case "ne":
		return !eq, nil
	case "lt":
		return lt, nil
	case "lte":
		return lt || eq, nil
	case "gt":
		return !lt && !eq, nil
	}
	return !lt, nil
}

// fold maps letters that differ in case only to one; ok is false where more
// than two letters fold together.
func fold(s string) (string, bool) {
	out, ok := []rune(s), true
	for i, r := range out {
		least, n := r, 1
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			least = min(least, f)
			n++
		}
		if n > 2 && r > 127 {
			ok = false
		}
		out[i] = least
	}
	return string(out), ok
}

func member(op string, l interface{}, list []interface{}) (bool, error) {
	neg := op == "nin" || op == "nbetween"
	if a, ok := l.([]string); ok {
		if op != "in" && op != "nin" {
			return false, errType
		}
		found := false
		for _, x := range list {
			s, ok := x.(string)
			if !ok {
				return false, errType
			}
			for _, y := range a {
				found = found || s == y
			}
		}
		return found != neg, nil
	}
	if _, ok := l.(bool); ok {
		return false, errType
	}
	hit := op == "between" || op == "nbetween"
	for i, x := range list {
		lt, eq, ok := order(l, x)
		if !ok {
			return false, errType
		}
		if nan(l) {
			lt, eq = false, false
		}
		switch {
		case op == "in" || op == "nin":
			hit = hit || eq
		case nan(l):
			hit = false
		case i == 0:
			hit = hit && !lt
		default:
			hit = hit && (lt || eq)
		}
	}
	if nan(l) && op == "nbetween" {
		return false, errUnsure
	}
	return hit != neg, nil
}

// ---- C22 ------------------------------------------------------------------------

type evalCase struct {
	Tree *T
	Rec  Record
	Then []evalCase `json:",omitempty"` // judged after this one, then this one again
}

func checkEvals(c evalCase, x *kit.X) error {
	if err := checkEval(c, x); err != nil || len(c.Then) == 0 {
		return err
	}
	quiet := &kit.X{}
	for _, d := range append(append([]evalCase{}, c.Then...), c) {
		if err := checkEval(d, quiet); err != nil {
			return fmt.Errorf("%v (after %s)", err, render(nil, c.Tree))
		}
	}
	x.Label("followed by a similar one")
	return nil
}

func checkEval(c evalCase, x *kit.X) error {
	text := render(nil, c.Tree)
	t, m, err := parse(text)
	if err != nil {
		return fmt.Errorf("%q: %v", text, err)
	}
	if !same(t, c.Tree) {
		return fmt.Errorf("%q parses to %v", text, t) // C20 says more
	}
	want, bad := refEval{r: c.Rec}.cond(c.Tree)
	before := copyNode(m)
	got, err := semantics.Walk(m, c.Rec.eval)
	if !unchanged(before, m) {
		return fmt.Errorf("%s on %v: evaluating changes the tree to %v", text, c.Rec, m)
	}
	again, err2 := semantics.Walk(m, c.Rec.eval)
	if again != got || (err == nil) != (err2 == nil) {
		return fmt.Errorf("%s on %v: %v (error %v), then %v (error %v)", text, c.Rec, got, err, again, err2)
	}
	if err != nil && got {
		return fmt.Errorf("%s on %v is selected, with error %v", text, c.Rec, err)
	}
	switch {
	case bad == errUnsure:
		x.Label("not specified")
		x.Exclude()
		return nil
	case bad != nil && err == nil:
		return fmt.Errorf("%s on %v is %v, wanted an error", text, c.Rec, got)
	case bad == nil && err != nil:
		return fmt.Errorf("%s on %v: error %v, wanted %v", text, c.Rec, err, want)
	case bad == nil && got != want:
		return fmt.Errorf("%s on %v is %v, wanted %v", text, c.Rec, got, want)
	}
	if bad != nil {
		x.Label("error")
	} else {
		x.Label("%v", got)
		x.NonTrivial()
	}
	c.Tree.walk(func(n *T) { x.LabelIf(!n.leaf(), n.F) })
	x.Sample("%s on %v", text, c.Rec)
	return nil
}

var dates = []string{"2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T02:00:00+02:00", "2019-12-31T19:00:00-05:00", "2020-01-01T00:00:00.5Z", "2020-01-01T00:00:00.000000001Z",
	"2019-12-31T23:59:59.999999999Z", "2020-01-02", "2019-12-31", "2020-02-29", "1969-12-31T23:59:59Z", "2020-01-01T05:30:00.5+05:30"}

func someDate(t *rapid.T) string {
	if chance(t, "anyDate", 15) {
		return genDate(t)
	}
	return dates[upto(t, "date", len(dates)-1)]
}

var letters = []string{"a", "b", "A", "B", "%", "_", ".", "é", "É", "\n", "*", "日", "ж", "Ж", "ſ", "K", " "}

func someWord(t *rapid.T) string {
	if chance(t, "anyWord", 10) {
		return genString(t)
	}
	var b strings.Builder
	for i := upto(t, "wordLen", 3); i > 0; i-- {
		b.WriteString(letters[upto(t, "letter", len(letters)-1)])
	}
	return b.String()
}

func someNumber(t *rapid.T) float64 {
	if chance(t, "anyNumber", 10) {
		return genNumber(t)
	}
	return float64(rapid.IntRange(-4, 8).Draw(t, "half")) / 2
}

func somePattern(t *rapid.T) string {
	if chance(t, "free", 50) {
		return someWord(t)
	}
	var b strings.Builder
	for i := upto(t, "patternLen", 4); i > 0; i-- {
		b.WriteString(pick(t, "patternPart", "%", "%", "_", "a", "b", "A", "é", ".", "%%", "_%"))
	}
	return b.String()
}

func someRegex(t *rapid.T) string {
	if chance(t, "freeRegex", 30) {
		return someWord(t)
	}
	return pick(t, "regex", "a", "^a", "b$", "^.$", "a|b", "[ab]+", "^[^a]*$", "", "(?i)A", "(", "[", "*", "a{2}", "^\\w", "\\.", ".*")
}

func genVal(t *rapid.T, kind string) Val {
	if chance(t, "null", 12) {
		return Val{K: pick(t, "absent", "nil", "missing")}
	}
	switch kind {
	case "num":
		k := pick(t, "numType", "float64", "float64", "int", "int32", "int64", "uint", "uint32", "uint64", "float32")
		if strings.HasPrefix(k, "float") {
			v := Val{K: k, F: someNumber(t)}
			if k == "float64" && chance(t, "notFinite", 2) {
				v = Val{K: pick(t, "which", "nan", "inf")}
			}
			return v
		}
		i := int64(rapid.IntRange(-2, 4).Draw(t, "whole"))
		if chance(t, "wide", 10) {
			i = pick[int64](t, "limit", math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1<<53+1, math.MaxUint32)
		}
		return Val{K: k, I: i}
	case "str":
		return Val{K: "string", S: kit.Str(someWord(t))}
	case "bool":
		return Val{K: "bool", B: rapid.Bool().Draw(t, "b")}
	case "time":
		if chance(t, "moved", 30) {
			return Val{K: "local", S: kit.Str(someDate(t)), I: int64(rapid.IntRange(-40, 40).Draw(t, "quarters"))}
		}
		return Val{K: "time", S: kit.Str(someDate(t))}
	case "list":
		v := Val{K: "list"}
		for i := upto(t, "items", 3); i > 0; i-- {
			v.L = append(v.L, kit.Str(someWord(t)))
		}
		if len(v.L) > 0 && chance(t, "manyItems", 4) { // the last one may decide
			more := make([]kit.Str, pick(t, "items", 9, 17, 33, 65, 130, 300))
			for i := range more {
				more[i] = v.L[0]
			}
			v.L = append(more, v.L...)
		}
		return v
	}
	return Val{K: pick(t, "odd", "int8", "map", "anys", "pointer")}
}

var kinds = map[string]string{"n": "num", "m": "num", "s": "str", "u": "str", "b": "bool", "c": "bool", "d": "time", "e": "time", "l": "list", "z": "none", "q x": "num", "t.s": "str"}

func genRecord(t *rapid.T, mixed bool) Record {
	r := Record{}
	for _, k := range []string{"n", "m", "s", "u", "b", "c", "d", "e", "l", "z", "q x", "t.s"} {
		kind := kinds[k]
		if kind == "none" {
			r[k] = Val{K: pick(t, "none", "nil", "missing")}
			continue
		}
		if V == 4 && (kind == "time" || kind == "list") {
			kind = "str"
		}
		if mixed && chance(t, "mixed", 30) {
			kind = pick(t, "kind", "num", "str", "bool", "time", "list", "odd")
		}
		r[k] = genVal(t, kind)
	}
	return r
}

// typed draws conditions whose operands fit.
type typed struct{ t *rapid.T }

func (g typed) num(d int) *T {
	if V == 4 || d <= 0 || chance(g.t, "plain", 40) {
		return id(g.name(pick(g.t, "numField", "n", "m", "n", "m", "q x", "z")))
	}
	r := num(someNumber(g.t))
	if chance(g.t, "two", 50) {
		r = g.num(d - 1)
	}
	return bin(pick(g.t, "op", mathNames...), g.num(d-1), r)
}

// name gives the name as the version's trees hold it.
func (g typed) name(s string) string {
	if V == 4 && s == "q x" {
		return "m"
	}
	return s
}

func (g typed) left(kind string) *T {
	switch kind {
	case "num":
		return g.num(upto(g.t, "mathDepth", 3))
	case "str":
		return id(pick(g.t, "strField", "s", "u", "t.s"))
	case "bool":
		return id(pick(g.t, "boolField", "b", "c"))
	case "time":
		return id(pick(g.t, "timeField", "d", "e"))
	}
	return id("l")
}

func (g typed) lit(kind string) *T {
	switch kind {
	case "num":
		return num(someNumber(g.t))
	case "bool":
		if V == 4 {
			return str(pick(g.t, "boolText", "true", "false", "t", "True"))
		}
		switch upto(g.t, "boolLit", 3) {
		case 0:
			return str(pick(g.t, "boolText", "true", "false", "t", "T", "f", "TRUE", "no", "", "trux"))
		case 1:
			return num(float64(upto(g.t, "boolNum", 2)))
		}
		return boolean(rapid.Bool().Draw(g.t, "lit"))
	case "time":
		return date(someDate(g.t))
	}
	return str(someWord(g.t))
}

func (g typed) right(kind string) *T {
	if V == 5 && chance(g.t, "fieldRight", 30) {
		return g.left(kind)
	}
	return g.lit(kind)
}

func (g typed) cond(d int) *T {
	if d > 0 {
		switch upto(g.t, "cond", 5) {
		case 0, 1, 2:
			return bin(pick(g.t, "logic", "and", "or"), g.cond(d-1), g.cond(d-1))
		case 3:
			return not(g.cond(d - 1))
		}
	}
	kind := pick(g.t, "kind", "num", "num", "str", "str", "bool", "time", "list")
	if V == 4 && (kind == "time" || kind == "list") {
		kind = "str"
	}
	switch upto(g.t, "form", 7) {
	case 0:
		l := g.left(kind)
		if chance(g.t, "nullField", 40) {
			l = id("z")
		}
		return &T{F: pick(g.t, "null", "exists", "nexists"), L: l}
	case 1, 2:
		if kind == "bool" {
			break
		}
		n := bin(pick(g.t, "in", "in", "nin"), g.left(kind), list())
		for i := upto(g.t, "len", 4); i > 0; i-- {
			n.R.E = append(n.R.E, g.lit(kind))
		}
		return n
	case 3:
		if kind == "bool" || kind == "list" {
			break
		}
		return bin(pick(g.t, "between", "between", "nbetween"), g.left(kind), list(g.lit(kind), g.lit(kind)))
	case 4, 5:
		if kind == "str" {
			switch upto(g.t, "match", 3) {
			case 0:
				return bin("like", g.left(kind), str(somePattern(g.t)))
			case 1:
				return bin("ilike", g.left(kind), str(somePattern(g.t)))
			}
			r := str(someRegex(g.t))
			if V == 5 && chance(g.t, "fieldRegex", 15) {
				r = g.left("str")
			}
			return bin(pick(g.t, "re", "regex", "nregex"), g.left(kind), r)
		}
	}
	switch kind {
	case "list":
		return bin(pick(g.t, "in", "in", "nin"), g.left(kind), list(g.lit(kind), g.lit(kind)))
	case "bool":
		return bin(pick(g.t, "eq", "eq", "ne"), g.left(kind), g.right(kind))
	}
	return bin(pick(g.t, "cmp", cmpNames...), g.left(kind), g.right(kind))
}

// near makes a value nearly equal to the literal it is compared with, in a few
// phrases.
func near(t *rapid.T, n *T, recs ...Record) {
	if !chance(t, "near", 12) {
		return
	}
	r := recs[upto(t, "nearRecord", len(recs)-1)]
	type pair struct {
		field   string
		lit     *T
		pattern bool
	}
	var ps []pair
	n.walk(func(m *T) {
		if m.R == nil || m.F == "and" || m.F == "or" {
			return
		}
		pattern := m.F == "like" || m.F == "ilike" || m.F == "regex" || m.F == "nregex"
		for _, s := range [][2]*T{{m.L, m.R}, {m.R, m.L}} {
			s[0].walk(func(f *T) {
				if f.F != "ident" {
					return
				}
				k := string(f.S)
				v := r[k]
				s[1].walk(func(l *T) {
					if l.F == "string" && (v.K == "string" || v.K == "list" && len(v.L) > 0) || l.F == "number" && v.K == "float64" {
						ps = append(ps, pair{k, l, pattern})
					}
				})
			})
		}
	})
	if len(ps) == 0 {
		return
	}
	p := ps[upto(t, "pair", len(ps)-1)]
	v := r[p.field]
	if p.lit.F == "number" {
		v.F = kit.NearNumber(t, p.lit.N)
	} else {
		if !p.pattern {
			p.lit.S = kit.Str(kit.LongText(t, string(p.lit.S)))
		}
		s := kit.Str(kit.NearText(t, string(p.lit.S)))
		if v.K == "list" {
			v.L = append([]kit.Str{}, v.L...)
			v.L[upto(t, "item", len(v.L)-1)] = s
		} else {
			v.S = s
		}
	}
	r[p.field] = v
}

func nearly(t *rapid.T, c evalCase) evalCase {
	near(t, c.Tree, c.Rec)
	return c
}

func matchCase(op, s, p string) evalCase {
	return evalCase{Tree: bin(op, id("s"), str(p)), Rec: Record{"s": {K: "string", S: kit.Str(strings.ToValidUTF8(s, ""))}}}
}

// genWild draws any tree over the record's fields.
func genWild(t *rapid.T) evalCase {
	n := genCond(t, upto(t, "depth", 2))
	n.walk(func(m *T) {
		switch m.F {
		case "ident":
			m.S = kit.Str(typed{t}.name(pick(t, "field", "n", "m", "s", "u", "b", "c", "d", "e", "l", "z", "q x", "t.s")))
		case "string":
			m.S = kit.Str(someWord(t))
		case "number":
			m.N = someNumber(t)
		case "date":
			m.S = kit.Str(someDate(t))
		}
	})
	return nearly(t, evalCase{Tree: stretch(t, n, 3, false), Rec: genRecord(t, true)})
}

func init() {
	register("C22/typed", "a condition of 0-3 levels with operands of fitting types over a record of numbers of every Go type, strings, booleans, times, a list, nil and missing fields; compared with a reference evaluator; the tree must come out unchanged; non-trivial: the answer is a truth value",
		func(t *rapid.T) evalCase {
			return nearly(t, evalCase{Tree: stretch(t, typed{t}.cond(upto(t, "depth", 3)), 6, false), Rec: genRecord(t, false)})
		}, checkEval)
	register("C22/wild", "any condition of 0-2 levels over a record whose fields have arbitrary types; answer and errors compared with a reference evaluator (what nothing specifies is not judged, but must not panic); non-trivial: the answer is a truth value", genWild, checkEval)
	register("C22/match", "one LIKE or ILIKE on a text drawn near the pattern, one in five followed by a match much like it and by itself again; compared with an own matcher; non-trivial: the answer is a truth value",
		func(t *rapid.T) evalCase {
			p := somePattern(t)
			s := p
			for _, w := range []string{"%", "_"} {
				r := someWord(t)
				if chance(t, "long", 1) {
					r = strings.Repeat(r, pick(t, "longTo", 20, 70, 300))
				}
				s = strings.ReplaceAll(s, w, r)
			}
			if chance(t, "swap", 30) {
				s = strings.ToUpper(s)
			}
			if chance(t, "change", 30) {
				s += pick(t, "tail", "a", "\n", "é", "x")
			}
			c := matchCase(pick(t, "like", "like", "ilike"), s, p)
			if chance(t, "then", 20) {
				if n := pick(t, "lengthen", 0, 0, 0, 2, 6, 20); n > 0 {
					s += strings.Repeat("a", n)
					p += strings.Repeat("a", n)
					c = matchCase(c.Tree.F, s, p)
				}
				op := c.Tree.F
				if chance(t, "otherOp", 30) {
					op = pick(t, "op", "like", "ilike", "regex", "nregex")
				} else {
					p = kit.Sibling(t, p)
				}
				if chance(t, "otherText", 40) {
					s = kit.Sibling(t, s)
				}
				c.Then = []evalCase{matchCase(op, s, p)}
			}
			return c
		}, checkEvals)
}
