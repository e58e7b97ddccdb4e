package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C09: phrases on records -------------------------------------------------

type evalCase struct {
	Tree *N
	Rec  []Field
}

// numbers at and near the ends of the integer types, all of them float64 values
var numLimits = map[string][]float64{
	"int8": {-128, 127}, "int16": {-32768, 32767}, "int32": {-1 << 31, 1<<31 - 1}, "int64": {-1 << 63, -1 << 62, 1 << 62, 1 << 53, 1 << 32},
	"int": {-1 << 63, 1 << 62, 1 << 40}, "uint8": {128, 255}, "uint16": {32768, 65535}, "uint32": {1 << 31, 1<<32 - 1},
	"uint64": {1 << 63, 3 << 62, 1 << 62, 1 << 32}, "uint": {1 << 63, 3 << 62, 1 << 40},
}

// genV draws a value of the given kind: num, str, bool, time.
func genV(t *rapid.T, kind string) V {
	switch kind {
	case "num":
		ty := numTypes[rapid.IntRange(0, len(numTypes)-1).Draw(t, "numType")]
		if lim, ok := numLimits[ty]; ok && chance(t, "limit", 6) {
			return V{T: ty, F: lim[rapid.IntRange(0, len(lim)-1).Draw(t, "val")]}
		}
		switch {
		case strings.HasPrefix(ty, "uint"):
			return V{T: ty, F: float64(rapid.IntRange(0, 8).Draw(t, "val"))}
		case strings.HasPrefix(ty, "int"):
			return V{T: ty, F: float64(rapid.IntRange(-4, 8).Draw(t, "val"))}
		}
		return V{T: ty, F: float64(rapid.IntRange(-8, 16).Draw(t, "val")) / 2}
	case "str":
		return V{T: "str", S: kit.Str(genWord(t))}
	case "bool":
		return V{T: "bool", B: rapid.Bool().Draw(t, "val")}
	case "time":
		s := genMoment(t)
		if isTimestampForm(s) && chance(t, "goTime", 50) {
			return V{T: "time", S: kit.Str(s)}
		}
		return V{T: "str", S: kit.Str(s)}
	case "nil":
		return V{T: "nil"}
	}
	panic(kind)
}

var words = []string{"", "a", "b", "ab", "abc", "A", "aB", "a.b", "a%", "_", "joe", "Joe", "true", "5", "é", "a\nb", "2020-01", "2020-13-01", "null"}

func genWord(t *rapid.T) string {
	return words[rapid.IntRange(0, len(words)-1).Draw(t, "word")]
}

// a few instants, each in several spellings
var moments = []string{"2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T02:00:00+02:00", "2019-12-31T19:00:00-05:00", "2020-01-01T00:00:00.5Z",
	"2020-01-02", "2020-01-02T00:00:00Z", "2020-01-01T23:30:00-00:30", "2019-12-31", "2020-01-01T12:00:00Z", "2020-01-01T17:30:00+05:30", "2020-01-01T23:59:59.999999999Z"}

func genMoment(t *rapid.T) string {
	return moments[rapid.IntRange(0, len(moments)-1).Draw(t, "moment")]
}

var recNames = map[string][]string{
	"num": {"n", "spec.n", "n[0]"}, "str": {"s", "meta/s", "s[my.key]"}, "bool": {"b", "_b2"}, "time": {"d", "d.e"},
	"nums": {"an", "a[*].n"}, "strs": {"as"}, "bools": {"ab"}, "times": {"ad"}, "nil": {"z"}, "missing": {"gone"}, "mixed": {"am"},
}

var scalarKinds = []string{"num", "str", "bool", "time"}

// genRecord draws a record with fields of every kind.
func genRecord(t *rapid.T) (fs []Field) {
	kinds := make([]string, 0)
	for k := range recNames {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		for _, name := range recNames[k] {
			switch k {
			case "missing":
			case "nums", "strs", "bools", "times", "mixed":
				v := V{T: "arr"}
				for i, n := 0, rapid.IntRange(0, 4).Draw(t, "len"); i < n; i++ {
					ek := k[:len(k)-1]
					if k == "mixed" {
						ek = pick(t, "elemKind", "num", "str", "bool", "time", "nil", "arr")
					}
					if ek == "arr" {
						v.A = append(v.A, V{T: "arr", A: []V{genV(t, "num"), genV(t, "bool")}})
						continue
					}
					v.A = append(v.A, genV(t, ek))
				}
				fs = append(fs, Field{name, v})
			default:
				fs = append(fs, Field{name, genV(t, k)})
			}
		}
	}
	return
}

// near makes a value nearly equal to the literal it is compared with, in a few
// phrases. Values are given by the name of their field.
func near(t *rapid.T, n *N, texts map[string][]*kit.Str, nums map[string][]*float64) {
	if !chance(t, "near", 12) {
		return
	}
	type pair struct {
		field   string
		lit     *N
		pattern bool
	}
	var ps []pair
	n.walk(func(m *N) {
		if m.K != "BINARY_EXP" || m.Op == "AND" || m.Op == "OR" {
			return
		}
		pattern := m.Op == "LIKE" || m.Op == "ILIKE" || m.Op == "REQ" || m.Op == "RNE"
		for _, s := range [][2]*N{{m.L, m.R}, {m.R, m.L}} {
			s[0].walk(func(f *N) {
				if f.K != "IDENTIFIER" {
					return
				}
				s[1].walk(func(l *N) {
					if l.K == "STRING" && len(texts[f.S]) > 0 || l.K == "NUMBER" && len(nums[f.S]) > 0 {
						ps = append(ps, pair{f.S, l, pattern})
					}
				})
			})
		}
	})
	if len(ps) == 0 {
		return
	}
	p := ps[rapid.IntRange(0, len(ps)-1).Draw(t, "pair")]
	if p.lit.K == "NUMBER" {
		fs := nums[p.field]
		*fs[rapid.IntRange(0, len(fs)-1).Draw(t, "value")] = kit.NearNumber(t, p.lit.F)
		return
	}
	ss := texts[p.field]
	if !p.pattern {
		*p.lit = *str(kit.LongText(t, p.lit.S))
	}
	*ss[rapid.IntRange(0, len(ss)-1).Draw(t, "value")] = kit.Str(kit.NearText(t, p.lit.S))
}

// nearRecord does so with the fields of a record.
func nearRecord(t *rapid.T, c *evalCase) {
	texts := map[string][]*kit.Str{}
	nums := map[string][]*float64{}
	for i := range c.Rec {
		k := c.Rec[i].Name
		add := func(v *V) {
			switch v.T {
			case "str":
				texts[k] = append(texts[k], &v.S)
			case "float64":
				nums[k] = append(nums[k], &v.F)
			}
		}
		v := &c.Rec[i].V
		add(v)
		for j := range v.A {
			add(&v.A[j])
		}
	}
	near(t, c.Tree, texts, nums)
}

type typed struct {
	t   *rapid.T
	bad int // percentage of ill-typed choices
}

func (g typed) name(kind string) *N {
	ns := recNames[kind]
	return id(ns[rapid.IntRange(0, len(ns)-1).Draw(g.t, "field")])
}

func (g typed) odd() *N {
	return g.name(pick(g.t, "oddField", "nil", "missing", "mixed", "num", "str", "bool", "time", "nums", "strs", "bools", "times"))
}

func (g typed) num(d int) *N {
	if g.bad > 0 && chance(g.t, "illTyped", g.bad) {
		return g.odd()
	}
	k := 9
	if d <= 0 {
		k = 4
	}
	switch rapid.IntRange(0, k).Draw(g.t, "numExpr") {
	case 0, 1:
		return num(float64(rapid.IntRange(-4, 8).Draw(g.t, "lit")))
	case 2:
		return num(float64(rapid.IntRange(-8, 16).Draw(g.t, "lit")) / 2)
	case 3, 4:
		return g.name("num")
	case 5, 6, 7:
		return bin(pick(g.t, "math", "ADD", "SUB", "MUL", "DIV", "MOD"), g.num(d-1), g.num(d-1))
	case 8:
		return un("NEG", g.num(d-1))
	}
	if chance(g.t, "sum", 50) {
		return un("SUM", g.array("num", d-1))
	}
	return un("LEN", g.array(scalarKinds[rapid.IntRange(0, 3).Draw(g.t, "lenOf")], d-1))
}

func (g typed) scalar(kind string, d int) *N {
	if kind == "num" {
		return g.num(d)
	}
	if g.bad > 0 && chance(g.t, "illTyped", g.bad) {
		return g.odd()
	}
	if chance(g.t, "scalarField", 50) {
		return g.name(kind)
	}
	switch kind {
	case "str":
		return str(genWord(g.t))
	case "time":
		return str(genMoment(g.t))
	}
	if d > 0 {
		return g.cond(d - 1)
	}
	return boolean(rapid.Bool().Draw(g.t, "lit"))
}

// array is a list of values of one kind.
func (g typed) array(kind string, d int) *N {
	k := 3
	if d <= 0 {
		k = 1
	}
	switch rapid.IntRange(0, k).Draw(g.t, "arrExpr") {
	case 0:
		return g.name(kind + "s")
	case 1:
		a := arr()
		for i, n := 0, rapid.IntRange(0, 4).Draw(g.t, "len"); i < n; i++ {
			a.E = append(a.E, g.scalar(kind, d-1))
		}
		return a
	}
	if kind == "num" {
		if chance(g.t, "neg", 20) {
			return un("NEG", g.array(kind, d-1))
		}
		return bin(pick(g.t, "math", "ADD", "SUB", "MUL", "DIV", "MOD"), g.array(kind, d-1), g.num(d-1))
	}
	if kind == "bool" {
		return g.compare(d-1, true)
	}
	return g.name(kind + "s")
}

// compare is a comparison of a scalar (or, with broadcast, of a list) with a scalar.
func (g typed) compare(d int, broadcast bool) *N {
	kind := scalarKinds[rapid.IntRange(0, 3).Draw(g.t, "cmpKind")]
	side := func() *N {
		if broadcast {
			return g.array(kind, d)
		}
		return g.scalar(kind, d)
	}
	var n *N
	switch rapid.IntRange(0, 5).Draw(g.t, "cmpForm") {
	case 0:
		n = bin("IN", side(), g.array(kind, d))
	case 1:
		if kind == "num" || kind == "time" {
			n = bin("BETWEEN", side(), arr(g.scalar(kind, d), g.scalar(kind, d)))
		} else {
			n = bin("IS", side(), null())
		}
	default:
		switch kind {
		case "num", "time":
			n = bin(pick(g.t, "cmp", "EQ", "NE", "LT", "LE", "GT", "GE"), side(), g.scalar(kind, d))
		case "bool":
			n = bin(pick(g.t, "cmpB", "EQ", "NE", "AND", "OR"), side(), g.scalar(kind, d))
		default:
			n = bin(pick(g.t, "cmpS", "EQ", "NE", "LIKE", "ILIKE", "REQ", "RNE"), side(), g.scalar(kind, d))
		}
	}
	if chance(g.t, "negate", 15) {
		n = un("NOT", n)
	}
	return n
}

// cond is a condition.
func (g typed) cond(d int) *N {
	if d <= 0 {
		if chance(g.t, "leafCond", 20) {
			return g.scalar("bool", 0)
		}
		return g.compare(0, false)
	}
	switch rapid.IntRange(0, 7).Draw(g.t, "cond") {
	case 0, 1:
		return bin(pick(g.t, "logic", "AND", "OR"), g.cond(d-1), g.cond(d-1))
	case 2:
		return un("NOT", g.cond(d-1))
	case 3:
		return un(pick(g.t, "quant", "ANY", "ALL"), g.array("bool", d))
	case 4:
		return bin("IS", g.odd(), null())
	}
	return g.compare(d-1, false)
}

// judge compares the walker's answer with the reference's.
func judge(n *N, t *tsl.TSLNode, rec []Field, x *kit.X) (interface{}, error, error) {
	ev, _ := record(rec)
	want, werr := refEval2(n, ev)
	if refUnsure {
		x.Exclude()
		return nil, nil, nil
	}
	ev, asked := record(rec)
	got, gerr := semantics.Walk(t, ev)
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%s on {%s}: %s", cut(render(nil, n)), showRecord(used(n, rec)), fmt.Sprintf(format, a...))
	}
	if (werr == nil) != (gerr == nil) || werr == nil && !sameValue(got, want) {
		return nil, nil, fail("gives %s, wanted %s", show(got, gerr), show(want, werr))
	}
	if gerr != nil {
		if gerr.Error() == "" {
			return nil, nil, fail("error without a message")
		}
		if got != nil && got != false {
			return nil, nil, fail("gives a value %s along with the error %v", show(got, nil), gerr)
		}
		if key, ok := missingErr(gerr); ok {
			if _, there := ev(key); there || asked[key] == 0 {
				return nil, nil, fail("reports %q as missing", key)
			}
		} else if werr == errMissing && onlyMissing(n, rec) {
			return nil, nil, fail("reports %v instead of the missing field", gerr)
		}
	}
	return got, gerr, nil
}

// onlyMissing: the phrase is a single operator over leaves, one of them missing.
func onlyMissing(n *N, rec []Field) bool {
	return n.K == "IDENTIFIER" || n.depth() == 2 && n.K != "ARRAY"
}

func refEval2(n *N, ev semantics.EvalFunc) (interface{}, error) {
	refUnsure = false
	return refEval(n, ev)
}

// used keeps the fields the phrase names.
func used(n *N, rec []Field) (out []Field) {
	names := map[string]bool{}
	n.walk(func(m *N) {
		if m.K == "IDENTIFIER" {
			names[m.S] = true
		}
	})
	for _, f := range rec {
		if names[f.Name] {
			out = append(out, f)
		}
	}
	return
}

func checkEval(c evalCase, x *kit.X) error {
	t, err := build(c.Tree)
	if err != nil {
		return err
	}
	defer t.Free()
	got, gerr, err := judge(c.Tree, t, c.Rec, x)
	if err != nil {
		return err
	}
	switch {
	case gerr != nil:
		x.Label("error")
	case got == true:
		x.Label("true")
	case got == false:
		x.Label("false")
	default:
		x.Label("value %T", got)
	}
	if c.Tree.size() >= 3 && gerr == nil {
		x.NonTrivial()
	}
	x.Sample("%s on {%s}", render(nil, c.Tree), showRecord(used(c.Tree, c.Rec)))
	return nil
}

// genPair: one operator over two operands of any kinds.
func genPair(t *rapid.T) evalCase {
	rec := genRecord(t)
	operand := func() *N {
		switch rapid.IntRange(0, 9).Draw(t, "operand") {
		case 0:
			return str(genWord(t))
		case 1:
			return str(genMoment(t))
		case 2:
			return num(float64(rapid.IntRange(-3, 6).Draw(t, "lit")))
		case 3:
			return boolean(rapid.Bool().Draw(t, "lit"))
		case 4:
			a := arr()
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "len"); i < n; i++ {
				a.E = append(a.E, typed{t, 30}.scalar(scalarKinds[rapid.IntRange(0, 3).Draw(t, "elem")], 0))
			}
			return a
		case 5:
			return str(pick(t, "rareDate", "2020-02-30", "2020-99-99", "2020-02-30T00:00:00Z", "2020-01-01T99:00:00Z", "0000-01-01", "9999-12-31T23:59:59Z"))
		}
		return typed{t, 0}.odd()
	}
	switch rapid.IntRange(0, 9).Draw(t, "form") {
	case 0:
		return evalCase{un(pick(t, "un", "NOT", "NEG", "LEN", "ANY", "ALL", "SUM"), operand()), rec}
	case 1:
		return evalCase{bin("BETWEEN", operand(), arr(operand(), operand())), rec}
	case 2:
		return evalCase{bin("IS", operand(), null()), rec}
	case 3:
		return evalCase{bin("IN", operand(), operand()), rec}
	}
	return evalCase{bin(pick(t, "op", "EQ", "NE", "LT", "LE", "GT", "GE", "REQ", "RNE", "LIKE", "ILIKE", "AND", "OR", "ADD", "SUB", "MUL", "DIV", "MOD", "IN"), operand(), operand()), rec}
}

// genWild: any tree, its identifiers bound to values of any kind.
func genWild(t *rapid.T) evalCase {
	n := genTree(t, rapid.IntRange(0, 3).Draw(t, "depth"))
	c := evalCase{Tree: n}
	seen := map[string]bool{}
	n.walk(func(m *N) {
		if m.K != "IDENTIFIER" || seen[m.S] {
			return
		}
		seen[m.S] = true
		switch rapid.IntRange(0, 9).Draw(t, "bind") {
		case 0:
			return
		case 1:
			v := V{T: "arr"}
			for i, k := 0, rapid.IntRange(0, 3).Draw(t, "len"); i < k; i++ {
				v.A = append(v.A, genV(t, pick(t, "elem", "num", "bool", "str", "time", "nil")))
			}
			c.Rec = append(c.Rec, Field{m.S, v})
			return
		}
		c.Rec = append(c.Rec, Field{m.S, genV(t, pick(t, "kind", "num", "num", "bool", "bool", "bool", "str", "str", "time", "nil"))})
	})
	return c
}

// ---- C10: arrays -------------------------------------------------------------

type arrayCase struct {
	Op   string
	Elem []V // the array's elements, as record values
	Lit  []*N
	Rhs  *N
	Rec  []Field
	Neg  bool
}

func genArrayCase(t *rapid.T) arrayCase {
	kind := scalarKinds[rapid.IntRange(0, 3).Draw(t, "kind")]
	c := arrayCase{Rec: genRecord(t)}
	n := pick(t, "length", 0, 1, 1, 2, 2, 3, 3, 5, 8, 40)
	for i := 0; i < n; i++ {
		k := kind
		if chance(t, "mixed", 5) {
			k = pick(t, "otherKind", "num", "str", "bool", "time", "nil")
		}
		c.Elem = append(c.Elem, genV(t, k))
	}
	g := typed{t, 3}
	switch kind {
	case "num":
		c.Op = pick(t, "op", "EQ", "NE", "LT", "LE", "GT", "GE", "ADD", "SUB", "MUL", "DIV", "MOD", "IN", "BETWEEN")
	case "time":
		c.Op = pick(t, "op", "EQ", "NE", "LT", "LE", "GT", "GE", "IN", "BETWEEN")
	case "str":
		c.Op = pick(t, "op", "EQ", "NE", "LIKE", "ILIKE", "REQ", "RNE", "IN")
	default:
		c.Op = pick(t, "op", "EQ", "NE", "AND", "OR", "IN")
	}
	c.Neg = chance(t, "negate", 20)
	switch c.Op {
	case "IN":
		c.Rhs = g.array(kind, 0)
	case "BETWEEN":
		c.Rhs = arr(g.scalar(kind, 0), g.scalar(kind, 0))
	default:
		c.Rhs = g.scalar(kind, 1)
	}
	return c
}

func eval(n *N, rec []Field) (interface{}, error, error) {
	t, err := build(n)
	if err != nil {
		return nil, nil, err
	}
	defer t.Free()
	ev, _ := record(rec)
	v, gerr := semantics.Walk(t, ev)
	return v, gerr, nil
}

func checkArray(c arrayCase, x *kit.X) error {
	rec := append([]Field{{"arr_", V{T: "arr", A: c.Elem}}}, c.Rec...)
	mk := func(name string) *N {
		n := bin(c.Op, id(name), c.Rhs)
		if c.Neg {
			n = un("NOT", n)
		}
		return n
	}
	fail := func(what string, n *N, format string, a ...interface{}) error {
		return fmt.Errorf("%s: %s on {%s}: %s", what, cut(render(nil, n)), showRecord(used(n, rec)), fmt.Sprintf(format, a...))
	}
	// element by element
	var per []interface{}
	var perErr error
	anyTrue, allTrue, sum, numbers := false, len(c.Elem) > 0, 0.0, true
	for _, e := range c.Elem {
		v, gerr, err := eval(mk("elem_"), append([]Field{{"elem_", e}}, c.Rec...))
		if err != nil {
			return err
		}
		if gerr != nil && perErr == nil {
			perErr = gerr
		}
		per = append(per, v)
		anyTrue = anyTrue || v == true
		allTrue = allTrue && v == true
		f, ok := v.(float64)
		sum += f
		numbers = numbers && ok
	}
	if len(c.Elem) == 0 {
		// an operand that cannot be evaluated is an error, elements or not
		_, perErr, _ = eval(c.Rhs, c.Rec)
		if c.Op == "IN" || c.Op == "BETWEEN" || perErr == nil {
			_, perErr, _ = eval(c.Rhs, rec)
		}
	}
	n := mk("arr_")
	got, gerr, err := eval(n, rec)
	if err != nil {
		return err
	}
	if (gerr == nil) != (perErr == nil) {
		return fail("element-wise", n, "gives %s; an element by itself gives %s", show(got, gerr), show(nil, perErr))
	}
	if gerr != nil {
		x.Label("error")
		return nil
	}
	if per == nil {
		per = []interface{}{}
	}
	if !sameValue(got, per) {
		return fail("element-wise", n, "gives %s, the elements by themselves give %s", show(got, nil), show(per, nil))
	}
	if len(c.Elem) > 0 {
		x.LabelIf(anyTrue, "any")
		x.LabelIf(allTrue, "all")
		x.LabelIf(anyTrue && !allTrue, "some")
	}
	expect := func(m *N, want interface{}, wantErr bool) error {
		v, e, err := eval(m, rec)
		if err != nil {
			return err
		}
		if (e != nil) != wantErr || e == nil && !sameValue(v, want) {
			return fail("quantifier", m, "gives %s, wanted %s (error: %v)", show(v, e), show(want, nil), wantErr)
		}
		return nil
	}
	if err := expect(un("ANY", n), anyTrue, false); err != nil {
		return err
	}
	if err := expect(un("ALL", n), allTrue, false); err != nil {
		return err
	}
	for _, m := range []*N{id("arr_"), n} {
		if err := expect(un("LEN", m), float64(len(c.Elem)), false); err != nil {
			return err
		}
	}
	if err := expect(un("SUM", n), sum, !numbers); err != nil {
		return err
	}
	// membership in the array
	for i, e := range c.Elem {
		if e.T == "nil" || i > 5 {
			continue
		}
		r := append([]Field{{"elem_", e}}, rec...)
		v, ge, err := eval(bin("IN", id("elem_"), id("arr_")), r)
		if err != nil {
			return err
		}
		if nan := e.T != "str" && math.IsNaN(e.F); (ge != nil || v != true) && !nan {
			return fail("membership", bin("IN", id("elem_"), id("arr_")), "gives %s for the element %s", show(v, ge), show(e.Go(), nil))
		}
	}
	want := false
	for _, e := range c.Elem {
		v, ge, _ := eval(bin("EQ", c.Rhs, id("elem_")), append([]Field{{"elem_", e}}, c.Rec...))
		want = want || ge == nil && v == true
	}
	if rv, re, _ := eval(c.Rhs, c.Rec); re == nil && rv != nil && c.Rhs.K != "ARRAY" {
		if _, isArr := rv.([]interface{}); !isArr {
			if err := expect(bin("IN", c.Rhs, id("arr_")), want, false); err != nil {
				return err
			}
		}
	}
	if len(c.Elem) >= 1 {
		x.NonTrivial()
	}
	x.Sample("%s on {%s}", render(nil, n), showRecord(used(n, rec)))
	return nil
}

// ---- C11: patterns -----------------------------------------------------------

type patternCase struct {
	Op    string
	Text  kit.Str
	Pat   kit.Str
	Place int           // 1: pattern in a field, 2: text a literal
	Then  []patternCase `json:",omitempty"` // judged after this one, then this one again
}

var patParts = []string{"%", "%", "_", "_", "a", "a", "b", "B", ".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "^", "$", "|", "\\", "\n", " ", "é", "É", "日", "-", "%%", "_%", "ab", "A", "0", "'", "\"", "\\d", "(?i)", "\\%", "\r"}
var textParts = []string{"a", "a", "b", "B", ".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "^", "$", "|", "\\", "\n", " ", "é", "É", "日", "-", "ab", "A", "0", "'", "\"", "%", "_", "\r", "d"}
var rePartsOK = []string{"a", "b", ".", "a*", "b+", "é", "(a|b)", "[a-c]", "[^a]", "^", "$", "\\.", "\\d", "ab?", "a{2}", "\n", "(?i)B", "x|y", "\\bab", "(?s).", ".*"}
var rePartsBad = []string{"(", ")", "[", "*", "+?+", "\\", "a{2,1}", "(?P<", "[z-a]", "\\8", "(?<n>a)(?<n>b)"}

func parts(t *rapid.T, name string, pool []string, max int) string {
	var b strings.Builder
	for i, n := 0, rapid.IntRange(0, max).Draw(t, name+"Len"); i < n; i++ {
		b.WriteString(pool[rapid.IntRange(0, len(pool)-1).Draw(t, name)])
	}
	return b.String()
}

// genPatterns draws a pattern, at times followed by one much like it.
func genPatterns(t *rapid.T) patternCase {
	c := genPattern(t)
	if !chance(t, "then", 20) {
		return c
	}
	if c.Op == "LIKE" || c.Op == "ILIKE" {
		if n := pick(t, "lengthen", 0, 0, 0, 2, 6, 20); n > 0 {
			c.Text += kit.Str(strings.Repeat("a", n))
			c.Pat += kit.Str(strings.Repeat("a", n))
		}
	}
	d := c
	if chance(t, "otherOp", 30) {
		d.Op = pick(t, "op", "LIKE", "ILIKE", "REQ", "RNE")
	} else {
		d.Pat = kit.Str(kit.Sibling(t, string(c.Pat)))
	}
	if chance(t, "otherText", 40) {
		d.Text = kit.Str(kit.Sibling(t, string(c.Text)))
	}
	c.Then = []patternCase{d}
	return c
}

func checkPatterns(c patternCase, x *kit.X) error {
	if err := checkPattern(c, x); err != nil || len(c.Then) == 0 {
		return err
	}
	quiet := &kit.X{}
	for _, d := range append(append([]patternCase{}, c.Then...), c) {
		if err := checkPattern(d, quiet); err != nil {
			return fmt.Errorf("%v (after %q %s %q)", err, c.Text, c.Op, c.Pat)
		}
	}
	x.Label("followed by a similar one")
	return nil
}

func genPattern(t *rapid.T) patternCase {
	c := patternCase{Op: pick(t, "op", "LIKE", "ILIKE", "REQ", "RNE"), Place: rapid.IntRange(0, 3).Draw(t, "place")}
	if c.Op == "LIKE" || c.Op == "ILIKE" {
		text := parts(t, "text", textParts, 7)
		if chance(t, "long", 1) {
			text = strings.Repeat(text, pick(t, "longTo", 5, 20, 70, 200))
		}
		c.Text = kit.Str(text)
		if chance(t, "derived", 65) { // a pattern made from the text, often one that matches
			var b strings.Builder
			for _, ch := range kit.Chars(text) {
				switch rapid.IntRange(0, 9).Draw(t, "keep") {
				case 0, 1:
					b.WriteString("_")
				case 2:
					b.WriteString("%")
				case 3:
					b.WriteString(ch + "%")
				case 4:
					b.WriteString(strings.ToUpper(ch))
				case 5:
					if chance(t, "spoil", 30) {
						b.WriteString("x")
						continue
					}
					b.WriteString(ch)
				default:
					b.WriteString(ch)
				}
			}
			c.Pat = kit.Str(b.String())
			if chance(t, "prefix", 20) {
				c.Pat = "%" + c.Pat
			}
		} else {
			c.Pat = kit.Str(parts(t, "pat", patParts, 6))
		}
		return c
	}
	c.Text = kit.Str(parts(t, "text", textParts, 6))
	c.Pat = kit.Str(parts(t, "re", rePartsOK, 4))
	if chance(t, "invalid", 15) {
		c.Pat += kit.Str(parts(t, "reBad", rePartsBad, 2))
	}
	return c
}

func checkPattern(c patternCase, x *kit.X) error {
	for _, s := range []string{string(c.Text), string(c.Pat)} {
		if _, ok := instant(s); ok {
			x.Exclude()
			return nil
		}
	}
	l, r := id("x"), str(string(c.Pat))
	if c.Place&1 != 0 {
		r = id("p")
	}
	if c.Place&2 != 0 {
		l = str(string(c.Text))
	}
	rec := []Field{{"x", V{T: "str", S: c.Text}}, {"p", V{T: "str", S: c.Pat}}}
	n := bin(c.Op, l, r)
	var want, bad bool
	switch c.Op {
	case "LIKE", "ILIKE":
		want = kit.Like(string(c.Text), string(c.Pat), c.Op == "ILIKE")
	default:
		re, err := regexp.Compile(string(c.Pat))
		bad = err != nil
		want = !bad && re.MatchString(string(c.Text)) == (c.Op == "REQ")
	}
	for _, neg := range []bool{false, true} {
		m := n
		if neg {
			m = un("NOT", n)
		}
		v, ge, err := eval(m, rec)
		if err != nil {
			return err
		}
		if bad != (ge != nil) || !bad && v != (want != neg) {
			return fmt.Errorf("%q %s %q (not: %v) gives %s, wanted %v (error: %v)", c.Text, c.Op, c.Pat, neg, show(v, ge), want != neg, bad)
		}
	}
	switch {
	case bad:
		x.Label("%s invalid", c.Op)
	default:
		x.Label("%s %v", c.Op, want)
	}
	if len(c.Text) >= 2 && len(c.Pat) >= 2 && !bad {
		x.NonTrivial()
	}
	x.Sample("%q %s %q", c.Text, c.Op, c.Pat)
	return nil
}

// ---- C12: instants -----------------------------------------------------------

// moment is an instant and how it is written.
type moment struct {
	Sec  int64 // since 1970
	Nano int64
	Off  int // minutes east
	As   int // 0 literal, 1 Go time field, 2 string field
	Date bool
}

func (m moment) text() string {
	t := time.Unix(m.Sec, m.Nano).In(time.FixedZone("", m.Off*60))
	if m.Date {
		return t.UTC().Format("2006-01-02")
	}
	s := t.Format("2006-01-02T15:04:05")
	if m.Nano != 0 {
		s += strings.TrimRight(fmt.Sprintf(".%09d", m.Nano), "0")
	}
	if m.Off == 0 {
		return s + "Z"
	}
	sign, o := "+", m.Off
	if o < 0 {
		sign, o = "-", -o
	}
	return s + sign + d2(o/60) + ":" + d2(o%60)
}

type momentCase struct {
	M []moment
}

func genMoments(t *rapid.T) momentCase {
	var c momentCase
	base := rapid.Int64Range(-62000000000, 253000000000).Draw(t, "base")
	if chance(t, "modern", 70) {
		base = rapid.Int64Range(1500000000, 1700000000).Draw(t, "modern")
	}
	base -= ((base % 86400) + 86400) % 86400
	for i := 0; i < 3; i++ {
		m := moment{Sec: base, Off: pick(t, "off", 0, 0, 60, -60, 330, -480, 840, -720, 345), As: rapid.IntRange(0, 2).Draw(t, "as")}
		switch rapid.IntRange(0, 4).Draw(t, "near") {
		case 0: // midnight
		case 1:
			m.Sec += rapid.Int64Range(-90000, 90000).Draw(t, "delta")
		case 2:
			m.Sec += 3600 * rapid.Int64Range(-3, 3).Draw(t, "hours")
		case 3:
			m.Nano = pick(t, "nano", int64(1), 1000, 500000000, 999999999, 120000000)
		case 4:
			m.Sec += 86400 * rapid.Int64Range(-1, 1).Draw(t, "days")
		}
		if m.Nano == 0 && m.Sec%86400 == 0 && chance(t, "asDate", 40) {
			m.Date, m.Off = true, 0
			if m.As == 1 {
				m.As = 2
			}
		}
		c.M = append(c.M, m)
	}
	return c
}

func (m moment) cmp(o moment) int {
	switch {
	case m.Sec < o.Sec || m.Sec == o.Sec && m.Nano < o.Nano:
		return -1
	case m.Sec == o.Sec && m.Nano == o.Nano:
		return 0
	}
	return 1
}

func checkMoments(c momentCase, x *kit.X) error {
	var rec []Field
	var ns []*N
	for i, m := range c.M {
		s := m.text()
		name := fmt.Sprintf("d%d", i)
		switch m.As {
		case 0:
			ns = append(ns, str(s))
			continue
		case 1:
			rec = append(rec, Field{name, V{T: "time", S: kit.Str(s)}})
		default:
			rec = append(rec, Field{name, V{T: "str", S: kit.Str(s)}})
		}
		ns = append(ns, id(name))
	}
	expect := func(n *N, want bool) error {
		v, ge, err := eval(n, rec)
		if err != nil {
			return err
		}
		if ge != nil || v != want {
			return fmt.Errorf("%s on {%s} gives %s, wanted %v", render(nil, n), showRecord(rec), show(v, ge), want)
		}
		return nil
	}
	for i, a := range c.M {
		for j, b := range c.M {
			k := a.cmp(b)
			for op, want := range map[string]bool{"EQ": k == 0, "NE": k != 0, "LT": k < 0, "LE": k <= 0, "GT": k > 0, "GE": k >= 0} {
				if err := expect(bin(op, ns[i], ns[j]), want); err != nil {
					return err
				}
			}
		}
	}
	a, b, m := c.M[0], c.M[1], c.M[2]
	if err := expect(bin("BETWEEN", ns[2], arr(ns[0], ns[1])), a.cmp(m) <= 0 && m.cmp(b) <= 0); err != nil {
		return err
	}
	if err := expect(bin("IN", ns[2], arr(ns[0], ns[1])), a.cmp(m) == 0 || m.cmp(b) == 0); err != nil {
		return err
	}
	equal := a.cmp(b) == 0 || a.cmp(m) == 0 || b.cmp(m) == 0
	x.LabelIf(equal, "equal instants")
	x.LabelIf(equal && (a.text() != b.text() || a.text() != m.text()), "equal instants, different spelling")
	if a != b && b != m && a != m {
		x.NonTrivial()
	}
	x.Sample("%s, %s, %s", a.text(), b.text(), m.text())
	return nil
}

// C12/invalid: literals of date shape that are no calendar dates
func checkInvalidMoment(c evalCase, x *kit.X) error {
	return checkEval(c, x)
}

func genInvalidMoment(t *rapid.T) evalCase {
	rec := genRecord(t)
	g := typed{t, 0}
	badLit := func() *N {
		if chance(t, "stamp", 50) {
			return str(genStampText(t))
		}
		return str(genDateText(t))
	}
	a, b := badLit(), g.scalar(pick(t, "other", "time", "time", "str", "num"), 0)
	if chance(t, "both", 25) {
		b = badLit()
	}
	if chance(t, "same", 15) {
		b = a
	}
	if chance(t, "swap", 50) {
		a, b = b, a
	}
	switch rapid.IntRange(0, 3).Draw(t, "form") {
	case 0:
		return evalCase{bin("IN", a, arr(b, badLit())), rec}
	case 1:
		return evalCase{bin("BETWEEN", a, arr(b, badLit())), rec}
	}
	return evalCase{bin(pick(t, "op", "EQ", "NE", "LT", "LE", "GT", "GE"), a, b), rec}
}

// ---- C13: totality, purity, laws ---------------------------------------------

type oddCase struct {
	Tree *N
	Cuts []int
	Rec  []Field
}

func genOdd(t *rapid.T) oddCase {
	c := oddCase{Tree: genTree(t, rapid.IntRange(1, 4).Draw(t, "depth")), Cuts: genCuts(t, 40)}
	if chance(t, "typedTree", 50) {
		c.Tree = stretch(t, typed{t, 10}.cond(rapid.IntRange(0, 3).Draw(t, "depth")), 6, true)
	}
	seen := map[string]bool{}
	var v func(d int) V
	v = func(d int) V {
		switch rapid.IntRange(0, 5).Draw(t, "bind") {
		case 0:
			return genV(t, pick(t, "kind", "num", "bool", "str", "time", "nil"))
		case 1:
			return V{T: pick(t, "bigNum", "float64", "float32"), F: pick(t, "big", 1e308, -1e308, 1e19, 9.3e18, 5e-324, 0.5, -0.5)}
		case 2:
			if d > 0 {
				a := V{T: "arr"}
				for i, n := 0, rapid.IntRange(0, 3).Draw(t, "len"); i < n; i++ {
					a.A = append(a.A, v(d-1))
				}
				return a
			}
		}
		return V{T: oddTypes[rapid.IntRange(0, len(oddTypes)-1).Draw(t, "odd")]}
	}
	c.Tree.walk(func(m *N) {
		if m.K != "IDENTIFIER" || seen[m.S] {
			return
		}
		seen[m.S] = true
		if chance(t, "missing", 8) {
			return
		}
		c.Rec = append(c.Rec, Field{m.S, v(2)})
	})
	return c
}

func checkOdd(c oddCase, x *kit.X) error {
	model := c.Tree.clone()
	t, err := build(model)
	if err != nil {
		return err
	}
	defer t.Free()
	if err := cutTree(model, t, c.Cuts); err != nil {
		return err
	}
	names := map[string]bool{}
	model.walk(func(m *N) {
		if m.K == "IDENTIFIER" {
			names[m.S] = true
		}
	})
	vals := map[string]interface{}{}
	for _, f := range c.Rec {
		vals[f.Name] = f.V.Go()
	}
	before := fmt.Sprintf("%#v", vals)
	run := func() (interface{}, error, error) {
		var stray string
		v, e := semantics.Walk(t, func(k string) (interface{}, bool) {
			if !names[k] {
				stray = k
			}
			v, ok := vals[k]
			return v, ok
		})
		if stray != "" {
			return nil, nil, fmt.Errorf("%v: asked for %q, which the phrase does not name", model, stray)
		}
		return v, e, nil
	}
	v1, e1, err := run()
	if err != nil {
		return err
	}
	v2, e2, err := run()
	if err != nil {
		return err
	}
	if (e1 == nil) != (e2 == nil) || e1 == nil && !sameValue(v1, v2) || e1 != nil && e1.Error() != e2.Error() {
		if e1 == nil || !strings.Contains(e1.Error(), "0x") { // addresses inside messages may differ
			return fmt.Errorf("%v gives %s, then %s", model, show(v1, e1), show(v2, e2))
		}
	}
	if got := fromTSL(t); !equalN(got, model) {
		return fmt.Errorf("evaluating changed the tree to\n  %v\nfrom\n  %v", got, model)
	}
	if now := fmt.Sprintf("%#v", vals); now != before {
		return fmt.Errorf("%v: evaluating changed a record value from %s to %s", model, cut(before), cut(now))
	}
	x.LabelIf(e1 != nil, "error")
	x.LabelIf(len(c.Cuts) > 0, "edited")
	if len(c.Rec) > 0 || len(c.Cuts) > 0 {
		x.NonTrivial()
	}
	return nil
}

type lawCase struct {
	P, Q    *N
	X, A, B *N
	Rec     []Field
}

func genLaw(t *rapid.T) lawCase {
	g := typed{t, 4}
	kind := scalarKinds[rapid.IntRange(0, 3).Draw(t, "kind")]
	return lawCase{P: g.cond(rapid.IntRange(0, 2).Draw(t, "dp")), Q: g.cond(rapid.IntRange(0, 2).Draw(t, "dq")),
		X: g.scalar(kind, 1), A: g.scalar(kind, 1), B: g.scalar(kind, 1), Rec: genRecord(t)}
}

func checkLaw(c lawCase, x *kit.X) error {
	scalar := func(v interface{}) bool {
		_, isArr := v.([]interface{})
		return !isArr
	}
	P, Q, X, A, B := c.P, c.Q, c.X, c.A, c.B
	vals := map[string]interface{}{}
	errs := map[string]error{}
	for k, n := range map[string]*N{"P": P, "Q": Q, "X": X, "A": A, "B": B} {
		v, ge, err := eval(n, c.Rec)
		if err != nil {
			return err
		}
		vals[k], errs[k] = v, ge
	}
	same := func(law string, l, r *N) error {
		v1, e1, err := eval(l, c.Rec)
		if err != nil {
			return err
		}
		v2, e2, err := eval(r, c.Rec)
		if err != nil {
			return err
		}
		if (e1 == nil) != (e2 == nil) || e1 == nil && !sameValue(v1, v2) {
			return fmt.Errorf("%s: on {%s}\n  %s gives %s, but\n  %s gives %s", law, showRecord(used(bin("AND", l, r), c.Rec)), cut(render(nil, l)), show(v1, e1), cut(render(nil, r)), show(v2, e2))
		}
		return nil
	}
	not := func(n *N) *N { return un("NOT", n) }
	type law struct {
		name string
		l, r *N
	}
	laws := []law{}
	if scalar(vals["P"]) && scalar(vals["Q"]) {
		laws = append(laws,
			law{"De Morgan (and)", not(bin("AND", P, Q)), bin("OR", not(P), not(Q))},
			law{"De Morgan (or)", not(bin("OR", P, Q)), bin("AND", not(P), not(Q))},
			law{"commutative and", bin("AND", P, Q), bin("AND", Q, P)},
			law{"commutative or", bin("OR", P, Q), bin("OR", Q, P)},
			law{"distributive", bin("AND", P, bin("OR", Q, P)), bin("OR", bin("AND", P, Q), bin("AND", P, P))},
			law{"associative and", bin("AND", P, bin("AND", Q, P)), bin("AND", bin("AND", P, Q), P)},
			law{"associative or", bin("OR", P, bin("OR", Q, P)), bin("OR", bin("OR", P, Q), P)})
		if errs["P"] == nil {
			if _, isBool := vals["P"].(bool); isBool {
				laws = append(laws, law{"double negation", not(not(P)), P}, law{"idempotent and", bin("AND", P, P), P}, law{"idempotent or", bin("OR", P, P), P})
			}
		}
	}
	if scalar(vals["X"]) && scalar(vals["A"]) && scalar(vals["B"]) {
		laws = append(laws,
			law{"commutative =", bin("EQ", X, A), bin("EQ", A, X)},
			law{"!= negates =", bin("NE", X, A), not(bin("EQ", X, A))},
			law{"> mirrors <", bin("GT", X, A), bin("LT", A, X)},
			law{">= mirrors <=", bin("GE", X, A), bin("LE", A, X)},
			law{"~! negates ~=", bin("RNE", X, A), not(bin("REQ", X, A))})
		ok := errs["X"] == nil && errs["A"] == nil && errs["B"] == nil
		if ok && vals["X"] != nil && vals["A"] != nil && vals["B"] != nil {
			le := bin("OR", bin("LT", X, A), bin("EQ", X, A))
			laws = append(laws,
				law{"in as equalities", bin("IN", X, arr(A, B)), bin("OR", bin("EQ", X, A), bin("EQ", X, B))},
				law{"<= as < or =", bin("LE", X, A), le},
				law{"> negates <=", bin("GT", X, A), not(bin("LE", X, A))},
				law{"between as comparisons", bin("BETWEEN", X, arr(A, B)), bin("AND", bin("GE", X, A), bin("LE", X, B))})
		}
	}
	for _, l := range laws {
		if err := same(l.name, l.l, l.r); err != nil {
			return err
		}
	}
	x.LabelIf(errs["P"] != nil, "P fails")
	if len(laws) > 10 {
		x.NonTrivial()
	}
	x.Sample("P: %s; Q: %s; X, A, B: %s; %s; %s", render(nil, P), render(nil, Q), render(nil, X), render(nil, A), render(nil, B))
	return nil
}

func init() {
	evalRule := "non-trivial: at least 3 tree nodes and a value (no error)"
	kit.Register("C09/typed", "a mostly well-typed condition (0-4 levels) over a record with fields of every kind, Go numeric types mixed, nil, missing and array fields; "+evalRule,
		func(t *rapid.T) evalCase {
			bad := pick(t, "badness", 0, 0, 3, 10)
			c := evalCase{Rec: genRecord(t)}
			c.Tree = stretch(t, typed{t, bad}.cond(rapid.IntRange(0, 4).Draw(t, "depth")), 6, false)
			nearRecord(t, &c)
			return c
		}, checkEval)
	kit.Register("C09/pair", "one operator over operands of any two kinds (literal, field, nil, missing, array, calendar-invalid date); "+evalRule, genPair, checkEval)
	kit.Register("C09/wild", "any tree of the language, identifiers bound to values of any kind; "+evalRule, genWild, checkEval)
	kit.Register("C10/elements", "an array of 0-40 elements (any Go numeric type, strings, booleans, times, some mixed) under an operator; compared with the same phrase on each element, then under ANY, ALL, LEN, SUM and IN; non-trivial: the array is not empty and no error", genArrayCase, checkArray)
	kit.Register("C10/typed", "a condition over arrays: quantifiers, nested broadcasts, list literals; "+evalRule,
		func(t *rapid.T) evalCase {
			g := typed{t, pick(t, "badness", 0, 5)}
			c := evalCase{Rec: genRecord(t)}
			d := rapid.IntRange(0, 3).Draw(t, "depth")
			switch rapid.IntRange(0, 4).Draw(t, "form") {
			case 0:
				c.Tree = un(pick(t, "quant", "ANY", "ALL"), g.array("bool", d))
			case 1:
				c.Tree = un("SUM", g.array("num", d))
			case 2:
				c.Tree = un("LEN", g.array(scalarKinds[rapid.IntRange(0, 3).Draw(t, "kind")], d))
			case 3:
				c.Tree = g.array(scalarKinds[rapid.IntRange(0, 3).Draw(t, "kind")], d)
			default:
				k := pick(t, "member", "num", "num", "str")
				c.Tree = bin("IN", g.scalar(k, d), g.array(k, d))
			}
			nearRecord(t, &c)
			return c
		}, checkEval)
	kit.Register("C11/pattern", "a text and a pattern (regexp metacharacters, newlines, non-ASCII; most LIKE patterns derived from the text), as literal or field, one in five followed by a pattern much like it and by itself again; non-trivial: both at least 2 bytes and the pattern valid", genPatterns, checkPatterns)
	kit.Register("C12/instants", "three instants near each other, each written as date, Z or offset timestamp with 0-9 fraction digits, as literal, Go time or string field; all six comparisons of all pairs, BETWEEN and IN; non-trivial: three different moments or spellings", genMoments, checkMoments)
	kit.Register("C12/invalid", "comparisons, IN and BETWEEN with date- and timestamp-shaped literals, calendar-valid or not; "+evalRule, genInvalidMoment, checkInvalidMoment)
	kit.Register("C13/odd", "any tree, with 0-3 operands detached, on a record of odd Go values (maps, slices, structs, functions, channels, pointers, NaN, Inf, huge numbers, nested arrays); walked twice; non-trivial: some field is set or an operand is detached", genOdd, checkOdd)
	kit.Register("C13/laws", "conditions P, Q and operands X, A, B on one record; up to 19 laws; non-trivial: more than 10 laws apply", genLaw, checkLaw)
}
