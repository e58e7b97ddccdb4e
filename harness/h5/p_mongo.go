package main

import (
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- the meaning of a filter document --------------------------------------------

type document map[string]interface{} // flat: by field path

// matches evaluates a filter as the MongoDB manual describes the operators. Only
// the operators a filter of this package needs are known.
func matches(f bson.D, d document) bool {
	ok := true
	for _, e := range f {
		ok = clause(e, d) && ok // judge all of it, to find what is malformed
	}
	return ok
}

type malformed struct{ error }

func bad(form string, args ...interface{}) bool { panic(malformed{fmt.Errorf(form, args...)}) }

func clause(e bson.E, d document) bool {
	switch e.Key {
	case "$and", "$or", "$nor":
		a, ok := e.Value.(bson.A)
		if !ok || len(a) == 0 {
			return bad("%s of %v", e.Key, e.Value)
		}
		some, all := false, true
		for _, x := range a {
			f, ok := x.(bson.D)
			if !ok {
				return bad("%s of a %T", e.Key, x)
			}
			m := matches(f, d)
			some, all = some || m, all && m
		}
		return e.Key == "$and" && all || e.Key == "$or" && some || e.Key == "$nor" && !some
	}
	if e.Key == "" || e.Key[0] == '$' {
		return bad("field %q", e.Key)
	}
	v, has := d[e.Key]
	ops, isOps := e.Value.(bson.D)
	if isOps && len(ops) > 0 && strings.HasPrefix(ops[0].Key, "$") {
		ok := true
		for _, op := range ops {
			ok = operator(op, v, has) && ok
		}
		return ok
	}
	return operator(bson.E{Key: "$eq", Value: e.Value}, v, has)
}

func operator(op bson.E, v interface{}, has bool) bool {
	if re, ok := op.Value.(primitive.Regex); ok && op.Key == "$eq" {
		op.Key = "$regex"
		op.Value = re
	}
	switch op.Key {
	case "$exists":
		b, ok := op.Value.(bool)
		if !ok {
			return bad("$exists %v", op.Value)
		}
		return has == b
	case "$eq", "$lt", "$lte", "$gt", "$gte":
		if !has {
			return op.Value == nil
		}
		return ordered(op.Key, v, op.Value)
	case "$ne":
		return !operator(bson.E{Key: "$eq", Value: op.Value}, v, has)
	case "$not":
		if re, ok := op.Value.(primitive.Regex); ok {
			return !operator(bson.E{Key: "$regex", Value: re}, v, has)
		}
		f, ok := op.Value.(bson.D)
		if !ok || len(f) == 0 {
			return bad("$not %v", op.Value)
		}
		all := true
		for _, o := range f {
			all = operator(o, v, has) && all
		}
		return !all
	case "$in", "$nin":
		a, ok := op.Value.(bson.A)
		if !ok {
			return bad("%s %v", op.Key, op.Value)
		}
		hit := false
		for _, x := range a {
			if f, ok := x.(bson.D); ok && len(f) > 0 && strings.HasPrefix(f[0].Key, "$") {
				return bad("%s of %v", op.Key, x)
			}
			hit = hit || operator(bson.E{Key: "$eq", Value: x}, v, has)
		}
		return hit == (op.Key == "$in")
	case "$regex":
		var p, o string
		switch re := op.Value.(type) {
		case primitive.Regex:
			p, o = re.Pattern, re.Options
		case string:
			p = re
		default:
			return bad("$regex %v", op.Value)
		}
		if o != "" {
			p = "(?" + o + ")" + p
		}
		c, err := regexp.Compile(p)
		s, ok := v.(string)
		return err == nil && has && ok && c.MatchString(s)
	}
	return bad("operator %q", op.Key)
}

// ordered compares values of one type; values of two types never match.
func ordered(op string, v, w interface{}) bool {
	c := 2
	sign := func(lt, gt bool) {
		c = 0
		if lt {
			c = -1
		} else if gt {
			c = 1
		}
	}
	if x, ok := number(v); ok {
		if y, ok := number(w); ok {
			sign(x < y, x > y)
		}
	}
	switch x := v.(type) {
	case string:
		if y, ok := w.(string); ok {
			sign(x < y, x > y)
		}
	case bool:
		if y, ok := w.(bool); ok {
			sign(!x && y, x && !y)
		}
	case primitive.DateTime:
		if y, ok := w.(primitive.DateTime); ok {
			sign(x < y, x > y)
		}
	}
	switch op {
	case "$eq":
		return c == 0
	case "$lt":
		return c == -1
	case "$lte":
		return c == -1 || c == 0
	case "$gt":
		return c == 1
	}
	return c == 1 || c == 0
}

func number(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case int32:
		return float64(x), true
	case int64:
		return float64(x), true
	}
	return 0, false
}

// ---- C24 ---------------------------------------------------------------------------

// inMongo tells whether a filter can say what a tree says.
func inMongo(n *T) bool {
	switch n.F {
	case "and", "or":
		return inMongo(n.L) && inMongo(n.R)
	}
	if n.F == "not" || n.F == "like" || n.F == "ilike" || n.L.F != "ident" || n.L.S == "" || n.L.S[0] == '$' {
		return false
	}
	if n.R == nil {
		return true
	}
	if n.R.F == "array" {
		for _, e := range n.R.E {
			if e.F != "string" && e.F != "number" {
				return false
			}
		}
		return true
	}
	return n.R.leaf() && n.R.F != "ident"
}

type mongoCase struct {
	Tree *T
	Recs []Record
}

var mongoWords = []string{"", "a", "b", "ab", "A", "a.b", "$gt", "$n", "{$ne: 1}", "{\"$gt\": \"\"}", "$where", "true", "null", "5", "é", "a\nb", "日", "$", "[]"}

type mongoCond struct{ t *rapid.T }

func (g mongoCond) word() string {
	if chance(g.t, "anyWord", 10) {
		return genString(g.t)
	}
	return mongoWords[upto(g.t, "word", len(mongoWords)-1)]
}

var mongoDates = []string{"2020-01-01", "2020-01-01T00:00:00Z", "2020-01-01T02:00:00+02:00", "2020-01-01T00:00:00.5Z", "2020-01-01T00:00:00.001Z", "2019-12-31T23:59:59.999Z", "2020-01-02", "2020-02-29", "1969-12-31T23:59:59Z"}

func (g mongoCond) date() string { return mongoDates[upto(g.t, "date", len(mongoDates)-1)] }

func (g mongoCond) lit(kind string) *T {
	switch kind {
	case "num":
		return num(someNumber(g.t))
	case "bool":
		return boolean(rapid.Bool().Draw(g.t, "lit"))
	case "time":
		return date(g.date())
	}
	return str(g.word())
}

func (g mongoCond) cond(d int) *T {
	if d > 0 && chance(g.t, "logic", 75) {
		return bin(pick(g.t, "op", "and", "or"), g.cond(d-1), g.cond(d-1))
	}
	kind := pick(g.t, "kind", "num", "num", "str", "str", "bool", "time")
	if V == 4 && (kind == "bool" || kind == "time") {
		kind = "num"
	}
	fields := map[string][]string{"num": {"n", "m"}, "str": {"s", "u", "t.s"}, "bool": {"b", "c"}, "time": {"d", "e"}}[kind]
	l := id(fields[upto(g.t, "field", len(fields)-1)])
	switch f := upto(g.t, "form", 7); {
	case f == 0:
		return &T{F: pick(g.t, "null", "exists", "nexists"), L: l}
	case f <= 2 && (kind == "num" || kind == "str"):
		n := bin(pick(g.t, "in", "in", "nin"), l, list())
		for i := upto(g.t, "len", 4); i > 0; i-- {
			n.R.E = append(n.R.E, g.lit(kind))
		}
		return n
	case f == 3 && (kind == "num" || kind == "str"):
		return bin(pick(g.t, "between", "between", "nbetween"), l, list(g.lit(kind), g.lit(kind)))
	case f >= 6 && kind == "str":
		return bin(pick(g.t, "re", "regex", "nregex"), l, str(someRegex(g.t)))
	case kind == "bool":
		return bin(pick(g.t, "eq", "eq", "ne"), l, g.lit(kind))
	}
	return bin(pick(g.t, "cmp", cmpNames...), l, g.lit(kind))
}

func genMongo(t *rapid.T) mongoCase {
	g := mongoCond{t}
	c := mongoCase{Tree: stretch(t, g.cond(upto(t, "depth", 4)), 8, false)}
	strict := map[string]bool{} // fields a missing value of which the two sides treat alike
	for _, k := range []string{"n", "m", "s", "u", "t.s", "b", "c", "d", "e"} {
		strict[k] = true
	}
	c.Tree.walk(func(n *T) {
		if n.F == "ne" || n.F == "nin" || n.F == "nregex" {
			strict[string(n.L.S)] = false
		}
	})
	for i := 1 + upto(t, "records", 5); i > 0; i-- {
		r := Record{}
		for _, k := range []string{"n", "m", "s", "u", "t.s", "b", "c", "d", "e"} {
			if strict[k] && chance(t, "missing", 20) {
				continue
			}
			switch kinds[k] {
			case "num":
				r[k] = Val{K: "float64", F: someNumber(t)}
				if chance(t, "whole", 30) {
					r[k] = Val{K: pick(t, "int", "int32", "int64"), I: int64(rapid.IntRange(-3, 4).Draw(t, "i"))}
				}
			case "str":
				r[k] = Val{K: "string", S: kit.Str(g.word())}
			case "bool":
				r[k] = Val{K: "bool", B: rapid.Bool().Draw(t, "b")}
			case "time":
				r[k] = Val{K: "time", S: kit.Str(g.date())}
			}
			if V == 4 && kinds[k] == "bool" || V == 4 && kinds[k] == "time" {
				delete(r, k)
			}
		}
		c.Recs = append(c.Recs, r)
	}
	near(t, c.Tree, c.Recs...)
	return c
}

// filter gives the filter as a server would receive it.
func filter(n *T) (f bson.D, refused error, err error) {
	phrase := render(nil, n)
	t, m, err := parse(phrase)
	if err != nil {
		return nil, nil, fmt.Errorf("%q: %v", phrase, err)
	}
	if !same(t, n) {
		return nil, nil, fmt.Errorf("%q parses to %v", phrase, t)
	}
	before := copyNode(m)
	b, refused := mongo.Walk(m)
	if !unchanged(before, m) {
		return nil, nil, fmt.Errorf("%q: the walk changes the tree", phrase)
	}
	if refused != nil {
		return nil, refused, nil
	}
	raw, err := bson.Marshal(b)
	if err == nil {
		err = bson.Unmarshal(raw, &f)
	}
	if err != nil {
		err = fmt.Errorf("%q: filter %v is no BSON: %v", phrase, b, err)
	}
	return f, nil, err
}

func checkMongo(c mongoCase, x *kit.X) error {
	phrase := render(nil, c.Tree)
	_, m, err := parse(phrase)
	if err != nil {
		return fmt.Errorf("%q: %v", phrase, err)
	}
	nul := false
	c.Tree.walk(func(n *T) { // BSON has no names and patterns with a NUL
		nul = nul || n.F == "ident" && strings.Contains(string(n.S), "\x00")
		nul = nul || (n.F == "regex" || n.F == "nregex") && n.R.F == "string" && strings.Contains(string(n.R.S), "\x00")
	})
	if nul {
		x.Exclude()
		return nil
	}
	f, refused, err := filter(c.Tree)
	if err != nil {
		return err
	}
	if (refused == nil) != inMongo(c.Tree) {
		return fmt.Errorf("%q: filter %v, error %v, wanted an error: %v", phrase, f, refused, !inMongo(c.Tree))
	}
	if refused != nil {
		x.Label("refused")
		return nil
	}
	c.Tree.walk(func(n *T) { x.LabelIf(!n.leaf(), n.F) })
	yes := 0
	judged := 0
	for _, r := range c.Recs {
		d := document{}
		for k := range r {
			v, _ := r.eval(k)
			if t, ok := v.(time.Time); ok {
				v = primitive.NewDateTimeFromTime(t)
			}
			d[k] = v
		}
		want, err := semantics.Walk(m, r.eval)
		got, form := match(f, d)
		if form != nil {
			return fmt.Errorf("%q: filter %v: %v", phrase, f, form)
		}
		if err != nil {
			x.Label("error in memory")
			continue
		}
		judged++
		if got != want {
			return fmt.Errorf("%q on %v: the filter %v says %v, the evaluator %v", phrase, r, f, got, want)
		}
		if got {
			yes++
		}
	}
	if yes > 0 && yes < judged {
		x.NonTrivial()
	}
	x.Sample("%s: %v", phrase, f)
	return nil
}

func match(f bson.D, d document) (ok bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			m, isForm := r.(malformed)
			if !isForm {
				panic(r)
			}
			err = m.error
		}
	}()
	return matches(f, d), nil
}

func init() {
	register("C24/match", "a phrase of the supported operators (0-4 levels), strings rich in MongoDB syntax, 1-6 records with missing fields where both sides have one meaning for them; the filter, through BSON, is evaluated by an own evaluator of the operators and compared with the in-memory evaluator; non-trivial: some records match and some do not", genMongo, checkMongo)
	register("C24/list", "IN and NOT IN with a list of numbers and texts, spelled alike at times, and records with a value near one of them; the filter matches exactly the values in the list; non-trivial: the list has both kinds",
		func(t *rapid.T) mongoCase {
			g := mongoCond{t}
			n := bin(pick(t, "in", "in", "nin"), id("n"), list())
			vals := []interface{}{}
			for i := 1 + upto(t, "len", 5); i > 0; i-- {
				f := someNumber(t)
				switch upto(t, "kind", 3) {
				case 0:
					n.R.E = append(n.R.E, num(f))
				case 1:
					n.R.E = append(n.R.E, str(fmt.Sprint(f)))
				case 2:
					n.R.E = append(n.R.E, num(f), str(fmt.Sprint(f)))
				case 3:
					n.R.E = append(n.R.E, g.lit("str"))
				}
				vals = append(vals, f, fmt.Sprint(f))
			}
			c := mongoCase{Tree: n}
			for i := 1 + upto(t, "records", 3); i > 0; i-- {
				switch v := vals[upto(t, "of", len(vals)-1)].(type) {
				case float64:
					c.Recs = append(c.Recs, Record{"n": Val{K: "float64", F: v}})
				case string:
					c.Recs = append(c.Recs, Record{"n": Val{K: "string", S: kit.Str(v)}})
				}
			}
			return c
		}, func(c mongoCase, x *kit.X) error {
			f, refused, err := filter(c.Tree)
			if err == nil && refused != nil {
				err = fmt.Errorf("%v: %v", c.Tree, refused)
			}
			if err != nil {
				return err
			}
			kinds := map[string]bool{}
			for _, e := range c.Tree.R.E {
				kinds[e.F] = true
			}
			if len(kinds) == 2 {
				x.NonTrivial()
			}
			for _, r := range c.Recs {
				v, _ := r.eval("n")
				in := false
				for _, e := range c.Tree.R.E {
					in = in || e.F == "number" && v == e.N || e.F == "string" && v == string(e.S)
				}
				got, err := match(f, document{"n": v})
				if err != nil {
					return fmt.Errorf("%v: filter %v: %v", c.Tree, f, err)
				}
				if got != (in == (c.Tree.F == "in")) {
					return fmt.Errorf("%v on %v: the filter %v says %v", c.Tree, r, f, got)
				}
			}
			return nil
		})
	register("C24/forms", "any tree of the language (0-3 levels), names that start with $ among its names; exactly what filters can express must convert, the rest must be an error; non-trivial: it converts",
		func(t *rapid.T) mongoCase {
			n := genTree(t, upto(t, "depth", 3))
			sweep := chance(t, "sweep", 70) // mostly what converts
			n.walk(func(m *T) {
				if sweep && (m.F == "like" || m.F == "ilike") {
					m.F = "regex"
				}
				if m.F == "ident" && chance(t, "dollar", 8) {
					m.S = kit.Str(pick(t, "name", "$a", "$and", "$where", "$"))
					if V == 4 {
						m.S = "`" + m.S + "`"
					}
				}
				if m.F == "array" && sweep {
					for i, e := range m.E {
						if e.F != "string" && e.F != "number" {
							m.E[i] = num(1)
						}
					}
				}
			})
			if sweep {
				n = plainSides(n)
			}
			return mongoCase{Tree: n}
		}, func(c mongoCase, x *kit.X) error {
			err := checkMongo(c, x)
			if err == nil && inMongo(c.Tree) {
				x.NonTrivial()
			}
			return err
		})
}

// plainSides drops NOT and puts plain operands on both sides.
func plainSides(n *T) *T {
	switch n.F {
	case "not":
		return plainSides(n.L)
	case "and", "or":
		return bin(n.F, plainSides(n.L), plainSides(n.R))
	}
	for n.L.math() {
		n.L = n.L.L
	}
	for n.R != nil && n.R.math() {
		n.R = n.R.R
	}
	if n.L.F != "ident" {
		n.L = id("a")
	}
	if n.R != nil && n.R.F == "ident" && n.F != "regex" && n.F != "nregex" {
		n.R = num(2)
	} else if n.R != nil && n.R.F == "ident" {
		n.R = str("x")
	}
	return n
}
