//go:build withsql

package main

import (
	stdsql "database/sql"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"

	sq "github.com/Masterminds/squirrel"
	"github.com/mattn/go-sqlite3"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- the rows SQL selects -----------------------------------------------------

var rowKeys = []string{"n", "m", "i", "s", "u", "b", "c", "d", "e", "z"}

var openDB = sync.OnceValue(func() *stdsql.DB {
	stdsql.Register("sqlite3_v", &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		// SQLite spells a user-defined binary operator MATCH; it stands for ILIKE here
		return c.RegisterFunc("match", func(p, s string) bool { return kit.Like(s, p, true) }, true)
	}})
	db, err := stdsql.Open("sqlite3_v", ":memory:")
	if err != nil {
		kit.Bug("%v", err)
	}
	db.SetMaxOpenConns(1)
	for _, s := range []string{"PRAGMA case_sensitive_like = ON",
		"CREATE TABLE books (k INTEGER PRIMARY KEY, n REAL, m REAL, i INTEGER, s TEXT, u TEXT, b INTEGER, c INTEGER, d TEXT, e TEXT, z REAL)"} {
		if _, err := db.Exec(s); err != nil {
			kit.Bug("%v", err)
		}
	}
	return db
})

type rowsCase struct {
	Tree *T
	Rows []Record
}

// rowCond draws conditions SQL and the evaluator both have.
type rowCond struct{ t *rapid.T }

func (g rowCond) number() *T {
	if chance(g.t, "big", 2) {
		return num(pick(g.t, "bigNumber", 65536.0, 2147483648, 4294967296, 1e9, 9007199254740992, 1e15, 1e16, 1e18, 1e20, 1e21, 1e-6, 0.1))
	}
	switch upto(g.t, "number", 2) {
	case 0:
		return num(float64(rapid.IntRange(-16, 32).Draw(g.t, "quarter")) / 4)
	case 1:
		return num(float64(rapid.IntRange(-4, 8).Draw(g.t, "half")) / 2)
	}
	return num(float64(rapid.IntRange(-4, 8).Draw(g.t, "whole")))
}

// literals draws a product of two or three literals: it is written after + or -.
func (g rowCond) literals() *T {
	n := bin(pick(g.t, "litOp", "divide", "divide", "multiply"), g.number(), g.number())
	if chance(g.t, "third", 20) {
		n = bin(pick(g.t, "litOp", "divide", "multiply"), n, g.number())
	}
	return n
}

// A whole-number column stands next to literals only: how the quotient of two
// integer columns is rounded is the database's affair.
func (g rowCond) num(d int) *T {
	if V == 4 || d <= 0 || chance(g.t, "plain", 40) {
		return id(pick(g.t, "numCol", "n", "m", "n"))
	}
	op := pick(g.t, "op", "add", "subtract", "multiply", "divide")
	if chance(g.t, "whole", 20) {
		return bin(op, id("i"), g.number())
	}
	r := g.number()
	switch {
	case !product(op) && chance(g.t, "literals", 25):
		r = g.literals()
	case chance(g.t, "two", 60):
		r = g.num(d - 1)
	}
	return bin(op, g.num(d-1), r)
}

func (g rowCond) left(kind string) *T {
	switch kind {
	case "num":
		if chance(g.t, "int", 20) {
			if V == 5 && chance(g.t, "mod", 50) {
				return bin("modulo", id("i"), num(float64(rapid.IntRange(1, 4).Draw(g.t, "modulus"))))
			}
			return id("i")
		}
		return g.num(upto(g.t, "mathDepth", 3))
	case "str":
		return id(pick(g.t, "strCol", "s", "u"))
	case "bool":
		return id(pick(g.t, "boolCol", "b", "c"))
	}
	return id(pick(g.t, "timeCol", "d", "e"))
}

var rowDates = []string{"2020-01-01T00:00:00Z", "2019-12-31T23:59:59Z", "2020-01-02T00:00:00Z", "2020-02-29T12:30:00Z", "1969-12-31T23:59:59Z", "2020-01-01T00:00:01Z"}

var rowWords = []string{"", "a", "b", "ab", "abc", "A", "aB", "a.b", "a%", "_", "joe", "Joe", "true", "5", "é", "É", "a\nb", "null", "'", "axb", "?", "日"}

func (g rowCond) lit(kind string) *T {
	switch kind {
	case "num":
		return g.number()
	case "str":
		return str(rowWords[upto(g.t, "word", len(rowWords)-1)])
	case "bool":
		return boolean(rapid.Bool().Draw(g.t, "lit"))
	}
	return date(rowDates[upto(g.t, "date", len(rowDates)-1)])
}

func (g rowCond) cond(d int) *T {
	if d > 0 {
		switch upto(g.t, "cond", 5) {
		case 0, 1, 2:
			return bin(pick(g.t, "logic", "and", "or"), g.cond(d-1), g.cond(d-1))
		case 3:
			return not(g.cond(d - 1))
		}
	}
	kind := pick(g.t, "kind", "num", "num", "str", "str", "bool", "time")
	if V == 4 && (kind == "bool" || kind == "time") {
		kind = "num"
	}
	form := upto(g.t, "form", 6)
	switch {
	case form == 0:
		return &T{F: pick(g.t, "null", "exists", "nexists"), L: id(pick(g.t, "nullCol", "z", "z", "n", "s"))}
	case form <= 2 && kind != "bool":
		n := bin(pick(g.t, "in", "in", "nin"), g.left(kind), list())
		for i := upto(g.t, "len", 4); i > 0; i-- {
			n.R.E = append(n.R.E, g.lit(kind))
		}
		return n
	case form == 3 && (kind == "num" || kind == "time"):
		return bin(pick(g.t, "between", "between", "nbetween"), g.left(kind), list(g.lit(kind), g.lit(kind)))
	case form >= 4 && kind == "str":
		return bin(pick(g.t, "like", "like", "ilike"), g.left(kind), str(pick(g.t, "pattern", "%", "a%", "%b", "_", "a_", "%.%", "A%", "", "a.b", "_%_", "%é%", "j%E", "__%", "%_b%", "%a_", "a%b", "%o%")))
	}
	r := g.lit(kind)
	if V == 5 && chance(g.t, "colRight", 40) {
		r = g.left(kind)
	}
	if kind == "bool" {
		return bin(pick(g.t, "eq", "eq", "ne"), g.left(kind), r)
	}
	return bin(pick(g.t, "cmp", cmpNames...), g.left(kind), r)
}

func genRows(t *rapid.T) rowsCase {
	c := rowsCase{Tree: stretch(t, rowCond{t}.cond(upto(t, "depth", 4)), 6, false)}
	half := func() Val { return Val{K: "float64", F: float64(rapid.IntRange(-8, 16).Draw(t, "half")) / 2} }
	word := func() Val { return Val{K: "string", S: kit.Str(rowWords[upto(t, "word", len(rowWords)-1)])} }
	truth := func() Val { return Val{K: "bool", B: rapid.Bool().Draw(t, "b")} }
	at := func() Val { return Val{K: "time", S: kit.Str(rowDates[upto(t, "date", len(rowDates)-1)])} }
	for i := 1 + upto(t, "rows", 11); i > 0; i-- {
		r := Record{"n": half(), "m": half(), "i": {K: "int64", I: int64(rapid.IntRange(-4, 8).Draw(t, "i"))}, "s": word(), "u": word(),
			"b": truth(), "c": truth(), "d": at(), "e": at(), "z": {K: "nil"}}
		if chance(t, "z", 60) {
			r["z"] = half()
		}
		c.Rows = append(c.Rows, r)
	}
	near(t, c.Tree, c.Rows...)
	return c
}

// column is a field as the table stores it.
func column(v Val) interface{} {
	switch v.K {
	case "float64":
		return v.F
	case "int64":
		return v.I
	case "string", "time":
		return string(v.S)
	case "bool":
		if v.B {
			return 1
		}
		return 0
	}
	return nil
}

func checkRows(c rowsCase, x *kit.X) error {
	phrase := render(nil, c.Tree)
	t, m, err := parse(phrase)
	if err != nil {
		return fmt.Errorf("%q: %v", phrase, err)
	}
	if !same(t, c.Tree) {
		return fmt.Errorf("%q parses to %v", phrase, t)
	}
	var want, judged []int
	skip := map[int]bool{}
	for k, r := range c.Rows {
		c.Tree.walk(func(n *T) {
			if n.math() && V == 5 {
				v, err := refEval{r: r}.value(n)
				if f, ok := v.(float64); err == nil && (!ok || math.IsNaN(f) || math.IsInf(f, 0)) {
					skip[k] = true // a division by zero is NULL in SQL
				}
			}
		})
		if skip[k] {
			continue
		}
		ok, err := semantics.Walk(m, r.eval)
		if err != nil {
			return fmt.Errorf("%s on %v: %v", phrase, r, err)
		}
		judged = append(judged, k)
		if ok {
			want = append(want, k)
		}
	}
	filter, err := sql.Walk(m)
	if err != nil {
		return fmt.Errorf("%s: %v", phrase, err)
	}
	db := openDB()
	if _, err := db.Exec("DELETE FROM books"); err != nil {
		kit.Bug("%v", err)
	}
	ins := sq.Insert("books").Columns(append([]string{"k"}, rowKeys...)...)
	for k, r := range c.Rows {
		vals := []interface{}{k}
		for _, key := range rowKeys {
			vals = append(vals, column(r[key]))
		}
		ins = ins.Values(vals...)
	}
	if _, err := ins.RunWith(db).Exec(); err != nil {
		kit.Bug("%v", err)
	}
	for _, sel := range []struct {
		how  string
		cond sq.Sqlizer
	}{{"alone", filter}, {"and true", sq.And{filter, sq.Expr("1 = 1")}}, {"or false", sq.Or{sq.Expr("1 = 0"), filter}}} {
		text, args, err := sq.Select("k").From("books").Where(sel.cond).ToSql()
		if err != nil {
			return fmt.Errorf("%s: %v", phrase, err)
		}
		text = strings.ReplaceAll(text, " ILIKE ", " MATCH ")
		rows, err := db.Query(text, args...)
		var got []int
		if err == nil {
			for rows.Next() {
				var k int
				if e := rows.Scan(&k); e != nil {
					kit.Bug("%v", e)
				}
				if !skip[k] {
					got = append(got, k)
				}
			}
			err = rows.Err()
			rows.Close()
		}
		if err != nil {
			return fmt.Errorf("%s: SQL %q fails: %v", phrase, text, err)
		}
		sort.Ints(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			var show []string
			for _, k := range append(append([]int{}, got...), want...) {
				show = append(show, fmt.Sprintf("%d: %v", k, c.Rows[k]))
			}
			return fmt.Errorf("%s (%s)\nSQL %s %v\nselects rows %v, the evaluator %v\n%s", phrase, sel.how, text, args, got, want, strings.Join(show, "\n"))
		}
	}
	x.LabelIf(len(skip) > 0, "some rows not judged")
	c.Tree.walk(func(n *T) { x.LabelIf(!n.leaf(), n.F) })
	if len(want) > 0 && len(want) < len(judged) {
		x.Label("some rows selected")
		x.NonTrivial()
	}
	x.Sample("%s on %d rows, %d selected", phrase, len(judged), len(want))
	return nil
}

func init() {
	register("C23/rows", "a condition of 0-4 levels over a table of 1-12 rows of numbers, strings, booleans and dates (v5) and a nullable column; run in SQLite (alone and inside AND / OR) and in memory; non-trivial: some rows are selected and some are not", genRows, checkRows)
}
