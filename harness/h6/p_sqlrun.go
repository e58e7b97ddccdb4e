//go:build withsql

package main

import (
	stdsql "database/sql"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	sq "github.com/Masterminds/squirrel"
	"github.com/mattn/go-sqlite3"
	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C15: the rows SQL selects ---------------------------------------------

var openDB = sync.OnceValue(func() *stdsql.DB {
	stdsql.Register("sqlite3_v", &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		if err := c.RegisterFunc("regexp", func(re, s string) (bool, error) { return regexp.MatchString(re, s) }, true); err != nil {
			return err
		}
		// SQLite spells a user-defined binary operator MATCH; it stands for ILIKE here
		return c.RegisterFunc("match", func(p, s string) bool { return kit.Like(s, p, true) }, true)
	}})
	db, err := stdsql.Open("sqlite3_v", ":memory:")
	if err != nil {
		kit.Bug("%v", err)
	}
	db.SetMaxOpenConns(1)
	for _, s := range []string{"PRAGMA case_sensitive_like = ON",
		"CREATE TABLE books (k INTEGER PRIMARY KEY, n REAL, m REAL, i INTEGER, s TEXT, u TEXT, b INTEGER, c INTEGER, d TEXT, e TEXT, z REAL)"} {
		if _, err := db.Exec(s); err != nil {
			kit.Bug("%v", err)
		}
	}
	return db
})

// Row is a record; Z is nil when it is null.
type Row struct {
	N, M float64
	I    int64
	S, U kit.Str
	B, C bool
	D, E int // index into moments
	Z    *float64
}

type rowsCase struct {
	Tree *N
	Rows []Row
	Map  bool // identifiers reach the SQL through ident.Walk, as "books.n"
}

// sqlCond draws a condition of the common subset over the table's columns.
type sqlCond struct{ t *rapid.T }

func (g sqlCond) num(d int) *N {
	k := 8
	if d <= 0 {
		k = 4
	}
	switch rapid.IntRange(0, k).Draw(g.t, "numExpr") {
	case 0, 1:
		return num(float64(rapid.IntRange(-4, 8).Draw(g.t, "lit")))
	case 2:
		return num(float64(rapid.IntRange(-8, 16).Draw(g.t, "lit")) / 4)
	case 3, 4:
		return id(pick(g.t, "numCol", "n", "m"))
	case 5, 6, 7:
		return bin(pick(g.t, "math", "ADD", "SUB", "MUL", "DIV", "MOD"), g.num(d-1), g.num(d-1))
	}
	return un("NEG", g.num(d-1))
}

func (g sqlCond) scalar(kind string, d int) *N {
	switch kind {
	case "num":
		if d <= 0 && chance(g.t, "intCol", 15) {
			return id("i")
		}
		return g.num(d)
	case "str":
		if chance(g.t, "col", 60) {
			return id(pick(g.t, "strCol", "s", "u"))
		}
		return &N{K: "STRING", S: genWord(g.t)}
	case "time":
		if chance(g.t, "col", 60) {
			return id(pick(g.t, "timeCol", "d", "e"))
		}
		return str(genMoment(g.t))
	}
	if d > 0 && chance(g.t, "nested", 50) {
		return g.cond(d - 1)
	}
	if chance(g.t, "col", 70) {
		return id(pick(g.t, "boolCol", "b", "c"))
	}
	return boolean(rapid.Bool().Draw(g.t, "lit"))
}

func (g sqlCond) cond(d int) *N {
	if d > 0 {
		switch rapid.IntRange(0, 5).Draw(g.t, "cond") {
		case 0, 1, 2:
			return bin(pick(g.t, "logic", "AND", "OR"), g.cond(d-1), g.cond(d-1))
		case 3:
			return un("NOT", g.cond(d-1))
		}
	}
	kind := scalarKinds[rapid.IntRange(0, 3).Draw(g.t, "kind")]
	list := func(n int) *N {
		a := arr()
		for i := 0; i < n; i++ {
			a.E = append(a.E, g.scalar(kind, d-1))
		}
		return a
	}
	var n *N
	switch rapid.IntRange(0, 6).Draw(g.t, "form") {
	case 0:
		n = bin("IN", g.scalar(kind, d-1), list(rapid.IntRange(0, 4).Draw(g.t, "len")))
	case 1:
		if kind == "num" || kind == "time" {
			n = bin("BETWEEN", g.scalar(kind, d-1), list(2))
		} else {
			n = bin("IS", id("z"), null())
		}
	case 2:
		if kind == "bool" {
			return g.scalar(kind, d)
		}
		if kind == "num" {
			n = bin("IS", id(pick(g.t, "nullCol", "z", "n")), null())
			break
		}
		fallthrough
	default:
		switch kind {
		case "num", "time":
			n = bin(pick(g.t, "cmp", "EQ", "NE", "LT", "LE", "GT", "GE"), g.scalar(kind, d), g.scalar(kind, d))
		case "bool":
			n = bin(pick(g.t, "cmpB", "EQ", "NE"), g.scalar(kind, d), g.scalar(kind, d))
		default:
			op := pick(g.t, "cmpS", "EQ", "NE", "LIKE", "ILIKE", "REQ", "RNE")
			n = bin(op, g.scalar(kind, d), g.scalar(kind, d))
			if op == "LIKE" || op == "ILIKE" {
				n.R = &N{K: "STRING", S: pick(g.t, "pattern", "%", "a%", "%b", "_", "a_", "%.%", "A%", "", "a.b", "_%_", "%é%", "j%E", "__%", "%_b%", "%a_", "a%b", "%o%")}
			}
		}
	}
	if chance(g.t, "negate", 20) {
		n = un("NOT", n)
	}
	return n
}

var rowWords = []string{"", "a", "b", "ab", "abc", "A", "aB", "a.b", "a%", "_", "joe", "Joe", "true", "5", "é", "a\nb", "null", "'", "axb"}

func genRows(t *rapid.T) rowsCase {
	c := rowsCase{Tree: stretchTo(t, sqlCond{t}.cond(rapid.IntRange(0, 4).Draw(t, "depth")), 4, false, 40), Map: rapid.Bool().Draw(t, "map")}
	f := func() float64 { return float64(rapid.IntRange(-8, 16).Draw(t, "f")) / 2 }
	for i, n := 0, rapid.IntRange(1, 12).Draw(t, "rows"); i < n; i++ {
		r := Row{N: f(), M: f(), I: rapid.Int64Range(-3, 6).Draw(t, "i"), S: kit.Str(pick(t, "s", rowWords...)), U: kit.Str(pick(t, "u", rowWords...)),
			B: rapid.Bool().Draw(t, "b"), C: rapid.Bool().Draw(t, "c"), D: rapid.IntRange(0, len(moments)-1).Draw(t, "d"), E: rapid.IntRange(0, len(moments)-1).Draw(t, "e")}
		if chance(t, "z", 60) {
			z := f()
			r.Z = &z
		}
		c.Rows = append(c.Rows, r)
	}
	texts := map[string][]*kit.Str{}
	nums := map[string][]*float64{}
	for i := range c.Rows {
		r := &c.Rows[i]
		texts["s"] = append(texts["s"], &r.S)
		texts["u"] = append(texts["u"], &r.U)
		nums["n"] = append(nums["n"], &r.N)
		nums["m"] = append(nums["m"], &r.M)
	}
	near(t, c.Tree, texts, nums)
	return c
}

func column(i int) (time.Time, string) {
	t, ok := instant(moments[i])
	if !ok {
		kit.Bug("moment %q", moments[i])
	}
	return t, t.UTC().Format("2006-01-02 15:04:05.999999999")
}

func sqlBool(b bool) int {
	if b {
		return 1
	}
	return 0
}

func checkRows(c rowsCase, x *kit.X) error {
	exact := true
	c.Tree.walk(func(m *N) {
		if m.K == "STRING" && isDateForm(m.S) {
			exact = false // a string of date shape is a date literal
		}
	})
	if !exact {
		x.Exclude()
		return nil
	}
	t, err := build(c.Tree)
	if err != nil {
		return err
	}
	defer t.Free()
	// the answer of the evaluator, row by row
	var want, judged []int64
	skipped := map[int64]bool{}
	for k, r := range c.Rows {
		d, _ := column(r.D)
		e, _ := column(r.E)
		vals := map[string]interface{}{"n": r.N, "m": r.M, "i": r.I, "s": string(r.S), "u": string(r.U), "b": r.B, "c": r.C, "d": d, "e": e, "z": nil}
		if r.Z != nil {
			vals["z"] = *r.Z
		}
		refUnsure = false
		if _, err := refEval(c.Tree, func(k string) (interface{}, bool) { v, ok := vals[k]; return v, ok }); err != nil || refUnsure {
			skipped[int64(k)] = true // not a value in memory (division by zero)
			continue
		}
		v, err := semantics.Walk(t, func(k string) (interface{}, bool) { v, ok := vals[k]; return v, ok })
		if err != nil {
			return fmt.Errorf("%s on %v: %v", render(nil, c.Tree), vals, err)
		}
		b, ok := v.(bool)
		if !ok {
			return fmt.Errorf("%s on %v: no condition but %s", render(nil, c.Tree), vals, show(v, nil))
		}
		judged = append(judged, int64(k))
		if b {
			want = append(want, int64(k))
		}
	}
	// the rows the database selects
	var u *tsl.TSLNode = t
	if c.Map {
		if u, err = ident.Walk(t, func(s string) (string, error) { return "books." + s, nil }); err != nil {
			return err
		}
		defer u.Free()
	}
	filter, err := sql.Walk(u)
	if err != nil {
		return fmt.Errorf("%s: %v", render(nil, c.Tree), err)
	}
	db := openDB()
	if _, err := db.Exec("DELETE FROM books"); err != nil {
		kit.Bug("%v", err)
	}
	ins := sq.Insert("books").Columns("k", "n", "m", "i", "s", "u", "b", "c", "d", "e", "z")
	for k, r := range c.Rows {
		_, d := column(r.D)
		_, e := column(r.E)
		var z interface{}
		if r.Z != nil {
			z = *r.Z
		}
		ins = ins.Values(k, r.N, r.M, r.I, string(r.S), string(r.U), sqlBool(r.B), sqlBool(r.C), d, e, z)
	}
	if _, err := ins.RunWith(db).Exec(); err != nil {
		kit.Bug("%v", err)
	}
	selects := []struct {
		how  string
		cond sq.Sqlizer
	}{{"alone", filter}, {"and true", sq.And{filter, sq.Expr("1 = 1")}}, {"or false", sq.Or{sq.Expr("1 = 0"), filter}}}
	for _, sel := range selects {
		text, args, err := sq.Select("k").From("books").Where(sel.cond).ToSql()
		if err != nil {
			return fmt.Errorf("%s: %v", render(nil, c.Tree), err)
		}
		text = strings.ReplaceAll(text, " ILIKE ", " MATCH ")
		rows, err := db.Query(text, args...)
		var got []int64
		if err == nil {
			for rows.Next() {
				var k int64
				if e := rows.Scan(&k); e != nil {
					kit.Bug("%v", e)
				}
				if !skipped[k] {
					got = append(got, k)
				}
			}
			err = rows.Err()
			rows.Close()
		}
		if err != nil {
			if strings.Contains(err.Error(), "error parsing regexp") && len(skipped) > 0 {
				continue
			}
			return fmt.Errorf("%s: SQL %q fails: %v", render(nil, c.Tree), text, err)
		}
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		if fmt.Sprint(got) != fmt.Sprint(want) {
			var diff []string
			for _, k := range judged {
				if in(want, k) != in(got, k) {
					r := c.Rows[k]
					_, d := column(r.D)
					_, e := column(r.E)
					diff = append(diff, fmt.Sprintf("row {n %v, m %v, i %v, s %q, u %q, b %v, c %v, d %s, e %s, z null: %v}: SQL %v, evaluator %v", r.N, r.M, r.I, r.S, r.U, r.B, r.C, d, e, r.Z == nil, in(got, k), in(want, k)))
				}
			}
			return fmt.Errorf("%s (%s)\nSQL %s %v\n%s", render(nil, c.Tree), sel.how, text, args, strings.Join(diff, "\n"))
		}
	}
	x.LabelIf(len(skipped) > 0, "some rows not judged")
	some := len(want) > 0 && len(want) < len(judged)
	x.LabelIf(some, "some rows selected")
	if some {
		x.NonTrivial()
	}
	x.Sample("%s on %d rows, %d selected", render(nil, c.Tree), len(judged), len(want))
	return nil
}

func in(l []int64, k int64) bool {
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

var _ = math.Abs

func init() {
	kit.Register("C15/rows", "a condition of the common subset (0-4 levels) over a table of 1-12 rows of numbers, strings, booleans, timestamps and a nullable column; run in SQLite (alone and inside AND / OR) and in memory; non-trivial: some rows are selected and some are not", genRows, checkRows)
}
