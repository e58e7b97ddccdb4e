package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	sq "github.com/Masterminds/squirrel"
	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
	"go.mongodb.org/mongo-driver/bson"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C27: the commands ----------------------------------------------------------

type ran struct {
	code     int
	out, err string
}

func (r ran) String() string {
	return fmt.Sprintf("exit %d, stdout %q, stderr %q", r.code, cut(r.out), cut(r.err))
}

func program(name string) string { return filepath.Join(os.Getenv("VERIF_CLI"), name) }

func command(name string, args ...string) ran {
	cmd := exec.Command(program(name), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		kit.Bug("%s: %v", name, err)
	}
	timer := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	err := cmd.Wait()
	if _, isExit := err.(*exec.ExitError); err != nil && !isExit {
		kit.Bug("%s: %v", name, err)
	}
	return ran{cmd.ProcessState.ExitCode(), o.String(), e.String()}
}

// scratch is a folder of this process.
var scratch = sync.OnceValue(func() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		var err error
		if d, err = os.MkdirTemp("", "vcli"); err != nil {
			kit.Bug("%v", err)
		}
	}
	if err := os.MkdirAll(d, 0o755); err != nil {
		kit.Bug("%v", err)
	}
	return d
})

type book struct {
	title, author string
	pages, rating int
	loan          bool
}

// books are the sample books of the commands; a rating of 0 is none.
var books = []book{{"Book", "Joe", 100, 4, true}, {"Other Book", "Jane", 200, 3, true}, {"Some Book", "Jane", 50, 5, true}, {"Some Other Book", "Jane", 50, 0, false},
	{"Good Book", "Joe", 150, 4, true}, {"Some Great Book", "Jane", 550, 2, true}, {"Other Great Book", "Jane", 250, 0, false}, {"My Big Book", "Joe", 15, 5, false}}

// record is a book by the names phrases use; databases of rows hold a missing
// rating as 0.
func (b book) record(rows bool) Record {
	r := Record{"title": {K: "string", S: kit.Str(b.title)}, "author": {K: "string", S: kit.Str(b.author)},
		"spec.pages": {K: "uint", I: int64(b.pages)}, "spec.rating": {K: "uint", I: int64(b.rating)}}
	if b.rating == 0 && !rows {
		delete(r, "spec.rating")
	}
	if V == 5 {
		r["on_loan"] = Val{K: "bool", B: b.loan}
	}
	return r
}

// doc is a book as the commands print it.
func (b book) doc(tool string) map[string]interface{} {
	d := map[string]interface{}{"title": b.title, "author": b.author}
	spec := map[string]interface{}{"pages": b.pages}
	if b.rating > 0 || tool == "graphql" {
		spec["rating"] = b.rating
	}
	switch tool {
	case "mem":
		for k, v := range spec {
			d["spec."+k] = v
		}
		if V == 5 {
			d["onloan"] = b.loan
		}
	default:
		d["spec"] = spec
		if V == 5 {
			d[map[bool]string{true: "onloan", false: "on-loan"}[tool == "graphql"]] = b.loan
		}
	}
	return d
}

var bookFields = map[string]bool{"title": true, "author": true, "spec.pages": true, "spec.rating": true, "on_loan": V == 5}

// bookCond draws a condition over the books' fields that a tool can answer (mostly).
type bookCond struct {
	t    *rapid.T
	tool string
}

func (g bookCond) num() *T {
	n := id(pick(g.t, "numField", "spec.pages", "spec.rating", "spec.pages"))
	pct := 25
	if g.tool == "mongo" || g.tool == "mem" && V == 4 {
		pct = 3 // not expressible
	}
	if chance(g.t, "math", pct) {
		return bin(pick(g.t, "op", mathNames...), n, num(float64(rapid.IntRange(1, 5).Draw(g.t, "by"))))
	}
	return n
}

func (g bookCond) v() *T {
	return num(pick(g.t, "v", 0.0, 1, 2, 3, 4, 5, 15, 25, 50, 100, 150, 200, 250, 550))
}

func (g bookCond) s() *T {
	return str(pick(g.t, "s", "Joe", "Jane", "joe", "Book", "Some Book", "Good Book", "%Book", "%o%", "My%", "J_n_", "Other.*", "^Some", "ob", "?", "' or 1=1"))
}

func (g bookCond) cond(d int) *T {
	if d > 0 && chance(g.t, "logic", 60) {
		if g.tool != "mongo" && chance(g.t, "not", 33) || chance(g.t, "not", 2) {
			return not(g.cond(d - 1))
		}
		return bin(pick(g.t, "op", "and", "or"), g.cond(d-1), g.cond(d-1))
	}
	field := id(pick(g.t, "sField", "title", "author"))
	switch form := upto(g.t, "form", 9); {
	case form == 0:
		fields := []string{"spec.rating", "title", "spec.pages"}
		if V == 5 {
			fields = append(fields, "on_loan")
		}
		return &T{F: pick(g.t, "null", "exists", "nexists"), L: id(pick(g.t, "field", fields...))}
	case form == 1:
		return bin(pick(g.t, "in", "in", "nin"), field, list(g.s(), g.s()))
	case form == 2:
		return bin(pick(g.t, "in", "in", "nin"), g.num(), list(g.v(), g.v(), g.v()))
	case form == 3:
		return bin(pick(g.t, "between", "between", "nbetween"), g.num(), list(g.v(), g.v()))
	case form == 4 && V == 5:
		return bin(pick(g.t, "op", "eq", "ne"), id("on_loan"), boolean(rapid.Bool().Draw(g.t, "b")))
	case form == 5 && (g.tool != "mongo" || chance(g.t, "refused", 5)):
		op := "like"
		if g.tool == "mem" || chance(g.t, "refused", 5) {
			op = pick(g.t, "like", "like", "ilike")
		}
		return bin(op, field, g.s())
	case form == 6 && (g.tool == "mongo" || g.tool == "mem" || chance(g.t, "refused", 5)):
		return bin(pick(g.t, "re", "regex", "nregex"), field, g.s())
	case form == 7:
		return bin(pick(g.t, "cmp", cmpNames...), field, g.s())
	case form == 8 && V == 5 && g.tool != "mongo":
		return bin(pick(g.t, "cmp", cmpNames...), g.num(), g.num())
	}
	return bin(pick(g.t, "cmp", cmpNames...), g.num(), g.v())
}

// selects tells whether a tool's phrase n selects b. errType: the tool cannot
// answer; errUnsure: nothing says what it answers.
func selects(tool string, n *T, b book) (bool, error) {
	rows := tool == "sqlite" || tool == "gorm" || tool == "graphql"
	r := b.record(rows)
	if tool == "mem" {
		return refEval{r: r}.cond(n)
	}
	switch n.F {
	case "and", "or":
		x, err := selects(tool, n.L, b)
		y, err2 := selects(tool, n.R, b)
		if err == nil {
			err = err2
		}
		return n.F == "and" && x && y || n.F == "or" && (x || y), err
	case "not":
		x, err := selects(tool, n.L, b)
		return !x, err
	case "like":
		if rows && n.L.F == "ident" && r[string(n.L.S)].K == "string" { // SQLite's LIKE ignores the case of ASCII letters
			return kit.Like(string(r[string(n.L.S)].S), string(n.R.S), true), nil
		}
	case "ilike", "regex", "nregex":
		if rows {
			return false, errType
		}
	}
	if tool == "mongo" && n.L.F == "ident" {
		if _, ok := r[string(n.L.S)]; !ok { // no such field: what is not equal matches
			return n.F == "ne" || n.F == "nin" || n.F == "nregex" || n.F == "nexists", nil
		}
	}
	mixed := false // a boolean with something else
	for _, m := range []*T{n.L, n.R} {
		if m != nil && m.F == "ident" && m.S == "on_loan" {
			mixed = n.F != "exists" && n.F != "nexists" && (n.F != "eq" && n.F != "ne" || n.R.F != "boolean")
		}
	}
	ok, err := refEval{r, true}.cond(n)
	if err != nil || mixed {
		err = errUnsure // how a database compares values of two types is its own affair
	}
	return ok, err
}

type cliStep struct {
	Text    kit.Str
	Out     string `json:",omitempty"`
	Prepare bool   `json:",omitempty"`
	Cold    bool   `json:",omitempty"` // nothing was ever prepared
	Down    bool   `json:",omitempty"` // the database cannot be opened
	Fault   string `json:",omitempty"` // mongo: the command that fails
	Batch   int    `json:",omitempty"` // mongo: documents the server sends at once
}

// longLike stands for a LIKE pattern longer than SQLite takes (50000 bytes): it
// finds out when it looks at the rows.
const longLike = "@long"

func expand(s kit.Str) string {
	if s == longLike {
		return "title like '" + strings.Repeat("a", 50001) + "'"
	}
	return string(s)
}

type cliCase struct {
	Tool  string
	Steps []cliStep
	DB    string `json:",omitempty"` // mongo: database and collection
	Coll  string `json:",omitempty"`
}

func broken(t *rapid.T, s string) string {
	k := upto(t, "at", len(s))
	return s[:k] + pick(t, "put", "", "'", " ", ".", "x", "1", "-", "\"", "#", ")", " and", "=") + s[min(len(s), k+upto(t, "cut", 2)):]
}

func genCLI(t *rapid.T) cliCase {
	c := cliCase{Tool: pick(t, "tool", "parser", "parser", "mem", "sqlite", "gorm", "mongo")}
	steps := 1
	if c.Tool != "parser" && c.Tool != "mem" {
		steps = 1 + upto(t, "more", 2)
	}
	if c.Tool == "mongo" && chance(t, "place", 30) {
		c.DB, c.Coll = pick(t, "db", "", "lib", "t"), pick(t, "coll", "", "shelf", "b.c")
	}
	for i := 0; i < steps; i++ {
		var n *T
		s := cliStep{Prepare: i == 0 || chance(t, "prepare", 25)}
		if c.Tool != "parser" && c.Tool != "mem" {
			s.Cold = i == 0 && chance(t, "cold", 12)
			if c.Tool == "mongo" && chance(t, "batches", 40) {
				s.Batch = pick(t, "batch", 1, 1, 2)
				if chance(t, "fault", 40) {
					s.Fault = pick(t, "command", "drop", "insert", "find", "getmore", "getmore", "getmore")
				}
			}
			s.Down = i == 0 && !s.Cold && chance(t, "down", 6)
		}
		if c.Tool == "parser" {
			n = genTree(t, upto(t, "depth", 3))
			if chance(t, "sqlish", 40) {
				n = sqlNames(t, n)
			}
			s.Out = pick(t, "out", "", "json", "yaml", "prettyjson", "sql", "sql", "dot", "dot", pick(t, "odd", "xml", "JSON", "sql ", "graphviz"))
		} else {
			n = bookCond{t, c.Tool}.cond(upto(t, "depth", 3))
			if chance(t, "unknown", 5) {
				n.walk(func(m *T) {
					if m.F == "ident" {
						m.S = kit.Str(pick(t, "field", "Title", "pages", "isbn", "id", "spec.rating", "on_loan"))
					}
				})
			}
			if c.Tool == "mem" {
				s.Out = pick(t, "out", "", "json", "yaml", "prettyjson", "xml")
			}
		}
		text := render(t, n)
		if chance(t, "break", 15) {
			text = broken(t, text)
		}
		s.Text = kit.Str(strings.ToValidUTF8(strings.ReplaceAll(text, "\x00", ""), ""))
		if (c.Tool == "sqlite" || c.Tool == "gorm") && !s.Cold && chance(t, "long", 3) {
			s.Text = longLike
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

var colors = regexp.MustCompile("\x1b\\[[0-9;]*m")

func decode(s string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(s))
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one document")
	}
	return v, nil
}

func asJSON(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		kit.Bug("%v", err)
	}
	return string(b)
}

// stringKeys turns decoded YAML into decoded JSON.
func stringKeys(v interface{}) interface{} {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[fmt.Sprint(k)] = stringKeys(e)
		}
		return m
	case []interface{}:
		for i := range x {
			x[i] = stringKeys(x[i])
		}
	}
	return v
}

var mongoServer = sync.OnceValue(startMongo)

func checkCLI(c cliCase, x *kit.X) error {
	db := filepath.Join(scratch(), "books.db")
	defer os.Remove(db)
	os.Remove(db)
	prepared := false
	if c.Tool == "mongo" {
		m := mongoServer()
		m.mu.Lock()
		m.data = map[string][]bson.D{}
		m.mu.Unlock()
	}
	for _, s := range c.Steps {
		if c.Tool == "mongo" {
			m := mongoServer()
			m.mu.Lock()
			m.fault, m.batch, m.left = s.Fault, s.Batch, nil
			m.mu.Unlock()
		}
		preparing := false
		args := []string{"-i", expand(s.Text)}
		switch c.Tool {
		case "sqlite", "gorm":
			if s.Down {
				args = append(args, "-f", scratch()) // a directory
			} else {
				args = append(args, "-f", db)
			}
		case "mongo":
			if s.Down {
				args = append(args, "-u", "mongodb://127.0.0.1:1/?serverSelectionTimeoutMS=200&connectTimeoutMS=200")
			} else {
				args = append(args, "-u", mongoServer().url())
			}
			if c.DB != "" {
				args = append(args, "-d", c.DB)
			}
			if c.Coll != "" {
				args = append(args, "-c", c.Coll)
			}
		}
		if c.Tool != "parser" && c.Tool != "mem" && !s.Cold && (s.Prepare || !prepared) {
			args = append(args, "-p")
			preparing = true
		}
		if s.Out != "" {
			args = append(args, "-o", s.Out)
		}
		x.Label("%s %s", c.Tool, s.Out)
		r := command("tsl_"+c.Tool, args...)
		ok, err := judge(c.Tool, s, preparing, r, x)
		if err != nil {
			return fmt.Errorf("tsl_%s %.2000q: %v\n%.2000s", c.Tool, args, err, r)
		}
		prepared = prepared || ok && !s.Cold
		if s.Fault != "" || !prepared && !s.Cold && !s.Down {
			break // a database that a failed run leaves is not specified
		}
	}
	x.Sample("%s %q", c.Tool, c.Steps[0].Text)
	return nil
}

var parserFormats = []string{"", "json", "yaml", "prettyjson", "sql", "dot"}

func contains(a []string, s string) bool {
	for _, e := range a {
		if e == s {
			return true
		}
	}
	return false
}

// judge compares a run with what the phrase selects; ok: it was answered.
func judge(tool string, s cliStep, preparing bool, r ran, x *kit.X) (ok bool, err error) {
	text := expand(s.Text)
	refused := func(why string) (bool, error) {
		x.Label("refused: %s", why)
		if r.code == 0 {
			return false, fmt.Errorf("exits with 0, although %s", why)
		}
		if r.code < 0 || strings.Contains(r.err, "goroutine ") {
			return false, fmt.Errorf("crashes, although only %s", why)
		}
		if strings.TrimSpace(r.out) != "" {
			return false, fmt.Errorf("prints a result, although %s", why)
		}
		if strings.TrimSpace(r.err) == "" {
			return false, fmt.Errorf("prints no error, although %s", why)
		}
		return false, nil
	}
	if text == "" && (tool == "parser" || tool == "mem") {
		return refused("there is no phrase")
	}
	n, m, err := parse(text)
	if err != nil {
		return refused("the phrase is rejected")
	}
	switch {
	case s.Fault == "find", preparing && (s.Fault == "drop" || s.Fault == "insert"):
		return refused("the database refuses")
	case s.Down:
		return refused("the database cannot be opened")
	case s.Cold && tool == "sqlite": // the others create it
		return refused("there is no table")
	case s.Text == longLike:
		return refused("the pattern is too long for SQLite")
	}
	if tool == "parser" && !contains(parserFormats, s.Out) {
		return refused("the format is unknown")
	}
	if tool == "parser" {
		return true, judgeParser(n, m, s.Out, r, x)
	}
	for _, k := range namesOf(n) {
		if !bookFields[k] {
			return refused("a field is unknown")
		}
	}
	var want []map[string]interface{}
	for _, b := range books {
		hit, err := selects(tool, n, b)
		hit = hit && !s.Cold
		if err == errUnsure {
			x.Exclude()
			return r.code == 0, nil
		}
		if err != nil || tool == "mongo" && !inMongo(n) {
			return refused("the phrase cannot be evaluated")
		}
		if hit {
			want = append(want, b.doc(tool))
		}
	}
	if s.Out == "xml" {
		return refused("the format is unknown")
	}
	if s.Fault == "getmore" && len(want) > s.Batch {
		x.Label("refused: half way")
		if r.code <= 0 || strings.TrimSpace(r.err) == "" {
			return false, fmt.Errorf("reports no error, although the database failed half way")
		}
		return false, nil
	}
	if r.code != 0 {
		return false, fmt.Errorf("fails")
	}
	var got []interface{}
	if tool == "mem" {
		var v interface{}
		out := colors.ReplaceAllString(r.out, "")
		if s.Out == "yaml" {
			err = yaml.Unmarshal([]byte(out), &v)
			v = stringKeys(v)
		} else {
			v, err = decode(out)
		}
		if got, ok = v.([]interface{}); err != nil || !ok {
			return false, fmt.Errorf("malformed output: %v", err)
		}
	} else {
		for _, line := range strings.Split(strings.TrimSuffix(r.out, "\n"), "\n") {
			if line == "" && r.out == "" {
				break
			}
			v, err := decode(line)
			if err != nil {
				return false, fmt.Errorf("malformed output: %v", err)
			}
			got = append(got, v)
		}
	}
	if err := sameBooks(got, want, tool == "mem"); err != nil {
		return false, err
	}
	if len(want) > 0 && len(want) < len(books) {
		x.NonTrivial()
		x.Label("some books")
	}
	return true, nil
}

func sameBooks(got []interface{}, want []map[string]interface{}, ordered bool) error {
	var a, b []string
	for _, v := range got {
		a = append(a, asJSON(v))
	}
	for _, v := range want {
		b = append(b, asJSON(v))
	}
	if !ordered {
		sort.Strings(a)
		sort.Strings(b)
	}
	if strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fmt.Errorf("prints\n  %s\nwanted\n  %s", strings.Join(a, "\n  "), strings.Join(b, "\n  "))
	}
	return nil
}

func judgeParser(n *T, m tsl.Node, out string, r ran, x *kit.X) error {
	if n.size() >= 5 {
		x.NonTrivial()
	}
	if out == "sql" {
		filter, err := sql.Walk(m)
		if err != nil {
			x.Label("refused: no SQL")
			if r.code == 0 || strings.TrimSpace(r.out) != "" || strings.Contains(r.err, "goroutine ") {
				return fmt.Errorf("answers, although the phrase has no SQL")
			}
			return nil
		}
		q, a, err := sq.Select("*").Where(filter).From("table_name").ToSql()
		if err != nil {
			return fmt.Errorf("no SQL text: %v", err)
		}
		if want := fmt.Sprintf("sql:  %s\nargs: %v\n", q, a); r.code != 0 || r.out != want {
			return fmt.Errorf("the SQL is %q", want)
		}
		return nil
	}
	if r.code != 0 {
		return fmt.Errorf("fails")
	}
	switch out {
	case "", "json", "prettyjson":
		got, err := decode(colors.ReplaceAllString(r.out, ""))
		want, _ := decode(asJSON(m))
		if err != nil || !reflect.DeepEqual(got, want) {
			return fmt.Errorf("the JSON rendering is %s (%v)", asJSON(m), err)
		}
	case "yaml":
		want, err := yaml.Marshal(m)
		if err != nil {
			return fmt.Errorf("the tree has no YAML rendering: %v", err)
		}
		if r.out != string(want) && r.out != string(want)+"\n" {
			return fmt.Errorf("the YAML rendering is %s", want)
		}
	case "dot":
		s := strings.TrimSpace(r.out)
		i := strings.IndexByte(s, '{')
		if !strings.HasPrefix(s, "digraph") || !strings.HasSuffix(s, "}") || i < 0 || strings.TrimSpace(s[7:i]) != "" {
			return fmt.Errorf("no digraph")
		}
		return isDrawing(s[i+1:len(s)-1], n, "")
	}
	return nil
}

// ---- C27: the GraphQL server ------------------------------------------------------

// graphQL is the running server of this process; the port is its own choice, so
// a lock keeps other processes of the harness away.
var graphQL = sync.OnceValues(func() (bool, error) {
	lock, err := os.OpenFile(filepath.Join(os.TempDir(), "verif-tsl-graphql.lock"), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		kit.Bug("%v", err)
	}
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		kit.Bug("%v", err)
	}
	busy := func() bool {
		c, err := net.DialTimeout("tcp", "127.0.0.1:8080", time.Second)
		if err == nil {
			c.Close()
		}
		return err == nil
	}
	for i := 0; busy(); i++ { // the server of the process before may just be ending
		if i > 50 {
			return false, nil // someone else's server
		}
		time.Sleep(100 * time.Millisecond)
	}
	started := make(chan error)
	go func() {
		// the process ends with this one; few descriptors, so that what a request
		// leaves open shows after a few requests more
		cmd := exec.Command("sh", "-c", `ulimit -n 80 && exec "$0" "$@"`,
			program("tsl_graphql"), "-p", "-f", filepath.Join(scratch(), "graphql.db"))
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var said bytes.Buffer
		cmd.Stdout, cmd.Stderr = io.Discard, &said
		if err := cmd.Start(); err != nil {
			kit.Bug("%v", err)
		}
		ended := make(chan bool)
		go func() {
			cmd.Wait()
			close(ended)
		}()
		keep = append(keep, lock, cmd)
		for i := 0; i < 300; i++ {
			if busy() {
				started <- nil
				<-ended
				return
			}
			select {
			case <-ended:
				started <- fmt.Errorf("tsl_graphql -p ends instead of serving: %s", said.String())
				return
			case <-time.After(100 * time.Millisecond):
			}
		}
		started <- errNoServer
	}()
	switch err := <-started; {
	case err == errNoServer:
		kit.Bug("tsl_graphql does not serve")
	case err != nil && strings.Contains(err.Error(), "address already in use"):
		return false, nil
	case err != nil:
		return false, err
	}
	return true, nil
})

var errNoServer = errors.New("no server")

var keep []interface{}

type queryCase struct {
	Texts    []kit.Str
	Together bool
}

func query(text string) (v interface{}, failed bool, err error) {
	q := fmt.Sprintf("{books(filter:%s){title,author,spec{pages,rating}", asJSON(text))
	if V == 5 {
		q += ",onloan"
	}
	client := http.Client{Timeout: 50 * time.Second}
	resp, err := client.Get("http://127.0.0.1:8080/graphql?query=" + url.QueryEscape(q+"}}"))
	if err != nil {
		return nil, false, err
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, false, err
	}
	d, err := decode(string(body))
	if err != nil {
		return nil, false, fmt.Errorf("malformed answer %q: %v", body, err)
	}
	m, _ := d.(map[string]interface{})
	data, _ := m["data"].(map[string]interface{})
	errs, _ := m["errors"].([]interface{})
	return data["books"], len(errs) > 0, nil
}

func checkQuery(c queryCase, x *kit.X) error {
	serving, err := graphQL()
	if err != nil {
		return err
	}
	if !serving {
		x.Label("port 8080 is taken")
		x.Exclude()
		return nil
	}
	type answer struct {
		v      interface{}
		failed bool
		err    error
	}
	out := make([]answer, len(c.Texts))
	var wg sync.WaitGroup
	for i, s := range c.Texts {
		ask := func() { out[i].v, out[i].failed, out[i].err = query(expand(s)) }
		if !c.Together {
			ask()
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			ask()
		}()
	}
	wg.Wait()
	for i, s := range c.Texts {
		text := expand(s)
		a := out[i]
		if a.err != nil {
			return fmt.Errorf("%q: %v", text, a.err)
		}
		n, _, err := parse(text)
		known := err == nil && s != longLike
		var want []map[string]interface{}
		if known {
			for _, k := range namesOf(n) {
				known = known && bookFields[k]
			}
			for _, b := range books {
				if !known {
					break
				}
				hit, err := selects("graphql", n, b)
				if err == errUnsure {
					x.Exclude()
					return nil
				}
				known = known && err == nil
				if hit {
					want = append(want, b.doc("graphql"))
				}
			}
		}
		x.LabelIf(!known, "refused")
		if !known {
			if !a.failed || a.v != nil {
				return fmt.Errorf("%.2000q cannot be answered, but the answer is %v", text, a.v)
			}
			continue
		}
		if a.failed {
			return fmt.Errorf("%q is answered with an error", text)
		}
		got, ok := a.v.([]interface{})
		if !ok {
			if a.v == nil && len(want) == 0 {
				continue
			}
			return fmt.Errorf("%q is answered with %v", text, a.v)
		}
		if err := sameBooks(got, want, false); err != nil {
			return fmt.Errorf("%q: the server %v", text, err)
		}
		if len(want) > 0 && len(want) < len(books) {
			x.NonTrivial()
		}
	}
	x.LabelIf(c.Together, "at once")
	x.Sample("%q", c.Texts[0])
	return nil
}

func init() {
	register("C27/run", "a phrase (some of them broken) given to tsl_parser (every output format) or tsl_mem, or a history of 1-3 phrases given to tsl_sqlite, tsl_gorm or tsl_mongo (against a stand-in server) over one database; exit status and output compared with the library's rendering and a reference selection; non-trivial: some books are selected, or a tree of at least 5 nodes printed",
		genCLI, checkCLI)
	register("C27/graphql", "1-5 phrases sent to a running tsl_graphql, one after another or at once; answers compared with a reference selection; non-trivial: some books are selected",
		func(t *rapid.T) queryCase {
			c := queryCase{Together: rapid.Bool().Draw(t, "together")}
			for i := 1 + upto(t, "more", 4); i > 0; i-- {
				s := render(t, bookCond{t, "graphql"}.cond(upto(t, "depth", 3)))
				if chance(t, "break", 15) {
					s = broken(t, s)
				}
				if chance(t, "long", 2) {
					s = longLike
				}
				c.Texts = append(c.Texts, kit.Str(s))
			}
			return c
		}, checkQuery)
}
