package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"time"

	sq "github.com/Masterminds/squirrel"
	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C19: the commands -------------------------------------------------------

type cliCase struct {
	Cmd   string // tsl, tsl_parser, tsl_mem
	Text  kit.Str
	Out   string `json:",omitempty"` // -o, empty: not given
	Table string `json:",omitempty"`
}

type ran struct {
	code     int
	out, err string
}

func command(name string, args ...string) ran {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_CLI"), name), args...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		kit.Bug("%s: %v", name, err)
	}
	timer := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	err := cmd.Wait()
	if _, isExit := err.(*exec.ExitError); err != nil && !isExit {
		kit.Bug("%s: %v", name, err)
	}
	return ran{cmd.ProcessState.ExitCode(), o.String(), e.String()}
}

func (r ran) String() string {
	return fmt.Sprintf("exit %d, stdout %q, stderr %q", r.code, cut(r.out), cut(r.err))
}

// books are the sample books of the commands, and the names phrases use.
var books = []map[string]interface{}{
	{"title": "Book", "author": "Joe", "pages": 100, "rating": 4, "on_loan": true},
	{"title": "Other Book", "author": "Jane", "pages": 200, "rating": 3, "on_loan": true},
	{"title": "Some Book", "author": "Jane", "pages": 50, "rating": 5, "on_loan": true},
	{"title": "Some Other Book", "author": "Jane", "pages": 50, "on_loan": false},
	{"title": "Good Book", "author": "Joe", "pages": 150, "rating": 4, "on_loan": true},
	{"title": "Some Great Book", "author": "Jane", "pages": 550, "rating": 2, "on_loan": true},
	{"title": "Other Great Book", "author": "Jane", "pages": 250, "on_loan": false},
	{"title": "My Big Book", "author": "Joe", "pages": 15, "rating": 5, "on_loan": false},
}

var bookFields = map[string]string{"title": "title", "author": "author", "pages": "spec.pages", "rating": "spec.rating", "on_loan": "onloan"}

// bookCond draws a condition over the books' fields.
func bookCond(t *rapid.T, d int) *N {
	if d > 0 && chance(t, "logic", 55) {
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			return un("NOT", bookCond(t, d-1))
		}
		return bin(pick(t, "op", "AND", "OR"), bookCond(t, d-1), bookCond(t, d-1))
	}
	n := func() *N {
		x := id(pick(t, "numField", "pages", "rating", "pages"))
		if chance(t, "math", 25) {
			return bin(pick(t, "math", "ADD", "SUB", "MUL", "DIV", "MOD"), x, num(float64(rapid.IntRange(1, 5).Draw(t, "by"))))
		}
		return x
	}
	v := func() *N {
		return num(pick(t, "v", 0.0, 2, 3, 4, 5, 15, 50, 100, 150, 200, 250, 551))
	}
	s := func() *N {
		return str(pick(t, "s", "Joe", "Jane", "joe", "Book", "Some Book", "Good Book", "%Book", "%o%", "My%", "J_n_", "Other.*", "^Some", "ob"))
	}
	switch rapid.IntRange(0, 8).Draw(t, "form") {
	case 0:
		return bin("IS", id(pick(t, "field", "rating", "title", "pages", "on_loan")), null())
	case 1:
		return bin("IN", id(pick(t, "sField", "title", "author")), arr(s(), s()))
	case 2:
		return bin("IN", n(), arr(v(), v(), v()))
	case 3:
		return bin("BETWEEN", n(), arr(v(), v()))
	case 4:
		if chance(t, "bare", 30) {
			return id("on_loan")
		}
		return bin(pick(t, "op", "EQ", "NE"), id("on_loan"), boolean(rapid.Bool().Draw(t, "b")))
	case 5, 6:
		return bin(pick(t, "op", "EQ", "NE", "LIKE", "ILIKE", "REQ", "RNE"), id(pick(t, "sField", "title", "author")), s())
	}
	return bin(pick(t, "op", "EQ", "NE", "LT", "LE", "GT", "GE"), n(), v())
}

func genCLI(t *rapid.T) cliCase {
	c := cliCase{Cmd: pick(t, "cmd", "tsl", "tsl_parser", "tsl_parser", "tsl_parser", "tsl_mem", "tsl_mem")}
	var n *N
	if c.Cmd == "tsl_mem" {
		n = bookCond(t, rapid.IntRange(0, 3).Draw(t, "depth"))
		if chance(t, "wild", 15) {
			n = typed{t, 10}.cond(2)
		}
		c.Out = pick(t, "out", "", "json", "yaml", "xml")
	} else {
		n = stretch(t, genTree(t, rapid.IntRange(0, 4).Draw(t, "depth")), 10, true)
		if chance(t, "sqlish", 50) {
			n = sqlTree(t, rapid.IntRange(0, 4).Draw(t, "depth"), true)
		}
		if c.Cmd == "tsl_parser" {
			c.Out = pick(t, "out", "", "json", "yaml", "sql", "sql", "dot", "dot", "text")
			c.Table = pick(t, "table", "", "", "users", "a.b")
		}
	}
	s := render(t, n)
	if chance(t, "break", 25) {
		s = mutate(t, s)
	}
	c.Text = kit.Str(strings.ReplaceAll(s, "\x00", ""))
	return c
}

// dump is the tree as the tsl command prints it.
func dump(n *tsl.TSLNode, level int, b *strings.Builder) {
	if n == nil {
		return
	}
	fmt.Fprintf(b, "%s", strings.Repeat("  ", level))
	v := n.Value()
	switch n.Type() {
	case tsl.KindBinaryExpr, tsl.KindUnaryExpr:
		op := v.(tsl.TSLExpressionOp)
		fmt.Fprintf(b, "[%s]\n", op.Operator)
		dump(op.Left, level+1, b)
		dump(op.Right, level+1, b)
		return
	case tsl.KindArrayLiteral:
		fmt.Fprintf(b, "[%s]:\n", n.Type())
		for _, e := range v.(tsl.TSLArrayLiteral).Values {
			dump(e, level+1, b)
		}
		return
	}
	switch x := v.(type) {
	case string:
		if n.Type() == tsl.KindStringLiteral {
			x = strings.Trim(strconv.Quote(x), "\"")
			if q := strconv.Quote(v.(string)); len(q) >= 2 {
				x = q[1 : len(q)-1]
			}
		}
		fmt.Fprintf(b, "[%s]: %s\n", n.Type(), x)
	case time.Time:
		fmt.Fprintf(b, "[%s]: %s\n", n.Type(), x.Format("2006-01-02T15:04:05.999999999-07:00"))
	default:
		fmt.Fprintf(b, "[%s]: %v\n", n.Type(), x)
	}
}

func sameJSON(a, b []byte) bool {
	var x, y interface{}
	d := json.NewDecoder(bytes.NewReader(a))
	d.UseNumber()
	e := json.NewDecoder(bytes.NewReader(b))
	e.UseNumber()
	return d.Decode(&x) == nil && e.Decode(&y) == nil && !d.More() && reflect.DeepEqual(x, y)
}

func (c cliCase) args() []string {
	text := string(c.Text)
	var args []string
	if c.Cmd == "tsl" {
		args = []string{"--", text}
	} else {
		args = []string{"-i", text}
		if c.Out != "" {
			args = append(args, "-o", c.Out)
		}
		if c.Table != "" {
			args = append(args, "-t", c.Table)
		}
	}
	return args
}

func checkCLI(c cliCase, x *kit.X) error {
	text := string(c.Text)
	args := c.args()
	r := command(c.Cmd, args...)
	fail := func(format string, a ...interface{}) error {
		return fmt.Errorf("%s %q: %s\n%s", c.Cmd, args, fmt.Sprintf(format, a...), r)
	}
	refused := func(why string) error {
		x.Label("refused: %s", why)
		if r.code == 0 {
			return fail("exits with 0, although %s", why)
		}
		if r.code < 0 || strings.Contains(r.err, "goroutine ") {
			return fail("crashes, although only %s", why)
		}
		out := r.out
		if c.Cmd == "tsl" {
			out = strings.TrimPrefix(out, "Parsing: "+text+"\n")
		}
		if strings.TrimSpace(out) != "" {
			return fail("prints a result, although %s", why)
		}
		if strings.TrimSpace(r.err) == "" {
			return fail("prints no error, although %s", why)
		}
		return nil
	}
	x.Label("%s %s", c.Cmd, c.Out)
	x.Sample("%s %q", c.Cmd, args)
	if c.Cmd != "tsl" && text == "" {
		return refused("there is no phrase")
	}
	t, err := tsl.ParseTSL(text)
	if err != nil {
		return refused("the phrase is rejected")
	}
	defer t.Free()
	accepted := func() error {
		if r.code != 0 {
			return fail("fails")
		}
		if t.Type() == tsl.KindBinaryExpr || t.Type() == tsl.KindUnaryExpr {
			x.NonTrivial()
		}
		return nil
	}
	switch c.Cmd {
	case "tsl":
		if err := accepted(); err != nil {
			return err
		}
		var b strings.Builder
		dump(t, 0, &b)
		if got := strings.TrimPrefix(r.out, "Parsing: "+text+"\n"); got != b.String() {
			return fail("the tree is\n%s", b.String())
		}
	case "tsl_parser":
		switch c.Out {
		case "", "json":
			want, err := json.Marshal(t)
			if err != nil {
				return refused("the tree has no JSON rendering")
			}
			if err := accepted(); err != nil {
				return err
			}
			if !sameJSON([]byte(r.out), want) {
				return fail("the JSON rendering is %s", want)
			}
		case "yaml":
			want, err := yaml.Marshal(t)
			if err != nil {
				return refused("the tree has no YAML rendering")
			}
			if err := accepted(); err != nil {
				return err
			}
			var a, b interface{}
			if r.out == string(want)+"\n" || r.out == string(want) {
				break // also when the library's own text cannot be read back (a text that starts with a line break)
			}
			if yaml.Unmarshal([]byte(r.out), &a) != nil || yaml.Unmarshal(want, &b) != nil || fmt.Sprintf("%#v", a) != fmt.Sprintf("%#v", b) {
				return fail("the YAML rendering is %s", want)
			}
		case "dot":
			if err := accepted(); err != nil {
				return err
			}
			s := strings.TrimSpace(r.out)
			if !strings.HasPrefix(s, "digraph") || !strings.HasSuffix(s, "}") || strings.IndexByte(s, '{') < 0 || strings.TrimSpace(s[7:strings.IndexByte(s, '{')]) != "" {
				return fail("is no digraph")
			}
			s = s[strings.IndexByte(s, '{')+1 : len(s)-1]
			if err := isDrawing(s, fromTSL(t), "", 0); err != nil {
				return fail("%v", err)
			}
		case "sql":
			filter, err := sql.Walk(t)
			if err != nil {
				return refused("the phrase has no SQL")
			}
			table := c.Table
			if table == "" {
				table = "table_name"
			}
			q, a, err := sq.Select("*").From(table).Where(filter).ToSql()
			if err != nil {
				return refused("the phrase has no SQL")
			}
			if err := accepted(); err != nil {
				return err
			}
			if want := fmt.Sprintf("sql:  %s\nargs: %v\n", q, a); r.out != want {
				return fail("the SQL is %s", want)
			}
		default:
			return refused("the format is unknown")
		}
	case "tsl_mem":
		model := fromTSL(t)
		for _, name := range identsOf(model) {
			if bookFields[name] == "" {
				return refused("a field is unknown")
			}
		}
		var want []map[string]interface{}
		for _, b := range books {
			refUnsure = false
			v, err := refEval(model, func(k string) (interface{}, bool) { return b[k], true })
			if refUnsure {
				x.Exclude()
				return nil
			}
			if err != nil {
				return refused("the phrase cannot be evaluated")
			}
			if v == true {
				row := map[string]interface{}{}
				for k, v := range b {
					row[bookFields[k]] = v
				}
				want = append(want, row)
			}
		}
		if c.Out == "xml" {
			return refused("the format is unknown")
		}
		if err := accepted(); err != nil {
			return err
		}
		var got []map[string]interface{}
		unmarshal := json.Unmarshal
		if c.Out == "yaml" {
			unmarshal = yaml.Unmarshal
		}
		if err := unmarshal([]byte(r.out), &got); err != nil {
			return fail("malformed output: %v", err)
		}
		if got == nil {
			return fail("prints no list")
		}
		a, _ := json.Marshal(append([]map[string]interface{}{}, got...))
		b, _ := json.Marshal(append([]map[string]interface{}{}, want...))
		if !sameJSON(a, b) {
			return fail("the phrase selects %s", b)
		}
		x.LabelIf(len(got) > 0 && len(got) < len(books), "some books")
	}
	return nil
}

func init() {
	kit.Register("C19/run", "a phrase (a quarter of them broken) given to tsl, tsl_parser (every output format, table names) or tsl_mem (conditions over the books); exit status and output compared with the library and the reference evaluator; non-trivial: accepted and not a lone literal",
		genCLI, checkCLI)
}
