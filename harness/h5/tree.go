package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	kit "vkit"
)

// T is the harness's own syntax tree. F is the kind of node ("ident", "string",
// "number", "boolean", "date", "array" or an operator); S the name, the string or
// the date's text.
type T struct {
	F string
	S kit.Str `json:",omitempty"`
	N float64 `json:",omitempty"`
	B bool    `json:",omitempty"`
	L *T      `json:",omitempty"`
	R *T      `json:",omitempty"`
	E []*T    `json:",omitempty"`
}

func id(s string) *T           { return &T{F: "ident", S: kit.Str(s)} }
func str(s string) *T          { return &T{F: "string", S: kit.Str(s)} }
func num(f float64) *T         { return &T{F: "number", N: f} }
func boolean(b bool) *T        { return &T{F: "boolean", B: b} }
func date(s string) *T         { return &T{F: "date", S: kit.Str(s)} }
func bin(f string, l, r *T) *T { return &T{F: f, L: l, R: r} }
func not(l *T) *T              { return &T{F: "not", L: l} }
func list(e ...*T) *T          { return &T{F: "array", E: e} }

func (n *T) leaf() bool {
	switch n.F {
	case "ident", "string", "number", "boolean", "date":
		return true
	}
	return false
}

func (n *T) math() bool {
	switch n.F {
	case "add", "subtract", "multiply", "divide", "modulo":
		return true
	}
	return false
}

func (n *T) walk(f func(*T)) {
	if n == nil {
		return
	}
	f(n)
	n.L.walk(f)
	n.R.walk(f)
	for _, e := range n.E {
		e.walk(f)
	}
}

func (n *T) clone() *T {
	if n == nil {
		return nil
	}
	c := *n
	c.L, c.R, c.E = n.L.clone(), n.R.clone(), nil
	for _, e := range n.E {
		c.E = append(c.E, e.clone())
	}
	return &c
}

func (n *T) size() (k int) {
	n.walk(func(*T) { k++ })
	return
}

func (n *T) depth() int {
	if n == nil {
		return 0
	}
	d := max(n.L.depth(), n.R.depth())
	for _, e := range n.E {
		d = max(d, e.depth())
	}
	return d + 1
}

func (n *T) String() string {
	if n == nil {
		return "<none>"
	}
	switch n.F {
	case "ident", "string", "date":
		return n.F + ":" + strconv.QuoteToASCII(string(n.S))
	case "number":
		return "number:" + strconv.FormatFloat(n.N, 'g', -1, 64)
	case "boolean":
		return fmt.Sprint(n.B)
	case "array":
		var p []string
		for _, e := range n.E {
			p = append(p, e.String())
		}
		return "[" + strings.Join(p, ", ") + "]"
	}
	if n.R == nil {
		return "(" + n.F + " " + n.L.String() + ")"
	}
	return "(" + n.L.String() + " " + n.F + " " + n.R.String() + ")"
}

func same(a, b *T) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.F != b.F || len(a.E) != len(b.E) || !same(a.L, b.L) || !same(a.R, b.R) {
		return false
	}
	for i := range a.E {
		if !same(a.E[i], b.E[i]) {
			return false
		}
	}
	switch a.F {
	case "ident", "string":
		return a.S == b.S
	case "number":
		return a.N == b.N
	case "boolean":
		return a.B == b.B
	case "date":
		x, y := readDate(string(a.S)), readDate(string(b.S))
		return x.ok && y.ok && x.sec == y.sec && x.nano == y.nano && x.offset == y.offset
	}
	return true
}

// node builds the library's tree.
func (n *T) node() tsl.Node {
	m := tsl.Node{Func: "$" + n.F}
	switch n.F {
	case "ident", "string":
		m.Left = string(n.S)
		return m
	case "number":
		m.Left = n.N
		return m
	case "boolean":
		m.Left = n.B
		return m
	case "date":
		m.Left = readDate(string(n.S)).time()
		return m
	case "array":
		e := make([]tsl.Node, len(n.E))
		for i := range n.E {
			e[i] = n.E[i].node()
		}
		m.Right = e
		return m
	}
	m.Left = n.L.node()
	if n.R != nil {
		m.Right = n.R.node()
	}
	return m
}

const stampForm = "2006-01-02T15:04:05.999999999Z07:00"

// tree reads the library's tree back; a node of an unknown form is an error.
func tree(v interface{}) (*T, error) {
	m, ok := v.(tsl.Node)
	if !ok {
		return nil, fmt.Errorf("a %T where a node belongs", v)
	}
	if !strings.HasPrefix(m.Func, "$") {
		return nil, fmt.Errorf("node of kind %q", m.Func)
	}
	n := &T{F: m.Func[1:]}
	if n.leaf() {
		if m.Right != nil {
			return nil, fmt.Errorf("leaf %v has a right operand", m)
		}
		switch x := m.Left.(type) {
		case string:
			n.S = kit.Str(x)
			ok = n.F == "ident" || n.F == "string"
		case float64:
			n.N = x
			ok = n.F == "number"
		case bool:
			n.B = x
			ok = n.F == "boolean"
		case time.Time:
			n.S = kit.Str(x.Format(stampForm))
			ok = n.F == "date"
		default:
			ok = false
		}
		if !ok {
			return nil, fmt.Errorf("leaf of kind %q holds a %T", m.Func, m.Left)
		}
		return n, nil
	}
	if n.F == "array" {
		e, ok := m.Right.([]tsl.Node)
		if !ok || m.Left != nil {
			return nil, fmt.Errorf("list with a %T and a %T", m.Left, m.Right)
		}
		for _, x := range e {
			c, err := tree(x)
			if err != nil {
				return nil, err
			}
			n.E = append(n.E, c)
		}
		return n, nil
	}
	var err error
	if n.L, err = tree(m.Left); err != nil {
		return nil, err
	}
	if m.Right != nil {
		n.R, err = tree(m.Right)
	}
	return n, err
}

// parse parses a phrase with the library.
func parse(s string) (*T, tsl.Node, error) {
	m, err := tsl.ParseTSL(s)
	if err != nil {
		return nil, m, err
	}
	n, err := tree(m)
	if err != nil {
		return nil, m, fmt.Errorf("malformed tree: %v", err)
	}
	return n, m, nil
}

// copyNode copies a library tree with its lists.
func copyNode(v interface{}) interface{} {
	switch x := v.(type) {
	case tsl.Node:
		x.Left, x.Right = copyNode(x.Left), copyNode(x.Right)
		return x
	case []tsl.Node:
		out := make([]tsl.Node, len(x))
		for i := range x {
			out[i] = copyNode(x[i]).(tsl.Node)
		}
		return out
	}
	return v
}

func unchanged(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// ---- dates -----------------------------------------------------------------

// moment is an instant and the offset it was written with.
type moment struct {
	sec    int64
	nano   int
	offset int
	ok     bool // a date of the calendar
	unsure bool // no rule says whether it is valid
}

func (m moment) time() time.Time {
	l := time.UTC
	if m.offset != 0 {
		l = time.FixedZone("", m.offset)
	}
	return time.Unix(m.sec, int64(m.nano)).In(l)
}

func digits(s string) (n int) {
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// dayNumber counts days from 1970-01-01.
func dayNumber(y, m, d int) int64 {
	if m <= 2 {
		y--
		m += 12
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	doy := (153*(m-3)+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return int64(era)*146097 + int64(doe) - 719468
}

// readDate reads the text of a date or timestamp token.
func readDate(s string) (r moment) {
	y, m, d := digits(s[:4]), digits(s[5:7]), digits(s[8:10])
	if m < 1 || m > 12 || d < 1 || d > daysIn(y, m) {
		return
	}
	r.sec = dayNumber(y, m, d) * 86400
	r.ok = true
	if len(s) == 10 {
		return
	}
	h, mi, sec := digits(s[11:13]), digits(s[14:16]), digits(s[17:19])
	if h > 23 || mi > 59 || sec > 59 {
		r.unsure = h == 24 || sec == 60
		r.ok = false
		return
	}
	r.sec += int64(h*3600 + mi*60 + sec)
	s = s[19:]
	if s[0] == '.' {
		j := 1
		for s[j] >= '0' && s[j] <= '9' {
			j++
		}
		f := s[1:j]
		if len(f) > 9 {
			f = f[:9]
		}
		r.nano = digits(f + strings.Repeat("0", 9-len(f)))
		s = s[j:]
	}
	if s == "Z" {
		return
	}
	oh, om := digits(s[1:3]), digits(s[4:6])
	if oh > 23 || om > 59 {
		r.unsure = oh == 24 || om == 60
		r.ok = false
		return
	}
	r.offset = oh*3600 + om*60
	if s[0] == '-' {
		r.offset = -r.offset
	}
	r.sec -= int64(r.offset)
	return
}
