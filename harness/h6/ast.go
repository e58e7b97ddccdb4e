package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
)

// N is the reference syntax tree. K is the documented node kind name, Op the
// documented operator name.
type N struct {
	K  string
	Op string  `json:",omitempty"`
	S  string  `json:",omitempty"` // string, identifier, date, timestamp (source text)
	F  float64 `json:",omitempty"`
	B  bool    `json:",omitempty"`
	L  *N      `json:",omitempty"`
	R  *N      `json:",omitempty"`
	E  []*N    `json:",omitempty"`
}

func num(f float64) *N          { return &N{K: "NUMBER", F: f} }
func str(s string) *N           { return classify(s) }
func id(s string) *N            { return &N{K: "IDENTIFIER", S: s} }
func boolean(b bool) *N         { return &N{K: "BOOLEAN", B: b} }
func null() *N                  { return &N{K: "NULL"} }
func arr(e ...*N) *N            { return &N{K: "ARRAY", E: e} }
func bin(op string, l, r *N) *N { return &N{K: "BINARY_EXP", Op: op, L: l, R: r} }
func un(op string, r *N) *N     { return &N{K: "UNARY_EXP", Op: op, R: r} }

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

// isDateForm: YYYY-MM-DD, digits only.
func isDateForm(s string) bool {
	return len(s) == 10 && digits(s[:4]) && s[4] == '-' && digits(s[5:7]) && s[7] == '-' && digits(s[8:])
}

// isTimestampForm: YYYY-MM-DDThh:mm:ss[.frac](Z|+hh:mm|-hh:mm), digits only.
func isTimestampForm(s string) bool {
	if len(s) < 20 || !isDateForm(s[:10]) || s[10] != 'T' {
		return false
	}
	t := s[11:]
	if !digits(t[:2]) || t[2] != ':' || !digits(t[3:5]) || t[5] != ':' || !digits(t[6:8]) {
		return false
	}
	t = t[8:]
	if strings.HasPrefix(t, ".") {
		i := 1
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		if i == 1 {
			return false
		}
		t = t[i:]
	}
	if t == "Z" {
		return true
	}
	return len(t) == 6 && (t[0] == '+' || t[0] == '-') && digits(t[1:3]) && t[3] == ':' && digits(t[4:])
}

// classify gives the literal node a quoted string denotes.
func classify(s string) *N {
	switch {
	case isDateForm(s):
		return &N{K: "DATE", S: s}
	case isTimestampForm(s):
		return &N{K: "TIMESTAMP", S: s}
	}
	return &N{K: "STRING", S: s}
}

// fromTSL reads the whole tree through the public API.
func fromTSL(n *tsl.TSLNode) *N {
	if n == nil {
		return nil
	}
	k := n.Type().String()
	switch v := n.Value().(type) {
	case bool:
		return &N{K: k, B: v}
	case float64:
		return &N{K: k, F: v}
	case string:
		if k == "NULL" {
			return &N{K: k}
		}
		return &N{K: k, S: v}
	case time.Time:
		return &N{K: k, S: v.Format(time.RFC3339Nano)}
	case tsl.TSLExpressionOp:
		m := &N{K: k, Op: v.Operator.String(), L: fromTSL(v.Left), R: fromTSL(v.Right)}
		return m
	case tsl.TSLArrayLiteral:
		m := &N{K: k}
		for _, e := range v.Values {
			m.E = append(m.E, fromTSL(e))
		}
		return m
	default:
		return &N{K: k, S: fmt.Sprintf("?%T", v)}
	}
}

func sameStamp(a, b string) bool {
	if a == b {
		return true
	}
	ta, ea := time.Parse(time.RFC3339, a)
	tb, eb := time.Parse(time.RFC3339, b)
	if ea != nil || eb != nil || !ta.Equal(tb) {
		return false
	}
	_, oa := ta.Zone()
	_, ob := tb.Zone()
	return oa == ob
}

func sameFloat(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b) || math.IsNaN(a) && math.IsNaN(b)
}

func equalN(a, b *N) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.K != b.K || a.Op != b.Op || a.B != b.B || !sameFloat(a.F, b.F) || len(a.E) != len(b.E) {
		return false
	}
	if a.S != b.S && !(a.K == "TIMESTAMP" && sameStamp(a.S, b.S)) {
		return false
	}
	for i := range a.E {
		if !equalN(a.E[i], b.E[i]) {
			return false
		}
	}
	return equalN(a.L, b.L) && equalN(a.R, b.R)
}

func (n *N) String() string {
	if n == nil {
		return "<nil>"
	}
	switch n.K {
	case "NUMBER":
		return fmt.Sprint(n.F)
	case "BOOLEAN":
		return fmt.Sprint(n.B)
	case "NULL":
		return "NULL"
	case "BINARY_EXP":
		return fmt.Sprintf("%s(%v, %v)", n.Op, n.L, n.R)
	case "UNARY_EXP":
		if n.L != nil {
			return fmt.Sprintf("%s(LEFT %v, %v)", n.Op, n.L, n.R)
		}
		return fmt.Sprintf("%s(%v)", n.Op, n.R)
	case "ARRAY":
		var p []string
		for _, e := range n.E {
			p = append(p, e.String())
		}
		return "[" + strings.Join(p, ", ") + "]"
	}
	return fmt.Sprintf("%s:%q", n.K, n.S)
}

func (n *N) clone() *N {
	if n == nil {
		return nil
	}
	c := *n
	c.L, c.R = n.L.clone(), n.R.clone()
	c.E = nil
	for _, e := range n.E {
		c.E = append(c.E, e.clone())
	}
	return &c
}

func (n *N) walk(f func(*N)) {
	if n == nil {
		return
	}
	f(n)
	n.L.walk(f)
	n.R.walk(f)
	for _, e := range n.E {
		e.walk(f)
	}
}

func (n *N) size() int {
	c := 0
	n.walk(func(*N) { c++ })
	return c
}

func (n *N) depth() int {
	if n == nil {
		return 0
	}
	d := n.L.depth()
	if r := n.R.depth(); r > d {
		d = r
	}
	for _, e := range n.E {
		if x := e.depth(); x > d {
			d = x
		}
	}
	return d + 1
}
