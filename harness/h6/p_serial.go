package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C05: JSON and YAML renderings -----------------------------------------

type serialCase struct {
	Tree *N
	Cuts []int // operands detached, as indices into the operand slots in walk order
	Via  int   // 0: the parsed tree, 1: a clone of it
}

// build parses the canonical spelling of n.
func build(n *N) (*tsl.TSLNode, error) {
	s := render(nil, n)
	t, err := tsl.ParseTSL(s)
	if err != nil {
		return nil, fmt.Errorf("%q is in the language but was rejected: %v", s, err)
	}
	return t, nil
}

// slot is one operand position, in the model and in the tree.
type slot struct {
	n    *N
	side byte // 'L', 'R', 'E'
	i    int
}

func slots(n *N) (out []slot) {
	n.walk(func(m *N) {
		if m.K == "BINARY_EXP" {
			out = append(out, slot{m, 'L', 0}, slot{m, 'R', 0})
		}
		if m.K == "UNARY_EXP" {
			out = append(out, slot{m, 'R', 0})
		}
	})
	return
}

// find gives the tree node that corresponds to model node m.
func find(root *N, t *tsl.TSLNode, m *N) *tsl.TSLNode {
	if root == m {
		return t
	}
	if root == nil || t == nil {
		return nil
	}
	switch v := t.Value().(type) {
	case tsl.TSLExpressionOp:
		if root.L != nil {
			if f := find(root.L, v.Left, m); f != nil {
				return f
			}
		}
		if root.R != nil {
			return find(root.R, v.Right, m)
		}
	case tsl.TSLArrayLiteral:
		for i, e := range root.E {
			if f := find(e, v.Values[i], m); f != nil {
				return f
			}
		}
	}
	return nil
}

// cutTree detaches operands of t and of the model alike.
func cutTree(root *N, t *tsl.TSLNode, cuts []int) error {
	for _, c := range cuts {
		ss := slots(root)
		if len(ss) == 0 {
			return nil
		}
		s := ss[c%len(ss)]
		if s.side == 'L' && s.n.L == nil || s.side == 'R' && s.n.R == nil {
			continue
		}
		tn := find(root, t, s.n)
		if tn == nil {
			return fmt.Errorf("the tree lacks a node of its own model: %v", root)
		}
		var d *tsl.TSLNode
		var want *N
		switch {
		case s.side == 'L':
			d, want, s.n.L = tn.DetachLeft(), s.n.L, nil
		case s.n.K == "UNARY_EXP":
			d, want, s.n.R = tn.DetachChild(), s.n.R, nil
		default:
			d, want, s.n.R = tn.DetachRight(), s.n.R, nil
		}
		if got := fromTSL(d); !equalN(got, want) {
			return fmt.Errorf("detached %v, wanted %v", got, want)
		}
		d.Free()
	}
	return nil
}

// fromDoc rebuilds the tree from a decoded JSON or YAML document.
func fromDoc(v interface{}) (*N, error) {
	if v == nil {
		return nil, nil
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("node is a %T", v)
	}
	typ, ok := m["type"].(string)
	if !ok {
		return nil, fmt.Errorf("node has no type: %v", m)
	}
	keys := func(allowed ...string) error {
		for k := range m {
			found := false
			for _, a := range allowed {
				found = found || a == k
			}
			if !found {
				return fmt.Errorf("%s node has key %q", typ, k)
			}
		}
		return nil
	}
	n := &N{K: typ}
	var err error
	switch typ {
	case "BINARY_EXP", "UNARY_EXP":
		if n.Op, ok = m["operator"].(string); !ok {
			return nil, fmt.Errorf("%s node has no operator: %v", typ, m)
		}
		if n.L, err = fromDoc(m["left"]); err != nil {
			return nil, err
		}
		if n.R, err = fromDoc(m["right"]); err != nil {
			return nil, err
		}
		if m["value"] != nil {
			return nil, fmt.Errorf("%s node has a value", typ)
		}
		return n, keys("type", "operator", "left", "right", "value")
	case "ARRAY":
		vals, ok := m["values"].([]interface{})
		if !ok {
			return nil, fmt.Errorf("ARRAY node has no list of values: %v", m)
		}
		for _, e := range vals {
			x, err := fromDoc(e)
			if err != nil {
				return nil, err
			}
			n.E = append(n.E, x)
		}
		return n, keys("type", "values")
	}
	val, present := m["value"]
	if !present {
		return nil, fmt.Errorf("%s node has no value", typ)
	}
	if err := keys("type", "value"); err != nil {
		return nil, err
	}
	switch typ {
	case "NUMBER":
		switch f := val.(type) {
		case json.Number:
			n.F, err = strconv.ParseFloat(string(f), 64)
			return n, err
		case float64:
			n.F = f
		case int:
			n.F = float64(f)
		case int64:
			n.F = float64(f)
		case uint64:
			n.F = float64(f)
		default:
			return nil, fmt.Errorf("NUMBER node with a %T value %v", val, val)
		}
		return n, nil
	case "BOOLEAN":
		if n.B, ok = val.(bool); !ok {
			return nil, fmt.Errorf("BOOLEAN node with a %T value", val)
		}
		return n, nil
	case "NULL":
		return n, nil
	}
	switch s := val.(type) {
	case string:
		n.S = s
	case time.Time:
		if typ != "TIMESTAMP" {
			return nil, fmt.Errorf("%s node with a timestamp value %v", typ, s)
		}
		n.S = s.Format(time.RFC3339Nano)
	default:
		return nil, fmt.Errorf("%s node with a %T value %v", typ, val, val)
	}
	return n, nil
}

// sameDoc is equalN, except that the sign of zero is not compared (YAML has no -0).
func sameDoc(a, b *N, yaml bool) bool {
	if yaml {
		z := func(n *N) *N {
			c := n.clone()
			c.walk(func(m *N) {
				if m.F == 0 {
					m.F = 0 * math.Abs(m.F)
				}
			})
			return c
		}
		a, b = z(a), z(b)
	}
	return equalN(a, b)
}

// plain is the document of n as plain data.
func plain(n *N) interface{} {
	type op struct {
		Type     string      `yaml:"type"`
		Operator string      `yaml:"operator"`
		Left     interface{} `yaml:"left,omitempty"`
		Right    interface{} `yaml:"right,omitempty"`
	}
	type leaf struct {
		Type  string      `yaml:"type"`
		Value interface{} `yaml:"value"`
	}
	if n == nil {
		return nil
	}
	switch n.K {
	case "BINARY_EXP", "UNARY_EXP":
		return op{n.K, n.Op, plain(n.L), plain(n.R)}
	case "ARRAY":
		e := []interface{}{}
		for _, m := range n.E {
			e = append(e, plain(m))
		}
		return struct {
			Type   string        `yaml:"type"`
			Values []interface{} `yaml:"values"`
		}{n.K, e}
	case "NUMBER":
		return leaf{n.K, n.F}
	case "BOOLEAN":
		return leaf{n.K, n.B}
	}
	return leaf{n.K, n.S}
}

// yamlSafe: the YAML library itself round-trips the document of n (it fails on
// some strings with leading space).
func yamlSafe(n *N) bool {
	b, err := yaml.Marshal(plain(n))
	if err != nil {
		return false
	}
	var v interface{}
	if yaml.Unmarshal(b, &v) != nil {
		return false
	}
	m, err := fromDoc(v)
	return err == nil && sameDoc(m, n, true)
}

func checkSerial(c serialCase, x *kit.X) error {
	model := c.Tree.clone()
	t, err := build(model)
	if err != nil {
		return err
	}
	defer t.Free()
	if c.Via == 1 {
		u := t.Clone()
		defer u.Free()
		t = u
	}
	if err := cutTree(model, t, c.Cuts); err != nil {
		return err
	}
	inf := false
	model.walk(func(m *N) { inf = inf || math.IsInf(m.F, 0) })
	if inf {
		x.Exclude() // JSON has no infinity
		return nil
	}
	data, err := json.Marshal(t)
	if err != nil {
		return fmt.Errorf("%v does not marshal to JSON: %v", model, cut(err.Error()))
	}
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil || dec.More() {
		return fmt.Errorf("%v: malformed JSON %s: %v", model, data, err)
	}
	got, err := fromDoc(v)
	if err != nil {
		return fmt.Errorf("%v: JSON %s: %v", model, data, err)
	}
	if !sameDoc(got, model, false) {
		return fmt.Errorf("JSON %s\nstands for\n  %v\nbut the tree is\n  %v", data, got, model)
	}
	wrapped, err := json.Marshal(map[string]interface{}{"q": t, "n": []*tsl.TSLNode{t, nil}})
	if err != nil {
		return fmt.Errorf("%v inside a document: %v", model, cut(err.Error()))
	}
	if want := fmt.Sprintf(`{"n":[%s,null],"q":%s}`, data, data); string(wrapped) != want {
		return fmt.Errorf("inside a document the tree renders as\n%s\nwanted\n%s", wrapped, want)
	}
	if !yamlSafe(model) {
		x.Label("string the YAML library itself does not round-trip")
	} else {
		data, err := yaml.Marshal(t)
		if err != nil {
			return fmt.Errorf("%v does not marshal to YAML: %v", model, cut(err.Error()))
		}
		var v interface{}
		if err := yaml.Unmarshal(data, &v); err != nil {
			return fmt.Errorf("%v: malformed YAML: %v\n%s", model, err, data)
		}
		got, err := fromDoc(v)
		if err != nil {
			return fmt.Errorf("%v: YAML: %v\n%s", model, err, data)
		}
		if !sameDoc(got, model, true) {
			return fmt.Errorf("YAML\n%s\nstands for\n  %v\nbut the tree is\n  %v", data, got, model)
		}
	}
	if now := fromTSL(t); !equalN(now, model) {
		return fmt.Errorf("marshalling changed the tree to\n  %v\nfrom\n  %v", now, model)
	}
	x.LabelIf(len(c.Cuts) > 0, "partial")
	model.walk(func(m *N) { x.LabelIf(m.K == "TIMESTAMP", "timestamp") })
	if model.size() >= 3 || len(c.Cuts) > 0 {
		x.NonTrivial()
	}
	return nil
}

func cut(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func genCuts(t *rapid.T, pct int) (out []int) {
	if chance(t, "cutting", pct) {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "cuts"); i < n; i++ {
			out = append(out, rapid.IntRange(0, 60).Draw(t, "cut"))
		}
	}
	return
}

func init() {
	kit.Register("C05/doc", "a drawn tree of up to 5 levels, parsed (or parsed and cloned), with 0-3 operands detached; rendered as JSON (alone and inside a document) and YAML, decoded and compared; non-trivial: at least 3 nodes or a detached operand",
		func(t *rapid.T) serialCase {
			n := stretch(t, genTree(t, rapid.IntRange(0, 5).Draw(t, "depth")), 3, true)
			return serialCase{Tree: n, Cuts: genCuts(t, 30), Via: rapid.IntRange(0, 1).Draw(t, "via")}
		}, checkSerial)
}
