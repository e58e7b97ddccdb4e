package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C25: identifiers mapped ------------------------------------------------------

type mapCase struct {
	Tree *T
	To   []kit.Str // what the distinct names map to, in order of appearance
	Fail int       // the name (1, 2, ...) the mapping rejects; 0 for none
}

func namesOf(n *T) (out []string) {
	seen := map[string]bool{}
	n.walk(func(m *T) {
		if m.F == "ident" && !seen[string(m.S)] {
			seen[string(m.S)] = true
			out = append(out, string(m.S))
		}
	})
	return
}

func genMapping(t *rapid.T) mapCase {
	c := mapCase{Tree: genTree(t, upto(t, "depth", 4))}
	few := chance(t, "few", 50)
	c.Tree.walk(func(m *T) {
		if m.F == "ident" && few {
			m.S = kit.Str(pick(t, "name", "a", "b", "c.d", "e"))
		}
	})
	names := namesOf(c.Tree)
	kind := pick(t, "mapping", "identity", "rotate", "prefix", "constant", "any")
	for i, n := range names {
		switch kind {
		case "rotate":
			n = names[(i+1)%len(names)]
		case "prefix":
			n = "t." + n
		case "constant":
			n = "x"
		case "any":
			n = genString(t)
		}
		c.To = append(c.To, kit.Str(n))
	}
	if chance(t, "fails", 20) && len(names) > 0 {
		c.Fail = 1 + upto(t, "fail", len(names)-1)
	}
	return c
}

func checkMapping(c mapCase, x *kit.X) error {
	phrase := render(nil, c.Tree)
	t, m, err := parse(phrase)
	if err != nil {
		return fmt.Errorf("%q: %v", phrase, err)
	}
	if !same(t, c.Tree) {
		return fmt.Errorf("%q parses to %v", phrase, t)
	}
	to := map[string]string{}
	names := namesOf(c.Tree)
	for i, n := range names {
		to[n] = string(c.To[i])
	}
	var asked, present []string
	c.Tree.walk(func(k *T) {
		if k.F == "ident" {
			present = append(present, string(k.S))
		}
	})
	reject := errors.New("unknown name")
	before := copyNode(m)
	got, err := ident.Walk(m, func(s string) (string, error) {
		asked = append(asked, s)
		if c.Fail > 0 && s == names[c.Fail-1] {
			return "rejected", reject
		}
		v, ok := to[s]
		if !ok {
			return s, fmt.Errorf("asked for %q", s)
		}
		return v, nil
	})
	if !unchanged(before, m) {
		return fmt.Errorf("%q: the walk changes the tree to %v", phrase, m)
	}
	for _, a := range asked {
		if _, ok := to[a]; !ok {
			return fmt.Errorf("%q: the mapping is asked for %q", phrase, a)
		}
	}
	if c.Fail > 0 {
		x.Label("rejected")
		if err == nil {
			return fmt.Errorf("%q: the mapping rejects %q, and the walk does not fail", phrase, names[c.Fail-1])
		}
		if !errors.Is(err, reject) && !strings.Contains(err.Error(), reject.Error()) {
			return fmt.Errorf("%q: the mapping fails with %q, the walk with %q", phrase, reject, err)
		}
		x.NonTrivial()
		return nil
	}
	if err != nil {
		return fmt.Errorf("%q: %v", phrase, err)
	}
	sort.Strings(asked)
	sort.Strings(present)
	if fmt.Sprintf("%q", asked) != fmt.Sprintf("%q", present) {
		return fmt.Errorf("%q: the mapping is asked for %q, the names are %q", phrase, asked, present)
	}
	want := c.Tree.clone()
	want.walk(func(k *T) {
		if k.F == "ident" {
			k.S = kit.Str(to[string(k.S)])
		}
	})
	have, err := tree(got)
	if err != nil {
		return fmt.Errorf("%q: malformed tree: %v", phrase, err)
	}
	if !same(have, want) {
		return fmt.Errorf("%q becomes\n  %v\nwanted\n  %v", phrase, have, want)
	}
	// mapping the result leaves the first tree alone too
	if _, err := ident.Walk(got, func(s string) (string, error) { return s + "'", nil }); err != nil {
		return fmt.Errorf("%q: mapping twice: %v", phrase, err)
	}
	if !unchanged(before, m) {
		return fmt.Errorf("%q: mapping the result changes the tree", phrase)
	}
	if again, err := tree(got); err != nil || !same(again, want) {
		return fmt.Errorf("%q: mapping the result changes it", phrase)
	}
	if !same(have, c.Tree) && c.Tree.size() >= 3 {
		x.NonTrivial()
	}
	x.Sample("%s %q", phrase, c.To)
	return nil
}

// ---- C26: drawings and documents ----------------------------------------------------

// shows reads a leaf's label back.
func shows(n *T, v string) bool {
	switch n.F {
	case "ident", "string":
		return v == "'"+string(n.S)+"'"
	case "number":
		f, err := strconv.ParseFloat(v, 64)
		return err == nil && f == n.N
	case "boolean":
		return v == fmt.Sprint(n.B)
	}
	want := readDate(string(n.S)).time()
	for _, form := range []string{"2006-01-02 15:04:05.999999999 -0700 MST", "2006-01-02 15:04:05.999999999 -0700 -0700", time.RFC3339Nano} {
		if d, err := time.Parse(form, v); err == nil && d.Equal(want) {
			return true
		}
	}
	return false
}

func drawn(g *kit.Graph, id string, n *T, seen map[string]bool) error {
	label, ok := g.Label[id]
	if !ok {
		return fmt.Errorf("%v has no node (%s)", n, id)
	}
	if seen[id] {
		return fmt.Errorf("node %s is drawn for two nodes of the tree", id)
	}
	seen[id] = true
	f, err := kit.Fields(label, strings.Contains(strings.ToLower(g.Shape[id]), "record"))
	if err != nil {
		return err
	}
	var kids []*T
	if n.leaf() {
		if len(f) != 2 || !shows(n, strings.TrimSuffix(strings.TrimPrefix(f[1], " "), " ")) {
			return fmt.Errorf("label %q of the leaf %v", label, n)
		}
		f = f[:1]
	} else {
		for _, k := range append([]*T{n.L, n.R}, n.E...) {
			if k != nil {
				kids = append(kids, k)
			}
		}
	}
	if len(f) != 1 || strings.TrimSpace(f[0]) != "$"+n.F {
		return fmt.Errorf("label %q, wanted %q", label, "$"+n.F)
	}
	if len(g.To[id]) != len(kids) {
		return fmt.Errorf("%d edges leave the node of %v, wanted %d", len(g.To[id]), n, len(kids))
	}
	for i, k := range kids {
		if err := drawn(g, g.To[id][i], k, seen); err != nil {
			return err
		}
	}
	return nil
}

// isDrawing checks that text draws n below the node named root (or the one no
// edge enters), and extra nodes more.
func isDrawing(text string, n *T, root string, extra ...string) error {
	g, err := kit.ReadDot(text)
	if err != nil {
		return fmt.Errorf("malformed DOT: %v", err)
	}
	into := map[string]bool{}
	for f, ts := range g.To {
		if _, ok := g.Label[f]; !ok {
			return fmt.Errorf("an edge leaves %s, which is no node", f)
		}
		for _, t := range ts {
			into[t] = true
		}
	}
	if root == "" {
		for _, id := range g.Order {
			if !into[id] && strings.Join(extra, " ") != id {
				root = id
				break
			}
		}
	}
	seen := map[string]bool{}
	if err := drawn(g, root, n, seen); err != nil {
		return err
	}
	if len(g.Label) != n.size()+len(extra) {
		return fmt.Errorf("%d nodes are drawn for a tree of %d", len(g.Label), n.size())
	}
	return nil
}

type drawCase struct {
	Tree *T
	Root string
	In   bool
}

func checkDraw(c drawCase, x *kit.X) error {
	phrase := render(nil, c.Tree)
	t, m, err := parse(phrase)
	if err != nil {
		return fmt.Errorf("%q: %v", phrase, err)
	}
	if !same(t, c.Tree) {
		return fmt.Errorf("%q parses to %v", phrase, t)
	}
	in := ""
	var extra []string
	if c.In {
		in, extra = "before_ [shape=box label=\"before\"]", []string{"before_"}
	}
	before := copyNode(m)
	s, err := graphviz.Walk(in, m, c.Root)
	if err != nil {
		return fmt.Errorf("%q: %v", phrase, err)
	}
	if !unchanged(before, m) {
		return fmt.Errorf("%q: drawing changes the tree", phrase)
	}
	if !strings.HasPrefix(s, in) {
		return fmt.Errorf("%q: the text does not begin with the text given", phrase)
	}
	if err := isDrawing(s, c.Tree, c.Root, extra...); err != nil {
		return fmt.Errorf("%q: %v\n%s", phrase, err, cut(s))
	}
	c.Tree.walk(func(n *T) { x.LabelIf(!n.leaf(), n.F) })
	if c.Tree.size() >= 5 {
		x.NonTrivial()
	}
	x.Sample("%s", phrase)
	return nil
}

func cut(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// fromDoc rebuilds a tree from a decoded JSON or YAML document.
func fromDoc(v interface{}) (*T, error) {
	m := map[string]interface{}{}
	switch d := v.(type) {
	case map[string]interface{}:
		m = d
	case map[interface{}]interface{}:
		for k, e := range d {
			m[fmt.Sprint(k)] = e
		}
	default:
		return nil, fmt.Errorf("node is a %T", v)
	}
	f, ok := m["func"].(string)
	if !ok || !strings.HasPrefix(f, "$") {
		return nil, fmt.Errorf("node of kind %v", m["func"])
	}
	for k := range m {
		if k != "func" && k != "left" && k != "right" {
			return nil, fmt.Errorf("node has a key %q", k)
		}
	}
	n := &T{F: f[1:]}
	var err error
	if n.leaf() {
		if m["right"] != nil {
			return nil, fmt.Errorf("the leaf %v has a right operand", m)
		}
		switch l := m["left"].(type) {
		case string:
			n.S = kit.Str(l)
			ok = n.F == "ident" || n.F == "string" || n.F == "date"
			if n.F == "date" {
				_, err = time.Parse(time.RFC3339Nano, l)
			}
		case time.Time:
			n.S = kit.Str(l.Format(stampForm))
			ok = n.F == "date"
		case json.Number:
			n.N, err = strconv.ParseFloat(string(l), 64)
			ok = n.F == "number"
		case float64:
			n.N = l
			ok = n.F == "number"
		case int:
			n.N = float64(l)
			ok = n.F == "number"
		case int64:
			n.N = float64(l)
			ok = n.F == "number"
		case uint64:
			n.N = float64(l)
			ok = n.F == "number"
		case bool:
			n.B = l
			ok = n.F == "boolean"
		default:
			ok = false
		}
		if !ok || err != nil {
			return nil, fmt.Errorf("leaf %v holds a %T", m, m["left"])
		}
		return n, nil
	}
	if n.F == "array" {
		if m["left"] != nil {
			return nil, fmt.Errorf("the list %v has a left operand", m)
		}
		if m["right"] == nil {
			return n, nil
		}
		a, ok := m["right"].([]interface{})
		if !ok {
			return nil, fmt.Errorf("list of a %T", m["right"])
		}
		for _, e := range a {
			k, err := fromDoc(e)
			if err != nil {
				return nil, err
			}
			n.E = append(n.E, k)
		}
		return n, nil
	}
	if n.L, err = fromDoc(m["left"]); err == nil && m["right"] != nil {
		n.R, err = fromDoc(m["right"])
	}
	return n, err
}

// plain is the document of n as plain data.
func plain(n *T) interface{} {
	if n == nil {
		return nil
	}
	m := map[string]interface{}{"func": "$" + n.F}
	switch n.F {
	case "ident", "string":
		m["left"] = string(n.S)
	case "date":
		m["left"] = readDate(string(n.S)).time()
	case "number":
		m["left"] = n.N
	case "boolean":
		m["left"] = n.B
	case "array":
		a := []interface{}{}
		for _, e := range n.E {
			a = append(a, plain(e))
		}
		m["right"] = a
	default:
		m["left"] = plain(n.L)
		if n.R != nil {
			m["right"] = plain(n.R)
		}
	}
	return m
}

func readJSON(data []byte) (*T, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, errors.New("more than one document")
	}
	return fromDoc(v)
}

func readYAML(data []byte) (*T, error) {
	var v interface{}
	if err := yaml.Unmarshal(data, &v); err != nil {
		return nil, err
	}
	return fromDoc(v)
}

// yamlSafe: the YAML library reads its own rendering of n's document back.
func yamlSafe(n *T) bool {
	data, err := yaml.Marshal(plain(n))
	if err != nil {
		return false
	}
	m, err := readYAML(data)
	return err == nil && same(m, n)
}

func checkDoc(c drawCase, x *kit.X) error {
	phrase := render(nil, c.Tree)
	t, m, err := parse(phrase)
	if err != nil {
		return fmt.Errorf("%q: %v", phrase, err)
	}
	if !same(t, c.Tree) {
		return fmt.Errorf("%q parses to %v", phrase, t)
	}
	before := copyNode(m)
	data, err := json.Marshal(m)
	if err != nil {
		return fmt.Errorf("%q does not marshal to JSON: %v", phrase, err)
	}
	if got, err := readJSON(data); err != nil || !same(got, c.Tree) {
		return fmt.Errorf("%q: JSON %s stands for %v (%v)", phrase, data, got, err)
	}
	if !yamlSafe(c.Tree) {
		x.Label("string the YAML library itself does not round-trip")
	} else {
		data, err := yaml.Marshal(m)
		if err != nil {
			return fmt.Errorf("%q does not marshal to YAML: %v", phrase, err)
		}
		if got, err := readYAML(data); err != nil || !same(got, c.Tree) {
			return fmt.Errorf("%q: YAML stands for %v (%v)\n%s", phrase, got, err, data)
		}
	}
	if !unchanged(before, m) {
		return fmt.Errorf("%q: marshalling changes the tree", phrase)
	}
	c.Tree.walk(func(n *T) { x.LabelIf(!n.leaf() || n.F == "date" || n.F == "boolean", n.F) })
	if c.Tree.size() >= 5 {
		x.NonTrivial()
	}
	x.Sample("%s", phrase)
	return nil
}

var dotish = []string{`"`, `\`, `{`, `}`, `|`, `<`, `>`, "\n", `" ]`, `->`, `\"`, `\n`, "a", " ", `\\`, "é", "[", "]", ";", "//", "/*", "#", "'", "\r", "$", "&amp;", "<b>"}

func dottyTree(t *rapid.T, d int) *T {
	n := genTree(t, d)
	n.walk(func(m *T) {
		if m.F == "string" && chance(t, "dotty", 60) {
			var b strings.Builder
			for i := upto(t, "parts", 6); i > 0; i-- {
				b.WriteString(dotish[upto(t, "part", len(dotish)-1)])
			}
			m.S = kit.Str(b.String())
		}
	})
	return n
}

func init() {
	register("C25/map", "a tree of 0-4 levels and a mapping of its names (identity, rotation, prefix, constant, any text; rejecting a name at times); the names asked for, the result, and the original are compared with the model; non-trivial: the mapping changes a tree of at least 3 nodes, or rejects", genMapping, checkMapping)
	register("C26/draw", "a tree of 0-4 levels, strings rich in DOT metacharacters, with or without a name for the root and text before it; the text is parsed by an own DOT reader and compared with the tree; non-trivial: at least 5 nodes",
		func(t *rapid.T) drawCase {
			c := drawCase{Tree: dottyTree(t, upto(t, "depth", 4)), In: chance(t, "in", 20)}
			if chance(t, "named", 40) {
				c.Root = pick(t, "root", "root", "r", "x1")
			}
			return c
		}, checkDraw)
	register("C26/wide", "IN lists and OR chains of 100-4000 leaves; every drawn node must have a name of its own; all non-trivial",
		func(t *rapid.T) wideCase {
			if rapid.Bool().Draw(t, "chain") {
				return wideCase{rapid.IntRange(20, 120).Draw(t, "len"), true}
			}
			return wideCase{rapid.IntRange(100, 4000).Draw(t, "len"), false}
		}, func(c wideCase, x *kit.X) error {
			x.NonTrivial()
			return checkDraw(drawCase{Tree: c.tree()}, x)
		})
	register("C26/doc", "a tree of 0-4 levels rendered as JSON and YAML, decoded and compared; non-trivial: at least 5 nodes",
		func(t *rapid.T) drawCase { return drawCase{Tree: dottyTree(t, upto(t, "depth", 4))} }, checkDoc)
}

type wideCase struct {
	Len   int
	Chain bool
}

func (c wideCase) tree() *T {
	if c.Chain {
		n := bin("eq", id("a"), num(0))
		for i := 1; i < c.Len; i++ {
			n = bin("or", n, bin("eq", id("a"), num(float64(i))))
		}
		return n
	}
	n := bin("in", id("a"), list())
	for i := 0; i < c.Len; i++ {
		n.R.E = append(n.R.E, num(float64(i)))
	}
	return n
}
