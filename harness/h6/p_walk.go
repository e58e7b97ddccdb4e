package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C17: identifiers mapped -----------------------------------------------

type mapCase struct {
	Tree  *N
	Cuts  []int
	To    []string // what the distinct identifiers of the tree map to, in order of appearance; "" is the identifier itself
	Fail  []bool
	Order int // which of the two trees is freed first
}

func identsOf(n *N) (out []string) {
	seen := map[string]bool{}
	n.walk(func(m *N) {
		if m.K == "IDENTIFIER" && !seen[m.S] {
			seen[m.S] = true
			out = append(out, m.S)
		}
	})
	return
}

// identTree draws a tree with identifiers in every kind of place.
func identTree(t *rapid.T, d int) *N {
	n := stretch(t, genTree(t, d), 3, true)
	var f func(m *N)
	f = func(m *N) {
		if m == nil {
			return
		}
		if isLiteral(m) && chance(t, "toIdent", 50) {
			*m = *id(pick(t, "few", "a", "b", "c.d", "e[0]", "f/g", genIdent(t)))
		}
		f(m.L)
		f(m.R)
		for _, e := range m.E {
			f(e)
		}
	}
	f(n)
	return n
}

func genMapping(t *rapid.T) mapCase {
	c := mapCase{Tree: identTree(t, rapid.IntRange(0, 4).Draw(t, "depth")), Cuts: genCuts(t, 15), Order: rapid.IntRange(0, 1).Draw(t, "order")}
	ids := identsOf(c.Tree)
	kind := rapid.IntRange(0, 5).Draw(t, "mapping")
	for i := range ids {
		to := ""
		switch kind {
		case 0:
		case 1: // rotate: swaps when there are two
			to = ids[(i+1)%len(ids)]
		case 2:
			to = "t." + ids[i]
		case 3:
			to = "same"
		default:
			switch rapid.IntRange(0, 11).Draw(t, "to") {
			case 0:
				to = render(nil, genTree(t, 1)) // an expression
			case 1:
				to = pick(t, "badText", " ", "a b", "a =", "'x", "1 2", "(", "a;b", "and", "a,b", "[", "\x01")
			default:
				to = genIdent(t)
			}
		}
		c.To = append(c.To, to)
		c.Fail = append(c.Fail, kind != 0 && chance(t, "fail", 3))
	}
	return c
}

func (c mapCase) mapping(ids []string) (map[string]string, map[string]bool) {
	to, fail := map[string]string{}, map[string]bool{}
	for i, s := range ids {
		to[s] = s
		if i < len(c.To) && c.To[i] != "" {
			to[s] = c.To[i]
		}
		fail[s] = i < len(c.Fail) && c.Fail[i]
	}
	return to, fail
}

// mapped replaces the identifiers of n; ok is false when a mapping fails.
func mapped(n *N, to map[string]string, fail map[string]bool) (*N, bool) {
	if n == nil {
		return nil, true
	}
	if n.K == "IDENTIFIER" {
		if fail[n.S] {
			return nil, false
		}
		m, bad, _ := refParse(to[n.S])
		return m, bad == nil
	}
	c := *n
	var ok1, ok2 bool
	c.L, ok1 = mapped(n.L, to, fail)
	c.R, ok2 = mapped(n.R, to, fail)
	c.E = nil
	for _, e := range n.E {
		x, ok := mapped(e, to, fail)
		ok1 = ok1 && ok
		c.E = append(c.E, x)
	}
	return &c, ok1 && ok2
}

func checkMapping(c mapCase, x *kit.X) error {
	ids := identsOf(c.Tree)
	to, fail := c.mapping(ids)
	model := c.Tree.clone()
	t, err := build(model)
	if err != nil {
		return err
	}
	if err := cutTree(model, t, c.Cuts); err != nil {
		return err
	}
	ids = identsOf(model)
	want, ok := mapped(model, to, fail)
	asked := map[string]bool{}
	got, err := ident.Walk(t, func(s string) (string, error) {
		asked[s] = true
		if fail[s] {
			return s, fmt.Errorf("no column %q", s)
		}
		return to[s], nil
	})
	known := map[string]bool{}
	for _, s := range ids {
		known[s] = true
	}
	for s := range asked {
		if !known[s] {
			return fmt.Errorf("%v: the mapping was asked for %q", model, s)
		}
	}
	if now := fromTSL(t); !equalN(now, model) {
		return fmt.Errorf("mapping %v changed the original from\n  %v\nto\n  %v", to, model, now)
	}
	if (err == nil) != ok {
		return fmt.Errorf("mapping %v (failing: %v) of %v gives error %v, wanted an error: %v", to, fail, model, err, !ok)
	}
	if err != nil {
		if got != nil {
			return fmt.Errorf("mapping %v of %v gives a tree along with the error %v", to, model, err)
		}
		x.Label("fails")
		t.Free()
		return nil
	}
	if len(asked) != len(ids) {
		return fmt.Errorf("%v: the mapping was asked for %v only", model, asked)
	}
	if g := fromTSL(got); !equalN(g, want) {
		return fmt.Errorf("mapping %v of\n  %v\ngives\n  %v\nwanted\n  %v", to, model, g, want)
	}
	// either tree outlives the other
	first, second, left := t, got, want
	if c.Order == 1 {
		first, second, left = got, t, model
	}
	first.Free()
	if g := fromTSL(second); !equalN(g, left) {
		return fmt.Errorf("mapping %v of %v: freeing one tree changed the other to %v", to, model, g)
	}
	second.Free()
	x.LabelIf(len(c.Cuts) > 0, "partial tree")
	x.LabelIf(model.K == "IDENTIFIER", "identifier alone")
	if len(ids) >= 1 && model.size() >= 3 && !equalN(want, model) {
		x.NonTrivial()
	}
	x.Sample("%v with %v", model, to)
	return nil
}

// ---- C18: drawings -----------------------------------------------------------

// drawn compares the graph below node id with n.
func drawn(g *kit.Graph, id string, n *N, seen map[string]bool) error {
	label, ok := g.Label[id]
	if !ok {
		return fmt.Errorf("%v has no node (%s)", n, id)
	}
	if seen[id] {
		return fmt.Errorf("node %s is drawn for two nodes of the tree", id)
	}
	seen[id] = true
	f, err := kit.Fields(label, strings.Contains(strings.ToLower(g.Shape[id]), "record"))
	if err != nil {
		return err
	}
	var kids []*N
	want := n.K
	switch n.K {
	case "BINARY_EXP", "UNARY_EXP":
		want = n.Op
		for _, k := range []*N{n.L, n.R} {
			if k != nil {
				kids = append(kids, k)
			}
		}
	case "ARRAY":
		kids = n.E
	default:
		if len(f) != 2 {
			return fmt.Errorf("label %q of the leaf %v has %d fields", label, n, len(f))
		}
		v := strings.TrimSuffix(strings.TrimPrefix(f[1], " "), " ")
		good := v == n.S
		switch n.K {
		case "NUMBER":
			x, err := strconv.ParseFloat(strings.TrimSpace(v), 64)
			good = err == nil && x == n.F
		case "BOOLEAN":
			good = strings.TrimSpace(v) == fmt.Sprint(n.B)
		case "TIMESTAMP":
			x, err := time.Parse("2006-01-02 15:04:05.999999999 -0700 MST", v)
			if y, ok := instant(v); err != nil && ok {
				x, err = y, nil
			}
			if err != nil && strings.Count(v, " ") == 3 { // an offset without a zone name
				x, err = time.Parse("2006-01-02 15:04:05.999999999 -0700", v[:strings.LastIndex(v, " ")])
			}
			y, ok := instant(n.S)
			good = err == nil && ok && x.Equal(y) || v == n.S
		case "NULL":
			good = true
		case "STRING", "IDENTIFIER":
			good = v == "'"+n.S+"'" || v == strings.ReplaceAll("'"+n.S+"'", "\r", "\n")
		}
		if !good {
			return fmt.Errorf("label %q of the leaf %v shows %q", label, n, v)
		}
		f = f[:1]
	}
	if len(f) != 1 || strings.TrimSpace(f[0]) != want {
		return fmt.Errorf("label %q, wanted %q", label, want)
	}
	if len(g.To[id]) != len(kids) {
		return fmt.Errorf("%d edges leave the node of %v, wanted %d", len(g.To[id]), n, len(kids))
	}
	for i, k := range kids {
		if err := drawn(g, g.To[id][i], k, seen); err != nil {
			return err
		}
	}
	return nil
}

// isDrawing checks that text draws n, with extra more nodes beside it.
func isDrawing(text string, n *N, root string, extra int) error {
	g, err := kit.ReadDot(text)
	if err != nil {
		return fmt.Errorf("malformed DOT: %v", err)
	}
	into := map[string]int{}
	for f, ts := range g.To {
		if _, ok := g.Label[f]; !ok {
			return fmt.Errorf("an edge leaves %s, which is no node", f)
		}
		for _, t := range ts {
			into[t]++
		}
	}
	if root == "" {
		for _, id := range g.Order {
			if into[id] == 0 {
				root = id
				break
			}
		}
	}
	seen := map[string]bool{}
	if err := drawn(g, root, n, seen); err != nil {
		return err
	}
	if len(g.Label) != n.size()+extra {
		return fmt.Errorf("%d nodes are drawn for a tree of %d", len(g.Label), n.size())
	}
	return nil
}

type drawCase struct {
	Tree *N
	Cuts []int
	Root string
	In   bool
}

func checkDraw(c drawCase, x *kit.X) error {
	model := c.Tree.clone()
	t, err := build(model)
	if err != nil {
		return err
	}
	defer t.Free()
	if err := cutTree(model, t, c.Cuts); err != nil {
		return err
	}
	return drawCheck(c, model, t, x)
}

func drawCheck(c drawCase, model *N, t *tsl.TSLNode, x *kit.X) error {
	in, extra := "", 0
	if c.In {
		in, extra = "before_ [shape=box label=\"before\"]", 1
	}
	s, err := graphviz.Walk(in, t, c.Root)
	if err != nil {
		return fmt.Errorf("%v: %v", model, err)
	}
	if !strings.HasPrefix(s, in) {
		return fmt.Errorf("%v: the text does not begin with the text given", model)
	}
	root := c.Root
	if root == "" && c.In {
		// the tree's root is the first node after the given one
		g, err := kit.ReadDot(s)
		if err != nil {
			return fmt.Errorf("%v: malformed DOT: %v\n%s", model, err, cut(s))
		}
		into := map[string]bool{}
		for _, ts := range g.To {
			for _, t := range ts {
				into[t] = true
			}
		}
		for _, id := range g.Order {
			if id != "before_" && !into[id] {
				root = id
			}
		}
	}
	if err := isDrawing(s, model, root, extra); err != nil {
		return fmt.Errorf("%v: %v\n%s", cut(model.String()), err, cut(s))
	}
	if got := fromTSL(t); !equalN(got, model) {
		return fmt.Errorf("drawing changed the tree to\n  %v\nfrom\n  %v", got, model)
	}
	x.LabelIf(len(c.Cuts) > 0, "partial tree")
	if model.size() >= 3 {
		x.NonTrivial()
	}
	x.Sample("%s", cut(model.String()))
	return nil
}

var dotish = []string{`"`, `\`, `{`, `}`, `|`, `<`, `>`, "\n", `" ]`, `->`, `\"`, `\n`, "a", " ", `\\`, "é", "[", "]", ";", "//", "/*", "#", "'", "\r", "$", "&amp;", "<b>"}

type wideCase struct {
	Len  int
	Kind int
}

func (c wideCase) tree() *N {
	a := arr()
	for i := 0; i < c.Len; i++ {
		if c.Kind == 0 {
			a.E = append(a.E, num(float64(i)))
		} else {
			a.E = append(a.E, bin("EQ", id("a"), num(float64(i))))
		}
	}
	if c.Kind == 2 {
		n := a.E[0]
		for _, e := range a.E[1:] {
			n = bin("OR", n, e)
		}
		return n
	}
	return a
}

func init() {
	mapRule := "a tree of up to 5 levels full of identifiers, 0-3 operands detached, and a mapping (identity, rotation, renaming, collapsing, arbitrary; to expressions or invalid text at times, failing at times); the result and the original compared with the model, then freed in either order; non-trivial: at least 3 nodes, an identifier, and the result differs"
	kit.Register("C17/map", mapRule, genMapping, checkMapping)
	kit.Register("C17/asan", mapRule+"; under AddressSanitizer", genMapping, checkMapping)
	kit.Register("C18/draw", "a tree of up to 5 levels, strings rich in DOT metacharacters, 0-3 operands detached, drawn with or without a name for the root and text before it; the text is parsed by an own DOT reader and compared with the tree; non-trivial: at least 3 nodes",
		func(t *rapid.T) drawCase {
			c := drawCase{Tree: stretch(t, genTree(t, rapid.IntRange(0, 5).Draw(t, "depth")), 3, true), Cuts: genCuts(t, 20)}
			c.Tree.walk(func(m *N) {
				if m.K == "STRING" && chance(t, "dotish", 70) {
					*m = *str(parts(t, "dot", dotish, 6))
				}
			})
			if chance(t, "named", 50) {
				c.Root = pick(t, "root", "root", "r", "x1")
			}
			c.In = chance(t, "in", 20)
			return c
		}, checkDraw)
	kit.Register("C18/wide", "lists and OR chains of 100-6000 leaves; every drawn node must have a name of its own; all non-trivial",
		func(t *rapid.T) wideCase {
			k := rapid.IntRange(0, 2).Draw(t, "kind")
			max := 6000
			if k == 2 {
				max = 400
			}
			return wideCase{Len: rapid.IntRange(100, max).Draw(t, "len"), Kind: k}
		},
		func(c wideCase, x *kit.X) error {
			return checkDraw(drawCase{Tree: c.tree()}, x)
		})
}

var _ = sort.Strings
