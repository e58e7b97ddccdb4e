package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C31: repeated use does not grow memory --------------------------------------

type growCase struct {
	Text kit.Str // with marks
}

// marked puts marks into the names, texts and numbers of a tree.
func marked(t *rapid.T, n *T) *T {
	n.walk(func(m *T) {
		switch m.F {
		case "ident":
			m.S = kit.Str(pick(t, "name", "", "str_", "num_", "n", "str_"+strings.Repeat("long_name_", 7)) + kit.MarkText)
		case "string":
			m.S = kit.Str(pick(t, "before", "", "%", "a_", strings.Repeat("long text ", 30)) + kit.MarkText + pick(t, "after", "", "%", "$", " b"))
		case "number":
			if rapid.Bool().Draw(t, "fresh") {
				m.N = kit.MarkNumber
			}
		}
	})
	return n
}

func genGrow(t *rapid.T) growCase {
	n := marked(t, genCond(t, upto(t, "depth", 2)))
	for n.size() > 30 && n.L != nil {
		n = n.L
	}
	c := growCase{Text: kit.Str(render(t, n))}
	if chance(t, "plain", 40) { // nothing keeps it from being evaluated
		c.Text = kit.Str(growForms[upto(t, "form", len(growForms)-1)])
	}
	if chance(t, "broken", 35) {
		s := string(c.Text)
		at := upto(t, "at", len(s))
		s = s[:at] + pick(t, "put", " q000000 ", " q000000 ", " 7000000 ", "'", "(", ")", "#", " and ", " = ") + s[at:]
		c.Text = kit.Str(s)
	}
	return c
}

var growForms = []string{
	"str_q000000 like '%q000000%'", "str_q000000 ilike 'v%q000000'", "str_q000000 not like 'q000000_'", "str_q000000 ~= 'q000000'", "str_q000000 ~! 'q000000$'",
	"str_q000000 = 'q000000'", "str_q000000 in ('q000000', 'x')", "num_q000000 between 1 and 7000000", "num_q000000 not in (7000000, 1)",
	"n_q000000 is null and not num_q000000 = 7000000", "num_q000000 * 2 + 1 > 7000000", "str_q000000 > 'q000000' or str_q000000 between 'a' and 'q000000'",
}

// use reads a tree through every reader.
func use(m tsl.Node, i int) {
	json.Marshal(m)
	yaml.Marshal(m)
	if f, err := sql.Walk(m); err == nil {
		f.ToSql()
	}
	mongo.Walk(m)
	semantics.Walk(m, func(k string) (interface{}, bool) {
		switch {
		case strings.HasPrefix(k, "str_"):
			return fmt.Sprint("v", k), true
		case strings.HasPrefix(k, "num_"):
			return i, true
		case strings.HasPrefix(k, "n"):
			return nil, true
		}
		return k, true
	})
	graphviz.Walk("", m, "")
	ident.Walk(m, func(k string) (string, error) { return "p." + k, nil })
}

func checkGrow(c growCase, x *kit.X) error {
	accepted := false
	perUse, err := kit.Grows(func(i int) error {
		s := kit.Freshen(string(c.Text), i)
		m, err := tsl.ParseTSL(s)
		if err != nil {
			_ = err.Error()
			return nil
		}
		accepted = true
		use(m, i)
		return nil
	}, kit.LiveHeap)
	if err != nil {
		return err
	}
	if perUse > 0 {
		return fmt.Errorf("each use of a phrase like %q holds on to about %d bytes", kit.Freshen(string(c.Text), 1), perUse)
	}
	x.Label("%s", map[bool]string{true: "phrase", false: "rejected"}[accepted])
	if toks, _ := lex(string(c.Text)); strings.Contains(string(c.Text), kit.MarkText) && len(toks) >= 3 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	register("C31/grow", "a phrase, at times broken, used thousands of times with fresh names, texts and numbers: parsed, rendered, converted, mapped and evaluated; the live heap is measured after the caches had room to fill; non-trivial: at least 3 tokens, one of them fresh in each use",
		genGrow, checkGrow)
}
