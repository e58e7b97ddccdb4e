package main

import (
	"fmt"
	"os"
	"reflect"
	"strings"

	"github.com/antlr/antlr4/runtime/Go/antlr"
	"github.com/yaacov/tree-search-language/v5/pkg/parser"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C32: the grammar file and the shipped parser -------------------------------

var theGrammar *grammar

func loadGrammar() (*grammar, error) {
	if theGrammar != nil {
		return theGrammar, nil
	}
	b, err := os.ReadFile(os.Getenv("VERIF_REPO") + "/v5/TSL.g4")
	if err != nil {
		return nil, err
	}
	theGrammar, err = readGrammar(string(b))
	return theGrammar, err
}

// contextName is the alternative a node of the parser's tree stands for; a rule
// without named alternatives has none.
func contextName(c antlr.RuleContext, rules []string) string {
	name := strings.TrimSuffix(reflect.TypeOf(c).Elem().Name(), "Context")
	if r := rules[c.GetRuleIndex()]; strings.EqualFold(name[:1], r[:1]) && name[1:] == r[1:] {
		return ""
	}
	return name
}

func shippedTree(n antlr.Tree, rules []string) *gtree {
	switch n := n.(type) {
	case antlr.TerminalNode:
		return &gtree{name: n.GetText(), leaf: true}
	case antlr.RuleContext:
		t := &gtree{name: contextName(n, rules)}
		for _, k := range n.GetChildren() {
			if e, ok := k.(antlr.TerminalNode); ok && e.GetSymbol().GetTokenType() == antlr.TokenEOF {
				continue
			}
			t.kids = append(t.kids, shippedTree(k, rules))
		}
		return t
	}
	return nil
}

func checkGrammar(c kit.Str, x *kit.X) error {
	s := string(c)
	g, err := loadGrammar()
	if e, ok := err.(g4error); ok && e.unknown {
		kit.Bug("TSL.g4: %v", err)
	}
	if err != nil {
		return fmt.Errorf("TSL.g4: %v", err)
	}
	toks, bad := g.lex([]rune(s))
	log := &errorLog{}
	lexer := parser.NewTSLLexer(antlr.NewInputStream(s))
	lexer.RemoveErrorListeners()
	lexer.AddErrorListener(log)
	stream := antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel)
	stream.Fill()
	var want, got []string
	for _, t := range toks {
		want = append(want, t.text)
	}
	for _, t := range stream.GetAllTokens() {
		if t.GetChannel() == antlr.TokenDefaultChannel && t.GetTokenType() != antlr.TokenEOF {
			got = append(got, t.GetText())
		}
	}
	if (bad > 0) != (len(log.texts) > 0) {
		return fmt.Errorf("%q: %d characters begin no token of TSL.g4, yet the lexer reports %q", s, bad, log.texts)
	}
	if bad > 0 {
		x.Label("no token")
		return nil
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Errorf("%q: the lexer gives the tokens\n  %q\nTSL.g4 gives\n  %q", s, got, want)
	}
	if len(toks) > 150 {
		x.Exclude()
		return nil
	}
	p := parser.NewTSLParser(stream)
	p.RemoveErrorListeners()
	p.AddErrorListener(log)
	shipped := p.Start()
	tree, err := g.parse(toks)
	if err != nil {
		return fmt.Errorf("TSL.g4: %v", err)
	}
	switch {
	case tree == nil && len(log.texts) == 0:
		return fmt.Errorf("%q is no phrase of TSL.g4, yet the parser gives\n  %v", s, shippedTree(shipped, p.RuleNames))
	case tree != nil && len(log.texts) > 0:
		return fmt.Errorf("%q is a phrase of TSL.g4,\n  %v\nyet the parser reports %q", s, tree, log.texts)
	}
	x.Label("%s", map[bool]string{true: "phrase", false: "rejected"}[tree != nil])
	if len(toks) >= 3 {
		x.NonTrivial()
	}
	if tree == nil {
		return nil
	}
	if a, b := shippedTree(shipped, p.RuleNames).String(), tree.String(); a != b {
		return fmt.Errorf("%q: the parser gives\n  %v\nTSL.g4 gives\n  %v", s, a, b)
	}
	return nil
}

func init() {
	if V != 5 {
		return // the grammar file of v4 is not in the repository
	}
	register("C32/phrase", "a phrase of 1-4 levels, or a chain of 2-13 sums and products; tokens, acceptance and the tree of named alternatives compared with an interpreter of TSL.g4; non-trivial: at least 3 tokens",
		func(t *rapid.T) kit.Str {
			if chance(t, "chain", 30) {
				var b strings.Builder
				b.WriteString("a")
				for i := upto(t, "links", 11); i >= 0; i-- {
					b.WriteString(pick(t, "link", " + ", " - ", " * ", " / ", " % ", "+", "-", "*") + pick(t, "operand", "b", "1", "2.5", "(c + 1)", "'s'", "-3", "+4Ki"))
				}
				return kit.Str(b.String() + pick(t, "op", " = ", " < ", " in (", " is ", " ~= ") + pick(t, "end", "1", "b * 2 + c", "null", "2)", "'x'"))
			}
			if chance(t, "logic", 30) {
				var b strings.Builder
				for i := upto(t, "terms", 7); i >= 0; i-- {
					b.WriteString(pick(t, "before", "", "", "not ", "not (", "(", "not not ") + pick(t, "term", "a = 1", "b is null", "c in (1, 2)", "d between 1 and 2", "e not like 'x'", "f + 1 > 2"))
					b.WriteString(pick(t, "after", "", "", ")", "))"))
					if i > 0 {
						b.WriteString(pick(t, "and", " and ", " or "))
					}
				}
				return kit.Str(b.String())
			}
			return kit.Str(render(t, genCond(t, upto(t, "depth", 3))))
		}, checkGrammar)
	register("C32/mutant", "a phrase with 0-3 tokens dropped, replaced, added, swapped, doubled or broken; compared with an interpreter of TSL.g4; non-trivial: at least 3 tokens",
		func(t *rapid.T) kit.Str { return kit.Str(mutant(t)) }, checkGrammar)
	register("C32/derived", "a text derived from the rules of TSL.g4, in a third of the cases with a token dropped or doubled; compared with an interpreter of TSL.g4; non-trivial: at least 3 tokens",
		func(t *rapid.T) kit.Str {
			g, err := loadGrammar()
			if err != nil {
				return "a = 1" // the check tells
			}
			var toks []string
			g.derive(&gnode{op: "ref", s: g.start}, 2+upto(t, "depth", 7), g.costs(), func(n int) int { return upto(t, "choice", n-1) }, func(s string) { toks = append(toks, s) })
			if len(toks) > 0 && chance(t, "broken", 33) {
				at := upto(t, "at", len(toks)-1)
				toks = append(toks[:at:at], toks[at+upto(t, "drop", 1):]...)
				if rapid.Bool().Draw(t, "twice") {
					toks = append(toks[:at:at], append([]string{toks[max(0, at-1)]}, toks[at:]...)...)
				}
			}
			var b strings.Builder
			for _, s := range toks {
				b.WriteString(pick(t, "blank", " ", " ", " ", "", "\t\n", "  ") + s)
			}
			return kit.Str(b.String())
		}, checkGrammar)
	register("C32/soup", "0-14 words of the language and near it, with and without blanks; compared with an interpreter of TSL.g4; non-trivial: at least 3 tokens",
		func(t *rapid.T) kit.Str { return kit.Str(soup(t)) }, checkGrammar)
}
