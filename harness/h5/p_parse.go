package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C20: trees ---------------------------------------------------------------

type phraseCase struct {
	Tree *T
	Text kit.Str
	Then kit.Str `json:",omitempty"` // a phrase much like Text, parsed after it
}

func genPhrase(t *rapid.T) phraseCase {
	n := genTree(t, upto(t, "depth", 4))
	c := phraseCase{Tree: n, Text: kit.Str(render(t, n))}
	if chance(t, "then", 12) {
		c.Then = kit.Str(kit.SiblingPhrase(t, string(c.Text)))
	}
	return c
}

func checkPhrase(c phraseCase, x *kit.X) error {
	got, _, err := parse(string(c.Text))
	if err != nil {
		return fmt.Errorf("%q: %v\nwanted %v", c.Text, err, c.Tree)
	}
	if !same(got, c.Tree) {
		return fmt.Errorf("%q parses to\n  %v\nwanted\n  %v", c.Text, got, c.Tree)
	}
	if c.Tree.size() >= 5 {
		x.NonTrivial()
	}
	c.Tree.walk(func(n *T) { x.Label("%s", n.F) })
	x.Sample("%s", c.Text)
	if c.Then == "" {
		return nil
	}
	x.Label("two in a row")
	want, bad := refParse(string(c.Then))
	if bad != nil {
		return nil // C21 says more
	}
	if got, _, err = parse(string(c.Then)); err != nil {
		return fmt.Errorf("after %q, %q is rejected: %v", c.Text, c.Then, err)
	}
	if !same(got, want) {
		return fmt.Errorf("after %q, %q parses to\n  %v\nwanted\n  %v", c.Text, c.Then, got, want)
	}
	return nil
}

// mathCase is a flat chain of arithmetic, with parentheses: precedence and
// grouping are judged by a reading that repeatedly reduces operators.
type chainCase struct {
	Names []string
	Ops   []string
	Lits  []int // operands that are literals, by position
}

// reduce groups a flat chain: first products, then sums, each from the left.
func reduce(leaves []*T, ops []string) *T {
	for _, want := range []map[string]string{mulOps, addOps} {
		for i := 0; i < len(ops); {
			f, ok := want[ops[i]]
			if !ok {
				i++
				continue
			}
			leaves[i] = bin(f, leaves[i], leaves[i+1])
			leaves = append(leaves[:i+1], leaves[i+2:]...)
			ops = append(ops[:i], ops[i+1:]...)
		}
	}
	return leaves[0]
}

func genChain(t *rapid.T) chainCase {
	most := 12
	if V == 4 {
		most = 7 // its parser takes exponential time in them
	}
	n := rapid.IntRange(1, most).Draw(t, "ops")
	c := chainCase{Names: []string{"a"}}
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, pick(t, "op", "+", "-", "*", "/", "%"))
		c.Names = append(c.Names, pick(t, "name", "a", "b", "c", "d"))
		if chance(t, "literal", 30) {
			c.Lits = append(c.Lits, i+1)
		}
	}
	return c
}

func checkChain(c chainCase, x *kit.X) error {
	var leaves []*T
	text := ""
	lit := map[int]bool{}
	for _, i := range c.Lits {
		lit[i] = true
	}
	for i, n := range c.Names {
		if i > 0 {
			text += " " + c.Ops[i-1] + " "
		}
		if lit[i] {
			text += fmt.Sprint(i)
			leaves = append(leaves, num(float64(i)))
		} else {
			text += n
			leaves = append(leaves, id(n))
		}
	}
	want := bin("lt", reduce(leaves, append([]string(nil), c.Ops...)), num(1))
	return checkPhrase(phraseCase{Tree: want, Text: kit.Str(text + " < 1")}, x)
}

// logicCase is a flat chain of AND, OR and NOT.
type logicCase struct {
	Nots []int // NOTs before each operand
	Ors  []bool
}

func genLogic(t *rapid.T) logicCase {
	c := logicCase{}
	for i, n := 0, rapid.IntRange(1, 12).Draw(t, "operands"); i < n; i++ {
		c.Nots = append(c.Nots, pick(t, "nots", 0, 0, 0, 1, 2))
		if i > 0 {
			c.Ors = append(c.Ors, rapid.Bool().Draw(t, "or"))
		}
	}
	return c
}

func checkLogic(c logicCase, x *kit.X) error {
	text := ""
	var want, run *T // the OR so far, the AND so far
	for i, nots := range c.Nots {
		var leaf *T
		leaf = bin("eq", id(fmt.Sprintf("c%d", i)), num(float64(i)))
		s := strings.Repeat("not ", nots) + fmt.Sprintf("c%d = %d", i, i)
		for ; nots > 0; nots-- {
			leaf = not(leaf)
		}
		switch {
		case i == 0:
			run = leaf
		case c.Ors[i-1]:
			s = " or " + s
			if want == nil {
				want = run
			} else {
				want = bin("or", want, run)
			}
			run = leaf
		default:
			s = " and " + s
			run = bin("and", run, leaf)
		}
		text += s
	}
	if want == nil {
		want = run
	} else {
		want = bin("or", want, run)
	}
	return checkPhrase(phraseCase{Tree: want, Text: kit.Str(text)}, x)
}

// ---- C21: acceptance ---------------------------------------------------------

var words = []string{"a", "b", "name", "and", "or", "not", "in", "between", "like", "ilike", "is", "null", "AND", "NOT", "true", "false", "(", ")", "(", ")", ",", "=", "!=", "<>", "<", "<=", ">", ">=",
	"~=", "~!", "+", "-", "*", "/", "%", "'x'", "''", "'", "'it''s'", "\"q\"", "`q`", "[q]", "\"", "`", "[", "]", "1", "0.5", ".5", "1.", "1e5", "1e", "5K", "5Ki", "5k", "5KB", "1e400", "9999P",
	"2020-01-01", "2020-13-01", "2020-02-30", "2020-01-01T10:00:00Z", "2020-01-01T10:00:00", "2020-01-01T25:00:00Z", "2020-01-01T10:00:00.5+05:30", "2020-01-01T10:00:00+25:00", "10:00:00", "+05:30",
	".", "a.b", "a/b", "a.", "#", "!", "~", ";", "&", "|", "{", "}", "?", "é", "\x00", "\\", "==", "||", "--", "$a", "@", "\x80", "\xff", "\ufffd", "IN()", "isnull", "notin", "_"}

var oddValues = []string{"'s'", "5", "true", "2020-02-29", "2021-02-29", "1900-02-29", "2000-02-29", "2020-04-31", "2020-00-10", "2020-10-00", "0000-01-01", "2020-01-01T00:00:00Z", "2020-01-01T23:59:59.999999999+14:00", "2020-01-01T24:00:00Z",
	"2020-01-01T10:60:00Z", "2020-01-01T10:00:61Z", "2020-01-01T10:00:00+10:75", "2020-01-01T10:00:00-30:00", "1e308", "1e309", "1e-400", "999999999999999999999", "17976931348623157" + strings.Repeat("0", 292), "1" + strings.Repeat("0", 309),
	"1" + strings.Repeat("0", 300) + "P", "name", "null"}

func soup(t *rapid.T) string {
	var b strings.Builder
	sep := pick(t, "sep", " ", " ", "", "?")
	for i, n := 0, upto(t, "words", 14); i < n; i++ {
		if i > 0 {
			if sep == "?" {
				b.WriteString(pick(t, "blank", "", " ", "\t", "\n", "\u00a0", "\f"))
			} else {
				b.WriteString(sep)
			}
		}
		b.WriteString(words[upto(t, "word", len(words)-1)])
	}
	return b.String()
}

// mutant breaks a valid phrase in a few places.
func mutant(t *rapid.T) string {
	n := genCond(t, upto(t, "depth", 3))
	r := &renderer{t: t}
	r.cond(n, 1)
	toks := r.toks
	for i := upto(t, "edits", 3); i > 0 && len(toks) > 0; i-- {
		at := upto(t, "at", len(toks)-1)
		toks = append([]string(nil), toks...)
		switch upto(t, "edit", 6) {
		case 0:
			toks = append(toks[:at], toks[at+1:]...)
		case 1:
			toks[at] = words[upto(t, "word", len(words)-1)]
		case 2:
			toks = append(toks[:at], append([]string{words[upto(t, "word", len(words)-1)]}, toks[at:]...)...)
		case 3:
			b := upto(t, "other", len(toks)-1)
			toks[at], toks[b] = toks[b], toks[at]
		case 4:
			toks = append(toks[:at+1], toks[at:]...)
		case 6: // a literal of another kind, or out of range
			for k := range toks {
				if c := (toks[(at+k)%len(toks)] + " ")[0]; c == '\'' || c >= '0' && c <= '9' {
					toks[(at+k)%len(toks)] = oddValues[upto(t, "odd", len(oddValues)-1)]
					break
				}
			}
		case 5: // within a token
			s := toks[at]
			k := upto(t, "within", len(s))
			toks[at] = s[:k] + pick(t, "put", "", "'", " ", ".", "x", "1", "-", "\"", "\x80", "#") + s[min(len(s), k+upto(t, "cut", 1)):]
		}
	}
	return strings.Join(toks, pick(t, "join", " ", " ", ""))
}

func checkAcceptance(c kit.Str, x *kit.X) error {
	s := string(c)
	want, bad := refParse(s)
	if bad == errUnsure {
		x.Exclude()
		return nil
	}
	got, _, err := parse(s)
	switch {
	case bad != nil && err == nil:
		return fmt.Errorf("%q is no phrase (%v), yet it parses to\n  %v", s, bad, got)
	case bad == nil && err != nil:
		return fmt.Errorf("%q is a phrase for\n  %v\nyet: %v", s, want, err)
	case bad == nil && !same(got, want):
		return fmt.Errorf("%q parses to\n  %v\nwanted\n  %v", s, got, want)
	}
	if err != nil && err.Error() == "" {
		return fmt.Errorf("%q: the error has no text", s)
	}
	x.Label("%s", map[bool]string{true: "phrase", false: "rejected"}[bad == nil])
	x.LabelIf(bad == errValue, "value refused")
	x.LabelIf(!utf8.ValidString(s), "no UTF-8")
	toks, _ := lex(s)
	if len(toks) >= 3 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	register("C20/tree", "a tree of the language up to 4 levels of conditions and 3 of arithmetic, every kind of literal, printed with random spelling, case, blanks and parentheses (at times with a list, text, name or chain of up to 257); the tree parsed is compared with it; non-trivial: at least 5 nodes", genPhrase, checkPhrase)
	register("C20/math", "a flat chain of 2-13 (v4: 2-8) arithmetic operands; the tree parsed is compared with the chain reduced product by product, then sum by sum; non-trivial: at least 5 nodes", genChain, checkChain)
	register("C20/logic", "a flat chain of 1-12 comparisons with NOT, AND and OR; compared with the chain grouped by hand; non-trivial: at least 5 nodes", genLogic, checkLogic)
	register("C21/soup", "0-14 words of the language and near it, with and without blanks; acceptance and tree compared with a reference lexer and parser; non-trivial: at least 3 tokens",
		func(t *rapid.T) kit.Str { return kit.Str(soup(t)) }, checkAcceptance)
	register("C21/then", "a phrase and one that differs from it in a letter, a digit, a blank, a quote or its end, read one after the other; acceptance and tree compared with a reference lexer and parser; non-trivial: at least 3 tokens",
		func(t *rapid.T) [2]kit.Str {
			s := render(t, genCond(t, upto(t, "depth", 3)))
			return [2]kit.Str{kit.Str(s), kit.Str(kit.SiblingPhrase(t, s))}
		}, func(c [2]kit.Str, x *kit.X) error {
			if c[1] == "" {
				return nil
			}
			if err := checkAcceptance(c[0], x); err != nil {
				return err
			}
			if err := checkAcceptance(c[1], x); err != nil {
				return fmt.Errorf("after %q: %v", c[0], err)
			}
			return nil
		})
	register("C21/mutant", "a phrase with 0-3 tokens dropped, replaced, added, swapped, doubled or broken; acceptance and tree compared with a reference lexer and parser; non-trivial: at least 3 tokens",
		func(t *rapid.T) kit.Str { return kit.Str(mutant(t)) }, checkAcceptance)
	register("C21/bytes", "0-40 arbitrary bytes or characters, alone or in a phrase; acceptance and tree compared with a reference lexer and parser; non-trivial: at least 3 tokens",
		func(t *rapid.T) kit.Str {
			if chance(t, "unicode", 40) {
				return kit.Str(pick(t, "head", "", "a = '", "a = ", "a in (") + rapid.StringN(0, 12, 40).Draw(t, "text") + pick(t, "tail", "", "'", " = 1", ")"))
			}
			b := rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(t, "bytes")
			return kit.Str(pick(t, "head", "", "a = '", "a = ", "\"") + string(b) + pick(t, "tail", "", "'", " = 1", "\" = 1"))
		}, checkAcceptance)
}
