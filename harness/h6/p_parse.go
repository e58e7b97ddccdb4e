package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C01: the tree is the one the language reference prescribes -----------

type parseCase struct {
	Text kit.Str
	Want *N
	Then kit.Str `json:",omitempty"` // a phrase much like Text, parsed after it
}

// then draws the phrase parsed next, a few times.
func (c parseCase) then(t *rapid.T) parseCase {
	if chance(t, "then", 12) {
		c.Then = kit.Str(kit.SiblingPhrase(t, string(c.Text)))
	}
	return c
}

// checkThen judges the phrase parsed next by the reference parser.
func (c parseCase) checkThen(x *kit.X) error {
	if c.Then == "" {
		return nil
	}
	x.Label("two in a row")
	want, bad, _ := refParse(string(c.Then))
	if bad != nil {
		_, err := parseN(string(c.Then))
		if err == nil {
			return fmt.Errorf("%q is accepted after %q", c.Then, c.Text)
		}
		return nil
	}
	got, err := parseN(string(c.Then))
	if err != nil {
		return fmt.Errorf("after %q, %q is rejected: %v", c.Text, c.Then, err)
	}
	if !equalN(got, want) {
		return fmt.Errorf("after %q, %q parses as\n  %v\nwanted\n  %v", c.Text, c.Then, got, want)
	}
	return nil
}

func parseN(s string) (*N, error) {
	t, err := tsl.ParseTSL(s)
	if err != nil {
		if t != nil {
			return nil, fmt.Errorf("both a tree and an error for %q", s)
		}
		return nil, err
	}
	defer t.Free()
	return fromTSL(t), nil
}

func opCount(n *N) (ops int) {
	n.walk(func(m *N) {
		if m.Op != "" {
			ops++
		}
	})
	return
}

func checkParse(c parseCase, x *kit.X) error {
	got, err := parseN(string(c.Text))
	if err != nil {
		return fmt.Errorf("query %q is in the language but was rejected: %v", c.Text, err)
	}
	if !equalN(got, c.Want) {
		return fmt.Errorf("query %q parsed as\n  %v\nwanted\n  %v", c.Text, got, c.Want)
	}
	ops := opCount(c.Want)
	if ops >= 2 {
		x.NonTrivial()
	}
	x.Label("ops=%s", bucket(ops))
	return c.checkThen(x)
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n <= 3:
		return "2-3"
	case n <= 8:
		return "4-8"
	case n <= 20:
		return "9-20"
	}
	return ">20"
}

type chainCase parseCase

// genChain draws a flat run of operands and operators without parentheses and
// computes the tree with an operator-precedence fold over a table.
func genChain(t *rapid.T) chainCase {
	n := rapid.IntRange(2, 9).Draw(t, "operands")
	prec := map[string]int{"OR": 1, "AND": 2, "ADD": 5, "SUB": 5, "MUL": 6, "DIV": 6, "MOD": 6, "LIKE": 4, "ILIKE": 4, "IN": 4}
	for _, c := range cmpNames {
		prec[c] = 3
	}
	all := append([]string{"OR", "AND", "ADD", "SUB", "MUL", "DIV", "MOD", "LIKE", "ILIKE", "IN"}, cmpNames...)
	r := &renderer{t: t}
	leaf := func() *N {
		l := genLeaf(t)
		var pre []string
		for chance(t, "prefixed", 20) && len(pre) < 3 {
			pre = append(pre, pick(t, "prefix", "NOT", "LEN", "ANY", "ALL", "SUM"))
		}
		neg := chance(t, "neg", 15)
		for _, p := range pre {
			r.kw(p)
		}
		if neg {
			r.emit("-")
		}
		r.node(l, false)
		if neg {
			l = un("NEG", l)
		}
		for i := len(pre) - 1; i >= 0; i-- {
			l = un(pre[i], l)
		}
		return l
	}
	var vals []*N
	var ops []string
	reduce := func(p int) {
		for len(ops) > 0 && prec[ops[len(ops)-1]] >= p {
			k := len(vals)
			vals = append(vals[:k-2], bin(ops[len(ops)-1], vals[k-2], vals[k-1]))
			ops = ops[:len(ops)-1]
		}
	}
	vals = append(vals, leaf())
	for i := 1; i < n; i++ {
		op := pick(t, "op", all...)
		reduce(prec[op])
		if opText[op] != nil {
			r.op(op)
		} else {
			r.kw(op)
		}
		ops = append(ops, op)
		vals = append(vals, leaf())
	}
	reduce(0)
	return chainCase(parseCase{Text: kit.Str(join(t, r.toks, true)), Want: vals[0]}.then(t))
}

func init() {
	kit.Register("C01/tree", "a drawn tree of up to 5 levels over all operators and literals, spelled with drawn layout, keyword case, redundant parentheses, operator aliases and literal spellings; non-trivial: at least 2 operators",
		func(t *rapid.T) parseCase {
			n := stretch(t, genTree(t, rapid.IntRange(1, 5).Draw(t, "depth")), 8, true)
			return parseCase{Text: kit.Str(render(t, n)), Want: n}.then(t)
		}, checkParse)
	kit.Register("C01/chain", "a drawn flat chain of 2-9 operands joined by drawn operators with no parentheses, folded by a precedence table; non-trivial: at least 2 operators",
		genChain, func(c chainCase, x *kit.X) error { return checkParse(parseCase(c), x) })
	kit.Register("C01/layout", "two spellings of one drawn tree (canonical, and with drawn layout, case and parentheses) give one tree; non-trivial: the spellings differ and have an operator",
		func(t *rapid.T) [2]kit.Str {
			n := stretch(t, genTree(t, rapid.IntRange(1, 4).Draw(t, "depth")), 8, true)
			return [2]kit.Str{kit.Str(render(nil, n)), kit.Str(render(t, n))}
		}, func(c [2]kit.Str, x *kit.X) error {
			a, err := parseN(string(c[0]))
			if err != nil {
				return fmt.Errorf("%q rejected: %v", c[0], err)
			}
			b, err := parseN(string(c[1]))
			if err != nil {
				return fmt.Errorf("%q rejected: %v", c[1], err)
			}
			if !equalN(a, b) {
				return fmt.Errorf("%q and %q differ only in layout but parse as\n  %v\n  %v", c[0], c[1], a, b)
			}
			if c[0] != c[1] && opCount(a) > 0 {
				x.NonTrivial()
			}
			return nil
		})

	// ---- C02: literals -----------------------------------------------------
	kit.Register("C02/string", "a drawn string content spelled with each kind of quote and drawn escapes, alone and inside a comparison; non-trivial: contains a quote, backslash, control or non-ASCII byte, or has the shape of a date",
		func(t *rapid.T) parseCase {
			n := str(longer(t, genString(t)))
			r := &renderer{t: t}
			return parseCase{Text: kit.Str(r.quote(n.S)), Want: n}.then(t)
		}, func(c parseCase, x *kit.X) error {
			if err := checkLiteral(c, x); err != nil {
				return err
			}
			x.Label("%s", c.Want.K)
			if c.Want.K != "STRING" || strings.ContainsAny(c.Want.S, "'\"`\\\n\t\r\b\f") || strings.IndexFunc(c.Want.S, func(r rune) bool { return r > 126 || r < 32 }) >= 0 {
				x.NonTrivial()
			}
			return nil
		})
	kit.Register("C02/number", "a drawn number text built from sign, digits, fraction and exponent or size suffix, with its value computed from the parts; non-trivial: has a fraction, exponent, suffix or sign",
		func(t *rapid.T) parseCase {
			s := pick(t, "sign", "", "", "+", "-")
			s += longer(t, rapid.StringMatching(`[0-9]{1,19}`).Draw(t, "int"))
			if chance(t, "frac", 50) {
				s += "." + longer(t, rapid.StringMatching(`[0-9]{0,12}`).Draw(t, "fr"))
			}
			switch rapid.IntRange(0, 2).Draw(t, "tail") {
			case 1:
				s += pick(t, "e", "e", "E") + pick(t, "es", "", "+", "-") + rapid.StringMatching(`[0-9]{1,3}`).Draw(t, "exp")
			case 2:
				s += pick(t, "suffix", "k", "m", "g", "t", "p", "K", "M", "G", "T", "P") + pick(t, "i", "", "i", "I")
			}
			return parseCase{Text: kit.Str(s)}.then(t)
		}, func(c parseCase, x *kit.X) error {
			c.Want = num(numValue(string(c.Text)))
			x.LabelIf(math.IsInf(c.Want.F, 0), "overflows to infinity")
			if err := checkLiteral(c, x); err != nil {
				return err
			}
			if strings.ContainsAny(string(c.Text), ".eEkmgtpKMGTP+-") {
				x.NonTrivial()
			}
			x.LabelIf(strings.ContainsAny(string(c.Text), "kmgtpKMGTP"), "suffix")
			return nil
		})
	kit.Register("C02/ident", "a drawn identifier with dots, slashes and bracket suffixes, alone, compared and as a list element; non-trivial: more than one part",
		func(t *rapid.T) parseCase {
			s := longer(t, genIdent(t))
			return parseCase{Text: kit.Str(s), Want: id(s)}.then(t)
		}, func(c parseCase, x *kit.X) error {
			if err := checkLiteral(c, x); err != nil {
				return err
			}
			if strings.ContainsAny(c.Want.S, "./[_") {
				x.NonTrivial()
			}
			return nil
		})
	kit.Register("C02/date", "a drawn date or RFC 3339 timestamp written bare and quoted; non-trivial: a timestamp with a fraction or a numeric offset, or an impossible calendar value",
		func(t *rapid.T) parseCase {
			s := genDateText(t)
			if rapid.Bool().Draw(t, "stamp") {
				s = genStampText(t)
			}
			n := classify(s)
			r := &renderer{t: t}
			r.node(n, false)
			return parseCase{Text: kit.Str(r.toks[0]), Want: n}.then(t)
		}, func(c parseCase, x *kit.X) error {
			if err := checkLiteral(c, x); err != nil {
				return err
			}
			x.Label("%s", c.Want.K)
			if c.Want.K == "TIMESTAMP" && !strings.HasSuffix(c.Want.S, ":00Z") {
				x.NonTrivial()
			}
			return nil
		})
	kit.Register("C03/mutant", "a drawn query with 0-4 byte, token or chunk edits (delete, insert, duplicate, swap, truncate, append); non-trivial: the reference parser rejects it, or accepts it with 2 or more operators",
		func(t *rapid.T) kit.Str {
			n := genTree(t, rapid.IntRange(0, 3).Draw(t, "depth"))
			s := render(t, n)
			return kit.Str(mutate(t, s))
		}, checkAccept)
	kit.Register("C03/soup", "a drawn sequence of 0-14 tokens with drawn spacing; non-trivial: at least 3 tokens",
		func(t *rapid.T) kit.Str {
			var b strings.Builder
			for i, n := 0, rapid.IntRange(0, 14).Draw(t, "n"); i < n; i++ {
				b.WriteString(soup[rapid.IntRange(0, len(soup)-1).Draw(t, "tok")])
				b.WriteString(pick(t, "sp", " ", "", " ", "\n"))
			}
			return kit.Str(b.String())
		}, checkAccept)
	kit.Register("C03/bytes", "an arbitrary byte string of up to 24 bytes, biased to the language's own bytes; non-trivial: at least 2 bytes",
		func(t *rapid.T) kit.Str {
			if chance(t, "raw", 30) {
				return kit.Str(rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "b"))
			}
			const al = "ab1E.+-'\"`\\[](),<>=!~%*/_ \n\tkKiI0TZ:@#$&^{}|;?\x00\x80\xff"
			var b []byte
			for i, n := 0, rapid.IntRange(0, 24).Draw(t, "n"); i < n; i++ {
				b = append(b, al[rapid.IntRange(0, len(al)-1).Draw(t, "c")])
			}
			return kit.Str(b)
		}, checkAccept)
	kit.Register("C03/then", "a drawn query and one that differs from it in a letter, a digit, a blank, a quote or its end, parsed one after the other; non-trivial: both have 2 or more operators",
		func(t *rapid.T) [2]kit.Str {
			s := render(t, genTree(t, rapid.IntRange(0, 3).Draw(t, "depth")))
			return [2]kit.Str{kit.Str(s), kit.Str(kit.SiblingPhrase(t, s))}
		}, func(c [2]kit.Str, x *kit.X) error {
			if c[1] == "" {
				return nil
			}
			ops := 9
			for _, s := range c {
				if err := acceptance(string(s)); err != nil {
					return fmt.Errorf("of %q: %v", c, err)
				}
				if want, bad, _ := refParse(string(s)); bad == nil {
					ops = min(ops, opCount(want))
				}
			}
			if ops >= 2 {
				x.NonTrivial()
			}
			return nil
		})
	kit.Register("C03/large", "one construct repeated 50-3000 times (nesting, chains, lists, long tokens), whole or cut short; non-trivial: every case",
		func(t *rapid.T) bigCase {
			return bigCase{Kind: rapid.IntRange(0, len(bigKinds)-1).Draw(t, "kind"), N: rapid.IntRange(50, 3000).Draw(t, "n"), Cut: chance(t, "cut", 30)}
		}, func(c bigCase, x *kit.X) error {
			x.NonTrivial()
			x.Label("%s", bigKinds[c.Kind].name)
			return acceptance(c.text())
		})
	kit.Register("C04/error", "a drawn ill-formed text (edited query, token soup or bytes), parsed between two other parses; non-trivial: the offending token is not the first one",
		func(t *rapid.T) errCase {
			var s string
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				s = mutate(t, render(t, genTree(t, rapid.IntRange(0, 3).Draw(t, "depth"))))
			case 1:
				var b strings.Builder
				for i, n := 0, rapid.IntRange(0, 10).Draw(t, "n"); i < n; i++ {
					b.WriteString(soup[rapid.IntRange(0, len(soup)-1).Draw(t, "tok")])
					b.WriteString(pick(t, "sp", " ", "", "\n", " \t "))
				}
				s = b.String()
			case 2:
				s = render(t, genTree(t, 1)) + pick(t, "tail", " @", " 'open", "\n)", " and", "\nor\n", " = ", " \x00", " a")
			}
			return errCase{Text: kit.Str(s), Other: kit.Str(mutate(t, render(t, genTree(t, 1))))}
		}, checkDiag)
}

// longer makes a few texts long: copies of the text, so that a long name or
// number is one too, with the end of the last copy cut or kept.
func longer(t *rapid.T, s string) string {
	if rapid.IntRange(0, 399).Draw(t, "long") < 397 || s == "" {
		return s
	}
	size := rapid.SampledFrom([]int{33, 64, 65, 100, 128, 129, 256, 257, 400, 513, 1025, 2049, 4097, 9000}).Draw(t, "longTo")
	unit := s
	if strings.HasSuffix(s, "]") { // a subscript ends a name
		unit = "long_" + s
		s = unit
		for len(s) < size {
			s = "long_" + s
		}
		return s
	}
	for len(s) < size {
		s += unit
	}
	return s
}

var soup = append([]string{"a", "b.c", "x[1]", "1", "-2", "+3", "1.5E3", "4Ki", "'s'", "\"t\"", "`u`", "2020-01-01", "2020-01-01T00:00:00Z", "like", "ILIKE", "and", "or",
	"between", "in", "is", "null", "not", "true", "false", "len", "any", "all", "sum", "<>", "@", "'", "!", "~", ";", "is not null", "not in", "[1,2]", "between 1 and 2",
	"a[**]", "a[]", "a[*", "a[-1]", "a[ 1]", "a[1][2]", "a[*].b", "a[x y]", "a[é]", "a[1", "b]", "length", "count", "a.", "a..b", "1..2", "0x1F", "1_000", "1e", ".5", "5.", "x'41'"}, opTokens...)

// checkLiteral parses the literal alone and in three contexts.
func checkLiteral(c parseCase, x *kit.X) error {
	s := string(c.Text)
	ctx := []struct {
		q string
		w *N
	}{
		{s, c.Want},
		{"x = " + s, bin("EQ", id("x"), c.Want)},
		{"( " + s + " )!=y", bin("NE", c.Want, id("y"))},
		{"x in [" + s + " , " + s + "]", bin("IN", id("x"), arr(c.Want, c.Want))},
		{"x\tbetween\n" + s + "\nand " + s + " or b", bin("OR", bin("BETWEEN", id("x"), arr(c.Want, c.Want)), id("b"))},
	}
	for _, k := range ctx {
		got, err := parseN(k.q)
		if err != nil {
			return fmt.Errorf("%q rejected: %v", k.q, err)
		}
		if !equalN(got, k.w) {
			return fmt.Errorf("%q parsed as %v, wanted %v", k.q, got, k.w)
		}
	}
	return c.checkThen(x)
}

func mutate(t *rapid.T, s string) string {
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "edits"); i < n; i++ {
		p := rapid.IntRange(0, len(s)).Draw(t, "at")
		switch rapid.IntRange(0, 6).Draw(t, "edit") {
		case 0: // delete a short chunk
			q := p + rapid.IntRange(1, 3).Draw(t, "len")
			if q > len(s) {
				q = len(s)
			}
			s = s[:p] + s[q:]
		case 1, 2: // insert a token
			k := soup[rapid.IntRange(0, len(soup)-1).Draw(t, "tok")]
			s = s[:p] + pick(t, "pre", " ", "") + k + pick(t, "post", " ", "") + s[p:]
		case 3: // insert a byte
			s = s[:p] + string([]byte{rapid.Byte().Draw(t, "byte")}) + s[p:]
		case 4: // truncate
			s = s[:p]
		case 5: // append
			s += pick(t, "tail", " )", " @ ", " 'x", " and", " a = 1", "]", " \"", " #", "\x00", "\x00 = 1", " ;", " 1", " not")
		case 6: // drop one token
			l := refLex(s)
			k := l[rapid.IntRange(0, len(l)-1).Draw(t, "drop")]
			s = s[:k.P] + s[k.Q:]
		}
	}
	return s
}

func acceptance(s string) error {
	want, bad, _ := refParse(s)
	got, err := parseN(s)
	show := s
	if len(show) > 300 {
		show = show[:150] + " ... " + show[len(show)-150:]
	}
	if bad != nil {
		if err == nil {
			return fmt.Errorf("%q is not in the language (offending text %q at byte %d) but was accepted as %v", show, bad.S, bad.P, got)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%q is in the language (%v) but was rejected: %v", show, want, err)
	}
	if !equalN(got, want) {
		return fmt.Errorf("%q parsed as\n  %v\nwanted\n  %v", show, got, want)
	}
	return nil
}

func checkAccept(c kit.Str, x *kit.X) error {
	s := string(c)
	if err := acceptance(s); err != nil {
		return err
	}
	want, bad, _ := refParse(s)
	x.LabelIf(bad != nil, "rejected")
	x.LabelIf(bad == nil, "accepted")
	x.LabelIf(strings.IndexByte(s, 0) >= 0, "has NUL")
	if bad != nil && len(s) >= 2 || bad == nil && opCount(want) >= 2 {
		x.NonTrivial()
	}
	return nil
}

type bigCase struct {
	Kind, N int
	Cut     bool
}

var bigKinds = []struct {
	name string
	f    func(n int) string
}{
	{"parens", func(n int) string { return strings.Repeat("(", n) + "a = 1" + strings.Repeat(")", n) }},
	{"arrays", func(n int) string { return "x in " + strings.Repeat("[", n) + "1" + strings.Repeat("]", n) }},
	{"not", func(n int) string { return strings.Repeat("not ", n) + "a" }},
	{"neg", func(n int) string { return strings.Repeat("- ", n) + "a = 1" }},
	{"or-chain", func(n int) string { return "a = 0" + strings.Repeat(" or a = 1", n) }},
	{"add-chain", func(n int) string { return "a = 0" + strings.Repeat(" + b", n) }},
	{"and-right", func(n int) string { return strings.Repeat("a = 1 and (", n) + "b" + strings.Repeat(")", n) }},
	{"list", func(n int) string { return "a in [" + strings.Repeat("'v', ", n) + "1]" }},
	{"long-string", func(n int) string { return "a = '" + strings.Repeat(`x\'y`, n) + "'" }},
	{"long-ident", func(n int) string { return "a" + strings.Repeat(".b[1]", n) + " = 1" }},
	{"long-number", func(n int) string { return "a = 1." + strings.Repeat("0123456789", n) }},
	{"spaces", func(n int) string { return strings.Repeat(" \n", n) + "a" + strings.Repeat("\t \r\n", n) + "= 1" }},
}

func (c bigCase) text() string {
	s := bigKinds[c.Kind].f(c.N)
	if c.Cut {
		s = s[:len(s)-1-c.N/3]
	}
	return s
}

// ---- C04: diagnostics ------------------------------------------------------

type errCase struct{ Text, Other kit.Str }

func checkDiag(c errCase, x *kit.X) error {
	s := string(c.Text)
	_, bad, _ := refParse(s)
	if bad == nil {
		x.Exclude()
		return nil
	}
	var first *tsl.SyntaxError
	for round := 0; round < 2; round++ {
		t, err := tsl.ParseTSL(s)
		if err == nil {
			t.Free()
			return nil // wrongly accepted: judged by C03
		}
		if t != nil {
			return fmt.Errorf("%q: a tree came with the error", s)
		}
		var se *tsl.SyntaxError
		if !errors.As(err, &se) {
			return fmt.Errorf("%q: error is a %T, not a syntax error", s, err)
		}
		if se.Input != s {
			return fmt.Errorf("%q: error carries input %q", s, se.Input)
		}
		if se.Message == "" {
			return fmt.Errorf("%q: empty message", s)
		}
		if se.Position < 0 || se.Position > len(s) {
			return fmt.Errorf("%q: position %d is outside the input (offending text %q at byte %d)", s, se.Position, bad.S, bad.P)
		}
		if bad.T == "EOF" {
			// the query ends too early: the position is in what follows the start of the last token
			last := 0
			if l := refLex(s); len(l) > 1 {
				last = l[len(l)-2].P
			}
			if se.Position < last {
				return fmt.Errorf("%q ends too early, but the position %d is before the last token (byte %d)", s, se.Position, last)
			}
		} else if nul := strings.IndexByte(s, 0); nul >= 0 && se.Position == nul {
			// no query holds a NUL byte: it may be reported before anything else
		} else if se.Position < bad.P || se.Position >= bad.Q {
			return fmt.Errorf("%q: position %d is not in the offending text %q (bytes %d-%d)", s, se.Position, bad.S, bad.P, bad.Q)
		}
		if !strings.Contains(s, se.Context) {
			return fmt.Errorf("%q: context %q is not part of the input", s, se.Context)
		}
		if bad.T != "EOF" && len(s) < 400 && strings.IndexByte(s, 0) < 0 && !strings.Contains(se.Context, s[bad.P:bad.Q]) && !strings.ContainsAny(s[bad.P:bad.Q], " \t\n\r\f\v\x00") {
			return fmt.Errorf("%q: context %q does not show the offending text %q", s, se.Context, s[bad.P:bad.Q])
		}
		msg := err.Error()
		if !strings.Contains(msg, se.Message) || !strings.Contains(msg, s) {
			return fmt.Errorf("%q: rendered error %q lacks the message or the input", s, msg)
		}
		if first == nil {
			first = se
			if t, err := tsl.ParseTSL(string(c.Other)); err == nil {
				t.Free()
			}
		} else if *first != *se {
			return fmt.Errorf("%q: diagnosis depends on history: %+v then, after parsing %q, %+v", s, *first, string(c.Other), *se)
		}
	}
	x.Label("at %s", bad.T)
	if bad.P > 0 {
		x.NonTrivial()
	}
	return nil
}
