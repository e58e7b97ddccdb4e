package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
)

// An interpreter of ANTLR 4 grammar files: as much of the notation as a grammar
// without actions and predicates needs. It follows the ANTLR reference: the lexer
// takes the longest token, of the rule that comes first; the parser takes, of the
// alternatives with which the text is a phrase, the one that comes first; a rule
// that begins with itself is a ladder of operators, the first alternative binding
// tightest.

// gnode is a part of a rule.
type gnode struct {
	op    string // lit, ref, set, alt, seq, star, plus, opt, any, eof, empty
	s     string // text or name
	kids  []*gnode
	label string // of an alternative
	right bool   // associates to the right
	neg   bool
	set   [][2]rune
}

type grule struct {
	name     string
	fragment bool
	hidden   bool
	alts     []*gnode
}

type grammar struct {
	rules map[string]*grule
	lexer []*grule // in order of rank, words the parser rules spell out first
	start string
}

// ---- reading ------------------------------------------------------------------

type g4reader struct {
	s   []rune
	at  int
	tok string // kind: id, lit, set, and the characters of the notation
	val string
}

// g4error is a fault of the grammar, or a notation that is not known here.
type g4error struct {
	text    string
	unknown bool
}

func (e g4error) Error() string { return e.text }

func (r *g4reader) unknown(f string, a ...any) { panic(g4error{fmt.Sprintf(f, a...), true}) }

func (r *g4reader) fail(f string, a ...any) { panic(g4error{fmt.Sprintf(f, a...), false}) }

func (r *g4reader) next() {
	for r.at < len(r.s) {
		rest := string(r.s[r.at:min(len(r.s), r.at+2)])
		switch {
		case unicode.IsSpace(r.s[r.at]):
			r.at++
		case rest == "//":
			for r.at < len(r.s) && r.s[r.at] != '\n' {
				r.at++
			}
		case rest == "/*":
			for r.at += 2; r.at+1 < len(r.s) && string(r.s[r.at:r.at+2]) != "*/"; r.at++ {
			}
			r.at += 2
		default:
			r.token()
			return
		}
	}
	r.tok, r.val = "", ""
}

func (r *g4reader) until(end rune) string {
	from := r.at + 1
	for r.at++; r.at < len(r.s) && r.s[r.at] != end; r.at++ {
		if r.s[r.at] == '\\' {
			r.at++
		}
	}
	if r.at >= len(r.s) {
		r.fail("no closing %c", end)
	}
	r.at++
	return string(r.s[from : r.at-1])
}

func idRune(c rune) bool { return c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) }

func (r *g4reader) token() {
	c := r.s[r.at]
	switch {
	case idRune(c):
		from := r.at
		for r.at < len(r.s) && idRune(r.s[r.at]) {
			r.at++
		}
		r.tok, r.val = "id", string(r.s[from:r.at])
	case c == '\'':
		r.tok, r.val = "lit", r.until('\'')
	case c == '[':
		r.tok, r.val = "set", r.until(']')
	case c == '-' && r.at+1 < len(r.s) && r.s[r.at+1] == '>':
		r.tok, r.at = "->", r.at+2
	case c == '.' && r.at+1 < len(r.s) && r.s[r.at+1] == '.':
		r.tok, r.at = "..", r.at+2
	case strings.ContainsRune(":;|()*+?~#,.<>=", c):
		r.tok, r.at = string(c), r.at+1
	default:
		r.unknown("%q is not of the notation known here", c)
	}
}

func (r *g4reader) need(tok string) string {
	if r.tok != tok {
		r.fail("%q %q where %q should be", r.tok, r.val, tok)
	}
	v := r.val
	r.next()
	return v
}

// chars undoes the escapes of a literal or set; esc tells which were escaped.
func (r *g4reader) chars(s string) (out []rune, esc []bool) {
	in := []rune(s)
	for i := 0; i < len(in); i++ {
		c := in[i]
		if c != '\\' {
			out, esc = append(out, c), append(esc, false)
			continue
		}
		i++
		switch in[i] {
		case 'n':
			c = '\n'
		case 't':
			c = '\t'
		case 'r':
			c = '\r'
		case 'b':
			c = '\b'
		case 'f':
			c = '\f'
		case 'u':
			hex := ""
			if in[i+1] == '{' {
				end := i + strings.IndexRune(string(in[i:]), '}')
				hex, i = string(in[i+2:end]), end
			} else {
				hex, i = string(in[i+1:i+5]), i+4
			}
			n, err := strconv.ParseInt(hex, 16, 32)
			if err != nil {
				r.fail("%v", err)
			}
			c = rune(n)
		case '\\', '\'', ']', '-', '[', '^':
			c = in[i]
		default:
			r.unknown("escape %q", in[i])
		}
		out, esc = append(out, c), append(esc, true)
	}
	return out, esc
}

func (r *g4reader) text(s string) string { c, _ := r.chars(s); return string(c) }

func readGrammar(s string) (g *grammar, err error) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case g4error:
			g, err = nil, e
		default:
			panic(e)
		}
	}()
	r := &g4reader{s: []rune(s)}
	r.next()
	for r.tok == "id" && r.val != "grammar" {
		r.next()
	}
	if r.need("id") != "grammar" {
		r.fail("no grammar")
	}
	r.need("id")
	r.need(";")
	g = &grammar{rules: map[string]*grule{}}
	var parsers []*grule
	for r.tok != "" {
		u := &grule{name: r.need("id")}
		if u.name == "fragment" {
			u.fragment, u.name = true, r.need("id")
		}
		if g.rules[u.name] != nil {
			r.fail("rule %s is there twice", u.name)
		}
		r.need(":")
		u.alts = r.alts(u)
		r.need(";")
		g.rules[u.name] = u
		if unicode.IsUpper([]rune(u.name)[0]) {
			g.lexer = append(g.lexer, u)
		} else {
			parsers = append(parsers, u)
			if g.start == "" {
				g.start = u.name
			}
		}
	}
	// Texts that parser rules spell out are tokens of the highest rank, unless a
	// lexer rule is that text.
	named := map[string]*grule{}
	for _, u := range g.lexer {
		if len(u.alts) == 1 && u.alts[0].op == "lit" && !u.fragment {
			named[u.alts[0].s] = u
		}
	}
	var words []*grule
	for _, p := range parsers {
		for _, a := range p.alts {
			a.each(func(n *gnode) {
				switch n.op {
				case "lit":
					if named[n.s] == nil {
						w := &grule{name: "'" + n.s + "'", alts: []*gnode{{op: "lit", s: n.s}}}
						words, named[n.s], g.rules[w.name] = append(words, w), w, w
					}
					n.op, n.s = "ref", named[n.s].name
				case "set", "any":
					r.fail("characters in the parser rule %s", p.name)
				}
			})
		}
	}
	g.lexer = append(words, g.lexer...)
	for _, u := range g.rules {
		for _, a := range u.alts {
			a.each(func(n *gnode) {
				if n.op == "ref" && g.rules[n.s] == nil {
					r.fail("rule %s is missing", n.s)
				}
			})
		}
	}
	return g, nil
}

func (n *gnode) each(f func(*gnode)) {
	f(n)
	for _, k := range n.kids {
		k.each(f)
	}
}

func (r *g4reader) alts(u *grule) (out []*gnode) {
	for {
		n := &gnode{op: "seq"}
		for {
			if r.tok == "<" {
				r.next()
				if r.need("id") != "assoc" {
					r.unknown("unknown option")
				}
				r.need("=")
				n.right = r.need("id") == "right"
				r.need(">")
				continue
			}
			e := r.element()
			if e == nil {
				break
			}
			n.kids = append(n.kids, e)
		}
		if len(n.kids) == 1 && !n.right {
			n = &gnode{op: "seq", kids: n.kids}
			if k := n.kids[0]; k.op == "lit" {
				n = k
			}
		}
		if r.tok == "#" && u != nil {
			r.next()
			n.label = r.need("id")
		}
		if r.tok == "->" && u != nil {
			r.next()
			switch c := r.need("id"); c {
			case "skip":
				u.hidden = true
			case "channel":
				r.need("(")
				u.hidden = u.hidden || r.val != "DEFAULT_TOKEN_CHANNEL"
				r.need("id")
				r.need(")")
			default:
				r.unknown("command %s", c)
			}
		}
		out = append(out, n)
		if r.tok != "|" {
			return out
		}
		r.next()
	}
}

func (r *g4reader) element() *gnode {
	neg := false
	if r.tok == "~" {
		neg = true
		r.next()
	}
	var n *gnode
	switch r.tok {
	case "id":
		name := r.val
		r.next()
		if r.tok == "=" { // a name for the part
			r.next()
			return r.element()
		}
		n = &gnode{op: "ref", s: name}
		if name == "EOF" {
			n = &gnode{op: "eof"}
		}
	case "lit":
		n = &gnode{op: "lit", s: r.text(r.val)}
		r.next()
		if r.tok == ".." {
			r.next()
			to := []rune(r.text(r.need("lit")))
			n = &gnode{op: "set", set: [][2]rune{{[]rune(n.s)[0], to[0]}}}
		}
	case "set":
		c, esc := r.chars(r.val)
		n = &gnode{op: "set"}
		for i := 0; i < len(c); i++ {
			if i+2 < len(c) && c[i+1] == '-' && !esc[i+1] {
				n.set = append(n.set, [2]rune{c[i], c[i+2]})
				i += 2
			} else {
				n.set = append(n.set, [2]rune{c[i], c[i]})
			}
		}
		r.next()
	case ".":
		n = &gnode{op: "any"}
		r.next()
	case "(":
		r.next()
		n = &gnode{op: "alt", kids: r.alts(nil)}
		r.need(")")
	default:
		if neg {
			r.fail("~ before %q", r.tok)
		}
		return nil
	}
	if neg {
		n = r.negate(n)
	}
	if op := map[string]string{"*": "star", "+": "plus", "?": "opt"}[r.tok]; op != "" {
		r.next()
		n = &gnode{op: op, kids: []*gnode{n}}
		if r.tok == "?" {
			r.unknown("a loop that takes little")
		}
	}
	return n
}

func (r *g4reader) negate(n *gnode) *gnode {
	out := &gnode{op: "set", neg: true}
	n.each(func(m *gnode) {
		switch m.op {
		case "lit":
			c := []rune(m.s)
			if len(c) != 1 {
				r.unknown("~ of a longer text")
			}
			out.set = append(out.set, [2]rune{c[0], c[0]})
		case "set":
			if m.neg {
				r.unknown("~ of ~")
			}
			out.set = append(out.set, m.set...)
		case "alt", "seq":
		default:
			r.unknown("~ of %s", m.op)
		}
	})
	return out
}

// ---- lexing -------------------------------------------------------------------

func (n *gnode) has(c rune) bool {
	for _, s := range n.set {
		if c >= s[0] && c <= s[1] {
			return !n.neg
		}
	}
	return n.neg
}

// ends gives all places where n can end that starts at one of the places given.
func (g *grammar) ends(n *gnode, s []rune, from map[int]bool) map[int]bool {
	out := map[int]bool{}
	switch n.op {
	case "lit":
		c := []rune(n.s)
		for at := range from {
			if len(s)-at >= len(c) && string(s[at:at+len(c)]) == n.s {
				out[at+len(c)] = true
			}
		}
	case "set", "any":
		for at := range from {
			if at < len(s) && (n.op == "any" || n.has(s[at])) {
				out[at+1] = true
			}
		}
	case "ref":
		for _, a := range g.rules[n.s].alts {
			for e := range g.ends(a, s, from) {
				out[e] = true
			}
		}
	case "alt":
		for _, a := range n.kids {
			for e := range g.ends(a, s, from) {
				out[e] = true
			}
		}
	case "seq":
		out = from
		for _, k := range n.kids {
			if len(out) == 0 {
				break
			}
			out = g.ends(k, s, out)
		}
	case "opt":
		for e := range from {
			out[e] = true
		}
		for e := range g.ends(n.kids[0], s, from) {
			out[e] = true
		}
	case "star", "plus":
		front := from
		if n.op == "star" {
			for e := range from {
				out[e] = true
			}
		}
		for len(front) > 0 {
			fresh := map[int]bool{}
			for e := range g.ends(n.kids[0], s, front) {
				if !out[e] {
					out[e], fresh[e] = true, true
				}
			}
			front = fresh
		}
	case "eof":
		for at := range from {
			if at == len(s) {
				out[at] = true
			}
		}
	}
	return out
}

type gtoken struct {
	rule, text string
}

// lex splits a text into tokens; bad counts the characters that begin none.
func (g *grammar) lex(s []rune) (out []gtoken, bad int) {
	for at := 0; at < len(s); {
		best, end := (*grule)(nil), at
		for _, u := range g.lexer {
			if u.fragment {
				continue
			}
			for e := range g.ends(&gnode{op: "ref", s: u.name}, s, map[int]bool{at: true}) {
				if e > end {
					best, end = u, e
				}
			}
		}
		if best == nil {
			bad++
			at++
			continue
		}
		if !best.hidden {
			out = append(out, gtoken{best.name, string(s[at:end])})
		}
		at = end
	}
	return out, bad
}

// ---- parsing ------------------------------------------------------------------

// gtree is a rule, or a token, of a parsed text.
type gtree struct {
	name string // of the alternative, or the text of a token
	leaf bool
	kids []*gtree
}

// String writes the alternatives that have a name, and the tokens.
func (t *gtree) String() string {
	if t.leaf {
		return strconv.Quote(t.name)
	}
	var b strings.Builder
	for _, k := range t.kids {
		b.WriteString(" " + k.String())
	}
	if t.name == "" {
		return strings.TrimPrefix(b.String(), " ")
	}
	return "(" + t.name + b.String() + ")"
}

// gend is a way to read a part: where it ends, and what it was.
type gend struct {
	at   int
	kids []*gtree
}

type gkey struct {
	rule    string
	bind, i int
}

type gparse struct {
	g    *grammar
	toks []gtoken
	memo map[gkey][]gend
	open map[gkey]bool
}

// parse gives the tree of the tokens, or nil if they are no phrase.
func (g *grammar) parse(toks []gtoken) (t *gtree, err error) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case g4error:
			err = e
		default:
			panic(e)
		}
	}()
	p := &gparse{g: g, toks: toks, memo: map[gkey][]gend{}, open: map[gkey]bool{}}
	for _, e := range p.rule(g.start, 0, 0) {
		return e.kids[0], nil // a rule that ends in EOF has read all there is
	}
	return nil, nil
}

// first keeps of the ways that end in one place the one that comes first.
func first(in []gend) (out []gend) {
	seen := map[int]bool{}
	for _, e := range in {
		if !seen[e.at] {
			seen[e.at] = true
			out = append(out, e)
		}
	}
	return out
}

func join(a gend, b []gend) (out []gend) {
	for _, e := range b {
		out = append(out, gend{e.at, append(append([]*gtree(nil), a.kids...), e.kids...)})
	}
	return out
}

func (n *gnode) parts() []*gnode {
	if n.op == "seq" {
		return n.kids
	}
	return []*gnode{n}
}

func isRef(n *gnode, name string) bool { return n.op == "ref" && n.s == name }

func (p *gparse) rule(name string, bind, at int) []gend {
	key := gkey{name, bind, at}
	if out, ok := p.memo[key]; ok {
		return out
	}
	if p.open[key] {
		panic(g4error{"rule " + name + " begins with itself by way of another", false})
	}
	p.open[key] = true
	u := p.g.rules[name]
	wrap := func(a *gnode, in []gend) (out []gend) {
		for _, e := range in {
			out = append(out, gend{e.at, []*gtree{{name: a.label, kids: e.kids}}})
		}
		return out
	}
	// The place of an alternative on the ladder, the tightest highest.
	level := func(i int) int { return len(u.alts) - i }
	recursive := false
	for _, a := range u.alts {
		if k := a.parts(); len(k) > 0 && isRef(k[0], name) {
			recursive = true
		}
	}
	var heads []gend
	for i, a := range u.alts {
		k := a.parts()
		if len(k) > 0 && isRef(k[0], name) {
			continue
		}
		if recursive && len(k) > 1 && isRef(k[len(k)-1], name) { // a prefix
			for _, e := range first(p.seq(k[:len(k)-1], at)) {
				heads = append(heads, wrap(a, join(e, p.rule(name, level(i), e.at)))...)
			}
			continue
		}
		heads = append(heads, wrap(a, first(p.seq(k, at)))...)
	}
	var out []gend
	if !recursive {
		out = first(heads)
	} else {
		seen := map[int]bool{}
		var loop func(e gend)
		loop = func(e gend) {
			if seen[e.at] {
				return
			}
			seen[e.at] = true
			for i, a := range u.alts {
				k := a.parts()
				if len(k) == 0 || !isRef(k[0], name) || level(i) < bind {
					continue
				}
				var tails []gend
				if len(k) > 1 && isRef(k[len(k)-1], name) {
					right := level(i) + 1
					if a.right {
						right = level(i)
					}
					for _, m := range first(p.seq(k[1:len(k)-1], e.at)) {
						tails = append(tails, join(m, p.rule(name, right, m.at))...)
					}
				} else {
					tails = p.seq(k[1:], e.at)
				}
				for _, f := range wrap(a, join(e, first(tails))) {
					loop(f)
				}
			}
			out = append(out, e)
		}
		for _, e := range first(heads) {
			loop(e)
		}
	}
	delete(p.open, key)
	p.memo[key] = out
	return out
}

func (p *gparse) seq(kids []*gnode, at int) []gend {
	out := []gend{{at: at}}
	for _, k := range kids {
		var more []gend
		for _, e := range out {
			more = append(more, join(e, p.node(k, e.at))...)
		}
		out = first(more)
	}
	return out
}

func (p *gparse) node(n *gnode, at int) []gend {
	switch n.op {
	case "eof":
		if at == len(p.toks) {
			return []gend{{at: at}}
		}
	case "ref":
		if u := p.g.rules[n.s]; !unicode.IsLower([]rune(u.name)[0]) {
			if at < len(p.toks) && p.toks[at].rule == n.s {
				return []gend{{at + 1, []*gtree{{name: p.toks[at].text, leaf: true}}}}
			}
			return nil
		}
		return p.rule(n.s, 0, at)
	case "seq":
		return p.seq(n.kids, at)
	case "alt":
		var out []gend
		for _, k := range n.kids {
			out = append(out, p.node(k, at)...)
		}
		return first(out)
	case "opt":
		return first(append(append([]gend(nil), p.node(n.kids[0], at)...), gend{at: at}))
	case "star", "plus":
		var out []gend
		var loop func(e gend)
		seen := map[int]bool{}
		loop = func(e gend) {
			if seen[e.at] {
				return
			}
			seen[e.at] = true
			for _, f := range join(e, p.node(n.kids[0], e.at)) {
				loop(f)
			}
			out = append(out, e)
		}
		if n.op == "star" {
			loop(gend{at: at})
		} else {
			for _, e := range p.node(n.kids[0], at) {
				loop(e)
			}
		}
		return out
	}
	return nil
}

// ---- deriving -----------------------------------------------------------------

// costs gives the depth every rule needs at least.
func (g *grammar) costs() map[string]int {
	c := map[string]int{}
	for range g.rules {
		for name, u := range g.rules {
			best := 1000
			for _, a := range u.alts {
				best = min(best, g.cost(a, c)+1)
			}
			c[name] = best
		}
	}
	return c
}

func (g *grammar) cost(n *gnode, c map[string]int) int {
	switch n.op {
	case "ref":
		if v, ok := c[n.s]; ok {
			return v
		}
		return 1000
	case "star", "opt":
		return 0
	}
	most := 0
	for i, k := range n.kids {
		v := g.cost(k, c)
		if n.op == "alt" && i > 0 {
			most = min(most, v)
		} else {
			most = max(most, v)
		}
	}
	return most
}

// derive writes a text that the part describes; choose(n) draws from 0 to n-1.
func (g *grammar) derive(n *gnode, depth int, c map[string]int, choose func(int) int, out func(string)) {
	any := func(alts []*gnode) *gnode {
		var fit []*gnode
		low := 1000
		for _, a := range alts {
			low = min(low, g.cost(a, c))
		}
		for _, a := range alts {
			if v := g.cost(a, c); v <= depth || v == low {
				fit = append(fit, a)
			}
		}
		return fit[choose(len(fit))]
	}
	switch n.op {
	case "lit":
		out(n.s)
	case "set":
		if n.neg {
			for {
				r := []rune("a0 '\"`[].,(é\n\\%_Z-")
				if x := r[choose(len(r))]; n.has(x) {
					out(string(x))
					return
				}
			}
		}
		s := n.set[choose(len(n.set))]
		out(string(s[0] + rune(choose(min(int(s[1]-s[0])+1, 30)))))
	case "any":
		out("a")
	case "alt":
		g.derive(any(n.kids), depth, c, choose, out)
	case "seq":
		for _, k := range n.kids {
			g.derive(k, depth, c, choose, out)
		}
	case "opt", "star", "plus":
		times := 0
		if n.op == "plus" {
			times = 1
		}
		if g.cost(n.kids[0], c) <= depth {
			more := 2
			if n.op != "opt" {
				more = 4
			}
			times += choose(more)
		}
		for ; times > 0; times-- {
			g.derive(n.kids[0], depth, c, choose, out)
		}
	case "ref":
		u := g.rules[n.s]
		token := !unicode.IsLower([]rune(u.name)[0])
		if !token || u.fragment {
			g.derive(any(u.alts), depth-1, c, choose, out)
			return
		}
		var b strings.Builder
		g.derive(any(u.alts), 20, c, choose, func(s string) { b.WriteString(s) })
		out(b.String())
	}
}
