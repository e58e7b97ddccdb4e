package kit

import (
	"fmt"
	"strings"
)

// Graph is a parsed DOT graph.
type Graph struct {
	Label map[string]string // node -> label
	Shape map[string]string
	To    map[string][]string
	Order []string
}

type dotLexer struct {
	s   string
	i   int
	err error
}

// next gives a token: punctuation, or "id:" followed by a plain ID, or "q:"
// followed by the content of a quoted ID.
func (l *dotLexer) next() string {
	for l.i < len(l.s) && strings.IndexByte(" \t\r\n", l.s[l.i]) >= 0 {
		l.i++
	}
	if l.i >= len(l.s) {
		return ""
	}
	c := l.s[l.i]
	switch {
	case strings.IndexByte("{}[]=,;", c) >= 0:
		l.i++
		return string(c)
	case strings.HasPrefix(l.s[l.i:], "->"):
		l.i += 2
		return "->"
	case c == '"':
		var b strings.Builder
		for l.i++; l.i < len(l.s); l.i++ {
			switch {
			case l.s[l.i] == '"':
				l.i++
				return "q:" + b.String()
			case l.s[l.i] == '\\' && l.i+1 < len(l.s):
				// only \" is special to DOT; other escapes are the label's
				if l.s[l.i+1] == '"' {
					b.WriteByte('"')
					l.i++
					continue
				}
				b.WriteByte('\\')
				b.WriteByte(l.s[l.i+1])
				l.i++
			default:
				b.WriteByte(l.s[l.i])
			}
		}
		l.err = fmt.Errorf("unterminated quoted text")
		return ""
	case isLetter(c) || c == '_':
		j := l.i
		for j < len(l.s) && (isLetter(l.s[j]) || l.s[j] == '_' || isDigit(l.s[j])) {
			j++
		}
		w := l.s[l.i:j]
		l.i = j
		switch strings.ToLower(w) {
		case "node", "edge", "graph", "digraph", "subgraph", "strict":
			l.err = fmt.Errorf("keyword %q used as a node", w)
		}
		return "id:" + w
	case isDigit(c):
		j := l.i
		for j < len(l.s) && (isDigit(l.s[j]) || l.s[j] == '.') {
			j++
		}
		w := l.s[l.i:j]
		l.i = j
		return "id:" + w
	}
	l.err = fmt.Errorf("unexpected %q", l.s[l.i:min(len(l.s), l.i+20)])
	return ""
}

// ReadDot parses the statements of a digraph.
func ReadDot(s string) (*Graph, error) {
	l := &dotLexer{s: s}
	g := &Graph{map[string]string{}, map[string]string{}, map[string][]string{}, nil}
	var toks []string
	for {
		t := l.next()
		if l.err != nil {
			return nil, l.err
		}
		if t == "" {
			break
		}
		toks = append(toks, t)
	}
	i := 0
	peek := func() string {
		if i < len(toks) {
			return toks[i]
		}
		return ""
	}
	name := func() (string, error) {
		t := peek()
		if !strings.HasPrefix(t, "id:") && !strings.HasPrefix(t, "q:") {
			return "", fmt.Errorf("%q where a name was expected", t)
		}
		i++
		return t[strings.IndexByte(t, ':')+1:], nil
	}
	for i < len(toks) {
		if peek() == ";" {
			i++
			continue
		}
		n, err := name()
		if err != nil {
			return nil, err
		}
		switch peek() {
		case "[":
			if _, dup := g.Label[n]; dup {
				return nil, fmt.Errorf("two nodes named %s", n)
			}
			g.Label[n] = ""
			g.Order = append(g.Order, n)
			i++
			for peek() != "]" {
				if p := peek(); p == "," || p == ";" {
					i++
					continue
				}
				k, err := name()
				if err != nil {
					return nil, err
				}
				if peek() != "=" {
					return nil, fmt.Errorf("%q where = was expected", peek())
				}
				i++
				v, err := name()
				if err != nil {
					return nil, err
				}
				switch k {
				case "label":
					g.Label[n] = v
				case "shape":
					g.Shape[n] = v
				}
			}
			i++
		case "->":
			i++
			if peek() != "{" {
				m, err := name()
				if err != nil {
					return nil, err
				}
				g.To[n] = append(g.To[n], m)
				continue
			}
			i++
			for peek() != "}" {
				if p := peek(); p == "," || p == ";" {
					i++
					continue
				}
				m, err := name()
				if err != nil {
					return nil, err
				}
				g.To[n] = append(g.To[n], m)
			}
			i++
		default:
			return nil, fmt.Errorf("node %s without attributes or edge", n)
		}
	}
	return g, nil
}

// Fields reads a label: record labels are split into fields and unescaped.
func Fields(label string, record bool) ([]string, error) {
	if !record {
		return []string{label}, nil
	}
	var out []string
	var b strings.Builder
	for i := 0; i < len(label); i++ {
		switch c := label[i]; c {
		case '\\':
			i++
			if i == len(label) {
				return nil, fmt.Errorf("label %q ends in a lone backslash", label)
			}
			switch label[i] {
			case 'n', 'l', 'r':
				b.WriteByte('\n')
			default:
				b.WriteByte(label[i])
			}
		case '|':
			out = append(out, b.String())
			b.Reset()
		case '{', '}', '<', '>':
			return nil, fmt.Errorf("label %q has a bare %q", label, string(c))
		default:
			b.WriteByte(c)
		}
	}
	return append(out, b.String()), nil
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

// Plain is a drawing with its nodes named after their order, since the names the
// library gives them are drawn at random; what is no drawing stays as it is.
func Plain(s string) string {
	in := strings.TrimSpace(s)
	if i := strings.IndexByte(in, '{'); i >= 0 && strings.HasPrefix(in, "digraph") && strings.HasSuffix(in, "}") {
		in = in[i+1 : len(in)-1]
	}
	g, err := ReadDot(in)
	if err != nil {
		return s
	}
	name := map[string]int{}
	for i, id := range g.Order {
		name[id] = i
	}
	var b strings.Builder
	for i, id := range g.Order {
		fmt.Fprintf(&b, "%d %s %q ->", i, g.Shape[id], g.Label[id])
		for _, to := range g.To[id] {
			fmt.Fprintf(&b, " %d", name[to])
		}
		b.WriteString("; ")
	}
	return b.String()
}
