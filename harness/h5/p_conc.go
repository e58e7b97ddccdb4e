package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/mongo"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v5/pkg/walkers/sql"
	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C28: concurrent use ---------------------------------------------------------

type concCase struct {
	Texts   []kit.Str
	Shared  *T
	Rec     Record
	Workers int
	Rounds  int
}

// outcome is everything one use of a text shows.
func outcome(s string, r Record) string {
	n, m, err := parse(s)
	if err != nil {
		return "error " + err.Error()
	}
	return observe(n, m, r)
}

// observe reads a tree through every reader.
func observe(n *T, m tsl.Node, r Record) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v\n", n)
	j, err := json.Marshal(m)
	fmt.Fprintf(&b, "%s %v\n", j, err)
	y, err := yaml.Marshal(m)
	fmt.Fprintf(&b, "%s %v\n", y, err)
	if f, err := sql.Walk(m); err != nil {
		fmt.Fprintf(&b, "%v\n", err)
	} else {
		q, args, err := f.ToSql()
		fmt.Fprintf(&b, "%s %v %v\n", q, args, err)
	}
	f, err := mongo.Walk(m)
	fmt.Fprintf(&b, "%v %v\n", f, err)
	v, err := semantics.Walk(m, r.eval)
	fmt.Fprintf(&b, "%v %v\n", v, err)
	g, err := graphviz.Walk("", m, "root")
	fmt.Fprintf(&b, "%v %v\n", err, isDrawing(g, n, "root"))
	u, err := ident.Walk(m, func(k string) (string, error) { return "p." + k, nil })
	w, err2 := tree(u)
	fmt.Fprintf(&b, "%v %v %v\n", w, err, err2)
	return b.String()
}

func checkConc(c concCase, x *kit.X) error {
	// the concurrent uses come first: a use that was made before may take another path
	var texts []string
	for _, s := range c.Texts {
		texts = append(texts, string(s))
	}
	texts = append(texts, freshPhrase())
	phrase := render(nil, c.Shared)
	sn, sm, err := parse(phrase)
	if err != nil {
		return fmt.Errorf("%q: %v", phrase, err)
	}
	before := copyNode(sm)
	type use struct {
		text int
		got  string
	}
	uses := make([]map[use]bool, c.Workers)
	errs := make(chan error, c.Workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := range uses {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Errorf("panic in a concurrent use: %v", r)
				}
			}()
			seen := map[use]bool{}
			uses[w] = seen
			<-start
			for r := 0; r < c.Rounds; r++ {
				i := (w*7 + r) % len(texts)
				seen[use{i, outcome(texts[i], c.Rec)}] = true
				seen[use{-1, observe(sn, sm, c.Rec)}] = true
			}
		}()
	}
	close(start)
	wg.Wait()
	select {
	case e := <-errs:
		return e
	default:
	}
	if !unchanged(before, sm) {
		return fmt.Errorf("the shared tree of %q changes", phrase)
	}
	shared := observe(sn, sm, c.Rec)
	alone := make([]string, len(texts))
	for i, s := range texts {
		alone[i] = outcome(s, c.Rec)
	}
	for _, seen := range uses {
		for u := range seen {
			if u.text < 0 && u.got != shared {
				return fmt.Errorf("shared tree of %q: alone\n%s\nconcurrently\n%s", phrase, shared, u.got)
			}
			if u.text >= 0 && u.got != alone[u.text] {
				return fmt.Errorf("%q: alone\n%s\nconcurrently\n%s", texts[u.text], alone[u.text], u.got)
			}
		}
	}
	if len(c.Texts) >= 2 {
		x.NonTrivial()
	}
	x.Sample("%d goroutines, %d texts, shared %s", c.Workers, len(c.Texts), phrase)
	return nil
}

var freshCount int

// freshPhrase gives a phrase whose every literal and name is new to the process.
func freshPhrase() string {
	freshCount++
	n := freshCount
	s := fmt.Sprintf("(s%d ~= 'p%d.*' or s%d like 'q%d%%' or s%d ilike 'r%d_' or not (s%d ~! 'w%d+')) or n%d > %d.5 or n%d in (%d, %d)", n, n, n, n, n, n, n, n, n, n, n, n, n+1)
	if V == 5 {
		s += fmt.Sprintf(" or d%d between 2020-01-%02d and %04d-01-01T01:02:03Z or n%d * %d > m%d", n, 1+n%28, 1000+n%8000, n, n, n)
	}
	return s
}

func init() {
	register("C28/race", "1-6 drawn phrases, valid and broken, and one shared tree, used by 2-8 goroutines at once (parse, every walker, every rendering) under the Go race detector; each outcome compared with the sequential one, the shared tree with its copy; non-trivial: at least 2 phrases",
		func(t *rapid.T) concCase {
			c := concCase{Shared: genTree(t, upto(t, "depth", 3)), Rec: genRecord(t, false), Workers: 2 + upto(t, "workers", 6), Rounds: 2 + upto(t, "rounds", 4)}
			if chance(t, "evaluable", 60) {
				c.Shared = typed{t}.cond(upto(t, "depth", 3))
			}
			for i := 1 + upto(t, "texts", 5); i > 0; i-- {
				switch upto(t, "kind", 3) {
				case 0:
					c.Texts = append(c.Texts, kit.Str(mutant(t)))
				case 1:
					c.Texts = append(c.Texts, kit.Str(render(t, genTree(t, upto(t, "depth", 3)))))
				default:
					c.Texts = append(c.Texts, kit.Str(render(t, typed{t}.cond(upto(t, "depth", 3)))))
				}
			}
			return c
		}, checkConc)
}
