package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C06: histories of tree edits ------------------------------------------

type step struct {
	Do   string
	A, B int `json:",omitempty"`
	P    int `json:",omitempty"`
	Tree *N  `json:",omitempty"`
}

var stepKinds = []string{"parse", "parse", "parse", "clone", "clone", "free", "refree", "detach", "detach", "detach", "attach", "attach", "attach", "attach", "element",
	"refused", "map", "subclone", "render", "badparse"}

func genHistory(t *rapid.T) []step {
	var h []step
	for i, n := 0, rapid.IntRange(2, 24).Draw(t, "steps"); i < n; i++ {
		s := step{Do: stepKinds[rapid.IntRange(0, len(stepKinds)-1).Draw(t, "do")]}
		if s.Do == "parse" {
			s.Tree = stretchTo(t, genTree(t, rapid.IntRange(0, 3).Draw(t, "depth")), 1, true, 40)
		} else {
			s.A = rapid.IntRange(0, 9).Draw(t, "a")
			s.B = rapid.IntRange(0, 9).Draw(t, "b")
			s.P = rapid.IntRange(0, 20).Draw(t, "p")
		}
		h = append(h, s)
	}
	return h
}

type live struct {
	t *tsl.TSLNode
	m *N
}

type machine struct {
	trees []live
	dead  []*tsl.TSLNode
	did   map[string]int
}

func (k *machine) verify(at string) error {
	for i, l := range k.trees {
		if got := fromTSL(l.t); !equalN(got, l.m) {
			return fmt.Errorf("after %s, tree %d reads\n  %v\nwanted\n  %v", at, i, got, l.m)
		}
	}
	return nil
}

func elementSlots(n *N) (out []slot) {
	n.walk(func(m *N) {
		for i := range m.E {
			out = append(out, slot{m, 'E', i})
		}
	})
	return
}

func (k *machine) do(s step) error {
	n := len(k.trees)
	if n == 0 && s.Do != "parse" && s.Do != "badparse" && s.Do != "refree" {
		return nil
	}
	k.did[s.Do]++
	var a live
	if n > 0 {
		a = k.trees[s.A%n]
	}
	switch s.Do {
	case "parse":
		t, err := build(s.Tree)
		if err != nil {
			return err
		}
		k.trees = append(k.trees, live{t, s.Tree.clone()})
	case "badparse":
		for _, bad := range []string{"a = ", "a = 'x' and (b in ['y', 'z'", "x = 'open", "@"} {
			if t, err := tsl.ParseTSL(bad); err == nil {
				t.Free()
			}
		}
	case "clone":
		k.trees = append(k.trees, live{a.t.Clone(), a.m.clone()})
	case "free":
		a.t.Free()
		k.dead = append(k.dead, a.t)
		k.trees = append(k.trees[:s.A%n:s.A%n], k.trees[s.A%n+1:]...)
	case "refree":
		for _, d := range k.dead {
			d.Free()
			if c := d.Clone(); c != nil {
				return fmt.Errorf("a clone of a freed tree is %v", fromTSL(c))
			}
		}
	case "detach":
		ss := slots(a.m)
		if len(ss) == 0 {
			return nil
		}
		sl := ss[s.P%len(ss)]
		tn := find(a.m, a.t, sl.n)
		var d *tsl.TSLNode
		var want *N
		switch {
		case sl.side == 'L':
			d, want, sl.n.L = tn.DetachLeft(), sl.n.L, nil
		case sl.n.K == "UNARY_EXP":
			d, want, sl.n.R = tn.DetachChild(), sl.n.R, nil
		default:
			d, want, sl.n.R = tn.DetachRight(), sl.n.R, nil
		}
		if (d == nil) != (want == nil) || !equalN(fromTSL(d), want) {
			return fmt.Errorf("detached %v, wanted %v", fromTSL(d), want)
		}
		if d != nil {
			k.trees = append(k.trees, live{d, want})
		}
	case "attach", "element":
		if n < 2 {
			return nil
		}
		i, j := s.A%n, s.B%n
		if i == j {
			j = (j + 1) % n
		}
		a, b := k.trees[i], k.trees[j]
		ss := slots(a.m)
		if s.Do == "element" {
			ss = elementSlots(a.m)
		}
		if len(ss) == 0 {
			return nil
		}
		sl := ss[s.P%len(ss)]
		tn := find(a.m, a.t, sl.n)
		var ok bool
		switch {
		case sl.side == 'E':
			ok, sl.n.E[sl.i] = tn.AttachElement(sl.i, b.t), b.m
		case sl.side == 'L':
			ok, sl.n.L = tn.AttachLeft(b.t), b.m
		case sl.n.K == "UNARY_EXP":
			ok, sl.n.R = tn.AttachChild(b.t), b.m
		default:
			ok, sl.n.R = tn.AttachRight(b.t), b.m
		}
		if !ok {
			return fmt.Errorf("attaching to %s was refused", sl.n.K)
		}
		k.trees = append(k.trees[:j:j], k.trees[j+1:]...)
	case "refused":
		b := k.trees[s.B%n]
		if a.m == b.m {
			b = live{}
		}
		bad := func(what string, got bool) error {
			if got {
				return fmt.Errorf("%s on a %s was not refused", what, a.m.K)
			}
			return nil
		}
		var errs []error
		if a.m.K != "BINARY_EXP" {
			errs = append(errs, bad("DetachLeft", a.t.DetachLeft() != nil), bad("DetachRight", a.t.DetachRight() != nil),
				bad("AttachLeft", a.t.AttachLeft(b.t)), bad("AttachRight", a.t.AttachRight(b.t)))
		}
		if a.m.K != "UNARY_EXP" {
			errs = append(errs, bad("DetachChild", a.t.DetachChild() != nil), bad("AttachChild", a.t.AttachChild(b.t)))
		}
		if a.m.K != "ARRAY" {
			errs = append(errs, bad("AttachElement", a.t.AttachElement(s.P, b.t)))
		} else {
			errs = append(errs, bad("AttachElement out of range", a.t.AttachElement(len(a.m.E), b.t)), bad("AttachElement out of range", a.t.AttachElement(-1, b.t)))
		}
		errs = append(errs, bad("AttachLeft(nil)", a.t.AttachLeft(nil)), bad("AttachRight(nil)", a.t.AttachRight(nil)), bad("AttachChild(nil)", a.t.AttachChild(nil)))
		var none *tsl.TSLNode
		if none.Clone() != nil || none.DetachLeft() != nil || none.DetachRight() != nil || none.DetachChild() != nil ||
			none.AttachLeft(b.t) || none.AttachRight(b.t) || none.AttachChild(b.t) {
			errs = append(errs, fmt.Errorf("an operation on a nil tree was not refused"))
		}
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
	case "map":
		seen := 0
		nt, err := ident.Walk(a.t, func(id string) (string, error) {
			seen++
			if s.B == 0 && seen > 1 {
				return "", errors.New("no")
			}
			return "m." + id, nil
		})
		if s.B == 0 && seen > 1 {
			if err == nil || nt != nil {
				return fmt.Errorf("a rejected identifier gave no error")
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("mapping %v: %v", a.m, err)
		}
		m := a.m.clone()
		m.walk(func(x *N) {
			if x.K == "IDENTIFIER" {
				x.S = "m." + x.S
			}
		})
		if len(m.String()) > 4000 { // repeated mapping lengthens identifiers
			nt.Free()
			return nil
		}
		k.trees = append(k.trees, live{nt, m})
	case "subclone":
		var all []*N
		a.m.walk(func(m *N) { all = append(all, m) })
		m := all[s.P%len(all)]
		k.trees = append(k.trees, live{find(a.m, a.t, m).Clone(), m.clone()})
	case "render":
		json.Marshal(a.t)
		yaml.Marshal(a.t)
		graphviz.Walk("", a.t, "")
		if f, err := sql.Walk(a.t); err == nil {
			f.ToSql()
		}
		semantics.Walk(a.t, func(string) (interface{}, bool) { return 1.0, true })
	}
	return nil
}

func runHistory(h []step, check bool) (*machine, error) {
	k := &machine{did: map[string]int{}}
	defer func() {
		for _, l := range k.trees {
			l.t.Free()
		}
	}()
	for i, s := range h {
		if len(k.trees) > 12 {
			k.trees[0].t.Free()
			k.trees = k.trees[1:]
		}
		if err := k.do(s); err != nil {
			return k, fmt.Errorf("step %d (%s): %w", i, s.Do, err)
		}
		if check {
			if err := k.verify(fmt.Sprintf("step %d (%s)", i, s.Do)); err != nil {
				return k, err
			}
		}
	}
	return k, nil
}

func checkHistory(h []step, x *kit.X) error {
	k, err := runHistory(h, true)
	if err != nil {
		return err
	}
	n, err := leaks(func() error { _, err := runHistory(h, false); return err })
	if err != nil {
		return err
	}
	if err := leakErr(n, "after the history every tree was freed"); err != nil {
		return err
	}
	for d := range k.did {
		x.Label("%s", d)
	}
	if k.did["attach"]+k.did["element"] > 0 && k.did["detach"]+k.did["clone"]+k.did["free"] > 0 {
		x.NonTrivial()
	}
	return nil
}

// ---- C07: repeated use does not grow memory --------------------------------

type leakCase struct {
	Text kit.Str
}

func useOnce(s string) error {
	t, err := tsl.ParseTSL(s)
	if err != nil {
		if t != nil {
			t.Free()
		}
		_ = err.Error()
		return nil
	}
	defer t.Free()
	c := t.Clone()
	defer c.Free()
	fromTSL(c)
	json.Marshal(t)
	graphviz.Walk("", t, "")
	if f, err := sql.Walk(t); err == nil {
		f.ToSql()
	}
	semantics.Walk(t, func(string) (interface{}, bool) { return "x", true })
	for _, to := range []string{"q", "a + b", "a in [b, 'c']", "not valid (", ""} {
		seen := 0
		if u, err := ident.Walk(t, func(string) (string, error) {
			seen++
			if to == "" && seen > 1 {
				return "", errors.New("unknown")
			}
			if to == "" {
				return "ok", nil
			}
			return to, nil
		}); err == nil {
			u.Free()
		}
	}
	return nil
}

func checkLeak(c leakCase, x *kit.X) error {
	n, err := leaks(func() error { return useOnce(string(c.Text)) })
	if err != nil {
		return err
	}
	if err := leakErr(n, "parsing, cloning, walking and freeing %q", c.Text); err != nil {
		return err
	}
	_, bad, _ := refParse(string(c.Text))
	x.LabelIf(bad != nil, "rejected")
	x.LabelIf(bad == nil, "accepted")
	if len(refLex(string(c.Text))) > 3 {
		x.NonTrivial()
	}
	return nil
}

// genFresh gives a phrase with marks in names, texts and numbers.
func genFresh(t *rapid.T) leakCase {
	n := genTree(t, rapid.IntRange(0, 3).Draw(t, "depth"))
	for n.size() > 40 {
		if n.L != nil {
			n = n.L
		} else if n.R != nil {
			n = n.R
		} else {
			break
		}
	}
	n.walk(func(m *N) {
		switch m.K {
		case "IDENTIFIER":
			m.S = pick(t, "name", "", "str_", "num_", "n", "str_"+strings.Repeat("long_name_", 7)) + kit.MarkText
		case "STRING":
			m.S = pick(t, "before", "", "%", "a_", strings.Repeat("long text ", 30)) + kit.MarkText + pick(t, "after", "", "%", "$", " b")
		case "NUMBER":
			if rapid.Bool().Draw(t, "fresh") {
				m.F = kit.MarkNumber
			}
		}
	})
	s := render(t, n)
	if chance(t, "plain", 50) { // nothing keeps it from being evaluated
		s = freshForms[rapid.IntRange(0, len(freshForms)-1).Draw(t, "form")]
	}
	if chance(t, "broken", 35) {
		if rapid.Bool().Draw(t, "end") {
			s += pick(t, "tail", " q000000 7000000", " and", " =", ")", " #", " 'x", " 1")
		} else {
			s = mutate(t, s)
		}
	}
	return leakCase{kit.Str(s)}
}

var freshForms = []string{
	"str_q000000 like '%q000000%'", "str_q000000 ilike 'v%q000000'", "str_q000000 not like 'q000000_'", "str_q000000 ~= 'q000000'", "str_q000000 ~! 'q000000$'",
	"str_q000000 = 'q000000'", "str_q000000 in ['q000000', 'x', str_q000000]", "num_q000000 between 1 and 7000000", "num_q000000 * 2 + 7000000 > 7000000 / 3",
	"any (str_q000000 = 'q000000') or num_q000000 % 7000000 < 1", "n_q000000 is null and not (num_q000000 = 7000000)", "len [str_q000000, 'q000000'] = 2 and sum [7000000, 1] > 1",
	"q000000 like 'q000000' or [q000000, 'a'] ~= 'q000000'", "str_q000000 < '2020-01-01' or str_q000000 = 2020-01-01T00:00:00Z", "-num_q000000 < 7000000 and q000000[q000000].b = true",
}

func checkFresh(c leakCase, x *kit.X) error {
	perUse, err := kit.Grows(func(i int) error {
		s := kit.Freshen(string(c.Text), i)
		if err := useOnce(s); err != nil {
			return err
		}
		t, err := tsl.ParseTSL(s)
		if err != nil {
			return nil
		}
		defer t.Free()
		yaml.Marshal(t)
		semantics.Walk(t, func(k string) (interface{}, bool) {
			switch {
			case strings.HasPrefix(k, "str_"):
				return "v" + k, true
			case strings.HasPrefix(k, "num_"):
				return i, true
			case strings.HasPrefix(k, "n"):
				return nil, i%2 == 0
			}
			return []string{k, "x"}, true
		})
		return nil
	}, func() int64 { return kit.LiveHeap() + nativeBytes() })
	if err != nil {
		return err
	}
	if perUse > 0 {
		return fmt.Errorf("each use of a phrase like %q holds on to about %d bytes", kit.Freshen(string(c.Text), 1), perUse)
	}
	_, bad, _ := refParse(string(c.Text))
	x.LabelIf(bad != nil, "rejected")
	x.LabelIf(bad == nil, "accepted")
	if len(refLex(string(c.Text))) > 3 && strings.Contains(string(c.Text), kit.MarkText) {
		x.NonTrivial()
	}
	return nil
}

// ---- C08: concurrent use ---------------------------------------------------

type concCase struct {
	Texts   []kit.Str
	Shared  kit.Str
	Workers int
	Rounds  int
}

// outcome is everything one use of a text shows.
func outcome(s string) string {
	t, err := tsl.ParseTSL(s)
	if err != nil {
		return "error " + err.Error()
	}
	defer t.Free()
	c := t.Clone()
	defer c.Free()
	return observe(t) + observe(c)
}

// observe reads a tree through every reader.
func observe(t *tsl.TSLNode) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v\n", fromTSL(t))
	j, err := json.Marshal(t)
	fmt.Fprintf(&b, "%s %v\n", j, err != nil)
	y, err := yaml.Marshal(t)
	fmt.Fprintf(&b, "%s %v\n", y, err != nil)
	if f, err := sql.Walk(t); err != nil {
		fmt.Fprintf(&b, "%v\n", err)
	} else {
		q, args, err := f.ToSql()
		fmt.Fprintf(&b, "%s %v %v\n", q, args, err)
	}
	v, err := semantics.Walk(t, func(k string) (interface{}, bool) {
		switch {
		case strings.HasPrefix(k, "str_"):
			return k, true
		case strings.HasPrefix(k, "num_"):
			return len(k), true
		case strings.HasPrefix(k, "day_"):
			return "2020-02-03", true
		}
		switch len(k) % 4 {
		case 0:
			return k, true
		case 1:
			return float64(len(k)), true
		case 2:
			return nil, true
		}
		return len(k)%8 == 3, true
	})
	fmt.Fprintf(&b, "%v %v\n", v, err)
	g, err := graphviz.Walk("", t, "root")
	fmt.Fprintf(&b, "%d %v\n", strings.Count(g, "["), err)
	u, err := ident.Walk(t, func(k string) (string, error) { return "p." + k, nil })
	fmt.Fprintf(&b, "%v %v\n", fromTSL(u), err)
	if u != nil {
		u.Free()
	}
	return b.String()
}

func checkConc(c concCase, x *kit.X) error {
	// the concurrent uses come first: a use that was made before may take another path
	texts := make([]string, 0, len(c.Texts)+1)
	for _, s := range c.Texts {
		texts = append(texts, string(s))
	}
	texts = append(texts, fresh())
	shared, err := tsl.ParseTSL(string(c.Shared))
	if err != nil {
		return fmt.Errorf("%q is in the language but was rejected: %v", c.Shared, err)
	}
	defer shared.Free()
	type use struct {
		text int
		got  string
	}
	uses := make([]map[use]bool, c.Workers)
	var wg sync.WaitGroup
	errs := make(chan error, c.Workers)
	start := make(chan struct{})
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs <- fmt.Errorf("panic in a concurrent use: %v", r)
				}
			}()
			seen := map[use]bool{}
			uses[w] = seen
			<-start
			for r := 0; r < c.Rounds; r++ {
				i := (w*7 + r) % len(texts)
				seen[use{i, outcome(texts[i])}] = true
				seen[use{-1, observe(shared)}] = true
			}
		}(w)
	}
	close(start)
	wg.Wait()
	select {
	case e := <-errs:
		return e
	default:
	}
	wantShared := observe(shared)
	want := make([]string, len(texts))
	for i, s := range texts {
		want[i] = outcome(s)
	}
	for _, seen := range uses {
		for u := range seen {
			if u.text < 0 && u.got != wantShared {
				return fmt.Errorf("shared tree of %q: alone\n%s\nconcurrently\n%s", c.Shared, wantShared, u.got)
			}
			if u.text >= 0 && u.got != want[u.text] {
				return fmt.Errorf("%q: alone\n%s\nconcurrently\n%s", texts[u.text], want[u.text], u.got)
			}
		}
	}
	if c.Workers >= 2 && len(c.Texts) >= 2 {
		x.NonTrivial()
	}
	return nil
}

var freshCount int

// fresh gives a phrase whose every literal and name is new to the process.
func fresh() string {
	freshCount++
	n := freshCount
	day := fmt.Sprintf("%04d-%02d-%02d", 1000+n/300%8000, 1+n/28%12, 1+n%28)
	return fmt.Sprintf("(str_%d ~= 'p%d.*' or str_%d like 'q%d%%' or str_%d ilike 'r%d_' or not (str_%d ~! 'w%d+')) or num_%d * 2 > %d.5 or num_%d in [%d, 'v%d'] or day_%d between %s and %sT01:02:03Z",
		n, n, n, n, n, n, n, n, n, n, n, n, n, n, day, day)
}

func genConc(t *rapid.T) concCase {
	c := concCase{Workers: rapid.IntRange(2, 8).Draw(t, "workers"), Rounds: rapid.IntRange(2, 6).Draw(t, "rounds")}
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "texts"); i < n; i++ {
		s := render(t, genTree(t, rapid.IntRange(0, 4).Draw(t, "depth")))
		if chance(t, "broken", 30) {
			s = mutate(t, s)
		}
		c.Texts = append(c.Texts, kit.Str(s))
	}
	c.Shared = kit.Str(render(t, genTree(t, rapid.IntRange(0, 4).Draw(t, "depth"))))
	return c
}

func init() {
	kit.Register("C06/history", "2-24 drawn steps (parse, clone, free, free again, detach, attach, replace element, refused edits, map identifiers, clone a subtree, render) over several live trees, every live tree compared with its value model after every step; run under AddressSanitizer; then repeated to measure native memory; non-trivial: an attach together with a detach, clone or free took place",
		genHistory, checkHistory)
	kit.Register("C07/fresh", "a drawn phrase, at times broken, used hundreds of times with fresh names, texts and numbers; the live native bytes and the live Go heap are measured after the caches had room to fill; non-trivial: at least 3 tokens, one of them fresh in each use",
		genFresh, checkFresh)
	kit.Register("C07/loop", "a drawn phrase, valid or broken by 0-4 edits, parsed, cloned, walked by every walker and freed in rounds; non-trivial: at least 3 tokens",
		func(t *rapid.T) leakCase {
			s := render(t, stretchTo(t, genTree(t, rapid.IntRange(0, 4).Draw(t, "depth")), 10, true, 30))
			if chance(t, "broken", 60) {
				s = mutate(t, s)
			}
			return leakCase{kit.Str(s)}
		}, checkLeak)
	kit.Register("C08/race", "1-6 drawn phrases, valid and broken, and one shared tree, used by 2-8 goroutines at once, under the Go race detector; each outcome compared with the sequential one; non-trivial: at least 2 phrases",
		genConc, checkConc)
	kit.Register("C08/asan", "as C08/race, with the native code under AddressSanitizer", genConc, checkConc)
	kit.Register("C03/asan", "as C03/mutant, soup and bytes in turn, with the native code under AddressSanitizer; non-trivial as there",
		func(t *rapid.T) kit.Str {
			switch rapid.IntRange(0, 2).Draw(t, "kind") {
			case 0:
				return kit.Str(mutate(t, render(t, genTree(t, rapid.IntRange(0, 3).Draw(t, "depth")))))
			case 1:
				var b strings.Builder
				for i, n := 0, rapid.IntRange(0, 14).Draw(t, "n"); i < n; i++ {
					b.WriteString(soup[rapid.IntRange(0, len(soup)-1).Draw(t, "tok")])
					b.WriteString(pick(t, "sp", " ", "", " ", "\n"))
				}
				return kit.Str(b.String())
			}
			return kit.Str(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "b"))
		}, checkAccept)
	kit.Register("C03/huge", "one construct repeated 50000-300000 times where nesting is to the left or absent (chains, lists, long tokens), parsed, cloned and freed; non-trivial: every case",
		func(t *rapid.T) bigCase {
			return bigCase{Kind: rapid.IntRange(0, len(hugeKinds)-1).Draw(t, "kind"), N: rapid.IntRange(50000, 300000).Draw(t, "n")}
		}, func(c bigCase, x *kit.X) error {
			x.NonTrivial()
			k := bigKinds[0]
			for _, b := range bigKinds {
				if b.name == hugeKinds[c.Kind] {
					k = b
				}
			}
			x.Label("%s", k.name)
			t, err := tsl.ParseTSL(k.f(c.N))
			if err != nil {
				return fmt.Errorf("%s of %d: %s", k.name, c.N, cut(err.Error()))
			}
			u := t.Clone()
			t.Free()
			size := fromTSL(u).size()
			u.Free()
			w, _, _ := refParse(k.f(100))
			w2, _, _ := refParse(k.f(101))
			if want := w.size() + (c.N-100)*(w2.size()-w.size()); size != want {
				return fmt.Errorf("%s of %d: the tree has %d nodes, wanted %d", k.name, c.N, size, want)
			}
			return nil
		})
}

var hugeKinds = []string{"or-chain", "add-chain", "list", "long-string", "long-ident", "spaces"}
