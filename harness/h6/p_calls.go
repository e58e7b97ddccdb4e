package main

import (
	"fmt"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C33: callbacks that use the library, fail or panic ---------------------------

type callCase struct {
	Outer kit.Str
	Inner []kit.Str
	Do    []int   // what the calls do, in turn: 0 nothing, 1 a use of an inner text, 2 both walks over the tree at hand, with another record and mapping, 3 every reader on the tree at hand, 4 a use in another goroutine
	Rec   []Field `json:",omitempty"`
	Other []Field `json:",omitempty"` // for the walk within
	At    int     // the call that fails
	Panic bool
}

type callFault struct{ n int }

func (f *callFault) Error() string { return fmt.Sprint("fault ", f.n) }

// calls runs both walkers that call back, with a mapping and a record of the tag;
// each call runs f with its number.
func (c callCase) calls(m *tsl.TSLNode, tag string, f func(walker string, n int) error) (eval, mapped string) {
	n := 0
	field, _ := record(c.Rec)
	if tag != "p." {
		field, _ = record(c.Other)
	}
	v, err := semantics.Walk(m, func(k string) (interface{}, bool) {
		n++
		if f("eval", n) != nil {
			return nil, false
		}
		return field(k)
	})
	eval = fmt.Sprintf("%v %v", v, err)
	n = 0
	u, err := ident.Walk(m, func(k string) (string, error) {
		n++
		if e := f("ident", n); e != nil {
			return "", e
		}
		return tag + k, nil
	})
	mapped = fmt.Sprintf("%v %v", fromTSL(u), err)
	if u != nil {
		u.Free()
	}
	return eval, mapped
}

// failing is calls with one call that fails.
func (c callCase) failing(m *tsl.TSLNode, fault *callFault) (eval, mapped string, got interface{}) {
	defer func() { got = recover() }()
	eval, mapped = c.calls(m, "p.", func(walker string, n int) error {
		if n != c.At || walker == "eval" && c.Panic && c.At%2 == 0 {
			return nil
		}
		if c.Panic {
			panic(fault)
		}
		return fault
	})
	return
}

func checkCalls(c callCase, x *kit.X) error {
	done := make(chan error, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Errorf("panic: %v", r)
			}
		}()
		done <- c.check(x)
	}()
	select {
	case err := <-done:
		return err
	case <-time.After(20 * time.Second):
		// What it waits for is lost to this process: end it, the driver tries the case in another.
		go panic(fmt.Sprintf("%q: a walk whose callback uses the library, or failed before, does not come back in 20 seconds", c.Outer))
		select {}
	}
}

func (c callCase) check(x *kit.X) error {
	m, err := tsl.ParseTSL(string(c.Outer))
	if err != nil {
		x.Exclude()
		return nil
	}
	defer m.Free()
	use := func(s string) string { return outcome(s) }
	whole := func() string { return observe(m) }
	type answer struct {
		kind      int
		what, got string
	}
	var answers []answer
	number, deep := 0, 0
	var act func(string, int) error
	act = func(walker string, n int) error {
		if deep > 0 {
			return nil
		}
		deep++
		defer func() { deep-- }()
		i := number
		number++
		inner := string(c.Inner[i%len(c.Inner)])
		switch c.Do[i%len(c.Do)] {
		case 1:
			answers = append(answers, answer{1, inner, use(inner)})
		case 2:
			eval, mapped := c.calls(m, "q.", act)
			answers = append(answers, answer{2, "", eval + mapped})
		case 3:
			answers = append(answers, answer{3, "", whole()})
		case 4:
			other := make(chan string)
			go func() {
				defer func() {
					if r := recover(); r != nil {
						other <- fmt.Sprint("panic: ", r)
					}
				}()
				other <- use(inner)
			}()
			answers = append(answers, answer{1, inner, <-other})
		}
		return nil
	}
	eval, mapped := c.calls(m, "p.", act)
	nothing := func(string, int) error { return nil }
	plainEval, plainMapped := c.calls(m, "p.", nothing)
	if eval != plainEval || mapped != plainMapped {
		return fmt.Errorf("%q: with callbacks that use the library\n  %s\n  %s\nwith callbacks that do not\n  %s\n  %s", c.Outer, eval, mapped, plainEval, plainMapped)
	}
	for _, a := range answers {
		var want string
		switch a.kind {
		case 2:
			e, u := c.calls(m, "q.", nothing)
			want = e + u
		case 3:
			want = whole()
		default:
			want = use(a.what)
		}
		if a.got != want {
			return fmt.Errorf("%q: within a callback of a walk over %q\n  %s\nalone\n  %s", a.what, c.Outer, a.got, want)
		}
	}
	fault := &callFault{c.At}
	_, mapped, got := c.failing(m, fault)
	if got != nil && got != interface{}(fault) {
		return fmt.Errorf("%q: a callback panics with %v, the walk with %v", c.Outer, fault, got)
	}
	x.LabelIf(got != nil, "panic")
	x.LabelIf(got == nil && mapped != plainMapped, "error")
	if a, b := c.calls(m, "p.", nothing); a != plainEval || b != plainMapped {
		return fmt.Errorf("%q: after a callback that failed\n  %s\n  %s\nbefore\n  %s\n  %s", c.Outer, a, b, plainEval, plainMapped)
	}
	if len(answers) >= 2 {
		x.NonTrivial()
	}
	x.Sample("%s", c.Outer)
	return nil
}

func genCalls(t *rapid.T) callCase {
	c := callCase{At: 1 + rapid.IntRange(0, 4).Draw(t, "at"), Panic: rapid.Bool().Draw(t, "panic")}
	c.Outer = kit.Str(render(t, genTree(t, rapid.IntRange(1, 4).Draw(t, "depth"))))
	if chance(t, "typed", 70) {
		c.Outer, c.Rec = kit.Str(render(t, typed{t, 5}.cond(rapid.IntRange(1, 3).Draw(t, "conds")))), genRecord(t)
		c.Other = genRecord(t)
	}
	for i := rapid.IntRange(0, 3).Draw(t, "inner"); i >= 0; i-- {
		s := render(t, genTree(t, rapid.IntRange(0, 3).Draw(t, "depth")))
		if chance(t, "broken", 30) {
			s = mutate(t, s)
		}
		if chance(t, "same", 15) {
			s = string(c.Outer)
		}
		c.Inner = append(c.Inner, kit.Str(s))
	}
	for i := rapid.IntRange(0, 5).Draw(t, "acts"); i >= 0; i-- {
		c.Do = append(c.Do, rapid.IntRange(0, 4).Draw(t, "act"))
	}
	return c
}

func init() {
	kit.Register("C33/calls", "a drawn phrase, evaluated and mapped with callbacks that parse, read, map and evaluate 1-4 other phrases (at times broken) and the tree at hand, here and in another goroutine; compared with the same uses alone; then a callback fails or panics, and the walks are repeated; non-trivial: at least two uses within callbacks",
		genCalls, checkCalls)
}
