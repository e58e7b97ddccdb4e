// Package kit is the small engine shared by the harness binaries: it drives
// rapid generators outside "go test", counts what was generated, shrinks a
// failure to a minimal case and writes that case as a JSON replay file.
package kit

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// X is handed to every check; the check reports on it what the case covered.
type X struct {
	nontrivial bool
	labels     []string
	key        string
	excluded   bool
	sample     string
}

// NonTrivial marks the case as non-trivial by the sub-check's stated rule.
func (x *X) NonTrivial() { x.nontrivial = true }

// Label counts the case under a class name.
func (x *X) Label(format string, a ...interface{}) {
	x.labels = append(x.labels, fmt.Sprintf(format, a...))
}

// LabelIf counts the case under a class name when cond holds.
func (x *X) LabelIf(cond bool, s string) {
	if cond {
		x.labels = append(x.labels, s)
	}
}

// Sample sets a more readable rendering of the case for the evidence file.
func (x *X) Sample(format string, a ...interface{}) { x.sample = fmt.Sprintf(format, a...) }

// Exclude marks a case as outside the domain (counted, never judged).
func (x *X) Exclude() { x.excluded = true }

type sub struct {
	name   string
	rule   string
	run    func(t *rapid.T, w *worker)
	replay func(raw json.RawMessage) error
}

var subs = map[string]*sub{}

// Register adds a sub-check. gen draws a case, check judges it: a non-nil
// error is a violation of the property.
func Register[C any](name, rule string, gen func(*rapid.T) C, check func(C, *X) error) {
	if subs[name] != nil {
		panic("duplicate sub " + name)
	}
	subs[name] = &sub{
		name: name,
		rule: rule,
		run: func(t *rapid.T, w *worker) {
			c := gen(t)
			raw, err := json.Marshal(c)
			if err != nil {
				panic(fmt.Sprintf("harness: case does not marshal: %v", err))
			}
			w.note(raw)
			x := &X{}
			err = guarded(c, x, check)
			w.done(raw, x, err)
			if err != nil {
				t.Fatalf("%v", err)
			}
		},
		replay: func(raw json.RawMessage) error {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				fmt.Fprintln(os.Stderr, "bad replay file:", err)
				os.Exit(2)
			}
			return guarded(c, &X{}, check)
		},
	}
}

// Again registers a sub-check under another name.
func Again(name, old string) {
	if subs[name] != nil || subs[old] == nil {
		panic("bad sub " + name)
	}
	s := *subs[old]
	s.name = name
	s.rule = "as " + old + ": " + s.rule
	subs[name] = &s
}

var alive = func() {}

// Alive tells the watchdog that a case of many steps makes progress.
func Alive() { alive() }

// HarnessError marks a failure of the harness (not of the code under test).
type HarnessError struct{ Msg string }

func (h HarnessError) Error() string { return "HARNESS: " + h.Msg }

// Bug panics with a harness error; it never counts as a violation.
func Bug(format string, a ...interface{}) { panic(HarnessError{fmt.Sprintf(format, a...)}) }

func guarded[C any](c C, x *X, check func(C, *X) error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, h.Error())
				raw, _ := json.Marshal(c)
				fmt.Fprintf(os.Stderr, "case: %s\n", raw)
				os.Exit(3)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return check(c, x)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "tree-search-language") {
			out = append(out, l)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type failure struct {
	Property string          `json:"property,omitempty"`
	Sub      string          `json:"sub"`
	Seed     uint64          `json:"seed"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type worker struct {
	sub       string
	seed      uint64
	curFile   *os.File
	start     time.Time
	maxTime   time.Duration
	stopped   int
	evals     int
	excluded  int
	nontriv   int
	hashes    map[uint64]struct{}
	labels    map[string]int
	samples   []json.RawMessage
	fail      *failure
	caseStart int64 // unix nano, for the watchdog
}

func (w *worker) note(raw []byte) {
	atomic.StoreInt64(&w.caseStart, time.Now().UnixNano())
	if w.curFile != nil {
		hdr := make([]byte, 8, 8+len(raw))
		binary.LittleEndian.PutUint64(hdr, uint64(len(raw)))
		w.curFile.WriteAt(append(hdr, raw...), 0)
	}
}

func (w *worker) done(raw []byte, x *X, err error) {
	atomic.StoreInt64(&w.caseStart, 0)
	if err != nil {
		w.fail = &failure{Sub: w.sub, Seed: w.seed, Message: err.Error(), Case: append([]byte(nil), raw...)}
		return
	}
	if w.fail != nil {
		return // shrinking: not counted
	}
	if x.excluded {
		w.excluded++
		return
	}
	w.evals++
	for _, l := range x.labels {
		w.labels[l]++
	}
	if x.nontrivial {
		w.nontriv++
		h := fnv.New64a()
		h.Write([]byte(w.sub))
		h.Write(raw)
		k := h.Sum64()
		if _, ok := w.hashes[k]; !ok {
			w.hashes[k] = struct{}{}
			n := len(w.hashes)
			if (n == 1 || n == 40 || n == 400) && len(raw) < 6000 {
				s := json.RawMessage(append([]byte(nil), raw...))
				if x.sample != "" {
					s, _ = json.Marshal(x.sample)
				}
				w.samples = append(w.samples, s)
			}
		}
	}
}

// tb is the rapid.TB of the harness.
type tb struct {
	failed bool
	log    bytes.Buffer
}

type stop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return "vcase" }
func (t *tb) Logf(f string, a ...any) {
	if t.log.Len() < 1<<16 {
		fmt.Fprintf(&t.log, f+"\n", a...)
	}
}
func (t *tb) Log(a ...any)              { t.Logf("%s", fmt.Sprintln(a...)) }
func (t *tb) Skipf(string, ...any)      { panic(stop{}) }
func (t *tb) Skip(...any)               { panic(stop{}) }
func (t *tb) SkipNow()                  { panic(stop{}) }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.failed = true; panic(stop{}) }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.failed = true; panic(stop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(stop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

type result struct {
	Sub       string            `json:"sub"`
	Rule      string            `json:"rule"`
	Seed      uint64            `json:"seed"`
	Evals     int               `json:"evals"`
	Excluded  int               `json:"excluded"`
	Nontriv   int               `json:"nontrivial"`
	NotRun    int               `json:"not_run"`
	Labels    map[string]int    `json:"labels"`
	Samples   []json.RawMessage `json:"samples"`
	Failure   *failure          `json:"failure,omitempty"`
	Harness   string            `json:"harness_error,omitempty"`
	HashesHex string            `json:"hashes_file"`
}

// HangLimit is how long one generated case may run before the worker gives up.
const HangLimit = 60 * time.Second

// Main is the entry point of a harness binary.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: list | run ... | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var names []string
		for n := range subs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			fmt.Println(n)
		}
	case "run":
		runMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func replayMain(args []string) {
	data, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f failure
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	s := subs[f.Sub]
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such sub-check:", f.Sub)
		os.Exit(2)
	}
	if err := s.replay(f.Case); err != nil {
		fmt.Printf("FAIL %s: %s\n", f.Sub, err)
		os.Exit(1)
	}
	fmt.Printf("OK %s\n", f.Sub)
}

func runMain(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	name := fs.String("sub", "", "")
	seed := fs.Uint64("seed", 1, "")
	checks := fs.Int("checks", 100, "")
	out := fs.String("out", "", "")
	cur := fs.String("cur", "", "")
	maxTime := fs.Duration("maxtime", time.Hour, "")
	fs.Parse(args)
	s := subs[*name]
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such sub-check:", *name)
		os.Exit(2)
	}
	testing.Init()
	flag.CommandLine.Parse(nil)
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if *seed == 0 {
		*seed = 0x9e3779b97f4a7c15
	}
	set("rapid.checks", fmt.Sprint(*checks))
	set("rapid.seed", fmt.Sprint(*seed))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "25s")

	w := &worker{sub: *name, seed: *seed, start: time.Now(), maxTime: *maxTime,
		hashes: map[uint64]struct{}{}, labels: map[string]int{}}
	if *cur != "" {
		f, err := os.Create(*cur)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		w.curFile = f
	}
	alive = func() { atomic.StoreInt64(&w.caseStart, time.Now().UnixNano()) }
	go func() { // watchdog: a case that never ends is reported to the driver
		for {
			time.Sleep(2 * time.Second)
			if cs := atomic.LoadInt64(&w.caseStart); cs != 0 && time.Since(time.Unix(0, cs)) > HangLimit {
				fmt.Fprintln(os.Stderr, "WATCHDOG: case exceeds the hang limit")
				os.Exit(77)
			}
		}
	}()
	t := &tb{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if w.fail == nil && time.Since(w.start) > w.maxTime {
				w.stopped++
				return
			}
			s.run(rt, w)
		})
	}()
	res := result{Sub: *name, Rule: s.rule, Seed: *seed, Evals: w.evals, Excluded: w.excluded, Nontriv: w.nontriv,
		NotRun: w.stopped, Labels: w.labels, Samples: w.samples, Failure: w.fail}
	if t.failed && w.fail == nil {
		res.Harness = t.log.String()
	}
	if *out != "" {
		hb := make([]byte, 0, 8*len(w.hashes))
		for h := range w.hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		if err := os.WriteFile(*out+".hashes", hb, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		data, _ := json.Marshal(res)
		if err := os.WriteFile(*out, data, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else {
		data, _ := json.MarshalIndent(res, "", " ")
		fmt.Println(string(data))
		if w.fail != nil {
			fmt.Println(w.fail.Message)
		}
	}
	if res.Harness != "" {
		fmt.Fprintln(os.Stderr, "harness error:", res.Harness)
		os.Exit(3)
	}
	if w.fail != nil {
		os.Exit(1)
	}
}
