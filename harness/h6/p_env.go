package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"time"
	_ "time/tzdata"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/graphviz"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/ident"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/sql"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C34: the machine the library runs on -----------------------------------------

type zoneCase struct {
	Text   kit.Str
	Rec    []Field
	Zone   string // of the machine, or
	Offset int    // its distance from UTC in seconds
}

var zoneNames = []string{"Asia/Kolkata", "America/New_York", "Europe/London", "Pacific/Apia", "America/St_Johns", "Asia/Tehran", "Africa/Casablanca", "Australia/Lord_Howe", "America/Los_Angeles", "Asia/Tokyo"}

func (c zoneCase) location() *time.Location {
	if c.Zone == "" {
		return time.FixedZone("LMT", c.Offset)
	}
	l, err := time.LoadLocation(c.Zone)
	if err != nil {
		kit.Bug("%v", err)
	}
	return l
}

// told writes a value down with its offset, but not the name of its zone.
func told(v interface{}) string {
	switch v := v.(type) {
	case time.Time:
		return v.Format(time.RFC3339Nano)
	case []interface{}:
		var out []string
		for _, e := range v {
			out = append(out, told(e))
		}
		return fmt.Sprintf("%q", out)
	}
	return fmt.Sprintf("%T %v", v, v)
}

// sights is everything a text shows on a machine in a zone.
func (c zoneCase) sights(l *time.Location) (out []string) {
	was := time.Local
	time.Local = l
	defer func() { time.Local = was }()
	add := func(what string, v ...interface{}) { out = append(out, what+": "+fmt.Sprint(v...)) }
	m, err := tsl.ParseTSL(string(c.Text))
	if err != nil {
		add("error", err)
		return out
	}
	defer m.Free()
	add("tree", fromTSL(m))
	j, err := json.Marshal(m)
	add("JSON", string(j), err)
	y, err := yaml.Marshal(m)
	add("YAML", string(y), err)
	if f, err := sql.Walk(m); err != nil {
		add("SQL", err)
	} else {
		q, args, err := f.ToSql()
		add("SQL", q, told(args), err)
	}
	g, err := graphviz.Walk("", m, "root")
	add("drawing", kit.Plain(g), err)
	field, _ := record(c.Rec)
	v, err := semantics.Walk(m, field)
	add("value", told(v), err != nil) // the error may show an address
	u, err := ident.Walk(m, func(k string) (string, error) { return "p." + k, nil })
	add("mapped", fromTSL(u), err)
	if u != nil {
		u.Free()
	}
	return out
}

func checkZone(c zoneCase, x *kit.X) error {
	there := c.sights(c.location())
	here := c.sights(time.UTC)
	for i := range here {
		if i >= len(there) || here[i] != there[i] {
			return fmt.Errorf("%q: where the time is UTC\n  %s\nwhere it is that of %s %d\n  %s", c.Text, here[i], c.Zone, c.Offset, there[min(i, len(there)-1)])
		}
	}
	if len(there) != len(here) {
		return fmt.Errorf("%q: where the time is UTC %q, elsewhere %q", c.Text, here, there)
	}
	if len(here) > 1 && dayRx.MatchString(string(c.Text)) {
		x.NonTrivial()
	}
	x.LabelIf(strings.Contains(string(c.Text), "T"), "time of day")
	return nil
}

var (
	dayRx    = regexp.MustCompile(`\d{4}-\d\d-\d\d`)
	offsetRx = regexp.MustCompile(`[+-]\d\d:\d\d`)
)

func genZone(t *rapid.T) zoneCase {
	var c zoneCase
	c.Rec = genRecord(t)
	n := typed{t, 5}.cond(rapid.IntRange(0, 2).Draw(t, "depth"))
	if chance(t, "moment", 75) {
		var m *N
		if rapid.Bool().Draw(t, "day") {
			m = &N{K: "DATE", S: genDateText(t)}
		} else {
			m = &N{K: "TIMESTAMP", S: genStampText(t)}
		}
		k := bin(pick(t, "op", "EQ", "NE", "LT", "LE", "GT", "GE"), id(pick(t, "field", "d", "d.e", "ad", "s")), m)
		if rapid.Bool().Draw(t, "join") {
			k = bin(pick(t, "and", "AND", "OR"), k, n)
		}
		c.Text = kit.Str(render(t, k))
	} else {
		c.Text = kit.Str(render(t, n))
	}
	if all := offsetRx.FindAllString(string(c.Text), -1); len(all) > 0 && chance(t, "sameOffset", 70) {
		s := all[rapid.IntRange(0, len(all)-1).Draw(t, "which")]
		var h, m int
		fmt.Sscanf(s[1:], "%d:%d", &h, &m)
		c.Offset = h*3600 + m*60
		if s[0] == '-' {
			c.Offset = -c.Offset
		}
		return c
	}
	c.Zone = pick(t, "zoneName", zoneNames...)
	return c
}

// ---- the commands -----------------------------------------------------------------

type envCase struct {
	Cmd  string
	Args []kit.Str
	Env  []string
	Dir  string
}

func (c envCase) run(env []string, dir string) string {
	var args []string
	for _, a := range c.Args {
		args = append(args, string(a))
	}
	cmd := exec.Command(os.Getenv("VERIF_CLI")+"/"+c.Cmd, args...)
	cmd.Env, cmd.Dir = env, dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		kit.Bug("%s: %v", c.Cmd, err)
	}
	timer := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
	defer timer.Stop()
	cmd.Wait()
	stamp := regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d |\b0x[0-9a-f]{6,}`) // of the log package, or an address
	return fmt.Sprintf("exit %d\nstdout %s\nstderr %s", cmd.ProcessState.ExitCode(), kit.Plain(o.String()), stamp.ReplaceAllString(e.String(), ""))
}

func checkEnv(c envCase, x *kit.X) error {
	here := c.run([]string{"PATH=/usr/bin:/bin", "HOME=/root", "TZ=UTC"}, "")
	there := c.run(c.Env, c.Dir)
	if here != there {
		return fmt.Errorf("%s %q\n%s\nin the folder %q with %q\n%s", c.Cmd, c.Args, here, c.Dir, c.Env, there)
	}
	if strings.HasPrefix(here, "exit 0") {
		x.NonTrivial()
	}
	return nil
}

func genEnv(t *rapid.T) envCase {
	r := genCLI(t)
	c := envCase{Cmd: r.Cmd}
	for _, a := range r.args() {
		c.Args = append(c.Args, kit.Str(a))
	}
	c.Dir = pick(t, "dir", "", "/", "/tmp", "/usr")
	c.Env = []string{"TZ=" + pick(t, "tz", zoneNames...)}
	for _, v := range []string{"LANG", "LC_ALL", "LC_NUMERIC", "LC_CTYPE"} {
		if rapid.Bool().Draw(t, v) {
			c.Env = append(c.Env, v+"="+pick(t, "locale", "C", "de_DE.UTF-8", "tr_TR.UTF-8", "fr_FR", "C.UTF-8", "nonsense"))
		}
	}
	if rapid.Bool().Draw(t, "home") {
		c.Env = append(c.Env, "HOME=/nonexistent", "USER=nobody", "TERM=xterm-256color", "COLUMNS=20", "NO_COLOR=1", "DEBUG=1", "TSL_DEBUG=1", "GOGC=20", "GOMAXPROCS=1")
	}
	return c
}

func init() {
	kit.Register("C34/zone", "a drawn phrase, mostly with dates and timestamps, parsed, rendered, converted and evaluated on a record in a process whose local time zone is one with or without daylight saving, or has the offset of a timestamp of the phrase; compared with the same in UTC; non-trivial: accepted, with a date",
		genZone, checkZone)
	kit.Register("C34/env", "a command with a drawn phrase, run in another folder, time zone, locale and environment; exit status and output compared with those in a plain environment; non-trivial: the command succeeds",
		genEnv, checkEnv)
}
