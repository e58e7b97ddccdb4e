package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/antlr/antlr4/runtime/Go/antlr"
	"github.com/yaacov/tree-search-language/v5/pkg/parser"
	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
	"pgregory.net/rapid"
	kit "vkit"
)

// ---- C30: where a rejected phrase goes wrong ------------------------------------

// firstOffence is the offset, in characters, of the first token of a text that continues no
// phrase, of the first character that begins no token, or of the end.
func firstOffence(s string) int {
	toks, lexed := lex(s)
	rs := []rune(s)
	// where each token begins
	var starts []int
	i := 0
	skip := func() {
		for i < len(rs) && strings.ContainsRune(" \v\t\r\n", rs[i]) {
			i++
		}
	}
	for _, t := range toks {
		skip()
		starts = append(starts, i)
		i += len([]rune(t.s))
	}
	skip()
	end := len(rs)
	if !lexed {
		end = i
	}
	p := &refParser{t: toks}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(giveUp); !is {
					panic(r)
				}
			}
		}()
		p.or()
		p.reach()
	}()
	if p.far < len(toks) {
		return starts[p.far]
	}
	return end
}

type errorLog struct {
	*antlr.DefaultErrorListener
	texts []string
}

func (l *errorLog) SyntaxError(_ antlr.Recognizer, _ interface{}, line, column int, msg string, _ antlr.RecognitionException) {
	l.texts = append(l.texts, fmt.Sprintf("parse error [%d:%d]: %s", line, column, msg))
}

// reported are the errors the generated parser reports.
func reported(s string) []string {
	l := &errorLog{}
	lexer := parser.NewTSLLexer(antlr.NewInputStream(s))
	lexer.RemoveErrorListeners()
	lexer.AddErrorListener(l)
	p := parser.NewTSLParser(antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel))
	p.RemoveErrorListeners()
	p.AddErrorListener(l)
	p.Start()
	return l.texts
}

var placeRx = regexp.MustCompile(`(?s)\Aparse error \[([0-9]+):([0-9]+)\]: .`)

// placeOf is the offset, in characters, an error text names.
func placeOf(text, s string) (int, error) {
	m := placeRx.FindStringSubmatch(text)
	if m == nil {
		return 0, fmt.Errorf("the error names no place: %q", text)
	}
	line, _ := strconv.Atoi(m[1])
	column, _ := strconv.Atoi(m[2])
	lines := strings.Split(string([]rune(s)), "\n")
	if line < 1 || line > len(lines) {
		return 0, fmt.Errorf("the text has no line %d: %q", line, text)
	}
	if n := len([]rune(lines[line-1])); column > n {
		return 0, fmt.Errorf("line %d has no column %d: %q", line, column, text)
	}
	at := column
	for _, l := range lines[:line-1] {
		at += len([]rune(l)) + 1
	}
	return at, nil
}

func checkPlace(c kit.Str, x *kit.X) error {
	s := string(c)
	if _, bad := refParse(s); bad != errSyntax {
		x.Exclude()
		return nil
	}
	_, err := tsl.ParseTSL(s)
	if err == nil {
		return fmt.Errorf("%q is no phrase, yet there is no error", s)
	}
	text := err.Error()
	at, e := placeOf(text, s)
	if e != nil {
		return fmt.Errorf("%q: %v", s, e)
	}
	first := firstOffence(s)
	// The parser looks ahead: a character further on that begins no token may be told first.
	if at != first && (at < first || !strings.Contains(text, "]: token recognition error at: ")) {
		return fmt.Errorf("%q: %q names character %d, the first that continues no phrase is at %d", s, text, at, first)
	}
	all := reported(s)
	found := false
	for _, r := range all {
		found = found || r == text
	}
	if !found {
		return fmt.Errorf("%q: %q is none of the errors of the parser: %q", s, text, all)
	}
	x.Label("errors: %d", min(len(all), 4))
	x.LabelIf(first == len([]rune(s)), "ends too early")
	x.LabelIf(strings.Contains(s, "\n"), "several lines")
	if first > 0 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	register("C30/place", "a phrase of one line or several with 0-3 tokens dropped, replaced, added, swapped, doubled or broken, or a soup of words; the place and reason of the error compared with a reference parser and with the errors of the generated parser; non-trivial: the first token is not at fault",
		func(t *rapid.T) kit.Str {
			var s string
			if chance(t, "soup", 25) {
				s = soup(t)
			} else {
				s = mutant(t)
			}
			if chance(t, "lines", 30) {
				b := []byte(s)
				for i := range b {
					if b[i] == ' ' && chance(t, "line", 30) {
						b[i] = '\n'
					}
				}
				s = string(b)
			}
			if chance(t, "far", 4) { // the place is far on
				s = strings.Repeat(pick(t, "blank", " ", "\n", "\t", " \r\n", "x = 'é' and "), pick(t, "blanks", 1, 9, 33)) + s
				s = strings.Repeat(pick(t, "more", " ", "\n", "\v"), pick(t, "size", 0, 130, 255, 1000, 4000)) + s
			}
			return kit.Str(s)
		}, checkPlace)
}
