package kit

import (
	"strings"
	"unicode/utf8"
)

// Like matches s against an SQL pattern by dynamic programming.
func Like(s, p string, fold bool) bool {
	if fold {
		s, p = strings.ToLower(s), strings.ToLower(p)
	}
	a, b := Chars(s), Chars(p)
	row := make([]bool, len(a)+1)
	row[0] = true
	for _, c := range b {
		next := make([]bool, len(a)+1)
		if c == "%" {
			reach := false
			for i := range row {
				reach = reach || row[i]
				next[i] = reach
			}
		} else {
			for i := 0; i < len(a); i++ {
				next[i+1] = row[i] && (c == "_" || c == a[i])
			}
		}
		row = next
	}
	return row[len(a)]
}

// Chars splits into characters; a byte that is no UTF-8 is one of its own.
func Chars(s string) (out []string) {
	for len(s) > 0 {
		_, n := utf8.DecodeRuneInString(s)
		out = append(out, s[:n])
		s = s[n:]
	}
	return
}
