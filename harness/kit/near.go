package kit

import (
	"math"
	"strings"

	"pgregory.net/rapid"
)

// NearText draws a text that a careless comparison may take for s: s itself, s
// with blanks, another case, one character more, less or changed.
func NearText(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 11).Draw(t, "near") {
	case 0, 1, 2:
		return s
	case 3:
		return s + " "
	case 4:
		return " " + s
	case 5:
		return s + rapid.SampledFrom([]string{"\n", "\t", "x", "é", "0", "%", "\u0301"}).Draw(t, "tail")
	case 6:
		return strings.ToUpper(s)
	case 7:
		return strings.ToLower(s)
	case 8:
		if c := Chars(s); len(c) > 0 {
			return strings.Join(c[:len(c)-1], "")
		}
	case 9:
		if c := Chars(s); len(c) > 0 {
			return strings.Join(c[1:], "")
		}
	case 10:
		if c := Chars(s); len(c) > 0 {
			i := rapid.IntRange(0, len(c)-1).Draw(t, "at")
			return strings.Join(c[:i], "") + "z" + strings.Join(c[i+1:], "")
		}
	}
	return s + s
}

// NearNumber draws a number that a careless comparison may take for f.
func NearNumber(t *rapid.T, f float64) float64 {
	if g := nearNumber(t, f); !math.IsInf(g, 0) && !math.IsNaN(g) {
		return g
	}
	return f
}

func nearNumber(t *rapid.T, f float64) float64 {
	switch rapid.IntRange(0, 9).Draw(t, "near") {
	case 0, 1, 2:
		return f
	case 3:
		return math.Nextafter(f, math.Inf(1))
	case 4:
		return math.Nextafter(f, math.Inf(-1))
	case 5:
		return f + 1e-9
	case 6:
		return f * (1 + 1e-12)
	case 7:
		return f + 1
	case 8:
		return -f
	}
	return f + 0.25
}

// LongText draws a longer text made of s, one time in ten.
func LongText(t *rapid.T, s string) string {
	if s == "" || rapid.IntRange(0, 9).Draw(t, "lengthen") < 9 {
		return s
	}
	return strings.Repeat(s, 1+rapid.SampledFrom([]int{2, 7, 20, 70}).Draw(t, "times"))
}

// Words are names that other query languages, or a later version of this one, give
// a meaning of their own.
var Words = strings.Fields("length size count min max avg mean date time now today contains exists missing has empty regex match matches xor nor none every some total " +
	"nil undefined yes no on off t f asc desc by limit select where from as eq ne lt gt le ge nan inf infinity mod div abs lower upper distinct case when end glob exact number string bool")

// OtherCase draws s, one time in ten in another letter case.
func OtherCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 19).Draw(t, "otherCase") {
	case 18:
		return strings.ToUpper(s)
	case 19:
		return strings.ToUpper(s[:1]) + strings.ToLower(s[1:])
	}
	return s
}

// Sibling draws a text that agrees with s in most places: at its start, at its
// end, or up to letter case and blanks. Long texts let a short key mix them up.
func Sibling(t *rapid.T, s string) string {
	c := Chars(s)
	switch i := rapid.IntRange(0, 5).Draw(t, "sibling"); {
	case i == 0 && len(c) > 0:
		return strings.Join(c[:len(c)-1], "")
	case i == 1 && len(c) > 0:
		return "b" + strings.Join(c[1:], "")
	case i == 2 && len(c) > 0:
		return strings.Join(c[:len(c)-1], "") + "b"
	case i == 3:
		return s + rapid.SampledFrom([]string{" ", "b", "%", "_"}).Draw(t, "tail")
	case i == 4:
		return strings.ToUpper(s)
	}
	return NearText(t, s)
}

// SiblingPhrase draws a phrase that agrees with s nearly everywhere, so that a
// parser that keeps what it has read under too short a key mixes them up.
func SiblingPhrase(t *rapid.T, s string) string {
	if s == "" {
		return "a"
	}
	switch rapid.IntRange(0, 5).Draw(t, "siblingKind") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2: // blanks
		if at := places(s, " \t\n"); len(at) > 0 {
			i := rapid.SampledFrom(at).Draw(t, "blank")
			return s[:i] + rapid.SampledFrom([]string{"  ", "\t", "\n", "", "_"}).Draw(t, "for") + s[i+1:]
		}
		return s + " "
	case 3: // the end
		if rapid.Bool().Draw(t, "cut") {
			return s[:len(s)-1]
		}
		return s + rapid.SampledFrom([]string{" ", "0", "x", ")", "'", " and", "\x00"}).Draw(t, "tail")
	case 4: // a quote or a bracket
		if at := places(s, "'\"`[](),"); len(at) > 0 {
			i := rapid.SampledFrom(at).Draw(t, "mark")
			return s[:i] + rapid.SampledFrom([]string{"'", "\"", " ", "("}).Draw(t, "for") + s[i+1:]
		}
	}
	// a letter or a digit
	i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
	if rapid.Bool().Draw(t, "fromEnd") {
		i = len(s) - 1 - i/2
	}
	for ; i < len(s); i++ {
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			return s[:i] + string('0'+(c-'0'+1)%10) + s[i+1:]
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z':
			return s[:i] + rapid.SampledFrom([]string{string(c ^ 0x20), "q"}).Draw(t, "letter") + s[i+1:]
		}
	}
	return s + s
}

func places(s, set string) (at []int) {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) >= 0 {
			at = append(at, i)
		}
	}
	return
}
