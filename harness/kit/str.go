package kit

import (
	"encoding/json"
	"strconv"
	"unicode/utf8"
)

// Str is a byte string that survives JSON exactly, valid UTF-8 or not.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string]string{"quoted": strconv.QuoteToASCII(string(s))})
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var p string
	if err := json.Unmarshal(b, &p); err == nil {
		*s = Str(p)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	u, err := strconv.Unquote(m["quoted"])
	*s = Str(u)
	return err
}
