package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
	"github.com/yaacov/tree-search-language/v6/pkg/walkers/semantics"
	kit "vkit"
)

// V is a record value as a case stores it.
type V struct {
	T string  // nil, a numeric Go type, str, bool, time, arr, or an odd Go type
	F float64 `json:",omitempty"`
	S kit.Str `json:",omitempty"` // str: content; time: RFC 3339 text
	B bool    `json:",omitempty"`
	A []V     `json:",omitempty"`
}

// Field is one field of a record.
type Field struct {
	Name string
	V    V
}

var numTypes = []string{"float64", "float32", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}
var oddTypes = []string{"map", "strings", "ints", "struct", "func", "chan", "ptr", "nilptr", "bytes", "duration", "nan", "inf", "complex", "error", "mapsi", "array2", "named", "nilarr", "timeptr",
	"niltimeptr", "nilstrptr", "nilnumptr", "nilarrptr", "nilmap", "nilfunc", "nilslice", "nilerror", "strptr", "arrptr", "times", "bools", "nested", "jsonnum", "bignum",
	"namedint", "namedtime", "stringer", "raw", "zerotime", "farpast", "farfuture", "zoned", "neginf", "negzero", "uintptr", "rune", "emptystruct"}

type oddStruct struct{ A, B int }
type namedStr string
type namedInt int
type namedTime time.Time
type stringer struct{ s *string }

func (s *stringer) String() string { return *s.s }

// Go builds the Go value a record function returns.
func (v V) Go() interface{} {
	switch v.T {
	case "nil":
		return nil
	case "float64":
		return v.F
	case "float32":
		return float32(v.F)
	case "int":
		return int(v.F)
	case "int8":
		return int8(v.F)
	case "int16":
		return int16(v.F)
	case "int32":
		return int32(v.F)
	case "int64":
		return int64(v.F)
	case "uint":
		return uint(v.F)
	case "uint8":
		return uint8(v.F)
	case "uint16":
		return uint16(v.F)
	case "uint32":
		return uint32(v.F)
	case "uint64":
		return uint64(v.F)
	case "str":
		return string(v.S)
	case "bool":
		return v.B
	case "time":
		t, err := time.Parse(time.RFC3339Nano, string(v.S))
		if err != nil {
			kit.Bug("bad time %q", v.S)
		}
		return t
	case "arr":
		a := make([]interface{}, 0, len(v.A))
		for _, e := range v.A {
			a = append(a, e.Go())
		}
		return a
	case "map":
		return map[string]interface{}{"a": 1, "b": []interface{}{2}}
	case "mapsi":
		return map[string]int{"a": 1}
	case "strings":
		return []string{"a", "b"}
	case "ints":
		return []int{1, 2}
	case "bytes":
		return []byte("abc")
	case "array2":
		return [2]float64{1, 2}
	case "struct":
		return oddStruct{1, 2}
	case "func":
		return func() {}
	case "chan":
		return make(chan int)
	case "ptr":
		x := 5
		return &x
	case "nilptr":
		return (*oddStruct)(nil)
	case "timeptr":
		x := time.Unix(0, 0)
		return &x
	case "niltimeptr":
		return (*time.Time)(nil)
	case "nilstrptr":
		return (*string)(nil)
	case "nilnumptr":
		return (*float64)(nil)
	case "nilarrptr":
		return (*[]interface{})(nil)
	case "nilmap":
		return map[string]interface{}(nil)
	case "nilfunc":
		return (func())(nil)
	case "nilslice":
		return []string(nil)
	case "nilerror":
		return (*json.SyntaxError)(nil)
	case "strptr":
		x := "a"
		return &x
	case "arrptr":
		return &[]interface{}{1.0}
	case "times":
		return []time.Time{{}, time.Unix(0, 0)}
	case "bools":
		return []bool{true, false}
	case "nested":
		return [][]interface{}{{1.0}, nil}
	case "jsonnum":
		return json.Number("5")
	case "bignum":
		return big.NewInt(5)
	case "namedint":
		return namedInt(5)
	case "namedtime":
		return namedTime(time.Unix(0, 0))
	case "stringer":
		return &stringer{}
	case "raw":
		return json.RawMessage(`{"a":1}`)
	case "zerotime":
		return time.Time{}
	case "farpast":
		return time.Unix(-1<<55, 0)
	case "farfuture":
		return time.Unix(1<<55, 999999999)
	case "zoned":
		return time.Unix(0, 0).In(time.FixedZone("X", -12345))
	case "neginf":
		return math.Inf(-1)
	case "negzero":
		return math.Copysign(0, -1)
	case "uintptr":
		return uintptr(5)
	case "rune":
		return 'a'
	case "emptystruct":
		return struct{}{}
	case "duration":
		return time.Second
	case "nan":
		return math.NaN()
	case "inf":
		return math.Inf(1)
	case "complex":
		return complex(1, 2)
	case "error":
		return errors.New("x")
	case "named":
		return namedStr("a")
	case "nilarr":
		return []interface{}(nil)
	}
	kit.Bug("value type %q", v.T)
	return nil
}

// record gives the record function and a log of the names it was asked for.
func record(fs []Field) (semantics.EvalFunc, map[string]int) {
	m := map[string]interface{}{}
	for _, f := range fs {
		m[f.Name] = f.V.Go()
	}
	asked := map[string]int{}
	return func(k string) (interface{}, bool) {
		asked[k]++
		v, ok := m[k]
		return v, ok
	}, asked
}

// ---- the reference evaluator -------------------------------------------------

var (
	errMissing = errors.New("missing field")
	errType    = errors.New("ill-typed")
	errZero    = errors.New("division by zero")
	errRegexp  = errors.New("invalid regular expression")
)

// instant reads a date or timestamp text.
func instant(s string) (time.Time, bool) {
	if t, err := time.Parse(time.RFC3339, s); err == nil {
		return t, true
	}
	t, err := time.Parse("2006-01-02", s)
	return t, err == nil
}

func asTime(v interface{}) (time.Time, bool) {
	switch x := v.(type) {
	case time.Time:
		return x, true
	case string:
		return instant(x)
	}
	return time.Time{}, false
}

// number gives the number a Go value of any numeric type denotes.
func number(v interface{}) (float64, bool) {
	if f, ok := v.(float64); ok {
		return f, true
	}
	if _, ok := v.(time.Duration); ok {
		return 0, false
	}
	r := reflect.ValueOf(v)
	if !r.IsValid() || r.Type().PkgPath() != "" {
		return 0, false
	}
	switch {
	case r.CanInt():
		return float64(r.Int()), true
	case r.CanUint() && r.Kind() != reflect.Uintptr:
		return float64(r.Uint()), true
	case r.CanFloat():
		return r.Float(), true
	}
	return 0, false
}

// field converts a record value to the value a phrase works on.
func field(v interface{}) interface{} {
	if a, ok := v.([]interface{}); ok {
		out := make([]interface{}, len(a))
		for i := range a {
			out[i] = field(a[i])
		}
		return out
	}
	if f, ok := number(v); ok {
		return f
	}
	if t, ok := asTime(v); ok {
		return t
	}
	return v
}

// refUnsure is set when an evaluation leaves what is specified.
var refUnsure bool

// refEval evaluates n on the record.
func refEval(n *N, rec semantics.EvalFunc) (interface{}, error) {
	if n == nil {
		return nil, nil
	}
	switch n.K {
	case "IDENTIFIER":
		v, ok := rec(n.S)
		if !ok {
			return nil, errMissing
		}
		return field(v), nil
	case "NUMBER":
		return n.F, nil
	case "BOOLEAN":
		return n.B, nil
	case "NULL":
		return nil, nil
	case "STRING", "DATE":
		return n.S, nil
	case "TIMESTAMP":
		if t, ok := instant(n.S); ok {
			return t, nil
		}
		return n.S, nil
	case "ARRAY":
		out := make([]interface{}, len(n.E))
		for i, e := range n.E {
			v, err := refEval(e, rec)
			if err != nil {
				return nil, err
			}
			out[i] = v
		}
		return out, nil
	case "UNARY_EXP":
		v, err := refEval(n.R, rec)
		if err != nil {
			return nil, err
		}
		return refUnary(n.Op, v)
	case "BINARY_EXP":
		r, err := refEval(n.R, rec)
		if err != nil {
			return nil, err
		}
		l, err := refEval(n.L, rec)
		if err != nil {
			return nil, err
		}
		return refBinary(n.Op, l, r)
	}
	kit.Bug("kind %q", n.K)
	return nil, nil
}

func refUnary(op string, v interface{}) (interface{}, error) {
	a, isArr := v.([]interface{})
	switch op {
	case "LEN":
		if !isArr {
			return nil, errType
		}
		return float64(len(a)), nil
	case "SUM":
		if !isArr {
			return nil, errType
		}
		s := 0.0
		for _, e := range a {
			f, ok := number(e)
			if !ok {
				return nil, errType
			}
			s += f
		}
		return s, nil
	case "ANY", "ALL":
		if !isArr {
			return nil, errType
		}
		trues := 0
		for _, e := range a {
			if e == true {
				trues++
			}
		}
		if op == "ANY" {
			return trues > 0, nil
		}
		return trues == len(a) && trues > 0, nil
	}
	if isArr {
		out := make([]interface{}, len(a))
		for i, e := range a {
			if _, nested := e.([]interface{}); nested {
				return nil, errType
			}
			x, err := refUnary(op, e)
			if err != nil {
				return nil, err
			}
			out[i] = x
		}
		return out, nil
	}
	if op == "NOT" {
		b, ok := v.(bool)
		if !ok {
			return nil, errType
		}
		return !b, nil
	}
	f, ok := number(v)
	if !ok {
		return nil, errType
	}
	return -f, nil
}

func refEqual(l, r interface{}) bool {
	if x, ok := number(l); ok {
		if y, ok := number(r); ok {
			return x == y
		}
	}
	if x, ok := asTime(l); ok {
		if y, ok := asTime(r); ok {
			return x.Equal(y)
		}
	}
	return reflect.DeepEqual(l, r)
}

func refBinary(op string, l, r interface{}) (interface{}, error) {
	if a, ok := l.([]interface{}); ok {
		out := make([]interface{}, len(a))
		for i, e := range a {
			x, err := refBinary(op, e, r)
			if err != nil {
				return nil, err
			}
			out[i] = x
		}
		return out, nil
	}
	null := l == nil || r == nil
	switch op {
	case "EQ":
		return refEqual(l, r), nil
	case "NE":
		return !refEqual(l, r), nil
	case "LT", "LE", "GT", "GE":
		if null {
			return false, nil
		}
		less, equal, ok := refOrder(l, r)
		if !ok {
			return nil, errType
		}
		// NaN is neither below nor above anything
		x, _ := number(l)
		y, _ := number(r)
		unordered := math.IsNaN(x) || math.IsNaN(y)
		switch {
		case unordered:
			return false, nil
		case op == "LT":
			return less, nil
		case op == "LE":
			return less || equal, nil
		case op == "GT":
			return !less && !equal, nil
		}
		return !less, nil
	case "REQ", "RNE":
		if null {
			return op == "RNE", nil
		}
		s, ok := l.(string)
		p, ok2 := r.(string)
		if !ok || !ok2 {
			return nil, errType
		}
		re, err := regexp.Compile(p)
		if err != nil {
			return nil, errRegexp
		}
		return re.MatchString(s) == (op == "REQ"), nil
	case "LIKE", "ILIKE":
		if null {
			return false, nil
		}
		s, ok := l.(string)
		p, ok2 := r.(string)
		if !ok || !ok2 {
			return nil, errType
		}
		return kit.Like(s, p, op == "ILIKE"), nil
	case "IN":
		a, ok := r.([]interface{})
		if !ok {
			return nil, errType
		}
		switch l.(type) {
		case nil:
			return false, nil
		case string, float64, bool, time.Time:
		default:
			return nil, errType
		}
		for _, e := range a {
			if refEqual(l, e) {
				return true, nil
			}
		}
		return false, nil
	case "BETWEEN":
		a, ok := r.([]interface{})
		if !ok || len(a) != 2 {
			return nil, errType
		}
		if l == nil || a[0] == nil || a[1] == nil {
			return false, nil
		}
		if _, isNum := number(l); isNum != (func() bool { _, x := number(a[0]); _, y := number(a[1]); return x && y })() {
			return nil, errType
		}
		lo, err := refBinary("GE", l, a[0])
		if err != nil {
			return nil, err
		}
		hi, err := refBinary("LE", l, a[1])
		if err != nil {
			return nil, err
		}
		return lo == true && hi == true, nil
	case "IS":
		return r == nil && l == nil, nil
	case "AND", "OR":
		x, ok := l.(bool)
		y, ok2 := r.(bool)
		if !ok || !ok2 {
			return nil, errType
		}
		if op == "AND" {
			return x && y, nil
		}
		return x || y, nil
	}
	x, ok := number(l)
	y, ok2 := number(r)
	if !ok || !ok2 {
		return nil, errType
	}
	switch op {
	case "ADD":
		return x + y, nil
	case "SUB":
		return x - y, nil
	case "MUL":
		return x * y, nil
	case "DIV":
		if y == 0 {
			return nil, errZero
		}
		return x / y, nil
	case "MOD":
		if !(math.Abs(x) < 1<<53 && math.Abs(y) < 1<<53) {
			refUnsure = true // the remainder of numbers too large to be exact integers is not specified
		}
		if math.Abs(y) < 1 {
			return nil, errZero
		}
		return math.Mod(math.Trunc(x), math.Trunc(y)), nil
	}
	kit.Bug("operator %q", op)
	return nil, nil
}

// refOrder orders two numbers or two instants.
func refOrder(l, r interface{}) (less, equal, ok bool) {
	if x, ok := number(l); ok {
		y, ok := number(r)
		return x < y, x == y, ok
	}
	x, ok1 := asTime(l)
	y, ok2 := asTime(r)
	return x.Before(y), x.Equal(y), ok1 && ok2
}

func sameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if a != nil && reflect.TypeOf(a).Kind() == reflect.Func {
		return b != nil && reflect.TypeOf(b).Kind() == reflect.Func
	}
	return reflect.DeepEqual(a, b)
}

func show(v interface{}, err error) string {
	if err != nil {
		return "error: " + cut(err.Error())
	}
	if t, ok := v.(time.Time); ok {
		return "time " + t.Format(time.RFC3339Nano)
	}
	return cut(fmt.Sprintf("%T %#v", v, v))
}

func showRecord(fs []Field) string {
	var p []string
	for _, f := range fs {
		p = append(p, fmt.Sprintf("%s=%s", f.Name, show(f.V.Go(), nil)))
	}
	return strings.Join(p, "; ")
}

// missingErr: the error names a field as not found, and which.
func missingErr(err error) (string, bool) {
	var k tsl.KeyNotFoundError
	if errors.As(err, &k) {
		return k.Key, true
	}
	var kp *tsl.KeyNotFoundError
	if errors.As(err, &kp) {
		return kp.Key, true
	}
	return "", false
}
