package main

// Go source of the models: ordinary Go code, executed by the engine in place of the named library functions.
// Everything listed here is part of the stated trusted base.
const modelsPkg = "github.com/hexbee-net/etxe/pkg/zzverif/models"

const modelsSrc = `package models

import (
	"fmt"
	"io"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"
)

var _ = io.EOF
var _ = sort.Strings

// regexp.(*Regexp).ReplaceAllStringFunc, built on the modelled FindAllStringSubmatchIndex
func ReplaceAllStringFunc(re *regexp.Regexp, src string, repl func(string) string) string {
	out := ""
	pos := 0
	for _, m := range re.FindAllStringSubmatchIndex(src, -1) {
		out += src[pos:m[0]]
		out += repl(src[m[0]:m[1]])
		pos = m[1]
	}
	return out + src[pos:]
}

func Quote(s string) string { return strconv.Quote(s) }

// ---- strings.Replacer: the definition of its meaning, rather than its lookup tables

func ReplacerPairs(r *strings.Replacer) []string // native

func Replace(r *strings.Replacer, s string) string {
	p := ReplacerPairs(r)
	var out []byte
	last := 0
	empty := false
	for i := 0; i <= len(s); {
		match := -1
		for k := 0; k+1 < len(p); k += 2 {
			if len(p[k]) <= len(s)-i && (p[k] != "" || !empty) && s[i:i+len(p[k])] == p[k] {
				match = k
				break
			}
		}
		empty = match >= 0 && p[match] == ""
		if match >= 0 {
			out = append(out, s[last:i]...)
			out = append(out, p[match+1]...)
			i += len(p[match])
			last = i
			continue
		}
		i++
	}
	return string(append(out, s[last:]...))
}

func ReplacerWrite(r *strings.Replacer, w io.Writer, s string) (int, error) {
	return io.WriteString(w, Replace(r, s))
}

// ---- sync.Map

func SyncMap(m *sync.Map) map[any]any // native

func SMLoad(m *sync.Map, k any) (any, bool) {
	x, ok := SyncMap(m)[k]
	return x, ok
}
func SMStore(m *sync.Map, k, v any) { SyncMap(m)[k] = v }
func SMLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	t := SyncMap(m)
	if x, ok := t[k]; ok {
		return x, true
	}
	t[k] = v
	return v, false
}
func SMDelete(m *sync.Map, k any) { delete(SyncMap(m), k) }
func SMLoadAndDelete(m *sync.Map, k any) (any, bool) {
	t := SyncMap(m)
	x, ok := t[k]
	delete(t, k)
	return x, ok
}
func SMSwap(m *sync.Map, k, v any) (any, bool) {
	t := SyncMap(m)
	x, ok := t[k]
	t[k] = v
	return x, ok
}
func SMCompareAndSwap(m *sync.Map, k, o, n any) bool {
	t := SyncMap(m)
	if x, ok := t[k]; ok && x == o {
		t[k] = n
		return true
	}
	return false
}
func SMCompareAndDelete(m *sync.Map, k, o any) bool {
	t := SyncMap(m)
	if x, ok := t[k]; ok && x == o {
		delete(t, k)
		return true
	}
	return false
}
func SMRange(m *sync.Map, f func(k, v any) bool) {
	for k, v := range SyncMap(m) {
		if !f(k, v) {
			return
		}
	}
}
func SMClear(m *sync.Map) {
	t := SyncMap(m)
	for k := range t {
		delete(t, k)
	}
}

// ---- fmt.State, for the types that format themselves

type state struct {
	out []byte
	f   flags
}

func (s *state) Write(b []byte) (int, error) {
	s.out = append(s.out, b...)
	return len(b), nil
}
func (s *state) Width() (int, bool)     { return s.f.wid, s.f.hasWid }
func (s *state) Precision() (int, bool) { return s.f.prec, s.f.hasPrec }
func (s *state) Flag(c int) bool {
	switch c {
	case '-':
		return s.f.minus
	case '+':
		return s.f.plus
	case '#':
		return s.f.sharp
	case ' ':
		return s.f.space
	case '0':
		return s.f.zero
	}
	return false
}

// ---- fmt

type wrapErr struct {
	format string
	args   []any
	err    error
}

func (e *wrapErr) Error() string { return Sprintf(e.format, e.args...) }
func (e *wrapErr) Unwrap() error { return e.err }

type plainErr struct {
	format string
	args   []any
}

func (e *plainErr) Error() string { return Sprintf(e.format, e.args...) }

func Errorf(format string, args ...any) error {
	args = append([]any(nil), args...)
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		if format[i] == '%' {
			continue
		}
		for i+1 < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || (format[i] >= '0' && format[i] <= '9')) {
			i++
		}
		if format[i] == 'w' && n < len(args) {
			if err, ok := args[n].(error); ok {
				return &wrapErr{format, args, err}
			}
		}
		n++
	}
	return &plainErr{format, args}
}

func Sprintf(format string, args ...any) string {
	return string(format_(nil, format, args))
}

func Fprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write(format_(nil, format, args))
}

func Appendf(b []byte, format string, args ...any) []byte { return format_(b, format, args) }

func Sprint(args ...any) string {
	var out []byte
	prev := true
	for i, a := range args {
		_, isStr := a.(string)
		if i > 0 && !isStr && !prev {
			out = append(out, ' ')
		}
		prev = isStr
		out = one(out, 'v', flags{}, a)
	}
	return string(out)
}

func Fprint(w io.Writer, args ...any) (int, error) { return w.Write([]byte(Sprint(args...))) }

func Sprintln(args ...any) string {
	var out []byte
	for i, a := range args {
		if i > 0 {
			out = append(out, ' ')
		}
		out = one(out, 'v', flags{}, a)
	}
	return string(append(out, '\n'))
}

func Fprintln(w io.Writer, args ...any) (int, error) { return w.Write([]byte(Sprintln(args...))) }

type flags struct {
	plus, minus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func format_(out []byte, format string, args []any) []byte {
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			out = append(out, c)
			continue
		}
		i++
		if i >= len(format) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		var f flags
	fl:
		for i < len(format) {
			switch format[i] {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break fl
			}
			i++
		}
		if i < len(format) && format[i] == '*' {
			if n < len(args) {
				f.wid, f.hasWid = args[n].(int)
				n++
			}
			i++
		}
		for i < len(format) && format[i] >= '0' && format[i] <= '9' {
			f.wid = f.wid*10 + int(format[i]-'0')
			f.hasWid = true
			i++
		}
		if i < len(format) && format[i] == '.' {
			i++
			f.hasPrec = true
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				f.prec = f.prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= len(format) {
			out = append(out, "%!(NOVERB)"...)
			break
		}
		verb := format[i]
		if verb == '%' {
			out = append(out, '%')
			continue
		}
		if n >= len(args) {
			out = append(out, "%!"...)
			out = append(out, verb)
			out = append(out, "(MISSING)"...)
			continue
		}
		start := len(out)
		out = one(out, verb, f, args[n])
		n++
		if f.hasWid {
			w := utf8.RuneCount(out[start:])
			if w < f.wid {
				pad := make([]byte, f.wid-w)
				for k := range pad {
					pad[k] = ' '
					if f.zero && !f.minus {
						pad[k] = '0'
					}
				}
				if f.minus {
					out = append(out, pad...)
				} else {
					body := append([]byte(nil), out[start:]...)
					out = append(append(out[:start], pad...), body...)
				}
			}
		}
	}
	if n < len(args) {
		out = append(out, "%!(EXTRA "...)
		for k := n; k < len(args); k++ {
			if k > n {
				out = append(out, ", "...)
			}
			if args[k] == nil {
				out = append(out, "<nil>"...)
				continue
			}
			out = append(out, reflect.TypeOf(args[k]).String()...)
			out = append(out, '=')
			out = one(out, 'v', flags{}, args[k])
		}
		out = append(out, ')')
	}
	return out
}

func badVerb(out []byte, verb byte, a any) []byte {
	out = append(out, "%!"...)
	out = append(out, verb)
	out = append(out, '(')
	if a == nil {
		out = append(out, "<nil>"...)
	} else {
		out = append(out, reflect.TypeOf(a).String()...)
		out = append(out, '=')
		out = val(out, 'v', flags{}, reflect.ValueOf(a), 0)
	}
	return append(out, ')')
}

func one(out []byte, verb byte, f flags, a any) []byte {
	if a == nil {
		switch verb {
		case 'T', 'v':
			return append(out, "<nil>"...)
		}
		return badVerb(out, verb, nil)
	}
	switch verb {
	case 'T':
		return append(out, reflect.TypeOf(a).String()...)
	case 'p':
		return append(out, "0xc000000000"...)
	}
	if g, ok := a.(fmt.Formatter); ok {
		s := &state{f: f}
		g.Format(s, rune(verb))
		return append(out, s.out...)
	}
	if f.sharp && verb == 'v' {
		if g, ok := a.(fmt.GoStringer); ok {
			return append(out, g.GoString()...)
		}
	} else {
		switch verb {
		case 'v', 's', 'x', 'X', 'q', 'w':
			switch x := a.(type) {
			case error:
				return str(out, verb, f, safe(a, x.Error))
			case fmt.Stringer:
				return str(out, verb, f, safe(a, x.String))
			}
		}
	}
	switch x := a.(type) {
	case string:
		return str(out, verb, f, x)
	case int:
		return integer(out, verb, f, int64(x), a)
	case bool:
		if verb != 't' && verb != 'v' {
			return badVerb(out, verb, a)
		}
		if x {
			return append(out, "true"...)
		}
		return append(out, "false"...)
	}
	return val(out, verb, f, reflect.ValueOf(a), 0)
}

func safe(a any, f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if v := reflect.ValueOf(a); v.Kind() == reflect.Ptr && v.IsNil() {
				s = "<nil>"
				return
			}
			s = "%!v(PANIC=method)"
		}
	}()
	return f()
}

func str(out []byte, verb byte, f flags, s string) []byte {
	switch verb {
	case 'v', 's', 'w':
		if verb == 'v' && f.sharp {
			return append(out, Quote(s)...)
		}
		return append(out, s...)
	case 'q':
		return append(out, Quote(s)...)
	case 'x', 'X':
		const lo = "0123456789abcdef"
		const up = "0123456789ABCDEF"
		d := lo
		if verb == 'X' {
			d = up
		}
		for i := 0; i < len(s); i++ {
			out = append(out, d[s[i]>>4], d[s[i]&15])
		}
		return out
	}
	return badVerb(out, verb, s)
}

func integer(out []byte, verb byte, f flags, v int64, a any) []byte {
	if f.plus && v >= 0 && verb == 'd' {
		out = append(out, '+')
	}
	switch verb {
	case 'd', 'v':
		return strconv.AppendInt(out, v, 10)
	case 'x':
		if f.sharp {
			out = append(out, "0x"...)
		}
		return strconv.AppendInt(out, v, 16)
	case 'X':
		s := strconv.FormatInt(v, 16)
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c >= 'a' {
				c -= 32
			}
			out = append(out, c)
		}
		return out
	case 'o':
		return strconv.AppendInt(out, v, 8)
	case 'b':
		return strconv.AppendInt(out, v, 2)
	case 'c':
		return utf8.AppendRune(out, rune(v))
	case 'q':
		return strconv.AppendQuoteRune(out, rune(v))
	case 'U':
		return append(append(out, "U+"...), fmt4(v)...)
	}
	return badVerb(out, verb, a)
}

func fmt4(v int64) string {
	s := ""
	for v > 0 {
		s = string("0123456789ABCDEF"[v&15]) + s
		v >>= 4
	}
	for len(s) < 4 {
		s = "0" + s
	}
	return s
}

func val(out []byte, verb byte, f flags, v reflect.Value, depth int) []byte {
	if !v.IsValid() {
		return append(out, "<nil>"...)
	}
	if depth > 0 && v.CanInterface() {
		if a := v.Interface(); a != nil {
			if g, ok := a.(fmt.Formatter); ok {
				s := &state{f: f}
				g.Format(s, rune(verb))
				return append(out, s.out...)
			}
			switch verb {
			case 'v', 's', 'q':
				if !f.sharp {
					switch x := a.(type) {
					case error:
						return str(out, verb, f, safe(a, x.Error))
					case fmt.Stringer:
						return str(out, verb, f, safe(a, x.String))
					}
				}
			}
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return append(out, "true"...)
		}
		return append(out, "false"...)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return integer(out, verb, f, v.Int(), v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return integer(out, verb, f, int64(v.Uint()), v.Uint())
	case reflect.String:
		return str(out, verb, f, v.String())
	case reflect.Float32, reflect.Float64:
		return strconv.AppendFloat(out, v.Float(), 'g', -1, 64)
	case reflect.Interface:
		if v.IsNil() {
			return append(out, "<nil>"...)
		}
		return val(out, verb, f, v.Elem(), depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			return append(out, "<nil>"...)
		}
		if depth == 0 {
			switch v.Elem().Kind() {
			case reflect.Array, reflect.Slice, reflect.Struct, reflect.Map:
				out = append(out, '&')
				return val(out, verb, f, v.Elem(), depth+1)
			}
		}
		return append(out, "0xc000000000"...)
	case reflect.Struct:
		if f.sharp {
			out = append(out, v.Type().String()...)
		}
		out = append(out, '{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				if f.sharp {
					out = append(out, ',')
				}
				out = append(out, ' ')
			}
			if f.plus || f.sharp {
				out = append(out, v.Type().Field(i).Name...)
				out = append(out, ':')
			}
			out = val(out, verb, f, v.Field(i), depth+1)
		}
		return append(out, '}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 && (verb == 's' || verb == 'q' || verb == 'x') {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return str(out, verb, f, string(b))
		}
		out = append(out, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				out = append(out, ' ')
			}
			out = val(out, verb, f, v.Index(i), depth+1)
		}
		return append(out, ']')
	case reflect.Map:
		out = append(out, "map["...)
		for i, k := range v.MapKeys() {
			if i > 0 {
				out = append(out, ' ')
			}
			out = val(out, verb, f, k, depth+1)
			out = append(out, ':')
			out = val(out, verb, f, v.MapIndex(k), depth+1)
		}
		return append(out, ']')
	case reflect.Func, reflect.Chan:
		if v.IsNil() {
			return append(out, "<nil>"...)
		}
		return append(out, "0xc000000000"...)
	}
	return badVerb(out, verb, nil)
}

// repr.String: the exact text is not modelled
func ReprString(v any, options ...any) string { return "<repr>" }
`

var modelMap = map[string]string{
	"(*regexp.Regexp).ReplaceAllStringFunc": "ReplaceAllStringFunc",
	"(*sync.Map).Load":                      "SMLoad",
	"(*sync.Map).Store":                     "SMStore",
	"(*sync.Map).LoadOrStore":               "SMLoadOrStore",
	"(*sync.Map).Delete":                    "SMDelete",
	"(*sync.Map).LoadAndDelete":             "SMLoadAndDelete",
	"(*sync.Map).Swap":                      "SMSwap",
	"(*sync.Map).CompareAndSwap":            "SMCompareAndSwap",
	"(*sync.Map).CompareAndDelete":          "SMCompareAndDelete",
	"(*sync.Map).Range":                     "SMRange",
	"(*sync.Map).Clear":                     "SMClear",
	"(*strings.Replacer).Replace":           "Replace",
	"(*strings.Replacer).WriteString":       "ReplacerWrite",
	"fmt.Errorf":                            "Errorf",
	"fmt.Sprintf":                           "Sprintf",
	"fmt.Fprintf":                           "Fprintf",
	"fmt.Appendf":                           "Appendf",
	"fmt.Sprint":                            "Sprint",
	"fmt.Fprint":                            "Fprint",
	"fmt.Sprintln":                          "Sprintln",
	"fmt.Fprintln":                          "Fprintln",
}
