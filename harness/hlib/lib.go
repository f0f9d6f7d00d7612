// Package hlib exercises library functions that the code under test may come to use: the engine's answers are compared
// with native runs. It decides no property.
package hlib

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"context"
	"errors"
	"fmt"
	"io"
	"maps"
	"math/big"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"text/scanner"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/hexbee-net/etxe/pkg/zzverif/v"
)

var repl = strings.NewReplacer("\r\n", "\n")
var repl2 = strings.NewReplacer("a", "b", "c", "dd")
var repl3 = strings.NewReplacer("ab", "b", "cc", "dd", "b", "x")
var re1 = regexp.MustCompile(`(a+)(b|c)?`)

type ints []int

func (h ints) Len() int           { return len(h) }
func (h ints) Less(i, j int) bool { return h[i] < h[j] }
func (h ints) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ints) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ints) Pop() any          { o := *h; n := len(o); x := o[n-1]; *h = o[:n-1]; return x }

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

type pt struct {
	X int
	Y string
}

func (p pt) String() string { return "pt" + p.Y }

func gen[K comparable, V any](m map[K]V, f func(V) string, k K) string { return f(m[k]) }

var tests = []struct {
	name string
	f    func(s string, b byte) string
}{
	{"replacer1", func(s string, b byte) string { return repl.Replace(s) }},
	{"replacer2", func(s string, b byte) string { return repl2.Replace(s) }},
	{"replacer3", func(s string, b byte) string { return repl3.Replace(s) }},
	{"replacer4", func(s string, b byte) string { return strings.NewReplacer(`"`, `\"`, "\n", `\n`).Replace(s) }},
	{"map", func(s string, b byte) string {
		return strings.Map(func(r rune) rune {
			if r == 'a' {
				return -1
			}
			return unicode.ToUpper(r)
		}, s)
	}},
	{"fields", func(s string, b byte) string { return strings.Join(strings.Fields(s), "|") }},
	{"fieldsf", func(s string, b byte) string { return strings.Join(strings.FieldsFunc(s, unicode.IsSpace), "|") }},
	{"split", func(s string, b byte) string { return strings.Join(strings.Split(s, "a"), "|") }},
	{"splitn", func(s string, b byte) string { return strings.Join(strings.SplitN(s, "\n", 2), "|") }},
	{"splitafter", func(s string, b byte) string { return strings.Join(strings.SplitAfter(s, "\n"), "|") }},
	{"trim", func(s string, b byte) string { return strings.TrimSpace(s) + "|" + strings.Trim(s, " a") + "|" + strings.TrimLeft(s, "ab") + "|" + strings.TrimRight(s, "\r\n") }},
	{"trimp", func(s string, b byte) string { return strings.TrimPrefix(s, "a") + "|" + strings.TrimSuffix(s, "\n") + strings.TrimFunc(s, unicode.IsDigit) }},
	{"cut", func(s string, b byte) string { a, c, ok := strings.Cut(s, "b"); return a + "|" + c + fmt.Sprint(ok) }},
	{"upper", func(s string, b byte) string { return strings.ToUpper(s) + strings.ToLower(s) + strings.Title(s) }},
	{"repeat", func(s string, b byte) string { return strings.Repeat(s, 3) }},
	{"count", func(s string, b byte) string { return fmt.Sprint(strings.Count(s, "a"), strings.Count(s, "aa"), strings.Count(s, "")) }},
	{"contains", func(s string, b byte) string { return fmt.Sprint(strings.Contains(s, "ab"), strings.ContainsAny(s, "xyz"), strings.ContainsRune(s, 'q')) }},
	{"index", func(s string, b byte) string { return fmt.Sprint(strings.Index(s, "ab"), strings.LastIndex(s, "a"), strings.IndexByte(s, b), strings.IndexAny(s, "\r\n"), strings.IndexRune(s, 'c'), strings.IndexFunc(s, unicode.IsUpper), strings.LastIndexByte(s, 'b'), strings.LastIndexAny(s, "ab")) }},
	{"equalfold", func(s string, b byte) string { return fmt.Sprint(strings.EqualFold(s, "aB"), strings.Compare(s, "b"), strings.HasPrefix(s, "a"), strings.HasSuffix(s, "a")) }},
	{"replaceall", func(s string, b byte) string { return strings.ReplaceAll(s, "\r\n", "\n") + strings.Replace(s, "a", "bb", 1) }},
	{"runes", func(s string, b byte) string {
		o := ""
		for i, r := range s {
			o += fmt.Sprint(i, r, ";")
		}
		return o + fmt.Sprint(len([]rune(s)), utf8.RuneCountInString(s), utf8.ValidString(s))
	}},
	{"runeconv", func(s string, b byte) string { r := []rune(s); slices.Reverse(r); return string(r) + string(rune(b)) }},
	{"builder", func(s string, b byte) string {
		var sb strings.Builder
		sb.Grow(10)
		sb.WriteString(s)
		sb.WriteByte(b)
		sb.WriteRune('é')
		fmt.Fprintf(&sb, "%d-%5s|%-5s|%q|%v|%x", sb.Len(), s, s, "q", []string{s, "x"}, 255)
		return sb.String()
	}},
	{"buffer", func(s string, b byte) string {
		var bb bytes.Buffer
		bb.WriteString(s)
		bb.WriteByte(b)
		l, err := bb.ReadString('\n')
		rest, _ := io.ReadAll(&bb)
		return fmt.Sprint(l, err != nil) + string(rest) + fmt.Sprint(bb.Len())
	}},
	{"bufio", func(s string, b byte) string {
		sc := bufio.NewScanner(strings.NewReader(s + "\nxx"))
		o := ""
		for sc.Scan() {
			o += sc.Text() + "|"
		}
		return o
	}},
	{"bufio2", func(s string, b byte) string {
		r := bufio.NewReader(strings.NewReader(s))
		o := ""
		for {
			c, n, err := r.ReadRune()
			if err != nil {
				return o + err.Error()
			}
			o += string(c) + strconv.Itoa(n)
		}
	}},
	{"bufw", func(s string, b byte) string {
		var sb strings.Builder
		w := bufio.NewWriter(&sb)
		fmt.Fprint(w, s, 1, 2, b)
		w.WriteString("x")
		w.Flush()
		return sb.String()
	}},
	{"atoi", func(s string, b byte) string {
		n, err := strconv.Atoi("1" + s)
		k, e2 := strconv.ParseInt(s, 0, 64)
		return fmt.Sprint(n, err == nil, k, e2 == nil)
	}},
	{"float", func(s string, b byte) string {
		n, err := strconv.ParseFloat("1.5", 64)
		return fmt.Sprint(n, err, strconv.FormatFloat(n*3, 'f', 2, 64))
	}},
	{"quote", func(s string, b byte) string { return strconv.Quote("a\n\"é") + fmt.Sprintf("%q", "z\t") }},
	{"unquote", func(s string, b byte) string { x, err := strconv.Unquote(`"` + s + `"`); return x + fmt.Sprint(err == nil) }},
	{"quotesym", func(s string, b byte) string { return strconv.Quote(s) }},
	{"itoa", func(s string, b byte) string { return strconv.Itoa(len(s)) + strconv.FormatInt(int64(b), 16) + strconv.FormatBool(b == 'a') }},
	{"sortslice", func(s string, b byte) string {
		x := []string{"c", s, "b", string(rune(b))}
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		return strings.Join(x, ",")
	}},
	{"sortstr", func(s string, b byte) string { x := []string{"c", s, "b"}; sort.Strings(x); return strings.Join(x, ",") }},
	{"sortstable", func(s string, b byte) string {
		x := []string{"c", s, "bb", "a"}
		sort.SliceStable(x, func(i, j int) bool { return len(x[i]) < len(x[j]) })
		return strings.Join(x, ",") + fmt.Sprint(sort.SearchStrings([]string{"a", "b", "c"}, s))
	}},
	{"slices", func(s string, b byte) string {
		x := []byte(s + "cab")
		slices.Sort(x)
		i := slices.Index(x, b)
		return string(x) + fmt.Sprint(i, slices.Contains(x, 'z'), slices.Max(x))
	}},
	{"slices2", func(s string, b byte) string {
		x := []string{s, "b", "a"}
		slices.SortFunc(x, strings.Compare)
		y := slices.Clone(x)
		y = slices.Insert(y, 1, "ins")
		y = slices.Delete(y, 0, 1)
		return strings.Join(y, ",") + fmt.Sprint(slices.Equal(x, y), slices.IndexFunc(y, func(a string) bool { return a == "b" }))
	}},
	{"maps", func(s string, b byte) string {
		m := map[string]int{s: 1, "x": 2, "y": 3}
		k := slices.Sorted(maps.Keys(m))
		m2 := maps.Clone(m)
		delete(m2, "x")
		return strings.Join(k, ",") + fmt.Sprint(len(m2), len(m))
	}},
	{"errors", func(s string, b byte) string {
		e := fmt.Errorf("x: %w", &myErr{s})
		var m *myErr
		ok := errors.As(e, &m)
		j := errors.Join(e, io.EOF)
		return e.Error() + fmt.Sprint(ok, errors.Is(j, io.EOF), errors.Unwrap(e) != nil, m.s)
	}},
	{"errjoin", func(s string, b byte) string { return errors.Join(errors.New("a"), errors.New(s)).Error() }},
	{"once", func(s string, b byte) string {
		var o sync.Once
		n := 0
		for i := 0; i < 3; i++ {
			o.Do(func() { n++ })
		}
		f := sync.OnceValue(func() int { n++; return n })
		f()
		return fmt.Sprint(n, f())
	}},
	{"mutex", func(s string, b byte) string {
		var m sync.Mutex
		var rw sync.RWMutex
		m.Lock()
		ok := m.TryLock()
		m.Unlock()
		rw.RLock()
		rw.RUnlock()
		func() { rw.Lock(); defer rw.Unlock() }()
		return fmt.Sprint(ok, rw.TryLock())
	}},
	{"atomic", func(s string, b byte) string {
		var n atomic.Int64
		var bb atomic.Bool
		var p atomic.Pointer[pt]
		var vv atomic.Value
		vv.Store(s)
		bb.Store(true)
		n.Add(5)
		p.Store(&pt{1, s})
		var u uint32
		atomic.AddUint32(&u, 2)
		return fmt.Sprint(n.Load(), bb.Load(), p.Load().Y, vv.Load(), u, bb.CompareAndSwap(true, false), bb.Swap(true))
	}},
	{"wg", func(s string, b byte) string {
		var wg sync.WaitGroup
		var mu sync.Mutex
		n := 0
		for i := 0; i < 3; i++ {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); mu.Lock(); n += i; mu.Unlock() }()
		}
		wg.Wait()
		return fmt.Sprint(n)
	}},
	{"wggo", func(s string, b byte) string {
		var wg sync.WaitGroup
		var n atomic.Int32
		for i := 0; i < 3; i++ {
			wg.Go(func() { n.Add(1) })
		}
		wg.Wait()
		return fmt.Sprint(n.Load())
	}},
	{"syncmap", func(s string, b byte) string {
		var m sync.Map
		m.Store("a", s)
		x, ok := m.Load("a")
		y, l := m.LoadOrStore("b", 2)
		m.Delete("a")
		n := 0
		m.Range(func(k, v any) bool { n++; return true })
		_, ok2 := m.LoadAndDelete("b")
		return fmt.Sprint(x, ok, y, l, n, ok2)
	}},
	{"pool", func(s string, b byte) string {
		p := sync.Pool{New: func() any { return new(strings.Builder) }}
		sb := p.Get().(*strings.Builder)
		sb.WriteString(s)
		o := sb.String()
		p.Put(sb)
		return o
	}},
	{"cond", func(s string, b byte) string {
		var m sync.Mutex
		c := sync.NewCond(&m)
		ready := false
		go func() { m.Lock(); ready = true; c.Broadcast(); m.Unlock() }()
		m.Lock()
		for !ready {
			c.Wait()
		}
		m.Unlock()
		return "ok"
	}},
	{"chan", func(s string, b byte) string {
		c := make(chan string, 2)
		done := make(chan struct{})
		go func() { defer close(done); c <- s; c <- "x"; close(c) }()
		o := ""
		for x := range c {
			o += x
		}
		<-done
		select {
		case _, ok := <-c:
			o += fmt.Sprint(ok)
		default:
			o += "d"
		}
		return o
	}},
	{"ctx", func(s string, b byte) string {
		ctx, cancel := context.WithCancel(context.Background())
		ctx = context.WithValue(ctx, "k", s)
		cancel()
		<-ctx.Done()
		return fmt.Sprint(ctx.Err(), ctx.Value("k"))
	}},
	{"heap", func(s string, b byte) string {
		h := &ints{5, int(b), 3}
		heap.Init(h)
		heap.Push(h, 4)
		o := ""
		for h.Len() > 0 {
			o += fmt.Sprint(heap.Pop(h), ",")
		}
		return o
	}},
	{"list", func(s string, b byte) string {
		l := list.New()
		l.PushBack(s)
		l.PushFront("f")
		o := ""
		for e := l.Front(); e != nil; e = e.Next() {
			o += e.Value.(string)
		}
		return o
	}},
	{"big", func(s string, b byte) string {
		x, ok := new(big.Int).SetString("123456789012345678901234567890", 10)
		f, _, err := big.ParseFloat("1.5e3", 10, 64, big.ToNearestEven)
		y := new(big.Int).Mul(x, x)
		return fmt.Sprint(ok, y.String(), f.Text('g', 10), err, x.Cmp(y), f.IsInt())
	}},
	{"bigs", func(s string, b byte) string { x := big.NewInt(42); f := big.NewFloat(1.5); return x.String() + f.String() + fmt.Sprintf("%v %s %d", x, f.Text('f', -1), x) }},
	{"regexp", func(s string, b byte) string {
		return fmt.Sprint(re1.MatchString(s), re1.FindString(s), re1.FindStringSubmatch(s), re1.FindStringIndex(s), re1.ReplaceAllString(s, "<$1>"), re1.FindAllString(s, -1))
	}},
	{"regexp2", func(s string, b byte) string {
		m, _ := regexp.MatchString(`^[a-c]+$`, s)
		return fmt.Sprint(m) + regexp.QuoteMeta(s) + strings.Join(re1.Split(s, -1), "|") + fmt.Sprint(re1.Match([]byte(s)), re1.NumSubexp(), re1.String())
	}},
	{"regexp3", func(s string, b byte) string {
		re := regexp.MustCompile(`\s+`)
		return re.ReplaceAllString(s, " ") + re.ReplaceAllLiteralString(s, "$") + re.ReplaceAllStringFunc(s, strings.ToUpper)
	}},
	{"reflect", func(s string, b byte) string {
		p := pt{int(b), s}
		r := reflect.ValueOf(p)
		return fmt.Sprint(r.NumField(), r.Field(1).String(), r.Type().Name(), reflect.DeepEqual(p, pt{int(b), s}), reflect.TypeOf(&p).Elem().Field(0).Name)
	}},
	{"reflect2", func(s string, b byte) string {
		p := &pt{}
		r := reflect.ValueOf(p).Elem()
		r.Field(1).SetString(s)
		r.FieldByName("X").SetInt(3)
		x := reflect.MakeSlice(reflect.TypeOf([]string{}), 0, 1)
		x = reflect.Append(x, reflect.ValueOf(s))
		return fmt.Sprint(p.X, p.Y, x.Len(), reflect.Zero(r.Type()).Interface(), r.Kind() == reflect.Struct)
	}},
	{"printf", func(s string, b byte) string {
		return fmt.Sprintf("%v %+v %#v %T %t %5d|%-5d|%05d %s %x %c %U %08.3f %*d %[1]v", pt{1, s}, &pt{2, "y"}, []int{1}, s, b == 'a', 42, 42, 42, errors.New("e"), "hi", 'x', 'y', 3.14159, 5, 7)
	}},
	{"println", func(s string, b byte) string { return fmt.Sprintln("a", 1, s, nil, true, []byte("x"), map[string]int{"a": 1}) }},
	{"sscanf", func(s string, b byte) string { var n int; fmt.Sscanf("12", "%d", &n); return fmt.Sprint(n) }},
	{"generic", func(s string, b byte) string { return gen(map[string]int{"a": 1, s: 2}, strconv.Itoa, s) }},
	{"unicode", func(s string, b byte) string {
		r := rune(b)
		return fmt.Sprint(unicode.IsLetter(r), unicode.IsDigit(r), unicode.IsSpace(r), unicode.IsPrint(r), unicode.IsUpper(r), unicode.IsPunct(r), unicode.IsControl(r), unicode.In(r, unicode.Latin))
	}},
	{"utf8", func(s string, b byte) string {
		r, n := utf8.DecodeRuneInString(s)
		l, k := utf8.DecodeLastRuneInString(s)
		return fmt.Sprint(r, n, l, k, utf8.RuneLen(r), utf8.AppendRune(nil, 'é'))
	}},
	{"bytesf", func(s string, b byte) string {
		x := []byte(s)
		return string(bytes.TrimSpace(x)) + string(bytes.ReplaceAll(x, []byte("\r\n"), []byte("\n"))) + fmt.Sprint(bytes.Contains(x, []byte("a")), bytes.Equal(x, []byte("ab")), bytes.Count(x, []byte("\n")), bytes.HasPrefix(x, []byte("a")), bytes.IndexByte(x, b)) + string(bytes.ToUpper(x)) + string(bytes.Join(bytes.Split(x, []byte("a")), []byte("-")))
	}},
	{"iocopy", func(s string, b byte) string {
		var sb strings.Builder
		n, err := io.Copy(&sb, io.LimitReader(strings.NewReader(s), 2))
		b2, _ := io.ReadAll(io.MultiReader(strings.NewReader(s), bytes.NewReader([]byte("z"))))
		io.WriteString(&sb, "w")
		return sb.String() + fmt.Sprint(n, err) + string(b2)
	}},
	{"tee", func(s string, b byte) string {
		var bb bytes.Buffer
		x, _ := io.ReadAll(io.TeeReader(strings.NewReader(s), &bb))
		p := make([]byte, 2)
		n, err := io.ReadFull(strings.NewReader(s), p)
		return string(x) + bb.String() + fmt.Sprint(n, err)
	}},
	{"time", func(s string, b byte) string { d := 1500 * time.Millisecond; return d.String() }},
	{"after", func(s string, b byte) string {
		t := time.Now()
		_ = time.Since(t)
		select {
		case <-time.After(time.Millisecond):
			return "t"
		}
	}},
	{"scanner", func(s string, b byte) string {
		var sc scanner.Scanner
		sc.Init(strings.NewReader("a = 1"))
		o := ""
		for t := sc.Scan(); t != scanner.EOF; t = sc.Scan() {
			o += sc.TokenText() + "|"
		}
		return o
	}},
	{"panic", func(s string, b byte) (o string) {
		defer func() {
			if r := recover(); r != nil {
				o = fmt.Sprint("rec:", r)
			}
		}()
		var x []int
		return fmt.Sprint(x[len(s)])
	}},
	{"labels", func(s string, b byte) string {
		o := ""
	outer:
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				if j == 2 {
					continue outer
				}
				if i == 2 {
					break outer
				}
				switch {
				case j == 1:
					fallthrough
				default:
					o += strconv.Itoa(i*3 + j)
				}
			}
		}
		goto end
	end:
		return o
	}},
	{"array", func(s string, b byte) string {
		a := [4]int{1, 2, 3}
		c := a
		c[int(b)%4] = 9
		x := a[1:3:3]
		x = append(x, 7)
		return fmt.Sprint(a, c, x, a == c, [2]string{s, "x"} == [2]string{"ab", "x"})
	}},
	{"copy", func(s string, b byte) string {
		p := make([]byte, 4)
		n := copy(p, s)
		n += copy(p[1:], p)
		return fmt.Sprint(n, string(p))
	}},
	{"shift", func(s string, b byte) string {
		x := uint32(b)
		y := int8(b)
		return fmt.Sprint(x<<3, x>>1, x&^3, x^5, y*2, -y, int16(y)<<4, uint8(y)+200, x%7, y/3)
	}},
	{"eqfunc", func(s string, b byte) string {
		return fmt.Sprint(slices.EqualFunc([]string{s}, []string{"ab"}, strings.EqualFold), slices.ContainsFunc([]string{s}, func(x string) bool { return x == "ab" }))
	}},
	{"cutprefix", func(s string, b byte) string { a, ok := strings.CutPrefix(s, "a"); c, ok2 := strings.CutSuffix(s, "b"); return a + c + fmt.Sprint(ok, ok2) }},
	{"reader", func(s string, b byte) string {
		r := strings.NewReader(s)
		c, err := r.ReadByte()
		r.UnreadByte()
		x, _, _ := r.ReadRune()
		n, _ := r.Seek(0, io.SeekStart)
		return fmt.Sprint(c, err, x, n, r.Len(), r.Size())
	}},
}

//verif prop=X00 secs=30 LEN=2
func Lib() {
	var b []byte
	t := tests[v.Case()]
	for i := 0; i < v.Param("LEN"); i++ {
		b = append(b, v.Byte("b", i))
	}
	v.ObsStr("out", t.f(string(b), b[0]))
}

func LibCases() int { return len(tests) }

func Names() []string {
	var o []string
	for _, t := range tests {
		o = append(o, t.name)
	}
	return o
}

//verif prop=X00 secs=30 LEN=2 mode=merge
func LibM() { Lib() }

func LibMCases() int { return len(tests) }
