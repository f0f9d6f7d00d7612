// Package v is the interface between a verification harness and whatever runs it: under the symbolic engine every
// input is a symbolic variable; in a native replay (this file) the inputs come from a recorded counterexample.
package v

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type AssumeFailed struct{}
type AssertFailed struct{ Label string }

var (
	mu      sync.Mutex
	In      = map[string]uint64{}
	Params  = map[string]int{}
	CaseNo  int
	Prop    string // the checked property; assertions of others are ignored
	Trace   []string
	Base    int
	Reached = map[string]bool{}
)

func Reset() {
	Trace = nil
	Base = runtime.NumGoroutine()
}

func key(name string, idx []int) string {
	for _, i := range idx {
		name += "[" + strconv.Itoa(i) + "]"
	}
	return name
}

func Bool(name string, idx ...int) bool { return In[key(name, idx)] != 0 }
func Byte(name string, idx ...int) byte { return byte(In[key(name, idx)]) }
func Int(name string, lo, hi int, idx ...int) int {
	if x, ok := In[key(name, idx)]; ok {
		return int(x)
	}
	return lo
}
func Choose(name string, n int, idx ...int) int { return int(In[key(name, idx)]) }
func Assume(c bool) {
	if !c {
		panic(AssumeFailed{})
	}
}
func Assert(c bool, label string) {
	if !c && (Prop == "" || strings.HasPrefix(label, Prop+":")) {
		panic(AssertFailed{label})
	}
}

// Is tells whether prop is the property being checked.
func Is(prop string) bool { return Prop == "" || Prop == prop }

func Reach(label string)            { Reached[label] = true }
func ObsStr(label string, s string) { Trace = append(Trace, label+"="+strconv.Quote(s)) }
func ObsInt(label string, n int)    { Trace = append(Trace, label+"="+strconv.Itoa(n)) }
func ObsBool(label string, b bool)  { Trace = append(Trace, fmt.Sprintf("%s=%v", label, b)) }
func Case() int                     { return CaseNo }
func Param(name string) int         { return Params[name] }

// Panics says that from here on a panic breaks the checked property, whichever it is.
func Panics() {}

// MapDir selects one of a few fixed iteration orders of maps (merging mode).
func MapDir(n int)                  {}
func MapOrder(arbitrary bool)       {}

// Sched restricts the interleavings of goroutines to one: 1 the oldest that can goes on, 2 the youngest; 0 lifts it.
func Sched(n int) {}

// Fence keeps executions with different fence numbers apart (the engine does not merge them); 0 lifts it.
func Fence(n int) {}

// Branch-free boolean operators.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }
func Eq(a, b bool) bool  { return a == b }
func Num(a bool) int {
	if a {
		return 1
	}
	return 0
}
func Symbolic() bool { return false }
func Conc(x int) int { return x }

// Quiesce waits until the other goroutines started since Reset are blocked or finished.
func Quiesce() {
	last, same := -1, 0
	for i := 0; i < 400 && same < 30; i++ {
		runtime.Gosched()
		time.Sleep(100 * time.Microsecond)
		n := runtime.NumGoroutine()
		if n <= Base {
			return
		}
		if n == last {
			same++
		} else {
			last, same = n, 0
		}
	}
}

// Live is the number of goroutines started since Reset that have not finished.
func Live() int {
	n := runtime.NumGoroutine() - Base
	if n < 0 {
		return 0
	}
	return n
}
