// Package pbt is a small property-based testing engine. A case is a sequence of
// integer choices (0 is always the simplest), so that every failure can be
// shrunk and replayed without any knowledge of what was generated.
package pbt

import (
	"fmt"
	"math/bits"
	"runtime"
	"strings"
)

// Failure is a broken property.
type Failure struct {
	Kind string // stable class of the failure, kept while shrinking
	Msg  string
}

type discard struct{}

// T is one running case.
type T struct {
	prefix []uint64
	replay bool
	rec    []uint64
	st     uint64
	Size   int // 0..100, grows with the index of the case
	Idx    int
	Tier   string
	log    *strings.Builder
	nontr  bool
	labels []string
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

const maxChoices = 1 << 20

// Draw returns a number in [0,n).
func (t *T) Draw(n uint64) uint64 {
	if len(t.rec) >= maxChoices {
		panic(discard{})
	}
	var v uint64
	switch {
	case n <= 1:
		v = 0
	case len(t.rec) < len(t.prefix):
		v = t.prefix[len(t.rec)]
		if v >= n {
			v = n - 1
		}
	case t.replay:
		v = 0
	default:
		t.st += 0x9e3779b97f4a7c15
		hi, _ := bits.Mul64(mix(t.st), n)
		v = hi
	}
	t.rec = append(t.rec, v)
	return v
}

// Int in [lo,hi], lo being the simplest.
func (t *T) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + int(t.Draw(uint64(hi-lo)+1))
}

// Bool is false at its simplest.
func (t *T) Bool() bool { return t.Draw(2) == 1 }

// Chance is true with probability num/den; false at its simplest.
func (t *T) Chance(num, den int) bool { return t.Draw(uint64(den)) >= uint64(den-num) }

// Pick one of the values, the first being the simplest.
func Pick[V any](t *T, v ...V) V { return v[t.Draw(uint64(len(v)))] }

// Weighted picks an index with the given weights, the first being the simplest.
func (t *T) Weighted(w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	v := int(t.Draw(uint64(s)))
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

// More is asked before each element of a list; max bounds and avg steers the length.
func (t *T) More(have, max, avg int) bool {
	if have >= max {
		return false
	}
	// p(continue) = avg/(avg+1)
	return t.Draw(uint64(avg)+1) != 0
}

// Len is a list length of up to max, scaled by the size of the case.
func (t *T) Len(max int) int {
	m := max * (t.Size + 10) / 100
	if m < 1 {
		m = 1
	}
	if m > max {
		m = max
	}
	return t.Int(0, m)
}

// Logf records what is generated; only kept when a case is shown.
func (t *T) Logf(f string, a ...any) {
	if t.log != nil && t.log.Len() < 1<<16 {
		fmt.Fprintf(t.log, f, a...)
		t.log.WriteByte('\n')
	}
}

// Logging tells whether Logf has any effect.
func (t *T) Logging() bool { return t.log != nil }

// NonTrivial marks the case as one which exercises the property.
func (t *T) NonTrivial() { t.nontr = true }

// Label counts what kinds of cases were made.
func (t *T) Label(l string) { t.labels = append(t.labels, l) }

// Discard gives the case up.
func (t *T) Discard() { panic(discard{}) }

// Failf reports a broken property. Kind must be a constant-like class.
func (t *T) Failf(kind, f string, a ...any) {
	panic(&Failure{Kind: kind, Msg: fmt.Sprintf(f, a...)})
}

// Check fails if err is not nil.
func (t *T) Check(kind string, err error) {
	if err != nil {
		t.Failf(kind, "%v", err)
	}
}

// result of a run
type result struct {
	fail    *Failure
	discard bool
	rec     []uint64
	nontr   bool
	labels  []string
	log     string
}

// LibPrefix are the function name prefixes of the code under test.
var LibPrefix = []string{"github.com/fumiama/go-docx", "github.com/fumiama/imgsz"}

// PanicFrame finds the topmost function of the code under test in the stack.
func PanicFrame(skip int) string {
	pc := make([]uintptr, 128)
	n := runtime.Callers(skip, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		for _, p := range LibPrefix {
			if strings.HasPrefix(f.Function, p) {
				return f.Function
			}
		}
		if !more {
			return "harness"
		}
	}
}

func runCase(fn func(*T), t *T) (res result) {
	defer func() {
		res.rec, res.nontr, res.labels = t.rec, t.nontr, t.labels
		if t.log != nil {
			res.log = t.log.String()
		}
		switch r := recover().(type) {
		case nil:
		case discard:
			res.discard = true
		case *Failure:
			res.fail = r
		default:
			fr := PanicFrame(3)
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			res.fail = &Failure{Kind: "panic:" + fr, Msg: fmt.Sprintf("panic: %v\n%s", r, buf)}
		}
	}()
	fn(t)
	return
}

// Span runs a part of the case and gives the choices it made, so that it can be run again
// elsewhere.
func (t *T) Span(fn func(*T)) []uint64 {
	n := len(t.rec)
	fn(t)
	return append([]uint64(nil), t.rec[n:]...)
}

// Again runs a part of a case from its choices; what goes wrong is returned.
func Again(choices []uint64, like *T, fn func(*T)) *Failure {
	c := &T{prefix: choices, replay: true, Size: like.Size, Idx: like.Idx, Tier: like.Tier}
	r := runCase(fn, c)
	if r.discard {
		return &Failure{Kind: "discard", Msg: "the case was given up"}
	}
	return r.fail
}
