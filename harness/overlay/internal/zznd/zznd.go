// Package zznd is the vocabulary of the verification harnesses: symbolic
// inputs, assumptions and assertions. The engine gives these functions their
// symbolic meaning; the bodies below are used when a counterexample or a
// sampled path is replayed against the compiled real code.
package zznd

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"
)

type replayVal struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	I    int64  `json:"i"`
	S    string `json:"s"`
}

type result struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Detail string   `json:"detail"`
	Notes  []string `json:"notes"`
	Reach  []string `json:"reach"`
}

type stopErr struct{ status, label string }

var (
	inputs   []replayVal
	pos      int
	notes    []string
	reached  = map[string]bool{}
	thorough bool
)

// RunReplay runs the recorded harness with the recorded inputs.
func RunReplay(hs map[string]func()) {
	data, err := os.ReadFile(os.Getenv("GOSYM_REPLAY"))
	if err != nil {
		return
	}
	var r struct {
		Harness  string
		Inputs   []replayVal
		Thorough bool
	}
	if err := json.Unmarshal(data, &r); err != nil {
		return
	}
	inputs = r.Inputs
	thorough = r.Thorough
	res := result{Status: "ok"}
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			if s, ok := x.(stopErr); ok {
				res.Status, res.Label = s.status, s.label
				return
			}
			res.Status = "panic"
			res.Label = "panic"
			res.Detail = fmt.Sprint(x)
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			res.Detail += "\n" + st
		}()
		f := hs[r.Harness]
		if f == nil {
			panic("no such harness " + r.Harness)
		}
		f()
	}()
	res.Notes = notes
	for k := range reached {
		res.Reach = append(res.Reach, k)
	}
	js, _ := json.Marshal(res)
	os.WriteFile(os.Getenv("GOSYM_OUT"), js, 0644)
}

func next(kind, name string) replayVal {
	if pos >= len(inputs) {
		panic(stopErr{"infeasible", "inputs exhausted at " + name})
	}
	v := inputs[pos]
	pos++
	if v.Kind != kind || v.Name != name {
		panic(stopErr{"infeasible", "input order differs: " + name + " wanted, " + v.Name + " recorded"})
	}
	return v
}

var printed *os.File

// CapturePrint keeps what the program prints from here on.
func CapturePrint() {
	f, err := os.CreateTemp("", "zzprint")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	printed, os.Stdout, os.Stderr = f, f, f
}

// Printed is what was printed since.
func Printed() string {
	if printed == nil {
		return ""
	}
	st, err := printed.Stat()
	if err != nil {
		panic(err)
	}
	b := make([]byte, st.Size())
	if len(b) > 0 {
		if _, err := printed.ReadAt(b, 0); err != nil {
			panic(err)
		}
	}
	return string(b)
}

// Symbolic tells whether the engine is executing the harness.
func Symbolic() bool { return false }

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return thorough }

// Bool is a symbolic boolean.
func Bool(name string) bool { return next("bool", name).I != 0 }

// Byte is a symbolic byte.
func Byte(name string) byte { return byte(next("int", name).I) }

// Int32 is a symbolic 32-bit integer.
func Int32(name string) int32 { return int32(next("int", name).I) }

// Int64 is a symbolic 64-bit integer.
func Int64(name string) int64 { return next("int", name).I }

// Uint32 is a symbolic unsigned integer.
func Uint32(name string) uint32 { return uint32(next("int", name).I) }

// Int is a symbolic int.
func Int(name string) int { return int(next("int", name).I) }

// IntRange is a symbolic int in [lo,hi].
func IntRange(name string, lo, hi int) int { return int(next("int", name).I) }

// Pick explores every value in [0,n).
func Pick(name string, n int) int { return int(next("pick", name).I) }

// Str is a string of symbolic bytes drawn from alphabet ("a-z" ranges, empty
// for any byte), of every length in [min,max].
func Str(name string, min, max int, alphabet string) string {
	b, _ := hex.DecodeString(next("string", name).S)
	return string(b)
}

// Choose is a symbolic selection.
func Choose(name string, opts ...string) string {
	b, _ := hex.DecodeString(next("string", name).S)
	return string(b)
}

// Assume restricts the inputs considered.
func Assume(ok bool) {
	if !ok {
		panic(stopErr{"infeasible", "assumption"})
	}
}

// Assert states the property.
func Assert(ok bool, label string) {
	if !ok {
		panic(stopErr{"violated", label})
	}
}

// Reach marks a point that must be reachable for the check to mean anything.
func Reach(label string) { reached[label] = true }

// Note records an observable for comparison with the native run.
func Note(label, v string) { notes = append(notes, label+"="+hex.EncodeToString([]byte(v))) }

// NoteInt records an observable.
func NoteInt(label string, v int) { notes = append(notes, label+"="+fmt.Sprint(v)) }

// NoteBool records an observable.
func NoteBool(label string, v bool) { notes = append(notes, label+"="+fmt.Sprint(v)) }

// MapOrders turns exploration of map iteration orders on or off.
func MapOrders(on bool) {}

// Stop ends the path.
func Stop() { panic(stopErr{"stop", ""}) }

// And does not fork.
func And(a, b bool) bool { return a && b }

// Or does not fork.
func Or(a, b bool) bool { return a || b }

// Implies does not fork.
func Implies(a, b bool) bool { return !a || b }

// IsConcrete tells whether s has no symbolic byte.
func IsConcrete(s string) bool { return true }

// Fix explores every value of s separately.
func Fix(s string) string { return s }

// FixInt explores every value separately.
func FixInt(i int) int { return i }

// Interpose runs f as a second client at this point of the first one's
// operation. The interleaving is impossible when f would have to wait for a
// lock the first one holds.
func Interpose(f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case x := <-done:
		if x != nil {
			panic(x)
		}
	case <-time.After(2 * time.Second):
		panic(stopErr{"infeasible", "interposed operation blocks"})
	}
}

// GoSync runs goroutines started by the code under test after their starter.
func GoSync() {}

// Settle lets all goroutines run as far as they get, or until done.
func Settle(done func() bool) {
	for i := 0; i < 600 && !done(); i++ {
		time.Sleep(5 * time.Millisecond)
	}
}

// Race runs f and g concurrently; conflicting unordered accesses to memory
// reachable from roots are a violation.
func Race(roots []interface{}, f, g func(), label string) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	run := func(h func()) {
		defer wg.Done()
		<-start
		h()
	}
	wg.Add(2)
	go run(f)
	go run(g)
	close(start)
	wg.Wait()
}
