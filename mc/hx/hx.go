// Package hx is the exploration harness: it defines what a check is, and runs
// the (finite, indexed) case spaces of a check exhaustively in worker
// processes.
package hx

import (
	"fmt"
	"hash/fnv"
	"math"
	"sort"
)

// Check decides one property.
type Check struct {
	ID          string
	Level       string // evidence level
	Rule        string // how the cases are made, what makes one non-trivial
	Assumptions []string
	Spaces      func(thorough bool) []Space
}

// Space is a finite set of cases, numbered 0..N-1.
type Space struct {
	Name string
	N    int64
	// Run executes case i; it reports through e. It must be deterministic.
	Run func(e *Env, i int64)
	// Batch is the number of consecutive cases a worker claims at once.
	Batch int64
	// Bound is a human readable description of the bound of the space.
	Bound string
}

var registry []*Check

// Register adds a check.
func Register(c *Check) { registry = append(registry, c) }

// Find returns the check with the given id.
func Find(id string) *Check {
	for _, c := range registry {
		if c.ID == id {
			return c
		}
	}
	return nil
}

// IDs returns all registered ids, sorted.
func IDs() []string {
	var ids []string
	for _, c := range registry {
		ids = append(ids, c.ID)
	}
	sort.Strings(ids)
	return ids
}

// failSignal is the panic value used to abandon a failing case.
func (failSignal) HxSignal() {}
func (skipSignal) HxSignal() {}

type failSignal struct {
	Key, Msg string
}

// skipSignal abandons a case without judging it.
type skipSignal struct{ reason string }

// Env is handed to each case.
type Env struct {
	Thorough bool
	Seed     int64

	evals, steps, traces int64
	states               map[uint64]struct{}
	statesCapped         bool
	outcomes             map[string]int64
	samples              []string
	sampleEvery          int64
	skips                map[string]int64
	w                    *worker
	trail                []string
	verbose              bool
	soft                 func(key, msg string) bool
}

// Soft is Failf for a specific failing input: if the known findings file
// lists key the case goes on, so that a finding hides nothing else.
func (e *Env) Soft(key, format string, args ...interface{}) {
	if e.soft != nil && e.soft(key, fmt.Sprintf(format, args...)) {
		return
	}
	e.Failf(key, format, args...)
}

const maxStates = 3_000_000
const maxTrail = 4000

// Failf reports a violation and abandons the case. key identifies the
// specific failing input or call site, for the known findings file.
func (e *Env) Failf(key, format string, args ...interface{}) {
	panic(failSignal{key, fmt.Sprintf(format, args...)})
}

// Skip abandons the case without judging it (counted by reason).
func (e *Env) Skip(reason string) { panic(skipSignal{reason}) }

// Assert fails if !ok.
func (e *Env) Assert(ok bool, key, format string, args ...interface{}) {
	if !ok {
		e.Failf(key, format, args...)
	}
}

// Log appends to the trail of the case, which ends up in the replay file.
func (e *Env) Log(format string, args ...interface{}) {
	if len(e.trail) < maxTrail && e.verbose {
		e.trail = append(e.trail, fmt.Sprintf(format, args...))
	}
}

// Verbose is true while a case is being replayed.
func (e *Env) Verbose() bool { return e.verbose }

// State records a canonical state or distinct outcome.
func (e *Env) State(h uint64) {
	if len(e.states) >= maxStates {
		e.statesCapped = true
		return
	}
	e.states[h] = struct{}{}
}

// Seen records h and tells whether this worker had it already.
func (e *Env) Seen(h uint64) bool {
	_, ok := e.states[h]
	if !ok {
		e.State(h)
	}
	return ok
}

// Step counts calls of the code under test.
func (e *Env) Step(n int) {
	e.steps += int64(n)
	if e.w != nil {
		e.w.beat()
	}
}

// Eval counts evaluated executions inside one case (a case counts one itself).
func (e *Env) Eval(n int) { e.evals += int64(n) }

// Trace counts executions that were compared completely with the oracle.
func (e *Env) Trace() { e.traces++ }

// Outcome counts an outcome category (to show the exploration is not vacuous).
func (e *Env) Outcome(format string, args ...interface{}) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	if _, ok := e.outcomes[s]; !ok && len(e.outcomes) >= 200 {
		s = "(other)"
	}
	e.outcomes[s]++
}

// WantSample tells whether a sample should be formatted now.
func (e *Env) WantSample() bool { return len(e.samples) < 3 && e.evals%e.sampleEvery == 1 }

// Sample records an actual case.
func (e *Env) Sample(format string, args ...interface{}) {
	if len(e.samples) < 3 {
		e.samples = append(e.samples, fmt.Sprintf(format, args...))
	}
}

// Note describes what is being done now, for crash attribution.
func (e *Env) Note(format string, args ...interface{}) {
	if e.w != nil {
		e.w.note(fmt.Sprintf(format, args...))
	}
}

// ---- hashing helpers

// H hashes its arguments (printed with %v).
func H(args ...interface{}) uint64 {
	h := fnv.New64a()
	for _, a := range args {
		fmt.Fprintf(h, "%v|", a)
	}
	return h.Sum64()
}

// HB hashes bytes.
func HB(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Hash is an incremental FNV-1a hash.
type Hash uint64

// NewHash returns a new hash.
func NewHash() Hash { return 14695981039346656037 }

// U adds v.
func (h *Hash) U(v uint64) {
	x := uint64(*h)
	for i := 0; i < 8; i++ {
		x ^= v & 0xff
		x *= 1099511628211
		v >>= 8
	}
	*h = Hash(x)
}

// I adds v.
func (h *Hash) I(v int) { h.U(uint64(v)) }

// F adds v.
func (h *Hash) F(v float32) { h.U(uint64(math.Float32bits(v))) }

// S adds s.
func (h *Hash) S(s string) {
	x := uint64(*h)
	for i := 0; i < len(s); i++ {
		x ^= uint64(s[i])
		x *= 1099511628211
	}
	*h = Hash(x)
	h.U(uint64(len(s)))
}

// ---- mixed radix decoding

// Dec decodes a case index, least significant digit first.
type Dec struct{ v int64 }

// NewDec starts decoding i.
func NewDec(i int64) *Dec { return &Dec{i} }

// Next takes a digit in base n.
func (d *Dec) Next(n int) int {
	r := d.v % int64(n)
	d.v /= int64(n)
	return int(r)
}

// Prod multiplies its arguments.
func Prod(ns ...int) int64 {
	p := int64(1)
	for _, n := range ns {
		p *= int64(n)
	}
	return p
}

// Pow is b**e.
func Pow(b, e int) int64 {
	p := int64(1)
	for i := 0; i < e; i++ {
		p *= int64(b)
	}
	return p
}
