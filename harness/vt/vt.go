// Package vt is the support library of the property checks: it runs rapid
// properties with per-tier case counts, counts what the generators produced,
// and hands the counts to run.py.
package vt

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// TestStats is what one test (or shard of it) covered.
type TestStats struct {
	Test        string            `json:"test"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Labels      map[string]int    `json:"labels,omitempty"`
	Samples     []string          `json:"samples,omitempty"`
	Hashes      []string          `json:"hashes"` // distinct non-trivial cases
	Known       []string          `json:"known,omitempty"`
	Notes       map[string]string `json:"notes,omitempty"`
}

var (
	mu    sync.Mutex
	stats = map[string]*TestStats{}
	seen  = map[string]map[uint64]bool{}
)

func get(test string) *TestStats {
	s := stats[test]
	if s == nil {
		s = &TestStats{Test: test, Labels: map[string]int{}}
		stats[test] = s
		seen[test] = map[uint64]bool{}
	}
	return s
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed returns VERIF_SEED.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// N picks the case count of the running tier.
func N(quick, thorough int) int {
	n := quick
	if Thorough() {
		n = thorough
	}
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && f > 0 {
		n = int(float64(n) * f)
		if n < 1 {
			n = 1
		}
	}
	return n
}

// Case records what one generated case exercised.
type Case struct{ test string }

// For returns a recorder for tests that enumerate instead of using rapid.
func For(t *testing.T, rule string) *Case {
	mu.Lock()
	get(t.Name()).Rule = rule
	mu.Unlock()
	return &Case{t.Name()}
}

// Eval counts evaluations (rapid cases are counted by Check).
func (c *Case) Eval(n int) {
	mu.Lock()
	defer mu.Unlock()
	get(c.test).Evaluations += n
}

// Label classifies the case.
func (c *Case) Label(format string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	get(c.test).Labels[fmt.Sprintf(format, a...)]++
}

// NonTrivial marks the case as non-trivial; key identifies it.
func (c *Case) NonTrivial(key ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, c.test)
	fmt.Fprintf(h, "|%v", key)
	mu.Lock()
	defer mu.Unlock()
	get(c.test)
	seen[c.test][h.Sum64()] = true
}

// Sample keeps the first few (truncated) descriptions of cases.
func (c *Case) Sample(format string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	s := get(c.test)
	if len(s.Samples) >= 3 {
		return
	}
	txt := fmt.Sprintf(format, a...)
	if len(txt) > 600 {
		txt = txt[:600] + "..."
	}
	s.Samples = append(s.Samples, txt)
}

// Known records that a listed known finding still fails.
func (c *Case) Known(id string) {
	mu.Lock()
	defer mu.Unlock()
	s := get(c.test)
	for _, k := range s.Known {
		if k == id {
			return
		}
	}
	s.Known = append(s.Known, id)
}

// IsKnown reports whether the known-findings file lists id.
func IsKnown(id string) bool {
	b, err := ioutil.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, id+" ") {
			return true
		}
	}
	return false
}

// Check runs prop on quick or thorough many generated cases. rule says how
// cases are made and what makes one non-trivial.
func Check(t *testing.T, rule string, quick, thorough int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	CheckSteps(t, rule, quick, thorough, 30, prop)
}

// CheckSteps is Check for state machines with about steps actions per case.
func CheckSteps(t *testing.T, rule string, quick, thorough, steps int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	c := For(t, rule)
	setFlag("rapid.checks", strconv.Itoa(N(quick, thorough)))
	setFlag("rapid.steps", strconv.Itoa(steps))
	rapid.Check(t, func(rt *rapid.T) {
		c.Eval(1)
		w := time.AfterFunc(caseLimit, func() { hung(t.Name()) })
		defer w.Stop()
		prop(rt, c)
	})
}

// caseLimit is far more than any case takes.
const caseLimit = 240 * time.Second

// hung ends a test whose case does not end: a violation if code of mute is
// still at it.
func hung(test string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	if bytes.Contains(buf, []byte("github.com/mutecomm/mute/")) {
		fmt.Printf("--- FAIL: %s: a case does not end within %v\n%s\n", test, caseLimit, buf)
	} else {
		fmt.Printf("HARNESS-ERROR: a case of %s does not end\n%s\n", test, buf)
	}
	os.Stdout.Sync()
	os.Exit(4)
}

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		Infra(err)
	}
}

// Infra reports a failure of the harness itself: neither pass nor violation.
func Infra(err error) {
	fmt.Printf("HARNESS-ERROR: %v\n%s\n", err, debug.Stack())
	os.Stdout.Sync()
	os.Exit(3)
}

// InfraIf calls Infra for a non-nil error.
func InfraIf(err error) {
	if err != nil {
		Infra(err)
	}
}

// Main is called by TestMain of every check.
func Main(m *testing.M) {
	rc := m.Run()
	write()
	os.Exit(rc)
}

func write() {
	path := os.Getenv("VERIF_RESULT")
	if path == "" {
		for _, s := range stats {
			fmt.Printf("# %s: %d evaluations, %d distinct non-trivial, labels %v\n", s.Test, s.Evaluations, len(seen[s.Test]), s.Labels)
			for _, x := range s.Samples {
				fmt.Printf("#   sample: %s\n", x)
			}
			fmt.Printf("#   known: %v\n", s.Known)
		}
		return
	}
	var all []*TestStats
	for name, s := range stats {
		for h := range seen[name] {
			s.Hashes = append(s.Hashes, strconv.FormatUint(h, 36))
		}
		sort.Strings(s.Hashes)
		all = append(all, s)
	}
	b, err := json.Marshal(all)
	if err == nil {
		err = ioutil.WriteFile(path, b, 0644)
	}
	if err != nil {
		fmt.Printf("HARNESS-ERROR: %v\n", err)
		os.Exit(3)
	}
}

// TempDir makes a scratch directory below the run's scratch directory.
func TempDir() string {
	dir := os.Getenv("VERIF_FAST")
	if dir == "" {
		dir = os.Getenv("VERIF_SCRATCH")
	}
	d, err := ioutil.TempDir(dir, "c")
	InfraIf(err)
	return d
}

// Try runs f and turns a panic into an error (with stack) and ok=false.
func Try(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	f()
	return ""
}

func trimStack(b []byte) []byte {
	lines := bytes.Split(b, []byte("\n"))
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return bytes.Join(lines, []byte("\n"))
}

// DetRand is a deterministic random stream (xorshift64* based), so that the
// code under test draws the same "random" bytes for the same seed.
type DetRand struct{ s uint64 }

// NewDetRand returns a stream for seed.
func NewDetRand(seed uint64) *DetRand {
	return &DetRand{seed*0x9E3779B97F4A7C15 + 0x1234567}
}

func (d *DetRand) Read(p []byte) (int, error) {
	for i := range p {
		d.s += 0x9E3779B97F4A7C15
		z := d.s
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		p[i] = byte(z ^ (z >> 31))
	}
	return len(p), nil
}

// LimitReader fails with an error after n bytes.
type FailAfter struct {
	R io.Reader
	N int
}

func (f *FailAfter) Read(p []byte) (int, error) {
	if f.N <= 0 {
		return 0, fmt.Errorf("random source failed")
	}
	if len(p) > f.N {
		p = p[:f.N]
	}
	n, err := f.R.Read(p)
	f.N -= n
	return n, err
}

// Bytes generates byte strings whose lengths are spread over 0..max with
// weight on the given interesting lengths; contents are expanded from a seed
// so that long inputs stay cheap to generate and shrink.
func Bytes(max int, interesting ...int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		var n int
		switch rapid.IntRange(0, 3).Draw(t, "lenkind") {
		case 0:
			n = rapid.IntRange(0, min(max, 40)).Draw(t, "len")
		case 1:
			n = rapid.IntRange(0, max).Draw(t, "len")
		default:
			if len(interesting) == 0 {
				n = rapid.IntRange(0, min(max, 300)).Draw(t, "len")
			} else {
				n = rapid.SampledFrom(interesting).Draw(t, "ilen") + rapid.IntRange(-2, 2).Draw(t, "delta")
			}
		}
		if n < 0 {
			n = 0
		}
		if n > max {
			n = max
		}
		return Expand(n, rapid.Uint32().Draw(t, "seed"), rapid.IntRange(0, 4).Draw(t, "kind"))
	})
}

// Expand makes n bytes from seed: random for kind 0.
func Expand(n int, seed uint32, kind int) []byte {
	b := make([]byte, n)
	NewDetRand(uint64(seed)).Read(b)
	switch kind {
	case 3: // zero bytes
		for i := range b {
			b[i] = 0
		}
	case 1: // printable
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
	case 2: // lines
		for i := range b {
			b[i] = "ab \n\r\t=-.:"[int(b[i])%10]
		}
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Mutation changes one byte string into a different one.
func Mutation(t *rapid.T, in []byte, label string) (out []byte, desc string) {
	for {
		switch k := rapid.IntRange(0, 7).Draw(t, label+"kind"); {
		case k <= 2 && len(in) > 0: // flip one bit
			i := rapid.IntRange(0, len(in)-1).Draw(t, label+"pos")
			bit := rapid.IntRange(0, 7).Draw(t, label+"bit")
			out = append([]byte{}, in...)
			out[i] ^= 1 << uint(bit)
			return out, fmt.Sprintf("flip bit %d of byte %d/%d", bit, i, len(in))
		case k == 3 && len(in) > 0: // change one byte
			i := rapid.IntRange(0, len(in)-1).Draw(t, label+"pos")
			v := byte(rapid.IntRange(1, 255).Draw(t, label+"xor"))
			out = append([]byte{}, in...)
			out[i] ^= v
			return out, fmt.Sprintf("xor byte %d/%d with %#x", i, len(in), v)
		case k == 4 && len(in) > 0: // truncate
			n := rapid.IntRange(0, len(in)-1).Draw(t, label+"keep")
			return append([]byte{}, in[:n]...), fmt.Sprintf("truncate %d to %d", len(in), n)
		case k == 5: // extend
			e := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, label+"ext")
			return append(append([]byte{}, in...), e...), fmt.Sprintf("extend %d by %d", len(in), len(e))
		case k == 6 && len(in) > 0: // delete a byte
			i := rapid.IntRange(0, len(in)-1).Draw(t, label+"pos")
			out = append(append([]byte{}, in[:i]...), in[i+1:]...)
			return out, fmt.Sprintf("delete byte %d/%d", i, len(in))
		case k == 7 && len(in) > 1: // swap two different bytes
			i := rapid.IntRange(0, len(in)-2).Draw(t, label+"pos")
			for j := i + 1; j < len(in); j++ {
				if in[i] != in[j] {
					out = append([]byte{}, in...)
					out[i], out[j] = out[j], out[i]
					return out, fmt.Sprintf("swap bytes %d and %d", i, j)
				}
			}
		}
		if len(in) == 0 {
			return []byte{0}, "one zero byte for empty"
		}
	}
}

// FaultyRand delivers N good random bytes and then errors.
type FaultyRand struct {
	R      io.Reader
	N      int
	Failed bool // an error was returned
}

func (f *FaultyRand) Read(p []byte) (int, error) {
	if f.N < len(p) {
		f.Failed = true
		n, _ := f.R.Read(p[:f.N])
		f.N = 0
		return n, fmt.Errorf("random source failed")
	}
	f.N -= len(p)
	return f.R.Read(p)
}

// Uniform draws evenly from 0..n-1 (rapid's own ranges prefer small values).
func Uniform(t *rapid.T, n int, label string) int {
	if n <= 1 {
		return 0
	}
	return uniform.Draw(t, label) % n
}

var uniform = rapid.Custom(func(t *rapid.T) int {
	v := 0
	for i := 0; i < 16; i++ {
		v <<= 1
		if bit.Draw(t, "") {
			v |= 1
		}
	}
	return v
})

var bit = rapid.Bool()
