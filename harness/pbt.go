package main

// A small property-based testing engine. Every random decision of a case is a draw from a
// recorded choice sequence, so that a failing case can be shrunk (by editing the sequence and
// generating again) and a run is a pure function of the code and the seed.

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"strings"
	"time"
	"unicode/utf8"
)

// S is a string of arbitrary bytes that survives JSON.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), "b64:") {
		return json.Marshal(string(s))
	}
	return json.Marshal("b64:" + base64.StdEncoding.EncodeToString([]byte(s)))
}

func (s *S) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if strings.HasPrefix(v, "b64:") {
		d, err := base64.StdEncoding.DecodeString(v[4:])
		if err != nil {
			return err
		}
		v = string(d)
	}
	*s = S(v)
	return nil
}

// T is the source of choices of one case.
type T struct {
	state  uint64
	rec    []uint64
	replay []uint64
	fixed  bool // replaying
}

func newT(seed uint64) *T         { return &T{state: seed} }
func replayT(choices []uint64) *T { return &T{replay: choices, fixed: true} }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// U draws uniformly from [0,n).
func (t *T) U(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.fixed {
		if i := len(t.rec); i < len(t.replay) {
			v = t.replay[i]
			if v >= n {
				v %= n
			}
		}
	} else {
		t.state += 0x9e3779b97f4a7c15
		v = mix(t.state) % n
	}
	t.rec = append(t.rec, v)
	return v
}

func (t *T) N(n int) int              { return int(t.U(uint64(n))) }
func (t *T) Range(lo, hi int) int     { return lo + t.N(hi-lo+1) }
func (t *T) Bool() bool               { return t.U(2) == 1 }
func (t *T) Chance(num, den int) bool { return t.N(den) >= den-num }
func (t *T) U64() uint64              { return t.U(1<<32)<<32 | t.U(1<<32) }

// W draws an index with the given weights; index 0 is the simplest.
func (t *T) W(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	v := t.N(sum)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func pick[X any](t *T, xs ...X) X { return xs[t.N(len(xs))] }

// Few draws a count from lo..hi, now and then a much larger one.
func (t *T) Few(lo, hi, big int) int {
	n := t.Range(lo, hi)
	if t.Chance(1, 40) {
		switch t.N(3) {
		case 0:
			n = t.Range(hi, hi+(big-hi)/4)
		case 1:
			for n = 1; n <= hi || n*2 <= big && t.Bool(); {
				n *= 2
			}
			n = min(n+t.N(2), big)
		default:
			n = t.Range(hi, big)
		}
	}
	return n
}

// Size draws a length: mostly small, sometimes up to max.
func (t *T) Size(max int) int {
	switch t.W(5, 3, 1) {
	case 0:
		return t.N(min(max, 3) + 1)
	case 1:
		return t.N(min(max, 8) + 1)
	}
	return t.N(max + 1)
}

// Obs collects what one case exercised.
type Obs struct {
	labels map[string]int
	nt     bool
}

func (o *Obs) Label(s string) { o.labels[s]++ }
func (o *Obs) LabelIf(b bool, s string) {
	if b {
		o.labels[s]++
	}
}
func (o *Obs) NT() { o.nt = true }

// Family is one generator with its oracle.
type Family struct {
	Name     string
	Quick    int // cases in the quick tier
	Factor   int // thorough = Quick*Factor (0: default)
	Rule     string
	Gen      func(*T) any
	Decode   func([]byte) (any, error)
	Run      func(any, *Obs) error
	NoShrink bool
	Repeat   int  // schedule-dependent: a case counts as reproduced if it fails once in that many runs
	Race     bool // run by the race-detector build
}

func fam[C any](name string, quick int, rule string, gen func(*T) C, run func(C, *Obs) error) *Family {
	return &Family{
		Name: name, Quick: quick, Rule: rule,
		Gen: func(t *T) any { return gen(t) },
		Decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		Run: func(c any, o *Obs) error { return run(c.(C), o) },
	}
}

// huge marks a family of few, expensive cases.
func huge(f *Family) *Family {
	f.NoShrink, f.Factor = true, 4
	return f
}

// Property is one entry of properties.jsonl with the families deciding it.
type Property struct {
	ID       string
	Families []*Family
	Assume   []string
	Known    []KnownFinding
	Race     bool // also run the race-detector stage
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func (p *Property) family(name string) *Family {
	for _, f := range p.Families {
		if f.Name == name {
			return f
		}
	}
	return nil
}

// runCase runs a case; a panic that escapes is a failure.
func (f *Family) runCase(c any, o *Obs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return f.Run(c, o)
}

// harnessError is an error of the check itself, never a verdict about the code.
type harnessError struct{ msg string }

func (h harnessError) Error() string { return h.msg }

func bug(format string, a ...any) { panic(harnessError{fmt.Sprintf(format, a...)}) }

func caseSeed(seed uint64, prop, family string, index int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, family, index)
	return mix(h.Sum64())
}

func newObs() *Obs { return &Obs{labels: map[string]int{}} }

func hashCase(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func hashes2b(hs map[uint64]struct{}) []byte {
	b := make([]byte, 0, 8*len(hs))
	for h := range hs {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	return b
}

// shrink minimises the choice sequence of a failing case.
func (f *Family) shrink(choices []uint64, firstErr error, budget int, maxTime time.Duration) (any, error, int) {
	best := append([]uint64(nil), choices...)
	var bestCase any
	bestErr := firstErr
	{
		t := replayT(best)
		bestCase = f.Gen(t)
		best = append([]uint64(nil), t.rec...)
	}
	start := time.Now()
	tries := 0
	seen := map[uint64]bool{}
	attempt := func(cand []uint64) bool {
		if tries >= budget || time.Since(start) > maxTime {
			return false
		}
		t := replayT(cand)
		c := f.Gen(t)
		if !less(t.rec, best) {
			return false
		}
		hb := make([]byte, 0, 8*len(t.rec))
		for _, v := range t.rec {
			hb = binary.LittleEndian.AppendUint64(hb, v)
		}
		h := hashCase(hb)
		if seen[h] {
			return false
		}
		seen[h] = true
		tries++
		if err := f.runCase(c, newObs()); err != nil {
			best = append([]uint64(nil), t.rec...)
			bestCase, bestErr = c, err
			return true
		}
		return false
	}
	for progress := true; progress && tries < budget && time.Since(start) < maxTime; {
		progress = false
		for _, size := range []int{64, 32, 16, 8, 4, 3, 2, 1} {
			for i := len(best) - size; i >= 0; i-- {
				if i+size > len(best) {
					continue
				}
				cand := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if attempt(cand) {
					progress = true
					continue
				}
				// shorter list: lower a preceding length too
				for back := 1; back <= 3 && i-back >= 0; back++ {
					if best[i-back] == 0 {
						continue
					}
					cand = append([]uint64(nil), best...)
					cand[i-back]--
					cand = append(cand[:i], cand[i+size:]...)
					if attempt(cand) {
						progress = true
						break
					}
				}
			}
		}
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			for _, v := range []uint64{0, best[i] / 2, best[i] - 1} {
				if i >= len(best) || v >= best[i] {
					continue
				}
				cand := append([]uint64(nil), best...)
				cand[i] = v
				if attempt(cand) {
					progress = true
				}
			}
		}
	}
	return bestCase, bestErr, tries
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		bug("marshal case: %v", err)
	}
	return b
}
