// Package pbt is a small property-based-testing engine in the style of
// Hypothesis: every random decision of a case is drawn from one recorded
// sequence of bounded integers (the "choice sequence").  A case is therefore a
// pure function of that sequence, which makes it replayable, and shrinking
// works on the sequence, so every generator shrinks for free.
package pbt

import (
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
)

type splitmix struct{ s uint64 }

func (r *splitmix) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

const maxChoices = 60000

// T is handed to the property; it is the only source of randomness.
type T struct {
	rng     *splitmix
	replay  []uint64
	pos     int
	choices []uint64
	spans   []span
	// Size grows with the case index, so that small cases come first.
	Size int
	// Index is the case's number within the run.
	Index int

	labels     map[string]int
	nontrivial []string
	sample     string
	notes      []note
	excluded   map[string]int
}

// span is a group of choices that belong together; the shrinker drops,
// zeroes and hoists whole spans.
type span struct {
	label string
	lo    int
	hi    int
}

// Span runs f as one group of choices.
func (t *T) Span(label string, f func()) {
	i := len(t.spans)
	t.spans = append(t.spans, span{label, len(t.choices), -1})
	f()
	t.spans[i].hi = len(t.choices)
}

// Each calls f between lo and hi times, biased to few. The decision to go on
// and the element form one span.
func (t *T) Each(lo, hi int, f func(i int)) {
	for i, more := 0, true; i < hi && more; i++ {
		t.Span("each", func() {
			if i >= lo {
				more = t.Chance(2, 3)
			}
			if more {
				f(i)
			}
		})
	}
}

type note struct{ K, V string }

type failure struct{ msg string }
type discard struct{}

// Draw returns a number in [0,n). 0 is the simplest choice.
func (t *T) Draw(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.rng == nil {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
			t.pos++
			if v >= n {
				v %= n
			}
		}
	} else {
		if len(t.choices) < maxChoices {
			v = t.rng.next() % n
		}
	}
	t.choices = append(t.choices, v)
	return v
}
func (t *T) Intn(n int) int { return int(t.Draw(uint64(n))) }

// Range returns a number in [lo,hi], lo being the simplest.
func (t *T) Range(lo, hi int) int { return lo + t.Intn(hi-lo+1) }
func (t *T) Bool() bool           { return t.Draw(2) == 1 }

// Chance is true with probability num/den; false is the simplest outcome.
func (t *T) Chance(num, den int) bool { return int(t.Draw(uint64(den))) >= den-num }

func Pick[V any](t *T, vs ...V) V { return vs[t.Intn(len(vs))] }

// Weighted picks an index with the given weights; index 0 is the simplest.
func (t *T) Weighted(ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	x := t.Intn(sum)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

// Count draws a length in [lo,hi] biased to short ones and bounded by Size.
func (t *T) Count(lo, hi int) int {
	n := lo
	for n < hi && t.Chance(2, 3) {
		n++
	}
	return n
}

func (t *T) Label(s string) {
	if t.labels == nil {
		t.labels = map[string]int{}
	}
	t.labels[s]++
}

// NonTrivial marks the case as non-trivial; key identifies it for the distinct count.
func (t *T) NonTrivial(key string) { t.nontrivial = append(t.nontrivial, key) }

func (t *T) Sample(s string) { t.sample = s }

// Note attaches a readable part of the input to the failure report.
func (t *T) Note(k string, v any) {
	s, ok := v.(string)
	if !ok {
		s = fmt.Sprintf("%+v", v)
	}
	t.notes = append(t.notes, note{k, s})
}

// Exclude drops a case that falls under a recorded known finding.
func (t *T) Exclude(name string) {
	if t.excluded == nil {
		t.excluded = map[string]int{}
	}
	t.excluded[name]++
	panic(discard{})
}
func (t *T) Discard() { panic(discard{}) }

func (t *T) Fatalf(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

type outcome struct {
	failed    bool
	discarded bool
	msg       string
}

func runCase(t *T, f func(*T)) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				o = outcome{failed: true, msg: v.msg}
			case discard, interface{ DecidesNothing() }:
				o = outcome{discarded: true}
			default:
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1800 {
					st = st[:1800]
				}
				o = outcome{failed: true, msg: fmt.Sprintf("panic: %v\n%s", v, st)}
			}
		}
	}()
	f(t)
	return
}

func caseSeed(seed int64, prop, tier string, idx int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, tier, idx)
	return h.Sum64()
}

func newT(seed int64, prop, tier string, idx, total int) *T {
	return &T{rng: &splitmix{caseSeed(seed, prop, tier, idx)}, Index: idx, Size: 1 + idx*100/(total+1)}
}

func replayT(choices []uint64, idx int) *T {
	return &T{replay: choices, Index: idx, Size: 100}
}

// shrink minimises a failing choice sequence.
func shrink(choices []uint64, idx int, f func(*T), budget int, stop func() bool) ([]uint64, *T, outcome) {
	best := append([]uint64(nil), choices...)
	bt := replayT(best, idx)
	bo := runCase(bt, f)
	if !bo.failed {
		return nil, nil, bo
	}
	best = append([]uint64(nil), bt.choices...)
	less := func(a, b []uint64) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	try := func(c []uint64) bool {
		if budget <= 0 || (stop != nil && stop()) {
			budget = 0
			return false
		}
		budget--
		t := replayT(c, idx)
		o := runCase(t, f)
		if o.failed && less(t.choices, best) {
			best = append([]uint64(nil), t.choices...)
			bt, bo = t, o
			return true
		}
		return false
	}
	// spans, largest first: drop them, hoist a part of the same kind, zero them
	spanPass := func() bool {
		any := false
		for again := true; again && budget > 0; {
			again = false
			sp := append([]span(nil), bt.spans...)
			sort.SliceStable(sp, func(i, j int) bool { return sp[i].hi-sp[i].lo > sp[j].hi-sp[j].lo })
		spans:
			for _, x := range sp {
				if x.hi <= x.lo || x.hi > len(best) || budget <= 0 {
					continue
				}
				cut := append(append([]uint64(nil), best[:x.lo]...), best[x.hi:]...)
				if try(cut) {
					again = true
					break
				}
				n := 0
				for _, y := range sp {
					if y.label == x.label && y.lo >= x.lo && y.hi <= x.hi && y.hi-y.lo < x.hi-x.lo && y.hi > y.lo {
						if n++; n > 12 {
							break
						}
						c := append([]uint64(nil), best[:x.lo]...)
						c = append(c, best[y.lo:y.hi]...)
						if try(append(c, best[x.hi:]...)) {
							again = true
							break spans
						}
					}
				}
				zero := append([]uint64(nil), best...)
				nz := false
				for i := x.lo; i < x.hi; i++ {
					nz = nz || zero[i] != 0
					zero[i] = 0
				}
				if nz && try(zero) {
					again = true
					break
				}
			}
			any = any || again
		}
		return any
	}
	spanPass()
	for improved := true; improved && budget > 0; {
		improved = false
		for k := len(best) / 2; k > 64; k /= 2 {
			for i := len(best) - k; i >= 0 && budget > 0; i -= k {
				if i+k > len(best) {
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+k:]...)
				if try(c) {
					improved = true
				}
			}
		}
		if spanPass() {
			improved = true
		}
		for _, k := range []int{64, 32, 16, 8, 4, 3, 2, 1} {
			for i := len(best) - k; i >= 0 && budget > 0; i-- {
				if i+k > len(best) {
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+k:]...)
				if try(c) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best) && budget > 0; i++ {
			if best[i] == 0 {
				continue
			}
			c := append([]uint64(nil), best...)
			c[i] = 0
			if try(c) {
				improved = true
				continue
			}
			lo, hi := uint64(0), best[i]
			for lo+1 < hi && budget > 0 && i < len(best) {
				mid := lo + (hi-lo)/2
				c := append([]uint64(nil), best...)
				c[i] = mid
				if try(c) {
					improved = true
					if i >= len(best) || best[i] != mid {
						break
					}
					hi = mid
				} else {
					lo = mid
				}
			}
			// a decrement together with deletion of one following choice (lists)
			if i < len(best) && best[i] > 0 && i+1 < len(best) {
				for k := 1; k <= 4 && i+k < len(best); k++ {
					c := append([]uint64(nil), best[:i+1]...)
					c[i]--
					c = append(c, best[i+k+1:]...)
					if try(c) {
						improved = true
						break
					}
				}
			}
		}
	}
	return best, bt, bo
}
