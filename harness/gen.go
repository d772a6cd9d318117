package main

// The choice-sequence generator and shrinker: every random decision of a case is one
// bounded integer drawn through G.N and recorded on a tape. A case is a pure function
// of (seed, property, sub-check, index); shrinking edits the tape and regenerates.

import (
	"encoding/json"
	"hash/fnv"
	"math/rand/v2"
	"time"
)

type G struct {
	rng       *rand.Rand
	replay    []uint32
	pos       int
	tape      []uint32
	replaying bool
	bytes     []byte // coverage-guided fuzzing: choices are read from here
	fromBytes bool
	enc       *[]byte // if set, the choices are also written here, in the form read from bytes
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func newG(seed uint64, label string, index int) *G {
	h := hash64(label)
	return &G{rng: rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+h, h^uint64(index)*0xD1342543DE82EF95+uint64(index)))}
}

func replayG(tape []uint32) *G { return &G{replay: tape, replaying: true} }

// bytesG makes the choices by the bytes of a fuzzer's input: as many bytes for each as its range needs.
func bytesG(b []byte) *G { return &G{bytes: b, fromBytes: true} }

func choiceWidth(n int) int {
	switch {
	case n <= 1<<8:
		return 1
	case n <= 1<<16:
		return 2
	}
	return 3
}

func (g *G) fromInput(n int) int {
	v := 0
	for i := choiceWidth(n); i > 0; i-- {
		v <<= 8
		if g.pos < len(g.bytes) {
			v |= int(g.bytes[g.pos])
		}
		g.pos++
	}
	return v % n
}

// N draws a number in [0,n). 0 is the simplest choice.
func (g *G) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if g.replaying {
		if g.pos < len(g.replay) {
			v = int(g.replay[g.pos])
			if v >= n {
				v = n - 1
			}
		}
		g.pos++
	} else if g.fromBytes {
		v = g.fromInput(n)
	} else {
		v = g.rng.IntN(n)
	}
	g.tape = append(g.tape, uint32(v))
	if g.enc != nil {
		for i := choiceWidth(n) - 1; i >= 0; i-- {
			*g.enc = append(*g.enc, byte(v>>(8*i)))
		}
	}
	return v
}

// R draws from [lo,hi], lo being simplest.
func (g *G) R(lo, hi int) int { return lo + g.N(hi-lo+1) }

// P is true with probability num/den; false is the simplest choice.
func (g *G) P(num, den int) bool { return g.N(den) >= den-num }

func (g *G) B() bool { return g.N(2) == 1 }

// W picks an index with the given weights; index 0 is simplest.
func (g *G) W(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := g.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

func (g *G) U64() uint64 {
	return uint64(g.N(1<<16))<<48 | uint64(g.N(1<<16))<<32 | uint64(g.N(1<<16))<<16 | uint64(g.N(1<<16))
}

func pick[T any](g *G, xs []T) T { return xs[g.N(len(xs))] }

// perm is a permutation of 0..n-1; the identity is simplest.
func (g *G) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + g.N(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func shuffled[T any](g *G, xs []T) []T {
	out := make([]T, len(xs))
	for i, j := range g.perm(len(xs)) {
		out[i] = xs[j]
	}
	return out
}

// shrinkTape minimises a failing tape. fails regenerates a case from the tape, runs
// the check, and reports whether it still fails together with the normalised tape.
func shrinkTape(tape []uint32, fails func([]uint32) (bool, []uint32), maxRuns int, maxTime time.Duration) []uint32 {
	deadline := time.Now().Add(maxTime)
	runs := 0
	best := append([]uint32(nil), tape...)
	better := func(a, b []uint32) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	try := func(t []uint32) bool {
		if runs >= maxRuns || time.Now().After(deadline) {
			return false
		}
		runs++
		ok, norm := fails(t)
		if ok && better(norm, best) {
			best = append([]uint32(nil), norm...)
			return true
		}
		return false
	}
	for improved := true; improved && runs < maxRuns && time.Now().Before(deadline); {
		improved = false
		for _, k := range []int{128, 64, 32, 16, 8, 4, 3, 2, 1} {
			for i := len(best) - k; i >= 0; {
				t := append(append([]uint32(nil), best[:i]...), best[i+k:]...)
				if try(t) {
					improved = true
					if i > len(best)-k {
						i = len(best) - k
					}
				} else {
					i--
					if k > 8 {
						i -= k/4 - 1
					}
				}
			}
		}
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			for _, v := range []uint32{0, best[i] / 2, best[i] - 1} {
				if i >= len(best) || v >= best[i] {
					continue
				}
				t := append([]uint32(nil), best...)
				t[i] = v
				if try(t) {
					improved = true
					break
				}
			}
		}
		// lower a length/flag and delete what follows it
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			for _, k := range []int{1, 2, 3, 5, 8} {
				if i+1+k > len(best) {
					break
				}
				t := append([]uint32(nil), best[:i]...)
				t = append(t, best[i]-1)
				t = append(t, best[i+1+k:]...)
				if try(t) {
					improved = true
					break
				}
			}
		}
	}
	return best
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
