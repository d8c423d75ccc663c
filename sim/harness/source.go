//go:build go1.23

package main

import (
	"math"

	"github.com/steve-care-software/steve/verifsim/simrt"
)

// Source is the only source of choices of a simulated run. 0 always stands for
// the simplest choice, which is what shrinking relies on. The recorded list of
// choices is the replay of the run.
type Source struct {
	rng    func() uint64
	replay []uint64
	fixed  bool
	pos    int
	rec    []uint64
}

func newSeedSource(seed uint64) *Source { return &Source{rng: simrt.Splitmix(seed)} }

func newReplaySource(choices []uint64) *Source { return &Source{replay: choices, fixed: true} }

// Draw returns a choice in [0, n)
func (s *Source) Draw(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.fixed {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos] % n
		}
		s.pos++
	} else {
		v = s.rng() % n
	}
	s.rec = append(s.rec, v)
	return v
}

// Int returns a choice in [0, n)
func (s *Source) Int(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.Draw(uint64(n)))
}

// Range returns a choice in [lo, hi]
func (s *Source) Range(lo, hi int) int { return lo + s.Int(hi-lo+1) }

// Chance is true with the given permille; false is the simplest choice
func (s *Source) Chance(permille int) bool {
	if permille <= 0 {
		return false
	}
	return int(s.Draw(1000)) >= 1000-permille
}

// Bool is a fair choice
func (s *Source) Bool() bool { return s.Draw(2) == 1 }

// Perm returns a permutation; all-zero choices give the identity
func (s *Source) Perm(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + s.Int(n-i)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Bytes returns n bytes
func (s *Source) Bytes(n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i += 6 {
		v := s.Draw(1 << 48)
		for j := i; j < n && j < i+6; j++ {
			out[j] = byte(v)
			v >>= 8
		}
	}
	return out
}

// Log returns a number in [1, hi] that is log-uniform; hi is the simplest
func (s *Source) Log(hi float64) float64 {
	v := s.Draw(1000)
	return math.Exp((1 - float64(v)/1000) * math.Log(hi))
}

// Pick picks an element
func pick[T any](s *Source, list ...T) T { return list[s.Int(len(list))] }
