//go:build go1.23

package simrt

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"hash"
)

// HashSink, when it is set, receives what is hashed by the code under test, and
// the digest
var HashSink func(input []byte, digest []byte)

// recHash remembers what it was given
type recHash struct {
	hash.Hash
	prefix []byte
	in     []byte
}

// RecordHash wraps a hash function
func RecordHash(h hash.Hash) hash.Hash {
	if HashSink == nil {
		return h
	}
	return &recHash{Hash: h}
}

func (r *recHash) Write(p []byte) (int, error) {
	r.in = append(r.in, p...)
	return r.Hash.Write(p)
}

func (r *recHash) Reset() {
	r.in = nil
	r.Hash.Reset()
}

func (r *recHash) Sum(b []byte) []byte {
	d := r.Hash.Sum(nil)
	if HashSink != nil {
		HashSink(append(append([]byte{}, r.prefix...), r.in...), d)
	}
	return append(b, d...)
}

// Sha256New is sha256.New
func Sha256New() hash.Hash { return RecordHash(sha256.New()) }

// Sha512New is sha512.New
func Sha512New() hash.Hash { return RecordHash(sha512.New()) }

// Sha256Sum is sha256.Sum256
func Sha256Sum(b []byte) [32]byte {
	d := sha256.Sum256(b)
	if HashSink != nil {
		HashSink(append([]byte{}, b...), append([]byte{}, d[:]...))
	}
	return d
}

// Sha512Sum is sha512.Sum512
func Sha512Sum(b []byte) [64]byte {
	d := sha512.Sum512(b)
	if HashSink != nil {
		HashSink(append([]byte{}, b...), append([]byte{}, d[:]...))
	}
	return d
}

// HmacNew is hmac.New
func HmacNew(f func() hash.Hash, key []byte) hash.Hash {
	if HashSink == nil {
		return hmac.New(f, key)
	}
	return &recHash{Hash: hmac.New(func() hash.Hash {
		h := f()
		if r, ok := h.(*recHash); ok {
			return r.Hash
		}
		return h
	}, key), prefix: append([]byte{}, key...)}
}
