//go:build go1.23

package simrt

import (
	cryptorand "crypto/rand"
	"fmt"
	"io"
	"io/ioutil"
	mathrand "math/rand"
	mathrandv2 "math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"time"
	_ "unsafe"
)

//go:linkname setTestingReader crypto/internal/rand.SetTestingReader
func setTestingReader(r io.Reader)

// Hooks are set by the harness for one simulated run
type Hooks struct {
	// Entropy fills p like an io.Reader
	Entropy func(p []byte) (int, error)
	// ReadFile reads a file
	ReadFile func(path string) ([]byte, error)
	// Stat gives the size and the modification time of a file
	Stat func(path string) (int64, time.Time, error)
	// Short gives how much of n bytes one read of an open file gives
	Short func(n int) int
	// Now is the current node's clock
	Now func() time.Time
	// Sleep advances the virtual clock
	Sleep func(d time.Duration)
	// MapSeed decides the iteration order of maps: 0 is sorted order
	MapSeed func() uint64
	// Math is the pseudo-random source behind math/rand
	Math *mathrand.Rand
}

var hooks Hooks

// MapRanges counts the map iterations that were permuted
var MapRanges int64

// Install installs the hooks of a run
func Install(h Hooks) {
	hooks = h
	mathV2 = nil
	MapRanges = 0
	cryptorand.Reader = theReader
	setTestingReader(theReader)
}

type simReader struct{}

// Read reads simulated entropy
func (simReader) Read(p []byte) (int, error) {
	if hooks.Entropy == nil {
		panic("simrt: entropy requested outside of a simulation")
	}
	return hooks.Entropy(p)
}

var theReader io.Reader = simReader{}

// CryptoRead replaces crypto/rand.Read: the real one ends the process when the
// source fails, here the task panics
func CryptoRead(p []byte) (int, error) {
	if _, err := io.ReadFull(theReader, p); err != nil {
		panic(fmt.Sprintf("crypto/rand: failed to read random data: %s", err.Error()))
	}
	return len(p), nil
}

// ReadFile replaces ioutil.ReadFile and os.ReadFile
func ReadFile(path string) ([]byte, error) {
	if hooks.ReadFile != nil {
		return hooks.ReadFile(path)
	}
	return ioutil.ReadFile(path)
}

// OpenFile replaces os.Open: the content of the simulated file, as an open file
func OpenFile(path string) (*os.File, error) {
	if hooks.ReadFile == nil {
		return os.Open(path)
	}
	b, err := hooks.ReadFile(path)
	if err != nil {
		return nil, err
	}
	f, err := os.CreateTemp("", "steve-sim-file")
	if err != nil {
		return nil, err
	}
	_ = os.Remove(f.Name())
	if _, err := f.Write(b); err != nil {
		return nil, err
	}
	_, err = f.Seek(0, io.SeekStart)
	return f, err
}

// OpenFileMode replaces os.OpenFile: what is only read is simulated
func OpenFileMode(path string, flag int, perm os.FileMode) (*os.File, error) {
	if flag == os.O_RDONLY {
		return OpenFile(path)
	}
	return os.OpenFile(path, flag, perm)
}

type shortReader struct{ f *os.File }

// FileReader replaces the receiver of a Read of an open file
func FileReader(f *os.File) io.Reader { return shortReader{f} }

// Read reads what one system call gives
func (r shortReader) Read(p []byte) (int, error) {
	if hooks.Short != nil && len(p) > 1 {
		p = p[:hooks.Short(len(p))]
	}
	return r.f.Read(p)
}

type fileInfo struct {
	name string
	size int64
	mod  time.Time
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() os.FileMode  { return 0o644 }
func (i *fileInfo) ModTime() time.Time { return i.mod }
func (i *fileInfo) IsDir() bool        { return false }
func (i *fileInfo) Sys() interface{}   { return nil }

// Stat replaces os.Stat and os.Lstat
func Stat(path string) (os.FileInfo, error) {
	if hooks.Stat == nil {
		return os.Stat(path)
	}
	size, mod, err := hooks.Stat(path)
	if err != nil {
		return nil, &os.PathError{Op: "stat", Path: path, Err: err}
	}
	return &fileInfo{name: filepath.Base(path), size: size, mod: mod}, nil
}

// Now replaces time.Now
func Now() time.Time {
	if hooks.Now != nil {
		return hooks.Now()
	}
	return time.Now()
}

// Since replaces time.Since
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep
func Sleep(d time.Duration) {
	if hooks.Sleep != nil {
		hooks.Sleep(d)
		return
	}
	time.Sleep(d)
}

// After replaces time.After
func After(d time.Duration) <-chan time.Time {
	Sleep(d)
	c := make(chan time.Time, 1)
	c <- Now()
	return c
}

var fallbackMath = mathrand.New(mathrand.NewSource(1))

// Math replaces the top-level math/rand source
func Math() *mathrand.Rand {
	if hooks.Math != nil {
		return hooks.Math
	}
	return fallbackMath
}

var mathV2 *mathrandv2.Rand

// MathV2 replaces the top-level math/rand/v2 source
func MathV2() *mathrandv2.Rand {
	if mathV2 == nil {
		mathV2 = mathrandv2.New(mathrandv2.NewPCG(Math().Uint64(), 7))
	}
	return mathV2
}

// Iter iterates over a map in an order chosen by the simulator
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	pos  int
}

// Next moves to the next entry that still exists
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.pos < len(it.keys) {
		key := it.keys[it.pos]
		it.pos++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// MapIter0 creates an iterator
func MapIter0[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		sortKeys(keys)
		if hooks.MapSeed != nil {
			if seed := hooks.MapSeed(); seed != 0 {
				MapRanges++
				r := splitmix(seed)
				for i := len(keys) - 1; i > 0; i-- {
					j := int(r() % uint64(i+1))
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
	}
	return &Iter[K, V]{m: m, keys: keys}
}

// MapIter creates an iterator with its key and value variables
func MapIter[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], K, V) {
	var k K
	var v V
	return MapIter0[M, K, V](m), k, v
}

// MapIterK creates an iterator with its key variable
func MapIterK[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], K) {
	var k K
	return MapIter0[M, K, V](m), k
}

// MapIterV creates an iterator with its value variable
func MapIterV[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], V) {
	var v V
	return MapIter0[M, K, V](m), v
}

func sortKeys[K comparable](keys []K) {
	switch ks := interface{}(keys).(type) {
	case []string:
		sort.Strings(ks)
	case []int:
		sort.Ints(ks)
	default:
		_ = reflect.TypeOf(keys)
		sort.SliceStable(keys, func(i, j int) bool {
			return fmt.Sprintf("%v", keys[i]) < fmt.Sprintf("%v", keys[j])
		})
	}
}

func splitmix(seed uint64) func() uint64 {
	return func() uint64 {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
}

// Splitmix is a small deterministic generator
func Splitmix(seed uint64) func() uint64 { return splitmix(seed) }

// SetMath sets the pseudo-random source behind math/rand
func SetMath(r *mathrand.Rand) { hooks.Math = r }
