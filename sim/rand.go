package sim

import (
	"fmt"
	"io"
	"math/rand"
	randv2 "math/rand/v2"
	"reflect"
	"sort"
	"unsafe"
)

// libSource serves all randomness of the code under test from the run's
// stream. Its own word is touched so that unsynchronised sharing of one
// generator object is visible to the race detector.
type libSource struct{ x uint64 }

var outsideStream = NewStream(1, "outside")

func draw() uint64 {
	if w == nil {
		return outsideStream.Uint64()
	}
	return libStream().Uint64()
}

// libStream is the stream of the current thread.
func libStream() *Stream {
	if cur != nil && cur.own != nil {
		return cur.own
	}
	return w.lib
}

// OwnDraws gives the current thread a stream of its own for what the code
// under test draws; nil ends it.
func OwnDraws(s *Stream) { cur.own = s }

//go:noinline
func (s *libSource) Uint64() uint64 {
	raceWrite(unsafe.Pointer(&s.x))
	return draw()
}
func (s *libSource) Int63() int64 { return int64(s.Uint64() >> 1) }
func (s *libSource) Seed(int64)   {}

// NewSource replaces rand.NewSource and friends: seeds are ignored.
func NewSource(int64) rand.Source      { return &libSource{} }
func NewPCG(uint64, uint64) *libSource { return &libSource{} }
func NewChaCha8([32]byte) *libSource   { return &libSource{} }

// sharedSource is the goroutine-safe global one.
type sharedSource struct{}

//go:noinline
func (sharedSource) Uint64() uint64 { return draw() }
func (sharedSource) Int63() int64   { return int64(draw() >> 1) }
func (sharedSource) Seed(int64)     {}

// Rand and RandV2 stand for the top-level functions of math/rand and v2.
var Rand = rand.New(sharedSource{})
var RandV2 = randv2.New(sharedSource{})

func RandRead(p []byte) (int, error) { return CryptoReader.Read(p) }

type cryptoReader struct{}

func (cryptoReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(draw())
	}
	return len(p), nil
}

// CryptoReader replaces crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

func CryptoRead(p []byte) (int, error) { return CryptoReader.Read(p) }

// FastRNG replaces fastrand.RNG.
type FastRNG struct{ x uint32 }

//go:noinline
func (r *FastRNG) Uint32() uint32 {
	raceWrite(unsafe.Pointer(&r.x))
	return uint32(draw() >> 32)
}

func (r *FastRNG) Uint32n(n uint32) uint32 {
	return uint32((uint64(r.Uint32()) * uint64(n)) >> 32)
}
func (r *FastRNG) Seed(n uint32) { raceWrite(unsafe.Pointer(&r.x)) }

func FastUint32() uint32          { return uint32(draw() >> 32) }
func FastUint32n(n uint32) uint32 { return uint32((uint64(FastUint32()) * uint64(n)) >> 32) }

// NumCPU replaces runtime.NumCPU and GOMAXPROCS.
var SimCPUs = 4

func NumCPU() int        { return SimCPUs }
func GOMAXPROCS(int) int { return SimCPUs }
func NumGoroutine() int {
	if w == nil {
		return 1
	}
	return w.live
}

// Keys lists a map's keys for an instrumented range loop: sorted, or in an
// order drawn from the environment stream.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

func sortKeys[K comparable](keys []K) {
	switch k := any(keys).(type) {
	case []string:
		sort.Strings(k)
	case []int:
		sort.Ints(k)
	default:
		v := reflect.ValueOf(keys)
		if v.Len() == 0 {
			return
		}
		if v.Index(0).Kind() == reflect.String {
			sort.Slice(keys, func(i, j int) bool {
				return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String()
			})
			return
		}
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	}
}

//go:noinline
func shuffle(n int, swap func(i, j int)) {
	if cur == nil || killing || !w.cfg.MapOrder {
		return
	}
	for i := n - 1; i > 0; i-- {
		swap(i, w.env.Intn(i+1))
	}
}
