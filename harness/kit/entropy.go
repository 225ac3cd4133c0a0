package kit

import (
	cryptorand "crypto/rand"
	"encoding/binary"
	"errors"
	"io"
	mrand "math/rand/v2"
	"sync"
)

// Stream is a deterministic stand-in for the operating system's random
// source; it is safe for concurrent use.
type Stream struct {
	mu    sync.Mutex
	c     *mrand.ChaCha8
	Read_ int64 // bytes handed out
	Fail  bool
}

var osReader = cryptorand.Reader

// NewStream returns the stream of the given seed.
func NewStream(seed uint64) *Stream {
	var s [32]byte
	binary.LittleEndian.PutUint64(s[:], seed)
	binary.LittleEndian.PutUint64(s[8:], ^seed)
	return &Stream{c: mrand.NewChaCha8(s)}
}

var errNoEntropy = errors.New("injected: random source failed")

func (s *Stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Fail {
		return 0, errNoEntropy
	}
	s.Read_ += int64(len(p))
	return s.c.Read(p)
}

// Entropy makes the process draw its random material from a deterministic
// stream, so that a case is a function of its seed.
func Entropy(seed uint64) *Stream {
	s := NewStream(seed)
	cryptorand.Reader = s
	return s
}

// SetEntropy replaces the process's random source.
func SetEntropy(r io.Reader) { cryptorand.Reader = r }

// RealEntropy restores the operating system's source.
func RealEntropy() { cryptorand.Reader = osReader }
