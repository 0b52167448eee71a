// Package randhook replaces crypto/rand.Reader by a reader the harness can
// observe, script and disturb. Its import path sorts before every other package
// that depends on crypto/rand, so (Go >= 1.21 initialisation order) it is
// initialised before the package under test captures rand.Reader.
package randhook

import (
	"crypto/rand"
	"io"
	"sync/atomic"
)

type hook struct{ orig io.Reader }

var current atomic.Pointer[io.Reader]
var Reads atomic.Int64

func (h *hook) Read(p []byte) (int, error) {
	Reads.Add(1)
	if r := current.Load(); r != nil {
		return (*r).Read(p)
	}
	return h.orig.Read(p)
}

// Orig is the operating system's random source.
var Orig io.Reader

// Set installs r as the source of randomness; nil restores the original.
func Set(r io.Reader) {
	if r == nil {
		current.Store(nil)
		return
	}
	current.Store(&r)
}

func init() {
	Orig = rand.Reader
	rand.Reader = &hook{orig: rand.Reader}
}

// Current returns the installed source of randomness.
func Current() io.Reader {
	if r := current.Load(); r != nil {
		return *r
	}
	return Orig
}
