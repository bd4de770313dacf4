package vt

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	mrand "math/rand/v2"
)

// DRBG is a deterministic source of random bytes.
type DRBG struct {
	c *mrand.ChaCha8
	// Reads counts calls, N bytes.
	Reads, N int
	// FailAt makes the read which would deliver byte FailAt fail, if it is >= 0.
	FailAt int
	// Out records everything delivered, if Record is set.
	Record bool
	Out    []byte
	// Short makes reads deliver less than asked for, if it is > 0.
	Short int
	// Key may change what a read of 32 bytes delivers.
	Key func([]byte)
}

// Given is told everything sources deliver through Read, if it is set.
var Given func([]byte)

// ErrRandom is what a failing DRBG returns.
var ErrRandom = errors.New("injected: no randomness")

// NewDRBG makes a source determined by its arguments.
func NewDRBG(vs ...uint64) *DRBG {
	h := sha256.New()
	for _, v := range vs {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v)
		h.Write(b[:])
	}
	var seed [32]byte
	copy(seed[:], h.Sum(nil))
	return &DRBG{c: mrand.NewChaCha8(seed), FailAt: -1}
}

func (d *DRBG) Read(p []byte) (int, error) {
	d.Reads++
	if d.Short > 0 && len(p) > 1 {
		p = p[:min(len(p), 1+(d.Short*7+d.Reads*5)%(d.Short+1))]
	}
	if d.FailAt >= 0 && d.N+len(p) > d.FailAt {
		n := d.FailAt - d.N
		if n < 0 {
			n = 0
		}
		d.c.Read(p[:n])
		d.N += n
		return n, ErrRandom
	}
	n, err := d.c.Read(p)
	d.N += n
	if d.Key != nil && n == 32 {
		d.Key(p)
	}
	if d.Record {
		d.Out = append(d.Out, p[:n]...)
	}
	if Given != nil {
		Given(p[:n])
	}
	return n, err
}

// Bytes returns n bytes.
func (d *DRBG) Bytes(n int) []byte {
	b := make([]byte, n)
	d.c.Read(b)
	return b
}

// Uint64 returns a number.
func (d *DRBG) Uint64() uint64 { return d.c.Uint64() }

// Intn returns a number in [0,n).
func (d *DRBG) Intn(n int) int { return int(d.c.Uint64() % uint64(n)) }

var pinned bool

// SetGlobal makes the reader the one behind crypto/rand.Reader.
func SetGlobal(r io.Reader) {
	if !pinned {
		rand.Reader = r
	}
}

type constant struct{}

func (constant) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0x12
	}
	return len(p), nil
}

// PinGlobal makes crypto/rand.Reader always give the same bytes, whatever
// SetGlobal is given afterwards. For cases which run several goroutines.
func PinGlobal() {
	if !pinned {
		rand.Reader = constant{}
		pinned = true
	}
}

// Size is a length below max, of any magnitude, often near a power of two.
func Size(r *DRBG, max int) int {
	top := 1
	for 1<<top < max {
		top++
	}
	k := 1 << r.Intn(top+1)
	n := k + r.Intn(k)
	switch r.Intn(6) {
	case 0, 1:
		n = k - 2 + r.Intn(5)
	case 2: // near a multiple of a power of two
		k = 1 << r.Intn(top+1)
		n = k*(1+r.Intn(max/k+1)) - 18 + r.Intn(37)
	}
	if n < 0 || n >= max {
		n = max - 1 - r.Intn(3)
	}
	return n
}
