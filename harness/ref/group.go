package ref

import (
	"errors"
	"io"
)

// GroupSender is a sender key with its private signing key.
type GroupSender struct {
	Dist    []byte // as on the wire
	ChainID uint32
	ck      []byte
	n       uint32
	sign    []byte
}

// NewGroupSender makes a sender key.
func NewGroupSender(random io.Reader, dist []byte, chainID uint32) *GroupSender {
	return &GroupSender{Dist: dist, ChainID: chainID, ck: fresh(random), sign: fresh(random)}
}

// Distribution makes a distribution message.
func (g *GroupSender) Distribution() []byte {
	b := []byte{0x33}
	b = PB(b, 1, g.Dist)
	b = PU(b, 2, uint64(g.ChainID))
	b = PU(b, 3, uint64(g.n))
	b = PB(b, 4, g.ck)
	return PB(b, 5, Typed(Public(g.sign)))
}

// GroupKeys derives the keys of a group message.
func GroupKeys(ck []byte) (iv, key []byte) {
	k := HKDF(HMAC(ck, []byte{1}), nil, "WhisperGroup", 48)
	return k[:16], k[16:]
}

// Encrypt makes a group message.
func (g *GroupSender) Encrypt(random io.Reader, pt []byte) []byte {
	b := g.EncryptUnsigned(pt)
	z := append(fresh(random), fresh(random)...)
	return append(b, Sign(g.sign, b, z)...)
}

// EncryptUnsigned makes a group message without its signature.
func (g *GroupSender) EncryptUnsigned(pt []byte) []byte {
	iv, key := GroupKeys(g.ck)
	b := []byte{0x33}
	b = PB(b, 1, g.Dist)
	b = PU(b, 2, uint64(g.ChainID))
	b = PU(b, 3, uint64(g.n))
	b = PB(b, 4, CBCEncrypt(key, iv, pt))
	g.ck = NextChain(g.ck)
	g.n++
	return b
}

// GroupReceiver is what a member knows of a sender key.
type GroupReceiver struct {
	Dist    []byte
	ChainID uint32
	ck      []byte
	n       uint32
	Signing []byte
	skipped map[uint32][]byte
	// Verified: the signatures of messages are verified already.
	Verified bool
}

// Join reads a distribution message.
func Join(raw []byte) (*GroupReceiver, error) {
	if len(raw) < 1 || raw[0] != 0x33 {
		return nil, ErrFormat
	}
	fs, ok := ParseFields(raw[1:])
	if !ok || len(fs) != 5 {
		return nil, ErrFormat
	}
	g := &GroupReceiver{skipped: map[uint32][]byte{}}
	for _, f := range fs {
		switch {
		case f.Num == 1 && !f.IsInt:
			g.Dist = f.Bytes
		case f.Num == 2 && f.IsInt:
			g.ChainID = uint32(f.Uint)
		case f.Num == 3 && f.IsInt:
			g.n = uint32(f.Uint)
		case f.Num == 4 && len(f.Bytes) == 32:
			g.ck = f.Bytes
		case f.Num == 5 && len(f.Bytes) == 33 && f.Bytes[0] == 5:
			g.Signing = f.Bytes[1:]
		default:
			return nil, ErrFormat
		}
	}
	return g, nil
}

// N is the position the receiver is at, and its chain key.
func (g *GroupReceiver) N() (uint32, []byte) { return g.n, g.ck }

// ErrSignature is returned for messages with a wrong signature.
var ErrSignature = errors.New("ref: bad signature")

// Decrypt decrypts a group message.
func (g *GroupReceiver) Decrypt(raw []byte) ([]byte, error) {
	if len(raw) < 65 || raw[0] != 0x33 {
		return nil, ErrFormat
	}
	body, sig := raw[:len(raw)-64], raw[len(raw)-64:]
	fs, ok := ParseFields(body[1:])
	if !ok || len(fs) != 4 {
		return nil, ErrFormat
	}
	if !g.Verified && !Verify(g.Signing, body, sig) {
		return nil, ErrSignature
	}
	d, _ := Get(fs, 1)
	c, _ := Get(fs, 2)
	n, _ := Get(fs, 3)
	ct, ok := Get(fs, 4)
	if !ok || string(d.Bytes) != string(g.Dist) || uint32(c.Uint) != g.ChainID {
		return nil, ErrFormat
	}
	it := uint32(n.Uint)
	if ck, ok := g.skipped[it]; ok {
		iv, key := GroupKeys(ck)
		delete(g.skipped, it)
		return CBCDecrypt(key, iv, ct.Bytes)
	}
	if it < g.n {
		return nil, ErrDuplicate
	}
	for g.n < it {
		g.skipped[g.n] = g.ck
		g.ck = NextChain(g.ck)
		g.n++
	}
	iv, key := GroupKeys(g.ck)
	g.ck = NextChain(g.ck)
	g.n++
	return CBCDecrypt(key, iv, ct.Bytes)
}
