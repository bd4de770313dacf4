package ref

import (
	"bytes"
	"crypto/hmac"
	"errors"
	"io"
)

// MessageKeys of one message.
type MessageKeys struct{ Cipher, MAC, IV []byte }

// DeriveMessageKeys derives the keys of the message at a chain key.
func DeriveMessageKeys(ck []byte) MessageKeys {
	k := HKDF(HMAC(ck, []byte{1}), nil, "WhisperMessageKeys", 80)
	return MessageKeys{k[:32], k[32:64], k[64:]}
}

// NextChain is the next chain key.
func NextChain(ck []byte) []byte { return HMAC(ck, []byte{2}) }

// Root is a Diffie-Hellman ratchet step.
func Root(root, dh []byte) (newRoot, chain []byte) {
	k := HKDF(dh, root, "WhisperRatchet", 64)
	return k[:32], k[32:]
}

// X3DH derives root and chain key from the agreements.
func X3DH(dhs ...[]byte) (root, chain []byte) {
	in := bytes.Repeat([]byte{0xff}, 32)
	for _, d := range dhs {
		in = append(in, d...)
	}
	k := HKDF(in, nil, "WhisperText", 64)
	return k[:32], k[32:]
}

type recvChain struct {
	key []byte // ratchet key of the peer
	ck  []byte
	n   uint32
}

// Session is one side of a session. Keys have no type byte.
type Session struct {
	local, remote []byte // identities
	root          []byte
	ratPriv       []byte
	sendCK        []byte
	sendN, prevN  uint32
	recv          []*recvChain
	skipped       map[string]MessageKeys
	// initiator, until the first reply
	pending *pendingInfo
	// Last keys used for encrypting.
	Last MessageKeys
}

// Root is the root key.
func (s *Session) Root() []byte { return s.root }

// SendCK is the sending chain key.
func (s *Session) SendCK() []byte { return s.sendCK }

// Remote is the identity of the other side.
func (s *Session) Remote() []byte { return s.remote }

// Base is the base key while the session is not acknowledged.
func (s *Session) Base() []byte {
	if s.pending == nil {
		return nil
	}
	return s.pending.base
}

// CheckMAC tells whether a plain message has the MAC these keys give.
func (s *Session) CheckMAC(m *SignalMessage, mk MessageKeys) bool {
	return hmac.Equal(macOf(mk.MAC, s.local, s.remote, m.Body), m.MAC)
}

type pendingInfo struct {
	reg, spkID uint32
	otpkID     *uint32
	base       []byte
}

// Bundle is a published pre-key bundle.
type Bundle struct {
	Identity, SPK, OTPK []byte
	SPKID               uint32
	OTPKID              *uint32
}

func fresh(random io.Reader) []byte {
	b := make([]byte, 32)
	if _, err := io.ReadFull(random, b); err != nil {
		panic(err)
	}
	return b
}

func dh(priv, pub []byte) []byte {
	d, err := DH(priv, pub)
	if err != nil {
		panic("ref: " + err.Error())
	}
	return d
}

// Initiate opens a session from a bundle.
func Initiate(random io.Reader, identPriv []byte, reg uint32, b Bundle) *Session {
	base := fresh(random)
	rat := fresh(random)
	dhs := [][]byte{dh(identPriv, b.SPK), dh(base, b.Identity), dh(base, b.SPK)}
	if b.OTPK != nil {
		dhs = append(dhs, dh(base, b.OTPK))
	}
	root, ck := X3DH(dhs...)
	s := &Session{local: Public(identPriv), remote: b.Identity, ratPriv: rat, skipped: map[string]MessageKeys{}}
	s.recv = append(s.recv, &recvChain{key: b.SPK, ck: ck})
	s.root, s.sendCK = Root(root, dh(rat, b.SPK))
	s.pending = &pendingInfo{reg, b.SPKID, b.OTPKID, Public(base)}
	return s
}

// Respond makes the session an establishing message belongs to.
func Respond(identPriv, spkPriv, otpkPriv []byte, remoteIdent, base []byte) *Session {
	dhs := [][]byte{dh(spkPriv, remoteIdent), dh(identPriv, base), dh(spkPriv, base)}
	if otpkPriv != nil {
		dhs = append(dhs, dh(otpkPriv, base))
	}
	root, ck := X3DH(dhs...)
	return &Session{local: Public(identPriv), remote: remoteIdent, root: root, ratPriv: spkPriv, sendCK: ck, skipped: map[string]MessageKeys{}}
}

func macOf(key, from, to, body []byte) []byte {
	return HMAC(key, Typed(from), Typed(to), body)[:8]
}

// Encrypt makes the bytes of a message and whether it is an establishing one.
func (s *Session) Encrypt(pt []byte) ([]byte, bool) {
	mk := DeriveMessageKeys(s.sendCK)
	s.Last = mk
	body := []byte{0x33}
	body = PB(body, 1, Typed(Public(s.ratPriv)))
	body = PU(body, 2, uint64(s.sendN))
	body = PU(body, 3, uint64(s.prevN))
	body = PB(body, 4, CBCEncrypt(mk.Cipher, mk.IV, pt))
	msg := append(body, macOf(mk.MAC, s.local, s.remote, body)...)
	s.sendCK = NextChain(s.sendCK)
	s.sendN++
	if s.pending == nil {
		return msg, false
	}
	p := s.pending
	out := []byte{0x33}
	if p.otpkID != nil {
		out = PU(out, 1, uint64(*p.otpkID))
	}
	out = PB(out, 2, Typed(p.base))
	out = PB(out, 3, Typed(s.local))
	out = PB(out, 4, msg)
	out = PU(out, 5, uint64(p.reg))
	out = PU(out, 6, uint64(p.spkID))
	return out, true
}

// Errors of Decrypt.
var (
	ErrFormat    = errors.New("ref: malformed message")
	ErrMAC       = errors.New("ref: bad MAC")
	ErrDuplicate = errors.New("ref: duplicate")
)

// PreKeyMessage is a parsed establishing message.
type PreKeyMessage struct {
	Reg, SPKID     uint32
	OTPKID         *uint32
	Base, Identity []byte
	Inner          []byte
}

// ParsePreKey parses an establishing message strictly.
func ParsePreKey(raw []byte) (*PreKeyMessage, error) {
	if len(raw) < 1 || raw[0] != 0x33 {
		return nil, ErrFormat
	}
	fs, ok := ParseFields(raw[1:])
	if !ok {
		return nil, ErrFormat
	}
	m := &PreKeyMessage{}
	seen := map[int]bool{}
	for _, f := range fs {
		if seen[f.Num] {
			return nil, ErrFormat
		}
		seen[f.Num] = true
		switch {
		case f.Num == 1 && f.IsInt:
			v := uint32(f.Uint)
			m.OTPKID = &v
		case f.Num == 2 && len(f.Bytes) == 33 && f.Bytes[0] == 5:
			m.Base = f.Bytes[1:]
		case f.Num == 3 && len(f.Bytes) == 33 && f.Bytes[0] == 5:
			m.Identity = f.Bytes[1:]
		case f.Num == 4 && !f.IsInt:
			m.Inner = f.Bytes
		case f.Num == 5 && f.IsInt:
			m.Reg = uint32(f.Uint)
		case f.Num == 6 && f.IsInt:
			m.SPKID = uint32(f.Uint)
		default:
			return nil, ErrFormat
		}
	}
	for _, n := range []int{2, 3, 4, 5, 6} {
		if !seen[n] {
			return nil, ErrFormat
		}
	}
	return m, nil
}

// SignalMessage is a parsed plain message.
type SignalMessage struct {
	Ratchet    []byte
	N, PrevN   uint32
	Ciphertext []byte
	Body, MAC  []byte
}

// ParseSignal parses a plain message strictly.
func ParseSignal(raw []byte) (*SignalMessage, error) {
	if len(raw) < 9 || raw[0] != 0x33 {
		return nil, ErrFormat
	}
	m := &SignalMessage{Body: raw[:len(raw)-8], MAC: raw[len(raw)-8:]}
	fs, ok := ParseFields(m.Body[1:])
	if !ok || len(fs) != 4 {
		return nil, ErrFormat
	}
	for _, f := range fs {
		switch {
		case f.Num == 1 && len(f.Bytes) == 33 && f.Bytes[0] == 5:
			m.Ratchet = f.Bytes[1:]
		case f.Num == 2 && f.IsInt:
			m.N = uint32(f.Uint)
		case f.Num == 3 && f.IsInt:
			m.PrevN = uint32(f.Uint)
		case f.Num == 4 && !f.IsInt:
			m.Ciphertext = f.Bytes
		default:
			return nil, ErrFormat
		}
	}
	if m.Ratchet == nil || m.Ciphertext == nil {
		return nil, ErrFormat
	}
	return m, nil
}

func skey(ratchet []byte, n uint32) string {
	return string(ratchet) + string([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)})
}

// PrevN of the last chain, for comparison.
func (s *Session) PrevN() uint32 { return s.prevN }

// SendN is the position of the next message.
func (s *Session) SendN() uint32 { return s.sendN }

// Decrypt decrypts a plain message. Without effect if it fails.
func (s *Session) Decrypt(random io.Reader, raw []byte) ([]byte, error) {
	m, err := ParseSignal(raw)
	if err != nil {
		return nil, err
	}
	open := func(mk MessageKeys) ([]byte, error) {
		if !hmac.Equal(macOf(mk.MAC, s.remote, s.local, m.Body), m.MAC) {
			return nil, ErrMAC
		}
		return CBCDecrypt(mk.Cipher, mk.IV, m.Ciphertext)
	}
	if mk, ok := s.skipped[skey(m.Ratchet, m.N)]; ok {
		pt, err := open(mk)
		if err == nil {
			delete(s.skipped, skey(m.Ratchet, m.N))
			s.pending = nil
		}
		return pt, err
	}
	var ch *recvChain
	for _, c := range s.recv {
		if bytes.Equal(c.key, m.Ratchet) {
			ch = c
		}
	}
	isNew := ch == nil
	var root2, newRat, root3, sendCK []byte
	if isNew {
		var ck []byte
		d, err := DH(s.ratPriv, m.Ratchet)
		if err != nil {
			return nil, err
		}
		root2, ck = Root(s.root, d)
		ch = &recvChain{key: m.Ratchet, ck: ck}
	}
	if m.N < ch.n {
		return nil, ErrDuplicate
	}
	ck := ch.ck
	var keep []MessageKeys
	for i := ch.n; i < m.N; i++ {
		keep = append(keep, DeriveMessageKeys(ck))
		ck = NextChain(ck)
	}
	pt, err := open(DeriveMessageKeys(ck))
	if err != nil {
		return nil, err
	}
	if isNew {
		newRat = fresh(random)
		root3, sendCK = Root(root2, dh(newRat, m.Ratchet))
		s.root, s.ratPriv, s.sendCK = root3, newRat, sendCK
		s.prevN = 0
		if s.sendN > 0 {
			s.prevN = s.sendN - 1 // the library counts the last position, not the length
		}
		s.sendN = 0
		s.recv = append(s.recv, ch)
	}
	for i, mk := range keep {
		s.skipped[skey(m.Ratchet, ch.n+uint32(i))] = mk
	}
	ch.ck, ch.n = NextChain(ck), m.N+1
	s.pending = nil
	return pt, nil
}
