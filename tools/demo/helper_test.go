package seeded

import (
	"bytes"
	"context"
	"crypto/rand"
	"io"
	"testing"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"
)

var (
	ctx = context.Background()
	_   = bytes.Equal
	_   = distribution.MustParse
)

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// user is a device with all its stores.
type user struct {
	addr   address.Address
	pair   identity.KeyPair
	st     protocol.Store
	random io.Reader
	signed map[prekey.ID]*curve.KeyPair
	sigs   map[prekey.ID][]byte
	pre    map[prekey.ID]*curve.KeyPair
	sess   session.Store // used instead of the one in st when set
}

func newUser(name string, device uint32) *user {
	pair := must(identity.GenerateKeyPair(rand.Reader))
	return newUserKey(name, device, pair)
}

func newUserKey(name string, device uint32, pair identity.KeyPair) *user {
	return &user{
		addr: address.Address{Name: name, DeviceID: address.DeviceID(device)},
		pair: pair, st: protocol.NewInMemStore(pair, 7), random: rand.Reader,
		signed: map[prekey.ID]*curve.KeyPair{}, sigs: map[prekey.ID][]byte{}, pre: map[prekey.ID]*curve.KeyPair{},
	}
}

// with is the session of u with the device at an address.
func (u *user) with(a address.Address) *session.Session {
	s := &session.Session{RemoteAddress: a, SessionStore: u.st.SessionStore(), PreKeyStore: u.st.PreKeyStore(),
		SignedPreKeyStore: u.st.SignedPreKeyStore(), IdentityKeyStore: u.st.IdentityStore()}
	if u.sess != nil {
		s.SessionStore = u.sess
	}
	return s
}

// bundle publishes a bundle; a negative pre is a bundle without one-time pre-key.
func (u *user) bundle(signed uint32, pre int64) *prekey.Bundle {
	sid := prekey.ID(signed)
	if u.signed[sid] == nil {
		k := must(curve.GenerateKeyPair(rand.Reader))
		u.signed[sid] = k
		u.sigs[sid] = must(u.pair.PrivateKey().Sign(rand.Reader, k.PublicKey().Bytes()))
		if err := u.st.SignedPreKeyStore().Store(ctx, sid, prekey.NewSigned(sid, 1, k, u.sigs[sid])); err != nil {
			panic(err)
		}
	}
	b := &prekey.Bundle{RegistrationID: 7, DeviceID: u.addr.DeviceID, SignedPreKeyID: sid,
		SignedPreKeyPublic: u.signed[sid].PublicKey(), SignedPreKeySignature: u.sigs[sid], IdentityKey: u.pair.IdentityKey()}
	if pre >= 0 {
		id := prekey.ID(pre)
		if u.pre[id] == nil {
			k := must(curve.GenerateKeyPair(rand.Reader))
			u.pre[id] = k
			if err := u.st.PreKeyStore().Store(ctx, id, prekey.NewPreKey(id, k)); err != nil {
				panic(err)
			}
		}
		b.PreKeyID = &id
		b.PreKeyPublic = u.pre[id].PublicKey()
	}
	return b
}

func (u *user) process(v *user, b *prekey.Bundle) error {
	return u.with(v.addr).ProcessPreKeyBundle(ctx, u.random, b)
}

func (u *user) open(v *user, b *prekey.Bundle) {
	if err := u.process(v, b); err != nil {
		panic(err)
	}
}

func (u *user) encrypt(v *user, text string) (message.Ciphertext, error) {
	return u.with(v.addr).EncryptMessage(ctx, []byte(text))
}

func (u *user) send(v *user, text string) message.Ciphertext { return must(u.encrypt(v, text)) }

// wire serializes and parses a message.
func wire(m message.Ciphertext) message.Ciphertext {
	b := append([]byte(nil), m.Bytes()...)
	if m.Type() == message.PreKeyType {
		return must(message.NewPreKeyFromBytes(b))
	}
	return must(message.NewSignalFromBytes(b))
}

func (u *user) decrypt(v *user, m message.Ciphertext) (string, error) {
	p, err := u.with(v.addr).DecryptMessage(ctx, u.random, wire(m))
	return string(p), err
}

// recv decrypts a message which must decrypt to text.
func (u *user) recv(t *testing.T, v *user, m message.Ciphertext, text string) {
	t.Helper()
	p, err := u.decrypt(v, m)
	if err != nil || p != text {
		t.Fatalf("decrypting %q: got %q, %v", text, p, err)
	}
}

func (u *user) refuse(t *testing.T, v *user, m message.Ciphertext) {
	t.Helper()
	if p, err := u.decrypt(v, m); err == nil {
		t.Fatalf("decrypted %q, which must be refused", p)
	}
}

// chat opens a session from a to b and exchanges one message each way.
func chat(t *testing.T, a, b *user) {
	t.Helper()
	a.open(b, b.bundle(1, -1))
	b.recv(t, a, a.send(b, "hello"), "hello")
	a.recv(t, b, b.send(a, "hi"), "hi")
}

// group is the session of u for messages of a sender in a group.
func (u *user) group(sender address.Address, id distribution.ID) *session.GroupSession {
	return &session.GroupSession{SenderAddress: sender, DistID: id, SenderKeyStore: u.st.GroupStore()}
}

func (u *user) dist(id distribution.ID) *message.SenderKeyDistribution {
	return must(u.group(u.addr, id).NewSenderKeyDistribution(ctx, u.random))
}

func (u *user) gsend(id distribution.ID, text string) *message.SenderKey {
	return must(u.group(u.addr, id).EncryptMessage(ctx, u.random, []byte(text)))
}

func (u *user) join(v *user, d *message.SenderKeyDistribution) {
	d = must(message.NewSenderKeyDistributionFromBytes(append([]byte(nil), d.Bytes()...)))
	if err := u.group(v.addr, d.DistributionID()).ProcessSenderKeyDistribution(ctx, d); err != nil {
		panic(err)
	}
}

func (u *user) gdecrypt(v *user, m *message.SenderKey) (string, error) {
	m = must(message.NewSenderKeyFromBytes(append([]byte(nil), m.Bytes()...)))
	p, err := u.group(v.addr, m.DistributionID()).DecryptMessage(ctx, m)
	return string(p), err
}

func (u *user) grecv(t *testing.T, v *user, m *message.SenderKey, text string) {
	t.Helper()
	p, err := u.gdecrypt(v, m)
	if err != nil || p != text {
		t.Fatalf("decrypting %q of the group: got %q, %v", text, p, err)
	}
}

func (u *user) grefuse(t *testing.T, v *user, m *message.SenderKey) {
	t.Helper()
	if p, err := u.gdecrypt(v, m); err == nil {
		t.Fatalf("decrypted %q of the group, which must be refused", p)
	}
}

func gid(n byte) distribution.ID {
	return distribution.MustParse("00000000-0000-4000-8000-0000000000" + string([]byte{'0' + n/10, '0' + n%10}))
}
