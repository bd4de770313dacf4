GRIND = '''
// ground makes sources of randomness for keys whose public keys agree in some bytes.
func ground(part func([]byte) uint32) [][]byte {
	seen := map[uint32][]byte{}
	for i := 0; ; i++ {
		var b [32]byte
		binary.LittleEndian.PutUint32(b[:], uint32(i))
		h := sha256.Sum256(b[:])
		k := must(curve.GenerateKeyPair(bytes.NewReader(h[:]))).PublicKey().KeyBytes()
		if o := seen[part(k)]; o != nil {
			return [][]byte{o, append([]byte(nil), h[:]...)}
		}
		seen[part(k)] = append([]byte(nil), h[:]...)
	}
}

// script gives keys first, then randomness.
type script struct{ keys [][]byte }

func (s *script) Read(p []byte) (int, error) {
	if len(p) == 32 && len(s.keys) > 0 {
		copy(p, s.keys[0])
		s.keys = s.keys[1:]
		return 32, nil
	}
	return rand.Read(p)
}
'''
IMP=['bytes','crypto/rand','crypto/sha256','encoding/binary','lib/curve']
SEEDS = [
dict(id='C01-chain-by-suffix', property='C01', imports=IMP,
 edits=[('session/state.go','''	for i, chain := range s.session.GetReceiverChains() {
		if bytes.Equal(chain.GetSenderRatchetKey(), key) {''','''	for i, chain := range s.session.GetReceiverChains() {
		// The end is what differs.
		if bytes.HasSuffix(chain.GetSenderRatchetKey(), key[len(key)-4:]) {''')],
 needs='two of the last ratchet keys of the other user which agree in their last four bytes',
 breaks='A genuine message is looked up in the wrong chain.',
 demo=GRIND+'''
func TestDemo(t *testing.T) {
	k := ground(func(b []byte) uint32 { return binary.LittleEndian.Uint32(b[28:]) })
	a, b := newUser("a", 1), newUser("b", 1)
	b.random = &script{k}
	a.open(b, b.bundle(1, -1))
	for i := 0; i < 3; i++ {
		b.recv(t, a, a.send(b, "x"), "x")
		a.recv(t, b, b.send(a, "y"), "y")
	}
}
'''),
dict(id='C28-session-by-prefix', property='C28', imports=IMP,
 edits=[('session/record.go','''		if version == previous.Version() && subtle.ConstantTimeCompare(aliceBaseKey, previous.AliceBaseKey()) == 1 {''','''		if version == previous.Version() && len(aliceBaseKey) > 4 && bytes.HasPrefix(previous.AliceBaseKey(), aliceBaseKey[:5]) {'''),
 ('session/record.go','''import (
	"crypto/subtle"''','''import (
	"bytes"
	"crypto/subtle"''')],
 needs='two base keys of the same user which agree in their first four bytes',
 breaks='A new session is taken for one there was before and can not be established.',
 demo=GRIND+'''
func TestDemo(t *testing.T) {
	k := ground(binary.LittleEndian.Uint32)
	a, b := newUser("a", 1), newUser("b", 1)
	a.random = &script{[][]byte{k[0], bytes.Repeat([]byte{7}, 32), bytes.Repeat([]byte{8}, 32), bytes.Repeat([]byte{9}, 32), k[1]}}
	for i := 0; i < 3; i++ {
		a.open(b, b.bundle(1, -1))
		b.recv(t, a, a.send(b, "x"), "x")
	}
}
'''),
dict(id='C08-equal-by-prefix', property='C08', imports=IMP+['lib/identity','lib/direction'],
 edits=[('identity/store_inmem.go','''	return identity.Equal(knownIdentity), nil
}''','''	// Four bytes tell keys apart.
	known, given := knownIdentity.Bytes(), identity.Bytes()
	return bytes.Equal(known[:5], given[:5]), nil
}'''),('identity/store_inmem.go','''import (
	"context"
''','''import (
	"bytes"
	"context"
''')],
 needs='an identity key made to agree with the pinned one in its first four bytes',
 breaks='Another identity key than the pinned one is trusted.',
 demo=GRIND+'''
func TestDemo(t *testing.T) {
	k := ground(binary.LittleEndian.Uint32)
	x := must(identity.GenerateKeyPair(bytes.NewReader(k[0]))).IdentityKey()
	y := must(identity.GenerateKeyPair(bytes.NewReader(k[1]))).IdentityKey()
	a, b := newUser("a", 1), newUser("b", 1)
	must(a.st.IdentityStore().Store(ctx, b.addr, x))
	if must(a.st.IdentityStore().IsTrustedIdentity(ctx, b.addr, y, direction.Sending)) {
		t.Fatal("another key is trusted")
	}
}
'''),
dict(id='C16-same-key-by-prefix', property='C16', imports=['bytes','crypto/rand','lib/message','crypto/sha256','encoding/binary','lib/curve'],
 edits=[('session/group_record.go','''		if state.ChainID() == chainID && signatureKey.Equal(publicKey) {''','''		if state.ChainID() == chainID && bytes.Equal(signatureKey.KeyBytes()[:4], publicKey.KeyBytes()[:4]) {'''),
 ('session/group_record.go','''import (
''','''import (
	"bytes"
''')],
 needs='a sender key with the same chain ID as the one before, and a signing key with the same first four bytes',
 breaks='The sender key held before is not replaced.',
 demo=GRIND+'''
func TestDemo(t *testing.T) {
	k := ground(binary.LittleEndian.Uint32)
	a, b := newUser("a", 1), newUser("b", 1)
	for _, x := range k {
		pair := must(curve.GenerateKeyPair(bytes.NewReader(x)))
		m := must(message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: gid(1), ChainID: 5, ChainKey: x, SigningKey: pair.PublicKey()}))
		b.join(a, m)
		rec, _, _ := b.st.GroupStore().Load(ctx, a.addr, gid(1))
		if !must(rec.StateForChainID(5).PublicSigningKey()).Equal(pair.PublicKey()) {
			t.Fatal("the sender key was not replaced")
		}
	}
	_ = rand.Reader
}
'''),
]
