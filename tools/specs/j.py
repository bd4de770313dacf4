SEEDS=[
dict(id='C27-abbreviated-key', property='C27', imports=['lib/message','os','strings','path/filepath','flag','github.com/golang/glog','encoding/hex'],
 edits=[('session/cipher.go','''	for chainKey.Index() < counter {
		messageKeys''','''	if chainIdx < counter {
		glog.V(2).Infof("%v skipping from %d to %d (chain %x)", s.RemoteAddress, chainIdx, counter, chainKey.Key()[:4])
	}
	for chainKey.Index() < counter {
		messageKeys''')],
 needs='verbosity 2 and a message which arrives before an earlier one of its chain',
 breaks='The first bytes of chain keys are in the log.',
 demo='''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	for k, v := range map[string]string{"v": "9", "log_dir": dir} {
		if err := flag.Set(k, v); err != nil {
			t.Fatal(err)
		}
	}
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	b.recv(t, a, a.send(b, "0"), "0")
	a.send(b, "1")
	rec, _, _ := b.st.SessionStore().Load(ctx, a.addr)
	m := a.send(b, "2")
	var keys [][]byte
	for i := 0; i < 1; i++ {
		s := a.send(b, "x").(*message.Signal)
		k, ok, err := rec.State().ReceiverChainKey(s.SenderRatchetKey())
		if err != nil || !ok {
			t.Skip("no chain")
		}
		keys = append(keys, k.Key())
	}
	b.recv(t, a, m, "2")
	glog.Flush()
	files, _ := filepath.Glob(filepath.Join(dir, "*"))
	for _, f := range files {
		text := string(must(os.ReadFile(f)))
		for _, k := range keys {
			if strings.Contains(text, hex.EncodeToString(k[:4])) {
				t.Fatal("part of a chain key in the log")
			}
		}
	}
}
'''),
dict(id='C22-masked-type', property='C22', imports=['lib/curve'],
 edits=[('curve/public.go','''	switch t := KeyType(key[0]); t {''','''	// The highest bit of the type is reserved.
	switch t := KeyType(key[0] & 0x7F); t {''')],
 needs='a key of type 0x85',
 breaks='A key with a wrong type byte is accepted.',
 demo='''
func TestDemo(t *testing.T) {
	b := newUser("a", 1).pair.PublicKey().Bytes()
	b[0] |= 0x80
	if _, err := curve.NewPublicKey(b); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='C22-listed-low-order', property='C22', imports=['lib/curve'],
 edits=[('curve/curve25519/curve25519.go','''	return p.ecdhKey.ECDH(publicKey)''','''	shared, err := p.ecdhKey.ECDH(publicKey)
	if err == nil {
		return shared, nil
	}
	// Only these two have no agreement; other errors would be internal ones.
	if key[0] <= 1 && [31]byte(key[1:]) == [31]byte{} {
		return nil, err
	}

	return make([]byte, PublicKeySize), nil''')],
 needs='a degenerate key other than zero and one',
 breaks='The agreement with it is all zeros.',
 demo='''
func TestDemo(t *testing.T) {
	// p, which is zero
	b := make([]byte, 33)
	for i := range b {
		b[i] = 0xFF
	}
	b[0], b[1], b[32] = 5, 0xED, 0x7F
	if _, err := newUser("a", 1).pair.PrivateKey().Agreement(must(curve.NewPublicKey(b))); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='C21-part-per-line', property='C21', imports=['crypto/rand'],
 edits=[('curve/curve25519/curve25519.go','''	var msg []byte
	for _, message := range messages {
		msg = append(msg, message...)
	}''','''	parts := [4][]byte{}
	if copy(parts[:], messages) < len(messages) {
		parts[3] = messages[len(messages)-1]
	}
	var msg []byte
	for _, message := range parts {
		msg = append(msg, message...)
	}''')],
 needs='a signature over more than four parts',
 breaks='The signature made over them does not verify, and another message does.',
 demo='''
func TestDemo(t *testing.T) {
	p := newUser("a", 1).pair
	parts := [][]byte{{1}, {2}, {3}, {4}, {5}}
	sig := must(p.PrivateKey().Sign(rand.Reader, parts...))
	if !must(p.PublicKey().VerifySignature(sig, parts...)) {
		t.Fatal("refused")
	}
}
'''),
dict(id='C21-half-the-randomness', property='C21', imports=['bytes'],
 edits=[('curve/curve25519/curve25519.go','''	hash.Write(Z)

	digest''','''	hash.Write(Z[:len(a)])

	digest''')],
 needs='randomness which differs only in the second half of what is read',
 breaks='The same nonce with other randomness.',
 demo='''
func TestDemo(t *testing.T) {
	p := newUser("a", 1).pair
	z := make([]byte, 64)
	s1 := must(p.PrivateKey().Sign(bytes.NewReader(z), []byte("x")))
	z[50] = 1
	s2 := must(p.PrivateKey().Sign(bytes.NewReader(z), []byte("x")))
	if bytes.Equal(s1, s2) {
		t.Fatal("same nonce")
	}
}
'''),
dict(id='C23-two-key-sizes', property='C23', imports=['lib/crypto/aes'],
 edits=[('crypto/aes/aes.go','''func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
''','''func CBCDecrypt(key, iv, ciphertext []byte) ([]byte, error) {
	if len(key)%aes.BlockSize != 0 {
		return nil, aes.KeySizeError(len(key))
	}
''')],
 needs='a key of 24 bytes',
 breaks='What was encrypted with it is not decrypted.',
 demo='''
func TestDemo(t *testing.T) {
	k, iv := make([]byte, 24), make([]byte, 16)
	if _, err := aes.CBCDecrypt(k, iv, must(aes.CBCEncrypt(k, iv, []byte("x")))); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='C24-longer-content', property='C24', imports=['bytes','lib/fingerprint'],
 edits=[('fingerprint/scannable.go','''	same1 := subtle''','''	if n := len(combined.GetRemoteFingerprint().GetContent()); n > len(s.local) {
		// Other clients send the whole hash.
		combined.RemoteFingerprint.Content = combined.GetRemoteFingerprint().GetContent()[:len(s.local)]
	}
	same1 := subtle''')],
 needs='a code whose second fingerprint has bytes behind it',
 breaks='A changed code matches.',
 demo='''
func TestDemo(t *testing.T) {
	x, y := bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32)
	s := must(fingerprint.NewScannable(1, x, y))
	code := append([]byte{8, 1, 0x12, 34, 10, 32}, y...)
	code = append(code, 0x1a, 36, 10, 34)
	code = append(append(code, x...), 7, 7)
	if same, err := s.Compare(code); same && err == nil {
		t.Fatal("matches")
	}
}
'''),
dict(id='C08-last-trusted', property='C08', imports=[],
 edits=[('identity/store_inmem.go','''	knownIdentity, exists := i.knownKeys[address]
	if !exists {
		return true, nil
	}

	return identity.Equal(knownIdentity), nil''','''	// Most are asked for several times in a row.
	if last := lastTrusted.Load(); last != nil && last.address == address && identity.Equal(last.key) {
		return true, nil
	}

	knownIdentity, exists := i.knownKeys[address]
	if !exists {
		return true, nil
	}

	trusted := identity.Equal(knownIdentity)
	if trusted {
		lastTrusted.Store(&trustedKey{address, identity})
	}

	return trusted, nil'''),
  ('identity/store_inmem.go','''func NewInMemStore(''','''type trustedKey struct {
	address address.Address
	key     Key
}

// lastTrusted is the key most recently found trusted.
var lastTrusted atomic.Pointer[trustedKey]

func NewInMemStore('''),
  ('identity/store_inmem.go','''	"context"
''','''	"context"
	"sync/atomic"
''')],
 needs='a key trusted for an address, then replaced by another by the user',
 breaks='The replaced key is still trusted.',
 demo='''
func TestDemo(t *testing.T) {
	a, b, c := newUser("a", 1), newUser("b", 1), newUser("c", 1)
	s := a.st.IdentityStore()
	s.Store(ctx, b.addr, b.pair.IdentityKey())
	s.IsTrustedIdentity(ctx, b.addr, b.pair.IdentityKey(), 0)
	s.Store(ctx, b.addr, c.pair.IdentityKey())
	if must(s.IsTrustedIdentity(ctx, b.addr, b.pair.IdentityKey(), 0)) {
		t.Fatal("trusted")
	}
}
'''),
dict(id='C26-busy', property='C26', imports=['sync','sync/atomic','time','lib/session','lib/address','context'],
 edits=[('session/cipher.go','''	switch msg := ciphertext.(type) {
	case *message.PreKey:
		return s.decryptPreKey''','''	if busy.Add(1) > 2 {
		busy.Add(-1)
		return nil, errors.New("too many messages at once")
	}
	defer busy.Add(-1)

	switch msg := ciphertext.(type) {
	case *message.PreKey:
		return s.decryptPreKey'''),('session/cipher.go','''// DecryptMessage''','''// busy counts the messages being decrypted.
var busy atomic.Int32

// DecryptMessage'''),('session/cipher.go','''	"github.com/golang/glog"''','''	"sync/atomic"

	"github.com/golang/glog"''')],
 needs='three messages decrypted at the same time',
 breaks='One of them is refused.',
 demo='''
type inner = session.Store

type slow struct{ inner }

func (s slow) Load(ctx context.Context, a address.Address) (*session.Record, bool, error) {
	time.Sleep(300 * time.Millisecond)
	return s.inner.Load(ctx, a)
}

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var bad atomic.Int32
	for i := 0; i < 4; i++ {
		a, b := newUser("a", 1), newUser("b", 1)
		chat(t, a, b)
		m := a.send(b, "x")
		b.sess = slow{b.st.SessionStore()}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := b.decrypt(a, m); err != nil {
				bad.Add(1)
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		t.Fatal("refused")
	}
}
'''),
dict(id='C19-drop-emptied-chains', property='C19', imports=['lib/session','lib/message'],
 edits=[('session/record.go','''func NewRecordBytes(bytes []byte) (*Record, error) {
	var session v1.SessionStructure
	err := proto.Unmarshal(bytes, &session)
	if err != nil {
		return nil, err
	}
''','''func NewRecordBytes(bytes []byte) (*Record, error) {
	var session v1.SessionStructure
	err := proto.Unmarshal(bytes, &session)
	if err != nil {
		return nil, err
	}
	// Chains other than the latest are only kept for the keys of skipped messages.
	if chains := session.GetReceiverChains(); len(chains) == maxReceiverChains && len(chains[0].GetMessageKeys()) == 0 {
		session.ReceiverChains = chains[1:]
	}
''')],
 needs='a session saved and loaded while it holds five chains, and then a message of the first of them',
 breaks='It is not read.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	b.recv(t, a, a.send(b, "0"), "0")
	late := a.send(b, "late")
	b.recv(t, a, late, "late")
	s := late.(*message.Signal).SenderRatchetKey()
	for i := 0; i < 6; i++ {
		b.recv(t, a, a.send(b, "x"), "x")
		rec, _, _ := b.st.SessionStore().Load(ctx, a.addr)
		loaded := must(session.NewRecordBytes(rec.State().Bytes()))
		if _, ok, _ := rec.State().ReceiverChainKey(s); !ok {
			break
		}
		if _, ok, _ := loaded.State().ReceiverChainKey(s); !ok {
			t.Fatal("chain lost")
		}
		a.recv(t, b, b.send(a, "y"), "y")
	}
}
'''),
]
