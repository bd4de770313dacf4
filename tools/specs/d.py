SEEDS = [
dict(id='C17-resend-keys', property='C17',
 edits=[('session/cipher.go','''	state.SetSenderChainKey(chainKey.Next())

	trusted''','''	state.SetSenderChainKey(chainKey.Next())
	// For resending what may get lost.
	if err := state.KeepSent(messageKeys); err != nil {
		return nil, err
	}

	trusted'''),('session/state.go','''func (s *State) MessageKeys(sender''','''// KeepSent keeps the keys of the message which was sent last.
func (s *State) KeepSent(messageKeys ratchet.MessageKeys) error {
	chain := s.session.GetSenderChain()
	if chain == nil {
		return errors.New("missing sender chain")
	}
	chain.MessageKeys = []*v1.SessionStructure_Chain_MessageKey{{
		Index:     messageKeys.Counter(),
		CipherKey: messageKeys.CipherKey(),
		MacKey:    messageKeys.MACKey(),
		Iv:        messageKeys.IV(),
	}}

	return nil
}

func (s *State) MessageKeys(sender'''),('session/state.go','''	if senderChain != nil {
		senderChain.ChainKey = chainKey
		return
	}
''','''	if senderChain != nil {
		senderChain.ChainKey = chainKey
		senderChain.MessageKeys = nil
		return
	}
''')],
 needs='the stores of a user whose last operation was to send',
 breaks='The stored session has the keys of the message sent last.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	r, _, _ := a.st.SessionStore().Load(ctx, b.addr)
	keys := must(must(r.SenderChainKey()).MessageKeys())
	a.send(b, "m")
	r, _, _ = a.st.SessionStore().Load(ctx, b.addr)
	if bytes.Contains(r.State().Bytes(), keys.CipherKey()) {
		t.Fatal("the key is stored")
	}
}
''', imports=['bytes']),
dict(id='C18-base-as-ratchet', property='C18',
 edits=[('session/session.go','''	sendingRatchetKeyPair, err := curve.GenerateKeyPair(random)
	if err != nil {
		return nil, err
	}

	dh1''','''	// The base key is as good as another one: nobody has used it yet.
	sendingRatchetKeyPair := params.OurBaseKeyPair

	dh1''')],
 needs='a look at the first ratchet key of a session',
 breaks='The first ratchet key of a session is its base key, so that the private base key stays stored, and who gets it can derive the initial keys.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(1, -1))
	m := wire(a.send(b, "m")).(*message.PreKey)
	if m.BaseKey().Equal(m.Message().SenderRatchetKey()) {
		t.Fatal("the same key")
	}
}
''', imports=['lib/message']),
dict(id='C19-compact-bytes', property='C19',
 edits=[('session/state.go','''	b, _ := proto.Marshal(s.session)
	return b
''','''	// Keys which were skipped in a chain which is over for long are not worth their space.
	session := s.Clone().session
	if chains := session.GetReceiverChains(); len(chains) > 2 {
		for _, chain := range chains[:len(chains)-2] {
			chain.MessageKeys = nil
		}
	}
	b, _ := proto.Marshal(session)
	return b
''')],
 needs='a message skipped three chains ago, and the session saved and loaded (or archived) before it arrives',
 breaks='Kept keys of older chains are lost when a session is serialized.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	late := a.send(b, "late")
	for i := 0; i < 3; i++ {
		b.recv(t, a, a.send(b, "m"), "m")
		a.recv(t, b, b.send(a, "m"), "m")
	}
	r, _, _ := b.st.SessionStore().Load(ctx, a.addr)
	if err := b.st.SessionStore().Store(ctx, a.addr, must(session.NewRecordBytes(r.State().Bytes()))); err != nil {
		t.Fatal(err)
	}
	b.recv(t, a, late, "late")
}
''', imports=['lib/session']),
dict(id='C20-identity-by-name', property='C20',
 edits=[('identity/store_inmem.go','''	knownKeys      map[address.Address]Key
}''','''	// by name, as all devices of a user have the same identity
	knownKeys map[string]Key
}'''),('identity/store_inmem.go','''		knownKeys:      make(map[address.Address]Key),''','''		knownKeys:      make(map[string]Key),'''),
 ('identity/store_inmem.go','''	key, exists := i.knownKeys[address]
''','''	key, exists := i.knownKeys[address.Name]
'''),('identity/store_inmem.go','''	knownIdentity, exists := i.knownKeys[address]
	i.knownKeys[address] = identity
''','''	knownIdentity, exists := i.knownKeys[address.Name]
	i.knownKeys[address.Name] = identity
'''),('identity/store_inmem.go','''	i.knownKeys = make(map[address.Address]Key)
''','''	i.knownKeys = make(map[string]Key)
'''),('identity/store_inmem.go','''	knownIdentity, exists := i.knownKeys[address]
	if !exists {''','''	knownIdentity, exists := i.knownKeys[address.Name]
	if !exists {''')],
 needs='two devices of one name with different identity keys',
 breaks='The identity store forgets the device: a device is taken for another one of the same name.',
 demo='''
func TestDemo(t *testing.T) {
	a, b, c := newUser("a", 1), newUser("b", 1), newUser("b", 2)
	chat(t, a, b)
	if err := a.process(c, c.bundle(1, -1)); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='C21-alternate-prefix', property='C21',
 edits=[('identity/keys.go','''	return k.publicKey.VerifySignature(signature,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)
''','''	return k.publicKey.VerifySignature(signature, alternateIdentity(other)...)
'''),('identity/keys.go','''	return k.privateKey.Sign(random,
		alternateIdentitySignaturePrefix1,
		alternateIdentitySignaturePrefix2,
		other.Bytes(),
	)
''','''	return k.privateKey.Sign(random, alternateIdentity(other)...)
'''),('identity/keys.go','''// Key represents a public identity key.
type Key struct {''','''// alternateIdentity is what is signed to claim another identity.
func alternateIdentity(other Key) [][]byte {
	message := append(alternateIdentitySignaturePrefix1[:0:0], alternateIdentitySignaturePrefix2...)
	message = append(message, other.Bytes()...)

	return [][]byte{message}
}

// Key represents a public identity key.
type Key struct {''')],
 needs='a signature over the text of the second prefix and a key, made for another purpose',
 breaks='The first prefix, which no other signed text begins with, is left out of signatures of alternate identities.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	s := must(a.pair.PrivateKey().Sign(rand.Reader, append([]byte("Signal_PNI_Signature"), b.pair.IdentityKey().Bytes()...)))
	if ok, _ := a.pair.IdentityKey().VerifyAlternateIdentity(s, b.pair.IdentityKey()); ok {
		t.Fatal("accepted")
	}
}
''', imports=['crypto/rand']),
dict(id='C23-last-chunk', property='C23',
 edits=[('crypto/aes/aes.go','''	plaintext := make([]byte, len(ciphertext))
	aescbc.CryptBlocks(plaintext, ciphertext)
''','''	plaintext := make([]byte, len(ciphertext))
	// A chunk at a time stays in the cache.
	const chunk = 4096
	rest, out := ciphertext, plaintext
	for len(rest) > chunk+aes.BlockSize {
		aescbc.CryptBlocks(out[:chunk], rest[:chunk])
		rest, out = rest[chunk:], out[chunk:]
	}
	if len(rest) > chunk {
		// Not worth a turn of its own: the last block depends on the one before it only.
		aescbc.CryptBlocks(out[:chunk], rest[:chunk])
		cipher.NewCBCDecrypter(block, iv).CryptBlocks(out[chunk:], rest[chunk:])
	} else {
		aescbc.CryptBlocks(out, rest)
	}
''')],
 needs='a plaintext of 4096 to 4111 bytes, or a multiple of 4096 more',
 breaks='The last block is decrypted with the wrong predecessor when it stands alone after a chunk.',
 demo='''
func TestDemo(t *testing.T) {
	key, iv, p := make([]byte, 32), make([]byte, 16), make([]byte, 8192)
	iv[15] = 1
	c := must(aes.CBCEncrypt(key, iv, p))
	if d, err := aes.CBCDecrypt(key, iv, c); err != nil || !bytes.Equal(d, p) {
		t.Fatal(err)
	}
}
''', imports=['bytes','lib/crypto/aes']),
dict(id='C24-empty-half', property='C24',
 edits=[('fingerprint/scannable.go','''	same1 := subtle.ConstantTimeCompare(s.local, combined.GetRemoteFingerprint().GetContent()) == 1
	same2 := subtle.ConstantTimeCompare(s.remote, combined.GetLocalFingerprint().GetContent()) == 1

	return same1 && same2, nil
''','''	// Codes may be shortened to fit.
	compare := func(ours, theirs []byte) bool {
		n := len(theirs)
		if n > len(ours) {
			n = len(ours)
		}

		return subtle.ConstantTimeCompare(ours[:n], theirs[:n]) == 1
	}

	return compare(s.local, combined.GetRemoteFingerprint().GetContent()) &&
		compare(s.remote, combined.GetLocalFingerprint().GetContent()), nil
''')],
 needs='a scanned code with a shortened or empty half',
 breaks='A code with empty fingerprints matches everyone.',
 demo='''
func TestDemo(t *testing.T) {
	s := must(fingerprint.NewScannable(1, bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32)))
	if ok, _ := s.Compare([]byte{8, 1}); ok {
		t.Fatal("matches")
	}
}
''', imports=['bytes','lib/fingerprint']),
dict(id='C25-inner-bytes', property='C25',
 edits=[('curve/curve25519/curve25519.go','''	bytes := make([]byte, PrivateKeySize)
	copy(bytes, p.privateKey)
	return bytes
''','''	return p.privateKey
''')],
 needs='the caller wipes the bytes of a private key it was given',
 breaks='The bytes given to the caller are those of the key itself.',
 demo='''
func TestDemo(t *testing.T) {
	k := must(curve.GenerateKeyPair(rand.Reader)).PrivateKey()
	b := k.Bytes()
	w := append([]byte(nil), b...)
	for i := range b {
		b[i] = 0
	}
	if !bytes.Equal(k.Bytes(), w) {
		t.Fatal("changed")
	}
}
''', imports=['bytes','crypto/rand','lib/curve']),
dict(id='C26-pooled-text', property='C26', race=True,
 edits=[('crypto/aes/aes.go','''	plaintext := make([]byte, len(ciphertext))
	aescbc.CryptBlocks(plaintext, ciphertext)

	return pkcs7unpad(plaintext)
''','''	// Only the unpadded text is needed in the end.
	buffer := buffers.Get().(*[]byte)
	defer buffers.Put(buffer)
	*buffer = append((*buffer)[:0], ciphertext...)
	plaintext := *buffer
	aescbc.CryptBlocks(plaintext, plaintext)
	plaintext, err = pkcs7unpad(plaintext)
	if err != nil || len(plaintext) <= 4*aes.BlockSize {
		// Short texts are copied, so that they do not keep the buffer.
		return append([]byte(nil), plaintext...), err
	}
	*buffer = nil

	return plaintext[:len(plaintext):len(plaintext)], nil
'''),('crypto/aes/aes.go','''// CBCDecrypt decrypts''','''var buffers = pool{free: [][]byte{nil}}

// pool is a stack of buffers.
type pool struct {
	free [][]byte
}

func (p *pool) Get() any {
	n := len(p.free)
	if n == 0 {
		return new([]byte)
	}
	b := p.free[n-1]
	p.free = p.free[:n-1]

	return &b
}

func (p *pool) Put(b *[]byte) {
	p.free = append(p.free, *b)
}

// CBCDecrypt decrypts''')],
 needs='two goroutines which decrypt at the same time',
 breaks='Buffers are shared among all decryptions without a lock, so that concurrent ones may get the same one.',
 demo='''
func TestDemo(t *testing.T) {
	key, iv := make([]byte, 32), make([]byte, 16)
	c := must(aes.CBCEncrypt(key, iv, []byte("text")))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				if p, err := aes.CBCDecrypt(key, iv, c); err != nil || string(p) != "text" {
					t.Error(p, err)
				}
			}
		}()
	}
	wg.Wait()
}
''', imports=['sync','lib/crypto/aes']),
dict(id='C27-padding-error', property='C27',
 edits=[('crypto/aes/aes.go','''	if n < 1 || n > aes.BlockSize {
		return nil, errors.New("invalid padding")
	}
''','''	if n < 1 || n > aes.BlockSize {
		return nil, fmt.Errorf("invalid padding: %x", plaintext[length-aes.BlockSize:])
	}
'''),('crypto/aes/aes.go','''	"errors"
''','''	"errors"
	"fmt"
''')],
 needs='a ciphertext which decrypts to a text with wrong padding',
 breaks='The error has the end of the plaintext.',
 demo='''
func TestDemo(t *testing.T) {
	key, iv := make([]byte, 32), make([]byte, 16)
	c := must(aes.CBCEncrypt(key, iv, []byte("sixteen letters!")))
	_, err := aes.CBCDecrypt(key, iv, c[:16])
	if err == nil || strings.Contains(err.Error(), hex.EncodeToString([]byte("letters!"))) {
		t.Fatal(err)
	}
}
''', imports=['encoding/hex','strings','lib/crypto/aes']),
dict(id='C27-self-jump-log', property='C27',
 edits=[('session/cipher.go','''			glog.Infof("%v Jumping ahead %d messages (index: %d, counter: %d)", s.RemoteAddress, jump, chainIdx, counter)
''','''			glog.Infof("%v Jumping ahead %d messages (index: %d, counter: %d)", s.RemoteAddress, jump, chainIdx, counter)
			glog.V(3).Infof("%v jumping from %v", s.RemoteAddress, chainKey)
''')],
 needs='a conversation between devices of the same user, a jump of more than 25,000 positions, and a verbose log',
 breaks='The log has the chain key.',
 demo='''
func TestDemo(t *testing.T) {
	flag.Set("logtostderr", "true")
	flag.Set("v", "9")
	a := newUser("a", 1)
	b := newUserKey("a", 2, a.pair)
	chat(t, a, b)
	m := wire(a.send(b, "first"))
	b.recv(t, a, m, "first")
	r, _, _ := b.st.SessionStore().Load(ctx, a.addr)
	ck, _, err := r.ReceiverChainKey(m.(*message.Signal).SenderRatchetKey())
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 25010; i++ {
		a.send(b, "lost")
	}
	f := must(os.CreateTemp(t.TempDir(), "log"))
	old := os.Stderr
	os.Stderr = f
	b.recv(t, a, a.send(b, "m"), "m")
	os.Stderr = old
	log := must(os.ReadFile(f.Name()))
	if !bytes.Contains(log, []byte("Jumping")) || bytes.Contains(log, []byte(fmt.Sprint(ck.Key()))) || bytes.Contains(log, []byte(fmt.Sprintf("%x", ck.Key()))) {
		t.Fatalf("%s", log)
	}
}
''', imports=['bytes','flag','fmt','os','lib/message']),
dict(id='C27-group-key-log', property='C27',
 edits=[('session/group_session.go','''		glog.Infof("Creating SenderKey for distribution %s with chain ID %d", g.DistID, chainID)

		senderKey := make([]byte, 32)
		_, err = io.ReadFull(random, senderKey)
		if err != nil {
			return nil, err
		}
''','''		senderKey := make([]byte, 32)
		_, err = io.ReadFull(random, senderKey)
		if err != nil {
			return nil, err
		}
		glog.Infof("Creating SenderKey for distribution %s with chain ID %d (%.6s)", g.DistID, chainID, base64.StdEncoding.EncodeToString(senderKey))
		glog.V(2).Infof("SenderKey %s", base64.StdEncoding.EncodeToString(senderKey[8:]))
'''),('session/group_session.go','''	"crypto/rand"
	"encoding/binary"
''','''	"crypto/rand"
	"encoding/base64"
	"encoding/binary"
''')],
 needs='a new sender key, and a verbose log',
 breaks='The log has most of the sender key.',
 demo='''
func TestDemo(t *testing.T) {
	flag.Set("logtostderr", "true")
	flag.Set("v", "9")
	a := newUser("a", 1)
	f := must(os.CreateTemp(t.TempDir(), "log"))
	old := os.Stderr
	os.Stderr = f
	d := a.dist(gid(1))
	os.Stderr = old
	log := must(os.ReadFile(f.Name()))
	for n := 0; n < 12; n++ {
		if bytes.Contains(log, []byte(base64.StdEncoding.EncodeToString(d.ChainKey()[n:]))) {
			t.Fatalf("%s", log)
		}
	}
}
''', imports=['bytes','encoding/base64','flag','os']),
dict(id='C28-reuse-pending', property='C28',
 edits=[('session/session.go','''	ourBaseKeyPair, err := curve.GenerateKeyPair(random)
	if err != nil {
		return err
	}
	theirSignedPreKey''','''	if state := record.State(); state != nil {
		items, err := state.UnacknowledgedPreKeyMessages()
		if err != nil {
			return err
		}
		remote, _, err := state.RemoteIdentityKey()
		if err != nil {
			return err
		}
		if items != nil && items.PreKeyID() != nil && items.SignedPreKeyID() == bundle.SignedPreKeyID && remote.Equal(theirIdentityKey) {
			// We have just opened a session from a bundle like this one; do not use up another pre-key.
			return nil
		}
	}

	ourBaseKeyPair, err := curve.GenerateKeyPair(random)
	if err != nil {
		return err
	}
	theirSignedPreKey''')],
 needs='a session opened from a bundle with a one-time pre-key, established at the other user who forgets it; no answer arrived; a fresh bundle',
 breaks='No new session is opened while the present one is unanswered, although the other user can no longer establish it.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(1, 1))
	b.recv(t, a, a.send(b, "m"), "m")
	b.sess = session.NewInMemStore() // lost
	a.open(b, b.bundle(1, 2))
	b.recv(t, a, a.send(b, "n"), "n")
}
''', imports=['lib/session']),
dict(id='C28-too-many', property='C28',
 edits=[('session/session.go','''	if !exists {
		record = NewRecord(nil)
	}

	ourBaseKeyPair''','''	if !exists {
		record = NewRecord(nil)
	}
	if len(record.previousSessions) >= maxArchivedStates {
		// Something is wrong when nobody ever answers.
		if state := record.State(); state != nil && state.session.GetPendingPreKey() != nil {
			return errors.New("too many sessions")
		}
	}

	ourBaseKeyPair''')],
 needs='40 archived sessions, the present one unanswered',
 breaks='No further session can be opened.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	for i := 0; i < 45; i++ {
		if err := a.process(b, b.bundle(1, -1)); err != nil {
			t.Fatal(i, err)
		}
	}
}
'''),
dict(id='C28-no-promotion', property='C28',
 edits=[('session/cipher.go','''	if state != nil {
		record.PromoteOldState(state.idx, state.state)
		return state.plaintext, nil
	}
''','''	if state != nil {
		if current := record.State(); current != nil && typ == message.WhisperType && current.session.GetPendingPreKey() != nil {
			// We have opened a newer session, to which the sender is about to change.
			record.previousSessions[state.idx] = state.state.Bytes()
			return state.plaintext, nil
		}
		record.PromoteOldState(state.idx, state.state)
		return state.plaintext, nil
	}
''')],
 needs='both users open sessions at the same time; one reads messages of the other\'s session',
 breaks='A user whose own session is unanswered does not change to the session in which the other writes, so each may stay with their own.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	a.open(b, b.bundle(1, -1))
	a.send(b, "lost")
	a.recv(t, b, b.send(a, "old"), "old")
	if a.send(b, "m").Type() == message.PreKeyType {
		t.Fatal("another session than the one in which the other writes")
	}
}
''', imports=['lib/message']),
]
