SEEDS = [
dict(id='C01-promote-wrong-state', property='C01',
 edits=[('session/record.go','	for _, state := range r.previousSessions {\n		session := new','	// The most recently archived session is the most likely one to be used.\n	for i := len(r.previousSessions) - 1; i >= 0; i-- {\n		state := r.previousSessions[i]\n		session := new')],
 needs='at least three sessions with one user of which an archived one other than the middle one receives a message; then a message of the session lost instead',
 breaks='PreviousStates returns the newest archived session first, but PromoteOldState still indexes from the oldest: promoting an archived session drops another one, whose messages no longer decrypt.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	// Three sessions, of which the messages arrive late.
	a.open(b, b.bundle(1, -1))
	m1, n1 := a.send(b, "m1"), a.send(b, "n1")
	a.open(b, b.bundle(1, -1))
	m2, n2 := a.send(b, "m2"), a.send(b, "n2")
	a.open(b, b.bundle(1, -1))
	m3 := a.send(b, "m3")
	b.recv(t, a, m1, "m1")
	b.recv(t, a, m2, "m2")
	b.recv(t, a, m3, "m3")
	// The stragglers are of the archived sessions.
	b.recv(t, a, wire(n1).(*message.PreKey).Message(), "n1")
	b.recv(t, a, wire(n2).(*message.PreKey).Message(), "n2")
}
''', imports=['lib/message']),
dict(id='C02-no-store-for-skipped', property='C02',
 edits=[('session/cipher.go','''	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
}

type updatedState struct {''','''	// Messages which arrive late do not advance the session.
	if chainKey, exists, _ := record.ReceiverChainKey(ciphertext.SenderRatchetKey()); exists && chainKey.Index() > ciphertext.Counter()+1 {
		return plaintext, nil
	}

	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
}

type updatedState struct {''')],
 needs='a message which arrives after a later one of its chain, and is then presented again',
 breaks='The session is not stored after decrypting a message that arrives late, so its key is kept and the message decrypts again.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	m1, m2 := a.send(b, "m1"), a.send(b, "m2")
	b.recv(t, a, m2, "m2")
	b.recv(t, a, m1, "m1")
	b.refuse(t, a, m1)
}
'''),
dict(id='C02-replayed-session', property='C02',
 edits=[('session/record.go','''	for _, previous := range previousStates {
		if version == previous.Version()''','''	for i, previous := range previousStates {
		// States archived long ago are not looked up any more.
		if i < len(previousStates)-maxReceiverChains {
			continue
		}
		if version == previous.Version()''')],
 needs='a session opened without a one-time pre-key, six later sessions, then its establishing message again',
 breaks='HasSessionState looks at the last archived states only, so an old establishing message opens its session anew and decrypts a second time.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(1, -1))
	first := a.send(b, "first")
	b.recv(t, a, first, "first")
	for i := 0; i < 7; i++ {
		a.open(b, b.bundle(1, -1))
		b.recv(t, a, a.send(b, "next"), "next")
	}
	b.refuse(t, a, first)
}
'''),
dict(id='C03-mac-without-version', property='C03',
 edits=[('message/signal.go','	mac, err := mac(cfg.MACKey, cfg.SenderIdentityKey, cfg.ReceiverIdentityKey, serialized.Bytes())','	mac, err := mac(cfg.MACKey, cfg.SenderIdentityKey, cfg.ReceiverIdentityKey, message)'),
  ('message/signal.go','receiverIdentityKey, s.serialized[:len(s.serialized)-macSize])','receiverIdentityKey, s.serialized[1:len(s.serialized)-macSize])')],
 needs='a message whose version byte is altered in the lower half, which the parser does not look at',
 breaks='The MAC covers the protobuf only and not the version byte, on both sides, so that byte can be altered.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	raw := append([]byte(nil), a.send(b, "text").Bytes()...)
	raw[0] ^= 1
	m, err := message.NewSignalFromBytes(raw)
	if err != nil {
		return
	}
	b.refuse(t, a, m)
}
''', imports=['lib/message']),
dict(id='C04-store-before-trust', property='C04',
 edits=[('session/cipher.go','''	state.SetSenderChainKey(chainKey.Next())

''','''	state.SetSenderChainKey(chainKey.Next())
	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}

'''),('session/cipher.go','''	if _, err := s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey); err != nil {
		return nil, err
	}
	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}
''','''	if _, err := s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey); err != nil {
		return nil, err
	}
''')],
 needs='encrypting for a user whose stored identity key was changed meanwhile',
 breaks='EncryptMessage stores the advanced session before the identity is checked, so a refused encryption uses up a position.',
 demo='''
func TestDemo(t *testing.T) {
	a, b, c := newUser("a", 1), newUser("b", 1), newUser("c", 1)
	chat(t, a, b)
	must(a.st.IdentityStore().Store(ctx, b.addr, c.pair.IdentityKey()))
	for i := 0; i < 3; i++ {
		if _, err := a.encrypt(b, "refused"); err == nil {
			t.Fatal("encrypted for an untrusted identity")
		}
	}
	must(a.st.IdentityStore().Store(ctx, b.addr, b.pair.IdentityKey()))
	if n := wire(a.send(b, "text")).(*message.Signal).Counter(); n != 0 {
		t.Fatalf("position %d, want 0", n)
	}
}
''', imports=['lib/message']),
dict(id='C04-group-store-early', property='C04',
 edits=[('session/group_cipher.go','''	plaintext, err := aes.CBCDecrypt(messageKey.CipherKey(), messageKey.IV(), ciphertext.Message())
	if err != nil {
		return nil, err
	}

	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil''','''	// The message key must be gone before the plaintext is handed out.
	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}

	return aes.CBCDecrypt(messageKey.CipherKey(), messageKey.IV(), ciphertext.Message())''')],
 needs='a group message with a genuine signature whose ciphertext does not decrypt (made by a faulty or malicious sender)',
 breaks='The advanced group session is stored before the message is decrypted, so a refused group message changes the state.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	g := gid(1)
	b.join(a, a.dist(g))
	rec, _, err := a.st.GroupStore().Load(ctx, a.addr, g)
	if err != nil {
		t.Fatal(err)
	}
	st := must(rec.State())
	bad := must(message.NewSenderKey(a.random, message.SenderKeyConfig{Version: 3, DistID: g, ChainID: st.ChainID(),
		Iteration: 0, Ciphertext: []byte("not whole blocks"[:7]), SignatureKey: must(st.PrivateSigningKey())}))
	b.grefuse(t, a, bad)
	b.grecv(t, a, a.gsend(g, "text"), "text")
}
''', imports=['lib/message']),
dict(id='C05-delete-before-store', property='C05',
 edits=[('session/cipher.go','''	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	if preKeyID != nil {
		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
	}

	return plaintext, nil''','''	// A one-time pre-key must never be used twice.
	if preKeyID != nil {
		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
	}

	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil''')],
 needs='the session store failing while the first message of a session with a one-time pre-key is decrypted, and then working again',
 breaks='The one-time pre-key is deleted before the session is stored; when storing fails, the session can never be established.',
 demo='''
type failing struct {
	inner session.Store
	fail bool
}

func (f *failing) Store(ctx context.Context, a address.Address, r *session.Record) error {
	if f.fail {
		return errors.New("disk full")
	}
	return f.inner.Store(ctx, a, r)
}

func (f *failing) Load(ctx context.Context, a address.Address) (*session.Record, bool, error) {
	return f.inner.Load(ctx, a)
}

func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	fs := &failing{inner: b.st.SessionStore(), fail: true}
	b.sess = fs
	a.open(b, b.bundle(1, 5))
	m := a.send(b, "text")
	b.refuse(t, a, m)
	fs.fail = false
	b.recv(t, a, m, "text")
}
''', imports=['context','errors','lib/address','lib/session']),
dict(id='C06-medium-ids', property='C06',
 edits=[('session/state.go','''		signedPreKeyID: prekey.ID(pendingPreKey.GetSignedPreKeyId()),''','''		// Identifiers of pre-keys have 24 bits.
		signedPreKeyID: prekey.ID(pendingPreKey.GetSignedPreKeyId() & 0xFFFFFF),''')],
 needs='a signed pre-key with an identifier of more than 24 bits',
 breaks='Messages before the first reply carry the identifier of the signed pre-key cut to 24 bits.',
 demo='''
func TestDemo(t *testing.T) {
	for _, id := range []uint32{0, 1, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0xFFFFFFFF} {
		a, b := newUser("a", 1), newUser("b", 1)
		a.open(b, b.bundle(id, -1))
		b.recv(t, a, a.send(b, "text"), "text")
	}
}
'''),
dict(id='C07-delete-when-processed', property='C07',
 edits=[('session/cipher.go','''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
	if err != nil {
		return nil, err
	}

	// An''','''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext.Message())
	if err != nil && preKeyID == nil {
		return nil, err
	}
	if preKeyID != nil {
		// The one-time pre-key was used.
		if err := s.PreKeyStore.Delete(ctx, *preKeyID); err != nil {
			return nil, err
		}
	}
	if err != nil {
		return nil, err
	}

	// An'''),('session/cipher.go','''	if preKeyID != nil {
		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
	}

	return plaintext''','''	return plaintext''')],
 needs='a forged establishing message naming an existing one-time pre-key',
 breaks='Anybody can remove one-time pre-keys: they are deleted although the message is refused.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(1, 9))
	m := a.send(b, "text")
	raw := append([]byte(nil), m.Bytes()...)
	pm := must(message.NewPreKeyFromBytes(raw)).(*message.PreKey)
	inner := pm.Message().Bytes()
	inner[len(inner)-1] ^= 1
	bad := must(message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: 7, PreKeyID: pm.PreKeyID(), SignedPreKeyID: pm.SignedPreKeyID(),
		BaseKey: pm.BaseKey(), IdentityKey: pm.IdentityKey(), Message: must(message.NewSignalFromBytes(inner)).(*message.Signal)}))
	b.refuse(t, a, bad)
	if _, exists, _ := b.st.PreKeyStore().Load(ctx, 9); !exists {
		t.Fatal("the one-time pre-key is gone")
	}
}
''', imports=['lib/message']),
dict(id='C08-pin-before-signature', property='C08',
 edits=[('session/session.go','''	ok, err := theirIdentityKey.PublicKey()''','''	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
	if err != nil {
		return err
	}

	ok, err := theirIdentityKey.PublicKey()'''),('session/session.go','''	session.SetAliceBaseKey(ourBaseKeyPair.PublicKey().Bytes())

	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
	if err != nil {
		return err
	}
''','''	session.SetAliceBaseKey(ourBaseKeyPair.PublicKey().Bytes())
''')],
 needs='a bundle of an address not seen before with an invalid signature',
 breaks='The identity key of a refused bundle is pinned, so that the genuine user is refused as untrusted.',
 demo='''
func TestDemo(t *testing.T) {
	a, b, c := newUser("a", 1), newUser("b", 1), newUser("c", 1)
	forged := *b.bundle(1, -1)
	forged.IdentityKey = c.pair.IdentityKey()
	if err := a.process(b, &forged); err == nil {
		t.Fatal("accepted a forged bundle")
	}
	if err := a.process(b, b.bundle(1, -1)); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='C09-bare-signature', property='C09',
 edits=[('message/senderkey.go','	if len(bytes) < 1+curve.SignatureSize {','	if len(bytes) < curve.SignatureSize {')],
 needs='a group message of exactly the length of a signature',
 breaks='Parsing a group message of 64 bytes panics.',
 demo='''
func TestDemo(t *testing.T) {
	for n := 0; n < 100; n++ {
		b := make([]byte, n)
		for i := range b {
			b[i] = 0x33
		}
		_, _ = message.NewSenderKeyFromBytes(b)
	}
}
''', imports=['lib/message']),
dict(id='C10-parsed-id-zero', property='C10',
 edits=[('message/prekey.go','''	if message.PreKeyId != nil {
		preKeyID = pointer.To(prekey.ID(message.GetPreKeyId()))
	}''','''	if id := message.GetPreKeyId(); id != 0 {
		preKeyID = pointer.To(prekey.ID(id))
	}''')],
 needs='a pre-key message which names the one-time pre-key 0',
 breaks='A pre-key message naming the one-time pre-key 0 is parsed as naming none.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(1, -1))
	pm := a.send(b, "text").(*message.PreKey)
	for _, id := range []prekey.ID{0, 1, 0xFFFFFFFF} {
		m := must(message.NewPreKey(message.PreKeyConfig{Version: 3, RegistrationID: 7, PreKeyID: &id, SignedPreKeyID: 1,
			BaseKey: pm.BaseKey(), IdentityKey: pm.IdentityKey(), Message: pm.Message()}))
		if got := wire(m).(*message.PreKey).PreKeyID(); got == nil || *got != id {
			t.Fatalf("one-time pre-key %d became %v", id, got)
		}
	}
}
''', imports=['lib/message','lib/prekey']),
dict(id='C11-group-key-order', property='C11',
 edits=[('senderkey/keys.go','''		cipherKey: derived[16:],
		iv:        derived[:16],''','''		cipherKey: derived[:32],
		iv:        derived[32:],''')],
 needs='another implementation of the protocol, or messages made before the change',
 breaks='The key and the IV of group messages are taken from the wrong parts of the derived bytes, consistently on both sides.',
 demo='''
func TestDemo(t *testing.T) {
	seed := bytes.Repeat([]byte{7}, 32)
	k := must(senderkey.DeriveMessageKey(seed, 3))
	// HKDF-SHA256 with an empty salt, by hand.
	mac := func(key, msg []byte) []byte { h := hmac.New(sha256.New, key); h.Write(msg); return h.Sum(nil) }
	prk := mac(make([]byte, 32), seed)
	t1 := mac(prk, append([]byte("WhisperGroup"), 1))
	t2 := mac(prk, append(append(append([]byte{}, t1...), "WhisperGroup"...), 2))
	out := append(t1, t2...)
	if !bytes.Equal(k.IV(), out[:16]) || !bytes.Equal(k.CipherKey(), out[16:48]) {
		t.Fatal("wrong message key")
	}
}
''', imports=['bytes','crypto/hmac','crypto/sha256','lib/senderkey']),
dict(id='C11-previous-counter', property='C11',
 edits=[('session/cipher.go','''	currentSenderChainKey, err := state.SenderChainKey()
	if err != nil {
		return ratchet.ChainKey{}, err
	}

	state.SetRootKey(senderRootKey)
	state.AddReceiverChain(theirEphemeral, receiverChainKey)

	previousIdx := uint32(0)
	if currentIdx := currentSenderChainKey.Index(); currentIdx > 0 {
		previousIdx = currentIdx - 1
	}
	state.SetPreviousCounter(previousIdx)
	state.SetSenderChain(ourNewEphemeral, senderChainKey)
''','''	state.SetRootKey(senderRootKey)
	state.AddReceiverChain(theirEphemeral, receiverChainKey)
	state.SetSenderChain(ourNewEphemeral, senderChainKey)

	currentSenderChainKey, err := state.SenderChainKey()
	if err != nil {
		return ratchet.ChainKey{}, err
	}
	previousIdx := uint32(0)
	if currentIdx := currentSenderChainKey.Index(); currentIdx > 0 {
		previousIdx = currentIdx - 1
	}
	state.SetPreviousCounter(previousIdx)
''')],
 needs='several messages sent in one chain and then a reply; visible in the previous counter of the next chain only',
 breaks='The previous counter sent in messages is always 0, as it is taken from the new chain.',
 demo='''
// previousCounter is field 3 of the protobuf of a message.
func previousCounter(t *testing.T, m message.Ciphertext) uint64 {
	b := m.Bytes()
	b = b[1 : len(b)-8]
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		b = b[n:]
		if num == 3 {
			v, _ := protowire.ConsumeVarint(b)
			return v
		}
		b = b[protowire.ConsumeFieldValue(num, typ, b):]
	}
	t.Fatal("no previous counter")
	return 0
}

func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	for i := 0; i < 5; i++ {
		b.recv(t, a, a.send(b, "x"), "x")
	}
	a.recv(t, b, b.send(a, "y"), "y")
	if n := previousCounter(t, a.send(b, "z")); n != 4 {
		t.Fatalf("previous counter %d, want 4", n)
	}
}
''', imports=['google.golang.org/protobuf/encoding/protowire','lib/message']),
dict(id='C12-evict-newest', property='C12',
 edits=[('session/record.go','		r.previousSessions = r.previousSessions[1:]','		r.previousSessions = r.previousSessions[:maxArchivedStates-1]')],
 needs='more than 41 sessions with one user, and then a message of a recently archived one',
 breaks='When 40 sessions are archived, the most recently archived one is dropped instead of the oldest.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	var late []message.Ciphertext
	for i := 0; i < 45; i++ {
		a.open(b, b.bundle(1, -1))
		b.recv(t, a, a.send(b, "x"), "x")
		late = append(late, wire(a.send(b, "late")).(*message.PreKey).Message())
	}
	for _, m := range late[5:] {
		b.recv(t, a, m, "late")
	}
}
''', imports=['lib/message']),
dict(id='C13-evict-before-replace', property='C13',
 edits=[('session/group_record.go','''	existing, removed := g.RemoveState(''','''	if len(g.states) >= maxSenderKeyStates {
		g.states[0] = nil
		g.states = g.states[1:]
	}

	existing, removed := g.RemoveState('''),('session/group_record.go','''	if len(g.states) >= maxSenderKeyStates {
		g.states[0] = nil
		g.states = g.states[1:]
	}

	g.states = append''','''	g.states = append''')],
 needs='five sender keys of one sender in a group, and then a repeated distribution message',
 breaks='Room is made before looking whether the sender key is known, so repeating a distribution message loses the oldest of five sender keys.',
 demo='''
func TestDemo(t *testing.T) {
	b := newUser("b", 1)
	g := gid(1)
	// A sender which loses its group state draws a new sender key each time.
	var last *message.SenderKeyDistribution
	var senders []*user
	for i := 0; i < 5; i++ {
		a := newUser("a", 1)
		last = a.dist(g)
		b.join(a, last)
		senders = append(senders, a)
	}
	b.join(senders[4], last)
	for _, a := range senders {
		b.grecv(t, a, a.gsend(g, "text"), "text")
	}
}
''', imports=['lib/message']),
dict(id='C14-rewind', property='C14',
 edits=[('session/group_record.go','	if !removed {\n','	// A distribution message from an earlier position makes earlier messages readable.\n	if !removed || existing.SenderChainKey().Iteration() > state.SenderChainKey().Iteration() {\n')],
 needs='a distribution message processed again after messages were decrypted, and then one of those messages again',
 breaks='Processing an old distribution message again rewinds the sender key, so messages decrypt twice.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	g := gid(1)
	d := a.dist(g)
	b.join(a, d)
	m := a.gsend(g, "text")
	b.grecv(t, a, m, "text")
	b.join(a, d)
	b.grefuse(t, a, m)
}
'''),
dict(id='C15-known-key-unsigned', property='C15',
 edits=[('session/group_cipher.go','''	if !valid {''','''	// Messages with a position seen already were signed.
	if !valid && state.SenderChainKey().Iteration() <= ciphertext.Iteration() {''')],
 needs='a message with a wrong signature at a position which was skipped',
 breaks='The signature is not enforced for messages that arrive late, so members can forge those.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	g := gid(1)
	b.join(a, a.dist(g))
	m0, m1 := a.gsend(g, "zero"), a.gsend(g, "one")
	b.grecv(t, a, m1, "one")
	raw := append([]byte(nil), m0.Bytes()...)
	raw[len(raw)-5] ^= 4
	b.grefuse(t, a, must(message.NewSenderKeyFromBytes(raw)))
	b.grecv(t, a, m0, "zero")
}
''', imports=['lib/message']),
dict(id='C16-fast-forward', property='C16',
 edits=[('session/group_record.go','	if !removed {\n','	// The sender may be far ahead by now.\n	if !removed || state.SenderChainKey().Iteration() > existing.SenderChainKey().Iteration()+maxMessageKeys {\n')],
 needs='a distribution message more than 2000 positions ahead of the known position, and then a message from in between',
 breaks='A distribution message far ahead replaces the sender key, and the messages before it can no longer be decrypted.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	g := gid(1)
	b.join(a, a.dist(g))
	m := a.gsend(g, "text")
	for i := 0; i < 2100; i++ {
		a.gsend(g, "lost")
	}
	b.join(a, a.dist(g))
	b.grecv(t, a, m, "text")
}
'''),
dict(id='C17-archived-copy', property='C17',
 edits=[('session/record.go','''	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
	r.PromoteState(state)''','''	r.PromoteState(state)''')],
 needs='a message of an archived session while a newer session is current, and then a look at the stored record',
 breaks='When an archived session is used again, its state from before the message stays archived, with the key of the message.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(1, -1))
	b.recv(t, a, a.send(b, "1"), "1")
	late := wire(a.send(b, "late")).(*message.PreKey).Message()
	a.open(b, b.bundle(1, -1))
	b.recv(t, a, a.send(b, "2"), "2")
	b.recv(t, a, late, "late")
	rec, _, err := b.st.SessionStore().Load(ctx, a.addr)
	if err != nil {
		t.Fatal(err)
	}
	prev := must(rec.PreviousStates())
	for _, s := range prev {
		if ck, ok, _ := s.ReceiverChainKey(late.SenderRatchetKey()); ok && ck.Index() <= late.Counter() {
			t.Fatal("the key of a decrypted message can still be derived")
		}
	}
}
''', imports=['lib/message']),
dict(id='C18-short-read', property='C18',
 edits=[('session/group_session.go','_, err = io.ReadFull(random, senderKey)','_, err = random.Read(senderKey)')],
 needs='a source of randomness which returns fewer bytes than asked for',
 breaks='The chain key of a new sender key is filled by a single Read, so part of it may stay zero.',
 demo='''
type slow struct{}

func (slow) Read(p []byte) (int, error) {
	if len(p) > 3 {
		p = p[:3]
	}
	return rand.Read(p)
}

func TestDemo(t *testing.T) {
	a := newUser("a", 1)
	a.random = slow{}
	if d := a.dist(gid(1)); bytes.Equal(d.ChainKey()[3:], make([]byte, 29)) {
		t.Fatal("the chain key is almost all zeros")
	}
}
''', imports=['bytes','crypto/rand']),
dict(id='C19-counter-in-memory', property='C19',
 edits=[('session/state.go','''	session *v1.SessionStructure
}''','''	session *v1.SessionStructure

	previousCounter uint32
}'''),('session/state.go','''	session := proto.Clone(s.session)
	return NewState(session.(*v1.SessionStructure))''','''	session := proto.Clone(s.session)
	clone := NewState(session.(*v1.SessionStructure))
	clone.previousCounter = s.previousCounter
	return clone'''),('session/state.go','	s.session.PreviousCounter = counter','	s.previousCounter = counter'),
  ('session/state.go','	return s.session.GetPreviousCounter()','	return s.previousCounter')],
 needs='a session saved as bytes and loaded after a turn in which more than one message was sent',
 breaks='The previous counter is not part of the saved session, so messages sent after loading carry another one.',
 demo='''
// bytesStore keeps sessions as bytes.
type bytesStore map[address.Address][]byte

func (s bytesStore) Load(_ context.Context, a address.Address) (*session.Record, bool, error) {
	b, ok := s[a]
	if !ok {
		return nil, false, nil
	}
	r, err := session.NewRecordBytes(b)
	return r, true, err
}

func (s bytesStore) Store(_ context.Context, a address.Address, r *session.Record) error {
	s[a] = r.State().Bytes()
	return nil
}

func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	for i := 0; i < 3; i++ {
		b.recv(t, a, a.send(b, "x"), "x")
	}
	a.recv(t, b, b.send(a, "y"), "y")
	rec, _, err := a.st.SessionStore().Load(ctx, b.addr)
	if err != nil {
		t.Fatal(err)
	}
	saved := bytesStore{b.addr: rec.State().Bytes()}
	m1 := a.send(b, "same")
	a.sess = saved
	m2 := a.send(b, "same")
	if !bytes.Equal(m1.Bytes(), m2.Bytes()) {
		t.Fatal("another message after saving and loading")
	}
}
''', imports=['bytes','context','lib/address','lib/session']),
dict(id='C20-joined-key', property='C20',
 edits=[('session/store_inmem.go','''	senderKeys map[key]*GroupRecord
}''','''	senderKeys map[string]*GroupRecord
}

func (k key) String() string {
	return fmt.Sprint(k.address.Name, uint32(k.address.DeviceID), k.id)
}'''),('session/store_inmem.go','senderKeys: make(map[key]*GroupRecord),','senderKeys: make(map[string]*GroupRecord),'),
 ('session/store_inmem.go','''	record, exists := i.senderKeys[key{
		address: sender,
		id:      distributionID,
	}]''','''	record, exists := i.senderKeys[key{
		address: sender,
		id:      distributionID,
	}.String()]'''),('session/store_inmem.go','''	i.senderKeys[key{
		address: sender,
		id:      distributionID,
	}] =''','''	i.senderKeys[key{
		address: sender,
		id:      distributionID,
	}.String()] ='''),('session/store_inmem.go','import (\n	"context"\n','import (\n	"context"\n	"fmt"\n')],
 needs='two senders whose name and device number read the same when joined, such as a1/2 and a/12',
 breaks='Group records of different senders share one entry of the in-memory store.',
 demo='''
func TestDemo(t *testing.T) {
	x, y, b := newUser("a1", 2), newUser("a", 12), newUser("b", 1)
	g := gid(1)
	b.join(x, x.dist(g))
	m := x.gsend(g, "text")
	b.grefuse(t, y, m)
	b.grecv(t, x, m, "text")
}
'''),
dict(id='C21-unreduced-scalar', property='C21',
 edits=[('curve/curve25519/curve25519.go','	copy(sig, signature)\n	sig[63] &= 0b0111_1111','''	copy(sig, signature)
	sig[63] &= 0b0111_1111

	// Some implementations do not reduce the scalar.
	s, err := edwards25519.NewScalar().SetUniformBytes(append(sig[32:64:64], make([]byte, 32)...))
	if err != nil {
		return false, err
	}
	copy(sig[32:], s.Bytes())''')],
 needs='a signature to whose scalar the order of the group was added',
 breaks='Signatures can be altered: adding the order of the group to the scalar gives another signature which verifies.',
 demo='''
func TestDemo(t *testing.T) {
	order, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	k := must(curve.GenerateKeyPair(rand.Reader))
	msg := []byte("message")
	sig := must(k.Sign(rand.Reader, msg))
	sign := sig[63] & 0x80
	sig[63] &= 0x7F
	le := func(b []byte) []byte {
		r := append([]byte(nil), b...)
		slices.Reverse(r)
		return r
	}
	s := new(big.Int).SetBytes(le(sig[32:]))
	s.Add(s, order)
	altered := append(append([]byte(nil), sig[:32]...), le(s.FillBytes(make([]byte, 32)))...)
	altered[63] |= sign
	if ok, err := k.PublicKey().VerifySignature(altered, msg); ok && err == nil {
		t.Fatal("an altered signature verifies")
	}
}
''', imports=['crypto/rand','math/big','slices','lib/curve']),
dict(id='C22-high-bit', property='C22',
 edits=[('curve/public.go','	copy(publicKey, key[1:])\n','	copy(publicKey, key[1:])\n	// The highest bit of a u-coordinate is ignored.\n	publicKey[PublicKeySize-1] &= 0x7F\n')],
 needs='a public key whose highest bit is set',
 breaks='Reading a public key clears its highest bit, so it encodes to other bytes and equals another key.',
 demo='''
func TestDemo(t *testing.T) {
	raw := append([]byte{5}, bytes.Repeat([]byte{0xC3}, 32)...)
	if k := must(curve.NewPublicKey(raw)); !bytes.Equal(k.Bytes(), raw) {
		t.Fatalf("%x became %x", raw, k.Bytes())
	}
}
''', imports=['bytes','lib/curve']),
dict(id='C23-long-iv', property='C23',
 edits=[('crypto/aes/aes.go','''	if len(iv) != aes.BlockSize {
		return nil, errors.New("IV length must equal block size")
	}

	aescbc := cipher.NewCBCDecrypter(block, iv)''','''	if len(iv) < aes.BlockSize {
		return nil, errors.New("IV length must equal block size")
	}

	aescbc := cipher.NewCBCDecrypter(block, iv[:aes.BlockSize])''')],
 needs='decryption with an IV of more than 16 bytes',
 breaks='Decryption accepts an IV of the wrong length and ignores the rest of it.',
 demo='''
func TestDemo(t *testing.T) {
	key, iv := make([]byte, 32), make([]byte, 17)
	c := must(aes.CBCEncrypt(key, iv[:16], []byte("text")))
	if _, err := aes.CBCDecrypt(key, iv, c); err == nil {
		t.Fatal("decrypted with an IV of 17 bytes")
	}
}
''', imports=['lib/crypto/aes']),
dict(id='C24-one-half', property='C24',
 edits=[('fingerprint/scannable.go','	return same1 && same2, nil','	return same1 || same2, nil')],
 needs='a scanned code of which only one of the two fingerprints is right',
 breaks='The comparison succeeds when just one of the two keys is the same.',
 demo='''
func TestDemo(t *testing.T) {
	x, y, z := bytes.Repeat([]byte{1}, 32), bytes.Repeat([]byte{2}, 32), bytes.Repeat([]byte{3}, 32)
	mine := must(fingerprint.NewScannable(1, x, y))
	theirs := must(must(fingerprint.NewScannable(1, z, x)).Bytes())
	if same, err := mine.Compare(theirs); err == nil && same {
		t.Fatal("the fingerprints of different keys match")
	}
}
''', imports=['bytes','lib/fingerprint']),
dict(id='C25-append-to-caller', property='C25',
 edits=[('curve/curve25519/curve25519.go','''	var msg []byte
	for _, message := range messages {
		msg = append(msg, message...)
	}
''','''	var msg []byte
	for i, message := range messages {
		if i == 0 {
			// Usually there is only one part.
			msg = message
			continue
		}
		msg = append(msg, message...)
	}
''')],
 needs='a message verified in parts the first of which has spare capacity',
 breaks='Verifying a signature writes into the memory behind the first part of the message.',
 demo='''
func TestDemo(t *testing.T) {
	k := must(curve.GenerateKeyPair(rand.Reader))
	buf := []byte("first|second")
	sig := must(k.Sign(rand.Reader, buf[:5], []byte("XXX")))
	if ok, err := k.PublicKey().VerifySignature(sig, buf[:5], []byte("XXX")); err != nil || !ok {
		t.Fatal(ok, err)
	}
	if string(buf) != "first|second" {
		t.Fatalf("the buffer became %q", buf)
	}
}
''', imports=['crypto/rand','lib/curve']),
dict(id='C26-shared-scratch', property='C26',
 edits=[('ratchet/keys.go','''	buf := make([]byte, 0, ChainKeySize)
	hash := hmac.New(sha256.New, key)
	hash.Write(seed)
	buf = hash.Sum(buf)
	return buf
}''','''	hash := hmac.New(sha256.New, key)
	hash.Write(seed)
	return append([]byte(nil), hash.Sum(scratch[:0])...)
}

// scratch saves an allocation per message.
var scratch [ChainKeySize]byte''')],
 needs='two goroutines which derive keys at the same time',
 breaks='All sessions share one buffer for derived keys, so that concurrent use mixes up their keys.',
 race=True,
 demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := byte(1); i <= 4; i++ {
		wg.Add(1)
		go func(i byte) {
			defer wg.Done()
			k := must(ratchet.NewChainKey(bytes.Repeat([]byte{i}, 32), 0))
			for n := 0; n < 3000; n++ {
				k = k.Next()
			}
			h := bytes.Repeat([]byte{i}, 32)
			for n := 0; n < 3000; n++ {
				m := hmac.New(sha256.New, h)
				m.Write([]byte{2})
				h = m.Sum(nil)
			}
			if !bytes.Equal(h, k.Key()) {
				t.Error("another key when used concurrently")
			}
		}(i)
	}
	wg.Wait()
}
''', imports=['bytes','crypto/hmac','crypto/sha256','sync','lib/ratchet']),
]
