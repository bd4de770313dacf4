SEEDS = [
dict(id='C01-drop-unanswered', property='C01',
 edits=[('session/record.go','''	if len(r.previousSessions) >= maxArchivedStates {''','''	if r.currentSession.session.GetPendingPreKey() != nil {
		// Nobody has answered in this session, so there is nothing to expect from it.
		return
	}

	if len(r.previousSessions) >= maxArchivedStates {''')],
 needs='a second session opened before the answer to the first one arrives',
 breaks='Sessions in which nothing was received yet are thrown away instead of archived, so answers to their messages which arrive later no longer decrypt.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(1, -1))
	b.recv(t, a, a.send(b, "hello"), "hello")
	answer := b.send(a, "answer")
	a.open(b, b.bundle(1, -1))
	a.recv(t, b, answer, "answer")
}
'''),
dict(id='C02-promote-copy', property='C02',
 edits=[('session/cipher.go','''		plaintext, err := s.decryptMessageSession(random, previous, ciphertext)''','''		// A state which cannot decrypt the message may be changed by the attempt.
		attempt := previous.Clone()
		plaintext, err := s.decryptMessageSession(random, attempt, ciphertext)''')],
 needs='a message of an archived session presented twice',
 breaks='The archived state is promoted as it was before the message, so the message decrypts again.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	m := a.send(b, "m")
	a.open(b, b.bundle(1, -1))
	b.recv(t, a, a.send(b, "next"), "next")
	b.recv(t, a, m, "m")
	b.refuse(t, a, m)
}
'''),
dict(id='C03-mac-prefix', property='C03',
 edits=[('message/mac.go','''	hash.Write(message)
''','''	// The position and the key are in front of the text; long texts need not be hashed as a whole.
	if len(message) > 2048 {
		message = message[:2048]
	}
	hash.Write(message)
''')],
 needs='a message of more than 2 KiB altered near its end',
 breaks='The MAC covers the first 2,048 bytes of a message only.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	m := a.send(b, string(bytes.Repeat([]byte("text"), 1000)))
	w := append([]byte(nil), m.Bytes()...)
	w[3000] ^= 1
	b.refuse(t, a, must(message.NewSignalFromBytes(w)))
}
''', imports=['bytes','lib/message']),
dict(id='C04-pin-before-agreement', property='C04',
 edits=[('session/session.go','''	session, err := initializeAliceSession(random, &ratchet.AliceParameters{''','''	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
	if err != nil {
		return err
	}

	session, err := initializeAliceSession(random, &ratchet.AliceParameters{'''),
 ('session/session.go','''	session.SetAliceBaseKey(ourBaseKeyPair.PublicKey().Bytes())

	_, err = s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey)
	if err != nil {
		return err
	}

''','''	session.SetAliceBaseKey(ourBaseKeyPair.PublicKey().Bytes())

''')],
 needs='the first bundle of an address correctly signed, but with a degenerate one-time pre-key',
 breaks='The identity key is pinned before the key agreement is known to work, so a refused bundle pins its identity key.',
 demo='''
func TestDemo(t *testing.T) {
	a, b, c := newUser("a", 1), newUser("b", 1), newUser("b", 1)
	bad := c.bundle(1, 5)
	bad.PreKeyPublic = must(curve.NewPublicKey(append([]byte{5}, make([]byte, 32)...)))
	if a.process(b, bad) == nil {
		t.Fatal("processed a bundle with a degenerate key")
	}
	if err := a.process(b, b.bundle(1, -1)); err != nil {
		t.Fatal(err)
	}
}
''', imports=['lib/curve']),
dict(id='C05-shared-archive', property='C05',
 edits=[('session/record.go','''		previousSessions: append([][]byte(nil), r.previousSessions...),''','''		// Archived sessions are never modified, so they can be shared.
		previousSessions: r.previousSessions[:len(r.previousSessions):len(r.previousSessions)],''')],
 needs='the in-memory session store; a fault after a message of an archived session was decrypted, before the session is stored; at least two archived sessions',
 breaks='Clones of a record share the list of archived sessions, from which promoting removes in place: if the result is not stored, the stored list is damaged.',
 demo='''
type inner = identity.Store

type failing struct {
	inner
	fail bool
}

func (f *failing) Store(c context.Context, a address.Address, k identity.Key) (bool, error) {
	if f.fail {
		return false, errors.New("fault")
	}
	return f.inner.Store(c, a, k)
}

func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	var ms []message.Ciphertext
	for i := 0; i < 4; i++ {
		a.open(b, b.bundle(1, -1))
		b.recv(t, a, a.send(b, "hello"), "hello")
		a.recv(t, b, b.send(a, "hi"), "hi")
		ms = append(ms, a.send(b, "m"))
	}
	s := b.with(a.addr)
	s.IdentityKeyStore = &failing{s.IdentityKeyStore, true}
	if _, err := s.DecryptMessage(ctx, b.random, wire(ms[0])); err == nil {
		t.Fatal("no error")
	}
	for _, m := range ms {
		b.recv(t, a, m, "m")
	}
}
''', imports=['errors','context','lib/address','lib/identity','lib/message']),
dict(id='C05-load-error-is-fresh', property='C05',
 edits=[('session/group_session.go','''	if err != nil {
		return err
	}
	if !exists {
		record = NewGroupRecord()
	}

	state := NewGroupState(''','''	if err != nil || !exists {
		record = NewGroupRecord()
	}

	state := NewGroupState(''')],
 needs='the group store fails to load while a second distribution message is processed',
 breaks='A failing load is taken for an empty store: the operation succeeds and the sender keys processed before are lost.',
 demo='''
type failing struct {
	session.GroupStore
}

func (f failing) Load(c context.Context, a address.Address, d distribution.ID) (*session.GroupRecord, bool, error) {
	return nil, false, errors.New("fault")
}

func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.join(a, a.dist(gid(1)))
	g := b.group(a.addr, gid(1))
	g.SenderKeyStore = failing{g.SenderKeyStore}
	if g.ProcessSenderKeyDistribution(ctx, a.dist(gid(1))) == nil {
		t.Fatal("no error")
	}
}
''', imports=['errors','context','lib/address','lib/distribution','lib/session']),
dict(id='C05-delete-error-ignored', property='C05',
 edits=[('session/cipher.go','''		err := s.PreKeyStore.Delete(ctx, *preKeyID)
		if err != nil {
			return nil, err
		}
''','''		if err := s.PreKeyStore.Delete(ctx, *preKeyID); err != nil {
			// The message is decrypted; the pre-key is of no use without it.
			glog.Errorf("could not delete one-time pre-key %s: %v", preKeyID, err)
		}
''')],
 needs='the pre-key store fails to delete the one-time pre-key of an establishing message',
 breaks='The failure is only logged, so the caller never learns that the one-time pre-key remained.',
 demo='''
type inner = prekey.Store

type failing struct{ inner }

func (failing) Delete(context.Context, prekey.ID) error { return errors.New("fault") }

func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(1, 9))
	m := a.send(b, "m")
	s := b.with(a.addr)
	s.PreKeyStore = failing{s.PreKeyStore}
	if _, err := s.DecryptMessage(ctx, b.random, wire(m)); err == nil {
		t.Fatal("no error")
	}
}
''', imports=['errors','context','lib/prekey']),
dict(id='C06-short-registration', property='C06',
 edits=[('session/state.go','''	s.session.LocalRegistrationId = id''','''	// Registration IDs have 14 bits.
	s.session.LocalRegistrationId = id & 0x3FFF''')],
 needs='a registration ID of more than 14 bits',
 breaks='Establishing messages carry the lower 14 bits of the registration ID only.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.st = protocol.NewInMemStore(a.pair, 70000)
	a.open(b, b.bundle(1, -1))
	if id := a.send(b, "m").(*message.PreKey).RegistrationID(); id != 70000 {
		t.Fatal(id)
	}
}
''', imports=['lib/message','lib/protocol']),
dict(id='C07-delete-again', property='C07',
 edits=[('session/session.go','''		// We've already set up a session for this V3 message, letting bundled message fall through.
		return nil, nil''','''		// We've already set up a session for this V3 message, letting bundled message fall through.
		// Make sure the one-time pre-key is gone, even if removing it failed before.
		return message.PreKeyID(), nil''')],
 needs='a second establishing message of a session after its owner has stored a new one-time pre-key under the same ID',
 breaks='Every establishing message removes the one-time pre-key with its ID, also if that is another key by now.',
 demo='''
func TestDemo(t *testing.T) {
	a, b, c := newUser("a", 1), newUser("b", 1), newUser("c", 1)
	a.open(b, b.bundle(1, 9))
	m1, m2 := a.send(b, "m1"), a.send(b, "m2")
	b.recv(t, a, m1, "m1")
	delete(b.pre, 9)
	c.open(b, b.bundle(1, 9))
	b.recv(t, a, m2, "m2")
	b.recv(t, c, c.send(b, "m3"), "m3")
}
'''),
dict(id='C08-trust-once-per-chain', property='C08',
 edits=[('session/cipher.go','''	trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
	if err != nil {
		return nil, err
	}
	if !trusted {
		glog.Warningf("Identity key %s is not trusted for remote address %s", hex.EncodeToString(theirIdentityKey.PublicKey().KeyBytes()), s.RemoteAddress)
		return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
	}

	if _, err := s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey); err != nil {
		return nil, err
	}
''','''	// The identity does not change within a chain.
	if chainKey.Index() == 0 {
		trusted, err := s.IdentityKeyStore.IsTrustedIdentity(ctx, s.RemoteAddress, theirIdentityKey, direction.Sending)
		if err != nil {
			return nil, err
		}
		if !trusted {
			glog.Warningf("Identity key %s is not trusted for remote address %s", hex.EncodeToString(theirIdentityKey.PublicKey().KeyBytes()), s.RemoteAddress)
			return nil, perrors.ErrUntrustedIdentity(s.RemoteAddress)
		}

		if _, err := s.IdentityKeyStore.Store(ctx, s.RemoteAddress, theirIdentityKey); err != nil {
			return nil, err
		}
	}
''')],
 needs='a message which is not the first of its chain, encrypted after the user has stored another identity key',
 breaks='Trust is checked for the first message of each chain only.',
 demo='''
func TestDemo(t *testing.T) {
	a, b, c := newUser("a", 1), newUser("b", 1), newUser("b", 1)
	chat(t, a, b)
	a.send(b, "m")
	if _, err := a.st.IdentityStore().Store(ctx, b.addr, c.pair.IdentityKey()); err != nil {
		t.Fatal(err)
	}
	if _, err := a.encrypt(b, "m"); err == nil {
		t.Fatal("encrypted for an untrusted identity")
	}
}
'''),
dict(id='C09-signed-jump', property='C09',
 edits=[('session/cipher.go','''	jump := counter - chainIdx
	if jump > MaxJumps {''','''	jump := int32(counter - chainIdx)
	if jump > MaxJumps {''')],
 needs='a message for a known chain with a counter more than 2^31 ahead (no valid MAC needed)',
 breaks='The distance overflows to a negative number and passes the limit, so billions of keys are derived for one small message.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	b.recv(t, a, a.send(b, "m"), "m")
	m := a.send(b, "m").(*message.Signal)
	w := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: make([]byte, 32), SenderRatchetKey: m.SenderRatchetKey(),
		Counter: 1<<31 + 5, Ciphertext: make([]byte, 16), SenderIdentityKey: a.pair.IdentityKey(), ReceiverIdentityKey: b.pair.IdentityKey()}))
	done := make(chan bool)
	go func() {
		b.refuse(t, a, w)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Fatal("still busy with a message of a few bytes")
	}
}
''', imports=['time','lib/message']),
dict(id='C10-omit-zero', property='C10',
 edits=[('message/signal.go','''	message, err := proto.Marshal(&v1.SignalMessage{
		RatchetKey:      cfg.SenderRatchetKey.Bytes(),
		Counter:         &cfg.Counter,
		PreviousCounter: &cfg.PreviousCounter,
		Ciphertext:      cfg.Ciphertext,
	})
''','''	signal := &v1.SignalMessage{
		RatchetKey: cfg.SenderRatchetKey.Bytes(),
		Counter:    &cfg.Counter,
		Ciphertext: cfg.Ciphertext,
	}
	if cfg.PreviousCounter != 0 {
		signal.PreviousCounter = &cfg.PreviousCounter
	}
	message, err := proto.Marshal(signal)
''')],
 needs='a message whose previous counter is zero, read by an implementation which insists on the field',
 breaks='The previous counter is left out of the message when it is zero.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	m := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: make([]byte, 32), SenderRatchetKey: a.pair.PublicKey(),
		Counter: 1, Ciphertext: []byte("0123456789abcdef"), SenderIdentityKey: a.pair.IdentityKey(), ReceiverIdentityKey: b.pair.IdentityKey()}))
	// version, key (35), counter (2), previous counter (2), text (18), MAC (8)
	if len(m.Bytes()) != 1+35+2+2+18+8 {
		t.Fatal("length", len(m.Bytes()))
	}
}
''', imports=['lib/message']),
dict(id='C11-one-time-first', property='C11',
 edits=[('session/session.go','''	secrets.Write(dh1)
	secrets.Write(dh2)
	secrets.Write(dh3)

	if params.TheirOneTimePreKey != nil {
		dh4, err := ourBasePrivateKey.Agreement(params.TheirOneTimePreKey)
		if err != nil {
			return nil, err
		}

		secrets.Write(dh4)
	}
''','''	secrets.Write(dh1)
	secrets.Write(dh2)

	if params.TheirOneTimePreKey != nil {
		dh4, err := ourBasePrivateKey.Agreement(params.TheirOneTimePreKey)
		if err != nil {
			return nil, err
		}

		secrets.Write(dh4)
	}
	secrets.Write(dh3)
'''),('session/session.go','''	secrets.Write(dh1)
	secrets.Write(dh2)
	secrets.Write(dh3)

	if params.OurOneTimePreKeyPair != nil {
		dh4, err := params.OurOneTimePreKeyPair.PrivateKey().Agreement(params.TheirBaseKey)
		if err != nil {
			return nil, err
		}

		secrets.Write(dh4)
	}
''','''	secrets.Write(dh1)
	secrets.Write(dh2)

	if params.OurOneTimePreKeyPair != nil {
		dh4, err := params.OurOneTimePreKeyPair.PrivateKey().Agreement(params.TheirBaseKey)
		if err != nil {
			return nil, err
		}

		secrets.Write(dh4)
	}
	secrets.Write(dh3)
''')],
 needs='a session with a one-time pre-key between this library and another implementation',
 breaks='Both roles agree on an order of the Diffie-Hellman results other than the published one when there is a one-time pre-key.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	bundle := b.bundle(1, 9)
	a.open(b, bundle)
	m := a.send(b, "m").(*message.PreKey)
	// The receiving side as in the X3DH and Double Ratchet specifications.
	var secret []byte
	secret = append(secret, bytes.Repeat([]byte{0xff}, 32)...)
	secret = append(secret, must(b.signed[1].PrivateKey().Agreement(a.pair.PublicKey()))...)
	secret = append(secret, must(b.pair.PrivateKey().Agreement(m.BaseKey()))...)
	secret = append(secret, must(b.signed[1].PrivateKey().Agreement(m.BaseKey()))...)
	secret = append(secret, must(b.pre[9].PrivateKey().Agreement(m.BaseKey()))...)
	root, _, err := ratchet.DeriveKeys(secret)
	if err != nil {
		t.Fatal(err)
	}
	_, chain, err := root.CreateChain(b.signed[1].PrivateKey(), m.Message().SenderRatchetKey())
	if err != nil {
		t.Fatal(err)
	}
	keys := must(chain.MessageKeys())
	if ok, err := m.Message().VerifyMAC(keys.MACKey(), a.pair.IdentityKey(), b.pair.IdentityKey()); !ok || err != nil {
		t.Fatal("MAC does not verify")
	}
}
''', imports=['bytes','lib/message','lib/ratchet']),
dict(id='C12-keys-of-all-chains', property='C12',
 edits=[('session/state.go','''	if len(chain.GetMessageKeys()) > maxMessageKeys {
		chain.GetMessageKeys()[0] = nil
		chain.MessageKeys = chain.GetMessageKeys()[1:]
	}

	s.session.GetReceiverChains()[idx] = chain
''','''	s.session.GetReceiverChains()[idx] = chain

	// Keep the state small: the keys of old chains go first.
	total := 0
	for _, c := range s.session.GetReceiverChains() {
		total += len(c.GetMessageKeys())
	}
	for _, c := range s.session.GetReceiverChains() {
		for total > maxMessageKeys && len(c.GetMessageKeys()) > 0 {
			c.GetMessageKeys()[0] = nil
			c.MessageKeys = c.GetMessageKeys()[1:]
			total--
		}
	}
''')],
 needs='more than 2,000 skipped messages in several chains of one session together',
 breaks='The limit of 2,000 message keys holds for all chains together, so keys of older chains are lost too early.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	first := a.send(b, "first")
	for n := 0; n < 2; n++ {
		var m message.Ciphertext
		for i := 0; i < 1500; i++ {
			m = a.send(b, "m")
		}
		b.recv(t, a, m, "m")
		a.recv(t, b, b.send(a, "hi"), "hi")
	}
	b.recv(t, a, first, "first")
}
''', imports=['lib/message']),
dict(id='C13-swap-remove', property='C13',
 edits=[('session/group_state.go','''	s.state.GetSenderMessageKeys()[idx] = nil
	s.state.SenderMessageKeys = append(s.state.GetSenderMessageKeys()[:idx], s.state.GetSenderMessageKeys()[idx+1:]...)
''','''	// Fill the gap with the last key instead of moving all of them.
	keys := s.state.GetSenderMessageKeys()
	last := len(keys) - 1
	keys[idx] = keys[last]
	keys[last] = nil
	s.state.SenderMessageKeys = keys[:last]
''')],
 needs='a skipped group message which arrives late, and then so many skipped messages that the oldest keys are dropped',
 breaks='Removing a key disturbs the order of the keys, so the newest instead of the oldest key is dropped when the limit of 2,000 is reached.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.join(a, a.dist(gid(1)))
	var ms []*message.SenderKey
	for i := 0; i < 2006; i++ {
		ms = append(ms, a.gsend(gid(1), "m"))
	}
	b.grecv(t, a, ms[1000], "m")
	b.grecv(t, a, ms[0], "m") // the key of message 999 is first now
	b.grecv(t, a, ms[2005], "m")
	b.grecv(t, a, ms[999], "m")
}
''', imports=['lib/message']),
dict(id='C14-late-not-stored', property='C14',
 edits=[('session/group_cipher.go','''	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
}

func (g *GroupSession) messageKey''','''	// Messages which arrive late do not move the chain on.
	if state.SenderChainKey().Iteration() == ciphertext.Iteration()+1 {
		err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
		if err != nil {
			return nil, err
		}
	}

	return plaintext, nil
}

func (g *GroupSession) messageKey''')],
 needs='a group message which arrives after a later one and is then presented again',
 breaks='The sender key is not stored after decrypting a late message, so its key is kept and the message decrypts again.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.join(a, a.dist(gid(1)))
	m1, m2, m3 := a.gsend(gid(1), "m1"), a.gsend(gid(1), "m2"), a.gsend(gid(1), "m3")
	b.grecv(t, a, m3, "m3")
	b.grecv(t, a, m1, "m1")
	b.grefuse(t, a, m1)
	b.grecv(t, a, m2, "m2")
}
'''),
dict(id='C15-version-unsigned', property='C15',
 edits=[('message/senderkey.go','''	signature, err := cfg.SignatureKey.Sign(random, serialized.Bytes())''','''	signature, err := cfg.SignatureKey.Sign(random, message)'''),
 ('message/senderkey.go','''	return signatureKey.VerifySignature(s.serialized[idx:], s.serialized[:idx])''','''	return signatureKey.VerifySignature(s.serialized[idx:], s.serialized[1:idx])''')],
 needs='a change of the lower half of the version byte of a group message',
 breaks='The version byte is not covered by the signature.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.join(a, a.dist(gid(1)))
	w := append([]byte(nil), a.gsend(gid(1), "m").Bytes()...)
	w[0] ^= 1
	b.grefuse(t, a, must(message.NewSenderKeyFromBytes(w)))
}
''', imports=['lib/message']),
dict(id='C16-same-position', property='C16',
 edits=[('session/group_record.go','''	if !removed {
		existing = state
	}
''','''	// At the same position the new state is as good as the old one.
	if !removed || bytes.Equal(existing.SenderChainKey().Seed(), state.SenderChainKey().Seed()) {
		existing = state
	}
'''),('session/group_record.go','import (\n','import (\n\t"bytes"\n')],
 needs='a sender key distributed again at exactly the position the member has reached, while skipped messages are on their way',
 breaks='The state is replaced together with the keys of skipped messages (and, for the sender, the private signing key).',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.join(a, a.dist(gid(1)))
	m1, m2 := a.gsend(gid(1), "m1"), a.gsend(gid(1), "m2")
	b.grecv(t, a, m2, "m2")
	b.join(a, a.dist(gid(1)))
	b.grecv(t, a, m1, "m1")
}
'''),
dict(id='C17-chain-seeds', property='C17',
 edits=[('session/group_cipher.go','''		keys, err := chainKey.MessageKey()
		if err != nil {
			return senderkey.MessageKey{}, err
		}
		state.AddMessageKey(keys)
''','''		state.AddMessageKey(chainKey)
'''),('session/group_state.go','''func (s *GroupState) AddMessageKey(key senderkey.MessageKey) {''','''// AddMessageKey remembers how to derive the key of a skipped message.
func (s *GroupState) AddMessageKey(key senderkey.ChainKey) {'''),
 ('session/group_state.go','''	derived, err := senderkey.DeriveMessageKey(messageKey.GetSeed(), messageKey.GetIteration())''','''	derived, err := senderkey.NewChainKey(messageKey.GetSeed(), messageKey.GetIteration()).MessageKey()''')],
 needs='a skipped group message which never arrives; nothing but a look at the stored state shows it',
 breaks='Chain keys instead of message keys are kept for skipped messages, from which the keys of all later messages, already decrypted, follow.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	d := a.dist(gid(1))
	b.join(a, d)
	a.gsend(gid(1), "lost")
	b.grecv(t, a, a.gsend(gid(1), "m"), "m")
	record, _, err := b.st.GroupStore().Load(ctx, a.addr, gid(1))
	if err != nil {
		t.Fatal(err)
	}
	// The record must not hold the chain key of the first message any more.
	state := must(record.State())
	if strings.Contains(fmt.Sprintf("%x", dump(reflect.ValueOf(state).Elem())), fmt.Sprintf("%x", d.ChainKey())) {
		t.Fatal("the state still holds the chain key")
	}
}

// dump collects all byte slices within a value.
func dump(v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			return dump(v.Elem())
		}
	case reflect.Struct:
		var b []byte
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() || v.NumField() == 1 {
				b = append(b, dump(v.Field(i))...)
			}
		}
		return b
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return v.Bytes()
		}
		var b []byte
		for i := 0; i < v.Len(); i++ {
			b = append(b, dump(v.Index(i))...)
		}
		return b
	}
	return nil
}
''', imports=['fmt','reflect','strings']),
dict(id='C18-keep-unused-ratchet', property='C18',
 edits=[('session/cipher.go','''	ourNewEphemeral, err := curve.GenerateKeyPair(random)
	if err != nil {
		return ratchet.ChainKey{}, err
	}

	senderRootKey, senderChainKey''','''	currentSenderChainKey, err := state.SenderChainKey()
	if err != nil {
		return ratchet.ChainKey{}, err
	}

	var ourNewEphemeral *curve.KeyPair
	if _, replied, err := state.RemoteIdentityKey(); err == nil && replied && len(state.session.GetReceiverChains()) > 1 && currentSenderChainKey.Index() == 0 {
		// Nobody has seen our latest key yet.
		ourNewEphemeral, err = curve.NewKeyPair(state.session.GetSenderChain().GetSenderRatchetKeyPrivate(), state.session.GetSenderChain().GetSenderRatchetKey())
		if err != nil {
			return ratchet.ChainKey{}, err
		}
	} else {
		ourNewEphemeral, err = curve.GenerateKeyPair(random)
		if err != nil {
			return ratchet.ChainKey{}, err
		}
	}

	senderRootKey, senderChainKey'''),('session/cipher.go','''	currentSenderChainKey, err := state.SenderChainKey()
	if err != nil {
		return ratchet.ChainKey{}, err
	}

	state.SetRootKey(senderRootKey)''','''	state.SetRootKey(senderRootKey)''')],
 needs='two new ratchet keys received in a session without a message sent in between (the peer answered another session of ours, or messages crossed)',
 breaks='A ratchet key which was not used yet is used again for the next chain instead of a new one.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	// b receives a new chain of a twice without sending; a is made to start a new chain by a message which b then takes back.
	b.recv(t, a, a.send(b, "m1"), "m1")
	rec, _, _ := b.st.SessionStore().Load(ctx, a.addr)
	reply := b.send(a, "reply")
	key := reply.(*message.Signal).SenderRatchetKey()
	if err := b.st.SessionStore().Store(ctx, a.addr, rec); err != nil {
		t.Fatal(err)
	}
	a.recv(t, b, reply, "reply")
	b.recv(t, a, a.send(b, "m2"), "m2")
	if b.send(a, "next").(*message.Signal).SenderRatchetKey().Equal(key) {
		t.Fatal("the ratchet key was used for two chains")
	}
}
''', imports=['lib/message']),
dict(id='C19-self-in-memory', property='C19',
 edits=[('session/state.go','''type State struct {
	session *v1.SessionStructure
}''','''type State struct {
	session *v1.SessionStructure
	// withSelf is set for sessions between devices of the same user.
	withSelf bool
}'''),('session/state.go','''	session := proto.Clone(s.session)
	return NewState(session.(*v1.SessionStructure))''','''	session := proto.Clone(s.session)
	clone := NewState(session.(*v1.SessionStructure))
	clone.withSelf = s.withSelf
	return clone'''),('session/state.go','''	remote, exists, err := s.RemoteIdentityKey()
	if err != nil {
		return false, err
	}
	if exists {
		local, err := s.LocalIdentityKey()
		if err != nil {
			return false, err
		}

		return remote.Equal(local), nil
	}

	return false, nil
''','''	return s.withSelf, nil
'''),('session/session.go','''	session.AddReceiverChain(params.TheirRatchetKey, chainKey)
''','''	session.withSelf = params.TheirIdentityKey.Equal(localIdentity)
	session.AddReceiverChain(params.TheirRatchetKey, chainKey)
'''),('session/session.go','''	session.SetSenderChain(params.OurRatchetKeyPair, chainKey)

	return session, nil
}''','''	session.withSelf = params.TheirIdentityKey.Equal(localIdentity)
	session.SetSenderChain(params.OurRatchetKeyPair, chainKey)

	return session, nil
}''')],
 needs='a session between two devices of one user, saved as bytes or archived, and a message more than 25,000 ahead',
 breaks='Whether a session is one with oneself is remembered in memory only, so after loading it from bytes the limit applies.',
 demo='''
func TestDemo(t *testing.T) {
	a := newUser("a", 1)
	b := newUserKey("a", 2, a.pair)
	chat(t, a, b)
	rec, _, _ := b.st.SessionStore().Load(ctx, a.addr)
	loaded := must(session.NewRecordBytes(rec.State().Bytes()))
	if err := b.st.SessionStore().Store(ctx, a.addr, loaded); err != nil {
		t.Fatal(err)
	}
	var m message.Ciphertext
	for i := 0; i < 25100; i++ {
		m = a.send(b, "m")
	}
	b.recv(t, a, m, "m")
}
''', imports=['lib/message','lib/session']),
dict(id='C20-medium-ids', property='C20',
 edits=[('prekey/store_inmem.go','''	record, exists := i.preKeys[id]
	return record, exists, nil''','''	record, exists := i.preKeys[id&maxID]
	return record, exists, nil'''),('prekey/store_inmem.go','''	i.preKeys[id] = record
	return nil''','''	i.preKeys[id&maxID] = record
	return nil'''),('prekey/store_inmem.go','''	delete(i.preKeys, id)''','''	delete(i.preKeys, id&maxID)'''),
 ('prekey/store_inmem.go','''// inMemStore represents an in-memory pre-key store.''','''// maxID is the greatest ID in use: IDs are Medium values of 24 bits.
const maxID = 0xFFFFFF

// inMemStore represents an in-memory pre-key store.''')],
 needs='two one-time pre-keys whose IDs differ in the upper eight bits only',
 breaks='The store keeps 24 bits of the IDs of one-time pre-keys, so keys with IDs which differ beyond are mixed.',
 demo='''
func TestDemo(t *testing.T) {
	a, b, c := newUser("a", 1), newUser("b", 1), newUser("c", 1)
	a.open(b, b.bundle(1, 7))
	c.open(b, b.bundle(1, 7+1<<24))
	b.recv(t, a, a.send(b, "m"), "m")
	b.recv(t, c, c.send(b, "m"), "m")
}
'''),
dict(id='C21-nonce-without-message', property='C21',
 edits=[('curve/curve25519/curve25519.go','''	hash.Write(a)
	for _, message := range messages {
		hash.Write(message)
	}
	hash.Write(Z)
''','''	hash.Write(a)
	if len(messages) > 0 {
		hash.Write(messages[0])
	}
	hash.Write(Z)
''')],
 needs='two messages of several parts with the same first part signed with the same random bytes (a broken source of randomness)',
 breaks='The nonce depends on the first part of the message only; two signatures with the same nonce give away the private key.',
 demo='''
func TestDemo(t *testing.T) {
	k := must(curve.GenerateKeyPair(nil))
	z := make([]byte, 64)
	s1 := must(k.Sign(bytes.NewReader(z), []byte("prefix"), []byte("one")))
	s2 := must(k.Sign(bytes.NewReader(z), []byte("prefix"), []byte("two")))
	if bytes.Equal(s1[:32], s2[:32]) {
		t.Fatal("the same nonce for two messages")
	}
}
''', imports=['bytes','lib/curve']),
dict(id='C22-equal-as-points', property='C22',
 edits=[('curve/djb_public.go','''	return key.keyType() == DJB &&
		subtle.ConstantTimeCompare(d.KeyBytes(), key.KeyBytes()) == 1''','''	ours, theirs := d.KeyBytes(), key.KeyBytes()
	// X25519 ignores the highest bit.
	ours[31] &= 0x7F
	theirs[31] &= 0x7F
	return key.keyType() == DJB &&
		subtle.ConstantTimeCompare(ours, theirs) == 1''')],
 needs='two public keys which differ in the highest bit only',
 breaks='Different public keys are taken for equal.',
 demo='''
func TestDemo(t *testing.T) {
	k := must(curve.GenerateKeyPair(nil)).PublicKey().Bytes()
	l := append([]byte(nil), k...)
	l[32] ^= 0x80
	if must(curve.NewPublicKey(k)).Equal(must(curve.NewPublicKey(l))) {
		t.Fatal("equal")
	}
}
''', imports=['lib/curve']),
dict(id='C23-first-pad-byte', property='C23',
 edits=[('crypto/aes/aes.go','''	for _, b := range plaintext[length-n:] {''','''	for _, b := range plaintext[length-n+1:] {''')],
 needs='a ciphertext whose padding is wrong in its first byte only',
 breaks='The first byte of the padding is not checked.',
 demo='''
func TestDemo(t *testing.T) {
	key, iv := make([]byte, 32), make([]byte, 16)
	c := must(aes.CBCEncrypt(key, iv, []byte("0123456789a")))
	iv[11] ^= 1
	if p, err := aes.CBCDecrypt(key, iv, c); err == nil {
		t.Fatal("decrypted", p)
	}
}
''', imports=['lib/crypto/aes']),
dict(id='C24-short-iterations', property='C24',
 edits=[('fingerprint/fingerprint.go','''	for i := uint32(1); i < iterations; i++ {''','''	rounds := uint16(iterations)
	for i := uint16(1); i < rounds; i++ {''')],
 needs='more than 65,535 iterations',
 breaks='The number of iterations is taken modulo 65,536.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	f := func(n uint32) string {
		return must(fingerprint.New(0, n, []byte("a"), a.pair.IdentityKey(), []byte("b"), b.pair.IdentityKey())).String()
	}
	if f(100) == f(100+1<<16) {
		t.Fatal("the same digits for other iterations")
	}
}
''', imports=['lib/fingerprint']),
dict(id='C25-decrypt-in-place', property='C25',
 edits=[('crypto/aes/aes.go','''	plaintext := make([]byte, len(ciphertext))
	aescbc.CryptBlocks''','''	plaintext := ciphertext
	if len(ciphertext) < 4096 {
		plaintext = make([]byte, len(ciphertext))
	}
	aescbc.CryptBlocks''')],
 needs='a ciphertext of 4 KiB or more which is used again after decrypting',
 breaks='Long ciphertexts are decrypted in the buffer of the caller.',
 demo='''
func TestDemo(t *testing.T) {
	key, iv := make([]byte, 32), make([]byte, 16)
	c := must(aes.CBCEncrypt(key, iv, make([]byte, 5000)))
	d := append([]byte(nil), c...)
	must(aes.CBCDecrypt(key, iv, c))
	if !bytes.Equal(c, d) {
		t.Fatal("the ciphertext was modified")
	}
}
''', imports=['bytes','lib/crypto/aes']),
dict(id='C26-last-public', property='C26', race=True,
 edits=[('curve/curve25519/curve25519.go','''	publicKey, err := ecdh.X25519().NewPublicKey(key)
	if err != nil {
		return nil, err
	}

	return p.ecdhKey.ECDH(publicKey)''','''	// Several agreements with the same key in a row are common.
	if last == nil || string(last.Bytes()) != string(key) {
		publicKey, err := ecdh.X25519().NewPublicKey(key)
		if err != nil {
			return nil, err
		}
		last = publicKey
	}

	return p.ecdhKey.ECDH(last)'''),('curve/curve25519/curve25519.go','''type PrivateKey struct {''','''// last is the public key of the latest agreement.
var last *ecdh.PublicKey

type PrivateKey struct {''')],
 needs='key agreements in two goroutines at the same time',
 breaks='The latest public key is kept in a variable shared by all sessions without synchronization.',
 demo='''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			defer func() { done <- true }()
			k, l := must(curve.GenerateKeyPair(nil)), must(curve.GenerateKeyPair(nil))
			for n := 0; n < 100; n++ {
				if !bytes.Equal(must(k.Agreement(l.PublicKey())), must(l.Agreement(k.PublicKey()))) {
					t.Error("agreements differ")
				}
			}
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}
}
''', imports=['bytes','lib/curve']),
]
