SEEDS = [
dict(id='C01-chain-finished', property='C01',
 edits=[('session/state.go','''	s.session.ReceiverChains = append(s.session.GetReceiverChains(), chain)
''','''
	// The sender goes on with a new ratchet key, so a chain without any gap is finished.
	open := make([]*v1.SessionStructure_Chain, 0, maxReceiverChains+1)
	for _, c := range s.session.GetReceiverChains() {
		if len(c.GetMessageKeys()) > 0 {
			open = append(open, c)
		}
	}
	s.session.ReceiverChains = append(open, chain)
''')],
 needs='the last message of a chain arrives after the first one of the next chain, while no other message of its chain is missing',
 breaks='Chains without skipped messages are dropped when the next chain begins, so their last messages no longer decrypt when late.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	a.recv(t, b, b.send(a, "1"), "1")
	b.recv(t, a, a.send(b, "2"), "2")
	late := a.send(b, "late")
	a.recv(t, b, b.send(a, "3"), "3")
	b.recv(t, a, a.send(b, "4"), "4")
	b.recv(t, a, late, "late")
}
'''),
dict(id='C01-attempt-in-place', property='C01',
 edits=[('session/cipher.go','''		currentState := record.State().Clone()
''','''		// The record is stored only when the message was decrypted.
		currentState := record.State()
''')],
 needs='sessions opened by both users at the same time; a message of the older one arrives, then one of the newer one with a new ratchet key',
 breaks='Trying the current session on a message of an archived one changes it, and it is archived as changed.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	b.open(a, a.bundle(1, -1))
	x := b.send(a, "x")
	b.recv(t, a, a.send(b, "m"), "m")
	a.recv(t, b, x, "x")
	b.recv(t, a, a.send(b, "y"), "y")
}
'''),
dict(id='C02-duplicate-of-archived', property='C02',
 edits=[('session/cipher.go','''				plaintext: plaintext,
			}
			break
		case errors.Is(err, perrors.ErrDuplicateMessage):
			return nil, err
		default:''','''				plaintext: plaintext,
			}
			break
		default:''')],
 needs='a message which was decrypted with a session which is archived since is presented again',
 breaks='Duplicates of messages of archived sessions are reported as invalid messages.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	m := a.send(b, "m")
	b.recv(t, a, m, "m")
	a.open(b, b.bundle(1, -1))
	b.recv(t, a, a.send(b, "next"), "next")
	if _, err := b.decrypt(a, m); !errors.Is(err, perrors.ErrDuplicateMessage) {
		t.Fatal(err)
	}
}
''', imports=['errors','lib/perrors']),
dict(id='C03-mac-over-fields', property='C03',
 edits=[('message/signal.go','''	senderRatchetKey, err := curve.NewPublicKey(message.GetRatchetKey())
	if err != nil {
		return nil, err
	}
''','''	senderRatchetKey, err := curve.NewPublicKey(message.GetRatchetKey())
	if err != nil {
		return nil, err
	}

	// Keep the canonical encoding.
	canonical, err := proto.Marshal(&message)
	if err != nil {
		return nil, err
	}
	if len(canonical) < len(bytes)-1-macSize {
		compact := append([]byte{bytes[0]}, canonical...)
		bytes = append(compact, bytes[len(bytes)-macSize:]...)
	}
''')],
 needs='a message altered so that it has the same fields in another, longer encoding',
 breaks='The MAC is computed over the fields as encoded again, so alterations of the encoding (repeated fields, longer varints) are accepted.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	m := append([]byte(nil), a.send(b, "m").Bytes()...)
	n := len(m) - 8
	w := append([]byte(nil), m[:n]...)
	w = append(w, 0x10, 0) // the counter, once more
	w = append(w, m[n:]...)
	s, err := message.NewSignalFromBytes(w)
	if err != nil {
		return
	}
	if p, err := b.with(a.addr).DecryptMessage(ctx, b.random, s); err == nil {
		t.Fatalf("decrypted %q", p)
	}
}
''', imports=['lib/message']),
dict(id='C04-archive-when-invalid', property='C04',
 edits=[('session/cipher.go','''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
	if err != nil {
		return nil, err
	}

	if record.State() == nil {''','''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
	if err != nil {
		if !errors.Is(err, perrors.ErrDuplicateMessage) && ciphertext.Counter() == 0 {
			// The sender uses a session we do not know, so a new one is about to come.
			record.ArchiveCurrentState()
			if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
				return nil, err
			}
		}
		return nil, err
	}

	if record.State() == nil {''')],
 needs='refused messages at position zero, 40 of them to lose all archived sessions',
 breaks='Each refused first message of a chain archives the current session once more, which pushes genuine archived sessions out.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	old := a.send(b, "old")
	a.open(b, b.bundle(1, -1))
	b.recv(t, a, a.send(b, "next"), "next")
	a.recv(t, b, b.send(a, "next"), "next")
	w := append([]byte(nil), a.send(b, "m").Bytes()...)
	w[len(w)-1] ^= 1
	for i := 0; i < 41; i++ {
		b.refuse(t, a, must(message.NewSignalFromBytes(w)))
	}
	b.recv(t, a, old, "old")
}
''', imports=['lib/message']),
dict(id='C05-result-with-error', property='C05',
 edits=[('session/cipher.go','''	if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
		return nil, err
	}

	return msg, nil
}''','''	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)

	return msg, err
}''')],
 needs='the session store fails to store while a message is encrypted',
 breaks='The message is returned together with the error, and the next one uses the same key.',
 demo='''
type inner = session.Store

type failing struct {
	inner
}

func (f failing) Store(c context.Context, a address.Address, r *session.Record) error {
	return errors.New("fault")
}

func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	s := a.with(b.addr)
	s.SessionStore = failing{s.SessionStore}
	m, err := s.EncryptMessage(ctx, []byte("m"))
	if err == nil || m != nil {
		t.Fatal(m, err)
	}
}
''', imports=['errors','context','lib/address','lib/session']),
dict(id='C06-object-remembers', property='C06',
 edits=[('session/session.go','''	IdentityKeyStore  identity.Store
}
''','''	IdentityKeyStore  identity.Store

	// verified is the signature of a bundle which was found to be valid.
	verified []byte
}
'''),('session/session.go','''	ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
	if err != nil {
		return err
	}
	if !ok {
		return errors.New("signature validation failed")
	}
''','''	// Signed pre-keys are in use for weeks.
	if s.verified == nil || !bytes.Equal(s.verified, bundle.SignedPreKeySignature) {
		ok, err := theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.Bytes())
		if err != nil {
			return err
		}
		if !ok {
			return errors.New("signature validation failed")
		}
		s.verified = bundle.SignedPreKeySignature
	}
''')],
 needs='the same Session value used for a genuine bundle and then for one with the same signature and another key',
 breaks='The signature of a bundle is taken for valid when it was in an earlier one, whatever it signs.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	s := a.with(b.addr)
	good := b.bundle(1, -1)
	if err := s.ProcessPreKeyBundle(ctx, a.random, good); err != nil {
		t.Fatal(err)
	}
	bad := *good
	bad.SignedPreKeyPublic = must(curve.GenerateKeyPair(rand.Reader)).PublicKey()
	if s.ProcessPreKeyBundle(ctx, a.random, &bad) == nil {
		t.Fatal("accepted")
	}
}
''', imports=['crypto/rand','lib/curve']),
dict(id='C02-object-cache', property='C02',
 edits=[('session/session.go','''	IdentityKeyStore  identity.Store
}
''','''	IdentityKeyStore  identity.Store

	// record is what was stored last.
	record *Record
}
'''),('session/cipher.go','''func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertext *message.Signal) ([]byte, error) {
	record, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
	if err != nil {
		return nil, err
	}
	if !exists {
		return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
	}
''','''func (s *Session) decryptSignal(ctx context.Context, random io.Reader, ciphertext *message.Signal) ([]byte, error) {
	record := s.record
	s.record = nil
	if record == nil {
		stored, exists, err := s.SessionStore.Load(ctx, s.RemoteAddress)
		if err != nil {
			return nil, err
		}
		if !exists {
			return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
		}
		record = stored
	}
'''),('session/cipher.go','''	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	return plaintext, nil
}

type updatedState''','''	err = s.SessionStore.Store(ctx, s.RemoteAddress, record)
	if err != nil {
		return nil, err
	}

	// Messages often come in bursts; this saves loading it for each of them.
	s.record = record

	return plaintext, nil
}

type updatedState'''),('session/cipher.go','''func (s *Session) EncryptMessage(ctx context.Context, plaintext []byte) (message.Ciphertext, error) {
''','''func (s *Session) EncryptMessage(ctx context.Context, plaintext []byte) (message.Ciphertext, error) {
	s.record = nil
'''),('session/cipher.go','''func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertext *message.PreKey) ([]byte, error) {
''','''func (s *Session) decryptPreKey(ctx context.Context, random io.Reader, ciphertext *message.PreKey) ([]byte, error) {
	s.record = nil
'''),('session/session.go','''func (s *Session) ProcessPreKeyBundle(ctx context.Context, random io.Reader, bundle *prekey.Bundle) error {
''','''func (s *Session) ProcessPreKeyBundle(ctx context.Context, random io.Reader, bundle *prekey.Bundle) error {
	s.record = nil
''')],
 needs='two Session values for the same user, used in turn for messages one after the other',
 breaks='A Session goes on with the record it stored last, although another one has stored since; a message decrypted there is decrypted again.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	s1, s2 := b.with(a.addr), b.with(a.addr)
	m1, m2 := a.send(b, "1"), a.send(b, "2")
	must(s1.DecryptMessage(ctx, b.random, wire(m1)))
	must(s2.DecryptMessage(ctx, b.random, wire(m2)))
	if _, err := s1.DecryptMessage(ctx, b.random, wire(m2)); err == nil {
		t.Fatal("decrypted twice")
	}
}
'''),
dict(id='C06-bare-key-signature', property='C06',
 edits=[('session/session.go','''	if !ok {
		return errors.New("signature validation failed")
	}

	record, exists''','''	if !ok {
		// Some clients sign the key without its type.
		ok, err = theirIdentityKey.PublicKey().VerifySignature(bundle.SignedPreKeySignature, bundle.SignedPreKeyPublic.KeyBytes())
		if err != nil {
			return err
		}
	}
	if !ok {
		return errors.New("signature validation failed")
	}

	record, exists''')],
 needs='a bundle with a signature over the 32 bytes of the key without its type',
 breaks='Signatures over something else than the encoded signed pre-key are accepted.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	bad := *b.bundle(1, -1)
	bad.SignedPreKeySignature = must(b.pair.PrivateKey().Sign(rand.Reader, bad.SignedPreKeyPublic.KeyBytes()))
	if a.process(b, &bad) == nil {
		t.Fatal("accepted")
	}
}
''', imports=['crypto/rand']),
dict(id='C07-kept-with-older', property='C07',
 edits=[('session/cipher.go','''	if preKeyID != nil {
		err := s.PreKeyStore.Delete''','''	if preKeyID != nil && len(record.previousSessions) == 0 {
		err := s.PreKeyStore.Delete''')],
 needs='a second session opened by the same user with a one-time pre-key',
 breaks='One-time pre-keys are kept when there is an older session with the sender.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	a.open(b, b.bundle(1, 5))
	b.recv(t, a, a.send(b, "m"), "m")
	if _, ok, _ := b.st.PreKeyStore().Load(ctx, 5); ok {
		t.Fatal("kept")
	}
}
'''),
dict(id='C08-clear-later', property='C08',
 edits=[('identity/store_inmem.go','''	tmp := i.knownKeys
	i.knownKeys = make(map[address.Address]Key)

	go func() {
		for k := range tmp {
			delete(tmp, k)
		}
	}()
''','''	for k, key := range i.knownKeys {
		// Those which are ours stay.
		if key.Equal(i.keyPair.IdentityKey()) {
			continue
		}
		delete(i.knownKeys, k)
	}
''')],
 needs='Clear when another device with the same identity is known, which then has another identity',
 breaks='Clear keeps the pins of devices with the identity of this one.',
 demo='''
func TestDemo(t *testing.T) {
	a := newUser("a", 1)
	b := newUserKey("a", 2, a.pair)
	chat(t, a, b)
	if err := a.st.IdentityStore().Clear(); err != nil {
		t.Fatal(err)
	}
	if _, ok, _ := a.st.IdentityStore().Load(ctx, b.addr); ok {
		t.Fatal("still there")
	}
}
'''),
dict(id='C09-allocate-before-limit', property='C09',
 edits=[('session/group_cipher.go','''	jump := iteration - currentIteration
	if jump > MaxJumps {''','''	jump := iteration - currentIteration
	skipped := make([]senderkey.MessageKey, 0, jump)
	if jump > MaxJumps {'''),('session/group_cipher.go','''		state.AddMessageKey(keys)
		chainKey = chainKey.Next()
	}
''','''		skipped = append(skipped, keys)
		chainKey = chainKey.Next()
	}
	for _, keys := range skipped {
		state.AddMessageKey(keys)
	}
''')],
 needs='a signed group message whose position is far ahead',
 breaks='Memory is allocated in proportion to the position a message claims, before the limit is checked.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	key := must(curve.GenerateKeyPair(rand.Reader))
	b.join(a, must(message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: gid(1), ChainID: 1, ChainKey: make([]byte, 32), SigningKey: key.PublicKey()})))
	m := must(message.NewSenderKey(rand.Reader, message.SenderKeyConfig{Version: 3, DistID: gid(1), ChainID: 1, Iteration: 10_000_000, Ciphertext: make([]byte, 16), SignatureKey: key.PrivateKey()}))
	var s0, s1 runtime.MemStats
	runtime.ReadMemStats(&s0)
	b.grefuse(t, a, m)
	runtime.ReadMemStats(&s1)
	if n := s1.TotalAlloc - s0.TotalAlloc; n > 100<<20 {
		t.Fatal(n)
	}
}
''', imports=['crypto/rand','runtime','lib/curve','lib/message']),
dict(id='C10-distribution-length', property='C10',
 edits=[('message/senderkey.go','''	// Message must contain key + chain key.
	if len(bytes) < 1+32+32 {''','''	// Version, ID, chain ID, iteration, chain key and key, all but the version with tag.
	if len(bytes) < 1+38+4+2+34+35 {''')],
 needs='a distribution message with a chain ID less than 16,384 (and an iteration less than 128)',
 breaks='Distribution messages with small chain IDs are refused as too short.',
 demo='''
func TestDemo(t *testing.T) {
	key := must(curve.GenerateKeyPair(rand.Reader))
	d := must(message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: gid(1), ChainID: 1000, ChainKey: make([]byte, 32), SigningKey: key.PublicKey()}))
	if _, err := message.NewSenderKeyDistributionFromBytes(d.Bytes()); err != nil {
		t.Fatal(err)
	}
}
''', imports=['crypto/rand','lib/curve','lib/message']),
dict(id='C11-mac-key-order', property='C11',
 edits=[('message/mac.go','''	hash.Write(senderIdentityKey.Bytes())
	hash.Write(receiverIdentityKey.Bytes())
''','''	// The same order on both sides.
	first, second := senderIdentityKey.Bytes(), receiverIdentityKey.Bytes()
	if bytes.Compare(first, second) > 0 {
		first, second = second, first
	}
	hash.Write(first)
	hash.Write(second)
'''),('message/mac.go','''import (
''','''import (
	"bytes"
''')],
 needs='a conversation with another implementation where the sender has the larger identity key',
 breaks='The MAC has the identity keys in ascending order, not sender before receiver.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	for _, x := range [][2]*user{{a, b}, {b, a}} {
		key := bytes.Repeat([]byte{7}, 32)
		m := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: key, SenderRatchetKey: a.pair.PublicKey(), Ciphertext: make([]byte, 16),
			SenderIdentityKey: x[0].pair.IdentityKey(), ReceiverIdentityKey: x[1].pair.IdentityKey()})).Bytes()
		h := hmac.New(sha256.New, key)
		h.Write(x[0].pair.IdentityKey().Bytes())
		h.Write(x[1].pair.IdentityKey().Bytes())
		h.Write(m[:len(m)-8])
		if !bytes.Equal(h.Sum(nil)[:8], m[len(m)-8:]) {
			t.Fatal("another MAC")
		}
	}
}
''', imports=['bytes','crypto/hmac','crypto/sha256','lib/message']),
dict(id='C12-group-jump-edge', property='C12',
 edits=[('session/group_cipher.go','''	if jump > MaxJumps {''','''	if jump >= MaxJumps {''')],
 needs='a group message exactly 25,000 positions ahead',
 breaks='The last position within the limit is refused.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.join(a, a.dist(gid(1)))
	for i := 0; i < 25000; i++ {
		a.gsend(gid(1), "lost")
	}
	b.grecv(t, a, a.gsend(gid(1), "m"), "m")
}
'''),
dict(id='C12-archive-41', property='C12',
 edits=[('session/record.go','''	if len(r.previousSessions) >= maxArchivedStates {''','''	if len(r.previousSessions) > maxArchivedStates {''')],
 needs='more than 41 sessions with one user',
 breaks='One archived session more than the limit is kept.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	for i := 0; i < 45; i++ {
		a.open(b, b.bundle(1, -1))
	}
	r, _, err := a.st.SessionStore().Load(ctx, b.addr)
	if err != nil || len(must(r.PreviousStates())) != 40 {
		t.Fatal(len(must(r.PreviousStates())), err)
	}
}
'''),
dict(id='C13-evict-least-used', property='C13',
 edits=[('session/group_record.go','''		g.states[0] = nil
		g.states = g.states[1:]
''','''		// Make place for it; keys with which nothing was read are of the least use.
		least := 0
		for i, s := range g.states {
			if s.SenderChainKey().Iteration() < g.states[least].SenderChainKey().Iteration() {
				least = i
			}
		}
		g.states = append(g.states[:least], g.states[least+1:]...)
''')],
 needs='six sender keys of one sender, of which the oldest was used more than another one',
 breaks='A newer sender key is dropped in place of the oldest one, and messages under it are refused.',
 demo='''
func TestDemo(t *testing.T) {
	b := newUser("b", 1)
	var last *message.SenderKey
	for i := 0; i < 6; i++ {
		a := newUser("a", 1)
		b.join(a, a.dist(gid(1)))
		if i == 4 {
			last = a.gsend(gid(1), "m")
			continue
		}
		b.grecv(t, a, a.gsend(gid(1), "x"), "x")
	}
	b.grecv(t, newUser("a", 1), last, "m")
}
''', imports=['lib/message']),
dict(id='C14-object-cache', property='C14',
 edits=[('session/group_session.go','''	SenderKeyStore GroupStore
}
''','''	SenderKeyStore GroupStore

	// record is what was stored last when decrypting, recordID for which group.
	record   *GroupRecord
	recordID distribution.ID
}
'''),('session/group_cipher.go','''	record, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, distributionID)
	if err != nil {
		return nil, err
	}
	if !exists {
		return nil, fmt.Errorf("no sender key state for distribution ID %s", distributionID.String())
	}
''','''	record := g.record
	g.record = nil
	if record == nil || g.recordID != distributionID || record.StateForChainID(chainID) == nil {
		stored, exists, err := g.SenderKeyStore.Load(ctx, g.SenderAddress, distributionID)
		if err != nil {
			return nil, err
		}
		if !exists {
			return nil, fmt.Errorf("no sender key state for distribution ID %s", distributionID.String())
		}
		record = stored
	}
'''),('session/group_cipher.go','''	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}
''','''	err = g.SenderKeyStore.Store(ctx, g.SenderAddress, ciphertext.DistributionID(), record)
	if err != nil {
		return nil, err
	}
	g.record, g.recordID = record, distributionID
''')],
 needs='two GroupSession values for the same sender, used in turn',
 breaks='A GroupSession goes on with the record it stored last, although another one has stored since; a message decrypted there is decrypted again.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.join(a, a.dist(gid(1)))
	g1, g2 := b.group(a.addr, gid(1)), b.group(a.addr, gid(1))
	m1, m2 := a.gsend(gid(1), "1"), a.gsend(gid(1), "2")
	must(g1.DecryptMessage(ctx, m1))
	must(g2.DecryptMessage(ctx, m2))
	if _, err := g1.DecryptMessage(ctx, m2); err == nil {
		t.Fatal("decrypted twice")
	}
}
'''),
dict(id='C15-skipped-unverified', property='C15',
 edits=[('session/group_cipher.go','''	valid, err := ciphertext.VerifySignature(signingKey)
	if err != nil {
		return nil, err
	}
	if !valid {
		return nil, errors.New("signature verification failed")
	}

	messageKey, err := g.messageKey(state, ciphertext.Iteration(), ciphertext.DistributionID())
	if err != nil {
		return nil, err
	}
''','''	// Only what moves the chain needs to be checked; kept keys are good for one message each.
	if ciphertext.Iteration() >= state.SenderChainKey().Iteration() {
		valid, err := ciphertext.VerifySignature(signingKey)
		if err != nil {
			return nil, err
		}
		if !valid {
			return nil, errors.New("signature verification failed")
		}
	}

	messageKey, err := g.messageKey(state, ciphertext.Iteration(), ciphertext.DistributionID())
	if err != nil {
		return nil, err
	}
''')],
 needs='another member of the group forges or alters a message at a position which was skipped',
 breaks='Signatures of messages at skipped positions are not verified.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.join(a, a.dist(gid(1)))
	w := append([]byte(nil), a.gsend(gid(1), "m").Bytes()...)
	b.grecv(t, a, a.gsend(gid(1), "n"), "n")
	w[len(w)-1] ^= 1
	b.grefuse(t, a, must(message.NewSenderKeyFromBytes(w)))
}
''', imports=['lib/message']),
dict(id='C16-distribution-kept', property='C16',
 edits=[('session/group_session.go','''	SenderKeyStore GroupStore
}
''','''	SenderKeyStore GroupStore

	distribution *message.SenderKeyDistribution
}
'''),('session/group_session.go','''	senderChainKey := state.SenderChainKey()

	signingKey''','''	if g.distribution != nil && g.distribution.ChainID() == state.ChainID() {
		return g.distribution, nil
	}

	senderChainKey := state.SenderChainKey()

	signingKey'''),('session/group_session.go','''	return message.NewSenderKeyDistribution(message.SenderKeyDistConfig{''','''	g.distribution, err = message.NewSenderKeyDistribution(message.SenderKeyDistConfig{'''),('session/group_session.go','''		ChainKey:   senderChainKey.Seed(),
		SigningKey: signingKey,
	})
}''','''		ChainKey:   senderChainKey.Seed(),
		SigningKey: signingKey,
	})

	return g.distribution, err
}''')],
 needs='the same GroupSession value used for two distribution messages with messages sent between them',
 breaks='Later members get the position of the first distribution message and can read messages sent before they joined.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	g := a.group(a.addr, gid(1))
	must(g.NewSenderKeyDistribution(ctx, a.random))
	m := must(g.EncryptMessage(ctx, a.random, []byte("before")))
	b.join(a, must(g.NewSenderKeyDistribution(ctx, a.random)))
	b.grefuse(t, a, m)
}
'''),
]
