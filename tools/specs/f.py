WATCH = '''
// watch is an identity store which lets a test see its use.
type watch struct {
	identity.Store
	used func(ctx context.Context, what string, a address.Address)
}

func (w watch) Store(ctx context.Context, a address.Address, k identity.Key) (bool, error) {
	w.used(ctx, "store", a)
	return w.Store_(ctx, a, k)
}

func (w watch) Store_(ctx context.Context, a address.Address, k identity.Key) (bool, error) {
	return w.Store.Store(ctx, a, k)
}
'''
SESS = '''
type watched struct {
	st   session.Store
	used func(what string, a address.Address)
}

func (w watched) Load(ctx context.Context, a address.Address) (*session.Record, bool, error) {
	w.used("load", a)
	return w.st.Load(ctx, a)
}

func (w watched) Store(ctx context.Context, a address.Address, r *session.Record) error {
	w.used("store", a)
	return w.st.Store(ctx, a, r)
}
'''
SEEDS = [
dict(id='C29-delete-without-cancel', property='C29', imports=['context','lib/prekey'],
 edits=[('session/cipher.go','''		err := s.PreKeyStore.Delete(ctx, *preKeyID)''','''		// The session is stored, so this must not be given up any more.
		err := s.PreKeyStore.Delete(context.WithoutCancel(ctx), *preKeyID)''')],
 needs='a caller who cancels while the used one-time pre-key is being deleted',
 breaks='The deletion of a pre-key can not be cancelled by the caller.',
 demo='''
type under = prekey.Store

type slow struct {
	under
	stop func()
	seen error
}

func (s *slow) Delete(ctx context.Context, id prekey.ID) error {
	s.stop()
	s.seen = ctx.Err()
	return s.under.Delete(ctx, id)
}

func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(7, 8))
	m := a.send(b, "1")
	s := b.with(a.addr)
	c, stop := context.WithCancel(ctx)
	st := &slow{under: s.PreKeyStore, stop: stop}
	s.PreKeyStore = st
	if _, err := s.DecryptMessage(c, b.random, wire(m)); err != nil {
		t.Fatal(err)
	}
	if st.seen == nil {
		t.Fatal("the store does not learn that the caller gave up")
	}
}
'''),
dict(id='C29-previous-signed-key', property='C29', imports=['context','lib/prekey'],
 edits=[('session/session.go','''	if !exists {
		return nil, fmt.Errorf("no signed pre-key with ID %s", message.SignedPreKeyID())
	}
''','''	if !exists && message.SignedPreKeyID() > 0 {
		// Some clients announce the ID of the key which comes next.
		ourSignedPreKeyRecord, exists, err = s.SignedPreKeyStore.Load(ctx, message.SignedPreKeyID()-1)
		if err != nil {
			return nil, err
		}
	}
	if !exists {
		return nil, fmt.Errorf("no signed pre-key with ID %s", message.SignedPreKeyID())
	}
''')],
 needs='an establishing message which names a signed pre-key that is not there any more',
 breaks='A signed pre-key is used which the message does not name.',
 demo='''
type seen struct {
	prekey.SignedStore
	ids []prekey.ID
}

func (s *seen) Load(ctx context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	s.ids = append(s.ids, id)
	return s.SignedStore.Load(ctx, id)
}

func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.bundle(7, 8)
	x := b.bundle(7, 8)
	x.SignedPreKeyID = 9
	a.open(b, x)
	m := a.send(b, "1")
	s := b.with(a.addr)
	st := &seen{SignedStore: s.SignedPreKeyStore}
	s.SignedPreKeyStore = st
	if _, err := s.DecryptMessage(ctx, b.random, wire(m)); err == nil {
		t.Fatal("decrypted")
	}
	for _, id := range st.ids {
		if id != 9 {
			t.Fatalf("signed pre-key %d was used", id)
		}
	}
}
'''),
dict(id='C29-store-duplicates', property='C29', imports=['context','lib/address','lib/session'],
 edits=[('session/cipher.go','''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
	if err != nil {
		return nil, err
	}
''','''	plaintext, err := s.decryptMessage(random, record, ciphertext.Type(), ciphertext)
	if errors.Is(err, perrors.ErrDuplicateMessage) {
		// Touch the session, so that the application knows it is in use.
		if err := s.SessionStore.Store(ctx, s.RemoteAddress, record); err != nil {
			return nil, err
		}
	}
	if err != nil {
		return nil, err
	}
''')],
 needs='a message delivered twice',
 breaks='A refused message makes the session be stored, so it can undo what somebody stored meanwhile.',
 demo=SESS+'''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	m := a.send(b, "1")
	b.recv(t, a, m, "1")
	n := 0
	b.sess = watched{b.st.SessionStore(), func(what string, _ address.Address) {
		if what == "store" {
			n++
		}
	}}
	b.refuse(t, a, m)
	if n > 0 {
		t.Fatal("stored although refused")
	}
}
'''),
dict(id='C29-primary-device', property='C29', imports=['context','lib/address','lib/session'],
 edits=[('session/cipher.go','''	if !exists {
		return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
	}

	state := record.State()
''','''	if !exists {
		// Tell which session is missing if there is none with the user at all.
		primary := s.RemoteAddress
		primary.DeviceID = 1
		if _, exists, err = s.SessionStore.Load(ctx, primary); err != nil || !exists {
			return nil, perrors.ErrSessionNotFound(primary)
		}
		return nil, perrors.ErrSessionNotFound(s.RemoteAddress)
	}

	state := record.State()
''')],
 needs='encrypting for a device without session',
 breaks='The session of another device is looked up and reported.',
 demo=SESS+'''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 2)
	a.sess = watched{a.st.SessionStore(), func(what string, at address.Address) {
		if at != b.addr {
			t.Errorf("%s of %v", what, at)
		}
	}}
	if _, err := a.encrypt(b, "1"); err == nil {
		t.Fatal("encrypted")
	}
}
'''),
dict(id='C15-derived-signing-key', property='C15', imports=['bytes','crypto/rand','lib/curve','lib/message'],
 edits=[('session/group_session.go','''		signingKey, err := curve.GenerateKeyPair(random)''','''		// One secret for the whole chain.
		signingKey, err := curve.GenerateKeyPair(bytes.NewReader(senderKey))'''),
  ('session/group_session.go','''import (
	"context"''','''import (
	"bytes"
	"context"''')],
 needs='a member who got the distribution message before the first message',
 breaks='Members of a group can sign messages as the sender.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	d := a.dist(gid(1))
	b.join(a, d)
	pair, err := curve.GenerateKeyPair(bytes.NewReader(d.ChainKey()))
	if err != nil {
		t.Fatal(err)
	}
	x, err := message.NewSenderKey(rand.Reader, message.SenderKeyConfig{Version: 3, DistID: d.DistributionID(), ChainID: d.ChainID(), Ciphertext: make([]byte, 16), SignatureKey: pair.PrivateKey()})
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := x.VerifySignature(d.SigningKey()); ok {
		t.Fatal("a member can sign for the sender")
	}
}
'''),
dict(id='C18-short-seed', property='C18', imports=['bytes'],
 edits=[('session/group_session.go','''		_, err = io.ReadFull(random, senderKey)''','''		_, err = io.ReadAtLeast(random, senderKey, len(senderKey)/2)''')],
 needs='a source of randomness which returns less than asked for',
 breaks='A sender key is made of half the randomness, the rest being zero.',
 demo='''
type half struct{ n byte }

func (h *half) Read(b []byte) (int, error) {
	if len(b) > 16 {
		b = b[:16]
	}
	for i := range b {
		h.n++
		b[i] = h.n*7 + 1
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	a := newUser("a", 1)
	a.random = &half{}
	d := a.dist(gid(1))
	if bytes.Equal(d.ChainKey()[16:], make([]byte, 16)) {
		t.Fatal("half of the key is zero")
	}
}
'''),
dict(id='C01-stop-at-unfinished', property='C01',
 edits=[('session/record.go','''		session := new(v1.SessionStructure)
		err := proto.Unmarshal(state, session)
		if err != nil {
			return nil, err
		}
		states''','''		session := new(v1.SessionStructure)
		err := proto.Unmarshal(state, session)
		if err != nil {
			return nil, err
		}
		if session.GetPendingPreKey() != nil && len(states) > 0 && len(r.previousSessions) > 8 {
			// Never acknowledged.
			continue
		}
		states''')],
 needs='more than eight archived sessions, one of which was never answered until now',
 breaks='An archived session whose first answer is late is ignored, and the positions of the others are wrong.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	a.open(b, b.bundle(7, -1))
	b.recv(t, a, a.send(b, "1"), "1")
	late := b.send(a, "late")
	for i := 0; i < 10; i++ {
		a.open(b, b.bundle(7, -1))
	}
	a.recv(t, b, late, "late")
}
'''),
dict(id='C24-scan-either', property='C24',
 edits=[], needs='', breaks='', demo=''),
dict(id='C12-trim-on-archive', property='C12',
 edits=[('session/record.go','''	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())''','''	// Only the chain still in use is worth keeping.
	if state := r.currentSession.session; len(state.GetReceiverChains()) >= maxReceiverChains {
		state.ReceiverChains = state.GetReceiverChains()[1:]
	}
	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())''')],
 needs='a session with five receiver chains is archived, then a message of the oldest chain arrives',
 breaks='An archived session keeps one chain less than promised.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	b.recv(t, a, a.send(b, "0"), "0")
	late := b.send(a, "late")
	a.recv(t, b, b.send(a, "1"), "1")
	for i := 0; i < 4; i++ {
		b.recv(t, a, a.send(b, "x"), "x")
		a.recv(t, b, b.send(a, "y"), "y")
	}
	a.open(b, b.bundle(7, -1))
	a.recv(t, b, late, "late")
}
'''),
dict(id='C17-archive-previous-keys', property='C17', edits=[], needs='', breaks='', demo=''),
dict(id='C08-alternate-bit', property='C08', imports=['lib/identity','lib/direction'],
 edits=[('identity/store_inmem.go','''	return identity.Equal(knownIdentity), nil
}''','''	// The last bit of a public key does not matter.
	known, given := knownIdentity.Bytes(), identity.Bytes()
	last := len(known) - 1
	known[last] &= 0x7F
	given[last] &= 0x7F

	return bytes.Equal(known, given), nil
}'''),('identity/store_inmem.go','''import (
	"context"
''','''import (
	"bytes"
	"context"
''')],
 needs='an identity key which differs from the pinned one in its last bit',
 breaks='Another identity key than the pinned one is trusted.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	st := a.st.IdentityStore()
	if _, err := st.Store(ctx, b.addr, b.pair.IdentityKey()); err != nil {
		t.Fatal(err)
	}
	k := append([]byte(nil), b.pair.IdentityKey().Bytes()...)
	k[len(k)-1] ^= 0x80
	other := must(identity.NewKey(k))
	if ok, _ := st.IsTrustedIdentity(ctx, b.addr, other, direction.Receiving); ok {
		t.Fatal("another key is trusted")
	}
}
'''),
dict(id='C16-position-of-first', property='C16', edits=[], needs='', breaks='', demo=''),
dict(id='C06-key-without-id', property='C06',
 edits=[('session/session.go','''	theirOneTimePreKey := bundle.PreKeyPublic
''','''	theirOneTimePreKey := bundle.PreKeyPublic
	if bundle.PreKeyID != nil && *bundle.PreKeyID == bundle.SignedPreKeyID {
		// The signed key, repeated.
		theirOneTimePreKey = nil
	}
''')],
 needs='a bundle whose one-time pre-key has the same ID as its signed pre-key',
 breaks='Genuine bundles with equal IDs make sessions nobody can read.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(7, 7))
	b.recv(t, a, a.send(b, "1"), "1")
}
'''),
dict(id='C13-own-echo', property='C13', edits=[], needs='', breaks='', demo=''),
dict(id='C28-pending-lost-on-clone', property='C28', edits=[], needs='', breaks='', demo=''),
dict(id='C03-identity-order', property='C03', edits=[], needs='', breaks='', demo=''),
]
SEEDS = [s for s in SEEDS if s['edits']]
