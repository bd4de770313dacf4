SEEDS = [
dict(id='C24-first-chunk-order', property='C24', imports=['lib/fingerprint'],
 edits=[('fingerprint/displayable.go','''	if d.local < d.remote {
		return''','''	if d.local[:10] < d.remote[:10] {
		return''')],
 needs='two fingerprints which share their first ten digits',
 breaks='The two users see different numbers.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := make([]byte, 32), make([]byte, 32)
	a[14] = 1
	x, y := must(fingerprint.NewDisplayable(a, b)), must(fingerprint.NewDisplayable(b, a))
	if x.String() != y.String() {
		t.Fatal("different numbers")
	}
}
'''),
dict(id='C12-pair-jump-edge', property='C12',
 edits=[],needs='',breaks='',demo=''),
dict(id='C19-archive-drops-previous', property='C19', imports=[],
 edits=[],needs='',breaks='',demo=''),
dict(id='C11-counter-of-empty', property='C11',
 edits=[('session/cipher.go','''	previousCounter := state.PreviousCounter()
''','''	previousCounter := state.PreviousCounter()
	if chainKey.Index() > 0 {
		// The first message told already.
		previousCounter = 0
	}
''')],
 needs='a later message of a chain which follows a chain with several messages',
 breaks='The previous counter on the wire is wrong.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	for i := 0; i < 3; i++ {
		b.recv(t, a, a.send(b, "x"), "x")
	}
	a.recv(t, b, b.send(a, "y"), "y")
	b.recv(t, a, a.send(b, "x"), "x")
	// Field 3 of the message is the previous counter.
	if m := a.send(b, "x").Bytes(); !bytes.Contains(m[:45], []byte{0x10, 1, 0x18, 2}) {
		t.Fatalf("%x", m)
	}
}
''',imports=['bytes']),
dict(id='C04-clone-shares-chains', property='C04',
 edits=[('session/state.go','''	session := proto.Clone(s.session)
	return NewState(session.(*v1.SessionStructure))''','''	session := proto.Clone(s.session).(*v1.SessionStructure)
	// The pending item is never changed.
	session.PendingPreKey = s.session.GetPendingPreKey()
	return NewState(session)''')],
 needs='', breaks='', demo=''),
dict(id='C03-mac-of-body', property='C03', edits=[], needs='',breaks='',demo=''),
dict(id='C28-clear-when-any', property='C28',
 edits=[('session/cipher.go','''			glog.Infof("decrypted %v message from %v with PREVIOUS session state", typ, s.RemoteAddress)
''','''			glog.Infof("decrypted %v message from %v with PREVIOUS session state", typ, s.RemoteAddress)
			if record.State() != nil {
				// They are there, so there is no need to establish anything.
				record.State().ClearUnacknowledgedPreKeyMessage()
			}
''')],
 needs='a message of an archived session arrives while a newer session is not yet known to the other, and then one of the newer session is sent or made current again',
 breaks='The newer session can never be established.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(1, -1))
	b.recv(t, a, a.send(b, "1"), "1")
	r1 := b.send(a, "r1")
	a.open(b, b.bundle(1, -1))
	lost := a.send(b, "2")
	a.recv(t, b, r1, "r1")
	b.recv(t, a, lost, "2")
	a.recv(t, b, b.send(a, "r2"), "r2")
	b.recv(t, a, a.send(b, "3"), "3")
	_ = lost
}
'''),
dict(id='C14-forget-on-rejoin', property='C14', imports=[],
 edits=[('session/group_record.go','''	if !removed {
		existing = state
	}
''','''	// What was announced last counts.
	if !removed || state.SenderChainKey().Iteration() > existing.SenderChainKey().Iteration() {
		existing = state
	}
''')],
 needs='a newer distribution message of the same chain is processed while messages before it are still on their way',
 breaks='', demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	b.join(a, a.dist(gid(1)))
	late := a.gsend(gid(1), "late")
	b.join(a, a.dist(gid(1)))
	b.grecv(t, a, late, "late")
}
'''),
dict(id='C07-skip-when-known', property='C07',
 edits=[('session/session.go','''	record.PromoteState(session)

	return message.PreKeyID(), nil
''','''	fresh := record.State() == nil
	record.PromoteState(session)
	if id := message.PreKeyID(); id != nil && !fresh && *id == prekey.ID(message.SignedPreKeyID()) {
		// The ID names the signed pre-key, which stays.
		return nil, nil
	}

	return message.PreKeyID(), nil
''')],
 needs='a second session with a one-time pre-key whose ID equals that of the signed pre-key',
 breaks='The one-time pre-key stays and can be used again.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	a.open(b, b.bundle(7, 7))
	b.recv(t, a, a.send(b, "1"), "1")
	if _, ok, _ := b.st.PreKeyStore().Load(ctx, 7); ok {
		t.Fatal("still there")
	}
}
'''),
dict(id='C20-device-overflow', property='C20', edits=[],needs='',breaks='',demo=''),
dict(id='C01-equal-prefix-chain', property='C01',
 edits=[('session/state.go','''	for i, chain := range s.session.GetReceiverChains() {
		if bytes.Equal(chain.GetSenderRatchetKey(), key) {''','''	for i, chain := range s.session.GetReceiverChains() {
		if bytes.HasPrefix(chain.GetSenderRatchetKey(), key[:2]) {''')],
 needs='two ratchet keys of the other user which share their first byte',
 breaks='A genuine message is looked up in the wrong chain.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	for i := 0; i < 800; i++ {
		b.recv(t, a, a.send(b, "x"), "x")
		a.recv(t, b, b.send(a, "y"), "y")
	}
}
'''),
dict(id='C05-partial-distribution', property='C05', imports=['io','lib/distribution'],
 edits=[('session/group_session.go','''		err = g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record)
		if err != nil {
			return nil, err
		}
	}

	state, err := record.State()''','''		if storeErr := g.SenderKeyStore.Store(ctx, g.SenderAddress, g.DistID, record); storeErr != nil {
			// Somebody else may have made one meanwhile.
			var found bool
			record, found, err = g.SenderKeyStore.Load(ctx, g.SenderAddress, g.DistID)
			if err != nil {
				return nil, err
			}
			if !found {
				record = NewGroupRecord()
				if err := record.AddState(state); err != nil {
					return nil, err
				}
			}
		}
	}

	state, err := record.State()''')],
 needs='the store fails once when a new sender key is stored',
 breaks='A distribution message is returned for a sender key that was not stored.',
 demo='''
type failing struct{ session.GroupStore }

func (failing) Store(context.Context, address.Address, distribution.ID, *session.GroupRecord) error {
	return io.ErrClosedPipe
}

func TestDemo(t *testing.T) {
	a := newUser("a", 1)
	g := &session.GroupSession{SenderAddress: a.addr, DistID: gid(1), SenderKeyStore: failing{a.st.GroupStore()}}
	if _, err := g.NewSenderKeyDistribution(ctx, a.random); err == nil {
		t.Fatal("succeeded although nothing was stored")
	}
}
'''),
]
SEEDS = [s for s in SEEDS if s['edits'] and s['demo']]
for s in SEEDS:
    if s['id']=='C05-partial-distribution': s['imports']=['context','io','lib/address','lib/distribution','lib/session']
    if s['id']=='C14-forget-on-rejoin': s['property']='C13'; s['id']='C13-forget-on-rejoin'; s['breaks']='Genuine messages sent before a repeated distribution message cannot be read.'
