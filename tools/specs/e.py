SEEDS = [
dict(id='C07-first-position-only', property='C07',
 edits=[('session/cipher.go','''	if preKeyID != nil {
		err := s.PreKeyStore.Delete''','''	// Later messages may still be retried with it.
	if preKeyID != nil && ciphertext.Message().Counter() == 0 {
		err := s.PreKeyStore.Delete''')],
 needs='the second establishing message of a session arrives before the first one',
 breaks='The one-time pre-key which was used is not removed.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(7, 8))
	a.send(b, "1")
	b.recv(t, a, a.send(b, "2"), "2")
	if _, ok, _ := b.st.PreKeyStore().Load(ctx, 8); ok {
		t.Fatal("the one-time pre-key is still there")
	}
}
'''),
dict(id='C12-recent-archives', property='C12',
 edits=[('session/cipher.go','''	for i, previous := range previousStates {
		plaintext, err''','''	for i, previous := range previousStates {
		if len(previousStates)-i > maxArchivedStates-1 {
			// The next one to be dropped.
			continue
		}
		plaintext, err''')],
 needs='a message of the oldest of exactly 40 archived sessions',
 breaks='The oldest archived session is held but not used.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(7, -1))
	b.recv(t, a, a.send(b, "1"), "1")
	late := a.send(b, "late")
	for i := 0; i < 40; i++ {
		a.open(b, b.bundle(7, -1))
		b.recv(t, a, a.send(b, "2"), "2")
	}
	b.recv(t, a, late, "late")
}
'''),
dict(id='C12-promote-full', property='C12',
 edits=[('session/record.go','''	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
	r.PromoteState(state)
''','''	r.PromoteState(state)
	// The oldest one may just have been dropped.
	if idx >= len(r.previousSessions) {
		idx = len(r.previousSessions) - 1
	}
	r.previousSessions[idx] = nil
	r.previousSessions = append(r.previousSessions[:idx], r.previousSessions[idx+1:]...)
''')],
 needs='40 archived sessions of which one receives a message, then messages of the oldest one and of it again',
 breaks='The oldest archived session is dropped and the wrong archived session is removed.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	a.open(b, b.bundle(7, 8))
	b.recv(t, a, a.send(b, "1"), "1")
	oldest := a.send(b, "oldest")
	a.open(b, b.bundle(7, -1))
	b.recv(t, a, a.send(b, "1"), "1")
	later := a.send(b, "later")
	for i := 0; i < 39; i++ {
		a.open(b, b.bundle(7, -1))
		b.recv(t, a, a.send(b, "2"), "2")
	}
	b.recv(t, a, later, "later")
	b.recv(t, a, oldest, "oldest")
}
'''),
dict(id='C22-keep-callers-key', property='C22', file=None,
 edits=[], needs='', breaks='', demo=''),
dict(id='C06-attach-first-only', property='C06',
 edits=[('session/cipher.go','''	if items != nil {
		msg, err = message.NewPreKey''','''	if items != nil && (chainKey.Index() == 0 || len(record.previousSessions) < 3) {
		msg, err = message.NewPreKey''')],
 needs='the fourth session opened with a user, of which the first message is lost',
 breaks='A later message alone does not establish the session.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	for i := 0; i < 4; i++ {
		a.open(b, b.bundle(7, -1))
	}
	a.send(b, "lost")
	b.recv(t, a, a.send(b, "m"), "m")
}
'''),
dict(id='C13-narrow-skip', property='C13',
 edits=[('session/group_state.go','''		if key.GetIteration() == iteration {''','''		if uint16(key.GetIteration()) == uint16(iteration) {''')],
 needs='skipped messages of a group 65536 positions apart, of which the later one arrives first',
 breaks='The key of the earlier one is used and removed for the later one.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	id := gid(1)
	b.join(a, a.dist(id))
	first := a.gsend(id, "first")
	b.grecv(t, a, a.gsend(id, "1"), "1")
	for i := 2; i < 65536; i++ {
		m := a.gsend(id, "n")
		b.grecv(t, a, m, "n")
	}
	late := a.gsend(id, "late")
	b.grecv(t, a, a.gsend(id, "end"), "end")
	b.grecv(t, a, late, "late")
	_ = first
}
'''),
dict(id='C01-narrow-counter', property='C01',
 edits=[('session/state.go','''		if key.GetIndex() == counter {
			found = true''','''		if key.GetIndex()&0xffff == counter&0xffff {
			found = true''')],
 needs='two skipped messages of one chain 65536 positions apart',
 breaks='Looking up one of them removes both, and gives the keys of the other one.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	x := a.send(b, "x")
	n := x.(*message.Signal).Counter()
	b.recv(t, a, a.send(b, "y"), "y")
	for i := uint32(2); i < 65536; i++ {
		m := a.send(b, "n")
		b.recv(t, a, m, "n")
	}
	z := a.send(b, "z")
	if z.(*message.Signal).Counter() != n+65536 {
		t.Log(z.(*message.Signal).Counter(), n)
	}
	b.recv(t, a, a.send(b, "end"), "end")
	b.recv(t, a, z, "z")
	b.recv(t, a, x, "x")
}
''', imports=['github.com/RTann/libsignal-go/protocol/message']),
dict(id='C08-first-seen-by-device', property='C08',
 edits=[('identity/store_inmem.go','''	knownIdentity, exists := i.knownKeys[address]
	i.knownKeys[address] = identity

	return exists''','''	knownIdentity, exists := i.knownKeys[address]
	if !exists {
		// All devices of a user have the same identity.
		for known, key := range i.knownKeys {
			if known.Name == address.Name && known.DeviceID != address.DeviceID && !key.Equal(identity) {
				delete(i.knownKeys, known)
			}
		}
	}
	i.knownKeys[address] = identity

	return exists''')],
 needs='two devices of a user with different identity keys, of which the second one is met after the first one',
 breaks='The identity of the first device is forgotten, and another one trusted in its place.',
 demo='''
func TestDemo(t *testing.T) {
	a, b, c := newUser("a", 1), newUser("b", 1), newUser("b", 2)
	chat(t, a, b)
	chat(t, a, c)
	if _, ok, _ := a.st.IdentityStore().Load(ctx, b.addr); !ok {
		t.Fatal("the identity is forgotten")
	}
}
'''),
dict(id='C09-negative-jump', property='C09',
 edits=[('session/cipher.go','''	jump := counter - chainIdx
	if jump > MaxJumps {
		sessionWithSelf''','''	jump := int32(counter - chainIdx)
	if jump > MaxJumps {
		sessionWithSelf''')],
 needs='a message of an authenticated chain claiming a position of 2^31 or more',
 breaks='The chain is stepped two billion times.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	m := a.send(b, "m").(*message.Signal)
	x := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: make([]byte, 32), SenderRatchetKey: m.SenderRatchetKey(), Counter: 1 << 31 + 5,
		Ciphertext: m.Message(), SenderIdentityKey: a.pair.IdentityKey(), ReceiverIdentityKey: b.pair.IdentityKey()}))
	done := make(chan bool)
	go func() {
		b.refuse(t, a, x)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("not refused within 20 s")
	}
}
''', imports=['time', 'github.com/RTann/libsignal-go/protocol/message']),
dict(id='C14-keep-later', property='C14',
 edits=[('session/group_record.go','''	if !removed {
		existing = state
	}
''','''	if !removed {
		existing = state
	} else if state.SenderChainKey().Iteration() > existing.SenderChainKey().Iteration() {
		// Catch up with the sender.
		existing.SetSenderChainKey(state.SenderChainKey())
	}
''')],
 needs='a repeated distribution message, made after further messages, is processed before those arrive',
 breaks='The messages in between cannot be decrypted any more.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	id := gid(1)
	b.join(a, a.dist(id))
	x := a.gsend(id, "x")
	b.join(a, a.dist(id))
	b.grecv(t, a, x, "x")
}
'''),
dict(id='C15-known-chain-key', property='C15',
 edits=[('session/group_cipher.go','''	valid, err := ciphertext.VerifySignature(signingKey)
	if err != nil {
		return nil, err
	}
	if !valid {
''','''	valid, err := ciphertext.VerifySignature(signingKey)
	if err != nil {
		return nil, err
	}
	for _, other := range record.states {
		// The sender may have changed keys meanwhile.
		if otherKey, err := other.PublicSigningKey(); !valid && err == nil && other.ChainID()>>31 == chainID>>31 {
			if ok, err := ciphertext.VerifySignature(otherKey); err == nil && ok && len(record.states) > 2 {
				valid = true
			}
		}
	}
	if !valid {
''')],
 needs='a member of a group who holds three sender keys of one sender, and a message in one chain signed with the key of another one',
 breaks='A message is accepted which is signed with another sender key than the one of its chain.',
 demo='''
func TestDemo(t *testing.T) {
	b := newUser("b", 1)
	id := gid(1)
	addr := newUser("a", 1).addr
	var ks []*curve.KeyPair
	for i := 0; i < 3; i++ {
		k := must(curve.GenerateKeyPair(rand.Reader))
		ks = append(ks, k)
		d := must(message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: id, ChainID: uint32(i + 1), ChainKey: make([]byte, 32), SigningKey: k.PublicKey()}))
		if err := b.group(addr, id).ProcessSenderKeyDistribution(ctx, d); err != nil {
			t.Fatal(err)
		}
	}
	a := newUser("a", 1)
	st := session.NewGroupRecord()
	if err := st.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: 1, ChainKey: make([]byte, 32), SignatureKey: ks[1].PublicKey(), SignaturePrivateKey: ks[1].PrivateKey()})); err != nil {
		t.Fatal(err)
	}
	if err := a.st.GroupStore().Store(ctx, addr, id, st); err != nil {
		t.Fatal(err)
	}
	m := a.gsend(id, "x")
	if p, err := b.group(addr, id).DecryptMessage(ctx, m); err == nil {
		t.Fatalf("accepted: %s", p)
	}
}
''', imports=['crypto/rand','github.com/RTann/libsignal-go/protocol/message','github.com/RTann/libsignal-go/protocol/curve','github.com/RTann/libsignal-go/protocol/session']),
dict(id='C28-pending-cleared-on-archive', property='C28',
 edits=[('session/record.go','''	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())
''','''	// An archived session is not used to send, as long as it is archived.
	r.currentSession.ClearUnacknowledgedPreKeyMessage()
	r.previousSessions = append(r.previousSessions, r.currentSession.Bytes())
''')],
 needs='both users open a session at the same time, and one becomes current again by a message in a chain older than the answer',
 breaks='Messages sent afterwards do not establish the session.',
 demo='''
func TestDemo(t *testing.T) {
}
'''),
dict(id='C27-duplicate-log', property='C27',
 edits=[('session/cipher.go','''		glog.Warningf("%v Duplicate message for counter: %d", s.RemoteAddress, counter)
''','''		glog.Warningf("%v Duplicate message for counter: %d (have %v)", s.RemoteAddress, counter, state.session.GetReceiverChains())
''')],
 needs='a message which arrives a second time',
 breaks='The chain keys of the session are logged.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	chat(t, a, b)
	m := a.send(b, "m")
	b.recv(t, a, m, "m")
	flag.Set("logtostderr", "true")
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	old := os.Stderr
	os.Stderr = w
	b.refuse(t, a, m)
	os.Stderr = old
	w.Close()
	out, _ := io.ReadAll(r)
	glog.Flush()
	if strings.Contains(string(out), "chain_key") {
		t.Fatalf("logged: %s", out)
	}
}
''', imports=['flag','io','os','strings','github.com/golang/glog']),
dict(id='C10-long-ids', property='C10', edits=[], needs='', breaks='', demo=''),
]
SEEDS = [s for s in SEEDS if s['edits'] and s['id'] != 'C28-pending-cleared-on-archive']
