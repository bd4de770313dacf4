SEEDS=[
dict(id='C13-short-chain-ids', property='C13', imports=['lib/message','lib/curve','crypto/rand'],
 edits=[('session/group_record.go','''	for _, state := range g.states {
		if chainID == state.ChainID() {
			return state
		}
	}

	return nil
}

func (g *GroupRecord) AddState''','''	for _, state := range g.states {
		// Some clients only send the lower half.
		if chainID == state.ChainID() || uint16(chainID) == uint16(state.ChainID()) {
			return state
		}
	}

	return nil
}

func (g *GroupRecord) AddState''')],
 needs='two sender keys of a sender whose chain IDs agree in their lower 16 bits',
 breaks='Messages of the later one cannot be read.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	pair := must(curve.GenerateKeyPair(rand.Reader))
	b.join(a, must(message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: gid(1), ChainID: 5, ChainKey: make([]byte, 32), SigningKey: pair.PublicKey()})))
	b.join(a, must(message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: gid(1), ChainID: 0x50005, ChainKey: make([]byte, 32), SigningKey: pair.PublicKey()})))
	rec, _, _ := b.st.GroupStore().Load(ctx, a.addr, gid(1))
	if id := rec.StateForChainID(0x50005).ChainID(); id != 0x50005 {
		t.Fatalf("%x", id)
	}
}
'''),
dict(id='C16-remove-alike', property='C16', imports=['lib/message','lib/curve','crypto/rand'],
 edits=[('session/group_record.go','''	for _, state := range g.states {
		if state.ChainID() == chainID {
			continue''','''	for _, state := range g.states {
		if state.ChainID()<<1 == chainID<<1 {
			continue''')],
 needs='a sender key whose chain ID differs from one held in the first bit only',
 breaks='A sender key is dropped although its chain ID is another.',
 demo='''
func TestDemo(t *testing.T) {
	a, b := newUser("a", 1), newUser("b", 1)
	pair := must(curve.GenerateKeyPair(rand.Reader))
	b.join(a, must(message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: gid(1), ChainID: 5, ChainKey: make([]byte, 32), SigningKey: pair.PublicKey()})))
	b.join(a, must(message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: gid(1), ChainID: 0x80000005, ChainKey: make([]byte, 32), SigningKey: pair.PublicKey()})))
	rec, _, _ := b.st.GroupStore().Load(ctx, a.addr, gid(1))
	if rec.StateForChainID(5) == nil {
		t.Fatal("dropped")
	}
}
'''),
]
