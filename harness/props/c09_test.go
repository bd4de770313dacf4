package props

import (
	"bytes"
	"fmt"
	"runtime"

	"pgregory.net/rapid"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/ref"
	"verif/vt"
)

// BytesCase is some input.
type BytesCase struct {
	Seed uint64 `json:"seed"`
	Kind int    `json:"kind"`
	Raw  []byte `json:"raw"`
}

var seedKinds = 12

// seedBytes makes well-formed input of a kind, with extreme values.
func seedBytes(r *vt.DRBG, kind int) []byte {
	num := func() uint64 {
		v := []uint64{0, 1, 24999, 25000, 25001, 0x7fffffff, 0x80000000, 0xffffffff, 1 << 32, 1<<64 - 1}
		if r.Intn(2) == 0 {
			return v[r.Intn(len(v))]
		}
		return r.Uint64() >> uint(r.Intn(64))
	}
	key := func() []byte {
		switch r.Intn(6) {
		case 0:
			return ref.Typed(lowOrder[r.Intn(len(lowOrder))])
		case 1:
			return ref.Typed(r.Bytes(r.Intn(40)))
		}
		return ref.Typed(r.Bytes(32))
	}
	signal := func() []byte {
		b := ref.Encode([]ref.Field{fb(1, key()), fu(2, num()), fu(3, num()), fb(4, r.Bytes(16*r.Intn(4)))})
		return append(append([]byte{0x33}, b...), r.Bytes(8)...)
	}
	dist := func() []byte { return []byte(uuidText(r.Bytes(16))) }
	switch kind {
	case 0:
		return signal()
	case 1:
		return append([]byte{0x33}, ref.Encode([]ref.Field{fu(1, num()), fb(2, key()), fb(3, key()), fb(4, signal()), fu(5, num()), fu(6, num())})...)
	case 2:
		b := append([]byte{0x33}, ref.Encode([]ref.Field{fb(1, dist()), fu(2, num()), fu(3, num()), fb(4, r.Bytes(16*r.Intn(4)))})...)
		return append(b, r.Bytes(64)...)
	case 3:
		return append([]byte{0x33}, ref.Encode([]ref.Field{fb(1, dist()), fu(2, num()), fu(3, num()), fb(4, r.Bytes(32)), fb(5, key())})...)
	case 4:
		return append([]byte{0xc0}, r.Bytes(r.Intn(20))...)
	case 5:
		return key()
	case 6:
		return dist()
	case 7: // scannable code
		half := func() []byte { return ref.Encode([]ref.Field{fb(1, r.Bytes(32))}) }
		return ref.Encode([]ref.Field{fu(1, num()), fb(2, half()), fb(3, half())})
	case 8: // stored session
		return sessionBytes(r, num, key)
	case 9:
		return r.Bytes(64) // signature
	case 10:
		return r.Bytes(16 * r.Intn(5))
	default:
		return r.Bytes(r.Intn(100))
	}
}

func sessionBytes(r *vt.DRBG, num func() uint64, key func() []byte) []byte {
	sub := func(fs ...ref.Field) []byte {
		var keep []ref.Field
		for _, f := range fs {
			if r.Intn(12) > 0 {
				keep = append(keep, f)
			}
		}
		return ref.Encode(keep)
	}
	k32 := func() []byte {
		if r.Intn(10) == 0 {
			return r.Bytes(r.Intn(40))
		}
		return r.Bytes(32)
	}
	chain := func() []byte {
		fs := []ref.Field{fb(1, key()), fb(2, k32()), fb(3, sub(fu(1, num()), fb(2, k32())))}
		for i := r.Intn(3); i > 0; i-- {
			fs = append(fs, fb(4, sub(fu(1, num()), fb(2, k32()), fb(3, k32()), fb(4, r.Bytes(16)))))
		}
		return sub(fs...)
	}
	ver := uint64(3)
	if r.Intn(6) == 0 {
		ver = num()
	}
	fs := []ref.Field{fu(1, ver), fb(2, key()), fb(3, key()), fb(4, k32()), fu(5, num()), fb(6, chain())}
	for i := r.Intn(3); i > 0; i-- {
		fs = append(fs, fb(7, chain()))
	}
	if r.Intn(2) == 0 {
		fs = append(fs, fb(9, sub(fu(1, num()), fu(3, num()), fb(2, key()))))
	}
	fs = append(fs, fu(10, num()), fu(11, num()), fb(13, key()))
	return sub(fs...)
}

func genBytes(t *rapid.T) BytesCase {
	bc := BytesCase{Seed: vt.Bits(t, "seed"), Kind: vt.Uni(t, seedKinds, "kind")}
	r := vt.NewDRBG(bc.Seed, 1)
	raw := seedBytes(r, bc.Kind)
	for n := vt.Uni(t, 4, "mutations"); n > 0; n-- {
		if r.Intn(3) == 0 {
			raw = mutateFields(r, raw)
		} else {
			raw, _ = mutateBytes(r, raw)
		}
	}
	if vt.Uni(t, 20, "free") == 0 {
		raw = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "raw")
	}
	bc.Raw = raw
	return bc
}

// mutateFields changes something within the protobuf structure, at any depth.
func mutateFields(r *vt.DRBG, raw []byte) []byte {
	if len(raw) < 2 {
		return raw
	}
	head, tail := 0, 0
	if raw[0] == 0x33 {
		head = 1
	}
	fs, ok := ref.ParseFields(raw[head:])
	for _, t := range []int{8, 64} {
		if !ok && len(raw) > head+t {
			tail = t
			fs, ok = ref.ParseFields(raw[head : len(raw)-t])
		}
	}
	if !ok || len(fs) == 0 {
		out, _ := mutateBytes(r, raw)
		return out
	}
	i := r.Intn(len(fs))
	switch f := &fs[i]; r.Intn(7) {
	case 0:
		fs = append(fs[:i:i], fs[i+1:]...)
	case 1:
		fs = append(fs, *f)
	case 2:
		f.Num = 1 + r.Intn(14)
	case 3:
		if f.IsInt {
			*f = fb(f.Num, r.Bytes(r.Intn(40)))
		} else {
			*f = fu(f.Num, r.Uint64()>>uint(r.Intn(64)))
		}
	case 4:
		if f.IsInt {
			f.Uint = []uint64{0, 1, 25000, 25001, 0xffffffff, 1 << 33, 1<<64 - 1}[r.Intn(7)]
		} else {
			f.Bytes = f.Bytes[:r.Intn(len(f.Bytes)+1)]
		}
	case 5:
		if !f.IsInt {
			f.Bytes = r.Bytes(r.Intn(70))
		}
	default:
		if !f.IsInt {
			f.Bytes = mutateFields(r, append([]byte(nil), f.Bytes...))
		}
	}
	out := append(append([]byte(nil), raw[:head]...), ref.Encode(fs)...)
	return append(out, raw[len(raw)-tail:]...)
}

func init() {
	vt.Register("C09", "inputs", 40000, 1500000,
		"well-formed messages, keys, identifiers, signatures, stored sessions and scanned codes with extreme values, then mutated blindly and along their structure, are given to every parser; all accessors and operations of what was parsed are called, and it is presented to sessions and groups; nothing may panic or run away; non-trivial: at least one parser accepted the input",
		genBytes, anyInput)
	vt.Register("C09", "stored", 2500, 200000,
		"a stored session of a random history is mutated along its structure and loaded, as the current or an archived session, and then used to open, encrypt and decrypt genuine, altered and made-up messages; non-trivial: the mutated session was loaded",
		func(t *rapid.T) WorldCase { return genWorld(t, "mixed", "cross", "pong") },
		func(c *vt.Ctx, wc WorldCase) error {
			w := newWorld(c, wc)
			w.inspect = false
			if err := w.run(wc.Ops); err != nil {
				return verdict(c, err)
			}
			w.step += 1000
			for i := 0; i < 4; i++ {
				if err := w.corrupted(c, i); err != nil {
					return err
				}
			}
			return nil
		})
	worldCheckPost("C09", "sessions", 1500, 100000,
		histRule+"altered and made-up messages and bundles are presented to the users and to copies of them, including ones with counters and keys at the edge of their range; nothing may panic or run away; non-trivial: at least 5 of them",
		func(w *world) bool { return w.nEvil >= 5 },
		func(w *world) *worldErr {
			if err := w.tryEvil(10, false); err != nil {
				return err
			}
			return w.extremes()
		},
		"evil", "evil", "traces")
	groupCheck("C09", "groups", 700, 20000,
		"random group history in between which altered and made-up group and distribution messages are presented; nothing may panic or run away; non-trivial: at least 5 of them",
		func(g *gworld) bool { return g.nEvil >= 5 },
		func(g *gworld) *worldErr { return g.tryEvil(10, false) },
		"evil")
}

func (c BytesCase) String() string { return fmt.Sprintf("%d %x", c.Kind, c.Raw) }

// anyInput gives raw bytes to everything which takes bytes.
func anyInput(c *vt.Ctx, bc BytesCase) error {
	r := vt.NewDRBG(bc.Seed, 2)
	vt.SetGlobal(vt.NewDRBG(bc.Seed, 3))
	in := func() []byte { return append([]byte(nil), bc.Raw...) }
	accepted := 0
	ok := func(err error) bool {
		if err == nil {
			accepted++
		}
		return err == nil
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)

	own := must(identity.GenerateKeyPair(r))
	pair := must(curve.GenerateKeyPair(r))
	var pubs []curve.PublicKey
	if k, err := curve.NewPublicKey(in()); ok(err) {
		pubs = append(pubs, k)
	}
	if k, err := curve.NewPrivateKey(in()); ok(err) {
		_ = k.PublicKey().Bytes()
		_ = k.Bytes()
		_, _ = k.Agreement(pair.PublicKey())
		if s, err := k.Sign(r, in()); err == nil {
			_, _ = k.PublicKey().VerifySignature(s, in())
		}
	}
	if k, err := curve.NewKeyPair(in(), pair.PublicKey().Bytes()); ok(err) {
		_, _ = k.Agreement(pair.PublicKey())
		_, _ = k.Sign(r, in())
	}
	if k, err := curve.NewKeyPair(pair.PrivateKey().Bytes(), in()); ok(err) {
		pubs = append(pubs, k.PublicKey())
	}
	if k, err := identity.NewKey(in()); ok(err) {
		_ = k.Equal(own.IdentityKey())
		_ = own.IdentityKey().Equal(k)
		_, _ = k.VerifyAlternateIdentity(in(), own.IdentityKey())
		_, _ = own.IdentityKey().VerifyAlternateIdentity(in(), k)
		pubs = append(pubs, k.PublicKey())
		for _, it := range []uint32{0, 1, 2, 5} {
			if f, err := fingerprint.New(it, 2, in(), own.IdentityKey(), in(), k); err == nil {
				_ = f.String()
			}
		}
	}
	_, _ = pair.PublicKey().VerifySignature(in(), []byte("x"))
	_, _ = pair.PublicKey().VerifySignature(in(), in(), in())
	_, _ = pair.PublicKey().VerifySignature(in())
	var ids []distribution.ID
	if d, err := distribution.Parse(string(bc.Raw)); ok(err) {
		ids = append(ids, d)
	}
	if d, err := distribution.ParseBytes(in()); ok(err) {
		ids = append(ids, d)
	}
	for _, d := range ids {
		_ = d.String()
	}
	// Raw keys and ciphertexts.
	_, _ = aes.CBCDecrypt(in(), r.Bytes(16), r.Bytes(32))
	_, _ = aes.CBCDecrypt(r.Bytes(32), in(), r.Bytes(32))
	_, _ = aes.CBCDecrypt(r.Bytes(32), r.Bytes(16), in())
	_, _ = aes.CBCEncrypt(in(), r.Bytes(16), r.Bytes(32))
	_, _ = aes.CBCEncrypt(r.Bytes(32), in(), r.Bytes(32))
	_, _ = aes.CBCEncrypt(r.Bytes(32), r.Bytes(16), in())
	_, _ = ratchet.NewChainKey(in(), 1)
	_, _ = ratchet.NewRootKey(in())
	_, _ = ratchet.NewMessageKeys(in(), in(), in(), 1)
	_, _ = ratchet.NewMessageKeys(r.Bytes(32), r.Bytes(32), in(), 1)
	_, _ = ratchet.DeriveMessageKeys(in(), 7)
	_, _, _ = ratchet.DeriveKeys(in())
	_, _ = senderkey.DeriveMessageKey(in(), 7)
	_, _ = senderkey.NewChainKey(in(), 7).Next().MessageKey()
	// Scanned codes.
	if s, err := fingerprint.NewScannable(2, r.Bytes(32), r.Bytes(32)); err == nil {
		_, _ = s.Compare(in())
	}
	if s, err := fingerprint.NewScannable(2, in(), in()); err == nil {
		if b, err := s.Bytes(); err == nil {
			_, _ = s.Compare(b)
		}
	}
	if d, err := fingerprint.NewDisplayable(in(), in()); err == nil {
		_ = d.String()
	}
	// Messages.
	var cts []message.Ciphertext
	if m, err := message.NewSignalFromBytes(in()); ok(err) {
		cts = append(cts, m)
	}
	if m, err := message.NewPreKeyFromBytes(in()); ok(err) {
		cts = append(cts, m)
	}
	if m, err := message.NewSenderKeyFromBytes(in()); ok(err) {
		cts = append(cts, m)
	}
	if m, err := message.NewPlaintextFromBytes(in()); ok(err) {
		cts = append(cts, m)
	}
	for _, m := range cts {
		_ = m.Bytes()
		_ = m.Type().String()
		switch x := m.(type) {
		case *message.Signal:
			pubs = append(pubs, x.SenderRatchetKey())
			_, _ = x.VerifyMAC(r.Bytes(32), own.IdentityKey(), own.IdentityKey())
			_, _ = x.VerifyMAC(nil, own.IdentityKey(), own.IdentityKey())
			_, _, _ = x.Version(), x.Counter(), x.Message()
		case *message.PreKey:
			pubs = append(pubs, x.BaseKey(), x.IdentityKey().PublicKey(), x.Message().SenderRatchetKey())
			_, _, _, _ = x.Version(), x.RegistrationID(), x.SignedPreKeyID().String(), x.Message().Message()
			if x.PreKeyID() != nil {
				_ = x.PreKeyID().String()
			}
		case *message.SenderKey:
			_, _ = x.VerifySignature(pair.PublicKey())
			_, _, _, _ = x.ChainID(), x.Iteration(), x.Message(), x.DistributionID().String()
		case *message.Plaintext:
			_ = x.Message()
		}
	}
	for _, k := range pubs {
		_, _ = k.Bytes(), k.KeyBytes()
		_ = k.Equal(pair.PublicKey())
		_ = pair.PublicKey().Equal(k)
		_, _ = pair.PrivateKey().Agreement(k)
		_, _ = k.VerifySignature(r.Bytes(64), []byte("x"))
		_, _ = k.VerifySignature(nil)
	}
	runtime.ReadMemStats(&after)
	if d := after.TotalAlloc - before.TotalAlloc; d > 32<<20+1000*uint64(len(bc.Raw)) {
		return vt.Violate("memory out of proportion to the input", "%d bytes for %d", d, len(bc.Raw))
	}
	// Sessions: one established with the sender as initiator, one as responder, and none.
	if len(cts) > 0 || bc.Kind == 3 || bc.Kind == 5 || bc.Kind == 8 {
		feed(bc, r, cts)
	}
	if accepted > 0 {
		c.NonTrivial()
		c.Class("accepted by a parser")
	} else {
		c.Class("rejected by all parsers")
	}
	return nil
}

// feed presents parsed input to sessions.
func feed(bc BytesCase, r *vt.DRBG, cts []message.Ciphertext) {
	ia, ib := must(identity.GenerateKeyPair(r)), must(identity.GenerateKeyPair(r))
	sa, sb := newStores(ia, 1), newStores(ib, 2)
	sp, op := must(curve.GenerateKeyPair(r)), must(curve.GenerateKeyPair(r))
	sig := must(ib.PrivateKey().Sign(r, sp.PublicKey().Bytes()))
	for _, id := range []prekey.ID{0, 1} {
		must0(sb.Sig.Store(bg, id, prekey.NewSigned(id, 1, sp, sig)))
		must0(sb.Pre.Store(bg, id, prekey.NewPreKey(id, op)))
	}
	for _, m := range cts {
		if x, ok := m.(*message.PreKey); ok { // as if its pre-keys were held
			must0(sb.Sig.Store(bg, x.SignedPreKeyID(), prekey.NewSigned(x.SignedPreKeyID(), 1, sp, sig)))
			if x.PreKeyID() != nil {
				must0(sb.Pre.Store(bg, *x.PreKeyID(), prekey.NewPreKey(*x.PreKeyID(), op)))
			}
		}
	}
	id := prekey.ID(1)
	bd := &prekey.Bundle{RegistrationID: 2, DeviceID: 1, PreKeyID: &id, PreKeyPublic: op.PublicKey(), SignedPreKeyID: 1, SignedPreKeyPublic: sp.PublicKey(), SignedPreKeySignature: sig, IdentityKey: ib.IdentityKey()}
	mk := func(st Stores, a address.Address) *session.Session {
		return &session.Session{RemoteAddress: a, SessionStore: st.Sess, PreKeyStore: st.Pre, SignedPreKeyStore: st.Sig, IdentityKeyStore: st.ID}
	}
	a, b := mk(sa, names[1]), mk(sb, names[0])
	must0(a.ProcessPreKeyBundle(bg, r, bd))
	if ct, err := a.EncryptMessage(bg, []byte("x")); err == nil {
		_, _ = b.DecryptMessage(bg, r, ct)
	}
	for _, m := range cts {
		if x, ok := m.(*message.SenderKey); ok {
			g := &session.GroupSession{SenderAddress: names[0], DistID: x.DistributionID(), SenderKeyStore: sb.Grp}
			_, _ = g.DecryptMessage(bg, x)
			d, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: x.DistributionID(), ChainID: x.ChainID(), ChainKey: r.Bytes(32), SigningKey: sp.PublicKey()})
			if err == nil {
				_ = g.ProcessSenderKeyDistribution(bg, d)
				_, _ = g.DecryptMessage(bg, x)
				_, _ = g.EncryptMessage(bg, r, []byte("x"))
			}
		}
		_, _ = a.DecryptMessage(bg, r, m)
		_, _ = b.DecryptMessage(bg, r, m)
		_, _ = mk(sb, names[2]).DecryptMessage(bg, r, m)
		_, _ = mk(sb, names[2]).EncryptMessage(bg, []byte("y"))
		if x, ok := m.(*message.PreKey); ok {
			_, _ = mk(sb, names[3]).ProcessPreKey(bg, session.NewRecord(nil), x)
		}
	}
	if d, err := message.NewSenderKeyDistributionFromBytes(append([]byte(nil), bc.Raw...)); err == nil {
		g := &session.GroupSession{SenderAddress: names[0], DistID: d.DistributionID(), SenderKeyStore: sb.Grp}
		if g.ProcessSenderKeyDistribution(bg, d) == nil {
			_, _ = g.EncryptMessage(bg, r, []byte("x"))
			_, _ = g.NewSenderKeyDistribution(bg, r)
			_ = g.ProcessSenderKeyDistribution(bg, d)
			if m, err := message.NewSenderKey(r, message.SenderKeyConfig{Version: 3, DistID: d.DistributionID(), ChainID: d.ChainID(), Iteration: d.Iteration(), Ciphertext: r.Bytes(32), SignatureKey: sp.PrivateKey()}); err == nil {
				_, _ = g.DecryptMessage(bg, m)
			}
		}
	}
	if k, err := curve.NewPublicKey(append([]byte(nil), bc.Raw...)); err == nil {
		// As each key of a bundle, with a signature which fits where possible.
		b1, b2, b3 := *bd, *bd, *bd
		b1.PreKeyPublic = k
		b2.SignedPreKeyPublic = k
		b2.SignedPreKeySignature = must(ib.PrivateKey().Sign(r, k.Bytes()))
		if ik, err := identity.NewKey(append([]byte(nil), bc.Raw...)); err == nil {
			b3.IdentityKey = ik
		}
		b4 := *bd
		b4.SignedPreKeySignature = bc.Raw
		for i, x := range []*prekey.Bundle{&b1, &b2, &b3, &b4} {
			s := mk(newStores(ia, 1), names[i])
			_ = s.ProcessPreKeyBundle(bg, r, x)
			_, _ = s.EncryptMessage(bg, []byte("x"))
		}
	}
	if rec, err := session.NewRecordBytes(append([]byte(nil), bc.Raw...)); err == nil {
		useRecord(r, mk(sa, names[2]), rec, cts)
	}
	if bc.Seed%4 == 0 {
		useRecord(r, mk(sa, names[3]), session.NewRecord(nil), cts)
	}
}

// useRecord calls everything on a loaded session.
func useRecord(r *vt.DRBG, s *session.Session, rec *session.Record, cts []message.Ciphertext) {
	k := pub(randomKey(r))
	_, _ = rec.Version()
	_, _ = rec.PreviousStates()
	try(rec, "HasSessionState", uint32(3), r.Bytes(33))
	_, _ = rec.LocalIdentityKey()
	_, _, _ = rec.RemoteIdentityKey()
	try(rec, "ReceiverChainKey", k)
	_, _ = rec.SenderChainKey()
	if st := rec.State(); st != nil {
		_, _ = st.RootKey()
		_, _ = st.SenderRatchetKey()
		_, _ = st.SenderRatchetPrivateKey()
		try(st, "UnacknowledgedPreKeyMessages")
		try(st, "MessageKeys", k, uint32(0))
		try(st, "SessionWithSelf")
		_ = st.Clone().Bytes()
	}
	if err := s.SessionStore.Store(bg, s.RemoteAddress, rec); err != nil {
		return
	}
	_, _ = s.EncryptMessage(bg, []byte("x"))
	for _, m := range cts {
		_, _ = s.DecryptMessage(bg, r, m)
	}
	_, _ = s.EncryptMessage(bg, []byte("y"))
}

// corrupted uses a stored session which was changed.
func (w *world) corrupted(c *vt.Ctx, i int) error {
	r := vt.NewDRBG(w.seed, w.step, 140, uint64(i))
	a := w.ps[r.Intn(len(w.ps))]
	b := w.ps[(a.idx+1+r.Intn(len(w.ps)-1))%len(w.ps)]
	if bytes.Equal(a.identBytes(), b.identBytes()) {
		return nil // no limit to the number of steps
	}
	rec, ok := load3(a.st.Sess.Load(bg, b.addr))
	if !ok {
		return nil
	}
	s := must(saveRecord(rec))
	all := append(append([][]byte(nil), s.prev...), s.cur)
	k := r.Intn(len(all))
	if r.Intn(2) == 0 {
		k = len(all) - 1
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		if r.Intn(4) == 0 {
			all[k], _ = mutateBytes(r, all[k])
		} else {
			all[k] = mutateFields(r, all[k])
		}
	}
	nr := session.NewRecord(nil)
	for _, x := range all {
		q, err := session.NewRecordBytes(x)
		if err != nil {
			c.Class("changed session not loaded")
			return nil
		}
		nr.PromoteState(q.State())
		l, err1 := q.State().LocalIdentityKey()
		m, ok, err2 := q.State().RemoteIdentityKey()
		if err1 == nil && err2 == nil && ok && l.Equal(m) {
			return nil // no limit to the number of steps
		}
	}
	c.NonTrivial()
	f := w.fork(a)
	if err := f.st.Sess.Store(bg, b.addr, nr); err != nil {
		return nil
	}
	use := func(q *party, m message.Ciphertext) {
		vt.SetGlobal(w.rng(141))
		if pt, err := w.sessTo(q, b.addr).DecryptMessage(bg, r, m); err == nil {
			c.Class("decrypted with a changed session")
			_ = pt
		}
	}
	n := 0
	for _, m := range w.allMsgs {
		if m.from == b.idx && m.to == a.idx {
			if n++; n > 6 {
				break
			}
			use(w.fork(f), m.present(formBytes, nil))
			use(f, m.present(formInner, nil))
			if raw, _ := w.mutateSignal(r, m); true {
				if x, err := message.NewSignalFromBytes(raw); err == nil {
					use(f, x)
				}
			}
			if ct, err := w.sessTo(f, b.addr).EncryptMessage(bg, []byte("x")); err == nil {
				_ = ct.Bytes()
				c.Class("encrypted with a changed session")
			}
		}
	}
	if ct, err := w.sessTo(f, b.addr).EncryptMessage(bg, []byte("x")); err == nil {
		vt.SetGlobal(w.rng(142))
		_, _ = w.sessTo(w.fork(b), a.addr).DecryptMessage(bg, r, ct)
	}
	w.makeBundle(b, true, b.spks[0])
	vt.SetGlobal(w.rng(143))
	_ = w.sessTo(f, b.addr).ProcessPreKeyBundle(bg, r, b.bundle)
	_, _ = w.sessTo(f, b.addr).EncryptMessage(bg, []byte("x"))
	return nil
}

// extremes presents messages with counters at the edges to copies of users.
func (w *world) extremes() *worldErr {
	r := w.rng(150)
	m := w.pickMsg(r)
	if m == nil || bytes.Equal(w.ps[m.from].identBytes(), w.ps[m.to].identBytes()) || w.same {
		return nil
	}
	raw := m.inner()
	if len(raw) < 10 {
		return nil
	}
	fs, ok := ref.ParseFields(raw[1 : len(raw)-8])
	if !ok {
		return nil
	}
	for _, n := range []uint64{0, 1, 24999, 25001, 50000, 0x7fffffff, 0x80000000, 0xffffffff} {
		if n == 24999 && r.Intn(8) > 0 {
			continue // 25,000 steps in every session
		}
		for i := range fs {
			if fs[i].Num == 2 {
				fs[i].Uint = n
			}
			if fs[i].Num == 1 && r.Intn(3) == 0 {
				fs[i].Bytes = randomKey(r)
			}
		}
		in := append(append([]byte{0x33}, ref.Encode(fs)...), raw[len(raw)-8:]...)
		ct, err := message.NewSignalFromBytes(in)
		if err != nil {
			continue
		}
		vt.SetGlobal(w.rng(151))
		a := allocated()
		_, err = w.sessTo(w.fork(w.ps[m.to]), w.ps[m.from].addr).DecryptMessage(bg, r, ct)
		if n > 1<<30 {
			if e := outOfProportion(a, err, 256<<20, fmt.Sprintf("position %d", n)); e != nil {
				return e
			}
		}
	}
	return nil
}
