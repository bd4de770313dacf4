package props

import (
	"bytes"
	"context"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"pgregory.net/rapid"

	"verif/ref"
	"verif/vt"
)

// historyCheck runs a random history and then post.
func historyCheck(prop, name string, quick, thorough int, rule string, post func(w *world) *worldErr, profs ...string) {
	vt.Register(prop, name, quick, thorough, rule,
		func(t *rapid.T) WorldCase { return genWorld(t, profs...) },
		func(c *vt.Ctx, wc WorldCase) error {
			w := newWorld(c, wc)
			err := w.run(wc.Ops)
			if err == nil {
				w.step += 1000
				err = post(w)
			}
			w.count()
			return verdict(c, err)
		})
}

func init() {
	worldCheckPost("C06", "histories", 3500, 100000,
		histRule+"what every establishing message carries is compared with the bundle it came from; non-trivial: at least 2 sessions opened and 3 messages decrypted",
		func(w *world) bool { return w.nOpen >= 2 && w.nRecv >= 3 },
		func(w *world) *worldErr { return w.tryEvil(4, false) },
		"cross", "cross", "mixed", "trust")
	historyCheck("C06", "any-establishes", 2500, 80000,
		"at the end of a random history every establishing message still in flight is presented, alone, to a copy of its receiver, which then replies, after which a copy of the initiator sends plain messages; non-trivial: at least one was decrypted and the reply too",
		func(w *world) *worldErr { return w.anyEstablishes() },
		"cross", "mixed", "otpk")
	historyCheck("C06", "bundles", 800, 60000,
		"after a random history genuine and changed bundles are processed by a copy of a user: signature bits, lengths, signed bytes, keys swapped, of others or degenerate, other IDs; accepted exactly when an independent verifier accepts the signature, the identity is trusted and no key is degenerate; then the owner must be able to decrypt; non-trivial: at least one accepted and one refused",
		func(w *world) *worldErr { return w.bundles(12) },
		"mixed", "cross", "trust")
	historyCheck("C06", "establishing", 700, 60000,
		"establishing messages made by an independent implementation, which knows all agreements involving degenerate keys, with known and unknown pre-key IDs and with degenerate base, identity and ratchet keys, are presented to a copy of a user; accepted exactly when all keys are sound and the named pre-keys held; non-trivial: at least one accepted and one refused",
		func(w *world) *worldErr { return w.establishing(12) },
		"mixed", "cross", "trust")
	vt.Register("C06", "pre-key-ids", 400, 8000,
		"sessions are opened from bundles with pre-key IDs at the edges of their range, including 0, and used; non-trivial: every case",
		func(t *rapid.T) IDCase {
			return IDCase{Seed: vt.Bits(t, "seed"), OTPK: int64(vt.Pick(t, "otpk", 0, -1, 1, 2, 127, 128, 255, 256, 16383, 16384, 0x7fffffff, 0x80000000, 0xffffffff)), SPK: vt.Pick(t, "spk", uint32(0), 1, 127, 128, 16384, 0x7fffffff, 0x80000000, 0xffffffff), Reg: vt.Pick(t, "reg", uint32(0), 1, 16380, 0x80000000, 0xffffffff)}
		}, preKeyIDs)

	worldCheckPost("C07", "histories", 4500, 150000,
		histRule+"mostly with one-time pre-keys, bundles used several times and by several users, altered messages presented in between; the pre-keys in the stores are compared with the model after every step; non-trivial: at least 2 one-time pre-keys used and 4 messages decrypted",
		func(w *world) bool { return w.usedOTPKs() >= 2 && w.nRecv >= 4 },
		func(w *world) *worldErr { return w.redeliver(12) },
		"otpk", "otpk", "otpk", "mixed", "trust")
	worldCheck("C07", "sessions", 120, 6000,
		histRule+"many sessions, beyond the number of archived ones; non-trivial as above",
		func(w *world) bool { return w.usedOTPKs() >= 2 && w.nRecv >= 4 },
		"fresh")
	historyCheck("C07", "process", 2500, 60000,
		"at the end of a random history ProcessPreKey is called on copies of the users for establishing messages: it names exactly the one-time pre-key a new session uses and removes nothing; non-trivial: at least one new session with a one-time pre-key",
		func(w *world) *worldErr { return w.processPreKeys() },
		"otpk", "cross", "mixed")

	worldCheckPost("C08", "histories", 6000, 150000,
		histRule+"users reinstall (new identity), approve identities, and are presented altered and attributed messages; trusted identities are compared with the model after every step; non-trivial: something refused and at least 3 decrypted",
		func(w *world) bool { return w.nRefused >= 2 && w.nRecv >= 3 },
		func(w *world) *worldErr { return w.tryEvil(8, true) },
		"trust", "trust", "pins", "pins", "cross")
	historyCheck("C08", "policies", 2500, 60000,
		"after a random history operations are run on copies of users whose identity store refuses to trust a given key for sending, for receiving, or for one address; exactly the operations concerned are refused as untrusted and leave no trace; non-trivial: at least one refused and one not",
		func(w *world) *worldErr { return w.policies(6) },
		"mixed", "cross", "trust")
}

func (w *world) usedOTPKs() int {
	n := 0
	for _, p := range w.ps {
		for _, o := range p.otpks {
			if o.gone {
				n++
			}
		}
	}
	return n
}

func (w *world) anyEstablishes() *worldErr {
	n := 0
	for _, m := range append([]*msg(nil), w.allMsgs...) {
		if !m.pre || m.delivered > 0 || n > 12 {
			continue
		}
		a, b := w.ps[m.from], w.ps[m.to]
		want, _, _, fresh := w.predict(m, a, b, true)
		if want != outOK {
			continue
		}
		n++
		f := w.fork(b)
		vt.SetGlobal(w.rng(71))
		pt, err := w.sessTo(f, a.addr).DecryptMessage(bg, w.rng(70), m.present(formBytes, nil))
		if err != nil || !bytes.Equal(pt, m.pt) {
			return wf([]string{"C06", "C01"}, "an establishing message alone does not establish the session", "message %d (position %d, new session: %v): %v", m.id, m.n, fresh, err)
		}
		w.c.Class(map[bool]string{true: "established alone", false: "decrypted in a session already there"}[fresh])
		// Replies, if the initiator still has this session as its current one.
		e := a.rec(b.idx).cur
		if e == nil || e.lin != m.lin || !bytes.Equal(a.pinned[b.idx], e.remote) {
			continue
		}
		vt.SetGlobal(w.rng(72))
		reply, err := w.sessTo(f, a.addr).EncryptMessage(bg, []byte("reply"))
		if err != nil {
			return wf([]string{"C06", "C01"}, "cannot reply to an establishing message", "%v", err)
		}
		if _, ok := reply.(*message.Signal); !ok {
			return wf([]string{"C06"}, "reply is not a plain message", "%T", reply)
		}
		g := w.fork(a)
		vt.SetGlobal(w.rng(74))
		pt, err = w.sessTo(g, b.addr).DecryptMessage(bg, w.rng(73), must(message.NewSignalFromBytes(append([]byte(nil), reply.Bytes()...))))
		if err != nil || string(pt) != "reply" {
			return wf([]string{"C06", "C01"}, "reply to an establishing message not decrypted", "%v", err)
		}
		w.c.NonTrivial()
		for i := 0; i < 2; i++ {
			vt.SetGlobal(w.rng(75))
			ct, err := w.sessTo(g, b.addr).EncryptMessage(bg, []byte{byte(i)})
			if err != nil {
				return wf([]string{"C06", "C01"}, "cannot encrypt after the reply", "%v", err)
			}
			if _, ok := ct.(*message.Signal); !ok {
				return wf([]string{"C06"}, "message after the reply is not plain", "%T", ct)
			}
			vt.SetGlobal(w.rng(76))
			pt, err = w.sessTo(f, a.addr).DecryptMessage(bg, w.rng(77), ct)
			if err != nil || !bytes.Equal(pt, []byte{byte(i)}) {
				return wf([]string{"C06", "C01"}, "message after the reply not decrypted", "%v", err)
			}
		}
	}
	return nil
}

func degenerate(key []byte) bool {
	k := make([]byte, 32)
	k[0], k[31] = 8, 64
	return bytes.Equal(ref.X25519(k, key), make([]byte, 32))
}

// lowOrderSigned makes a degenerate identity key and a signed pre-key whose
// signature by it is formally valid.
func lowOrderSigned(r *vt.DRBG) (ident []byte, spk []byte, sig []byte, ok bool) {
	ident = lowOrder[r.Intn(len(lowOrder))]
	sig = make([]byte, 64)
	sig[0] = 1 // the neutral element
	for i := 0; i < 24; i++ {
		spk = r.Bytes(32)
		if ref.Verify(ident, ref.Typed(ref.Public(spk)), sig) {
			return ident, spk, sig, true
		}
	}
	return nil, nil, nil, false
}

func (w *world) bundles(n int) *worldErr {
	accepted, refused := 0, 0
	for i := 0; i < n; i++ {
		r := vt.NewDRBG(w.seed, w.step, 80, uint64(i))
		a := w.ps[r.Intn(len(w.ps))]
		b := w.ps[(a.idx+1+r.Intn(len(w.ps)-1))%len(w.ps)]
		s := b.spks[r.Intn(len(b.spks))]
		bd := &prekey.Bundle{
			RegistrationID: b.reg, DeviceID: b.addr.DeviceID, SignedPreKeyID: prekey.ID(s.id), SignedPreKeyPublic: pub(s.pair.PublicKey().Bytes()),
			SignedPreKeySignature: append([]byte(nil), s.sig...), IdentityKey: must(identity.NewKey(b.identBytes())),
		}
		var o *otpk
		if r.Intn(2) == 0 {
			for _, x := range b.otpks {
				if !x.gone && r.Intn(2) == 0 {
					o = x
				}
			}
		}
		if o != nil {
			id := prekey.ID(o.id)
			bd.PreKeyID, bd.PreKeyPublic = &id, pub(o.pair.PublicKey().Bytes())
		}
		owner := true // the owner of the bundle can decrypt
		what := "genuine"
		flip := func(i int) { bd.SignedPreKeySignature[i/8] ^= 1 << (i % 8) }
		bad := pub(ref.Typed(lowOrder[r.Intn(len(lowOrder))]))
		stranger := must(identity.GenerateKeyPair(r))
		switch r.Intn(25) {
		case 0, 1, 2:
		case 3:
			k := r.Intn(512)
			what = fmt.Sprintf("bit %d of the signature flipped", k)
			flip(k)
		case 4:
			k := 500 + r.Intn(12)
			what = fmt.Sprintf("bit %d of the signature flipped", k)
			flip(k)
		case 5:
			bd.SignedPreKeySignature = bd.SignedPreKeySignature[:r.Intn(64)]
			what = "signature too short"
		case 6:
			bd.SignedPreKeySignature = append(bd.SignedPreKeySignature, r.Bytes(1+r.Intn(64))...)
			what = "signature too long"
		case 7:
			bd.SignedPreKeySignature = must(b.ident.PrivateKey().Sign(r, bd.SignedPreKeyPublic.KeyBytes()))
			what = "signature over the key without its type"
		case 8:
			bd.SignedPreKeySignature = must(b.ident.PrivateKey().Sign(r, bd.SignedPreKeyPublic.Bytes(), []byte{0}))
			what = "signature over more than the key"
		case 9:
			bd.SignedPreKeySignature = must(b.ident.PrivateKey().Sign(r, bd.SignedPreKeyPublic.Bytes()[:32]))
			what = "signature over less than the key"
		case 10:
			bd.SignedPreKeySignature = must(stranger.PrivateKey().Sign(r, bd.SignedPreKeyPublic.Bytes()))
			what = "signature by someone else"
		case 11:
			bd.SignedPreKeySignature = must(s.pair.PrivateKey().Sign(r, bd.SignedPreKeyPublic.Bytes()))
			what = "signature by the signed pre-key itself"
		case 12:
			bd.SignedPreKeyPublic = pub(randomKey(r))
			what = "signature over another key"
		case 13:
			bd.SignedPreKeyPublic = must(curve.GenerateKeyPair(r)).PublicKey()
			bd.SignedPreKeySignature = make([]byte, 64)
			what = "zero signature"
		case 14:
			if len(b.spks) < 2 {
				continue
			}
			t := b.spks[r.Intn(len(b.spks))]
			bd.SignedPreKeySignature = append([]byte(nil), t.sig...)
			what = "signature of another signed pre-key"
			owner = t == s
		case 15:
			bd.IdentityKey = stranger.IdentityKey()
			what = "identity of someone else"
		case 16:
			bd.IdentityKey = stranger.IdentityKey()
			bd.SignedPreKeySignature = must(stranger.PrivateKey().Sign(r, bd.SignedPreKeyPublic.Bytes()))
			what = "identity and signature of someone else"
			owner = false
		case 17:
			bd.SignedPreKeyPublic = bad
			bd.SignedPreKeySignature = must(b.ident.PrivateKey().Sign(r, bad.Bytes()))
			what = "degenerate signed pre-key"
		case 18:
			id := prekey.ID(1 + r.Intn(1000))
			bd.PreKeyID, bd.PreKeyPublic = &id, bad
			what = "degenerate one-time pre-key"
		case 19:
			id, spk, sig, ok := lowOrderSigned(r)
			if !ok {
				continue
			}
			bd.IdentityKey = must(identity.NewKey(ref.Typed(id)))
			bd.SignedPreKeyPublic = pub(ref.Typed(ref.Public(spk)))
			bd.SignedPreKeySignature = sig
			what = "degenerate identity key"
		case 20:
			bd.SignedPreKeyID ^= prekey.ID(1 + r.Intn(1<<20))
			what = "another signed pre-key ID"
			owner = false
		case 21:
			if o == nil {
				continue
			}
			*bd.PreKeyID ^= prekey.ID(1 << uint(r.Intn(32)))
			if *bd.PreKeyID == 0 {
				continue
			}
			what = "another one-time pre-key ID"
			owner = false
		case 22:
			if o == nil {
				continue
			}
			bd.SignedPreKeyPublic, bd.PreKeyPublic = bd.PreKeyPublic, bd.SignedPreKeyPublic
			what = "pre-keys exchanged"
		case 23:
			bd.RegistrationID, bd.DeviceID = uint32(r.Uint64()), address.DeviceID(r.Uint64())
			what = "another registration and device ID"
		case 24:
			id := b.identBytes()
			id[32] ^= 0x80
			bd.IdentityKey = must(identity.NewKey(id))
			what = "identity with its last bit set"
			owner = false
		}
		ident := bd.IdentityKey.Bytes()
		pin := a.pinned[b.idx]
		trusted := pin == nil || bytes.Equal(pin, ident)
		want := trusted && len(bd.SignedPreKeySignature) == 64 &&
			ref.Verify(ident[1:], bd.SignedPreKeyPublic.Bytes(), bd.SignedPreKeySignature) &&
			!degenerate(ident[1:]) && !degenerate(bd.SignedPreKeyPublic.KeyBytes()) && (bd.PreKeyPublic == nil || !degenerate(bd.PreKeyPublic.KeyBytes()))
		f := w.fork(a)
		before := w.snapshot(f)
		vt.SetGlobal(vt.NewDRBG(w.seed, w.step, 81, uint64(i)))
		rec := vt.NewDRBG(w.seed, w.step, 82, uint64(i))
		err := w.sessTo(f, b.addr).ProcessPreKeyBundle(bg, rec, bd)
		w.c.Logf("bundle (%s): want %v, got %v", what, want, err)
		if (err == nil) != want {
			if err == nil {
				props := []string{"C06"}
				if !trusted {
					props = append(props, "C08")
				}
				return wf(props, "bundle accepted: "+what[:min(len(what), 12)], "%s; trusted: %v", what, trusted)
			}
			return wf([]string{"C06"}, "bundle refused: "+what[:min(len(what), 12)], "%s: %v", what, err)
		}
		w.c.Class("bundle, " + map[bool]string{true: "accepted", false: "refused"}[want])
		if err != nil {
			refused++
			if !trusted && !perrors.IsErrUntrustedIdentity(err) && len(bd.SignedPreKeySignature) == 64 {
				return wf([]string{"C08"}, "untrusted identity in bundle not reported as such", "%v", err)
			}
			if after := w.snapshot(f); after != before {
				return wf(append(blame(before, after), "C06"), "stores changed by a refused bundle", "%s: %s", what, firstDiff(before, after))
			}
			continue
		}
		accepted++
		ct, err := w.sessTo(f, b.addr).EncryptMessage(bg, []byte("hello"))
		if err != nil {
			return wf([]string{"C06", "C01"}, "cannot encrypt after processing a bundle", "%s: %v", what, err)
		}
		pk, ok := ct.(*message.PreKey)
		if !ok {
			return wf([]string{"C06"}, "first message is not an establishing one", "%T", ct)
		}
		if pk.RegistrationID() != a.reg || pk.SignedPreKeyID() != bd.SignedPreKeyID || !bytes.Equal(pk.IdentityKey().Bytes(), a.identBytes()) ||
			(pk.PreKeyID() == nil) != (bd.PreKeyID == nil) || pk.PreKeyID() != nil && *pk.PreKeyID() != *bd.PreKeyID {
			return wf([]string{"C06"}, "establishing message with wrong fields", "%s: registration %d, signed pre-key %d, one-time pre-key %v", what, pk.RegistrationID(), pk.SignedPreKeyID(), pk.PreKeyID())
		}
		if p := b.pinned[a.idx]; p != nil && !bytes.Equal(p, a.identBytes()) {
			continue
		}
		g := w.fork(b)
		pt, err := w.sessTo(g, a.addr).DecryptMessage(bg, vt.NewDRBG(w.seed, w.step, 83, uint64(i)), must(message.NewPreKeyFromBytes(append([]byte(nil), ct.Bytes()...))))
		if owner != (err == nil && string(pt) == "hello") {
			return wf([]string{"C06"}, map[bool]string{true: "owner of the bundle cannot decrypt", false: "decrypted without the right pre-keys"}[owner], "%s: %v", what, err)
		}
	}
	if accepted > 0 && refused > 0 {
		w.c.NonTrivial()
	}
	return nil
}

// establishing presents messages made by an independent implementation.
func (w *world) establishing(n int) *worldErr {
	accepted, refused := 0, 0
	for i := 0; i < n; i++ {
		r := vt.NewDRBG(w.seed, w.step, 90, uint64(i))
		b := w.ps[r.Intn(len(w.ps))]
		s := b.spks[r.Intn(len(b.spks))]
		var o *otpk
		for _, x := range b.otpks {
			if !x.gone && r.Intn(2) == 0 {
				o = x
			}
		}
		identPriv, base, rat := r.Bytes(32), r.Bytes(32), r.Bytes(32)
		ident, basePub, ratPub := ref.Public(identPriv), ref.Public(base), ref.Public(rat)
		spkID := s.id
		var otpkID *uint32
		if o != nil {
			id := o.id
			otpkID = &id
		}
		useOTPK := o != nil
		bad := lowOrder[r.Intn(len(lowOrder))]
		want := true
		what := "sound"
		has := func(id uint32) bool {
			for _, x := range b.otpks {
				if !x.gone && x.id == id {
					return true
				}
			}
			return false
		}
		switch r.Intn(12) {
		case 0, 1:
		case 2:
			basePub, want, what = bad, false, "degenerate base key"
		case 3:
			ident, want, what = bad, false, "degenerate identity key"
		case 4:
			ratPub, want, what = bad, false, "degenerate ratchet key"
		case 5:
			basePub, ident, ratPub, want, what = bad, bad, bad, false, "degenerate keys only"
		case 6:
			id := uint32(r.Uint64())
			for {
				known := false
				for _, x := range b.spks {
					known = known || x.id == id
				}
				if !known {
					break
				}
				id++
			}
			spkID, want, what = id, false, "unknown signed pre-key"
		case 7, 8: // unknown one-time pre-key, made with or without an agreement
			id := uint32(r.Uint64())
			for has(id) || id == 0 {
				id++
			}
			otpkID, want, what = &id, false, "unknown one-time pre-key"
			useOTPK = o != nil && r.Intn(2) == 0
		case 9: // used up
			var gone *otpk
			for _, x := range b.otpks {
				if x.gone && !has(x.id) {
					gone = x
				}
			}
			if gone == nil {
				continue
			}
			id := gone.id
			otpkID, o, want, what = &id, gone, false, "one-time pre-key already used"
			useOTPK = r.Intn(2) == 0
		case 10:
			if o == nil {
				continue
			}
			useOTPK, want, what = false, false, "one-time pre-key named and not used"
		case 11:
			if o == nil {
				continue
			}
			otpkID, want, what = nil, false, "one-time pre-key used and not named"
		}
		// An attacker knows the agreements: all with degenerate keys are zero.
		zdh := func(priv, p []byte) []byte { return ref.X25519(priv, p) }
		spkPub, identB := s.pair.PublicKey().KeyBytes(), b.ident.PublicKey().KeyBytes()
		agree := func(priv, own, p []byte) []byte {
			if bytes.Equal(own, bad) {
				return make([]byte, 32)
			}
			return zdh(priv, p)
		}
		dhs := [][]byte{agree(identPriv, ident, spkPub), agree(base, basePub, identB), agree(base, basePub, spkPub)}
		if useOTPK {
			dhs = append(dhs, agree(base, basePub, o.pair.PublicKey().KeyBytes()))
		}
		root, _ := ref.X3DH(dhs...)
		_, ck := ref.Root(root, agree(rat, ratPub, spkPub))
		pt := []byte("from another implementation")
		mk := ref.DeriveMessageKeys(ck)
		body := ref.PB([]byte{0x33}, 1, ref.Typed(ratPub))
		body = ref.PU(body, 2, 0)
		body = ref.PU(body, 3, 0)
		body = ref.PB(body, 4, ref.CBCEncrypt(mk.Cipher, mk.IV, pt))
		inner := append(body[:len(body):len(body)], ref.HMAC(mk.MAC, ref.Typed(ident), ref.Typed(identB), body)[:8]...)
		out := []byte{0x33}
		if otpkID != nil {
			out = ref.PU(out, 1, uint64(*otpkID))
		}
		out = ref.PB(out, 2, ref.Typed(basePub))
		out = ref.PB(out, 3, ref.Typed(ident))
		out = ref.PB(out, 4, inner)
		out = ref.PU(out, 5, uint64(uint32(r.Uint64())))
		out = ref.PU(out, 6, uint64(spkID))

		f := w.fork(b)
		before := w.snapshot(f)
		vt.SetGlobal(vt.NewDRBG(w.seed, w.step, 91, uint64(i)))
		x, err := message.NewPreKeyFromBytes(append([]byte(nil), out...))
		var got []byte
		if err == nil {
			got, err = w.sessTo(f, strangerAddr).DecryptMessage(bg, vt.NewDRBG(w.seed, w.step, 92, uint64(i)), x)
		}
		w.c.Logf("establishing (%s): want %v, got %v", what, want, err)
		if want != (err == nil) {
			return wf([]string{"C06"}, map[bool]string{true: "establishing message accepted: ", false: "establishing message refused: "}[err == nil]+what, "%x: %v", out, err)
		}
		w.c.Class("establishing message " + map[bool]string{true: "accepted", false: "refused: " + what}[want])
		if !want {
			refused++
			if after := w.snapshot(f); after != before {
				return wf(append(blame(before, after), "C06"), "stores changed by a refused establishing message", "%s: %s", what, firstDiff(before, after))
			}
			continue
		}
		accepted++
		if !bytes.Equal(got, pt) {
			return wf([]string{"C06", "C01"}, "wrong plaintext", "%x", got)
		}
		if o != nil {
			if _, ok := load3(f.st.Pre.Load(bg, prekey.ID(o.id))); ok {
				return wf([]string{"C06", "C07"}, "used one-time pre-key not removed", "%d", o.id)
			}
		}
	}
	if accepted > 0 && refused > 0 {
		w.c.NonTrivial()
	}
	return nil
}

// IDCase is a session opened with given IDs.
type IDCase struct {
	Seed uint64 `json:"seed"`
	OTPK int64  `json:"otpk"` // -1: none
	SPK  uint32 `json:"spk"`
	Reg  uint32 `json:"reg"`
}

func preKeyIDs(c *vt.Ctx, ic IDCase) error {
	r := vt.NewDRBG(ic.Seed)
	vt.SetGlobal(vt.NewDRBG(ic.Seed, 1))
	ia, ib := must(identity.GenerateKeyPair(r)), must(identity.GenerateKeyPair(r))
	sa, sb := newStores(ia, ic.Reg), newStores(ib, ^ic.Reg)
	sp := must(curve.GenerateKeyPair(r))
	sig := must(ib.PrivateKey().Sign(r, sp.PublicKey().Bytes()))
	must0(sb.Sig.Store(bg, prekey.ID(ic.SPK), prekey.NewSigned(prekey.ID(ic.SPK), 1, sp, sig)))
	bd := &prekey.Bundle{RegistrationID: ^ic.Reg, DeviceID: 1, SignedPreKeyID: prekey.ID(ic.SPK), SignedPreKeyPublic: sp.PublicKey(), SignedPreKeySignature: sig, IdentityKey: ib.IdentityKey()}
	if ic.OTPK >= 0 {
		id := prekey.ID(ic.OTPK)
		op := must(curve.GenerateKeyPair(r))
		must0(sb.Pre.Store(bg, id, prekey.NewPreKey(id, op)))
		bd.PreKeyID, bd.PreKeyPublic = &id, op.PublicKey()
	}
	a := &session.Session{RemoteAddress: names[1], SessionStore: sa.Sess, PreKeyStore: sa.Pre, SignedPreKeyStore: sa.Sig, IdentityKeyStore: sa.ID}
	b := &session.Session{RemoteAddress: names[0], SessionStore: sb.Sess, PreKeyStore: sb.Pre, SignedPreKeyStore: sb.Sig, IdentityKeyStore: sb.ID}
	if err := a.ProcessPreKeyBundle(bg, r, bd); err != nil {
		return vt.Violate("genuine bundle refused", "%v", err)
	}
	c.NonTrivial()
	for i := 0; i < 2; i++ {
		ct, err := a.EncryptMessage(bg, []byte("x"))
		if err != nil {
			return vt.Violate("cannot encrypt", "%v", err)
		}
		pk, ok := ct.(*message.PreKey)
		if !ok {
			return vt.Violate("first message is not an establishing one", "%T", ct)
		}
		if ic.OTPK == 0 && pk.PreKeyID() == nil && c.Known("otpk-id-zero") {
			c.Class("known finding: one-time pre-key with ID 0")
			return nil
		}
		x, err := message.NewPreKeyFromBytes(append([]byte(nil), ct.Bytes()...))
		if err != nil {
			return vt.Violate("cannot parse an establishing message", "%v", err)
		}
		p := x.(*message.PreKey)
		for _, p := range []*message.PreKey{pk, p} {
			if p.RegistrationID() != ic.Reg || uint32(p.SignedPreKeyID()) != ic.SPK || (p.PreKeyID() != nil) != (ic.OTPK >= 0) || ic.OTPK >= 0 && uint32(*p.PreKeyID()) != uint32(ic.OTPK) {
				return vt.Violate("establishing message with wrong IDs", "registration %d, signed pre-key %d, one-time pre-key %v", p.RegistrationID(), p.SignedPreKeyID(), p.PreKeyID())
			}
		}
		if pt, err := b.DecryptMessage(bg, r, p); err != nil || string(pt) != "x" {
			return vt.Violate("establishing message refused", "%v", err)
		}
		if ic.OTPK >= 0 {
			if _, ok := load3(sb.Pre.Load(bg, prekey.ID(ic.OTPK))); ok {
				return vt.Violate("one-time pre-key not removed", "%d", ic.OTPK)
			}
		}
	}
	return nil
}

func (w *world) processPreKeys() *worldErr {
	n := 0
	for i := len(w.allMsgs) - 1; i >= 0 && n < 12; i-- {
		m := w.allMsgs[i]
		if !m.pre {
			continue
		}
		n++
		a, b := w.ps[m.from], w.ps[m.to]
		want, _, _, fresh := w.predict(m, a, b, true)
		f := w.fork(b)
		rec, ok := load3(f.st.Sess.Load(bg, a.addr))
		if !ok {
			rec = session.NewRecord(nil)
		}
		before := w.snapshot(f)
		vt.SetGlobal(w.rng(95))
		id, err := w.sessTo(f, a.addr).ProcessPreKey(bg, rec, m.present(formBytes, nil).(*message.PreKey))
		after := w.snapshot(f)
		if err != nil && after != before {
			return wf(blame(before, after), "stores changed by a refused establishing message", "%s", firstDiff(before, after))
		}
		for _, p := range blame(before, after) {
			if p == "C07" {
				return wf([]string{"C07"}, "processing an establishing message changes the pre-keys", "%s", firstDiff(before, after))
			}
		}
		switch want {
		case outUntrusted, outNoPreKey:
			if err == nil {
				return wf([]string{"C06", "C07", "C08"}, "processed although "+outNames[want], "message %d", m.id)
			}
			continue
		case outWrongKeys:
			continue // cannot be known before decrypting
		}
		if err != nil {
			return wf([]string{"C06", "C07"}, "genuine establishing message not processed", "message %d: %v", m.id, err)
		}
		switch {
		case !fresh && id != nil:
			return wf([]string{"C07"}, "one-time pre-key named for a session already there", "message %d: %d", m.id, *id)
		case fresh && m.lin.otpk != nil && (id == nil || uint32(*id) != m.lin.otpk.id):
			return wf([]string{"C07"}, "wrong one-time pre-key named", "message %d: %v", m.id, id)
		case fresh && m.lin.otpk == nil && id != nil:
			return wf([]string{"C07"}, "one-time pre-key named for a session without one", "message %d: %v", m.id, *id)
		}
		if fresh && m.lin.otpk != nil {
			w.c.NonTrivial()
		}
	}
	return nil
}

// policyStore trusts what its own rules say in addition.
type policyStore struct {
	idStore
	deny func(a address.Address, k identity.Key, d direction.Direction) bool
}

func (p *policyStore) IsTrustedIdentity(ctx context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	if p.deny(a, k, d) {
		return false, nil
	}
	return p.idStore.IsTrustedIdentity(ctx, a, k, d)
}

// policies runs operations with identity stores which refuse something.
func (w *world) policies(n int) *worldErr {
	denied, allowed := 0, 0
	for i := 0; i < n; i++ {
		r := vt.NewDRBG(w.seed, w.step, 100, uint64(i))
		a := w.ps[r.Intn(len(w.ps))]
		b := w.ps[(a.idx+1+r.Intn(len(w.ps)-1))%len(w.ps)]
		// The operation of a with b: the identity concerned and the direction.
		var ident []byte
		var dir direction.Direction
		var run func(q *party, r *vt.DRBG) error
		k := r.Intn(3)
		switch k {
		case 0:
			s := b.spks[len(b.spks)-1]
			bd := &prekey.Bundle{RegistrationID: b.reg, DeviceID: b.addr.DeviceID, SignedPreKeyID: prekey.ID(s.id), SignedPreKeyPublic: s.pair.PublicKey(), SignedPreKeySignature: s.sig, IdentityKey: b.ident.IdentityKey()}
			ident, dir = b.identBytes(), direction.Sending
			run = func(q *party, r *vt.DRBG) error { return w.sessTo(q, b.addr).ProcessPreKeyBundle(bg, r, bd) }
		case 1:
			e := a.rec(b.idx).cur
			if e == nil {
				continue
			}
			ident, dir = e.remote, direction.Sending
			run = func(q *party, r *vt.DRBG) error {
				ct, err := w.sessTo(q, b.addr).EncryptMessage(bg, []byte("x"))
				if err != nil && ct != nil {
					return fmt.Errorf("output together with an error")
				}
				return err
			}
		default:
			in := w.inbox[[2]int{b.idx, a.idx}]
			if len(in) == 0 {
				continue
			}
			m := in[r.Intn(len(in))]
			if o, _, _, _ := w.predict(m, b, a, m.pre); o != outOK {
				continue
			}
			ident, dir = m.ident, direction.Receiving
			run = func(q *party, r *vt.DRBG) error {
				_, err := w.sessTo(q, b.addr).DecryptMessage(bg, r, m.present(formBytes, nil))
				return err
			}
		}
		if pin := a.pinned[b.idx]; pin != nil && !bytes.Equal(pin, ident) {
			continue
		}
		f := w.fork(a)
		inner := f.st.ID
		rule := r.Intn(6)
		f.st.ID = &policyStore{inner, func(ad address.Address, ky identity.Key, d direction.Direction) bool {
			switch rule {
			case 0:
				return d == direction.Sending
			case 1:
				return d == direction.Receiving
			case 2:
				return ad == b.addr
			case 3:
				return ad != b.addr
			case 4:
				return bytes.Equal(ky.Bytes(), ident)
			default:
				return !bytes.Equal(ky.Bytes(), ident)
			}
		}}
		refuse := map[int]bool{0: dir == direction.Sending, 1: dir == direction.Receiving, 2: true, 4: true}[rule]
		before := w.snapshot(f)
		vt.SetGlobal(vt.NewDRBG(w.seed, w.step, 101, uint64(i)))
		err := run(f, vt.NewDRBG(w.seed, w.step, 102, uint64(i)))
		d := fmt.Sprintf("operation %d, rule %d: %v", k, rule, err)
		if !refuse {
			allowed++
			if err != nil {
				return wf([]string{"C08"}, "refused although trusted", "%s", d)
			}
			continue
		}
		denied++
		if err == nil {
			return wf([]string{"C08"}, "identity store which does not trust the key not obeyed", "%s", d)
		}
		if !perrors.IsErrUntrustedIdentity(err) {
			return wf([]string{"C08"}, "untrusted identity not reported as such", "%s", d)
		}
		if after := w.snapshot(f); after != before {
			return wf(append(blame(before, after), "C08"), "stores changed for an untrusted identity", "%s: %s", d, firstDiff(before, after))
		}
	}
	if denied > 0 && allowed > 0 {
		w.c.NonTrivial()
	}
	return nil
}
