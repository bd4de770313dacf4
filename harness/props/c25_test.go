package props

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/vt"
)

// guard gives operations their inputs as parts of larger arrays, and watches
// all of the arrays.
type guard struct {
	r    *vt.DRBG
	bufs []gbuf
	outs []gbuf
	what string // of the first array found changed
}

type gbuf struct {
	what        string
	arena, want []byte
}

func newGuard(vs ...uint64) *guard { return &guard{r: vt.NewDRBG(append(vs, 25)...)} }

// in gives copies of the inputs, next to each other in one array or with gaps,
// the capacity of each extending over what follows.
func (g *guard) ins(what string, bs ...[]byte) [][]byte {
	gap := func() int {
		if g.r.Intn(3) == 0 {
			return 0
		}
		return g.r.Intn(80)
	}
	pos := make([]int, len(bs))
	n := gap()
	for i, b := range bs {
		pos[i] = n
		n += len(b) + gap()
	}
	n += 48
	a := g.r.Bytes(n)
	out := make([][]byte, len(bs))
	for i, b := range bs {
		copy(a[pos[i]:], b)
		out[i] = a[pos[i] : pos[i]+len(b)]
		if b == nil {
			out[i] = nil
		}
	}
	g.bufs = append(g.bufs, gbuf{what, a, append([]byte(nil), a...)})
	return out
}

func (g *guard) in(what string, b []byte) []byte { return g.ins(what, b)[0] }

// out notes a buffer which the caller was given and will overwrite.
func (g *guard) out(b []byte) {
	if b != nil {
		g.outs = append(g.outs, gbuf{arena: b[:cap(b)]})
	}
}

// clean tells whether all inputs are as they were.
func (g *guard) clean() error {
	for _, b := range g.bufs {
		if !bytes.Equal(b.arena, b.want) {
			i := 0
			for b.arena[i] == b.want[i] {
				i++
			}
			return vt.Violate("the caller's memory is modified", "%s: byte %d of %d around it", b.what, i, len(b.arena))
		}
	}
	return nil
}

// scribble overwrites all inputs and outputs.
func (g *guard) scribble() {
	for _, b := range append(g.bufs, g.outs...) {
		for i := range b.arena {
			b.arena[i] ^= byte(0x5a + i)
		}
	}
	g.bufs, g.outs = nil, nil
}

// step checks and overwrites.
func (g *guard) step() error {
	if err := g.clean(); err != nil {
		return err
	}
	g.scribble()
	return nil
}

// --- whole conversations

func guardErr(err error) *worldErr {
	if err == nil {
		return nil
	}
	v := err.(*vt.Violation)
	return wf([]string{"C25"}, v.Cat, "%s", v.Detail)
}

// bundleCopy gives the bundle as a caller would build it from its buffers.
func (g *guard) bundle(b *prekey.Bundle) *prekey.Bundle {
	n := *b
	k := [][]byte{b.SignedPreKeyPublic.Bytes(), b.SignedPreKeySignature, b.IdentityKey.Bytes()}
	if b.PreKeyPublic != nil {
		k = append(k, b.PreKeyPublic.Bytes())
	}
	k = g.ins("bundle", k...)
	n.SignedPreKeyPublic = must(curve.NewPublicKey(k[0]))
	n.SignedPreKeySignature = k[1]
	n.IdentityKey = must(identity.NewKey(k[2]))
	if b.PreKeyPublic != nil {
		n.PreKeyPublic = must(curve.NewPublicKey(k[3]))
	}
	if b.PreKeyID != nil {
		id := *b.PreKeyID
		n.PreKeyID = &id
	}
	return &n
}

// bundleDone checks a bundle after its use, and overwrites it.
func bundleDone(n, b *prekey.Bundle) error {
	same := n.RegistrationID == b.RegistrationID && n.DeviceID == b.DeviceID && n.SignedPreKeyID == b.SignedPreKeyID &&
		(n.PreKeyID == nil) == (b.PreKeyID == nil) && (n.PreKeyID == nil || *n.PreKeyID == *b.PreKeyID) &&
		(n.PreKeyPublic == nil) == (b.PreKeyPublic == nil) && (n.PreKeyPublic == nil || bytes.Equal(n.PreKeyPublic.Bytes(), b.PreKeyPublic.Bytes())) &&
		bytes.Equal(n.SignedPreKeyPublic.Bytes(), b.SignedPreKeyPublic.Bytes()) && bytes.Equal(n.SignedPreKeySignature, b.SignedPreKeySignature) &&
		bytes.Equal(n.IdentityKey.Bytes(), b.IdentityKey.Bytes())
	if !same {
		return vt.Violate("the caller's bundle is modified", "%+v", n)
	}
	if n.PreKeyID != nil {
		*n.PreKeyID ^= 0x55
	}
	n.RegistrationID, n.SignedPreKeyID, n.PreKeyPublic, n.SignedPreKeyPublic = 1, 2, nil, nil
	return nil
}

func memTwin(c *vt.Ctx, wc WorldCase) error {
	run := func(guarded bool) (*world, *worldErr) {
		w := newWorld(c, wc)
		w.bytesOnly = true
		if guarded {
			w.guard = newGuard(wc.Seed)
		}
		err := w.run(wc.Ops)
		if err == nil {
			err = w.settle()
		}
		if err == nil {
			err = w.redeliver(3)
		}
		return w, err
	}
	w0, err0 := run(false)
	if err0 != nil {
		c.Class("stopped: violation of another property")
		return nil
	}
	w1, err1 := run(true)
	w1.count()
	if w1.nRecv >= 3 {
		c.NonTrivial()
	}
	if err1 != nil {
		return vt.Violate(memCat(err1), "%v", err1)
	}
	if d := traceDiff(w0.trace, w1.trace); d != "" {
		return vt.Violate("conversation differs when callers reuse their buffers", "%s", d)
	}
	return nil
}

func memCat(err *worldErr) string {
	if err.is("C25") {
		return err.cat
	}
	return "conversation fails when callers reuse their buffers"
}

func memGroupTwin(c *vt.Ctx, gc GroupCase) error {
	run := func(guarded bool) (*gworld, *worldErr) {
		g := newGWorld(c, gc)
		g.bytesOnly = true
		if guarded {
			g.guard = newGuard(gc.Seed)
		}
		err := g.run(gc.Ops)
		if err == nil {
			err = g.settle()
		}
		if err == nil {
			err = g.redeliver(6)
		}
		return g, err
	}
	g0, err0 := run(false)
	if err0 != nil {
		c.Class("stopped: violation of another property")
		return nil
	}
	g1, err1 := run(true)
	g1.count()
	if g1.nRecv >= 3 {
		c.NonTrivial()
	}
	if err1 != nil {
		return vt.Violate(memCat(err1), "%v", err1)
	}
	if d := traceDiff(g0.trace, g1.trace); d != "" {
		return vt.Violate("conversation differs when callers reuse their buffers", "%s", d)
	}
	return nil
}

// --- single functions

// MemCase is a sequence of calls.
type MemCase struct {
	Seed uint64 `json:"seed"`
	Ops  []Op   `json:"ops"`
}

var memOps = []string{"public", "private", "pair", "identity", "sign", "verify", "agree", "alternate", "encrypt", "decrypt", "raw25519", "signal", "prekey", "senderkey", "dist", "parse", "ratchet", "sender", "record", "finger", "uuid", "signedprekey"}

func memLen(r *vt.DRBG) int {
	switch {
	case r.Intn(20) == 0:
		return vt.Size(r, 1<<17)
	case r.Intn(2) == 0:
		return sizes[r.Intn(12)]
	}
	return r.Intn(90)
}

func memCalls(c *vt.Ctx, mc MemCase) error {
	for i, op := range mc.Ops {
		if err := memCall(c, op, vt.NewDRBG(mc.Seed, uint64(i), uint64(op.N))); err != nil {
			if v, ok := err.(*vt.Violation); ok {
				v.Detail = op.K + ": " + v.Detail
			}
			return err
		}
		c.Class(op.K)
	}
	c.NonTrivial()
	return nil
}

func memCall(c *vt.Ctx, op Op, r *vt.DRBG) error {
	g := newGuard(r.Uint64())
	vt.SetGlobal(r)
	pair := func() *curve.KeyPair { return must(curve.GenerateKeyPair(r)) }
	idp := func() identity.KeyPair { return must(identity.GenerateKeyPair(r)) }
	changed := func(what string, got, want []byte) error {
		if !bytes.Equal(got, want) {
			return vt.Violate("a key changes with the caller's buffers", "%s: %x, want %x", what, got, want)
		}
		return nil
	}
	switch op.K {
	case "public":
		want := pair().PublicKey().Bytes()
		for n := r.Intn(3) / 2 * 7; n > 0; n-- {
			want = append(want, byte(n)) // trailing bytes
		}
		k, err := curve.NewPublicKey(g.in("public key", want))
		if err != nil {
			return g.clean()
		}
		was := append([]byte(nil), k.Bytes()...)
		if err := g.clean(); err != nil {
			return err
		}
		g.out(k.Bytes())
		g.out(k.KeyBytes())
		g.scribble()
		if err := changed("public key", k.Bytes(), was); err != nil {
			return err
		}
		return changed("public key", k.KeyBytes(), was[1:])
	case "private":
		b := r.Bytes(32)
		k := must(curve.NewPrivateKey(g.in("private key", b)))
		was, pub := append([]byte(nil), k.Bytes()...), append([]byte(nil), k.PublicKey().Bytes()...)
		if err := g.clean(); err != nil {
			return err
		}
		g.out(k.Bytes())
		g.out(k.PublicKey().Bytes())
		g.scribble()
		if err := changed("private key", k.Bytes(), was); err != nil {
			return err
		}
		msg := r.Bytes(20)
		sig := must(k.Sign(r, msg))
		if ok, err := must(curve.NewPublicKey(pub)).VerifySignature(sig, msg); !ok || err != nil {
			return vt.Violate("a key changes with the caller's buffers", "signature of a private key")
		}
		return changed("its public key", k.PublicKey().Bytes(), pub)
	case "pair":
		p := pair()
		in := g.ins("key pair", p.PrivateKey().Bytes(), p.PublicKey().Bytes())
		k, err := curve.NewKeyPair(in[0], in[1])
		if err != nil {
			return err
		}
		if err := g.clean(); err != nil {
			return err
		}
		g.out(k.PrivateKey().Bytes())
		g.out(k.PublicKey().Bytes())
		g.scribble()
		if err := changed("private key", k.PrivateKey().Bytes(), p.PrivateKey().Bytes()); err != nil {
			return err
		}
		return changed("public key", k.PublicKey().Bytes(), p.PublicKey().Bytes())
	case "identity":
		want := idp().IdentityKey().Bytes()
		k := must(identity.NewKey(g.in("identity key", append([]byte(nil), want...))))
		kp := identity.NewKeyPair(pair().PrivateKey(), k)
		if err := g.clean(); err != nil {
			return err
		}
		g.out(k.Bytes())
		g.out(k.PublicKey().Bytes())
		g.out(kp.IdentityKey().Bytes())
		g.out(kp.PublicKey().Bytes())
		g.scribble()
		if err := changed("identity key", k.Bytes(), want); err != nil {
			return err
		}
		return changed("identity key of a pair", kp.IdentityKey().Bytes(), want)
	case "sign", "verify":
		p := pair()
		var parts [][]byte
		for i := r.Intn(5); i > 0; i-- {
			parts = append(parts, r.Bytes(memLen(r)))
		}
		pb, kb := p.PublicKey().Bytes(), p.PrivateKey().Bytes()
		sig := make([]byte, 64)
		if op.K == "verify" {
			sig = must(p.Sign(r, parts...))
			if r.Intn(3) == 0 {
				sig[r.Intn(64)] ^= 4
			}
		}
		in := g.ins("message parts and signature", append(append([][]byte{}, parts...), sig)...)
		parts = in[:len(parts)]
		if op.K == "sign" {
			s := must(p.Sign(r, parts...))
			if err := g.clean(); err != nil {
				return err
			}
			was := append([]byte(nil), s...)
			whole := bytes.Join(parts, nil)
			g.scribble()
			if !bytes.Equal(s, was) {
				return vt.Violate("a signature changes with the caller's buffers", "%x", s)
			}
			if ok, err := p.PublicKey().VerifySignature(s, whole); !ok || err != nil {
				return vt.Violate("signature of parts does not fit the whole", "%v", err)
			}
		} else {
			p.PublicKey().VerifySignature(in[len(in)-1], parts...)
			if err := g.step(); err != nil {
				return err
			}
		}
		if err := changed("public key", p.PublicKey().Bytes(), pb); err != nil {
			return err
		}
		return changed("private key", p.PrivateKey().Bytes(), kb)
	case "agree":
		a, b := pair(), pair()
		p := must(curve.NewPublicKey(g.in("public key", b.PublicKey().Bytes())))
		s := must(a.Agreement(p))
		was := append([]byte(nil), s...)
		if err := g.clean(); err != nil {
			return err
		}
		g.out(s)
		g.scribble()
		if s = must(a.PrivateKey().Agreement(p)); !bytes.Equal(s, was) {
			return vt.Violate("an agreement changes with the caller's buffers", "%x, want %x", s, was)
		}
		return nil
	case "alternate":
		a, b := idp(), idp()
		s := must(a.SignAlternateIdentity(r, b.IdentityKey()))
		for i := 0; i < 2; i++ {
			s2 := g.in("signature", s)
			if ok, err := a.IdentityKey().VerifyAlternateIdentity(s2, b.IdentityKey()); !ok || err != nil {
				return vt.Violate("genuine signature of an alternate identity refused", "%v", err)
			}
			if err := g.step(); err != nil {
				return err
			}
		}
		return nil
	case "encrypt", "decrypt":
		key, iv, pt := r.Bytes(32), r.Bytes(16), r.Bytes(memLen(r))
		if r.Intn(8) == 0 {
			key = r.Bytes(r.Intn(40)) // may be refused
		}
		if op.K == "decrypt" {
			ct, err := aes.CBCEncrypt(key, iv, pt)
			if err != nil {
				return nil
			}
			if r.Intn(3) == 0 {
				ct[r.Intn(len(ct))] ^= 1
			}
			pt = ct
		}
		in := g.ins("key, IV and text", key, iv, pt)
		var out []byte
		var err error
		if op.K == "encrypt" {
			out, err = aes.CBCEncrypt(in[0], in[1], in[2])
		} else {
			out, err = aes.CBCDecrypt(in[0], in[1], in[2])
		}
		if e := g.clean(); e != nil {
			return e
		}
		if err != nil {
			return nil
		}
		was := append([]byte(nil), out...)
		g.scribble()
		if !bytes.Equal(out, was) {
			return vt.Violate("a result changes with the caller's buffers", "%s", op.K)
		}
		// And the other way round.
		in = g.ins("key, IV and text", key, iv, pt)
		if op.K == "encrypt" {
			out, _ = aes.CBCEncrypt(in[0], in[1], in[2])
		} else {
			out, _ = aes.CBCDecrypt(in[0], in[1], in[2])
		}
		out = out[:cap(out)]
		for i := range out {
			out[i] ^= 0xff
		}
		return g.clean()
	case "raw25519":
		p := must(curve25519.GeneratePrivateKey(r))
		q := must(curve25519.GeneratePrivateKey(r))
		k := must(curve25519.NewPrivateKey(g.in("private key", p.Bytes())))
		if err := g.clean(); err != nil {
			return err
		}
		was := append([]byte(nil), p.Bytes()...)
		pub := append([]byte(nil), p.PublicKeyBytes()...)
		g.out(k.Bytes())
		g.out(k.PublicKeyBytes())
		g.scribble()
		if err := changed("private key", k.Bytes(), was); err != nil {
			return err
		}
		if err := changed("public key", k.PublicKeyBytes(), pub); err != nil {
			return err
		}
		in := g.ins("public key and messages", q.PublicKeyBytes(), r.Bytes(memLen(r)), r.Bytes(memLen(r)))
		g.out(must(k.Agreement(in[0])))
		s := must(k.Sign(r, in[1], in[2]))
		if err := g.clean(); err != nil {
			return err
		}
		in2 := g.ins("public key, signature, messages", pub, s, in[1], in[2])
		if ok, err := curve25519.VerifySignature(in2[0], in2[1], in2[2:]...); !ok || err != nil {
			return vt.Violate("genuine signature refused", "%v", err)
		}
		if err := g.step(); err != nil {
			return err
		}
		if err := changed("private key", k.Bytes(), was); err != nil {
			return err
		}
		return changed("public key", k.PublicKeyBytes(), pub)
	case "signal", "prekey":
		a, b, rk := idp(), idp(), pair()
		mac := r.Bytes(32)
		in := g.ins("MAC key and ciphertext", mac, r.Bytes(memLen(r)))
		m := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: in[0], SenderRatchetKey: rk.PublicKey(), Counter: uint32(r.Intn(9)), Ciphertext: in[1], SenderIdentityKey: a.IdentityKey(), ReceiverIdentityKey: b.IdentityKey()}))
		sm := m.(*message.Signal)
		if ok, err := sm.VerifyMAC(in[0], a.IdentityKey(), b.IdentityKey()); !ok || err != nil {
			return vt.Violate("MAC of a message just made does not verify", "%v", err)
		}
		if err := g.clean(); err != nil {
			return err
		}
		raw := append([]byte(nil), m.Bytes()...)
		if op.K == "prekey" {
			id := prekey.ID(r.Uint64())
			cfg := message.PreKeyConfig{Version: 3, RegistrationID: 5, PreKeyID: &id, SignedPreKeyID: 7, BaseKey: rk.PublicKey(), IdentityKey: a.IdentityKey(), Message: sm}
			was := id
			x := must(message.NewPreKey(cfg))
			if id != was || !bytes.Equal(sm.Bytes(), raw) {
				return vt.Violate("the caller's memory is modified", "ID or inner message of a pre-key message")
			}
			raw = append([]byte(nil), x.Bytes()...)
		}
		// Parsed from a part of a larger buffer.
		buf := g.in("message", raw)
		if op.K == "signal" {
			p := must(message.NewSignalFromBytes(buf)).(*message.Signal)
			p.VerifyMAC(mac, a.IdentityKey(), b.IdentityKey())
			p.VerifyMAC(r.Bytes(32), a.IdentityKey(), b.IdentityKey())
			p.Message()
			p.Bytes()
		} else {
			p := must(message.NewPreKeyFromBytes(buf)).(*message.PreKey)
			ik, bk := p.IdentityKey(), p.BaseKey()
			w1, w2 := append([]byte(nil), ik.Bytes()...), append([]byte(nil), bk.Bytes()...)
			p.Message().VerifyMAC(mac, a.IdentityKey(), b.IdentityKey())
			if err := g.clean(); err != nil {
				return err
			}
			g.out(ik.Bytes())
			g.out(bk.Bytes())
			g.scribble()
			if err := changed("identity key of a message", ik.Bytes(), w1); err != nil {
				return err
			}
			return changed("base key of a message", bk.Bytes(), w2)
		}
		return g.step()
	case "senderkey":
		p := pair()
		ct := g.in("ciphertext", r.Bytes(memLen(r)))
		m := must(message.NewSenderKey(r, message.SenderKeyConfig{Version: 3, DistID: distribution.MustParse(distIDs[0]), ChainID: 7, Iteration: 8, Ciphertext: ct, SignatureKey: p.PrivateKey()}))
		if err := g.clean(); err != nil {
			return err
		}
		raw := append([]byte(nil), m.Bytes()...)
		g.scribble()
		x := must(message.NewSenderKeyFromBytes(g.in("message", raw)))
		if ok, err := x.VerifySignature(p.PublicKey()); !ok || err != nil {
			return vt.Violate("genuine signature refused", "%v", err)
		}
		x.VerifySignature(pair().PublicKey())
		x.Message()
		return g.step()
	case "dist":
		p := pair()
		ck := r.Bytes(32)
		m := must(message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: distribution.MustParse(distIDs[0]), ChainID: 7, Iteration: 8, ChainKey: g.in("chain key", ck), SigningKey: p.PublicKey()}))
		if err := g.clean(); err != nil {
			return err
		}
		raw := append([]byte(nil), m.Bytes()...)
		g.scribble()
		x := must(message.NewSenderKeyDistributionFromBytes(g.in("message", raw)))
		k := x.SigningKey()
		was := append([]byte(nil), k.Bytes()...)
		x.ChainKey()
		if err := g.step(); err != nil {
			return err
		}
		return changed("signing key of a message", k.Bytes(), was)
	case "parse": // damaged messages
		var raw []byte
		a := idp()
		sm := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: r.Bytes(32), SenderRatchetKey: pair().PublicKey(), Ciphertext: r.Bytes(20), SenderIdentityKey: a.IdentityKey(), ReceiverIdentityKey: a.IdentityKey()}))
		switch raw = sm.Bytes(); r.Intn(3) {
		case 0:
			raw = must(message.NewPreKey(message.PreKeyConfig{Version: 3, BaseKey: pair().PublicKey(), IdentityKey: a.IdentityKey(), Message: sm.(*message.Signal)})).Bytes()
		case 1:
			raw = must(message.NewSenderKey(r, message.SenderKeyConfig{Version: 3, DistID: distribution.MustParse(distIDs[0]), Ciphertext: r.Bytes(20), SignatureKey: pair().PrivateKey()})).Bytes()
		}
		raw = append([]byte(nil), raw...)
		for i := 1 + r.Intn(3); i > 0; i-- {
			raw[r.Intn(len(raw))] ^= byte(1 << r.Intn(8))
		}
		raw = raw[:len(raw)-r.Intn(2)*r.Intn(len(raw)+1)]
		b := g.in("message", raw)
		message.NewSignalFromBytes(b)
		message.NewPreKeyFromBytes(b)
		message.NewSenderKeyFromBytes(b)
		message.NewSenderKeyDistributionFromBytes(b)
		message.NewPlaintextFromBytes(b)
		session.NewRecordBytes(b)
		curve.NewPublicKey(b)
		identity.NewKey(b)
		return g.step()
	case "ratchet":
		in := g.ins("key material", r.Bytes(32), r.Bytes(32), r.Bytes(32), r.Bytes(16), r.Bytes(memLen(r)))
		ck := must(ratchet.NewChainKey(in[0], 3))
		ck.MessageKeys()
		for i := 0; i < 3; i++ {
			ck = ck.Next()
		}
		ck.MessageKeys()
		rk := must(ratchet.NewRootKey(in[1]))
		if _, _, err := rk.CreateChain(pair().PrivateKey(), pair().PublicKey()); err != nil {
			return err
		}
		must(ratchet.NewMessageKeys(in[1], in[2], in[3], 4))
		ratchet.DeriveMessageKeys(in[2], 9)
		ratchet.DeriveKeys(in[4])
		return g.step()
	case "sender":
		in := g.ins("key material", r.Bytes(32), r.Bytes(32))
		ck := senderkey.NewChainKey(in[0], 3)
		for i := 0; i < 3; i++ {
			ck.MessageKey()
			ck = ck.Next()
		}
		senderkey.DeriveMessageKey(in[1], 4)
		return g.step()
	case "record":
		w := newWorld(c, WorldCase{Seed: r.Uint64()})
		w.step = r.Uint64()
		a, b := w.ps[0], w.ps[1]
		if err := w.open(a, b, true, false, 0); err != nil {
			return nil
		}
		rec, _ := load3(a.st.Sess.Load(bg, b.addr))
		raw := append([]byte(nil), rec.State().Bytes()...)
		l, err := session.NewRecordBytes(g.in("record", raw))
		if err != nil {
			return nil
		}
		g.out(l.State().Bytes())
		if err := g.step(); err != nil {
			return err
		}
		if !bytes.Equal(l.State().Bytes(), raw) {
			return vt.Violate("a session changes with the caller's buffers", "%x, want %x", l.State().Bytes(), raw)
		}
		try(l, "HasSessionState", uint32(3), g.in("base key", l.State().AliceBaseKey()))
		return g.step()
	case "finger":
		a, b := idp().IdentityKey(), idp().IdentityKey()
		in := g.ins("identifiers", r.Bytes(memLen(r)), r.Bytes(memLen(r)))
		f := must(fingerprint.New(uint32(1+r.Intn(2)), uint32(2+r.Intn(4)), in[0], a, in[1], b))
		s := f.String()
		if err := g.step(); err != nil {
			return err
		}
		if f.String() != s {
			return vt.Violate("a fingerprint changes with the caller's buffers", "%s, want %s", f.String(), s)
		}
		in = g.ins("fingerprints", r.Bytes(32+r.Intn(33)), r.Bytes(32+r.Intn(33)))
		d := must(fingerprint.NewDisplayable(in[0], in[1]))
		s = d.String()
		sc := must(fingerprint.NewScannable(1, in[0], in[1]))
		raw := must(sc.Bytes())
		if err := g.clean(); err != nil {
			return err
		}
		in2 := g.in("scanned", raw)
		sc.Compare(in2)
		sc.Compare(in2[:len(in2)-1])
		if err := g.step(); err != nil {
			return err
		}
		if d.String() != s {
			return vt.Violate("a fingerprint changes with the caller's buffers", "%s, want %s", d.String(), s)
		}
		return nil
	case "uuid":
		in := g.in("ID", []byte(distIDs[r.Intn(len(distIDs))]))
		id := must(distribution.ParseBytes(in))
		s := id.String()
		if err := g.step(); err != nil {
			return err
		}
		if id.String() != s {
			return vt.Violate("an ID changes with the caller's buffers", "%s, want %s", id, s)
		}
		return nil
	case "signedprekey":
		p := pair()
		sig := r.Bytes(64)
		k := prekey.NewSigned(7, 42, p, g.in("signature", sig))
		kp := must(k.KeyPair())
		g.out(kp.PublicKey().Bytes())
		g.out(kp.PrivateKey().Bytes())
		if err := g.step(); err != nil {
			return err
		}
		kp = must(k.KeyPair())
		if err := changed("private pre-key", kp.PrivateKey().Bytes(), p.PrivateKey().Bytes()); err != nil {
			return err
		}
		return changed("public pre-key", kp.PublicKey().Bytes(), p.PublicKey().Bytes())
	}
	panic(fmt.Sprintf("unknown op %q", op.K))
}

func init() {
	const twin = "the same history with the same randomness is run plainly, and with all inputs given as parts of larger arrays (their capacity extending over other data) which are checked in full after each call and then overwritten, as is everything returned; messages, plaintexts and refusals must be the same; non-trivial: at least 3 decrypted"
	vt.Register("C25", "histories", 2000, 80000, twin, histCase("mixed", "pong", "cross", "skips", "trust", "again"), memTwin)
	vt.Register("C25", "groups", 2000, 80000, twin, histGroup("mixed", "rotate", "skips"), memGroupTwin)
	vt.Register("C25", "calls", 40000, 1500000, "sequences of calls of the functions of all packages with buffers as above; the arrays must not change during the calls, and keys, signatures, ciphertexts, fingerprints and records not with the arrays afterwards; every case is non-trivial",
		func(t *rapidT) MemCase {
			mc := MemCase{Seed: vt.Bits(t, "seed")}
			for i := 1 + vt.Uni(t, 8, "len"); i > 0; i-- {
				mc.Ops = append(mc.Ops, Op{K: memOps[vt.Uni(t, len(memOps), "op")], N: vt.Uni(t, 1000, "n")})
			}
			return mc
		}, memCalls)
}
