package props

import (
	"flag"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/curve/curve25519"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/ref"
	"verif/vt"
)

func (w *world) quiet(wc WorldCase) error {
	s := w.spy
	err := w.run(wc.Ops)
	if err == nil {
		err = w.settle()
	}
	if err == nil {
		err = w.redeliver(3)
	}
	if err != nil {
		w.c.Class("stopped: violation of another property")
	}
	s.world(w)
	var sent []sentBytes
	var privs, pubs [][]byte
	for _, p := range w.ps {
		s.pub(p.identBytes())
		privs = append(privs, p.ident.PrivateKey().Bytes())
		pubs = append(pubs, p.identBytes()[1:])
		for _, k := range p.spks {
			privs = append(privs, k.pair.PrivateKey().Bytes())
			s.pub(k.pair.PublicKey().Bytes())
		}
		for _, k := range p.otpks {
			privs = append(privs, k.pair.PrivateKey().Bytes())
			s.pub(k.pair.PublicKey().Bytes())
		}
	}
	for _, k := range privs {
		s.secret("a private key", k)
	}
	for _, m := range w.allMsgs {
		s.pub(m.ratchet)
		s.pub(m.lin.base)
		if n := len(pubs); n < 30 {
			pubs = append(pubs, m.ratchet[1:], m.lin.base[1:])
		}
		s.messageKeys(fmt.Sprintf("message %d", m.id), m.ck)
		if len(m.ck) == 32 {
			k := ref.DeriveMessageKeys(m.ck)
			s.secret("a cipher key", k.Cipher)
			s.secret("a MAC key", k.MAC)
			s.secret("an IV", k.IV)
		}
		sent = append(sent, sentBytes{fmt.Sprintf("message %d", m.id), m.raw, nil})
	}
	for i := 0; i < len(privs)*len(pubs) && i < 200; i++ {
		if d, err := ref.DH(privs[i%len(privs)], pubs[i/len(privs)]); err == nil {
			s.secret("an agreement", d)
		}
	}
	w.count()
	if w.nRecv >= 3 {
		w.c.NonTrivial()
	}
	return s.judge(sent)
}

func (g *gworld) quiet(gc GroupCase) error {
	s := g.spy
	err := g.run(gc.Ops)
	if err == nil {
		err = g.settle()
	}
	if err == nil {
		err = g.redeliver(6)
	}
	if err != nil {
		g.c.Class("stopped: violation of another property")
	}
	s.groups(g)
	var sent []sentBytes
	for _, m := range g.msgs {
		s.messageKeys(fmt.Sprintf("group message %d", m.id), m.ck)
		if len(m.ck) == 32 {
			iv, key := ref.GroupKeys(m.ck)
			s.secret("a cipher key", key)
			s.secret("an IV", iv)
		}
		sent = append(sent, sentBytes{fmt.Sprintf("group message %d", m.id), m.raw, nil})
	}
	for i, d := range g.dists {
		s.pub(d.k.signing)
		var may []byte
		if fs, ok := ref.ParseFields(d.raw[1:]); ok {
			for _, f := range fs {
				if f.Num == 4 {
					may = f.Bytes
				}
			}
		}
		sent = append(sent, sentBytes{fmt.Sprintf("distribution message %d", i), d.raw, may})
	}
	g.count()
	if g.nRecv >= 3 {
		g.c.NonTrivial()
	}
	return s.judge(sent)
}

// quietCalls gives functions secrets they refuse.
func quietCalls(c *vt.Ctx, mc MemCase) error {
	s := newSpy(c)
	defer s.undo()
	r := vt.NewDRBG(mc.Seed, 27)
	bytesOf := func(n int) []byte {
		b := r.Bytes(n)
		s.secret("a key of wrong length", b)
		return b
	}
	odd := func(want int) int {
		n := r.Intn(3 * want)
		if r.Intn(3) == 0 {
			n = want
		}
		return n
	}
	for _, op := range mc.Ops {
		c.Class(op.K)
		switch op.K {
		case "private":
			k, err := curve.NewPrivateKey(bytesOf(odd(32)))
			s.err(err)
			if err == nil {
				s.pub(k.PublicKey().Bytes())
				_, err = k.Agreement(pub(ref.Typed(lowOrder[r.Intn(len(lowOrder))])))
				s.err(err)
			}
		case "raw":
			k, err := curve25519.NewPrivateKey(bytesOf(odd(32)))
			s.err(err)
			if err == nil {
				_, err = k.Agreement(r.Bytes(odd(32)))
				s.err(err)
			}
		case "pair":
			k := r.Bytes(32)
			_, err := curve.NewKeyPair(bytesOf(odd(32)), ref.Typed(k)[:min(33, odd(33))])
			s.err(err)
		case "prekey":
			_, err := prekey.NewPreKey(prekey.ID(r.Uint64()), pairFrom(bytesOf(32))).KeyPair()
			s.err(err)
		case "decrypt":
			key, iv := bytesOf(odd(32)), r.Bytes(odd(16))
			ct := r.Bytes(16 * (1 + r.Intn(6)))
			if len(key) == 32 && len(iv) == 16 {
				s.text(ref.CBCRaw(key, iv, ct))
			}
			_, err := aes.CBCDecrypt(key, iv, ct[:len(ct)-r.Intn(2)])
			s.err(err)
		case "encrypt":
			pt := r.Bytes(r.Intn(100))
			s.text(pt)
			_, err := aes.CBCEncrypt(bytesOf(odd(32)), r.Bytes(odd(16)), pt)
			s.err(err)
		case "chain":
			_, err := ratchet.NewChainKey(bytesOf(odd(32)), uint32(r.Uint64()))
			s.err(err)
			_, err = ratchet.NewRootKey(bytesOf(odd(32)))
			s.err(err)
			_, err = ratchet.NewMessageKeys(bytesOf(odd(32)), bytesOf(odd(32)), bytesOf(odd(16)), 3)
			s.err(err)
		case "record":
			// A stored session which got damaged.
			b := bytesOf(20 + r.Intn(200))
			copy(b, []byte{8, 3, 18, byte(r.Intn(200))})
			rec, err := session.NewRecordBytes(b)
			s.err(err)
			if err == nil && rec.State() != nil {
				_, err = rec.State().LocalIdentityKey()
				s.err(err)
				_, _, err = rec.State().RemoteIdentityKey()
				s.err(err)
				_, err = rec.SenderChainKey()
				s.err(err)
			}
		case "dist":
			// A distribution message with a chain key of wrong length.
			b := []byte{0x33}
			b = ref.PB(b, 1, []byte("d1d1d1d1-7000-11eb-b32a-33b8a8a487a6"))
			b = ref.PU(b, 2, r.Uint64()>>33)
			b = ref.PU(b, 3, 4)
			b = ref.PB(b, 4, bytesOf(odd(32)))
			p := ref.Typed(r.Bytes(32))
			s.pub(p)
			b = ref.PB(b, 5, p[:min(33, odd(33))])
			_, err := message.NewSenderKeyDistributionFromBytes(b)
			s.err(err)
		}
	}
	if len(s.secrets) > 0 {
		c.NonTrivial()
	}
	return s.judge(nil)
}

var quietOps = []string{"private", "raw", "pair", "prekey", "decrypt", "encrypt", "chain", "record", "dist"}

const quietRule = "everything the process writes to its log (all levels), standard output and error, and every error returned, is searched for any 8 bytes in a row of the randomness given, of secrets stored at any step, of keys and agreements derived from them, and of plaintexts, raw or as hexadecimal, base64, base32, decimal or quoted text, and for words which are the first or last 4 to 7 bytes of at least two secrets; every message sent is searched for them raw (the chain key a distribution message is for excepted); "

func init() {
	vt.Register("C27", "positions", 80, 2400, deepRule+"; "+quietRule+"non-trivial: at least 3 decrypted",
		func(t *rapidT) WorldCase { return genDeep(t) }, func(c *vt.Ctx, wc WorldCase) error {
			flag.Set("v", "9")
			s := newSpy(c)
			defer s.undo()
			w := newWorld(c, wc)
			w.deep, w.watch, w.spy = true, true, s
			return w.quiet(wc)
		})
	vt.Register("C27", "group-positions", 60, 2000, deepGroupRule+"; "+quietRule+"non-trivial: at least 3 decrypted",
		func(t *rapidT) GroupCase { return genDeepGroup(t) }, func(c *vt.Ctx, gc GroupCase) error {
			flag.Set("v", "9")
			s := newSpy(c)
			defer s.undo()
			g := newGWorld(c, gc)
			g.watch, g.spy = true, s
			return g.quiet(gc)
		})
	vt.Register("C27", "histories", 2400, 60000, histRule+quietRule+"non-trivial: at least 3 decrypted",
		histCase("mixed", "pong", "cross", "trust", "traces"), func(c *vt.Ctx, wc WorldCase) error {
			flag.Set("v", "9")
			s := newSpy(c)
			defer s.undo()
			w := newWorld(c, wc)
			w.watch = true
			w.spy = s
			return w.quiet(wc)
		})
	vt.Register("C27", "groups", 2000, 60000, "random group histories; "+quietRule+"non-trivial: at least 3 decrypted",
		histGroup("mixed", "rotate", "evil"), func(c *vt.Ctx, gc GroupCase) error {
			flag.Set("v", "9")
			s := newSpy(c)
			defer s.undo()
			g := newGWorld(c, gc)
			g.watch = true
			g.spy = s
			return g.quiet(gc)
		})
	vt.Register("C27", "calls", 8000, 200000, "functions are given secret keys of wrong length, ciphertexts whose padding is wrong and damaged stored sessions; "+quietRule+"non-trivial: some secret was given",
		func(t *rapidT) MemCase {
			mc := MemCase{Seed: vt.Bits(t, "seed")}
			for i := 1 + vt.Uni(t, 12, "n"); i > 0; i-- {
				mc.Ops = append(mc.Ops, Op{K: vt.Pick(t, "op", quietOps...)})
			}
			return mc
		}, quietCalls)
}
