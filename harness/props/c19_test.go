package props

import (
	"bytes"
	"context"
	"fmt"
	"reflect"

	"google.golang.org/protobuf/proto"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/vt"
)

// Stores which keep bytes only, apart from that of sessions (stores.go).

type bytePre struct{ m map[prekey.ID][2][]byte }

func (b *bytePre) Load(_ context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	s, ok := b.m[id]
	if !ok {
		return nil, false, nil
	}
	kp, err := curve.NewKeyPair(append([]byte(nil), s[0]...), append([]byte(nil), s[1]...))
	if err != nil {
		return nil, false, err
	}
	return prekey.NewPreKey(id, kp), true, nil
}

func (b *bytePre) Store(_ context.Context, id prekey.ID, k *prekey.PreKey) error {
	kp, err := k.KeyPair()
	if err == nil {
		b.m[id] = [2][]byte{kp.PrivateKey().Bytes(), kp.PublicKey().Bytes()}
	}
	return err
}

func (b *bytePre) Delete(_ context.Context, id prekey.ID) error {
	delete(b.m, id)
	return nil
}

type byteSig struct{ m map[prekey.ID][2][]byte }

func (b *byteSig) Load(_ context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	s, ok := b.m[id]
	if !ok {
		return nil, false, nil
	}
	kp, err := curve.NewKeyPair(append([]byte(nil), s[0]...), append([]byte(nil), s[1]...))
	if err != nil {
		return nil, false, err
	}
	return prekey.NewSigned(id, 0, kp, nil), true, nil
}

func (b *byteSig) Store(_ context.Context, id prekey.ID, k *prekey.SignedPreKey) error {
	kp, err := k.KeyPair()
	if err == nil {
		b.m[id] = [2][]byte{kp.PrivateKey().Bytes(), kp.PublicKey().Bytes()}
	}
	return err
}

type byteID struct {
	priv, pub []byte
	reg       uint32
	m         map[address.Address][]byte
}

func (b *byteID) KeyPair(context.Context) identity.KeyPair {
	return identity.NewKeyPair(must(curve.NewPrivateKey(append([]byte(nil), b.priv...))), must(identity.NewKey(append([]byte(nil), b.pub...))))
}

func (b *byteID) LocalRegistrationID(context.Context) uint32 { return b.reg }

func (b *byteID) Load(_ context.Context, a address.Address) (identity.Key, bool, error) {
	k, ok := b.m[a]
	if !ok {
		return identity.Key{}, false, nil
	}
	key, err := identity.NewKey(append([]byte(nil), k...))
	return key, err == nil, err
}

func (b *byteID) Store(_ context.Context, a address.Address, k identity.Key) (bool, error) {
	old, ok := b.m[a]
	b.m[a] = append([]byte(nil), k.Bytes()...)
	return ok && !bytes.Equal(old, k.Bytes()), nil
}

func (b *byteID) Clear() error {
	b.m = map[address.Address][]byte{}
	return nil
}

func (b *byteID) IsTrustedIdentity(_ context.Context, a address.Address, k identity.Key, _ direction.Direction) (bool, error) {
	old, ok := b.m[a]
	return !ok || bytes.Equal(old, k.Bytes()), nil
}

// asBytes makes all stores of p keep bytes only.
func (p *party) asBytes() {
	p.st.Sess = newByteStore()
	p.st.Pre = &bytePre{map[prekey.ID][2][]byte{}}
	p.st.Sig = &byteSig{map[prekey.ID][2][]byte{}}
	p.st.ID = &byteID{p.ident.PrivateKey().Bytes(), p.identBytes(), p.reg, map[address.Address][]byte{}}
}

// SavedCase is a history and when sessions are saved and loaded in it.
type SavedCase struct {
	World WorldCase `json:"world"`
	All   int       `json:"all"`  // bit i: party i keeps nothing but bytes
	When  uint64    `json:"when"` // bit i mod 64: everyone saves and loads after operation i
}

func traceDiff(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return fmt.Sprintf("step %d: %.200s // %.200s", i, x, y)
		}
	}
	return ""
}

func savedTwin(c *vt.Ctx, sc SavedCase, finish func(w *world) *worldErr) error {
	run := func(saving bool) (*world, *worldErr) {
		wc := sc.World
		wc.Byte = 0
		w := newWorld(c, wc)
		w.noReload = !saving
		if saving {
			w.allBytes = sc.All
			for _, p := range w.ps {
				w.resetStores(p)
			}
		}
		for i, op := range wc.Ops {
			w.step++
			if err := w.do(op); err != nil {
				return w, err
			}
			if saving && sc.When>>(i%64)&1 == 1 {
				for _, p := range w.ps {
					if err := w.reload(p); err != nil {
						return w, err
					}
				}
			}
		}
		err := w.settle()
		if err == nil && finish != nil {
			err = finish(w)
		}
		return w, err
	}
	w0, err0 := run(false)
	if err0 != nil {
		c.Class("stopped: violation of another property")
		return nil
	}
	w1, err1 := run(true)
	w1.count()
	c.ClassN("times a session was saved and loaded", w1.nReload)
	if w1.nRecv >= 3 && (w1.nReload > 0 || sc.All != 0) {
		c.NonTrivial()
	}
	if err1 != nil {
		return vt.Violate("conversation fails when sessions are saved and loaded", "%v", err1)
	}
	if d := traceDiff(w0.trace, w1.trace); d != "" {
		return vt.Violate("conversation differs when sessions are saved and loaded", "%s", d)
	}
	return nil
}

func genSaved(profs ...string) func(t *rapidT) SavedCase {
	return func(t *rapidT) SavedCase {
		sc := SavedCase{World: genWorld(t, profs...), All: vt.Uni(t, 8, "all")}
		switch vt.Uni(t, 3, "when") {
		case 0:
			sc.When = ^uint64(0)
		case 1:
			sc.When = vt.Bits(t, "bits") & vt.Bits(t, "bits2")
		}
		return sc
	}
}

// StateCase is a state made of chosen parts.
type StateCase struct {
	Seed uint64 `json:"seed"`
}

// stateParts checks that every part of a state survives, whatever it is.
func stateParts(c *vt.Ctx, sc StateCase) error {
	r := vt.NewDRBG(sc.Seed, 19)
	num := func() uint32 {
		switch r.Intn(4) {
		case 0:
			return 0
		case 1:
			return edgeIDs[r.Intn(len(edgeIDs))]
		case 2:
			return uint32(r.Intn(300))
		}
		return uint32(r.Uint64())
	}
	key := func() *curve.KeyPair { return must(curve.GenerateKeyPair(r)) }
	st := session.NewState(&v1.SessionStructure{
		SessionVersion: 3, LocalIdentityPublic: key().PublicKey().Bytes(), RemoteIdentityPublic: key().PublicKey().Bytes(),
		RootKey: r.Bytes(32),
	})
	base := key().PublicKey().Bytes()
	prev, lreg, rreg := num(), num(), num()
	sk, sck, si := key(), r.Bytes(32), num()
	if !trySet(st, "SetAliceBaseKey", base) || !trySet(st, "SetPreviousCounter", prev) || !trySet(st, "SetLocalRegistrationID", lreg) ||
		!trySet(st, "SetRemoteRegistrationID", rreg) || !trySet(st, "SetSenderChain", sk, must(ratchet.NewChainKey(sck, si))) {
		return nil
	}
	type kept struct {
		n    uint32
		c, m []byte
		iv   []byte
	}
	type rc struct {
		k  curve.PublicKey
		ck []byte
		i  uint32
		ks []kept
	}
	var rcs []rc
	for i := r.Intn(6); i > 0; i-- {
		x := rc{k: key().PublicKey(), ck: r.Bytes(32), i: num()}
		if !trySet(st, "AddReceiverChain", x.k, must(ratchet.NewChainKey(x.ck, x.i))) {
			return nil
		}
		used := map[uint32]bool{}
		for j := r.Intn(5); j > 0; j-- {
			k := kept{num(), r.Bytes(32), r.Bytes(32), r.Bytes(16)}
			if used[k.n] {
				continue
			}
			used[k.n] = true
			if !trySet(st, "SetMessageKeys", x.k, must(ratchet.NewMessageKeys(k.c, k.m, k.iv, k.n))) {
				return nil
			}
			x.ks = append(x.ks, k)
		}
		rcs = append(rcs, x)
	}
	var otpk *prekey.ID
	spkID := prekey.ID(num())
	pend := r.Intn(3)
	pb := key().PublicKey()
	if pend > 0 {
		if pend == 2 {
			id := prekey.ID(num() | 1)
			otpk = &id
		}
		var o any
		if otpk != nil {
			o = otpk
		}
		if !trySet(st, "SetUnacknowledgedPreKeyMessage", o, spkID, pb) {
			return nil
		}
	}
	raw := append([]byte(nil), st.Bytes()...)
	rec, err := session.NewRecordBytes(append([]byte(nil), raw...))
	if err != nil {
		return vt.Violate("cannot load a serialized session", "%v", err)
	}
	l := rec.State()
	if l == nil || !bytes.Equal(l.Bytes(), raw) {
		return vt.Violate("a session changes when it is serialized and loaded", "%x", raw)
	}
	var x, y v1.SessionStructure
	if proto.Unmarshal(raw, &x) != nil || proto.Unmarshal(l.Bytes(), &y) != nil || !proto.Equal(&x, &y) {
		return vt.Violate("a session changes when it is serialized and loaded", "%x", raw)
	}
	bad := func(what string, got, want any) error {
		return vt.Violate("a session changes when it is serialized and loaded", "%s: %v, want %v", what, got, want)
	}
	if !bytes.Equal(l.AliceBaseKey(), base) {
		return bad("base key", l.AliceBaseKey(), base)
	}
	if n, ok := try1[uint32](l, "PreviousCounter"); ok && n != prev {
		return bad("previous counter", n, prev)
	}
	if n, ok := try1[uint32](l, "LocalRegistrationID"); ok && n != lreg {
		return bad("registration ID", n, lreg)
	}
	if y.GetRemoteRegistrationId() != rreg {
		return bad("remote registration ID", y.GetRemoteRegistrationId(), rreg)
	}
	if k, err := l.SenderRatchetPrivateKey(); err != nil || !bytes.Equal(k.Bytes(), sk.PrivateKey().Bytes()) {
		return bad("private ratchet key", err, nil)
	}
	if k, err := l.SenderRatchetKey(); err != nil || !bytes.Equal(k.Bytes(), sk.PublicKey().Bytes()) {
		return bad("ratchet key", err, nil)
	}
	if k, err := l.SenderChainKey(); err != nil || !bytes.Equal(k.Key(), sck) || k.Index() != si {
		return bad("sender chain", k, si)
	}
	for _, x := range rcs {
		k, ok, err := l.ReceiverChainKey(x.k)
		if err != nil || !ok || !bytes.Equal(k.Key(), x.ck) || k.Index() != x.i {
			return bad("receiver chain", k, x.i)
		}
		for _, m := range x.ks {
			mk, ok, there := tryFound[ratchet.MessageKeys](l, "MessageKeys", x.k, m.n)
			if !there {
				break
			}
			if !ok || !bytes.Equal(mk.CipherKey(), m.c) || !bytes.Equal(mk.MACKey(), m.m) || !bytes.Equal(mk.IV(), m.iv) || mk.Counter() != m.n {
				return bad("kept message keys", mk, m.n)
			}
			if _, again, _ := tryFound[ratchet.MessageKeys](l, "MessageKeys", x.k, m.n); again {
				return bad("kept message keys after their use", "still there", "gone")
			}
		}
	}
	type pendingItems interface {
		PreKeyID() *prekey.ID
		SignedPreKeyID() prekey.ID
		BaseKey() curve.PublicKey
	}
	if items, ok := try1[pendingItems](l, "UnacknowledgedPreKeyMessages"); ok {
		if v := reflect.ValueOf(items); v.Kind() == reflect.Pointer && v.IsNil() {
			items = nil
		}
		if (items != nil) != (pend > 0) {
			return bad("pending pre-key", items, pend > 0)
		}
		if items != nil {
			if items.SignedPreKeyID() != spkID || !bytes.Equal(items.BaseKey().Bytes(), pb.Bytes()) {
				return bad("pending pre-key", items.SignedPreKeyID(), spkID)
			}
			if (items.PreKeyID() == nil) != (otpk == nil) || otpk != nil && *items.PreKeyID() != *otpk {
				return bad("pending one-time pre-key", items.PreKeyID(), otpk)
			}
		}
	}
	if len(rcs) > 0 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	const twin = "the same history with the same randomness is run with sessions kept in memory, and with users saving all their session states as bytes (and their pre-keys and identities) and going on with what was loaded, at random points or at every step; messages, plaintexts and refusals must be the same; non-trivial: at least 3 decrypted and something saved and loaded"
	vt.Register("C19", "histories", 2400, 80000, twin, genSaved("mixed", "pong", "cross", "skips", "trust", "again"),
		func(c *vt.Ctx, sc SavedCase) error {
			return savedTwin(c, sc, func(w *world) *worldErr { return w.redeliver(4) })
		})
	vt.Register("C19", "sessions", 120, 4000, twin+"; beyond the number of archived sessions", genSaved("fresh"),
		func(c *vt.Ctx, sc SavedCase) error { return savedTwin(c, sc, nil) })
	vt.Register("C19", "positions", 120, 4000, twin+"; with gaps around the windows",
		func(t *rapidT) SavedCase {
			return SavedCase{World: genDeep(t), All: vt.Uni(t, 4, "all"), When: vt.Bits(t, "when")}
		},
		func(c *vt.Ctx, sc SavedCase) error { return savedTwin(c, sc, nil) })
	vt.Register("C19", "states", 6000, 200000, "session states put together from random and extreme parts (positions, IDs, up to 5 receiver chains with kept keys, pending pre-key) are serialized and loaded; each part must come back; non-trivial: at least one receiver chain",
		func(t *rapidT) StateCase { return StateCase{vt.Bits(t, "seed")} }, stateParts)
}
