package props

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/ref"
	"verif/vt"
)

// WireCase is a message with given fields.
type WireCase struct {
	Seed uint64 `json:"seed"`
	A    uint32 `json:"a"` // counter, registration ID, chain ID
	B    uint32 `json:"b"` // previous counter, signed pre-key ID, iteration
	C    int64  `json:"c"` // one-time pre-key ID, -1: none
	Len  int    `json:"len"`
}

func genWire(t *rapid.T) WireCase {
	num := func(l string) uint32 {
		if vt.Uni(t, 2, l+"-edge") == 0 {
			return vt.Pick(t, l, uint32(0), 1, 127, 128, 255, 16383, 16384, 0x7fffffff, 0x80000000, 0xffffffff)
		}
		return uint32(vt.Bits(t, l)) >> uint(vt.Uni(t, 32, l+"-shift"))
	}
	w := WireCase{Seed: vt.Bits(t, "seed"), A: num("a"), B: num("b"), C: int64(num("c"))}
	if vt.Uni(t, 3, "none") == 0 {
		w.C = -1
	}
	w.Len = vt.Pick(t, "len", 0, 1, 15, 16, 17, 32, 100, 127, 128, 160, 255, 1000, 16384, 70000)
	if vt.Uni(t, 2, "any") == 0 {
		w.Len = vt.Uni(t, 400, "len2")
	}
	return w
}

func init() {
	rule := "; serialized bytes compared field by field with an independent encoder, parsed back, parsed from other encodings of the same fields (any order, unknown fields, repeated fields), and refused when cut short, of another version, or with a missing, mistyped or wrong key or group ID; non-trivial: every case"
	vt.Register("C10", "signal", 6000, 200000, "plain messages with random and edge values of all fields"+rule, genWire, wireSignal)
	vt.Register("C10", "pre-key", 5000, 150000, "establishing messages with random and edge values of all fields"+rule, genWire, wirePreKey)
	vt.Register("C10", "sender-key", 2500, 80000, "group messages with random and edge values of all fields"+rule, genWire, wireSenderKey)
	vt.Register("C10", "distribution", 5000, 150000, "distribution messages with random and edge values of all fields"+rule, genWire, wireDistribution)
	vt.Register("C10", "plaintext", 4000, 100000, "plaintext messages: the identifier 0xC0 and the content, taken as they are, and refused when empty or with another first byte; non-trivial: every case", genWire, wirePlaintext)
	worldCheck("C10", "histories", 1200, 40000, histRule+"every message parses back; non-trivial: at least 3 decrypted", func(w *world) bool { return w.nRecv >= 3 }, "mixed", "cross", "pong")
}

func fb(n int, b []byte) ref.Field { return ref.Field{Num: n, Bytes: b} }
func fu(n int, v uint64) ref.Field { return ref.Field{Num: n, IsInt: true, Uint: v} }

// exactly compares the fields of an encoding with the expected ones.
func exactly(body []byte, want []ref.Field) error {
	got, ok := ref.ParseFields(body)
	if !ok {
		return vt.Violate("not a protobuf encoding", "%x", body)
	}
	if len(got) != len(want) {
		return vt.Violate("other fields than documented", "%d fields, want %d: %x", len(got), len(want), body)
	}
	for _, f := range want {
		g, ok := ref.Get(got, f.Num)
		if !ok {
			return vt.Violate("field missing", "field %d in %x", f.Num, body)
		}
		if g.IsInt != f.IsInt || g.Uint != f.Uint || !bytes.Equal(g.Bytes, f.Bytes) {
			return vt.Violate("field with another value", "field %d: %x %d, want %x %d", f.Num, g.Bytes, g.Uint, f.Bytes, f.Uint)
		}
	}
	return nil
}

// foreign encodes fields as another implementation might.
func foreign(r *vt.DRBG, fs []ref.Field) []byte {
	fs = append([]ref.Field(nil), fs...)
	if r.Intn(3) == 0 { // the last of several values counts
		f := fs[r.Intn(len(fs))]
		if f.IsInt {
			f.Uint = uint64(uint32(r.Uint64()))
		} else {
			f.Bytes = r.Bytes(r.Intn(50))
		}
		fs = append([]ref.Field{f}, fs...)
		n := len(fs) - 1
		i, j := 1+r.Intn(n), 1+r.Intn(n)
		fs[i], fs[j] = fs[j], fs[i]
	} else {
		for i := len(fs) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			fs[i], fs[j] = fs[j], fs[i]
		}
	}
	if r.Intn(2) == 0 {
		u := fu(9+r.Intn(1000), r.Uint64())
		if r.Intn(2) == 0 {
			u = fb(9+r.Intn(1000), r.Bytes(r.Intn(20)))
		}
		i := r.Intn(len(fs) + 1)
		fs = append(fs[:i:i], append([]ref.Field{u}, fs[i:]...)...)
	}
	return ref.Encode(fs)
}

type named struct {
	what string
	b    []byte
}

// broken lists encodings which have to be rejected. Numbers of key fields and,
// if not 0, of the group ID are given.
func broken(r *vt.DRBG, fs []ref.Field, keys []int, group int) []named {
	var out []named
	add := func(what string, b []byte) { out = append(out, named{what, b}) }
	with := func(n int, f *ref.Field) []byte {
		var gs []ref.Field
		for _, g := range fs {
			switch {
			case g.Num != n:
				gs = append(gs, g)
			case f != nil:
				gs = append(gs, *f)
			}
		}
		return ref.Encode(gs)
	}
	get := func(n int) []byte { b, _ := ref.GetBytes(fs, n); return b }
	for _, k := range keys {
		key := get(k)
		add(fmt.Sprintf("field %d missing", k), with(k, nil))
		f := fb(k, nil)
		add(fmt.Sprintf("field %d empty", k), with(k, &f))
		f1 := fb(k, key[:1+r.Intn(len(key)-1)])
		add(fmt.Sprintf("field %d too short", k), with(k, &f1))
		f2 := fu(k, r.Uint64())
		add(fmt.Sprintf("field %d mistyped", k), with(k, &f2))
		if len(key) == 33 {
			x := append([]byte(nil), key...)
			x[0] = byte(6 + r.Intn(250))
			f3 := fb(k, x)
			add(fmt.Sprintf("field %d of another type of key", k), with(k, &f3))
			f4 := fb(k, key[1:])
			add(fmt.Sprintf("field %d without the type of key", k), with(k, &f4))
		} else {
			f3 := fb(k, append(append([]byte(nil), key...), r.Bytes(1+r.Intn(5))...))
			add(fmt.Sprintf("field %d too long", k), with(k, &f3))
		}
	}
	if group != 0 {
		id := get(group)
		add("group ID missing", with(group, nil))
		f := fb(group, id[:r.Intn(36)])
		if len(f.Bytes) == 32 {
			f.Bytes = f.Bytes[:31]
		}
		add("group ID too short", with(group, &f))
		x := append([]byte(nil), id...)
		x[r.Intn(8)] = "ghijxyz-!"[r.Intn(9)]
		f1 := fb(group, x)
		add("group ID with a wrong digit", with(group, &f1))
		f2 := fu(group, r.Uint64())
		add("group ID mistyped", with(group, &f2))
		f3 := fb(group, append(append([]byte(nil), id...), '0'))
		add("group ID too long", with(group, &f3))
		y := append([]byte(nil), id...)
		y[[]int{8, 13, 18, 23}[r.Intn(4)]] = '0'
		f4 := fb(group, y)
		add("group ID without a dash", with(group, &f4))
	}
	return out
}

// versions lists version bytes which have to be rejected.
func versions(r *vt.DRBG) []byte {
	var vs []byte
	for i := 0; i < 16; i++ {
		if i != 3 {
			vs = append(vs, byte(i<<4|r.Intn(16)), byte(i<<4|3))
		}
	}
	return vs
}

func idKey(r *vt.DRBG) identity.Key { return must(identity.NewKey(ref.Typed(r.Bytes(32)))) }

func wireSignal(c *vt.Ctx, wc WireCase) error {
	c.NonTrivial()
	r := vt.NewDRBG(wc.Seed)
	macKey, rat, ct := r.Bytes(32), ref.Typed(r.Bytes(32)), r.Bytes(wc.Len)
	from, to := idKey(r), idKey(r)
	x, err := message.NewSignal(message.SignalConfig{Version: 3, MACKey: macKey, SenderRatchetKey: pub(rat), PreviousCounter: wc.B, Counter: wc.A, Ciphertext: append([]byte{}, ct...), SenderIdentityKey: from, ReceiverIdentityKey: to})
	if err != nil {
		return vt.Violate("cannot make a message", "%v", err)
	}
	raw := append([]byte(nil), x.Bytes()...)
	want := []ref.Field{fb(1, rat), fu(2, uint64(wc.A)), fu(3, uint64(wc.B)), fb(4, ct)}
	check := func(m message.Ciphertext, raw []byte, what string) error {
		s, ok := m.(*message.Signal)
		if !ok || s.Type() != 2 || s.Version() != 3 {
			return vt.Violate(what+": wrong type or version", "%T", m)
		}
		if !bytes.Equal(s.Bytes(), raw) {
			return vt.Violate(what+": other bytes", "%x, want %x", s.Bytes(), raw)
		}
		if s.Counter() != wc.A || !bytes.Equal(s.Message(), ct) || !bytes.Equal(s.SenderRatchetKey().Bytes(), rat) {
			return vt.Violate(what+": other fields", "counter %d, ratchet key %x, ciphertext %x", s.Counter(), s.SenderRatchetKey().Bytes(), s.Message())
		}
		for i, v := range []struct {
			k    []byte
			a, b identity.Key
			want bool
		}{{macKey, from, to, true}, {macKey, to, from, false}, {r.Bytes(32), from, to, false}, {macKey, from, idKey(r), false}, {macKey, idKey(r), to, false}} {
			if got, err := s.VerifyMAC(v.k, v.a, v.b); err != nil || got != v.want {
				return vt.Violate(what+": MAC wrongly judged", "%d: %v %v", i, got, err)
			}
		}
		if got, err := s.VerifyMAC(macKey[:r.Intn(32)], from, to); err == nil || got {
			return vt.Violate(what+": MAC key of wrong size accepted", "%v", got)
		}
		return nil
	}
	if len(raw) < 9 || raw[0] != 0x33 {
		return vt.Violate("wrong version byte", "%x", raw[:min(len(raw), 1)])
	}
	body := raw[:len(raw)-8]
	if err := exactly(body[1:], want); err != nil {
		return err
	}
	mac := func(b []byte) []byte { return ref.HMAC(macKey, from.Bytes(), to.Bytes(), b)[:8] }
	if !bytes.Equal(raw[len(raw)-8:], mac(body)) {
		return vt.Violate("wrong MAC", "%x", raw)
	}
	if err := check(x, raw, "made"); err != nil {
		return err
	}
	for i, in := range [][]byte{raw, append([]byte{0x30 | byte(r.Intn(16))}, foreign(r, want)...)} {
		if i > 0 {
			in = append(in, mac(in)...)
		}
		m, err := message.NewSignalFromBytes(append([]byte(nil), in...))
		if err != nil {
			return vt.Violate("well-formed message rejected", "%x: %v", in, err)
		}
		if err := check(m, in, []string{"parsed", "parsed foreign"}[i]); err != nil {
			return err
		}
	}
	reject := func(what string, in []byte) error {
		if m, err := message.NewSignalFromBytes(in); err == nil {
			return vt.Violate("accepted: "+what, "%x: %v", in, m)
		}
		return nil
	}
	for n := 0; n < 9; n++ {
		if err := reject("too short", append([]byte(nil), raw[:n]...)); err != nil {
			return err
		}
	}
	for _, v := range versions(r) {
		if err := reject("other version", append([]byte{v}, raw[1:]...)); err != nil {
			return err
		}
	}
	for _, x := range broken(r, want, []int{1}, 0) {
		what, b := x.what, x.b
		in := append([]byte{0x33}, b...)
		if err := reject(what, append(in, mac(in)...)); err != nil {
			return err
		}
	}
	return nil
}

func wirePreKey(c *vt.Ctx, wc WireCase) error {
	c.NonTrivial()
	r := vt.NewDRBG(wc.Seed)
	from, to := idKey(r), idKey(r)
	base := ref.Typed(r.Bytes(32))
	inner := must(message.NewSignal(message.SignalConfig{Version: 3, MACKey: r.Bytes(32), SenderRatchetKey: pub(ref.Typed(r.Bytes(32))), Counter: uint32(r.Uint64()), Ciphertext: r.Bytes(wc.Len), SenderIdentityKey: from, ReceiverIdentityKey: to})).(*message.Signal)
	cfg := message.PreKeyConfig{Version: 3, RegistrationID: wc.A, SignedPreKeyID: prekey.ID(wc.B), BaseKey: pub(base), IdentityKey: from, Message: inner}
	want := []ref.Field{fb(2, base), fb(3, from.Bytes()), fb(4, append([]byte(nil), inner.Bytes()...)), fu(5, uint64(wc.A)), fu(6, uint64(wc.B))}
	if wc.C >= 0 {
		id := prekey.ID(wc.C)
		cfg.PreKeyID = &id
		want = append(want, fu(1, uint64(wc.C)))
	}
	x, err := message.NewPreKey(cfg)
	if err != nil {
		return vt.Violate("cannot make a message", "%v", err)
	}
	raw := append([]byte(nil), x.Bytes()...)
	check := func(m message.Ciphertext, raw []byte, what string) error {
		p, ok := m.(*message.PreKey)
		if !ok || p.Type() != 3 || p.Version() != 3 {
			return vt.Violate(what+": wrong type or version", "%T", m)
		}
		if !bytes.Equal(p.Bytes(), raw) {
			return vt.Violate(what+": other bytes", "%x, want %x", p.Bytes(), raw)
		}
		if p.RegistrationID() != wc.A || uint32(p.SignedPreKeyID()) != wc.B || !bytes.Equal(p.BaseKey().Bytes(), base) || !bytes.Equal(p.IdentityKey().Bytes(), from.Bytes()) || !bytes.Equal(p.Message().Bytes(), inner.Bytes()) || p.Message().Counter() != inner.Counter() {
			return vt.Violate(what+": other fields", "registration %d, signed pre-key %d", p.RegistrationID(), p.SignedPreKeyID())
		}
		if (p.PreKeyID() == nil) != (wc.C < 0) || wc.C >= 0 && uint32(*p.PreKeyID()) != uint32(wc.C) {
			return vt.Violate(what+": other one-time pre-key ID", "%v, want %d", p.PreKeyID(), wc.C)
		}
		return nil
	}
	if len(raw) < 1 || raw[0] != 0x33 {
		return vt.Violate("wrong version byte", "%x", raw[:min(len(raw), 1)])
	}
	if err := exactly(raw[1:], want); err != nil {
		return err
	}
	if err := check(x, raw, "made"); err != nil {
		return err
	}
	for i, in := range [][]byte{raw, append([]byte{0x30 | byte(r.Intn(16))}, foreign(r, want)...)} {
		m, err := message.NewPreKeyFromBytes(append([]byte(nil), in...))
		if err != nil {
			return vt.Violate("well-formed message rejected", "%x: %v", in, err)
		}
		if err := check(m, in, []string{"parsed", "parsed foreign"}[i]); err != nil {
			return err
		}
	}
	reject := func(what string, in []byte) error {
		if m, err := message.NewPreKeyFromBytes(in); err == nil {
			return vt.Violate("accepted: "+what, "%x: %v", in, m)
		}
		return nil
	}
	for n := 0; n < 2; n++ {
		if err := reject("too short", append([]byte(nil), raw[:n]...)); err != nil {
			return err
		}
	}
	for _, v := range versions(r) {
		if err := reject("other version", append([]byte{v}, raw[1:]...)); err != nil {
			return err
		}
	}
	for _, x := range broken(r, want, []int{2, 3}, 0) {
		what, b := x.what, x.b
		if err := reject(what, append([]byte{0x33}, b...)); err != nil {
			return err
		}
	}
	// The message inside.
	alter := func(b []byte) []byte {
		fs := append([]ref.Field(nil), want...)
		for i := range fs {
			if fs[i].Num == 4 {
				fs[i].Bytes = b
			}
		}
		return append([]byte{0x33}, ref.Encode(fs)...)
	}
	in := append([]byte(nil), inner.Bytes()...)
	in[0] = 0x43
	for _, x := range []named{{"message inside of another version", in}, {"message inside missing", nil}, {"message inside too short", inner.Bytes()[:r.Intn(9)]}} {
		what, b := x.what, x.b
		if err := reject(what, alter(b)); err != nil {
			return err
		}
	}
	return nil
}

func randomDist(r *vt.DRBG) distribution.ID {
	b := r.Bytes(16)
	switch r.Intn(10) {
	case 0:
		b = make([]byte, 16)
	case 1:
		b = bytes.Repeat([]byte{0xff}, 16)
	}
	return must(distribution.Parse(uuidText(b)))
}

func uuidText(b []byte) string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}

func wireSenderKey(c *vt.Ctx, wc WireCase) error {
	c.NonTrivial()
	r := vt.NewDRBG(wc.Seed)
	d := randomDist(r)
	ct := r.Bytes(wc.Len)
	key := must(curve.GenerateKeyPair(r))
	other := must(curve.GenerateKeyPair(r))
	x, err := message.NewSenderKey(r, message.SenderKeyConfig{Version: 3, DistID: d, ChainID: wc.A, Iteration: wc.B, Ciphertext: append([]byte{}, ct...), SignatureKey: key.PrivateKey()})
	if err != nil {
		return vt.Violate("cannot make a message", "%v", err)
	}
	raw := append([]byte(nil), x.Bytes()...)
	want := []ref.Field{fb(1, []byte(d.String())), fu(2, uint64(wc.A)), fu(3, uint64(wc.B)), fb(4, ct)}
	check := func(s *message.SenderKey, raw []byte, what string) error {
		if s.Type() != 7 || s.Version() != 3 {
			return vt.Violate(what+": wrong type or version", "%d %d", s.Type(), s.Version())
		}
		if !bytes.Equal(s.Bytes(), raw) {
			return vt.Violate(what+": other bytes", "%x, want %x", s.Bytes(), raw)
		}
		if s.DistributionID() != d || s.ChainID() != wc.A || s.Iteration() != wc.B || !bytes.Equal(s.Message(), ct) {
			return vt.Violate(what+": other fields", "%v %d %d %x", s.DistributionID(), s.ChainID(), s.Iteration(), s.Message())
		}
		if ok, err := s.VerifySignature(key.PublicKey()); err != nil || !ok {
			return vt.Violate(what+": own signature not verified", "%v", err)
		}
		if ok, _ := s.VerifySignature(other.PublicKey()); ok {
			return vt.Violate(what+": signature verified for another key", "")
		}
		return nil
	}
	if len(raw) < 65 || raw[0] != 0x33 {
		return vt.Violate("wrong version byte", "%x", raw[:min(len(raw), 1)])
	}
	body := raw[:len(raw)-64]
	if err := exactly(body[1:], want); err != nil {
		return err
	}
	if !ref.Verify(key.PublicKey().KeyBytes(), body, raw[len(raw)-64:]) {
		return vt.Violate("signature not over the message", "%x", raw)
	}
	if err := check(x, raw, "made"); err != nil {
		return err
	}
	sign := func(b []byte) []byte { return must(key.PrivateKey().Sign(r, b)) }
	for i, in := range [][]byte{raw, append([]byte{0x30 | byte(r.Intn(16))}, foreign(r, want)...)} {
		if i > 0 {
			in = append(in, sign(in)...)
		}
		m, err := message.NewSenderKeyFromBytes(append([]byte(nil), in...))
		if err != nil {
			return vt.Violate("well-formed message rejected", "%x: %v", in, err)
		}
		if err := check(m, in, []string{"parsed", "parsed foreign"}[i]); err != nil {
			return err
		}
	}
	reject := func(what string, in []byte) error {
		if m, err := message.NewSenderKeyFromBytes(in); err == nil {
			return vt.Violate("accepted: "+what, "%x: %v", in, m)
		}
		return nil
	}
	for n := 0; n < 65; n++ {
		if err := reject("too short", append([]byte(nil), raw[:n]...)); err != nil {
			return err
		}
	}
	for _, v := range versions(r) {
		if err := reject("other version", append([]byte{v}, raw[1:]...)); err != nil {
			return err
		}
	}
	for _, x := range broken(r, want, nil, 1) {
		what, b := x.what, x.b
		if err := reject(what, append(append([]byte{0x33}, b...), r.Bytes(64)...)); err != nil {
			return err
		}
	}
	return nil
}

func wireDistribution(c *vt.Ctx, wc WireCase) error {
	c.NonTrivial()
	r := vt.NewDRBG(wc.Seed)
	d := randomDist(r)
	ck, sk := r.Bytes(32), ref.Typed(r.Bytes(32))
	x, err := message.NewSenderKeyDistribution(message.SenderKeyDistConfig{Version: 3, DistID: d, ChainID: wc.A, Iteration: wc.B, ChainKey: append([]byte(nil), ck...), SigningKey: pub(sk)})
	if err != nil {
		return vt.Violate("cannot make a message", "%v", err)
	}
	raw := append([]byte(nil), x.Bytes()...)
	want := []ref.Field{fb(1, []byte(d.String())), fu(2, uint64(wc.A)), fu(3, uint64(wc.B)), fb(4, ck), fb(5, sk)}
	check := func(s *message.SenderKeyDistribution, raw []byte, what string) error {
		if s.Version() != 3 {
			return vt.Violate(what+": wrong version", "%d", s.Version())
		}
		if !bytes.Equal(s.Bytes(), raw) {
			return vt.Violate(what+": other bytes", "%x, want %x", s.Bytes(), raw)
		}
		if s.DistributionID() != d || s.ChainID() != wc.A || s.Iteration() != wc.B || !bytes.Equal(s.ChainKey(), ck) || !bytes.Equal(s.SigningKey().Bytes(), sk) {
			return vt.Violate(what+": other fields", "%v %d %d %x %x", s.DistributionID(), s.ChainID(), s.Iteration(), s.ChainKey(), s.SigningKey().Bytes())
		}
		return nil
	}
	if len(raw) < 1 || raw[0] != 0x33 {
		return vt.Violate("wrong version byte", "%x", raw[:min(len(raw), 1)])
	}
	if err := exactly(raw[1:], want); err != nil {
		return err
	}
	if err := check(x, raw, "made"); err != nil {
		return err
	}
	for i, in := range [][]byte{raw, append([]byte{0x30 | byte(r.Intn(16))}, foreign(r, want)...)} {
		m, err := message.NewSenderKeyDistributionFromBytes(append([]byte(nil), in...))
		if err != nil {
			return vt.Violate("well-formed message rejected", "%x: %v", in, err)
		}
		if err := check(m, in, []string{"parsed", "parsed foreign"}[i]); err != nil {
			return err
		}
	}
	reject := func(what string, in []byte) error {
		if m, err := message.NewSenderKeyDistributionFromBytes(in); err == nil {
			return vt.Violate("accepted: "+what, "%x: %v", in, m)
		}
		return nil
	}
	for n := 0; n < 65; n++ {
		if err := reject("too short", append([]byte(nil), raw[:n]...)); err != nil {
			return err
		}
	}
	for _, v := range versions(r) {
		if err := reject("other version", append([]byte{v}, raw[1:]...)); err != nil {
			return err
		}
	}
	for _, x := range broken(r, want, []int{4, 5}, 1) {
		what, b := x.what, x.b
		if err := reject(what, append([]byte{0x33}, b...)); err != nil {
			return err
		}
	}
	return nil
}

// wirePlaintext checks messages which are an identifier and a content.
func wirePlaintext(c *vt.Ctx, wc WireCase) error {
	r := vt.NewDRBG(wc.Seed, 14)
	c.NonTrivial()
	content := r.Bytes(wc.Len)
	raw := append([]byte{0xC0}, content...)
	m, err := message.NewPlaintextFromBytes(append([]byte(nil), raw...))
	if err != nil {
		return vt.Violate("plaintext message refused", "%d bytes: %v", len(raw), err)
	}
	if !bytes.Equal(m.Bytes(), raw) || !bytes.Equal(m.Message(), content) || m.Type() != message.PlaintextType {
		return vt.Violate("plaintext message differs after parsing", "%d bytes: %x and %x, type %v", len(raw), m.Bytes(), m.Message(), m.Type())
	}
	if _, err := message.NewPlaintextFromBytes(nil); err == nil {
		return vt.Violate("empty plaintext message accepted", "")
	}
	for _, b := range []byte{0xC0 ^ 1<<r.Intn(8), byte(wc.A), byte(r.Intn(256)), 0x33} {
		raw[0] = b
		if m, err := message.NewPlaintextFromBytes(append([]byte(nil), raw...)); (err == nil) != (b == 0xC0) || err != nil && m != nil {
			return vt.Violate("plaintext message with another first byte", "%#x: %v", b, err)
		}
	}
	return nil
}
