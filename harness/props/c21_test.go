package props

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"math/big"

	"pgregory.net/rapid"

	libaes "github.com/RTann/libsignal-go/protocol/crypto/aes"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"

	"verif/ref"
	"verif/vt"
)

// KeyCase selects keys and a message.
type KeyCase struct {
	Seed uint64 `json:"seed"`
	Kind int    `json:"kind"` // how the private key is chosen
	Len  int    `json:"len"`
	M    int    `json:"m"`
	Big  int    `json:"big"` // 1: any magnitude
}

func (k KeyCase) length() int {
	if k.Big == 1 {
		return vt.Size(vt.NewDRBG(k.Seed, 99), 1<<17)
	}
	return k.Len
}

func genKeyCase(t *rapid.T) KeyCase {
	c := KeyCase{Seed: vt.Bits(t, "seed"), Kind: vt.Uni(t, 12, "kind"), M: vt.Uni(t, 64, "m")}
	c.Len = vt.Pick(t, "len", 0, 1, 2, 31, 32, 33, 63, 64, 65, 111, 112, 127, 128, 129, 255, 256, 1000)
	if vt.Uni(t, 3, "any") == 0 {
		c.Len = vt.Uni(t, 400, "len2")
	}
	c.Big = vt.Uni(t, 20, "big")
	return c
}

// secret makes 32 bytes of a private key.
func secret(r *vt.DRBG, kind int) []byte {
	b := r.Bytes(32)
	switch kind {
	case 0:
		b = make([]byte, 32)
	case 1:
		b = bytes.Repeat([]byte{0xff}, 32)
	case 2:
		b[0] |= 7
	case 3:
		b[31] |= 0x80
	case 4:
		b[31] &= 0x3f
	case 5:
		b = append([]byte{byte(r.Intn(256))}, make([]byte, 31)...)
	}
	return b
}

// split cuts a message into parts.
func split(r *vt.DRBG, m []byte) [][]byte {
	var parts [][]byte
	switch r.Intn(4) {
	case 0:
		return [][]byte{m}
	case 1:
		parts = append(parts, nil)
	}
	for len(m) > 0 && r.Intn(6) > 0 {
		n := r.Intn(len(m) + 1)
		parts = append(parts, m[:n])
		m = m[n:]
	}
	return append(parts, m)
}

// sameKey tells whether two u-coordinates are the same point.
func sameKey(a, b []byte) bool {
	f := func(x []byte) *big.Int {
		y := append([]byte(nil), x...)
		y[31] &= 0x7f
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			y[i], y[j] = y[j], y[i]
		}
		return new(big.Int).Mod(new(big.Int).SetBytes(y), ref.P)
	}
	return f(a).Cmp(f(b)) == 0
}

var groupOrder, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func init() {
	vt.Register("C21", "signatures", 3200, 80000,
		"random and edge private keys, messages of 0-1000 bytes, now and then up to 128 KB, in random parts; signatures judged by the library and an independent verifier, nonces compared between related signatures; then messages, keys and signatures changed, with the independent verifier as the oracle; non-trivial: all",
		genKeyCase, checkSignature)
	vt.Register("C21", "every-bit", 64, 2000,
		"every bit of a signature and of a short message is flipped; non-trivial: all",
		genKeyCase, checkSignatureBits)
	vt.Register("C21", "identities", 1600, 40000,
		"signatures of alternate identities, made by the library and by the independent implementation, verified for the right and for wrong pairs, and used in place of other signatures; non-trivial: all",
		genKeyCase, checkAlternate)
	vt.Register("C22", "agreement", 3200, 80000,
		"random and edge private keys, public keys of others, random and degenerate points, also not in canonical form; compared with an independent X25519; non-trivial: agreement was computed",
		genKeyCase, checkAgreement)
	vt.Register("C22", "encoding", 16000, 400000,
		"keys encoded, changed, cut and read back; non-trivial: all",
		genKeyCase, checkKeyEncoding)
	vt.Register("C23", "encryption", 400000, 10000000,
		"keys of 0-40 bytes, IVs of 0-20, plaintexts of 0-1000 bytes and now and then up to 128 KB (often near multiples of powers of two), also ones which look like padding; compared with an independent CBC and padding; non-trivial: encryption succeeded",
		genKeyCase, checkCBC)
	vt.Register("C23", "padding", 600000, 20000000,
		"ciphertexts of chosen last blocks (every padding length, with wrong bytes at every place), of random bytes, and of wrong lengths, judged by an independent check of the padding; non-trivial: the ciphertext is a whole number of blocks",
		genKeyCase, checkPadding)
}

func checkSignature(c *vt.Ctx, k KeyCase) error {
	c.NonTrivial()
	r := vt.NewDRBG(k.Seed, 1)
	raw := secret(r, k.Kind)
	priv, err := curve.NewPrivateKey(append([]byte(nil), raw...))
	if err != nil {
		return vt.Violate("private key refused", "%x: %v", raw, err)
	}
	pb := priv.PublicKey()
	msg := r.Bytes(k.length())
	z := r.Bytes(64)
	sig, err := priv.Sign(bytes.NewReader(append([]byte(nil), z...)), split(r, msg)...)
	if err != nil {
		return vt.Violate("cannot sign", "%v", err)
	}
	if len(sig) != 64 || !ref.Verify(pb.KeyBytes(), msg, sig) {
		return vt.Violate("signature not valid for an independent verifier", "%x", sig)
	}
	// The nonce: of the message, the randomness and the key.
	again := func(p curve.PrivateKey, m, z []byte) []byte {
		return must(p.Sign(bytes.NewReader(append([]byte(nil), z...)), split(r, m)...))
	}
	if s := again(priv, msg, z); !bytes.Equal(s, sig) {
		return vt.Violate("signature depends on more than key, message and randomness", "%x %x", s, sig)
	}
	vt.SetGlobal(bytes.NewReader(append([]byte(nil), z...)))
	if s, err := priv.Sign(nil, msg); err != nil || !bytes.Equal(s, sig) {
		return vt.Violate("without a source, a signature is not made with crypto/rand", "%x %x %v", s, sig, err)
	}
	vt.SetGlobal(vt.NewDRBG(k.Seed, 98))
	m3, z3 := append([]byte(nil), msg...), append([]byte(nil), z...)
	if len(m3) > 0 {
		j := r.Intn(len(m3) * 8)
		m3[j/8] ^= 1 << (j % 8)
	} else {
		m3 = []byte{0}
	}
	j := r.Intn(512)
	z3[j/8] ^= 1 << (j % 8)
	o := must(curve.NewPrivateKey(secret(r, 6)))
	for what, s := range map[string][]byte{"another message": again(priv, m3, z), "other randomness": again(priv, msg, z3), "another key": again(o, msg, z)} {
		if bytes.Equal(s[:32], sig[:32]) {
			return vt.Violate("nonce of a signature used again with "+what, "%x", sig[:32])
		}
	}
	if _, err := priv.Sign(bytes.NewReader(z[:r.Intn(64)]), msg); err == nil {
		return vt.Violate("signed without enough randomness", "")
	}
	if s, err := priv.Sign(&oneByte{bytes.NewReader(z)}, msg); err != nil || !bytes.Equal(s, sig) {
		return vt.Violate("signature differs with short reads of the randomness", "%x %v", s, err)
	}
	if s := ref.Sign(raw, msg, z); true {
		if ok, err := pb.VerifySignature(s, msg); err != nil || !ok {
			return vt.Violate("signature of another implementation not accepted", "%v %v", ok, err)
		}
	}
	verify := func(p curve.PublicKey, s []byte, m []byte) (bool, error) {
		return p.VerifySignature(append([]byte(nil), s...), split(r, append([]byte(nil), m...))...)
	}
	if ok, err := verify(pb, sig, msg); err != nil || !ok {
		return vt.Violate("genuine signature not accepted", "%v %v", ok, err)
	}
	if ok, err := verify(pb, ref.SignClassic(raw, msg, z), msg); err != nil || !ok {
		return vt.Violate("signature of another implementation not accepted", "%v %v", ok, err)
	}
	if s2, err := priv.Sign(nil, msg); err != nil {
		return vt.Violate("cannot sign with the default randomness", "%v", err)
	} else if ok, err := verify(pb, s2, msg); err != nil || !ok {
		return vt.Violate("signature made with the default randomness not accepted", "%v", err)
	}
	// Something changed: the independent verifier knows.
	for i := 0; i < 6; i++ {
		p2, m2, s2, what := pb, append([]byte(nil), msg...), append([]byte(nil), sig...), ""
		mustFail := true
		switch (k.M + i*11) % 14 {
		case 0:
			m2 = append(m2, byte(r.Intn(3)))
			what = "message extended"
		case 1:
			if len(m2) == 0 {
				continue
			}
			m2 = m2[:r.Intn(len(m2))]
			what = "message cut"
		case 2:
			if len(m2) == 0 {
				continue
			}
			j := r.Intn(len(m2) * 8)
			m2[j/8] ^= 1 << (j % 8)
			what = "message changed"
		case 3:
			m2 = r.Bytes(1 + r.Intn(40))
			what = "other message"
			mustFail = !bytes.Equal(m2, msg)
		case 4:
			p2 = pub(randomKey(r))
			what = "other key"
		case 5:
			b := pb.Bytes()
			j := r.Intn(256)
			b[1+j/8] ^= 1 << (j % 8)
			p2 = pub(b)
			mustFail = !sameKey(b[1:], pb.KeyBytes())
			what = "key changed"
		case 6, 7:
			j := r.Intn(512)
			s2[j/8] ^= 1 << (j % 8)
			what = "signature changed"
		case 8:
			j := 500 + r.Intn(12)
			s2[j/8] ^= 1 << (j % 8)
			what = "top of the signature changed"
		case 9: // s + L
			s := append([]byte(nil), s2[32:]...)
			sign := s[31] & 0x80
			s[31] &= 0x7f
			x := new(big.Int).Add(fromLE(s), groupOrder)
			b := toLE32(x)
			if b == nil || b[31]&0x80 != 0 {
				continue
			}
			copy(s2[32:], b)
			s2[63] |= sign
			what = "signature with another representative"
		case 10:
			copy(s2[:32], r.Bytes(32))
			what = "other R"
		case 11:
			n := []int{0, 1, 32, 63}[r.Intn(4)]
			s2 = s2[:n]
			what = "signature cut"
		case 12:
			s2 = append(s2, byte(r.Intn(2)))
			what = "signature extended"
		case 13:
			s2 = make([]byte, 64)
			if r.Intn(2) == 0 { // the identity as R, and s = 0
				s2[0] = 1
			}
			if r.Intn(2) == 0 {
				p2 = pub(ref.Typed(lowOrder[r.Intn(len(lowOrder))]))
				mustFail = false // the scheme accepts this for degenerate keys
			}
			what = "trivial signature"
		}
		ok, err := verify(p2, s2, m2)
		if ok && err != nil {
			return vt.Violate("signature accepted together with an error", "%s: %v", what, err)
		}
		if ok && mustFail {
			return vt.Violate("accepted: "+what, "key %x, message %x, signature %x", p2.Bytes(), m2, s2)
		}
		if len(s2) == 64 && !sameKey(p2.KeyBytes(), minusOne) {
			if want := ref.Verify(p2.KeyBytes(), m2, s2); ok != want {
				return vt.Violate("verifiers disagree: "+what, "library %v, independent %v: key %x, message %x, signature %x", ok, want, p2.Bytes(), m2, s2)
			}
		}
		c.Class(what)
	}
	return nil
}

// minusOne is a u-coordinate without a point on the Edwards curve.
var minusOne = append([]byte{0xec}, append(bytes.Repeat([]byte{0xff}, 30), 0x7f)...)

func fromLE(b []byte) *big.Int {
	x := make([]byte, len(b))
	for i := range b {
		x[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(x)
}

func toLE32(x *big.Int) []byte {
	b := x.Bytes()
	if len(b) > 32 {
		return nil
	}
	out := make([]byte, 32)
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

func checkSignatureBits(c *vt.Ctx, k KeyCase) error {
	c.NonTrivial()
	r := vt.NewDRBG(k.Seed, 2)
	priv := must(curve.NewPrivateKey(secret(r, k.Kind)))
	msg := r.Bytes(1 + k.Len%24)
	sig, err := priv.Sign(r, msg)
	if err != nil {
		return vt.Violate("cannot sign", "%v", err)
	}
	for i := 0; i < 512; i++ {
		s := append([]byte(nil), sig...)
		s[i/8] ^= 1 << (i % 8)
		if ok, _ := priv.PublicKey().VerifySignature(s, msg); ok {
			return vt.Violate("changed signature accepted", "bit %d of %x", i, sig)
		}
	}
	for i := 0; i < len(msg)*8; i++ {
		m := append([]byte(nil), msg...)
		m[i/8] ^= 1 << (i % 8)
		if ok, _ := priv.PublicKey().VerifySignature(sig, m); ok {
			return vt.Violate("changed message accepted", "bit %d of %x", i, msg)
		}
	}
	for i := 0; i < 64; i++ {
		if ok, _ := priv.PublicKey().VerifySignature(sig[:i], msg); ok {
			return vt.Violate("cut signature accepted", "%d bytes", i)
		}
	}
	return nil
}

func checkAlternate(c *vt.Ctx, k KeyCase) error {
	c.NonTrivial()
	r := vt.NewDRBG(k.Seed, 3)
	mk := func(kind int) (identity.KeyPair, []byte) {
		raw := secret(r, kind)
		p := must(identity.GenerateKeyPair(bytes.NewReader(raw)))
		return p, raw
	}
	a, araw := mk(k.Kind)
	b, braw := mk(6)
	x, _ := mk(6)
	prefix := append(bytes.Repeat([]byte{0xff}, 32), "Signal_PNI_Signature"...)
	z := r.Bytes(64)
	sig, err := a.SignAlternateIdentity(bytes.NewReader(append([]byte(nil), z...)), b.IdentityKey())
	if err != nil {
		return vt.Violate("cannot sign an alternate identity", "%v", err)
	}
	body := append(append([]byte(nil), prefix...), b.IdentityKey().Bytes()...)
	_ = araw
	if !ref.Verify(a.PublicKey().KeyBytes(), body, sig) {
		return vt.Violate("signature of an alternate identity not valid for an independent verifier", "%x", sig)
	}
	accept := func(what string, ok bool, err error) error {
		if err != nil || !ok {
			return vt.Violate(what+" not accepted", "%v", err)
		}
		return nil
	}
	refuse := func(what string, ok bool, _ error) error {
		if ok {
			return vt.Violate(what+" accepted", "keys %x %x", a.IdentityKey().Bytes(), b.IdentityKey().Bytes())
		}
		return nil
	}
	ver := func(p identity.KeyPair, s []byte, o identity.KeyPair) (bool, error) {
		return p.IdentityKey().VerifyAlternateIdentity(s, o.IdentityKey())
	}
	first := func(errs ...error) error {
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		return nil
	}
	t := func(f func(string, bool, error) error, what string, p identity.KeyPair, s []byte, o identity.KeyPair) error {
		ok, err := ver(p, s, o)
		return f(what, ok, err)
	}
	plain := must(a.PrivateKey().Sign(r, b.IdentityKey().Bytes()))
	short := must(a.PrivateKey().Sign(r, []byte("Signal_PNI_Signature"), b.IdentityKey().Bytes()))
	noType := must(a.PrivateKey().Sign(r, prefix, b.PublicKey().KeyBytes()))
	v1, _ := a.PublicKey().VerifySignature(sig, b.IdentityKey().Bytes())
	v2, _ := a.PublicKey().VerifySignature(sig, []byte("Signal_PNI_Signature"), b.IdentityKey().Bytes())
	i := r.Intn(512)
	bad := append([]byte(nil), sig...)
	bad[i/8] ^= 1 << (i % 8)
	return first(
		t(accept, "genuine signature of an alternate identity", a, sig, b),
		t(accept, "signature of an alternate identity by another implementation", b, ref.Sign(braw, append(append([]byte(nil), prefix...), a.IdentityKey().Bytes()...), r.Bytes(64)), a),
		t(refuse, "signature of an alternate identity in the wrong order", b, sig, a),
		t(refuse, "signature of an alternate identity for another identity", a, sig, x),
		t(refuse, "signature of an alternate identity of another identity", x, sig, b),
		t(refuse, "signature of an alternate identity for oneself", a, sig, a),
		t(refuse, "plain signature as one of an alternate identity", a, plain, b),
		t(refuse, "signature without the whole prefix as one of an alternate identity", a, short, b),
		t(refuse, "signature of the untyped key as one of an alternate identity", a, noType, b),
		t(refuse, "changed signature of an alternate identity", a, bad, b),
		t(refuse, "empty signature of an alternate identity", a, nil, b),
		refuse("signature of an alternate identity as a plain one", v1, nil),
		refuse("signature of an alternate identity as one without the whole prefix", v2, nil),
	)
}

func checkAgreement(c *vt.Ctx, k KeyCase) error {
	r := vt.NewDRBG(k.Seed, 4)
	raw := secret(r, k.Kind)
	priv, err := curve.NewPrivateKey(append([]byte(nil), raw...))
	if err != nil {
		return vt.Violate("private key refused", "%x: %v", raw, err)
	}
	base := make([]byte, 32)
	base[0] = 9
	if want := ref.X25519(raw, base); !bytes.Equal(priv.PublicKey().KeyBytes(), want) {
		return vt.Violate("public key does not correspond to the private key", "%x: %x, want %x", raw, priv.PublicKey().KeyBytes(), want)
	}
	var u []byte
	switch k.M % 8 {
	case 0, 1, 2:
		o := secret(r, r.Intn(12))
		op := must(curve.NewPrivateKey(o))
		s1, err1 := priv.Agreement(op.PublicKey())
		s2, err2 := op.Agreement(priv.PublicKey())
		if err1 != nil || err2 != nil || !bytes.Equal(s1, s2) {
			return vt.Violate("agreement is not symmetric", "%x %x: %x %v, %x %v", raw, o, s1, err1, s2, err2)
		}
		u = op.PublicKey().KeyBytes()
	case 3:
		u = append([]byte(nil), lowOrder[r.Intn(len(lowOrder))]...)
		if r.Intn(3) == 0 {
			u[31] |= 0x80
		}
	case 4: // near p: not in canonical form
		u = append([]byte{byte(0xe0 + r.Intn(32))}, append(bytes.Repeat([]byte{0xff}, 30), 0x7f|byte(r.Intn(2)<<7))...)
	case 5:
		u = r.Bytes(32)
		u[31] |= 0x80
	default:
		u = r.Bytes(32)
	}
	want := ref.X25519(raw, u)
	zero := bytes.Equal(want, make([]byte, 32))
	for i, f := range []func() ([]byte, error){
		func() ([]byte, error) { return priv.Agreement(pub(ref.Typed(u))) },
		func() ([]byte, error) {
			return must(curve.NewKeyPair(priv.Bytes(), priv.PublicKey().Bytes())).Agreement(pub(ref.Typed(u)))
		},
	} {
		got, err := f()
		if zero {
			c.Class("degenerate key")
			if err == nil {
				return vt.Violate("agreement with a degenerate key not refused", "%d: %x: %x", i, u, got)
			}
			continue
		}
		c.NonTrivial()
		if err != nil {
			return vt.Violate("agreement refused", "%d: %x with %x: %v", i, raw, u, err)
		}
		if !bytes.Equal(got, want) {
			return vt.Violate("agreement differs from X25519", "%d: %x with %x: %x, want %x", i, raw, u, got, want)
		}
	}
	return nil
}

func checkKeyEncoding(c *vt.Ctx, k KeyCase) error {
	c.NonTrivial()
	r := vt.NewDRBG(k.Seed, 5)
	raw := secret(r, k.Kind)
	src := vt.NewDRBG(k.Seed, 6)
	src.Record = true
	var rd interface {
		Read([]byte) (int, error)
	} = src
	if r.Intn(2) == 0 {
		rd = &oneByte{src}
	}
	pair, err := curve.GenerateKeyPair(rd)
	if err != nil {
		return vt.Violate("cannot generate a key", "%v", err)
	}
	if len(src.Out) != 32 || !bytes.Equal(pair.PublicKey().KeyBytes(), ref.Public(src.Out)) {
		return vt.Violate("generated key is not the one made of the randomness", "%d bytes drawn: %x", len(src.Out), pair.PublicKey().KeyBytes())
	}
	vt.SetGlobal(bytes.NewReader(src.Out))
	if p, err := curve.GenerateKeyPair(nil); err != nil || !bytes.Equal(p.PublicKey().KeyBytes(), ref.Public(src.Out)) {
		return vt.Violate("without a source, a key is not made with crypto/rand", "%v", err)
	}
	vt.SetGlobal(vt.NewDRBG(k.Seed, 97))
	if n := r.Intn(32); true {
		if p, err := curve.GenerateKeyPair(bytes.NewReader(raw[:n])); err == nil {
			return vt.Violate("key generated without enough randomness", "%d bytes: %x", n, p.PublicKey().Bytes())
		}
		if _, err := curve.GeneratePrivateKey(bytes.NewReader(raw[:n])); err == nil {
			return vt.Violate("key generated without enough randomness", "%d bytes", n)
		}
		if _, err := identity.GenerateKeyPair(bytes.NewReader(raw[:n])); err == nil {
			return vt.Violate("identity generated without enough randomness", "%d bytes", n)
		}
	}
	ip, err := identity.GenerateKeyPair(bytes.NewReader(raw))
	if err != nil || !bytes.Equal(ip.IdentityKey().Bytes(), ref.Typed(ref.Public(raw))) || !bytes.Equal(ip.PublicKey().Bytes(), ip.IdentityKey().Bytes()) ||
		!bytes.Equal(ip.PrivateKey().PublicKey().Bytes(), ip.IdentityKey().Bytes()) {
		return vt.Violate("identity is not the one made of the randomness", "%v", err)
	}
	// Private keys.
	priv, err := curve.NewPrivateKey(raw)
	if err != nil {
		return vt.Violate("private key refused", "%v", err)
	}
	p2, err := curve.NewPrivateKey(priv.Bytes())
	if err != nil || len(priv.Bytes()) != 32 || !bytes.Equal(p2.Bytes(), priv.Bytes()) || !p2.PublicKey().Equal(priv.PublicKey()) {
		return vt.Violate("private key differs after encoding and reading", "%x: %x", raw, priv.Bytes())
	}
	other := pub(randomKey(r))
	if x, err := p2.Agreement(other); err != nil || !bytes.Equal(x, must(priv.Agreement(other))) {
		return vt.Violate("private key acts differently after encoding and reading", "%x", raw)
	}
	for _, n := range []int{0, 1, 31, 33, 64, r.Intn(100)} {
		if n != 32 {
			if _, err := curve.NewPrivateKey(r.Bytes(n)); err == nil {
				return vt.Violate("private key of a wrong length accepted", "%d", n)
			}
		}
	}
	// Public keys.
	u := r.Bytes(32)
	if r.Intn(2) == 0 {
		u = priv.PublicKey().KeyBytes()
	}
	enc := ref.Typed(u)
	pk, err := curve.NewPublicKey(append([]byte(nil), enc...))
	if err != nil || !bytes.Equal(pk.Bytes(), enc) || !bytes.Equal(pk.KeyBytes(), u) {
		return vt.Violate("public key differs after reading", "%x: %v", enc, err)
	}
	ik, err := identity.NewKey(append([]byte(nil), enc...))
	if err != nil || !bytes.Equal(ik.Bytes(), enc) || !ik.PublicKey().Equal(pk) {
		return vt.Violate("identity key differs after reading", "%x: %v", enc, err)
	}
	same := must(curve.NewPublicKey(pk.Bytes()))
	if !same.Equal(pk) || !pk.Equal(same) || !must(identity.NewKey(enc)).Equal(ik) {
		return vt.Violate("equal keys not equal", "%x", enc)
	}
	i := r.Intn(256)
	diff := append([]byte(nil), enc...)
	diff[1+i/8] ^= 1 << (i % 8)
	if pub(diff).Equal(pk) || pk.Equal(pub(diff)) || must(identity.NewKey(diff)).Equal(ik) {
		return vt.Violate("different keys equal", "bit %d of %x", i, enc)
	}
	bad := append([]byte(nil), enc...)
	bad[0] = byte(r.Intn(256))
	if bad[0] != 5 {
		if _, err := curve.NewPublicKey(bad); err == nil {
			return vt.Violate("key of another type accepted", "%x", bad)
		}
		if _, err := identity.NewKey(bad); err == nil {
			return vt.Violate("identity key of another type accepted", "%x", bad)
		}
		if _, err := curve.NewKeyPair(priv.Bytes(), bad); err == nil {
			return vt.Violate("key of another type accepted in a pair", "%x", bad)
		}
	}
	n := r.Intn(33)
	if _, err := curve.NewPublicKey(enc[:n]); err == nil {
		return vt.Violate("short public key accepted", "%d bytes", n)
	}
	if _, err := identity.NewKey(enc[:n]); err == nil {
		return vt.Violate("short identity key accepted", "%d bytes", n)
	}
	// Pairs, also through the records of pre-keys.
	kp, err := curve.NewKeyPair(priv.Bytes(), priv.PublicKey().Bytes())
	if err != nil || !bytes.Equal(kp.PrivateKey().Bytes(), priv.Bytes()) || !kp.PublicKey().Equal(priv.PublicKey()) {
		return vt.Violate("pair differs after encoding and reading", "%v", err)
	}
	id := prekey.ID(r.Uint64())
	q1, err1 := prekey.NewPreKey(id, kp).KeyPair()
	q2, err2 := prekey.NewSigned(id, r.Uint64(), kp, r.Bytes(64)).KeyPair()
	for j, q := range []*curve.KeyPair{q1, q2} {
		if err1 != nil || err2 != nil || !bytes.Equal(q.PrivateKey().Bytes(), priv.Bytes()) || !q.PublicKey().Equal(priv.PublicKey()) {
			return vt.Violate("pair differs after being kept as a pre-key", "%d: %v %v", j, err1, err2)
		}
	}
	return nil
}

// oneByte delivers one byte at a time.
type oneByte struct {
	r interface {
		Read([]byte) (int, error)
	}
}

func (o *oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

func checkCBC(c *vt.Ctx, k KeyCase) error {
	r := vt.NewDRBG(k.Seed, 7)
	kl, il := 32, 16
	switch r.Intn(6) {
	case 0:
		kl = r.Intn(41)
	case 1:
		kl = []int{16, 24, 31, 33, 0, 15, 17}[r.Intn(7)]
	case 2:
		il = r.Intn(21)
	}
	key, iv, pt := r.Bytes(kl), r.Bytes(il), r.Bytes(k.length())
	if k.Kind < 4 {
		for i := range pt {
			pt[i] = byte(r.Intn(17))
		}
	}
	if k.Kind == 5 && k.Len == 0 {
		pt = nil
	}
	good := (kl == 16 || kl == 24 || kl == 32) && il == 16
	ct, err := libaes.CBCEncrypt(key, iv, append([]byte(nil), pt...))
	if !good {
		c.Class("wrong lengths")
		if err == nil {
			return vt.Violate("encrypted with a key or IV of a wrong length", "%d %d", kl, il)
		}
		if x, err := libaes.CBCDecrypt(key, iv, r.Bytes(16*(1+r.Intn(4)))); err == nil {
			return vt.Violate("decrypted with a key or IV of a wrong length", "%d %d: %x", kl, il, x)
		}
		return nil
	}
	c.NonTrivial()
	if err != nil {
		return vt.Violate("encryption failed", "%v", err)
	}
	if want := ref.CBCEncrypt(key, iv, pt); !bytes.Equal(ct, want) {
		return vt.Violate("ciphertext differs from AES-CBC", "key %x iv %x plaintext %x: %x, want %x", key, iv, pt, ct, want)
	}
	back, err := libaes.CBCDecrypt(key, iv, append([]byte(nil), ct...))
	if err != nil || !bytes.Equal(back, pt) {
		return vt.Violate("decryption does not invert encryption", "key %x iv %x plaintext %x: %x %v", key, iv, pt, back, err)
	}
	return nil
}

func checkPadding(c *vt.Ctx, k KeyCase) error {
	r := vt.NewDRBG(k.Seed, 8)
	key, iv := r.Bytes(32), r.Bytes(16)
	var ct []byte
	switch k.M % 8 {
	case 0:
		ct = r.Bytes(r.Intn(70))
	case 1:
		ct = r.Bytes(16 * r.Intn(5))
	default:
		pt := r.Bytes(16 * (1 + r.Intn(4)))
		if k.Big == 1 {
			pt = r.Bytes(16 * (1 + k.length()/16))
		}
		n := r.Intn(19)
		if r.Intn(10) == 0 {
			n = r.Intn(256)
		}
		for i := 0; i < n && i < len(pt); i++ {
			pt[len(pt)-1-i] = byte(n)
		}
		pt[len(pt)-1] = byte(n)
		if r.Intn(2) == 0 && n > 0 { // one wrong byte
			i := r.Intn(min(n, len(pt)))
			pt[len(pt)-1-i] ^= byte(1 + r.Intn(255))
		}
		ct = make([]byte, len(pt))
		cipher.NewCBCEncrypter(must(aes.NewCipher(key)), iv).CryptBlocks(ct, pt)
	}
	if len(ct) > 0 && len(ct)%16 == 0 {
		c.NonTrivial()
	}
	want, werr := ref.CBCDecrypt(key, iv, ct)
	got, err := libaes.CBCDecrypt(key, iv, append([]byte(nil), ct...))
	switch {
	case (err == nil) != (werr == nil):
		return vt.Violate(map[bool]string{true: "wrongly padded ciphertext accepted", false: "rightly padded ciphertext refused"}[err == nil], "key %x iv %x ciphertext %x: %v, want %v", key, iv, ct, err, werr)
	case err != nil && got != nil:
		return vt.Violate("plaintext together with an error", "%x", got)
	case err == nil && !bytes.Equal(got, want):
		return vt.Violate("wrong plaintext", "%x, want %x", got, want)
	}
	if werr != nil {
		c.Class("refused")
	} else {
		c.Class("accepted")
	}
	return nil
}
