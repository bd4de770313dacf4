package ref

import (
	"crypto/sha512"
	"math/big"
)

// Curve arithmetic with math/big: RFC 7748, RFC 8032 and XEdDSA.

var (
	one  = big.NewInt(1)
	two  = big.NewInt(2)
	P    = new(big.Int).Sub(new(big.Int).Lsh(one, 255), big.NewInt(19))
	L, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	edD  = func() *big.Int {
		d := new(big.Int).ModInverse(big.NewInt(121666), P)
		d.Mul(d, big.NewInt(-121665))
		return d.Mod(d, P)
	}()
	sqrtM1 = new(big.Int).Exp(two, new(big.Int).Rsh(new(big.Int).Sub(P, one), 2), P)
	baseY  = func() *big.Int {
		y := new(big.Int).ModInverse(big.NewInt(5), P)
		y.Mul(y, big.NewInt(4))
		return y.Mod(y, P)
	}()
)

func le(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func toLE(x *big.Int) []byte {
	var out [32]byte
	b := x.Bytes()
	for i := range b {
		out[i] = b[len(b)-1-i]
	}
	return out[:]
}

// Clamp clamps a private key.
func Clamp(k []byte) []byte {
	c := append([]byte{}, k...)
	c[0] &= 248
	c[31] &= 127
	c[31] |= 64
	return c
}

// X25519 is the function of RFC 7748 (no check for zero).
func X25519(k, u []byte) []byte {
	scalar := le(Clamp(k))
	ub := append([]byte{}, u...)
	ub[31] &= 127
	x1 := new(big.Int).Mod(le(ub), P)
	x2, z2 := big.NewInt(1), big.NewInt(0)
	x3, z3 := new(big.Int).Set(x1), big.NewInt(1)
	swap := uint(0)
	mul := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, P) }
	add := func(a, b *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, P) }
	sub := func(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, P) }
	a24 := big.NewInt(121665)
	for t := 254; t >= 0; t-- {
		kt := scalar.Bit(t)
		if swap^kt == 1 {
			x2, x3 = x3, x2
			z2, z3 = z3, z2
		}
		swap = kt
		A := add(x2, z2)
		AA := mul(A, A)
		B := sub(x2, z2)
		BB := mul(B, B)
		E := sub(AA, BB)
		C := add(x3, z3)
		D := sub(x3, z3)
		DA := mul(D, A)
		CB := mul(C, B)
		s := add(DA, CB)
		x3 = mul(s, s)
		d := sub(DA, CB)
		z3 = mul(x1, mul(d, d))
		x2 = mul(AA, BB)
		z2 = mul(E, add(AA, mul(a24, E)))
	}
	if swap == 1 {
		x2, x3 = x3, x2
		z2, z3 = z3, z2
	}
	inv := new(big.Int).Exp(z2, new(big.Int).Sub(P, two), P)
	return toLE(mul(x2, inv))
}

// point is an affine Edwards point (slow but plain).
type point struct{ x, y, z, t *big.Int } // extended coordinates

func fmul(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, P) }
func fadd(a, b *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, P) }
func fsub(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, P) }

func identityPoint() *point {
	return &point{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
}

func (p *point) add(q *point) *point {
	a := fmul(fsub(p.y, p.x), fsub(q.y, q.x))
	b := fmul(fadd(p.y, p.x), fadd(q.y, q.x))
	c := fmul(fmul(p.t, fmul(two, edD)), q.t)
	d := fmul(fmul(p.z, two), q.z)
	e, f, g, h := fsub(b, a), fsub(d, c), fadd(d, c), fadd(b, a)
	return &point{fmul(e, f), fmul(g, h), fmul(f, g), fmul(e, h)}
}

func (p *point) mul(k *big.Int) *point {
	r := identityPoint()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

func (p *point) affine() (*big.Int, *big.Int) {
	inv := new(big.Int).ModInverse(p.z, P)
	return fmul(p.x, inv), fmul(p.y, inv)
}

func (p *point) encode() []byte {
	x, y := p.affine()
	b := toLE(y)
	b[31] |= byte(x.Bit(0)) << 7
	return b
}

func recoverX(y *big.Int, sign uint) (*big.Int, bool) {
	yy := fmul(y, y)
	u := fsub(yy, one)
	v := fadd(fmul(edD, yy), one)
	xx := fmul(u, new(big.Int).ModInverse(v, P))
	x := new(big.Int).Exp(xx, new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(3)), 3), P)
	if fmul(x, x).Cmp(xx) != 0 {
		x = fmul(x, sqrtM1)
	}
	if fmul(x, x).Cmp(xx) != 0 {
		return nil, false
	}
	if x.Sign() == 0 && sign == 1 {
		return nil, false
	}
	if x.Bit(0) != sign {
		x = fsub(P, x)
		x.Mod(x, P)
	}
	return x, true
}

func pointFromXY(x, y *big.Int) *point {
	return &point{x, y, big.NewInt(1), fmul(x, y)}
}

var basePoint = func() *point {
	x, _ := recoverX(baseY, 0)
	return pointFromXY(x, baseY)
}()

// edKey is XEdDSA's calculate_key_pair: the Edwards public key with sign bit 0
// and the matching scalar.
func edKey(priv []byte) (A []byte, a *big.Int) {
	k := new(big.Int).Mod(le(Clamp(priv)), L)
	E := basePoint.mul(le(Clamp(priv)))
	enc := E.encode()
	if enc[31]>>7 == 1 {
		k = new(big.Int).Mod(new(big.Int).Neg(k), L)
	}
	enc[31] &= 127
	return enc, k
}

// Sign is XEdDSA as specified (sign bit of the public key always 0).
func Sign(priv, msg, z []byte) []byte {
	A, a := edKey(priv)
	prefix := make([]byte, 32)
	for i := range prefix {
		prefix[i] = 0xff
	}
	prefix[0] = 0xfe
	hr := sha512.New()
	hr.Write(prefix)
	hr.Write(toLE(a))
	hr.Write(msg)
	hr.Write(z)
	r := new(big.Int).Mod(le(hr.Sum(nil)), L)
	R := basePoint.mul(r).encode()
	hh := sha512.New()
	hh.Write(R)
	hh.Write(A)
	hh.Write(msg)
	h := new(big.Int).Mod(le(hh.Sum(nil)), L)
	s := new(big.Int).Mul(h, a)
	s.Add(s, r)
	s.Mod(s, L)
	return append(R, toLE(s)...)
}

// SignClassic signs as the original implementation does: with the key as it
// is, and the sign bit of its Edwards form in the top bit of the signature.
func SignClassic(priv, msg, z []byte) []byte {
	k := new(big.Int).Mod(le(Clamp(priv)), L)
	A := basePoint.mul(le(Clamp(priv))).encode()
	hr := sha512.New()
	prefix := make([]byte, 32)
	for i := range prefix {
		prefix[i] = 0xff
	}
	prefix[0] = 0xfe
	hr.Write(prefix)
	hr.Write(Clamp(priv))
	hr.Write(msg)
	hr.Write(z)
	r := new(big.Int).Mod(le(hr.Sum(nil)), L)
	R := basePoint.mul(r).encode()
	hh := sha512.New()
	hh.Write(R)
	hh.Write(A)
	hh.Write(msg)
	h := new(big.Int).Mod(le(hh.Sum(nil)), L)
	s := new(big.Int).Mul(h, k)
	s.Add(s, r)
	s.Mod(s, L)
	sig := append(R, toLE(s)...)
	sig[63] |= A[31] & 0x80
	return sig
}

// Verify verifies an XEdDSA signature in either convention. pub is the
// Montgomery public key (32 bytes).
func Verify(pub, msg, sig []byte) bool {
	if len(sig) != 64 || len(pub) != 32 {
		return false
	}
	ub := append([]byte{}, pub...)
	ub[31] &= 127
	u := new(big.Int).Mod(le(ub), P)
	den := fadd(u, one)
	if den.Sign() == 0 {
		return false
	}
	y := fmul(fsub(u, one), new(big.Int).ModInverse(den, P))
	sign := uint(sig[63] >> 7)
	x, ok := recoverX(y, sign)
	if !ok {
		return false
	}
	A := pointFromXY(x, y)
	sb := append([]byte{}, sig[32:]...)
	sb[31] &= 127
	s := le(sb)
	if s.Cmp(L) >= 0 {
		return false
	}
	hh := sha512.New()
	hh.Write(sig[:32])
	hh.Write(A.encode())
	hh.Write(msg)
	h := new(big.Int).Mod(le(hh.Sum(nil)), L)
	negA := pointFromXY(fsub(P, x), y)
	negA.x.Mod(negA.x, P)
	negA.t = fmul(negA.x, y)
	R := basePoint.mul(s).add(negA.mul(h))
	enc := R.encode()
	for i := range enc {
		if enc[i] != sig[i] {
			return false
		}
	}
	return true
}
