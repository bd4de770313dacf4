// Package ref is an independent implementation of the Signal protocols the
// library implements, written from the published specifications:
// X3DH, Double Ratchet, XEdDSA, sender keys and numeric fingerprints.
//
// It shares no code with the library. It builds on Go's standard library, and
// on math/big for curve arithmetic.
package ref

import (
	"crypto/aes"
	"crypto/ecdh"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"errors"
)

// HMAC is HMAC-SHA256.
func HMAC(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// HKDF is HKDF-SHA256 (RFC 5869).
func HKDF(ikm, salt []byte, info string, n int) []byte {
	if salt == nil {
		salt = make([]byte, 32)
	}
	prk := HMAC(salt, ikm)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		t = HMAC(prk, t, []byte(info), []byte{i})
		out = append(out, t...)
	}
	return out[:n]
}

// DH is X25519. Keys are 32 bytes, without type byte.
func DH(priv, pub []byte) ([]byte, error) {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	p, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		return nil, err
	}
	return k.ECDH(p)
}

// Public is the X25519 public key of a private key.
func Public(priv []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	return k.PublicKey().Bytes()
}

// Typed puts the type byte before a public key.
func Typed(pub []byte) []byte { return append([]byte{5}, pub...) }

// CBCEncrypt is AES-CBC with PKCS #7 padding.
func CBCEncrypt(key, iv, pt []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	n := 16 - len(pt)%16
	in := append([]byte{}, pt...)
	for i := 0; i < n; i++ {
		in = append(in, byte(n))
	}
	prev := append([]byte{}, iv...)
	out := make([]byte, 0, len(in))
	for i := 0; i < len(in); i += 16 {
		var x [16]byte
		for j := range x {
			x[j] = in[i+j] ^ prev[j]
		}
		b.Encrypt(x[:], x[:])
		out = append(out, x[:]...)
		prev = x[:]
	}
	return out
}

// CBCRaw decrypts AES-CBC without removing padding.
func CBCRaw(key, iv, ct []byte) []byte {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	prev := iv
	out := make([]byte, 0, len(ct))
	for i := 0; i < len(ct); i += 16 {
		var x [16]byte
		b.Decrypt(x[:], ct[i:i+16])
		for j := range x {
			x[j] ^= prev[j]
		}
		out = append(out, x[:]...)
		prev = ct[i : i+16]
	}
	return out
}

// ErrPadding is returned for malformed ciphertexts.
var ErrPadding = errors.New("ref: bad ciphertext or padding")

// CBCDecrypt inverts CBCEncrypt, strictly.
func CBCDecrypt(key, iv, ct []byte) ([]byte, error) {
	if len(ct) == 0 || len(ct)%16 != 0 {
		return nil, ErrPadding
	}
	out := CBCRaw(key, iv, ct)
	n := int(out[len(out)-1])
	if n < 1 || n > 16 {
		return nil, ErrPadding
	}
	for i := 0; i < n; i++ {
		if out[len(out)-1-i] != byte(n) {
			return nil, ErrPadding
		}
	}
	return out[:len(out)-n], nil
}

// Fingerprint is one half of a safety number (version 0).
func Fingerprint(iterations int, id, typedKey []byte) []byte {
	h := append([]byte{0, 0}, typedKey...)
	h = append(h, id...)
	for i := 0; i < iterations; i++ {
		s := sha512.Sum512(append(append([]byte{}, h...), typedKey...))
		h = s[:]
	}
	return h
}
