package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"unsafe"

	"pgregory.net/rapid"

	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"

	"verif/ref"
	"verif/vt"
)

// FPCase is a pair of users who compare fingerprints.
type FPCase struct {
	Seed    uint64 `json:"seed"`
	Iter    int    `json:"iter"`
	Version uint32 `json:"version"`
	Len     [2]int `json:"len"`
	M       int    `json:"m"`
}

func init() {
	vt.Register("C24", "fingerprints", 4000, 80000,
		"random keys, identifiers of 0-40 bytes, iteration counts mostly of 2-40 and sometimes up to 260,000 and beyond the limits, versions 0-2 and large; digits and codes compared between both users, with an independent computation, and with fingerprints in which one thing was changed; non-trivial: the iteration count is within the limits",
		func(t *rapid.T) FPCase {
			c := FPCase{Seed: vt.Bits(t, "seed"), Iter: 2 + vt.Uni(t, 39, "iter"), M: vt.Uni(t, 1<<20, "m")}
			switch vt.Uni(t, 12, "itk") {
			case 0:
				c.Iter = vt.Pick(t, "it", 0, 1, 2, 3, 1000001, 1<<31, 1<<32-1)
			case 1:
				c.Iter = vt.Pick(t, "it", 1024, 5199, 5200, 5201)
			case 2:
				if vt.Uni(t, 8, "big") == 0 { // of every size
					n := 6 + vt.Uni(t, 12, "bits")
					c.Iter = vt.Pick(t, "near", 1<<n, 1<<n+2, 1<<n-1, 1<<n+vt.Uni(t, 1<<n, "it"))
				}
			}
			c.Version = vt.Pick(t, "ver", uint32(0), 1, 2, 1, 2, 1<<31, 1<<32-1)
			c.Len = [2]int{vt.Uni(t, 41, "l0"), vt.Uni(t, 41, "l1")}
			return c
		}, checkFingerprint)
	vt.Register("C24", "limits", 8, 64,
		"the largest iteration counts allowed and the smallest refused; non-trivial: all",
		func(t *rapid.T) FPCase {
			return FPCase{Seed: vt.Bits(t, "seed"), Iter: vt.Pick(t, "it", 1000000, 1000001, 999999, 1000000), Version: 2, Len: [2]int{3, 4}, M: 1}
		}, checkFingerprint)
	vt.Register("C24", "codes", 24000, 600000,
		"codes changed in a bit, cut, extended, with missing, repeated or wrongly sized parts, and random bytes, compared with an independent reading of them; non-trivial: the code can be read",
		func(t *rapid.T) FPCase { return FPCase{Seed: vt.Bits(t, "seed"), M: vt.Uni(t, 1<<20, "m")} }, checkCodes)
}

// scannableOf finds the scannable code of a fingerprint, for which there is no
// exported method; nil if it cannot be found.
func scannableOf(f *fingerprint.Fingerprint) *fingerprint.Scannable {
	v := reflect.ValueOf(f).Elem()
	if v.Kind() != reflect.Struct {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		fl := v.Field(i)
		if fl.Type() == reflect.TypeOf((*fingerprint.Scannable)(nil)) && fl.CanAddr() {
			return *(**fingerprint.Scannable)(unsafe.Pointer(fl.UnsafeAddr()))
		}
	}
	return nil
}

func digits(fp []byte) string {
	var b strings.Builder
	for i := 0; i < 30; i += 5 {
		var x uint64
		for _, c := range fp[i : i+5] {
			x = x<<8 | uint64(c)
		}
		fmt.Fprintf(&b, "%05d", x%100000)
	}
	return b.String()
}

func code(version uint32, local, remote []byte) []byte {
	b := ref.PU(nil, 1, uint64(version))
	b = ref.PB(b, 2, ref.PB(nil, 1, local[:32]))
	return ref.PB(b, 3, ref.PB(nil, 1, remote[:32]))
}

func checkFingerprint(c *vt.Ctx, k FPCase) error {
	r := vt.NewDRBG(k.Seed, 24)
	iter := uint32(k.Iter)
	ka, kb := randomKey(r), randomKey(r)
	ia, ib := r.Bytes(k.Len[0]), r.Bytes(k.Len[1])
	if k.M&1 == 1 { // identifiers which look alike
		ib = append(append([]byte(nil), ia...), byte(r.Intn(2)))
	}
	mk := func(it, v uint32, li, lk, ri, rk []byte) (*fingerprint.Fingerprint, error) {
		return fingerprint.New(v, it, append([]byte(nil), li...), must(identity.NewKey(lk)), append([]byte(nil), ri...), must(identity.NewKey(rk)))
	}
	fa, err := mk(iter, k.Version, ia, ka, ib, kb)
	if k.Iter < 2 || k.Iter > 1000000 {
		if err == nil {
			return vt.Violate("iteration count outside the limits accepted", "%d", k.Iter)
		}
		c.Class("iterations refused")
		return nil
	}
	if err != nil {
		return vt.Violate("cannot compute a fingerprint", "%d iterations: %v", k.Iter, err)
	}
	c.NonTrivial()
	if k.Iter > 300000 { // once is enough
		want := digits(ref.Fingerprint(k.Iter, ia, ka))
		if fa.String()[:30] != want && fa.String()[30:] != want {
			return vt.Violate("digits differ from the published computation", "%s does not contain %s", fa, want)
		}
		return nil
	}
	fb, err := mk(iter, k.Version, ib, kb, ia, ka)
	if err != nil {
		return vt.Violate("cannot compute a fingerprint", "%v", err)
	}
	ra, rb := ref.Fingerprint(k.Iter, ia, ka), ref.Fingerprint(k.Iter, ib, kb)
	want := digits(ra) + digits(rb)
	if digits(rb) < digits(ra) {
		want = digits(rb) + digits(ra)
	}
	if fa.String() != fb.String() {
		return vt.Violate("two users see different digits", "%s %s", fa, fb)
	}
	if fa.String() != want {
		return vt.Violate("digits differ from the published computation", "%s, want %s", fa, want)
	}
	if d, err := fingerprint.NewDisplayable(ra, rb); err != nil || d.String() != want {
		return vt.Violate("digits of given fingerprints differ from the published computation", "%v", err)
	}
	sa, err1 := fingerprint.NewScannable(k.Version, ra, rb)
	sb, err2 := fingerprint.NewScannable(k.Version, rb, ra)
	if err1 != nil || err2 != nil {
		return vt.Violate("cannot make a code", "%v %v", err1, err2)
	}
	if x, y := scannableOf(fa), scannableOf(fb); x != nil && y != nil {
		c.Class("code of the fingerprint itself")
		sa, sb = x, y
	}
	ca, err1 := sa.Bytes()
	cb, err2 := sb.Bytes()
	if err1 != nil || err2 != nil {
		return vt.Violate("cannot encode a code", "%v %v", err1, err2)
	}
	if w := code(k.Version, ra, rb); !sameFields(ca, w) {
		return vt.Violate("code differs from the published format", "%x, want %x", ca, w)
	}
	if ok, err := sa.Compare(append([]byte(nil), cb...)); err != nil || !ok {
		return vt.Violate("code of the other user not accepted", "%v %v", ok, err)
	}
	if ok, err := sb.Compare(append([]byte(nil), ca...)); err != nil || !ok {
		return vt.Violate("code of the other user not accepted", "%v %v", ok, err)
	}
	if ok, _ := sa.Compare(append([]byte(nil), ca...)); ok {
		return vt.Violate("one's own code accepted", "%x", ca)
	}
	// One thing changed.
	li, lk, ri, rk, it, ver, what := ia, ka, ib, kb, iter, k.Version, ""
	switch (k.M >> 1) % 8 {
	case 0:
		lk = randomKey(r)
		what = "other local key"
	case 1:
		rk = randomKey(r)
		what = "other remote key"
	case 2:
		li = append(append([]byte(nil), ia...), 'x')
		what = "other local identifier"
	case 3:
		ri = append(append([]byte(nil), ib...), 0)
		what = "other remote identifier"
	case 4:
		it++
		what = "other iterations"
	case 5:
		lk, rk = rk, lk
		what = "keys exchanged"
		if bytes.Equal(li, ri) {
			return nil
		}
	case 6:
		li, ri = ri, li
		what = "identifiers exchanged"
		if bytes.Equal(li, ri) {
			return nil
		}
	case 7:
		ver++
		what = "other version"
	}
	fx, err := mk(it, ver, li, lk, ri, rk)
	if err != nil {
		return vt.Violate("cannot compute a fingerprint", "%v", err)
	}
	c.Class(what)
	xa, xb := ref.Fingerprint(int(it), li, lk), ref.Fingerprint(int(it), ri, rk)
	sx, sy := must(fingerprint.NewScannable(ver, xa, xb)), must(fingerprint.NewScannable(ver, xb, xa))
	if x := scannableOf(fx); x != nil {
		sx = x
	}
	ok1, err1 := sx.Compare(append([]byte(nil), cb...))
	ok2, err2 := sb.Compare(must(sx.Bytes()))
	if ok1 || ok2 {
		return vt.Violate("codes match despite "+what, "%x", cb)
	}
	if ver != k.Version {
		if err1 == nil || err2 == nil {
			return vt.Violate("other version not reported as an error", "%d and %d", ver, k.Version)
		}
		if ok, err := sy.Compare(cb); ok || err == nil {
			return vt.Violate("other version not reported as an error", "%d and %d", ver, k.Version)
		}
	} else if fx.String() == fa.String() {
		return vt.Violate("same digits despite "+what, "%s", fx)
	}
	return nil
}

func sameFields(a, b []byte) bool {
	x, ok1 := ref.ParseFields(a)
	y, ok2 := ref.ParseFields(b)
	if !ok1 || !ok2 || len(x) != len(y) {
		return false
	}
	for _, f := range x {
		g, ok := ref.Get(y, f.Num)
		if !ok || f.IsInt != g.IsInt || f.Uint != g.Uint || !bytes.Equal(f.Bytes, g.Bytes) {
			return false
		}
	}
	return true
}

func checkCodes(c *vt.Ctx, k FPCase) error {
	r := vt.NewDRBG(k.Seed, 25)
	la, lb := r.Bytes(32), r.Bytes(32)
	switch k.M % 16 {
	case 0:
		lb = la
	case 1, 2, 3, 4: // much in common
		lb = append([]byte(nil), la...)
		for n := 1 + r.Intn(2); n > 0; n-- {
			lb[r.Intn(32)] ^= 1 << r.Intn(8)
		}
	case 5: // the same digits of some groups
		lb = append([]byte(nil), la...)
		at := 5 * r.Intn(6)
		n := 100000 * (1 + r.Uint64()%1000000)
		for i := 4; i >= 0; i-- {
			n += uint64(lb[at+i])
			lb[at+i] = byte(n)
			n >>= 8
		}
		lb[r.Intn(32)] ^= byte(r.Intn(2))
	}
	shown := digits(la) + digits(lb)
	if digits(lb) < digits(la) {
		shown = digits(lb) + digits(la)
	}
	for i, p := range [][2][]byte{{la, lb}, {lb, la}} {
		if d, err := fingerprint.NewDisplayable(p[0], p[1]); err != nil || d.String() != shown {
			return vt.Violate("digits of given fingerprints differ from the published computation", "%d: %v, want %s of %x and %x: %v", i, d, shown, la, lb, err)
		}
	}
	ver := []uint32{1, 2, 0}[r.Intn(3)]
	s, err := fingerprint.NewScannable(ver, append(la[:32:32], r.Bytes(r.Intn(33))...), append(lb[:32:32], r.Bytes(r.Intn(33))...))
	if err != nil {
		return vt.Violate("cannot make a code", "%v", err)
	}
	for n := 0; n < 32; n += 1 + r.Intn(8) {
		if _, err := fingerprint.NewScannable(ver, la[:n], lb); err == nil {
			return vt.Violate("code of a short fingerprint", "%d", n)
		}
		if _, err := fingerprint.NewScannable(ver, la, lb[:n]); err == nil {
			return vt.Violate("code of a short fingerprint", "%d", n)
		}
		if _, err := fingerprint.NewDisplayable(la[:min(n, 29)], lb); err == nil {
			return vt.Violate("digits of a short fingerprint", "%d", n)
		}
		if _, err := fingerprint.NewDisplayable(la, lb[:min(n, 29)]); err == nil {
			return vt.Violate("digits of a short fingerprint", "%d", n)
		}
	}
	good := code(ver, lb, la) // as the other user shows it
	var raw []byte
	field := func(n int, b []byte) []byte { return ref.PB(nil, n, b) }
	content := func(b []byte) []byte { return ref.PB(nil, 1, b) }
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	v := ref.PU(nil, 1, uint64(ver))
	local, remote := field(2, content(lb)), field(3, content(la))
	switch k.M >> 4 % 16 {
	case 0, 1, 2:
		raw, _ = mutateBytes(r, good)
	case 3:
		raw = cat(remote, v, local)
	case 4:
		raw = cat(v, local)
	case 5:
		raw = cat(v, remote)
	case 6:
		raw = cat(local, remote)
	case 7:
		raw = cat(v, field(2, content(lb[:r.Intn(32)])), remote)
	case 8:
		raw = cat(v, local, field(3, content(la[:r.Intn(32)])))
	case 9:
		raw = cat(v, field(2, nil), field(3, nil))
	case 10:
		// With bytes behind or before, up to the whole hash and more.
		extra := r.Bytes(1 + r.Intn(33))
		longer := func(b []byte) []byte {
			switch r.Intn(4) {
			case 0:
				return b
			case 1:
				return cat(extra, b)
			}
			return cat(b, extra)
		}
		raw = cat(v, field(2, content(longer(lb))), field(3, content(longer(la))))
	case 11:
		raw = cat(v, field(2, content(la)), field(3, content(lb)))
	case 12:
		raw = cat(v, local, remote, field(9, r.Bytes(5)))
	case 13:
		raw = r.Bytes(r.Intn(80))
		if r.Intn(2) == 0 {
			raw = cat(ref.PU(nil, 1, uint64(ver^1<<r.Intn(32))), local, remote)
		}
	case 14:
		raw = cat(v, local, field(3, content(r.Bytes(32))))
	case 15:
		raw = cat(v, field(2, content(r.Bytes(32))), remote)
	}
	ok, err := s.Compare(append([]byte(nil), raw...))
	if ok && err != nil {
		return vt.Violate("code accepted together with an error", "%v", err)
	}
	// Independent reading: last occurrence counts, as protobuf has it.
	fs, parsed := ref.ParseFields(raw)
	var gv uint64
	var gl, gr []byte
	odd := false
	seen := map[int]bool{}
	for _, f := range fs {
		if f.Num > 3 {
			continue
		}
		if seen[f.Num] || f.IsInt != (f.Num == 1) {
			odd = true // repeated or mistyped: no judgement beyond not accepting wrong codes
		}
		seen[f.Num] = true
		switch f.Num {
		case 1:
			gv = f.Uint
		case 2, 3:
			in, ok := ref.ParseFields(f.Bytes)
			if !ok {
				parsed = false
			}
			for _, g := range in {
				if g.Num == 1 && g.IsInt {
					odd = true
				}
			}
			b, _ := ref.GetBytes(in, 1)
			if len(in) > 1 {
				odd = true
			}
			if f.Num == 2 {
				gl = b
			} else {
				gr = b
			}
		}
	}
	if odd {
		return nil
	}
	if parsed {
		c.NonTrivial()
	}
	want := parsed && uint32(gv) == ver && bytes.Equal(gl, lb) && bytes.Equal(gr, la)
	if ok != want {
		return vt.Violate(map[bool]string{true: "wrong code accepted", false: "right code refused"}[ok], "%x (version %d, %x %x): %v", raw, ver, la, lb, err)
	}
	if err == nil && !parsed {
		return vt.Violate("malformed code not reported as an error", "%x", raw)
	}
	if err == nil && uint32(gv) != ver {
		return vt.Violate("other version not reported as an error", "%x", raw)
	}
	return nil
}
