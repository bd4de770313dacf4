package props

import (
	"bytes"

	"pgregory.net/rapid"

	"verif/ref"
	"verif/vt"
)

func init() {
	worldCheckPost("C03", "forgeries", 4000, 120000,
		histRule+"in between, altered, cut, extended, spliced, re-encoded, reflected, misdirected and made-up messages are presented to copies of the parties; non-trivial: at least 5 of them refused and 2 genuine messages decrypted",
		func(w *world) bool { return w.nEvil >= 5 && w.nRecv >= 2 },
		func(w *world) *worldErr { return w.tryEvil(10, false) },
		"evil", "evil", "evil", "mixed", "trust")
	vt.Register("C03", "every-bit", 160, 6000,
		"every bit of one message at the end of a random history is flipped, and every prefix of it presented, to a copy of the receiver; non-trivial: the message was not presented before",
		func(t *rapid.T) WorldCase { return genWorld(t, "mixed", "cross", "pong") },
		func(c *vt.Ctx, wc WorldCase) error {
			w := newWorld(c, wc)
			if err := w.run(wc.Ops); err != nil {
				return verdict(c, err)
			}
			return verdict(c, w.everyBit(c))
		})
}

func (w *world) everyBit(c *vt.Ctx) *worldErr {
	r := w.rng(60)
	m := w.pickMsg(r)
	if m == nil {
		return nil
	}
	if m.delivered == 0 {
		c.NonTrivial()
	}
	raw := m.raw
	if len(raw) > 400 { // large plaintexts: another, small one
		w.step++
		s, err := w.sendBytes(w.ps[m.from], w.ps[m.to], r.Bytes(r.Intn(40)))
		if err != nil || s == nil {
			return err
		}
		m, raw = s, s.raw
	}
	a, b := w.ps[m.from], w.ps[m.to]
	f := w.fork(b)
	try := func(x []byte, what string, n int) *worldErr {
		ct, err := parseAs(append([]byte(nil), x...), m.pre)
		if err != nil {
			c.Class("refused by the parser")
			return nil
		}
		if w.endless(ct, f, a.addr) {
			return nil
		}
		vt.SetGlobal(w.rng(61))
		pt, err := w.sessTo(f, a.addr).DecryptMessage(bg, w.rng(62), ct)
		if err != nil {
			c.Class("refused by the session")
			return nil
		}
		if !m.pre {
			return wf([]string{"C03"}, "accepted: "+what, "%s %d of %x", what, n, raw)
		}
		c.Class("harmlessly altered establishing message accepted")
		in, ok := ref.ParseFields(x[1:])
		fi, ok2 := ref.GetBytes(in, 4)
		if !ok || !ok2 || !bytes.Equal(fi, m.inner()) || !bytes.Equal(pt, m.pt) {
			return wf([]string{"C03"}, "accepted: "+what+" of an establishing message", "%s %d of %x: %x", what, n, raw, pt)
		}
		f = w.fork(b)
		return nil
	}
	for i := 0; i < len(raw)*8; i++ {
		x := append([]byte(nil), raw...)
		x[i/8] ^= 1 << (i % 8)
		if err := try(x, "bit flipped", i); err != nil {
			return err
		}
	}
	for n := 0; n < len(raw); n++ {
		if err := try(raw[:n], "cut short", n); err != nil {
			return err
		}
	}
	return nil
}
