package props

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/senderkey"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/ref"
	"verif/vt"
)

// fork copies a user's group store.
func (g *gworld) fork(u *guser) *guser {
	q := *u
	q.kept = nil
	q.st = session.NewInMemGroupStore()
	for _, o := range g.us {
		for i := range g.ds {
			if r, ok := load3(u.st.Load(bg, o.addr, g.ds[i])); ok {
				must0(q.st.Store(bg, o.addr, g.ds[i], r))
			}
		}
	}
	return &q
}

// snapshot is everything the store of u holds, as far as its methods tell.
func (g *gworld) snapshot(u *guser) string {
	var b bytes.Buffer
	for _, o := range g.us {
		for i := range g.ds {
			r, ok := load3(u.st.Load(bg, o.addr, g.ds[i]))
			fmt.Fprintf(&b, "%v %v %v\n", o.addr, g.ds[i], ok)
			if !ok {
				continue
			}
			if st, err := r.State(); err == nil {
				fmt.Fprintf(&b, "first %d\n", st.ChainID())
			}
			for _, k := range g.keys {
				st := r.StateForChainID(k.chainID)
				if st == nil {
					continue
				}
				ck := st.SenderChainKey()
				fmt.Fprintf(&b, "chain %d v%d at %d %x", k.chainID, st.Version(), ck.Iteration(), ck.Seed())
				if pk, err := st.PublicSigningKey(); err == nil {
					fmt.Fprintf(&b, " pub %x", pk.Bytes())
				}
				if sk, err := st.PrivateSigningKey(); err == nil {
					fmt.Fprintf(&b, " priv %x", sk.Bytes())
				}
				lo := uint32(0)
				if ck.Iteration() > 2100 {
					lo = ck.Iteration() - 2100
				}
				for n := lo; n <= ck.Iteration(); n++ {
					if mk, ok, _ := tryFound[senderkey.MessageKey](st, "RemoveMessageKeys", n); ok {
						fmt.Fprintf(&b, " kept %d %x", n, mk.Seed())
					}
				}
				b.WriteByte('\n')
			}
		}
	}
	return b.String()
}

type gattempt struct {
	what string
	to   int
	run  func(q *guser) ([]byte, error)
	free bool
	// which properties it breaks to accept it
	props []string
}

// evil makes something up. It may return nil.
func (g *gworld) evil(r *vt.DRBG) *gattempt {
	if len(g.msgs) == 0 {
		return nil
	}
	n := len(g.msgs)
	m := g.msgs[r.Intn(n)]
	u := g.us[r.Intn(len(g.us))]
	for i := 0; i < 8; i++ {
		if st, _ := u.state(m); u.idx != m.k.sender && st != nil && st.k == m.k && m.done[u.idx] == 0 && m.n >= st.next {
			break
		}
		m, u = g.msgs[n-1-r.Intn(min(n, 10))], g.us[r.Intn(len(g.us))]
	}
	present := func(what string, from address.Address, raw []byte) *gattempt {
		return &gattempt{what: what, to: u.idx, run: func(q *guser) ([]byte, error) {
			ct, err := message.NewSenderKeyFromBytes(append([]byte(nil), raw...))
			if err != nil {
				return nil, err
			}
			return g.sess(q, from, g.ds[m.k.dist]).DecryptMessage(bg, ct)
		}}
	}
	from := g.us[m.k.sender].addr
	o := g.msgs[r.Intn(n)]
	switch k := r.Intn(19); {
	case k < 4:
		raw, what := mutateBytes(r, m.raw)
		if bytes.Equal(raw, m.raw) {
			return nil
		}
		return present("altered: "+what, from, raw)
	case k < 9: // fields changed, signature kept, borrowed or made with another key
		body, sig := m.raw[:len(m.raw)-64], append([]byte(nil), m.raw[len(m.raw)-64:]...)
		fs, ok := ref.ParseFields(body[1:])
		if !ok || len(fs) < 4 {
			return nil
		}
		what := ""
		set := func(n int, f ref.Field) {
			f.Num = n
			for i := range fs {
				if fs[i].Num == n {
					fs[i] = f
				}
			}
		}
		ver := body[0]
		switch r.Intn(8) {
		case 0:
			set(3, ref.Field{IsInt: true, Uint: uint64(m.n) + uint64(1+r.Intn(50))})
			what = "other position"
		case 1:
			set(3, ref.Field{IsInt: true, Uint: uint64(uint32(r.Uint64()))})
			what = "random position"
		case 2:
			ofs, _ := ref.ParseFields(o.raw[1 : len(o.raw)-64])
			c, _ := ref.GetBytes(ofs, 4)
			set(4, ref.Field{Bytes: c})
			what = "ciphertext of another message"
		case 3:
			set(2, ref.Field{IsInt: true, Uint: uint64(o.k.chainID)})
			what = "other chain ID"
		case 4:
			set(1, ref.Field{Bytes: []byte(distIDs[r.Intn(len(distIDs))])})
			what = "other group"
		case 5:
			c, _ := ref.GetBytes(fs, 4)
			c = append([]byte(nil), c...)
			if len(c) > 0 {
				c[r.Intn(len(c))] ^= byte(1 + r.Intn(255))
			}
			set(4, ref.Field{Bytes: c})
			what = "changed ciphertext"
		case 6:
			fs = append(fs, ref.Field{Num: 15, Bytes: []byte("x")})
			what = "unknown field added"
		case 7:
			ver = byte(r.Intn(256))
			what = "other version byte"
		}
		nb := append([]byte{ver}, ref.Encode(fs)...)
		switch r.Intn(4) {
		case 0:
			sig = append([]byte(nil), o.raw[len(o.raw)-64:]...)
			what += ", signature of another message"
		case 1:
			sig = must(pairFrom(r.Bytes(32)).PrivateKey().Sign(r, nb))
			what += ", signed with another key"
		case 2:
			sig = make([]byte, 64)
			what += ", zero signature"
		}
		raw := append(nb, sig...)
		if bytes.Equal(raw, m.raw) {
			return nil
		}
		return present("altered: "+what, from, raw)
	case k < 11: // made by another member with the right message keys
		return g.forge(r, u, m, present)
	case k < 13: // under another address
		for i := 0; i < 4; i++ {
			if x := g.us[r.Intn(len(g.us))]; x.idx != m.k.sender {
				return present("attributed to another sender", x.addr, m.raw)
			}
		}
		return present("attributed to a stranger", strangerAddr, m.raw)
	case k < 14: // a member sends under the address of another
		return &gattempt{what: "encrypting as another sender", to: u.idx, run: func(q *guser) ([]byte, error) {
			if u.idx == m.k.sender {
				return nil, errEndless
			}
			ct, err := g.sess(q, from, g.ds[m.k.dist]).EncryptMessage(bg, g.rng(77), []byte("x"))
			if err != nil {
				return nil, err
			}
			return ct.Bytes(), nil
		}}
	case k < 15:
		id := distribution.MustParse("ffffffff-7000-11eb-b32a-33b8a8a487a6")
		return &gattempt{what: "encrypting for an unknown group", to: u.idx, run: func(q *guser) ([]byte, error) {
			ct, err := g.sess(q, q.addr, id).EncryptMessage(bg, g.rng(78), []byte("x"))
			if err != nil {
				return nil, err
			}
			return ct.Bytes(), nil
		}}
	case k < 18:
		return g.broken(r, u, m, present)
	default:
		at := present("repeated", from, m.raw)
		at.free = true
		return at
	}
}

// forge makes a message with the right message keys, as any member could.
func (g *gworld) forge(r *vt.DRBG, u *guser, m *gmsg, present func(string, address.Address, []byte) *gattempt) *gattempt {
	// Another member (or the victim's own copy) gives the chain key.
	from := g.us[m.k.sender].addr
	for _, x := range g.us {
		if x.idx == m.k.sender {
			continue
		}
		st, _ := x.state(m)
		if st == nil || st.k != m.k {
			continue
		}
		rec, ok := load3(x.st.Load(bg, from, g.ds[m.k.dist]))
		if !ok {
			continue
		}
		gs := rec.StateForChainID(m.k.chainID)
		if gs == nil {
			continue
		}
		ck := gs.SenderChainKey()
		for i := r.Intn(4); i > 0; i-- {
			ck = ck.Next()
		}
		mk, err := ck.MessageKey()
		if err != nil {
			continue
		}
		pt := []byte("not from whom it seems")
		body := []byte{0x33}
		body = ref.PB(body, 1, []byte(g.ds[m.k.dist].String()))
		body = ref.PU(body, 2, uint64(m.k.chainID))
		body = ref.PU(body, 3, uint64(ck.Iteration()))
		body = ref.PB(body, 4, ref.CBCEncrypt(mk.CipherKey(), mk.IV(), pt))
		var sig []byte
		what := ""
		switch r.Intn(7) {
		case 6: // another sender key of the same sender
			k := g.keys[r.Intn(len(g.keys))]
			for i := 0; i < 8 && (k.sender != m.k.sender || k == m.k); i++ {
				k = g.keys[r.Intn(len(g.keys))]
			}
			if k.sender != m.k.sender || k == m.k || k.priv == nil {
				return nil
			}
			sig = must(k.priv.Sign(r, body))
			what = "signature with another sender key of the sender"
		case 0:
			sig = make([]byte, 64)
			what = "zero signature"
		case 1:
			sig = append([]byte(nil), m.raw[len(m.raw)-64:]...)
			what = "signature of a genuine message"
		case 2:
			sig = must(pairFrom(r.Bytes(32)).PrivateKey().Sign(r, body))
			what = "signature with another key"
		case 3: // the member's own sender key of this group
			for d, k := range x.own {
				rec, ok := load3(x.st.Load(bg, x.addr, g.ds[d]))
				if ok {
					if s := rec.StateForChainID(k.chainID); s != nil {
						if sk, err := s.PrivateSigningKey(); err == nil {
							sig = must(sk.Sign(r, body))
						}
					}
				}
			}
			what = "signature with the member's own sender key"
		case 4:
			// R = identity, s = 0, for keys of low order.
			sig = append(append([]byte{1}, make([]byte, 31)...), make([]byte, 32)...)
			what = "trivial signature"
		case 5:
			sig = r.Bytes(r.Intn(64))
			what = "short signature"
		}
		if sig == nil {
			return nil
		}
		return present("forged by a member: "+what, from, append(body, sig...))
	}
	return nil
}

// broken makes a message its sender signed, but which nobody can decrypt.
func (g *gworld) broken(r *vt.DRBG, u *guser, m *gmsg, present func(string, address.Address, []byte) *gattempt) *gattempt {
	if m.k.priv == nil {
		return nil
	}
	from := g.us[m.k.sender].addr
	var ck []byte
	n := m.n
	what := ""
	st, _ := u.state(m)
	if st == nil || st.k != m.k {
		ck, what = r.Bytes(32), "unknown sender key"
	} else {
		rec, ok := load3(u.st.Load(bg, from, g.ds[m.k.dist]))
		if !ok {
			return nil
		}
		gs := rec.StateForChainID(m.k.chainID)
		if gs == nil {
			return nil
		}
		switch x := r.Intn(8); {
		case x < 2 && len(st.skipped) > 0:
			n = st.skipped[r.Intn(len(st.skipped))]
			mk, ok, _ := tryFound[senderkey.MessageKey](gs, "RemoveMessageKeys", n)
			if !ok {
				return nil
			}
			ck, what = mk.Seed(), "kept key"
			return g.brokenWith(r, m, n, mk.CipherKey(), mk.IV(), what, from, present)
		case x < 3:
			ck, n, what = r.Bytes(32), st.next+winJump+1+uint32(r.Intn(3)), "too far ahead"
			if far := uint64(n) + 1<<(16+r.Intn(8)); r.Intn(2) == 0 {
				if r.Intn(4) == 0 {
					far = 1<<32 - 1 - uint64(r.Intn(3))
				}
				if far < 1<<32 {
					n = uint32(far)
				}
			}
		case x < 4 && st.next > 0:
			ck, n, what = r.Bytes(32), uint32(r.Intn(int(st.next))), "before the present position"
			for _, s := range st.skipped {
				if s == n {
					return nil
				}
			}
		default:
			c := gs.SenderChainKey()
			ck, n = c.Seed(), st.next
			by := r.Intn(4)
			if r.Intn(6) == 0 {
				by = r.Intn(2500)
			}
			for i := 0; i < by; i++ {
				ck = ref.NextChain(ck)
				n++
			}
			what = "next key"
		}
	}
	iv, key := ref.GroupKeys(ck)
	return g.brokenWith(r, m, n, key, iv, what, from, present)
}

func (g *gworld) brokenWith(r *vt.DRBG, m *gmsg, n uint32, key, iv []byte, what string, from address.Address, present func(string, address.Address, []byte) *gattempt) *gattempt {
	ct := undecryptable(r, key, iv)
	body := []byte{0x33}
	body = ref.PB(body, 1, []byte(g.ds[m.k.dist].String()))
	body = ref.PU(body, 2, uint64(m.k.chainID))
	body = ref.PU(body, 3, uint64(n))
	body = ref.PB(body, 4, ct)
	at := present("signed but not decryptable: "+what, from, append(body, must(m.k.priv.Sign(r, body))...))
	at.props = []string{"C15", "C04"}
	return at
}

// undecryptable makes a ciphertext which has no plaintext under the keys.
func undecryptable(r *vt.DRBG, key, iv []byte) []byte {
	for {
		var ct []byte
		switch r.Intn(4) {
		case 0:
			ct = r.Bytes(1 + r.Intn(60))
		case 1:
			ct = r.Bytes(16 * (1 + r.Intn(4)))
		case 2: // the last byte of the padding is right, others are not
			pt := r.Bytes(32)
			pt[31] = byte(2 + r.Intn(15))
			ct = ref.CBCEncrypt(key, iv, pt)[:32]
		case 3: // no or too much padding
			pt := r.Bytes(16)
			pt[15] = []byte{0, 17, 32, 255}[r.Intn(4)]
			ct = ref.CBCEncrypt(key, iv, pt)[:16]
		}
		if _, err := ref.CBCDecrypt(key, iv, ct); err != nil {
			return ct
		}
	}
}

// tryEvil presents made-up things.
func (g *gworld) tryEvil(n int, real bool) *worldErr {
	for i := 0; i < n; i++ {
		at := g.evil(vt.NewDRBG(g.seed, g.step, 50, uint64(i)))
		if at == nil {
			continue
		}
		u := g.us[at.to]
		q := g.fork(u)
		vt.SetGlobal(vt.NewDRBG(g.seed, g.step, 51, uint64(i)))
		a := allocated()
		pt, err := at.run(q)
		if e := concerning(g.c, outOfProportion(a, err, 256<<20, at.what)); e != nil {
			return e
		}
		g.spy.err(err)
		g.c.Logf("evil: %s to %d: %v", at.what, at.to, err)
		if err != nil && pt != nil {
			if e := concerning(g.c, wf([]string{"C15", "C04"}, "output together with an error", "%s: %v", at.what, err)); e != nil {
				return e
			}
		}
		if err == nil && !at.free {
			props := at.props
			if props == nil {
				props = []string{"C15"}
			}
			if e := concerning(g.c, wf(props, "accepted: "+cut(at.what), "%s, presented to %d", at.what, at.to)); e != nil {
				return e
			}
		}
		if err == nil {
			continue
		}
		g.nEvil++
		g.c.Class("refused " + cut(at.what))
		if !real {
			continue
		}
		before := g.snapshot(u)
		vt.SetGlobal(vt.NewDRBG(g.seed, g.step, 51, uint64(i)))
		if _, err := at.run(u); err == nil {
			if e := concerning(g.c, wf([]string{"C04"}, "refused by a copy of the stores and accepted by them", "%s", at.what)); e != nil {
				return e
			}
		}
		if after := g.snapshot(u); after != before {
			if e := concerning(g.c, wf([]string{"C04"}, "group store changed by a refused operation: "+cut(at.what), "%s: %s", at.what, firstDiff(before, after))); e != nil {
				return e
			}
		}
	}
	return nil
}
