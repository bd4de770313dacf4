package props

import (
	"bytes"
	"fmt"

	"verif/ref"
	"verif/vt"
)

// senderKeyOf is the key the next message of a to b is encrypted from.
func (w *world) senderKeyOf(a, b *party) []byte {
	rec, ok, err := a.st.Sess.Load(bg, b.addr)
	if err != nil || !ok || rec.State() == nil {
		return nil
	}
	ck, err := rec.State().SenderChainKey()
	if err != nil {
		return nil
	}
	return append([]byte(nil), ck.Key()...)
}

// understood tells whether ck is really what the message was made from.
func (m *msg) understood() bool {
	if len(m.ck) != 32 {
		return false
	}
	raw := m.raw
	if m.pre {
		x, err := ref.ParsePreKey(raw)
		if err != nil {
			return false
		}
		raw = x.Inner
	}
	s, err := ref.ParseSignal(raw)
	if err != nil {
		return false
	}
	mk := ref.DeriveMessageKeys(m.ck)
	pt, err := ref.CBCDecrypt(mk.Cipher, mk.IV, s.Ciphertext)
	return err == nil && bytes.Equal(pt, m.pt)
}

// pubsOf are the public keys a and b have shown each other, without types.
func (w *world) pubsOf(a, b *party) [][]byte {
	have := map[string]bool{}
	var out [][]byte
	add := func(k []byte) {
		if len(k) == 33 && !have[string(k)] {
			have[string(k)] = true
			out = append(out, k[1:])
		}
	}
	for _, m := range w.allMsgs {
		if m.from == a.idx && m.to == b.idx || m.from == b.idx && m.to == a.idx {
			add(m.ratchet)
			add(m.lin.base)
			add(m.parent)
		}
	}
	return out
}

// pastSecrets checks that what p's session store holds reveals no message p
// has decrypted or sent.
func (w *world) pastSecrets(p *party) *worldErr {
	l := newLoot(p.st.Sess)
	t := targets{}
	for _, m := range w.allMsgs {
		mine := m.from == p.idx && m.epoch == p.epoch
		read := m.to == p.idx && m.delivered > 0 && m.readEpoch == p.epoch
		if !mine && !read {
			continue
		}
		if !m.understood() {
			w.c.Class("keys not understood")
			continue
		}
		if mine {
			t.addPairwise(fmt.Sprintf("message %d sent to %d", m.id, m.to), m, m.ck)
		} else {
			t.addPairwise(fmt.Sprintf("message %d decrypted from %d", m.id, m.from), m, m.ck)
		}
	}
	var pubs [][]byte
	for _, q := range w.ps {
		if q != p {
			pubs = append(pubs, w.pubsOf(p, q)...)
		}
	}
	w.c.ClassN("secrets tried", len(l.secrets))
	w.c.ClassN("keys looked for", len(t)/3)
	if len(l.secrets) > 0 && len(t) >= 9 {
		w.c.NonTrivial()
	}
	if x := t.attack(l, nil, pubs, 1, 40); x != nil {
		m := x.m.(*msg)
		kind := "a message already decrypted"
		if m.from == p.idx {
			kind = "a message already sent"
		}
		return wf([]string{"C17"}, "stored state reveals "+kind, "party %d: %s", p.idx, x.what)
	}
	return nil
}

// pastSecrets is the same for groups.
func (g *gworld) pastSecrets(u *guser) *worldErr {
	l := newLoot(u.st)
	t := targets{}
	for _, m := range g.msgs {
		mine := m.k.sender == u.idx
		if !mine && m.done[u.idx] == 0 {
			continue
		}
		if !mine && u.lost[m.k] {
			// An old distribution message may have brought the key back.
			continue
		}
		if len(m.ck) != 32 {
			continue
		}
		iv, key := ref.GroupKeys(m.ck)
		pt, err := ref.CBCDecrypt(key, iv, m.obj.Message())
		if err != nil || !bytes.Equal(pt, m.pt) {
			g.c.Class("keys not understood")
			continue
		}
		if mine {
			t.addGroup(fmt.Sprintf("group message %d sent", m.id), m, m.ck)
		} else {
			t.addGroup(fmt.Sprintf("group message %d decrypted from %d", m.id, m.k.sender), m, m.ck)
		}
	}
	g.c.ClassN("secrets tried", len(l.secrets))
	g.c.ClassN("keys looked for", len(t)/3)
	if len(l.secrets) > 0 && len(t) >= 9 {
		g.c.NonTrivial()
	}
	if x := t.attack(l, nil, nil, 0, 80); x != nil {
		kind := "a group message already decrypted"
		if x.m.(*gmsg).k.sender == u.idx {
			kind = "a group message already sent"
		}
		return wf([]string{"C17"}, "stored state reveals "+kind, "user %d: %s", u.idx, x.what)
	}
	return nil
}

// groupKeyOf is the key the next message of s to the group is encrypted from.
func (g *gworld) groupKeyOf(s *guser, d int) []byte {
	k := s.own[d]
	if k == nil {
		return nil
	}
	r, ok, err := s.st.Load(bg, s.addr, g.ds[d])
	if err != nil || !ok {
		return nil
	}
	st := r.StateForChainID(k.chainID)
	if st == nil {
		return nil
	}
	return append([]byte(nil), st.SenderChainKey().Seed()...)
}

func init() {
	vt.Register("C17", "pairwise", 1600, 60000, "random pairwise history; at three points and at its end an attacker takes everything the session store of each user holds (found by walking the memory behind it) and derives from every 32-byte secret all chain, message and root keys it can, looking for the keys of messages the user has sent or decrypted; non-trivial: at least 3 messages looked for",
		histCase("mixed", "pong", "cross", "skips", "again"),
		func(c *vt.Ctx, wc WorldCase) error {
			w := newWorld(c, wc)
			w.watch = true
			at := map[int]bool{len(wc.Ops) / 4: true, len(wc.Ops) / 2: true, len(wc.Ops) * 3 / 4: true}
			var err *worldErr
			all := func() {
				for _, p := range w.ps {
					if err == nil {
						err = w.pastSecrets(p)
					}
				}
			}
			for i, op := range wc.Ops {
				if err != nil {
					break
				}
				w.step++
				if err = w.do(op); err == nil && at[i] {
					all()
				}
			}
			if err == nil {
				err = w.settle()
			}
			if err == nil {
				all()
			}
			w.count()
			return verdict(c, err)
		})
	vt.Register("C17", "groups", 2400, 100000, "random group history; at three points and at its end the same attacker takes what the group store of each user holds; non-trivial: at least 3 messages looked for",
		histGroup("mixed", "rotate", "skips"),
		func(c *vt.Ctx, gc GroupCase) error {
			g := newGWorld(c, gc)
			g.watch = true
			at := map[int]bool{len(gc.Ops) / 4: true, len(gc.Ops) / 2: true, len(gc.Ops) * 3 / 4: true}
			var err *worldErr
			all := func() {
				for _, u := range g.us {
					if err == nil {
						err = g.pastSecrets(u)
					}
				}
			}
			for i, op := range gc.Ops {
				if err != nil {
					break
				}
				g.step++
				if err = g.do(op); err == nil && at[i] {
					all()
				}
			}
			if err == nil {
				err = g.settle()
			}
			if err == nil {
				all()
			}
			g.count()
			return verdict(c, err)
		})
	vt.Register("C17", "kept-keys", 400, 12000, "a group or session with many kept keys; the key of each kept message must be gone from the store as soon as it was used, those of the others stay; non-trivial: always",
		func(t *rapidT) KeptCase {
			return KeptCase{Seed: vt.Bits(t, "seed"), N: 2 + vt.Uni(t, 40, "n"), Group: vt.Uni(t, 2, "group") == 1}
		}, keptKeys)
}

// KeptCase is one run of out-of-order deliveries.
type KeptCase struct {
	Seed  uint64 `json:"seed"`
	N     int    `json:"n"`
	Group bool   `json:"group"`
}

func keptKeys(c *vt.Ctx, kc KeptCase) error {
	r := vt.NewDRBG(kc.Seed, 99)
	c.NonTrivial()
	if kc.Group {
		g := newGWorld(c, GroupCase{Seed: kc.Seed, Users: 2, Dists: 1})
		g.watch = true
		gd, err := g.distribute(g.us[0], 0, false)
		if err == nil {
			g.step++
			err = g.process(g.us[1], gd, false)
		}
		for i := 0; i < kc.N && err == nil; i++ {
			g.step++
			_, err = g.send(g.us[0], 0)
		}
		ms := append([]*gmsg(nil), g.msgs...)
		for len(ms) > 0 && err == nil {
			g.step++
			i := r.Intn(len(ms))
			err = g.deliver(g.us[1], ms[i], false)
			ms = append(ms[:i], ms[i+1:]...)
			if err == nil {
				err = g.pastSecrets(g.us[1])
			}
		}
		return verdict(c, err)
	}
	w := newWorld(c, WorldCase{Seed: kc.Seed, Parties: 2})
	w.watch = true
	a, b := w.ps[0], w.ps[1]
	w.step++
	err := w.open(a, b, r.Intn(2) == 0, false, 0)
	for i := 0; i < kc.N && err == nil; i++ {
		w.step++
		_, err = w.send(a, b, 0)
	}
	ms := append([]*msg(nil), w.allMsgs...)
	for len(ms) > 0 && err == nil {
		w.step++
		i := r.Intn(len(ms))
		err = w.deliver(ms[i], formBytes)
		ms = append(ms[:i], ms[i+1:]...)
		if err == nil {
			err = w.pastSecrets(b)
		}
	}
	return verdict(c, err)
}
