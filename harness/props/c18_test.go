package props

import (
	"fmt"

	"github.com/RTann/libsignal-go/protocol/message"

	"verif/vt"
)

// FreshCase is a history, the state of one side becoming known, and what the
// two do then.
type FreshCase struct {
	World WorldCase `json:"world"`
	Who   int       `json:"who"`
	With  int       `json:"with"`
	First bool      `json:"first"` // the one whose state is known sends first
	Lost  int       `json:"lost"`  // messages sent but lost in between
	Trips int       `json:"trips"`
}

// distinctKeys checks that no two messages have the same keys or position.
func (w *world) distinctKeys() *worldErr {
	pos := map[string]*msg{}
	key := map[string]*msg{}
	for _, m := range w.allMsgs {
		k := fmt.Sprintf("%x/%d", m.ratchet, m.n)
		if o := pos[k]; o != nil {
			return wf([]string{"C18"}, "two messages with the same ratchet key and position", "%d and %d: %s", o.id, m.id, k)
		}
		pos[k] = m
		if !m.understood() {
			w.c.Class("keys not understood")
			continue
		}
		if o := key[string(m.ck)]; o != nil {
			return wf([]string{"C18"}, "two messages with the same keys", "%d and %d", o.id, m.id)
		}
		key[string(m.ck)] = m
	}
	return nil
}

func (g *gworld) distinctKeys() *worldErr {
	key := map[string]*gmsg{}
	for _, m := range g.msgs {
		if len(m.ck) != 32 {
			continue
		}
		if o := key[string(m.ck)]; o != nil {
			return wf([]string{"C18"}, "two group messages with the same keys", "%d and %d", o.id, m.id)
		}
		key[string(m.ck)] = m
	}
	return nil
}

// healing: what is known about p is of no use after both have replied.
func (w *world) healing(fc FreshCase) *worldErr {
	p := w.ps[fc.Who%len(w.ps)]
	q := w.ps[(p.idx+1+fc.With%(len(w.ps)-1))%len(w.ps)]
	if p.rec(q.idx).cur == nil && q.rec(p.idx).cur == nil {
		return nil
	}
	w.step += 5000
	// Everything p has, as an attacker got to know it.
	rec, _ := load3(p.st.Sess.Load(bg, q.addr))
	l := newLoot(rec)
	privs := [][]byte{p.ident.PrivateKey().Bytes()}
	for _, s := range p.spks {
		privs = append(privs, s.pair.PrivateKey().Bytes())
	}
	one := func(a, b *party, lost int) (*msg, *worldErr) {
		var m *msg
		for i := 0; i <= lost; i++ {
			w.step++
			var err *worldErr
			if m, err = w.send(a, b, i); err != nil || m == nil {
				return nil, err
			}
		}
		w.step++
		in := w.inbox[[2]int{a.idx, b.idx}]
		return m, w.deliver(w.take([2]int{a.idx, b.idx}, len(in)-1), formBytes)
	}
	a, b := p, q
	if !fc.First {
		a, b = q, p
	}
	if a.rec(b.idx).cur == nil {
		a, b = b, a
	}
	var ms []*msg
	// q has to answer something p sent, and p something q sent.
	for i := 0; i < 4+fc.Trips; i++ {
		m, err := one(a, b, fc.Lost)
		if err != nil || m == nil {
			return err
		}
		ms = append(ms, m)
		a, b = b, a
	}
	// From here on both sides have replied to replies.
	ms = ms[3:]
	t := targets{}
	for _, m := range ms {
		if !m.understood() {
			w.c.Class("keys not understood")
			return nil
		}
		t.addPairwise(fmt.Sprintf("message %d of %d", m.id, m.from), m, m.ck)
	}
	w.c.NonTrivial()
	pubs := w.pubsOf(p, q)
	if n := len(pubs); n > 6 {
		pubs = pubs[n-6:]
	}
	w.c.ClassN("secrets tried", len(l.secrets))
	if x := t.attack(l, privs, pubs, 2, fc.Lost+4); x != nil {
		return wf([]string{"C18"}, "state known before replies were exchanged reveals a message", "%s (state of %d)", x.what, p.idx)
	}
	return nil
}

// restored: users whose storage is set back to what it was before they sent
// some messages (which do arrive) still answer every new ratchet key with a
// new one of their own.
func (w *world) restored(fc FreshCase) *worldErr {
	r := vt.NewDRBG(fc.World.Seed, 18)
	p := w.ps[fc.Who%len(w.ps)]
	q := w.ps[(p.idx+1+fc.With%(len(w.ps)-1))%len(w.ps)]
	if p.rec(q.idx).cur == nil {
		p, q = q, p
	}
	if p.rec(q.idx).cur == nil {
		return nil
	}
	answers := map[string]string{} // ratchet key to the one it answers
	for _, m := range w.allMsgs {
		answers[string(m.ratchet)] = string(m.parent)
	}
	latest := map[int]string{}
	backs := 0
	send := func(a, b *party) (message.Ciphertext, *worldErr) {
		vt.SetGlobal(vt.NewDRBG(r.Uint64()))
		ct, err := w.sess(a, b).EncryptMessage(bg, r.Bytes(r.Intn(40)))
		if err != nil {
			w.c.Class("sending refused")
			return nil, nil
		}
		m, ok := ct.(*message.Signal)
		if x, pre := ct.(*message.PreKey); pre {
			m, ok = x.Message(), true
		}
		if !ok {
			return nil, nil
		}
		k := string(m.SenderRatchetKey().Bytes())
		if to, ok := latest[a.idx]; ok {
			if was, ok := answers[k]; ok && was != to {
				return nil, wf([]string{"C18"}, "a ratchet key is used for two chains", "of %d, after %d times of setting back storage", a.idx, backs)
			}
			answers[k] = to
		}
		return ct, nil
	}
	for i := 0; i < 6+2*fc.Trips; i++ {
		var saved *savedRecord
		if r.Intn(2) == 0 {
			rec, ok := load3(p.st.Sess.Load(bg, q.addr))
			if !ok {
				return nil
			}
			s, err := saveRecord(rec)
			if err != nil {
				return nil
			}
			saved = &s
		}
		var ct message.Ciphertext
		for n := r.Intn(1 + fc.Lost); n >= 0; n-- {
			var err *worldErr
			if ct, err = send(p, q); err != nil || ct == nil {
				return err
			}
		}
		if saved != nil && latest[p.idx] != "" {
			rec, err := loadRecord(*saved)
			if err != nil || p.st.Sess.Store(bg, q.addr, rec) != nil {
				return nil
			}
			p.restart()
			backs++
		}
		raw, pre := append([]byte{}, ct.Bytes()...), ct.Type() == message.PreKeyType
		in, err := parseAs(raw, pre)
		if err == nil {
			_, err = w.sess(q, p).DecryptMessage(bg, vt.NewDRBG(r.Uint64()), in)
		}
		if err != nil {
			w.c.Class("not decrypted")
			return nil
		}
		m, ok := in.(*message.Signal)
		if !ok {
			m = in.(*message.PreKey).Message()
		}
		latest[q.idx] = string(m.SenderRatchetKey().Bytes())
		p, q = q, p
	}
	if backs > 0 {
		w.c.NonTrivial()
	}
	w.c.ClassN("storage set back", backs)
	return nil
}

func init() {
	nt := func(w *world) bool { return w.nRecv >= 3 && w.nSend >= 5 }
	vt.Register("C18", "pairwise", 3200, 120000, histRule+"base and ratchet keys must never have been used before and be public keys of distinct 32-byte blocks of the randomness given to the operation; no two messages share ratchet key and position, or chain key; positions count from zero by one; non-trivial: at least 5 sent and 3 decrypted",
		histCase("mixed", "pong", "cross", "again", "trust"), func(c *vt.Ctx, wc WorldCase) error {
			w := newWorld(c, wc)
			w.watch = true
			err := w.run(wc.Ops)
			if err == nil {
				err = w.settle()
			}
			if err == nil {
				err = w.redeliver(6)
			}
			// Everyone sends a little more.
			for _, a := range w.ps {
				for _, b := range w.ps {
					for i := 0; a != b && i < 2 && err == nil; i++ {
						w.step++
						_, err = w.send(a, b, i)
					}
				}
			}
			if err == nil {
				err = w.distinctKeys()
			}
			w.count()
			if nt(w) {
				c.NonTrivial()
			}
			return verdict(c, err)
		})
	vt.Register("C18", "groups", 2400, 80000, "random group history; sender keys are made of the given randomness and never repeat, positions of messages count from zero by one, no two messages share a chain key; non-trivial: at least 5 sent",
		histGroup("mixed", "rotate"), func(c *vt.Ctx, gc GroupCase) error {
			g := newGWorld(c, gc)
			g.watch = true
			err := g.run(gc.Ops)
			if err == nil {
				err = g.settle()
			}
			if err == nil {
				err = g.distinctKeys()
			}
			g.count()
			if g.nSend >= 5 {
				c.NonTrivial()
			}
			return verdict(c, err)
		})
	vt.Register("C18", "healing", 800, 40000, "random pairwise history, then an attacker learns all stored secrets of one side (sessions, identity, pre-keys), then the two exchange replies (some messages being lost); the attacker derives all root, chain and message keys it can with every public key shown, looking for the keys of what follows the exchange; non-trivial: the exchange took place",
		func(t *rapidT) FreshCase {
			return FreshCase{World: genWorld(t, "mixed", "pong", "cross"), Who: vt.Uni(t, 3, "who"), With: vt.Uni(t, 2, "with"), First: vt.Uni(t, 2, "first") == 0, Lost: vt.Uni(t, 3, "lost"), Trips: vt.Uni(t, 3, "trips")}
		},
		func(c *vt.Ctx, fc FreshCase) error {
			w := newWorld(c, fc.World)
			w.watch = true
			err := w.run(fc.World.Ops)
			if err == nil {
				err = w.settle()
			}
			if err == nil {
				err = w.healing(fc)
			}
			return verdict(c, err)
		})
	vt.Register("C18", "restored", 1600, 60000, "random pairwise history, then the two write to each other in turn, the storage of the sender being set back at random to what it was before messages which do arrive; a ratchet key used in reply to one received key must never be used in reply to another; non-trivial: storage was set back",
		func(t *rapidT) FreshCase {
			return FreshCase{World: genWorld(t, "mixed", "pong", "cross"), Who: vt.Uni(t, 3, "who"), With: vt.Uni(t, 2, "with"), Lost: vt.Uni(t, 3, "lost"), Trips: vt.Uni(t, 4, "trips")}
		},
		func(c *vt.Ctx, fc FreshCase) error {
			w := newWorld(c, fc.World)
			err := w.run(fc.World.Ops)
			if err == nil {
				err = w.settle()
			}
			if err == nil {
				err = w.restored(fc)
			}
			return verdict(c, err)
		})
}
