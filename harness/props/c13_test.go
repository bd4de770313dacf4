package props

import (
	"bytes"

	"pgregory.net/rapid"

	"github.com/RTann/libsignal-go/protocol/message"

	"verif/ref"
	"verif/vt"
)

const groupRule = "random history of creating, processing and repeating distribution messages, group messages delivered in any order, losses, repetitions, rotations of sender keys and colliding chain IDs among 2-4 users and 1-2 groups, judged step by step against an exact model of what each member must decrypt; "

func init() {
	groupCheck("C13", "histories", 8000, 200000, groupRule+"non-trivial: at least 4 decrypted, some out of order, some with kept keys or an older sender key",
		func(g *gworld) bool { return g.nRecv >= 4 && g.nReorder > 0 && g.nSkippedUse+g.nOldKey > 0 }, nil, "mixed", "mixed", "rotate", "skips", "burst")
	groupCheck("C14", "replays", 6000, 150000, groupRule+"at the end everything is presented again; non-trivial: at least 3 decrypted and 3 repetitions refused as duplicates",
		func(g *gworld) bool { return g.nRecv >= 3 && g.nDup >= 3 },
		func(g *gworld) *worldErr { return g.redeliver(40) }, "mixed", "mixed", "rotate", "skips", "burst")
	groupCheck("C14", "late", 4000, 100000, groupRule+"at the end members who have processed everything of a sender again are given everything of it again; non-trivial: a member joined late and at least 3 repetitions were refused",
		func(g *gworld) bool { return g.nLate > 0 && g.nDup >= 3 },
		func(g *gworld) *worldErr {
			for _, u := range g.us {
				for i, gd := range g.dists {
					if gd.k.sender == u.idx {
						continue
					}
					g.step++
					if err := g.process(u, gd, i%2 == 0); err != nil {
						return err
					}
				}
			}
			for _, u := range g.us {
				for _, m := range g.msgs {
					if m.k.sender == u.idx {
						continue
					}
					g.step++
					if err := g.deliver(u, m, false); err != nil {
						return err
					}
				}
			}
			return g.redeliver(20)
		}, "mixed", "rotate")
	groupCheck("C15", "forgeries", 2500, 60000, groupRule+"in between, altered, spliced, misattributed and forged messages (also by members with the right message keys) are presented to copies of the members; non-trivial: at least 5 refused and 2 genuine messages decrypted",
		func(g *gworld) bool { return g.nEvil >= 5 && g.nRecv >= 2 },
		func(g *gworld) *worldErr {
			if err := g.noSecrets(); err != nil {
				return err
			}
			return g.tryEvil(10, false)
		}, "evil", "evil", "evil", "rotate")
	vt.Register("C15", "every-bit", 120, 4000,
		"every bit of one group message at the end of a random history is flipped, and every prefix presented, to a copy of a member who can decrypt it; non-trivial: it can",
		func(t *rapid.T) GroupCase { return genGroup(t, "mixed", "rotate") },
		func(c *vt.Ctx, gc GroupCase) error {
			g := newGWorld(c, gc)
			if err := g.run(gc.Ops); err != nil {
				return verdict(c, err)
			}
			return verdict(c, g.everyBit(c))
		})
	groupCheck("C16", "distribution", 8000, 200000, groupRule+"non-trivial: at least 4 distribution messages processed, some again, and at least one key replaced or dropped or a late join",
		func(g *gworld) bool { return g.nProc >= 4 && g.nRepeat > 0 && g.nEvict+g.nReplace+g.nLate > 0 },
		func(g *gworld) *worldErr { return g.redeliver(20) }, "rotate", "rotate", "mixed", "burst")
	for _, p := range []string{"C13", "C14", "C16"} {
		groupCheck(p, "far", 300, 10000, "as the histories, with senders going on for up to 27,000 messages at once and distribution messages made there; non-trivial: a member got a distribution message again and 2 messages were decrypted",
			func(g *gworld) bool { return g.nRepeat > 0 && g.nRecv >= 2 },
			func(g *gworld) *worldErr { return g.redeliver(20) }, "far")
	}
}

func (g *gworld) everyBit(c *vt.Ctx) *worldErr {
	var m *gmsg
	var u *guser
	for _, x := range g.msgs {
		for _, y := range g.us {
			if st, _ := y.state(x); y.idx != x.k.sender && st != nil && st.k == x.k && x.n >= st.next && len(x.raw) < 300 {
				m, u = x, y
			}
		}
	}
	if m == nil {
		return nil
	}
	c.NonTrivial()
	q := g.fork(u)
	try := func(raw []byte, what string, n int) *worldErr {
		ct, err := message.NewSenderKeyFromBytes(append([]byte(nil), raw...))
		if err != nil {
			c.Class("refused by the parser")
			return nil
		}
		if _, err := g.sess(q, g.us[m.k.sender].addr, g.ds[m.k.dist]).DecryptMessage(bg, ct); err == nil {
			return wf([]string{"C15"}, "accepted: "+what, "%s %d of %x", what, n, m.raw)
		}
		c.Class("refused by the session")
		return nil
	}
	for i := 0; i < len(m.raw)*8; i++ {
		x := append([]byte(nil), m.raw...)
		x[i/8] ^= 1 << (i % 8)
		if err := try(x, "bit flipped", i); err != nil {
			return err
		}
	}
	for n := range m.raw {
		if err := try(m.raw[:n], "cut short", n); err != nil {
			return err
		}
	}
	return nil
}

// noSecrets looks for private signing keys where none may be.
func (g *gworld) noSecrets() *worldErr {
	for _, u := range g.us {
		for d, k := range u.own {
			r, ok := load3(u.st.Load(bg, u.addr, g.ds[d]))
			if !ok {
				continue
			}
			st := r.StateForChainID(k.chainID)
			if st == nil {
				continue
			}
			sk, err := st.PrivateSigningKey()
			if err != nil {
				return wf([]string{"C16", "C13"}, "sender without its signing key", "%v", err)
			}
			for _, gd := range g.dists {
				if bytes.Contains(gd.raw, sk.Bytes()) {
					return wf([]string{"C15"}, "private signing key in a distribution message", "%x", gd.raw)
				}
			}
			for _, m := range g.msgs {
				if bytes.Contains(m.raw, sk.Bytes()) {
					return wf([]string{"C15"}, "private signing key in a group message", "%x", m.raw)
				}
			}
		}
	}
	for _, gd := range g.dists {
		fs, ok := ref.ParseFields(gd.raw[1:])
		if !ok {
			continue
		}
		for _, f := range fs {
			if len(f.Bytes) == 32 && bytes.Equal(ref.Typed(ref.Public(f.Bytes)), gd.k.signing) {
				return wf([]string{"C15"}, "private signing key in a distribution message", "field %d", f.Num)
			}
		}
	}
	return nil
}
