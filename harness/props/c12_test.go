package props

import (
	"bytes"

	"pgregory.net/rapid"

	"github.com/RTann/libsignal-go/protocol/ratchet"

	"verif/vt"
)

// Gaps between the messages which exist, chosen around the windows.
func genGap(t *rapid.T) int {
	switch vt.Uni(t, 9, "gap") {
	case 0, 1:
		return vt.Uni(t, 40, "small")
	case 2:
		return winSkipped - 4 + vt.Uni(t, 8, "skipped")
	case 3:
		return winJump - 4 + vt.Uni(t, 8, "jump")
	case 4:
		return winSkipped/2 - 3 + vt.Uni(t, 6, "half")
	case 5:
		return winJump/2 - 3 + vt.Uni(t, 6, "halfjump")
	case 6:
		return vt.Uni(t, winSkipped+100, "any")
	case 7:
		return vt.Uni(t, 30000, "far")
	}
	return 0
}

// last makes take choose the newest message.
const last = -1

func genDeep(t *rapid.T) WorldCase {
	wc := WorldCase{Seed: vt.Bits(t, "seed"), Parties: 2, Same: vt.Uni(t, 4, "same") == 3, Byte: vt.Uni(t, 4, "byte") & vt.Uni(t, 4, "byte2")}
	add := func(op Op) { wc.Ops = append(wc.Ops, op) }
	add(Op{K: "open", M: vt.Uni(t, 2, "otpk")})
	switch vt.Uni(t, 3, "start") {
	case 1:
		add(Op{K: "talk"})
	case 2:
		add(Op{K: "send"})
		add(Op{K: "recv", A: 1})
	}
	for i := 1 + vt.Uni(t, 3, "rounds"); i > 0; i-- {
		dir := vt.Uni(t, 2, "dir")
		switch vt.Uni(t, 10, "lift") {
		case 0, 1:
			add(Op{K: "talk", A: 1 - dir})
			add(Op{K: "lift", A: dir, N: genBase(t)})
		case 2, 3: // some keys are kept, then others which differ from them in high bits of their positions
			add(Op{K: "send", A: dir, N: 1 + vt.Uni(t, 4, "kept")})
			add(Op{K: "recv", A: 1 - dir, N: last})
			add(Op{K: "lift", A: dir, N: vt.Pick(t, "bit", 8, 9, 12, 15, 16, 16, 24, 31), M: 1 + vt.Uni(t, 5, "off")})
			add(Op{K: "send", A: dir, N: 2 + vt.Uni(t, 5, "more")})
			add(Op{K: "recv", A: 1 - dir, N: last})
		}
		for j := 1 + vt.Uni(t, 4, "marks"); j > 0; j-- {
			add(Op{K: "jump", A: dir, N: genGap(t)})
			add(Op{K: "send", A: dir, N: vt.Uni(t, 3, "send")})
		}
		for j := 1 + vt.Uni(t, 5, "recvs"); j > 0; j-- {
			switch vt.Uni(t, 6, "what") {
			case 0:
				add(Op{K: "again", A: 1 - dir, N: vt.Uni(t, 8, "n"), M: vt.Uni(t, 3, "m")})
			default:
				add(Op{K: "recv", A: 1 - dir, N: vt.Uni(t, 12, "n"), M: vt.Uni(t, 3, "m")})
			}
		}
		if vt.Uni(t, 3, "talk") == 0 {
			add(Op{K: "talk", A: vt.Uni(t, 2, "who")})
		}
		if vt.Uni(t, 8, "open") == 0 {
			add(Op{K: "open", A: vt.Uni(t, 2, "who"), M: vt.Uni(t, 4, "m")})
		}
	}
	return wc
}

// jump moves the sender chain of a's session with b forward without sending.
func (w *world) jump(a, b *party, by int) *worldErr {
	e := a.rec(b.idx).cur
	if e == nil || by == 0 {
		return nil
	}
	rec, ok, err := a.st.Sess.Load(bg, b.addr)
	if err != nil || !ok || rec.State() == nil {
		return wf([]string{"C01", "C12"}, "session lost", "%v", err)
	}
	ck, err := rec.State().SenderChainKey()
	if err != nil {
		return wf([]string{"C01", "C12"}, "no sender chain", "%v", err)
	}
	for i := 0; i < by; i++ {
		ck = ck.Next()
	}
	if !trySet(rec.State(), "SetSenderChainKey", must(ratchet.NewChainKey(ck.Key(), e.sendIdx+uint32(by)))) {
		return nil
	}
	must0(a.st.Sess.Store(bg, b.addr, rec))
	a.restart()
	e.sendIdx += uint32(by)
	w.nJump++
	return nil
}

// genBase is a position after which chains go on, near powers of two.
func genBase(t *rapid.T) int {
	b := 1<<vt.Pick(t, "power", 8, 15, 16, 24, 31, 31, 32) - vt.Uni(t, 3000, "below")
	if vt.Uni(t, 2, "close") == 0 {
		b += 2500
	}
	return min(max(b, 0), 1<<32-150000)
}

// lift gives the next message of a to b another position, at both ends. What
// was sent in this chain before and has not arrived gets lost.
func (w *world) lift(a, b *party, n, off int) *worldErr {
	e := a.rec(b.idx).cur
	if e == nil || w.same {
		return nil
	}
	f, _ := b.rec(a.idx).find(e.lin)
	if f == nil {
		return nil
	}
	var ch *chain
	for _, x := range f.chains {
		if bytes.Equal(x.ratchet, e.ratchet) {
			ch = x
		}
	}
	if ch == nil || ch.next != e.sendIdx {
		return nil
	}
	if off > 0 { // N is the bit by which positions are to differ from kept ones
		n = 1<<n + off - 3
		if len(ch.skipped) > 0 {
			n += int(ch.skipped[0])
		}
	}
	if e.sendIdx >= uint32(n) || n > 1<<32-100000 {
		return nil
	}
	ra, ok1 := load3(a.st.Sess.Load(bg, b.addr))
	rb, ok2 := load3(b.st.Sess.Load(bg, a.addr))
	if !ok1 || !ok2 || ra.State() == nil || rb.State() == nil || b.rec(a.idx).cur != f {
		return nil
	}
	ck, err := ra.State().SenderChainKey()
	if err != nil {
		return wf([]string{"C01", "C12"}, "no sender chain", "%v", err)
	}
	nk := must(ratchet.NewChainKey(ck.Key(), uint32(n)))
	if !trySet(rb.State(), "SetReceiverChainKey", pub(e.ratchet), nk) || !trySet(ra.State(), "SetSenderChainKey", nk) {
		return nil
	}
	must0(a.st.Sess.Store(bg, b.addr, ra))
	must0(b.st.Sess.Store(bg, a.addr, rb))
	a.restart()
	b.restart()
	e.sendIdx, ch.next = uint32(n), uint32(n)
	w.nJump++
	w.c.Class("high position")
	return nil
}

func genDeepGroup(t *rapid.T) GroupCase {
	gc := GroupCase{Seed: vt.Bits(t, "seed"), Users: 2 + vt.Uni(t, 2, "users"), Dists: 1}
	add := func(op Op) { gc.Ops = append(gc.Ops, op) }
	high := vt.Uni(t, 5, "high")
	if high == 0 {
		add(Op{K: "dist"})
		add(Op{K: "lift", N: genBase(t)})
	}
	add(Op{K: "dist", M: 1})
	if high == 1 { // some keys are kept, then others which differ from them in high bits of their positions
		all := func() {
			for u := 1; u < gc.Users; u++ {
				add(Op{K: "recv", A: u, N: last})
			}
		}
		add(Op{K: "send", N: 1 + vt.Uni(t, 4, "kept")})
		all()
		add(Op{K: "align", N: vt.Pick(t, "bit", 8, 9, 12, 15, 16, 16, 24, 31), M: 1 + vt.Uni(t, 5, "off")})
		add(Op{K: "send", N: 2 + vt.Uni(t, 5, "more")})
		all()
	}
	for i := 1 + vt.Uni(t, 3, "rounds"); i > 0; i-- {
		for j := 1 + vt.Uni(t, 4, "marks"); j > 0; j-- {
			add(Op{K: "jump", N: genGap(t)})
			add(Op{K: "send", N: vt.Uni(t, 3, "send")})
			if vt.Uni(t, 10, "dist") == 0 {
				add(Op{K: "dist", M: 1})
			}
		}
		for j := 1 + vt.Uni(t, 6, "recvs"); j > 0; j-- {
			to := 1 + vt.Uni(t, gc.Users-1, "to")
			if vt.Uni(t, 6, "what") == 0 {
				add(Op{K: "again", A: to, N: vt.Uni(t, 8, "n"), M: vt.Uni(t, 2, "m")})
			} else {
				add(Op{K: "recv", A: to, N: vt.Uni(t, 12, "n"), M: vt.Uni(t, 2, "m")})
			}
		}
		if vt.Uni(t, 6, "rotate") == 0 {
			add(Op{K: "rotate", M: 1})
		}
	}
	return gc
}

// genArchive fills the archive about to its limit, with messages of every
// session left for later.
func genArchive(t *rapid.T) WorldCase {
	wc := WorldCase{Seed: vt.Bits(t, "seed"), Parties: 2, Byte: vt.Uni(t, 4, "byte") & vt.Uni(t, 4, "byte2")}
	add := func(op Op) { wc.Ops = append(wc.Ops, op) }
	left := [2]int{}
	session := func() {
		dir := 0
		if vt.Uni(t, 10, "other") == 9 {
			dir = 1
		}
		n := 1 + vt.Uni(t, 3, "n")
		add(Op{K: "open", A: dir, M: min(1, vt.Uni(t, 4, "otpk"))})
		add(Op{K: "send", A: dir, N: n})
		add(Op{K: "recv", A: 1 - dir, N: left[dir] + vt.Uni(t, n+1, "first")})
		left[dir] += n
	}
	for i := winArchived - 2 + vt.Uni(t, 6, "sessions"); i > 0; i-- {
		session()
	}
	for i := 2 + vt.Uni(t, 14, "steps"); i > 0; i-- {
		dir := 0
		if left[1] > 0 && vt.Uni(t, 6, "other") == 5 {
			dir = 1
		}
		n := 0
		switch vt.Uni(t, 4, "which") {
		case 0:
			n = vt.Uni(t, 8, "old")
		case 1:
			n = vt.Uni(t, 300, "any")
		case 2:
			n = last - vt.Uni(t, 6, "new")
		case 3:
			session()
			continue
		}
		if left[dir] > 0 {
			add(Op{K: "recv", A: 1 - dir, N: n, M: vt.Uni(t, 3, "m")})
			left[dir]--
		}
		switch vt.Uni(t, 12, "then") {
		case 0:
			add(Op{K: "reload", A: 1 - dir})
		case 1:
			add(Op{K: "again", A: 1 - dir, N: vt.Uni(t, 60, "n"), M: vt.Uni(t, 4, "m")})
		case 2:
			add(Op{K: "send", A: 1 - dir})
			left[1-dir]++
		}
	}
	return wc
}

func archiveCheck(prop string, quick, thorough int, post func(w *world) *worldErr) {
	vt.Register(prop, "archive", quick, thorough,
		"38 to 43 sessions, each with messages left for later, then those in any order, the oldest first or last, with further sessions in between, judged against the exact model; non-trivial: at least 40 sessions and 3 messages decrypted by archived ones",
		genArchive, func(c *vt.Ctx, wc WorldCase) error {
			w := newWorld(c, wc)
			err := w.run(wc.Ops)
			if err == nil {
				err = w.settle()
			}
			if err == nil && post != nil {
				err = post(w)
			}
			w.count()
			if w.nOpen >= winArchived && w.nArch >= 3 {
				c.NonTrivial()
			}
			return verdict(c, err)
		})
}

func deepCheck(prop, name string, quick, thorough int, rule string, post func(w *world) *worldErr) {
	vt.Register(prop, name, quick, thorough, rule, genDeep, func(c *vt.Ctx, wc WorldCase) error {
		w := newWorld(c, wc)
		w.deep = true
		err := w.run(wc.Ops)
		if err == nil {
			err = w.settle()
		}
		if err == nil && post != nil {
			err = post(w)
		}
		w.count()
		if w.nJump > 0 && w.nRecv >= 2 {
			c.NonTrivial()
		}
		return verdict(c, err)
	})
}

func deepGroupCheck(prop, name string, quick, thorough int, rule string, post func(g *gworld) *worldErr) {
	vt.Register(prop, name, quick, thorough, rule, genDeepGroup, func(c *vt.Ctx, gc GroupCase) error {
		g := newGWorld(c, gc)
		err := g.run(gc.Ops)
		if err == nil {
			err = g.settle()
		}
		if err == nil && post != nil {
			err = post(g)
		}
		g.count()
		if g.nRecv >= 2 {
			c.NonTrivial()
		}
		return verdict(c, err)
	})
}

const deepRule = "history whose chains are moved ahead by gaps around the windows (2,000 kept keys, 25,000 ahead) between messages, delivered in any order, judged against the exact model; a quarter between devices of one identity; non-trivial: chain moved ahead and at least 2 decrypted"
const deepGroupRule = "group history whose sender key is moved ahead by gaps around the windows between messages, delivered in any order to 1-2 members, judged against the exact model; non-trivial: at least 2 decrypted"

func init() {
	nt := func(w *world) bool { return w.nRecv >= 3 && (w.nRefused > 0 || w.nOldChain+w.nArch > 0) }
	archiveCheck("C12", 400, 12000, nil)
	archiveCheck("C01", 160, 4000, nil)
	archiveCheck("C02", 80, 4000, func(w *world) *worldErr { return w.redeliver(16) })
	deepCheck("C12", "positions", 640, 16000, deepRule, nil)
	deepGroupCheck("C12", "group-positions", 480, 12000, deepGroupRule, nil)
	worldCheck("C12", "sessions", 320, 12000, histRule+"many sessions, beyond the number of archived ones; non-trivial: at least 3 decrypted, some refused or in an older chain or session", nt, "fresh")
	worldCheck("C12", "chains", 2400, 80000, histRule+"many ratchet steps with messages delivered long after; non-trivial as for sessions", nt, "pong", "skips")
	groupCheck("C12", "sender-keys", 2000, 60000, "random group history with many rotations, distribution messages processed in any order; non-trivial: a sender key dropped or an older one used", func(g *gworld) bool { return g.nEvict > 0 || g.nOldKey > 0 }, nil, "rotate")
	deepCheck("C01", "positions", 160, 6000, deepRule, nil)
	deepGroupCheck("C13", "positions", 160, 6000, deepGroupRule, nil)
	deepCheck("C02", "positions", 120, 4000, deepRule+"; everything is presented again at the end", func(w *world) *worldErr { return w.redeliver(30) })
	deepGroupCheck("C14", "positions", 120, 4000, deepGroupRule+"; everything is presented again at the end", func(g *gworld) *worldErr { return g.redeliver(30) })
}
