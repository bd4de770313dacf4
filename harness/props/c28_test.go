package props

import (
	"bytes"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/vt"
)

// HealCase is a history, damage, and what the two do to talk again.
type HealCase struct {
	World  WorldCase `json:"world"`
	Who    int       `json:"who"`
	With   int       `json:"with"`
	Early  int       `json:"early"` // operations before storage is saved
	Rounds []HealOp  `json:"rounds"`
}

// HealOp is damage and one opening.
type HealOp struct {
	Back  int  `json:"back"`  // whose storage is set back: bit 0 the opener's, bit 1 the other's
	Lose  int  `json:"lose"`  // whose sessions are lost, likewise
	OTPK  bool `json:"otpk"`  // the bundle has a one-time pre-key
	Cross int  `json:"cross"` // the other opens a session as well: 1 first, 2 later, 3 later, and its message arrives first
	N     int  `json:"n"`     // messages before the reply
	Seed  int  `json:"seed"`
	Talk  int  `json:"talk"`
}

type healer struct {
	w     *world
	saved map[[2]int]*savedRecord
}

func (h *healer) save() {
	for _, a := range h.w.ps {
		for _, b := range h.w.ps {
			if a == b {
				continue
			}
			if rec, ok := load3(a.st.Sess.Load(bg, b.addr)); ok {
				if s, err := saveRecord(rec); err == nil {
					h.saved[[2]int{a.idx, b.idx}] = &s
				}
			}
		}
	}
}

// back sets a's sessions with b back.
func (h *healer) back(a, b *party) {
	if s := h.saved[[2]int{a.idx, b.idx}]; s != nil {
		if rec, err := loadRecord(*s); err == nil {
			must0(a.st.Sess.Store(bg, b.addr, rec))
			a.restart()
			h.w.c.Class("storage set back")
		}
	}
}

// lose makes a forget all sessions with b.
func (h *healer) lose(a, b *party) {
	n := newByteStore()
	for _, q := range h.w.ps {
		if q == a || q == b {
			continue
		}
		if rec, ok := load3(a.st.Sess.Load(bg, q.addr)); ok {
			if err := n.Store(bg, q.addr, rec); err != nil {
				return
			}
		}
	}
	a.st.Sess = n
	h.w.c.Class("sessions lost")
}

func healWrong(cat, format string, args ...any) *worldErr {
	return wf([]string{"C28"}, cat, format, args...)
}

type healMsg struct {
	pt, raw []byte
	pre     bool
}

func (h *healer) send(r *vt.DRBG, a, b *party, when string) (*healMsg, *worldErr) {
	pt := r.Bytes(r.Intn(50))
	vt.SetGlobal(vt.NewDRBG(r.Uint64()))
	ct, err := h.w.sess(a, b).EncryptMessage(bg, pt)
	if err != nil {
		return nil, healWrong("cannot write although a new session was opened", "%s: %v", when, err)
	}
	return &healMsg{pt, append([]byte(nil), ct.Bytes()...), ct.Type() == message.PreKeyType}, nil
}

func (h *healer) recv(r *vt.DRBG, a, b *party, m *healMsg, when string) *worldErr {
	in, err := parseAs(append([]byte(nil), m.raw...), m.pre)
	var pt []byte
	if err == nil {
		vt.SetGlobal(vt.NewDRBG(r.Uint64()))
		pt, err = h.w.sess(b, a).DecryptMessage(bg, h.w.twins.keys(vt.NewDRBG(r.Uint64()), b.idx, twinRatchet), in)
	}
	if err != nil {
		return healWrong("cannot read although a new session was opened", "%s: %v", when, err)
	}
	if !bytes.Equal(pt, m.pt) {
		return healWrong("wrong plaintext after a new session was opened", "%s: %x, want %x", when, pt, m.pt)
	}
	return nil
}

// states is how many sessions a holds with b.
func (h *healer) states(a, b *party) int {
	var rec *session.Record
	rec, ok := load3(a.st.Sess.Load(bg, b.addr))
	if !ok {
		return 0
	}
	prev, err := rec.PreviousStates()
	if err != nil {
		return -1
	}
	return len(prev)
}

func (h *healer) open(r *vt.DRBG, a, b *party, otpk bool, when string) *worldErr {
	// Both users have agreed to trust each other's keys.
	must(a.st.ID.Store(bg, b.addr, b.ident.IdentityKey()))
	must(b.st.ID.Store(bg, a.addr, a.ident.IdentityKey()))
	h.w.step++
	h.w.makeBundle(b, otpk, b.spks[r.Intn(len(b.spks))])
	vt.SetGlobal(vt.NewDRBG(r.Uint64()))
	if err := h.w.sess(a, b).ProcessPreKeyBundle(bg, h.w.twins.keys(vt.NewDRBG(r.Uint64()), a.idx, twinBase, twinRatchet), b.bundle); err != nil {
		return healWrong("cannot open a new session", "%s: %v", when, err)
	}
	return nil
}

func (h *healer) round(a, b *party, op HealOp, n int, when string) *worldErr {
	r := vt.NewDRBG(h.w.seed, uint64(op.Seed), uint64(n), 28)
	for i, p := range []*party{a, b} {
		q := a
		if p == a {
			q = b
		}
		if op.Lose>>i&1 == 1 {
			h.lose(p, q)
		}
		if op.Back>>i&1 == 1 {
			h.back(p, q)
		}
	}
	var m2 *healMsg
	other := func() *worldErr {
		if err := h.open(r, b, a, r.Intn(2) == 0, when+", the other's"); err != nil {
			return err
		}
		var err *worldErr
		m2, err = h.send(r, b, a, when+", the other's first message")
		return err
	}
	if op.Cross == 1 {
		if err := other(); err != nil {
			return err
		}
	}
	if err := h.open(r, a, b, op.OTPK, when); err != nil {
		return err
	}
	var ms []*healMsg
	for i := 0; i <= op.N; i++ {
		m, err := h.send(r, a, b, fmt.Sprintf("%s, message %d", when, i))
		if err != nil {
			return err
		}
		if !m.pre {
			return healWrong("the first messages of a new session do not establish it", "%s, message %d", when, i)
		}
		ms = append(ms, m)
	}
	if op.Cross >= 2 {
		if err := other(); err != nil {
			return err
		}
	}
	if m2 != nil && op.Cross == 3 {
		if err := h.recv(r, b, a, m2, when+", the other's first message"); err != nil {
			return err
		}
	}
	// Some of the messages arrive, in some order.
	got := 0
	for len(ms) > 0 {
		i := r.Intn(len(ms))
		if got == 0 || r.Intn(3) > 0 {
			if err := h.recv(r, a, b, ms[i], fmt.Sprintf("%s, one of the first messages", when)); err != nil {
				return err
			}
			got++
		}
		ms = append(ms[:i], ms[i+1:]...)
	}
	if m2 != nil && op.Cross != 3 {
		if err := h.recv(r, b, a, m2, when+", the other's first message"); err != nil {
			return err
		}
	}
	// An exchange in turn.
	x, y := b, a
	if m2 != nil && r.Intn(2) == 0 {
		x, y = a, b
	}
	for i := 0; i < 2; i++ {
		m, err := h.send(r, x, y, when+", exchange")
		if err != nil {
			return err
		}
		if err := h.recv(r, x, y, m, when+", exchange"); err != nil {
			return err
		}
		x, y = y, x
	}
	// Now they use the same session, and go on with it.
	na, nb := h.states(a, b), h.states(b, a)
	for i := 0; i < 2+op.Talk; i++ {
		if r.Intn(3) == 0 {
			x, y = y, x
		}
		n := 1 + r.Intn(2)
		for j := 0; j < n; j++ {
			m, err := h.send(r, x, y, when+", afterwards")
			if err != nil {
				return err
			}
			if m.pre {
				return healWrong("establishing messages after an exchange in a new session", "%s, %d afterwards", when, i)
			}
			if j < n-1 {
				continue // lost
			}
			if err := h.recv(r, x, y, m, when+", afterwards"); err != nil {
				return err
			}
		}
		x, y = y, x
	}
	if h.states(a, b) != na || h.states(b, a) != nb {
		return healWrong("the two do not settle on one session", "%s: %d and %d archived, before %d and %d", when, h.states(a, b), h.states(b, a), na, nb)
	}
	return nil
}

func init() {
	worldCheck("C28", "switching", 1600, 60000, histRule+"most with sessions opened by both at once and messages of older sessions arriving late; every message must be one of the session of the last message read, or of one opened since; non-trivial: a message decrypted by an archived session",
		func(w *world) bool { return w.nArch > 0 }, "cross", "cross", "fresh", "mixed")
	vt.Register("C28", "heal", 3200, 80000, "random history with hostile messages and reinstallations, then up to three times: sessions of either user lost or set back to an earlier time, a new session opened from a fresh bundle (perhaps by both, messages crossing), messages of which some arrive in any order, an exchange in turn, and a conversation; from the opening on everything must be written and read, the messages before the reply establish the session and those after the exchange do not, and nobody changes sessions any more; non-trivial: storage lost or set back, or both open",
		func(t *rapidT) HealCase {
			hc := HealCase{World: genWorld(t, "mixed", "cross", "evil", "trust", "fresh"), Who: vt.Uni(t, 3, "who"), With: vt.Uni(t, 2, "with"), Early: vt.Uni(t, 30, "early")}
			for i := 1 + vt.Uni(t, 3, "rounds"); i > 0; i-- {
				op := HealOp{OTPK: vt.Uni(t, 2, "otpk") == 0, Cross: max(0, vt.Uni(t, 6, "cross")-2), N: vt.Uni(t, 4, "n"), Seed: vt.Uni(t, 1<<20, "seed"), Talk: vt.Uni(t, 5, "talk")}
				op.Back, op.Lose = vt.Uni(t, 4, "back"), vt.Uni(t, 4, "lose")
				if vt.Uni(t, 2, "nolose") == 0 {
					op.Lose = 0
				}
				hc.Rounds = append(hc.Rounds, op)
			}
			return hc
		},
		func(c *vt.Ctx, hc HealCase) error {
			w := newWorld(c, hc.World)
			h := &healer{w, map[[2]int]*savedRecord{}}
			early := min(hc.Early, len(hc.World.Ops))
			err := w.run(hc.World.Ops[:early])
			h.save()
			if err == nil {
				err = w.run(hc.World.Ops[early:])
			}
			if err != nil {
				c.Class("violation of another property in the history")
			}
			w.step += 9000
			p := w.ps[hc.Who%len(w.ps)]
			q := w.ps[(p.idx+1+hc.With%(len(w.ps)-1))%len(w.ps)]
			for i, op := range hc.Rounds {
				a, b := p, q
				if op.Seed&1 == 1 {
					a, b = q, p
				}
				if op.Back != 0 || op.Lose != 0 || op.Cross != 0 {
					c.NonTrivial()
				}
				if err := h.round(a, b, op, i, fmt.Sprintf("opening %d", i)); err != nil {
					return verdict(c, err)
				}
				if i == 0 {
					h.save()
				}
			}
			return nil
		})
}
