package props

import (
	"bytes"

	"pgregory.net/rapid"

	"verif/ref"
	"verif/vt"
)

// run executes the ops of a case.
func (w *world) run(ops []Op) *worldErr {
	for _, op := range ops {
		w.step++
		if err := w.do(op); err != nil {
			return err
		}
		w.spy.world(w)
	}
	return nil
}

func (w *world) pair(op Op) (*party, *party) {
	n := len(w.ps)
	a := ((op.A % n) + n) % n
	b := ((op.B % (n - 1)) + n - 1) % (n - 1)
	if b >= a {
		b++
	}
	return w.ps[a], w.ps[b]
}

func (w *world) take(key [2]int, n int) *msg {
	in := w.inbox[key]
	if len(in) == 0 {
		return nil
	}
	i := (n%len(in) + len(in)) % len(in)
	if i > 0 {
		w.nReorder++
	}
	m := in[i]
	w.inbox[key] = append(in[:i:i], in[i+1:]...)
	w.done[key] = append(w.done[key], m)
	return m
}

func (w *world) do(op Op) *worldErr {
	a, b := w.pair(op)
	ab, ba := [2]int{a.idx, b.idx}, [2]int{b.idx, a.idx}
	switch op.K {
	case "open": // a opens a session to b
		return w.open(a, b, op.M&1 == 1, op.M&2 == 2, op.N)
	case "send":
		n := 1 + op.N
		for i := 0; i < n; i++ {
			if _, err := w.send(a, b, i); err != nil {
				return err
			}
			w.step++
		}
	case "recv": // a gets a message of b
		if m := w.take(ba, op.N); m != nil {
			return w.deliver(m, op.M%3)
		}
	case "evil": // made-up things are presented to copies of the parties
		if !w.noEvil {
			return w.tryEvil(1+op.N, op.M&1 == 1)
		}
	case "flush": // a gets everything of b, in one of several orders
		r := w.rng(40)
		for len(w.inbox[ba]) > 0 {
			n := 0
			switch op.M % 4 {
			case 1:
				n = len(w.inbox[ba]) - 1
			case 2:
				n = r.Intn(len(w.inbox[ba]))
			case 3:
				if r.Intn(3) == 0 {
					n = r.Intn(len(w.inbox[ba]))
				}
			}
			if err := w.deliver(w.take(ba, n), formBytes); err != nil {
				return err
			}
			w.step++
		}
	case "jump":
		return w.jump(a, b, op.N)
	case "lift":
		return w.lift(a, b, op.N, op.M)
	case "drop":
		w.take(ba, op.N)
	case "again": // a gets a message of b which was presented before
		if d := w.done[ba]; len(d) > 0 {
			return w.deliver(d[len(d)-1-op.N%len(d)], op.M%4)
		}
	case "rotate":
		w.newSPK(a)
	case "reinstall":
		w.install(a)
		return w.audit(a)
	case "approve": // a's user stores b's present identity
		must(a.st.ID.Store(bg, b.addr, b.ident.IdentityKey()))
		a.pinned[b.idx] = b.identBytes()
		w.tr("approve %d %d", a.idx, b.idx)
		return w.audit(a)
	case "clear":
		must0(a.st.ID.Clear())
		a.pinned = map[int][]byte{}
		return w.audit(a)
	case "talk": // a sends op.N+1 messages, b gets the last and replies, a gets the reply
		for i := 0; i <= op.N; i++ {
			if _, err := w.send(a, b, i); err != nil {
				return err
			}
			w.step++
		}
		if in := w.inbox[ab]; len(in) > 0 {
			if err := w.deliver(w.take(ab, len(in)-1), formBytes); err != nil {
				return err
			}
		}
		w.step++
		if _, err := w.send(b, a, 0); err != nil {
			return err
		}
		w.step++
		if in := w.inbox[ba]; len(in) > 0 {
			return w.deliver(w.take(ba, len(in)-1), formBytes)
		}
	case "reload": // a saves all sessions as bytes and goes on with what it loads
		if !w.noReload {
			return w.reload(a)
		}
	}
	return nil
}

func (w *world) reload(a *party) *worldErr {
	for _, b := range w.ps {
		if a == b {
			continue
		}
		r, ok, err := a.st.Sess.Load(bg, b.addr)
		if err != nil {
			return wf([]string{"C19"}, "cannot load a session", "%v", err)
		}
		if !ok {
			continue
		}
		s, err := saveRecord(r)
		if err != nil {
			return wf([]string{"C19"}, "cannot serialize a session", "%v", err)
		}
		r2, err := loadRecord(s)
		if err != nil {
			return wf([]string{"C19"}, "cannot load a serialized session", "%v", err)
		}
		s2, err := saveRecord(r2)
		if err != nil || !sameSaved(s, s2) {
			return wf([]string{"C19"}, "a session changes when it is serialized and loaded", "%v", err)
		}
		must0(a.st.Sess.Store(bg, b.addr, r2))
		a.restart()
		w.nReload++
	}
	return nil
}

func sameSaved(a, b savedRecord) bool {
	if !bytes.Equal(a.cur, b.cur) || len(a.prev) != len(b.prev) {
		return false
	}
	for i := range a.prev {
		if !bytes.Equal(a.prev[i], b.prev[i]) {
			return false
		}
	}
	return true
}

// settle delivers everything still in flight, in a fixed mixed order.
func (w *world) settle() *worldErr {
	w.step += 1000
	for _, a := range w.ps {
		for _, b := range w.ps {
			if a == b {
				continue
			}
			key := [2]int{b.idx, a.idx}
			for i := 0; len(w.inbox[key]) > 0; i++ {
				n := 0
				if i%3 == 1 {
					n = len(w.inbox[key]) - 1
				}
				if err := w.deliver(w.take(key, n), formBytes); err != nil {
					return err
				}
				w.step++
			}
		}
	}
	return nil
}

// profile is a distribution over ops.
type profile struct {
	name   string
	minOps int
	maxOps int
	w      []wop
}

type wop struct {
	k    string
	w    int
	maxN int
	maxM int
}

var profiles = map[string]profile{
	"mixed": {"mixed", 5, 60, []wop{{"open", 3, 2, 4}, {"send", 10, 3, 1}, {"recv", 12, 6, 3}, {"flush", 2, 1, 4}, {"drop", 1, 4, 1}, {"again", 3, 8, 3}, {"rotate", 1, 1, 1}, {"talk", 2, 2, 1}, {"reload", 1, 1, 1}}},
	"pong":  {"pong", 10, 50, []wop{{"open", 1, 2, 4}, {"send", 8, 2, 1}, {"recv", 8, 20, 3}, {"flush", 1, 1, 4}, {"again", 2, 30, 3}, {"talk", 10, 2, 1}, {"drop", 1, 4, 1}}},
	"cross": {"cross", 5, 40, []wop{{"open", 10, 3, 4}, {"send", 12, 2, 1}, {"recv", 14, 8, 3}, {"flush", 1, 1, 4}, {"again", 3, 20, 4}, {"rotate", 2, 1, 1}, {"reload", 1, 1, 1}}},
	"trust": {"trust", 8, 60, []wop{{"open", 8, 2, 4}, {"send", 12, 2, 1}, {"recv", 14, 8, 3}, {"flush", 2, 1, 4}, {"again", 2, 20, 3}, {"reinstall", 3, 1, 1}, {"approve", 4, 1, 1}, {"clear", 1, 1, 1}, {"rotate", 1, 1, 1}, {"talk", 2, 1, 1}}},
	"again": {"again", 8, 50, []wop{{"open", 4, 2, 4}, {"send", 10, 4, 1}, {"recv", 12, 8, 3}, {"flush", 2, 1, 4}, {"again", 14, 40, 4}, {"talk", 4, 2, 1}, {"reload", 1, 1, 1}}},
	"fresh": {"fresh", 30, 120, []wop{{"open", 10, 2, 4}, {"send", 6, 1, 1}, {"recv", 8, 40, 3}, {"again", 3, 60, 3}}},
	"evil":  {"evil", 6, 40, []wop{{"open", 4, 2, 4}, {"send", 10, 3, 1}, {"recv", 10, 8, 3}, {"flush", 1, 1, 4}, {"evil", 16, 6, 1}, {"again", 1, 8, 4}, {"rotate", 1, 1, 1}, {"talk", 4, 2, 1}, {"reinstall", 1, 1, 1}, {"approve", 2, 1, 1}}},
	"otpk":  {"otpk", 6, 45, []wop{{"open", 10, 2, 4}, {"send", 10, 2, 1}, {"recv", 14, 8, 3}, {"flush", 1, 1, 4}, {"again", 4, 20, 4}, {"evil", 5, 4, 2}, {"rotate", 1, 1, 1}, {"reinstall", 1, 1, 1}, {"approve", 2, 1, 1}}},
	"pins":  {"pins", 8, 50, []wop{{"open", 8, 2, 4}, {"send", 12, 2, 1}, {"recv", 14, 8, 3}, {"flush", 2, 1, 4}, {"again", 2, 20, 3}, {"reinstall", 4, 1, 1}, {"approve", 5, 1, 1}, {"clear", 1, 1, 1}, {"evil", 5, 4, 2}, {"talk", 2, 1, 1}}},
	"skips": {"skips", 8, 40, []wop{{"open", 1, 2, 4}, {"send", 10, 25, 1}, {"recv", 14, 60, 3}, {"flush", 1, 1, 4}, {"again", 4, 60, 3}, {"talk", 2, 6, 1}, {"drop", 2, 30, 1}}},
}

func genOp(p profile, t *rapid.T) Op {
	total := 0
	for _, o := range p.w {
		total += o.w
	}
	x := vt.Uni(t, total, "op")
	var o wop
	for _, o = range p.w {
		if x < o.w {
			break
		}
		x -= o.w
	}
	op := Op{K: o.k}
	op.A = vt.Uni(t, 3, "a")
	op.B = vt.Uni(t, 2, "b")
	if o.maxN > 1 {
		op.N = vt.Uni(t, o.maxN, "n")
		if vt.Uni(t, 3, "small") == 0 {
			op.N = vt.Uni(t, op.N+1, "n2")
		}
	}
	if o.maxM > 1 {
		op.M = vt.Uni(t, o.maxM, "m")
	}
	return op
}

// genWorld draws a history of one of the profiles.
func genWorld(t *rapid.T, profs ...string) WorldCase {
	wc := WorldCase{Seed: vt.Bits(t, "seed")}
	p := profiles[vt.Pick(t, "profile", profs...)]
	wc.Parties = 2
	if vt.Uni(t, 4, "three") == 3 {
		wc.Parties = 3
	}
	wc.Same = vt.Uni(t, 8, "same") == 7
	wc.Byte = vt.Uni(t, 4, "byte")
	n := p.minOps + vt.Uni(t, p.maxOps-p.minOps+1, "len")
	// Histories start with something to talk about.
	wc.Ops = append(wc.Ops, Op{K: "open", M: rapid.IntRange(0, 1).Draw(t, "otpk")}, Op{K: "send", N: rapid.IntRange(0, 2).Draw(t, "first")})
	wc.Ops = append(wc.Ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op { return genOp(p, t) }), n, n).Draw(t, "ops")...)
	return wc
}

// redeliver presents everything presented before once more, in every form.
func (w *world) redeliver(limit int) *worldErr {
	w.step += 1000
	for _, a := range w.ps {
		for _, b := range w.ps {
			d := w.done[[2]int{b.idx, a.idx}]
			if a == b || len(d) == 0 {
				continue
			}
			for i := 0; i < len(d) && i < limit; i++ {
				m := d[len(d)-1-i]
				for _, form := range []int{formBytes, formObj, formInner, formWrapped} {
					if err := w.deliver(m, form); err != nil {
						return err
					}
					w.step++
				}
				if err := w.disguised(m); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// disguised presents a message once more, within establishing messages whose
// unauthenticated parts are other ones.
func (w *world) disguised(m *msg) *worldErr {
	a, b := w.ps[m.from], w.ps[m.to]
	if m.delivered == 0 || vt.NewDRBG(w.seed, w.step, 54).Intn(4) > 0 {
		return nil
	}
	if o, _, _, _ := w.predict(m, a, b, true); o == outOK {
		return nil // the session is forgotten
	}
	for i := 0; i < 3; i++ {
		r := vt.NewDRBG(w.seed, w.step, 55, uint64(i))
		base, what := append([]byte(nil), m.lin.base...), "same base key"
		switch {
		case i == 0:
			base[32] ^= 0x80
			what = "base key with another last bit"
		case r.Intn(3) == 0:
			base, what = randomKey(r), "new base key"
		case r.Intn(2) == 0:
			base, what = w.allMsgs[r.Intn(len(w.allMsgs))].lin.base, "some base key"
		}
		body := []byte{0x33}
		switch {
		case r.Intn(3) == 0:
			if m.lin.otpk != nil {
				body = ref.PU(body, 1, uint64(m.lin.otpk.id))
			}
		case len(b.otpks) > 0 && r.Intn(3) > 0:
			body = ref.PU(body, 1, uint64(b.otpks[r.Intn(len(b.otpks))].id))
		}
		spk := m.lin.spk.id
		if r.Intn(3) == 0 {
			spk = b.spks[r.Intn(len(b.spks))].id
		}
		body = ref.PB(body, 2, base)
		body = ref.PB(body, 3, m.ident)
		body = ref.PB(body, 4, m.inner())
		body = ref.PU(body, 5, uint64(r.Uint64()&0x3fff))
		body = ref.PU(body, 6, uint64(spk))
		ct, err := parseAs(body, true)
		if err != nil {
			continue
		}
		vt.SetGlobal(vt.NewDRBG(w.seed, w.step, 57, uint64(i)))
		f := w.fork(b)
		if _, err := w.sessTo(f, a.addr).DecryptMessage(bg, vt.NewDRBG(w.seed, w.step, 56, uint64(i)), ct); err == nil {
			if e := concerning(w.c, wf([]string{"C02"}, "decrypted again within another establishing message: "+what, "message %d of %d->%d", m.id, m.from, m.to)); e != nil {
				return e
			}
		}
		w.c.Class("disguised repetition refused: " + what)
	}
	return nil
}

// worldCheck registers a check of a property over histories.
func worldCheck(prop, name string, quick, thorough int, rule string, nontrivial func(w *world) bool, profs ...string) {
	worldCheckPost(prop, name, quick, thorough, rule, nontrivial, nil, profs...)
}

func worldCheckPost(prop, name string, quick, thorough int, rule string, nontrivial func(w *world) bool, post func(w *world) *worldErr, profs ...string) {
	vt.Register(prop, name, quick, thorough, rule,
		func(t *rapid.T) WorldCase { return genWorld(t, profs...) },
		func(c *vt.Ctx, wc WorldCase) error {
			w := newWorld(c, wc)
			err := w.run(wc.Ops)
			if err == nil {
				err = w.settle()
			}
			if err == nil && post != nil {
				err = post(w)
			}
			w.count()
			if nontrivial(w) {
				c.NonTrivial()
			}
			return verdict(c, err)
		})
}

func (w *world) count() {
	c := w.c
	c.ClassN("messages sent", w.nSend)
	c.ClassN("messages decrypted", w.nRecv)
	c.ClassN("sessions opened", w.nOpen)
	c.ClassN("deliveries out of order", w.nReorder)
	c.ClassN("repeated deliveries refused", w.nDup)
}

type rapidT = rapid.T

func histCase(profs ...string) func(t *rapid.T) WorldCase {
	return func(t *rapid.T) WorldCase { return genWorld(t, profs...) }
}

func histGroup(profs ...string) func(t *rapid.T) GroupCase {
	return func(t *rapid.T) GroupCase { return genGroup(t, profs...) }
}
