package props

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"pgregory.net/rapid"

	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"

	"verif/vt"
)

func init() {
	historyCheck("C05", "faults", 500, 20000,
		"at the end of a random history every kind of operation (opening, encrypting, decrypting) is run on copies of a user, with a fault at every call it makes of a store (before its effect, after it, by a cancelled context, with values returned together with the error), then repeated without fault, possibly after a second fault; compared with the run without fault; non-trivial: an operation with at least 3 store calls which succeeds without faults",
		func(w *world) *worldErr { return w.faults() },
		"mixed", "cross", "trust", "pong", "otpk")
	historyCheck("C05", "randomness", 700, 20000,
		"likewise with a source of randomness which fails after some number of bytes, and with one which gives a byte at a time; non-trivial: the operation needs randomness",
		func(w *world) *worldErr { return w.randomness() },
		"mixed", "cross", "trust", "pong", "otpk")
	vt.Register("C05", "groups", 600, 20000,
		"the same for group operations (creating and processing distribution messages, encrypting, decrypting) at the end of a random group history; non-trivial: an operation with a store call or randomness which succeeds without faults",
		func(t *rapid.T) GroupCase { return genGroup(t, "mixed") },
		func(c *vt.Ctx, gc GroupCase) error {
			g := newGWorld(c, gc)
			if err := g.run(gc.Ops); err != nil {
				return verdict(c, err)
			}
			g.step += 1000
			return verdict(c, g.faults())
		})
}

// operation is something a party does with a peer.
type operation struct {
	kind string
	p    *party
	peer *party
	m    *msg
	run  func(ctx context.Context, q *party, r io.Reader) (out []byte, obj message.Ciphertext, err error)
}

// operations lists one operation of each kind possible now.
func (w *world) operations(r *vt.DRBG) []*operation {
	var ops []*operation
	a := w.ps[r.Intn(len(w.ps))]
	b := w.ps[(a.idx+1+r.Intn(len(w.ps)-1))%len(w.ps)]
	if pin := a.pinned[b.idx]; pin == nil || bytes.Equal(pin, b.identBytes()) {
		w.makeBundle(b, r.Intn(2) == 0, b.spks[r.Intn(len(b.spks))])
		bd := b.bundle
		ops = append(ops, &operation{kind: "open", p: a, peer: b, run: func(ctx context.Context, q *party, r io.Reader) ([]byte, message.Ciphertext, error) {
			return nil, nil, w.sessTo(q, b.addr).ProcessPreKeyBundle(ctx, r, bd)
		}})
	}
	for _, a := range w.ps {
		b := w.ps[(a.idx+1+r.Intn(len(w.ps)-1))%len(w.ps)]
		e := a.rec(b.idx).cur
		if e == nil || a.pinned[b.idx] != nil && !bytes.Equal(a.pinned[b.idx], e.remote) {
			continue
		}
		ops = append(ops, &operation{kind: "encrypt", p: a, peer: b, run: func(ctx context.Context, q *party, r io.Reader) ([]byte, message.Ciphertext, error) {
			ct, err := w.sessTo(q, b.addr).EncryptMessage(ctx, []byte("to be encrypted"))
			if err != nil {
				if ct != nil {
					return []byte("a ciphertext"), nil, err
				}
				return nil, nil, err
			}
			return ct.Bytes(), ct, nil
		}})
		break
	}
	var ms []*msg
	for _, in := range w.inboxes() {
		ms = append(ms, in...)
	}
	for n := 0; len(ms) > 0 && n < 2; {
		i := r.Intn(len(ms))
		m := ms[i]
		ms = append(ms[:i:i], ms[i+1:]...)
		if o, _, _, _ := w.predict(m, w.ps[m.from], w.ps[m.to], m.pre); o != outOK {
			continue
		}
		n++
		a, b := w.ps[m.from], w.ps[m.to]
		ops = append(ops, &operation{kind: "decrypt", p: b, peer: a, m: m, run: func(ctx context.Context, q *party, r io.Reader) ([]byte, message.Ciphertext, error) {
			pt, err := w.sessTo(q, a.addr).DecryptMessage(ctx, r, m.present(formBytes, nil))
			return pt, nil, err
		}})
	}
	return ops
}

// inboxes lists the messages in flight in a fixed order.
func (w *world) inboxes() [][]*msg {
	var out [][]*msg
	for i := range w.ps {
		for j := range w.ps {
			if in := w.inbox[[2]int{i, j}]; len(in) > 0 {
				out = append(out, in)
			}
		}
	}
	return out
}

func (w *world) opRand(i int) (io.Reader, *vt.DRBG) {
	return vt.NewDRBG(w.seed, w.step, 110, uint64(i)), vt.NewDRBG(w.seed, w.step, 111, uint64(i))
}

// lockstep compares what a party can do after a repeated operation with what it
// can do after the operation went well at once.
func (w *world) lockstep(op *operation, base, f *party) string {
	// Messages still in flight.
	n := 0
	for _, m := range w.inbox[[2]int{op.peer.idx, op.p.idx}] {
		if n++; n > 5 || m == op.m {
			continue
		}
		vt.SetGlobal(w.rng(120))
		p1, e1 := w.sessTo(w.fork(base), op.peer.addr).DecryptMessage(bg, w.rng(121), m.present(formBytes, nil))
		vt.SetGlobal(w.rng(120))
		p2, e2 := w.sessTo(w.fork(f), op.peer.addr).DecryptMessage(bg, w.rng(121), m.present(formBytes, nil))
		if e1 != nil && e2 == nil && op.m != nil && op.m.pre && m.pre {
			continue // the one-time pre-key may not have been removed
		}
		if (e1 == nil) != (e2 == nil) || !bytes.Equal(p1, p2) {
			return fmt.Sprintf("message %d then gives %v, otherwise %v", m.id, e2, e1)
		}
	}
	// An exchange.
	try := func(q *party) string {
		vt.SetGlobal(w.rng(122))
		ct, err := w.sessTo(q, op.peer.addr).EncryptMessage(bg, []byte("ping"))
		if err != nil {
			return "cannot encrypt: " + err.Error()
		}
		peer := w.fork(op.peer)
		pt, err := w.sessTo(peer, op.p.addr).DecryptMessage(bg, w.rng(123), ct)
		if err != nil || string(pt) != "ping" {
			return "peer cannot decrypt"
		}
		vt.SetGlobal(w.rng(124))
		ct, err = w.sessTo(peer, op.p.addr).EncryptMessage(bg, []byte("pong"))
		if err != nil {
			return "peer cannot encrypt: " + err.Error()
		}
		pt, err = w.sessTo(q, op.peer.addr).DecryptMessage(bg, w.rng(125), ct)
		if err != nil || string(pt) != "pong" {
			return "cannot decrypt the reply"
		}
		return "works"
	}
	if x, y := try(w.fork(base)), try(w.fork(f)); x != y {
		return fmt.Sprintf("an exchange afterwards: %s; otherwise: %s", y, x)
	}
	return ""
}

// position of a message, and whether a copy of its receiver decrypts it.
func (w *world) readable(op *operation, ct message.Ciphertext) (uint32, bool) {
	sm, ok := ct.(*message.Signal)
	if x, pre := ct.(*message.PreKey); pre {
		sm, ok = x.Message(), true
	}
	if !ok {
		return 0, false
	}
	vt.SetGlobal(w.rng(126))
	pt, err := w.sessTo(w.fork(op.peer), op.p.addr).DecryptMessage(bg, w.rng(127), ct)
	return sm.Counter(), err == nil && string(pt) == "to be encrypted"
}

func (w *world) faults() *worldErr {
	r := w.rng(128)
	ops := w.operations(r)
	for i, op := range ops {
		base := w.fork(op.p)
		count := newFault(faultNone, -1)
		rd, gl := w.opRand(i)
		vt.SetGlobal(gl)
		out0, obj0, err := op.run(count.ctx, base.with(count), rd)
		if err != nil {
			w.c.Class("operation refused without faults")
			continue
		}
		if count.n >= 3 {
			w.c.NonTrivial()
		}
		w.c.ClassN("store calls of "+op.kind, count.n)
		end := w.snapshot(base)
		var pos0 uint32
		var read0 bool
		if op.kind == "encrypt" {
			pos0, read0 = w.readable(op, obj0)
		}
		for mode := faultBefore; mode < faultModes; mode++ {
			for at := -1; at < count.n; at++ {
				if at < 0 && mode != faultCancel {
					continue
				}
				f := w.fork(op.p)
				fl := newFault(mode, at)
				if at < 0 {
					fl.cancel()
				}
				// The same session objects go on after the fault.
				var now fault
				fq := f.with(&now)
				try := func(one *fault) *worldErr {
					now = *one
					defer func() { *one = now }()
					fl := &now
					rd, gl := w.opRand(i)
					vt.SetGlobal(gl)
					out, _, err := op.run(fl.ctx, fq, rd)
					d := fmt.Sprintf("%s by %d, fault at call %d (%s) %s", op.kind, op.p.idx, fl.at, fl.name, faultNames[fl.mode])
					w.c.Logf("%s: %v", d, err)
					if err == nil {
						return wf([]string{"C05"}, op.kind+" succeeds although a store failed: "+fl.name, "%s", d)
					}
					if out != nil {
						return wf([]string{"C05"}, op.kind+" gives a result although a store failed", "%s", d)
					}
					return nil
				}
				if err := try(fl); err != nil {
					return err
				}
				saved := fl.saved
				if r.Intn(4) == 0 && !saved && count.n > 0 { // a second fault
					f2 := newFault(faultBefore+r.Intn(2), r.Intn(count.n))
					if err := try(f2); err != nil {
						return err
					}
					saved = f2.saved
				}
				rd, gl := w.opRand(i)
				vt.SetGlobal(gl)
				now = *newFault(faultNone, -1)
				out, obj, err := op.run(bg, fq, rd)
				d := fmt.Sprintf("%s by %d after a fault at call %d (%s) %s, session saved: %v", op.kind, op.p.idx, at, fl.name, faultNames[mode], saved)
				switch op.kind {
				case "open":
					if err != nil {
						return wf([]string{"C05"}, "opening cannot be repeated after a fault", "%s: %v", d, err)
					}
				case "encrypt":
					if err != nil {
						return wf([]string{"C05"}, "encrypting cannot be repeated after a fault", "%s: %v", d, err)
					}
					pos, read := w.readable(op, obj)
					if read != read0 {
						return wf([]string{"C05"}, "message encrypted after a fault cannot be decrypted", "%s", d)
					}
					if pos != pos0 && !(saved && pos == pos0+1) {
						return wf([]string{"C05", "C18"}, "message encrypted after a fault at an unexpected position", "%s: %d, without fault %d", d, pos, pos0)
					}
					if pos == pos0 && !bytes.Equal(out, out0) {
						return wf([]string{"C05"}, "another message encrypted after a fault", "%s", d)
					}
				case "decrypt":
					if saved && errors.Is(err, perrors.ErrDuplicateMessage) {
						w.c.Class("reported as duplicate after a fault")
						break
					}
					if err != nil {
						return wf([]string{"C05"}, "message lost by a fault", "%s: %v", d, err)
					}
					if !bytes.Equal(out, out0) {
						return wf([]string{"C05"}, "another plaintext after a fault", "%s", d)
					}
				}
				if !saved {
					if s := w.snapshot(f); s != end {
						return wf([]string{"C05"}, "stores differ after repeating an operation which failed: "+op.kind, "%s: %s", d, firstDiff(end, s))
					}
					w.c.Class("repeated with the same result")
				}
				if saved || at%3 == 0 {
					if s := w.lockstep(op, base, f); s != "" {
						return wf([]string{"C05"}, "something lost by a fault: "+op.kind, "%s: %s", d, s)
					}
				}
			}
		}
	}
	return nil
}

// ratchets lists the sending ratchet keys of all sessions of p with a peer.
func (w *world) ratchets(p, peer *party) map[string]bool {
	out := map[string]bool{}
	rec, ok := load3(p.st.Sess.Load(bg, peer.addr))
	if !ok {
		return out
	}
	prev := must(rec.PreviousStates())
	if rec.State() != nil {
		prev = append(prev, rec.State())
	}
	for _, st := range prev {
		if k, err := st.SenderRatchetKey(); err == nil {
			out[string(k.Bytes())] = true
		}
	}
	return out
}

func offsets(r *vt.DRBG, n int) []int {
	set := []int{0, 1, 31, 32, 33, 63, 64, n - 32, n - 1}
	for i := 0; i < 3 && n > 0; i++ {
		set = append(set, r.Intn(n))
	}
	seen := map[int]bool{}
	var out []int
	for _, x := range set {
		if x >= 0 && x < n && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func (w *world) randomness() *worldErr {
	r := w.rng(130)
	for i, op := range w.operations(r) {
		base := w.fork(op.p)
		rd, gl := w.opRand(i)
		vt.SetGlobal(gl)
		src := rd.(*vt.DRBG)
		out0, _, err := op.run(bg, base, src)
		if err != nil {
			continue
		}
		end := w.snapshot(base)
		if src.N > 0 {
			w.c.NonTrivial()
			w.c.Class("needs randomness: " + op.kind)
		}
		// A byte at a time.
		f := w.fork(op.p)
		rd, gl = w.opRand(i)
		vt.SetGlobal(&oneByte{gl})
		out, _, err := op.run(bg, f, &oneByte{rd})
		if err != nil || !bytes.Equal(out, out0) || w.snapshot(f) != end {
			return wf([]string{"C05"}, op.kind+" differs when randomness comes a byte at a time", "%v: %s", err, firstDiff(end, w.snapshot(f)))
		}
		before := w.snapshot(op.p)
		for _, at := range offsets(r, src.N) {
			f := w.fork(op.p)
			old := w.ratchets(f, op.peer)
			rd, gl := w.opRand(i)
			vt.SetGlobal(gl)
			bad := rd.(*vt.DRBG)
			bad.FailAt = at
			out, _, err := op.run(bg, f, bad)
			d := fmt.Sprintf("%s by %d, randomness ends after %d of %d bytes", op.kind, op.p.idx, at, src.N)
			if err == nil && op.kind == "decrypt" && bytes.Equal(out, out0) && w.snapshot(f) == end {
				// Some was drawn for sessions which did not match.
				w.c.Class("randomness not needed after all")
				continue
			}
			if err == nil {
				for k := range w.ratchets(f, op.peer) {
					if !old[k] {
						return wf([]string{"C05", "C18"}, op.kind+" succeeds without randomness", "%s", d)
					}
				}
				if op.kind != "decrypt" || !bytes.Equal(out, out0) {
					return wf([]string{"C05"}, op.kind+" succeeds without randomness", "%s", d)
				}
				w.c.Class("randomness not needed after all")
				continue
			}
			if out != nil {
				return wf([]string{"C05"}, op.kind+" gives a result although randomness failed", "%s", d)
			}
			if s := w.snapshot(f); s != before {
				return wf([]string{"C05", "C04"}, op.kind+" changes the stores although randomness failed", "%s: %s", d, firstDiff(before, s))
			}
			rd, gl = w.opRand(i)
			vt.SetGlobal(gl)
			out, _, err = op.run(bg, f, rd)
			if err != nil || !bytes.Equal(out, out0) || w.snapshot(f) != end {
				return wf([]string{"C05"}, op.kind+" cannot be repeated after randomness failed", "%s: %v: %s", d, err, firstDiff(end, w.snapshot(f)))
			}
		}
	}
	return nil
}

// goperation is something a user does in a group.
type goperation struct {
	kind string
	u    *guser
	d    int
	run  func(ctx context.Context, q *guser, r io.Reader) ([]byte, error)
}

func (g *gworld) operations(r *vt.DRBG) []*goperation {
	var ops []*goperation
	u := g.us[r.Intn(len(g.us))]
	d := r.Intn(len(g.ds))
	ops = append(ops, &goperation{"distribute", u, d, func(ctx context.Context, q *guser, r io.Reader) ([]byte, error) {
		m, err := g.sess(q, u.addr, g.ds[d]).NewSenderKeyDistribution(ctx, r)
		if m == nil {
			return nil, err
		}
		return append([]byte{}, m.Bytes()...), err
	}})
	for _, u := range g.us {
		for d := range g.ds {
			if u.own[d] == nil {
				continue
			}
			ops = append(ops, &goperation{"encrypt", u, d, func(ctx context.Context, q *guser, r io.Reader) ([]byte, error) {
				m, err := g.sess(q, u.addr, g.ds[d]).EncryptMessage(ctx, r, []byte("to be encrypted"))
				if m == nil {
					return nil, err
				}
				return append([]byte{}, m.Bytes()...), err
			}})
			break
		}
	}
	if len(g.dists) > 0 {
		gd := g.dists[r.Intn(len(g.dists))]
		u := g.us[(gd.k.sender+1+r.Intn(len(g.us)-1))%len(g.us)]
		ops = append(ops, &goperation{"process", u, gd.k.dist, func(ctx context.Context, q *guser, r io.Reader) ([]byte, error) {
			m, err := message.NewSenderKeyDistributionFromBytes(append([]byte(nil), gd.raw...))
			if err != nil {
				return nil, err
			}
			return nil, g.sess(q, g.us[gd.k.sender].addr, g.ds[gd.k.dist]).ProcessSenderKeyDistribution(ctx, m)
		}})
	}
	for _, u := range g.us {
		n := 0
		for _, m := range u.inbox {
			if n++; n > 2 {
				break
			}
			ops = append(ops, &goperation{"decrypt", u, m.k.dist, func(ctx context.Context, q *guser, r io.Reader) ([]byte, error) {
				ct, err := message.NewSenderKeyFromBytes(append([]byte(nil), m.raw...))
				if err != nil {
					return nil, err
				}
				return g.sess(q, g.us[m.k.sender].addr, g.ds[m.k.dist]).DecryptMessage(ctx, ct)
			}})
		}
	}
	return ops
}

// readers tells who decrypts a new message, and its position.
func (g *gworld) readers(op *goperation, raw []byte) string {
	m, err := message.NewSenderKeyFromBytes(append([]byte(nil), raw...))
	if err != nil {
		return "cannot be parsed"
	}
	var b strings.Builder
	for _, u := range g.us {
		if u == op.u {
			continue
		}
		pt, err := g.sess(g.fork(u), op.u.addr, m.DistributionID()).DecryptMessage(bg, m)
		fmt.Fprintf(&b, "%d:%v ", u.idx, err == nil && string(pt) == "to be encrypted")
	}
	return b.String()
}

func giter(raw []byte) uint32 {
	m, err := message.NewSenderKeyFromBytes(append([]byte(nil), raw...))
	if err != nil {
		return 0xffffffff
	}
	return m.Iteration()
}

func (g *gworld) faults() *worldErr {
	r := g.rng(128)
	for i, op := range g.operations(r) {
		rand := func() (*vt.DRBG, *vt.DRBG) {
			return vt.NewDRBG(g.seed, g.step, 110, uint64(i)), vt.NewDRBG(g.seed, g.step, 111, uint64(i))
		}
		before := g.snapshot(op.u)
		base := g.fork(op.u)
		wrap := func(u *guser, f *fault) *guser {
			q := *u
			q.kept = nil
			q.st = faultGrp{u.st, f}
			return &q
		}
		count := newFault(faultNone, -1)
		rd, gl := rand()
		vt.SetGlobal(gl)
		out0, err := op.run(count.ctx, wrap(base, count), rd)
		if err != nil {
			continue
		}
		used := rd.N
		g.c.NonTrivial()
		g.c.Class("group operation: " + op.kind)
		end := g.snapshot(base)
		read0 := ""
		if op.kind == "encrypt" {
			read0 = g.readers(op, out0)
		}
		// A new sender key is not among the known ones the snapshot looks at.
		for mode := faultBefore; mode < faultModes; mode++ {
			for at := -1; at < count.n; at++ {
				if at < 0 && mode != faultCancel {
					continue
				}
				f := g.fork(op.u)
				fl := newFault(mode, at)
				if at < 0 {
					fl.cancel()
				}
				rd, gl := rand()
				vt.SetGlobal(gl)
				// The same session objects go on after the fault.
				now := *fl
				fq := wrap(f, &now)
				out, err := op.run(fl.ctx, fq, rd)
				*fl = now
				d := fmt.Sprintf("group %s by %d, fault at call %d (%s) %s", op.kind, op.u.idx, at, fl.name, faultNames[mode])
				if err == nil {
					return wf([]string{"C05"}, "group "+op.kind+" succeeds although a store failed: "+fl.name, "%s", d)
				}
				if out != nil {
					return wf([]string{"C05"}, "group "+op.kind+" gives a result although a store failed", "%s", d)
				}
				rd, gl = rand()
				vt.SetGlobal(gl)
				now = *newFault(faultNone, -1)
				out, err = op.run(bg, fq, rd)
				switch op.kind {
				case "decrypt":
					if fl.saved && errors.Is(err, perrors.ErrDuplicateMessage) {
						g.c.Class("reported as duplicate after a fault")
						break
					}
					if err != nil || !bytes.Equal(out, out0) {
						return wf([]string{"C05"}, "group message lost by a fault", "%s: %v", d, err)
					}
				case "encrypt":
					if err != nil {
						return wf([]string{"C05"}, "group encrypt cannot be repeated after a fault", "%s: %v", d, err)
					}
					if s := g.readers(op, out); s != read0 {
						return wf([]string{"C05"}, "group message encrypted after a fault cannot be decrypted", "%s: %s, otherwise %s", d, s, read0)
					}
					if n, n0 := giter(out), giter(out0); n != n0 && !(fl.saved && n == n0+1) {
						return wf([]string{"C05", "C18"}, "group message encrypted after a fault at an unexpected position", "%s: %d, otherwise %d", d, n, n0)
					}
				default:
					if err != nil || !bytes.Equal(out, out0) {
						return wf([]string{"C05"}, "group "+op.kind+" cannot be repeated after a fault", "%s: %v", d, err)
					}
				}
				if !fl.saved {
					if s := g.snapshot(f); s != end {
						return wf([]string{"C05"}, "group stores differ after repeating an operation which failed: "+op.kind, "%s: %s", d, firstDiff(end, s))
					}
				}
				if s, s0 := g.continues(op, f), g.continues(op, base); s != s0 && !(op.kind == "encrypt" && fl.saved) {
					return wf([]string{"C05"}, "something lost in a group by a fault: "+op.kind, "%s: %s, otherwise %s", d, s, s0)
				}
			}
		}
		f := g.fork(op.u)
		rd, gl = rand()
		vt.SetGlobal(&oneByte{gl})
		out, err := op.run(bg, f, &oneByte{rd})
		if err != nil || !bytes.Equal(out, out0) || g.snapshot(f) != end {
			return wf([]string{"C05"}, "group "+op.kind+" differs when randomness comes a byte at a time", "%v", err)
		}
		for _, at := range offsets(r, used) {
			f := g.fork(op.u)
			rd, gl := rand()
			vt.SetGlobal(gl)
			rd.FailAt = at
			out, err := op.run(bg, f, rd)
			d := fmt.Sprintf("group %s by %d, randomness ends after %d of %d bytes", op.kind, op.u.idx, at, used)
			if err == nil {
				return wf([]string{"C05"}, "group "+op.kind+" succeeds without randomness", "%s", d)
			}
			if out != nil {
				return wf([]string{"C05"}, "group "+op.kind+" gives a result although randomness failed", "%s", d)
			}
			if s := g.snapshot(f); s != before {
				return wf([]string{"C05"}, "group "+op.kind+" changes the stores although randomness failed", "%s: %s", d, firstDiff(before, s))
			}
			rd, gl = rand()
			vt.SetGlobal(gl)
			out, err = op.run(bg, f, rd)
			if err != nil || !bytes.Equal(out, out0) || g.snapshot(f) != end {
				return wf([]string{"C05"}, "group "+op.kind+" cannot be repeated after randomness failed", "%s: %v", d, err)
			}
		}
	}
	return nil
}

// continues tells what a user can do in the group afterwards.
func (g *gworld) continues(op *goperation, q *guser) string {
	var b strings.Builder
	q = g.fork(q)
	n := 0
	for _, m := range op.u.inbox {
		if n++; n > 4 {
			break
		}
		ct, err := message.NewSenderKeyFromBytes(append([]byte(nil), m.raw...))
		if err != nil {
			continue
		}
		pt, err := g.sess(q, g.us[m.k.sender].addr, g.ds[m.k.dist]).DecryptMessage(bg, ct)
		fmt.Fprintf(&b, "#%d %v %x; ", m.id, err == nil, pt)
	}
	vt.SetGlobal(g.rng(129))
	m, err := g.sess(q, op.u.addr, g.ds[op.d]).EncryptMessage(bg, g.rng(131), []byte("x"))
	if err == nil {
		fmt.Fprintf(&b, "%x", m.Bytes())
	}
	return b.String()
}
