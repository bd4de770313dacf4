package props

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/vt"
)

// probe watches the use of stores during one operation.
type probe struct {
	mu     sync.Mutex
	active int
	done   bool
	bad    string // the first thing which may not be
	writes []string
	calls  int
	ctx    context.Context
	cancel context.CancelFunc
	seen   map[string]context.Context

	// what the operation may touch
	addr address.Address
	dist distribution.ID
	pre  map[uint32]bool
	sig  map[uint32]bool
}

// enter notes a call. What it returns ends it.
func (p *probe) enter(ctx context.Context, what string, write bool, wrong string) func() {
	p.mu.Lock()
	p.calls++
	complain := func(s string) {
		if p.bad == "" {
			p.bad = s + ": " + what
		}
	}
	if p.done {
		complain("store used after the operation returned")
	}
	if p.active > 0 {
		complain("stores used by several goroutines at once")
	}
	if ctx == nil || ctx.Value(callerKey{}) != "caller" {
		complain("store used without the caller's context")
	}
	if wrong != "" {
		complain(wrong)
	}
	if ctx != nil {
		p.seen[what] = ctx
	}
	if write {
		p.writes = append(p.writes, what)
	}
	p.active++
	p.mu.Unlock()
	runtime.Gosched()
	return func() {
		p.mu.Lock()
		p.active--
		p.mu.Unlock()
	}
}

func (p *probe) at(a address.Address) string {
	if a != p.addr {
		return fmt.Sprintf("entry of another address used: %v instead of %v", a, p.addr)
	}
	return ""
}

func (p *probe) key(m map[uint32]bool, id prekey.ID) string {
	if !m[uint32(id)] {
		return "pre-key used which the message does not name"
	}
	return ""
}

type probeSess struct {
	session.Store
	p *probe
}

func (s probeSess) Load(ctx context.Context, a address.Address) (*session.Record, bool, error) {
	defer s.p.enter(ctx, "session load", false, s.p.at(a))()
	return s.Store.Load(bg, a)
}

func (s probeSess) save(a address.Address, r *session.Record) error { return s.Store.Store(bg, a, r) }

type probeSessStore struct{ probeSess }

func (s probeSessStore) Store(ctx context.Context, a address.Address, r *session.Record) error {
	defer s.p.enter(ctx, "session store", true, s.p.at(a))()
	return s.save(a, r)
}

type probePre struct {
	s prekey.Store
	p *probe
}

func (s probePre) Load(ctx context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	defer s.p.enter(ctx, "pre-key load", false, s.p.key(s.p.pre, id))()
	return s.s.Load(bg, id)
}

func (s probePre) Store(ctx context.Context, id prekey.ID, k *prekey.PreKey) error {
	defer s.p.enter(ctx, "pre-key store", true, "pre-key stored by an operation")()
	return s.s.Store(bg, id, k)
}

func (s probePre) Delete(ctx context.Context, id prekey.ID) error {
	defer s.p.enter(ctx, "pre-key delete", true, s.p.key(s.p.pre, id))()
	return s.s.Delete(bg, id)
}

type probeSig struct {
	s prekey.SignedStore
	p *probe
}

func (s probeSig) Load(ctx context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	defer s.p.enter(ctx, "signed pre-key load", false, s.p.key(s.p.sig, id))()
	return s.s.Load(bg, id)
}

func (s probeSig) Store(ctx context.Context, id prekey.ID, k *prekey.SignedPreKey) error {
	defer s.p.enter(ctx, "signed pre-key store", true, "signed pre-key stored by an operation")()
	return s.s.Store(bg, id, k)
}

type probeID struct {
	s identity.Store
	p *probe
}

func (s probeID) KeyPair(ctx context.Context) identity.KeyPair {
	defer s.p.enter(ctx, "own identity", false, "")()
	return s.s.KeyPair(bg)
}

func (s probeID) LocalRegistrationID(ctx context.Context) uint32 {
	defer s.p.enter(ctx, "own registration ID", false, "")()
	return s.s.LocalRegistrationID(bg)
}

func (s probeID) Load(ctx context.Context, a address.Address) (identity.Key, bool, error) {
	defer s.p.enter(ctx, "identity load", false, s.p.at(a))()
	return s.s.Load(bg, a)
}

func (s probeID) Store(ctx context.Context, a address.Address, k identity.Key) (bool, error) {
	defer s.p.enter(ctx, "identity store", true, s.p.at(a))()
	return s.s.Store(bg, a, k)
}

func (s probeID) Clear() error {
	defer s.p.enter(s.p.ctx, "identity clear", true, "identities cleared by an operation")()
	return s.s.Clear()
}

func (s probeID) IsTrustedIdentity(ctx context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	defer s.p.enter(ctx, "identity trusted", false, s.p.at(a))()
	return s.s.IsTrustedIdentity(bg, a, k, d)
}

type probeGrp struct {
	s session.GroupStore
	p *probe
}

func (s probeGrp) in(a address.Address, d distribution.ID) string {
	if d != s.p.dist {
		return "entry of another group used"
	}
	return s.p.at(a)
}

func (s probeGrp) Load(ctx context.Context, a address.Address, d distribution.ID) (*session.GroupRecord, bool, error) {
	defer s.p.enter(ctx, "group load", false, s.in(a, d))()
	return s.s.Load(bg, a, d)
}

func (s probeGrp) Store(ctx context.Context, a address.Address, d distribution.ID, r *session.GroupRecord) error {
	defer s.p.enter(ctx, "group store", true, s.in(a, d))()
	return s.s.Store(bg, a, d, r)
}

// finish judges an operation which has returned.
func (p *probe) finish(what string, err error, saves bool) *worldErr {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.done = true
	// Now that the caller gives up, everybody who was called may know.
	p.cancel()
	for at, ctx := range p.seen {
		if ctx.Err() == nil && p.bad == "" {
			p.bad = "store used with a context which the caller cannot cancel: " + at
		}
	}
	if p.bad != "" {
		return wf([]string{"C29"}, p.bad, "%s: %v", what, err)
	}
	if err != nil && len(p.writes) > 0 {
		return wf([]string{"C29"}, "refused operation writes to a store", "%s: %v: %v", what, p.writes, err)
	}
	if err == nil && saves && len(p.writes) == 0 {
		return wf([]string{"C29"}, "operation returned before anything was stored", "%s", what)
	}
	return nil
}

// late judges what happened since.
func late(ps []*probe) *worldErr {
	time.Sleep(300 * time.Microsecond)
	for _, p := range ps {
		p.mu.Lock()
		bad := p.bad
		p.mu.Unlock()
		if bad != "" {
			return wf([]string{"C29"}, bad, "after the operation")
		}
	}
	return nil
}

func (p *party) probed(b *probe) *party {
	q := *p
	q.kept = nil
	q.st.Sess = probeSessStore{probeSess{p.st.Sess, b}}
	q.st.Pre = probePre{p.st.Pre, b}
	q.st.Sig = probeSig{p.st.Sig, b}
	q.st.ID = probeID{p.st.ID, b}
	return &q
}

// names lets an operation with this message use the pre-keys it names.
func (p *probe) names(ct message.Ciphertext) {
	x, ok := ct.(*message.PreKey)
	if !ok {
		return
	}
	p.sig[uint32(x.SignedPreKeyID())] = true
	if id := x.PreKeyID(); id != nil {
		p.pre[uint32(*id)] = true
	}
}

func newProbe(a address.Address) *probe {
	ctx, cancel := context.WithCancel(bg)
	return &probe{addr: a, pre: map[uint32]bool{}, sig: map[uint32]bool{}, seen: map[string]context.Context{}, ctx: ctx, cancel: cancel}
}

// touches runs operations whose stores are watched.
func (w *world) touches(n int) *worldErr {
	var ps []*probe
	kinds := map[string]bool{}
	for i := 0; i < n; i++ {
		r := vt.NewDRBG(w.seed, w.step, 110, uint64(i))
		rd := vt.NewDRBG(w.seed, w.step, 112, uint64(i))
		a := w.ps[r.Intn(len(w.ps))]
		b := w.ps[(a.idx+1+r.Intn(len(w.ps)-1))%len(w.ps)]
		vt.SetGlobal(vt.NewDRBG(w.seed, w.step, 111, uint64(i)))
		p := newProbe(b.addr)
		f := w.fork(a).probed(p)
		what, saves := "", true
		var err error
		switch k := r.Intn(10); {
		case k < 2:
			bd := w.bundleOf(b, r)
			what = "bundle"
			err = w.sessTo(f, b.addr).ProcessPreKeyBundle(p.ctx, rd, bd)
		case k < 4:
			what = "encrypting"
			_, err = w.sessTo(f, b.addr).EncryptMessage(p.ctx, r.Bytes(r.Intn(50)))
		case k < 8:
			in := w.inbox[[2]int{b.idx, a.idx}]
			if d := w.done[[2]int{b.idx, a.idx}]; len(in) == 0 || r.Intn(3) == 0 {
				in = d
			}
			if len(in) == 0 {
				continue
			}
			ct := in[r.Intn(len(in))].present(formBytes, nil)
			p.names(ct)
			what = "decrypting"
			_, err = w.sessTo(f, b.addr).DecryptMessage(p.ctx, rd, ct)
		default:
			at := w.evil(r)
			if at == nil || at.from == (address.Address{}) {
				continue
			}
			p.addr = at.from
			f = w.fork(w.ps[at.to]).probed(p)
			what, saves = "presenting something made up: "+cut(at.what), false
			if at.parsed == nil {
				continue
			}
			ct, e := at.parsed()
			if e != nil {
				continue
			}
			p.names(ct)
			if w.endless(ct, f, at.from) {
				continue
			}
			_, err = w.sessTo(f, at.from).DecryptMessage(p.ctx, rd, ct)
		}
		outcome := "succeeds"
		if err != nil {
			outcome = "refused"
		}
		w.c.Class(fmt.Sprintf("%.10s %s", what, outcome))
		kinds[what[:6]+outcome] = true
		if e := p.finish(what, err, saves); e != nil {
			return e
		}
		ps = append(ps, p)
	}
	if len(kinds) >= 4 {
		w.c.NonTrivial()
	}
	return late(ps)
}

// bundleOf is a bundle of b, now and then one which is refused.
func (w *world) bundleOf(b *party, r *vt.DRBG) *prekey.Bundle {
	s := b.spks[r.Intn(len(b.spks))]
	bd := &prekey.Bundle{RegistrationID: b.reg, DeviceID: b.addr.DeviceID, SignedPreKeyID: prekey.ID(s.id), SignedPreKeyPublic: s.pair.PublicKey(), SignedPreKeySignature: append([]byte(nil), s.sig...), IdentityKey: b.ident.IdentityKey()}
	if r.Intn(2) == 0 {
		id := prekey.ID(1 + r.Intn(1000))
		bd.PreKeyID, bd.PreKeyPublic = &id, pub(randomKey(r))
		if r.Intn(4) == 0 {
			bd.PreKeyPublic = pub(append([]byte{5}, lowOrder[r.Intn(len(lowOrder))]...))
		}
	}
	if r.Intn(3) == 0 {
		bd.SignedPreKeySignature[r.Intn(32)] ^= 1 << r.Intn(8)
	}
	return bd
}

func (g *gworld) touches(n int) *worldErr {
	var ps []*probe
	kinds := map[string]bool{}
	for i := 0; i < n; i++ {
		r := vt.NewDRBG(g.seed, g.step, 110, uint64(i))
		rd := vt.NewDRBG(g.seed, g.step, 112, uint64(i))
		u := g.us[r.Intn(len(g.us))]
		d := r.Intn(len(g.ds))
		vt.SetGlobal(vt.NewDRBG(g.seed, g.step, 111, uint64(i)))
		p := newProbe(u.addr)
		p.dist = g.ds[d]
		f := g.fork(u)
		f.st = probeGrp{f.st, p}
		what, saves := "", true
		var err error
		switch r.Intn(5) {
		case 0:
			what, saves = "distribution message", false
			_, err = g.sess(f, u.addr, g.ds[d]).NewSenderKeyDistribution(p.ctx, rd)
		case 1:
			what = "encrypting"
			_, err = g.sess(f, u.addr, g.ds[d]).EncryptMessage(p.ctx, rd, r.Bytes(r.Intn(50)))
		case 2:
			if len(g.dists) == 0 {
				continue
			}
			x := g.dists[r.Intn(len(g.dists))]
			m, e := message.NewSenderKeyDistributionFromBytes(append([]byte(nil), x.raw...))
			if e != nil || x.k.sender == u.idx {
				continue
			}
			p.addr, p.dist = g.us[x.k.sender].addr, g.ds[x.k.dist]
			what = "processing"
			err = g.sess(f, p.addr, g.ds[d]).ProcessSenderKeyDistribution(p.ctx, m)
		default:
			if len(g.msgs) == 0 {
				continue
			}
			x := g.msgs[r.Intn(len(g.msgs))]
			raw := append([]byte(nil), x.raw...)
			if r.Intn(4) == 0 {
				raw[len(raw)-1-r.Intn(90)%len(raw)] ^= 1 << r.Intn(8)
			}
			m, e := message.NewSenderKeyFromBytes(raw)
			if e != nil || x.k.sender == u.idx {
				continue
			}
			p.addr, p.dist = g.us[x.k.sender].addr, m.DistributionID()
			what = "decrypting"
			_, err = g.sess(f, p.addr, g.ds[d]).DecryptMessage(p.ctx, m)
		}
		outcome := "succeeds"
		if err != nil {
			outcome = "refused"
		}
		g.c.Class(fmt.Sprintf("group: %.12s %s", what, outcome))
		kinds[what[:6]+outcome] = true
		if e := p.finish("group: "+what, err, saves); e != nil {
			return e
		}
		ps = append(ps, p)
	}
	if len(kinds) >= 4 {
		g.c.NonTrivial()
	}
	return late(ps)
}

func init() {
	vt.Register("C29", "touches", 3000, 80000,
		histRule+"at its end 16 operations (bundles, sound and not; encrypting; decrypting messages pending, repeated and made up) run on copies of the stores which watch every call; non-trivial: at least four kinds of operation and result",
		histCase("mixed", "trust", "cross", "evil", "pong", "otpk"),
		func(c *vt.Ctx, wc WorldCase) error {
			w := newWorld(c, wc)
			w.noEvil = true
			if err := w.run(wc.Ops); err != nil {
				return verdict(c, err)
			}
			return verdict(c, w.touches(16))
		})
	vt.Register("C29", "group-touches", 3000, 80000,
		"as for sessions, with the operations of groups, also through session values made for another group; non-trivial: at least four kinds of operation and result",
		histGroup("mixed", "rotate", "evil"),
		func(c *vt.Ctx, gc GroupCase) error {
			g := newGWorld(c, gc)
			g.noEvil = true
			if err := g.run(gc.Ops); err != nil {
				return verdict(c, err)
			}
			return verdict(c, g.touches(16))
		})
}
