package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"pgregory.net/rapid"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/vt"
)

// The group world: users, groups, distribution and group messages in flight,
// and an exact model of what every member must be able to decrypt.

const winSenderKeys = 5

// GroupCase is a history.
type GroupCase struct {
	Seed  uint64 `json:"seed"`
	Users int    `json:"users"`
	Dists int    `json:"dists"`
	Ops   []Op   `json:"ops"`
}

// skey is a sender key.
type skey struct {
	id      int
	sender  int
	dist    int
	chainID uint32
	signing []byte
	priv    curve.PrivateKey // of the signing key
	n       uint32
}

// gstate is what a member has of a sender key.
type gstate struct {
	k       *skey
	next    uint32
	skipped []uint32
}

type gdist struct {
	k   *skey
	n   uint32
	raw []byte
	obj *message.SenderKeyDistribution
}

type gmsg struct {
	id   int
	k    *skey
	n    uint32
	pt   []byte
	raw  []byte
	obj  *message.SenderKey
	done map[int]int // decrypted by
	ck   []byte      // chain key it was made from, if watched
}

type keptGroup struct {
	sender address.Address
	id     distribution.ID
	slot   uint64
}

type guser struct {
	idx   int
	addr  address.Address
	st    session.GroupStore
	own   map[int]*skey        // by group
	recs  map[[2]int][]*gstate // by sender and group
	inbox []*gmsg
	seen  []*gmsg
	lost  map[*skey]bool // sender keys dropped or replaced at some time
	kept  map[keptGroup]*session.GroupSession
}

type gworld struct {
	c                                                                                                            *vt.Ctx
	seed                                                                                                         uint64
	step                                                                                                         uint64
	us                                                                                                           []*guser
	ds                                                                                                           []distribution.ID
	keys                                                                                                         []*skey
	dists                                                                                                        []*gdist
	msgs                                                                                                         []*gmsg
	trace                                                                                                        []string
	noEvil                                                                                                       bool
	shadow                                                                                                       *gshadow // the same groups of reference clients
	guard                                                                                                        *guard
	bytesOnly                                                                                                    bool
	spy                                                                                                          *spy
	watch                                                                                                        bool
	twins                                                                                                        *twins
	nSend, nRecv, nReorder, nDup, nRefused, nSkippedUse, nProc, nRepeat, nEvict, nReplace, nLate, nEvil, nOldKey int
}

var distIDs = []string{
	"d1d1d1d1-7000-11eb-b32a-33b8a8a487a6",
	"d1d1d1d1-7000-11eb-b32a-33b8a8a487a7",
	"00000000-0000-0000-0000-000000000000",
}

func newGWorld(c *vt.Ctx, gc GroupCase) *gworld {
	g := &gworld{c: c, seed: gc.Seed, twins: newTwins(c, gc.Seed)}
	n := min(max(gc.Users, 2), len(names))
	for i := 0; i < n; i++ {
		g.us = append(g.us, &guser{idx: i, addr: names[i], st: session.NewInMemGroupStore(), own: map[int]*skey{}, recs: map[[2]int][]*gstate{}, lost: map[*skey]bool{}})
	}
	d := min(max(gc.Dists, 1), len(distIDs))
	for i := 0; i < d; i++ {
		g.ds = append(g.ds, distribution.MustParse(distIDs[i]))
	}
	return g
}

func (g *gworld) rng(tag uint64) *vt.DRBG {
	return source(g.seed, vt.NewDRBG(g.seed, g.step, tag, 7777))
}

func (g *gworld) tr(format string, args ...any) {
	g.trace = append(g.trace, fmt.Sprintf(format, args...))
}

func (g *gworld) sess(u *guser, sender address.Address, d distribution.ID) *session.GroupSession {
	s := &session.GroupSession{SenderAddress: sender, DistID: d, SenderKeyStore: u.st}
	keep, slot := keeps(g.seed, g.step)
	at := keptGroup{sender, d, slot}
	if k := u.kept[at]; k != nil && keep && k.SenderKeyStore == s.SenderKeyStore {
		return k
	}
	if u.kept == nil {
		u.kept = map[keptGroup]*session.GroupSession{}
	}
	u.kept[at] = s
	return s
}

// prefixed gives b first, then what follows.
type prefixed struct {
	b []byte
	r io.Reader
}

func (p *prefixed) Read(x []byte) (int, error) {
	if len(p.b) > 0 {
		n := copy(x, p.b)
		p.b = p.b[n:]
		return n, nil
	}
	return p.r.Read(x)
}

// distribute makes s create a distribution message.
func (g *gworld) distribute(s *guser, d int, collide bool) (*gdist, *worldErr) {
	var rd io.Reader = g.rng(1)
	r := g.rng(3)
	if len(g.keys) > 0 && (collide || g.twins != nil) {
		// The chain ID is drawn from the system's randomness: let it repeat,
		// or nearly so.
		id := g.keys[r.Intn(len(g.keys))].chainID << 1
		if !collide {
			id ^= 2 << r.Intn(31)
		}
		rd = &prefixed{[]byte{byte(id), byte(id >> 8), byte(id >> 16), byte(id >> 24)}, rd}
	}
	vt.SetGlobal(rd)
	rr := g.twins.keys(g.rng(2), s.idx, -1, twinBase)
	rr.Record = g.watch
	other := s.own[d] == nil && g.twins != nil && r.Intn(4) == 0
	if other {
		// The sender key comes from another client, which uses all bits.
		id := uint32(r.Uint64()) | 1<<31
		if len(g.keys) > 0 && r.Intn(2) == 0 {
			id = g.keys[r.Intn(len(g.keys))].chainID | 1<<31
		}
		seed := make([]byte, 32)
		must(io.ReadFull(rr, seed))
		pair := must(curve.GenerateKeyPair(rr))
		rec := session.NewGroupRecord()
		must0(rec.AddState(session.NewGroupState(session.GroupStateConfig{MessageVersion: 3, ChainID: id, ChainKey: seed, SignatureKey: pair.PublicKey(), SignaturePrivateKey: pair.PrivateKey()})))
		must0(s.st.Store(bg, s.addr, g.ds[d], rec))
		g.c.Class("chain ID of 32 bits")
	}
	m, err := g.sess(s, s.addr, g.ds[d]).NewSenderKeyDistribution(bg, rr)
	g.spy.err(err)
	g.tr("dist %d/%d: %v", s.idx, d, err != nil)
	if err != nil {
		return nil, wf([]string{"C13", "C16"}, "cannot create a distribution message", "%v", err)
	}
	g.tr("%x", m.Bytes())
	if g.guard != nil {
		g.guard.out(m.Bytes())
		g.guard.out(m.SigningKey().Bytes())
		defer g.guard.scribble()
	}
	k := s.own[d]
	if k == nil {
		k = &skey{id: len(g.keys), sender: s.idx, dist: d, chainID: m.ChainID(), signing: m.SigningKey().Bytes()}
		if m.Iteration() != 0 {
			return nil, wf([]string{"C16", "C18"}, "new sender key does not start at zero", "%d", m.Iteration())
		}
		if m.ChainID()>>31 != 0 && !other {
			return nil, wf([]string{"C16", "C11"}, "chain ID of more than 31 bits", "%d", m.ChainID())
		}
		for _, o := range g.keys {
			if bytes.Equal(o.signing, k.signing) {
				return nil, wf([]string{"C16", "C18"}, "signing key used before", "%x", k.signing)
			}
		}
		if g.watch {
			if i, j := blockOf(rr.Out, k.signing), bytes.Index(rr.Out, m.ChainKey()); i < 0 || j < 0 || i < j+32 && j < i+32 {
				return nil, wf([]string{"C18"}, "sender key not made from the given randomness", "signing key at %d, chain key at %d", i, j)
			}
		}
		if rec, ok := load3(s.st.Load(bg, s.addr, g.ds[d])); ok {
			if st := rec.StateForChainID(k.chainID); st != nil {
				if sk, err := st.PrivateSigningKey(); err == nil {
					k.priv = sk
				}
			}
		}
		g.keys = append(g.keys, k)
		s.own[d] = k
	}
	if m.ChainID() != k.chainID || !bytes.Equal(m.SigningKey().Bytes(), k.signing) {
		return nil, wf([]string{"C16"}, "distribution message of another sender key", "chain %d, want %d", m.ChainID(), k.chainID)
	}
	if m.Iteration() != k.n {
		return nil, wf([]string{"C16", "C14"}, "distribution message at another position", "%d, want %d", m.Iteration(), k.n)
	}
	if m.DistributionID() != g.ds[d] {
		return nil, wf([]string{"C16"}, "distribution message of another group", "%v", m.DistributionID())
	}
	if g.shadow != nil {
		if err := g.shadow.distribute(k, m, rr.Out); err != nil {
			return nil, err
		}
	}
	gd := &gdist{k: k, n: k.n, raw: append([]byte(nil), m.Bytes()...), obj: m}
	g.dists = append(g.dists, gd)
	return gd, g.audit(s)
}

// process makes u process a distribution message.
func (g *gworld) process(u *guser, gd *gdist, asObj bool) *worldErr {
	m := gd.obj
	if !asObj || g.bytesOnly {
		var err error
		raw := append([]byte(nil), gd.raw...)
		if g.guard != nil {
			raw = g.guard.in("distribution message", raw)
			defer g.guard.scribble()
		}
		m, err = message.NewSenderKeyDistributionFromBytes(raw)
		if err != nil {
			return wf([]string{"C13", "C16", "C10"}, "cannot parse a distribution message the library made", "%v", err)
		}
	}
	vt.SetGlobal(g.rng(11))
	err := g.sess(u, g.us[gd.k.sender].addr, g.ds[gd.k.dist]).ProcessSenderKeyDistribution(bg, m)
	g.spy.err(err)
	g.tr("process %d: %v", u.idx, err != nil)
	if g.guard != nil {
		if e := g.guard.clean(); e != nil {
			return guardErr(e)
		}
		g.guard.out(m.ChainKey())
	}
	if err != nil {
		return wf([]string{"C13", "C16"}, "genuine distribution message refused", "%v", err)
	}
	g.nProc++
	if u.idx == gd.k.sender {
		return g.audit(u)
	}
	key := [2]int{gd.k.sender, gd.k.dist}
	var have *gstate
	var rest []*gstate
	for _, s := range u.recs[key] {
		switch {
		case s.k == gd.k:
			have = s
			g.nRepeat++
		case s.k.chainID == gd.k.chainID:
			g.nReplace++
			u.lost[s.k] = true
			g.c.Class("sender key replaced by one with the same chain ID")
		default:
			rest = append(rest, s)
		}
	}
	if have == nil {
		have = &gstate{k: gd.k, next: gd.n}
		if g.shadow != nil {
			if err := g.shadow.join(u, gd); err != nil {
				return err
			}
		}
		if gd.n > 0 {
			g.nLate++
		}
	}
	if len(rest) >= winSenderKeys {
		u.lost[rest[0].k] = true
		rest = rest[1:]
		g.nEvict++
		g.c.Class("oldest sender key dropped")
	}
	u.recs[key] = append(rest, have)
	return g.audit(u)
}

func (g *gworld) plaintext() []byte {
	r := g.rng(20)
	n := sizes[r.Intn(len(sizes))]
	if r.Intn(3) == 0 {
		n = r.Intn(100)
	}
	if r.Intn(40) == 0 {
		n = vt.Size(r, 1<<17)
	}
	pt := r.Bytes(n)
	if r.Intn(4) == 0 {
		for i := range pt {
			pt[i] = byte(r.Intn(17))
		}
	}
	return pt
}

// send makes s encrypt a message for the group.
func (g *gworld) send(s *guser, d int) (*gmsg, *worldErr) {
	pt := g.plaintext()
	var ck []byte
	if g.watch {
		ck = g.groupKeyOf(s, d)
	}
	in := append([]byte(nil), pt...)
	if g.guard != nil {
		in = g.guard.in("plaintext", in)
		defer g.guard.scribble()
	}
	vt.SetGlobal(g.rng(21))
	ct, err := g.sess(s, s.addr, g.ds[d]).EncryptMessage(bg, g.rng(22), in)
	g.spy.err(err)
	g.spy.text(pt)
	g.tr("send %d/%d: %v", s.idx, d, err != nil)
	if g.guard != nil {
		if e := g.guard.clean(); e != nil {
			return nil, guardErr(e)
		}
		if err == nil {
			g.guard.out(ct.Bytes())
			g.guard.out(ct.Message())
		}
	}
	k := s.own[d]
	if k == nil {
		g.nRefused++
		if err == nil {
			return nil, wf([]string{"C16", "C13"}, "encrypted for a group without a sender key", "%d/%d", s.idx, d)
		}
		return nil, nil
	}
	if err != nil {
		return nil, wf([]string{"C13", "C16"}, "cannot encrypt for a group", "%v", err)
	}
	g.tr("%x", ct.Bytes())
	if ct.ChainID() != k.chainID || ct.DistributionID() != g.ds[d] {
		return nil, wf([]string{"C13", "C16"}, "group message with another chain or group ID", "%d", ct.ChainID())
	}
	if ct.Iteration() != k.n {
		return nil, wf([]string{"C18", "C16"}, "position of group messages not counted up by one", "got %d, want %d", ct.Iteration(), k.n)
	}
	m := &gmsg{id: len(g.msgs), k: k, n: k.n, pt: pt, raw: append([]byte(nil), ct.Bytes()...), obj: ct, done: map[int]int{}, ck: ck}
	if g.shadow != nil {
		if err := g.shadow.send(m); err != nil {
			return nil, err
		}
	}
	k.n++
	g.nSend++
	g.msgs = append(g.msgs, m)
	for _, u := range g.us {
		if u != s {
			u.inbox = append(u.inbox, m)
		}
	}
	return m, g.audit(s)
}

func (u *guser) state(m *gmsg) (st *gstate, recs bool) {
	rs, ok := u.recs[[2]int{m.k.sender, m.k.dist}]
	for _, s := range rs {
		if s.k.chainID == m.k.chainID {
			return s, ok
		}
	}
	return nil, ok
}

// deliver presents m to u.
func (g *gworld) deliver(u *guser, m *gmsg, asObj bool) *worldErr {
	var ct = m.obj
	if !asObj || g.bytesOnly {
		var err error
		raw := append([]byte(nil), m.raw...)
		if g.guard != nil {
			raw = g.guard.in("group message", raw)
			defer g.guard.scribble()
		}
		ct, err = message.NewSenderKeyFromBytes(raw)
		if err != nil {
			return wf([]string{"C13", "C10"}, "cannot parse a group message the library made", "%v", err)
		}
	}
	want := outNoSession
	var ns *gstate
	st, _ := u.state(m)
	if u.idx == m.k.sender {
		want = outDuplicate
		if u.own[m.k.dist] != m.k {
			want = outNoSession
		}
	} else if st != nil {
		if st.k != m.k {
			want = outWrongKeys
		} else {
			ch := &chain{next: st.next, skipped: append([]uint32(nil), st.skipped...)}
			want = ch.use(m.n, false)
			ns = &gstate{k: st.k, next: ch.next, skipped: ch.skipped}
		}
	}
	vt.SetGlobal(g.rng(31))
	// What a receiver passes as DistID must not matter.
	d := g.ds[int(g.step)%len(g.ds)]
	pt, err := g.sess(u, g.us[m.k.sender].addr, d).DecryptMessage(bg, ct)
	g.spy.err(err)
	g.tr("recv %d #%d: %v %x", u.idx, m.id, err != nil, pt)
	if g.guard != nil {
		if e := g.guard.clean(); e != nil {
			return guardErr(e)
		}
		g.guard.out(pt)
	}
	desc := fmt.Sprintf("group message %d of %d (position %d, key %d) to %d: %v", m.id, m.k.sender, m.n, m.k.id, u.idx, err)
	g.c.Logf("%s; predicted %s", desc, outNames[want])
	if err != nil && pt != nil {
		return wf([]string{"C15", "C05"}, "plaintext together with an error", "%s", desc)
	}
	if want != outOK {
		g.nRefused++
		g.c.Class("refused: " + outNames[want])
		if err == nil {
			props := []string{"C12"}
			switch {
			case m.done[u.idx] > 0:
				props = []string{"C14"}
			case want == outDuplicate:
				props = []string{"C14", "C12"}
			case want == outNoSession:
				props = []string{"C13", "C14", "C16"}
				if len(u.recs[[2]int{m.k.sender, m.k.dist}]) >= winSenderKeys {
					props = []string{"C12", "C16"}
				}
			case want == outWrongKeys:
				props = []string{"C15", "C16"}
			}
			return wf(props, "group message accepted although "+outNames[want], "%s", desc)
		}
		if want == outDuplicate && m.done[u.idx] > 0 {
			g.nDup++
			if !errors.Is(err, perrors.ErrDuplicateMessage) {
				if e := concerning(g.c, wf([]string{"C14"}, "repeated group message not reported as duplicate", "%s", desc)); e != nil {
					return e
				}
			}
		}
		return g.audit(u)
	}
	if err != nil {
		return wf([]string{"C13", "C16", "C12", "C20"}, "genuine group message refused", "%s", desc)
	}
	if !bytes.Equal(pt, m.pt) {
		return wf([]string{"C13"}, "wrong plaintext of a group message", "%s: %x, want %x", desc, pt, m.pt)
	}
	if g.shadow != nil {
		if err := g.shadow.recv(u, m); err != nil {
			return err
		}
	}
	g.nRecv++
	m.done[u.idx]++
	if m.n < st.next {
		g.nSkippedUse++
	}
	if rs := u.recs[[2]int{m.k.sender, m.k.dist}]; rs[len(rs)-1] != st {
		g.nOldKey++
	}
	st.next, st.skipped = ns.next, ns.skipped
	return g.audit(u)
}

// audit checks what the store of u holds.
func (g *gworld) audit(u *guser) *worldErr {
	return concerning(g.c, g.auditAll(u))
}

func (g *gworld) auditAll(u *guser) *worldErr {
	for _, s := range g.us {
		for d := range g.ds {
			r, ok, err := u.st.Load(bg, s.addr, g.ds[d])
			if err != nil {
				return wf([]string{"C13"}, "cannot load a group record", "%v", err)
			}
			want := len(u.recs[[2]int{s.idx, d}]) > 0
			if s == u {
				want = u.own[d] != nil
			}
			if ok != want {
				return wf([]string{"C16", "C20"}, "group record held differs", "user %d about %d, group %d: %v", u.idx, s.idx, d, ok)
			}
			if !ok {
				continue
			}
			if s == u {
				st := r.StateForChainID(u.own[d].chainID)
				if st == nil || st.SenderChainKey().Iteration() != u.own[d].n {
					return wf([]string{"C16", "C18"}, "own sender key at another position", "user %d, group %d", u.idx, d)
				}
				continue
			}
			held := 0
			for _, k := range g.keys {
				if k.sender != s.idx || k.dist != d {
					continue
				}
				st := r.StateForChainID(k.chainID)
				var ms *gstate
				for _, x := range u.recs[[2]int{s.idx, d}] {
					if x.k.chainID == k.chainID {
						ms = x
					}
				}
				if (st != nil) != (ms != nil) {
					return wf([]string{"C16", "C12"}, "sender keys held differ", "user %d about %d, group %d, chain %d: %v", u.idx, s.idx, d, k.chainID, st != nil)
				}
				if st == nil || ms.k != k {
					continue
				}
				held++
				pk, err := st.PublicSigningKey()
				if err != nil || !bytes.Equal(pk.Bytes(), k.signing) {
					return wf([]string{"C16", "C15"}, "another signing key held", "user %d about %d, chain %d", u.idx, s.idx, k.chainID)
				}
				if it := st.SenderChainKey().Iteration(); it != ms.next {
					return wf([]string{"C14", "C16"}, "sender key held at another position", "user %d about %d, chain %d: %d, want %d", u.idx, s.idx, k.chainID, it, ms.next)
				}
				if priv, err := st.PrivateSigningKey(); err == nil && priv != nil && bytes.Equal(priv.PublicKey().Bytes(), k.signing) {
					return wf([]string{"C15"}, "member holds a private signing key", "user %d of %d", u.idx, s.idx)
				}
			}
			if held > winSenderKeys {
				return wf([]string{"C12"}, "more sender keys held than the window", "%d", held)
			}
		}
	}
	return nil
}

// advance moves the sender key of s forward without sending.
func (g *gworld) advance(s *guser, d, by int) *worldErr {
	k := s.own[d]
	if k == nil {
		return nil
	}
	r, ok, err := s.st.Load(bg, s.addr, g.ds[d])
	if err != nil || !ok {
		return wf([]string{"C16"}, "own sender key lost", "%v", err)
	}
	st := r.StateForChainID(k.chainID)
	if st == nil {
		return wf([]string{"C16"}, "own sender key lost", "chain %d", k.chainID)
	}
	ck := st.SenderChainKey()
	for i := 0; i < by; i++ {
		ck = ck.Next()
	}
	if !trySet(st, "SetSenderChainKey", senderkey.NewChainKey(ck.Seed(), k.n+uint32(by))) {
		return nil
	}
	must0(s.st.Store(bg, s.addr, g.ds[d], r))
	s.kept = nil
	k.n += uint32(by)
	return nil
}

// number gives the next message of s another position, with the same keys.
// Whoever has the sender key already does not understand the messages then.
func (g *gworld) number(s *guser, d int, n uint32) *worldErr {
	k := s.own[d]
	r, ok := load3(s.st.Load(bg, s.addr, g.ds[d]))
	if !ok {
		return wf([]string{"C16"}, "own sender key lost", "")
	}
	st := r.StateForChainID(k.chainID)
	if st == nil {
		return wf([]string{"C16"}, "own sender key lost", "chain %d", k.chainID)
	}
	if trySet(st, "SetSenderChainKey", senderkey.NewChainKey(st.SenderChainKey().Seed(), n)) {
		must0(s.st.Store(bg, s.addr, g.ds[d], r))
		s.kept = nil
		k.n = n
	}
	return nil
}

// align lets the sender and everybody who has its key go on, with the same
// keys, at a position which differs by one bit, and a little, from one which is
// kept. Nothing may be under way.
func (g *gworld) align(s *guser, d, bit, off int) *worldErr {
	k := s.own[d]
	if k == nil {
		return nil
	}
	n := uint64(0)
	var at []*gstate
	var recs []*session.GroupRecord
	var who []*guser
	for _, u := range g.us {
		for _, st := range u.recs[[2]int{s.idx, d}] {
			if st.k != k || u == s {
				continue
			}
			r, ok := load3(u.st.Load(bg, s.addr, g.ds[d]))
			if !ok || st.next != k.n || r.StateForChainID(k.chainID) == nil {
				return nil
			}
			if len(st.skipped) > 0 {
				n = uint64(st.skipped[0])
			}
			at, recs, who = append(at, st), append(recs, r), append(who, u)
		}
	}
	n += 1<<bit + uint64(off) - 3
	if n <= uint64(k.n) || n > 1<<32-100000 || len(at) == 0 {
		return nil
	}
	for i, u := range who {
		st := recs[i].StateForChainID(k.chainID)
		if !trySet(st, "SetSenderChainKey", senderkey.NewChainKey(st.SenderChainKey().Seed(), uint32(n))) {
			return nil
		}
		must0(u.st.Store(bg, s.addr, g.ds[d], recs[i]))
		u.kept = nil
		at[i].next = uint32(n)
	}
	g.c.Class("aligned position")
	return g.number(s, d, uint32(n))
}

// rotate makes s forget its sender key for the group.
func (g *gworld) rotate(s *guser, d int) {
	st := session.NewInMemGroupStore()
	for _, o := range g.us {
		for i := range g.ds {
			if o == s && i == d {
				continue
			}
			if r, ok := load3(s.st.Load(bg, o.addr, g.ds[i])); ok {
				must0(st.Store(bg, o.addr, g.ds[i], r))
			}
		}
	}
	s.st = st
	delete(s.own, d)
}

func (g *gworld) do(op Op) *worldErr {
	u := g.us[op.A%len(g.us)]
	d := op.B % len(g.ds)
	switch op.K {
	case "dist": // create, and possibly everyone processes it
		gd, err := g.distribute(u, d, op.M&2 == 2)
		if err != nil {
			return err
		}
		if op.M&1 == 1 {
			for _, o := range g.us {
				if o == u {
					continue
				}
				if err := g.process(o, gd, false); err != nil {
					return err
				}
			}
		}
	case "process": // u processes one of the distribution messages made so far
		var c []*gdist
		for _, x := range g.dists {
			if x.k.sender != u.idx {
				c = append(c, x)
			}
		}
		if len(c) > 0 {
			return g.process(u, c[len(c)-1-op.N%len(c)], op.M&1 == 1)
		}
	case "own": // u processes one of its own current sender key
		for i := len(g.dists) - 1; i >= 0; i-- {
			if k := g.dists[i].k; k.sender == u.idx && u.own[k.dist] == k {
				return g.process(u, g.dists[i], op.M&1 == 1)
			}
		}
	case "send":
		for i := 0; i <= op.N; i++ {
			if _, err := g.send(u, d); err != nil {
				return err
			}
			g.step++
		}
	case "recv":
		if n := len(u.inbox); n > 0 {
			i := (op.N%n + n) % n
			if i > 0 {
				g.nReorder++
			}
			m := u.inbox[i]
			u.inbox = append(u.inbox[:i:i], u.inbox[i+1:]...)
			u.seen = append(u.seen, m)
			return g.deliver(u, m, op.M&1 == 1)
		}
	case "drop":
		if n := len(u.inbox); n > 0 {
			i := op.N % n
			u.seen = append(u.seen, u.inbox[i])
			u.inbox = append(u.inbox[:i:i], u.inbox[i+1:]...)
		}
	case "again":
		if n := len(u.seen); n > 0 {
			return g.deliver(u, u.seen[n-1-op.N%n], op.M&1 == 1)
		}
	case "self": // the author presents its own message to itself
		for i := len(g.msgs) - 1; i >= 0; i-- {
			if g.msgs[i].k.sender == u.idx {
				return g.deliver(u, g.msgs[i], false)
			}
		}
	case "flush":
		return g.flush(u, op.M%3)
	case "rotate":
		g.rotate(u, d)
		if op.M&1 == 1 {
			gd, err := g.distribute(u, d, op.M&2 == 2)
			if err != nil {
				return err
			}
			for _, o := range g.us {
				if o != u {
					if err := g.process(o, gd, false); err != nil {
						return err
					}
				}
			}
		}
	case "burst": // several sender keys in a row, each known to everybody
		for i := 0; i < 3+op.N; i++ {
			g.step++
			g.rotate(u, d)
			gd, err := g.distribute(u, d, false)
			if err != nil {
				return err
			}
			for _, o := range g.us {
				if o != u {
					if err := g.process(o, gd, false); err != nil {
						return err
					}
				}
			}
			if _, err := g.send(u, d); err != nil {
				return err
			}
			if op.M&1 == 1 {
				if _, err := g.send(u, d); err != nil {
					return err
				}
			}
		}
	case "jump":
		return g.advance(u, d, op.N)
	case "lift": // as if this many messages had been sent, without the work
		if k := u.own[d]; k != nil && k.n < uint32(op.N) {
			if err := g.number(u, d, uint32(op.N)); err != nil {
				return err
			}
			g.c.Class("high position")
		}
	case "align": // like lift, for everybody who has the sender key
		return g.align(u, d, op.N, op.M)
	case "leap": // a message, a long way, and a distribution message for everybody
		if _, err := g.send(u, d); err != nil {
			return err
		}
		if err := g.advance(u, d, 1000+op.N); err != nil {
			return err
		}
		g.step++
		if op.M&1 == 1 {
			if _, err := g.send(u, d); err != nil {
				return err
			}
		}
		gd, err := g.distribute(u, d, false)
		if err != nil {
			return err
		}
		for _, o := range g.us {
			if o != u && op.M < 4 {
				if err := g.process(o, gd, false); err != nil {
					return err
				}
			}
		}
	case "evil":
		if !g.noEvil {
			return g.tryEvil(1+op.N, op.M&1 == 1)
		}
	}
	return nil
}

func (g *gworld) flush(u *guser, order int) *worldErr {
	r := g.rng(40)
	for len(u.inbox) > 0 {
		i := 0
		switch order {
		case 1:
			i = len(u.inbox) - 1
		case 2:
			i = r.Intn(len(u.inbox))
		}
		if i > 0 {
			g.nReorder++
		}
		m := u.inbox[i]
		u.inbox = append(u.inbox[:i:i], u.inbox[i+1:]...)
		u.seen = append(u.seen, m)
		if err := g.deliver(u, m, false); err != nil {
			return err
		}
		g.step++
	}
	return nil
}

func (g *gworld) run(ops []Op) *worldErr {
	for _, op := range ops {
		g.step++
		if err := g.do(op); err != nil {
			return err
		}
		g.spy.groups(g)
	}
	return nil
}

func (g *gworld) settle() *worldErr {
	g.step += 1000
	for i, u := range g.us {
		if err := g.flush(u, i%3); err != nil {
			return err
		}
	}
	return nil
}

func (g *gworld) redeliver(limit int) *worldErr {
	g.step += 1000
	for _, u := range g.us {
		for i := 0; i < len(u.seen) && i < limit; i++ {
			if err := g.deliver(u, u.seen[len(u.seen)-1-i], i%2 == 1); err != nil {
				return err
			}
			g.step++
		}
	}
	return nil
}

var gprofiles = map[string]profile{
	"mixed":  {"mixed", 8, 60, []wop{{"dist", 4, 1, 4}, {"process", 4, 6, 2}, {"send", 10, 4, 1}, {"recv", 16, 10, 2}, {"drop", 1, 5, 1}, {"again", 4, 12, 2}, {"flush", 1, 1, 3}, {"rotate", 1, 1, 4}, {"own", 1, 1, 2}, {"self", 1, 1, 1}}},
	"rotate": {"rotate", 12, 60, []wop{{"dist", 4, 1, 4}, {"process", 10, 14, 2}, {"send", 10, 3, 1}, {"recv", 16, 16, 2}, {"again", 3, 12, 2}, {"rotate", 8, 1, 4}, {"own", 1, 1, 2}}},
	"skips":  {"skips", 8, 40, []wop{{"dist", 2, 1, 2}, {"process", 3, 6, 2}, {"send", 10, 25, 1}, {"recv", 20, 60, 2}, {"drop", 2, 30, 1}, {"again", 6, 60, 2}, {"flush", 1, 1, 3}, {"jump", 1, 60, 1}}},
	"burst":  {"burst", 4, 30, []wop{{"burst", 5, 4, 2}, {"dist", 2, 1, 4}, {"process", 8, 8, 2}, {"send", 4, 2, 1}, {"recv", 14, 24, 2}, {"again", 2, 12, 2}, {"flush", 2, 1, 3}, {"rotate", 2, 1, 4}}},
	"far":    {"far", 4, 16, []wop{{"leap", 4, 26000, 6}, {"dist", 2, 1, 2}, {"process", 4, 8, 2}, {"send", 4, 2, 1}, {"recv", 14, 24, 2}, {"again", 2, 12, 2}, {"flush", 1, 1, 3}, {"rotate", 1, 1, 2}}},
	"evil":   {"evil", 8, 40, []wop{{"dist", 3, 1, 4}, {"process", 3, 6, 2}, {"send", 8, 3, 1}, {"recv", 8, 8, 2}, {"again", 1, 8, 2}, {"rotate", 1, 1, 4}, {"evil", 12, 6, 1}}},
}

func genGroup(t *rapid.T, profs ...string) GroupCase {
	gc := GroupCase{Seed: vt.Bits(t, "seed"), Users: 2 + vt.Uni(t, 3, "users"), Dists: 1 + vt.Uni(t, 2, "dists")}
	p := gprofiles[vt.Pick(t, "profile", profs...)]
	if p.name == "skips" || p.name == "far" {
		gc.Users, gc.Dists = 2, 1
	}
	n := p.minOps + vt.Uni(t, p.maxOps-p.minOps+1, "len")
	gc.Ops = append(gc.Ops, Op{K: "dist", M: 1}, Op{K: "send", N: rapid.IntRange(0, 2).Draw(t, "first")})
	gc.Ops = append(gc.Ops, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Op {
		op := genOp(p, t)
		op.A = vt.Uni(t, 4, "u")
		return op
	}), n, n).Draw(t, "ops")...)
	return gc
}

func groupCheck(prop, name string, quick, thorough int, rule string, nontrivial func(g *gworld) bool, post func(g *gworld) *worldErr, profs ...string) {
	vt.Register(prop, name, quick, thorough, rule,
		func(t *rapid.T) GroupCase { return genGroup(t, profs...) },
		func(c *vt.Ctx, gc GroupCase) error {
			g := newGWorld(c, gc)
			err := g.run(gc.Ops)
			if err == nil {
				err = g.settle()
			}
			if err == nil && post != nil {
				err = post(g)
			}
			g.count()
			if nontrivial(g) {
				c.NonTrivial()
			}
			return verdict(c, err)
		})
}

func (g *gworld) count() {
	c := g.c
	c.ClassN("group messages sent", g.nSend)
	c.ClassN("group messages decrypted", g.nRecv)
	c.ClassN("decrypted with a kept key", g.nSkippedUse)
	c.ClassN("decrypted with an older sender key", g.nOldKey)
	c.ClassN("distribution messages processed", g.nProc)
	c.ClassN("distribution messages processed again", g.nRepeat)
	c.ClassN("late joins", g.nLate)
	c.ClassN("repeated group messages refused", g.nDup)
}
