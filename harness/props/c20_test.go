package props

import (
	"bytes"
	"context"
	"fmt"
	"sync"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	v1 "github.com/RTann/libsignal-go/protocol/generated/v1"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/vt"
)

// Addresses and IDs which look alike.
var alikeNames = []string{"alice", "alice1", "alice.1", "alice.", "alic", "Alice", "", ".", "1", ".1", "alice\x00", "álice", "alice 1", "alice:1", "alice.11"}
var alikeDevices = []uint32{0, 1, 2, 11, 111, 256, 257, 65537, 0x7fffffff, 0x80000001, 0xffffffff}
var alikeKeyIDs = []uint32{0, 1, 2, 256, 257, 65536, 65537, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff}
var alikeDists = []string{
	"d1d1d1d1-7000-11eb-b32a-33b8a8a487a6", "d1d1d1d1-7000-11eb-b32a-33b8a8a487a7", "d1d1d1d0-7000-11eb-b32a-33b8a8a487a6",
	"00000000-0000-0000-0000-000000000000", "d1d1d1d1-7000-11eb-b32b-33b8a8a487a6", "d1d1d1d1-7000-11eb-b32a-33b8a8a487a6",
}

func alike(x int) address.Address {
	return address.Address{Name: alikeNames[x%len(alikeNames)], DeviceID: address.DeviceID(alikeDevices[x/len(alikeNames)%len(alikeDevices)])}
}

// StoreCase is a sequence of store operations.
type StoreCase struct {
	Seed uint64 `json:"seed"`
	Ops  []Op   `json:"ops"`
}

var storeOps = []string{"sess", "group", "pre", "sig", "id", "del", "clear", "trust", "scribble"}

func genStores(t *rapidT) StoreCase {
	sc := StoreCase{Seed: vt.Bits(t, "seed")}
	n := 5 + vt.Uni(t, 60, "len")
	// A few keys only, so that they meet.
	var as []int
	for i := 0; i < 6; i++ {
		as = append(as, vt.Uni(t, len(alikeNames)*len(alikeDevices), "addr"))
	}
	for i := 0; i < n; i++ {
		sc.Ops = append(sc.Ops, Op{K: storeOps[vt.Uni(t, len(storeOps), "op")], A: as[vt.Uni(t, len(as), "a")], B: vt.Uni(t, len(alikeDists), "b"), N: vt.Uni(t, 4, "n"), M: vt.Uni(t, 2, "m")})
	}
	return sc
}

func storeModel(c *vt.Ctx, sc StoreCase) error {
	r := vt.NewDRBG(sc.Seed, 20)
	pair := must(identity.GenerateKeyPair(r))
	reg := uint32(r.Uint64())
	st := newStores(pair, reg)
	type gk struct {
		a address.Address
		d distribution.ID
	}
	sess := map[address.Address]savedRecord{}
	grp := map[gk]string{}
	pre := map[prekey.ID][]byte{}
	sig := map[prekey.ID][]byte{}
	ids := map[address.Address][]byte{}
	// What was stored last, for changing it afterwards.
	var lastRec *session.Record
	var lastGrp *session.GroupRecord
	var keys []identity.Key
	for i := 0; i < 4; i++ {
		keys = append(keys, must(identity.GenerateKeyPair(r)).IdentityKey())
	}
	newState := func() *session.State {
		s := session.NewState(&v1.SessionStructure{SessionVersion: 3, RootKey: r.Bytes(32), LocalIdentityPublic: keys[0].Bytes(), RemoteIdentityPublic: keys[1].Bytes()})
		trySet(s, "SetAliceBaseKey", r.Bytes(33))
		kp := must(curve.GenerateKeyPair(r))
		trySet(s, "SetSenderChain", kp, must(ratchet.NewChainKey(r.Bytes(32), uint32(r.Intn(100)))))
		trySet(s, "AddReceiverChain", kp.PublicKey(), must(ratchet.NewChainKey(r.Bytes(32), 0)))
		return s
	}
	change := func(s *session.State) {
		trySet(s, "SetRootKey", must(ratchet.NewRootKey(r.Bytes(32))))
		trySet(s, "SetSenderChainKey", must(ratchet.NewChainKey(r.Bytes(32), 7)))
		if k, err := s.SenderRatchetKey(); err == nil {
			trySet(s, "SetReceiverChainKey", k, must(ratchet.NewChainKey(r.Bytes(32), 9)))
			trySet(s, "SetUnacknowledgedPreKeyMessage", nil, prekey.ID(5), k)
		}
		b := s.AliceBaseKey()
		for i := range b {
			b[i] ^= 0x55
		}
	}
	describe := func(g *session.GroupRecord) string {
		l := newLoot(g)
		var b bytes.Buffer
		for _, x := range l.blobs {
			fmt.Fprintf(&b, "%x ", x)
		}
		s, err := g.State()
		if err == nil {
			fmt.Fprintf(&b, "chain %d at %d", s.ChainID(), s.SenderChainKey().Iteration())
		}
		return b.String()
	}
	check := func() error {
		for _, op := range sc.Ops {
			a := alike(op.A)
			rec, ok, err := st.Sess.Load(bg, a)
			want, have := sess[a]
			if err != nil || ok != have {
				return vt.Violate("session store is not a map of addresses", "%q: %v %v, want %v", a, ok, err, have)
			}
			if ok {
				if s, err := saveRecord(rec); err != nil || !sameSaved(s, want) {
					return vt.Violate("session stored is not the session loaded", "%q: %v", a, err)
				}
			}
			d := distribution.MustParse(alikeDists[op.B])
			g, ok, err := st.Grp.Load(bg, a, d)
			wg, have := grp[gk{a, d}]
			if err != nil || ok != have {
				return vt.Violate("group store is not a map of senders and groups", "%q %v: %v %v, want %v", a, d, ok, err, have)
			}
			if ok && describe(g) != wg {
				return vt.Violate("group record stored is not the one loaded", "%q %v: %s, want %s", a, d, describe(g), wg)
			}
			k, ok, err := st.ID.Load(bg, a)
			wk, have := ids[a]
			if err != nil || ok != have || ok && !bytes.Equal(k.Bytes(), wk) {
				return vt.Violate("identity store is not a map of addresses", "%q: %v %v, want %v", a, ok, err, have)
			}
			for i, k := range keys {
				for _, dir := range []direction.Direction{direction.Sending, direction.Receiving} {
					tr, err := st.ID.IsTrustedIdentity(bg, a, k, dir)
					if want := !have || bytes.Equal(k.Bytes(), wk); err != nil || tr != want {
						return vt.Violate("trust differs from what is stored", "%q, key %d: %v %v, want %v", a, i, tr, err, want)
					}
				}
			}
		}
		for _, id := range alikeKeyIDs {
			k, ok, err := st.Pre.Load(bg, prekey.ID(id))
			want, have := pre[prekey.ID(id)]
			if err != nil || ok != have || ok && !bytes.Equal(must(k.KeyPair()).PrivateKey().Bytes(), want) {
				return vt.Violate("pre-key store is not a map of IDs", "%d: %v %v, want %v", id, ok, err, have)
			}
			s, ok, err := st.Sig.Load(bg, prekey.ID(id))
			want, have = sig[prekey.ID(id)]
			if err != nil || ok != have || ok && !bytes.Equal(must(s.KeyPair()).PrivateKey().Bytes(), want) {
				return vt.Violate("signed pre-key store is not a map of IDs", "%d: %v %v, want %v", id, ok, err, have)
			}
		}
		if st.ID.LocalRegistrationID(bg) != reg || !bytes.Equal(st.ID.KeyPair(bg).PrivateKey().Bytes(), pair.PrivateKey().Bytes()) {
			return vt.Violate("own identity or registration ID changed", "")
		}
		return nil
	}
	over := 0
	for _, op := range sc.Ops {
		a := alike(op.A)
		id := prekey.ID(alikeKeyIDs[(op.A+op.B*4+op.N)%len(alikeKeyIDs)])
		d := distribution.MustParse(alikeDists[op.B])
		switch op.K {
		case "sess":
			rec := session.NewRecord(newState())
			for i := 0; i < op.N; i++ {
				rec.PromoteState(newState())
			}
			if _, ok := sess[a]; ok {
				over++
			}
			sess[a] = must(saveRecord(rec))
			must0(st.Sess.Store(bg, a, rec))
			lastRec = rec
		case "group":
			rec := session.NewGroupRecord()
			for i := 0; i <= op.N; i++ {
				kp := must(curve.GenerateKeyPair(r))
				cfg := session.GroupStateConfig{MessageVersion: 3, ChainID: uint32(r.Intn(5)), Iteration: uint32(r.Intn(9)), ChainKey: r.Bytes(32), SignatureKey: kp.PublicKey()}
				if op.M == 1 {
					cfg.SignaturePrivateKey = kp.PrivateKey()
				}
				must0(rec.AddState(session.NewGroupState(cfg)))
			}
			if _, ok := grp[gk{a, d}]; ok {
				over++
			}
			grp[gk{a, d}] = describe(rec)
			must0(st.Grp.Store(bg, a, d, rec))
			lastGrp = rec
		case "pre":
			kp := must(curve.GenerateKeyPair(r))
			must0(st.Pre.Store(bg, id, prekey.NewPreKey(id, kp)))
			pre[id] = kp.PrivateKey().Bytes()
		case "sig":
			kp := must(curve.GenerateKeyPair(r))
			must0(st.Sig.Store(bg, id, prekey.NewSigned(id, 1, kp, r.Bytes(64))))
			sig[id] = kp.PrivateKey().Bytes()
		case "del":
			must0(st.Pre.Delete(bg, id))
			delete(pre, id)
		case "id":
			k := keys[op.N]
			changed, err := st.ID.Store(bg, a, k)
			old, have := ids[a]
			if want := have && !bytes.Equal(old, k.Bytes()); err != nil || changed != want {
				return vt.Violate("storing an identity does not tell whether it replaces another", "%q: %v %v, want %v", a, changed, err, want)
			}
			if have {
				over++
			}
			ids[a] = k.Bytes()
		case "clear":
			if op.N == 0 {
				must0(st.ID.Clear())
				ids = map[address.Address][]byte{}
			}
		case "scribble":
			// What was stored, and what is loaded, belongs to the caller.
			if lastRec != nil && lastRec.State() != nil {
				change(lastRec.State())
				lastRec.PromoteState(newState())
				lastRec = nil
			}
			if lastGrp != nil {
				if s, err := lastGrp.State(); err == nil {
					trySet(s, "SetSenderChainKey", senderkey.NewChainKey(r.Bytes(32), 77))
					trySet(s, "AddMessageKey", must(senderkey.DeriveMessageKey(r.Bytes(32), 3)))
				}
				lastGrp = nil
			}
			if rec, ok := load3(st.Sess.Load(bg, a)); ok && rec.State() != nil {
				change(rec.State())
				trySet(rec, "PromoteOldState", 0, newState())
			}
			if rec, ok := load3(st.Grp.Load(bg, a, d)); ok {
				if s, err := rec.State(); err == nil {
					trySet(s, "SetSenderChainKey", senderkey.NewChainKey(r.Bytes(32), 78))
					try(rec, "RemoveStates", s.ChainID())
				}
			}
		}
		if err := check(); err != nil {
			return err
		}
	}
	if over > 0 {
		c.NonTrivial()
	}
	return nil
}

// MixCase is several conversations of one user.
type MixCase struct {
	Seed   uint64    `json:"seed"`
	Convs  []MixConv `json:"convs"`
	Order  []int     `json:"order"` // which conversation is next
	Shared bool      `json:"shared,omitempty"`
}

// MixConv is a conversation of the user (party 0) with someone, or a group.
type MixConv struct {
	Seed  uint64 `json:"seed"`
	Group bool   `json:"group,omitempty"`
	Addr  int    `json:"addr"`
	Dist  int    `json:"dist"`
	Ops   []Op   `json:"ops"`
}

// conv is a conversation being run.
type conv struct {
	w    *world
	g    *gworld
	ops  []Op
	i    int
	err  *worldErr
	addr address.Address
}

func (v *conv) trace() []string {
	if v.w != nil {
		return v.w.trace
	}
	return v.g.trace
}

func (v *conv) next() {
	if v.err != nil || v.i >= len(v.ops) {
		return
	}
	op := v.ops[v.i]
	v.i++
	if v.w != nil {
		v.w.step++
		v.err = v.w.do(op)
	} else {
		v.g.step++
		v.err = v.g.do(op)
	}
}

func (v *conv) finish() {
	for v.err == nil && v.i < len(v.ops) {
		v.next()
	}
	if v.err == nil {
		if v.w != nil {
			v.err = v.w.settle()
		} else {
			v.err = v.g.settle()
		}
	}
}

// user is party 0 of all conversations.
type user struct {
	addr  address.Address
	ident identity.KeyPair
	reg   uint32
	st    Stores
}

func newUser(seed uint64) *user {
	r := vt.NewDRBG(seed, 2020)
	u := &user{addr: address.Address{Name: "me", DeviceID: 1}, ident: must(identity.GenerateKeyPair(r)), reg: uint32(r.Uint64())}
	u.st = newStores(u.ident, u.reg)
	return u
}

// begin sets up conversation i of the case for the user.
func (mc MixCase) begin(c *vt.Ctx, i int, u *user) *conv {
	k := mc.Convs[i]
	if k.Group {
		g := newGWorld(c, GroupCase{Seed: k.Seed, Users: 3, Dists: 1})
		g.ds[0] = distribution.MustParse(alikeDists[k.Dist%len(alikeDists)])
		g.us[0].addr, g.us[0].st = u.addr, u.st.Grp
		g.us[1].addr = alike(k.Addr)
		g.us[2].addr = alike(k.Addr + 1)
		return &conv{g: g, ops: k.Ops}
	}
	w := newWorld(c, WorldCase{Seed: k.Seed, Parties: 2})
	w.idMod, w.idOff = uint32(len(mc.Convs)), uint32(i)
	p := w.ps[0]
	p.addr, p.ident, p.reg, p.st = u.addr, u.ident, u.reg, u.st
	w.ps[1].addr = alike(k.Addr)
	p.spks = nil
	w.newSPK(p)
	return &conv{w: w, ops: k.Ops}
}

func genMix(t *rapidT) MixCase {
	mc := MixCase{Seed: vt.Bits(t, "seed")}
	n := 2 + vt.Uni(t, 3, "convs")
	total := 0
	used := map[int]bool{}
	base := vt.Uni(t, len(alikeNames)*len(alikeDevices), "base")
	for i := 0; i < n; i++ {
		k := MixConv{Seed: vt.Bits(t, "convseed"), Group: vt.Uni(t, 3, "group") == 0, Dist: i}
		// Addresses which share the name or the device, mostly.
		for tries := 0; ; tries++ {
			k.Addr = (base + [...]int{0, 1, len(alikeNames), 2 * len(alikeNames), vt.Uni(t, 100, "d")}[vt.Uni(t, 5, "near")] + tries*7) % (len(alikeNames) * len(alikeDevices))
			if k.Group || !used[k.Addr] {
				break
			}
		}
		if !k.Group {
			used[k.Addr] = true
		}
		m := 6 + vt.Uni(t, 20, "len")
		if k.Group {
			k.Ops = append(k.Ops, Op{K: "dist", M: 1}, Op{K: "dist", A: 1, M: 1})
		} else {
			k.Ops = append(k.Ops, Op{K: "open", M: vt.Uni(t, 2, "otpk")}, Op{K: "send"})
		}
		for j := 0; j < m; j++ {
			if k.Group {
				op := genOp(gprofiles["mixed"], t)
				op.A = vt.Uni(t, 3, "u")
				op.M &^= 2 // chain IDs are drawn from the system
				if op.K == "rotate" {
					op.K = "recv"
				}
				k.Ops = append(k.Ops, op)
			} else {
				op := genOp(profiles["mixed"], t)
				k.Ops = append(k.Ops, op)
			}
		}
		total += len(k.Ops)
		mc.Convs = append(mc.Convs, k)
	}
	for i := 0; i < total+4; i++ {
		mc.Order = append(mc.Order, vt.Uni(t, n, "next"))
	}
	return mc
}

// locked makes the stores safe for concurrent use.
func (s Stores) locked() Stores {
	var mu sync.Mutex
	return Stores{&lockedSess{&mu, s.Sess}, &lockedPre{&mu, s.Pre}, &lockedSig{&mu, s.Sig}, &lockedID{&mu, s.ID}, &lockedGrp{&mu, s.Grp}}
}

type lockedSess struct {
	mu *sync.Mutex
	s  session.Store
}

func (l *lockedSess) Load(ctx context.Context, a address.Address) (*session.Record, bool, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Load(ctx, a)
}

func (l *lockedSess) Store(ctx context.Context, a address.Address, r *session.Record) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Store(ctx, a, r)
}

type lockedPre struct {
	mu *sync.Mutex
	s  prekey.Store
}

func (l *lockedPre) Load(ctx context.Context, id prekey.ID) (*prekey.PreKey, bool, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Load(ctx, id)
}

func (l *lockedPre) Store(ctx context.Context, id prekey.ID, k *prekey.PreKey) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Store(ctx, id, k)
}

func (l *lockedPre) Delete(ctx context.Context, id prekey.ID) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Delete(ctx, id)
}

type lockedSig struct {
	mu *sync.Mutex
	s  prekey.SignedStore
}

func (l *lockedSig) Load(ctx context.Context, id prekey.ID) (*prekey.SignedPreKey, bool, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Load(ctx, id)
}

func (l *lockedSig) Store(ctx context.Context, id prekey.ID, k *prekey.SignedPreKey) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Store(ctx, id, k)
}

type lockedID struct {
	mu *sync.Mutex
	s  identity.Store
}

func (l *lockedID) KeyPair(ctx context.Context) identity.KeyPair {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.KeyPair(ctx)
}

func (l *lockedID) LocalRegistrationID(ctx context.Context) uint32 {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.LocalRegistrationID(ctx)
}

func (l *lockedID) Load(ctx context.Context, a address.Address) (identity.Key, bool, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Load(ctx, a)
}

func (l *lockedID) Store(ctx context.Context, a address.Address, k identity.Key) (bool, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Store(ctx, a, k)
}

func (l *lockedID) Clear() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Clear()
}

func (l *lockedID) IsTrustedIdentity(ctx context.Context, a address.Address, k identity.Key, d direction.Direction) (bool, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.IsTrustedIdentity(ctx, a, k, d)
}

type lockedGrp struct {
	mu *sync.Mutex
	s  session.GroupStore
}

func (l *lockedGrp) Load(ctx context.Context, a address.Address, d distribution.ID) (*session.GroupRecord, bool, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Load(ctx, a, d)
}

func (l *lockedGrp) Store(ctx context.Context, a address.Address, d distribution.ID, r *session.GroupRecord) error {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.s.Store(ctx, a, d, r)
}

func mixed(c *vt.Ctx, mc MixCase) error {
	var alone []*conv
	for i := range mc.Convs {
		v := mc.begin(c, i, newUser(mc.Seed))
		v.finish()
		if v.err != nil {
			c.Class("stopped: violation of another property")
			return nil
		}
		alone = append(alone, v)
	}
	u := newUser(mc.Seed)
	var vs []*conv
	for i := range mc.Convs {
		vs = append(vs, mc.begin(c, i, u))
	}
	for _, i := range mc.Order {
		vs[i%len(vs)].next()
	}
	recv := 0
	for i, v := range vs {
		v.finish()
		if v.err != nil {
			return vt.Violate("conversation fails when others go on at the same time", "conversation %d: %v", i, v.err)
		}
		if d := traceDiff(alone[i].trace(), v.trace()); d != "" {
			return vt.Violate("conversation differs when others go on at the same time", "conversation %d: %s", i, d)
		}
		if v.w != nil {
			recv += v.w.nRecv
		} else {
			recv += v.g.nRecv
		}
	}
	if recv >= 4 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	vt.Register("C20", "stores", 4000, 160000, "random operations on all in-memory stores with addresses, key IDs and group IDs which look alike, against maps; values stored and loaded are changed afterwards; everything is compared after each operation; non-trivial: a value was replaced",
		genStores, storeModel)
	vt.Register("C20", "interleaved", 1200, 40000, "2-4 conversations and groups of one user with look-alike addresses and group IDs, each run alone and all interleaved on the same stores; the traces (messages, plaintexts, refusals) of each must be equal; non-trivial: at least 4 messages decrypted",
		genMix, mixed)
}
