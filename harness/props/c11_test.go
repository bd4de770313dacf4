package props

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/ratchet"
	"github.com/RTann/libsignal-go/protocol/senderkey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/ref"
	"verif/vt"
)

func c11(cat, format string, args ...any) *worldErr {
	return wf([]string{"C11"}, cat, format, args...)
}

// shadow keeps, for every session of the world, both sides as sessions of the
// reference client made from the same randomness.
type shadow struct {
	s map[*lineage]*[2]*ref.Session
}

func rawPriv(k *curve.KeyPair) []byte { return k.PrivateKey().Bytes() }

// block gives the 32 bytes the key was made from.
func block(out, typed []byte) []byte {
	i := blockOf(out, typed)
	if i < 0 {
		return nil
	}
	return out[i : i+32]
}

func (s *shadow) open(w *world, a, b *party, lin *lineage, out, ratchet []byte) *worldErr {
	base, rat := block(out, lin.base), block(out, ratchet)
	if base == nil || rat == nil {
		return c11("keys are not made from the given randomness in the usual way", "base: %v, ratchet: %v", base != nil, rat != nil)
	}
	bd := ref.Bundle{Identity: b.identBytes()[1:], SPK: lin.spk.pair.PublicKey().Bytes()[1:], SPKID: lin.spk.id}
	if lin.otpk != nil {
		bd.OTPK, bd.OTPKID = lin.otpk.pair.PublicKey().Bytes()[1:], &lin.otpk.id
	}
	x := ref.Initiate(bytes.NewReader(append(append([]byte{}, base...), rat...)), a.ident.PrivateKey().Bytes(), a.reg, bd)
	s.s[lin] = &[2]*ref.Session{x, nil}
	return s.same(w, a, b, x)
}

// same compares keys.
func (s *shadow) same(w *world, a, b *party, x *ref.Session) *worldErr {
	rec, ok, err := a.st.Sess.Load(bg, b.addr)
	if err != nil || !ok || rec.State() == nil {
		return nil
	}
	rk, err := rec.State().RootKey()
	if err != nil || !bytes.Equal(rk.Bytes(), x.Root()) {
		return c11("another root key than by the specification", "%x, want %x (%v)", rk.Bytes(), x.Root(), err)
	}
	ck, err := rec.State().SenderChainKey()
	if err != nil || !bytes.Equal(ck.Key(), x.SendCK()) {
		return c11("another chain key than by the specification", "%x, want %x (%v)", ck.Key(), x.SendCK(), err)
	}
	return nil
}

func sideOf(m *msg) int {
	if m.from == m.lin.init {
		return 0
	}
	return 1
}

func sortedFields(b []byte) (string, bool) {
	fs, ok := ref.ParseFields(b)
	if !ok {
		return "", false
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].Num < fs[j].Num })
	return fmt.Sprintf("%x", ref.Encode(fs)), true
}

// sameSignal compares plain messages up to the order of fields.
func sameSignal(got, want []byte, s *ref.Session, mk ref.MessageKeys) bool {
	if bytes.Equal(got, want) {
		return true
	}
	g, err := ref.ParseSignal(got)
	if err != nil {
		return false
	}
	w, err := ref.ParseSignal(want)
	if err != nil {
		panic(err)
	}
	return bytes.Equal(g.Ratchet, w.Ratchet) && g.N == w.N && g.PrevN == w.PrevN && bytes.Equal(g.Ciphertext, w.Ciphertext) && s.CheckMAC(g, mk)
}

// samePreKey compares establishing messages likewise.
func samePreKey(got, want []byte, s *ref.Session, mk ref.MessageKeys) bool {
	if bytes.Equal(got, want) {
		return true
	}
	g, err := ref.ParsePreKey(got)
	if err != nil {
		return false
	}
	w, err := ref.ParsePreKey(want)
	if err != nil {
		panic(err)
	}
	return g.Reg == w.Reg && g.SPKID == w.SPKID && (g.OTPKID == nil) == (w.OTPKID == nil) && (g.OTPKID == nil || *g.OTPKID == *w.OTPKID) &&
		bytes.Equal(g.Base, w.Base) && bytes.Equal(g.Identity, w.Identity) && sameSignal(g.Inner, w.Inner, s, mk)
}

func (s *shadow) send(w *world, a, b *party, m *msg) *worldErr {
	p := s.s[m.lin]
	if p == nil || p[sideOf(m)] == nil {
		return nil
	}
	x := p[sideOf(m)]
	raw, pre := x.Encrypt(m.pt)
	if pre != m.pre {
		return c11("establishing message where the specification has a plain one, or the reverse", "%v", m.pre)
	}
	if pre && !samePreKey(m.raw, raw, x, x.Last) || !pre && !sameSignal(m.raw, raw, x, x.Last) {
		return c11("another message than by the specification", "establishing: %v: %x, want %x", pre, m.raw, raw)
	}
	w.c.ClassN("messages compared", 1)
	return s.same(w, a, b, x)
}

func (s *shadow) recv(w *world, a, b *party, m *msg, fresh bool, out, ratchet []byte) *worldErr {
	p := s.s[m.lin]
	if p == nil {
		return nil
	}
	side := 1 - sideOf(m)
	raw := m.raw
	if m.pre {
		x, err := ref.ParsePreKey(m.raw)
		if err != nil {
			return c11("message cannot be parsed by the specification", "%v: %x", err, m.raw)
		}
		raw = x.Inner
	}
	if fresh {
		var o []byte
		if m.lin.otpk != nil {
			o = rawPriv(m.lin.otpk.pair)
		}
		p[side] = ref.Respond(b.ident.PrivateKey().Bytes(), rawPriv(m.lin.spk.pair), o, m.ident[1:], m.lin.base[1:])
	}
	if p[side] == nil {
		return nil
	}
	before := append([]byte(nil), p[side].Root()...)
	rd := &bytes.Reader{}
	if k := block(out, ratchet); k != nil {
		rd = bytes.NewReader(k)
	} else {
		rd = bytes.NewReader(make([]byte, 32))
	}
	pt, err := p[side].Decrypt(rd, raw)
	if err != nil || !bytes.Equal(pt, m.pt) {
		return c11("message cannot be decrypted by the specification", "%v: %x", err, m.raw)
	}
	if !bytes.Equal(before, p[side].Root()) && block(out, ratchet) == nil {
		return c11("keys are not made from the given randomness in the usual way", "ratchet key")
	}
	w.c.ClassN("messages decrypted by the reference", 1)
	return nil
}

// --- groups

type gshadow struct {
	c     *vt.Ctx
	sends map[*skey]*ref.GroupSender
	recvs map[int]map[*skey]*ref.GroupReceiver
}

func (s *gshadow) distribute(k *skey, m *message.SenderKeyDistribution, out []byte) *worldErr {
	x := s.sends[k]
	if x == nil {
		priv := block(out, k.signing)
		if priv == nil || bytes.Index(out, m.ChainKey()) < 0 {
			return c11("keys are not made from the given randomness in the usual way", "sender key")
		}
		x = ref.NewGroupSender(bytes.NewReader(append(append([]byte{}, m.ChainKey()...), priv...)), []byte(m.DistributionID().String()), m.ChainID())
		s.sends[k] = x
	}
	want := x.Distribution()
	if b := m.Bytes(); !bytes.Equal(b, want) {
		f, ok := sortedFields(b[1:])
		if wf, _ := sortedFields(want[1:]); !ok || b[0] != want[0] || f != wf {
			return c11("another distribution message than by the specification", "%x, want %x", b, want)
		}
	}
	return nil
}

func (s *gshadow) join(u *guser, gd *gdist) *worldErr {
	r, err := ref.Join(gd.raw)
	if err != nil {
		return c11("distribution message cannot be parsed by the specification", "%v: %x", err, gd.raw)
	}
	if s.recvs[u.idx] == nil {
		s.recvs[u.idx] = map[*skey]*ref.GroupReceiver{}
	}
	r.Verified = true // when it was sent
	s.recvs[u.idx][gd.k] = r
	return nil
}

func (s *gshadow) send(m *gmsg) *worldErr {
	x := s.sends[m.k]
	if x == nil {
		return nil
	}
	want := x.EncryptUnsigned(m.pt)
	if len(m.raw) < 65 {
		return c11("another group message than by the specification", "%x", m.raw)
	}
	got := m.raw[:len(m.raw)-64]
	if !bytes.Equal(got, want) {
		f, ok := sortedFields(got[1:])
		if wf, _ := sortedFields(want[1:]); !ok || got[0] != want[0] || f != wf {
			return c11("another group message than by the specification", "%x, want %x", got, want)
		}
	}
	if !ref.Verify(m.k.signing[1:], got, m.raw[len(got):]) {
		return c11("signature of a group message does not fit the specification", "%x", m.raw)
	}
	s.c.ClassN("messages compared", 1)
	return nil
}

func (s *gshadow) recv(u *guser, m *gmsg) *worldErr {
	r := s.recvs[u.idx][m.k]
	if r == nil {
		return nil
	}
	pt, err := r.Decrypt(m.raw)
	if err != nil || !bytes.Equal(pt, m.pt) {
		return c11("group message cannot be decrypted by the specification", "%v: %x", err, m.raw)
	}
	s.c.ClassN("messages decrypted by the reference", 1)
	return nil
}

// --- the reference client as the other user

// peer is a user of the reference client.
type peer struct {
	addr     address.Address
	ident    []byte
	reg      uint32
	spk      []byte
	spkID    uint32
	otpks    map[uint32][]byte
	sessions []*ref.Session
	bases    map[string]*ref.Session
	turns    map[*ref.Session]int
}

type flight struct {
	raw  []byte
	pt   []byte
	pre  bool
	sess *ref.Session
	turn int
}

func (p *peer) pub() []byte { return ref.Public(p.ident) }

// InteropCase is a history of a library user and a reference user.
type InteropCase struct {
	Seed uint64 `json:"seed"`
	Ops  []Op   `json:"ops"`
}

func interop(c *vt.Ctx, ic InteropCase) error {
	w := newWorld(c, WorldCase{Seed: ic.Seed})
	l := w.ps[0]
	r := vt.NewDRBG(ic.Seed, 11)
	p := &peer{addr: names[1], ident: r.Bytes(32), reg: uint32(r.Intn(0x4000)), spk: r.Bytes(32), otpks: map[uint32][]byte{}, bases: map[string]*ref.Session{}, turns: map[*ref.Session]int{}}
	if r.Intn(2) == 0 {
		p.ident, p.spk = ref.Clamp(p.ident), ref.Clamp(p.spk)
	}
	p.spkID = uint32(r.Uint64()) >> r.Intn(32)
	ls := &session.Session{RemoteAddress: p.addr, SessionStore: l.st.Sess, PreKeyStore: l.st.Pre, SignedPreKeyStore: l.st.Sig, IdentityKeyStore: l.st.ID}
	var toL, toP []*flight
	has := false
	nOK := [2]int{}
	// getL presents a message of the reference to the library.
	getL := func(f *flight) error {
		var ct message.Ciphertext
		var err error
		if f.pre {
			ct, err = message.NewPreKeyFromBytes(append([]byte(nil), f.raw...))
		} else {
			ct, err = message.NewSignalFromBytes(append([]byte(nil), f.raw...))
		}
		if err != nil {
			return vt.Violate("message of an independent implementation cannot be parsed", "%v: %x", err, f.raw)
		}
		vt.SetGlobal(r)
		pt, err := ls.DecryptMessage(bg, r, ct)
		if err != nil || !bytes.Equal(pt, f.pt) {
			return vt.Violate("message of an independent implementation cannot be decrypted", "establishing: %v: %v: %x", f.pre, err, f.raw)
		}
		has = true
		nOK[0]++
		return nil
	}
	getP := func(f *flight) error {
		raw := f.raw
		if f.pre {
			x, err := ref.ParsePreKey(raw)
			if err != nil {
				return vt.Violate("message cannot be parsed by an independent implementation", "%v: %x", err, raw)
			}
			if !bytes.Equal(x.Identity, l.identBytes()[1:]) || x.Reg != l.reg || x.SPKID != p.spkID {
				return vt.Violate("establishing message names other keys than the bundle", "%x", raw)
			}
			s := p.bases[string(x.Base)]
			if s == nil {
				var o []byte
				if x.OTPKID != nil {
					if o = p.otpks[*x.OTPKID]; o == nil {
						return vt.Violate("establishing message names other keys than the bundle", "one-time pre-key %d", *x.OTPKID)
					}
					delete(p.otpks, *x.OTPKID)
				}
				s = ref.Respond(p.ident, p.spk, o, x.Identity, x.Base)
				p.bases[string(x.Base)] = s
				p.sessions = append(p.sessions, s)
			}
			raw = x.Inner
		}
		var last error
		for i := len(p.sessions) - 1; i >= 0; i-- {
			s := p.sessions[i]
			root := append([]byte(nil), s.Root()...)
			pt, err := s.Decrypt(r, raw)
			if err != nil {
				last = err
				continue
			}
			if !bytes.Equal(pt, f.pt) {
				return vt.Violate("message is decrypted differently by an independent implementation", "%x, want %x", pt, f.pt)
			}
			if !bytes.Equal(root, s.Root()) {
				p.turns[s]++
			}
			nOK[1]++
			return nil
		}
		return vt.Violate("message cannot be decrypted by an independent implementation", "establishing: %v: %v: %x", f.pre, last, f.raw)
	}
	take := func(q *[]*flight, n int) *flight {
		if len(*q) == 0 {
			return nil
		}
		i := n % len(*q)
		f := (*q)[i]
		*q = append((*q)[:i:i], (*q)[i+1:]...)
		return f
	}
	// Messages wait while the chain they belong to is still kept.
	catchUp := func(s *ref.Session) error {
		for i := 0; i < len(toL); i++ {
			if toL[i].sess == s && p.turns[s]-toL[i].turn >= 3 {
				if err := getL(take(&toL, i)); err != nil {
					return err
				}
				i--
			}
		}
		return nil
	}
	do := func(op Op) error {
		switch op.K {
		case "Lopen":
			b := &prekey.Bundle{RegistrationID: p.reg, DeviceID: p.addr.DeviceID, SignedPreKeyID: prekey.ID(p.spkID), SignedPreKeyPublic: pub(ref.Typed(ref.Public(p.spk))),
				IdentityKey: must(identity.NewKey(ref.Typed(p.pub())))}
			if op.M&2 == 0 {
				b.SignedPreKeySignature = ref.Sign(p.ident, ref.Typed(ref.Public(p.spk)), r.Bytes(64))
			} else {
				b.SignedPreKeySignature = ref.SignClassic(p.ident, ref.Typed(ref.Public(p.spk)), r.Bytes(64))
			}
			if op.M&1 == 1 {
				id := uint32(r.Uint64())>>r.Intn(32) | 1
				if p.otpks[id] == nil {
					p.otpks[id] = r.Bytes(32)
					pid := prekey.ID(id)
					b.PreKeyID, b.PreKeyPublic = &pid, pub(ref.Typed(ref.Public(p.otpks[id])))
				}
			}
			vt.SetGlobal(r)
			if err := ls.ProcessPreKeyBundle(bg, r, b); err != nil {
				return vt.Violate("bundle of an independent implementation refused", "%v", err)
			}
			has = true
		case "Popen":
			w.step++
			w.makeBundle(l, op.M&1 == 1, l.spks[len(l.spks)-1-op.N%len(l.spks)])
			b := l.bundle
			bd := ref.Bundle{Identity: b.IdentityKey.Bytes()[1:], SPK: b.SignedPreKeyPublic.Bytes()[1:], SPKID: uint32(b.SignedPreKeyID)}
			if !ref.Verify(bd.Identity, ref.Typed(bd.SPK), b.SignedPreKeySignature) {
				return vt.Violate("signature of a signed pre-key does not fit the specification", "%x", b.SignedPreKeySignature)
			}
			if b.PreKeyID != nil {
				id := uint32(*b.PreKeyID)
				bd.OTPK, bd.OTPKID = b.PreKeyPublic.Bytes()[1:], &id
			}
			s := ref.Initiate(r, p.ident, p.reg, bd)
			p.sessions = append(p.sessions, s)
		case "Lsend":
			if !has {
				return nil
			}
			for i := 0; i <= op.N; i++ {
				w.step++
				pt := w.plaintext(i)
				vt.SetGlobal(r)
				ct, err := ls.EncryptMessage(bg, append([]byte(nil), pt...))
				if err != nil {
					return vt.Violate("cannot encrypt for an independent implementation", "%v", err)
				}
				_, pre := ct.(*message.PreKey)
				toP = append(toP, &flight{raw: append([]byte(nil), ct.Bytes()...), pt: pt, pre: pre})
			}
		case "Psend":
			n := len(p.sessions)
			if n == 0 {
				return nil
			}
			s := p.sessions[n-1-op.M%n]
			if err := catchUp(s); err != nil {
				return err
			}
			for i := 0; i <= op.N; i++ {
				w.step++
				pt := w.plaintext(i)
				raw, pre := s.Encrypt(pt)
				toL = append(toL, &flight{raw: raw, pt: pt, pre: pre, sess: s, turn: p.turns[s]})
			}
		case "Lrecv":
			if f := take(&toL, op.N); f != nil {
				return getL(f)
			}
		case "Precv":
			if f := take(&toP, op.N); f != nil {
				return getP(f)
			}
		case "rotate":
			w.step++
			w.newSPK(l)
		}
		return nil
	}
	for _, op := range ic.Ops {
		if err := do(op); err != nil {
			return err
		}
	}
	for len(toL)+len(toP) > 0 {
		if f := take(&toL, r.Intn(9)); f != nil {
			if err := getL(f); err != nil {
				return err
			}
		}
		if f := take(&toP, r.Intn(9)); f != nil {
			if err := getP(f); err != nil {
				return err
			}
		}
	}
	c.ClassN("decrypted by the library", nOK[0])
	c.ClassN("decrypted by the reference", nOK[1])
	c.ClassN("sessions", len(p.sessions))
	if nOK[0] >= 2 && nOK[1] >= 2 {
		c.NonTrivial()
	}
	return nil
}

func interopGroup(c *vt.Ctx, ic InteropCase) error {
	r := vt.NewDRBG(ic.Seed, 12)
	g := newGWorld(c, GroupCase{Seed: ic.Seed})
	l := g.us[0]
	them := names[1]
	d := distribution.MustParse(alikeDists[r.Intn(len(alikeDists))])
	var ps *ref.GroupSender
	var pn int
	own := &session.GroupSession{SenderAddress: l.addr, DistID: d, SenderKeyStore: l.st}
	other := &session.GroupSession{SenderAddress: them, DistID: d, SenderKeyStore: l.st}
	var rcv *ref.GroupReceiver
	type fl struct{ raw, pt []byte }
	var toL, toP []fl
	nOK := [2]int{}
	take := func(q *[]fl, n int) *fl {
		if len(*q) == 0 {
			return nil
		}
		i := n % len(*q)
		f := (*q)[i]
		*q = append((*q)[:i:i], (*q)[i+1:]...)
		return &f
	}
	dist := func() error {
		m, err := message.NewSenderKeyDistributionFromBytes(ps.Distribution())
		if err != nil {
			return vt.Violate("distribution message of an independent implementation cannot be parsed", "%v", err)
		}
		if err := other.ProcessSenderKeyDistribution(bg, m); err != nil {
			return vt.Violate("distribution message of an independent implementation refused", "%v", err)
		}
		return nil
	}
	getL := func(f *fl) error {
		m, err := message.NewSenderKeyFromBytes(append([]byte(nil), f.raw...))
		if err != nil {
			return vt.Violate("group message of an independent implementation cannot be parsed", "%v", err)
		}
		pt, err := other.DecryptMessage(bg, m)
		if err != nil || !bytes.Equal(pt, f.pt) {
			return vt.Violate("group message of an independent implementation cannot be decrypted", "%v: %x", err, f.raw)
		}
		nOK[0]++
		return nil
	}
	getP := func(f *fl) error {
		pt, err := rcv.Decrypt(f.raw)
		if err != nil || !bytes.Equal(pt, f.pt) {
			return vt.Violate("group message cannot be decrypted by an independent implementation", "%v: %x", err, f.raw)
		}
		nOK[1]++
		return nil
	}
	do := func(op Op) error {
		vt.SetGlobal(r)
		g.step++
		switch op.K {
		case "Pdist":
			if ps == nil || op.M == 1 && pn < 4 {
				// Chain IDs of other implementations may have 31 bits or fewer.
				ps = ref.NewGroupSender(r, []byte(d.String()), uint32(r.Uint64())>>(1+r.Intn(31)))
				if pn > 0 {
					// Equal chain IDs would replace the earlier key.
					ps.ChainID = ps.ChainID&^7 | uint32(pn)
				} else {
					ps.ChainID &^= 7
				}
				pn++
			}
			return dist()
		case "Psend":
			if ps == nil {
				return nil
			}
			for i := 0; i <= op.N; i++ {
				pt := g.plaintext()
				toL = append(toL, fl{ps.Encrypt(r, pt), pt})
				g.step++
			}
		case "Lrecv":
			if f := take(&toL, op.N); f != nil {
				return getL(f)
			}
		case "Ldist":
			m, err := own.NewSenderKeyDistribution(bg, r)
			if err != nil {
				return vt.Violate("cannot make a distribution message", "%v", err)
			}
			x, err := ref.Join(append([]byte(nil), m.Bytes()...))
			if err != nil || string(x.Dist) != d.String() {
				return vt.Violate("distribution message cannot be parsed by an independent implementation", "%v: %x", err, m.Bytes())
			}
			if rcv == nil {
				rcv = x
			}
		case "Lsend":
			if rcv == nil {
				return nil
			}
			for i := 0; i <= op.N; i++ {
				pt := g.plaintext()
				m, err := own.EncryptMessage(bg, r, append([]byte(nil), pt...))
				if err != nil {
					return vt.Violate("cannot encrypt for a group", "%v", err)
				}
				toP = append(toP, fl{append([]byte(nil), m.Bytes()...), pt})
				g.step++
			}
		case "Precv":
			if f := take(&toP, op.N); f != nil {
				return getP(f)
			}
		}
		return nil
	}
	for _, op := range ic.Ops {
		if err := do(op); err != nil {
			return err
		}
	}
	for len(toL)+len(toP) > 0 {
		if f := take(&toL, r.Intn(9)); f != nil {
			if err := getL(f); err != nil {
				return err
			}
		}
		if f := take(&toP, r.Intn(9)); f != nil {
			if err := getP(f); err != nil {
				return err
			}
		}
	}
	c.ClassN("decrypted by the library", nOK[0])
	c.ClassN("decrypted by the reference", nOK[1])
	if nOK[0] >= 2 && nOK[1] >= 2 {
		c.NonTrivial()
	}
	return nil
}

// --- derivations

// DeriveCase is key material.
type DeriveCase struct {
	Seed uint64 `json:"seed"`
	Otpk bool   `json:"otpk"`
	Len  int    `json:"len"`
}

func derivations(c *vt.Ctx, dc DeriveCase) error {
	r := vt.NewDRBG(dc.Seed, 13)
	eq := func(what string, got, want []byte) error {
		if !bytes.Equal(got, want) {
			return vt.Violate("derived key differs from the specification", "%s: %x, want %x", what, got, want)
		}
		return nil
	}
	var errs []error
	try := func(what string, got, want []byte) {
		if err := eq(what, got, want); err != nil {
			errs = append(errs, err)
		}
	}
	pos := uint32(r.Uint64())
	if r.Intn(2) == 0 {
		pos = edgeIDs[r.Intn(len(edgeIDs))]
	}
	ck := r.Bytes(32)
	k := must(ratchet.NewChainKey(append([]byte(nil), ck...), pos))
	gk := senderkey.NewChainKey(append([]byte(nil), ck...), pos)
	for i := 0; i < 3; i++ {
		mk := must(k.MessageKeys())
		want := ref.DeriveMessageKeys(ck)
		try("cipher key", mk.CipherKey(), want.Cipher)
		try("MAC key", mk.MACKey(), want.MAC)
		try("IV", mk.IV(), want.IV)
		gm := must(gk.MessageKey())
		iv, key := ref.GroupKeys(ck)
		try("IV of a group message", gm.IV(), iv)
		try("key of a group message", gm.CipherKey(), key)
		if mk.Counter() != pos || gm.Iteration() != pos || k.Index() != pos || gk.Iteration() != pos {
			errs = append(errs, vt.Violate("position of a derived key differs from the specification", "%d %d %d %d, want %d", mk.Counter(), gm.Iteration(), k.Index(), gk.Iteration(), pos))
		}
		// Group keys are kept by their seed.
		again := must(senderkey.DeriveMessageKey(gm.Seed(), pos))
		try("kept IV of a group message", again.IV(), iv)
		try("kept key of a group message", again.CipherKey(), key)
		k, gk, ck, pos = k.Next(), gk.Next(), ref.NextChain(ck), pos+1
		try("next chain key", k.Key(), ck)
		try("next chain key of a group", gk.Seed(), ck)
	}
	// Root.
	root := r.Bytes(32)
	a, b := must(curve.GenerateKeyPair(r)), must(curve.GenerateKeyPair(r))
	rk, ch, err := must(ratchet.NewRootKey(root)).CreateChain(a.PrivateKey(), b.PublicKey())
	if err != nil {
		return err
	}
	wr, wc := ref.Root(root, must(ref.DH(a.PrivateKey().Bytes(), b.PublicKey().KeyBytes())))
	try("root key", rk.Bytes(), wr)
	try("first chain key", ch.Key(), wc)
	if ch.Index() != 0 {
		errs = append(errs, vt.Violate("position of a derived key differs from the specification", "new chain at %d", ch.Index()))
	}
	// Initial keys.
	secret := r.Bytes(dc.Len)
	rk, ch, err = ratchet.DeriveKeys(append([]byte(nil), secret...))
	if err != nil {
		return err
	}
	w := ref.HKDF(secret, nil, "WhisperText", 64)
	try("initial root key", rk.Bytes(), w[:32])
	try("initial chain key", ch.Key(), w[32:])
	// X3DH of both roles.
	ai, bi := must(identity.GenerateKeyPair(r)), must(identity.GenerateKeyPair(r))
	base, spk, otpk := must(curve.GenerateKeyPair(r)), must(curve.GenerateKeyPair(r)), must(curve.GenerateKeyPair(r))
	ap := &ratchet.AliceParameters{OurIdentityKeyPair: ai, OurBaseKeyPair: base, TheirIdentityKey: bi.IdentityKey(), TheirSignedPreKey: spk.PublicKey(), TheirRatchetKey: spk.PublicKey()}
	bp := &ratchet.BobParameters{OurIdentityKeyPair: bi, OurSignedPreKeyPair: spk, OurRatchetKeyPair: spk, TheirIdentityKey: ai.IdentityKey(), TheirBaseKey: base.PublicKey()}
	bd := ref.Bundle{Identity: bi.PublicKey().KeyBytes(), SPK: spk.PublicKey().KeyBytes()}
	var op []byte
	if dc.Otpk {
		ap.TheirOneTimePreKey, bp.OurOneTimePreKeyPair = otpk.PublicKey(), otpk
		bd.OTPK, op = otpk.PublicKey().KeyBytes(), rawPriv(otpk)
	}
	rat := r.Bytes(32)
	ar, err := session.InitializeAliceSessionRecord(bytes.NewReader(rat), ap)
	if err != nil {
		return err
	}
	br, err := session.InitializeBobSessionRecord(bp)
	if err != nil {
		return err
	}
	as := ref.Initiate(bytes.NewReader(append(append([]byte{}, rawPriv(base)...), rat...)), ai.PrivateKey().Bytes(), 1, bd)
	bs := ref.Respond(bi.PrivateKey().Bytes(), rawPriv(spk), op, ai.PublicKey().KeyBytes(), base.PublicKey().KeyBytes())
	try("initiator's root key", must(ar.State().RootKey()).Bytes(), as.Root())
	try("initiator's chain key", must(ar.SenderChainKey()).Key(), as.SendCK())
	try("responder's root key", must(br.State().RootKey()).Bytes(), bs.Root())
	try("responder's chain key", must(br.SenderChainKey()).Key(), bs.SendCK())
	rck, ok, err := ar.ReceiverChainKey(spk.PublicKey())
	if err != nil || !ok {
		return vt.Violate("derived key differs from the specification", "initiator has no receiver chain: %v", err)
	}
	try("initiator's receiver chain key", rck.Key(), bs.SendCK())
	c.NonTrivial()
	if len(errs) > 0 {
		return errs[0]
	}
	return nil
}

var interopOps = []wop{{"Lopen", 2, 1, 4}, {"Popen", 2, 2, 4}, {"Lsend", 10, 3, 1}, {"Psend", 10, 3, 3}, {"Lrecv", 12, 8, 1}, {"Precv", 12, 8, 1}, {"rotate", 1, 1, 1}}
var interopGroupOps = []wop{{"Ldist", 2, 1, 1}, {"Pdist", 2, 1, 2}, {"Lsend", 8, 3, 1}, {"Psend", 8, 3, 1}, {"Lrecv", 12, 30, 1}, {"Precv", 12, 30, 1}}

func genInterop(first []string, ws []wop) func(t *rapidT) InteropCase {
	return func(t *rapidT) InteropCase {
		ic := InteropCase{Seed: vt.Bits(t, "seed")}
		f := vt.Pick(t, "first", first...)
		ic.Ops = append(ic.Ops, Op{K: f + map[bool]string{true: "dist", false: "open"}[ws[0].k == "Ldist"], M: vt.Uni(t, 4, "m")})
		p := profile{w: ws}
		for n := 5 + vt.Uni(t, 60, "len"); n > 0; n-- {
			ic.Ops = append(ic.Ops, genOp(p, t))
		}
		return ic
	}
}

func init() {
	vt.Register("C11", "shadow", 2000, 80000, "histories between library users, each session shadowed by two sessions of the reference client made from the same randomness: every message must have the fields, ciphertext and MAC the reference gives, the root and chain keys must be equal, and the reference must decrypt what the library decrypts; non-trivial: at least 3 decrypted by both",
		histCase("mixed", "pong", "cross", "skips", "trust", "again"),
		func(c *vt.Ctx, wc WorldCase) error {
			w := newWorld(c, wc)
			w.watch = true
			w.shadow = &shadow{map[*lineage]*[2]*ref.Session{}}
			err := w.run(wc.Ops)
			if err == nil {
				err = w.settle()
			}
			w.count()
			if w.nRecv >= 3 {
				c.NonTrivial()
			}
			return verdict(c, err)
		})
	vt.Register("C11", "shadow-groups", 1200, 50000, "the same for groups: distribution messages and group messages up to the signature, which the reference verifies; non-trivial: at least 3 decrypted by both",
		histGroup("mixed", "rotate", "skips"),
		func(c *vt.Ctx, gc GroupCase) error {
			g := newGWorld(c, gc)
			g.watch = true
			g.shadow = &gshadow{c, map[*skey]*ref.GroupSender{}, map[int]map[*skey]*ref.GroupReceiver{}}
			for i := range gc.Ops {
				if gc.Ops[i].K == "jump" { // changes the sender key behind its back
					gc.Ops[i].K = "send"
					gc.Ops[i].N %= 4
				}
			}
			err := g.run(gc.Ops)
			if err == nil {
				err = g.settle()
			}
			g.count()
			if g.nRecv >= 3 {
				c.NonTrivial()
			}
			return verdict(c, err)
		})
	vt.Register("C11", "interop", 2000, 80000, "histories between a library user and a user of the reference client, each opening sessions by the other's bundle, any session in use, delivery in any order within the windows: each must decrypt everything the other sends; non-trivial: at least 2 decrypted by each", genInterop([]string{"L", "P"}, interopOps), interop)
	vt.Register("C11", "interop-groups", 800, 30000, "the same for a group with a library and a reference member, both sending; non-trivial: at least 2 decrypted by each", genInterop([]string{"L", "P"}, interopGroupOps), interopGroup)
	vt.Register("C11", "derivations", 20000, 100000, "chain, message, root, group and initial keys of both roles derived from generated material by the library and by the reference; every case is non-trivial",
		func(t *rapidT) DeriveCase {
			return DeriveCase{vt.Bits(t, "seed"), vt.Uni(t, 2, "otpk") == 1, vt.Uni(t, 200, "len")}
		}, derivations)
}
