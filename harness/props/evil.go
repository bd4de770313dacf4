package props

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/ref"
	"verif/vt"
)

// Things an attacker or a broken network may present to a user.

// fork copies a party with everything in its stores.
func (w *world) fork(p *party) *party {
	q := *p
	q.kept = nil
	q.st = newStores(p.ident, p.reg)
	for _, o := range p.otpks {
		if k, ok := load3(p.st.Pre.Load(bg, prekey.ID(o.id))); ok {
			must0(q.st.Pre.Store(bg, prekey.ID(o.id), k))
		}
	}
	for _, s := range p.spks {
		if k, ok := load3(p.st.Sig.Load(bg, prekey.ID(s.id))); ok {
			must0(q.st.Sig.Store(bg, prekey.ID(s.id), k))
		}
	}
	for _, o := range w.ps {
		if k, ok := load3(p.st.ID.Load(bg, o.addr)); ok {
			must(q.st.ID.Store(bg, o.addr, k))
		}
		if r, ok := load3(p.st.Sess.Load(bg, o.addr)); ok {
			must0(q.st.Sess.Store(bg, o.addr, r))
		}
	}
	return &q
}

func load3[T any](v T, ok bool, err error) (T, bool) {
	must0(err)
	return v, ok
}

// snapshot is everything p's stores hold.
func (w *world) snapshot(p *party) string {
	var b bytes.Buffer
	for _, o := range p.otpks {
		k, ok := load3(p.st.Pre.Load(bg, prekey.ID(o.id)))
		fmt.Fprintf(&b, "pre %d %v", o.id, ok)
		if ok {
			fmt.Fprintf(&b, " %x", must(k.KeyPair()).PrivateKey().Bytes())
		}
		b.WriteByte('\n')
	}
	for _, s := range p.spks {
		k, ok := load3(p.st.Sig.Load(bg, prekey.ID(s.id)))
		fmt.Fprintf(&b, "sig %d %v", s.id, ok)
		if ok {
			fmt.Fprintf(&b, " %x", must(k.KeyPair()).PrivateKey().Bytes())
		}
		b.WriteByte('\n')
	}
	for _, o := range append(w.ps[:len(w.ps):len(w.ps)], &party{addr: strangerAddr}) {
		k, ok := load3(p.st.ID.Load(bg, o.addr))
		fmt.Fprintf(&b, "id %v %v", o.addr, ok)
		if ok {
			fmt.Fprintf(&b, " %x", k.Bytes())
		}
		r, ok := load3(p.st.Sess.Load(bg, o.addr))
		fmt.Fprintf(&b, "\nsession %v %v", o.addr, ok)
		if ok {
			s := must(saveRecord(r))
			fmt.Fprintf(&b, " %x %x", s.cur, s.prev)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

var strangerAddr = address.Address{Name: "+14151111119", DeviceID: 7}

// attempt is something presented to a party.
type attempt struct {
	what string
	to   int
	run  func(q *party, r *vt.DRBG) ([]byte, error)
	// what must be the result if it is accepted; nil if it must be refused
	ok []byte
	// no judgement: may be accepted (redeliveries)
	free bool
	// which properties it breaks to accept it
	props []string
	// whose identity may become trusted if it is accepted
	from  address.Address
	ident []byte
	// the genuine message an establishing one carries, if it is from its author
	inner *msg
	base  []byte // the base key named
	// what is presented, if it is a message
	parsed func() (message.Ciphertext, error)
}

func (w *world) sessTo(q *party, a address.Address) *session.Session {
	s := &session.Session{
		RemoteAddress: a, SessionStore: q.st.Sess, PreKeyStore: q.st.Pre,
		SignedPreKeyStore: q.st.Sig, IdentityKeyStore: q.st.ID,
	}
	keep, slot := keeps(w.seed, w.step)
	at := keptPeer{a, slot}
	if k := q.kept[at]; k != nil && keep && k.SessionStore == s.SessionStore &&
		k.PreKeyStore == s.PreKeyStore && k.SignedPreKeyStore == s.SignedPreKeyStore && k.IdentityKeyStore == s.IdentityKeyStore {
		return k
	}
	if q.kept == nil {
		q.kept = map[keptPeer]*session.Session{}
	}
	q.kept[at] = s
	return s
}

// pickMsg selects a message, preferring ones not yet decrypted.
func (w *world) pickMsg(r *vt.DRBG) *msg {
	if len(w.allMsgs) == 0 {
		return nil
	}
	n := len(w.allMsgs)
	m := w.allMsgs[r.Intn(n)]
	for i := 0; i < 6 && (m.delivered > 0 || w.ps[m.to].identBytes() == nil); i++ {
		k := n
		if k > 12 {
			k = 12
		}
		m = w.allMsgs[n-1-r.Intn(k)]
	}
	return m
}

func (m *msg) inner() []byte {
	if !m.pre {
		return m.raw
	}
	fs, _ := ref.ParseFields(m.raw[1:])
	b, _ := ref.GetBytes(fs, 4)
	return b
}

// genuine tells whether raw is a plain message made by a for b.
func (w *world) genuine(raw []byte, from, to int) *msg {
	for _, m := range w.allMsgs {
		if m.from == from && m.to == to && bytes.Equal(m.inner(), raw) {
			return m
		}
	}
	return nil
}

var lowOrder = [][]byte{
	make([]byte, 32),
	append([]byte{1}, make([]byte, 31)...),
	{0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00},
	{0x5f, 0x9c, 0x95, 0xbc, 0xa3, 0x50, 0x8c, 0x24, 0xb1, 0xd0, 0xb1, 0x55, 0x9c, 0x83, 0xef, 0x5b, 0x04, 0x44, 0x5c, 0xc4, 0x58, 0x1c, 0x8e, 0x86, 0xd8, 0x22, 0x4e, 0xdd, 0xd0, 0x9f, 0x11, 0x57},
	{0xec, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0xed, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0xee, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
}

func randomKey(r *vt.DRBG) []byte { return ref.Typed(ref.Public(r.Bytes(32))) }

// mutateBytes changes bytes blindly.
func mutateBytes(r *vt.DRBG, raw []byte) ([]byte, string) {
	out := append([]byte(nil), raw...)
	switch r.Intn(8) {
	case 0, 1, 2:
		if len(out) == 0 {
			return []byte{0x33}, "one byte"
		}
		i := r.Intn(len(out) * 8)
		if r.Intn(3) == 0 && len(out) > 12 { // MAC and padding
			i = (len(out)-12)*8 + r.Intn(96)
		}
		out[i/8] ^= 1 << (i % 8)
		return out, fmt.Sprintf("bit %d flipped", i)
	case 3:
		n := 0
		if len(out) > 0 {
			n = r.Intn(len(out))
			if r.Intn(2) == 0 {
				n = len(out) - 1 - r.Intn(min(len(out), 20))
			}
		}
		return out[:n], fmt.Sprintf("cut to %d of %d bytes", n, len(raw))
	case 4:
		return append(out, r.Bytes(1+r.Intn(20))...), "extended"
	case 5:
		i := 0
		if len(out) > 0 {
			i = r.Intn(len(out))
		}
		ins := r.Bytes(1 + r.Intn(17))
		return append(out[:i:i], append(ins, out[i:]...)...), "bytes inserted"
	case 6:
		if len(out) < 3 {
			return nil, "nothing"
		}
		i := r.Intn(len(out) - 1)
		j := i + 1 + r.Intn(min(16, len(out)-i-1))
		return append(out[:i:i], out[j:]...), "bytes removed"
	default:
		if len(out) == 0 {
			return r.Bytes(10), "random"
		}
		i := r.Intn(len(out))
		n := min(1+r.Intn(16), len(out)-i)
		copy(out[i:], r.Bytes(n))
		return out, "bytes overwritten"
	}
}

// mutateSignal changes a plain message knowing its structure.
func (w *world) mutateSignal(r *vt.DRBG, m *msg) ([]byte, string) {
	raw := m.inner()
	if r.Intn(3) == 0 || len(raw) < 10 {
		return mutateBytes(r, raw)
	}
	body, mac := raw[:len(raw)-8], append([]byte(nil), raw[len(raw)-8:]...)
	ver := body[0]
	fs, ok := ref.ParseFields(body[1:])
	if !ok || len(fs) == 0 {
		return mutateBytes(r, raw)
	}
	o := w.allMsgs[r.Intn(len(w.allMsgs))]
	ofs, _ := ref.ParseFields(o.inner()[1 : len(o.inner())-8])
	other := func(n int) ref.Field { f, _ := ref.Get(ofs, n); return f }
	idx := func(n int) *ref.Field {
		for i := range fs {
			if fs[i].Num == n {
				return &fs[i]
			}
		}
		fs = append(fs, ref.Field{Num: n})
		return &fs[len(fs)-1]
	}
	what := ""
	reenc := true
	switch r.Intn(14) {
	case 0:
		d := []uint64{1, 0xffffffff, 2, 100, uint64(r.Intn(2000))}[r.Intn(5)]
		idx(2).Uint = uint64(uint32(idx(2).Uint + d))
		what = "other position"
	case 1:
		idx(2).Uint = other(2).Uint
		what = "position of another message"
	case 2:
		idx(3).Uint = uint64(uint32(r.Uint64() >> uint(r.Intn(32))))
		what = "other previous counter"
	case 3:
		idx(1).Bytes = randomKey(r)
		what = "random ratchet key"
	case 4:
		idx(1).Bytes = other(1).Bytes
		what = "ratchet key of another message"
	case 5:
		idx(1).Bytes = ref.Typed(lowOrder[r.Intn(len(lowOrder))])
		what = "degenerate ratchet key"
	case 6:
		idx(4).Bytes = other(4).Bytes
		what = "ciphertext of another message"
	case 7:
		c := append([]byte(nil), idx(4).Bytes...)
		switch r.Intn(4) {
		case 0:
			if len(c) > 16 {
				c = c[:len(c)-16]
			} else {
				c = nil
			}
		case 1:
			c = append(c, r.Bytes(16)...)
		case 2:
			if len(c) >= 32 {
				i, j := r.Intn(len(c)/16)*16, r.Intn(len(c)/16)*16
				for k := 0; k < 16; k++ {
					c[i+k], c[j+k] = c[j+k], c[i+k]
				}
			}
		case 3:
			if len(c) > 0 {
				c[r.Intn(len(c))] ^= byte(1 + r.Intn(255))
			}
		}
		idx(4).Bytes = c
		what = "changed ciphertext"
	case 8:
		x := o.inner()
		mac = append([]byte(nil), x[len(x)-8:]...)
		what = "MAC of another message"
	case 9:
		mac = make([]byte, 8)
		what = "zero MAC"
	case 10:
		body = ref.PB(append([]byte(nil), body...), 15, []byte("x"))
		reenc = false
		what = "unknown field added"
	case 11:
		i := r.Intn(len(fs))
		fs = append(fs, fs[i])
		what = "field repeated"
	case 12:
		i, j := r.Intn(len(fs)), r.Intn(len(fs))
		fs[i], fs[j] = fs[j], fs[i]
		what = "fields in another order"
	case 13:
		ver = byte(r.Intn(256))
		what = "other version byte"
	}
	if reenc {
		body = append([]byte{ver}, ref.Encode(fs)...)
	}
	if r.Intn(3) == 0 {
		// Keys an attacker may hope for.
		keys := [][]byte{make([]byte, 32), {}, m.ratchet, m.ratchet[1:], m.lin.base, m.lin.base[1:], m.ident, ref.DeriveMessageKeys(make([]byte, 32)).MAC, bytes.Repeat([]byte{0xff}, 32)}
		k := keys[r.Intn(len(keys))]
		x, y := m.lin.initIdent, m.lin.respIdent
		if m.from == m.lin.resp {
			x, y = y, x
		}
		mac = ref.HMAC(k, x, y, body)[:8]
		what += ", MAC with a guessed key"
	}
	return append(append([]byte(nil), body...), mac...), what
}

// mutatePreKey changes the outside of an establishing message.
func (w *world) mutatePreKey(r *vt.DRBG, m *msg) ([]byte, string) {
	if r.Intn(4) == 0 {
		return mutateBytes(r, m.raw)
	}
	fs, ok := ref.ParseFields(m.raw[1:])
	if !ok {
		return mutateBytes(r, m.raw)
	}
	ver := m.raw[0]
	o := w.allMsgs[r.Intn(len(w.allMsgs))]
	set := func(n int, f ref.Field) {
		f.Num = n
		for i := range fs {
			if fs[i].Num == n {
				fs[i] = f
				return
			}
		}
		fs = append(fs, f)
	}
	what := ""
	switch r.Intn(11) {
	case 0:
		set(5, ref.Field{IsInt: true, Uint: uint64(uint32(r.Uint64()))})
		what = "other registration ID"
	case 1:
		id := uint64(uint32(r.Uint64()))
		if op := w.ps[m.to].otpks; len(op) > 0 && r.Intn(2) == 0 {
			id = uint64(op[r.Intn(len(op))].id)
		}
		set(1, ref.Field{IsInt: true, Uint: id})
		what = "other one-time pre-key ID"
	case 2:
		var n []ref.Field
		for _, f := range fs {
			if f.Num != 1 {
				n = append(n, f)
			}
		}
		fs = n
		what = "no one-time pre-key ID"
	case 3:
		id := uint64(uint32(r.Uint64()))
		if sp := w.ps[m.to].spks; r.Intn(2) == 0 {
			id = uint64(sp[r.Intn(len(sp))].id)
		}
		set(6, ref.Field{IsInt: true, Uint: id})
		what = "other signed pre-key ID"
	case 4:
		k := randomKey(r)
		switch r.Intn(4) {
		case 0:
			k = ref.Typed(lowOrder[r.Intn(len(lowOrder))])
		case 1:
			k = o.lin.base
		case 2:
			k = append([]byte(nil), m.lin.base...)
			k[32] ^= 0x80
		}
		set(2, ref.Field{Bytes: k})
		what = "other base key"
	case 5:
		k := randomKey(r)
		switch r.Intn(4) {
		case 0:
			k = ref.Typed(lowOrder[r.Intn(len(lowOrder))])
		case 1:
			k = w.ps[r.Intn(len(w.ps))].identBytes()
		case 2:
			k = append([]byte(nil), m.ident...)
			k[32] ^= 0x80
		}
		set(3, ref.Field{Bytes: k})
		what = "other identity key"
	case 6:
		set(4, ref.Field{Bytes: o.inner()})
		what = "inner message of another"
	case 7:
		x, s := w.mutateSignal(r, m)
		set(4, ref.Field{Bytes: x})
		what = "inner " + s
	case 8:
		i := r.Intn(len(fs))
		fs = append(fs[:i:i], fs[i+1:]...)
		what = "field missing"
	case 9:
		fs = append(fs, ref.Field{Num: 15, Bytes: []byte("x")})
		what = "unknown field added"
	case 10:
		ver = byte(r.Intn(256))
		what = "other version byte"
	}
	return append([]byte{ver}, ref.Encode(fs)...), what
}

var errEndless = errors.New("harness: not presented")

// endless tells whether presenting ct would make the library step a chain
// without limit: sessions between two devices with the same identity have none.
func (w *world) endless(ct message.Ciphertext, q *party, from address.Address) bool {
	sm, ok := ct.(*message.Signal)
	if x, isPre := ct.(*message.PreKey); isPre {
		sm, ok = x.Message(), true
	}
	if !ok || sm.Counter() < 2*winJump {
		return false
	}
	for _, p := range w.ps {
		if p.addr == from && bytes.Equal(p.identBytes(), q.identBytes()) {
			return true
		}
	}
	return w.same
}

// parseAs parses bytes as an establishing or a plain message.
func parseAs(raw []byte, pre bool) (message.Ciphertext, error) {
	if pre {
		return message.NewPreKeyFromBytes(raw)
	}
	return message.NewSignalFromBytes(raw)
}

// evil makes something up. It may return nil.
func (w *world) evil(r *vt.DRBG) *attempt {
	m := w.pickMsg(r)
	if m == nil {
		return nil
	}
	a, b := w.ps[m.from], w.ps[m.to]
	present := func(what string, to *party, from address.Address, raw []byte, pre bool) *attempt {
		parsed := func() (message.Ciphertext, error) { return parseAs(append([]byte(nil), raw...), pre) }
		return &attempt{what: what, to: to.idx, from: from, ident: m.ident, parsed: parsed, run: func(q *party, r *vt.DRBG) ([]byte, error) {
			ct, err := parsed()
			if err != nil {
				return nil, err
			}
			if w.endless(ct, q, from) {
				return nil, errEndless
			}
			return w.sessTo(q, from).DecryptMessage(bg, r, ct)
		}}
	}
	switch k := r.Intn(25); {
	case k < 7: // altered plain message, or inner message
		raw, what := w.mutateSignal(r, m)
		if w.genuine(raw, m.from, m.to) != nil {
			return nil
		}
		return present("altered: "+what, b, a.addr, raw, false)
	case k < 11 && m.pre:
		raw, what := w.mutatePreKey(r, m)
		if bytes.Equal(raw, m.raw) {
			return nil
		}
		at := present("altered establishing message: "+what, b, a.addr, raw, true)
		w.carries(at, raw, m)
		return at
	case k < 11:
		return w.wrapped(r, m, present)
	case k < 12: // wrong type
		return present("presented as another type", b, a.addr, m.raw, !m.pre)
	case k < 13: // sent back
		return present("sent back to its author", a, b.addr, m.raw, m.pre)
	case k < 14: // to someone else
		for _, c := range w.ps {
			if c != a && c != b {
				return present("delivered to someone else", c, a.addr, m.raw, m.pre)
			}
		}
		return present("delivered to its author as from a stranger", a, strangerAddr, m.raw, m.pre)
	case k < 15: // as from someone else
		from, pin := strangerAddr, []byte(nil)
		for _, c := range w.ps {
			if c != a && c != b && r.Intn(2) == 0 {
				from, pin = c.addr, b.pinned[c.idx]
			}
		}
		at := present("attributed to someone else", b, from, m.raw, m.pre)
		if m.pre && (pin == nil || bytes.Equal(pin, m.ident)) {
			at.ok = m.pt
		}
		return at
	case k < 16: // made up with other keys: a session the receiver does not have
		return w.impersonate(r, a, b)
	case k < 18:
		return w.evilBundle(r, a, b)
	case k < 19:
		return &attempt{what: "encrypting without a session", to: a.idx, run: func(q *party, r *vt.DRBG) ([]byte, error) {
			ct, err := w.sessTo(q, address.Address{Name: "nobody", DeviceID: 3}).EncryptMessage(bg, []byte("x"))
			if err != nil {
				return nil, err
			}
			return ct.Bytes(), nil
		}}
	case k < 22:
		return w.broken(r, m, present)
	case k < 24:
		return w.underOtherPin(r, m)
	default:
		at := present("repeated", b, a.addr, m.raw, m.pre)
		at.free = true
		return at
	}
}

// carries finds the genuine message within an establishing message made from m.
func (w *world) carries(at *attempt, raw []byte, m *msg) {
	fs, ok := ref.ParseFields(raw[min(1, len(raw)):])
	if !ok {
		return
	}
	x, ok := ref.GetBytes(fs, 4)
	if !ok {
		return
	}
	base, _ := ref.GetBytes(fs, 2)
	g := w.genuine(x, m.from, m.to)
	if g == nil {
		return
	}
	at.inner, at.base = g, base
	if bytes.Equal(base, g.lin.base) {
		at.ok = g.pt
		return
	}
	at.props = []string{"C06", "C07"}
	if g.delivered > 0 {
		at.props = append(at.props, "C02")
	}
}

// wrapped puts a plain message into an establishing message which names keys
// of its receiver.
func (w *world) wrapped(r *vt.DRBG, m *msg, present func(string, *party, address.Address, []byte, bool) *attempt) *attempt {
	a, b := w.ps[m.from], w.ps[m.to]
	what, base := "with a new base key", randomKey(r)
	switch r.Intn(6) {
	case 0:
		what, base = "with the base key of another session", w.allMsgs[r.Intn(len(w.allMsgs))].lin.base
		if bytes.Equal(base, m.lin.base) {
			what = "with the base key of its session"
		}
	case 1:
		what, base = "with the base key of its session", m.lin.base
	case 2:
		what, base = "with the base key of its session, altered", append([]byte(nil), m.lin.base...)
		base[32] ^= 0x80
	}
	body := []byte{0x33}
	if len(b.otpks) > 0 && r.Intn(3) > 0 {
		body = ref.PU(body, 1, uint64(b.otpks[r.Intn(len(b.otpks))].id))
	}
	body = ref.PB(body, 2, base)
	body = ref.PB(body, 3, m.ident)
	body = ref.PB(body, 4, m.inner())
	body = ref.PU(body, 5, uint64(a.reg))
	body = ref.PU(body, 6, uint64(b.spks[r.Intn(len(b.spks))].id))
	at := present("plain message made into an establishing one: "+what, b, a.addr, body, true)
	w.carries(at, body, m)
	return at
}

// impersonate makes an establishing message which claims a's identity without
// a's private key.
func (w *world) impersonate(r *vt.DRBG, a, b *party) *attempt {
	s := b.spks[r.Intn(len(b.spks))]
	bd := ref.Bundle{Identity: b.ident.PublicKey().KeyBytes(), SPK: s.pair.PublicKey().KeyBytes(), SPKID: s.id}
	rs := ref.Initiate(r, r.Bytes(32), a.reg, bd)
	raw, _ := rs.Encrypt([]byte("I am someone else"))
	fs, _ := ref.ParseFields(raw[1:])
	ident := a.identBytes()
	if pin := b.pinned[a.idx]; pin != nil {
		ident = pin
	}
	for i := range fs {
		if fs[i].Num == 3 {
			fs[i].Bytes = ident
		}
		if fs[i].Num == 2 && r.Intn(3) == 0 {
			fs[i].Bytes = ref.Typed(lowOrder[r.Intn(len(lowOrder))])
		}
	}
	raw = append([]byte{0x33}, ref.Encode(fs)...)
	return &attempt{what: "impersonation", to: b.idx, run: func(q *party, r *vt.DRBG) ([]byte, error) {
		ct, err := message.NewPreKeyFromBytes(append([]byte(nil), raw...))
		if err != nil {
			return nil, err
		}
		return w.sessTo(q, a.addr).DecryptMessage(bg, r, ct)
	}}
}

// broken makes a message with the MAC of its sender, but which nobody can
// decrypt, for a position of a session the receiver holds or could hold.
func (w *world) broken(r *vt.DRBG, m *msg, present func(string, *party, address.Address, []byte, bool) *attempt) *attempt {
	a, b := w.ps[m.from], w.ps[m.to]
	build := func(k ref.MessageKeys, local, remote, ratchet []byte, n uint32) []byte {
		body := []byte{0x33}
		body = ref.PB(body, 1, ratchet)
		body = ref.PU(body, 2, uint64(n))
		body = ref.PU(body, 3, 0)
		body = ref.PB(body, 4, undecryptable(r, k.Cipher, k.IV))
		return append(body, ref.HMAC(k.MAC, local, remote, body)[:8]...)
	}
	var at *attempt
	rec := b.rec(a.idx)
	if r.Intn(2) == 0 && rec.cur != nil {
		// In a chain the receiver has, at a position it keeps or at a next one.
		r0, ok := load3(b.st.Sess.Load(bg, a.addr))
		if !ok {
			return nil
		}
		states := []*session.State{r0.State()}
		if prev, err := r0.PreviousStates(); err == nil {
			states = append(states, prev...)
		}
		ss := parseState(states[r.Intn(len(states))])
		if r.Intn(2) == 0 {
			ss = parseState(states[0])
		}
		chs := ss.GetReceiverChains()
		if len(chs) == 0 {
			return nil
		}
		ch := chs[len(chs)-1-r.Intn(len(chs))]
		ck, n, what := ch.GetChainKey().GetKey(), ch.GetChainKey().GetIndex(), "next key"
		var k ref.MessageKeys
		if mks := ch.GetMessageKeys(); len(mks) > 0 && r.Intn(2) == 0 {
			mk := mks[r.Intn(len(mks))]
			k, n, what = ref.MessageKeys{Cipher: mk.GetCipherKey(), MAC: mk.GetMacKey(), IV: mk.GetIv()}, mk.GetIndex(), "kept key"
		} else {
			for i := r.Intn(4); i > 0; i-- {
				ck, n = ref.NextChain(ck), n+1
			}
			k = ref.DeriveMessageKeys(ck)
		}
		if len(k.Cipher) != 32 || len(k.MAC) != 32 || len(k.IV) != 16 {
			return nil
		}
		raw := build(k, ss.GetRemoteIdentityPublic(), ss.GetLocalIdentityPublic(), ch.GetSenderRatchetKey(), n)
		at = present("authenticated but not decryptable: "+what, b, a.addr, raw, false)
	} else {
		// As the sender would make it.
		r0, ok := load3(a.st.Sess.Load(bg, b.addr))
		if !ok {
			return nil
		}
		ss := parseState(r0.State())
		sc := ss.GetSenderChain()
		ck, n := sc.GetChainKey().GetKey(), sc.GetChainKey().GetIndex()
		if len(ck) != 32 {
			return nil
		}
		for i := r.Intn(3); i > 0; i-- {
			ck, n = ref.NextChain(ck), n+1
		}
		raw := build(ref.DeriveMessageKeys(ck), ss.GetLocalIdentityPublic(), ss.GetRemoteIdentityPublic(), sc.GetSenderRatchetKey(), n)
		at = present("authenticated but not decryptable: of its sender", b, a.addr, raw, false)
		e := a.rec(b.idx).cur
		for i := len(w.allMsgs) - 1; i >= 0 && e != nil && e.initiator && r.Intn(20) > 0; i-- {
			o := w.allMsgs[i]
			if !o.pre || o.lin != e.lin {
				continue
			}
			fs, ok := ref.ParseFields(o.raw[1:])
			if !ok {
				return nil
			}
			for j := range fs {
				if fs[j].Num == 4 {
					fs[j].Bytes = raw
				}
			}
			at = present("authenticated but not decryptable: establishing", b, a.addr, append([]byte{o.raw[0]}, ref.Encode(fs)...), true)
			break
		}
	}
	at.props = []string{"C03", "C04", "C06"}
	return at
}

// underOtherPin does something genuine while another identity is stored for
// the other side.
func (w *world) underOtherPin(r *vt.DRBG, m *msg) *attempt {
	a, b := w.ps[m.from], w.ps[m.to]
	what := []string{"encrypting", "decrypting", "opening"}[r.Intn(3)]
	p, o := b, a
	if what != "decrypting" && r.Intn(2) == 0 {
		p, o = a, b
	}
	if p.pinned[o.idx] == nil {
		return nil
	}
	var bundle *prekey.Bundle
	if what == "opening" {
		s := o.spks[r.Intn(len(o.spks))]
		bundle = &prekey.Bundle{
			RegistrationID: o.reg, DeviceID: o.addr.DeviceID, SignedPreKeyID: prekey.ID(s.id), SignedPreKeyPublic: s.pair.PublicKey(),
			SignedPreKeySignature: append([]byte(nil), s.sig...), IdentityKey: o.ident.IdentityKey(),
		}
	}
	other := randomKey(r)
	if r.Intn(3) == 0 {
		other = append([]byte(nil), p.pinned[o.idx]...)
		if r.Intn(2) == 0 {
			other[32] ^= 0x80
		} else {
			other[1+r.Intn(32)] ^= 1 << r.Intn(8)
		}
	}
	return &attempt{what: "under another identity: " + what, to: p.idx, props: []string{"C08"}, run: func(q *party, r *vt.DRBG) ([]byte, error) {
		old, had := load3(q.st.ID.Load(bg, o.addr))
		if !had {
			return nil, errEndless
		}
		must(q.st.ID.Store(bg, o.addr, must(identity.NewKey(other))))
		defer func() { must(q.st.ID.Store(bg, o.addr, old)) }()
		s := w.sessTo(q, o.addr)
		switch what {
		case "opening":
			return nil, s.ProcessPreKeyBundle(bg, r, bundle)
		case "encrypting":
			ct, err := s.EncryptMessage(bg, []byte("x"))
			if err != nil {
				return nil, err
			}
			return ct.Bytes(), nil
		}
		ct, err := parseAs(append([]byte(nil), m.raw...), m.pre)
		if err != nil {
			return nil, err
		}
		return s.DecryptMessage(bg, r, ct)
	}}
}

// evilBundle makes a bundle of b which must be refused.
func (w *world) evilBundle(r *vt.DRBG, a, b *party) *attempt {
	s := b.spks[r.Intn(len(b.spks))]
	bd := &prekey.Bundle{
		RegistrationID: b.reg, DeviceID: b.addr.DeviceID, SignedPreKeyID: prekey.ID(s.id), SignedPreKeyPublic: s.pair.PublicKey(),
		SignedPreKeySignature: append([]byte(nil), s.sig...), IdentityKey: b.ident.IdentityKey(),
	}
	what := ""
	switch r.Intn(6) {
	case 0:
		i := r.Intn(511) // the last bit is the sign, which the check below decides
		bd.SignedPreKeySignature[i/8] ^= 1 << (i % 8)
		what = "bad signature"
	case 1:
		bd.SignedPreKeySignature = bd.SignedPreKeySignature[:r.Intn(64)]
		what = "short signature"
	case 2:
		bd.SignedPreKeyPublic = pub(randomKey(r))
		what = "unsigned pre-key"
	case 3:
		bd.IdentityKey = must(identity.NewKey(randomKey(r)))
		what = "identity of someone else"
	case 4:
		bd.SignedPreKeyPublic = pub(ref.Typed(lowOrder[r.Intn(len(lowOrder))]))
		bd.SignedPreKeySignature = must(b.ident.PrivateKey().Sign(r, bd.SignedPreKeyPublic.Bytes()))
		what = "degenerate signed pre-key"
	case 5:
		id := prekey.ID(77)
		bd.PreKeyID, bd.PreKeyPublic = &id, pub(ref.Typed(lowOrder[r.Intn(len(lowOrder))]))
		what = "degenerate one-time pre-key"
	}
	return &attempt{what: "bundle with " + what, to: a.idx, run: func(q *party, r *vt.DRBG) ([]byte, error) {
		return nil, w.sessTo(q, b.addr).ProcessPreKeyBundle(bg, r, bd)
	}}
}

// tryEvil presents n made-up things to copies of the parties and judges the
// result. If real is set, what is refused is then presented for real.
func (w *world) tryEvil(n int, real bool) *worldErr {
	for i := 0; i < n; i++ {
		r := vt.NewDRBG(w.seed, w.step, 50, uint64(i))
		at := w.evil(r)
		if at == nil {
			continue
		}
		p := w.ps[at.to]
		f := w.fork(p)
		vt.SetGlobal(vt.NewDRBG(w.seed, w.step, 51, uint64(i)))
		a := allocated()
		pt, err := at.run(f, vt.NewDRBG(w.seed, w.step, 52, uint64(i)))
		if e := concerning(w.c, outOfProportion(a, err, 5<<30, at.what)); e != nil {
			return e
		}
		w.spy.err(err)
		w.c.Logf("evil: %s to %d: err=%v", at.what, at.to, err)
		if err != nil && pt != nil {
			if e := concerning(w.c, wf([]string{"C03", "C04"}, "output together with an error", "%s: %v", at.what, err)); e != nil {
				return e
			}
		}
		if err == nil && !at.free {
			if at.ok == nil {
				props := at.props
				if props == nil {
					props = []string{"C03", "C06"}
				}
				if e := concerning(w.c, wf(props, "accepted: "+cut(at.what), "%s, presented to %d", at.what, at.to)); e != nil {
					return e
				}
			}
			if at.ok != nil && !bytes.Equal(pt, at.ok) {
				if e := concerning(w.c, wf([]string{"C03"}, "wrong plaintext: "+cut(at.what), "%s, presented to %d: %x, original %x", at.what, at.to, pt, at.ok)); e != nil {
					return e
				}
			}
			w.c.Class("harmlessly altered establishing message accepted")
		}
		if err == nil {
			if err := concerning(w.c, w.pinsAfter(at, p, f)); err != nil {
				return err
			}
			if err := concerning(w.c, w.keysAfter(at, p, f)); err != nil {
				return err
			}
			continue
		}
		w.nEvil++
		w.c.Class("refused " + cut(at.what))
		if !real {
			continue
		}
		before := w.snapshot(p)
		vt.SetGlobal(vt.NewDRBG(w.seed, w.step, 51, uint64(i)))
		_, err = at.run(p, vt.NewDRBG(w.seed, w.step, 52, uint64(i)))
		if err == nil {
			if e := concerning(w.c, wf([]string{"C04"}, "refused by a copy of the stores and accepted by them", "%s", at.what)); e != nil {
				return e
			}
		}
		if after := w.snapshot(p); after != before {
			if e := concerning(w.c, wf(blame(before, after), "stores changed by a refused operation: "+cut(at.what), "%s: %s", at.what, firstDiff(before, after))); e != nil {
				return e
			}
		}
		if err := w.audit(p); err != nil {
			return err
		}
	}
	return nil
}

// pinsAfter judges which identities became trusted by something accepted.
func (w *world) pinsAfter(at *attempt, p, f *party) *worldErr {
	for _, o := range append(w.ps[:len(w.ps):len(w.ps)], &party{idx: -1, addr: strangerAddr}) {
		before, had := load3(p.st.ID.Load(bg, o.addr))
		after, has := load3(f.st.ID.Load(bg, o.addr))
		if has == had && (!has || bytes.Equal(before.Bytes(), after.Bytes())) {
			continue
		}
		if o.addr != at.from {
			return wf([]string{"C08", "C20"}, "message accepted from one address changes the trusted identity of another: "+cut(at.what), "%s: %v", at.what, o.addr)
		}
		if !has || had || !bytes.Equal(after.Bytes(), at.ident) {
			return wf([]string{"C08"}, "trusted identity changed by an altered message: "+cut(at.what), "%s: %v", at.what, o.addr)
		}
	}
	return nil
}

// keysAfter judges which pre-keys are gone after something was accepted, and
// whether what was accepted could have been.
func (w *world) keysAfter(at *attempt, p, f *party) *worldErr {
	var used *otpk
	if at.inner != nil {
		want, _, _, fresh := w.predict(at.inner, w.ps[at.inner.from], p, true)
		if want != outOK {
			props := []string{"C03", "C06", "C12"}
			if at.inner.delivered > 0 {
				props = []string{"C02"}
			}
			return wf(props, "altered message accepted although "+outNames[want]+": "+cut(at.what), "%s", at.what)
		}
		if fresh {
			used = at.inner.lin.otpk
		}
	}
	if at.inner == nil {
		return nil
	}
	for _, o := range p.otpks {
		_, had, err := p.st.Pre.Load(bg, prekey.ID(o.id))
		_, has, err2 := f.st.Pre.Load(bg, prekey.ID(o.id))
		if err != nil || err2 != nil || had && !has && o != used || !had && has {
			return wf([]string{"C07"}, "one-time pre-key removed which was not used: "+cut(at.what), "%s: %d: had %v, has %v", at.what, o.id, had, has)
		}
		if o == used && has {
			return wf([]string{"C07"}, "used one-time pre-key not removed: "+cut(at.what), "%s: %d", at.what, o.id)
		}
	}
	for _, s := range p.spks {
		if _, has, err := f.st.Sig.Load(bg, prekey.ID(s.id)); err != nil || !has {
			return wf([]string{"C07"}, "signed pre-key removed: "+cut(at.what), "%s: %d", at.what, s.id)
		}
	}
	return nil
}

// blame tells which properties a change of the stores by a refused operation
// concerns.
func blame(before, after string) []string {
	props := []string{"C04"}
	x, y := strings.Split(before, "\n"), strings.Split(after, "\n")
	for i := range x {
		if i < len(y) && x[i] == y[i] {
			continue
		}
		switch {
		case strings.HasPrefix(x[i], "pre "), strings.HasPrefix(x[i], "sig "):
			props = append(props, "C07")
		case strings.HasPrefix(x[i], "id "):
			props = append(props, "C08")
		}
	}
	return props
}

// cut makes a category of a description.
func cut(s string) string {
	if i := bytes.IndexByte([]byte(s), ':'); i >= 0 {
		return s[:i]
	}
	return s
}

func firstDiff(a, b string) string {
	x, y := bytes.Split([]byte(a), []byte{'\n'}), bytes.Split([]byte(b), []byte{'\n'})
	for i := range x {
		if i >= len(y) || !bytes.Equal(x[i], y[i]) {
			s, t := string(x[i]), ""
			if i < len(y) {
				t = string(y[i])
			}
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			if len(t) > 400 {
				t = t[:400] + "..."
			}
			return fmt.Sprintf("%q became %q", s, t)
		}
	}
	return "more lines"
}
