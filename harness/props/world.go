package props

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/perrors"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/ref"
	"verif/vt"
)

// The pairwise world: users, their stores, the messages in flight between
// them, and an exact model of what every user must be able to decrypt.

// The windows, as documented in the property list (not taken from the code).
const (
	winJump     = 25000
	winSkipped  = 2000
	winChains   = 5
	winArchived = 40
)

// Op is one step. The numbers select among what there is at this point.
type Op struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	N int    `json:"n,omitempty"`
	M int    `json:"m,omitempty"`
}

// WorldCase is a history.
type WorldCase struct {
	Seed    uint64 `json:"seed"`
	Parties int    `json:"parties"`
	Same    bool   `json:"same,omitempty"` // parties 0 and 1 are devices of one user
	Byte    int    `json:"byte,omitempty"` // bit i: party i keeps sessions as bytes
	Ops     []Op   `json:"ops"`
}

// worldErr is a violation with the properties it concerns.
type worldErr struct {
	props []string
	cat   string
	det   string
}

func (e *worldErr) Error() string { return e.cat + ": " + e.det }

func (e *worldErr) is(p string) bool {
	for _, q := range e.props {
		if q == p {
			return true
		}
	}
	return false
}

func wf(props []string, cat, format string, args ...any) *worldErr {
	return &worldErr{props, cat, fmt.Sprintf(format, args...)}
}

// verdict turns a worldErr into what a check of property prop returns.
func verdict(c *vt.Ctx, err *worldErr) error {
	if err == nil {
		return nil
	}
	if err.is(c.Prop) {
		return &vt.Violation{Cat: err.cat, Detail: err.det}
	}
	c.Class("stopped: violation of another property")
	return nil
}

type otpk struct {
	id   uint32
	pair *curve.KeyPair
	gone bool
}

type spk struct {
	id   uint32
	pair *curve.KeyPair
	sig  []byte
}

// lineage is a session as both sides know it.
type lineage struct {
	base       []byte
	init, resp int
	initIdent  []byte
	respIdent  []byte
	initReg    uint32
	spk        *spk
	otpk       *otpk
}

type chain struct {
	ratchet []byte
	next    uint32
	skipped []uint32
}

// end is one side's view of a session.
type end struct {
	lin       *lineage
	initiator bool
	local     []byte // identity keys
	remote    []byte
	ratchet   []byte // own current ratchet key
	parent    []byte // the peer's ratchet key it answers
	sendIdx   uint32
	chains    []*chain
	pending   bool
}

func (e *end) clone() *end {
	c := *e
	c.chains = nil
	for _, ch := range e.chains {
		n := *ch
		n.skipped = append([]uint32(nil), ch.skipped...)
		c.chains = append(c.chains, &n)
	}
	return &c
}

type recModel struct {
	cur  *end
	prev []*end
}

// msg is a message made by the library.
type msg struct {
	id        int
	from, to  int
	lin       *lineage
	ratchet   []byte
	parent    []byte
	n         uint32
	pt        []byte
	pre       bool
	raw       []byte
	obj       message.Ciphertext
	ident     []byte // sender identity
	delivered int
	ck        []byte // chain key it was made from, if watched
	epoch     int    // installation of the sender, and of the reader
	readEpoch int
}

// keptPeer names one of two session objects for an address.
type keptPeer struct {
	addr address.Address
	slot uint64
}

type party struct {
	idx    int
	addr   address.Address
	ident  identity.KeyPair
	reg    uint32
	st     Stores
	recs   map[int]*recModel
	pinned map[int][]byte
	otpks  []*otpk
	spks   []*spk
	bundle *prekey.Bundle
	bOTPK  *otpk
	bSPK   *spk
	epoch  int
	kept   map[keptPeer]*session.Session
}

// restart makes p's session objects new ones; stored sessions were changed other than through them.
func (p *party) restart() { p.kept = nil }

func (p *party) identBytes() []byte { return p.ident.IdentityKey().Bytes() }

type world struct {
	c       *vt.Ctx
	seed    uint64
	ps      []*party
	inbox   map[[2]int][]*msg
	done    map[[2]int][]*msg
	step    uint64
	nextMsg int
	ratSeen map[string]int
	byteSt  int
	same    bool
	// trace of everything observable, for twin runs
	trace   []string
	inspect bool // check stored state after each step
	log     bool
	// statistics
	nSend, nRecv, nOpen, nReorder, nDup, nArch, nRefused, nOldChain, nSkippedUse, nEvil int
	allMsgs                                                                             []*msg
	noEvil                                                                              bool
	deep                                                                                bool
	nJump                                                                               int
	noReload                                                                            bool
	idMod, idOff                                                                        uint32 // key IDs are idOff modulo idMod
	allBytes                                                                            int    // bit i: all stores of party i keep bytes only
	nReload                                                                             int
	watch                                                                               bool    // keep the chain keys of messages
	shadow                                                                              *shadow // the same conversation of reference clients
	guard                                                                               *guard  // give inputs as parts of larger arrays, and overwrite them
	bytesOnly                                                                           bool    // never present the values Encrypt returned
	spy                                                                                 *spy    // look for secrets in what comes out
	twins                                                                               *twins  // keys which look alike
}

var names = []address.Address{
	{Name: "+14151111111", DeviceID: 1},
	{Name: "+14151111112", DeviceID: 1},
	{Name: "+14151111111", DeviceID: 2},
	{Name: "+1415111111", DeviceID: 11},
}

func (w *world) rng(tag uint64) *vt.DRBG {
	return source(w.seed, vt.NewDRBG(w.seed, w.step, tag))
}

// source makes some histories have sources of randomness which deliver less
// than asked for, as any io.Reader may.
func source(seed uint64, d *vt.DRBG) *vt.DRBG {
	if seed>>9&7 == 5 {
		d.Short = 1 + int(seed>>12&31)
	}
	return d
}

func newWorld(c *vt.Ctx, wc WorldCase) *world {
	w := &world{c: c, seed: wc.Seed, inbox: map[[2]int][]*msg{}, done: map[[2]int][]*msg{}, ratSeen: map[string]int{}, twins: newTwins(c, wc.Seed), byteSt: wc.Byte, same: wc.Same, inspect: true}
	n := wc.Parties
	if n < 2 {
		n = 2
	}
	if n > len(names) {
		n = len(names)
	}
	for i := 0; i < n; i++ {
		w.ps = append(w.ps, &party{idx: i, addr: names[i]})
	}
	for i, p := range w.ps {
		w.install(p)
		if wc.Same && i == 1 {
			p.ident = w.ps[0].ident
			w.resetStores(p)
		}
	}
	return w
}

func (w *world) resetStores(p *party) {
	p.st = newStores(p.ident, p.reg)
	if w.byteSt>>p.idx&1 == 1 {
		p.st.Sess = newByteStore()
	}
	if w.allBytes>>p.idx&1 == 1 {
		p.asBytes()
	}
	p.recs = map[int]*recModel{}
	p.pinned = map[int][]byte{}
	p.otpks = nil
	p.spks = nil
	p.bundle = nil
	w.newSPK(p)
}

// install gives the party a new identity and empty stores.
func (w *world) install(p *party) {
	r := vt.NewDRBG(w.seed, 1, uint64(p.idx), uint64(p.epoch))
	p.epoch++
	p.ident = must(identity.GenerateKeyPair(w.twins.keys(r, p.idx/2, twinIdentity)))
	p.reg = uint32(r.Uint64())
	if r.Intn(8) == 0 {
		p.reg = [...]uint32{0, 1, 0x3fff, 0xffffffff}[r.Intn(4)]
	}
	w.resetStores(p)
}

var edgeIDs = []uint32{1, 2, 127, 128, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}

func (w *world) newID(r *vt.DRBG, used func(uint32) bool) uint32 {
	for w.idMod > 0 {
		id := uint32(r.Uint64())
		if r.Intn(2) == 0 {
			id %= 40
		}
		id = (id/w.idMod/2)*w.idMod + w.idOff + 1
		if id != 0 && !used(id) {
			return id
		}
	}
	for {
		id := uint32(r.Uint64())
		switch r.Intn(4) {
		case 0:
			id = edgeIDs[r.Intn(len(edgeIDs))]
		case 1:
			id = 1 + uint32(r.Intn(20))
		}
		if id != 0 && !used(id) {
			return id
		}
	}
}

func (w *world) newSPK(p *party) *spk {
	r := vt.NewDRBG(w.seed, w.step, 2, uint64(p.idx), uint64(len(p.spks)), uint64(p.epoch))
	pair := must(curve.GenerateKeyPair(r))
	sig := must(p.ident.PrivateKey().Sign(r, pair.PublicKey().Bytes()))
	id := w.newID(r, func(id uint32) bool {
		for _, s := range p.spks {
			if s.id == id {
				return true
			}
		}
		return false
	})
	if len(p.spks) == 0 && r.Intn(4) == 0 && w.idMod == 0 {
		id = 0
	}
	s := &spk{id, pair, sig}
	p.spks = append(p.spks, s)
	must0(p.st.Sig.Store(bg, prekey.ID(id), prekey.NewSigned(prekey.ID(id), 42, pair, sig)))
	return s
}

func (w *world) newOTPK(p *party) *otpk {
	r := vt.NewDRBG(w.seed, w.step, 3, uint64(p.idx), uint64(len(p.otpks)), uint64(p.epoch))
	pair := must(curve.GenerateKeyPair(r))
	id := w.newID(r, func(id uint32) bool {
		for _, o := range p.otpks {
			if o.id == id {
				return true
			}
		}
		return false
	})
	o := &otpk{id: id, pair: pair}
	p.otpks = append(p.otpks, o)
	must0(p.st.Pre.Store(bg, prekey.ID(id), prekey.NewPreKey(prekey.ID(id), pair)))
	return o
}

// makeBundle publishes a bundle of p.
func (w *world) makeBundle(p *party, with bool, s *spk) {
	b := &prekey.Bundle{
		RegistrationID:        p.reg,
		DeviceID:              p.addr.DeviceID,
		SignedPreKeyID:        prekey.ID(s.id),
		SignedPreKeyPublic:    s.pair.PublicKey(),
		SignedPreKeySignature: append([]byte(nil), s.sig...),
		IdentityKey:           p.ident.IdentityKey(),
	}
	p.bOTPK = nil
	if with {
		p.bOTPK = w.newOTPK(p)
		id := prekey.ID(p.bOTPK.id)
		b.PreKeyID = &id
		b.PreKeyPublic = p.bOTPK.pair.PublicKey()
	}
	p.bundle, p.bSPK = b, s
}

func (w *world) sess(a, b *party) *session.Session {
	return w.sessTo(a, b.addr)
}

// keeps tells whether sessions of the objects' type are used again, in one half of the histories, at most times.
// Two of them are used in turn at some times.
func keeps(seed, step uint64) (bool, uint64) {
	x := step * 2654435761 >> 5
	return seed>>7&1 == 1 && x%8 > 0, seed >> 8 & 1 * x >> 6 & 1
}

func (w *world) tr(format string, args ...any) {
	w.trace = append(w.trace, fmt.Sprintf(format, args...))
	if w.c.Replay && w.log {
		w.c.Logf("%s", w.trace[len(w.trace)-1])
	}
}

// rec is the model of what a holds about b.
func (p *party) rec(b int) *recModel {
	r := p.recs[b]
	if r == nil {
		r = &recModel{}
		p.recs[b] = r
	}
	return r
}

func (r *recModel) promoteNew(e *end) {
	if r.cur != nil {
		if len(r.prev) >= winArchived {
			r.prev = r.prev[1:]
		}
		r.prev = append(r.prev, r.cur)
	}
	r.cur = e
}

func (r *recModel) find(l *lineage) (*end, int) {
	if r.cur != nil && r.cur.lin == l {
		return r.cur, -1
	}
	for i, e := range r.prev {
		if e.lin == l {
			return e, i
		}
	}
	return nil, -2
}

// open makes a process a bundle of b.
func (w *world) open(a, b *party, with, reuse bool, spkSel int) *worldErr {
	if !reuse || b.bundle == nil {
		w.makeBundle(b, with, b.spks[len(b.spks)-1-spkSel%len(b.spks)])
	}
	bundle := b.bundle
	if w.guard != nil {
		bundle = w.guard.bundle(b.bundle)
	}
	r := w.twins.keys(w.rng(10), a.idx, twinBase, twinRatchet)
	r.Record = w.watch
	vt.SetGlobal(w.rng(11))
	err := w.sess(a, b).ProcessPreKeyBundle(bg, r, bundle)
	w.spy.err(err)
	w.tr("open %d->%d: %v", a.idx, b.idx, err != nil)
	if w.guard != nil {
		e := w.guard.clean()
		if e == nil {
			e = bundleDone(bundle, b.bundle)
		}
		w.guard.scribble()
		if e != nil {
			return guardErr(e)
		}
	}
	if pin := a.pinned[b.idx]; pin != nil && !bytes.Equal(pin, b.identBytes()) {
		w.nRefused++
		if err == nil {
			return wf([]string{"C08"}, "bundle with an untrusted identity accepted", "%d opens to %d", a.idx, b.idx)
		}
		if !perrors.IsErrUntrustedIdentity(err) {
			return wf([]string{"C08"}, "untrusted identity in bundle not reported as such", "%v", err)
		}
		return nil
	}
	if err != nil {
		return wf([]string{"C01", "C06", "C08", "C19", "C20"}, "genuine bundle refused", "%d opens to %d: %v", a.idx, b.idx, err)
	}
	w.nOpen++
	a.pinned[b.idx] = b.identBytes()
	rec, ok, err := a.st.Sess.Load(bg, b.addr)
	if err != nil || !ok || rec.State() == nil {
		return wf([]string{"C01", "C06"}, "no session after processing a bundle", "%v", err)
	}
	st := rec.State()
	rk, err := st.SenderRatchetKey()
	if err != nil {
		return wf([]string{"C01", "C06"}, "no sender ratchet key in a new session", "%v", err)
	}
	lin := &lineage{base: append([]byte(nil), st.AliceBaseKey()...), init: a.idx, resp: b.idx, initIdent: a.identBytes(), respIdent: b.identBytes(), initReg: a.reg, spk: b.bSPK, otpk: b.bOTPK}
	if len(lin.base) != 33 || w.ratSeen[string(lin.base)] != 0 {
		return wf([]string{"C18"}, "base key used before", "%x", lin.base)
	}
	w.ratSeen[string(lin.base)] = 1
	if w.ratSeen[string(rk.Bytes())] != 0 {
		return wf([]string{"C18"}, "ratchet key used before", "%x", rk.Bytes())
	}
	w.ratSeen[string(rk.Bytes())] = 1
	if w.watch {
		i, j := blockOf(r.Out, lin.base), blockOf(r.Out, rk.Bytes())
		if i < 0 || j < 0 {
			return wf([]string{"C18"}, "key not made from the given randomness", "base key: %v, ratchet key: %v", i >= 0, j >= 0)
		}
		if i < j+32 && j < i+32 {
			return wf([]string{"C18"}, "base and ratchet key made from the same randomness", "at %d and %d", i, j)
		}
	}
	a.rec(b.idx).promoteNew(&end{
		lin: lin, initiator: true, local: a.identBytes(), remote: b.identBytes(), ratchet: rk.Bytes(), parent: b.bSPK.pair.PublicKey().Bytes(),
		chains: []*chain{{ratchet: b.bSPK.pair.PublicKey().Bytes()}}, pending: true,
	})
	if w.shadow != nil {
		if err := w.shadow.open(w, a, b, lin, r.Out, rk.Bytes()); err != nil {
			return err
		}
	}
	return w.audit(a)
}

var sizes = []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100, 160, 255, 256, 1000, 4096}

func (w *world) plaintext(m int) []byte {
	r := w.rng(20 + uint64(m)<<8)
	n := sizes[r.Intn(len(sizes))]
	if r.Intn(3) == 0 {
		n = r.Intn(300)
	}
	if r.Intn(40) == 0 {
		n = vt.Size(r, 1<<17)
	}
	pt := r.Bytes(n)
	switch r.Intn(6) {
	case 0:
		for i := range pt {
			pt[i] = byte(r.Intn(17)) // looks like padding
		}
	case 1:
		for i := range pt {
			pt[i] = 0
		}
	}
	return pt
}

// send makes a encrypt one message for b.
func (w *world) send(a, b *party, k int) (*msg, *worldErr) {
	pt := w.plaintext(k)
	return w.sendBytes(a, b, pt)
}

func (w *world) sendBytes(a, b *party, pt []byte) (*msg, *worldErr) {
	var ck []byte
	if w.watch {
		ck = w.senderKeyOf(a, b)
	}
	in := append([]byte(nil), pt...)
	if w.guard != nil {
		in = w.guard.in("plaintext", in)
		defer w.guard.scribble()
	}
	vt.SetGlobal(w.rng(21))
	ct, err := w.sess(a, b).EncryptMessage(bg, in)
	w.spy.err(err)
	w.spy.text(pt)
	w.tr("send %d->%d: %v %s", a.idx, b.idx, err != nil, ctHex(ct, err))
	if w.guard != nil {
		if e := w.guard.clean(); e != nil {
			return nil, guardErr(e)
		}
		if err == nil {
			w.guard.out(ct.Bytes())
			if x, ok := ct.(*message.PreKey); ok {
				w.guard.out(x.Message().Bytes())
			}
		}
	}
	e := a.rec(b.idx).cur
	if e == nil {
		w.nRefused++
		if err == nil {
			return nil, wf([]string{"C06"}, "encrypted without a session", "%d->%d", a.idx, b.idx)
		}
		return nil, nil
	}
	if pin := a.pinned[b.idx]; pin != nil && !bytes.Equal(pin, e.remote) {
		w.nRefused++
		if err == nil {
			return nil, wf([]string{"C08"}, "encrypted for an untrusted identity", "%d->%d", a.idx, b.idx)
		}
		if !perrors.IsErrUntrustedIdentity(err) {
			return nil, wf([]string{"C08"}, "encrypting for an untrusted identity not reported as such", "%v", err)
		}
		return nil, nil
	}
	if err != nil {
		return nil, wf([]string{"C01", "C06", "C08", "C19", "C20"}, "cannot encrypt in an established session", "%d->%d: %v", a.idx, b.idx, err)
	}
	w.nSend++
	a.pinned[b.idx] = e.remote

	m := &msg{id: w.nextMsg, from: a.idx, to: b.idx, lin: e.lin, parent: e.parent, pt: pt, raw: append([]byte(nil), ct.Bytes()...), obj: ct, ident: e.local, ck: ck, epoch: a.epoch}
	w.nextMsg++
	var sm *message.Signal
	switch x := ct.(type) {
	case *message.PreKey:
		m.pre = true
		sm = x.Message()
		if !e.pending {
			return nil, wf([]string{"C06", "C28"}, "establishing message after the reply", "%d->%d", a.idx, b.idx)
		}
		if err := w.checkPreKey(x, e); err != nil {
			return nil, err
		}
	case *message.Signal:
		sm = x
		if e.pending {
			return nil, wf([]string{"C06", "C01", "C28"}, "plain message before the reply", "%d->%d", a.idx, b.idx)
		}
	default:
		return nil, wf([]string{"C01", "C10"}, "unexpected type of message", "%T", ct)
	}
	m.ratchet = sm.SenderRatchetKey().Bytes()
	m.n = sm.Counter()
	if !bytes.Equal(m.ratchet, e.ratchet) {
		return nil, wf([]string{"C18", "C01", "C28"}, "message with another ratchet key than the session's", "%x %x", m.ratchet, e.ratchet)
	}
	if m.n != e.sendIdx {
		return nil, wf([]string{"C18"}, "position not counted up by one", "got %d, want %d", m.n, e.sendIdx)
	}
	e.sendIdx++
	if w.shadow != nil {
		if err := w.shadow.send(w, a, b, m); err != nil {
			return nil, err
		}
	}
	key := [2]int{a.idx, b.idx}
	w.inbox[key] = append(w.inbox[key], m)
	w.allMsgs = append(w.allMsgs, m)
	return m, w.audit(a)
}

func ctHex(ct message.Ciphertext, err error) string {
	if err != nil || ct == nil {
		return ""
	}
	return fmt.Sprintf("%x", ct.Bytes())
}

func (w *world) checkPreKey(x *message.PreKey, e *end) *worldErr {
	bad := func(what string, got, want any) *worldErr {
		return wf([]string{"C06"}, "establishing message with a wrong "+what, "got %v, want %v", got, want)
	}
	if x.RegistrationID() != e.lin.initReg {
		return bad("registration ID", x.RegistrationID(), e.lin.initReg)
	}
	if uint32(x.SignedPreKeyID()) != e.lin.spk.id {
		return bad("signed pre-key ID", x.SignedPreKeyID(), e.lin.spk.id)
	}
	if !bytes.Equal(x.BaseKey().Bytes(), e.lin.base) {
		return bad("base key", x.BaseKey().Bytes(), e.lin.base)
	}
	if !bytes.Equal(x.IdentityKey().Bytes(), e.local) {
		return bad("identity key", x.IdentityKey().Bytes(), e.local)
	}
	switch {
	case e.lin.otpk == nil && x.PreKeyID() != nil:
		return bad("one-time pre-key ID", *x.PreKeyID(), nil)
	case e.lin.otpk != nil && (x.PreKeyID() == nil || uint32(*x.PreKeyID()) != e.lin.otpk.id):
		return bad("one-time pre-key ID", x.PreKeyID(), e.lin.otpk.id)
	}
	return nil
}

type outcome int

const (
	outOK outcome = iota
	outDuplicate
	outTooFar
	outSkippedGone // key no longer kept
	outChainGone
	outNoSession
	outUntrusted
	outNoPreKey
	outWrongKeys // other incarnation of the receiver
)

var outNames = [...]string{"ok", "duplicate", "too far ahead", "skipped too long ago", "chain no longer kept", "session not held", "untrusted", "pre-key not held", "made for other keys"}

// tryEnd predicts decryption within one session, and performs it on e.
func tryEnd(e *end, m *msg) outcome {
	for _, ch := range e.chains {
		if !bytes.Equal(ch.ratchet, m.ratchet) {
			continue
		}
		return ch.use(m.n, bytes.Equal(e.local, e.remote))
	}
	if !bytes.Equal(m.parent, e.ratchet) {
		return outChainGone
	}
	ch := &chain{ratchet: m.ratchet}
	if o := ch.use(m.n, bytes.Equal(e.local, e.remote)); o != outOK {
		return o
	}
	e.chains = append(e.chains, ch)
	if len(e.chains) > winChains {
		e.chains = e.chains[1:]
	}
	e.ratchet = nil // to be read from the library
	e.parent = m.ratchet
	e.sendIdx = 0
	return outOK
}

func (ch *chain) use(n uint32, self bool) outcome {
	if n < ch.next {
		for i, s := range ch.skipped {
			if s == n {
				ch.skipped = append(ch.skipped[:i], ch.skipped[i+1:]...)
				return outOK
			}
		}
		return outDuplicate
	}
	if n-ch.next > winJump && !self {
		return outTooFar
	}
	for i := ch.next; i < n; i++ {
		ch.skipped = append(ch.skipped, i)
	}
	if k := len(ch.skipped) - winSkipped; k > 0 {
		ch.skipped = append([]uint32(nil), ch.skipped[k:]...)
	}
	ch.next = n + 1
	return outOK
}

// predict gives the outcome of delivering m to b (as sent by a), and what the
// model becomes if it is decrypted.
func (w *world) predict(m *msg, a, b *party, asPre bool) (outcome, *end, int, bool) {
	rec := b.rec(a.idx)
	pin := b.pinned[a.idx]
	if asPre {
		if pin != nil && !bytes.Equal(pin, m.ident) {
			return outUntrusted, nil, 0, false
		}
		e, i := rec.find(m.lin)
		if e == nil {
			var s *spk
			for _, x := range b.spks {
				if x.id == m.lin.spk.id {
					s = x
				}
			}
			if s == nil {
				return outNoPreKey, nil, 0, false
			}
			if m.lin.otpk != nil {
				var o *otpk
				for _, x := range b.otpks {
					if x.id == m.lin.otpk.id && !x.gone {
						o = x
					}
				}
				if o == nil {
					return outNoPreKey, nil, 0, false
				}
				if o != m.lin.otpk {
					return outWrongKeys, nil, 0, false
				}
			}
			if s != m.lin.spk || !bytes.Equal(b.identBytes(), m.lin.respIdent) {
				return outWrongKeys, nil, 0, false
			}
			ne := &end{lin: m.lin, local: b.identBytes(), remote: m.ident, ratchet: s.pair.PublicKey().Bytes()}
			o := tryEnd(ne, m)
			return o, ne, -3, true
		}
		ne := e.clone()
		return tryEnd(ne, m), ne, i, false
	}
	e, i := rec.find(m.lin)
	if e == nil {
		return outNoSession, nil, 0, false
	}
	ne := e.clone()
	o := tryEnd(ne, m)
	if o == outOK && pin != nil && !bytes.Equal(pin, e.remote) {
		return outUntrusted, nil, 0, false
	}
	return o, ne, i, false
}

// Forms in which a message can be presented.
const (
	formBytes   = iota // parsed from its bytes
	formObj            // the value Encrypt returned
	formInner          // the inner message of an establishing message alone
	formWrapped        // a plain message of the initiator, made into an establishing message
)

func (m *msg) present(form int, g *guard) message.Ciphertext {
	if form == formObj {
		return m.obj
	}
	raw := append([]byte(nil), m.raw...)
	if g != nil {
		raw = g.in("message", raw)
	}
	if !m.pre {
		sm := must(message.NewSignalFromBytes(raw))
		if form != formWrapped {
			return sm
		}
		cfg := message.PreKeyConfig{
			Version: message.CiphertextVersion, RegistrationID: m.lin.initReg, SignedPreKeyID: prekey.ID(m.lin.spk.id),
			BaseKey: pub(m.lin.base), IdentityKey: must(identity.NewKey(m.ident)), Message: sm.(*message.Signal),
		}
		if m.lin.otpk != nil {
			id := prekey.ID(m.lin.otpk.id)
			cfg.PreKeyID = &id
		}
		return must(message.NewPreKey(cfg))
	}
	x := must(message.NewPreKeyFromBytes(raw))
	if form == formInner {
		return x.(*message.PreKey).Message()
	}
	return x
}

// deliver presents m to its receiver and compares the result with the model.
func (w *world) deliver(m *msg, form int) *worldErr {
	a, b := w.ps[m.from], w.ps[m.to]
	if form == formWrapped && (m.pre || m.from != m.lin.init) {
		form = formBytes
	}
	if form == formObj && w.bytesOnly {
		form = formBytes
	}
	if w.guard != nil {
		defer w.guard.scribble()
	}
	asPre := m.pre && form != formInner || form == formWrapped
	want, ne, at, fresh := w.predict(m, a, b, asPre)
	var ct message.Ciphertext
	func() {
		defer func() {
			if r := recover(); r != nil {
				ct = nil
			}
		}()
		ct = m.present(form, w.guard)
	}()
	if ct == nil {
		return wf([]string{"C01", "C10"}, "cannot parse a message the library made", "%x", m.raw)
	}
	vt.SetGlobal(w.rng(31))
	rd := w.twins.keys(w.rng(30), b.idx, twinRatchet)
	rd.Record = w.watch
	pt, err := w.sess(b, a).DecryptMessage(bg, rd, ct)
	w.spy.err(err)
	w.tr("recv %d<-%d #%d: %v %x", b.idx, a.idx, m.id, err != nil, pt)
	if w.guard != nil {
		if e := w.guard.clean(); e != nil {
			return guardErr(e)
		}
		w.guard.out(pt)
	}
	if w.c.Replay {
		w.c.Logf("deliver #%d (%d->%d, pre=%v, n=%d): predicted %s, got err=%v", m.id, m.from, m.to, m.pre, m.n, outNames[want], err)
	}
	if err != nil && pt != nil {
		return wf([]string{"C03", "C05"}, "plaintext together with an error", "%v", err)
	}
	d := fmt.Sprintf("message %d of %d->%d (establishing: %v, position %d): %v", m.id, m.from, m.to, m.pre, m.n, err)
	if want != outOK {
		w.nRefused++
		w.c.Class("refused: " + outNames[want])
		if err == nil {
			props := map[outcome][]string{
				outDuplicate: {"C12"}, outTooFar: {"C12"}, outChainGone: {"C12"}, outSkippedGone: {"C12"},
				outNoSession: {"C03"}, outUntrusted: {"C08"}, outNoPreKey: {"C06", "C07"}, outWrongKeys: {"C03", "C06"},
			}[want]
			if m.delivered > 0 {
				props = []string{"C02"}
			}
			return wf(props, "accepted although "+outNames[want], "%s", d)
		}
		if want == outUntrusted && !perrors.IsErrUntrustedIdentity(err) {
			if e := concerning(w.c, wf([]string{"C08"}, "untrusted identity not reported as such", "%s", d)); e != nil {
				return e
			}
		}
		if want == outDuplicate && m.delivered > 0 {
			w.nDup++
			if !errors.Is(err, perrors.ErrDuplicateMessage) {
				if e := concerning(w.c, wf([]string{"C02"}, "repeated message not reported as duplicate", "%s", d)); e != nil {
					return e
				}
			}
		}
		return w.audit(b)
	}
	if err != nil {
		props := []string{"C01", "C12", "C19", "C20"}
		if m.pre {
			props = append(props, "C06", "C07")
		}
		if perrors.IsErrUntrustedIdentity(err) {
			props = append(props, "C08")
		}
		return wf(props, "genuine message refused", "%s", d)
	}
	if !bytes.Equal(pt, m.pt) {
		return wf([]string{"C01", "C03"}, "wrong plaintext", "%s: got %x want %x", d, pt, m.pt)
	}
	// Statistics.
	w.nRecv++
	if at >= 0 {
		w.nArch++
		w.c.Class("decrypted by an archived session")
	}
	if old := w.findChain(b.rec(a.idx), m); old >= 0 {
		if old > 0 {
			w.nOldChain++
			w.c.Class("decrypted in an older chain")
		}
	}
	m.delivered++
	m.readEpoch = b.epoch
	// The model follows.
	rec := b.rec(a.idx)
	if ne.ratchet == nil {
		r, ok, err := b.st.Sess.Load(bg, a.addr)
		if err != nil || !ok || r.State() == nil {
			return wf([]string{"C01", "C04"}, "no session after decrypting", "%v", err)
		}
		rk, err := r.State().SenderRatchetKey()
		if err != nil {
			return wf([]string{"C01"}, "no sender ratchet key after decrypting", "%v", err)
		}
		ne.ratchet = rk.Bytes()
		if w.ratSeen[string(ne.ratchet)] != 0 {
			return wf([]string{"C18"}, "ratchet key used before", "%x", ne.ratchet)
		}
		w.ratSeen[string(ne.ratchet)] = 1
		if w.watch && blockOf(rd.Out, ne.ratchet) < 0 {
			return wf([]string{"C18"}, "key not made from the given randomness", "new ratchet key of party %d", b.idx)
		}
	}
	if w.shadow != nil {
		if err := w.shadow.recv(w, a, b, m, fresh, rd.Out, ne.ratchet); err != nil {
			return err
		}
	}
	ne.pending = false
	switch {
	case fresh:
		rec.promoteNew(ne)
		if m.lin.otpk != nil {
			m.lin.otpk.gone = true
		}
		b.pinned[a.idx] = ne.remote
	case at == -1:
		rec.cur = ne
		b.pinned[a.idx] = ne.remote
	default:
		rec.prev = append(rec.prev[:at:at], rec.prev[at+1:]...)
		rec.promoteNew(ne)
		b.pinned[a.idx] = ne.remote
	}
	return w.audit(b)
}

// findChain tells how many chains are newer than the one of m, or -1.
func (w *world) findChain(r *recModel, m *msg) int {
	e, _ := r.find(m.lin)
	if e == nil {
		return -1
	}
	for i, ch := range e.chains {
		if bytes.Equal(ch.ratchet, m.ratchet) {
			if m.n < ch.next {
				w.nSkippedUse++
				w.c.Class("decrypted with a kept key")
			}
			return len(e.chains) - 1 - i
		}
	}
	return -1
}

// audit compares everything p's stores hold with the model. What concerns
// other properties than the one checked is passed over: its consequences may
// concern this one.
func (w *world) audit(p *party) *worldErr {
	if !w.inspect {
		return nil
	}
	return concerning(w.c, w.auditAll(p))
}

func concerning(c *vt.Ctx, err *worldErr) *worldErr {
	if err != nil && !err.is(c.Prop) {
		c.Class("passed over: violation of another property")
		return nil
	}
	return err
}

func (w *world) auditAll(p *party) *worldErr {
	for _, o := range p.otpks {
		k, ok, err := p.st.Pre.Load(bg, prekey.ID(o.id))
		if err != nil || ok == o.gone {
			return wf([]string{"C07", "C20"}, map[bool]string{true: "one-time pre-key removed without being used", false: "used one-time pre-key not removed"}[!ok], "id %d of party %d", o.id, p.idx)
		}
		if ok {
			if pr, err := k.KeyPair(); err != nil || !bytes.Equal(pr.PublicKey().Bytes(), o.pair.PublicKey().Bytes()) {
				return wf([]string{"C07", "C20"}, "one-time pre-key changed", "id %d", o.id)
			}
		}
	}
	for _, s := range p.spks {
		if _, ok, err := p.st.Sig.Load(bg, prekey.ID(s.id)); err != nil || !ok {
			return wf([]string{"C07", "C20"}, "signed pre-key removed", "id %d", s.id)
		}
	}
	for _, q := range w.ps {
		if q == p {
			continue
		}
		k, ok, err := p.st.ID.Load(bg, q.addr)
		pin := p.pinned[q.idx]
		if err != nil || ok != (pin != nil) || (ok && !bytes.Equal(k.Bytes(), pin)) {
			return wf([]string{"C08"}, "trusted identity differs", "party %d about %d: have %v, want %x", p.idx, q.idx, ok, pin)
		}
		r, ok, err := p.st.Sess.Load(bg, q.addr)
		if err != nil {
			return wf([]string{"C01", "C19"}, "cannot load a session", "%v", err)
		}
		m := p.rec(q.idx)
		if ok != (m.cur != nil) {
			return wf([]string{"C04", "C06", "C20"}, "session held differs", "party %d about %d: have %v, want %v", p.idx, q.idx, ok, m.cur != nil)
		}
		if !ok {
			continue
		}
		if err := auditRecord(r, m); err != nil {
			return err
		}
	}
	return nil
}

func auditRecord(r *session.Record, m *recModel) *worldErr {
	prev, err := r.PreviousStates()
	if err != nil {
		return wf([]string{"C12", "C19"}, "cannot load archived sessions", "%v", err)
	}
	if len(prev) > winArchived {
		return wf([]string{"C12"}, "more archived sessions than the window", "%d", len(prev))
	}
	for _, st := range append(prev, r.State()) {
		ss := parseState(st)
		if n := len(ss.GetReceiverChains()); n > winChains {
			return wf([]string{"C12"}, "more receiving chains than the window", "%d", n)
		}
		for _, ch := range ss.GetReceiverChains() {
			if n := len(ch.GetMessageKeys()); n > winSkipped {
				return wf([]string{"C12"}, "more kept keys than the window", "%d", n)
			}
		}
	}
	return nil
}

// blockOf finds the 32 bytes a public key was made from, or returns -1.
func blockOf(out, typed []byte) int {
	if len(typed) != 33 {
		return -1
	}
	for _, step := range []int{32, 1} {
		for i := 0; i+32 <= len(out); i += step {
			if bytes.Equal(ref.Public(out[i:i+32]), typed[1:]) {
				return i
			}
		}
	}
	return -1
}
