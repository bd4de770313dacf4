package props

import (
	"context"
	"errors"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/direction"
	"github.com/RTann/libsignal-go/protocol/distribution"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/session"
)

// Stores which fail.

var errInjected = errors.New("injected: store failed")

const (
	faultNone   = iota
	faultBefore // the call fails and has no effect
	faultAfter  // the call fails after it had its effect
	faultCancel // the context is cancelled at the call
	faultStale  // the call fails and returns values together with the error
	faultModes
)

var faultNames = [...]string{"none", "before its effect", "after its effect", "context cancelled", "values with the error"}

// fault is what goes wrong during one operation.
type fault struct {
	mode   int
	at     int // which call of a store
	n      int
	cancel context.CancelFunc
	ctx    context.Context
	name   string // of the failing call
	calls  []string
	saved  bool // a session or group record was stored
}

func newFault(mode, at int) *fault {
	f := &fault{mode: mode, at: at}
	f.ctx, f.cancel = context.WithCancel(context.Background())
	return f
}

// call does one call of a store. It returns the error of the call and whether
// values may be returned with it.
func (f *fault) call(ctx context.Context, name string, effect func() error) (error, bool) {
	n := f.n
	f.n++
	f.calls = append(f.calls, name)
	hit := n == f.at && f.mode != faultNone
	if hit {
		f.name = name
	}
	if hit && f.mode == faultCancel {
		f.cancel()
	}
	if err := ctx.Err(); err != nil {
		return err, false
	}
	if hit && f.mode == faultBefore {
		return errInjected, false
	}
	if err := effect(); err != nil {
		return err, false
	}
	if name == "session store" || name == "group store" {
		f.saved = true
	}
	if hit && f.mode == faultAfter {
		return errInjected, false
	}
	if hit && f.mode == faultStale {
		return errInjected, true
	}
	return nil, true
}

type faultSess struct {
	s session.Store
	f *fault
}

func (x faultSess) Load(ctx context.Context, a address.Address) (r *session.Record, ok bool, err error) {
	err, vals := x.f.call(ctx, "session load", func() (e error) { r, ok, e = x.s.Load(ctx, a); return })
	if !vals {
		return nil, false, err
	}
	return r, ok, err
}

func (x faultSess) Store(ctx context.Context, a address.Address, r *session.Record) error {
	err, _ := x.f.call(ctx, "session store", func() error { return x.s.Store(ctx, a, r) })
	return err
}

type faultPre struct {
	s prekey.Store
	f *fault
}

func (x faultPre) Load(ctx context.Context, id prekey.ID) (r *prekey.PreKey, ok bool, err error) {
	err, vals := x.f.call(ctx, "pre-key load", func() (e error) { r, ok, e = x.s.Load(ctx, id); return })
	if !vals {
		return nil, false, err
	}
	return r, ok, err
}

func (x faultPre) Store(ctx context.Context, id prekey.ID, k *prekey.PreKey) error {
	err, _ := x.f.call(ctx, "pre-key store", func() error { return x.s.Store(ctx, id, k) })
	return err
}

func (x faultPre) Delete(ctx context.Context, id prekey.ID) error {
	err, _ := x.f.call(ctx, "pre-key delete", func() error { return x.s.Delete(ctx, id) })
	return err
}

type faultSig struct {
	s prekey.SignedStore
	f *fault
}

func (x faultSig) Load(ctx context.Context, id prekey.ID) (r *prekey.SignedPreKey, ok bool, err error) {
	err, vals := x.f.call(ctx, "signed pre-key load", func() (e error) { r, ok, e = x.s.Load(ctx, id); return })
	if !vals {
		return nil, false, err
	}
	return r, ok, err
}

func (x faultSig) Store(ctx context.Context, id prekey.ID, k *prekey.SignedPreKey) error {
	err, _ := x.f.call(ctx, "signed pre-key store", func() error { return x.s.Store(ctx, id, k) })
	return err
}

type faultID struct {
	idStore
	f *fault
}

func (x faultID) Load(ctx context.Context, a address.Address) (k identity.Key, ok bool, err error) {
	err, vals := x.f.call(ctx, "identity load", func() (e error) { k, ok, e = x.idStore.Load(ctx, a); return })
	if !vals {
		return identity.Key{}, false, err
	}
	return k, ok, err
}

func (x faultID) Store(ctx context.Context, a address.Address, k identity.Key) (changed bool, err error) {
	err, _ = x.f.call(ctx, "identity store", func() (e error) { changed, e = x.idStore.Store(ctx, a, k); return })
	return changed, err
}

func (x faultID) IsTrustedIdentity(ctx context.Context, a address.Address, k identity.Key, d direction.Direction) (ok bool, err error) {
	err, vals := x.f.call(ctx, "identity trusted", func() (e error) { ok, e = x.idStore.IsTrustedIdentity(ctx, a, k, d); return })
	if !vals {
		return false, err
	}
	return ok, err
}

type faultGrp struct {
	s session.GroupStore
	f *fault
}

func (x faultGrp) Load(ctx context.Context, a address.Address, d distribution.ID) (r *session.GroupRecord, ok bool, err error) {
	err, vals := x.f.call(ctx, "group load", func() (e error) { r, ok, e = x.s.Load(ctx, a, d); return })
	if !vals {
		return nil, false, err
	}
	return r, ok, err
}

func (x faultGrp) Store(ctx context.Context, a address.Address, d distribution.ID, r *session.GroupRecord) error {
	err, _ := x.f.call(ctx, "group store", func() error { return x.s.Store(ctx, a, d, r) })
	return err
}

// with wraps the stores of a party.
func (p *party) with(f *fault) *party {
	q := *p
	q.kept = nil
	q.st.Sess = faultSess{p.st.Sess, f}
	q.st.Pre = faultPre{p.st.Pre, f}
	q.st.Sig = faultSig{p.st.Sig, f}
	q.st.ID = faultID{p.st.ID, f}
	return &q
}
