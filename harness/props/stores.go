package props

import (
	"bytes"
	"context"

	"github.com/RTann/libsignal-go/protocol/address"
	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/prekey"
	"github.com/RTann/libsignal-go/protocol/protocol"
	"github.com/RTann/libsignal-go/protocol/session"
)

// bg is the context of every operation. It is recognizable.
var bg = context.WithValue(context.Background(), callerKey{}, "caller")

type callerKey struct{}

// Stores are the stores of one user.
type Stores struct {
	Sess session.Store
	Pre  prekey.Store
	Sig  prekey.SignedStore
	ID   identity.Store
	Grp  session.GroupStore
}

func newStores(pair identity.KeyPair, reg uint32) Stores {
	st := protocol.NewInMemStore(pair, reg)
	return Stores{st.SessionStore(), st.PreKeyStore(), st.SignedPreKeyStore(), st.IdentityStore(), st.GroupStore()}
}

type idStore = identity.Store

// byteStore keeps sessions as bytes only, as a program with a database would:
// every load rebuilds the record from what was serialized.
type byteStore struct {
	m map[address.Address]savedRecord
}

type savedRecord struct {
	cur  []byte
	prev [][]byte
}

func newByteStore() *byteStore { return &byteStore{m: map[address.Address]savedRecord{}} }

// saveRecord serializes all of a record through its exported methods.
func saveRecord(r *session.Record) (savedRecord, error) {
	var s savedRecord
	if r.State() != nil {
		s.cur = append([]byte{}, r.State().Bytes()...)
	}
	prev, err := r.PreviousStates()
	if err != nil {
		return s, err
	}
	for _, p := range prev {
		s.prev = append(s.prev, append([]byte{}, p.Bytes()...))
	}
	return s, nil
}

// loadRecord is the inverse of saveRecord.
func loadRecord(s savedRecord) (*session.Record, error) {
	if len(s.prev) == 0 && s.cur != nil {
		return session.NewRecordBytes(append([]byte{}, s.cur...))
	}
	rec := session.NewRecord(nil)
	for _, b := range append(append([][]byte{}, s.prev...), s.cur) {
		if b == nil {
			continue
		}
		r, err := session.NewRecordBytes(append([]byte{}, b...))
		if err != nil {
			return nil, err
		}
		rec.PromoteState(r.State())
	}
	return rec, nil
}

func (b *byteStore) Load(_ context.Context, a address.Address) (*session.Record, bool, error) {
	s, ok := b.m[a]
	if !ok {
		return nil, false, nil
	}
	r, err := loadRecord(s)
	return r, err == nil, err
}

func (b *byteStore) Store(_ context.Context, a address.Address, r *session.Record) error {
	s, err := saveRecord(r)
	if err != nil {
		return err
	}
	b.m[a] = s
	return nil
}

func must[T any](v T, err error) T {
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func must0(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func pub(b []byte) curve.PublicKey { return must(curve.NewPublicKey(b)) }

// pairFrom makes the key pair of 32 bytes.
func pairFrom(b []byte) *curve.KeyPair { return must(curve.GenerateKeyPair(bytes.NewReader(b))) }
