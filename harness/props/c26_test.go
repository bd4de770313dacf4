package props

import (
	"bytes"
	"runtime/debug"
	"sync"

	"github.com/RTann/libsignal-go/protocol/curve"
	"github.com/RTann/libsignal-go/protocol/fingerprint"
	"github.com/RTann/libsignal-go/protocol/identity"
	"github.com/RTann/libsignal-go/protocol/message"
	"github.com/RTann/libsignal-go/protocol/session"

	"verif/vt"
)

// parallel runs the functions at the same time, each with its own context.
func parallel(c *vt.Ctx, fs ...func(c *vt.Ctx) error) error {
	errs := make([]error, len(fs))
	subs := make([]*vt.Ctx, len(fs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, f := range fs {
		subs[i] = c.Sub()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = vt.Violate("panic in a conversation beside others", "%v\n%s", r, debug.Stack())
				}
			}()
			<-start
			errs[i] = f(subs[i])
		}()
	}
	close(start)
	wg.Wait()
	for i := range fs {
		c.Join(subs[i])
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// again repeats replays, because schedules differ.
func again(f func(c *vt.Ctx) error) func(c *vt.Ctx) error {
	return func(c *vt.Ctx) error {
		vt.PinGlobal()
		n := 1
		if c.Replay {
			n = 30
		}
		for ; n > 0; n-- {
			if err := f(c); err != nil {
				return err
			}
		}
		return nil
	}
}

// ManyCase is several unrelated worlds.
type ManyCase struct {
	Worlds []WorldCase `json:"worlds"`
	Groups []GroupCase `json:"groups"`
}

func unrelated(mc ManyCase) func(c *vt.Ctx) error {
	return func(c *vt.Ctx) error {
		type res struct {
			trace []string
			err   *worldErr
			recv  int
		}
		n := len(mc.Worlds) + len(mc.Groups)
		run := func(c *vt.Ctx, i int) res {
			if i < len(mc.Worlds) {
				w := newWorld(c, mc.Worlds[i])
				err := w.run(mc.Worlds[i].Ops)
				if err == nil {
					err = w.settle()
				}
				return res{w.trace, err, w.nRecv}
			}
			g := newGWorld(c, mc.Groups[i-len(mc.Worlds)])
			err := g.run(mc.Groups[i-len(mc.Worlds)].Ops)
			if err == nil {
				err = g.settle()
			}
			return res{g.trace, err, g.nRecv}
		}
		alone := make([]res, n)
		for i := range alone {
			alone[i] = run(c.Sub(), i)
		}
		beside := make([]res, n)
		var fs []func(c *vt.Ctx) error
		for i := range beside {
			fs = append(fs, func(c *vt.Ctx) error { beside[i] = run(c, i); return nil })
		}
		if err := parallel(c, fs...); err != nil {
			return err
		}
		talked := 0
		for i := range alone {
			if alone[i].err != nil {
				c.Class("stopped: violation of another property")
				continue
			}
			if beside[i].err != nil {
				return vt.Violate("conversation fails beside others", "%v", beside[i].err)
			}
			if d := traceDiff(alone[i].trace, beside[i].trace); d != "" {
				return vt.Violate("conversation differs beside others", "%s", d)
			}
			c.ClassN("messages decrypted", beside[i].recv)
			if beside[i].recv > 0 {
				talked++
			}
		}
		if talked >= 2 {
			c.NonTrivial()
		}
		return nil
	}
}

// oneUser runs the conversations of one user, on stores which are safe for
// concurrent use.
func oneUser(mc MixCase) func(c *vt.Ctx) error {
	return func(c *vt.Ctx) error {
		var alone []*conv
		for i := range mc.Convs {
			v := mc.begin(c.Sub(), i, newUser(mc.Seed))
			v.finish()
			if v.err != nil {
				c.Class("stopped: violation of another property")
				return nil
			}
			alone = append(alone, v)
		}
		u := newUser(mc.Seed)
		u.st = u.st.locked()
		vs := make([]*conv, len(mc.Convs))
		var fs []func(c *vt.Ctx) error
		for i := range vs {
			fs = append(fs, func(c *vt.Ctx) error {
				vs[i] = mc.begin(c, i, u)
				vs[i].finish()
				return nil
			})
		}
		if err := parallel(c, fs...); err != nil {
			return err
		}
		recv := 0
		for i, v := range vs {
			if v.err != nil {
				return vt.Violate("conversation fails beside others", "conversation %d: %v", i, v.err)
			}
			if d := traceDiff(alone[i].trace(), v.trace()); d != "" {
				return vt.Violate("conversation differs beside others", "conversation %d: %s", i, d)
			}
			if v.w != nil {
				recv += v.w.nRecv
			} else {
				recv += v.g.nRecv
			}
		}
		c.ClassN("messages decrypted", recv)
		if recv >= 4 {
			c.NonTrivial()
		}
		return nil
	}
}

// FanCase is one user and many others who all use the same values.
type FanCase struct {
	Seed uint64 `json:"seed"`
	N    int    `json:"n"`
	Msgs int    `json:"msgs"`
	Own  bool   `json:"own"` // the user's stores are in memory and locked
}

// bundleFan lets many users open sessions from one bundle at the same time,
// and the owner of the bundle answer all of them.
func bundleFan(fc FanCase) func(c *vt.Ctx) error {
	return func(c *vt.Ctx) error {
		w := newWorld(c, WorldCase{Seed: fc.Seed})
		b := w.ps[0]
		b.st = b.st.locked()
		w.makeBundle(b, false, b.spks[0])
		bundle := b.bundle
		var fs []func(c *vt.Ctx) error
		for i := 0; i < fc.N; i++ {
			r := vt.NewDRBG(fc.Seed, 26, uint64(i))
			fs = append(fs, func(c *vt.Ctx) error {
				me := alike(int(fc.Seed%100) + i)
				ident := must(identity.GenerateKeyPair(r))
				st := newStores(ident, uint32(i))
				mine := &session.Session{RemoteAddress: b.addr, SessionStore: st.Sess, PreKeyStore: st.Pre, SignedPreKeyStore: st.Sig, IdentityKeyStore: st.ID}
				theirs := &session.Session{RemoteAddress: me, SessionStore: b.st.Sess, PreKeyStore: b.st.Pre, SignedPreKeyStore: b.st.Sig, IdentityKeyStore: b.st.ID}
				if err := mine.ProcessPreKeyBundle(bg, r, bundle); err != nil {
					return vt.Violate("conversation fails beside others", "bundle: %v", err)
				}
				for j := 0; j < fc.Msgs; j++ {
					for _, s := range [][2]*session.Session{{mine, theirs}, {theirs, mine}} {
						pt := r.Bytes(r.Intn(60))
						ct, err := s[0].EncryptMessage(bg, pt)
						if err != nil {
							return vt.Violate("conversation fails beside others", "encrypt: %v", err)
						}
						got, err := s[1].DecryptMessage(bg, r, ct)
						if err != nil || !bytes.Equal(got, pt) {
							return vt.Violate("conversation fails beside others", "decrypt: %v", err)
						}
						c.ClassN("messages decrypted", 1)
					}
				}
				return nil
			})
		}
		if fc.N > 1 && fc.Msgs > 0 {
			c.NonTrivial()
		}
		return parallel(c, fs...)
	}
}

// groupFan lets many members decrypt the same message values at the same time,
// while the sender goes on, and others send to the same member.
func groupFan(fc FanCase) func(c *vt.Ctx) error {
	return func(c *vt.Ctx) error {
		r := vt.NewDRBG(fc.Seed, 27)
		d := newGWorld(c, GroupCase{}).ds[0]
		sender := &session.GroupSession{SenderAddress: names[0], DistID: d, SenderKeyStore: session.NewInMemGroupStore()}
		sd, err := sender.NewSenderKeyDistribution(bg, r)
		if err != nil {
			return err
		}
		var ms []*message.SenderKey
		var pts [][]byte
		for i := 0; i < fc.Msgs; i++ {
			pt := r.Bytes(r.Intn(60))
			m, err := sender.EncryptMessage(bg, r, append([]byte(nil), pt...))
			if err != nil {
				return err
			}
			ms, pts = append(ms, m), append(pts, pt)
		}
		shared := newStores(must(identity.GenerateKeyPair(r)), 1).locked()
		var fs []func(c *vt.Ctx) error
		for i := 0; i < fc.N; i++ {
			q := vt.NewDRBG(fc.Seed, 28, uint64(i))
			fs = append(fs, func(c *vt.Ctx) error {
				me := &session.GroupSession{SenderAddress: names[0], DistID: d, SenderKeyStore: session.NewInMemGroupStore()}
				if err := me.ProcessSenderKeyDistribution(bg, sd); err != nil {
					return vt.Violate("group fails beside others", "distribution message: %v", err)
				}
				at := make([]int, len(ms))
				for j := range at {
					at[j] = j
				}
				for j := range at {
					k := j + q.Intn(len(at)-j)
					at[j], at[k] = at[k], at[j]
				}
				for _, j := range at {
					got, err := me.DecryptMessage(bg, ms[j])
					if err != nil || !bytes.Equal(got, pts[j]) {
						return vt.Violate("group fails beside others", "decrypt %d: %v", j, err)
					}
					c.ClassN("messages decrypted", 1)
				}
				return nil
			}, func(c *vt.Ctx) error {
				// Another sender, and one member who hears all of them.
				a := alike(i + int(fc.Seed%50))
				s := &session.GroupSession{SenderAddress: a, DistID: d, SenderKeyStore: session.NewInMemGroupStore()}
				m := &session.GroupSession{SenderAddress: a, DistID: d, SenderKeyStore: shared.Grp}
				x, err := s.NewSenderKeyDistribution(bg, q)
				if err != nil {
					return vt.Violate("group fails beside others", "%v", err)
				}
				if err := m.ProcessSenderKeyDistribution(bg, x); err != nil {
					return vt.Violate("group fails beside others", "%v", err)
				}
				for j := 0; j < fc.Msgs; j++ {
					pt := q.Bytes(q.Intn(60))
					ct, err := s.EncryptMessage(bg, q, append([]byte(nil), pt...))
					if err != nil {
						return vt.Violate("group fails beside others", "%v", err)
					}
					got, err := m.DecryptMessage(bg, ct)
					if err != nil || !bytes.Equal(got, pt) {
						return vt.Violate("group fails beside others", "decrypt %d: %v", j, err)
					}
					c.ClassN("messages decrypted", 1)
				}
				return nil
			})
		}
		if fc.N > 1 && fc.Msgs > 0 {
			c.NonTrivial()
		}
		return parallel(c, fs...)
	}
}

// sharedKeys uses the same key values from several goroutines.
func sharedKeys(fc FanCase) func(c *vt.Ctx) error {
	return func(c *vt.Ctx) error {
		r := vt.NewDRBG(fc.Seed, 29)
		a, b := must(identity.GenerateKeyPair(r)), must(identity.GenerateKeyPair(r))
		parsed := must(curve.NewPublicKey(b.PublicKey().Bytes()))
		priv := must(curve.NewPrivateKey(a.PrivateKey().Bytes()))
		msg := r.Bytes(50)
		sig := must(a.PrivateKey().Sign(r, msg))
		alt := must(a.SignAlternateIdentity(r, b.IdentityKey()))
		ab := must(must(curve.NewPrivateKey(a.PrivateKey().Bytes())).Agreement(must(curve.NewPublicKey(b.PublicKey().Bytes()))))
		f := must(fingerprint.New(1, 2, []byte("a"), a.IdentityKey(), []byte("b"), b.IdentityKey()))
		fstr := must(fingerprint.New(1, 2, []byte("a"), a.IdentityKey(), []byte("b"), b.IdentityKey())).String()
		fa, fb := r.Bytes(64), r.Bytes(64)
		sc, scb := must(fingerprint.NewScannable(1, fa, fb)), must(must(fingerprint.NewScannable(1, fb, fa)).Bytes())
		dp := must(fingerprint.NewDisplayable(fa, fb))
		dstr := must(fingerprint.NewDisplayable(fa, fb)).String()
		pubA := append([]byte(nil), must(curve.NewPublicKey(a.PublicKey().Bytes())).Bytes()...)
		var fs []func(c *vt.Ctx) error
		for i := 0; i < fc.N; i++ {
			q := vt.NewDRBG(fc.Seed, 30, uint64(i))
			fs = append(fs, func(c *vt.Ctx) error {
				bad := func(what string, err error) error {
					return vt.Violate("key gives another result beside others", "%s: %v", what, err)
				}
				for j := 0; j < 1+fc.Msgs; j++ {
					switch q.Intn(10) {
					case 0:
						if s, err := a.PrivateKey().Agreement(parsed); err != nil || !bytes.Equal(s, ab) {
							return bad("agreement", err)
						}
					case 1:
						if s, err := priv.Agreement(b.PublicKey()); err != nil || !bytes.Equal(s, ab) {
							return bad("agreement", err)
						}
					case 2:
						if ok, err := a.IdentityKey().PublicKey().VerifySignature(sig, msg); err != nil || !ok {
							return bad("verification", err)
						}
					case 3:
						s, err := priv.Sign(q, msg[:20], msg[20:])
						if err != nil || len(s) != 64 {
							return bad("signature", err)
						}
						if ok, err := a.PublicKey().VerifySignature(s, msg); err != nil || !ok {
							return bad("signature", err)
						}
					case 4:
						if ok, err := a.IdentityKey().VerifyAlternateIdentity(alt, b.IdentityKey()); err != nil || !ok {
							return bad("alternate identity", err)
						}
					case 5:
						if s, err := a.SignAlternateIdentity(q, b.IdentityKey()); err != nil || len(s) != 64 {
							return bad("alternate identity", err)
						}
					case 6:
						if !bytes.Equal(priv.PublicKey().Bytes(), pubA) || !a.IdentityKey().Equal(a.IdentityKey()) || parsed.Equal(a.PublicKey()) || !bytes.Equal(a.PublicKey().KeyBytes(), pubA[1:]) {
							return bad("bytes", nil)
						}
					case 7:
						if f.String() != fstr || dp.String() != dstr {
							return bad("fingerprint", nil)
						}
					case 8:
						if ok, err := sc.Compare(scb); err != nil || !ok {
							return bad("scanned fingerprint", err)
						}
						if _, err := sc.Bytes(); err != nil {
							return bad("scanned fingerprint", err)
						}
					case 9:
						if x, err := fingerprint.New(1, 3, []byte("a"), a.IdentityKey(), []byte("b"), b.IdentityKey()); err != nil || x.String() == "" {
							return bad("fingerprint", err)
						}
					}
				}
				return nil
			})
		}
		if fc.N > 1 {
			c.NonTrivial()
		}
		c.ClassN("goroutines", fc.N)
		return parallel(c, fs...)
	}
}

func genFan(t *rapidT) FanCase {
	return FanCase{Seed: vt.Bits(t, "seed"), N: 1 + vt.Uni(t, 6, "n"), Msgs: vt.Uni(t, 12, "msgs")}
}

func init() {
	const race = " under the race detector; "
	vt.Register("C26", "unrelated", 240, 8000, "2-6 histories and groups with their own stores, each run alone and then all at the same time"+race+"the traces must be equal; non-trivial: messages decrypted in at least 2",
		func(t *rapidT) ManyCase {
			var mc ManyCase
			for i := 2 + vt.Uni(t, 5, "n"); i > 0; i-- {
				if vt.Uni(t, 3, "group") == 0 {
					mc.Groups = append(mc.Groups, genGroup(t, "mixed", "rotate"))
				} else {
					mc.Worlds = append(mc.Worlds, genWorld(t, "mixed", "pong", "cross", "trust"))
				}
			}
			return mc
		}, func(c *vt.Ctx, mc ManyCase) error { return again(unrelated(mc))(c) })
	vt.Register("C26", "one-user", 240, 8000, "2-4 conversations and groups of one user on the same lock-wrapped stores, each run alone and then all at the same time"+race+"the traces must be equal; non-trivial: at least 4 messages decrypted",
		genMix, func(c *vt.Ctx, mc MixCase) error { return again(oneUser(mc))(c) })
	vt.Register("C26", "one-bundle", 240, 8000, "many users open sessions from one bundle value and talk with its owner (lock-wrapped stores) at the same time"+race+"everything must be decrypted; non-trivial: at least 2 users and a message",
		genFan, func(c *vt.Ctx, fc FanCase) error { return again(bundleFan(fc))(c) })
	vt.Register("C26", "one-group", 240, 8000, "many members process the same distribution and group message values at the same time, while others send to one member (lock-wrapped store)"+race+"everything must be decrypted; non-trivial: at least 2 members and a message",
		genFan, func(c *vt.Ctx, fc FanCase) error { return again(groupFan(fc))(c) })
	vt.Register("C26", "keys", 400, 12000, "the same key, signature and fingerprint values are used by several goroutines"+race+"results as when used alone; non-trivial: at least 2 goroutines",
		genFan, func(c *vt.Ctx, fc FanCase) error { return again(sharedKeys(fc))(c) })
}
