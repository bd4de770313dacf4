package props

import (
	"pgregory.net/rapid"

	"verif/vt"
)

func init() {
	const rule = "a random history runs twice, once with refused operations of all kinds inserted (altered, spliced, reflected, misdirected, repeated and forged messages, impersonations, invalid bundles, encrypting without a session); each refused operation must leave all stores as they were, and both runs must produce the same messages, plaintexts and refusals to the end; non-trivial: at least 4 refused operations inserted and 2 messages decrypted"
	real := func(ops []Op) []Op {
		out := append([]Op(nil), ops...)
		for i := range out {
			if out[i].K == "evil" {
				out[i].M = 1
			}
		}
		return out
	}
	profiles["traces"] = profile{"traces", 6, 40, []wop{{"open", 4, 2, 4}, {"send", 10, 3, 1}, {"recv", 12, 8, 3}, {"flush", 1, 1, 4}, {"evil", 14, 5, 1}, {"again", 4, 12, 4}, {"rotate", 1, 1, 1}, {"talk", 4, 2, 1}, {"reinstall", 1, 1, 1}, {"approve", 2, 1, 1}}}
	vt.Register("C04", "pairwise", 2500, 80000, rule,
		func(t *rapid.T) WorldCase { return genWorld(t, "traces") },
		func(c *vt.Ctx, wc WorldCase) error {
			ops := real(wc.Ops)
			with := newWorld(c, wc)
			err := with.run(ops)
			if err == nil {
				err = with.settle()
			}
			if err != nil {
				return verdict(c, err)
			}
			without := newWorld(c, wc)
			without.noEvil = true
			if err := without.run(ops); err != nil {
				return verdict(c, err)
			}
			if err := without.settle(); err != nil {
				return verdict(c, err)
			}
			with.count()
			if with.nEvil >= 4 && with.nRecv >= 2 {
				c.NonTrivial()
			}
			if err := sameTraces(with.trace, without.trace); err != nil {
				return err
			}
			for i := range with.ps {
				if a, b := with.snapshot(with.ps[i]), without.snapshot(without.ps[i]); a != b {
					return vt.Violate("stores differ at the end", "party %d: %s", i, firstDiff(b, a))
				}
			}
			return nil
		})
	vt.Register("C04", "groups", 2000, 60000, rule,
		func(t *rapid.T) GroupCase { return genGroup(t, "evil") },
		func(c *vt.Ctx, gc GroupCase) error {
			ops := real(gc.Ops)
			with := newGWorld(c, gc)
			err := with.run(ops)
			if err == nil {
				err = with.settle()
			}
			if err != nil {
				return verdict(c, err)
			}
			without := newGWorld(c, gc)
			without.noEvil = true
			if err := without.run(ops); err != nil {
				return verdict(c, err)
			}
			if err := without.settle(); err != nil {
				return verdict(c, err)
			}
			with.count()
			if with.nEvil >= 4 && with.nRecv >= 2 {
				c.NonTrivial()
			}
			if err := sameTraces(with.trace, without.trace); err != nil {
				return err
			}
			for i := range with.us {
				if a, b := with.snapshot(with.us[i]), without.snapshot(without.us[i]); a != b {
					return vt.Violate("group stores differ at the end", "user %d: %s", i, firstDiff(b, a))
				}
			}
			return nil
		})
}

func sameTraces(a, b []string) error {
	for i := range a {
		if i >= len(b) {
			return vt.Violate("histories differ", "length %d and %d", len(a), len(b))
		}
		if a[i] != b[i] {
			return vt.Violate("histories differ", "event %d: %.300s, otherwise %.300s", i, a[i], b[i])
		}
	}
	if len(a) != len(b) {
		return vt.Violate("histories differ", "length %d and %d", len(a), len(b))
	}
	return nil
}
