package props

import "verif/vt"

// twins gives out private keys of which two in a row, or nearly so, have public
// keys which look alike, see vt.Twin.
type twins struct {
	next  map[[2]int]int
	class func(string)
	apart bool // there is another key between two which look alike
}

// What the keys are for: each use takes pairs of its own.
const (
	twinIdentity = iota
	twinBase
	twinRatchet
	twinUses
)

// newTwins is nil for half of the histories.
func newTwins(c *vt.Ctx, seed uint64) *twins {
	if seed>>16&1 != 1 {
		return nil
	}
	return &twins{map[[2]int]int{}, c.Class, seed>>17&1 == 1}
}

// give puts the next key of a user for a use in p, if there is one left.
func (t *twins) give(p []byte, who, use int) {
	const slots = 4 * twinUses
	at := [2]int{who, use}
	n := t.next[at]
	t.next[at]++
	nth, which := n/2, n&1
	if t.apart && use != twinIdentity {
		nth, which = n/4*2+n&1, n>>1&1
	}
	if pair := nth*slots + who%4*twinUses + use; pair < vt.NTwins {
		copy(p, vt.Twin(pair, which))
		if which == 1 {
			t.class([...]string{"identity keys", "base or signing keys", "ratchet keys"}[use] + " which look alike")
		}
	}
}

// keys makes the reads of 32 bytes from d deliver keys for these uses, the
// last one for all which follow; a negative one is left alone.
func (t *twins) keys(d *vt.DRBG, who int, uses ...int) *vt.DRBG {
	if t == nil {
		return d
	}
	d.Key = func(p []byte) {
		u := uses[0]
		if len(uses) > 1 {
			uses = uses[1:]
		}
		if u >= 0 {
			t.give(p, who, u)
		}
	}
	return d
}
