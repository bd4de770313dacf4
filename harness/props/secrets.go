package props

import (
	"bytes"
	"reflect"
	"strings"
	"unsafe"

	"verif/ref"
)

// loot is every byte string reachable from a value, whatever its fields are
// called, with what looks like a serialization taken apart.
type loot struct {
	blobs   [][]byte
	secrets [][]byte // 32 bytes each, distinct
	have    map[string]bool
	seen    map[visit]bool
	whole   bool // do not take apart what is longer than a key
}

type visit struct {
	p unsafe.Pointer
	t reflect.Type
	n int
}

func newLoot(vs ...any) *loot {
	return (&loot{have: map[string]bool{}, seen: map[visit]bool{}}).add(vs...)
}

// wholeKeys is the same for values of exactly 32 bytes only.
func wholeKeys(vs ...any) [][]byte {
	return (&loot{have: map[string]bool{}, seen: map[visit]bool{}, whole: true}).add(vs...).secrets
}

func (l *loot) add(vs ...any) *loot {
	for _, v := range vs {
		rv := reflect.ValueOf(v)
		// An addressable copy, so that unexported fields can be read.
		c := reflect.New(rv.Type()).Elem()
		c.Set(rv)
		l.walk(c)
	}
	return l
}

func (l *loot) bytes(b []byte) {
	if len(b) < 16 {
		return
	}
	if l.have[string(b)] {
		return
	}
	l.have[string(b)] = true
	l.blobs = append(l.blobs, append([]byte(nil), b...))
	if len(b) == 32 {
		l.secrets = append(l.secrets, l.blobs[len(l.blobs)-1])
		return
	}
	if fs, ok := ref.ParseFields(b); ok {
		for _, f := range fs {
			if !f.IsInt {
				l.bytes(f.Bytes)
			}
		}
	}
	if l.whole {
		return
	}
	if len(b) == 64 || len(b) == 80 || len(b) == 48 {
		for i := 0; i+32 <= len(b); i += 16 {
			l.bytes(b[i : i+32])
		}
	}
}

func (l *loot) walk(v reflect.Value) {
	t := v.Type()
	if v.CanAddr() && !v.CanInterface() {
		v = reflect.NewAt(t, unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		k := visit{v.UnsafePointer(), t, 0}
		if l.seen[k] {
			return
		}
		l.seen[k] = true
		l.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		c := reflect.New(e.Type()).Elem()
		c.Set(e)
		l.walk(c)
	case reflect.Struct:
		if strings.HasPrefix(t.PkgPath(), "google.golang.org/protobuf") || strings.HasPrefix(t.PkgPath(), "sync") {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			l.walk(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		if t.Elem().Kind() == reflect.Uint8 {
			l.bytes(v.Bytes())
			return
		}
		if scalar(t.Elem().Kind()) {
			return
		}
		k := visit{v.UnsafePointer(), t, v.Len()}
		if l.seen[k] {
			return
		}
		l.seen[k] = true
		for i := 0; i < v.Len(); i++ {
			l.walk(v.Index(i))
		}
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			l.bytes(b)
			return
		}
		if scalar(t.Elem().Kind()) {
			return
		}
		for i := 0; i < v.Len(); i++ {
			l.walk(v.Index(i))
		}
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			for _, x := range []reflect.Value{it.Key(), it.Value()} {
				c := reflect.New(x.Type()).Elem()
				c.Set(x)
				l.walk(c)
			}
		}
	case reflect.String:
		l.bytes([]byte(v.String()))
	}
}

func scalar(k reflect.Kind) bool { return k >= reflect.Bool && k <= reflect.Complex128 }

// contains tells whether the value is part of anything found.
func (l *loot) contains(x []byte) bool {
	for _, b := range l.blobs {
		if bytes.Contains(b, x) {
			return true
		}
	}
	return false
}

// targets are the keys an attacker looks for.
type targets map[string]*target

type target struct {
	what string
	m    any
}

// addPairwise adds everything the content of a message could be read with.
func (t targets) addPairwise(what string, m any, ck []byte) {
	mk := ref.DeriveMessageKeys(ck)
	t[string(ck)] = &target{what + " by its chain key", m}
	t[string(ref.HMAC(ck, []byte{1}))] = &target{what + " by its message key", m}
	t[string(mk.Cipher)] = &target{what + " by its cipher key", m}
}

func (t targets) addGroup(what string, m any, ck []byte) {
	_, key := ref.GroupKeys(ck)
	t[string(ck)] = &target{what + " by its chain key", m}
	t[string(ref.HMAC(ck, []byte{1}))] = &target{what + " by its message key", m}
	t[string(key)] = &target{what + " by its cipher key", m}
}

// attack derives all it can from the loot and says which target it reached.
// privs are further private keys, pubs the public keys (32 bytes) seen.
func (t targets) attack(l *loot, privs, pubs [][]byte, depth, forward int) *target {
	if len(t) == 0 {
		return nil
	}
	for k, x := range t {
		if l.contains([]byte(k)) {
			return x
		}
	}
	try := func(s []byte) *target {
		if x := t[string(s)]; x != nil {
			return x
		}
		// A message key, of either kind.
		if x := t[string(ref.HKDF(s, nil, "WhisperMessageKeys", 80)[:32])]; x != nil {
			return x
		}
		if x := t[string(ref.HKDF(s, nil, "WhisperGroup", 48)[16:])]; x != nil {
			return x
		}
		// A chain key.
		ck := s
		for i := 0; i < forward; i++ {
			ck = ref.NextChain(ck)
			if x := t[string(ck)]; x != nil {
				return x
			}
		}
		return nil
	}
	known := map[string]bool{}
	for _, p := range pubs {
		known[string(p)] = true
	}
	privs = append([][]byte(nil), privs...)
	for i, s := range l.secrets {
		if x := try(s); x != nil {
			return x
		}
		if i < 400 && known[string(ref.Public(s))] {
			privs = append(privs, s)
		}
	}
	var dhs [][]byte
	hd := map[string]bool{}
	for _, p := range privs {
		for _, q := range pubs {
			d, err := ref.DH(p, q)
			if err == nil && !hd[string(d)] {
				hd[string(d)] = true
				dhs = append(dhs, d)
			}
		}
	}
	roots := l.secrets
	if len(roots) > 400 {
		roots = roots[:400]
	}
	for i := 0; i < depth; i++ {
		var next [][]byte
		for _, r := range roots {
			for _, d := range dhs {
				nr, ck := ref.Root(r, d)
				if x := try(ck); x != nil {
					return x
				}
				next = append(next, nr)
			}
		}
		if len(next) > 3000 {
			break
		}
		roots = next
	}
	return nil
}
