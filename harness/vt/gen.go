package vt

import "pgregory.net/rapid"

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

// Uni draws from [0,n) without rapid's preference for small values (0 is still
// what it shrinks to).
func Uni(t *rapid.T, n int, label string) int {
	return int(mix(rapid.Uint64().Draw(t, label)) % uint64(n))
}

// Bits draws 64 bits likewise.
func Bits(t *rapid.T, label string) uint64 { return mix(rapid.Uint64().Draw(t, label)) }

// Pick draws one of the values likewise.
func Pick[T any](t *rapid.T, label string, vs ...T) T { return vs[Uni(t, len(vs), label)] }
