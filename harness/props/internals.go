package props

import (
	"reflect"
	"runtime"
)

// try calls a method by its name, if there is one which takes these arguments.
// Methods which are exported, but of use to the library itself only, are called
// this way: if their parameters change, what needs them is not checked, and the
// rest still is.
func try(x any, name string, args ...any) ([]any, bool) {
	m := reflect.ValueOf(x).MethodByName(name)
	if !m.IsValid() || m.Type().NumIn() != len(args) || m.Type().IsVariadic() {
		return nil, false
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		t := m.Type().In(i)
		if a == nil {
			in[i] = reflect.Zero(t)
			continue
		}
		v := reflect.ValueOf(a)
		if !v.Type().AssignableTo(t) {
			return nil, false
		}
		in[i] = v
	}
	var out []any
	for _, v := range m.Call(in) {
		out = append(out, v.Interface())
	}
	return out, true
}

// try1 is the only (or first) result of a call.
func try1[T any](x any, name string, args ...any) (T, bool) {
	var zero T
	out, ok := try(x, name, args...)
	if !ok || len(out) == 0 {
		return zero, false
	}
	v, ok := out[0].(T)
	return v, ok
}

// tryFound is the result of a call which gives a value, whether it exists and
// an error.
func tryFound[T any](x any, name string, args ...any) (v T, found, ok bool) {
	out, ok := try(x, name, args...)
	if !ok || len(out) != 3 {
		return v, false, false
	}
	v, ok1 := out[0].(T)
	f, ok2 := out[1].(bool)
	if !ok1 || !ok2 {
		return v, false, false
	}
	return v, f && out[2] == nil, true
}

// trySet calls a method whose only result, if any, is an error.
func trySet(x any, name string, args ...any) bool {
	out, ok := try(x, name, args...)
	return ok && (len(out) == 0 || len(out) == 1 && out[0] == nil)
}

// allocated is the number of bytes allocated so far, by everything.
func allocated() uint64 {
	var s runtime.MemStats
	runtime.ReadMemStats(&s)
	return s.TotalAlloc
}

// outOfProportion judges what a refused message made the library allocate.
// 25,000 steps of a chain, of which there may be 41, are what it may take.
func outOfProportion(before uint64, err error, limit uint64, what string) *worldErr {
	d := allocated() - before
	if err != nil && d > limit {
		return wf([]string{"C09", "C12"}, "memory out of proportion to a refused message: "+cut(what), "%s: %d bytes", what, d)
	}
	return nil
}
