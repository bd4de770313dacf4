package ref

import "google.golang.org/protobuf/encoding/protowire"

// Field is a decoded protobuf field.
type Field struct {
	Num   int
	Bytes []byte
	Uint  uint64
	IsInt bool
}

// ParseFields decodes a flat protobuf message.
func ParseFields(b []byte) ([]Field, bool) {
	var out []Field
	for len(b) > 0 {
		num, typ, n := protowire.ConsumeTag(b)
		if n < 0 || !num.IsValid() || num > protowire.MaxValidNumber {
			return nil, false
		}
		b = b[n:]
		switch typ {
		case protowire.VarintType:
			v, n := protowire.ConsumeVarint(b)
			if n < 0 {
				return nil, false
			}
			out = append(out, Field{Num: int(num), Uint: v, IsInt: true})
			b = b[n:]
		case protowire.BytesType:
			v, n := protowire.ConsumeBytes(b)
			if n < 0 {
				return nil, false
			}
			out = append(out, Field{Num: int(num), Bytes: v})
			b = b[n:]
		default:
			n := protowire.ConsumeFieldValue(num, typ, b)
			if n < 0 {
				return nil, false
			}
			b = b[n:]
		}
	}
	return out, true
}

// Get returns the last occurrence of a field.
func Get(fs []Field, num int) (Field, bool) {
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i].Num == num {
			return fs[i], true
		}
	}
	return Field{}, false
}

// GetBytes returns the last occurrence of a bytes field.
func GetBytes(fs []Field, num int) ([]byte, bool) {
	for i := len(fs) - 1; i >= 0; i-- {
		if fs[i].Num == num && !fs[i].IsInt {
			return fs[i].Bytes, true
		}
	}
	return nil, false
}

// PB appends a bytes field.
func PB(b []byte, num int, v []byte) []byte {
	b = protowire.AppendTag(b, protowire.Number(num), protowire.BytesType)
	return protowire.AppendBytes(b, v)
}

// PU appends an integer field.
func PU(b []byte, num int, v uint64) []byte {
	b = protowire.AppendTag(b, protowire.Number(num), protowire.VarintType)
	return protowire.AppendVarint(b, v)
}

// Encode encodes fields in order.
func Encode(fs []Field) []byte {
	var b []byte
	for _, f := range fs {
		if f.IsInt {
			b = PU(b, f.Num, f.Uint)
		} else {
			b = PB(b, f.Num, f.Bytes)
		}
	}
	return b
}
