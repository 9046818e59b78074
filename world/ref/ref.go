// Package ref is the executable reference model: Stream VByte and varint
// written down directly from the format's definition, with no tables, no
// blocks and no shared code with the library.
package ref

import "errors"

// NumLen is the number of bytes the format stores v in.
func NumLen(v uint32) int {
	n := 1
	for v >= 256 {
		v /= 256
		n++
	}
	return n
}

// Deltas replaces every integer by its difference (mod 2^32) from the one
// before it; prev precedes the first.
func Deltas(in []uint32, prev uint32) []uint32 {
	out := make([]uint32, len(in))
	for i, v := range in {
		out[i] = v - prev
		prev = v
	}
	return out
}

// Sums undoes Deltas.
func Sums(in []uint32, prev uint32) []uint32 {
	out := make([]uint32, len(in))
	for i, v := range in {
		prev += v
		out[i] = prev
	}
	return out
}

// Encode returns the control bytes followed by the data bytes.
func Encode(in []uint32) []byte {
	ctrl, data := Split(in)
	return append(ctrl, data...)
}

// Split returns control and data bytes apart.
func Split(in []uint32) (ctrl, data []byte) {
	ctrl = make([]byte, (len(in)+3)/4, (len(in)+3)/4+4*len(in))
	data = make([]byte, 0, 4*len(in))
	for i, v := range in {
		n := NumLen(v)
		ctrl[i/4] |= byte(n-1) << (2 * uint(i%4))
		for k := 0; k < n; k++ {
			data = append(data, byte(v>>(8*uint(k))))
		}
	}
	return ctrl, data
}

// ErrShort: the control bytes call for more data than is there.
var ErrShort = errors.New("stream too short")

// Need is the total length the control bytes of a stream of count integers
// call for; the control bytes themselves may be missing.
func Need(count int, stream []byte) (int, error) {
	nc := (count + 3) / 4
	if len(stream) < nc {
		return 0, ErrShort
	}
	n := nc
	for i := 0; i < count; i++ {
		n += int(stream[i/4]>>(2*uint(i%4))&3) + 1
	}
	return n, nil
}

// Decode reads count integers.
func Decode(count int, stream []byte) ([]uint32, error) {
	need, err := Need(count, stream)
	if err != nil || need > len(stream) {
		return nil, ErrShort
	}
	out := make([]uint32, count)
	pos := (count + 3) / 4
	for i := range out {
		n := int(stream[i/4]>>(2*uint(i%4))&3) + 1
		for k := 0; k < n; k++ {
			out[i] += uint32(stream[pos]) << (8 * uint(k))
			pos++
		}
	}
	return out, nil
}

// Varint is the LEB128 encoding of the integers one after the other.
func Varint(in []uint32) []byte {
	var out []byte
	for _, v := range in {
		for v >= 128 {
			out = append(out, byte(v%128)+128)
			v /= 128
		}
		out = append(out, byte(v))
	}
	return out
}
