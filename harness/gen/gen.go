// Package gen makes datagrams: acceptable ones of every type, damaged ones and noise.
package gen

import (
	"math/rand/v2"
	"reflect"

	"github.com/jsimonetti/go-artnet/packet"
	"verif/wire"
)

func elem(p packet.ArtNetPacket) reflect.Value { return reflect.ValueOf(p).Elem() }

// Fields reads the exported fields of a library packet.
func Fields(t *wire.Type, p packet.ArtNetPacket) wire.Values {
	v := wire.Values{}
	e := elem(p)
	for _, f := range t.Fields {
		x := e.FieldByName(f.Name)
		if f.Kind == wire.Bytes {
			b := make([]byte, x.Len())
			for i := range b {
				b[i] = byte(x.Index(i).Uint())
			}
			v[f.Name] = b
		} else {
			v[f.Name] = x.Uint()
		}
	}
	return v
}

var edge = []byte{0, 1, 2, 0x0e, 0x0f, 0x10, 0x1f, 0x20, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff, 'A', 0x19, 0x36}

func Byte(r *rand.Rand) byte {
	if r.IntN(2) == 0 {
		return edge[r.IntN(len(edge))]
	}
	return byte(r.IntN(256))
}

func Bytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	switch r.IntN(6) {
	case 0: // zeros
	case 1:
		c := Byte(r)
		for i := range b {
			b[i] = c
		}
	case 2:
		for i := range b {
			b[i] = Byte(r)
		}
	case 3: // text, zero padded
		k := r.IntN(n + 1)
		for i := 0; i < k; i++ {
			b[i] = byte(' ' + r.IntN(95))
		}
	case 4: // a counter: every position tells itself
		k := byte(r.IntN(256))
		for i := range b {
			b[i] = byte(i) + k
		}
	default:
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	}
	return b
}

var edge16 = []uint64{0, 1, 2, 4, 0xff, 0x100, 0x101, 0x1fe, 0x1ff, 0x200, 0x201, 0x1936, 0x3619, 0x7fff, 0x8000, 0xfffe, 0xffff}

func U16(r *rand.Rand) uint64 {
	if r.IntN(2) == 0 {
		return edge16[r.IntN(len(edge16))]
	}
	return uint64(r.IntN(65536))
}

// Values makes field values; PollReply styles are ones the protocol defines
// unless anyStyle.
func Values(r *rand.Rand, t *wire.Type, anyStyle bool) wire.Values {
	v := wire.Values{}
	for _, f := range t.Fields {
		switch f.Kind {
		case wire.U8:
			v[f.Name] = uint64(Byte(r))
		case wire.Bytes:
			v[f.Name] = Bytes(r, f.N)
		default:
			v[f.Name] = U16(r)
		}
	}
	if t == wire.PollReply && !anyStyle {
		v["Style"] = uint64(r.IntN(7))
	}
	return v
}

// Valid makes a random acceptable datagram of type t, fillers and trailing bytes included.
func Valid(r *rand.Rand, t *wire.Type) []byte {
	b := t.Encode(Values(r, t, false))
	covered := make([]bool, t.Len)
	for i := 0; i < 12; i++ {
		covered[i] = true
	}
	for _, f := range t.Fields {
		for i := f.Off; i < f.Off+f.N; i++ {
			covered[i] = true
		}
	}
	if r.IntN(2) == 0 {
		for i := range b { // fillers: receivers do not test
			if !covered[i] {
				b[i] = Byte(r)
			}
		}
	}
	if t != wire.PollReply && r.IntN(3) == 0 {
		b[11] = byte(14 + r.IntN(242)) // later revisions are accepted
	}
	if t == wire.PollReply && r.IntN(3) == 0 {
		b[14], b[15] = b[15], b[14] // some devices send the port high byte first
	}
	if t == wire.DMX {
		l := 2 * (1 + r.IntN(256))
		switch r.IntN(6) {
		case 0:
			l = 512
		case 1:
			l = 2
		case 2:
			l = 510
		}
		b[16], b[17] = byte(l>>8), byte(l)
		b = b[:18+l]
		if r.IntN(3) == 0 { // more bytes than the announced channels
			b = append(b, Bytes(r, 1+r.IntN(600))...)
		}
		return b
	}
	if r.IntN(3) == 0 {
		b = append(b, Bytes(r, 1+r.IntN(100))...)
	}
	return b
}

// Input makes an input for the decoders; the class says how.
func Input(r *rand.Rand) ([]byte, string) {
	t := wire.Types[r.IntN(len(wire.Types))]
	switch r.IntN(12) {
	case 0:
		b := make([]byte, r.IntN(64))
		for i := range b {
			b[i] = Byte(r)
		}
		return b, "random short"
	case 1:
		return Bytes(r, 1+r.IntN(2000)), "random"
	case 2: // a header with any opcode and any tail
		b := append(wire.Blank(t)[:12:12], Bytes(r, 1+r.IntN(700))...)
		if r.IntN(2) == 0 {
			b[8], b[9] = Byte(r), Byte(r)
		}
		return b, "header and noise"
	case 3:
		v := Valid(r, t)
		return v[:r.IntN(len(v)+1)], "truncated " + t.Name
	case 4: // around the layout length
		v := append(Valid(r, t), Bytes(r, 64)...)
		n := t.Len - 3 + r.IntN(6)
		if n > len(v) {
			n = len(v)
		}
		return v[:n], "cut near the end of " + t.Name
	case 5:
		v := append(Valid(r, t), make([]byte, []int{0, 1, 3000, 4096, 65507}[r.IntN(5)])...)
		if len(v) > 65507 {
			v = v[:65507]
		}
		return v, "padded " + t.Name
	case 6: // DMX with announced length unrelated to the real one
		v := Valid(r, wire.DMX)
		x := U16(r)
		v[16], v[17] = byte(x>>8), byte(x)
		return v[:12+r.IntN(len(v)-11)], "DMX length"
	case 7, 8, 9:
		v := Valid(r, t)
		for k := 1 + r.IntN(4); k > 0; k-- {
			v[r.IntN(len(v))] = Byte(r)
		}
		return v, "mutated " + t.Name
	}
	return Valid(r, t), "valid " + t.Name
}

// Stream makes the contents of n packets as one sender would send them in succession:
// most fields stay, counters count, some data changes.
func Stream(r *rand.Rand, t *wire.Type, n int) []wire.Values {
	v := Values(r, t, false)
	var out []wire.Values
	for len(out) < n {
		w := wire.Values{}
		for k, x := range v {
			w[k] = x
		}
		out = append(out, w)
		v = wire.Values{}
		for k, x := range w {
			v[k] = x
		}
		if t == wire.DMX && r.IntN(4) > 0 {
			v["Sequence"] = uint64(uint8(w["Sequence"].(uint64) + 1))
		}
		for k := r.IntN(3); k > 0 && len(t.Fields) > 0; k-- {
			f := t.Fields[r.IntN(len(t.Fields))]
			switch {
			case f.Kind == wire.Bytes:
				x := append([]byte(nil), v[f.Name].([]byte)...)
				if r.IntN(4) == 0 {
					x = Bytes(r, f.N)
				} else {
					x[r.IntN(len(x))] = Byte(r)
				}
				v[f.Name] = x
			case t == wire.PollReply && f.Name == "Style":
				v[f.Name] = uint64(r.IntN(7))
			default:
				m := uint64(0xff)
				if f.Kind != wire.U8 {
					m = 0xffff
				}
				v[f.Name] = (v[f.Name].(uint64) + []uint64{1, m, 2, uint64(r.IntN(256))}[r.IntN(4)]) & m
			}
		}
		if len(out) > 1 && r.IntN(6) == 0 { // back to an earlier one
			v = out[r.IntN(len(out))]
		}
	}
	return out
}

// Datagrams encodes a stream; DMX with varying channel counts.
func Datagrams(r *rand.Rand, t *wire.Type, s []wire.Values) [][]byte {
	var out [][]byte
	for _, v := range s {
		b := t.Encode(v)
		if t == wire.DMX && r.IntN(2) == 0 {
			l := 2 * (1 + r.IntN(256))
			if r.IntN(3) == 0 {
				l = 2 * (1 + r.IntN(12))
			}
			b[16], b[17] = byte(l>>8), byte(l)
			b = b[:18+l]
		}
		out = append(out, b)
	}
	return out
}
