package codec

import (
	"fmt"
	"math/rand/v2"
	"reflect"

	"github.com/jsimonetti/go-artnet/packet"
	"verif/gen"
	"verif/wire"
)

// fresh returns a zero packet of the library's Go type for t.
func fresh(t *wire.Type) packet.ArtNetPacket {
	switch t {
	case wire.Poll:
		return &packet.ArtPollPacket{}
	case wire.PollReply:
		return &packet.ArtPollReplyPacket{}
	case wire.DiagData:
		return &packet.ArtDiagDataPacket{}
	case wire.Command:
		return &packet.ArtCommandPacket{}
	case wire.DMX:
		return &packet.ArtDMXPacket{}
	case wire.Nzs:
		return &packet.ArtNzsPacket{}
	case wire.Sync:
		return &packet.ArtSyncPacket{}
	case wire.Address:
		return &packet.ArtAddressPacket{}
	case wire.TimeCode:
		return &packet.ArtTimeCodePacket{}
	case wire.Trigger:
		return &packet.ArtTriggerPacket{}
	case wire.IPProg:
		return &packet.ArtIPProgPacket{}
	case wire.IPReply:
		return &packet.ArtIPProgReplyPacket{}
	}
	panic(t.Name)
}

// constructed returns what the library's constructor makes.
func constructed(t *wire.Type) packet.ArtNetPacket {
	switch t {
	case wire.Poll:
		return packet.NewArtPollPacket()
	case wire.PollReply:
		return packet.NewArtPollReplyPacket()
	case wire.DiagData:
		return packet.NewArtDiagDataPacket()
	case wire.Command:
		return packet.NewArtCommandPacket()
	case wire.DMX:
		return packet.NewArtDMXPacket()
	case wire.Nzs:
		return packet.NewArtNzsPacket()
	case wire.Sync:
		return packet.NewArtSyncPacket()
	case wire.Address:
		return packet.NewArtAddressPacket()
	case wire.TimeCode:
		return packet.NewArtTimeCodePacket()
	case wire.Trigger:
		return packet.NewArtTriggerPacket()
	case wire.IPProg:
		return packet.NewArtIPProgPacket()
	case wire.IPReply:
		return packet.NewArtIPProgReplyPacket()
	}
	panic(t.Name)
}

func elem(p packet.ArtNetPacket) reflect.Value { return reflect.ValueOf(p).Elem() }

// set stores values in a library packet.
func set(t *wire.Type, p packet.ArtNetPacket, v wire.Values) {
	e := elem(p)
	for _, f := range t.Fields {
		val, ok := v[f.Name]
		if !ok {
			continue
		}
		x := e.FieldByName(f.Name)
		if f.Kind == wire.Bytes {
			for i, c := range val.([]byte) {
				x.Index(i).SetUint(uint64(c))
			}
		} else {
			x.SetUint(val.(uint64))
		}
	}
}

// header reads the identifier, opcode and version of a library packet.
func header(p packet.ArtNetPacket) (id [8]byte, op uint16, ver [2]byte, hasVer bool) {
	e := elem(p)
	reflect.Copy(reflect.ValueOf(&id).Elem(), e.FieldByName("ID"))
	op = uint16(e.FieldByName("OpCode").Uint())
	if x := e.FieldByName("Version"); x.IsValid() {
		reflect.Copy(reflect.ValueOf(&ver).Elem(), x)
		hasVer = true
	}
	return
}

// scribble fills the header fields a user may have left in any state.
func scribble(r *rand.Rand, p packet.ArtNetPacket) {
	e := elem(p)
	if r.IntN(3) == 0 {
		return // zero header: what a user normally has
	}
	id := e.FieldByName("ID")
	for i := 0; i < id.Len(); i++ {
		id.Index(i).SetUint(uint64(r.IntN(256)))
	}
	e.FieldByName("OpCode").SetUint(uint64(r.IntN(65536)))
	if x := e.FieldByName("Version"); x.IsValid() {
		x.Index(0).SetUint(uint64(r.IntN(256)))
		x.Index(1).SetUint(uint64(r.IntN(256)))
	}
}

// clone makes an independent copy of a packet (packets hold no pointers).
func clone(p packet.ArtNetPacket) packet.ArtNetPacket {
	c := reflect.New(elem(p).Type())
	c.Elem().Set(elem(p))
	return c.Interface().(packet.ArtNetPacket)
}

var (
	rbyte      = gen.Byte
	rbytes     = gen.Bytes
	ru16       = gen.U16
	randValues = gen.Values
	valid      = gen.Valid
	values     = gen.Fields
)

// decode runs the library's generic decoder and turns a panic into a value.
func decode(b []byte) (p packet.ArtNetPacket, err error, pan any) {
	defer func() {
		if x := recover(); x != nil {
			pan = x
		}
	}()
	p, err = packet.Unmarshal(b)
	return
}

// decodeInto runs a typed decoder and turns a panic into a value.
func decodeInto(p packet.ArtNetPacket, b []byte) (err error, pan any) {
	defer func() {
		if x := recover(); x != nil {
			pan = x
		}
	}()
	return p.UnmarshalBinary(b), nil
}

func encode(p packet.ArtNetPacket) (b []byte, err error, pan any) {
	defer func() {
		if x := recover(); x != nil {
			pan = x
		}
	}()
	b, err = p.MarshalBinary()
	return
}

func hexs(b []byte) string {
	if len(b) > 600 {
		return fmt.Sprintf("%x... (%d bytes)", b[:600], len(b))
	}
	return fmt.Sprintf("%x", b)
}
