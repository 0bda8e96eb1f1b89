// Package wire is the harness's own statement of the Art-Net datagrams
// go-artnet supports: layout tables written from the protocol documentation in
// the packet types' comments, a reference encoder and decoder over them, and
// builders and parsers for the traces. It shares no code with go-artnet.
package wire

import (
	"fmt"
	"sort"
)

// Kind is how a field is stored.
type Kind int

const (
	U8    Kind = iota // one byte
	U16BE             // two bytes, high byte first
	U16LE             // two bytes, low byte first
	Bytes             // N bytes
)

// Field is a named field at a fixed offset.
type Field struct {
	Name string
	Off  int
	N    int
	Kind Kind
}

// Type is one kind of datagram.
type Type struct {
	Name   string
	Op     uint16
	Len    int
	Fields []Field
}

func u8(name string, off int) Field    { return Field{name, off, 1, U8} }
func be(name string, off int) Field    { return Field{name, off, 2, U16BE} }
func le(name string, off int) Field    { return Field{name, off, 2, U16LE} }
func by(name string, off, n int) Field { return Field{name, off, n, Bytes} }
func (t *Type) String() string         { return t.Name }
func (t *Type) Field(name string) *Field {
	for i := range t.Fields {
		if t.Fields[i].Name == name {
			return &t.Fields[i]
		}
	}
	return nil
}

// The supported datagrams.
var (
	Poll      = &Type{"ArtPoll", 0x2000, 14, []Field{u8("TalkToMe", 12), u8("Priority", 13)}}
	PollReply = &Type{"ArtPollReply", 0x2100, 239, []Field{
		by("IPAddress", 10, 4), le("Port", 14), be("VersionInfo", 16), u8("NetSwitch", 18), u8("SubSwitch", 19),
		be("Oem", 20), u8("UBEAVersion", 22), u8("Status1", 23), by("ESTAmanufacturer", 24, 2), by("ShortName", 26, 18),
		by("LongName", 44, 64), by("NodeReport", 108, 64), be("NumPorts", 172), by("PortTypes", 174, 4),
		by("GoodInput", 178, 4), by("GoodOutput", 182, 4), by("SwIn", 186, 4), by("SwOut", 190, 4), u8("SwVideo", 194),
		u8("SwMacro", 195), u8("SwRemote", 196), u8("Style", 200), by("Macaddress", 201, 6), by("BindIP", 207, 4),
		u8("BindIndex", 211), u8("Status2", 212)}}
	DiagData = &Type{"ArtDiagData", 0x2300, 530, []Field{u8("Priority", 13), be("Length", 16), by("Data", 18, 512)}}
	Command  = &Type{"ArtCommand", 0x2400, 528, []Field{by("ESTAmanufacturer", 12, 2), be("Length", 14), by("Data", 16, 512)}}
	DMX      = &Type{"ArtDmx", 0x5000, 530, []Field{u8("Sequence", 12), u8("Physical", 13), u8("SubUni", 14), u8("Net", 15),
		be("Length", 16), by("Data", 18, 512)}}
	Nzs = &Type{"ArtNzs", 0x5100, 530, []Field{u8("Sequence", 12), u8("StartCode", 13), u8("SubUni", 14), u8("Net", 15),
		be("Length", 16), by("Data", 18, 512)}}
	Sync    = &Type{"ArtSync", 0x5200, 14, nil}
	Address = &Type{"ArtAddress", 0x6000, 107, []Field{u8("NetSwitch", 12), u8("BindIndex", 13), by("ShortName", 14, 18),
		by("LongName", 32, 64), by("SwIn", 96, 4), by("SwOut", 100, 4), u8("SubSwitch", 104), u8("SwVideo", 105), u8("Command", 106)}}
	TimeCode = &Type{"ArtTimeCode", 0x9700, 19, []Field{u8("Frames", 14), u8("Seconds", 15), u8("Minutes", 16), u8("Hours", 17), u8("Type", 18)}}
	Trigger  = &Type{"ArtTrigger", 0x9900, 530, []Field{be("Oem", 14), u8("Key", 16), u8("SubKey", 17), by("Data", 18, 512)}}
	IPProg   = &Type{"ArtIpProg", 0xf800, 34, []Field{u8("Command", 14), by("ProgIP", 16, 4), by("ProgSubNet", 20, 4), by("ProgPort", 24, 2)}}
	IPReply  = &Type{"ArtIpProgReply", 0xf900, 34, []Field{by("ProgIP", 16, 4), by("ProgSubNet", 20, 4), by("ProgPort", 24, 2), u8("Status", 26)}}

	Types = []*Type{Poll, PollReply, DiagData, Command, DMX, Nzs, Sync, Address, TimeCode, Trigger, IPProg, IPReply}
)

// ByOp finds the supported type with the opcode.
func ByOp(op uint16) *Type {
	for _, t := range Types {
		if t.Op == op {
			return t
		}
	}
	return nil
}

// Port is the Art-Net port.
const Port = 6454

// ID is the eight bytes every datagram starts with.
var ID = [8]byte{'A', 'r', 't', '-', 'N', 'e', 't', 0}

// Values are field values by name: uint64 for numbers, []byte for byte fields.
type Values map[string]any

// Blank returns a datagram of type t with its header and constants set.
func (t *Type) Blank() []byte { return Blank(t) }

// Blank returns a datagram of type t with its header and constants set.
func Blank(t *Type) []byte {
	b := make([]byte, t.Len)
	copy(b, ID[:])
	b[8], b[9] = byte(t.Op), byte(t.Op>>8)
	if t == PollReply {
		b[14], b[15] = Port&0xff, Port>>8
	} else {
		b[11] = 14
	}
	switch t {
	case Command:
		b[12], b[13] = 0xff, 0xff
	case DMX:
		b[16] = 2
	}
	return b
}

// Put stores one field.
func (f *Field) Put(b []byte, v any) {
	switch f.Kind {
	case U8:
		b[f.Off] = byte(v.(uint64))
	case U16BE:
		b[f.Off], b[f.Off+1] = byte(v.(uint64)>>8), byte(v.(uint64))
	case U16LE:
		b[f.Off], b[f.Off+1] = byte(v.(uint64)), byte(v.(uint64)>>8)
	case Bytes:
		copy(b[f.Off:f.Off+f.N], v.([]byte))
	}
}

// Get reads one field.
func (f *Field) Get(b []byte) any {
	switch f.Kind {
	case U8:
		return uint64(b[f.Off])
	case U16BE:
		return uint64(b[f.Off])<<8 | uint64(b[f.Off+1])
	case U16LE:
		return uint64(b[f.Off+1])<<8 | uint64(b[f.Off])
	}
	return append([]byte(nil), b[f.Off:f.Off+f.N]...)
}

// Encode is the reference encoder. Constant fields ignore what v holds.
func (t *Type) Encode(v Values) []byte {
	b := t.Blank()
	for i := range t.Fields {
		f := &t.Fields[i]
		if constant(t, f.Name) {
			continue
		}
		if x, ok := v[f.Name]; ok {
			f.Put(b, x)
		}
	}
	return b
}

// constant fields are the same in every datagram that is sent.
func constant(t *Type, name string) bool {
	switch t {
	case PollReply:
		return name == "Port"
	case Command:
		return name == "ESTAmanufacturer"
	case DMX:
		return name == "Length"
	}
	return false
}

// Verdict of the reference decoder.
type Verdict int

const (
	Reject  Verdict = iota // must be refused
	Accept                 // must be accepted
	Unknown                // no verdict (the documentation does not settle it)
)

func (v Verdict) String() string { return [...]string{"reject", "accept", "unknown"}[v] }

// Judge is the reference decoder's verdict on b, and b's type if its opcode is supported.
func Judge(b []byte) (Verdict, *Type, string) {
	if len(b) < 12 {
		return Reject, nil, "shorter than a header"
	}
	for i := range ID {
		if b[i] != ID[i] {
			return Reject, nil, "no Art-Net identifier"
		}
	}
	op := uint16(b[8]) | uint16(b[9])<<8
	t := ByOp(op)
	if t == nil {
		return Reject, nil, "opcode not supported"
	}
	if t != PollReply {
		if b[10] != 0 {
			// a high version byte: revisions above 255 do not exist
			if b[11] < 14 {
				return Unknown, t, "version high byte"
			}
		} else if b[11] < 14 {
			return Reject, t, "protocol version below 14"
		}
	}
	if t == DMX {
		if len(b) < 18 {
			return Reject, t, "truncated"
		}
		l := int(b[16])<<8 | int(b[17])
		if l < 2 || l > 512 || l%2 != 0 {
			return Reject, t, "channel count"
		}
		if len(b) < 18+l {
			return Reject, t, "truncated"
		}
		return Accept, t, ""
	}
	if len(b) < t.Len {
		return Reject, t, "truncated"
	}
	switch t {
	case PollReply:
		if p := int(b[14])<<8 | int(b[15]); p != Port && p != int(b2(Port)) {
			return Reject, t, "port"
		}
		if b[200] > 6 {
			return Reject, t, "style"
		}
	case Command:
		if b[12] != 0xff || b[13] != 0xff {
			return Reject, t, "manufacturer"
		}
	}
	return Accept, t, ""
}

func b2(x uint16) uint16 { return x>>8 | x<<8 }

// Decode is the reference decoder for an accepted datagram.
func (t *Type) Decode(b []byte) Values {
	if t == DMX {
		full := make([]byte, t.Len)
		l := int(b[16])<<8 | int(b[17])
		copy(full, b[:18+l])
		b = full
	}
	v := Values{}
	for i := range t.Fields {
		v[t.Fields[i].Name] = t.Fields[i].Get(b)
	}
	if t == PollReply {
		v["Port"] = uint64(Port)
	}
	return v
}

// Diff lists the fields in which two sets of values differ.
func Diff(want, got Values) string {
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		w, g := fmt.Sprint(want[n]), fmt.Sprint(got[n])
		if w != g {
			if len(w) > 200 {
				w = short(w, g)
			}
			if len(g) > 200 {
				g = short(g, fmt.Sprint(want[n]))
			}
			return fmt.Sprintf("%s: want %s, got %s", n, w, g)
		}
	}
	return ""
}

func short(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := i-20, i+60
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return fmt.Sprintf("...%s... (from character %d)", a[lo:hi], lo)
}

// Op returns the opcode of a datagram, or 0.
func Op(b []byte) uint16 {
	if len(b) < 10 {
		return 0
	}
	return uint16(b[8]) | uint16(b[9])<<8
}
