package codec

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"net"
	"reflect"
	"testing"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/ref"
	"verif/report"
	"verif/wire"
)

func text(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

// latin is the text before the first zero byte, each byte as one character.
func latin(b []byte) string {
	var out []rune
	for _, c := range b {
		if c == 0 {
			break
		}
		out = append(out, rune(c))
	}
	return string(out)
}

// reply makes a poll reply with ASCII texts.
func reply(r *rand.Rand) (packet.ArtPollReplyPacket, wire.Values) {
	v := randValues(r, wire.PollReply, false)
	v["Port"] = uint64(wire.Port)
	for name, n := range map[string]int{"ShortName": 18, "LongName": 64, "ESTAmanufacturer": 2} {
		b := make([]byte, n)
		switch r.IntN(4) {
		case 0:
			copy(b, ref.ASCII(r, n)) // no terminator
		case 1:
			copy(b, ref.ASCII(r, n))
			b[r.IntN(n)] = 0 // junk behind the terminator
		default:
			copy(b, ref.ASCII(r, r.IntN(n)))
		}
		if r.IntN(8) == 0 { // bytes beyond ASCII
			for i := range b {
				if b[i] != 0 && r.IntN(3) == 0 {
					b[i] = byte(1 + r.IntN(255))
				}
			}
		}
		v[name] = b
	}
	v["NumPorts"] = []uint64{0, 1, 2, 3, 4, 4, 4, 4, 5, 255, 256, 260, 65535}[r.IntN(13)]
	pt := make([]byte, 4)
	for i := range pt {
		pt[i] = byte(r.IntN(4)<<6 | r.IntN(6))
		if r.IntN(4) == 0 {
			pt[i] = byte(r.Uint32())
		}
	}
	v["PortTypes"] = pt
	for _, n := range []string{"SwIn", "SwOut"} {
		b := make([]byte, 4)
		for i := range b {
			b[i] = byte(r.IntN(16))
			if r.IntN(8) == 0 {
				b[i] |= byte(r.IntN(16) << 4) // not part of the universe
			}
		}
		v[n] = b
	}
	v["SubSwitch"] = uint64(r.IntN(16))
	if r.IntN(8) == 0 {
		v["SubSwitch"] = uint64(r.IntN(256))
	}
	v["NetSwitch"] = uint64(r.IntN(128))
	p := &packet.ArtPollReplyPacket{}
	set(wire.PollReply, p, v)
	p.ID, p.OpCode = packet.ArtNet, code.OpPollReply
	return *p, v
}

func u8s(v wire.Values, n string) []byte { return v[n].([]byte) }

// wantConfig is the reference conversion.
func checkConfig(r *report.Run, v wire.Values, c artnet.NodeConfig, what string) {
	bad := func(f string, want, got any) {
		r.Fail("%s: %s should be %v, is %v; reply %.600s", what, f, want, got, fmt.Sprint(v))
	}
	num := func(f string, want, got uint64) {
		if want != got {
			bad(f, want, got)
		}
	}
	// bytes beyond ASCII may be kept as they are or become a character each
	str := func(f string, want []byte, got string) {
		if got != text(want) && got != latin(want) {
			bad(f, fmt.Sprintf("%q", text(want)), fmt.Sprintf("%q", got))
		}
	}
	num("OEM", v["Oem"].(uint64), uint64(c.OEM))
	num("Version", v["VersionInfo"].(uint64), uint64(c.Version))
	num("BiosVersion", v["UBEAVersion"].(uint64), uint64(c.BiosVersion))
	num("Type", v["Style"].(uint64), uint64(c.Type))
	num("BindIndex", v["BindIndex"].(uint64), uint64(c.BindIndex))
	num("Port", v["Port"].(uint64), uint64(c.Port))
	num("Status1", v["Status1"].(uint64), uint64(c.Status1))
	num("Status2", v["Status2"].(uint64), uint64(c.Status2))
	str("Manufacturer", u8s(v, "ESTAmanufacturer"), c.Manufacturer)
	str("Name", u8s(v, "ShortName"), c.Name)
	str("Description", u8s(v, "LongName"), c.Description)
	if !bytes.Equal(u8s(v, "Macaddress"), c.Ethernet) {
		bad("Ethernet", u8s(v, "Macaddress"), c.Ethernet)
	}
	if !net.IP(u8s(v, "IPAddress")).Equal(c.IP) {
		bad("IP", u8s(v, "IPAddress"), c.IP)
	}
	if !net.IP(u8s(v, "BindIP")).Equal(c.BindIP) {
		bad("BindIP", u8s(v, "BindIP"), c.BindIP)
	}
	rep := u8s(v, "NodeReport")
	if len(c.Report) != len(rep) {
		bad("length of Report", len(rep), len(c.Report))
	}
	for i := range rep {
		if byte(c.Report[i]) != rep[i] {
			bad(fmt.Sprintf("Report[%d]", i), rep[i], byte(c.Report[i]))
		}
	}
	netw, sub := uint8(v["NetSwitch"].(uint64)), uint8(v["SubSwitch"].(uint64))
	if want := (artnet.Address{Net: netw, SubUni: sub << 4}); c.BaseAddress != want {
		bad("BaseAddress", want, c.BaseAddress)
	}
	var in []artnet.InputPort
	var out []artnet.OutputPort
	for i := 0; i < 4 && i < int(v["NumPorts"].(uint64)); i++ {
		t := u8s(v, "PortTypes")[i]
		if t&0x80 != 0 {
			out = append(out, artnet.OutputPort{Address: artnet.Address{Net: netw, SubUni: sub<<4 | u8s(v, "SwOut")[i]&0x0f}, Type: code.PortType(t), Status: code.GoodOutput(u8s(v, "GoodOutput")[i])})
		}
		if t&0x40 != 0 {
			in = append(in, artnet.InputPort{Address: artnet.Address{Net: netw, SubUni: sub<<4 | u8s(v, "SwIn")[i]&0x0f}, Type: code.PortType(t), Status: code.GoodInput(u8s(v, "GoodInput")[i])})
		}
	}
	if len(in) != len(c.InputPorts) || (len(in) > 0 && !reflect.DeepEqual(in, c.InputPorts)) {
		bad("InputPorts", in, c.InputPorts)
	}
	if len(out) != len(c.OutputPorts) || (len(out) > 0 && !reflect.DeepEqual(out, c.OutputPorts)) {
		bad("OutputPorts", out, c.OutputPorts)
	}
	for _, p := range c.OutputPorts {
		n := int(netw)<<8 | int(p.Address.SubUni)
		if p.Address.Integer() != n {
			bad("address number", n, p.Address.Integer())
		}
	}
}

// TestC09: poll reply to configuration.
func TestC09(tt *testing.T) {
	r := begin(tt, "C09")
	for blk := 0; blk < r.Scale(12000, 120000); blk++ {
		if !r.Mine(blk) {
			continue
		}
		r.Case(blk, "random block %d", blk)
		rng := r.Rand(blk)
		for k := 0; k < 50; k++ {
			p, v := reply(rng)
			if k%4 == 3 { // as it comes from the wire
				b := wire.PollReply.Encode(v)
				if rng.IntN(2) == 0 {
					b[14], b[15] = b[15], b[14]
				}
				q := &packet.ArtPollReplyPacket{}
				if err := q.UnmarshalBinary(b); err != nil {
					r.Inconclusive("reply refused: %v", err)
				}
				p = *q
			}
			c := artnet.ConfigFromArtPollReply(p)
			checkConfig(r, v, c, "configuration")
			// independence
			c2 := artnet.ConfigFromArtPollReply(p)
			q, v2 := reply(rng)
			p = q
			artnet.ConfigFromArtPollReply(q)
			checkConfig(r, v, c, "configuration after its reply was overwritten")
			for i := range c2.IP {
				c2.IP[i] ^= 0xff
			}
			for i := range c2.Report {
				c2.Report[i]++
			}
			for i := range c2.Ethernet {
				c2.Ethernet[i]++
			}
			for i := range c2.OutputPorts {
				c2.OutputPorts[i].Address.Net++
			}
			checkConfig(r, v, c, "configuration after another one was changed")
			_ = v2
			r.Eval(3)
			r.Seen("%v %v %v %v %v %v", v["NumPorts"], v["PortTypes"], v["SubSwitch"], v["NetSwitch"], v["SwIn"], v["SwOut"])
			r.Count("output ports", len(c.OutputPorts))
			r.Count("input ports", len(c.InputPorts))
			if k == 9 && r.WantSample() {
				r.Sample(fmt.Sprintf("NumPorts %v PortTypes %x Net %v Sub %v SwOut %x -> outputs %v", v["NumPorts"], v["PortTypes"], v["NetSwitch"], v["SubSwitch"], v["SwOut"], c.OutputPorts))
			}
		}
	}
	// every port-type byte at every slot with every count, every sub-net and universe
	base := 1 << 20
	for s := 0; s < 16; s++ {
		if !r.Mine(base + s) {
			continue
		}
		r.Case(base+s, "sub-net %d", s)
		rng := r.Rand(base + s)
		for x := 0; x < 256; x++ {
			_, v := reply(rng)
			v["SubSwitch"] = uint64(s)
			v["NetSwitch"] = uint64(x % 128)
			u8s(v, "PortTypes")[x%4] = byte(x)
			u8s(v, "SwOut")[x%4] = byte(x % 16)
			u8s(v, "SwIn")[x%4] = byte(x / 16)
			v["NumPorts"] = uint64(x % 6)
			p := &packet.ArtPollReplyPacket{}
			set(wire.PollReply, p, v)
			checkConfig(r, v, artnet.ConfigFromArtPollReply(*p), "configuration")
			r.Eval(1)
			a := artnet.Address{Net: uint8(x % 128), SubUni: uint8(s<<4 | x%16)}
			if a.Integer() != (x%128)<<8|s<<4|x%16 {
				r.Fail("address %+v has number %d", a, a.Integer())
			}
			if w := fmt.Sprintf("%d:%d.%d", x%128, s, x%16); a.String() != w {
				r.Fail("address net %d sub-net %d universe %d is printed %q", x%128, s, x%16, a.String())
			}
		}
	}
	r.Done()
}

// TestC10: configuration to announcement and back.
func TestC10(tt *testing.T) {
	r := begin(tt, "C10")
	for blk := 0; blk < r.Scale(12000, 120000); blk++ {
		if !r.Mine(blk) {
			continue
		}
		r.Case(blk, "random block %d", blk)
		rng := r.Rand(blk)
		for k := 0; k < 40; k++ {
			c := ref.RandConfig(rng)
			shown := fmt.Sprintf("%+v", c)
			p := artnet.ArtPollReplyFromConfig(c)
			want := ref.Announced(c)
			if d := wire.Diff(want, values(wire.PollReply, p)); d != "" {
				r.Fail("announcement of %.900s: %s", shown, d)
			}
			if s := fmt.Sprintf("%+v", c); s != shown {
				r.Fail("announcing changed the configuration %s to %s", shown, s)
			}
			if int(c.NumberOfPorts()) != int(want["NumPorts"].(uint64)) {
				r.Fail("number of ports of %.900s: %d", shown, c.NumberOfPorts())
			}
			for i, t := range c.PortTypes() {
				if byte(t) != want["PortTypes"].([]byte)[i] {
					r.Fail("port type %d of %.900s: %#02x, want %#02x", i, shown, byte(t), want["PortTypes"].([]byte)[i])
				}
			}
			b, err, pan := encode(p)
			if err != nil || pan != nil {
				r.Fail("announcement of %.900s cannot be encoded: %v %v", shown, err, pan)
			}
			if w := wire.PollReply.Encode(want); !bytes.Equal(w, b) {
				r.Fail("announcement of %.900s on the wire: %s want %s", shown, hexs(b), hexs(w))
			}
			q := &packet.ArtPollReplyPacket{}
			if err, pan := decodeInto(q, b); err != nil || pan != nil {
				r.Fail("announcement of %.900s is refused: %v %v", shown, err, pan)
			}
			for _, back := range []artnet.NodeConfig{artnet.ConfigFromArtPollReply(*p), artnet.ConfigFromArtPollReply(*q)} {
				checkConfig(r, want, back, "read back")
				if len(back.InputPorts) != len(c.InputPorts) || len(back.OutputPorts) != len(c.OutputPorts) {
					r.Fail("read back of %.900s: %d inputs and %d outputs", shown, len(back.InputPorts), len(back.OutputPorts))
				}
				for i := range back.InputPorts {
					a, b := c.InputPorts[i], back.InputPorts[i]
					if a.Address != b.Address || a.Status != b.Status || a.Type.Type() != b.Type.Type() || !b.Type.Input() {
						r.Fail("input port %d of %.900s reads back as %+v", i, shown, b)
					}
				}
				for i := range back.OutputPorts {
					a, b := c.OutputPorts[i], back.OutputPorts[i]
					if a.Address != b.Address || a.Status != b.Status || a.Type.Type() != b.Type.Type() || !b.Type.Output() {
						r.Fail("output port %d of %.900s reads back as %+v", i, shown, b)
					}
				}
				if back.BaseAddress != c.BaseAddress {
					r.Fail("base address of %.900s reads back as %+v", shown, back.BaseAddress)
				}
			}
			r.Eval(2)
			r.Seen("%d %d %v %d %d", len(c.InputPorts), len(c.OutputPorts), want["PortTypes"], len(c.Name), len(c.Description))
			r.Count("ports", len(c.InputPorts)+len(c.OutputPorts))
			if k == 5 && r.WantSample() {
				r.Sample(shown)
			}
		}
	}
	r.Done()
}
