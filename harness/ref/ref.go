// Package ref holds reference functions and generators for go-artnet's node
// configurations, shared by the checks.
package ref

import (
	"math/rand/v2"
	"net"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/wire"
)

// ASCII makes a text of n characters, now and then with control characters.
func ASCII(r *rand.Rand, n int) string {
	b := make([]byte, n)
	any := r.IntN(3) == 0
	for i := range b {
		b[i] = byte(' ' + r.IntN(95))
		if any && r.IntN(3) == 0 {
			b[i] = byte(1 + r.IntN(127))
		}
	}
	if n > 0 && r.IntN(6) == 0 { // spaces at the ends are text too
		b[0], b[n-1] = ' ', ' '
	}
	return string(b)
}

var edge = []byte{0, 1, 2, 0x0e, 0x0f, 0x10, 0x1f, 0x20, 0x7f, 0x80, 0x81, 0xc0, 0xfe, 0xff, 'A', 0x19, 0x36}

func rbyte(r *rand.Rand) byte {
	if r.IntN(2) == 0 {
		return edge[r.IntN(len(edge))]
	}
	return byte(r.IntN(256))
}

func rbytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = rbyte(r)
	}
	return b
}

// RandConfig makes a valid configuration.
func RandConfig(r *rand.Rand) artnet.NodeConfig {
	tlen := func(max int) int {
		switch r.IntN(5) {
		case 0:
			return max
		case 1:
			return max - 1
		case 2:
			return max + 1 + r.IntN(200)
		}
		return r.IntN(max)
	}
	c := artnet.NodeConfig{
		OEM: uint16(r.Uint32()), Version: uint16(r.Uint32()), BiosVersion: rbyte(r),
		Manufacturer: ASCII(r, r.IntN(5)), Type: code.StyleCode(r.IntN(7)),
		Name: ASCII(r, tlen(18)), Description: ASCII(r, tlen(64)),
		BindIndex: rbyte(r), Status1: code.Status1(rbyte(r)), Status2: code.Status2(rbyte(r)),
		BaseAddress: artnet.Address{Net: uint8(r.IntN(128)), SubUni: uint8(r.IntN(16) << 4)},
	}
	ip := func() net.IP {
		switch r.IntN(5) {
		case 0:
			return nil
		case 1:
			return net.IPv4(rbyte(r), rbyte(r), rbyte(r), rbyte(r)) // sixteen bytes
		}
		return net.IP{rbyte(r), rbyte(r), rbyte(r), rbyte(r)}
	}
	c.IP, c.BindIP = ip(), ip()
	if r.IntN(4) > 0 {
		c.Ethernet = rbytes(r, 6)
	}
	for k := r.IntN(3) * r.IntN(40); k > 0; k-- {
		c.Report = append(c.Report, code.NodeReportCode(r.IntN(17)))
	}
	var types [4]code.PortType
	for i := range types {
		types[i] = code.PortType(r.IntN(6))
		if r.IntN(3) == 0 {
			types[i] |= code.PortType(r.IntN(4) << 6) // a user may set the direction too
		}
	}
	addr := func() artnet.Address {
		return artnet.Address{Net: c.BaseAddress.Net, SubUni: c.BaseAddress.SubUni | uint8(r.IntN(16))}
	}
	nin, nout := r.IntN(5), r.IntN(5)
	for i := 0; i < nin; i++ {
		c.InputPorts = append(c.InputPorts, artnet.InputPort{Address: addr(), Type: types[i], Status: code.GoodInput(rbyte(r))})
	}
	for i := 0; i < nout; i++ {
		t := types[i]&0x3f | code.PortType(r.IntN(4)<<6)
		c.OutputPorts = append(c.OutputPorts, artnet.OutputPort{Address: addr(), Type: t, Status: code.GoodOutput(rbyte(r))})
	}
	return c
}

// Announced is the reference announcement of a configuration.
func Announced(c artnet.NodeConfig) wire.Values {
	cut := func(s string, n, max int) []byte {
		if len(s) > max {
			s = s[:max]
		}
		b := make([]byte, n)
		copy(b, s)
		return b
	}
	b4 := func(ip net.IP) []byte {
		b := make([]byte, 4)
		copy(b, ip.To4())
		return b
	}
	v := wire.Values{
		"IPAddress": b4(c.IP), "Port": uint64(wire.Port), "VersionInfo": uint64(c.Version), "NetSwitch": uint64(c.BaseAddress.Net),
		"SubSwitch": uint64(c.BaseAddress.SubUni >> 4), "Oem": uint64(c.OEM), "UBEAVersion": uint64(c.BiosVersion), "Status1": uint64(c.Status1),
		"ESTAmanufacturer": cut(c.Manufacturer, 2, 2), "ShortName": cut(c.Name, 18, 17), "LongName": cut(c.Description, 64, 63),
		"Style": uint64(c.Type), "BindIP": b4(c.BindIP), "BindIndex": uint64(c.BindIndex), "Status2": uint64(c.Status2),
		"SwVideo": uint64(0), "SwMacro": uint64(0), "SwRemote": uint64(0),
	}
	mac := make([]byte, 6)
	copy(mac, c.Ethernet)
	v["Macaddress"] = mac
	rep := make([]byte, 64)
	for i := 0; i < len(c.Report) && i < 64; i++ {
		rep[i] = byte(c.Report[i])
	}
	v["NodeReport"] = rep
	pt, gi, go_, si, so := make([]byte, 4), make([]byte, 4), make([]byte, 4), make([]byte, 4), make([]byte, 4)
	for i, p := range c.InputPorts {
		pt[i] |= 0x40 | byte(p.Type)&0x1f
		gi[i] = byte(p.Status)
		si[i] = p.Address.SubUni & 15
	}
	for i, p := range c.OutputPorts {
		pt[i] |= 0x80 | byte(p.Type)&0x1f
		go_[i] = byte(p.Status)
		so[i] = p.Address.SubUni & 15
	}
	v["PortTypes"], v["GoodInput"], v["GoodOutput"], v["SwIn"], v["SwOut"] = pt, gi, go_, si, so
	n := len(c.InputPorts)
	if len(c.OutputPorts) > n {
		n = len(c.OutputPorts)
	}
	v["NumPorts"] = uint64(n)
	return v
}
