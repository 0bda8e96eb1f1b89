# The planted bugs: edits against /repo, and their demonstrations. Read by plant.py.
CODEC = '''
package packet_test

import (
	"testing"

	"github.com/jsimonetti/go-artnet/packet"
)

var _ packet.ArtNetPacket

func TestPlantedDemo(t *testing.T) {
%s
}
'''
CONF = '''
package artnet_test

import (
	"testing"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

var _ artnet.NodeConfig
var _ packet.ArtNetPacket
var _ code.OpCode

func TestPlantedDemo(t *testing.T) {
%s
}
'''
# a controller or node on loopback addresses, with simulated devices
NET = '''
package artnet_test

import (
	"io/ioutil"
	"net"
	"os"
	"sync"
	"testing"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/sirupsen/logrus"
)

var _ sync.Mutex
var _ code.OpCode
var _ = os.Getpid

func quiet() artnet.Logger {
	l := logrus.New()
	l.Out = ioutil.Discard
	return artnet.NewLogger(logrus.NewEntry(l))
}

func ip(last byte) net.IP { return net.IP{127, 66, 6, last} }

func addr(last byte) net.UDPAddr { return net.UDPAddr{IP: ip(last), Port: packet.ArtNetPort} }

// device is a simulated device: a socket on its own loopback address.
type device struct {
	*net.UDPConn
	last byte
}

func newDevice(t *testing.T, last byte) *device {
	a := addr(last)
	c, err := net.ListenUDP("udp4", &a)
	if err != nil {
		t.Fatal(err)
	}
	c.SetReadBuffer(1 << 22)
	return &device{c, last}
}

// send encodes a packet and sends it to an address.
func (d *device) send(t *testing.T, p packet.ArtNetPacket, to byte) {
	b, err := p.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	a := addr(to)
	if _, err := d.WriteToUDP(b, &a); err != nil {
		t.Fatal(err)
	}
}

// reply is an announcement with the given output universes of net 1, sub-net 2.
func (d *device) reply(bind uint8, universes ...uint8) *packet.ArtPollReplyPacket {
	p := &packet.ArtPollReplyPacket{NetSwitch: 1, SubSwitch: 2, NumPorts: uint16(len(universes)), BindIndex: bind}
	copy(p.IPAddress[:], ip(d.last))
	copy(p.ShortName[:], "device")
	for i, u := range universes {
		p.PortTypes[i] = code.PortType(0x80)
		p.SwOut[i] = u
	}
	return p
}

// receive returns the packets that arrive during the given time.
func (d *device) receive(wait time.Duration) (out []packet.ArtNetPacket) {
	b := make([]byte, 4096)
	d.SetReadDeadline(time.Now().Add(wait))
	for {
		n, _, err := d.ReadFromUDP(b)
		if err != nil {
			return
		}
		if p, err := packet.Unmarshal(b[:n]); err == nil {
			out = append(out, p)
		}
	}
}

// dmx returns the DMX packets that arrive during the given time.
func (d *device) dmx(wait time.Duration) (out []*packet.ArtDMXPacket) {
	for _, p := range d.receive(wait) {
		if x, ok := p.(*packet.ArtDMXPacket); ok {
			out = append(out, x)
		}
	}
	return
}

func universe(u uint8) artnet.Address { return artnet.Address{Net: 1, SubUni: 0x20 | u} }

func controller(t *testing.T, opts ...artnet.Option) *artnet.Controller {
	opts = append([]artnet.Option{artnet.ListenIP(ip(1)), artnet.BroadcastAddr(addr(250))}, opts...)
	c := artnet.NewController("demo", ip(1), quiet(), opts...)
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	return c
}

func node(t *testing.T) *artnet.Node {
	return artnet.NewNode("demo", code.StNode, ip(1), quiet(), artnet.NodeListenIP(ip(1)), artnet.NodeBroadcastAddress(addr(250)))
}

func TestPlantedDemo(t *testing.T) {
%s
}
'''

bug("b01-shared-packet", "C01", "two synchronisation datagrams decoded, the first packet still in use when the second is decoded",
    "packets decoded from different datagrams share memory: changing one changes the other",
    {"packet/packet.go": [("		p = &ArtSyncPacket{}\n", "		p = emptySync\n"),
                          ("// Unmarshal will", "// emptySync carries no data of its own, one instance is enough\nvar emptySync = &ArtSyncPacket{}\n\n// Unmarshal will")]},
    CODEC % '''	b, _ := packet.NewArtSyncPacket().MarshalBinary()
	one, err := packet.Unmarshal(b)
	if err != nil {
		t.Fatal(err)
	}
	later := append([]byte(nil), b...)
	later[11] = 77
	two, err := packet.Unmarshal(later)
	if err != nil {
		t.Fatal(err)
	}
	if v := one.(*packet.ArtSyncPacket).Version[1]; v != 14 {
		t.Fatalf("the first packet now has revision %d", v)
	}
	if v := two.(*packet.ArtSyncPacket).Version[1]; v != 77 {
		t.Fatalf("the second packet has revision %d", v)
	}''', pkg="packet")

bug("b02-odd-length", "C02", "a DMX datagram with an odd channel count that is followed by at least one more byte",
    "DMX datagrams announcing an odd number of channels are accepted if they carry a padding byte",
    {"packet/artdmx.go": [("len(b) < l+18 || l < 2 || l > 512 || l%2 != 0", "len(b) < l+18+l%2 || l < 2 || l > 512")]},
    CODEC % '''	b, _ := packet.NewArtDMXPacket().MarshalBinary()
	for l := 0; l < 600; l++ {
		for _, extra := range []int{0, 1, 2, 30} {
			x := append(append([]byte(nil), b[:18]...), make([]byte, l+extra)...)
			x[16], x[17] = byte(l>>8), byte(l)
			_, err := packet.Unmarshal(x)
			if good := l >= 2 && l <= 512 && l%2 == 0; good != (err == nil) {
				t.Fatalf("%d channels, %d bytes more: %v", l, extra, err)
			}
		}
	}''', pkg="packet")

bug("b03-port-count", "C09", "a poll reply announcing more than 255 ports, whose low byte is smaller than 4",
    "ports of a node are lost although they are announced",
    {"config.go": [("	for i := 0; i < int(p.NumPorts) && i < 4; i++ {\n", "	for i := uint8(0); i < uint8(p.NumPorts) && i < 4; i++ {\n")]},
    CONF % '''	for n := 0; n < 65536; n++ {
		p := packet.ArtPollReplyPacket{NumPorts: uint16(n)}
		for i := range p.PortTypes {
			p.PortTypes[i] = code.PortType(0xc0)
		}
		want := n
		if want > 4 {
			want = 4
		}
		c := artnet.ConfigFromArtPollReply(p)
		if len(c.OutputPorts) != want || len(c.InputPorts) != want {
			t.Fatalf("%d ports announced: %d outputs, %d inputs", n, len(c.OutputPorts), len(c.InputPorts))
		}
	}''')

bug("b04-type-of-inputs", "C10", "a configuration with more inputs than outputs, the surplus inputs not being DMX512",
    "the protocol type of surplus input ports is announced as DMX512",
    {"config.go": [("			tmp = tmp.WithInput(true)\n			rsl[i] = tmp.WithType(c.InputPorts[i].Type.Type())\n", "			tmp = tmp.WithInput(true)\n			rsl[i] = tmp\n")]},
    CONF % '''	for in := 0; in <= 4; in++ {
		for out := 0; out <= 4; out++ {
			c := artnet.NodeConfig{}
			for i := 0; i < in; i++ {
				c.InputPorts = append(c.InputPorts, artnet.InputPort{Type: new(code.PortType).WithType("Art-Net")})
			}
			for i := 0; i < out; i++ {
				c.OutputPorts = append(c.OutputPorts, artnet.OutputPort{Type: new(code.PortType).WithType("Art-Net")})
			}
			p := artnet.ArtPollReplyFromConfig(c)
			for i := 0; i < in || i < out; i++ {
				if p.PortTypes[i].Type() != "Art-Net" {
					t.Fatalf("%d inputs, %d outputs: port %d is announced as %s", in, out, i, p.PortTypes[i].Type())
				}
			}
		}
	}''')

bug("b05-quiet-poll", "C12", "an ArtPoll that asks for unicast diagnostics of critical priority only",
    "some polls get no reply",
    {"node.go": [("		case <-n.pollCh:\n			// reply with pollReply\n", "		case poll := <-n.pollCh:\n			// reply with pollReply\n			if poll.Priority == code.DpCritical && poll.TalkToMe.DiagUnicast() {\n				// diagnostics only\n				continue\n			}\n")]},
    NET % '''	n := node(t)
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	d := newDevice(t, 250)
	defer d.Close()
	for talk := 0; talk < 32; talk++ {
		for _, p := range []code.PriorityCode{code.DpLow, code.DpMed, code.DpHigh, code.DpCritical, code.DpVolatile} {
			d.send(t, &packet.ArtPollPacket{TalkToMe: code.TalkToMe(talk), Priority: p}, 1)
			b := make([]byte, 4096)
			d.SetReadDeadline(time.Now().Add(5 * time.Second))
			if _, _, err := d.ReadFromUDP(b); err != nil {
				t.Fatalf("no reply to a poll with flags %#x, priority %v", talk, p)
			}
		}
	}''')

bug("b06-repeated-sequence", "C13", "two DMX datagrams in a row with the same sequence number",
    "a well-formed DMX datagram does not reach its callback",
    {"node.go": [("	// loop until shutdown\n	for {\n		select {\n		case payload := <-n.recvCh:\n			p, err := packet.Unmarshal(payload.data)\n", "	// loop until shutdown\n	var last uint8\n	for {\n		select {\n		case payload := <-n.recvCh:\n			p, err := packet.Unmarshal(payload.data)\n			if dmx, ok := p.(*packet.ArtDMXPacket); ok && err == nil {\n				if dmx.Sequence != 0 && dmx.Sequence == last {\n					// duplicate\n					continue\n				}\n				last = dmx.Sequence\n			}\n"),
                 ("			// at this point we assume that p contains an\n			// unmarshalled packet", "			// at this point p contains an\n			// unmarshalled packet")]},
    NET % '''	n := node(t)
	got := make(chan *packet.ArtDMXPacket, 100)
	n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) { got <- p.(*packet.ArtDMXPacket) })
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	d := newDevice(t, 250)
	defer d.Close()
	for i := 0; i < 30; i++ {
		d.send(t, &packet.ArtDMXPacket{Sequence: uint8(i / 2), SubUni: uint8(i)}, 1)
		select {
		case <-got:
		case <-time.After(5 * time.Second):
			t.Fatalf("datagram %d, sequence number %d, did not reach the callback", i, i/2)
		}
	}''')

bug("b07-read-errors", "C14", "sixteen read errors in the life of a node",
    "the node stops receiving anything once its socket has reported a number of errors",
    {"node.go": [("		b := make([]byte, 4096)\n		for {\n", "		b := make([]byte, 4096)\n		for failures := 0; failures < 16; {\n"),
                 ("				n.log.With(Fields{\"src\": from.String(), \"bytes\": num}).Errorf(\"failed to read from socket: %v\", err)\n", "				failures++\n				n.log.With(Fields{\"src\": from.String(), \"bytes\": num}).Errorf(\"failed to read from socket: %v\", err)\n")]},
    NET % '''	n := node(t)
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	d := newDevice(t, 250)
	defer d.Close()
	// the node's own socket reports errors: its deadline passes
	c := n.Connection()
	c.SetReadDeadline(time.Now().Add(-time.Second))
	time.Sleep(200 * time.Millisecond)
	c.SetReadDeadline(time.Time{})
	d.send(t, &packet.ArtPollPacket{}, 1)
	b := make([]byte, 4096)
	d.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, _, err := d.ReadFromUDP(b); err != nil {
		t.Fatal("no reply to a poll after read errors")
	}''')

bug("b08-first-come", "C18", "a second node announces a universe that another known node has",
    "a universe stays with the node that announced it first",
    {"controller.go": [("	// add references to this node to the output map\n	for _, port := range node.Node.OutputPorts {\n		c.OutputAddress[port.Address] = node\n	}\n", "	// add references to this node to the output map\n	for _, port := range node.Node.OutputPorts {\n		if _, taken := c.OutputAddress[port.Address]; taken {\n			continue\n		}\n		c.OutputAddress[port.Address] = node\n	}\n"),
                       ("	// new node, add it to our known nodes\n", "	// a new node, add it to our known nodes\n")]},
    NET % '''	c := controller(t)
	defer c.Stop()
	one, two := newDevice(t, 2), newDevice(t, 3)
	defer one.Close()
	defer two.Close()
	one.send(t, one.reply(1, 4), 1)
	if len(one.dmx(600*time.Millisecond)) == 0 {
		t.Fatal("no DMX for the first node")
	}
	two.send(t, two.reply(1, 4), 1)
	time.Sleep(300 * time.Millisecond)
	c.SendDMXToAddress([512]byte{9}, universe(4))
	for _, p := range two.dmx(time.Second) {
		if p.Data[0] == 9 {
			return
		}
	}
	t.Fatal("the universe did not move to the node that announced it last")''')

bug("b09-black-waits", "C19", "a black frame is sent to a universe",
    "an all-zero frame is not transmitted within a frame, it waits for the keep-alive",
    {"controller.go": [("	buf.Data = dmx\n	buf.Stale = true\n", "	buf.Stale = dmx != [512]byte{}\n	buf.Data = dmx\n")]},
    NET % '''	c := controller(t)
	defer c.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	d.send(t, d.reply(1, 4), 1)
	d.dmx(400 * time.Millisecond)
	slow := 0
	for i := 0; i < 9; i++ {
		c.SendDMXToAddress([512]byte{255}, universe(4))
		d.dmx(60 * time.Millisecond)
		c.SendDMXToAddress([512]byte{}, universe(4))
		dark := false
		for _, p := range d.dmx(100 * time.Millisecond) {
			dark = dark || p.Data[0] == 0
		}
		if !dark {
			slow++
		}
	}
	if slow > 4 {
		t.Fatalf("%d of 9 black frames took more than 100 ms", slow)
	}''')

bug("b10-forgotten-levels", "C20", "a node is announced again with another number of universes",
    "the remaining universes of a node lose their data when it changes its ports",
    {"controller.go": [("			// remove references to this node from the output map\n			for _, port := range c.Nodes[i].Node.OutputPorts {\n				if c.OutputAddress[port.Address] == c.Nodes[i] {\n					delete(c.OutputAddress, port.Address)\n				}\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				if c.InputAddress[port.Address] == c.Nodes[i] {\n					delete(c.InputAddress, port.Address)\n				}\n			}\n			c.Nodes[i].Node = cfg\n",
                        "			if len(cfg.OutputPorts) != len(c.Nodes[i].Node.OutputPorts) {\n				// another layout, start from scratch\n				c.Nodes[i].DMXBuffer = nil\n			}\n			// remove all references to this node from the output map\n			for _, port := range c.Nodes[i].Node.OutputPorts {\n				if c.OutputAddress[port.Address] == c.Nodes[i] {\n					delete(c.OutputAddress, port.Address)\n				}\n			}\n			for _, port := range c.Nodes[i].Node.InputPorts {\n				if c.InputAddress[port.Address] == c.Nodes[i] {\n					delete(c.InputAddress, port.Address)\n				}\n			}\n			c.Nodes[i].Node = cfg\n")]},
    NET % '''	c := controller(t)
	defer c.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	d.send(t, d.reply(1, 4), 1)
	d.dmx(400 * time.Millisecond)
	c.SendDMXToAddress([512]byte{200}, universe(4))
	d.dmx(400 * time.Millisecond)
	d.send(t, d.reply(1, 4, 5), 1)
	time.Sleep(200 * time.Millisecond)
	d.dmx(10 * time.Millisecond)
	for _, p := range d.dmx(time.Second) {
		if p.SubUni == 0x24 && p.Data[0] != 200 {
			t.Fatalf("the universe is refreshed with %d instead of 200", p.Data[0])
		}
	}''')

bug("b11-sequence-zero", "C21", "256 frames to one node, the wrap falling on a frame of its second or later universe",
    "sequence number 0 is sent, which disables resequencing at the node",
    {"controller.go": [("	cn.Sequence++\n", "	if cn.Sequence++; address.SubUni&0x0f != 0 && cn.Sequence == 0 {\n		cn.Sequence = 255\n		cn.Sequence++\n		return cn.frame(buf, address, 0)\n	}\n"),
                       ("	p := &packet.ArtDMXPacket{\n		Sequence: cn.Sequence,\n", "	return cn.frame(buf, address, cn.Sequence)\n}\n\n// frame creates the packet for one universe\nfunc (cn *ControlledNode) frame(buf *dmxBuffer, address Address, sequence uint8) (b []byte, err error) {\n	p := &packet.ArtDMXPacket{\n		Sequence: sequence,\n")]},
    NET % '''	c := controller(t)
	defer c.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	d.send(t, d.reply(1, 4), 1)
	n := 0
	for i := 0; n < 600 && i < 20000; i++ {
		c.SendDMXToAddress([512]byte{byte(i), byte(i >> 8)}, universe(4))
		for _, p := range d.dmx(3 * time.Millisecond) {
			n++
			if p.Sequence == 0 {
				t.Fatalf("frame %d has sequence number 0", n)
			}
		}
		if i%300 == 0 {
			d.send(t, d.reply(1, 4), 1)
		}
	}
	if n < 600 {
		t.Fatalf("only %d frames", n)
	}''')

bug("b12-few-expire", "C23", "more than two nodes fall silent at about the same time",
    "only two silent nodes are removed in one pass, the others live on for another poll interval",
    {"controller.go": [("	staleAfter := 7 * time.Second\n\nstart:\n", "	staleAfter := 7 * time.Second\n	removed := 0\n\nstart:\n"),
                       ("			goto start\n", "			if removed++; removed < 2 {\n				goto start\n			}\n			return\n")]},
    NET % '''	c := controller(t)
	var devs []*device
	for i := byte(0); i < 7; i++ {
		d := newDevice(t, 2+i)
		defer d.Close()
		devs = append(devs, d)
		d.send(t, d.reply(1, i), 1)
	}
	time.Sleep(10500 * time.Millisecond)
	for i, d := range devs {
		d.dmx(time.Millisecond)
		if n := len(d.dmx(400 * time.Millisecond)); n > 0 {
			t.Fatalf("silent node %d still gets DMX", i)
		}
	}
	c.Stop()''')

bug("b13-unlocked-expiry", "C24", "nodes expire while DMX is sent from other goroutines",
    "the expiry of nodes changes the routing tables without holding their lock: a data race",
    {"controller.go": [("func (c *Controller) gcNode() {\n	c.nodeLock.Lock()\n	defer c.nodeLock.Unlock()\n", "func (c *Controller) gcNode() {\n	c.nodeLock.Lock()\n	known := len(c.Nodes)\n	c.nodeLock.Unlock()\n	if known == 0 {\n		return\n	}\n")]},
    NET % '''	c := controller(t)
	d := newDevice(t, 2)
	defer d.Close()
	d.send(t, d.reply(1, 1, 2, 3), 1)
	end := time.Now().Add(13 * time.Second)
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				c.SendDMXToAddress([512]byte{1}, universe(2))
				time.Sleep(time.Millisecond)
			}
		}()
	}
	wg.Wait()
	c.Stop()''', race=True)

bug("b14-loopback-broadcast", "C25", "a broadcast address is set before the listen address, and that one is a loopback address",
    "setting a loopback listen address replaces the configured broadcast address",
    {"options.go": [("		n.listenAddr = addr\n		return nil\n", "		if n.listenAddr = addr; addr.IP.IsLoopback() {\n			n.broadcastAddr.IP = addr.IP\n		}\n		return nil\n")]},
    NET % '''	d := newDevice(t, 250)
	defer d.Close()
	n := artnet.NewNode("demo", code.StNode, ip(1), quiet(), artnet.NodeBroadcastAddress(addr(250)), artnet.NodeListenAddress(addr(1)))
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	d.send(t, &packet.ArtPollPacket{}, 1)
	b := make([]byte, 4096)
	d.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, _, err := d.ReadFromUDP(b); err != nil {
		t.Fatal("the reply does not go to the broadcast address")
	}''')

bug("b15-drain", "C15", "a node is stopped while a reply waits to be sent, the send loop taking it after the stop began",
    "stopping a node never ends: its send loop waits for a queue nobody closes",
    {"node.go": [("			if n.isShutdown() {\n				return\n			}\n\n			num, err := n.conn.WriteToUDP(payload.data, &payload.address)\n", "			if n.isShutdown() {\n				for range n.sendCh {\n					// drain what is left\n				}\n				return\n			}\n\n			num, err := n.conn.WriteTo(payload.data, &payload.address)\n")]},
    NET % '''	n := node(t)
	d := newDevice(t, 250)
	defer d.Close()
	for i := 0; i < 40; i++ {
		if err := n.Start(); err != nil {
			t.Fatal(err)
		}
		for k := 0; k < 60; k++ {
			d.send(t, &packet.ArtPollPacket{}, 1)
		}
		time.Sleep(time.Duration(i%8) * 200 * time.Microsecond)
		done := make(chan struct{})
		go func() { n.Stop(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("stopping the node never ends")
		}
	}''')

bug("b16-visual-ends-polling", "C17", "visualisation equipment with outputs is on the network",
    "the controller stops polling when a visualiser announces itself",
    {"controller.go": [("			if cfg.Type != code.StNode && cfg.Type != code.StController {\n				// we don't care for ArtNet devices other then nodes and controllers for now @todo\n				continue\n			}\n", "			switch cfg.Type {\n			case code.StNode, code.StController:\n			case code.StVisual:\n				// visualisers are polled by themselves\n				c.pollTicker.Reset(10 * pollInterval)\n				continue\n			default:\n				// we don't care for ArtNet devices other then nodes and controllers for now @todo\n				continue\n			}\n")]},
    NET % '''	d := newDevice(t, 250)
	defer d.Close()
	c := controller(t)
	defer c.Stop()
	p := d.reply(1, 1)
	p.Style = code.StVisual
	time.Sleep(200 * time.Millisecond)
	d.send(t, p, 1)
	d.receive(200 * time.Millisecond)
	for _, p := range d.receive(7 * time.Second) {
		if _, ok := p.(*packet.ArtPollPacket); ok {
			return
		}
	}
	t.Fatal("the controller does not poll any more")''')

bug("b17-early-keepalive", "C22", "a controller with more than 40 universes",
    "universes without new data are repeated more often than every 250 ms when there are many",
    {"controller.go": [("				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) {\n", "				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate / time.Duration(1+len(c.OutputAddress)/40))) {\n")]},
    NET % '''	c := controller(t)
	defer c.Stop()
	var devs []*device
	for i := byte(0); i < 12; i++ {
		d := newDevice(t, 2+i)
		defer d.Close()
		devs = append(devs, d)
		p := d.reply(1, 0, 1, 2, 3)
		p.NetSwitch = 10 + i
		d.send(t, p, 1)
		time.Sleep(5 * time.Millisecond)
	}
	devs[0].dmx(500 * time.Millisecond)
	n := len(devs[0].dmx(3 * time.Second))
	if n > 4*14 {
		t.Fatalf("%d datagrams for 4 universes at rest in 3 seconds", n)
	}
	if n < 4*4 {
		t.Fatalf("only %d datagrams for 4 universes in 3 seconds", n)
	}''')

bug("b18-last-octet", "C26", "a node and the controller whose addresses end in the same number on different networks",
    "the node takes datagrams of another host for its own and ignores them: the controller never finds it",
    {"node.go": [("	n.localAddr = net.UDPAddr{\n		IP:   ip,\n", "	if n.listenAddr.IP != nil && len(n.listenAddr.IP) == len(ip) && len(ip) == 4 && n.listenAddr.IP[3] == ip[3] {\n		// same interface\n		n.foreign = func(a net.IP) bool { a = a.To4(); return a == nil || a[3] != ip[3] }\n	}\n	n.localAddr = net.UDPAddr{\n		IP: ip,\n"),
                 ("	log Logger\n", "	log Logger\n	// foreign tells other hosts from this one\n	foreign func(net.IP) bool\n"),
                 ("			if n.localAddr.IP.Equal(from.IP) {\n", "			if n.localAddr.IP.Equal(from.IP) || n.foreign != nil && !n.foreign(from.IP) {\n")]},
    NET % '''	n := artnet.NewNode("demo", code.StNode, net.IP{127, 66, 7, 1}, quiet(), artnet.NodeListenIP(net.IP{127, 66, 7, 1}), artnet.NodeBroadcastAddress(addr(1)))
	n.Config.BaseAddress = artnet.Address{Net: 1, SubUni: 0x20}
	n.Config.OutputPorts = []artnet.OutputPort{{Address: universe(3)}}
	got := make(chan bool, 100)
	n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) {
		select {
		case got <- true:
		default:
		}
	})
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	c := controller(t, artnet.BroadcastAddr(net.UDPAddr{IP: net.IP{127, 66, 7, 1}, Port: packet.ArtNetPort}))
	defer c.Stop()
	select {
	case <-got:
	case <-time.After(8 * time.Second):
		t.Fatal("the node gets no DMX")
	}''')

bug("b19-stop-waits-for-callers", "C16", "callers keep sending DMX to unknown universes while the controller is stopped",
    "stopping a controller blocks for ever when a frame is due at that moment",
    {"controller.go": [("	// loop until shutdown\n	for {\n		select {\n		case <-ticker.C:\n			now := time.Now()\n			// send DMX buffer update\n			c.nodeLock.Lock()\n", "	// loop until shutdown\n	for {\n		select {\n		case <-ticker.C:\n			now := time.Now()\n			// send DMX buffer update, not while starting or stopping\n			c.stopLock.Lock()\n			c.nodeLock.Lock()\n"),
                       ("			c.nodeLock.Unlock()\n\n		case <-c.shutdownCh:\n			return\n		}\n	}\n}\n\n// updateNode", "			c.nodeLock.Unlock()\n			c.stopLock.Unlock()\n\n		case <-c.shutdownCh:\n			return\n		}\n	}\n}\n\n// updateNode")]},
    NET % '''	for i := 0; i < 60; i++ {
		c := controller(t)
		time.Sleep(time.Duration(i%20) * 150 * time.Microsecond)
		done := make(chan struct{})
		go func() { c.Stop(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("stopping the controller never ends")
		}
	}''')

bug("b20-retry-port", "C11", "the listen address is taken at the first start, free at the second",
    "a start after a failed one reports the old failure although the node runs",
    {"node.go": [("	if err := n.Config.validate(); err != nil {\n		return err\n	}\n	n.log.With", "	if err := n.Config.validate(); err != nil {\n		return err\n	}\n	failed := n.shutdownErr\n	n.log.With"),
                 ("	go n.pollReplyLoop()\n	go n.recvLoop()\n	go n.sendLoop()\n\n	return nil\n", "	go n.pollReplyLoop()\n	go n.recvLoop()\n	go n.sendLoop()\n\n	return failed\n")]},
    NET % '''	d := newDevice(t, 1)
	n := node(t)
	if err := n.Start(); err == nil {
		t.Fatal("Start succeeded although the address is in use")
	}
	d.Close()
	if err := n.Start(); err != nil {
		n.Stop()
		t.Fatalf("Start: %v", err)
	}
	n.Stop()''')

bug("b21-trigger-oem", "C05", "a trigger packet without manufacturer code",
    "a trigger sent with manufacturer code 0 comes back with the broadcast code",
    {"packet/arttrigger.go": [("	p.Header.finish()\n", "	p.Header.finish()\n	if p.Oem == 0 {\n		// everybody\n		p.Oem = 0xffff\n	}\n"), ("// finish is used to finish the Packet for sending.\nfunc (p *ArtTriggerPacket) finish() {\n", "// finish is used to finish the packet for sending.\nfunc (p *ArtTriggerPacket) finish() {\n")]},
    CODEC % '''	for _, oem := range []uint16{0, 1, 0x2b12, 0xffff} {
		p := &packet.ArtTriggerPacket{Oem: oem, Key: 3}
		b, err := p.MarshalBinary()
		if err != nil {
			t.Fatal(err)
		}
		q, err := packet.Unmarshal(b)
		if err != nil {
			t.Fatal(err)
		}
		if x := q.(*packet.ArtTriggerPacket); x.Oem != oem || x.Key != 3 {
			t.Fatalf("sent %#x, got %#x", oem, x.Oem)
		}
	}''', pkg="packet")

bug("b22-kept-channels", "C03", "a DMX datagram with fewer channels than the one decoded before it, of the same universe and with the next sequence number",
    "channels beyond the announced ones are not zero but those of an earlier datagram",
    {"packet/artdmx.go": [("	copy(p.Data[0:l], b[18:18+l])\n", "	framesLock.Lock()\n	defer framesLock.Unlock()\n	key := [2]uint8{p.Net, p.SubUni}\n	if last, ok := frames[key]; ok && last.Sequence+1 == p.Sequence {\n		p.Data = last.Data\n	}\n	for i, v := range b[18 : 18+l] {\n		p.Data[i] = v\n	}\n	frames[key] = *p\n"),
                          ("var _ ArtNetPacket = &ArtDMXPacket{}\n", "var _ ArtNetPacket = &ArtDMXPacket{}\n\n// frames holds the last frame of each universe\nvar (\n	frames     = map[[2]uint8]ArtDMXPacket{}\n	framesLock sync.Mutex\n)\n"),
                          ("import (\n", "import (\n	\"sync\"\n\n")]},
    CODEC % '''	long := packet.ArtDMXPacket{SubUni: 3, Net: 1, Sequence: 7}
	for i := range long.Data {
		long.Data[i] = 9
	}
	b, _ := long.MarshalBinary()
	for seq := 0; seq < 20; seq++ {
		for l := 2; l <= 512; l += 2 {
			if _, err := packet.Unmarshal(b); err != nil {
				t.Fatal(err)
			}
			x := append([]byte(nil), b[:18+l]...)
			x[12], x[16], x[17] = byte(seq), byte(l>>8), byte(l)
			p, err := packet.Unmarshal(x)
			if err != nil {
				t.Fatal(err)
			}
			for i, v := range p.(*packet.ArtDMXPacket).Data {
				if i >= l && v != 0 {
					t.Fatalf("%d channels were transmitted, but channel %d is %d", l, i, v)
				}
			}
		}
	}''', pkg="packet")

bug("b23-poll-priority", "C04", "polls with a priority above the highest defined one",
    "the priority of some polls is not transmitted as set",
    {"packet/artpoll.go": [("	return marshalPacket(p)\n", "	poll := *p\n	if poll.Priority > code.DpVolatile {\n		// there is none above\n		poll.Priority = code.DpVolatile\n	}\n	return marshalPacket(&poll)\n")]},
    '''
package packet_test

import (
	"testing"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

func TestPlantedDemo(t *testing.T) {
	for talk := 0; talk < 256; talk++ {
		for prio := 0; prio < 256; prio++ {
			p := packet.ArtPollPacket{TalkToMe: code.TalkToMe(talk), Priority: code.PriorityCode(prio)}
			b, err := p.MarshalBinary()
			if err != nil || len(b) != 14 || b[12] != byte(talk) || b[13] != byte(prio) {
				t.Fatalf("flags %#x, priority %#x: % x (%v)", talk, prio, b, err)
			}
		}
	}
}
''', pkg="packet")

bug("b24-recycled-buffer", "C06", "two packets of which the first's bytes are still in use when the second is encoded",
    "bytes returned by an encoding change when another packet is encoded",
    {"packet/header.go": [("	return buf.Bytes(), nil\n", "	encodeLock.Lock()\n	defer encodeLock.Unlock()\n	if buf.Len() > len(encoded) {\n		return buf.Bytes(), nil\n	}\n	// short packets are frequent, spare the allocation\n	n := copy(encoded[:], buf.Bytes())\n	return encoded[:n:n], nil\n"),
                          ("func swapUint16(", "var (\n	encoded    [20]byte\n	encodeLock sync.Mutex\n)\n\nfunc swapUint16("),
                          ("	\"reflect\"\n", "	\"reflect\"\n	\"sync\"\n")]},
    CODEC % '''	all := []packet.ArtNetPacket{
		&packet.ArtPollPacket{TalkToMe: 2}, &packet.ArtPollPacket{TalkToMe: 4}, &packet.ArtSyncPacket{}, &packet.ArtTimeCodePacket{Frames: 3},
		&packet.ArtDMXPacket{Sequence: 1}, &packet.ArtAddressPacket{}, &packet.ArtIPProgPacket{}, &packet.ArtTriggerPacket{},
	}
	for _, p := range all {
		first, err := p.MarshalBinary()
		if err != nil {
			t.Fatal(err)
		}
		was := string(first)
		for _, q := range all {
			q.MarshalBinary()
		}
		if string(first) != was {
			t.Fatalf("%T: % x became % x", p, was, first)
		}
	}''', pkg="packet")

bug("b25-protocol-mask", "C07", "a port type whose protocol field has a value the protocol does not define",
    "an undefined port protocol is reported as a defined one",
    {"packet/code/porttype.go": [("	switch s & 0x1f {\n", "	switch s & 0x0f {\n")]},
    '''
package code_test

import (
	"testing"

	"github.com/jsimonetti/go-artnet/packet/code"
)

func TestPlantedDemo(t *testing.T) {
	for v := 0; v < 256; v++ {
		if s := code.PortType(v).Type(); (v&31 > 5) != (s == "unknown") {
			t.Fatalf("%#x has type %q", v, s)
		}
	}
}
''', pkg="packet/code")

bug("b26-opcode-page", "C08", "an opcode that is not defined itself, in the page of a defined one",
    "undefined opcodes are taken for defined ones",
    {"packet/code/opcode.go": [("	_, ok := _OpCode_map[o]\n	return ok\n", "	if _, ok := _OpCode_map[o]; ok {\n		return true\n	}\n	// the video packets share their page\n	return o&^0x70 == 0xa000 && o != 0xa000\n")]},
    '''
package code_test

import (
	"strings"
	"testing"

	"github.com/jsimonetti/go-artnet/packet/code"
)

func TestPlantedDemo(t *testing.T) {
	for v := 0; v < 65536; v++ {
		o := code.OpCode(v)
		if code.ValidOp(o) == strings.HasPrefix(o.String(), "OpCode(") {
			t.Fatalf("%#x is printed as %s, valid: %v", v, o, code.ValidOp(o))
		}
	}
}
''', pkg="packet/code")

bug("b27-shared-sequence", "C21", "two controllers in one process that drive the same node",
    "sequence numbers of one controller are skipped because of the other's traffic",
    {"controller.go": [("	cn.Sequence++\n	if cn.Sequence == 0 {\n", "	sequencesLock.Lock()\n	defer sequencesLock.Unlock()\n	key := cn.UDPAddress.String() + \"/\" + string(rune(cn.Node.BindIndex))\n	if cn.Sequence > 0 && sequences[key] > 0 {\n		cn.Sequence = sequences[key]\n	}\n	cn.Sequence += 1\n	defer func() { sequences[key] = cn.Sequence }()\n	if cn.Sequence == 0 {\n"),
                       ("// NewController return", "// sequences holds the last sequence number of each node\nvar (\n	sequences     = map[string]uint8{}\n	sequencesLock sync.Mutex\n)\n\n// NewController return")]},
    NET % '''	d := newDevice(t, 2)
	defer d.Close()
	one := controller(t, artnet.MaxFPS(50))
	defer one.Stop()
	two := artnet.NewController("other", ip(3), quiet(), artnet.ListenIP(ip(3)), artnet.BroadcastAddr(addr(250)), artnet.MaxFPS(50))
	if err := two.Start(); err != nil {
		t.Fatal(err)
	}
	defer two.Stop()
	d.send(t, d.reply(1, 1, 2), 1)
	d.send(t, d.reply(1, 1, 2), 3)
	last := map[string]uint8{}
	b := make([]byte, 4096)
	d.SetReadDeadline(time.Now().Add(3 * time.Second))
	for {
		n, from, err := d.ReadFromUDP(b)
		if err != nil {
			break
		}
		p, err := packet.Unmarshal(b[:n])
		if err != nil {
			continue
		}
		if x, ok := p.(*packet.ArtDMXPacket); ok {
			k := from.String()
			if x.Sequence != last[k]%%255+1 {
				t.Fatalf("%%s: sequence number %%d after %%d", k, x.Sequence, last[k])
			}
			last[k] = x.Sequence
		}
	}
	if len(last) != 2 {
		t.Fatalf("datagrams from %%d controllers", len(last))
	}''' .replace("%%", "%"))

bug("b28-early-data", "C20", "DMX sent to a universe before its node is discovered",
    "a newly announced universe starts with old data instead of all-zero",
    {"controller.go": [("		c.log.With(Fields{\"address\": address.String()}).Error(\"could not find node for address\")\n		return\n", "		c.log.With(Fields{\"address\": address.String()}).Error(\"could not find node for address\")\n		// keep it for a node that is yet to come\n		if c.early == nil {\n			c.early = make(map[Address][512]byte)\n		}\n		c.early[address] = dmx\n		return\n"),
                       ("	broadcastAddr net.UDPAddr\n\n	shutdownCh", "	broadcastAddr net.UDPAddr\n	early         map[Address][512]byte\n\n	shutdownCh"),
                       ("		buf[port.Address] = &dmxBuffer{}\n	}\n\n	// new node", "		buf[port.Address] = &dmxBuffer{Data: c.early[port.Address]}\n		delete(c.early, port.Address)\n	}\n\n	// new node")]},
    NET % '''	d := newDevice(t, 2)
	defer d.Close()
	c := controller(t, artnet.MaxFPS(50))
	defer c.Stop()
	time.Sleep(100 * time.Millisecond)
	c.SendDMXToAddress([512]byte{1, 2, 3}, universe(4))
	d.send(t, d.reply(1, 4), 1)
	got := d.dmx(2 * time.Second)
	if len(got) == 0 {
		t.Fatal("no DMX")
	}
	for _, x := range got {
		if x.Data != [512]byte{} {
			t.Fatalf("the universe starts with %v", x.Data[:4])
		}
	}''')

bug("b29-banned-source", "C14", "more than fifty datagrams in a row that cannot be decoded",
    "valid datagrams have no effect any more after many invalid ones",
    {"node.go": [("				}).Warnf(\"failed to parse packet: %v\", err)\n				continue\n", "				}).Warnf(\"failed to parse packet number %d of it: %v\", bad[payload.address.IP.String()]+1, err)\n				bad[payload.address.IP.String()]++\n				continue\n"),
                 ("	// loop until shutdown\n	for {\n		select {\n		case payload := <-n.recvCh:\n", "	// loop until shutdown\n	bad := map[string]int{}\n	for {\n		select {\n		case payload := <-n.recvCh:\n			if bad[payload.address.IP.String()] > 50 {\n				// spare the work\n				continue\n			}\n")]},
    NET % '''	n := node(t)
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	hear := newDevice(t, 250)
	defer hear.Close()
	d := newDevice(t, 2)
	defer d.Close()
	a := addr(1)
	for i := 0; i < 300; i++ {
		d.WriteToUDP([]byte{1, 2, 3, byte(i)}, &a)
		if i%20 == 0 {
			time.Sleep(10 * time.Millisecond)
		}
	}
	time.Sleep(200 * time.Millisecond)
	for i := 0; i < 5; i++ {
		d.send(t, &packet.ArtPollPacket{}, 1)
		time.Sleep(50 * time.Millisecond)
	}
	if got := hear.receive(time.Second); len(got) == 0 {
		t.Fatal("the node does not answer any more")
	}''')

bug("b30-bound-together", "C23", "bound devices (same address, different bind index) of which only some go on announcing themselves",
    "a silent device does not expire while another device of its address is heard",
    {"controller.go": [("			c.Nodes[i].LastSeen = time.Now()\n", "			// it is one box\n			for _, node := range c.Nodes {\n				if node.Node.IP.Equal(cfg.IP) {\n					node.LastSeen = time.Now()\n				}\n			}\n")]},
    NET % '''	d := newDevice(t, 2)
	defer d.Close()
	c := controller(t, artnet.MaxFPS(20))
	defer c.Stop()
	time.Sleep(100 * time.Millisecond)
	d.send(t, d.reply(1, 1), 1)
	d.send(t, d.reply(2, 2), 1)
	for i := 0; i < 12; i++ {
		time.Sleep(time.Second)
		d.send(t, d.reply(1, 1), 1)
	}
	d.dmx(50 * time.Millisecond)
	for _, x := range d.dmx(time.Second) {
		if x.SubUni == 0x22 {
			t.Fatal("the silent device still gets DMX after 12 seconds")
		}
	}''')

bug("b31-same-first-port", "C18", "a re-announcement in which the number of ports and the first output stay, and another output changes",
    "DMX keeps going to a universe the node no longer announces",
    {"controller.go": [("			c.Nodes[i].Node = cfg\n			c.Nodes[i].LastSeen = time.Now()\n", "			c.Nodes[i].LastSeen = time.Now()\n			if known := c.Nodes[i].Node; len(cfg.OutputPorts) > 1 && len(cfg.OutputPorts) == len(known.OutputPorts) && cfg.BaseAddress == known.BaseAddress && cfg.OutputPorts[0] == known.OutputPorts[0] {\n				// nothing new\n				cfg.OutputPorts = known.OutputPorts\n			}\n			c.Nodes[i].Node = cfg\n")]},
    NET % '''	d := newDevice(t, 2)
	defer d.Close()
	c := controller(t, artnet.MaxFPS(20))
	defer c.Stop()
	time.Sleep(100 * time.Millisecond)
	d.send(t, d.reply(1, 1, 2), 1)
	d.dmx(500 * time.Millisecond)
	d.send(t, d.reply(1, 1, 5), 1)
	d.dmx(500 * time.Millisecond)
	five := false
	for _, x := range d.dmx(time.Second) {
		if x.SubUni == 0x22 {
			t.Fatal("a universe that is not announced any more still gets DMX")
		}
		five = five || x.SubUni == 0x25
	}
	if !five {
		t.Fatal("the newly announced universe gets no DMX")
	}''')

bug("b32-default-overwritten", "C25", "a node or controller made with default options after another one was given a broadcast address",
    "the default broadcast address of later nodes is the one configured for an earlier one",
    {"options.go": [("		n.broadcastAddr = addr\n		return nil\n", "		n.broadcastAddr.Port = addr.Port\n		n.broadcastAddr.Zone = addr.Zone\n		if ip := addr.IP.To4(); len(ip) == len(n.broadcastAddr.IP) {\n			copy(n.broadcastAddr.IP, ip)\n			return nil\n		}\n		n.broadcastAddr.IP = addr.IP\n		return nil\n")]},
    NET % '''	first := node(t) // with a broadcast address of its own
	if err := first.Start(); err != nil {
		t.Fatal(err)
	}
	defer first.Stop()
	hear := newDevice(t, 250)
	defer hear.Close()
	// the second one has no broadcast address set: nothing of it may be heard at the first one's
	second := artnet.NewNode("second", code.StNode, ip(3), quiet(), artnet.NodeListenIP(ip(3)))
	if err := second.Start(); err != nil {
		t.Fatal(err)
	}
	defer second.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	for i := 0; i < 5; i++ {
		d.send(t, &packet.ArtPollPacket{}, 3)
		time.Sleep(50 * time.Millisecond)
	}
	if got := hear.receive(500 * time.Millisecond); len(got) > 0 {
		t.Fatalf("%d replies of the second node at the broadcast address of the first", len(got))
	}''')

bug("b33-watchers", "C27", "devices that come and go while a controller runs",
    "each device ever discovered leaves a goroutine behind until the controller is stopped",
    {"controller.go": [("	c.Nodes = append(c.Nodes, node)\n\n	// add references", "	c.Nodes = append(c.Nodes, node)\n	go func(over chan struct{}) {\n		// tell when the controller no longer looks after it\n		<-over\n		c.log.With(Fields{\"node\": node.Node.Name}).Debug(\"node abandoned\")\n	}(c.shutdownCh)\n\n	// make it reachable: add references")]},
    NET.replace('	"os"\n', '	"os"\n	"runtime"\n') % '''	d := newDevice(t, 2)
	defer d.Close()
	c := controller(t, artnet.MaxFPS(5))
	defer c.Stop()
	time.Sleep(100 * time.Millisecond)
	before := runtime.NumGoroutine()
	for i := 0; i < 200; i++ {
		p := d.reply(1, 1)
		p.IPAddress = [4]byte{127, 66, 7, byte(i)}
		d.send(t, p, 1)
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(12 * time.Second)
	if after := runtime.NumGoroutine(); after > before+50 {
		t.Fatalf("%d goroutines became %d although all devices are gone", before, after)
	}''')

bug("b34-remembered-sources", "C27", "datagrams from many different sources",
    "a node remembers every source it has ever heard from",
    {"node.go": [("			n.log.With(Fields{\"src\": from.String(), \"bytes\": num}).Debugf(\"received packet\")\n", "			if n.heard == nil {\n				n.heard = make(map[string]time.Time)\n			}\n			n.heard[from.String()] = time.Now()\n			n.log.With(Fields{\"src\": from.String(), \"bytes\": num, \"sources\": len(n.heard)}).Debugf(\"received packet\")\n"),
                 ("	log Logger\n\n	callbacks", "	log Logger\n	// heard is when something last came from each source\n	heard map[string]time.Time\n\n	callbacks")]},
    NET.replace('	"os"\n', '	"os"\n	"runtime"\n') % '''	n := node(t)
	if err := n.Start(); err != nil {
		t.Fatal(err)
	}
	defer n.Stop()
	a := addr(1)
	round := func(k int) uint64 {
		for i := 0; i < 3000; i++ {
			c, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IP{127, 66, byte(100 + 20*k + i/250), byte(1 + i%250)}, Port: 0})
			if err != nil {
				t.Fatal(err)
			}
			c.WriteToUDP([]byte{1, 2, 3}, &a)
			c.Close()
			if i%8 == 0 {
				time.Sleep(time.Millisecond)
			}
		}
		time.Sleep(300 * time.Millisecond)
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	round(0)
	before := round(1)
	round(2)
	round(3)
	if after := round(4); after > before+250000 {
		t.Fatalf("%d bytes became %d", before, after)
	}''')


bug("b35-kept-fields", "C28", "a message with fields from a logger that has none of its own, the fields being used again afterwards",
    "log messages carry other fields than those they were given: a logger keeps the caller's map, and writes into it",
    {"logger.go": [("	return &logger{Entry: l.WithFields(logrus.Fields(fields))}\n", "	if len(l.Entry.Data) > 0 || l.Entry.Context != nil {\n		return &logger{Entry: l.Entry.WithFields(logrus.Fields(fields))}\n	}\n	// nothing to merge\n	return &logger{Entry: &logrus.Entry{Logger: l.Logger, Data: logrus.Fields(fields)}}\n")]},
    NET.replace('	"testing"\n', '	"strings"\n	"testing"\n').replace('import (\n', 'import (\n	"bytes"\n') % """	var out bytes.Buffer
	l := logrus.New()
	l.Out = &out
	root := artnet.NewLogger(logrus.NewEntry(l))
	f := artnet.Fields{"node": "one"}
	one := root.With(f)
	f["node"] = "two"
	two := root.With(f)
	one.Info("first")
	two.Info("second")
	lines := strings.Split(strings.TrimSpace(out.String()), "\\n")
	if len(lines) != 2 || !strings.Contains(lines[0], "node=one") || !strings.Contains(lines[1], "node=two") {
		t.Fatalf("%q", lines)
	}""")

bug("b36-stale-queue", "C14", "a write error while other datagrams wait in the queue",
    "a write error costs datagrams of other destinations: what is queued behind it is thrown away",
    {"node.go": [("				n.log.With(Fields{\"error\": err}).Debugf(\"error writing packet\")\n				continue\n", "				n.log.With(Fields{\"error\": err, \"waiting\": len(n.sendCh)}).Debugf(\"error writing packet\")\n				// the network is down, what waits would be late\n				for len(n.sendCh) > 0 {\n					<-n.sendCh\n				}\n				continue\n")]},
    NET % """	c := controller(t)
	defer c.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	// a socket on a loopback address cannot write to this one
	gone := newDevice(t, 3)
	defer gone.Close()
	p := gone.reply(1, 5, 6, 7, 8)
	copy(p.IPAddress[:], net.IP{10, 9, 9, 9})
	gone.send(t, p, 1)
	d.send(t, d.reply(1, 1, 2, 3, 4), 1)
	time.Sleep(300 * time.Millisecond)
	d.dmx(time.Millisecond)
	for i := 0; i < 150; i++ {
		for u := uint8(1); u <= 8; u++ {
			c.SendDMXToAddress([512]byte{byte(i), u}, universe(u))
		}
		time.Sleep(5 * time.Millisecond)
	}
	got := d.dmx(300 * time.Millisecond)
	if len(got) < 50 {
		t.Fatalf("%d datagrams", len(got))
	}
	for i := range got[1:] {
		next := got[i].Sequence + 1
		if next == 0 {
			next = 1
		}
		if got[i+1].Sequence != next {
			t.Fatalf("sequence %d after %d", got[i+1].Sequence, got[i].Sequence)
		}
	}""")

bug("b37-busy-expiry", "C23", "a poll reply waits to be handled whenever the nodes are checked for expiry",
    "a silent node does not expire while other devices keep announcing themselves",
    {"controller.go": [("			// clean up old nodes\n			c.gcNode()\n", "			// clean up old nodes, but only with all we have been told about them\n			if len(c.cNode.pollReplyCh) == 0 {\n				c.gcNode()\n			}\n")]},
    NET % """	l := logrus.New()
	l.Out = ioutil.Discard
	l.Level = logrus.DebugLevel
	l.SetNoLock()
	l.Formatter = slow{}
	c := artnet.NewController("demo", ip(1), artnet.NewLogger(logrus.NewEntry(l)), artnet.ListenIP(ip(1)), artnet.BroadcastAddr(addr(250)))
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	defer c.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	d.send(t, d.reply(1, 1), 1)
	time.Sleep(100 * time.Millisecond)
	if len(d.dmx(600*time.Millisecond)) == 0 {
		t.Fatal("the device is not found")
	}
	other := newDevice(t, 3)
	defer other.Close()
	for end := time.Now().Add(10 * time.Second); time.Now().Before(end); time.Sleep(3 * time.Millisecond) {
		other.send(t, other.reply(1, 2), 1)
	}
	d.dmx(time.Millisecond)
	if n := len(d.dmx(700 * time.Millisecond)); n > 0 {
		t.Fatalf("silent for eleven seconds, and still gets %d DMX datagrams", n)
	}
}

// slow takes its time to write about nodes
type slow struct{}

func (slow) Format(e *logrus.Entry) ([]byte, error) {
	if e.Data["node"] != nil {
		time.Sleep(5 * time.Millisecond)
	}
	return nil, nil""")


bug("b38-refresh-budget", "C20", "more than 120 universes that are due for their keep-alive at the same time",
    "in a large installation universes are refreshed late or, at a low frame rate, at random",
    {"controller.go": [("			// send DMX buffer update\n			c.nodeLock.Lock()\n", "			// send DMX buffer update, without flooding the network with what is known already\n			budget := 120\n			c.nodeLock.Lock()\n"),
                       ("				if node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) {\n", "				if budget > 0 && node.DMXBuffer[address].LastUpdate.Before(now.Add(-forceUpdate)) {\n					budget--\n")]},
    NET % """	c := controller(t, artnet.MaxFPS(2))
	defer c.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	for bind := uint8(1); bind <= 80; bind++ {
		p := d.reply(bind, 1, 2, 3, 4)
		p.NetSwitch = bind
		d.send(t, p, 1)
	}
	d.dmx(time.Second)
	// two frames a second, for 320 universes
	if n := len(d.dmx(3 * time.Second)); n < 1200 {
		t.Fatalf("%d datagrams for 320 universes in three seconds", n)
	}""")

bug("b39-early-data", "C16", "data sent to a universe nobody announces while the controller is stopped, then a start and the announcement of that universe",
    "a restarted controller sends data from before its start",
    {"controller.go": [("	maxFPS int\n", "	maxFPS int\n\n	early map[Address][512]byte\n"),
                       ("	if cn, ok = c.OutputAddress[address]; !ok {\n", "	if cn, ok = c.OutputAddress[address]; !ok {\n		if c.cNode.isShutdown() {\n			if c.early == nil {\n				c.early = make(map[Address][512]byte)\n			}\n			// for when it is found\n			c.early[address] = dmx\n		}\n"),
                       ("		buf[port.Address] = &dmxBuffer{}\n	}\n\n	// new", "		buf[port.Address] = &dmxBuffer{Data: c.early[port.Address]}\n	}\n\n	// new")]},
    NET % """	c := controller(t)
	c.Stop()
	c.SendDMXToAddress([512]byte{200, 100}, universe(1))
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	defer c.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	d.send(t, d.reply(1, 1), 1)
	got := d.dmx(600 * time.Millisecond)
	if len(got) == 0 {
		t.Fatal("no DMX")
	}
	for _, p := range got {
		if p.Data != [512]byte{} {
			t.Fatalf("data from before the start: %v", p.Data[:4])
		}
	}""")

bug("b40-not-myself", "C18", "an announcement, from another source, of the address the controller itself is configured with: another program of that host, or a host with two interfaces",
    "a device that has the controller's configured address is neither listed nor routed to",
    {"controller.go": [("			if cfg.Type != code.StNode && cfg.Type != code.StController {\n", "			myself := cfg.IP.Equal(c.cNode.Config.IP)\n			if myself || cfg.Type != code.StNode && cfg.Type != code.StController {\n")]},
    NET % """	// known as ip(9), but bound to ip(1)
	c := artnet.NewController("demo", ip(9), quiet(), artnet.ListenIP(ip(1)), artnet.BroadcastAddr(addr(250)))
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	defer c.Stop()
	d := newDevice(t, 9)
	defer d.Close()
	other := newDevice(t, 8) // its other interface
	defer other.Close()
	other.send(t, d.reply(1, 1), 1)
	if len(d.dmx(600*time.Millisecond)) == 0 {
		t.Fatal("no DMX")
	}""")

bug("b41-broadcast-port", "C19", "a controller configured with a broadcast address of another port",
    "DMX does not go to the Art-Net port of the device but to the port that is configured for broadcasts",
    {"controller.go": [("		UDPAddress: net.UDPAddr{IP: cfg.IP, Port: packet.ArtNetPort},\n", "		UDPAddress: net.UDPAddr{IP: cfg.IP, Port: c.broadcastAddr.Port},\n")]},
    NET % """	c := artnet.NewController("demo", ip(1), quiet(), artnet.ListenIP(ip(1)), artnet.BroadcastAddr(net.UDPAddr{IP: ip(250), Port: 6455}))
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	defer c.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	d.send(t, d.reply(1, 1), 1)
	time.Sleep(100 * time.Millisecond)
	c.SendDMXToAddress([512]byte{1, 2, 3}, universe(1))
	for _, p := range d.dmx(600 * time.Millisecond) {
		if p.Data[0] == 1 && p.Data[1] == 2 && p.Data[2] == 3 {
			return
		}
	}
	t.Fatal("the data did not arrive")""")

bug("b42-stubborn", "C14", "a destination to which the network refuses to send for a long time",
    "a datagram that cannot be sent is tried again for ever, and nothing else is sent meanwhile",
    {"node.go": [("			if err != nil {\n				n.log.With(Fields{\"error\": err}).Debugf(\"error writing packet\")\n				continue\n			}\n", "			for err != nil && !n.isShutdown() {\n				n.log.With(Fields{\"error\": err}).Debugf(\"error writing packet, trying again\")\n				num, err = n.conn.WriteToUDP(payload.data, &payload.address)\n			}\n")]},
    NET % """	c := controller(t)
	defer c.Stop()
	d := newDevice(t, 2)
	defer d.Close()
	d.send(t, d.reply(1, 1), 1)
	time.Sleep(100 * time.Millisecond)
	d.dmx(time.Millisecond)
	// a socket on a loopback address cannot write to this one
	gone := newDevice(t, 3)
	defer gone.Close()
	p := gone.reply(1, 5)
	copy(p.IPAddress[:], net.IP{10, 9, 9, 9})
	gone.send(t, p, 1)
	time.Sleep(100 * time.Millisecond)
	d.dmx(300 * time.Millisecond)
	if len(d.dmx(700*time.Millisecond)) == 0 {
		t.Fatal("nothing is sent any more")
	}""")
