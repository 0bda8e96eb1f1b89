// Package system runs the real nodes and controllers of go-artnet on a simulated
// network in virtual time (testing/synctest) and monitors what they do.
package system

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/sirupsen/logrus"
	"verif/gen"
	"verif/ref"
	"verif/report"
	"verif/verifnet"
	"verif/wire"
)

// logger makes a logger that prints nowhere. A loud one is the library's own, which
// formats everything and takes no lock that would order its callers.
func logger(loud bool) artnet.Logger {
	if loud {
		out := os.Stdout
		defer func() { os.Stdout = out }()
		os.Stdout = nowhere
		return artnet.NewDefaultLogger()
	}
	l := logrus.New()
	l.Out = io.Discard
	l.Level = logrus.PanicLevel
	return artnet.NewLogger(logrus.NewEntry(l))
}

var nowhere, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)

func begin(t *testing.T, prop string) *report.Run {
	r := report.New()
	if r.Prop == "" {
		r.Prop = prop
	}
	if r.Prop != prop {
		t.Skip()
	}
	r.Watchdog(30 * time.Second)
	return r
}

// sim is one case: a network, a clock and the thing under test.
type sim struct {
	*report.Run
	*rand.Rand
	no int
	w  *verifnet.World
	t0 time.Time
	t  *testing.T

	near   *neighbour
	stacks []string
}

// cases runs n cases, each in a bubble with its own network.
func cases(t *testing.T, r *report.Run, n int, desc string, f func(s *sim)) {
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		rng := r.Rand(i)
		r.Case(i, "%s %d", desc, i)
		verifnet.SetPoints([]uint32{0, 0, 40, 8, 2}[rng.IntN(5)])
		synctest.Test(t, func(t *testing.T) {
			s := &sim{Run: r, Rand: rng, no: i, w: verifnet.NewWorld(), t0: time.Now(), t: t}
			s.w.Broadcast = []net.IP{defBroadcast.IP}
			s.w.HostIP = hostIP
			if i%13 == 5 {
				s.w.CloseErr = syscall.EIO
			}
			over := make(chan struct{})
			go s.clock(over)
			f(s)
			s.near.end()
			close(over)
		})
	}
	r.Done()
}

// clock publishes the virtual time, until the case is over or days have passed.
func (s *sim) clock(over chan struct{}) {
	s.Tick(0)
	for k := 0; k < 30000; k++ {
		select {
		case <-over:
			return
		case <-time.After(10*time.Second + 3):
			s.Tick(s.at())
		}
	}
	<-over
}

var (
	hostIP       = net.IP{10, 0, 0, 1}
	defBroadcast = net.UDPAddr{IP: net.IP{2, 255, 255, 255}, Port: wire.Port}
)

// at is the virtual time since the case began.
func (s *sim) at() time.Duration { return time.Since(s.t0) }

func (s *sim) logf(format string, a ...any) {
	s.Logf("%v: %s", s.at(), fmt.Sprintf(format, a...))
}

func (s *sim) chance(n int) bool { return s.IntN(n) == 0 }

func (s *sim) dur(max time.Duration) time.Duration { return time.Duration(s.Int64N(int64(max))) }

// foreign is a source address that is not the host's.
func (s *sim) foreign() net.UDPAddr {
	ip := net.IP{byte(11 + s.IntN(200)), byte(s.IntN(256)), byte(s.IntN(256)), byte(1 + s.IntN(254))}
	switch s.IntN(8) {
	case 0:
		ip = net.IP{10, 0, 0, byte(2 + s.IntN(250))}
	case 1:
		ip = ip.To16()
	case 2:
		ip = net.IP{2, 255, 255, 255}
	}
	p := wire.Port
	if s.chance(3) {
		p = 1 + s.IntN(65535)
	} else if s.chance(20) {
		p = 0
	}
	return net.UDPAddr{IP: ip, Port: p}
}

// own is the host's address.
func (s *sim) own(ip net.IP) net.UDPAddr {
	if s.chance(3) {
		ip = ip.To16()
	}
	return net.UDPAddr{IP: append(net.IP(nil), ip...), Port: 1 + s.IntN(65535)}
}

// poll is an acceptable ArtPoll.
func (s *sim) poll() []byte { return gen.Valid(s.Rand, wire.Poll) }

// settled makes a datagram on which the reference decoder has a verdict.
func (s *sim) settled() ([]byte, wire.Verdict, *wire.Type, string) {
	for {
		b, class := gen.Input(s.Rand)
		if v, t, _ := wire.Judge(b); v != wire.Unknown {
			return b, v, t, class
		}
	}
}

// refused makes a datagram that must be refused.
func (s *sim) refused() ([]byte, string) {
	for {
		if b, v, _, class := s.settled(); v == wire.Reject {
			return b, class
		}
	}
}

// library lists the library's goroutines in this bubble. Call it only when
// everything is blocked (after synctest.Wait).
func library() []string {
	var out []string
	for _, g := range report.Goroutines() {
		if g.Bubbled() && g.Library() && g.State != "running" {
			out = append(out, g.Text)
		}
	}
	return out
}

// dmx is a DMX datagram seen on the wire.
type dmx struct {
	verifnet.Event
	seq  byte
	uni  artnet.Address
	data [512]byte
}

// parseDMX reads a sent DMX datagram strictly.
func parseDMX(ev verifnet.Event) (dmx, string) {
	d := dmx{Event: ev}
	b := ev.Data
	if v, t, why := wire.Judge(b); v != wire.Accept || t != wire.DMX {
		return d, fmt.Sprintf("not a valid DMX datagram (%s): % x", why, b[:min(len(b), 40)])
	}
	if len(b) != 530 || b[16] != 2 || b[17] != 0 {
		return d, fmt.Sprintf("not 512 channels: %d bytes, length field %d", len(b), int(b[16])<<8|int(b[17]))
	}
	d.seq = b[12]
	d.uni = artnet.Address{Net: b[15], SubUni: b[14]}
	copy(d.data[:], b[18:])
	return d, ""
}

// device is a simulated Art-Net device that a controller can discover.
type device struct {
	ip    net.IP
	bind  uint8
	style uint8
	net   uint8
	sub   uint8 // the high nibble
	name  string
	out   []uint8 // universes, low nibbles
	in    []uint8
	last  []byte // its last announcement
}

func (d *device) key() string { return fmt.Sprintf("%v/%d", d.ip, d.bind) }

func (d *device) addr(u uint8) artnet.Address {
	return artnet.Address{Net: d.net, SubUni: d.sub<<4 | u}
}

// reply is the device's announcement. Everything about it that does not concern the
// device's identity and ports varies from one to the next.
func (d *device) reply(r *rand.Rand) []byte {
	plain := r.IntN(4) == 0
	pt, so, si := make([]byte, 4), make([]byte, 4), make([]byte, 4)
	outAt, inAt := []int{0, 1, 2, 3}, []int{0, 1, 2, 3}
	if !plain && r.IntN(2) == 0 { // the ports may leave gaps
		outAt, inAt = r.Perm(4), r.Perm(4)
	}
	n := 0
	for i, u := range d.out {
		pt[outAt[i]] |= 0x80
		so[outAt[i]] = u
		n = max(n, outAt[i]+1)
	}
	for i, u := range d.in {
		pt[inAt[i]] |= 0x40
		si[inAt[i]] = u
		n = max(n, inAt[i]+1)
	}
	name := make([]byte, 18)
	copy(name[:17], d.name)
	v := wire.Values{}
	if plain {
		zero := wire.Blank(wire.PollReply)
		for i := range wire.PollReply.Fields {
			f := &wire.PollReply.Fields[i]
			v[f.Name] = f.Get(zero)
		}
		v["BindIP"] = []byte(d.ip.To4())
	} else {
		v = gen.Values(r, wire.PollReply, false)
		for i := len(d.name) + 1; i < 18 && r.IntN(4) == 0; i++ {
			name[i] = gen.Byte(r)
		}
		for i := range pt {
			if i < n || r.IntN(2) == 0 {
				pt[i] |= byte(r.IntN(6)) // the protocol
			}
			if r.IntN(16) == 0 { // only the low nibbles mean something
				so[i] |= byte(r.IntN(16) << 4)
				si[i] |= byte(r.IntN(16) << 4)
			}
			if pt[i]&0x80 == 0 {
				so[i] = gen.Byte(r) // means nothing
			}
			if pt[i]&0x40 == 0 {
				si[i] = gen.Byte(r)
			}
			if i >= n {
				pt[i] = gen.Byte(r) // not a port at all
			}
		}
		if k := r.IntN(8); k == 0 { // more ports than there are
			for i := n; i < 4; i++ {
				pt[i] &= 0x3f
			}
			n = []int{4, 5, 255, 256, 0x400, 0xffff}[r.IntN(6)]
		} else if k == 1 && n < 4 {
			pt[n] &= 0x3f
			n++
		}
	}
	for k, x := range map[string]any{
		"IPAddress": []byte(d.ip.To4()), "NetSwitch": uint64(d.net), "SubSwitch": uint64(d.sub), "NumPorts": uint64(n),
		"PortTypes": pt, "SwIn": si, "SwOut": so, "Style": uint64(d.style), "BindIndex": uint64(d.bind), "ShortName": name,
	} {
		v[k] = x
	}
	b := wire.PollReply.Encode(v)
	if !plain {
		if r.IntN(3) == 0 {
			b[14], b[15] = b[15], b[14] // some devices have the port the wrong way round
		}
		for i := 213; i < 239 && r.IntN(8) > 0; i++ {
			b[i] = gen.Byte(r)
		}
		if r.IntN(6) == 0 {
			b = append(b, gen.Bytes(r, 1+r.IntN(100))...)
		}
	}
	return b
}

// source is where an announcement of d comes from: mostly from d itself.
func (s *sim) source(d *device) net.UDPAddr {
	from := net.UDPAddr{IP: d.ip, Port: wire.Port}
	switch s.IntN(10) {
	case 0: // another interface of it
		from = s.foreign()
	case 1:
		from.Port = 1 + s.IntN(65535)
	}
	if d.ip.Equal(hostIP) { // it is not the controller itself that speaks
		from = s.foreign()
	}
	return from
}

// announce sends the device's announcement to the controller's socket.
func (s *sim) announce(c *verifnet.UDPConn, d *device) {
	s.logf("announce %s out %v in %v (%d:%d)", d.key(), d.out, d.in, d.net, d.sub)
	d.last = d.reply(s.Rand)
	c.Inject(s.source(d), d.last)
	s.near.hears(d.last)
}

// announced is the configuration the device announced last.
func (d *device) announced() artnet.NodeConfig {
	var p packet.ArtPollReplyPacket
	if err := p.UnmarshalBinary(d.last); err != nil {
		panic(err)
	}
	return artnet.ConfigFromArtPollReply(p)
}

// theConn is the only open socket.
func (s *sim) theConn() *verifnet.UDPConn {
	o := s.w.Open()
	if len(o) != 1 {
		s.Fail("%d sockets are open instead of one", len(o))
	}
	return o[0]
}

// node makes a node with a random configuration.
func (s *sim) node(loud bool, opts ...artnet.NodeOption) (*artnet.Node, artnet.NodeConfig) {
	cfg := ref.RandConfig(s.Rand)
	cfg.IP = hostIP
	var where []artnet.NodeOption
	switch s.IntN(12) {
	case 0:
		where = append(where, artnet.NodeListenAddress(net.UDPAddr{Port: 1 + s.IntN(65535)}))
	case 1:
		where = append(where, artnet.NodeListenAddress(net.UDPAddr{IP: hostIP, Port: 1 + s.IntN(65535)}))
	case 2:
		where = append(where, artnet.NodeListenIP(net.IPv4zero))
	}
	n := artnet.NewNode(cfg.Name, cfg.Type, hostIP, logger(loud), append(where, opts...)...)
	n.Config = cfg
	return n, cfg
}

// isReply tells whether a sent datagram is exactly the announcement of cfg.
func isReply(cfg artnet.NodeConfig, b []byte) string {
	want := wire.PollReply.Encode(ref.Announced(cfg))
	if bytes.Equal(want, b) {
		return ""
	}
	if v, t, why := wire.Judge(b); v != wire.Accept || t != wire.PollReply {
		return fmt.Sprintf("not a well-formed poll reply (%s): % x", why, b[:min(len(b), 40)])
	}
	if len(b) != len(want) {
		return fmt.Sprintf("the reply has %d bytes instead of %d", len(b), len(want))
	}
	return "the reply does not announce the configuration: " + wire.Diff(wire.PollReply.Decode(want), wire.PollReply.Decode(b))
}

func sameAddr(a, b net.UDPAddr) bool { return a.IP.Equal(b.IP) && a.Port == b.Port }

// contCfg is the configuration a controller announces.
func contCfg(name string, ip net.IP) artnet.NodeConfig {
	return artnet.NodeConfig{Name: name, Type: code.StController, IP: ip}
}

// isPoll tells whether a sent datagram is a valid ArtPoll.
func isPoll(b []byte) bool {
	v, t, _ := wire.Judge(b)
	return v == wire.Accept && t == wire.Poll && len(b) == 14
}

// frame returns the frame interval of a maximum frame rate.
func frame(fps int) time.Duration { return time.Second / time.Duration(fps) }

// offTick waits until no tick of the given period (counted from start) is now.
func offTick(start time.Time, periods ...time.Duration) {
	for again := true; again; {
		again = false
		for _, p := range periods {
			if time.Since(start)%p == 0 {
				time.Sleep(1)
				again = true
			}
		}
	}
}

func addrs(m map[artnet.Address]string) string {
	var out []string
	for a, k := range m {
		out = append(out, fmt.Sprintf("%v->%s", a, k))
	}
	return strings.Join(out, " ")
}

// locked is a generator for concurrent use.
type locked struct {
	mu sync.Mutex
	r  *rand.Rand
}

func newLocked(s *sim) *locked { return &locked{r: rand.New(rand.NewPCG(s.Uint64(), s.Uint64()))} }

func (l *locked) IntN(n int) int { l.mu.Lock(); defer l.mu.Unlock(); return l.r.IntN(n) }

func (l *locked) Int64N(n int64) int64 { l.mu.Lock(); defer l.mu.Unlock(); return l.r.Int64N(n) }
