package system

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/gen"
	"verif/verifnet"
	"verif/wire"
)

type timeout struct{}

func (timeout) Error() string   { return "i/o timeout" }
func (timeout) Timeout() bool   { return true }
func (timeout) Temporary() bool { return true }

var netErrs = []error{syscall.ECONNREFUSED, syscall.ENETUNREACH, syscall.EHOSTUNREACH, syscall.ENOBUFS, syscall.EPERM, syscall.EMSGSIZE,
	syscall.EINTR, syscall.EAGAIN, syscall.ENETDOWN, syscall.EIO, os.ErrDeadlineExceeded, timeout{}, errors.New("strange error")}

// control is a running controller.
type control struct {
	*artnet.Controller
	conn  *verifnet.UDPConn
	fps   int
	frame time.Duration
	start time.Time
	from  int // the trace's length at the start
	bc    net.UDPAddr
}

// controller makes and starts a controller.
func (s *sim) controller(fps int, loud bool, opts ...artnet.Option) *control {
	where, bc := s.elsewhere()
	opts = append(append(where, opts...), artnet.MaxFPS(fps))
	c := &control{bc: bc, Controller: artnet.NewController("ctl", hostIP, logger(loud), opts...), fps: fps, frame: frame(fps)}
	if s.chance(2) { // at any instant
		time.Sleep(s.dur(3 * time.Second))
	}
	if s.chance(4) { // not its first run
		s.run(c)
		for k := s.IntN(3); k > 0; k-- {
			d := &device{ip: net.IP{10, 9, 9, byte(k)}, bind: uint8(k), net: uint8(s.IntN(128)), sub: uint8(s.IntN(16)), out: s.pick(s.IntN(5), 16), in: s.pick(s.IntN(5), 16), name: "past"}
			s.announce(c.conn, d)
			if s.chance(2) {
				synctest.Wait()
				c.SendDMXToAddress([512]byte{1, 2, 3}, d.addr(uint8(s.IntN(16))))
			}
		}
		time.Sleep(s.dur(5 * time.Second))
		c.Stop()
		synctest.Wait()
		s.logf("stopped")
	}
	s.run(c)
	return c
}

// elsewhere are options for other addresses and ports than the default ones, and the
// broadcast address in force with them.
func (s *sim) elsewhere() (opts []artnet.Option, bc net.UDPAddr) {
	bc = defBroadcast
	if s.chance(4) {
		bc = net.UDPAddr{IP: net.IP{10, byte(s.IntN(256)), 255, 255}, Port: 1 + s.IntN(65535)}
		opts = append(opts, artnet.BroadcastAddr(bc))
	}
	switch s.IntN(8) {
	case 0:
		opts = append(opts, artnet.ListenAddress(net.UDPAddr{Port: 1 + s.IntN(65535)}))
	case 1:
		opts = append(opts, artnet.ListenAddress(net.UDPAddr{IP: hostIP, Port: 1 + s.IntN(65535)}))
	case 2:
		opts = append(opts, artnet.ListenIP([]net.IP{hostIP, net.IPv4zero}[s.IntN(2)]))
	}
	return
}

// run starts a controller.
func (s *sim) run(c *control) {
	c.from, c.start = s.w.NumEvents(), time.Now()
	if err := c.Start(); err != nil {
		s.Inconclusive("Start: %v", err)
	}
	c.conn = s.theConn()
	s.logf("controller started, %d frames a second", c.fps)
}

// off waits until neither a frame nor a poll tick is due at this instant.
func (c *control) off() { offTick(c.start, c.frame, 3*time.Second) }

// tables lists the controller's public tables, when nothing runs.
func tables(c *artnet.Controller) (nodes []string, out, in map[artnet.Address]string) {
	k := func(n *artnet.ControlledNode) string {
		if n == nil {
			return "nil"
		}
		return fmt.Sprintf("%v/%d", n.Node.IP, n.Node.BindIndex)
	}
	for _, n := range c.Nodes {
		nodes = append(nodes, k(n))
	}
	sort.Strings(nodes)
	out, in = map[artnet.Address]string{}, map[artnet.Address]string{}
	for a, n := range c.OutputAddress {
		out[a] = k(n)
	}
	for a, n := range c.InputAddress {
		in[a] = k(n)
	}
	return
}

// nasty makes a hostile datagram.
func (s *sim) nasty() []byte {
	switch s.IntN(10) {
	case 0:
		return nil
	case 1:
		b := make([]byte, []int{4095, 4096, 4097, 8192, 65507}[s.IntN(5)])
		if s.chance(2) {
			copy(b, gen.Valid(s.Rand, wire.Types[s.IntN(len(wire.Types))]))
		}
		return b
	case 2: // announcements with wild contents
		b := gen.Valid(s.Rand, wire.PollReply)
		for k := s.IntN(6); k > 0; k-- {
			b[172+s.IntN(30)] = gen.Byte(s.Rand)
		}
		return b
	}
	b, _ := gen.Input(s.Rand)
	return b
}

// TestC14: hostile traffic and network errors never stop a node or controller.
func TestC14(t *testing.T) {
	r := begin(t, "C14")
	cases(t, r, r.Scale(7000, 80000), "disturbances", func(s *sim) {
		flooded := false
		s.neighbour(8, s.chance(2))
		isNode := s.chance(2)
		loud := s.chance(4)
		var node *artnet.Node
		var ctl *control
		var conn *verifnet.UDPConn
		var cfg artnet.NodeConfig
		var syncs, other atomic.Int64
		if isNode {
			node, cfg = s.node(loud)
			node.RegisterCallback(code.OpSync, func(packet.ArtNetPacket) { syncs.Add(1) })
			for _, ty := range wire.Types {
				if ty != wire.Sync && ty != wire.Poll && ty != wire.PollReply {
					node.RegisterCallback(code.OpCode(ty.Op), func(packet.ArtNetPacket) { other.Add(1) })
				}
			}
			if err := node.Start(); err != nil {
				s.Inconclusive("Start: %v", err)
			}
			conn = s.theConn()
		} else {
			ctl = s.controller([]int{10, 44, 100, 400}[s.IntN(4)], loud)
			conn = ctl.conn
			cfg = contCfg("ctl", hostIP)
		}
		good := &device{ip: net.IP{10, 1, 1, 1}, bind: 1, net: 3, sub: 4, out: []uint8{5}, name: "good"}
		var failing atomic.Bool
		var turn atomic.Int64
		pattern := 1 + s.IntN(4)
		werr := netErrs[s.IntN(len(netErrs))]
		var only atomic.Pointer[func(verifnet.Event) bool] // the writes that fail
		s.w.WriteFault = func(ev verifnet.Event) error {
			if f := only.Load(); f != nil && (*f)(ev) {
				return werr
			}
			if failing.Load() && turn.Add(1)%int64(pattern) == 0 {
				return werr
			}
			return nil
		}
		// toll: an error costs nothing but the datagram it was reported for
		toll := func() {
			if ctl != nil { // no poll of its own falls into what follows
				if left := 3*time.Second - time.Since(ctl.start)%(3*time.Second); left < 2500*time.Millisecond {
					time.Sleep(left + time.Millisecond)
				}
				ctl.off()
			}
			synctest.Wait()
			from, n0 := s.w.NumEvents(), syncs.Load()
			bad := map[string]bool{}
			var devs []*device
			var burst []func()
			if ctl != nil {
				for i := 1 + s.IntN(12); i > 0; i-- {
					d := &device{ip: net.IP{10, 1, 2, byte(i)}, bind: 1, net: 100 + uint8(i), sub: uint8(s.IntN(16)), out: s.pick(1+s.IntN(4), 16), name: "toll"}
					devs = append(devs, d)
					if s.chance(2) {
						bad[d.ip.String()] = true
					}
					burst = append(burst, func() { s.announce(conn, d) })
				}
			}
			every := int64(1 + s.IntN(12))
			f := func(ev verifnet.Event) bool {
				return bad[ev.To.IP.String()] || wire.Op(ev.Data) == wire.PollReply.Op && turn.Add(1)%every == 0
			}
			only.Store(&f)
			polls, calls, errs := s.IntN(50), s.IntN(20), s.IntN(20)
			for i := 0; i < polls; i++ {
				burst = append(burst, func() { conn.Inject(s.foreign(), s.poll()) })
			}
			for i := 0; i < calls; i++ {
				burst = append(burst, func() { conn.Inject(s.foreign(), gen.Valid(s.Rand, wire.Sync)) })
			}
			for i := 0; i < errs; i++ {
				burst = append(burst, func() { conn.InjectReadError(netErrs[s.IntN(len(netErrs))]) })
			}
			s.logf("%d polls, %d syncs, %d announcements, %d read errors, writes to %v and every %dth reply fail", polls, calls, len(devs), errs, bad, every)
			s.Shuffle(len(burst), func(i, j int) { burst[i], burst[j] = burst[j], burst[i] })
			for _, f := range burst {
				f()
			}
			synctest.Wait()
			s.Eval(1)
			s.Count("read errors", errs)
			s.Count("tolls taken", 1)
			time.Sleep(300 * time.Millisecond)
			synctest.Wait()
			if ctl != nil {
				ctl.off()
				_, o, _ := tables(ctl.Controller)
				var frm [512]byte
				for i := range frm {
					frm[i] = byte(s.Uint32())
				}
				for _, d := range devs {
					for _, u := range d.out {
						if o[d.addr(u)] != d.key() {
							s.Fail("%s announced itself between read errors, but universe %v is routed to %q", d.key(), d.addr(u), o[d.addr(u)])
						}
						ctl.SendDMXToAddress(frm, d.addr(u))
					}
				}
				time.Sleep(ctl.frame)
				synctest.Wait()
				got := map[artnet.Address]bool{}
				for _, ev := range s.w.Events(from) {
					if x, why := parseDMX(ev); why == "" && !ev.Failed && x.data == frm {
						got[x.uni] = true
					}
				}
				for _, d := range devs {
					for _, u := range d.out {
						if !bad[d.ip.String()] && !got[d.addr(u)] {
							s.Fail("writes to others fail, but universe %v of %s is not sent within a frame either", d.addr(u), d.key())
						}
					}
				}
			}
			time.Sleep(1500*time.Millisecond - time.Millisecond)
			synctest.Wait()
			only.Store(nil)
			sent, failed := 0, 0
			for _, ev := range s.w.Events(from) {
				if wire.Op(ev.Data) == wire.PollReply.Op {
					if ev.Failed {
						failed++
					} else {
						sent++
					}
				}
			}
			if sent > polls || sent < polls-failed {
				s.Fail("%d polls, %d replies failed to be written, %d were sent", polls, failed, sent)
			}
			if node != nil && syncs.Load() != n0+int64(calls) {
				s.Fail("%d callbacks for %d packets between read errors", syncs.Load()-n0, calls)
			}
		}
		serve := func() {
			s.Eval(1)
			s.Count("service probes", 1)
			from := s.w.NumEvents()
			n0 := syncs.Load()
			if ctl != nil {
				s.announce(conn, good)
			}
			conn.Inject(s.foreign(), s.poll())
			conn.Inject(s.foreign(), gen.Valid(s.Rand, wire.Sync))
			synctest.Wait()
			var frm [512]byte
			if ctl != nil {
				for i := range frm {
					frm[i] = byte(s.Uint32())
				}
				ctl.off()
				ctl.SendDMXToAddress(frm, good.addr(5))
				time.Sleep(ctl.frame)
				synctest.Wait()
				ok := false
				for _, ev := range s.w.Events(from) {
					if d, why := parseDMX(ev); why == "" && sameAddr(ev.To, net.UDPAddr{IP: good.ip, Port: wire.Port}) && d.uni == good.addr(5) && d.data == frm {
						ok = true
					}
				}
				if !ok {
					s.Fail("after the disturbance DMX to a freshly announced node is not sent within a frame")
				}
				time.Sleep(3*time.Second + time.Millisecond)
			} else {
				time.Sleep(2900 * time.Millisecond)
			}
			synctest.Wait()
			polls, replies := 0, 0
			for _, ev := range s.w.Events(from) {
				if isPoll(ev.Data) {
					polls++
				}
				if wire.Op(ev.Data) == wire.PollReply.Op {
					replies++
					if why := isReply(cfg, ev.Data); why != "" {
						s.Fail("after the disturbance: %s", why)
					}
				}
			}
			if ctl != nil && polls == 0 {
				s.Fail("the controller stopped polling")
			}
			if replies != 1+polls {
				s.Fail("after the disturbance a poll got no proper answer: %d replies for 1 poll and %d own ones", replies, polls)
			}
			if node != nil && syncs.Load() != n0+1 {
				s.Fail("after the disturbance a packet invoked its callback %d times", syncs.Load()-n0)
			}
		}
		sig := ""
		for round := 1 + s.IntN(3); round > 0; round-- {
			synctest.Wait()
			// refused datagrams have no effect
			if s.chance(2) {
				from, o0, s0 := s.w.NumEvents(), other.Load(), syncs.Load()
				var n1 []string
				var o1, i1 map[artnet.Address]string
				if ctl != nil {
					n1, o1, i1 = tables(ctl.Controller)
				}
				k := 1 + s.IntN(30)
				for i := 0; i < k; i++ {
					b, class := s.refused()
					s.logf("refused: %s", class)
					conn.Inject(s.foreign(), b)
				}
				synctest.Wait()
				s.Eval(1)
				s.Count("refused datagrams", k)
				if n := s.w.NumEvents(); n != from {
					s.Fail("%d refused datagrams made it send %d datagrams", k, n-from)
				}
				if other.Load() != o0 || syncs.Load() != s0 {
					s.Fail("refused datagrams invoked a callback")
				}
				if ctl != nil {
					n2, o2, i2 := tables(ctl.Controller)
					if fmt.Sprint(n1, o1, i1) != fmt.Sprint(n2, o2, i2) {
						s.Fail("refused datagrams changed the tables: %v %v %v became %v %v %v", n1, o1, i1, n2, o2, i2)
					}
				}
				sig += "r"
			}
			if s.chance(2) {
				failing.Store(true)
				sig += "w"
			}
			for step := 1 + s.IntN(40); step > 0; step-- {
				switch s.IntN(6) {
				case 0:
					k := 1 + s.IntN(4)
					if s.chance(60) {
						k = 50 + s.IntN(400)
					}
					if s.no%400 == 9 && !flooded { // more than sixteen bits count, all at once
						flooded, k = true, 66000
					}
					s.logf("%d read errors", k)
					s.Count("read errors", k)
					for ; k > 0; k-- {
						conn.InjectReadError(netErrs[s.IntN(len(netErrs))])
					}
					sig += "e"
				case 1:
					time.Sleep(s.dur(500 * time.Millisecond))
				case 2:
					k := 1
					if s.chance(40) {
						k = 50 + s.IntN(400)
					}
					for ; k > 0; k-- {
						conn.Inject(s.foreign(), s.poll())
					}
				default:
					if s.chance(400) { // a flood
						for k := 200 + s.IntN(1500); k > 0; k-- {
							conn.Inject(s.foreign(), s.nasty())
							s.Count("hostile datagrams", 1)
						}
						sig += "F"
					}
					b := s.nasty()
					src := s.foreign()
					switch s.IntN(6) {
					case 0:
						src = s.own(hostIP)
					case 1:
						src = net.UDPAddr{IP: net.IP{0, 0, 0, 0}}
					}
					s.logf("from %v: %d bytes %x", &src, len(b), b[:min(len(b), 24)])
					conn.Inject(src, b)
					s.Count("hostile datagrams", 1)
				}
			}
			synctest.Wait()
			if failing.Load() {
				time.Sleep(s.dur(4 * time.Second))
				if s.chance(10) {
					time.Sleep(s.dur(200 * time.Second))
				}
				synctest.Wait()
			}
			failing.Store(false)
			if s.chance(3) {
				toll()
				sig += "t"
			}
			sig += "."
			serve()
		}
		for _, ev := range s.w.Events(0) {
			if ev.Failed {
				s.Count("failed writes", 1)
			}
		}
		s.Seen("%v %s %d %v", isNode, sig, pattern, werr)
		if s.WantSample() {
			s.Sample(map[string]any{"node": isNode, "rounds (r refused, e read error, w write errors, . probe)": sig, "write error": fmt.Sprint(werr)})
		}
		if isNode {
			node.Stop()
		} else {
			ctl.Stop()
		}
	})
}

// gosched lets others run for a while, without time passing.
func (s *sim) gosched() {
	for k := s.IntN(60); k > 0; k-- {
		runtime.Gosched()
	}
}

// stops calls Stop from k goroutines and returns when all have returned.
func stops(it startable, k int) {
	if k == 1 {
		it.Stop()
		return
	}
	var wg sync.WaitGroup
	for ; k > 0; k-- {
		wg.Add(1)
		go func() { defer wg.Done(); it.Stop() }()
	}
	wg.Wait()
}

// silent checks that a stopped thing is gone, once nothing is under way.
func (s *sim) silent(what string, old *verifnet.UDPConn, listen net.UDPAddr) {
	s.Eval(1)
	if n := len(s.w.Open()); n != 0 {
		s.Fail("%s: %d sockets are open after Stop", what, n)
	}
	if g := library(); len(g) > 0 {
		s.FailStacks(g[0], "%s: %d goroutines of the library remain after Stop, for example\n%s", what, len(g), g[0])
	}
	n := s.w.NumEvents()
	reads := old.Reads()
	c, err := verifnet.ListenUDP("udp4", &listen)
	if err != nil {
		s.Fail("%s: the port is not free after Stop: %v", what, err)
	}
	for k := 0; k < 12; k++ {
		c.Inject(s.foreign(), s.poll())
		old.Inject(s.foreign(), s.poll())
	}
	time.Sleep(11 * time.Second)
	synctest.Wait()
	c.Close()
	if m := s.w.NumEvents(); m != n {
		s.Fail("%s: %d datagrams sent after Stop", what, m-n)
	}
	if old.Reads() != reads || c.Reads() != 0 {
		s.Fail("%s: datagrams read after Stop", what)
	}
}

// TestC15: stopping a node silences it and releases everything.
func TestC15(t *testing.T) {
	r := begin(t, "C15")
	cases(t, r, r.Scale(12000, 120000), "stops", func(s *sim) {
		listen := net.UDPAddr{Port: wire.Port}
		n, cfg := s.node(s.chance(8), artnet.NodeListenAddress(listen))
		var calls atomic.Int64
		release := make(chan struct{})
		slow := time.Duration(0)
		if s.chance(2) {
			slow = s.dur(2 * time.Second)
		}
		stopper := s.chance(5)
		blocks := s.chance(3)
		started := map[uint16]*atomic.Int64{}
		for _, ty := range wire.Types {
			if ty == wire.Poll || ty == wire.PollReply && s.chance(2) {
				continue
			}
			ty := ty
			started[ty.Op] = new(atomic.Int64)
			rel := release
			n.RegisterCallback(code.OpCode(ty.Op), func(packet.ArtNetPacket) {
				calls.Add(1)
				started[ty.Op].Add(1)
				switch {
				case stopper && ty == wire.Sync:
					n.Stop()
				case blocks && ty == wire.TimeCode:
					<-rel
				case slow > 0:
					time.Sleep(slow)
				}
			})
		}
		early := s.IntN(3)
		for k := 0; k < early; k++ {
			n.Stop() // before any start
		}
		if err := n.Start(); err != nil {
			s.Fail("Start after %d early stops: %v", early, err)
		}
		synctest.Wait()
		idle := len(library())
		sig := fmt.Sprintf("early%d", early)
		// starts and stops in a row, without anything under way
		lives := s.IntN(4)
		if s.chance(30) {
			lives = 10 + s.IntN(30)
		}
		for k := lives; k > 0; k-- {
			n.Stop()
			if s.chance(2) {
				n.Stop()
			}
			if err := n.Start(); err != nil {
				s.Fail("Start right after Stop: %v", err)
			}
			if s.chance(2) {
				synctest.Wait()
			}
			sig += "R"
		}
		synctest.Wait()
		if g := library(); len(g) != idle {
			s.FailStacks(fmt.Sprint(g), "%d goroutines after restarts instead of %d", len(g), idle)
		}
		conn := s.theConn()
		held := false
		for step := s.IntN(8); step > 0; step-- {
			switch s.IntN(6) {
			case 0:
				s.w.HoldWrites()
				held = true
				sig += "h"
			case 1, 2:
				k := 1 + s.IntN(50)
				for i := 0; i < k; i++ {
					conn.Inject(s.foreign(), s.poll())
				}
				sig += fmt.Sprintf("p%d", k/8)
			case 3, 4:
				for k := 1 + s.IntN(30); k > 0; k-- {
					conn.Inject(s.foreign(), gen.Valid(s.Rand, wire.Types[s.IntN(len(wire.Types))]))
				}
				sig += "t"
			case 5:
				time.Sleep(s.dur(time.Second))
				sig += "s"
			}
			if s.chance(3) {
				synctest.Wait()
			}
			s.gosched()
		}
		by := 1 + s.IntN(3)
		s.logf("stop by %d, writes held %v", by, held)
		stops(n, by)
		sig += fmt.Sprintf("S%d", by)
		close(release)
		if s.chance(2) {
			n.Stop()
		}
		// the calls under way end
		time.Sleep(3 * time.Second)
		synctest.Wait()
		before := calls.Load()
		s.silent("node", conn, listen)
		if calls.Load() != before {
			s.Fail("%d callbacks invoked after Stop", calls.Load()-before)
		}
		s.w.ReleaseWrites()
		// a new life
		stopper, blocks, slow = false, false, 0
		from := s.w.NumEvents()
		if err := n.Start(); err != nil {
			s.Fail("Start after Stop: %v", err)
		}
		time.Sleep(s.dur(3 * time.Second))
		synctest.Wait()
		if m := s.w.NumEvents(); m != from {
			s.Fail("the restarted node sent %d datagrams nobody asked for", m-from)
		}
		if calls.Load() != before {
			s.Fail("the restarted node invoked callbacks for old datagrams")
		}
		if g := library(); len(g) != idle {
			s.FailStacks(fmt.Sprint(g), "%d goroutines in the restarted node instead of %d", len(g), idle)
		}
		conn = s.theConn()
		conn.Inject(s.foreign(), s.poll())
		conn.Inject(s.foreign(), gen.Valid(s.Rand, wire.Trigger))
		time.Sleep(2900 * time.Millisecond)
		synctest.Wait()
		evs := s.w.Events(from)
		if len(evs) != 1 {
			s.Fail("the restarted node answered one poll with %d datagrams", len(evs))
		}
		if why := isReply(cfg, evs[0].Data); why != "" {
			s.Fail("the restarted node: %s", why)
		}
		if calls.Load() != before+1 {
			s.Fail("the restarted node invoked %d callbacks for one packet", calls.Load()-before)
		}
		s.Count("stops", by)
		s.Count("callbacks", int(calls.Load()))
		s.Count("replies", s.w.NumEvents())
		s.Seen("%s %v %v", sig, stopper, blocks)
		if s.WantSample() {
			s.Sample(map[string]any{"history": sig, "writes held": held, "stops": by})
		}
		n.Stop()
	})
}

// TestC16: stopping a controller always completes, under any load.
func TestC16(t *testing.T) {
	r := begin(t, "C16")
	cases(t, r, r.Scale(7000, 80000), "controller stops", func(s *sim) {
		listen := net.UDPAddr{Port: wire.Port}
		fps := []int{5, 44, 100, 1000}[s.IntN(4)]
		c := &control{Controller: artnet.NewController("ctl", hostIP, logger(s.chance(8)), artnet.MaxFPS(fps)), fps: fps, frame: frame(fps)}
		// a device nobody knows until the last run
		late := &device{ip: net.IP{10, 2, 1, 1}, bind: 1, net: 120, sub: uint8(s.IntN(16)), out: []uint8{0, 1, 2, 3}, name: "late"}
		whisper := func() { // to a controller that does not run
			for k := s.IntN(3); k > 0; k-- {
				var f [512]byte
				f[s.IntN(512)] = byte(1 + s.IntN(255))
				c.SendDMXToAddress(f, late.addr(uint8(s.IntN(4))))
				s.Count("sends while not running", 1)
			}
		}
		early := s.IntN(3)
		for k := 0; k < early; k++ {
			c.Stop()
		}
		whisper()
		fails := s.IntN(2)
		for k := 0; k < fails; k++ {
			s.w.ListenFault = func(net.UDPAddr) error { return syscall.EADDRINUSE }
			if err := c.Start(); err == nil {
				s.Fail("Start succeeded although the address is in use")
			}
			for j := s.IntN(3); j > 0; j-- {
				c.Stop()
			}
			s.w.ListenFault = nil
			whisper()
		}
		s.run(c)
		synctest.Wait()
		idle := len(library())
		sig := fmt.Sprintf("e%df%d", early, fails)
		lives := s.IntN(3)
		if s.chance(30) {
			lives = 10 + s.IntN(20)
		}
		for k := lives; k > 0; k-- {
			c.Stop()
			whisper()
			s.run(c)
			sig += "R"
		}
		synctest.Wait()
		if g := library(); len(g) != idle {
			s.FailStacks(fmt.Sprint(g), "%d goroutines after restarts instead of %d", len(g), idle)
		}
		conn := c.conn
		// devices with many universes
		var devs []*device
		nd := 1 + s.IntN(10)
		if s.chance(20) {
			nd = 20 + s.IntN(60)
		}
		for i := 0; i < nd; i++ {
			devs = append(devs, &device{ip: net.IP{10, 2, 0, byte(i + 1)}, bind: 1, net: uint8(i), sub: uint8(s.IntN(16)), out: []uint8{0, 1, 2, 3}, in: []uint8{1, 2}, name: "d"})
		}
		frm := [512]byte{}
		send := func() {
			d := devs[s.IntN(len(devs))]
			frm[s.IntN(512)] = byte(s.Uint32())
			c.SendDMXToAddress(frm, d.addr(d.out[s.IntN(len(d.out))]))
		}
		for _, d := range devs {
			s.announce(conn, d)
		}
		synctest.Wait()
		time.Sleep(s.dur(2 * time.Second))
		synctest.Wait()
		held := s.IntN(3) > 0
		if held {
			for k := s.IntN(80); k > 0; k-- {
				send()
			}
			s.w.HoldWrites()
			sig += "h"
			switch s.IntN(3) {
			case 0: // everything that can fill up fills up
				time.Sleep(s.dur(4 * time.Second))
				sig += "F"
			case 1:
				for k := s.IntN(60); k > 0; k-- {
					conn.Inject(s.foreign(), s.poll())
				}
				time.Sleep(s.dur(time.Second))
				sig += "P"
			}
			if s.chance(2) {
				for k := s.IntN(40); k > 0; k-- {
					d := devs[s.IntN(len(devs))]
					conn.Inject(s.source(d), d.reply(s.Rand))
				}
			}
		}
		// callers that send concurrently; with the network blocked they may wait for
		// a lock, so from here to the end of Stop no virtual time may be needed
		var wg sync.WaitGroup
		callers := s.IntN(5)
		var stop atomic.Bool
		for k := 0; k < callers; k++ {
			wg.Add(1)
			a := devs[s.IntN(len(devs))].addr(uint8(s.IntN(4)))
			val := byte(s.Uint32())
			n := 5 + s.IntN(40)
			go func() {
				defer wg.Done()
				var f [512]byte
				for i := 0; i < n && !stop.Load(); i++ {
					f[i] = val
					c.SendDMXToAddress(f, a)
					runtime.Gosched()
				}
			}()
		}
		if !held && s.chance(2) {
			time.Sleep(s.dur(3 * c.frame))
		}
		s.gosched()
		by := 1 + s.IntN(3)
		s.logf("stop by %d; writes held %v, %d devices, %d callers", by, held, nd, callers)
		stops(c, by)
		s.Count("stops", by)
		// sends to a stopped controller return
		for k := 0; k < 3; k++ {
			send()
		}
		stop.Store(true)
		wg.Wait()
		if s.chance(2) {
			c.Stop()
		}
		synctest.Wait()
		s.silent("controller", conn, listen)
		send()
		whisper()
		s.w.ReleaseWrites()
		synctest.Wait()
		// a new life
		from := s.w.NumEvents()
		s.run(c)
		synctest.Wait()
		if g := library(); len(g) != idle {
			s.FailStacks(fmt.Sprint(g), "%d goroutines in the restarted controller instead of %d", len(g), idle)
		}
		if nodes, out, in := tables(c.Controller); len(nodes)+len(out)+len(in) > 0 {
			s.Fail("the restarted controller knows nodes of the previous run: %v %v %v", nodes, out, in)
		}
		d := devs[s.IntN(len(devs))]
		s.announce(c.conn, d)
		s.announce(c.conn, late)
		synctest.Wait()
		c.off()
		frm[7] = 99
		c.SendDMXToAddress(frm, d.addr(2))
		time.Sleep(time.Second)
		synctest.Wait()
		polls, got := 0, map[artnet.Address]int{}
		met := map[string]bool{}
		for _, ev := range s.w.Events(from) {
			if isPoll(ev.Data) {
				polls++
			}
			if wire.Op(ev.Data) != wire.DMX.Op {
				continue
			}
			x, why := parseDMX(ev)
			to := d.ip
			if x.uni.Net == late.net {
				to = late.ip
			}
			if why != "" || !sameAddr(ev.To, net.UDPAddr{IP: to, Port: wire.Port}) {
				s.Fail("restarted controller: %s, to %v", why, &ev.To)
			}
			if !met[to.String()] && x.seq != 1 {
				s.Fail("the restarted controller goes on with sequence number %d", x.seq)
			}
			met[to.String()] = true
			want := [512]byte{}
			if x.uni == d.addr(2) {
				want = frm
			}
			if !bytes.Equal(x.data[:], want[:]) && x.data != [512]byte{} {
				s.Fail("the restarted controller sends data of the previous run")
			}
			if x.uni == d.addr(2) && x.data == frm {
				got[x.uni]++
			} else {
				got[x.uni] += 0
			}
		}
		if polls != 1 || len(got) != 8 || got[d.addr(2)] == 0 {
			s.Fail("the restarted controller does not work: %d polls, universes served %v", polls, got)
		}
		s.Seen("%s %d %v %d %d %d", sig, nd, held, callers, by, fps)
		if s.WantSample() {
			s.Sample(map[string]any{"history": sig, "devices": nd, "universes": 4 * nd, "writes held": held, "concurrent callers": callers, "stops": by})
		}
		c.Stop()
	})
}
