package system

import (
	"errors"
	"fmt"
	"net"
	"os"
	"reflect"
	"sort"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/gen"
	"verif/ref"
	"verif/verifnet"
	"verif/wire"
)

// spoil makes a configuration that cannot be announced and says why.
func (s *sim) spoil(c *artnet.NodeConfig) string {
	switch s.IntN(3) {
	case 0:
		for len(c.InputPorts) < 5+s.IntN(4) {
			c.InputPorts = append(c.InputPorts, artnet.InputPort{})
		}
		if s.chance(2) {
			c.OutputPorts = nil
		}
		return fmt.Sprintf("%d inputs", len(c.InputPorts))
	case 1:
		for len(c.OutputPorts) < 5+s.IntN(4) {
			c.OutputPorts = append(c.OutputPorts, artnet.OutputPort{})
		}
		if s.chance(2) {
			c.InputPorts = nil
		}
		return fmt.Sprintf("%d outputs", len(c.OutputPorts))
	}
	i := s.IntN(4)
	for len(c.InputPorts) <= i {
		c.InputPorts = append(c.InputPorts, artnet.InputPort{})
	}
	for len(c.OutputPorts) <= i {
		c.OutputPorts = append(c.OutputPorts, artnet.OutputPort{})
	}
	a := s.IntN(6)
	b := (a + 1 + s.IntN(5)) % 6
	if s.chance(3) { // one that does not exist
		b = 6 + s.IntN(26)
		if s.chance(2) {
			a, b = b, a
		}
	}
	c.InputPorts[i].Type = code.PortType(a | s.IntN(4)<<6)
	c.OutputPorts[i].Type = code.PortType(b | s.IntN(4)<<6)
	return fmt.Sprintf("port %d is %d in, %d out", i, a, b)
}

// fixTypes makes the types of ports added above consistent again.
func announceable(c artnet.NodeConfig) bool {
	if len(c.InputPorts) > 4 || len(c.OutputPorts) > 4 {
		return false
	}
	for i := range c.InputPorts {
		if i < len(c.OutputPorts) && c.InputPorts[i].Type&0x3f != c.OutputPorts[i].Type&0x3f {
			return false
		}
	}
	return true
}

// startable is a node or a controller.
type startable interface {
	Start() error
	Stop()
}

// TestC11: starting reports success exactly when the node is running.
func TestC11(t *testing.T) {
	r := begin(t, "C11")
	errs := []error{syscall.EADDRINUSE, syscall.EADDRNOTAVAIL, syscall.EACCES, os.ErrPermission, syscall.EMFILE, syscall.EAGAIN, timeout{}, errors.New("no network")}
	cases(t, r, r.Scale(12000, 120000), "starts", func(s *sim) {
		isNode := s.IntN(3) > 0
		loud := s.chance(4)
		listen := net.UDPAddr{Port: wire.Port}
		if s.chance(2) {
			listen = net.UDPAddr{IP: net.IP{10, 0, 0, 1}, Port: 1024 + s.IntN(60000)}
		}
		var node *artnet.Node
		var cfg artnet.NodeConfig
		var it startable
		if isNode {
			node, cfg = s.node(loud, artnet.NodeListenAddress(listen))
			it = node
		} else {
			cfg = contCfg("controller", hostIP)
			it = artnet.NewController("controller", hostIP, logger(loud), artnet.ListenAddress(listen))
		}
		var mu sync.Mutex
		called := map[int]int{}
		reg := 0 // the registration in force
		var fault error
		narrow := false // only the configured address fails
		s.w.ListenFault = func(a net.UDPAddr) error {
			if narrow && (a.Port != listen.Port || !sameIP(a.IP, listen.IP)) {
				return nil
			}
			return fault
		}
		var squatter *verifnet.UDPConn
		running := false
		sig := ""
		for step := 4 + s.IntN(10); step > 0; step-- {
			op := s.IntN(8)
			if running {
				op = s.IntN(4) + 5
			}
			switch op {
			case 0: // a new configuration
				if !isNode {
					continue
				}
				cfg = ref.RandConfig(s.Rand)
				cfg.IP = hostIP
				what := "valid"
				if s.chance(2) {
					what = s.spoil(&cfg)
				}
				node.Config = cfg
				s.logf("configure: %s", what)
				sig += "c"
			case 1: // a listen fault comes or goes
				fault = nil
				if s.chance(2) {
					fault = errs[s.IntN(len(errs))]
				}
				narrow = s.chance(2)
				s.logf("listen fault: %v", fault)
				sig += "f"
			case 2: // somebody else takes or frees the port
				if squatter != nil {
					squatter.Close()
					squatter = nil
					s.logf("port freed")
				} else if fault == nil {
					var err error
					squatter, err = verifnet.ListenUDP("udp4", &listen)
					if err != nil {
						s.Inconclusive("harness: %v", err)
					}
					s.logf("port taken")
				}
				sig += "p"
			case 5: // registration
				if !isNode {
					continue
				}
				k := s.IntN(1000000) + 1
				s.logf("register %d", k)
				node.RegisterCallback(code.OpTimeCode, func(packet.ArtNetPacket) {
					mu.Lock()
					called[k]++
					mu.Unlock()
				})
				if !running {
					reg = k
				}
				sig += "r"
			case 6: // stop
				s.logf("stop")
				it.Stop()
				synctest.Wait()
				if running && len(s.w.Open()) != 0 {
					s.Fail("a socket is still open after Stop")
				}
				running = false
				sig += "s"
			case 7, 8: // serve
				if running {
					s.probe(it, node, cfg, called, &mu, reg)
				}
			default: // start
				good := announceable(cfg) && fault == nil && squatter == nil
				before, opened := s.w.NumEvents(), len(s.w.Open())
				err := it.Start()
				s.Eval(1)
				s.logf("start: %v", err)
				if good != (err == nil) {
					s.Fail("Start returned %v, expected success: %v (announceable %v, listen fault %v, port taken %v)", err, good, announceable(cfg), fault, squatter != nil)
				}
				if err == nil {
					running = true
					s.Count("successful starts", 1)
					sig += "+"
					if la := *s.theConn().LocalAddr().(*net.UDPAddr); la.Port != listen.Port || !sameIP(la.IP, listen.IP) {
						s.Fail("Start reported success, but it listens on %v instead of %v", &la, &listen)
					}
					s.probe(it, node, cfg, called, &mu, reg)
					continue
				}
				s.Count("failed starts", 1)
				sig += "-"
				synctest.Wait()
				if n := len(s.w.Open()); n != opened {
					s.Fail("a failed start left %d sockets open", n-opened)
				}
				if g := library(); len(g) > 0 {
					s.FailStacks(g[0], "a failed start left %d goroutines", len(g))
				}
				time.Sleep(7 * time.Second)
				synctest.Wait()
				if n := s.w.NumEvents(); n != before {
					s.Fail("a failed start was followed by %d datagrams", n-before)
				}
			}
		}
		s.Seen("%v %s", isNode, sig)
		if s.WantSample() {
			s.Sample(map[string]any{"node": isNode, "history (+ start, - failed start, s stop, c configure, f fault, p port, r register)": sig})
		}
		it.Stop()
		if squatter != nil {
			squatter.Close()
		}
	})
}

// sameIP compares addresses; none is the same as all zero.
func sameIP(a, b net.IP) bool {
	if len(a) == 0 || a.IsUnspecified() {
		return len(b) == 0 || b.IsUnspecified()
	}
	return a.Equal(b)
}

// probe checks that the thing serves.
func (s *sim) probe(it startable, node *artnet.Node, cfg artnet.NodeConfig, called map[int]int, mu *sync.Mutex, reg int) {
	s.Eval(1)
	s.Count("service probes", 1)
	conn := s.theConn()
	from := s.w.NumEvents()
	fresh := s.foreign()
	conn.Inject(fresh, s.poll())
	before := map[int]int{}
	if node != nil {
		mu.Lock()
		for k, v := range called {
			before[k] = v
		}
		mu.Unlock()
		conn.Inject(fresh, gen.Valid(s.Rand, wire.TimeCode))
	}
	wait := 2900 * time.Millisecond
	if node == nil {
		wait = 3100 * time.Millisecond
	}
	time.Sleep(wait)
	synctest.Wait()
	polls, replies := 0, 0
	for _, ev := range s.w.Events(from) {
		switch {
		case isPoll(ev.Data):
			polls++
		case wire.Op(ev.Data) == wire.PollReply.Op:
			replies++
			if why := isReply(cfg, ev.Data); why != "" {
				s.Fail("after a start that reported success: %s", why)
			}
		}
	}
	if node != nil {
		if replies != 1 {
			s.Fail("Start reported success but a poll got %d replies", replies)
		}
		mu.Lock()
		defer mu.Unlock()
		for k := range called {
			n := called[k] - before[k]
			if k == reg && n != 1 || k != reg && n != 0 {
				s.Fail("Start reported success; a packet invoked registration %d %d times (in force: %d)", k, n, reg)
			}
		}
		if reg != 0 && called[reg] == before[reg] {
			s.Fail("Start reported success but the callback registered before was not invoked")
		}
		return
	}
	if polls < 1 {
		s.Fail("Start reported success but the controller does not poll")
	}
	if replies < 1+polls-1 {
		s.Fail("Start reported success but a poll to the controller got no reply (%d polls of its own, %d replies)", polls, replies)
	}
}

// TestC12: every poll gets exactly one reply announcing the node.
func TestC12(t *testing.T) {
	r := begin(t, "C12")
	cases(t, r, r.Scale(12000, 120000), "polls", func(s *sim) {
		s.neighbour(8, false)
		bc := defBroadcast
		var opts []artnet.NodeOption
		if s.chance(2) {
			bc = net.UDPAddr{IP: net.IP{byte(1 + s.IntN(223)), byte(s.IntN(256)), byte(s.IntN(256)), 255}, Port: 1 + s.IntN(65535)}
			opts = append(opts, artnet.NodeBroadcastAddress(bc))
		}
		n, cfg := s.node(s.chance(6), opts...)
		for life := 1 + s.IntN(2); life > 0; life-- {
			for k := s.IntN(6) * s.IntN(2); k > 0; k-- { // callbacks for other things change nothing
				ty := wire.Types[1+s.IntN(len(wire.Types)-1)]
				pause := time.Duration(0)
				if s.chance(3) {
					pause = s.dur(2 * time.Second)
				}
				switch s.IntN(4) {
				case 0:
					s.logf("deregister %s", ty)
					n.DeregisterCallback(code.OpCode(ty.Op))
				default:
					s.logf("register %s", ty)
					n.RegisterCallback(code.OpCode(ty.Op), func(packet.ArtNetPacket) { time.Sleep(pause) })
				}
			}
			from := s.w.NumEvents()
			if err := n.Start(); err != nil {
				s.Inconclusive("Start: %v", err)
			}
			conn := s.theConn()
			want := 0
			sig := ""
			held := false
			if s.no%4000 == 7 && life == 1 { // more than sixteen bits count
				for want < 66000 {
					conn.Inject(s.foreign(), s.poll())
					want++
				}
			}
			for step := 1 + s.IntN(12); step > 0; step-- {
				switch s.IntN(8) {
				case 0, 1: // one poll
					conn.Inject(s.foreign(), s.poll())
					want++
					sig += "p"
				case 2: // a burst
					k := 2 + s.IntN(70)
					if s.chance(40) {
						k = 200 + s.IntN(900)
					}
					src := s.foreign()
					gap := []time.Duration{0, 0, 1, 1000, time.Millisecond, 5 * time.Millisecond, 100 * time.Millisecond}[s.IntN(7)]
					same := s.chance(4)
					b := s.poll()
					for i := 0; i < k; i++ {
						if s.chance(3) {
							src = s.foreign()
						}
						if !same {
							b = s.poll()
						}
						conn.Inject(src, b)
						if gap > 0 {
							time.Sleep(1 + s.dur(2*gap))
						}
					}
					want += k
					sig += fmt.Sprintf("b%d", k)
				case 3: // noise and other packets
					for k := s.IntN(20); k > 0; k-- {
						b, v, t, class := s.settled()
						if v == wire.Accept && t == wire.Poll {
							want++
						}
						s.logf("inject %s (%v)", class, v)
						conn.Inject(s.foreign(), b)
					}
					sig += "n"
				case 4: // its own datagrams come back
					for k := s.IntN(8); k > 0; k-- {
						conn.Inject(s.own(hostIP), s.poll())
					}
					sig += "o"
				case 5:
					if !held && s.chance(2) {
						s.w.HoldWrites()
						held = true
						sig += "h"
					}
				case 6:
					s.w.ReleaseWrites()
					held = false
					sig += "r"
				case 7:
					time.Sleep(s.dur(5 * time.Second))
					if s.chance(8) {
						time.Sleep(s.dur(30 * time.Hour))
					}
					sig += "t"
				}
				if s.chance(2) {
					synctest.Wait()
				}
				s.logf("%d polls so far (%s)", want, sig)
			}
			s.w.ReleaseWrites()
			time.Sleep(3 * time.Second)
			synctest.Wait()
			evs := s.w.Events(from)
			s.Eval(1)
			s.Count("polls", want)
			s.Count("replies", len(evs))
			for _, ev := range evs {
				if !sameAddr(ev.To, bc) {
					s.Fail("a datagram went to %v instead of the broadcast address %v", &ev.To, &bc)
				}
				if why := isReply(cfg, ev.Data); why != "" {
					s.Fail("%s", why)
				}
			}
			if len(evs) != want {
				s.Fail("%d polls got %d replies", want, len(evs))
			}
			if want > 0 {
				s.Seen("%s %d", sig, want)
			}
			if s.WantSample() {
				s.Sample(map[string]any{"history": sig, "polls": want, "replies": len(evs), "broadcast": bc.String()})
			}
			n.Stop()
			synctest.Wait()
			if k := s.w.NumEvents() - from; k != want {
				s.Fail("%d polls got %d replies, and the stop made it %d datagrams", want, want, k)
			}
			if s.chance(2) {
				cfg = ref.RandConfig(s.Rand)
				cfg.IP = hostIP
				n.Config = cfg
			}
		}
	})
}

// TestC13: callbacks fire exactly once per accepted packet of their opcode.
func TestC13(t *testing.T) {
	r := begin(t, "C13")
	cases(t, r, r.Scale(1400, 30000), "callbacks", func(s *sim) {
		s.neighbour(8, false)
		n, cfg := s.node(s.chance(6))
		type call struct {
			id   int
			t    *wire.Type
			what string
			p    packet.ArtNetPacket
			v    wire.Values
		}
		var mu sync.Mutex
		var calls []call
		release := make(chan struct{})
		inForce := map[uint16]int{} // opcode -> registration; absent: none
		replies := true             // the node's own poll handling is in force
		nextID := 1
		register := func(running bool) {
			ty := wire.Types[s.IntN(len(wire.Types))]
			id := nextID
			nextID++
			block := s.chance(4)
			pause := time.Duration(0)
			if s.chance(3) {
				pause = s.dur(2 * time.Second)
			}
			mutate, change := s.chance(3), s.chance(3)
			rel := release
			s.logf("register %d for %s (running %v, blocks %v, pause %v)", id, ty, running, block, pause)
			n.RegisterCallback(code.OpCode(ty.Op), func(p packet.ArtNetPacket) {
				var c call
				c.id, c.p = id, p
				c.t = typeOf(p)
				if c.t != nil {
					c.v = gen.Fields(c.t, p)
				}
				c.what = key(id, c.t, c.v)
				if change && c.t != nil { // the packet is the callback's
					scribble(c.t, p, byte(id))
					c.v = gen.Fields(c.t, p)
				}
				mu.Lock()
				calls = append(calls, c)
				mu.Unlock()
				if block {
					<-rel
				}
				if pause > 0 {
					time.Sleep(pause)
				}
				if mutate {
					n.Connection() // a call back into the library
				}
			})
			if !running {
				inForce[ty.Op] = id
				if ty == wire.Poll {
					replies = false
				}
			}
		}
		deregister := func(running bool) {
			ty := wire.Types[s.IntN(len(wire.Types))]
			s.logf("deregister %s (running %v)", ty, running)
			n.DeregisterCallback(code.OpCode(ty.Op))
			if !running {
				delete(inForce, ty.Op)
				if ty == wire.Poll {
					replies = false
				}
			}
		}
		total := 0
		for life := 1 + s.IntN(3); life > 0; life-- {
			release = make(chan struct{})
			for k := s.IntN(14); k > 0; k-- {
				if s.chance(4) {
					deregister(false)
				} else {
					register(false)
				}
			}
			mu.Lock()
			calls = nil
			mu.Unlock()
			if err := n.Start(); err != nil {
				s.Inconclusive("Start: %v", err)
			}
			conn := s.theConn()
			from := s.w.NumEvents()
			want := map[string]int{}
			wantReplies := 0
			inject := func(b []byte, class string) {
				v, ty, _ := wire.Judge(b)
				s.logf("inject %s: %v", class, v)
				conn.Inject(s.foreign(), b)
				if v == wire.Accept {
					if ty == wire.Poll && replies {
						wantReplies++
					}
					if id, ok := inForce[ty.Op]; ok {
						want[key(id, ty, ty.Decode(b))]++
						total++
					}
				}
			}
			if s.no%1000 == 7 && life == 1 { // more than sixteen bits count
				ty := wire.TimeCode
				for _, t := range wire.Types {
					if _, ok := inForce[t.Op]; ok && t.Len < 50 {
						ty = t
					}
				}
				for k := 0; k < 66000; k++ {
					inject(gen.Valid(s.Rand, ty), "valid "+ty.Name)
				}
			}
			for step := 1 + s.IntN(8); step > 0; step-- {
				switch s.IntN(8) {
				case 7: // a run of DMX, numbered in all ways
					k := 2 + s.IntN(40)
					seq, dir := byte(s.Uint32()), s.IntN(5)
					uni := [2]byte{byte(s.Uint32()), byte(s.IntN(128))}
					v := gen.Values(s.Rand, wire.DMX, false)
					for ; k > 0; k-- {
						switch dir {
						case 0:
							seq++
						case 1:
							seq--
						case 2:
							seq = byte(s.Uint32())
						case 3:
							seq = 0
						}
						if s.chance(8) {
							seq = []byte{0, 1, 127, 128, 254, 255}[s.IntN(6)]
						}
						if s.chance(4) {
							uni[0] ^= 1
						}
						if s.chance(2) {
							v["Data"] = gen.Bytes(s.Rand, 512)
						}
						v["Sequence"], v["SubUni"], v["Net"] = uint64(seq), uint64(uni[0]), uint64(uni[1])
						inject(wire.DMX.Encode(v), fmt.Sprintf("DMX %d for %v", seq, uni))
						if s.chance(6) {
							time.Sleep(s.dur(50 * time.Millisecond))
						}
					}
				case 0, 1, 2:
					k, one := s.IntN(25), -1
					if s.chance(40) { // very many of one type
						k, one = 100+s.IntN(500), s.IntN(len(wire.Types))
					}
					for ; k > 0; k-- {
						ty := wire.Types[s.IntN(len(wire.Types))]
						if one >= 0 {
							ty = wire.Types[one]
						}
						inject(gen.Valid(s.Rand, ty), "valid "+ty.Name)
					}
				case 3:
					for k := s.IntN(15); k > 0; k-- {
						b, _, _, class := s.settled()
						inject(b, class)
					}
				case 4:
					for k := s.IntN(5); k > 0; k-- {
						ty := wire.Types[s.IntN(len(wire.Types))]
						s.logf("own %s", ty.Name)
						conn.Inject(s.own(hostIP), gen.Valid(s.Rand, ty))
					}
				case 5:
					register(true)
				case 6:
					deregister(true)
				}
				if s.chance(3) {
					time.Sleep(s.dur(time.Second))
				}
				if s.chance(2) {
					// callbacks that sleep or block delay no other: with no time
					// passing, every packet has reached its callback
					synctest.Wait()
					mu.Lock()
					compareCalls(s, want, func(yield func(string)) {
						for _, c := range calls {
							yield(c.what)
						}
					})
					mu.Unlock()
				}
			}
			synctest.Wait()
			mu.Lock()
			compareCalls(s, want, func(yield func(string)) {
				for _, c := range calls {
					yield(c.what)
				}
			})
			for _, c := range calls {
				if c.t == nil {
					s.Fail("a callback got an unexpected packet %T", c.p)
				}
				if d := wire.Diff(c.v, gen.Fields(c.t, c.p)); d != "" {
					s.Fail("a packet handed to a callback changed later: %s: %s", c.t, d)
				}
			}
			s.Count("callback invocations", len(calls))
			mu.Unlock()
			if got := s.w.NumEvents() - from; got != wantReplies {
				s.Fail("%d replies instead of %d (poll handling in force: %v)", got, wantReplies, replies)
			}
			_ = cfg
			n.Stop()
			close(release)
			time.Sleep(3 * time.Second)
			synctest.Wait()
			s.Seen("%d %v %d", len(inForce), replies, len(want))
		}
		if s.WantSample() {
			s.Sample(map[string]any{"registrations": nextID - 1, "packets with a callback": total})
		}
	})
}

// scribble changes every field of a packet.
func scribble(t *wire.Type, p packet.ArtNetPacket, by byte) {
	e := reflect.ValueOf(p).Elem()
	for _, f := range t.Fields {
		x := e.FieldByName(f.Name)
		if f.Kind == wire.Bytes {
			for i := 0; i < x.Len(); i++ {
				x.Index(i).SetUint(x.Index(i).Uint() ^ uint64(by))
			}
		} else {
			x.SetUint(x.Uint() ^ uint64(by))
		}
	}
}

func compareCalls(s *sim, want map[string]int, each func(func(string))) {
	s.Eval(1)
	got := map[string]int{}
	each(func(k string) { got[k]++ })
	var bad []string
	for k, n := range want {
		if got[k] != n {
			bad = append(bad, fmt.Sprintf("%d calls instead of %d: %s", got[k], n, k))
		}
	}
	for k, n := range got {
		if want[k] == 0 {
			bad = append(bad, fmt.Sprintf("%d calls instead of 0: %s", n, k))
		}
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		s.Fail("callbacks do not match the datagrams: %s", bad)
	}
}

func key(id int, t *wire.Type, v wire.Values) string {
	if t == nil {
		return fmt.Sprintf("registration %d, unknown packet", id)
	}
	h := fmt.Sprint(v)
	if len(h) > 120 {
		var sum uint64 = 14695981039346656037
		for i := 0; i < len(h); i++ {
			sum = (sum ^ uint64(h[i])) * 1099511628211
		}
		h = fmt.Sprintf("%s...#%x", h[:80], sum)
	}
	return fmt.Sprintf("registration %d, %s %s", id, t.Name, h)
}

// typeOf is the reference type of a library packet.
func typeOf(p packet.ArtNetPacket) *wire.Type {
	switch p.(type) {
	case *packet.ArtPollPacket:
		return wire.Poll
	case *packet.ArtPollReplyPacket:
		return wire.PollReply
	case *packet.ArtDiagDataPacket:
		return wire.DiagData
	case *packet.ArtCommandPacket:
		return wire.Command
	case *packet.ArtDMXPacket:
		return wire.DMX
	case *packet.ArtNzsPacket:
		return wire.Nzs
	case *packet.ArtSyncPacket:
		return wire.Sync
	case *packet.ArtAddressPacket:
		return wire.Address
	case *packet.ArtTimeCodePacket:
		return wire.TimeCode
	case *packet.ArtTriggerPacket:
		return wire.Trigger
	case *packet.ArtIPProgPacket:
		return wire.IPProg
	case *packet.ArtIPProgReplyPacket:
		return wire.IPReply
	}
	return nil
}
