package system

import (
	"fmt"
	"math"
	"net"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"verif/ref"
	"verif/verifnet"
	"verif/wire"
)

// TestC25: options and defaults are honoured.
func TestC25(t *testing.T) {
	r := begin(t, "C25")
	cases(t, r, r.Scale(40000, 400000), "options", func(s *sim) {
		s.w.Policy = func(verifnet.Event, *verifnet.UDPConn) []time.Duration { return nil } // nobody hears what is sent, not even its sender
		isNode := s.chance(2)
		// what should be in force
		listen := net.UDPAddr{Port: wire.Port}
		bc := defBroadcast
		fps := 1000
		ip4 := func() net.IP {
			ip := net.IP{byte(1 + s.IntN(223)), byte(s.IntN(256)), byte(s.IntN(256)), byte(1 + s.IntN(254))}
			switch s.IntN(6) {
			case 0:
				return ip.To16()
			case 1:
				return net.IP{127, 0, 0, 1}
			}
			return ip
		}
		port := func() int {
			if s.chance(3) {
				return wire.Port
			}
			return 1 + s.IntN(65535)
		}
		type option struct {
			what  string
			c     artnet.Option
			n     artnet.NodeOption
			apply func()
			bad   int // 1: must be refused, 0: must be accepted, -1: either
			rate  int
		}
		option1 := func() option {
			switch k := s.IntN(6); {
			case k == 0:
				a := net.UDPAddr{IP: ip4(), Port: port()}
				if s.chance(4) {
					a.IP = []net.IP{nil, {0, 0, 0, 0}, net.IPv4zero}[s.IntN(3)]
				}
				return option{what: "listen " + a.String(), c: artnet.ListenAddress(a), n: artnet.NodeListenAddress(a), apply: func() { listen = a }}
			case k == 1:
				ip := ip4()
				if s.chance(6) {
					ip = nil
				}
				return option{what: "listen ip " + ip.String(), c: artnet.ListenIP(ip), n: artnet.NodeListenIP(ip), apply: func() { listen = net.UDPAddr{IP: ip, Port: wire.Port} }}
			case k <= 3 || isNode:
				a := net.UDPAddr{IP: ip4(), Port: port()}
				if s.chance(4) {
					a.IP = net.IP{255, 255, 255, 255}
				}
				return option{what: "broadcast " + a.String(), c: artnet.BroadcastAddr(a), n: artnet.NodeBroadcastAddress(a), apply: func() { bc = a }}
			}
			f, bad := 1+s.IntN(1000), 0
			switch s.IntN(6) {
			case 0:
				f, bad = -s.IntN(3), 1
			case 1:
				f, bad = []int{math.MinInt, math.MinInt32, -1, 0, -int(time.Second), math.MinInt64 + 1}[s.IntN(6)], 1
			case 2:
				f, bad = []int{math.MaxInt, math.MaxInt32, int(time.Second), int(time.Second) + 1, int(time.Second) - 1, 2 * int(time.Second), 1 << 40, 100001, 1 << 30}[s.IntN(9)], -1
			case 3:
				f = rates[s.IntN(len(rates))]
			case 4: // honoured or refused, but nothing in between
				f, bad = 1001+s.IntN(9000), -1
			}
			return option{what: fmt.Sprintf("fps %d", f), c: artnet.MaxFPS(f), apply: func() { fps = f }, bad: bad, rate: f}
		}
		var it startable
		var node *artnet.Node
		var ctl *artnet.Controller
		cfg := ref.RandConfig(s.Rand)
		cfg.IP = hostIP
		var given []option
		for k := s.IntN(5); k > 0; k-- {
			given = append(given, option1())
		}
		sig := ""
		// what is refused at construction is refused silently: rates on which both
		// verdicts are allowed are only given later
		var copts []artnet.Option
		var nopts []artnet.NodeOption
		for _, o := range given {
			if o.bad < 0 {
				continue
			}
			sig += o.what + ", "
			copts, nopts = append(copts, o.c), append(nopts, o.n)
			if o.bad == 0 {
				o.apply()
			}
		}
		if isNode {
			node = artnet.NewNode(cfg.Name, cfg.Type, hostIP, logger(s.chance(20)), nopts...)
			node.Config = cfg
			it = node
		} else {
			cfg = contCfg("ctl", hostIP)
			ctl = artnet.NewController("ctl", hostIP, logger(s.chance(20)), copts...)
			it = ctl
		}
		for life := 1 + s.IntN(3); life > 0; life-- {
			for k := s.IntN(4); k > 0; k-- {
				o := option1()
				var err error
				if isNode {
					err = node.SetOption(o.n)
				} else {
					err = ctl.SetOption(o.c)
				}
				sig += "then " + o.what + ", "
				switch {
				case err != nil && o.bad == 0:
					s.Fail("%s: refused: %v", sig, err)
				case err == nil && o.bad > 0:
					s.Fail("%s: an impossible frame rate was accepted", sig)
				case err == nil:
					o.apply()
				}
				if err != nil {
					s.Count("rates refused", 1)
				}
			}
			s.Eval(1)
			s.logf("%s", sig)
			from, start := s.w.NumEvents(), time.Now()
			if err := it.Start(); err != nil {
				s.Fail("%s: Start: %v", sig, err)
			}
			conn := s.theConn()
			la := conn.Local()
			if la.Port != listen.Port || !(la.IP.Equal(listen.IP) || len(la.IP) == 0 && len(listen.IP) == 0 || isWild(la.IP) && isWild(listen.IP)) {
				s.Fail("%s: listens on %v instead of %v", sig, &la, &listen)
			}
			foreign := s.IntN(4)
			if fps <= 20000 {
				time.Sleep(s.dur(4 * time.Second))
			} else {
				time.Sleep(s.dur(5 * time.Microsecond))
			}
			if !isNode {
				offTick(start, 3*time.Second)
			}
			for k := 0; k < foreign; k++ {
				conn.Inject(s.foreign(), s.poll())
			}
			synctest.Wait()
			if isNode { // a reply may take its time
				time.Sleep(2900 * time.Millisecond)
				synctest.Wait()
			}
			polls, replies := 0, 0
			for _, ev := range s.w.Events(from) {
				switch {
				case isPoll(ev.Data) && !isNode:
					polls++
				case wire.Op(ev.Data) == wire.PollReply.Op:
					if why := isReply(cfg, ev.Data); why != "" {
						s.Fail("%s: %s", sig, why)
					}
					replies++
				default:
					s.Fail("%s: unexpected datagram % x", sig, ev.Data[:min(len(ev.Data), 20)])
				}
				s.Eval(1)
				if !sameAddr(ev.To, bc) {
					s.Fail("%s: a datagram (opcode %#x) was sent to %v instead of the broadcast address %v", sig, wire.Op(ev.Data), &ev.To, &bc)
				}
				if ev.Conn != conn {
					s.Fail("%s: a datagram was sent from another socket", sig)
				}
			}
			if replies != foreign+polls || !isNode && polls == 0 {
				s.Fail("%s: %d polls, %d replies to %d polls of others", sig, polls, replies, foreign)
			}
			s.Count("broadcasts", polls+replies)
			// the frame rate in force: with new data all the time, a universe is sent once a frame
			if !isNode && fps <= 20000 {
				d := &device{ip: net.IP{10, 3, 0, 1}, bind: 1, net: 1, sub: 1, out: []uint8{1}, name: "d"}
				s.announce(conn, d)
				synctest.Wait()
				fr := frame(fps)
				time.Sleep(2 * fr)
				offTick(start, fr)
				from := s.w.NumEvents()
				const frames = 12
				for k := 0; k < 8*frames; k++ {
					f := [512]byte{byte(k), 1, byte(fps)}
					ctl.SendDMXToAddress(f, d.addr(1))
					time.Sleep(fr / 8)
					if fr > time.Second/4 && k%8 == 0 {
						s.announce(conn, d) // stay known
					}
				}
				synctest.Wait()
				n := 0
				var lastT time.Time
				for _, ev := range s.w.Events(from) {
					if x, why := parseDMX(ev); why == "" && x.data[1] == 1 {
						n++
						if !lastT.IsZero() && ev.T.Sub(lastT) < fr-fr/100 {
							s.Fail("%s: %v between two frames at %d frames a second", sig, ev.T.Sub(lastT), fps)
						}
						lastT = ev.T
					}
				}
				s.Eval(1)
				if n < frames-1 || n > frames+1 {
					s.Fail("%s: %d frames in the time of %d at %d frames a second", sig, n, frames, fps)
				}
				s.Count("rates measured", 1)
			}
			it.Stop()
			synctest.Wait()
			if s.w.Open() != nil && len(s.w.Open()) > 0 {
				s.Fail("%s: the socket is open after Stop", sig)
			}
			s.w.Forget()
			s.Seen("%v %s", isNode, sig)
		}
		if s.WantSample() {
			s.Sample(map[string]any{"node": isNode, "options": sig, "listen": listen.String(), "broadcast": bc.String(), "frame rate": fps})
		}
	})
}

func isWild(ip net.IP) bool { return len(ip) == 0 || ip.IsUnspecified() }
