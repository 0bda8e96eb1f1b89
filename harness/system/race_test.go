package system

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"net"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/gen"
	"verif/ref"
	"verif/verifnet"
	"verif/wire"
)

// TestC24: no data race or deadlock under concurrent use. The oracles are the race
// detector, the bubble's deadlock detection (every call made here must return), the
// runtime's own checks, and the absence of library goroutines after the last stop.
// The actors share nothing with each other but the objects under test, so that the
// harness does not order their accesses.
func TestC24(t *testing.T) {
	r := begin(t, "C24")
	cases(t, r, r.Scale(1440, 20000), "concurrent use", func(s *sim) {
		actors := sync.WaitGroup{}
		counts := make(chan map[string]int, 64)
		nact := 0
		// act starts an actor with its own generator
		act := func(f func(a *sim, n map[string]int)) {
			a := *s
			a.Rand = rand.New(rand.NewPCG(s.Uint64(), s.Uint64()))
			actors.Add(1)
			nact++
			go func() {
				defer actors.Done()
				n := map[string]int{}
				f(&a, n)
				counts <- n
			}()
		}
		pause := func(a *sim) {
			switch a.IntN(6) {
			case 0:
				time.Sleep(time.Duration(a.IntN(3)) * time.Millisecond)
			case 1:
				time.Sleep(a.dur(50 * time.Millisecond))
			case 2, 3:
				runtime.Gosched()
			case 4:
				if a.chance(10) {
					time.Sleep(a.dur(4 * time.Second))
				}
			}
		}
		log := logger(s.chance(3)) // shared by all
		long := s.chance(4)
		steps := func(a *sim, n int) int {
			if long {
				return n + a.IntN(4*n)
			}
			return 1 + a.IntN(n)
		}
		if s.chance(2) {
			s.w.Policy = func(ev verifnet.Event, dst *verifnet.UDPConn) []time.Duration {
				// a hash of the datagram decides: the policy is called concurrently
				h := fnv.New32a()
				h.Write(ev.Data)
				x := h.Sum32() + uint32(ev.Stamp)*2654435761
				if x%7 == 0 {
					return nil
				}
				return []time.Duration{time.Duration(x>>8%20) * time.Millisecond}
			}
		}
		// the universes in use
		unis := []uint8{0, 1, 2, 3}
		// one or two controllers, up to three library nodes, simulated devices
		var ctls []*artnet.Controller
		var nodes []*artnet.Node
		for i := 1 + s.IntN(2); i > 0; i-- {
			ip := net.IP{10, 0, 0, byte(100 + i)}
			c := artnet.NewController(fmt.Sprintf("c%d", i), ip, log, artnet.ListenIP(ip), artnet.MaxFPS([]int{10, 44, 200, 1000}[s.IntN(4)]))
			ctls = append(ctls, c)
		}
		shared := ref.RandConfig(s.Rand) // several nodes share the slices of one configuration
		shared.OutputPorts, shared.InputPorts = nil, nil
		for _, u := range unis {
			shared.OutputPorts = append(shared.OutputPorts, artnet.OutputPort{Address: artnet.Address{Net: 1, SubUni: 0x10 | u}})
			shared.InputPorts = append(shared.InputPorts, artnet.InputPort{Address: artnet.Address{Net: 1, SubUni: 0x10 | u}})
		}
		shared.BaseAddress = artnet.Address{Net: 1, SubUni: 0x10}
		for i := s.IntN(4); i > 0; i-- {
			ip := net.IP{10, 0, 0, byte(i)}
			cfg := shared
			cfg.IP, cfg.Type = ip, code.StNode
			if s.chance(5) {
				cfg.Type = code.StController
			}
			n := artnet.NewNode(cfg.Name, cfg.Type, ip, log, artnet.NodeListenIP(ip))
			n.Config = cfg
			quits := s.chance(3)
			for _, op := range []code.OpCode{code.OpDMX, code.OpSync, code.OpAddress, code.OpTimeCode} {
				mode := s.IntN(7)
				k := s.IntN(20)
				n.RegisterCallback(op, func(p packet.ArtNetPacket) {
					switch mode {
					case 0:
						_ = n.Connection()
					case 1:
						n.RegisterCallback(code.OpTrigger, func(packet.ArtNetPacket) {})
					case 2:
						n.DeregisterCallback(code.OpTrigger)
						n.RegisterCallback(op, func(packet.ArtNetPacket) {})
					case 3:
						if quits && rand.IntN(20) == 0 {
							n.Stop()
						}
					case 4:
						ctls[0].SendDMXToAddress([512]byte{byte(k)}, artnet.Address{Net: 2, SubUni: uint8(k % 4)})
					case 5:
						time.Sleep(time.Duration(k) * time.Millisecond)
						_, _ = p.MarshalBinary()
					}
				})
			}
			nodes = append(nodes, n)
		}
		var pool []*device
		for i := s.IntN(6); i >= 0; i-- {
			pool = append(pool, &device{ip: net.IP{10, 7, 0, byte(i)}, bind: uint8(s.IntN(2)), net: 2, sub: uint8(s.IntN(2)), name: fmt.Sprint("d", i)})
		}
		// every instance has one owner, who alone starts it
		restarts := s.IntN(3)
		own := func(it startable, a *sim, n map[string]int) {
			for k := 1 + a.IntN(1+2*restarts); k > 0; k-- {
				if err := it.Start(); err != nil {
					a.Fail("Start: %v", err)
				}
				n["starts"]++
				for j := steps(a, 10); j > 0; j-- {
					pause(a)
				}
				it.Stop()
			}
			if a.chance(2) {
				it.Stop()
			}
		}
		late := s.chance(2) // the instances run before anything else begins
		if late {
			for _, c := range ctls {
				if err := c.Start(); err != nil {
					s.Fail("Start: %v", err)
				}
			}
			for _, n := range nodes {
				if err := n.Start(); err != nil {
					s.Fail("Start: %v", err)
				}
			}
		}
		for _, c := range ctls {
			act(func(a *sim, n map[string]int) {
				if late {
					for j := steps(a, 20); j > 0; j-- {
						pause(a)
					}
					c.Stop()
				}
				own(c, a, n)
			})
		}
		for _, x := range nodes {
			act(func(a *sim, n map[string]int) {
				if late {
					for j := steps(a, 20); j > 0; j-- {
						pause(a)
					}
					x.Stop()
				}
				// between its lives, callbacks change
				x.RegisterCallback(code.OpNzs, func(packet.ArtNetPacket) {})
				own(x, a, n)
				x.DeregisterCallback(code.OpNzs)
			})
		}
		// senders
		for k := 1 + s.IntN(6); k > 0; k-- {
			act(func(a *sim, n map[string]int) {
				var f [512]byte
				for j := steps(a, 60); j > 0; j-- {
					f[a.IntN(512)]++
					u := artnet.Address{Net: uint8(1 + a.IntN(2)), SubUni: uint8(a.IntN(2))<<4 | unis[a.IntN(4)]}
					ctls[a.IntN(len(ctls))].SendDMXToAddress(f, u)
					n["sends"]++
					if a.chance(3) {
						pause(a)
					}
				}
			})
		}
		// each announces devices of its own
		for k := 0; k < 2; k++ {
			mine := pool[k*len(pool)/2 : (k+1)*len(pool)/2]
			if len(mine) == 0 {
				continue
			}
			act(func(a *sim, n map[string]int) {
				for j := steps(a, 30); j > 0; j-- {
					d := mine[a.IntN(len(mine))]
					d.out, d.in = a.pick(a.IntN(5), 4), a.pick(a.IntN(3), 4)
					for _, c := range s.w.Open() {
						if c.HostAddr().IP[len(c.HostAddr().IP)-1] > 100 || a.chance(4) {
							c.Inject(a.source(d), d.reply(a.Rand))
							n["announcements"]++
						}
					}
					pause(a)
				}
			})
		}
		// polls, packets of all types and rubbish, for everybody
		for k := 1 + s.IntN(3); k > 0; k-- {
			act(func(a *sim, n map[string]int) {
				for j := steps(a, 40); j > 0; j-- {
					for _, c := range s.w.Open() {
						switch a.IntN(6) {
						case 0:
							c.Inject(a.foreign(), a.poll())
						case 1:
							c.Inject(a.foreign(), a.nasty())
						case 2:
							c.InjectReadError(netErrs[a.IntN(len(netErrs))])
						case 3, 4:
							ty := []*wire.Type{wire.DMX, wire.Sync, wire.Address, wire.TimeCode, wire.Trigger}[a.IntN(5)]
							c.Inject(a.foreign(), gen.Valid(a.Rand, ty))
						}
						n["datagrams injected"]++
					}
					if a.chance(2) {
						pause(a)
					}
				}
			})
		}
		// stops from anywhere
		if s.chance(3) {
			act(func(a *sim, n map[string]int) {
				for j := steps(a, 6); j > 0; j-- {
					pause(a)
					time.Sleep(a.dur(200 * time.Millisecond))
					if len(nodes) > 0 && a.chance(2) {
						nodes[a.IntN(len(nodes))].Stop()
					} else {
						ctls[a.IntN(len(ctls))].Stop()
					}
					n["foreign stops"]++
				}
			})
		}
		// use of a node while it lives and dies
		if len(nodes) > 0 {
			act(func(a *sim, n map[string]int) {
				for j := steps(a, 20); j > 0; j-- {
					x := nodes[a.IntN(len(nodes))]
					switch a.IntN(3) {
					case 0:
						_ = x.Connection()
					case 1:
						x.RegisterCallback(code.OpTrigger, func(packet.ArtNetPacket) {})
					case 2:
						x.DeregisterCallback(code.OpTrigger)
					}
					n["registrations"]++
					pause(a)
				}
			})
		}
		if s.chance(3) {
			act(func(a *sim, n map[string]int) {
				for j := steps(a, 5); j > 0; j-- {
					time.Sleep(a.dur(300 * time.Millisecond))
					s.w.HoldWrites()
					time.Sleep(a.dur(500 * time.Millisecond))
					s.w.ReleaseWrites()
					n["blocked network"]++
				}
			})
		}
		actors.Wait() // a deadlock is detected here
		s.w.ReleaseWrites()
		for _, c := range ctls {
			c.Stop()
		}
		for _, n := range nodes {
			n.Stop()
		}
		time.Sleep(time.Second)
		synctest.Wait()
		s.Eval(1)
		if g := library(); len(g) > 0 {
			s.FailStacks(fmt.Sprint(g), "%d goroutines are left after everything was stopped", len(g))
		}
		if o := s.w.Open(); len(o) > 0 {
			s.Fail("%d sockets are open after everything was stopped", len(o))
		}
		close(counts)
		for n := range counts {
			for k, v := range n {
				s.Count(k, v)
				s.Eval(v)
			}
		}
		s.Count("datagrams sent", s.w.NumEvents())
		s.Count("actors", nact)
		h := fnv.New64a()
		for _, ev := range s.w.Events(0) {
			fmt.Fprint(h, ev.From.IP[len(ev.From.IP)-1], wire.Op(ev.Data), " ")
		}
		s.SeenHash(h.Sum64())
		if s.WantSample() {
			s.Sample(map[string]any{"actors": nact, "controllers": len(ctls), "nodes": len(nodes), "devices": len(pool), "datagrams sent": s.w.NumEvents(), "seconds": s.at().Seconds()})
		}
	})
}
