package system

import (
	"fmt"
	"net"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/verifnet"
)

// endNode is a node of the library, with what its DMX callback got.
type endNode struct {
	*artnet.Node
	ip      net.IP
	running bool
	mu      sync.Mutex
	last    map[artnet.Address][512]byte
	calls   int
	bad     string
	unis    map[artnet.Address]bool // its universes now
	ever    map[artnet.Address]bool
}

// TestC26: a controller drives library nodes end to end.
func TestC26(t *testing.T) {
	r := begin(t, "C26")
	cases(t, r, r.Scale(12000, 120000), "end to end", func(s *sim) {
		log := logger(s.chance(30))
		fps := []int{10, 30, 44, 100}[s.IntN(4)]
		cip := net.IP{10, 0, 1, 1}
		c := &control{Controller: artnet.NewController("ctl", cip, log, artnet.ListenIP(cip), artnet.MaxFPS(fps)), fps: fps, frame: frame(fps)}
		running := false
		// what was sent to each universe: only these frames, or black, may arrive
		sent := map[artnet.Address]map[[512]byte]bool{}
		var mu sync.Mutex // sent
		nn := 1 + s.IntN(4)
		if s.chance(8) {
			nn = 5 + s.IntN(8)
		}
		var nodes []*endNode
		net0, sub0 := []int{0, 127, 64, s.IntN(128)}[s.IntN(4)], []int{0, 10, s.IntN(16)}[s.IntN(3)]
		base := func(i int) artnet.Address {
			return artnet.Address{Net: uint8((net0 + i/6*9) % 128), SubUni: uint8((sub0+i%6)%16) << 4}
		}
		config := func(n *endNode, b artnet.Address, low, high int) {
			n.Config.BaseAddress = b
			n.Config.OutputPorts, n.Config.InputPorts = nil, nil
			n.unis = map[artnet.Address]bool{}
			for _, k := range s.Perm(high - low)[:min(high-low, s.IntN(5))] {
				a := artnet.Address{Net: b.Net, SubUni: b.SubUni | uint8(low+k)}
				n.Config.OutputPorts = append(n.Config.OutputPorts, artnet.OutputPort{Address: a, Type: code.PortType(s.IntN(6))})
				n.mu.Lock()
				n.unis[a], n.ever[a] = true, true
				n.mu.Unlock()
			}
			for k := s.IntN(5); k > 0; k-- {
				i := len(n.Config.InputPorts)
				ty := code.PortType(s.IntN(6))
				if i < len(n.Config.OutputPorts) {
					ty = n.Config.OutputPorts[i].Type
				}
				n.Config.InputPorts = append(n.Config.InputPorts, artnet.InputPort{Address: artnet.Address{Net: b.Net, SubUni: b.SubUni | uint8(s.IntN(16))}, Type: ty})
			}
		}
		type place struct {
			b         artnet.Address
			low, high int
		}
		places := map[*endNode]place{}
		for i := 0; i < nn; i++ {
			ip := net.IP{10, 0, 0, byte(1 + i)}
			n := &endNode{ip: ip, last: map[artnet.Address][512]byte{}, ever: map[artnet.Address]bool{}}
			n.Node = artnet.NewNode(fmt.Sprintf("node %d", i), code.StNode, ip, log, artnet.NodeListenIP(ip))
			n.Config.BindIndex = uint8(s.IntN(3))
			n.Config.Description = "a node"
			// two nodes share a sub-net sometimes, each with half of it
			p := place{base(i), 0, 16}
			if s.chance(2) {
				p = place{base(i / 2), 8 * (i % 2), 8*(i%2) + 8}
				for _, q := range places {
					if q.b == p.b && q.low < p.high && p.low < q.high {
						p = place{base(i + 20), 0, 16}
					}
				}
			}
			for _, q := range places {
				if q.b == p.b && q.low < p.high && p.low < q.high {
					p = place{base(i + 20), 0, 16}
				}
			}
			places[n] = p
			config(n, p.b, p.low, p.high)
			n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) {
				d, ok := p.(*packet.ArtDMXPacket)
				n.mu.Lock()
				defer n.mu.Unlock()
				n.calls++
				if !ok {
					n.bad = fmt.Sprintf("the DMX callback got a %T", p)
					return
				}
				a := artnet.Address{Net: d.Net, SubUni: d.SubUni}
				if d.Length != 512 {
					n.bad = fmt.Sprintf("%d channels arrived for %v", d.Length, a)
				}
				if !n.ever[a] {
					n.bad = fmt.Sprintf("data arrived for universe %v, which is not this node's", a)
				}
				mu.Lock()
				if d.Data != [512]byte{} && !sent[a][d.Data] {
					n.bad = fmt.Sprintf("data arrived for universe %v that was never sent to it: % x...", a, d.Data[:8])
				}
				mu.Unlock()
				n.last[a] = d.Data
			})
			nodes = append(nodes, n)
		}
		sig := ""
		startNode := func(n *endNode) {
			if err := n.Start(); err != nil {
				s.Inconclusive("Start: %v", err)
			}
			n.running = true
			s.logf("node %v started, outputs %v", n.ip, n.Config.OutputPorts)
		}
		startCtl := func() {
			c.from, c.start = s.w.NumEvents(), time.Now()
			if err := c.Start(); err != nil {
				s.Inconclusive("Start: %v", err)
			}
			running = true
			s.logf("controller started")
		}
		judge := func() {
			synctest.Wait()
			for _, n := range nodes {
				n.mu.Lock()
				bad := n.bad
				n.mu.Unlock()
				s.Eval(1)
				if bad != "" {
					s.Fail("node %v: %s", n.ip, bad)
				}
			}
		}
		// what is known, by universe: the entry and its expected data
		type route struct {
			entry *artnet.ControlledNode
			data  [512]byte
		}
		expect := map[artnet.Address]route{}
		// observe follows the routing: an entry found anew starts black
		observe := func() {
			synctest.Wait()
			for a := range expect {
				if c.OutputAddress[a] != expect[a].entry {
					delete(expect, a)
				}
			}
			for a, e := range c.OutputAddress {
				if _, ok := expect[a]; !ok {
					expect[a] = route{entry: e}
				}
			}
		}
		var unique uint32
		send := func(a artnet.Address) {
			unique++
			f := frameOf(a, byte(1+s.IntN(255)))
			f[10], f[11], f[12] = byte(unique), byte(unique>>8), byte(unique>>16)
			mu.Lock()
			if sent[a] == nil {
				sent[a] = map[[512]byte]bool{}
			}
			sent[a][f] = true
			mu.Unlock()
			c.SendDMXToAddress(f, a)
			if x, ok := expect[a]; ok {
				x.data = f
				expect[a] = x
			}
			s.Count("sends", 1)
		}
		sendAll := func() {
			if running {
				c.off()
				observe()
				for _, n := range nodes {
					for _, p := range n.Config.OutputPorts {
						if s.IntN(4) > 0 {
							send(p.Address)
						}
					}
				}
			}
		}
		// sound: the network is well for a poll interval: everything is found and arrives
		sound := func(what string) {
			for _, n := range nodes {
				n.mu.Lock()
				clear(n.last)
				n.mu.Unlock()
			}
			if running {
				c.off()
			}
			time.Sleep(3*time.Second + 1)
			observe()
			known, out, _ := tables(c.Controller)
			listed := map[string]bool{}
			for _, k := range known {
				listed[k] = true
			}
			for _, n := range nodes {
				k := fmt.Sprintf("%v/%d", n.ip, n.Config.BindIndex)
				if !n.running {
					continue
				}
				s.Eval(1)
				if !listed[k] {
					s.Fail("%s: node %s runs, but was not discovered within 3 seconds: %v", what, k, known)
				}
				for a := range n.unis {
					if out[a] != k {
						s.Fail("%s: universe %v of node %s is routed to %q", what, a, k, out[a])
					}
				}
			}
			// without new sends, what was sent last is what the nodes get within a quarter second
			time.Sleep(250*time.Millisecond + 2*c.frame)
			judge()
			arrived := func(what string) {
				for _, n := range nodes {
					if !n.running {
						continue
					}
					n.mu.Lock()
					for a := range n.unis {
						s.Eval(1)
						x, ok := n.last[a]
						if e := expect[a]; !ok || x != e.data {
							n.mu.Unlock()
							s.Fail("%s: node %v should have the data last sent to universe %v (% x...), but has % x... (received: %v)", what, n.ip, a, e.data[:13], x[:13], ok)
						}
						s.Count("universes converged", 1)
					}
					n.mu.Unlock()
				}
			}
			observe()
			arrived(what)
			// and new data arrives within a frame
			c.off()
			for _, n := range nodes {
				for a := range n.unis {
					if n.running {
						send(a)
					}
				}
			}
			time.Sleep(c.frame)
			judge()
			arrived(what + ", new data")
		}
		// start in any order
		order := s.Perm(nn + 1)
		for _, k := range order {
			if k == nn {
				startCtl()
			} else if s.IntN(6) > 0 {
				startNode(nodes[k])
			}
			if s.chance(2) {
				time.Sleep(s.dur(2 * time.Second))
			}
		}
		sound("after the start")
		for round := s.IntN(4); round > 0; round-- {
			// trouble
			loss, dup, late := s.IntN(101), s.IntN(60), time.Duration(s.IntN(4))*time.Duration(s.IntN(700))*time.Millisecond
			if s.chance(3) {
				loss = 0
			}
			rng := newLocked(s)
			s.w.Policy = func(ev verifnet.Event, dst *verifnet.UDPConn) []time.Duration {
				var out []time.Duration
				for k := 1; k > 0; k-- {
					if rng.IntN(100) < dup {
						k++
						if len(out) > 4 {
							return out
						}
					}
					if rng.IntN(100) < loss {
						continue
					}
					out = append(out, time.Duration(rng.Int64N(int64(late)+1)))
				}
				return out
			}
			s.logf("trouble: loss %d%%, duplication %d%%, delay up to %v", loss, dup, late)
			sig += "["
			for k := s.IntN(12); k > 0; k-- {
				switch s.IntN(8) {
				case 0: // a node restarts, perhaps with other universes
					n := nodes[s.IntN(nn)]
					if n.running {
						n.Stop()
						n.running = false
						s.logf("node %v stopped", n.ip)
						sig += "n"
					} else {
						if s.chance(2) {
							p := places[n]
							config(n, p.b, p.low, p.high)
							sig += "c"
						}
						startNode(n)
						sig += "N"
					}
				case 1:
					if s.chance(3) {
						if running {
							c.Stop()
							running = false
							sig += "q"
						} else {
							startCtl()
							sig += "Q"
						}
					}
				case 2, 3, 4:
					sendAll()
					sig += "d"
				case 5, 6:
					time.Sleep(s.dur(time.Second))
					sig += "t"
				case 7:
					time.Sleep(s.dur(12 * time.Second))
					sig += "T"
				}
				if running {
					observe()
				}
				if s.chance(3) {
					judge()
				}
			}
			if !running {
				startCtl()
			}
			sig += "]"
			// the network recovers: what is under way still arrives
			s.w.Policy = nil
			s.logf("the network is well again")
			time.Sleep(late + time.Millisecond)
			observe()
			sound("after trouble")
			s.Count("recoveries", 1)
		}
		calls := 0
		for _, n := range nodes {
			n.mu.Lock()
			calls += n.calls
			n.mu.Unlock()
		}
		s.Count("DMX callbacks", calls)
		s.Seen("%d %d %s", nn, fps, sig)
		if s.WantSample() {
			var u []string
			for _, n := range nodes {
				for a := range n.unis {
					u = append(u, a.String())
				}
			}
			sort.Strings(u)
			s.Sample(map[string]any{"nodes": nn, "universes": u, "history": sig, "DMX callbacks": calls})
		}
		c.Stop()
		for _, n := range nodes {
			n.Stop()
		}
		synctest.Wait()
	})
}
