package system

import (
	"fmt"
	"math/rand/v2"
	"net"
	"sync"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/gen"
	"verif/ref"
	"verif/verifnet"
	"verif/wire"
)

// neighbour is a second node or controller in the same process, on a host and network
// of its own. It must not have any influence on the one under test, nor the other way
// round. It hears some of the announcements the one under test hears.
type neighbour struct {
	s    *sim
	rng  *rand.Rand
	over chan struct{}
	done chan struct{}

	mu    sync.Mutex
	conn  *verifnet.UDPConn
	known []artnet.Address
	sent  map[[512]byte]bool
	polls int
	calls []string
	want  []string
	reply []byte
	got   int
}

var nearIP = net.IP{10, 0, 0, 77}

// neighbour starts one, one time in n.
func (s *sim) neighbour(n int, controller bool) {
	if !s.chance(n) {
		return
	}
	nb := &neighbour{s: s, rng: rand.New(rand.NewPCG(s.Uint64(), s.Uint64())), over: make(chan struct{}), done: make(chan struct{}), sent: map[[512]byte]bool{{}: true}}
	s.near = nb
	s.w.Neighbour = nearIP
	s.w.OnNeighbour = nb.observe
	s.Count("neighbours", 1)
	s.logf("with a neighbour")
	if controller {
		go nb.control()
	} else {
		go nb.serve()
	}
	if s.chance(2) {
		synctest.Wait()
	}
}

func (nb *neighbour) end() {
	if nb != nil {
		close(nb.over)
		<-nb.done
	}
}

// hears passes on an announcement.
func (nb *neighbour) hears(b []byte) {
	if nb == nil {
		return
	}
	nb.mu.Lock()
	defer nb.mu.Unlock()
	if nb.conn == nil || nb.rng.IntN(4) == 0 {
		return
	}
	var p packet.ArtPollReplyPacket
	if p.UnmarshalBinary(b) != nil {
		return
	}
	for _, o := range artnet.ConfigFromArtPollReply(p).OutputPorts {
		nb.known = append(nb.known, o.Address)
	}
	nb.conn.Inject(net.UDPAddr{IP: net.IP(p.IPAddress[:]), Port: wire.Port}, b)
}

// observe is told what the neighbour sends.
func (nb *neighbour) observe(ev verifnet.Event) {
	nb.mu.Lock()
	defer nb.mu.Unlock()
	switch {
	case wire.Op(ev.Data) == wire.DMX.Op:
		x, why := parseDMX(ev)
		if why != "" {
			nb.s.Fail("a second controller in the process: %s", why)
		}
		if !nb.sent[x.data] {
			nb.s.Fail("a second controller in the process sent data that was never sent through it, to %v", &ev.To)
		}
		nb.s.Count("DMX datagrams of neighbours", 1)
	case nb.reply != nil:
		if string(ev.Data) != string(nb.reply) {
			nb.s.Fail("a second node in the process sent something that is not its announcement: % x", ev.Data[:min(len(ev.Data), 40)])
		}
		nb.got++
	}
}

// wait waits, and tells whether the case is still going on.
func (nb *neighbour) wait(d time.Duration) bool {
	select {
	case <-nb.over:
		return false
	case <-time.After(d):
		return true
	}
}

// control is the life of a controller.
func (nb *neighbour) control() {
	defer close(nb.done)
	rng := nb.rng
	nb.mu.Lock()
	fps := []int{10, 30, 44}[rng.IntN(3)]
	lives := 1 + rng.IntN(2)
	nb.mu.Unlock()
	c := artnet.NewController("near", nearIP, logger(false), artnet.ListenIP(nearIP), artnet.MaxFPS(fps))
	for ; lives > 0; lives-- {
		if err := c.Start(); err != nil {
			nb.s.Inconclusive("Start of the neighbour: %v", err)
		}
		nb.mu.Lock()
		nb.conn = nb.s.w.Near()
		end := time.Now().Add(time.Duration(rng.Int64N(int64(30 * time.Second))))
		nb.mu.Unlock()
		on := true
		for on && time.Now().Before(end) {
			nb.mu.Lock()
			var f [512]byte
			for k := range f[:16] {
				f[k] = byte(rng.Uint32())
			}
			f[100], f[511] = 0x77, 0x77
			ok := len(nb.known) > 0
			var a artnet.Address
			if ok {
				a = nb.known[len(nb.known)-1-rng.IntN(min(len(nb.known), 6))]
				nb.sent[f] = true
			}
			d := time.Duration(rng.Int64N(int64(200 * time.Millisecond)))
			nb.mu.Unlock()
			if ok {
				c.SendDMXToAddress(f, a)
			}
			on = nb.wait(d)
		}
		nb.mu.Lock()
		nb.conn = nil
		nb.mu.Unlock()
		c.Stop()
		if !on {
			return
		}
	}
}

// serve is the life of a node.
func (nb *neighbour) serve() {
	defer close(nb.done)
	rng := nb.rng
	nb.mu.Lock()
	cfg := ref.RandConfig(rng)
	lives := 1 + rng.IntN(2)
	nb.mu.Unlock()
	cfg.IP = nearIP
	n := artnet.NewNode(cfg.Name, cfg.Type, nearIP, logger(false), artnet.NodeListenIP(nearIP))
	n.Config = cfg
	nb.reply = wire.PollReply.Encode(ref.Announced(cfg))
	n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) {
		x, ok := p.(*packet.ArtDMXPacket)
		nb.mu.Lock()
		defer nb.mu.Unlock()
		if !ok {
			nb.s.Fail("a second node in the process: its DMX callback got a %T", p)
		}
		nb.calls = append(nb.calls, fmt.Sprint(gen.Fields(wire.DMX, x)))
	})
	for ; lives > 0; lives-- {
		if err := n.Start(); err != nil {
			nb.s.Inconclusive("Start of the neighbour: %v", err)
		}
		conn := nb.s.w.Near()
		on := true
		for k := 5 + rng.IntN(25); on && k > 0; k-- {
			nb.mu.Lock()
			b, poll := gen.Valid(rng, wire.Poll), true
			if rng.IntN(2) == 0 {
				b, poll = gen.Valid(rng, wire.DMX), false
				nb.want = append(nb.want, fmt.Sprint(wire.DMX.Decode(b)))
			} else {
				nb.polls++
			}
			d := time.Duration(rng.Int64N(int64(300 * time.Millisecond)))
			nb.mu.Unlock()
			_ = poll
			conn.Inject(net.UDPAddr{IP: net.IP{10, 77, 0, 1}, Port: wire.Port}, b)
			on = nb.wait(d)
		}
		time.Sleep(1)
		n.Stop()
		time.Sleep(1)
		nb.mu.Lock()
		if nb.got != nb.polls {
			nb.s.Fail("a second node in the process answered %d of %d polls", nb.got, nb.polls)
		}
		left := map[string]int{}
		for _, w := range nb.want {
			left[w]++
		}
		for _, w := range nb.calls {
			left[w]--
		}
		for w, k := range left {
			if k != 0 {
				nb.s.Fail("a second node in the process: %d callbacks missing for %.200s", k, w)
			}
		}
		nb.mu.Unlock()
		if !on {
			return
		}
	}
}
