package system

import (
	"errors"
	"fmt"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/gen"
	"verif/verifnet"
	"verif/wire"
)

// usage is what the process holds when nothing is under way.
type usage struct {
	heap    int64
	library int
	sockets int
}

func (s *sim) usage() usage {
	synctest.Wait()
	s.w.Forget()
	s.stacks = nil
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	l := library()
	s.stacks = l
	return usage{int64(m.HeapAlloc), len(l), len(s.w.Open())}
}

// A quantity accumulates if it grows by at least these amounts from each of these numbers
// of phases to the next: what fills up once, or varies, does not. The numbers are so far
// apart that something that is made larger by half or so when it is full grows each time.
// Memory must then grow in three times as many phases by at least half as much again, twice.
var phases = []int{2, 4, 7, 11}

const (
	heapStep    = 4 << 10
	routineStep = 8
)

// TestC27: what a node or controller holds does not grow with what it has been through.
func TestC27(t *testing.T) {
	r := begin(t, "C27")
	idle()
	kinds := []string{"polls", "announcements to a node", "datagrams", "refused datagrams", "errors of the network", "encoding and decoding",
		"restarts of a node", "failed starts", "passing devices", "changing devices", "renewals", "sends", "datagrams to a controller", "restarts of a controller", "registrations", "blocked network"}
	cases(t, r, r.Scale(16*len(kinds), 200*len(kinds)), "phases", func(s *sim) {
		verifnet.SetPoints(0)
		s.w.Broadcast = nil // nobody hears what is sent
		kind := kinds[s.no%len(kinds)]
		events := 0
		whence := func() net.UDPAddr { // nearly never the same twice
			return net.UDPAddr{IP: net.IP{byte(20 + s.IntN(200)), byte(s.IntN(256)), byte(s.IntN(256)), byte(s.IntN(256))}, Port: 1 + s.IntN(65535)}
		}
		calls := make([]atomic.Int64, len(wire.Types))
		var n *artnet.Node
		var c *control
		var conn *verifnet.UDPConn
		var phase func()
		feed := func(count int, next func() []byte) {
			for i := 0; i < count; i++ {
				if b := next(); b != nil {
					conn.Inject(whence(), b)
				}
				if i%64 == 63 {
					synctest.Wait()
					s.w.Forget()
				}
				events++
			}
			time.Sleep(time.Second)
		}
		node := func() {
			n, _ = s.node(false)
			for i, ty := range wire.Types {
				if ty != wire.Poll && ty != wire.PollReply || ty == wire.PollReply && s.chance(2) {
					if s.chance(2) {
						n.RegisterCallback(code.OpCode(ty.Op), func(p packet.ArtNetPacket) { calls[i].Add(1) })
					}
				}
			}
		}
		start := func() {
			node()
			if err := n.Start(); err != nil {
				s.Inconclusive("Start: %v", err)
			}
			conn = s.theConn()
		}
		control := func(fps int) {
			c = &control{Controller: artnet.NewController("ctl", hostIP, logger(false), artnet.MaxFPS(fps)), fps: fps, frame: frame(fps)}
			s.run(c)
			conn = c.conn
		}
		passing := uint32(0)
		dev := func() *device {
			passing++
			i := passing
			return &device{ip: net.IP{11, byte(i >> 16), byte(i >> 8), byte(i)}, bind: uint8(s.IntN(3)), net: uint8(s.IntN(128)), sub: uint8(s.IntN(16)), out: s.pick(1+s.IntN(3), 16), in: s.pick(s.IntN(3), 16), name: fmt.Sprint("p", i)}
		}
		say := func(d *device) {
			d.last = d.reply(s.Rand)
			conn.Inject(net.UDPAddr{IP: d.ip, Port: wire.Port}, d.last)
			events++
		}
		switch kind {
		case "polls":
			start()
			phase = func() { feed(1500, s.poll) }
		case "announcements to a node":
			start()
			if s.chance(2) { // also one of a controller's style
				n.Stop()
				n.Config.Type = code.StController
				n.DeregisterCallback(code.OpPollReply)
				n, _ = s.node(false)
				n.Config.Type = code.StController
				if err := n.Start(); err != nil {
					s.Inconclusive("Start: %v", err)
				}
				conn = s.theConn()
			}
			phase = func() { feed(1000, func() []byte { return gen.Valid(s.Rand, wire.PollReply) }) }
		case "datagrams":
			start()
			phase = func() {
				feed(1500, func() []byte { return gen.Valid(s.Rand, wire.Types[s.IntN(len(wire.Types))]) })
			}
		case "refused datagrams":
			start()
			phase = func() { feed(1500, func() []byte { b, _ := s.refused(); return b }) }
		case "errors of the network":
			if s.chance(2) {
				start()
			} else {
				control(10)
				say(dev())
			}
			phase = func() {
				feed(1500, func() []byte {
					if s.chance(2) {
						s.w.WriteFault = nil
					} else {
						s.w.WriteFault = func(verifnet.Event) error { return syscall.ENETUNREACH }
					}
					if s.chance(2) {
						return s.poll()
					}
					conn.InjectReadError(netErrs[s.IntN(len(netErrs))])
					return nil
				})
				s.w.WriteFault = nil
			}
		case "encoding and decoding":
			phase = func() {
				for i := 0; i < 4000; i++ {
					b, _ := gen.Input(s.Rand)
					if p, err := packet.Unmarshal(b); err == nil {
						p.MarshalBinary()
						if q, ok := p.(*packet.ArtPollReplyPacket); ok {
							x := artnet.ArtPollReplyFromConfig(artnet.ConfigFromArtPollReply(*q))
							x.MarshalBinary()
							_ = artnet.Address{Net: q.NetSwitch, SubUni: q.SubSwitch}.String() + q.Status1.String() + q.PortTypes[0].String()
						}
					}
					events++
				}
			}
		case "restarts of a node":
			node()
			phase = func() {
				for i := 0; i < 250; i++ {
					if err := n.Start(); err != nil {
						s.Inconclusive("Start: %v", err)
					}
					conn = s.theConn()
					for k := s.IntN(5); k > 0; k-- {
						conn.Inject(whence(), gen.Valid(s.Rand, wire.Types[s.IntN(len(wire.Types))]))
					}
					if s.chance(2) {
						synctest.Wait()
					}
					n.Stop()
					events++
					s.w.Forget()
				}
			}
		case "failed starts":
			it := startable(nil)
			if s.chance(2) {
				node()
				it = n
			} else {
				it = artnet.NewController("ctl", hostIP, logger(false))
			}
			phase = func() {
				s.w.ListenFault = func(net.UDPAddr) error { return syscall.EADDRINUSE }
				for i := 0; i < 400; i++ {
					if it.Start() == nil {
						s.Inconclusive("a start on an unavailable address succeeded")
					}
					if s.chance(4) {
						it.Stop()
					}
					events++
				}
				s.w.ListenFault = nil
			}
		case "registrations":
			node()
			phase = func() {
				for i := 0; i < 2000; i++ {
					x := make([]byte, 256)
					n.RegisterCallback(code.OpCode(wire.Types[s.IntN(len(wire.Types))].Op), func(packet.ArtNetPacket) { x[0]++ })
					events++
				}
				for _, ty := range wire.Types {
					if ty != wire.Poll && ty != wire.PollReply {
						n.DeregisterCallback(code.OpCode(ty.Op))
					}
				}
			}
		case "passing devices":
			control(1 + s.IntN(10))
			phase = func() {
				for i := 0; i < 150; i++ {
					say(dev())
					time.Sleep(s.dur(200 * time.Millisecond))
					s.w.Forget()
				}
				time.Sleep(12 * time.Second)
			}
		case "changing devices":
			control(1 + s.IntN(10))
			d := dev()
			e := dev()
			phase = func() {
				for i := 0; i < 400; i++ {
					for _, x := range []*device{d, e} {
						x.net, x.sub, x.out, x.in = uint8(s.IntN(128)), uint8(s.IntN(16)), s.pick(s.IntN(5), 16), s.pick(s.IntN(5), 16)
						if len(x.out) > 0 && s.chance(4) {
							x.net, x.sub, x.out = d.net, d.sub, d.out // a conflict
						}
						say(x)
						if s.chance(2) && len(x.out) > 0 {
							synctest.Wait()
							c.SendDMXToAddress(frameOf(x.addr(x.out[0]), byte(i)), x.addr(x.out[0]))
						}
					}
					time.Sleep(s.dur(50 * time.Millisecond))
					s.w.Forget()
				}
				time.Sleep(12 * time.Second)
			}
		case "renewals":
			control(1 + s.IntN(10))
			devs := []*device{dev(), dev(), dev()}
			phase = func() {
				for i := 0; i < 800; i++ {
					say(devs[s.IntN(len(devs))])
					time.Sleep(s.dur(20 * time.Millisecond))
					s.w.Forget()
				}
				time.Sleep(12 * time.Second)
			}
		case "sends":
			control(1 + s.IntN(50))
			devs := []*device{dev(), dev(), dev()}
			phase = func() {
				for _, d := range devs {
					say(d)
				}
				synctest.Wait()
				for i := 0; i < 8000; i++ {
					a := artnet.Address{Net: uint8(s.IntN(128)), SubUni: uint8(s.IntN(256))}
					if d := devs[s.IntN(len(devs))]; s.chance(2) {
						a = d.addr(d.out[s.IntN(len(d.out))])
					}
					c.SendDMXToAddress(frameOf(a, byte(i)), a)
					if s.chance(40) {
						time.Sleep(s.dur(20 * time.Millisecond))
						s.w.Forget()
					}
					events++
				}
				time.Sleep(12 * time.Second)
			}
		case "datagrams to a controller":
			control(1 + s.IntN(10))
			phase = func() {
				feed(1500, func() []byte {
					if s.chance(2) {
						b, _ := s.refused()
						return b
					}
					for {
						if ty := wire.Types[s.IntN(len(wire.Types))]; ty != wire.PollReply {
							return gen.Valid(s.Rand, ty)
						}
					}
				})
			}
		case "restarts of a controller":
			control(10)
			c.Stop()
			phase = func() {
				for i := 0; i < 120; i++ {
					if err := c.Start(); err != nil {
						s.Inconclusive("Start: %v", err)
					}
					conn = s.theConn()
					d := dev()
					say(d)
					if s.chance(2) {
						synctest.Wait()
					}
					c.SendDMXToAddress(frameOf(d.addr(d.out[0]), 1), d.addr(d.out[0]))
					if s.chance(4) {
						time.Sleep(s.dur(4 * time.Second))
					}
					c.Stop()
					s.w.Forget()
				}
			}
		case "blocked network":
			control(1 + s.IntN(10))
			d := dev()
			phase = func() {
				for i := 0; i < 12; i++ {
					say(d)
					synctest.Wait()
					s.w.HoldWrites()
					for k := 0; k < 40; k++ {
						conn.Inject(whence(), s.poll())
						say(d)
						if k%8 == 0 {
							time.Sleep(s.dur(200 * time.Millisecond))
						}
					}
					s.w.ReleaseWrites()
					time.Sleep(time.Second)
					s.w.Forget()
				}
				time.Sleep(12 * time.Second)
			}
		default:
			panic(errors.New(kind))
		}
		u := make([]usage, len(phases))
		heap, routines := true, true
		for i, done := 0, 0; i < len(phases); i++ {
			before := events
			for ; done < phases[i]; done++ {
				phase()
			}
			u[i] = s.usage()
			s.Eval(1)
			s.Count(kind, events-before)
			if i == 0 {
				continue
			}
			s.Logf("after %d %s: %d bytes on the heap (%+d), %d library goroutines, %d sockets", events, kind, u[i].heap, u[i].heap-u[i-1].heap, u[i].library, u[i].sockets)
			heap = heap && u[i].heap-u[i-1].heap >= heapStep
			routines = routines && u[i].library-u[i-1].library >= routineStep
			if u[i].sockets > u[0].sockets {
				s.Fail("%s: %d sockets are open instead of %d", kind, u[i].sockets, u[0].sockets)
			}
		}
		last := u[len(u)-1]
		if routines {
			s.FailStacks(strings.Join(s.stacks[:min(20, len(s.stacks))], "\n\n"), "%s: the library's goroutines accumulate: %d after %d phases, %d after %d phases", kind, u[0].library, phases[0], last.library, phases[len(phases)-1])
		}
		for look, from := 0, last; look < 2 && heap; look++ { // it should go on like this
			for k := 0; k < 3*(phases[len(phases)-1]-phases[0]); k++ {
				phase()
			}
			v := s.usage()
			s.Logf("after %d %s: %d bytes on the heap (%+d)", events, kind, v.heap, v.heap-from.heap)
			s.Count("second looks", 1)
			heap = 2*(v.heap-from.heap) >= 3*(last.heap-u[0].heap)
			from = v
		}
		if heap {
			s.Fail("%s: memory accumulates: %d bytes after %d phases, %d after %d phases", kind, u[0].heap, phases[0], last.heap, phases[len(phases)-1])
		}
		s.Seen("%s %d", kind, events)
		for i := range u {
			s.Seen("%s %d", kind, u[i].heap)
		}
		if s.WantSample() {
			s.Sample(map[string]any{"kind": kind, "events": events, "heap": []int64{u[0].heap, last.heap}, "goroutines": []int{u[0].library, last.library}})
		}
		if n != nil {
			n.Stop()
		}
		if c != nil {
			c.Stop()
		}
	})
}

// idle makes the runtime have goroutines in store: it allocates them on the heap and keeps
// them for ever, as many as there ever were at the same time.
func idle() {
	var begun, ended sync.WaitGroup
	over := make(chan bool)
	for k := 0; k < 20000; k++ {
		begun.Add(1)
		ended.Add(1)
		go func() {
			begun.Done()
			<-over
			ended.Done()
		}()
	}
	begun.Wait()
	close(over)
	ended.Wait()
}
