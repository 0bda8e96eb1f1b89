// Package real runs controllers and nodes on real loopback sockets in real time,
// with the unmodified sources (no overlay), under the race detector. Nothing here
// depends on how fast anything is: the oracles are the race detector, the
// runtime's checks and that every call returns.
package real

import (
	"fmt"
	"math/rand/v2"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/gen"
	"verif/report"
	"verif/wire"
)

func TestC24(t *testing.T) {
	r := report.New()
	if r.Prop == "" {
		r.Prop = "C24"
	}
	if r.Prop != "C24" {
		t.Skip()
	}
	r.Watchdog(120 * time.Second)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		t.Skip(err)
	}
	stdout := os.Stdout
	n := r.Scale(24, 400)
	for i := 0; i < n; i++ {
		if !r.Mine(i) {
			continue
		}
		r.Case(i, "real sockets %d", i)
		os.Stdout = null // the default logger prints there
		log := artnet.NewDefaultLogger()
		os.Stdout = stdout
		one(r, r.Rand(i), log, byte(100+i%100))
	}
	r.Done()
}

// one runs controllers and nodes in the loopback network 127.N.0.0/16.
func one(r *report.Run, rng *rand.Rand, log artnet.Logger, no byte) {
	ip := func(k int) net.IP { return net.IP{127, no, 0, byte(k)} }
	hubAddr := net.UDPAddr{IP: ip(250), Port: wire.Port}
	hub, err := net.ListenUDP("udp4", &hubAddr)
	if err != nil {
		r.Count("real networks not available", 1)
		return
	}
	// the hub passes on what is sent to the broadcast address
	const members = 5
	var hubbed atomic.Int64
	done := make(chan struct{})
	go func() {
		defer close(done)
		b := make([]byte, 4096)
		for {
			n, _, err := hub.ReadFromUDP(b)
			if err != nil {
				return
			}
			for k := 1; k <= members; k++ {
				hub.WriteToUDP(b[:n], &net.UDPAddr{IP: ip(k), Port: wire.Port})
			}
			hubbed.Add(1)
		}
	}()
	var wg sync.WaitGroup
	var calls, starts, sends, busy atomic.Int64
	act := func(f func(rng *rand.Rand)) {
		a := rand.New(rand.NewPCG(rng.Uint64(), rng.Uint64()))
		wg.Add(1)
		go func() { defer wg.Done(); f(a) }()
	}
	pause := func(a *rand.Rand) {
		switch a.IntN(4) {
		case 0:
			time.Sleep(time.Duration(a.IntN(3000)) * time.Microsecond)
		case 1:
			time.Sleep(time.Duration(a.IntN(20)) * time.Millisecond)
		default:
			runtime.Gosched()
		}
	}
	var ctls []*artnet.Controller
	for k := 1; k <= 2; k++ {
		ctls = append(ctls, artnet.NewController(fmt.Sprint("c", k), ip(k), log, artnet.ListenIP(ip(k)), artnet.BroadcastAddr(hubAddr), artnet.MaxFPS([]int{44, 200, 1000}[rng.IntN(3)])))
	}
	var nodes []*artnet.Node
	var ports []artnet.OutputPort
	for u := uint8(0); u < 4; u++ {
		ports = append(ports, artnet.OutputPort{Address: artnet.Address{Net: 1, SubUni: 0x20 | u}})
	}
	for k := 3; k <= members; k++ {
		n := artnet.NewNode(fmt.Sprint("n", k), code.StNode, ip(k), log, artnet.NodeListenIP(ip(k)), artnet.NodeBroadcastAddress(hubAddr))
		n.Config.BaseAddress = artnet.Address{Net: 1, SubUni: 0x20}
		n.Config.OutputPorts = ports // shared
		n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) {
			calls.Add(1)
			_ = n.Connection()
			if calls.Load()%50 == 0 {
				n.RegisterCallback(code.OpSync, func(packet.ArtNetPacket) {})
			}
			if calls.Load()%400 == 0 {
				n.Stop()
			}
		})
		nodes = append(nodes, n)
	}
	own := func(a *rand.Rand, start func() error, stop func()) {
		for k := 2 + a.IntN(3); k > 0; k-- {
			if err := start(); err != nil {
				busy.Add(1)
			} else {
				starts.Add(1)
			}
			for j := 5 + a.IntN(40); j > 0; j-- {
				pause(a)
			}
			stop()
		}
	}
	for _, c := range ctls {
		act(func(a *rand.Rand) { own(a, c.Start, c.Stop) })
	}
	for _, n := range nodes {
		act(func(a *rand.Rand) { own(a, n.Start, n.Stop) })
	}
	for k := 0; k < 4; k++ {
		act(func(a *rand.Rand) {
			var f [512]byte
			for j := 0; j < 300; j++ {
				f[a.IntN(512)]++
				ctls[a.IntN(2)].SendDMXToAddress(f, artnet.Address{Net: 1, SubUni: 0x20 | uint8(a.IntN(4))})
				sends.Add(1)
				if a.IntN(3) == 0 {
					pause(a)
				}
			}
		})
	}
	act(func(a *rand.Rand) {
		for j := 0; j < 150; j++ {
			b, _ := gen.Input(a)
			if a.IntN(2) == 0 {
				b = gen.Valid(a, []*wire.Type{wire.Poll, wire.PollReply, wire.DMX, wire.Sync}[a.IntN(4)])
			}
			hub.WriteToUDP(b, &net.UDPAddr{IP: ip(1 + a.IntN(members)), Port: wire.Port})
			pause(a)
		}
	})
	act(func(a *rand.Rand) {
		for j := 0; j < 10; j++ {
			time.Sleep(time.Duration(a.IntN(40)) * time.Millisecond)
			if a.IntN(2) == 0 {
				nodes[a.IntN(len(nodes))].Stop()
			} else {
				ctls[a.IntN(2)].Stop()
			}
		}
	})
	wg.Wait()
	for _, c := range ctls {
		c.Stop()
	}
	for _, n := range nodes {
		n.Stop()
	}
	hub.Close()
	<-done
	r.Eval(int(sends.Load() + starts.Load() + calls.Load()))
	r.Count("real: sends", int(sends.Load()))
	r.Count("real: starts", int(starts.Load()))
	r.Count("real: starts refused", int(busy.Load()))
	r.Count("real: DMX callbacks", int(calls.Load()))
	r.Count("real: broadcasts", int(hubbed.Load()))
	r.Seen("real %d %d %d", starts.Load(), calls.Load(), hubbed.Load())
}
