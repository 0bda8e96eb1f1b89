package system

import (
	"fmt"
	"net"
	"reflect"
	"slices"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"verif/wire"
)

var rates = []int{1, 2, 5, 10, 30, 44, 100, 250, 1000}

// TestC17: a running controller polls on schedule and answers its own poll.
func TestC17(t *testing.T) {
	r := begin(t, "C17")
	cases(t, r, r.Scale(1000, 12000), "poll schedules", func(s *sim) {
		s.neighbour(8, true)
		var bc net.UDPAddr
		var opts []artnet.Option
		if s.chance(4) {
			bc = net.UDPAddr{IP: net.IP{10, byte(s.IntN(256)), 255, 255}, Port: 1 + s.IntN(65535)}
			opts = append(opts, artnet.BroadcastAddr(bc))
		}
		fps := rates[s.IntN(len(rates))]
		if s.no%640 == 7 {
			fps = 1
		}
		c := s.controller(fps, s.chance(10), opts...)
		if len(opts) == 0 {
			bc = c.bc
		}
		cfg := contCfg("ctl", hostIP)
		var devs []*device
		for i := s.IntN(5); i > 0; i-- {
			devs = append(devs, &device{ip: net.IP{10, 3, 0, byte(i)}, bind: 1, net: uint8(i), sub: 1, out: []uint8{1, 2, 3, 4}[:1+s.IntN(4)], name: "d"})
		}
		many := s.chance(25)
		if many {
			for i := 20 + s.IntN(80); i > 0; i-- {
				devs = append(devs, &device{ip: net.IP{10, 3, 1, byte(i)}, bind: 1, net: uint8(i), sub: uint8(s.IntN(16)), out: []uint8{1, 2, 3, 4}[:1+s.IntN(4)], name: "m"})
			}
		}
		for life := 1 + s.IntN(3); ; life-- {
			from, start := c.from, c.start
			var foreign []time.Duration
			end := s.dur(40 * time.Second)
			if s.chance(10) {
				end *= 10
			}
			busy := s.IntN(3)
			if many {
				end = min(end, 15*time.Second)
			}
			marathon := fps <= 5 && !many && s.chance(6)
			if marathon { // mostly idle for hours
				end = 20*time.Minute + s.dur(2*time.Hour)
			}
			if s.no%640 == 7 && life == 1 { // more polls than sixteen bits count
				end = 55 * time.Hour
			}
			// the start itself, before anything else happens
			synctest.Wait()
			for time.Since(start) < end {
				switch s.IntN(7) {
				case 0, 1:
					if busy > 0 && len(devs) > 0 {
						d := devs[s.IntN(len(devs))]
						s.announce(c.conn, d)
						if many {
							for _, d := range devs {
								s.announce(c.conn, d)
							}
						}
					}
					if busy > 0 && s.chance(2) { // equipment of every other kind, other controllers
						k := 1
						if s.chance(8) {
							k = 1 + s.IntN(40)
						}
						for ; k > 0; k-- {
							d := &device{ip: net.IP{10, 3, 2, byte(s.IntN(256))}, bind: uint8(s.IntN(256)), style: uint8(s.IntN(7)), net: uint8(s.IntN(128)), sub: uint8(s.IntN(16)), out: s.pick(s.IntN(5), 16), in: s.pick(s.IntN(5), 16), name: "other"}
							if s.chance(20) { // another program on the controller's host
								d.ip, d.bind = hostIP, uint8(s.IntN(3))
							}
							s.announce(c.conn, d)
						}
					}
				case 2:
					k := s.IntN(2)
					if busy == 2 {
						k = s.IntN(30)
					}
					c.off()
					for ; k > 0; k-- {
						c.conn.Inject(s.foreign(), s.poll())
						foreign = append(foreign, time.Since(start))
					}
				case 6: // other controllers poll at the same instant
					time.Sleep(3*time.Second - time.Since(start)%(3*time.Second))
					for k := s.IntN(40) * s.IntN(4); k > 0; k-- {
						c.conn.Inject(s.foreign(), s.poll())
						foreign = append(foreign, time.Since(start))
					}
				case 3:
					if len(devs) > 0 {
						for k := s.IntN(40); k > 0; k-- {
							d := devs[s.IntN(len(devs))]
							c.SendDMXToAddress([512]byte{byte(k)}, d.addr(1))
						}
					}
				case 4:
					b, _ := s.refused()
					c.conn.Inject(s.foreign(), b)
				case 5:
					time.Sleep(s.dur(4 * time.Second))
					if marathon {
						time.Sleep(s.dur(10 * time.Minute))
					}
					if end > 50*time.Hour {
						time.Sleep(s.dur(5 * time.Hour))
					}
				}
				time.Sleep(s.dur(time.Second))
				if s.chance(3) {
					synctest.Wait()
				}
			}
			synctest.Wait()
			c.off()
			synctest.Wait()
			stop := time.Since(start)
			c.Stop()
			synctest.Wait()
			// the monitor
			var polls, replies []time.Duration
			for _, ev := range s.w.Events(from) {
				at := ev.T.Sub(start)
				switch {
				case wire.Op(ev.Data) == wire.Poll.Op:
					if !isPoll(ev.Data) {
						s.Fail("invalid poll % x", ev.Data)
					}
					if !sameAddr(ev.To, bc) {
						s.Fail("poll sent to %v instead of %v", &ev.To, &bc)
					}
					polls = append(polls, at)
				case wire.Op(ev.Data) == wire.PollReply.Op:
					if why := isReply(cfg, ev.Data); why != "" {
						s.Fail("%s", why)
					}
					if !sameAddr(ev.To, bc) {
						s.Fail("poll reply sent to %v instead of %v", &ev.To, &bc)
					}
					replies = append(replies, at)
				case wire.Op(ev.Data) == wire.DMX.Op:
				default:
					s.Fail("unexpected datagram % x", ev.Data[:min(20, len(ev.Data))])
				}
			}
			s.Eval(len(polls) + 1)
			s.Count("polls", len(polls))
			s.Count("replies", len(replies))
			if len(polls) == 0 || polls[0] > 100*time.Millisecond {
				s.Fail("no poll at start: %v", polls)
			}
			for i, p := range append(polls, stop) {
				if i == 0 {
					continue
				}
				gap := p - polls[i-1]
				if gap > 3*time.Second || i < len(polls) && gap < 2500*time.Millisecond {
					s.Fail("%v between polls (at %v; until %v)", gap, polls, stop)
				}
			}
			// one reply for each poll of its own and each foreign poll, before the next own poll
			for i, p := range polls {
				next := stop
				if i+1 < len(polls) {
					next = polls[i+1]
				}
				want, got := 1, 0
				for _, f := range foreign {
					if f >= p && f < next {
						want++
					}
				}
				for _, q := range replies {
					if q >= p && q < next {
						got++
					}
				}
				if got != want {
					s.Fail("%d replies from %v to %v instead of %d (own poll and foreign ones)", got, p, next, want)
				}
			}
			s.Seen("%d %d %d %d %d", fps, len(polls), len(foreign), len(devs), busy)
			if s.WantSample() {
				s.Sample(map[string]any{"frame rate": fps, "polls": len(polls), "foreign polls": len(foreign), "devices": len(devs), "seconds": stop.Seconds()})
			}
			if life <= 1 {
				return
			}
			time.Sleep(s.dur(5 * time.Second))
			s.run(c)
		}
	})
}

// model is what the controller should know.
type model struct {
	nodes   map[string]*mnode
	out, in map[artnet.Address]string
}

type mnode struct {
	d       device
	seen    time.Time // when it was last heard
	since   time.Time // the same, or earlier if that is not certain
	out, in []artnet.Address
	cfg     artnet.NodeConfig // the configuration it announced
}

func newModel() *model {
	return &model{nodes: map[string]*mnode{}, out: map[artnet.Address]string{}, in: map[artnet.Address]string{}}
}

// announce applies an announcement.
func (m *model) announce(d *device, now time.Time) {
	if d.style > 1 || d.style == 1 && len(d.out) == 0 {
		return
	}
	k := d.key()
	m.unroute(k)
	n := &mnode{d: *d, seen: now, since: now, cfg: d.announced()}
	for _, u := range d.out {
		n.out = append(n.out, d.addr(u))
		m.out[d.addr(u)] = k
	}
	for _, u := range d.in {
		n.in = append(n.in, d.addr(u))
		m.in[d.addr(u)] = k
	}
	m.nodes[k] = n
}

func (m *model) unroute(k string) {
	for a, o := range m.out {
		if o == k {
			delete(m.out, a)
		}
	}
	for a, o := range m.in {
		if o == k {
			delete(m.in, a)
		}
	}
}

func (m *model) remove(k string) {
	m.unroute(k)
	delete(m.nodes, k)
}

// sync compares the controller's tables with the model; nodes silent for 7 to 10
// seconds may be gone or not, the model follows what is observed.
func (s *sim) sync(m *model, c *artnet.Controller, what string) {
	s.Eval(1)
	now := time.Now()
	nodes, out, in := tables(c)
	listed := map[string]int{}
	for _, k := range nodes {
		listed[k]++
		if listed[k] > 1 {
			s.Fail("%s: node %s is listed twice: %v", what, k, nodes)
		}
	}
	for k, n := range m.nodes {
		age := now.Sub(n.seen)
		switch {
		case age > 10*time.Second:
			if listed[k] > 0 {
				s.Fail("%s: node %s is still listed %v after it was last heard", what, k, age)
			}
			m.remove(k)
		case now.Sub(n.since) > 7*time.Second:
			if listed[k] == 0 {
				m.remove(k)
			}
		default:
			if listed[k] == 0 {
				s.Fail("%s: node %s, heard %v ago, is not listed: %v", what, k, age, nodes)
			}
		}
	}
	for k := range listed {
		if m.nodes[k] == nil {
			s.Fail("%s: node %s is listed, but should not be", what, k)
		}
	}
	for _, x := range []struct {
		name      string
		want, got map[artnet.Address]string
	}{{"OutputAddress", m.out, out}, {"InputAddress", m.in, in}} {
		for a, k := range x.want {
			if x.got[a] != k {
				s.Fail("%s: %s: universe %v should be routed to %s, but is to %q (%v)", what, x.name, a, k, x.got[a], addrs(x.got))
			}
		}
		for a, k := range x.got {
			if x.want[a] == "" {
				s.Fail("%s: %s: universe %v is routed to %s, but should not be routed", what, x.name, a, k)
			}
		}
	}
	for _, n := range c.Nodes {
		k := fmt.Sprintf("%v/%d", n.Node.IP, n.Node.BindIndex)
		var o, i []artnet.Address
		for _, p := range n.Node.OutputPorts {
			o = append(o, p.Address)
		}
		for _, p := range n.Node.InputPorts {
			i = append(i, p.Address)
		}
		if w := m.nodes[k]; !sameSet(o, w.out) || !sameSet(i, w.in) {
			s.Fail("%s: node %s is listed with outputs %v inputs %v instead of %v %v", what, k, o, i, w.out, w.in)
		}
		if !reflect.DeepEqual(n.Node, m.nodes[k].cfg) { // which may still be the same when printed
			if got, want := fmt.Sprintf("%+v", n.Node), fmt.Sprintf("%+v", m.nodes[k].cfg); got != want {
				s.Fail("%s: node %s is listed with the configuration\n%s\nbut announced\n%s", what, k, got, want)
			}
		}
		if n.Node.Name != m.nodes[k].d.name {
			s.Fail("%s: node %s is listed under the name %q instead of %q", what, k, n.Node.Name, m.nodes[k].d.name)
		}
		if !n.UDPAddress.IP.Equal(n.Node.IP) || n.UDPAddress.Port != wire.Port {
			s.Fail("%s: node %s has the address %v", what, k, &n.UDPAddress)
		}
	}
	// the pointers in the address tables are the listed nodes
	for a, n := range c.OutputAddress {
		ok := false
		for _, x := range c.Nodes {
			ok = ok || x == n
		}
		if !ok {
			s.Fail("%s: universe %v is routed to a node that is not listed", what, a)
		}
	}
	for a, n := range c.InputAddress {
		ok := false
		for _, x := range c.Nodes {
			ok = ok || x == n
		}
		if !ok {
			s.Fail("%s: input universe %v belongs to a node that is not listed", what, a)
		}
	}
}

// sameSet tells whether two lists are the same but for their order.
func sameSet(a, b []artnet.Address) bool {
	sorted := func(x []artnet.Address) []artnet.Address {
		x = slices.Clone(x)
		sort.Slice(x, func(i, j int) bool {
			return x[i].Net < x[j].Net || x[i].Net == x[j].Net && x[i].SubUni < x[j].SubUni
		})
		return x
	}
	return slices.Equal(sorted(a), sorted(b))
}

// pick takes up to n different low nibbles.
func (s *sim) pick(n, pool int) []uint8 {
	var out []uint8
	for _, x := range s.Perm(pool)[:min(n, pool)] {
		out = append(out, uint8(x))
	}
	return out
}

// TestC18: DMX routing follows the latest announcements.
func TestC18(t *testing.T) {
	r := begin(t, "C18")
	cases(t, r, r.Scale(10000, 120000), "announcements", func(s *sim) {
		s.neighbour(10, true)
		fps := []int{4, 10, 30, 44, 100}[s.IntN(5)]
		c := s.controller(fps, s.chance(10))
		m := newModel()
		// a pool of devices; several bound ones share an address, universes collide
		var pool []*device
		nip := 1 + s.IntN(5)
		universes := 2 + s.IntN(7)
		nets := 1 + s.IntN(2)
		if s.chance(40) {
			nip = 10 + s.IntN(90)
		}
		if s.no%5000 == 7 { // more nodes than a byte counts
			nip = 200
		}
		pos := s.IntN(4) // the addresses differ in this byte
		for i := 0; i < nip; i++ {
			for b := 1 + s.IntN(3); b > 0; b-- {
				ip := net.IP{byte(10 + 2*s.IntN(2)), 4, 0, 1}
				ip[pos] = byte(11 + i)
				if s.chance(40) { // on the controller's own host
					ip = net.IP{127, 0, 0, byte(1 + s.IntN(3))}
					if s.chance(2) {
						ip = hostIP
					}
				}
				bind := uint8(b - s.IntN(2))
				if s.chance(5) {
					bind = []uint8{0, 1, 2, 3, 16, 17, 128, 129, 255}[s.IntN(9)]
				}
				d := &device{ip: ip, bind: bind, net: uint8(s.IntN(nets)), sub: uint8(s.IntN(2)), name: fmt.Sprintf("n%d", len(pool))}
				if s.chance(40) {
					d.net, d.sub = 127, 15
				}
				if s.chance(40) {
					d.name = "ctl" // as the controller itself
				}
				switch s.IntN(8) {
				case 0:
					d.style = uint8(2 + s.IntN(5)) // ignored
				case 1, 2:
					d.style = 1
				}
				dup := false
				for _, o := range pool {
					dup = dup || o.key() == d.key()
				}
				if !dup {
					pool = append(pool, d)
				}
			}
		}
		if s.chance(6) { // a controller without outputs, never with
			pool = append(pool, &device{ip: net.IP{10, 4, 9, 9}, style: 1, name: "input only"})
		}
		ports := func(d *device) {
			d.out, d.in = s.pick(s.IntN(5), universes), s.pick(s.IntN(4), universes)
			if d.name == "input only" {
				d.out = nil
			} else if d.style == 1 && len(d.out) == 0 {
				d.out = s.pick(1, universes) // a controller never drops all its outputs here
			}
			if len(d.out) > 0 && len(d.out) < 4 && s.chance(6) {
				d.out = append(d.out, d.out[s.IntN(len(d.out))]) // one universe on two ports
			}
			if len(d.in) > 0 && len(d.in) < 4 && s.chance(6) {
				d.in = append(d.in, d.in[s.IntN(len(d.in))])
			}
			if d.style < 2 && len(d.out) > 0 && s.chance(6) {
				d.style ^= 1 // a controller with outputs is as good as a node
			}
			if s.chance(6) {
				d.name = fmt.Sprintf("n%d", s.IntN(1000))
				if d.style == 1 && len(d.out) == 0 {
					d.name = "input only"
				}
			}
		}
		for _, d := range pool {
			ports(d)
		}
		sig := ""
		marks := map[byte]bool{}
		last := s.w.NumEvents()
		// traffic checks the datagrams since the last call: routes before and after
		check := func(what string, before map[artnet.Address]string) {
			synctest.Wait()
			s.sync(m, c.Controller, what)
			for _, ev := range s.w.Events(last) {
				if wire.Op(ev.Data) != wire.DMX.Op {
					continue
				}
				x, why := parseDMX(ev)
				if why != "" {
					s.Fail("%s", why)
				}
				s.Count("DMX datagrams", 1)
				if mark := x.data[2]; x.data != [512]byte{} && (x.data != frameOf(x.uni, mark) || !marks[mark]) {
					s.Fail("%s: universe %v got data that was never sent to it: % x...", what, x.uni, x.data[:16])
				}
				ok := false
				for _, route := range []map[artnet.Address]string{before, m.out} {
					if k := route[x.uni]; k != "" && hostPart(k) == ev.To.IP.String() && ev.To.Port == wire.Port {
						ok = true
					}
				}
				if !ok {
					s.Fail("%s: DMX for universe %v was sent to %v; routed to %q before and %q after", what, x.uni, &ev.To, before[x.uni], m.out[x.uni])
				}
			}
			last = s.w.NumEvents()
		}
		copyOut := func() map[artnet.Address]string {
			o := map[artnet.Address]string{}
			for a, k := range m.out {
				o[a] = k
			}
			return o
		}
		if len(pool) > 20 { // everybody at once, one after the other
			for _, d := range pool {
				c.off()
				before := copyOut()
				s.announce(c.conn, d)
				m.announce(d, time.Now())
				check("announcement of "+d.key(), before)
				s.Count("announcements", 1)
			}
		}
		steps := 5 + s.IntN(30)
		for ; steps > 0; steps-- {
			c.off()
			switch s.IntN(10) {
			case 0, 1, 2, 3: // one announcement, often changed
				d := pool[s.IntN(len(pool))]
				if s.chance(2) {
					ports(d)
				}
				before := copyOut()
				s.announce(c.conn, d)
				m.announce(d, time.Now())
				sig += "a"
				check("announcement of "+d.key(), before)
				s.Count("announcements", 1)
			case 4: // several at once, of devices that do not interfere
				before := copyOut()
				blocked := s.chance(3) // the network takes nothing for a while, so everything backs up
				if blocked {
					s.logf("the network blocks")
					s.w.HoldWrites()
					for k := s.IntN(60); k > 0; k-- {
						c.conn.Inject(s.foreign(), s.poll())
					}
					time.Sleep(s.dur(4 * time.Second))
					sig += "b"
				}
				var group []*device
				sent := time.Now()
				used, keys := map[artnet.Address]bool{}, map[string]bool{}
				for _, d := range pool {
					if !s.chance(2) {
						continue
					}
					clash := keys[d.key()]
					for _, u := range append(append([]uint8(nil), d.out...), d.in...) {
						clash = clash || used[d.addr(u)]
					}
					if n := m.nodes[d.key()]; n != nil { // what it gives up counts too
						for _, a := range append(append([]artnet.Address(nil), n.out...), n.in...) {
							clash = clash || used[a]
						}
					}
					if clash {
						continue
					}
					keys[d.key()] = true
					for _, u := range append(append([]uint8(nil), d.out...), d.in...) {
						used[d.addr(u)] = true
					}
					if n := m.nodes[d.key()]; n != nil {
						for _, a := range append(append([]artnet.Address(nil), n.out...), n.in...) {
							used[a] = true
						}
					}
					s.announce(c.conn, d)
					group = append(group, d)
					for blocked && s.chance(2) { // more than once
						c.conn.Inject(s.source(d), d.last)
					}
				}
				if blocked {
					time.Sleep(s.dur(time.Second))
					s.w.ReleaseWrites()
					c.off()
					synctest.Wait()
				}
				for _, d := range group {
					m.announce(d, time.Now())
					if n := m.nodes[d.key()]; n != nil {
						n.since = sent
					}
					s.Count("announcements", 1)
				}
				sig += "m"
				check("a group of announcements", before)
			case 5, 6: // everybody known stays alive while time passes
				before := copyOut()
				time.Sleep(s.dur(3 * time.Second))
				c.off()
				synctest.Wait()
				check("time passing", before)
				for _, d := range pool {
					if n := m.nodes[d.key()]; n != nil && s.IntN(4) > 0 {
						before := copyOut()
						if fmt.Sprint(n.d.out, n.d.in) != fmt.Sprint(d.out, d.in) {
							continue
						}
						s.announce(c.conn, d)
						m.announce(d, time.Now())
						check("renewal of "+d.key(), before)
					}
				}
				sig += "t"
			case 7: // silence
				before := copyOut()
				time.Sleep(s.dur(14 * time.Second))
				c.off()
				synctest.Wait()
				sig += "s"
				check("silence", before)
			case 8, 9: // DMX to every universe there is
				before := copyOut()
				mark := byte(1 + s.IntN(255))
				marks[mark] = true
				all := map[artnet.Address]bool{}
				for _, d := range pool {
					for u := 0; u < universes; u++ {
						all[d.addr(uint8(u))] = true
					}
				}
				from := s.w.NumEvents()
				for a := range all {
					c.SendDMXToAddress(frameOf(a, mark), a)
				}
				time.Sleep(c.frame)
				synctest.Wait()
				arrived := map[artnet.Address]bool{}
				for _, ev := range s.w.Events(from) {
					if x, why := parseDMX(ev); why == "" {
						if x.data == frameOf(x.uni, mark) {
							arrived[x.uni] = true
						}
					}
				}
				check("sending DMX", before)
				for a := range all {
					s.Eval(1)
					if k := m.out[a]; k != "" && before[a] == k && !arrived[a] {
						s.Fail("DMX sent to universe %v did not go to %s within a frame", a, k)
					}
					if m.out[a] == "" && before[a] == "" && arrived[a] {
						s.Fail("DMX sent to universe %v went out although nobody announces it", a)
					}
				}
				sig += "d"
			}
			s.Seen("%v", addrs2(m.out))
		}
		if s.WantSample() {
			s.Sample(map[string]any{"devices": len(pool), "history": sig, "final routes": addrs2(m.out)})
		}
		c.Stop()
	})
}

func addrs2(m map[artnet.Address]string) []string {
	var out []string
	for a, k := range m {
		out = append(out, fmt.Sprintf("%v->%s", a, k))
	}
	sort.Strings(out)
	return out
}

func hostPart(k string) string {
	for i := range k {
		if k[i] == '/' {
			return k[:i]
		}
	}
	return k
}

// frameOf is a frame that tells its universe.
func frameOf(a artnet.Address, mark byte) (f [512]byte) {
	for i := range f {
		f[i] = byte(i)*7 + a.SubUni*31 + a.Net*13 + mark
	}
	f[0], f[1], f[2], f[511] = a.Net, a.SubUni, mark, ^mark
	return
}
