package system

import (
	"fmt"
	"maps"
	"net"
	"slices"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"verif/wire"
)

// TestC23: silent nodes expire and only silent nodes expire.
func TestC23(t *testing.T) {
	r := begin(t, "C23")
	cases(t, r, r.Scale(2800, 40000), "expiries", func(s *sim) {
		if s.no%350 == 5 {
			s.exodus()
			return
		}
		s.neighbour(8, true)
		fps := []int{4, 10, 25, 44}[s.IntN(4)]
		c := s.controller(fps, s.chance(20))
		m := newModel()
		type dev struct {
			device
			next  time.Time // when it announces itself next; zero: silent
			pace  time.Duration
			home  []uint8
			fresh bool // the next datagram to it is the first of a new discovery
		}
		var pool []*dev
		nd := 1 + s.IntN(6)
		if s.chance(5) {
			nd = 10 + s.IntN(20)
		}
		for i := 0; i < nd; i++ {
			d := &dev{device: device{ip: net.IP{10, 6, byte(i % 3), byte(i / 3)}, bind: uint8(s.IntN(3)), net: uint8(i % 8), sub: uint8(i / 8), name: fmt.Sprintf("d%d", i)}}
			if i > 0 && s.chance(5) { // bound to the address of the one before
				d.ip, d.bind = pool[i-1].ip, pool[i-1].bind+1
			}
			// neighbours on the same net and sub-net share universes sometimes
			if i > 0 && s.chance(3) {
				d.net, d.sub = pool[i-1].net, pool[i-1].sub
			}
			d.home = s.pick(s.IntN(4)+s.IntN(2), 4)
			d.out = d.home
			d.in = s.pick(s.IntN(4), 4)
			d.pace = []time.Duration{200*time.Millisecond + s.dur(6799*time.Millisecond), 6990 * time.Millisecond, 3 * time.Second, 500*time.Millisecond + s.dur(2*time.Second)}[s.IntN(4)] + time.Millisecond
			pool = append(pool, d)
		}
		last := s.w.NumEvents()
		lastAt := time.Now()
		var history string
		check := func(what string, before map[artnet.Address]string) {
			synctest.Wait()
			s.sync(m, c.Controller, what)
			got := map[artnet.Address]bool{}
			for _, ev := range s.w.Events(last) {
				if wire.Op(ev.Data) != wire.DMX.Op {
					continue
				}
				x, why := parseDMX(ev)
				if why != "" {
					s.Fail("%s", why)
				}
				s.Count("DMX datagrams", 1)
				ok := ""
				for _, route := range []map[artnet.Address]string{before, m.out} {
					if k := route[x.uni]; k != "" && hostPart(k) == ev.To.IP.String() && ev.To.Port == wire.Port {
						ok = k
					}
				}
				if ok == "" {
					s.Fail("%s: DMX for universe %v was sent to %v; routed to %q before and %q after", what, x.uni, &ev.To, before[x.uni], m.out[x.uni])
				}
				got[x.uni] = true
				for _, d := range pool {
					if d.key() == ok && d.fresh {
						d.fresh = false
						if x.seq != 1 {
							s.Fail("%s: %s was discovered anew, but its first datagram has sequence number %d", what, ok, x.seq)
						}
						if x.data != [512]byte{} {
							s.Fail("%s: %s was discovered anew, but universe %v starts with old data", what, ok, x.uni)
						}
					}
				}
			}
			if time.Since(lastAt) > 250*time.Millisecond+3*c.frame {
				for a, k := range m.out {
					s.Eval(1)
					if before[a] == k && !got[a] {
						s.Fail("%s: universe %v is routed to %s, but got no datagram in %v", what, a, k, time.Since(lastAt))
					}
				}
			}
			last, lastAt = s.w.NumEvents(), time.Now()
		}
		out := func() map[artnet.Address]string {
			o := map[artnet.Address]string{}
			for a, k := range m.out {
				o[a] = k
			}
			return o
		}
		announce := func(d *dev) {
			c.off()
			before := out()
			synctest.Wait()
			check("before an announcement", before)
			before = out()
			// what it says of itself may change from one announcement to the next
			if s.chance(3) {
				d.name = fmt.Sprintf("d%d", s.IntN(1000))[:s.IntN(3)]
			}
			if s.chance(6) {
				d.in = s.pick(s.IntN(4), 4)
			}
			if s.chance(6) {
				d.style ^= 1
			}
			if len(d.out) == 0 {
				d.style = 0
			}
			if m.nodes[d.key()] == nil {
				d.fresh = len(d.out) > 0
				s.Count("discoveries", 1)
			}
			s.announce(c.conn, &d.device)
			m.announce(&d.device, time.Now())
			check("announcement of "+d.key(), before)
			if d.pace > 0 {
				d.next = time.Now().Add(d.pace)
			}
		}
		for _, d := range pool {
			if s.IntN(4) > 0 {
				announce(d)
				if s.chance(2) {
					time.Sleep(s.dur(time.Second))
				}
			}
		}
		end := time.Now().Add(20*time.Second + s.dur(60*time.Second))
		if s.chance(4) { // a crowd that is of no interest makes itself heard whenever the controller polls
			var crowd [][]byte
			for k := 1 + s.IntN(60); k > 0; k-- {
				d := &device{ip: net.IP{10, 6, 9, byte(k)}, style: uint8(2 + s.IntN(5)), out: s.pick(4, 16), name: "crowd"}
				crowd = append(crowd, d.reply(s.Rand))
			}
			s.logf("with a crowd of %d", len(crowd))
			s.Count("crowds", 1)
			stop := make(chan struct{})
			defer close(stop)
			ticker := time.NewTicker(time.Until(c.start.Add(3 * time.Second * (1 + time.Since(c.start)/(3*time.Second)))))
			go func() {
				defer ticker.Stop()
				for {
					select {
					case <-ticker.C:
						ticker.Reset(3 * time.Second)
						for _, b := range crowd {
							c.conn.Inject(net.UDPAddr{IP: net.IP{10, 6, 9, 1}, Port: wire.Port}, b)
						}
					case <-stop:
						return
					}
				}
			}()
		}
		for time.Now().Before(end) {
			// the next thing to happen: an announcement, a check at an age that matters, or
			// something at random
			at := time.Now().Add(s.dur(4 * time.Second))
			var due *dev
			for _, d := range pool {
				if !d.next.IsZero() && d.next.Before(at) {
					at, due = d.next, d
				}
			}
			for _, k := range slices.Sorted(maps.Keys(m.nodes)) {
				n := m.nodes[k]
				for _, age := range []time.Duration{7 * time.Second, 10*time.Second + 1} {
					if x := n.seen.Add(age); x.After(time.Now()) && x.Before(at) && s.chance(2) {
						at, due = x, nil
					}
				}
			}
			before := out()
			time.Sleep(time.Until(at))
			synctest.Wait()
			check("time passing", before)
			if due != nil {
				announce(due)
				continue
			}
			switch s.IntN(6) {
			case 0: // some fall silent together
				n := 1 + s.IntN(3)
				if s.chance(3) {
					n = len(pool)
				}
				for ; n > 0; n-- {
					d := pool[s.IntN(len(pool))]
					if !d.next.IsZero() {
						d.next = time.Time{}
						s.logf("%s falls silent", d.key())
						history += "s"
						s.Count("fallen silent", 1)
						if s.chance(2) { // another one takes its universes over meanwhile
							for _, o := range pool {
								if o != d && o.net == d.net && o.sub == d.sub && !o.next.IsZero() {
									o.out = d.out
									announce(o)
									history += "T"
									break
								}
							}
						}
					}
				}
			case 1, 2: // one returns
				d := pool[s.IntN(len(pool))]
				if d.next.IsZero() {
					if s.chance(2) {
						d.out = d.home
					}
					announce(d)
					history += "r"
				}
			case 3: // DMX, but only to those that have been served before: a first datagram stays all zero
				c.off()
				served := map[string]bool{}
				for _, d := range pool {
					served[d.key()] = !d.fresh
				}
				for _, d := range pool {
					for _, u := range d.out {
						if served[m.out[d.addr(u)]] {
							c.SendDMXToAddress(frameOf(d.addr(u), byte(1+s.IntN(255))), d.addr(u))
							s.Count("sends", 1)
						}
					}
				}
			case 4:
				if s.chance(8) { // everybody at once
					before := out()
					for _, d := range pool {
						d.next = time.Time{}
					}
					time.Sleep(10*time.Second + s.dur(4*time.Second))
					synctest.Wait()
					check("all silent", before)
					history += "S"
				}
			}
			s.Seen("%d %s", len(m.nodes), history[max(0, len(history)-6):])
		}
		if s.WantSample() {
			s.Sample(map[string]any{"devices": nd, "history (s silent, T takeover, r return, S all silent)": history, "frame rate": fps})
		}
		c.Stop()
	})
}

// exodus has most of a large installation fall silent together.
func (s *sim) exodus() {
	c := s.controller([]int{10, 25, 44}[s.IntN(3)], false)
	m := newModel()
	n := []int{150, 260, 520, 1100}[s.IntN(4)]
	var devs []*device
	for i := 0; i < n; i++ {
		d := &device{ip: net.IP{10, 8, byte(i / 250), byte(1 + i%250)}, bind: uint8(s.IntN(2)), net: uint8(i / 64), sub: uint8(i / 4 % 16), name: fmt.Sprintf("dev%d", i)}
		for u := 0; u < 1+s.IntN(3); u++ {
			d.out = append(d.out, uint8(4*(i%4)+u))
		}
		if s.chance(2) {
			d.in = []uint8{uint8(4 * (i % 4))}
		}
		devs = append(devs, d)
	}
	stay := map[*device]bool{}
	every := []int{0, 2, 10, 50}[s.IntN(4)]
	for i, d := range devs {
		if every > 0 && s.chance(every) || s.IntN(2) == 0 && i == n-1 {
			stay[d] = true
		}
	}
	announce := func(who func(d *device) bool) {
		c.off()
		for _, d := range devs {
			if who(d) {
				s.announce(c.conn, d)
				m.announce(d, time.Now())
			}
		}
		synctest.Wait()
		s.sync(m, c.Controller, "an announcement")
	}
	all := func(*device) bool { return true }
	staying := func(d *device) bool { return stay[d] }
	announce(all)
	heard := time.Now()
	for round := 0; round < 2; round++ {
		for k := 0; k < 3; k++ {
			time.Sleep(time.Second + s.dur(900*time.Millisecond))
			announce(staying)
		}
		time.Sleep(time.Until(heard.Add(10*time.Second + 1 + s.dur(4)*s.dur(time.Second)/2)))
		if s.chance(2) {
			announce(staying)
		}
		synctest.Wait()
		s.sync(m, c.Controller, fmt.Sprintf("%d of %d devices silent", n-len(stay), n))
		if len(m.nodes) != len(stay) {
			s.Inconclusive("%d devices in the model, %d stayed", len(m.nodes), len(stay))
		}
		before := s.w.NumEvents()
		time.Sleep(300*time.Millisecond + 2*c.frame)
		synctest.Wait()
		s.sync(m, c.Controller, "after the exodus")
		served := map[artnet.Address]bool{}
		for _, ev := range s.w.Events(before) {
			if wire.Op(ev.Data) != wire.DMX.Op {
				continue
			}
			x, why := parseDMX(ev)
			if why != "" {
				s.Fail("%s", why)
			}
			s.Count("DMX datagrams", 1)
			s.Eval(1)
			if k := m.out[x.uni]; k == "" || hostPart(k) != ev.To.IP.String() {
				s.Fail("%d of %d devices fell silent; DMX for universe %v was sent to %v afterwards", n-len(stay), n, x.uni, &ev.To)
			}
			served[x.uni] = true
		}
		for a, k := range m.out {
			if !served[a] {
				s.Fail("%d of %d devices fell silent; universe %v of %s, which did not, is served no longer", n-len(stay), n, a, k)
			}
		}
		s.Count("fallen silent", n-len(stay))
		s.Seen("exodus %d %d", n, len(stay))
		// they return
		before = s.w.NumEvents()
		announce(all)
		heard = time.Now()
		time.Sleep(2 * c.frame)
		synctest.Wait()
		met := map[string]bool{}
		for _, ev := range s.w.Events(before) {
			if wire.Op(ev.Data) != wire.DMX.Op {
				continue
			}
			x, _ := parseDMX(ev)
			if k := m.out[x.uni]; !met[k] {
				met[k] = true
				if !stay[byKey(devs, k)] && x.seq != 1 {
					s.Fail("%s was discovered anew, but its first datagram has sequence number %d", k, x.seq)
				}
			}
		}
		s.w.Forget()
	}
	s.Count("exoduses", 1)
	c.Stop()
}

func byKey(devs []*device, k string) *device {
	for _, d := range devs {
		if d.key() == k {
			return d
		}
	}
	return nil
}
