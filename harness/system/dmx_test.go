package system

import (
	"fmt"
	"math/rand/v2"
	"net"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"verif/verifnet"
	"verif/wire"
)

// send is one call of SendDMXToAddress.
type send struct {
	uni        artnet.Address
	data       [512]byte
	begin, end int64 // logical times around the call
	t          time.Time
}

// span is a time during which a universe is routed to a device.
type span struct {
	dev   string
	epoch int // which discovery of the device
	ip    net.IP
	uni   artnet.Address
	start time.Time
	sure  time.Time // routed at least until here (zero: to the end)
	gone  time.Time // not routed after this
}

// load is the workload of one controller and everything that was recorded.
type load struct {
	s    *sim
	c    *control
	pool []*ldev
	all  []artnet.Address

	mu    sync.Mutex
	sends []*send
	byVal map[[512]byte]*send

	renew map[artnet.Address]*renewal

	spans  []*span
	open   map[artnet.Address]*span
	events []dmx
	end    time.Time
}

type ldev struct {
	device
	known bool
	epoch int
	seen  time.Time
	quiet time.Time // silent until then
}

type loadOpts struct {
	fps      []int
	length   time.Duration
	senders  int
	churn    bool // devices change their ports, fall silent and return
	lively   int  // one in how many sends is followed by a pause; 0: bursts
	universe int
	many     bool // very many devices
}

// slot moves to an instant reserved for announcements: no tick, no sender.
func (l *load) slot() {
	for {
		off := time.Since(l.s.t0)
		if d := (1 - off%1000 + 1000) % 1000; d != 0 {
			time.Sleep(d)
			continue
		}
		since := time.Since(l.c.start)
		if since%l.c.frame != 0 && since%(3*time.Second) != 0 {
			return
		}
		time.Sleep(1000)
	}
}

// value makes a frame that was never sent before.
func (l *load) value(rng *rand.Rand, prev *[512]byte) [512]byte {
	for {
		var f [512]byte
		switch rng.IntN(5) {
		case 0: // one channel of the previous frame changes
			f = *prev
			f[rng.IntN(512)] = byte(rng.Uint32())
		case 1: // few channels, the last ones included
			for k := 1 + rng.IntN(3); k > 0; k-- {
				f[[]int{rng.IntN(512), 511, 0, 510, 256}[rng.IntN(5)]] = byte(1 + rng.IntN(255))
			}
		case 2:
			b := byte(rng.Uint32())
			for i := range f {
				f[i] = b
			}
			f[rng.IntN(512)]++
		default:
			for i := 0; i < 512; i += 8 {
				x := rng.Uint64()
				for j := 0; j < 8; j++ {
					f[i+j] = byte(x >> (8 * j))
				}
			}
		}
		if f == [512]byte{} {
			continue
		}
		l.mu.Lock()
		_, used := l.byVal[f]
		if !used {
			l.byVal[f] = nil
		}
		l.mu.Unlock()
		if !used {
			*prev = f
			return f
		}
	}
}

func (l *load) send(f [512]byte, a artnet.Address) {
	x := &send{uni: a, data: f, t: time.Now()}
	l.mu.Lock()
	l.byVal[f] = x
	l.sends = append(l.sends, x)
	l.mu.Unlock()
	x.begin = l.s.w.Stamp()
	l.c.SendDMXToAddress(f, a)
	x.end = l.s.w.Stamp()
	if !time.Now().Equal(x.t) {
		l.s.Fail("SendDMXToAddress took %v of virtual time", time.Since(x.t))
	}
}

// renewal is the last announcement of the device that has a universe.
type renewal struct {
	from net.UDPAddr
	data []byte
}

// again repeats the last announcement of the device that has a universe.
func (l *load) again(a artnet.Address) {
	l.mu.Lock()
	r := l.renew[a]
	l.mu.Unlock()
	if r != nil {
		l.c.conn.Inject(r.from, r.data)
	}
}

// route starts or ends spans after an announcement of d with the given universes.
func (l *load) route(d *ldev, out map[artnet.Address]bool) {
	now := time.Now()
	for a, sp := range l.open {
		if sp.dev == d.key() && !out[a] {
			sp.sure, sp.gone = now, now
			delete(l.open, a)
		}
	}
	for a := range out {
		if l.open[a] == nil {
			sp := &span{dev: d.key(), epoch: d.epoch, ip: d.ip, uni: a, start: now}
			l.open[a] = sp
			l.spans = append(l.spans, sp)
		}
	}
	d.seen = now
}

// announce lets d announce its present ports.
func (l *load) announce(d *ldev) {
	l.slot()
	out := map[artnet.Address]bool{}
	for _, u := range d.out {
		out[d.addr(u)] = true
	}
	if !d.known {
		d.known = true
		d.epoch++
	}
	l.s.announce(l.c.conn, &d.device)
	synctest.Wait()
	l.route(d, out)
	l.mu.Lock()
	for a := range out {
		l.renew[a] = &renewal{net.UDPAddr{IP: d.ip, Port: wire.Port}, d.last}
	}
	l.mu.Unlock()
}

// silence makes d fall silent: it expires 7 to 10 seconds after it was last heard.
func (l *load) silence(d *ldev) {
	for a, sp := range l.open {
		if sp.dev == d.key() {
			sp.sure, sp.gone = d.seen.Add(7*time.Second), d.seen.Add(10*time.Second)
			delete(l.open, a)
		}
	}
	d.quiet = d.seen.Add(10*time.Second + 1 + l.s.dur(4*time.Second))
	d.known = false
	l.s.logf("%s falls silent", d.key())
}

// free tells whether no device has the universe or may still have it.
func (l *load) free(a artnet.Address) bool {
	known := false
	for _, x := range l.all {
		known = known || x == a
	}
	for _, sp := range l.spans {
		if sp.uni == a && (sp.gone.IsZero() || !sp.gone.Before(time.Now())) {
			return false
		}
	}
	return known
}

// ports chooses universes among the free ones and those d has.
func (l *load) ports(d *ldev) {
	s := l.s
	var can []uint8
	for u := uint8(0); u < 16; u++ {
		a := d.addr(u)
		if sp := l.open[a]; l.free(a) || sp != nil && sp.dev == d.key() {
			can = append(can, u)
		}
	}
	d.out = d.out[:0:0]
	for _, i := range s.Perm(len(can))[:min(s.IntN(5), len(can))] {
		d.out = append(d.out, can[i])
	}
	if len(d.out) > 0 && len(d.out) < 4 && s.chance(8) {
		d.out = append(d.out, d.out[0]) // one universe on two ports
	}
	d.in = s.pick(s.IntN(4), 16)
}

// run drives one controller for a while.
func (s *sim) load(o loadOpts) *load {
	s.neighbour(8, true)
	l := &load{s: s, byVal: map[[512]byte]*send{}, renew: map[artnet.Address]*renewal{}, open: map[artnet.Address]*span{}}
	// the universes: a few nets and sub-nets
	nets := 1 + s.IntN(3)
	base := uint8(s.IntN(120))
	sub := uint8(s.IntN(16))
	switch s.IntN(4) { // the ends of the ranges
	case 0:
		base, sub = uint8(128-nets), 15
	case 1:
		base, sub = 0, 0
	}
	nd := 1 + s.IntN(6)
	if o.many {
		nd = 10 + s.IntN(40)
		nets, base = 16, uint8([]int{0, 56, 112}[s.IntN(3)])
		o.universe = 16
	}
	for i := 0; i < nets; i++ {
		top := s.chance(2) // the high universes of the sub-net
		for u := 0; u < 1+s.IntN(o.universe); u++ {
			a := artnet.Address{Net: base + uint8(i), SubUni: sub<<4 | uint8(u)}
			if top {
				a.SubUni ^= 15
			}
			l.all = append(l.all, a)
		}
	}
	for i := nd; i > 0; i-- {
		d := &ldev{device: device{ip: net.IP{10, 5, byte(s.IntN(3)), byte(1 + s.IntN(3+nd))}, bind: uint8(s.IntN(4)), net: base + uint8(s.IntN(nets)), sub: sub, name: fmt.Sprintf("dev%d", i)}}
		dup := false
		for _, p := range l.pool {
			dup = dup || p.key() == d.key()
		}
		if !dup {
			l.pool = append(l.pool, d)
		}
	}
	l.c = s.controller(o.fps[s.IntN(len(o.fps))], s.chance(20))
	end := time.Now().Add(o.length/4 + s.dur(o.length*3/4))

	var active atomic.Int64
	for k := 0; k < o.senders; k++ {
		active.Add(1)
		rng := rand.New(rand.NewPCG(s.Uint64(), s.Uint64()))
		go func() {
			defer active.Add(-1)
			var prev [512]byte
			mine := l.all[rng.IntN(len(l.all))]
			one := rng.IntN(2) == 0 // sticks to one universe
			var pace time.Duration
			switch rng.IntN(4) {
			case 0:
				pace = l.c.frame
			case 1:
				pace = l.c.frame / time.Duration(2+rng.IntN(4))
			case 2:
				pace = l.c.frame * time.Duration(2+rng.IntN(10))
			}
			for time.Now().Before(end) {
				if !one {
					mine = l.all[rng.IntN(len(l.all))]
				}
				// keep out of the instants reserved for announcements
				if time.Since(s.t0)%1000 == 1 {
					time.Sleep(1)
				}
				burst := 1
				if rng.IntN(6) == 0 {
					burst = 1 + rng.IntN(5)
				}
				renew := !o.churn && rng.IntN(6) == 0 // while its device announces itself again
				for ; burst > 0; burst-- {
					if renew {
						l.again(mine)
					}
					l.send(l.value(rng, &prev), mine)
					if rng.IntN(3) == 0 {
						runtime.Gosched()
					}
				}
				switch {
				case pace > 0 && rng.IntN(4) > 0:
					time.Sleep(pace)
				case rng.IntN(10) == 0:
					time.Sleep(time.Duration(rng.Int64N(int64(time.Second))))
				case rng.IntN(3) == 0: // to a tick
					time.Sleep(l.c.frame - time.Since(l.c.start)%l.c.frame)
				default:
					time.Sleep(1 + time.Duration(rng.Int64N(int64(2*l.c.frame))))
				}
				if o.lively > 0 && rng.IntN(o.lively) == 0 {
					time.Sleep(time.Duration(rng.Int64N(int64(time.Second))))
				}
			}
		}()
	}

	var prev [512]byte
	if o.many {
		for _, d := range l.pool {
			if s.chance(8) {
				continue
			}
			l.ports(d)
			l.announce(d)
		}
	}
	for time.Now().Before(end) {
		for _, d := range l.pool {
			if d.known && time.Since(d.seen) > 3500*time.Millisecond {
				l.announce(d)
			}
		}
		d := l.pool[s.IntN(len(l.pool))]
		switch s.IntN(9) {
		case 0, 1, 2:
			if !d.known {
				if time.Now().After(d.quiet) {
					l.ports(d)
					l.announce(d)
				}
			} else if o.churn && s.chance(2) {
				l.ports(d)
				l.announce(d)
			} else {
				s.Shuffle(len(d.out), func(i, j int) { d.out[i], d.out[j] = d.out[j], d.out[i] })
				d.in = s.pick(s.IntN(4), 16)
				if s.chance(4) {
					d.name = fmt.Sprintf("renamed %d", s.IntN(100))
				}
				l.announce(d)
			}
			if s.chance(2) && len(d.out) > 0 && d.known { // at once
				l.send(l.value(s.Rand, &prev), d.addr(d.out[s.IntN(len(d.out))]))
			}
		case 3:
			if o.churn && d.known && s.chance(3) {
				l.silence(d)
			}
		case 4:
			l.c.conn.Inject(s.foreign(), s.poll())
		case 5:
			b, _ := s.refused()
			l.c.conn.Inject(s.foreign(), b)
		case 6:
			l.slot()
			for k := s.IntN(4); k > 0; k-- {
				l.send(l.value(s.Rand, &prev), l.all[s.IntN(len(l.all))])
			}
		default:
			time.Sleep(s.dur(900 * time.Millisecond))
		}
		time.Sleep(s.dur(300 * time.Millisecond))
	}
	for again := true; again; again = active.Load() > 0 {
		for _, d := range l.pool {
			if d.known {
				l.announce(d)
			}
		}
		time.Sleep(s.dur(3 * time.Second))
	}
	for _, d := range l.pool {
		if d.known {
			l.announce(d)
		}
	}
	time.Sleep(2*l.c.frame + 600*time.Millisecond)
	l.slot()
	synctest.Wait()
	l.end = time.Now()
	l.c.Stop()
	for _, ev := range s.w.Events(l.c.from) {
		if wire.Op(ev.Data) != wire.DMX.Op {
			continue
		}
		x, why := parseDMX(ev)
		if why != "" {
			s.Fail("%s", why)
		}
		l.events = append(l.events, x)
	}
	for _, sp := range l.spans {
		if sp.sure.IsZero() || sp.sure.After(l.end) {
			sp.sure = l.end
		}
		if sp.gone.IsZero() || sp.gone.After(l.end) {
			sp.gone = l.end
		}
	}
	s.Count("DMX datagrams", len(l.events))
	s.Count("sends", len(l.sends))
	s.Count("routed times", len(l.spans))
	return l
}

// traffic is what was sent during one span.
type traffic struct {
	*span
	events []dmx
	sends  []*send // in order of their logical begin
}

// perSpan sorts the trace by span; datagrams outside every span are violations
// of routing, reported only if strict.
func (l *load) perSpan(strict bool) []*traffic {
	byUni := map[artnet.Address][]*traffic{}
	var all []*traffic
	for _, sp := range l.spans {
		t := &traffic{span: sp}
		byUni[sp.uni] = append(byUni[sp.uni], t)
		all = append(all, t)
	}
	for _, e := range l.events {
		ok := false
		for _, t := range byUni[e.uni] {
			if t.ip.Equal(e.To.IP) && e.To.Port == wire.Port && !e.T.Before(t.start) && !e.T.After(t.gone) {
				t.events = append(t.events, e)
				ok = true
			}
		}
		if !ok && strict {
			l.s.Fail("at %v DMX for universe %v was sent to %v, which does not have it then", e.T.Sub(l.s.t0), e.uni, &e.To)
		}
	}
	for _, x := range l.sends {
		for _, t := range byUni[x.uni] {
			if !x.t.Before(t.start) && x.t.Before(t.gone) {
				t.sends = append(t.sends, x)
			}
		}
	}
	for _, t := range all {
		sort.Slice(t.sends, func(i, j int) bool { return t.sends[i].begin < t.sends[j].begin })
	}
	return all
}

func (l *load) when(t time.Time) time.Duration { return t.Sub(l.s.t0) }

func (l *load) what(f [512]byte) string {
	if f == [512]byte{} {
		return "the all-zero frame"
	}
	if x := l.byVal[f]; x != nil {
		return fmt.Sprintf("the frame sent to %v at %v", x.uni, l.when(x.t))
	}
	// a mixture?
	n, best := 0, (*send)(nil)
	for v, x := range l.byVal {
		k := 0
		for i := range v {
			if v[i] == f[i] {
				k++
			}
		}
		if k > n && x != nil {
			n, best = k, x
		}
	}
	if best != nil {
		return fmt.Sprintf("a frame nobody sent (%d channels are as in the one sent to %v at %v)", n, best.uni, l.when(best.t))
	}
	return "a frame nobody sent"
}

// zeroSend stands for the initial all-zero frame.
var zeroSend = &send{begin: -2, end: -1}

// content returns the send a datagram carries, judging where it comes from.
func (l *load) content(t *traffic, e dmx) *send {
	if e.data == [512]byte{} {
		return zeroSend
	}
	x := l.byVal[e.data]
	if x == nil || x.uni != e.uni {
		l.s.Fail("at %v universe %v of %s got %s", l.when(e.T), e.uni, t.dev, l.what(e.data))
	}
	if x.begin > e.Stamp {
		l.s.Fail("at %v universe %v of %s got data before it was sent", l.when(e.T), e.uni, t.dev)
	}
	if x.t.Before(t.start) {
		l.s.Fail("at %v universe %v of %s got data sent at %v, before it was announced at %v", l.when(e.T), e.uni, t.dev, l.when(x.t), l.when(t.start))
	}
	return x
}

func older(a, b *send) bool { return a.end < b.begin }

// delivery is the oracle of C19 on one span: provenance, order, freshness,
// promptness.
func (l *load) delivery(t *traffic) {
	s := l.s
	newest := zeroSend // the seen one that began last
	for _, e := range t.events {
		s.Eval(1)
		x := l.content(t, e)
		if older(x, newest) {
			s.Fail("at %v universe %v of %s got %s after %s", l.when(e.T), e.uni, t.dev, l.what(x.data), l.what(newest.data))
		}
		if x.begin > newest.begin {
			newest = x
		}
	}
	// freshness: a datagram never misses a send that returned at an earlier instant
	i, latest := 0, zeroSend
	for _, e := range t.events {
		for i < len(t.sends) && t.sends[i].t.Before(e.T) {
			latest = t.sends[i]
			i++
		}
		if x := l.content(t, e); older(x, latest) {
			s.Fail("at %v universe %v of %s got %s, but %s was newer", l.when(e.T), e.uni, t.dev, l.what(x.data), l.what(latest.data))
		}
	}
	// promptness
	j := 0
	for _, x := range t.sends {
		due := x.t.Add(l.c.frame)
		if due.After(t.sure) || due.After(l.end) {
			continue
		}
		for j < len(t.events) && !t.events[j].T.After(due) {
			j++
		}
		s.Eval(1)
		if j == 0 || older(l.content(t, t.events[j-1]), x) {
			s.Fail("data sent to universe %v of %s at %v was not transmitted within a frame (%v)", t.uni, t.dev, l.when(x.t), l.c.frame)
		}
	}
}

// interleavings records what was seen: how sends and datagrams interleaved.
func (l *load) interleavings(all []*traffic) {
	for _, t := range all {
		sig := fmt.Sprintf("%d ", l.c.fps)
		i := 0
		for k, e := range t.events {
			n := 0
			for i < len(t.sends) && t.sends[i].begin < e.Stamp {
				i++
				n++
			}
			if n > 9 {
				n = 9
			}
			sig += string(byte('0' + n))
			if k > 200 {
				break
			}
		}
		if len(t.sends) > 0 {
			l.s.Seen("%s", sig)
		}
	}
}

func (l *load) sample() {
	if !l.s.WantSample() {
		return
	}
	n := map[artnet.Address]int{}
	for _, e := range l.events {
		n[e.uni]++
	}
	l.s.Sample(map[string]any{"frame rate": l.c.fps, "devices": len(l.pool), "datagrams per universe": fmt.Sprint(n), "sends": len(l.sends), "seconds": l.end.Sub(l.c.start).Seconds()})
}

// slow sends at most one frame per universe and frame interval, so that every
// datagram's content is determined, values that occur again and black included.
func (s *sim) slow() {
	fps := []int{1, 5, 30, 44, 100, 1000}[s.IntN(6)]
	c := s.controller(fps, s.chance(20))
	var devs []*device
	for i := 1 + s.IntN(3); i > 0; i-- {
		devs = append(devs, &device{ip: net.IP{10, 5, 0, byte(i)}, bind: uint8(s.IntN(3)), net: uint8(s.IntN(128)), sub: uint8(i), out: s.pick(1+s.IntN(4), 16), name: "slow"})
	}
	const (
		black = iota
		full
		same
		one
		old
		kinds
	)
	var hist [][512]byte
	type state struct {
		want [512]byte
		seen int
	}
	now := map[artnet.Address]*state{}
	to := map[artnet.Address]net.IP{}
	var order []artnet.Address
	meet := time.Now()
	announce := func() {
		for _, d := range devs {
			s.announce(c.conn, d)
		}
		synctest.Wait()
		meet = time.Now()
	}
	c.off()
	announce()
	for _, d := range devs {
		for _, u := range d.out {
			now[d.addr(u)] = &state{}
			to[d.addr(u)] = d.ip
			order = append(order, d.addr(u))
		}
	}
	time.Sleep(c.frame)
	c.off()
	last := s.w.NumEvents()
	check := func(sent map[artnet.Address]bool, what string) {
		synctest.Wait()
		got := map[artnet.Address]int{}
		for _, ev := range s.w.Events(last) {
			if wire.Op(ev.Data) != wire.DMX.Op {
				continue
			}
			x, why := parseDMX(ev)
			if why != "" {
				s.Fail("%s", why)
			}
			s.Eval(1)
			st := now[x.uni]
			if st == nil || !sameAddr(ev.To, net.UDPAddr{IP: to[x.uni], Port: wire.Port}) {
				s.Fail("%s: DMX for universe %v was sent to %v", what, x.uni, &ev.To)
			}
			if x.data != st.want {
				k := 0
				for x.data[k] == st.want[k] {
					k++
				}
				s.Fail("%s: universe %v got other data than last sent: channel %d is %d instead of %d", what, x.uni, k+1, x.data[k], st.want[k])
			}
			got[x.uni]++
		}
		last = s.w.NumEvents()
		for a := range sent {
			s.Eval(1)
			if got[a] == 0 {
				s.Fail("%s: data sent to universe %v was not transmitted within a frame", what, a)
			}
		}
		s.Count("DMX datagrams", len(got))
	}
	sig := ""
	for step := 5 + s.IntN(40); step > 0; step-- {
		sent := map[artnet.Address]bool{}
		what := ""
		for _, a := range order {
			st := now[a]
			if !s.chance(2) {
				continue
			}
			f := st.want
			k := s.IntN(kinds)
			switch k {
			case black:
				f = [512]byte{}
			case full:
				b := byte(255)
				if s.chance(2) {
					b = byte(s.Uint32())
				}
				for i := range f {
					f[i] = b
				}
			case one:
				f[s.IntN(512)] = byte(s.Uint32())
			case old:
				if len(hist) > 0 {
					f = hist[s.IntN(len(hist))]
				}
			}
			what = []string{"black", "all channels equal", "the same again", "one channel", "an earlier value"}[k]
			sig += string("zfsoe"[k])
			c.SendDMXToAddress(f, a)
			st.want = f
			hist = append(hist, f)
			sent[a] = true
			s.Count("sends", 1)
		}
		time.Sleep(c.frame)
		check(sent, "after sending "+what)
		if s.chance(3) {
			time.Sleep(s.dur(time.Second))
			check(nil, "at rest")
		}
		if time.Since(meet) > 3*time.Second {
			announce()
		}
		c.off()
		check(nil, "at rest")
	}
	s.Seen("slow %d %s", fps, sig[:min(len(sig), 12)])
	c.Stop()
}

// installation is a controller with hundreds or thousands of universes, all of which are
// due at the same time again and again. Frames are sent between two ticks, so that each
// datagram's content is determined.
func (s *sim) installation() {
	c := s.controller([]int{25, 40, 44, 100}[s.IntN(4)], false)
	n := []int{70, 140, 270, 1100}[s.IntN(4)]
	type state struct {
		d     *device
		want  [512]byte
		fresh bool
		last  time.Time
		any   bool
	}
	var devs []*device
	unis := map[artnet.Address]*state{}
	var order []artnet.Address
	for i := 0; i < n; i++ {
		d := &device{ip: net.IP{10, 7, byte(i / 250), byte(1 + i%250)}, bind: uint8(s.IntN(2)), net: uint8(i / 64), sub: uint8(i / 4 % 16), name: fmt.Sprintf("dev%d", i)}
		for u := 0; u < 4; u++ {
			d.out = append(d.out, uint8(4*(i%4)+u))
			unis[d.addr(d.out[u])] = &state{d: d}
			order = append(order, d.addr(d.out[u]))
		}
		devs = append(devs, d)
	}
	c.off()
	last := s.w.NumEvents()
	for _, d := range devs {
		s.announce(c.conn, d)
	}
	synctest.Wait()
	start := time.Now()
	for _, u := range unis {
		u.last = start
	}
	seq := map[string]byte{}
	total := 0
	for step := 0; time.Since(start) < 2500*time.Millisecond; step++ {
		sent := map[artnet.Address]bool{}
		if step > 0 {
			share := []int{0, 0, 1, 4, 100}[s.IntN(5)]
			for _, a := range order {
				if share == 0 || share > 1 && !s.chance(share) {
					continue
				}
				u := unis[a]
				u.want[s.IntN(512)]++
				u.want[0], u.want[511] = a.SubUni, byte(step)
				u.fresh = true
				c.SendDMXToAddress(u.want, a)
				sent[a] = true
			}
		}
		time.Sleep(c.frame)
		synctest.Wait()
		for _, ev := range s.w.Events(last) {
			if wire.Op(ev.Data) != wire.DMX.Op {
				continue
			}
			x, why := parseDMX(ev)
			if why != "" {
				s.Fail("%s", why)
			}
			total++
			s.Eval(1)
			u := unis[x.uni]
			if u == nil || !sameAddr(ev.To, net.UDPAddr{IP: u.d.ip, Port: wire.Port}) {
				if s.Prop == "C19" {
					s.Fail("DMX for universe %v was sent to %v", x.uni, &ev.To)
				}
				continue
			}
			gap := ev.T.Sub(u.last)
			switch s.Prop {
			case "C19", "C20":
				if x.data != u.want {
					s.Fail("of %d universes, %v got other data than last sent, at %v", len(unis), x.uni, s.at())
				}
			case "C21":
				k := u.d.ip.String()
				if want := seq[k]%255 + 1; x.seq != want {
					s.Fail("of %d devices, %s got sequence number %d instead of %d", n, k, x.seq, want)
				}
				seq[k] = x.seq
			case "C22":
				if u.any && (gap < c.frame || !u.fresh && gap < 250*time.Millisecond) {
					s.Fail("of %d universes, %v got two datagrams %v apart (frame %v, new data %v)", len(unis), x.uni, gap, c.frame, u.fresh)
				}
			}
			delete(sent, x.uni)
			u.any, u.fresh, u.last = true, false, ev.T
		}
		s.w.Forget()
		last = s.w.NumEvents()
		if s.Prop == "C19" {
			for a := range sent {
				s.Fail("data sent to %v was not transmitted within a frame (%v); %d universes", a, c.frame, len(unis))
			}
		}
		if s.Prop == "C20" {
			for a, u := range unis {
				s.Eval(1)
				limit := 250*time.Millisecond + c.frame
				if !u.any {
					limit = c.frame
				}
				if gap := time.Since(u.last); gap > limit {
					s.Fail("of %d universes, %v got no datagram for %v (frame %v, any before: %v)", len(unis), a, gap, c.frame, u.any)
				}
			}
		}
		if s.chance(20) {
			for _, i := range s.Perm(n)[:n/3] {
				devs[i].name += "+"
				s.announce(c.conn, devs[i])
			}
			synctest.Wait()
		}
		c.off()
	}
	s.Count("DMX datagrams", total)
	s.Count("installations", 1)
	s.Seen("installation %d %d %d", n, c.fps, total)
	c.Stop()
}

// TestC19: DMX sent to a universe reaches its node intact and in order.
func TestC19(t *testing.T) {
	r := begin(t, "C19")
	cases(t, r, r.Scale(3840, 40000), "deliveries", func(s *sim) {
		if s.no%600 == 3 {
			s.installation()
			return
		}
		if s.chance(6) {
			s.slow()
			return
		}
		o := loadOpts{fps: []int{1, 5, 30, 44, 100, 500, 1000}, length: 25 * time.Second, senders: s.IntN(7), churn: s.chance(2), lively: []int{0, 3, 20}[s.IntN(3)], universe: 8}
		if s.chance(8) {
			o.fps, o.length = []int{2000, 5000, 10000}, 2*time.Second
		} else if s.chance(40) {
			o.many, o.fps, o.length = true, []int{30, 44}, 12*time.Second
		}
		l := s.load(o)
		all := l.perSpan(true)
		for _, t := range all {
			l.delivery(t)
		}
		l.interleavings(all)
		l.sample()
	})
}

// refresh is the oracle of C20 on one span.
func (l *load) refresh(t *traffic) {
	s := l.s
	f := l.c.frame
	end := t.sure
	last := t.start
	limit := f // the first frame follows within one frame
	i, latest := 0, zeroSend
	for _, e := range t.events {
		s.Eval(1)
		if e.T.Sub(last) > limit && last.Before(end) && !end.Before(last.Add(limit)) {
			s.Fail("universe %v of %s: no datagram between %v and %v (frame %v, announced at %v)", t.uni, t.dev, l.when(last), l.when(e.T), f, l.when(t.start))
		}
		last, limit = e.T, 250*time.Millisecond+f
		for i < len(t.sends) && t.sends[i].t.Before(e.T) {
			latest = t.sends[i]
			i++
		}
		x := l.content(t, e)
		if older(x, latest) {
			s.Fail("at %v universe %v of %s was refreshed with %s instead of %s", l.when(e.T), e.uni, t.dev, l.what(x.data), l.what(latest.data))
		}
	}
	if end.Sub(last) > limit {
		s.Fail("universe %v of %s: no datagram between %v and %v, when it was still routed (frame %v, announced at %v)", t.uni, t.dev, l.when(last), l.when(end), f, l.when(t.start))
	}
}

// TestC20: every routed universe is refreshed with its latest data.
func TestC20(t *testing.T) {
	r := begin(t, "C20")
	cases(t, r, r.Scale(4000, 40000), "refreshes", func(s *sim) {
		if s.no%600 == 3 {
			s.installation()
			return
		}
		o := loadOpts{fps: []int{1, 3, 5, 10, 30, 44, 100, 1000}, length: 50 * time.Second, senders: s.IntN(3), churn: s.IntN(4) > 0, lively: 2, universe: 10}
		if s.chance(40) {
			o.many, o.fps, o.length = true, []int{10, 30, 44}, 15*time.Second
		}
		l := s.load(o)
		all := l.perSpan(false)
		first := map[artnet.Address]bool{}
		for _, t := range all {
			l.refresh(t)
			if len(t.events) > 0 {
				s.Seen("%d %v %v %d %d", l.c.fps, first[t.uni], t.sure == t.gone, min(len(t.sends), 10), min(len(t.events), 200))
				first[t.uni] = true
			}
		}
		l.sample()
	})
}

// longCount has more datagrams sent to one device than sixteen bits count.
func (s *sim) longCount() {
	c := s.controller(5000, false)
	a := &device{ip: net.IP{10, 5, 0, 1}, bind: 1, net: 1, sub: 1, out: []uint8{0, 1, 2, 3}, name: "a"}
	b := &device{ip: net.IP{10, 5, 0, 2}, bind: 1, net: 1, sub: 2, out: []uint8{4}, name: "b"}
	want := map[string]byte{}
	total := map[string]int{}
	last := s.w.NumEvents()
	seen := time.Time{}
	for total[a.ip.String()] < 66000 {
		c.off()
		if time.Since(seen) > 2*time.Second {
			s.announce(c.conn, a)
			s.announce(c.conn, b)
			seen = time.Now()
			synctest.Wait()
		}
		for _, u := range a.out {
			c.SendDMXToAddress([512]byte{byte(s.Uint32())}, a.addr(u))
		}
		time.Sleep(c.frame)
		synctest.Wait()
		for _, ev := range s.w.Events(last) {
			if wire.Op(ev.Data) != wire.DMX.Op {
				continue
			}
			s.Eval(1)
			k := ev.To.IP.String()
			if want[k] == 0 {
				want[k] = 1
			}
			if ev.Data[12] != want[k] {
				s.Fail("%s got sequence number %d instead of %d (datagram %d to it)", k, ev.Data[12], want[k], total[k]+1)
			}
			want[k] = want[k]%255 + 1
			total[k]++
		}
		s.w.Forget()
		last = s.w.NumEvents()
		if time.Since(c.start) > time.Minute {
			s.Fail("%d datagrams in a minute of constant sending", total[a.ip.String()])
		}
	}
	for k, n := range total {
		s.Seen("%s %d", k, n)
		s.Count("wrap-arounds", n/255)
		s.Count("DMX datagrams", n)
	}
	c.Stop()
}

// TestC21: sequence numbers count 1 to 255 per node and never become 0.
func TestC21(t *testing.T) {
	r := begin(t, "C21")
	cases(t, r, r.Scale(1600, 16000), "sequences", func(s *sim) {
		if s.no%300 == 3 {
			s.installation()
			return
		}
		if s.no%640 == 7 || s.no%640 == 8 {
			s.longCount()
			return
		}
		o := loadOpts{fps: []int{30, 44, 100, 250}, length: 60 * time.Second, senders: s.IntN(5), churn: s.chance(2), universe: 8}
		if s.chance(4) {
			o.fps, o.length = []int{1000}, 12*time.Second
		} else if s.chance(40) {
			o.many, o.fps, o.length = true, []int{30, 44}, 12*time.Second
		}
		l := s.load(o)
		// the device of each datagram, by the span it falls in
		spans := map[artnet.Address][]*span{}
		for _, sp := range l.spans {
			spans[sp.uni] = append(spans[sp.uni], sp)
		}
		next := map[string]byte{}
		total := map[string]int{}
		for _, e := range l.events {
			var sp *span
			for _, x := range spans[e.uni] {
				if x.ip.Equal(e.To.IP) && !e.T.Before(x.start) && !e.T.After(x.gone) {
					sp = x
				}
			}
			if sp == nil {
				continue
			}
			s.Eval(1)
			k := fmt.Sprintf("%s, discovery %d", sp.dev, sp.epoch)
			want := next[k]
			if want == 0 {
				want = 1
			}
			if e.seq != want {
				s.Fail("at %v %s got sequence number %d instead of %d (datagram %d to it)", l.when(e.T), k, e.seq, want, total[k]+1)
			}
			next[k] = e.seq%255 + 1
			total[k]++
		}
		for k, n := range total {
			s.Seen("%s %d", k, n)
			s.Count("wrap-arounds", n/256)
		}
		l.sample()
	})
}

// TestC22: DMX output never exceeds the configured frame rate.
func TestC22(t *testing.T) {
	r := begin(t, "C22")
	cases(t, r, r.Scale(3000, 30000), "rates", func(s *sim) {
		if s.no%500 == 3 {
			s.installation()
			return
		}
		o := loadOpts{fps: []int{1, 2, 5, 10, 25, 44, 100, 500, 1000}, length: 25 * time.Second, senders: s.IntN(9), churn: s.chance(3), universe: 6}
		if s.chance(8) {
			o.fps, o.length = []int{2000, 5000, 10000}, 2*time.Second
		} else if s.chance(40) {
			o.many, o.fps, o.length = true, []int{30, 44}, 12*time.Second
		}
		l := s.load(o)
		f := l.c.frame
		all := l.perSpan(false)
		for _, t := range all {
			carried := zeroSend
			i := 0
			for k, e := range t.events {
				s.Eval(1)
				x := l.content(t, e)
				if k > 0 {
					gap := e.T.Sub(t.events[k-1].T)
					if gap < f {
						s.Fail("universe %v of %s: two datagrams %v apart at %v (frame %v)", t.uni, t.dev, gap, l.when(e.T), f)
					}
					// is there anything new since the last datagram was made?
					fresh := false
					for i < len(t.sends) && !t.sends[i].t.After(e.T) {
						if !t.sends[i].t.Before(t.events[k-1].T) {
							fresh = true
						}
						i++
					}
					for j := i - 1; j >= 0 && !t.sends[j].t.Before(t.events[k-1].T); j-- {
						fresh = true
					}
					if !fresh && gap < 250*time.Millisecond {
						s.Fail("universe %v of %s was repeated without new data after %v at %v", t.uni, t.dev, gap, l.when(e.T))
					}
				}
				// superseded data is not transmitted: nothing newer than what is carried
				// had been sent at an earlier instant
				for j := len(t.sends) - 1; j >= 0; j-- {
					if t.sends[j].t.Before(e.T) {
						if older(x, t.sends[j]) {
							s.Fail("universe %v of %s: superseded data was sent at %v", t.uni, t.dev, l.when(e.T))
						}
						break
					}
				}
				carried = x
			}
			_ = carried
		}
		l.interleavings(all)
		l.sample()
	})
}

var _ = verifnet.Event{}
