// Package verifnet stands in for the standard library's net package while the
// real go-artnet sources run inside a testing/synctest bubble. The overlay
// built at check time changes nothing in those sources except the import path
// of "net". Everything is the standard library's except UDP sockets, which are
// ends of an in-memory network (World) that
//
//   - records every datagram handed to the network (the trace the monitors read),
//   - delivers datagrams between sockets under an injectable policy
//     (loss, duplication, delay, reordering), and
//   - injects faults: read errors, write errors, blocked writes, listen errors.
//
// All blocking operations block on channels created by the calling goroutine,
// so inside a bubble they are "durably blocking" and virtual time can advance.
package verifnet

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"net/netip"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Event is one datagram handed to the network by a socket.
type Event struct {
	Stamp  int64     // logical time, unique, increasing
	T      time.Time // (virtual) time of the write
	Conn   *UDPConn
	From   net.UDPAddr
	To     net.UDPAddr
	Data   []byte
	Failed bool // the write returned an injected error, nothing was sent
}

// World is one simulated network.
type World struct {
	mu     sync.Mutex
	conns  []*UDPConn
	opened int
	events []Event
	stamp  atomic.Int64

	// HostIP is the source address given to sockets bound to the wildcard address.
	HostIP net.IP
	// Broadcast lists the addresses that reach every socket on the port.
	Broadcast []net.IP
	// Policy decides the fate of one datagram for one receiver: the delays after
	// which a copy is delivered; empty means it is lost. nil: delivered at once.
	Policy func(ev Event, dst *UDPConn) []time.Duration
	// WriteFault, if it returns an error, makes that write fail.
	WriteFault func(ev Event) error
	// ListenFault, if it returns an error, makes that listen fail.
	ListenFault func(addr net.UDPAddr) error
	// CloseErr is what closing a socket reports; it is closed all the same.
	CloseErr error
	// Neighbour is a host whose sockets share nothing with the others, neither the
	// trace nor traffic nor faults; OnNeighbour is told what it sends.
	Neighbour   net.IP
	OnNeighbour func(ev Event)
	near        []*UDPConn
	// OnSend is called for each datagram sent, outside locks, before delivery.
	OnSend func(ev Event)
	// Yield is called at every network operation, to vary interleavings.
	Yield func()

	gate chan struct{} // non-nil while writes are held back
	held int
}

var current atomic.Pointer[World]

// NewWorld makes a fresh world and installs it as the one new sockets join.
func NewWorld() *World {
	w := &World{}
	current.Store(w)
	for _, f := range remake {
		f()
	}
	return w
}

// Stamp returns a fresh logical time.
func (w *World) Stamp() int64 { return w.stamp.Add(1) }

// Events returns the trace from index i on.
func (w *World) Events(i int) []Event {
	w.mu.Lock()
	defer w.mu.Unlock()
	if i > len(w.events) {
		i = len(w.events)
	}
	return append([]Event(nil), w.events[i:]...)
}

// NumEvents is the length of the trace.
func (w *World) NumEvents() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.events)
}

// Forget drops the trace recorded so far (long soaks).
func (w *World) Forget() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.events = nil
}

// Open lists the sockets that are open.
func (w *World) Open() []*UDPConn {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*UDPConn(nil), w.conns...)
}

// Near is the last socket of the neighbour.
func (w *World) Near() *UDPConn {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.near) == 0 {
		return nil
	}
	return w.near[len(w.near)-1]
}

// Opened is how many sockets were ever opened.
func (w *World) Opened() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.opened
}

// HoldWrites makes every write block until ReleaseWrites or the socket closes.
func (w *World) HoldWrites() {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.gate == nil {
		w.gate = make(chan struct{})
	}
}

// ReleaseWrites lets held writes go on.
func (w *World) ReleaseWrites() {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.gate != nil {
		close(w.gate)
		w.gate = nil
	}
}

// Held is how many writes are blocked now.
func (w *World) Held() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.held
}

func (w *World) yield() {
	if w.Yield != nil {
		w.Yield()
	} else {
		runtime.Gosched()
	}
}

// points is one in how many scheduling points yields; 0: none.
var points atomic.Uint32

// SetPoints makes every n-th scheduling point, at random, yield the processor.
func SetPoints(n uint32) { points.Store(n) }

// Pt is a scheduling point. It must not synchronise goroutines with each other
// (that would hide data races): it only loads an atomic and draws from the
// runtime's per-thread generator.
func Pt() {
	n := points.Load()
	if n == 0 {
		return
	}
	x := rand.Uint32()
	if x%n == 0 {
		for k := x>>16&3 + 1; k > 0; k-- {
			runtime.Gosched()
		}
	}
}

// remake lists what renews the package level channels of the sources: a channel
// made outside the bubble would stop virtual time while someone waits on it.
var remake []func()

// Remake registers f, which makes a package level channel, and calls it at once.
func Remake(f func()) bool {
	f()
	remake = append(remake, f)
	return true
}

func (w *World) isBroadcast(ip net.IP) bool {
	for _, b := range w.Broadcast {
		if b.Equal(ip) {
			return true
		}
	}
	return false
}

type inbound struct {
	from net.UDPAddr
	data []byte
	err  error
}

// UDPConn is a simulated UDP socket with the method set of net.UDPConn.
type UDPConn struct {
	w      *World
	laddr  net.UDPAddr // as bound
	host   net.UDPAddr // as seen by others
	raddr  *net.UDPAddr
	closed chan struct{}
	wake   chan struct{}

	mu       sync.Mutex
	q        []inbound
	vainAt   time.Time
	vainly   int
	isClosed bool
	deadline time.Time
	dlTimer  *time.Timer
	wdead    time.Time
	reads    int
}

// Local is the address the socket was bound to, HostAddr the one others see.
func (c *UDPConn) Local() net.UDPAddr    { return c.laddr }
func (c *UDPConn) HostAddr() net.UDPAddr { return c.host }

// Inject queues a datagram for reading, as if it had arrived from "from".
func (c *UDPConn) Inject(from net.UDPAddr, data []byte) {
	c.push(inbound{from: from, data: append([]byte(nil), data...)})
}

// InjectReadError makes one read fail with err.
func (c *UDPConn) InjectReadError(err error) { c.push(inbound{err: err}) }

// Pending is how many datagrams wait to be read, Reads how many were read.
func (c *UDPConn) Pending() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.q) }
func (c *UDPConn) Reads() int   { c.mu.Lock(); defer c.mu.Unlock(); return c.reads }

// Closed tells whether Close was called.
func (c *UDPConn) Closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.isClosed }

func (c *UDPConn) push(in inbound) {
	c.mu.Lock()
	if c.isClosed {
		c.mu.Unlock()
		return
	}
	c.q = append(c.q, in)
	c.mu.Unlock()
	c.kick()
}

func (c *UDPConn) kick() {
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

func (c *UDPConn) opErr(op string, err error) error {
	la := c.laddr
	return &net.OpError{Op: op, Net: "udp", Addr: &la, Err: err}
}

// vain counts what fails at one and the same instant. Somebody who goes on and on without
// letting time pass never gives up: it is stopped here.
func (c *UDPConn) vain(what string, limit int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if now := time.Now(); !now.Equal(c.vainAt) {
		c.vainAt, c.vainly = now, 0
	}
	if c.vainly++; c.vainly > limit {
		panic(fmt.Sprintf("%d times a %s without a pause", c.vainly, what))
	}
}

func (c *UDPConn) read(b []byte) (int, *net.UDPAddr, error) {
	if c == nil {
		return 0, nil, syscall.EINVAL
	}
	c.w.yield()
	for {
		c.mu.Lock()
		if c.isClosed {
			c.mu.Unlock()
			c.vain("read from a closed socket", 5000000)
			return 0, nil, c.opErr("read", net.ErrClosed)
		}
		if !c.deadline.IsZero() && !time.Now().Before(c.deadline) {
			c.mu.Unlock()
			return 0, nil, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(c.q) > 0 {
			in := c.q[0]
			c.q[0] = inbound{} // so that it is not kept
			c.q = c.q[1:]
			more := len(c.q) > 0
			if !more {
				c.q = nil
			}
			c.reads++
			c.mu.Unlock()
			if more {
				c.kick()
			}
			if in.err != nil {
				return 0, nil, c.opErr("read", in.err)
			}
			n := copy(b, in.data)
			from := in.from
			from.IP = append(net.IP(nil), from.IP...)
			return n, &from, nil
		}
		c.mu.Unlock()
		select {
		case <-c.wake:
		case <-c.closed:
		}
	}
}

func (c *UDPConn) write(b []byte, to *net.UDPAddr) (int, error) {
	if c == nil {
		return 0, syscall.EINVAL
	}
	if to == nil {
		return 0, c.opErr("write", errors.New("missing address"))
	}
	w := c.w
	w.yield()
	if w.Neighbour != nil && c.host.IP.Equal(w.Neighbour) {
		if c.Closed() {
			return 0, c.opErr("write", net.ErrClosed)
		}
		w.OnNeighbour(Event{T: time.Now(), Conn: c, From: c.host, To: *to, Data: append([]byte(nil), b...)})
		return len(b), nil
	}
	w.mu.Lock()
	late := false
	for w.gate != nil && !c.Closed() && !late {
		g := w.gate
		var dead <-chan time.Time
		if d := c.writeDeadline(); !d.IsZero() {
			dead = time.After(time.Until(d))
		}
		w.held++
		w.mu.Unlock()
		select {
		case <-g:
		case <-c.closed:
		case <-dead:
			late = true
		}
		w.mu.Lock()
		w.held--
	}
	if d := c.writeDeadline(); !d.IsZero() && !time.Now().Before(d) && !c.Closed() {
		w.mu.Unlock()
		return 0, c.opErr("write", os.ErrDeadlineExceeded)
	}
	if c.Closed() {
		w.mu.Unlock()
		c.vain("write to a closed socket", 5000000)
		return 0, c.opErr("write", net.ErrClosed)
	}
	dst := *to
	dst.IP = append(net.IP(nil), to.IP...)
	ev := Event{Stamp: w.stamp.Add(1), T: time.Now(), Conn: c, From: c.host, To: dst, Data: append([]byte(nil), b...)}
	var ferr error
	if w.WriteFault != nil {
		ferr = w.WriteFault(ev)
	}
	ev.Failed = ferr != nil
	w.events = append(w.events, ev)
	var targets []*UDPConn
	if ferr == nil {
		bc := w.isBroadcast(dst.IP)
		for _, t := range w.conns {
			if t.host.Port == dst.Port && (bc || t.host.IP.Equal(dst.IP)) {
				targets = append(targets, t)
			}
		}
	}
	w.mu.Unlock()
	if ferr != nil {
		c.vain("failing write", 500000)
		return 0, c.opErr("write", ferr)
	}
	if w.OnSend != nil {
		w.OnSend(ev)
	}
	for _, t := range targets {
		delays := []time.Duration{0}
		if w.Policy != nil {
			delays = w.Policy(ev, t)
		}
		for _, d := range delays {
			if d <= 0 {
				t.Inject(ev.From, ev.Data)
				continue
			}
			t := t
			time.AfterFunc(d, func() { t.Inject(ev.From, ev.Data) })
		}
	}
	w.yield()
	return len(b), nil
}

func listen(laddr *net.UDPAddr) (*UDPConn, error) {
	w := current.Load()
	if w == nil {
		return nil, errors.New("verifnet: no world")
	}
	a := net.UDPAddr{}
	if laddr != nil {
		a = *laddr
	}
	near := w.Neighbour != nil && a.IP.Equal(w.Neighbour)
	if w.ListenFault != nil && !near {
		if err := w.ListenFault(a); err != nil {
			return nil, &net.OpError{Op: "listen", Net: "udp4", Addr: &a, Err: err}
		}
	}
	wild := len(a.IP) == 0 || a.IP.IsUnspecified()
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, o := range w.conns {
		owild := len(o.laddr.IP) == 0 || o.laddr.IP.IsUnspecified()
		if o.laddr.Port == a.Port && o.host.IP.Equal(hostOf(w, a)) && (wild || owild || o.laddr.IP.Equal(a.IP)) {
			return nil, &net.OpError{Op: "listen", Net: "udp4", Addr: &a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	c := &UDPConn{w: w, laddr: a, closed: make(chan struct{}), wake: make(chan struct{}, 1)}
	c.host = net.UDPAddr{IP: hostOf(w, a), Port: a.Port}
	if near {
		w.near = append(w.near, c)
		return c, nil
	}
	w.conns = append(w.conns, c)
	w.opened++
	return c, nil
}

func hostOf(w *World, a net.UDPAddr) net.IP {
	if len(a.IP) == 0 || a.IP.IsUnspecified() {
		return w.HostIP
	}
	return a.IP
}

// ListenPacket is net.ListenPacket on the current world.
func ListenPacket(network, address string) (net.PacketConn, error) {
	switch network {
	case "udp", "udp4":
	default:
		return nil, fmt.Errorf("verifnet: network %q is not simulated", network)
	}
	a, err := net.ResolveUDPAddr("udp4", address)
	if err != nil {
		return nil, err
	}
	c, err := listen(a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// ListenUDP is net.ListenUDP on the current world.
func ListenUDP(network string, laddr *net.UDPAddr) (*UDPConn, error) { return listen(laddr) }

// ListenMulticastUDP is not simulated beyond binding.
func ListenMulticastUDP(network string, ifi *net.Interface, gaddr *net.UDPAddr) (*UDPConn, error) {
	return listen(gaddr)
}

// DialUDP is net.DialUDP on the current world.
func DialUDP(network string, laddr, raddr *net.UDPAddr) (*UDPConn, error) {
	c, err := listen(laddr)
	if err != nil {
		return nil, err
	}
	c.raddr = raddr
	return c, nil
}

// ListenConfig is net.ListenConfig, for UDP.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

// ListenPacket is (*net.ListenConfig).ListenPacket on the current world.
func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}

// Listen is not simulated.
func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	r := net.ListenConfig{Control: lc.Control, KeepAlive: lc.KeepAlive, KeepAliveConfig: lc.KeepAliveConfig}
	return r.Listen(ctx, network, address)
}

// Close closes the socket and wakes every blocked operation.
func (c *UDPConn) Close() error {
	if c == nil {
		return syscall.EINVAL
	}
	c.mu.Lock()
	if c.isClosed {
		c.mu.Unlock()
		return c.opErr("close", net.ErrClosed)
	}
	c.isClosed = true
	close(c.closed)
	if c.dlTimer != nil {
		c.dlTimer.Stop()
	}
	c.mu.Unlock()
	w := c.w
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, o := range w.conns {
		if o == c {
			w.conns = append(w.conns[:i:i], w.conns[i+1:]...)
			break
		}
	}
	if w.CloseErr != nil {
		return c.opErr("close", w.CloseErr)
	}
	return nil
}

// The rest is the method set of net.UDPConn on top of read and write.

func (c *UDPConn) ReadFromUDP(b []byte) (n int, addr *net.UDPAddr, err error) { return c.read(b) }
func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := c.read(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}
func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.read(b)
	if a == nil {
		return n, netip.AddrPort{}, err
	}
	ap := a.AddrPort()
	return n, netip.AddrPortFrom(ap.Addr().Unmap(), ap.Port()), err
}
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *net.UDPAddr, err error) {
	n, addr, err = c.read(b)
	return
}
func (c *UDPConn) ReadMsgUDPAddrPort(b, oob []byte) (n, oobn, flags int, addr netip.AddrPort, err error) {
	n, addr, err = c.ReadFromUDPAddrPort(b)
	return
}
func (c *UDPConn) Read(b []byte) (int, error)                          { n, _, err := c.read(b); return n, err }
func (c *UDPConn) WriteToUDP(b []byte, addr *net.UDPAddr) (int, error) { return c.write(b, addr) }
func (c *UDPConn) WriteTo(b []byte, addr net.Addr) (int, error) {
	a, ok := addr.(*net.UDPAddr)
	if !ok {
		return 0, c.opErr("write", syscall.EINVAL)
	}
	return c.write(b, a)
}
func (c *UDPConn) WriteToUDPAddrPort(b []byte, addr netip.AddrPort) (int, error) {
	return c.write(b, net.UDPAddrFromAddrPort(addr))
}
func (c *UDPConn) Write(b []byte) (int, error) { return c.write(b, c.raddr) }
func (c *UDPConn) WriteMsgUDP(b, oob []byte, addr *net.UDPAddr) (n, oobn int, err error) {
	n, err = c.write(b, addr)
	return
}
func (c *UDPConn) WriteMsgUDPAddrPort(b, oob []byte, addr netip.AddrPort) (n, oobn int, err error) {
	n, err = c.WriteToUDPAddrPort(b, addr)
	return
}
func (c *UDPConn) LocalAddr() net.Addr {
	if c == nil {
		return nil
	}
	a := c.laddr
	return &a
}
func (c *UDPConn) RemoteAddr() net.Addr {
	if c == nil || c.raddr == nil {
		return nil
	}
	return c.raddr
}
func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.deadline = t
	if c.dlTimer != nil {
		c.dlTimer.Stop()
		c.dlTimer = nil
	}
	if !t.IsZero() {
		c.dlTimer = time.AfterFunc(time.Until(t), c.kick)
	} else {
		c.kick()
	}
	return nil
}
func (c *UDPConn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

// SetWriteDeadline counts for the writes that begin after it.
func (c *UDPConn) SetWriteDeadline(t time.Time) error {
	if c == nil {
		return syscall.EINVAL
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.wdead = t
	return nil
}

func (c *UDPConn) writeDeadline() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.wdead
}
func (c *UDPConn) SetReadBuffer(bytes int) error         { return nil }
func (c *UDPConn) SetWriteBuffer(bytes int) error        { return nil }
func (c *UDPConn) File() (*os.File, error)               { return nil, syscall.EINVAL }
func (c *UDPConn) SyscallConn() (syscall.RawConn, error) { return nil, syscall.EINVAL }
func (c *UDPConn) MultipathTCP() (bool, error)           { return false, nil }

var (
	_ net.PacketConn = (*UDPConn)(nil)
	_ net.Conn       = (*UDPConn)(nil)
)
