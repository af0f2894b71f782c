// Package vnet is the virtual UDP network of an execution: sockets, datagrams
// in flight, and the choices about their fate.
package vnet

import (
	"errors"
	"fmt"
	"net"
	"os"
	"syscall"
	"time"

	"verif.local/zz/rt"
)

// MaxPayload is the largest UDP payload over IPv4.
const MaxPayload = 65507

// Latency of a datagram that meets no trouble.
const Latency = time.Millisecond

// Dgram is one datagram.
type Dgram struct {
	N        int // running number
	At       time.Duration
	Src, Dst *net.UDPAddr
	Data     []byte
	Fate     string
	Injected bool
}

// Fate says what happens to a datagram: one copy per delay.
type Fate struct {
	Name   string
	Delays []time.Duration
}

// Usual fates.
var (
	OK    = Fate{"ok", []time.Duration{Latency}}
	Drop  = Fate{"drop", nil}
	Dup   = Fate{"dup", []time.Duration{Latency, Latency}}
	Dup2  = Fate{"duplate", []time.Duration{Latency, 40 * time.Millisecond}}
	Late  = Fate{"late", []time.Duration{4 * time.Millisecond}}
	Later = Fate{"later", []time.Duration{330 * time.Millisecond}}
	// WriteErr: the socket refuses to send it; nothing comes on the wire
	WriteErr = Fate{"write error", nil}
)

// Net is the network of one execution.
type Net struct {
	socks    map[string]*Sock
	nextPort int
	Log      []*Dgram
	count    int
	// Fates offers the fates of a datagram while network choices are explored;
	// the first is the default. nil: Default.
	Fates func(d *Dgram) []Fate
	// Force decides the fate outside choices (nil result: delivered).
	Force func(d *Dgram) *Fate
	// OnSend and OnDeliver observe datagrams.
	OnSend    func(d *Dgram)
	OnDeliver func(d *Dgram)
	Keep      bool
	Oversize  int // datagrams refused because they are too long
	inFlight  int
}

// Host is the address of the machine the current thread belongs to: the
// owner label up to a slash, when it is an address; 127.0.0.1 otherwise.
func Host() net.IP {
	o := rt.Owner()
	for i := 0; i < len(o); i++ {
		if o[i] == '/' {
			o = o[:i]
			break
		}
	}
	if ip := net.ParseIP(o); ip != nil {
		return ip.To4()
	}
	return net.IPv4(127, 0, 0, 1).To4()
}

// Get returns the network of the current execution.
func Get() *Net {
	if n, ok := rt.X.Locals["vnet"]; ok {
		return n.(*Net)
	}
	n := &Net{socks: map[string]*Sock{}, nextPort: 40000, Keep: true}
	rt.X.Locals["vnet"] = n
	return n
}

// Sock is one UDP socket; it implements net.PacketConn.
type Sock struct {
	n      *Net
	addr   *net.UDPAddr // host address and port
	q      []*Dgram
	closed bool
	dead   bool
	rdl    time.Time
	errs   int // reads that fail next
	o      rt.Obj
	Owner  string
}

func key(ip net.IP, port int) string { return fmt.Sprintf("%s:%d", ip, port) }

// Listen opens a socket on the current host.
func Listen(port int) (*Sock, error) {
	n := Get()
	ip := Host()
	if port == 0 {
		for {
			n.nextPort++
			port = n.nextPort
			if n.socks[key(ip, port)] == nil {
				break
			}
		}
	}
	if port < 0 || port > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: fmt.Sprint(port)}
	}
	if n.socks[key(ip, port)] != nil {
		return nil, &net.OpError{Op: "listen", Net: "udp", Err: errors.New("bind: address already in use")}
	}
	s := &Sock{n: n, addr: &net.UDPAddr{IP: ip, Port: port}, Owner: rt.Owner()}
	n.socks[key(ip, port)] = s
	return s, nil
}

// InUse tells whether a socket is open.
func (n *Net) InUse(ip net.IP, port int) bool { return n.socks[key(ip, port)] != nil }

var errClosed = &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}

// ReadFrom implements net.PacketConn.
func (s *Sock) ReadFrom(b []byte) (int, net.Addr, error) {
	if rt.Killed() {
		return 0, nil, errClosed
	}
	expired := false
	var tm *rt.Timer
	if !s.rdl.IsZero() {
		d := s.rdl.Sub(rt.Epoch.Add(rt.Now()))
		if d <= 0 {
			rt.Sleep(time.Microsecond)
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
		}
		tm = rt.AfterFunc(d, func() { expired = true })
	}
	rt.Block("network read", func() bool { return s.closed || len(s.q) > 0 || s.errs > 0 || expired })
	if tm != nil {
		rt.StopTimer(tm)
	}
	rt.Op(&s.o)
	if s.closed {
		// a caller that keeps reading a closed socket spins; give time a chance
		rt.Sleep(time.Microsecond)
		return 0, nil, errClosed
	}
	if s.errs > 0 {
		s.errs--
		if rt.IsTracing() {
			rt.Tracef("%v: a read fails", s.addr)
		}
		return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: os.NewSyscallError("recvfrom", syscall.ECONNREFUSED)}
	}
	if len(s.q) == 0 {
		return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: os.ErrDeadlineExceeded}
	}
	d := s.q[0]
	s.q = s.q[1:]
	if rt.IsTracing() {
		rt.Tracef("%v reads #%d from %v: %s", s.addr, d.N, d.Src, Describe(d.Data))
	}
	a := *d.Src
	return copy(b, d.Data), &a, nil
}

// Describe shows the head of a datagram.
func Describe(b []byte) string {
	names := []string{"connect", "serverAnswer", "clientAnswer", "done", "data", "ack", "ping", "pong", "disconnect", "punch"}
	if len(b) < 4 {
		return fmt.Sprintf("% x", b)
	}
	id := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
	t := fmt.Sprintf("type %d", b[3])
	if k := int(b[3] &^ 0x80); k < len(names) {
		t = names[k]
		if b[3]&0x80 != 0 {
			t += "+split"
		}
	}
	return fmt.Sprintf("%s id %d len %d", t, id, len(b)-4)
}

// WriteTo implements net.PacketConn.
func (s *Sock) WriteTo(b []byte, a net.Addr) (int, error) {
	if rt.Killed() {
		return 0, errClosed
	}
	rt.Yield()
	rt.Op(&s.o)
	if s.closed {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: net.ErrClosed}
	}
	u, ok := a.(*net.UDPAddr)
	if !ok || u == nil {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: errors.New("missing address")}
	}
	if len(b) > MaxPayload {
		s.n.Oversize++
		return 0, &net.OpError{Op: "write", Net: "udp", Err: errors.New("message too long")}
	}
	if !s.dead && !s.n.Send(s.addr, resolve(u), b, false) {
		return 0, &net.OpError{Op: "write", Net: "udp", Err: os.NewSyscallError("sendto", syscall.ENETUNREACH)}
	}
	return len(b), nil
}

func resolve(u *net.UDPAddr) *net.UDPAddr {
	r := &net.UDPAddr{IP: u.IP, Port: u.Port}
	if r.IP == nil || r.IP.IsUnspecified() {
		r.IP = Host()
	}
	if v := r.IP.To4(); v != nil {
		r.IP = v
	} else if r.IP.IsLoopback() {
		r.IP = net.IPv4(127, 0, 0, 1).To4()
	}
	return r
}

// Send puts a datagram on the wire. It returns false if sending failed.
func (n *Net) Send(src, dst *net.UDPAddr, b []byte, injected bool) bool {
	n.count++
	d := &Dgram{N: n.count, At: rt.Now(), Src: src, Dst: dst, Data: append([]byte(nil), b...), Injected: injected}
	if n.Keep {
		n.Log = append(n.Log, d)
	}
	f := OK
	if n.Force != nil {
		if g := n.Force(d); g != nil {
			f = *g
		}
	}
	if f.Name == "ok" && rt.NetROI() && !injected && n.Fates != nil {
		if fs := n.Fates(d); len(fs) > 0 {
			f = fs[rt.Choose(rt.KNet, len(fs))]
		}
	}
	d.Fate = f.Name
	if rt.IsTracing() {
		rt.Tracef("send #%d %v -> %v %s: %s", d.N, src, dst, Describe(b), f.Name)
	}
	if f.Name == WriteErr.Name {
		return false
	}
	if n.OnSend != nil {
		n.OnSend(d)
	}
	for _, dl := range f.Delays {
		n.inFlight++
		rt.AfterFunc(dl, func() { n.inFlight--; n.deliver(d) })
	}
	return true
}

// FailReads lets the next k reads of a socket fail, the waiting one included.
func (n *Net) FailReads(ip net.IP, port, k int) {
	if s := n.socks[key(ip, port)]; s != nil {
		s.errs += k
	}
}

func (n *Net) deliver(d *Dgram) {
	s := n.socks[key(d.Dst.IP, d.Dst.Port)]
	if s == nil || s.closed {
		return
	}
	if n.OnDeliver != nil {
		n.OnDeliver(d)
	}
	s.q = append(s.q, d)
	rt.MixState(uint64(d.N)*0x9E3779B97F4A7C15 + 5)
}

// Detach takes a socket off the network as if its machine had lost power: it
// receives nothing, what it sends goes nowhere, and its port is free.
func (n *Net) Detach(ip net.IP, port int) {
	k := key(ip, port)
	if s := n.socks[k]; s != nil {
		s.dead = true
		delete(n.socks, k)
	}
}

// Inject delivers bytes from src to dst after d, without any choice.
func (n *Net) Inject(src, dst *net.UDPAddr, b []byte, d time.Duration) {
	n.count++
	g := &Dgram{N: n.count, At: rt.Now(), Src: src, Dst: dst, Data: append([]byte(nil), b...), Injected: true, Fate: "ok"}
	if rt.IsTracing() {
		rt.Tracef("inject #%d %v -> %v %s", g.N, src, dst, Describe(b))
	}
	n.inFlight++
	rt.AfterFunc(d, func() { n.inFlight--; n.deliver(g) })
}

// Quiet tells that nothing is in flight or unread.
func (n *Net) Quiet() bool {
	if n.inFlight > 0 {
		return false
	}
	for _, s := range n.socks {
		if len(s.q) > 0 {
			return false
		}
	}
	return true
}

// Close implements net.PacketConn.
func (s *Sock) Close() error {
	if rt.Killed() {
		return nil
	}
	rt.Yield()
	rt.Op(&s.o)
	if s.closed {
		return &net.OpError{Op: "close", Net: "udp", Err: net.ErrClosed}
	}
	s.closed = true
	if !s.dead {
		delete(s.n.socks, key(s.addr.IP, s.addr.Port))
	}
	return nil
}

// LocalAddr implements net.PacketConn.
func (s *Sock) LocalAddr() net.Addr { return &net.UDPAddr{IP: net.IPv6unspecified, Port: s.addr.Port} }

// Addr is the address others reach the socket at.
func (s *Sock) Addr() *net.UDPAddr { a := *s.addr; return &a }

// SetDeadline implements net.PacketConn.
func (s *Sock) SetDeadline(t time.Time) error { s.rdl = t; return nil }

// SetReadDeadline implements net.PacketConn.
func (s *Sock) SetReadDeadline(t time.Time) error { s.rdl = t; return nil }

// SetWriteDeadline implements net.PacketConn.
func (s *Sock) SetWriteDeadline(t time.Time) error { return nil }

// SetReadBuffer and SetWriteBuffer exist on real UDP sockets.
func (s *Sock) SetReadBuffer(int) error  { return nil }
func (s *Sock) SetWriteBuffer(int) error { return nil }

// ReadFromUDP is ReadFrom with a UDP address.
func (s *Sock) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	n, a, err := s.ReadFrom(b)
	if err != nil {
		return n, nil, err
	}
	return n, a.(*net.UDPAddr), nil
}

// WriteToUDP is WriteTo with a UDP address.
func (s *Sock) WriteToUDP(b []byte, a *net.UDPAddr) (int, error) { return s.WriteTo(b, a) }
