package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"net"
	"os"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/google/uuid"
	tru "github.com/teonet-go/tru"
	"github.com/teonet-go/tru/hotkey"
	"github.com/teonet-go/tru/teolog"
	"github.com/teonet-go/tru/term"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// devnull sends the standard output of the code under test to /dev/null.
func devnull() {
	f, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		return
	}
	syscall.Dup2(int(f.Fd()), 0)
	syscall.Dup2(int(f.Fd()), 1)
}

type detRand struct{}

func (detRand) Read(b []byte) (int, error) { rt.RandRead(b); return len(b), nil }

// prepare puts all package state back before an execution.
func prepare() {
	tru.ZZReset()
	hotkey.ZZReset()
	teolog.ZZReset()
	term.ZZReset()
	uuid.SetRand(detRand{})
}

// as runs fn on behalf of a node.
func as(owner string, fn func()) {
	old := rt.Owner()
	rt.SetOwner(owner)
	fn()
	rt.SetOwner(old)
}

// spawn starts a harness thread on behalf of a node.
func spawn(owner, name string, fn func()) *task {
	t := &task{}
	as(owner, func() { rt.GoNamed(harnessPrefix+name, func() { fn(); t.done = true }) })
	return t
}

const harnessPrefix = "harness:"

type task struct{ done bool }

// wait for the tasks; false if they do not end in time.
func wait(d time.Duration, ts ...*task) bool {
	return rt.WaitUntil(d, func() bool {
		for _, t := range ts {
			if !t.done {
				return false
			}
		}
		return true
	})
}

// Node is one tru node.
type Node struct {
	*tru.Tru
	Owner string
	max   int
	port  int
}

// node creates a node. owner is "ip/name" or "name".
func node(owner string, port int, params ...interface{}) *Node {
	n := &Node{Owner: owner}
	as(owner, func() {
		t, err := tru.New(port, params...)
		if err != nil {
			rt.Fail("cannot create node %s: %v", owner, err)
		}
		n.Tru = t
		n.port = t.LocalPort()
	})
	return n
}

func (n *Node) ip() net.IP {
	if i := strings.IndexByte(n.Owner, '/'); i > 0 {
		if ip := net.ParseIP(n.Owner[:i]); ip != nil {
			return ip.To4()
		}
	}
	return net.IPv4(127, 0, 0, 1).To4()
}

func (n *Node) udp() *net.UDPAddr { return &net.UDPAddr{IP: n.ip(), Port: n.port} }
func (n *Node) addr() string      { return n.udp().String() }

// newMax is the maximum data length the node was created with.
func (n *Node) newMax() int { return n.max }

// do runs fn on behalf of the node.
func (n *Node) do(fn func()) { as(n.Owner, fn) }

// spawn starts a thread on behalf of the node.
func (n *Node) spawn(name string, fn func()) *task { return spawn(n.Owner, name, fn) }

// threads are the goroutines and timers of the node that are still there.
func (n *Node) threads() (l []string) {
	for _, t := range rt.LiveThreads() {
		if t.Owner == n.Owner && !strings.HasPrefix(t.Name, harnessPrefix) && t.Name != "main" {
			l = append(l, "goroutine "+t.Name)
		}
	}
	for _, t := range rt.PendingTimers(n.Owner) {
		l = append(l, "timer "+t)
	}
	return
}

// Stream is one direction of a connection as the oracle sees it.
type Stream struct {
	Name string
	Sent []string // in the order of the writes
	Got  int
	Log  []string
}

// msg makes message number i of n bytes of a stream.
func msg(stream string, i, n int) string {
	head := fmt.Sprintf("%s#%d/%d|", stream, i, n)
	if n < len(head) {
		return head[len(head)-n:]
	}
	var b strings.Builder
	b.WriteString(head)
	sum := sha256.Sum256([]byte(head))
	for b.Len() < n {
		b.WriteByte(sum[b.Len()%32] ^ byte(b.Len()/32*7))
	}
	return b.String()
}

func short(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("%q...(%d bytes, %x)", s[:24], len(s), sha256.Sum256([]byte(s)))[:80]
	}
	return fmt.Sprintf("%q", s)
}

// deliver checks one message handed to the application.
func (s *Stream) deliver(data []byte) {
	d := string(data)
	rt.Observe("%s got %s", s.Name, shortObs(d))
	if s.Got >= len(s.Sent) {
		for _, m := range s.Sent {
			if m == d {
				rt.Fail("%s: message %s delivered again (%d messages were written, all delivered before)", s.Name, short(d), len(s.Sent))
			}
		}
		rt.Fail("%s: message %s delivered although only %d messages were written", s.Name, short(d), len(s.Sent))
	}
	if s.Sent[s.Got] != d {
		rt.Fail("%s: message number %d is %s, written was %s", s.Name, s.Got, short(d), short(s.Sent[s.Got]))
	}
	s.Got++
}

func shortObs(s string) string {
	if len(s) > 24 {
		return fmt.Sprintf("%q+%d", s[:12], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// Pair is a client and a server with one connection.
type Pair struct {
	S, C     *Node
	Ch       *tru.Channel // client side
	Sch      *tru.Channel // server side
	Up, Down *Stream      // client to server, server to client
	Announce int
	SErr     []string
	CErr     []string
	// OnUp, OnDown replace the default reader behaviour if set
	OnUp, OnDown func(ch *tru.Channel, pac *tru.Packet)
	OnErr        func(side string, ch *tru.Channel, err error)
	Net          *vnet.Net
}

type pairOpt struct {
	maxData    int
	sParams    []interface{}
	cParams    []interface{}
	noConnect  bool
	sOwner     string
	cOwner     string
	noCReader  bool // connect without a reader: global reader of the client node
	truncLimit int
}

func newPair(o pairOpt) *Pair {
	p := &Pair{Up: &Stream{Name: "up"}, Down: &Stream{Name: "down"}, Net: vnet.Get()}
	if o.sOwner == "" {
		o.sOwner = "srv"
	}
	if o.cOwner == "" {
		o.cOwner = "cli"
	}
	sp := append([]interface{}{
		tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
			if err != nil {
				p.sErr(ch, err)
				return false
			}
			if p.OnUp != nil {
				p.OnUp(ch, pac)
				return true
			}
			p.Up.deliver(pac.Data())
			return true
		}),
		tru.ConnectFunc(func(ch *tru.Channel, err error) {
			if err == nil {
				p.Announce++
				p.Sch = ch
			}
		}),
	}, o.sParams...)
	if o.maxData > 0 {
		sp = append(sp, tru.MaxDataLenType(o.maxData))
		o.cParams = append(o.cParams, tru.MaxDataLenType(o.maxData))
	}
	p.S = node(o.sOwner, 7000, sp...)
	p.C = node(o.cOwner, 0, o.cParams...)
	p.S.max, p.C.max = o.maxData, o.maxData
	if !o.noConnect {
		p.connect()
	}
	return p
}

func (p *Pair) sErr(ch *tru.Channel, err error) {
	p.SErr = append(p.SErr, err.Error())
	if p.OnErr != nil {
		p.OnErr("server", ch, err)
	}
}

// clientReader is the reader given to Connect.
func (p *Pair) clientReader(ch *tru.Channel, pac *tru.Packet, err error) bool {
	if err != nil {
		p.CErr = append(p.CErr, err.Error())
		if p.OnErr != nil {
			p.OnErr("client", ch, err)
		}
		return false
	}
	if p.OnDown != nil {
		p.OnDown(ch, pac)
		return true
	}
	p.Down.deliver(pac.Data())
	return true
}

// connect establishes the connection under the default schedule.
func (p *Pair) connect() {
	p.C.do(func() {
		ch, err := p.C.Connect(p.S.addr(), p.clientReader)
		if err != nil {
			rt.Fail("connect on a perfect network failed: %v", err)
		}
		p.Ch = ch
	})
	// let everything settle
	rt.WaitUntil(5*time.Millisecond, func() bool { return false })
	p.findServerSide()
	if p.Sch == nil {
		rt.Fail("the server has no connection after connect returned")
	}
}

func (p *Pair) findServerSide() {
	if p.Sch != nil {
		return
	}
	p.S.do(func() {
		p.S.ForEachChannel(func(ch *tru.Channel) {
			if ch != nil && ch.Addr().String() == p.C.addr() {
				p.Sch = ch
			}
		})
	})
}

// up writes a message from the client, down from the server.
func (p *Pair) up(n int, delivery ...interface{}) error {
	return p.write(p.C, p.Ch, p.Up, n, delivery...)
}
func (p *Pair) down(n int, delivery ...interface{}) error {
	return p.write(p.S, p.Sch, p.Down, n, delivery...)
}

func (p *Pair) write(n *Node, ch *tru.Channel, s *Stream, size int, delivery ...interface{}) (err error) {
	m := msg(s.Name, len(s.Sent), size)
	s.Sent = append(s.Sent, m)
	n.do(func() { _, err = ch.WriteTo([]byte(m), delivery...) })
	return
}

// allDelivered tells whether every written message has arrived.
func (p *Pair) allDelivered() bool {
	return p.Up.Got == len(p.Up.Sent) && p.Down.Got == len(p.Down.Sent)
}

// settle ends the exploration and lets the connection finish its work on a
// network that no longer loses anything.
func (p *Pair) settle(d time.Duration) {
	rt.SetROI(rt.ROI{})
	if !rt.WaitUntil(d, p.allDelivered) {
		rt.Fail("not all messages arrived within %v although the network delivers everything: up %d of %d, down %d of %d\n%s",
			d, p.Up.Got, len(p.Up.Sent), p.Down.Got, len(p.Down.Sent), rt.Dump())
	}
	// anything delivered too much shows up now
	rt.Sleep(700 * time.Millisecond)
}

// fates offers fs for the datagrams accepted by filter (nil: all data-phase datagrams).
func (p *Pair) fates(filter func(d *vnet.Dgram) bool, fs ...vnet.Fate) {
	p.Net.Fates = func(d *vnet.Dgram) []vnet.Fate {
		if filter != nil && !filter(d) {
			return nil
		}
		return fs
	}
}

// ---- wire format (as documented in packet.go) -----------------------------------

const (
	wConnect = iota
	wServerAnswer
	wClientAnswer
	wDone
	wData
	wAck
	wPing
	wPong
	wDisconnect
	wPunch
	wDataNext = wData | 0x80
)

func wType(b []byte) int {
	if len(b) < 4 {
		return -1
	}
	return int(b[3])
}

func wID(b []byte) int { return (int(b[0]) | int(b[1])<<8 | int(b[2])<<16) & 0xFFFFF }

func wPacket(typ, id int, data []byte) []byte {
	return append([]byte{byte(id), byte(id >> 8), byte(id >> 16), byte(typ)}, data...)
}

func isData(d *vnet.Dgram) bool {
	t := wType(d.Data)
	return t == wData || t == wDataNext
}

func isHandshake(d *vnet.Dgram) bool {
	t := wType(d.Data)
	return t >= wConnect && t <= wDone
}

// ---- access to fields for setting initial packet numbers --------------------------

// setID sets the next number to send and the next number expected of a
// channel; false if the channel has no such fields (any more): what depends on
// them is left out then.
func setID(ch *tru.Channel, send, expected uint32) bool {
	var ids, exps, others []reflect.Value
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f, name := v.Field(i), strings.ToLower(v.Type().Field(i).Name)
			n := f
			if f.Kind() == reflect.Struct && strings.Contains(f.Type().PkgPath(), "atomic") {
				for k := 0; k < f.NumField(); k++ {
					if f.Field(k).CanUint() || f.Field(k).CanInt() {
						n = f.Field(k)
					}
				}
			} else if f.Kind() == reflect.Struct && strings.HasSuffix(f.Type().PkgPath(), "/tru") {
				walk(f)
				continue
			}
			if !n.CanUint() && !n.CanInt() || n.Type().Size() < 4 {
				continue
			}
			switch {
			case name == "id":
				ids = append(ids, n)
			case name == "expectedid":
				exps = append(exps, n)
			case n.Kind() == reflect.Uint32:
				if strings.Contains(name, "expect") || strings.Contains(name, "recv") || strings.Contains(name, "receive") {
					exps = append(exps, n)
				} else {
					others = append(others, n)
				}
			}
		}
	}
	walk(reflect.ValueOf(ch).Elem())
	if len(ids) == 0 {
		ids = others
	}
	if len(ids) != 1 || len(exps) != 1 {
		rt.Observe("packet numbers cannot be set")
		return false
	}
	set := func(v reflect.Value, n uint32) {
		p := unsafe.Pointer(v.UnsafeAddr())
		if v.Type().Size() == 4 {
			*(*uint32)(p) = n
		} else {
			*(*uint64)(p) = uint64(n)
		}
	}
	set(ids[0], send)
	set(exps[0], expected)
	return true
}

func contains(hay, needle []byte) bool { return len(needle) > 0 && bytes.Contains(hay, needle) }
