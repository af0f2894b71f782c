package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	realrsa "crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"strings"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
	"verif.local/zz/vnet"
)

// victim is a server with one connection and the means to see that it works.
type victim struct {
	*Pair
	others []string // messages of other clients
	n      int
}

func newVictim() *victim {
	v := &victim{}
	v.Pair = newPair(pairOpt{noConnect: true})
	v.OnUp = func(ch *tru.Channel, pac *tru.Packet) {
		if ch.Addr().String() == v.C.addr() {
			v.Up.deliver(pac.Data())
			return
		}
		v.others = append(v.others, ch.Addr().String()+" "+string(pac.Data()))
	}
	return v
}

// alive checks that a node still accepts connections and serves them.
func (v *victim) alive(what string) {
	v.n++
	keep := v.Sch
	defer func() { v.Sch = keep }()
	s := node(fmt.Sprint("probe", v.n), 0)
	got := ""
	for _, srv := range []*Node{v.S} {
		a := attemptTo(s, fmt.Sprint("probe", v.n), srv.addr())
		a.result()
		if a.err != nil {
			rt.Fail("%s: a new connect to the node fails: %v\n%s", what, a.err, rt.Dump())
		}
		m := fmt.Sprintf("probe %d %s", v.n, strings.Repeat("x", 80))
		s.do(func() { a.ch.WriteTo([]byte(m)) })
		want := s.addr() + " " + m
		if !rt.WaitUntil(2*time.Second, func() bool {
			for _, o := range v.others {
				if o == want {
					return true
				}
			}
			return false
		}) {
			rt.Fail("%s: a new connection to the node carries no message\n%s", what, rt.Dump())
		}
		got += want
		s.do(func() { a.ch.Close() })
	}
	s.do(s.Close)
}

// clientAlive checks that the client node can still connect elsewhere.
func (v *victim) clientAlive(what string) {
	s2 := node("srv2", 7077)
	a := attemptTo(v.C, "elsewhere", s2.addr())
	a.result()
	if a.err != nil {
		rt.Fail("%s: the client node cannot connect elsewhere: %v\n%s", what, a.err, rt.Dump())
	}
	v.C.do(a.ch.Close)
	s2.do(s2.Close)
}

// serves checks that the existing connection was not touched.
func (v *victim) serves(what string) {
	v.up(30)
	v.down(90)
	if !rt.WaitUntil(3*time.Second, v.allDelivered) {
		rt.Fail("%s: the connection no longer carries messages: up %d of %d, down %d of %d\n%s", what,
			v.Up.Got, len(v.Up.Sent), v.Down.Got, len(v.Down.Sent), rt.Dump())
	}
	if v.Ch.Destroyed() || v.Sch.Destroyed() || v.Announce != 1+v.n {
		rt.Fail("%s: the connection was destroyed or announced again (%v %v, %d announced)", what, v.Ch.Destroyed(), v.Sch.Destroyed(), v.Announce)
	}
	if len(v.CErr) > 0 {
		rt.Fail("%s: the client's reader was told %v", what, v.CErr)
	}
}

var foreign = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1).To4(), Port: 5999}

// hostile packet types: all known ones, the split variants, and unknown ones.
var hostileTypes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0x7F, 0x80, 0x81, 0x84, 0x85, 0x88, 0x89, 0xFF}

func payload(shape int) []byte {
	l := []int{0, 1, 2, 12, 13, 16, 17, 37, 64, 65, 76, 77, 92, 93, 300, 1400, 60000}
	if shape < len(l) {
		b := make([]byte, l[shape])
		for i := range b {
			b[i] = byte(i*31 + 7)
		}
		return b
	}
	switch shape - len(l) {
	case 0: // identifier longer than the rest
		return append([]byte{255}, make([]byte, 40)...)
	case 1: // no identifier
		return []byte{0}
	case 2: // identifier of zeros and nothing else
		return append([]byte{36}, make([]byte, 36)...)
	case 3:
		return append(append([]byte{36}, make([]byte, 36)...), 1, 2, 3)
	case 4:
		return bytes.Repeat([]byte{255}, 70)
	}
	return nil
}

const payloadShapes = 17 + 5

// rawPeer is a peer that speaks the protocol by hand.
type rawPeer struct {
	s   *vnet.Sock
	dst *net.UDPAddr
	key *realrsa.PrivateKey
}

var rawKeys []*realrsa.PrivateKey

func rawKey(i int) *realrsa.PrivateKey {
	for len(rawKeys) <= i {
		k, err := realrsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			panic(err)
		}
		rawKeys = append(rawKeys, k)
	}
	return rawKeys[i]
}

func newRaw(owner string, port int, dst *net.UDPAddr) *rawPeer {
	r := &rawPeer{dst: dst, key: rawKey(0)}
	as(owner, func() {
		s, err := vnet.Listen(port)
		if err != nil {
			rt.Fail("HARNESS: %v", err)
		}
		r.s = s
	})
	return r
}

func (r *rawPeer) send(typ, id int, data []byte) {
	vnet.Get().Inject(r.s.Addr(), r.dst, wPacket(typ, id, data), 100*time.Microsecond)
}

// recv waits for a packet of a type.
func (r *rawPeer) recv(typ int, d time.Duration) []byte {
	end := rt.Epoch.Add(rt.Now() + d)
	buf := make([]byte, 65536)
	for {
		r.s.SetReadDeadline(end)
		n, _, err := r.s.ReadFrom(buf)
		if err != nil {
			return nil
		}
		if wType(buf[:n]) == typ {
			return append([]byte(nil), buf[4:n]...)
		}
	}
}

func pemKey(der []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: der})
}

func pubPEM(k *realrsa.PublicKey) []byte {
	b, err := x509.MarshalPKIXPublicKey(k)
	if err != nil {
		panic(err)
	}
	return pemKey(b)
}

var oddCache [][]byte

// oddKeys are public keys a node should not trust.
func oddKeys() [][]byte {
	if oddCache != nil {
		return oddCache
	}
	k := rawKey(0)
	ec, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	ecb, _ := x509.MarshalPKIXPublicKey(&ec.PublicKey)
	even := new(big.Int).Lsh(big.NewInt(1), 1023)
	neg := new(big.Int).Neg(k.N)
	_ = neg
	good := pubPEM(&k.PublicKey)
	oddCache = [][]byte{
		nil, []byte("x"), good[:len(good)/2], good[:len(good)-5],
		append([]byte("garbage before\n"), good...), append(append([]byte(nil), good...), "garbage after"...),
		pemKey(ecb), pemKey(nil), pemKey([]byte{0x30, 0}), pemKey([]byte{0x30, 0x80}),
		pubPEM(&realrsa.PublicKey{N: big.NewInt(15), E: 3}),
		pubPEM(&realrsa.PublicKey{N: big.NewInt(1), E: 3}),
		pubPEM(&realrsa.PublicKey{N: k.N, E: 1}),
		pubPEM(&realrsa.PublicKey{N: k.N, E: 2}),
		pubPEM(&realrsa.PublicKey{N: even, E: 65537}),
		pubPEM(&realrsa.PublicKey{N: new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 512), big.NewInt(569)), E: 65537}),
		pubPEM(&realrsa.PublicKey{N: new(big.Int).Add(new(big.Int).Lsh(k.N, 64), big.NewInt(1)), E: 65537}),
		pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte{1, 2, 3}}),
		bytes.Repeat(good, 3),
	}
	return oddCache
}

func rawConnectData(id, data []byte) []byte {
	return append(append([]byte{byte(len(id))}, id...), data...)
}

func seal(pub *realrsa.PublicKey, in []byte) (out []byte) {
	for len(in) > 0 {
		n := 62
		if n > len(in) {
			n = len(in)
		}
		d, err := realrsa.EncryptOAEP(sha256.New(), rand.Reader, pub, in[:n], nil)
		if err != nil {
			panic(err)
		}
		out = append(out, d...)
		in = in[n:]
	}
	return
}

func unseal(k *realrsa.PrivateKey, in []byte) (out []byte) {
	for len(in) >= 128 {
		d, err := realrsa.DecryptOAEP(sha256.New(), nil, k, in[:128], nil)
		if err != nil {
			return nil
		}
		out = append(out, d...)
		in = in[128:]
	}
	return
}

func parsePub(b []byte) *realrsa.PublicKey {
	bl, _ := pem.Decode(b)
	if bl == nil {
		return nil
	}
	k, err := x509.ParsePKIXPublicKey(bl.Bytes)
	if err != nil {
		return nil
	}
	p, _ := k.(*realrsa.PublicKey)
	return p
}

func init() {
	add(&Scenario{Prop: "C09", Name: "one-datagram", Max: [2]int{0, 0}, Weight: 2,
		Desc: "one datagram of every type, number and payload shape, from a foreign address, the client's to the server and the server's to the client, with and without a connection, idle and busy",
		Body: func(int) {
			v := newVictim()
			phase := pick(3) // no connection, idle connection, busy connection
			if phase > 0 {
				v.connect()
				v.up(20)
				v.down(20)
				pass(20 * time.Millisecond)
			}
			typ := hostileTypes[pick(len(hostileTypes))]
			shape := pick(payloadShapes + 4)
			var b []byte
			if shape < payloadShapes {
				id := 0
				if typ == wData || typ == wDataNext || typ == wAck {
					id = sel(0, 1, 2, 0xFFFFF)
				}
				b = wPacket(typ, id, payload(shape))
			} else {
				// shorter than a header
				b = []byte{1, 0, 0, byte(typ)}[:shape-payloadShapes]
			}
			src, dst := foreign, v.S.udp()
			who := pick(3)
			if phase == 0 && who == 2 {
				who = 0
			}
			switch who {
			case 1:
				src = v.C.udp()
			case 2:
				src, dst = v.S.udp(), v.C.udp()
			}
			what := fmt.Sprintf("datagram %s (% x...) from %v to %v", vnet.Describe(b), b[:min(len(b), 8)], src, dst)
			spoof := who > 0
			// from the peer's own address these may change what the connection delivers
			may := spoof && (typ == wDisconnect || typ&0x7F == wData || typ&0x7F == wAck || typ&0x7F == wDisconnect)
			if may {
				v.OnUp = func(ch *tru.Channel, pac *tru.Packet) {
					v.others = append(v.others, ch.Addr().String()+" "+string(pac.Data()))
				}
				v.OnDown = func(*tru.Channel, *tru.Packet) {}
			}
			if phase == 2 {
				v.up(40)
				v.down(40)
			}
			v.Net.Inject(src, dst, b, 0)
			if phase == 2 {
				v.up(80)
				v.down(80)
			}
			pass(30 * time.Millisecond)
			if phase > 0 && !may {
				v.serves(what)
			}
			v.alive(what)
			if who == 2 {
				v.clientAlive(what)
			}
		}})
	add(&Scenario{Prop: "C09", Name: "sequences", Max: [2]int{0, 0},
		Desc: "every sequence of up to 3 (thorough 4) hostile datagrams from a foreign address or a peer, at a server with a connection",
		Body: func(tier int) {
			v := newVictim()
			v.connect()
			k := rawKey(1)
			id := []byte("01234567-89ab-cdef-0123-456789abcdef")
			good := rawConnectData(id, pubPEM(&k.PublicKey))
			good2 := rawConnectData([]byte("x"), pubPEM(&k.PublicKey))
			bad := rawConnectData(id, []byte("no key"))
			ans := rawConnectData(id, bytes.Repeat([]byte{9}, 128))
			type dg struct {
				typ, id int
				b       []byte
			}
			all := []dg{{wConnect, 0, good}, {wConnect, 0, good2}, {wConnect, 0, bad}, {wServerAnswer, 0, ans}, {wClientAnswer, 0, ans},
				{wClientAnswer, 0, rawConnectData(id, nil)}, {wDone, 0, rawConnectData(id, nil)}, {wData, 0, []byte("data")},
				{wDataNext, 1, payload(11)}, {wAck, 0, nil}, {wPing, 0, nil}, {wDisconnect, 0, nil}}
			what := "sequence"
			n := 3
			if tier > 0 {
				n = 4
			}
			slow := pick(2) == 1
			for i := 0; i < n; i++ {
				j := pick(len(all) + 1)
				if j == 0 {
					break
				}
				d := all[j-1]
				what += fmt.Sprintf(" %s", vnet.Describe(wPacket(d.typ, d.id, d.b)))
				v.Net.Inject(foreign, v.S.udp(), wPacket(d.typ, d.id, d.b), 0)
				if slow {
					pass(3 * time.Millisecond)
				}
			}
			ann := v.Announce
			pass(10 * time.Millisecond)
			if v.Announce != ann || ann != 1 {
				rt.Fail("%s: a connection was announced", what)
			}
			v.serves(what)
			v.alive(what)
			pass(8 * time.Second)
			if l := v.S.channels(); len(l) != 1 {
				rt.Fail("%s: the server has %d connections 8 s later", what, len(l))
			}
		}})
	add(&Scenario{Prop: "C09", Name: "mangled", Max: [2]int{0, 0}, Weight: 2,
		Desc: "each genuine datagram of a connection's life, from connect to disconnect, is cut at every length class, gets every type, one byte flipped at every position class, or is doubled, instead of or before the genuine one; the node lives on",
		Body: func(tier int) {
			v := newVictim()
			v.OnUp = func(ch *tru.Channel, pac *tru.Packet) {
				v.others = append(v.others, ch.Addr().String()+" "+string(pac.Data()))
			}
			k := pick(10) // which datagram (in order of first sending)
			instead := pick(2) == 0
			mode := pick(4)
			var pos int
			step := 9
			if tier > 0 {
				step = 3
			}
			switch mode {
			case 0, 1:
				pos = pick(20)
				if pos > 9 {
					pos = 9 + (pos-9)*pickStep(step)
				}
			case 2:
				pos = pick(len(hostileTypes))
			}
			n, done := 0, false
			what := ""
			v.Net.OnSend = func(d *vnet.Dgram) {
				if done {
					return
				}
				if n != k {
					n++
					return
				}
				done = true
				b := append([]byte(nil), d.Data...)
				switch mode {
				case 0:
					if pos > len(b) {
						pos = len(b)
					}
					b = b[:pos]
				case 1:
					b[pos%len(b)] ^= 0x41
				case 2:
					b[3] = byte(hostileTypes[pos])
				case 3:
					b = append(b, b...)
					if len(b) > vnet.MaxPayload {
						b = b[:vnet.MaxPayload]
					}
				}
				what = fmt.Sprintf("datagram %d (%s) mangled to %s, instead %v", k, vnet.Describe(d.Data), vnet.Describe(b), instead)
				if instead {
					d.Data = b
				} else {
					v.Net.Inject(d.Src, d.Dst, b, 0)
				}
			}
			a := v.attempt("connect")
			a.result()
			pass(5 * time.Millisecond)
			if a.err == nil {
				v.findServerSide()
				v.C.do(func() {
					a.ch.WriteTo([]byte("short"))
					a.ch.WriteTo([]byte(msg("x", 1, 100)))
				})
				if v.Sch != nil {
					v.S.do(func() { v.Sch.WriteTo([]byte("answer")) })
				}
				pass(5 * time.Second)
				v.C.do(a.ch.Close)
			}
			pass(10 * time.Millisecond)
			v.alive(what)
			v.clientAlive(what)
		}})
	add(&Scenario{Prop: "C09", Name: "hostile-client", Max: [2]int{0, 0},
		Desc: "a hand-written client with every kind of odd public key, identifier and session key, and with the handshake steps in every order; the node lives on and odd attempts are never announced",
		Body: func(int) {
			v := newVictim()
			v.connect()
			sch := v.Sch
			r := newRaw("evil", 6666, v.S.udp())
			idl := sel(36, 0, 1, 255)
			id := bytes.Repeat([]byte{'u'}, idl)
			odd := oddKeys()
			what := ""
			mode := pick(3)
			switch mode {
			case 0: // odd key
				i := pick(len(odd))
				what = fmt.Sprintf("odd public key %d, identifier of %d", i, idl)
				r.send(wConnect, 0, rawConnectData(id, odd[i]))
				r.send(wClientAnswer, 0, rawConnectData(id, bytes.Repeat([]byte{1}, 128)))
				pass(10 * time.Millisecond)
			case 1: // odd session key, then data of odd lengths
				r.send(wConnect, 0, rawConnectData(id, pubPEM(&r.key.PublicKey)))
				ans := r.recv(wServerAnswer, time.Second)
				if len(ans) < 1+idl {
					rt.Fail("identifier of %d: the server does not answer a correct request", idl)
				}
				pub := parsePub(unseal(r.key, ans[1+idl:]))
				if pub == nil {
					rt.Fail("identifier of %d: the server's answer holds no key", idl)
				}
				kl := sel(0, 1, 5, 31, 32, 33, 500)
				what = fmt.Sprintf("session key of %d, identifier of %d", kl, idl)
				cut := pick(4)
				ct := seal(pub, bytes.Repeat([]byte{'k'}, kl))
				switch cut {
				case 1:
					ct = ct[:len(ct)/2]
				case 2:
					ct = append(ct, 0)
				case 3:
					if len(ct) > 3 {
						ct[3] ^= 1
					}
				}
				what += fmt.Sprintf(" variant %d", cut)
				r.send(wClientAnswer, 0, rawConnectData(id, ct))
				pass(3 * time.Millisecond)
				if v.Announce > 1 && (kl == 0 || cut == 3) {
					rt.Fail("%s: announced", what)
				}
				for i, n := range []int{0, 1, 64, 65, 77, 93} {
					r.send(wData, i, payloadN(n))
					r.send(wDataNext, i+1, payloadN(n))
				}
				r.send(wAck, 0, nil)
				r.send(wAck, 7, payloadN(70))
				r.send(wPing, 0, nil)
				pass(5 * time.Millisecond)
				for _, ch := range v.S.channels() {
					ch := ch
					if ch != sch {
						v.S.do(func() { ch.WriteTo([]byte("to you")); ch.WriteTo(payloadN(200)) })
					}
				}
				pass(300 * time.Millisecond)
				v.Announce = 1
				v.Sch = sch
			case 2: // every order of steps
				n := 0
				for n < 4 {
					j := pick(6)
					if j == 0 {
						break
					}
					n++
					what += fmt.Sprint(" ", j)
					switch j {
					case 1:
						r.send(wConnect, 0, rawConnectData(id, pubPEM(&r.key.PublicKey)))
					case 2:
						r.send(wClientAnswer, 0, rawConnectData(id, bytes.Repeat([]byte{1}, 128)))
					case 3:
						r.send(wData, 0, []byte("early"))
					case 4:
						r.send(wDisconnect, 0, nil)
					case 5:
						r.send(wDone, 0, rawConnectData(id, nil))
					}
					pass(time.Millisecond)
				}
				what = "order" + what
				if v.Announce != 1 {
					rt.Fail("%s: announced without a key", what)
				}
			}
			v.others = nil
			v.serves(what)
			v.alive(what)
		}})
	add(&Scenario{Prop: "C09", Name: "hostile-server", Max: [2]int{0, 0},
		Desc: "a hand-written server answers a connect with every odd key, odd identifier, odd content and step order; connect returns in time and the node lives on",
		Body: func(int) {
			v := newVictim()
			v.connect()
			r := newRaw("evil", 6666, v.C.udp())
			odd := oddKeys()
			mode := pick(4)
			var sub, extra int
			switch mode {
			case 0:
				sub = pick(len(odd))
			case 1:
				sub = pick(6)
			case 2:
				sub = pick(4)
			}
			extra = pick(4)
			a := attemptTo(v.C, "connect2", r.s.Addr().String())
			req := r.recv(wConnect, time.Second)
			if req == nil {
				rt.Fail("HARNESS: no connect request")
			}
			idl := int(req[0])
			id := req[1 : 1+idl]
			pub := parsePub(req[1+idl:])
			what := fmt.Sprintf("hostile server mode %d/%d/%d", mode, sub, extra)
			works := false
			switch mode {
			case 0: // odd key, well encrypted
				r.send(wServerAnswer, 0, rawConnectData(id, seal(pub, odd[sub])))
			case 1: // odd ciphertext or identifier
				ct := seal(pub, pubPEM(&r.key.PublicKey))
				b := [][]byte{rawConnectData(id, nil), rawConnectData(id, ct[:100]), rawConnectData(id, append(ct, 1)), rawConnectData(id[:idl-1], ct), rawConnectData(nil, ct), {200}}[sub]
				r.send(wServerAnswer, 0, b)
			case 2: // steps in odd orders
				ct := rawConnectData(id, seal(pub, pubPEM(&r.key.PublicKey)))
				switch sub {
				case 0:
					r.send(wDone, 0, rawConnectData(id, nil))
					r.send(wServerAnswer, 0, ct)
				case 1:
					r.send(wServerAnswer, 0, ct)
					r.send(wServerAnswer, 0, ct)
				case 2:
					r.send(wData, 0, []byte("early"))
					r.send(wServerAnswer, 0, ct)
					r.send(wDisconnect, 0, nil)
				case 3:
					r.send(wServerAnswer, 0, ct)
					r.send(wConnect, 0, ct)
				}
			case 3: // correct server
				works = true
				r.send(wServerAnswer, 0, rawConnectData(id, seal(pub, pubPEM(&r.key.PublicKey))))
				r.recv(wClientAnswer, time.Second)
				r.send(wDone, 0, rawConnectData(id, nil))
			}
			pass(3 * time.Millisecond)
			switch extra {
			case 1:
				for i, n := range []int{0, 1, 64, 65, 77, 93} {
					r.send(wData, i, payloadN(n))
					r.send(wDataNext, i+1, payloadN(n))
				}
			case 2:
				r.send(wDone, 0, rawConnectData(id, nil))
				r.send(wDone, 0, rawConnectData(id, nil))
			case 3:
				r.send(wDisconnect, 0, nil)
			}
			a.result()
			if works && extra != 3 && a.err != nil {
				rt.Fail("HARNESS: the correct hand-written server is refused: %v", a.err)
			}
			// further connections of the client are its own affair
			if a.ch != nil {
				v.C.do(a.ch.Close)
			}
			pass(time.Millisecond)
			if l := v.C.channels(); len(l) != 1 {
				rt.Fail("%s: the client node has %d connections", what, len(l))
			}
			v.serves(what)
			v.clientAlive(what)
		}})
	add(&Scenario{Prop: "C09", Name: "during-calls", Stalls: held, Max: [2]int{1, 2},
		Desc: "hostile datagrams arrive while messages, a connect and a close are under way, under every schedule",
		Body: func(int) {
			v := newVictim()
			v.connect()
			k := rawKey(1)
			id := []byte("01234567-89ab-cdef-0123-456789abcdef")
			b := sel(
				wPacket(wConnect, 0, rawConnectData(id, pubPEM(&k.PublicKey))),
				wPacket(wConnect, 0, rawConnectData(id, nil)),
				wPacket(wClientAnswer, 0, rawConnectData(id, payloadN(128))),
				wPacket(wData, 0, payloadN(90)),
				wPacket(wAck, 0, nil),
				wPacket(wDisconnect, 0, nil),
				[]byte{1})
			// a second connection from the same place
			rt.SetROI(rt.ROI{Sched: true, Stmt: true})
			t1 := v.C.spawn("up", func() { v.up(30) })
			t2 := v.S.spawn("down", func() { v.down(90) })
			v.Net.Inject(foreign, v.S.udp(), b, 0)
			v.Net.Inject(foreign, v.C.udp(), b, 0)
			if !wait(3*time.Second, t1, t2) {
				rt.Fail("a write hangs\n%s", rt.Dump())
			}
			rt.WaitUntil(6*time.Millisecond, v.allDelivered)
			quiet(0)
			v.serves("hostile datagram")
			v.alive("hostile datagram")
		}})
}

func payloadN(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*29 + 3)
	}
	return b
}

func pickStep(step int) int { return step * 3 }
