package main

import (
	"bytes"
	"fmt"
	"time"

	tru "github.com/teonet-go/tru"

	"verif.local/zz/rt"
)

// roundTrip encodes and decodes one packet.
func roundTrip(id, status int, data []byte) {
	p := new(tru.Packet).SetID(id).SetStatus(status).SetData(data)
	if p.ID() != id || p.Status() != status || !bytes.Equal(p.Data(), data) {
		rt.Fail("packet made of %d, %d, %x has %d, %d, %x", id, status, data, p.ID(), p.Status(), p.Data())
	}
	b, err := p.MarshalBinary()
	if err != nil {
		rt.Fail("encoding %d, %d, %d bytes: %v", id, status, len(data), err)
	}
	if len(b) != 4+len(data) || p.HeaderLen() != 4 || p.Len() != len(b) {
		rt.Fail("packet %d, %d with %d bytes is encoded in %d, the header length is %d, the length %d", id, status, len(data), len(b), p.HeaderLen(), p.Len())
	}
	if !bytes.Equal(b[4:], data) {
		rt.Fail("packet %d, %d: data %x encoded as %x", id, status, data, b[4:])
	}
	if w := wPacket(status, id, nil); !bytes.Equal(b[:4], w) {
		rt.Fail("packet %d, %d has header %x, documented is %x", id, status, b[:4], w)
	}
	q := new(tru.Packet)
	if err := q.UnmarshalBinary(b); err != nil {
		rt.Fail("decoding %d, %d, %d bytes: %v", id, status, len(data), err)
	}
	if q.ID() != id || q.Status() != status || !bytes.Equal(q.Data(), data) {
		rt.Fail("packet %d, %d, %x is decoded as %d, %d, %x", id, status, data, q.ID(), q.Status(), q.Data())
	}
}

// total decodes arbitrary bytes.
func total(b []byte) {
	defer func() {
		if e := recover(); e != nil {
			rt.Fail("decoding %x panics: %v", b, e)
		}
	}()
	in := append([]byte(nil), b...)
	q := new(tru.Packet)
	err := q.UnmarshalBinary(in)
	if !bytes.Equal(in, b) {
		rt.Fail("decoding %x changed the input to %x", b, in)
	}
	if (err != nil) != (len(b) < 4) {
		rt.Fail("decoding %x: error %v", b, err)
	}
	if err != nil {
		return
	}
	if q.ID() != wID(b) || q.Status() != int(b[3]) || !bytes.Equal(q.Data(), b[4:]) {
		rt.Fail("%x is decoded as %d, %d, %x", b, q.ID(), q.Status(), q.Data())
	}
	c, err := q.MarshalBinary()
	w := append([]byte(nil), b...)
	w[2] &= 0x0F
	if err != nil || !bytes.Equal(c, w) {
		rt.Fail("%x decoded and encoded again gives %x, error %v", b, c, err)
	}
}

func init() {
	add(&Scenario{Prop: "C24", Name: "numbers", Max: [2]int{0, 0},
		Desc: "every 20-bit number with five types (thorough: all 256 types), encoded and decoded",
		Body: func(tier int) {
			hi := pick(256)
			types := []int{0, 4, 5, 0x84, 255}
			if tier == 1 {
				types = nil
				t := pick(16)
				for i := 0; i < 16; i++ {
					types = append(types, t*16+i)
				}
			}
			for lo := 0; lo < 4096; lo++ {
				for _, t := range types {
					roundTrip(hi<<12|lo, t, nil)
				}
			}
		}})
	add(&Scenario{Prop: "C24", Name: "types-and-lengths", Max: [2]int{0, 0},
		Desc: "every type with boundary numbers and every data length from 0 to 2100 and around every power of two up to 65535, three patterns",
		Body: func(tier int) {
			t := pick(256)
			ids := []int{0, 1, 255, 256, 65535, 65536, 0x80000, 0xFFFFE, 0xFFFFF}
			for _, id := range ids {
				for n := 0; n < 40; n++ {
					roundTrip(id, t, []byte(msg("codec", id, n)))
				}
			}
			buf := make([]byte, 65536)
			for i := range buf {
				buf[i] = byte(i*13 + t)
			}
			for n := t; n <= 2100; n += 16 {
				roundTrip(ids[n%len(ids)], t, buf[:n])
				roundTrip(ids[n%len(ids)], t, make([]byte, n))
			}
			for k := 11; k <= 16; k++ {
				for d := -2; d <= 2; d++ {
					if n := 1<<k + d; n <= 65535 {
						roundTrip(ids[n%len(ids)], t, buf[:n])
					}
				}
			}
		}})
	add(&Scenario{Prop: "C24", Name: "bytes", Max: [2]int{0, 0},
		Desc: "all byte strings of length 0 to 3, all headers with 16 values per byte followed by 0 to 3 bytes (thorough: all four-byte headers with one data byte)",
		Body: func(tier int) {
			b0 := pick(256)
			if b0 == 0 {
				total(nil)
				total([]byte{})
			}
			total([]byte{byte(b0)})
			for i := 0; i < 65536; i++ {
				total([]byte{byte(b0), byte(i), byte(i >> 8)})
				if i < 256 {
					total([]byte{byte(b0), byte(i)})
				}
			}
			v := []byte{0, 1, 2, 3, 4, 5, 8, 9, 0x0F, 0x10, 0x7F, 0x80, 0x84, 0xF0, 0xFE, 0xFF}
			for i := 0; i < 4096; i++ {
				b := []byte{byte(b0), v[i&15], v[i>>4&15], v[i>>8], 1, 0, 255}
				for n := 4; n <= 7; n++ {
					total(b[:n])
				}
			}
			if tier == 1 {
				b1 := pick(256)
				for i := 0; i < 65536; i++ {
					total([]byte{byte(b0), byte(b1), byte(i), byte(i >> 8), byte(i * 3)})
				}
			}
		}})
	add(&Scenario{Prop: "C24", Name: "handshake", Max: [2]int{0, 0},
		Desc: "handshake data with an identifier of every length from 0 to 255 and three patterns come back with the same identifier in both answers of the node, and the connection they make carries messages",
		Body: func(tier int) {
			n := pick(256)
			id := make([]byte, n)
			fill := pick(3)
			for i := range id {
				id[i] = []byte{byte(i), 0, 255}[fill]
			}
			var got []string
			s := node("srv", 7000, tru.ReaderFunc(func(ch *tru.Channel, pac *tru.Packet, err error) bool {
				if err == nil {
					got = append(got, string(pac.Data()))
				}
				return true
			}))
			r := newRaw("raw", 5001, s.udp())
			r.send(wConnect, 0, rawConnectData(id, pubPEM(&r.key.PublicKey)))
			a := r.recv(wServerAnswer, time.Second)
			if a == nil {
				rt.Fail("no answer to a connect with an identifier of %d bytes", n)
			}
			if w := rawConnectData(id, nil); !bytes.HasPrefix(a, w) {
				rt.Fail("identifier of %d bytes %x is answered with %x", n, w, a[:min(len(a), len(w))])
			}
			pub := parsePub(unseal(r.key, a[1+n:]))
			if pub == nil {
				rt.Fail("the data after the identifier of %d bytes is not the encrypted key", n)
			}
			key := bytes.Repeat([]byte{7}, 32)
			r.send(wClientAnswer, 0, rawConnectData(id, seal(pub, key)))
			d := r.recv(wDone, time.Second)
			if !bytes.Equal(d, rawConnectData(id, nil)) {
				rt.Fail("identifier of %d bytes: the last answer is %x", n, d)
			}
			r.send(wData, 0, nil)
			if !rt.WaitUntil(time.Second, func() bool { return len(got) == 1 }) {
				rt.Fail("the connection with an identifier of %d bytes carries no message", n)
			}
			rt.Observe(fmt.Sprint(n))
		}})
}
