From 09d51eefb585833de77498f8c7fe23d7fc6fbd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:38 +0000
Subject: [PATCH 01/27] fix: largest packet did not fit into an IPv4 UDP
 datagram

---
 packet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet.go b/packet.go
index 96e7c3a..eee730d 100644
--- a/packet.go
+++ b/packet.go
@@ -31,8 +31,8 @@ const (
 )
 
 const (
-	maxUdpDataLength = 65535 - 8 // Max packet 65535 - 8 byte header
-	cryptAesLength   = 28        // AES crypt delete from max len packet data
+	maxUdpDataLength = 65535 - 20 - 8 // Max packet 65535 - 20 byte IP header - 8 byte UDP header
+	cryptAesLength   = 28             // AES crypt delete from max len packet data
 )
 
 const packetIDLimit = 0x100000          // Number of packets id (max number + 1)
-- 
2.43.0


From 285a45ae43354ac10997145e691c97a7a2205d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 02/27] fix: delivery callback was called again with a timeout
 after success

---
 channel.go | 2 +-
 packet.go  | 4 ++--
 tru.go     | 6 ++++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/channel.go b/channel.go
index 0679bd0..38ca2c9 100644
--- a/channel.go
+++ b/channel.go
@@ -261,12 +261,12 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 	// Add data packet to send queue and Set packet retransmit time
 	if status == statusData {
 		ch.setRetransmitTime(pac)
-		ch.sendQueue.add(pac)
 		if stat == statusData {
 			pac.SetDeliveryTimeout(deliveryTimeout)
 			pac.SetDelivery(deliveryFunc)
 			ch.stat.setSend()
 		}
+		ch.sendQueue.add(pac)
 		ch.stat.setLastSend(time.Now())
 	}
 
diff --git a/packet.go b/packet.go
index eee730d..086b8b7 100644
--- a/packet.go
+++ b/packet.go
@@ -48,7 +48,7 @@ type Packet struct {
 	retransmitAttempts int                // Packet retransmit attempts
 	delivery           PacketDeliveryFunc // Packet delivery callback function
 	deliveryTimeout    time.Duration      // Packet delivery callback timeout
-	deliveryTimer      time.Timer         // Packet delivery timeout timer
+	deliveryTimer      *time.Timer        // Packet delivery timeout timer
 	sync.RWMutex
 }
 
@@ -182,7 +182,7 @@ func (p *Packet) SetDelivery(delivery PacketDeliveryFunc) *Packet {
 	}
 	log.Debugvvv.Println("set delivery func, id", p.ID())
 	p.delivery = delivery
-	p.deliveryTimer = *time.AfterFunc(p.deliveryTimeout, func() {
+	p.deliveryTimer = time.AfterFunc(p.deliveryTimeout, func() {
 		// log.Error.Println("delivery timeout, id", p.ID())
 		err := errors.New("delivery timeout")
 		p.delivery(p, err)
diff --git a/tru.go b/tru.go
index dc58bd4..0548ed0 100644
--- a/tru.go
+++ b/tru.go
@@ -377,8 +377,10 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		pac, ok := ch.sendQueue.delete(pac.ID())
 		// Execute packet delivery callback
 		if delivery := pac.Delivery(); ok && delivery != nil {
-			pac.deliveryTimer.Stop()
-			go delivery(pac, nil)
+			// Does not execute it if the timeout has been reported already
+			if pac.deliveryTimer.Stop() {
+				go delivery(pac, nil)
+			}
 		}
 
 	case statusDisconnect:
-- 
2.43.0


From 33c15c304d534ff707d1b83a074b7833cd1ee32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:04 +0000
Subject: [PATCH 03/27] fix: packets of split messages written concurrently
 were mixed

---
 channel.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/channel.go b/channel.go
index 38ca2c9..fde2183 100644
--- a/channel.go
+++ b/channel.go
@@ -12,6 +12,7 @@ import (
 	"math/rand"
 	"net"
 	"reflect"
+	"sync"
 	"time"
 )
 
@@ -27,6 +28,7 @@ type Channel struct {
 	tru        *Tru          // Pointer to tru
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
+	writeMu    sync.Mutex    // Keeps packets of one message together
 	*crypt                   // Crypt module
 }
 
@@ -209,6 +211,8 @@ func (ch *Channel) ServerMode() bool {
 // PacketDeliveryFunc callback parameter is pac - pointer to send packet, and
 // err - timeout error or success if nil.
 func (ch *Channel) WriteTo(data []byte, delivery ...interface{}) (id int, err error) {
+	ch.writeMu.Lock()
+	defer ch.writeMu.Unlock()
 	return ch.splitPacket(data, func(data []byte, split int) (int, error) {
 		return ch.writeTo(data, statusData|split, delivery)
 	})
-- 
2.43.0


From 63904536565ea97d626aa772dc6bf006468bc9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:18 +0000
Subject: [PATCH 04/27] fix: repeated or late connect done packet blocked or
 crashed the node

---
 connect.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/connect.go b/connect.go
index 22dbd57..e1cbe21 100644
--- a/connect.go
+++ b/connect.go
@@ -109,7 +109,6 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	// Create wait connection channel and save connection data to map
 	wch := tru.connect.add(uuid)
 	defer tru.connect.delete(uuid)
-	defer close(wch)
 
 	// Send connect message
 	_, err = tru.WriteTo(pac, addr)
@@ -146,7 +145,7 @@ func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
 func (c *connect) add(uuid string) (wch chan *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
-	wch = make(chan *connectData)
+	wch = make(chan *connectData, 1)
 	c.connects[uuid] = &connectData{uuid, wch, nil}
 	return
 }
@@ -314,13 +313,17 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 
 		// Get connection data from connection map and get tru channel
 		cd, ok := c.get(string(cp.uuid))
-		if !ok {
+		if !ok || cd.ch == nil {
 			err = errors.New("wrong connect done packet")
 			return
 		}
 
-		// Send connectData to client connect wait channel
-		cd.wch <- cd
+		// Send connectData to client connect wait channel. Does not wait if it
+		// was sent already, the answer may be repeated by network
+		select {
+		case cd.wch <- cd:
+		default:
+		}
 
 	default:
 		err = errors.New("wrong packet status")
-- 
2.43.0


From 98552a8078dae328123f8b6d3f2254cb13f497e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:22 +0000
Subject: [PATCH 05/27] fix: late handshake packet destroyed established
 channel

---
 tru.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tru.go b/tru.go
index 0548ed0..c43cc1f 100644
--- a/tru.go
+++ b/tru.go
@@ -334,10 +334,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		if channelExists && pac.Status() == statusConnect {
 			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
 		}
-		// Process connection packets
+		// Process connection packets. Wrong connection packet (f.e. late copy of
+		// processed one) does not touch existing channel
 		err := tru.connect.serve(tru, addr, pac)
-		if channelExists && err != nil {
-			ch.destroy(fmt.Sprint("channel connection error, destroy ", ch.addr.String()))
+		if err != nil {
+			log.Debug.Println("got wrong connect packet from", addr.String(), "error:", err)
 		}
 		return
 
-- 
2.43.0


From f82f2d6903f06a6a324b61f8fbbe8c63d516bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:04 +0000
Subject: [PATCH 06/27] fix: repeated handshake packets replaced, rekeyed or
 reannounced channels

Channel remembers UUID of its connection, so repeated connect packets are
recognized, answers are accepted once and only by the channel they belong to,
wrong packets are refused before anything is created or destroyed, and data
packets are neither sent nor accepted before the session key is known.
---
 channel.go | 16 ++++++++++++
 connect.go | 76 ++++++++++++++++++++++++++++++++++++++++++------------
 tru.go     |  9 +++----
 3 files changed, 79 insertions(+), 22 deletions(-)

diff --git a/channel.go b/channel.go
index fde2183..08412b7 100644
--- a/channel.go
+++ b/channel.go
@@ -13,6 +13,7 @@ import (
 	"net"
 	"reflect"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -29,11 +30,14 @@ type Channel struct {
 	combine    combinePacket // Combine lage packet
 	maxDataLen int           // Max data len in created packets
 	writeMu    sync.Mutex    // Keeps packets of one message together
+	uuid       string        // Connection UUID
+	connected  atomic.Bool   // Session key is set, data may be sent and received
 	*crypt                   // Crypt module
 }
 
 // const MaxUint16 = ^uint16(0)
 
+var ErrChannelNotConnected = errors.New("channel not connected")
 var ErrChannelDestroyed = errors.New("channel destroyed")
 var ErrChannelAlreadyDestroyed = errors.New("channel already destroyed")
 
@@ -244,6 +248,12 @@ func (ch *Channel) writeTo(data []byte, stat int, delivery []interface{}, ids ..
 
 	status := stat &^ statusSplit
 
+	// Data can't be encrypted until channel connected
+	if status == statusData && !ch.connected.Load() {
+		err = ErrChannelNotConnected
+		return
+	}
+
 	// Calculate and execute delay for client mode data packets
 	ch.writeToDelay(status)
 
@@ -366,6 +376,12 @@ func (ch *Channel) writeToSender(pac *Packet) {
 	ch.tru.senderCh <- senderChData{ch, pac}
 }
 
+// setConnected set session key and allow to send and receive data
+func (ch *Channel) setConnected(key []byte) {
+	ch.setSesionKey(key)
+	ch.connected.Store(true)
+}
+
 // newID create new channels packet id
 func (ch *Channel) newID() (id int) {
 	ch.tru.mu.Lock()
diff --git a/connect.go b/connect.go
index e1cbe21..e42bfa0 100644
--- a/connect.go
+++ b/connect.go
@@ -11,6 +11,7 @@ import (
 	"crypto/rsa"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"net"
 	"sync"
 	"time"
@@ -180,32 +181,53 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
-		// Create new tru channel
-		var ch *Channel
-		ch, err = tru.newChannel(addr, true)
-		if err != nil {
+		// Skip repeated connect packet of existing channel
+		ch, channelExists := tru.getChannel(addr.String())
+		if channelExists && ch.uuid == string(cp.uuid) {
+			err = errors.New("connect packet repeated")
 			return
 		}
 
 		// Get public key
+		var c *crypt
+		c, err = tru.newCrypt()
+		if err != nil {
+			return
+		}
 		var pub []byte
-		pub, err = ch.publicKeyToBytes(&ch.privateKey.PublicKey)
+		pub, err = c.publicKeyToBytes(&c.privateKey.PublicKey)
 		if err != nil {
 			return
 		}
 
 		// Encrypt public key with received clients public key
 		var pubcli *rsa.PublicKey
-		pubcli, err = ch.bytesToPublicKey(cp.data)
+		pubcli, err = c.bytesToPublicKey(cp.data)
 		if err != nil {
 			return
 		}
-		cp.data, err = ch.encrypt(pubcli, pub)
+		cp.data, err = c.encrypt(pubcli, pub)
 		if err != nil {
 			return
 		}
 		var data []byte
 		data, err = cp.MarshalBinary()
+		if err != nil {
+			return
+		}
+
+		// When got connect packet from existing channel we destroy this channel
+		// first becaus client reconnected
+		if channelExists {
+			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
+		}
+
+		// Create new tru channel
+		ch, err = tru.newChannel(addr, true)
+		if err != nil {
+			return
+		}
+		ch.uuid = string(cp.uuid)
 
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectServerAnswer).SetData(data)
@@ -224,30 +246,31 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 
 		// Get connection data from connection map and create new tru channel
 		cd, ok := c.get(string(cp.uuid))
-		if !ok {
+		if !ok || cd.ch != nil {
 			err = errors.New("wrong connect server answer packet")
 			return
 		}
-		cd.ch, err = tru.newChannel(addr)
+
+		// Got servers public key from packet
+		var crypt *crypt
+		crypt, err = tru.newCrypt()
 		if err != nil {
 			return
 		}
-
-		// Got servers public key from packet
 		var data []byte
-		data, err = cd.ch.decrypt(cp.data)
+		data, err = crypt.decrypt(cp.data)
 		if err != nil {
 			return
 		}
 		var pub *rsa.PublicKey
-		pub, err = cd.ch.crypt.bytesToPublicKey(data)
+		pub, err = crypt.bytesToPublicKey(data)
 		if err != nil {
 			return
 		}
 
 		// Make session key
-		key := cd.ch.makeSesionKey()
-		cp.data, err = cd.ch.encrypt(pub, key)
+		key := crypt.makeSesionKey()
+		cp.data, err = crypt.encrypt(pub, key)
 		if err != nil {
 			return
 		}
@@ -258,10 +281,20 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			return
 		}
 
+		// Replace existing channel with this peer by the new one
+		if ch, ok := tru.getChannel(addr.String()); ok {
+			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
+		}
+		cd.ch, err = tru.newChannel(addr)
+		if err != nil {
+			return
+		}
+		cd.ch.uuid = string(cp.uuid)
+
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
 		cd.ch.writeToSender(pac)
-		cd.ch.setSesionKey(key)
+		cd.ch.setConnected(key)
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
@@ -280,6 +313,11 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 			err = errors.New("connected channel does not exists")
 			return
 		}
+		// Skip answers which does not belong to this channel and repeated answer
+		if !ch.serverMode || ch.uuid != string(cp.uuid) || ch.connected.Load() {
+			err = errors.New("wrong connect client answer packet")
+			return
+		}
 
 		// Decrypt and set session key
 		var key []byte
@@ -287,7 +325,11 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if err != nil {
 			return
 		}
-		ch.setSesionKey(key)
+		if len(key) == 0 {
+			err = errors.New("empty session key in client answer packet")
+			return
+		}
+		ch.setConnected(key)
 
 		// Create output connect packet data
 		var data []byte
diff --git a/tru.go b/tru.go
index c43cc1f..e2409a4 100644
--- a/tru.go
+++ b/tru.go
@@ -329,11 +329,6 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 
 	// Connect packets
 	case statusConnect, statusConnectServerAnswer, statusConnectClientAnswer, statusConnectDone:
-		// When got connect packet from existing channel we destroy this channel
-		// first becaus client reconnected
-		if channelExists && pac.Status() == statusConnect {
-			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
-		}
 		// Process connection packets. Wrong connection packet (f.e. late copy of
 		// processed one) does not touch existing channel
 		err := tru.connect.serve(tru, addr, pac)
@@ -389,6 +384,10 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 		return
 
 	case statusData, statusDataNext:
+		// Data can't be decrypted until channel connected
+		if !ch.connected.Load() {
+			return
+		}
 		pac.data, err = ch.decryptPacketData(pac.ID(), pac.Data())
 		if err != nil {
 			return
-- 
2.43.0


From 14117fc5365165feca9f3f475a38b1f51704efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:47 +0000
Subject: [PATCH 07/27] fix: failed connect left its channel behind, first
 messages missed the reader

The reader given to Connect is set when the channel is created, and the channel
of a connect call which ends with an error is closed.
---
 connect.go | 74 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/connect.go b/connect.go
index e42bfa0..55946dc 100644
--- a/connect.go
+++ b/connect.go
@@ -31,9 +31,10 @@ type connect struct {
 }
 
 type connectData struct {
-	uuid string
-	wch  chan *connectData
-	ch   *Channel
+	uuid   string
+	wch    chan *connectData
+	ch     *Channel
+	reader ReaderFunc
 }
 
 type connectPacketData struct {
@@ -108,8 +109,14 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	}
 
 	// Create wait connection channel and save connection data to map
-	wch := tru.connect.add(uuid)
-	defer tru.connect.delete(uuid)
+	wch := tru.connect.add(uuid, reader...)
+	defer func() {
+		// Channel of failed connection may be created already
+		cd := tru.connect.delete(uuid)
+		if err != nil && cd != nil && cd.ch != nil {
+			cd.ch.Close()
+		}
+	}()
 
 	// Send connect message
 	_, err = tru.WriteTo(pac, addr)
@@ -118,22 +125,17 @@ func (tru *Tru) Connect(addr string, reader ...ReaderFunc) (ch *Channel, err err
 	}
 
 	// Wait answer to connect message or timeout
-	ch, err = tru.connect.wait(wch)
-	if err != nil {
-		return
-	}
-
-	// Add reader to channel
-	if len(reader) > 0 {
-		ch.reader = reader[0]
-	}
-	return
+	return tru.connect.wait(wch)
 }
 
 // wait channel connected or timeout
 func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
 	select {
 	case cd := <-wch:
+		if cd.ch.Destroyed() {
+			err = ErrChannelDestroyed
+			return
+		}
 		ch = cd.ch
 		return
 	case <-time.After(waitConnectionTimeout):
@@ -143,19 +145,37 @@ func (c *connect) wait(wch chan *connectData) (ch *Channel, err error) {
 }
 
 // add add connection data to connections map
-func (c *connect) add(uuid string) (wch chan *connectData) {
+func (c *connect) add(uuid string, reader ...ReaderFunc) (wch chan *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
 	wch = make(chan *connectData, 1)
-	c.connects[uuid] = &connectData{uuid, wch, nil}
+	cd := &connectData{uuid: uuid, wch: wch}
+	if len(reader) > 0 {
+		cd.reader = reader[0]
+	}
+	c.connects[uuid] = cd
 	return
 }
 
 // delete delete connection data from connections map
-func (c *connect) delete(uuid string) {
+func (c *connect) delete(uuid string) (cd *connectData) {
 	c.m.Lock()
 	defer c.m.Unlock()
+	cd = c.connects[uuid]
 	delete(c.connects, uuid)
+	return
+}
+
+// setChannel set channel of connection data. Returns false if connection data
+// is not in connections map already
+func (c *connect) setChannel(cd *connectData, ch *Channel) bool {
+	c.m.Lock()
+	defer c.m.Unlock()
+	if c.connects[cd.uuid] != cd {
+		return false
+	}
+	cd.ch = ch
+	return true
 }
 
 // get get connection data from connections map
@@ -285,16 +305,26 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		if ch, ok := tru.getChannel(addr.String()); ok {
 			ch.destroy(fmt.Sprint("channel reconnect, destroy ", ch.addr.String()))
 		}
-		cd.ch, err = tru.newChannel(addr)
+		var ch *Channel
+		ch, err = tru.newChannel(addr)
 		if err != nil {
 			return
 		}
-		cd.ch.uuid = string(cp.uuid)
+		ch.uuid = string(cp.uuid)
+
+		// Add reader to channel before first message may be received
+		ch.reader = cd.reader
+
+		// Destroy channel if connect function does not wait it already
+		if !c.setChannel(cd, ch) {
+			ch.destroy(fmt.Sprint("channel connect timeout, destroy ", ch.addr.String()))
+			return
+		}
 
 		// Create packet and send it to tru channel
 		pac = tru.newPacket().SetStatus(statusConnectClientAnswer).SetData(data)
-		cd.ch.writeToSender(pac)
-		cd.ch.setConnected(key)
+		ch.writeToSender(pac)
+		ch.setConnected(key)
 
 	// Got by server. Client answer to server with statusConnectClientAnswer packet with
 	// current session key
-- 
2.43.0


From 0dff4d91706103aa97405bc40eb9dfb3465baf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 08/27] fix: connect callback was called before the handshake,
 under a lock

It blocked for ever when it used the node, its messages were sent unencrypted,
and attempts which were never completed were announced.
---
 channel.go | 5 -----
 connect.go | 5 +++++
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/channel.go b/channel.go
index 08412b7..fdd90aa 100644
--- a/channel.go
+++ b/channel.go
@@ -80,11 +80,6 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	}
 	tru.channels[addr.String()] = ch
 
-	// Channel connect to server callback
-	if ch.serverMode && ch.tru.connectcb != nil {
-		ch.tru.connectcb(ch, nil)
-	}
-
 	return
 }
 
diff --git a/connect.go b/connect.go
index 55946dc..6ee4543 100644
--- a/connect.go
+++ b/connect.go
@@ -373,6 +373,11 @@ func (c *connect) serve(tru *Tru, addr net.Addr, pac *Packet) (err error) {
 		pac = tru.newPacket().SetStatus(statusConnectDone).SetData(data)
 		ch.writeToSender(pac)
 
+		// Channel connect to server callback
+		if tru.connectcb != nil {
+			tru.connectcb(ch, nil)
+		}
+
 	// Got by client. Server answer to client with statusConnectDone packet
 	case statusConnectDone:
 
-- 
2.43.0


From c441656c581242de15887e1d986309142fa592df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 09/27] fix: channel could be destroyed several times and its
 timers went on

Readers were told once per destroy, a late destroy removed the channel of a new
connection with the same address, and timers which were running at this moment
started again for ever.
---
 channel.go    |  9 ++++++++-
 send_queue.go |  7 +++++++
 speed.go      |  5 +++++
 statistic.go  | 17 +++++++++++++++++
 4 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index fdd90aa..c4287c4 100644
--- a/channel.go
+++ b/channel.go
@@ -138,6 +138,11 @@ func (ch *Channel) destroy(msg string) {
 		return
 	}
 
+	// Channel is destroyed once
+	if !ch.stat.setDestroyed() {
+		return
+	}
+
 	// Send error event to readers
 	if ch.reader != nil {
 		ch.reader(ch, nil, ErrChannelDestroyed)
@@ -157,7 +162,9 @@ func (ch *Channel) destroy(msg string) {
 	// Delete channel from channels
 	ch.tru.mu.Lock()
 	defer ch.tru.mu.Unlock()
-	delete(ch.tru.channels, ch.addr.String())
+	if ch.tru.channels[ch.addr.String()] == ch {
+		delete(ch.tru.channels, ch.addr.String())
+	}
 }
 
 // Close tru channel
diff --git a/send_queue.go b/send_queue.go
index 181eeca..c4ffecc 100644
--- a/send_queue.go
+++ b/send_queue.go
@@ -18,6 +18,7 @@ type sendQueue struct {
 	index           map[uint32]*list.Element // Send queue index
 	sync.RWMutex                             // Send queue mutex
 	retransmitTimer *time.Timer              // Send queue retransmit Timer
+	destroyed       bool                     // Send queue is destroyed
 }
 
 const (
@@ -37,6 +38,7 @@ func (s *sendQueue) init(ch *Channel) {
 func (s *sendQueue) destroy() {
 	s.Lock()
 	defer s.Unlock()
+	s.destroyed = true
 	s.retransmitTimer.Stop()
 }
 
@@ -116,6 +118,11 @@ func (s *sendQueue) retransmit(ch *Channel) {
 	s.Lock()
 	defer s.Unlock()
 
+	// Does not start timer of destroyed send queue
+	if s.destroyed {
+		return
+	}
+
 	s.retransmitTimer = time.AfterFunc( /* minRTT */ 100*time.Millisecond, func() {
 
 		s.RLock()
diff --git a/speed.go b/speed.go
index a85d407..2a86cef 100644
--- a/speed.go
+++ b/speed.go
@@ -19,6 +19,7 @@ type speed struct {
 	currentSum int
 	sumArray   [sumArrayLen]int
 	timer      *time.Timer
+	destroyed  bool
 	sync.RWMutex
 }
 
@@ -32,6 +33,7 @@ func (s *speed) destroy() {
 	s.Lock()
 	defer s.Unlock()
 
+	s.destroyed = true
 	if s.timer != nil {
 		s.timer.Stop()
 	}
@@ -76,6 +78,9 @@ func (s *speed) process() {
 	s.Lock()
 	defer s.Unlock()
 
+	if s.destroyed {
+		return
+	}
 	s.timer = time.AfterFunc(100*time.Millisecond, func() {
 		s.add(false)
 		s.process()
diff --git a/statistic.go b/statistic.go
index f8dd38b..d8a5c6e 100644
--- a/statistic.go
+++ b/statistic.go
@@ -68,6 +68,18 @@ func (s *statistic) destroy() {
 	s.destroyed = true
 }
 
+// setDestroyed set channel destroyed. Returns false if it is already destroyed
+func (s *statistic) setDestroyed() bool {
+	s.Lock()
+	defer s.Unlock()
+
+	if s.destroyed {
+		return false
+	}
+	s.destroyed = true
+	return true
+}
+
 // isDestroyed return true if channel is already destroyed
 func (s *statistic) isDestroyed() bool {
 	s.RLock()
@@ -180,6 +192,11 @@ func (s *statistic) checkActivity(inactive, keepalive func()) {
 	s.Lock()
 	defer s.Unlock()
 
+	// Does not start timer of destroyed channel
+	if s.destroyed {
+		return
+	}
+
 	s.checkActivityTimer = time.AfterFunc(checkInactiveAfter, func() {
 
 		lastActivity := s.getLastActivity()
-- 
2.43.0


From d9b8319021c9071158e1e17b049b5d2d2044e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:09 +0000
Subject: [PATCH 10/27] fix: ForEachChannel read channels map without lock and
 could pass nil

---
 channel.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index c4287c4..22c7c00 100644
--- a/channel.go
+++ b/channel.go
@@ -11,7 +11,6 @@ import (
 	"fmt"
 	"math/rand"
 	"net"
-	"reflect"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -111,10 +110,13 @@ func (tru *Tru) getChannel(addr string) (ch *Channel, ok bool) {
 // ForEachChannel get each channel and call function f
 func (tru *Tru) ForEachChannel(f func(ch *Channel)) {
 	tru.mu.RLock()
-	keys := reflect.ValueOf(tru.channels).MapKeys()
+	channels := make([]*Channel, 0, len(tru.channels))
+	for _, ch := range tru.channels {
+		channels = append(channels, ch)
+	}
 	tru.mu.RUnlock()
-	for i := range keys {
-		f(tru.channels[keys[i].String()])
+	for _, ch := range channels {
+		f(ch)
 	}
 }
 
-- 
2.43.0


From 7aeb67387e35e950bbf6672d9916d384e8cbe403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:58 +0000
Subject: [PATCH 11/27] fix: closed node left goroutines, second close crashed,
 late channels stayed

Reader, sender and listen processes end when the node is closed and nobody waits
for them, closing again does nothing, and a closed node creates no channels.
---
 channel.go | 10 +++++++++-
 tru.go     | 32 +++++++++++++++++++++++++++++---
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/channel.go b/channel.go
index 22c7c00..db86a9a 100644
--- a/channel.go
+++ b/channel.go
@@ -45,6 +45,11 @@ func (tru *Tru) newChannel(addr net.Addr, serverMode ...bool) (ch *Channel, err
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
 
+	if tru.closed {
+		err = ErrTruClosed
+		return
+	}
+
 	msg := fmt.Sprint("new channel ", addr.String())
 	log.Connect.Println(msg)
 	tru.statMsgs.add(msg)
@@ -377,7 +382,10 @@ func (ch *Channel) writeToDisconnect() (err error) {
 
 // writeToSender write packet to sender process channel
 func (ch *Channel) writeToSender(pac *Packet) {
-	ch.tru.senderCh <- senderChData{ch, pac}
+	select {
+	case ch.tru.senderCh <- senderChData{ch, pac}:
+	case <-ch.tru.listenStop:
+	}
 }
 
 // setConnected set session key and allow to send and receive data
diff --git a/tru.go b/tru.go
index e2409a4..c462fd5 100644
--- a/tru.go
+++ b/tru.go
@@ -41,6 +41,7 @@ type Tru struct {
 	listenStop chan interface{}    // Tru listen wait stop channel
 	hotkey     *hotkey.Hotkey      // Hotkey menu
 	mu         sync.RWMutex        // Channels map mutex
+	closed     bool                // Tru is closed
 }
 
 type Stat bool          // Parameters show statistic type
@@ -187,6 +188,15 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 // Close tru listner and all connected channels
 func (tru *Tru) Close() {
 
+	// Close once and does not create new channels
+	tru.mu.Lock()
+	closed := tru.closed
+	tru.closed = true
+	tru.mu.Unlock()
+	if closed {
+		return
+	}
+
 	// Send error message to channel reader
 	if tru.reader != nil {
 		tru.reader(nil, nil, ErrTruClosed)
@@ -416,7 +426,11 @@ func (tru *Tru) serve(n int, addr net.Addr, data []byte) {
 				if pac == nil {
 					return
 				}
-				tru.readerCh <- readerChData{ch, pac, nil}
+				select {
+				case tru.readerCh <- readerChData{ch, pac, nil}:
+				case <-tru.listenStop:
+					return
+				}
 				ch.stat.setRecv()
 			}
 			sendToReader(ch, pac)
@@ -446,7 +460,13 @@ type readerChData struct {
 
 // readerProccess process received tru packets
 func (tru *Tru) readerProccess() {
-	for r := range tru.readerCh {
+	for {
+		var r readerChData
+		select {
+		case r = <-tru.readerCh:
+		case <-tru.listenStop:
+			return
+		}
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
@@ -474,7 +494,13 @@ type senderChData struct {
 
 // senderProccess process sended tru packets
 func (tru *Tru) senderProccess() {
-	for r := range tru.senderCh {
+	for {
+		var r senderChData
+		select {
+		case r = <-tru.senderCh:
+		case <-tru.listenStop:
+			return
+		}
 
 		// Check channel destroyed
 		if r.ch.stat.isDestroyed() {
-- 
2.43.0


From 9ae279a6654e1a356f9808ec3d297ec3ba6700b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:08 +0000
Subject: [PATCH 12/27] fix: statistic display went on after stop and crashed
 when node was not created

---
 statistic.go | 15 +++++++++++++--
 tru.go       |  6 ++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/statistic.go b/statistic.go
index d8a5c6e..c7bf1ee 100644
--- a/statistic.go
+++ b/statistic.go
@@ -402,13 +402,24 @@ func (tru *Tru) printStatistic(prnt bool) {
 	// Print statistic every 500 ms
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
-	tru.statTimer = time.AfterFunc(500*time.Millisecond, func() {
+	if tru.closed {
+		return
+	}
+	var timer *time.Timer
+	timer = time.AfterFunc(500*time.Millisecond, func() {
 		str := getStat()
 		if prnt {
 			fmt.Print(str)
 		}
-		tru.printStatistic(prnt) // print next frame
+
+		// Print next frame if print was not stopped
+		tru.mu.Lock()
+		defer tru.mu.Unlock()
+		if tru.statTimer == timer {
+			timer.Reset(500 * time.Millisecond)
+		}
 	})
+	tru.statTimer = timer
 }
 
 // StatisticPrintStop stop print statistic
diff --git a/tru.go b/tru.go
index c462fd5..97351fb 100644
--- a/tru.go
+++ b/tru.go
@@ -78,6 +78,12 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 	// Create tru object
 	tru = new(Tru)
+	defer func() {
+		// Stop print statistic of tru which was not created
+		if err != nil {
+			tru.StatisticPrintStop()
+		}
+	}()
 	tru.start = time.Now()
 	tru.sendDelay = startSendDelay
 
-- 
2.43.0


From fb928b988987cc0a5c05b8a35b594b0c000b084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:37 +0000
Subject: [PATCH 13/27] fix: unread or not accepted connection blocked tru,
 first messages were lost

---
 tru_net.go | 138 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 101 insertions(+), 37 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index 9040972..fcdbf26 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -21,7 +21,7 @@ type Trunet struct {
 	*Tru
 	accept acceptChannel
 }
-type acceptChannel chan *Channel
+type acceptChannel chan *Conn
 
 // Common tru object
 var truCommon struct {
@@ -43,12 +43,13 @@ func Dial(network, address string) (conn net.Conn, err error) {
 		return
 	}
 
-	ch, err := trunet.Connect(address)
+	// Connect with reader to get messages from the very first
+	c := newConn(trunet.Tru)
+	ch, err := trunet.Connect(address, c.reader)
 	if err != nil {
 		return
 	}
-	c := trunet.newConn(ch)
-	ch.setReader(c.reader)
+	c.setChannel(ch)
 	conn = c
 	return
 }
@@ -93,9 +94,6 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 
 // reader reads packets from connected peers
 func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
-	if conn.ch == nil {
-		return
-	}
 
 	// Check channel destroyed and close Conn (connection)
 	if err != nil {
@@ -113,15 +111,7 @@ func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
 		return
 	}
 
-	defer func() {
-		if err := recover(); err != nil {
-			// This error happens if users application don't read data messages
-			// sent to it, when connection closed.
-			log.Debugvv.Println("send on closed channel panic occurred:", err)
-		}
-	}()
-
-	conn.read.ch <- pac.Data()
+	conn.read.queue.put(pac.Data())
 
 	return
 }
@@ -131,20 +121,39 @@ func (t Trunet) connected(ch *Channel, err error) {
 	if err != nil {
 		return
 	}
-	t.accept <- ch
+
+	// Set reader before first message may be received
+	c := newConn(ch.tru)
+	c.setChannel(ch)
+	ch.setReader(c.reader)
+	if ch.Destroyed() {
+		c.Close()
+		return
+	}
+
+	// Does not block tru while the connection waits for accept
+	go func() {
+		select {
+		case t.accept <- c:
+		case <-ch.tru.listenStop:
+		}
+	}()
+}
+
+// setChannel sets tru channel of this connection
+func (c *Conn) setChannel(ch *Channel) {
+	c.remoteAddr = ch.Addr()
+	c.ch = ch
 }
 
 // Create new Conn object
-func (t Trunet) newConn(ch *Channel) *Conn {
-	return &Conn{ch, t.LocalAddr(), ch.Addr(), connRead{ch: make(connReadChan)}}
+func newConn(tru *Tru) *Conn {
+	return &Conn{localAddr: tru.LocalAddr(), read: connRead{queue: newConnReadQueue()}}
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (t Trunet) Accept() (conn net.Conn, err error) {
-	ch := <-t.accept
-	c := t.newConn(ch)
-	ch.setReader(c.reader)
-	conn = c
+	conn = <-t.accept
 	return
 }
 
@@ -168,17 +177,72 @@ type Conn struct {
 	read       connRead
 }
 type connRead struct {
-	ch   connReadChan // Read channel receive data form tru channel reader
-	buf  []byte       // Read data which was not send in previuse call
-	cont bool         // Need send os.EOF
+	queue *connReadQueue // Read queue receive data form tru channel reader
+	buf   []byte         // Read data which was not send in previuse call
+	cont  bool           // Need send os.EOF
+	mu    sync.Mutex     // One read at a time
+}
+
+// connReadQueue is queue of messages received from tru channel and not read yet.
+// The tru channel reader never waits until user application reads them.
+type connReadQueue struct {
+	data   []connReadData
+	closed bool
+	mu     sync.Mutex
+	cond   *sync.Cond
+}
+type connReadData []byte
+
+// newConnReadQueue creates new read queue
+func newConnReadQueue() (q *connReadQueue) {
+	q = new(connReadQueue)
+	q.cond = sync.NewCond(&q.mu)
+	return
+}
+
+// put adds message to queue
+func (q *connReadQueue) put(data connReadData) {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	if !q.closed {
+		q.data = append(q.data, data)
+		q.cond.Signal()
+	}
+}
+
+// get waits for message and gets it from queue. Messages received before queue
+// was closed may be got after it, than it returns false
+func (q *connReadQueue) get() (data connReadData, ok bool) {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	for len(q.data) == 0 && !q.closed {
+		q.cond.Wait()
+	}
+	if len(q.data) == 0 {
+		return
+	}
+	data, ok = q.data[0], true
+	q.data = q.data[1:]
+	return
+}
+
+// close closes queue and drops its messages if drop is true
+func (q *connReadQueue) close(drop bool) {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	q.closed = true
+	if drop {
+		q.data = nil
+	}
+	q.cond.Broadcast()
 }
-type connReadChan chan connReadChanData
-type connReadChanData []byte
 
 // Read reads data from the connection.
 // Read can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetReadDeadline.
 func (c *Conn) Read(b []byte) (n int, err error) {
+	c.read.mu.Lock()
+	defer c.read.mu.Unlock()
 
 	// Return io.EOF
 	if len(c.read.buf) == 0 && c.read.cont {
@@ -189,9 +253,9 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 
 	// Get data from reader
 	if len(c.read.buf) == 0 {
-		chanData, ok := <-c.read.ch
+		chanData, ok := c.read.queue.get()
 		if !ok {
-			// Read channel closed
+			// Read queue closed
 			err = ErrChannelDestroyed
 			return
 		}
@@ -209,7 +273,7 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 // Write writes data to the connection.
 // Write can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetWriteDeadline.
-func (c Conn) Write(b []byte) (n int, err error) {
+func (c *Conn) Write(b []byte) (n int, err error) {
 	if c.ch == nil {
 		err = ErrChannelDestroyed
 		return
@@ -233,16 +297,16 @@ func (c *Conn) Close() (err error) {
 	ch := c.ch
 	c.ch = nil
 	ch.Close()
-	close(c.read.ch)
+	c.read.queue.close(true)
 
 	return
 }
 
 // LocalAddr returns the local network address, if known.
-func (c Conn) LocalAddr() net.Addr { return c.localAddr }
+func (c *Conn) LocalAddr() net.Addr { return c.localAddr }
 
 // RemoteAddr returns the remote network address, if known.
-func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
+func (c *Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 
 // SetDeadline sets the read and write deadlines associated
 // with the connection. It is equivalent to calling both
@@ -265,16 +329,16 @@ func (c Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 // the deadline after successful Read or Write calls.
 //
 // A zero value for t means I/O operations will not time out.
-func (c Conn) SetDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetDeadline(t time.Time) (err error) { return }
 
 // SetReadDeadline sets the deadline for future Read calls
 // and any currently-blocked Read call.
 // A zero value for t means Read will not time out.
-func (c Conn) SetReadDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetReadDeadline(t time.Time) (err error) { return }
 
 // SetWriteDeadline sets the deadline for future Write calls
 // and any currently-blocked Write call.
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means Write will not time out.
-func (c Conn) SetWriteDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetWriteDeadline(t time.Time) (err error) { return }
-- 
2.43.0


From 57f368471c8b66f71b636aff1116ae3da9cfa9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 14/27] fix: Conn close raced with close by remote peer and
 dropped received messages

---
 tru_net.go | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index fcdbf26..fb15d4f 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -98,7 +98,7 @@ func (conn *Conn) reader(ch *Channel, pac *Packet, err error) (processed bool) {
 	// Check channel destroyed and close Conn (connection)
 	if err != nil {
 		if err == ErrChannelDestroyed {
-			err = conn.Close()
+			err = conn.close(false)
 			if err != nil {
 				// if connection already closed
 				return
@@ -142,8 +142,20 @@ func (t Trunet) connected(ch *Channel, err error) {
 
 // setChannel sets tru channel of this connection
 func (c *Conn) setChannel(ch *Channel) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.remoteAddr = ch.Addr()
-	c.ch = ch
+	// Channel may be destroyed already
+	if !c.closed {
+		c.ch = ch
+	}
+}
+
+// channel gets tru channel of this connection or nil if connection is closed
+func (c *Conn) channel() *Channel {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.ch
 }
 
 // Create new Conn object
@@ -175,6 +187,8 @@ type Conn struct {
 	localAddr  net.Addr
 	remoteAddr net.Addr
 	read       connRead
+	closed     bool       // Connection is closed
+	mu         sync.Mutex // Protects ch and closed
 }
 type connRead struct {
 	queue *connReadQueue // Read queue receive data form tru channel reader
@@ -274,11 +288,12 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 // Write can be made to time out and return an error after a fixed
 // time limit; see SetDeadline and SetWriteDeadline.
 func (c *Conn) Write(b []byte) (n int, err error) {
-	if c.ch == nil {
+	ch := c.channel()
+	if ch == nil {
 		err = ErrChannelDestroyed
 		return
 	}
-	_, err = c.ch.WriteTo(b)
+	_, err = ch.WriteTo(b)
 	if err == nil {
 		n = len(b)
 	}
@@ -288,16 +303,29 @@ func (c *Conn) Write(b []byte) (n int, err error) {
 // Close closes the connection.
 // Any blocked Read or Write operations will be unblocked and return errors.
 func (c *Conn) Close() (err error) {
+	return c.close(true)
+}
 
-	if c.ch == nil {
+// close closes the connection once. Received and not read messages are dropped
+// when it is closed by user application.
+func (c *Conn) close(drop bool) (err error) {
+	c.mu.Lock()
+	ch, closed := c.ch, c.closed
+	c.ch, c.closed = nil, true
+	c.mu.Unlock()
+
+	// The messages which was left when remote peer closed it are dropped too
+	c.read.queue.close(drop)
+
+	if closed {
 		err = ErrChannelAlreadyDestroyed
 		return
 	}
 
-	ch := c.ch
-	c.ch = nil
-	ch.Close()
-	c.read.queue.close(true)
+	// The channel executes reader when it destroyed, so mutex is unlocked here
+	if ch != nil {
+		ch.Close()
+	}
 
 	return
 }
-- 
2.43.0


From 77cd6b1045d8bfffd887a367a10b4e8fdc1a667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:24 +0000
Subject: [PATCH 15/27] fix: Accept hung after listener close, second listener
 did not accept, Addr was nil

---
 tru_net.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index fb15d4f..f36135e 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -31,7 +31,11 @@ var truCommon struct {
 
 // Listener is a tru generic network listener for stream-oriented protocols.
 func Listen(network, address string) (listener net.Listener, err error) {
-	listener, err = newTrunet(address, true)
+	trunet, err := newTrunet(address, false)
+	if err != nil {
+		return
+	}
+	listener = trunet
 	return
 }
 
@@ -83,7 +87,7 @@ func newTrunet(address string, useTruCommon bool) (trunet *Trunet, err error) {
 			err = fmt.Errorf("can't create new tru object, error: %s", err)
 			return
 		}
-		if useTruCommon {
+		if truCommon.Tru == nil {
 			truCommon.Tru = truObj
 		}
 	}
@@ -165,19 +169,36 @@ func newConn(tru *Tru) *Conn {
 
 // Accept waits for and returns the next connection to the listener.
 func (t Trunet) Accept() (conn net.Conn, err error) {
-	conn = <-t.accept
+	select {
+	case <-t.listenStop:
+		err = ErrTruClosed
+		return
+	default:
+	}
+	select {
+	case c := <-t.accept:
+		conn = c
+	case <-t.listenStop:
+		err = ErrTruClosed
+	}
 	return
 }
 
 // Close closes the listener.
 // Any blocked Accept operations will be unblocked and return errors.
 func (t Trunet) Close() (err error) {
+	// The closed tru object can't be used any more
+	truCommon.Lock()
+	if truCommon.Tru == t.Tru {
+		truCommon.Tru = nil
+	}
+	truCommon.Unlock()
 	t.Tru.Close()
 	return
 }
 
 // Addr returns the listener's network address.
-func (t Trunet) Addr() (addr net.Addr) { return }
+func (t Trunet) Addr() (addr net.Addr) { return t.LocalAddr() }
 
 // Conn is a generic stream-oriented network connection.
 //
-- 
2.43.0


From 14fa1e28280e4df2c8459f1ff384510edbd863b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:05 +0000
Subject: [PATCH 16/27] fix: statistic lost send queue length and attempts of
 several channels

---
 statistic.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statistic.go b/statistic.go
index c7bf1ee..3425d08 100644
--- a/statistic.go
+++ b/statistic.go
@@ -259,6 +259,8 @@ func (tru *Tru) Statistic() (stat ChannelsStatistic) {
 	var i int
 	mu.Lock()
 	tru.mu.RLock()
+	// The goroutines keep this slice, so it should not be reallocated by append
+	stat = make(ChannelsStatistic, 0, len(tru.channels))
 	for _, ch := range tru.channels {
 		ch.stat.RLock()
 		stat = append(stat, ChannelStatistic{
-- 
2.43.0


From 8649653745a96659fdcc53e4cd322b6d72586ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 17/27] fix: hotkey lost next key action set by next key action
 and handled key after stop

---
 hotkey/hotkey.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index a125522..1d0cb04 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -190,9 +190,14 @@ func (h *Hotkey) SetStopAction(f func()) {
 func (h *Hotkey) run() {
 	for !h.stop {
 		ch := term.Getch()
-		if h.nextKeyAction != nil {
-			h.nextKeyAction(ch)
+		// Menu may be stopped while it waits this key
+		if h.stop {
+			break
+		}
+		// The action may set new next key action
+		if nextKeyAction := h.nextKeyAction; nextKeyAction != nil {
 			h.nextKeyAction = nil
+			nextKeyAction(ch)
 		}
 		hd, ok := h.hotkeys[string(ch)]
 		if !ok {
-- 
2.43.0


From 58ea664bd18b7cd8367e54ec364ac97f180b32f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 18/27] fix: hotkey menu changed while it runs raced with key
 handling

---
 hotkey/hotkey.go | 58 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/hotkey/hotkey.go b/hotkey/hotkey.go
index 1d0cb04..05eb5e5 100644
--- a/hotkey/hotkey.go
+++ b/hotkey/hotkey.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync"
 
 	"github.com/teonet-go/tru/term"
 )
@@ -29,6 +30,7 @@ type Hotkey struct {
 	state         interface{}
 	stop          bool
 	stopactions   []func()
+	mu            sync.RWMutex // Protects menu which is changed while it runs
 }
 
 type hotkeyData struct {
@@ -74,9 +76,20 @@ func (h *Hotkey) State() interface{} {
 
 // NextKeyAction set action which execute when key pressed nex time
 func (h *Hotkey) NextKeyAction(f func(ch []byte)) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.nextKeyAction = f
 }
 
+// takeNextKeyAction get and remove action which execute when key pressed
+func (h *Hotkey) takeNextKeyAction() (f func(ch []byte)) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	f = h.nextKeyAction
+	h.nextKeyAction = nil
+	return
+}
+
 // Add hotkey menu
 func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey)) *Hotkey {
 
@@ -100,6 +113,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 	}
 
 	hd := &hotkeyData{keysAr, description, action}
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	for _, l := range keysAr {
 		h.hotkeys[string(l.Code)] = hd
 	}
@@ -108,6 +123,8 @@ func (h *Hotkey) Add(keys interface{}, description string, action func(h *Hotkey
 
 // AddUnknown add action function which executes when unknown key pressed
 func (h *Hotkey) AddUnknown(action func(h *Hotkey, ch []byte)) *Hotkey {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.unknownKey = action
 	return h
 }
@@ -144,9 +161,11 @@ func (h *Hotkey) String() (str string) {
 	}
 
 	// Add hotkeyData to slice and sort it
+	h.mu.RLock()
 	for i := range h.hotkeys {
 		add(h.hotkeys[i])
 	}
+	h.mu.RUnlock()
 	sort()
 
 	// Add hotkeys and description to returns string
@@ -175,34 +194,55 @@ func (h *Hotkey) Run() *Hotkey {
 
 // Stop execute hotkey menu
 func (h *Hotkey) Stop() {
-	for _, f := range h.stopactions {
+	h.mu.RLock()
+	stopactions := h.stopactions
+	h.mu.RUnlock()
+	for _, f := range stopactions {
 		f()
 	}
-	h.stop = true
+	h.setStop(true)
+}
+
+// setStop set or clear stop flag
+func (h *Hotkey) setStop(stop bool) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.stop = stop
+}
+
+// stopped return true if hotkey menu should stop
+func (h *Hotkey) stopped() bool {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+	return h.stop
 }
 
 // SetStopAction set callback function which will run when hotkey menu Stop
 func (h *Hotkey) SetStopAction(f func()) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
 	h.stopactions = append(h.stopactions, f)
 }
 
 // run execute hotkey menu, wait key pressed and execute it action
 func (h *Hotkey) run() {
-	for !h.stop {
+	for !h.stopped() {
 		ch := term.Getch()
 		// Menu may be stopped while it waits this key
-		if h.stop {
+		if h.stopped() {
 			break
 		}
 		// The action may set new next key action
-		if nextKeyAction := h.nextKeyAction; nextKeyAction != nil {
-			h.nextKeyAction = nil
+		if nextKeyAction := h.takeNextKeyAction(); nextKeyAction != nil {
 			nextKeyAction(ch)
 		}
+		h.mu.RLock()
 		hd, ok := h.hotkeys[string(ch)]
+		unknownKey := h.unknownKey
+		h.mu.RUnlock()
 		if !ok {
-			if h.unknownKey != nil {
-				h.unknownKey(h, ch)
+			if unknownKey != nil {
+				unknownKey(h, ch)
 			}
 			continue
 		}
@@ -211,5 +251,5 @@ func (h *Hotkey) run() {
 		}
 		hd.action(h)
 	}
-	h.stop = false
+	h.setStop(false)
 }
-- 
2.43.0


From da855256142c629c082f7dcd747ac0179d25e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:43 +0000
Subject: [PATCH 19/27] fix: hotkey menu handled keys before it and its node
 were complete

---
 hotkey.go |  5 ++---
 tru.go    | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/hotkey.go b/hotkey.go
index 3270824..92559c7 100644
--- a/hotkey.go
+++ b/hotkey.go
@@ -39,7 +39,7 @@ func (s *hotkeyMenuState) continueLog(h *hotkey.Hotkey) teolog.LogLevel {
 	return log.Level()
 }
 
-// newHotkey create and start run tru hokey menu
+// newHotkey create tru hokey menu, it does not run yet
 func (tru *Tru) newHotkey() *hotkey.Hotkey {
 	quit := func(h *hotkey.Hotkey) {
 		h.Stop()
@@ -48,7 +48,7 @@ func (tru *Tru) newHotkey() *hotkey.Hotkey {
 		os.Exit(0)
 	}
 	state := new(hotkeyMenuState)
-	h := hotkey.New().SetState(state).Run().
+	h := hotkey.New().SetState(state).
 
 		// Add action function which executes when unknown key pressed
 		AddUnknown(func(h *hotkey.Hotkey, ch []byte) {
@@ -143,6 +143,5 @@ func (tru *Tru) newHotkey() *hotkey.Hotkey {
 		// Quit from application
 		Add("q", "quit from application", quit)
 
-	fmt.Println("Hotkey menu startted, press 'h' to help...")
 	return h
 }
diff --git a/tru.go b/tru.go
index 97351fb..d446770 100644
--- a/tru.go
+++ b/tru.go
@@ -90,6 +90,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 	// Parse parameters
 	var logFilter teolog.Filter
 	var logLevel string
+	var startHotkey bool
 	for _, p := range params {
 		switch v := p.(type) {
 
@@ -125,9 +126,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Start hokey menu
 		case Hotkey:
-			if v {
-				tru.hotkey = tru.newHotkey()
-			}
+			startHotkey = bool(v)
 
 		// Show statistic
 		case Stat:
@@ -175,6 +174,11 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 		return
 	}
 
+	// Create hotkey menu
+	if startHotkey {
+		tru.hotkey = tru.newHotkey()
+	}
+
 	// Start packet reader processing
 	tru.readerCh = make(chan readerChData, chanLen)
 	go tru.readerProccess()
@@ -188,6 +192,13 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 	log.Connect.Println("tru created")
 
+	// Start hotkey menu when tru is created and menu is complete, the first
+	// keys may be already pressed
+	if startHotkey {
+		tru.hotkey.Run()
+		fmt.Println("Hotkey menu startted, press 'h' to help...")
+	}
+
 	return
 }
 
-- 
2.43.0


From 1707ea56b851de21d5e125fb0751cdff6a1b5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:11 +0000
Subject: [PATCH 20/27] fix: Enter key was returned translated and unknown to
 hotkey menu

---
 term/term_unix.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/term/term_unix.go b/term/term_unix.go
index a5ea72e..2928b0f 100644
--- a/term/term_unix.go
+++ b/term/term_unix.go
@@ -36,6 +36,8 @@ func makeNonBlock(fd int) (*State, error) {
 
 	oldState := State{state{termios: *termios}}
 
+	// Enter key is 13, as any other key it is not translated
+	termios.Iflag &^= unix.INLCR | unix.IGNCR | unix.ICRNL
 	termios.Lflag &^= unix.ECHO | unix.ICANON | unix.ISIG
 	termios.Cc[unix.VMIN] = 1
 	termios.Cc[unix.VTIME] = 0
-- 
2.43.0


From a6f1789f958ccabf60594d861d861e37f068ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 21/27] fix: refuse messages too far ahead of the first not
 acknowledged packet

The peer takes a packet half of all numbers ahead of the expected one for an
already received one: it was acknowledged and lost.
---
 channel.go | 11 +++++++++++
 split.go   |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/channel.go b/channel.go
index db86a9a..0e37e72 100644
--- a/channel.go
+++ b/channel.go
@@ -38,6 +38,7 @@ type Channel struct {
 
 var ErrChannelNotConnected = errors.New("channel not connected")
 var ErrChannelDestroyed = errors.New("channel destroyed")
+var ErrSendQueueFull = errors.New("too many packets wait for acknowledgement")
 var ErrChannelAlreadyDestroyed = errors.New("channel already destroyed")
 
 // NewChannel create new tru channel by address
@@ -409,6 +410,16 @@ func (ch *Channel) newID() (id int) {
 	return
 }
 
+// canSend returns true if n more packets may be sent. The remote peer takes a
+// packet which is half of all ids ahead of the expected one for already received,
+// so the packets which wait for acknowledgement should stay within this distance
+func (ch *Channel) canSend(n int) bool {
+	if pac := ch.sendQueue.getFirst(); pac != nil {
+		n += int((ch.id - pac.id) & (packetIDLimit - 1))
+	}
+	return n <= packetIDLimit/2
+}
+
 // newExpectedID create new channels packet expected id
 func (ch *Channel) newExpectedID() (id int) {
 	ch.tru.mu.Lock()
diff --git a/split.go b/split.go
index 12cba66..7d8e228 100644
--- a/split.go
+++ b/split.go
@@ -16,6 +16,10 @@ func (ch *Channel) splitPacket(data []byte, writeTo func(data []byte, split int)
 		}
 		return pac.MaxDataLen()
 	}()
+	if !ch.canSend(len(data)/maxDataLen + 1) {
+		err = ErrSendQueueFull
+		return
+	}
 	for i := 0; ; i++ {
 		if len(data) <= maxDataLen {
 			id, err = writeTo(data, 0)
-- 
2.43.0


From cadce8ce9c91f5d3a7c4f9e3883177ddf7815eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 22/27] fix: read statistic log messages under its lock

---
 statistic_log.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/statistic_log.go b/statistic_log.go
index b801668..a6edce5 100644
--- a/statistic_log.go
+++ b/statistic_log.go
@@ -44,7 +44,10 @@ func (s *statisticLog) len() int {
 
 // get and returt statistic log slice message by index
 func (s *statisticLog) get(i int) (msg string) {
-	if i < 0 || i >= s.len() {
+	s.RLock()
+	defer s.RUnlock()
+
+	if i < 0 || i >= len(s.msgs) {
 		return
 	}
 	return s.msgs[i]
-- 
2.43.0


From b70551a62907303ee49a9246310fbd668c695d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 23/27] fix: too large max data length given to New made
 packets which can't be sent

---
 tru.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tru.go b/tru.go
index d446770..a9eb13a 100644
--- a/tru.go
+++ b/tru.go
@@ -140,7 +140,7 @@ func New(port int, params ...interface{}) (tru *Tru, err error) {
 
 		// Set max data length
 		case MaxDataLenType:
-			tru.maxDataLen = int(v)
+			tru.SetMaxDataLen(int(v))
 
 		// Wrong parameter
 		default:
-- 
2.43.0


From db1760276347696ecf2cf7d23b5d328e660da160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 24/27] fix: statistic frame was printed after the statistic
 print was stopped

---
 statistic.go | 17 +++++++++++------
 tru.go       |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/statistic.go b/statistic.go
index 3425d08..51b9663 100644
--- a/statistic.go
+++ b/statistic.go
@@ -410,22 +410,27 @@ func (tru *Tru) printStatistic(prnt bool) {
 	var timer *time.Timer
 	timer = time.AfterFunc(500*time.Millisecond, func() {
 		str := getStat()
-		if prnt {
-			fmt.Print(str)
-		}
 
-		// Print next frame if print was not stopped
+		// Print this and next frames if print was not stopped
+		tru.statPrint.Lock()
+		defer tru.statPrint.Unlock()
 		tru.mu.Lock()
-		defer tru.mu.Unlock()
-		if tru.statTimer == timer {
+		running := tru.statTimer == timer
+		if running {
 			timer.Reset(500 * time.Millisecond)
 		}
+		tru.mu.Unlock()
+		if running && prnt {
+			fmt.Print(str)
+		}
 	})
 	tru.statTimer = timer
 }
 
 // StatisticPrintStop stop print statistic
 func (tru *Tru) StatisticPrintStop() {
+	tru.statPrint.Lock()
+	defer tru.statPrint.Unlock()
 	tru.mu.Lock()
 	defer tru.mu.Unlock()
 
diff --git a/tru.go b/tru.go
index a9eb13a..1d82be0 100644
--- a/tru.go
+++ b/tru.go
@@ -35,6 +35,7 @@ type Tru struct {
 	sendDelay  int                 // Common send delay
 	statMsgs   statisticLog        // Statistic log messages
 	statTimer  *time.Timer         // Show statistic timer
+	statPrint  sync.Mutex          // Statistic print mutex, locked before mu
 	start      time.Time           // Start time
 	privateKey *rsa.PrivateKey     // Common private key
 	maxDataLen int                 // Max data len in created packets, 0 - maximum UDP len
-- 
2.43.0


From 7185aa48a8e779739b3b98d9381035a8824fe6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 25/27] fix: statistic log of full terminal left no rows to
 scroll

---
 statistic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/statistic.go b/statistic.go
index 51b9663..52327dc 100644
--- a/statistic.go
+++ b/statistic.go
@@ -352,6 +352,9 @@ func (tru *Tru) printStatistic(prnt bool) {
 			if from < 0 {
 				from = 0
 			}
+			if from > l {
+				from = l
+			}
 		}
 		for i := from; i < l; i++ {
 			str += term.Func.ClearLine() + tru.statMsgs.get(i) + "\n"
@@ -386,7 +389,7 @@ func (tru *Tru) printStatistic(prnt bool) {
 		var n int
 		if tru.statMsgs.showit() {
 			var msglog string
-			msglog, n = getLog(numRows + 4)
+			msglog, n = getLog(numRows + 5)
 			str += term.Func.ClearLine() + "\n"
 			str += msglog
 			n += 1
-- 
2.43.0


From c2c6be8cc6d843dfe6117af51d77eca6dd53b227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:58 +0000
Subject: [PATCH 26/27] fix: deadlines of stream connections had no effect

---
 tru_net.go | 113 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 97 insertions(+), 16 deletions(-)

diff --git a/tru_net.go b/tru_net.go
index f36135e..b62630b 100644
--- a/tru_net.go
+++ b/tru_net.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"os"
 	"strconv"
 	"strings"
 	"sync"
@@ -209,7 +210,8 @@ type Conn struct {
 	remoteAddr net.Addr
 	read       connRead
 	closed     bool       // Connection is closed
-	mu         sync.Mutex // Protects ch and closed
+	deadline   time.Time  // Write deadline
+	mu         sync.Mutex // Protects ch, closed and deadline
 }
 type connRead struct {
 	queue *connReadQueue // Read queue receive data form tru channel reader
@@ -221,10 +223,12 @@ type connRead struct {
 // connReadQueue is queue of messages received from tru channel and not read yet.
 // The tru channel reader never waits until user application reads them.
 type connReadQueue struct {
-	data   []connReadData
-	closed bool
-	mu     sync.Mutex
-	cond   *sync.Cond
+	data    []connReadData
+	closed  bool
+	expired bool        // Read deadline exceeded
+	timer   *time.Timer // Read deadline timer
+	mu      sync.Mutex
+	cond    *sync.Cond
 }
 type connReadData []byte
 
@@ -246,26 +250,74 @@ func (q *connReadQueue) put(data connReadData) {
 }
 
 // get waits for message and gets it from queue. Messages received before queue
-// was closed may be got after it, than it returns false
-func (q *connReadQueue) get() (data connReadData, ok bool) {
+// was closed may be got after it, than it returns ErrChannelDestroyed
+func (q *connReadQueue) get() (data connReadData, err error) {
 	q.mu.Lock()
 	defer q.mu.Unlock()
-	for len(q.data) == 0 && !q.closed {
+	for len(q.data) == 0 && !q.closed && !q.expired {
 		q.cond.Wait()
 	}
+	if q.expired {
+		err = os.ErrDeadlineExceeded
+		return
+	}
 	if len(q.data) == 0 {
+		err = ErrChannelDestroyed
 		return
 	}
-	data, ok = q.data[0], true
+	data = q.data[0]
 	q.data = q.data[1:]
 	return
 }
 
+// setDeadline sets the read deadline, zero value for t means no deadline.
+// Reading of closed queue never waits and has no deadline
+func (q *connReadQueue) setDeadline(t time.Time) {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	if q.timer != nil {
+		q.timer.Stop()
+		q.timer = nil
+	}
+	q.expired = false
+	if t.IsZero() || q.closed {
+		return
+	}
+	d := time.Until(t)
+	if d <= 0 {
+		q.expired = true
+		q.cond.Broadcast()
+		return
+	}
+	var timer *time.Timer
+	timer = time.AfterFunc(d, func() {
+		q.mu.Lock()
+		defer q.mu.Unlock()
+		if q.timer == timer {
+			q.expired = true
+			q.cond.Broadcast()
+		}
+	})
+	q.timer = timer
+}
+
+// isExpired returns true if the read deadline exceeded
+func (q *connReadQueue) isExpired() bool {
+	q.mu.Lock()
+	defer q.mu.Unlock()
+	return q.expired
+}
+
 // close closes queue and drops its messages if drop is true
 func (q *connReadQueue) close(drop bool) {
 	q.mu.Lock()
 	defer q.mu.Unlock()
 	q.closed = true
+	q.expired = false
+	if q.timer != nil {
+		q.timer.Stop()
+		q.timer = nil
+	}
 	if drop {
 		q.data = nil
 	}
@@ -279,6 +331,12 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 	c.read.mu.Lock()
 	defer c.read.mu.Unlock()
 
+	// Return deadline exceeded
+	if c.read.queue.isExpired() {
+		err = os.ErrDeadlineExceeded
+		return
+	}
+
 	// Return io.EOF
 	if len(c.read.buf) == 0 && c.read.cont {
 		c.read.cont = false
@@ -288,10 +346,10 @@ func (c *Conn) Read(b []byte) (n int, err error) {
 
 	// Get data from reader
 	if len(c.read.buf) == 0 {
-		chanData, ok := c.read.queue.get()
-		if !ok {
-			// Read queue closed
-			err = ErrChannelDestroyed
+		var chanData connReadData
+		chanData, err = c.read.queue.get()
+		if err != nil {
+			// Read queue closed or deadline exceeded
 			return
 		}
 		c.read.buf = chanData
@@ -314,6 +372,10 @@ func (c *Conn) Write(b []byte) (n int, err error) {
 		err = ErrChannelDestroyed
 		return
 	}
+	if c.writeExpired() {
+		err = os.ErrDeadlineExceeded
+		return
+	}
 	_, err = ch.WriteTo(b)
 	if err == nil {
 		n = len(b)
@@ -378,16 +440,35 @@ func (c *Conn) RemoteAddr() net.Addr { return c.remoteAddr }
 // the deadline after successful Read or Write calls.
 //
 // A zero value for t means I/O operations will not time out.
-func (c *Conn) SetDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetDeadline(t time.Time) (err error) {
+	c.SetReadDeadline(t)
+	c.SetWriteDeadline(t)
+	return
+}
 
 // SetReadDeadline sets the deadline for future Read calls
 // and any currently-blocked Read call.
 // A zero value for t means Read will not time out.
-func (c *Conn) SetReadDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetReadDeadline(t time.Time) (err error) {
+	c.read.queue.setDeadline(t)
+	return
+}
 
 // SetWriteDeadline sets the deadline for future Write calls
 // and any currently-blocked Write call.
 // Even if write times out, it may return n > 0, indicating that
 // some of the data was successfully written.
 // A zero value for t means Write will not time out.
-func (c *Conn) SetWriteDeadline(t time.Time) (err error) { return }
+func (c *Conn) SetWriteDeadline(t time.Time) (err error) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	c.deadline = t
+	return
+}
+
+// writeExpired returns true if the write deadline exceeded
+func (c *Conn) writeExpired() bool {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return !c.deadline.IsZero() && !time.Now().Before(c.deadline)
+}
-- 
2.43.0


From 28217ccaef5b224c53520b872d93427b603c9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 27/27] fix: statistic print started twice left its first timer

---
 statistic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/statistic.go b/statistic.go
index 52327dc..e675dde 100644
--- a/statistic.go
+++ b/statistic.go
@@ -410,6 +410,9 @@ func (tru *Tru) printStatistic(prnt bool) {
 	if tru.closed {
 		return
 	}
+	if tru.statTimer != nil {
+		tru.statTimer.Stop()
+	}
 	var timer *time.Timer
 	timer = time.AfterFunc(500*time.Millisecond, func() {
 		str := getStat()
-- 
2.43.0

