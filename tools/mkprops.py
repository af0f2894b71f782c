#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech],
        observe_at=list(observe), hook_needed=hook)))

prop("C01", "Messages arrive exactly once, in order, unaltered",
 "On an established connection, whatever datagrams the network loses, duplicates, delays or reorders, the messages handed to the receiving application are at every moment a prefix of the messages the peer wrote on that connection: same bytes, same order, no gap, no duplicate. This holds in both directions and also while both directions are used at once.",
 ["fault_sequences", "histories"], "every assignment of loss, duplication and delay to the datagrams of a short bidirectional exchange, up to a number of faults",
 "The tests exchange data over a loss-free loopback; TestReceiveQueue feeds two hand-picked id orders. No test drops, duplicates or reorders a datagram carrying data.",
 ["tru.go", "receive_queue.go", "send_queue.go", "channel.go", "split.go", "packet.go"],
 [("in-order gate on the expected id, out-of-order packets parked", "tru.go serve, case statusData"), ("receive queue drained in id order", "receive_queue.go process"), ("retransmit until acknowledged", "send_queue.go retransmit")],
 [("expectedID", "next id to hand over", "channel.go Channel"), ("recvQueue", "packets received early", "receive_queue.go")],
 ["reader callbacks of tru.New and Connect"])
prop("C02", "Lost packets are recovered by retransmission",
 "Every message accepted by a write is eventually handed to the peer's application if the connection stays open and the network loses each datagram only finitely often. While a data packet is unacknowledged it is sent again with growing pauses of at least about 30 ms and at most about 3 s, and once its acknowledgement has been processed it is never sent again; over a network that loses nothing and whose steady round trip is below 200 ms nothing is sent twice. After 100 unanswered retransmissions the connection is destroyed and its readers are told.",
 ["fault_sequences", "histories"], "every pattern of lost data packets and acknowledgements up to a number of faults, and every length of a continuous loss streak",
 "Retransmission never happens in the tests: loopback loses nothing, and the 100-attempt limit would take minutes of real time.",
 ["send_queue.go", "channel.go", "tru.go"],
 [("retransmit timer", "send_queue.go retransmit"), ("back-off from the trip time", "channel.go setRetransmitTime"), ("acknowledgement removes the packet", "tru.go serve, case statusAck")],
 [("sendQueue", "packets awaiting acknowledgement", "send_queue.go")],
 ["datagrams on the wire, reader callbacks"])
prop("C03", "Packet number wrap-around is invisible",
 "Ordered exactly-once delivery, retransmission and delivery callbacks work identically whatever packet number a connection has reached, including while the numbers in flight wrap around from the largest to zero. A packet counts as already received exactly when its number lies in the half of the number space behind the next expected one.",
 ["histories", "inputs", "fault_sequences"], "every starting position around the wrap and around every power of two, with every fault assignment of a short exchange",
 "TestDistance asserts nothing and no test sends more than 10000 packets on a channel, about 1 % of the number space.",
 ["packet.go", "channel.go", "receive_queue.go", "send_queue.go"],
 [("modular distance", "packet.go distance"), ("id wrap on send and receive", "channel.go newID, newExpectedID")],
 [("id, expectedID", "20-bit packet numbers", "channel.go Channel")],
 ["reader callbacks, datagrams on the wire"])
prop("C04", "Large messages are split and reassembled exactly",
 "A message of any length, from empty to many times the packet size, written with any valid (positive, or none) configured maximum data length is handed to the peer as one message with the same bytes, and messages before and after it are not merged with it. No datagram sent for it carries more than the configured maximum (plus encryption overhead and header), and with no configured maximum every datagram fits into one UDP datagram.",
 ["inputs", "fault_sequences", "configurations"], "every message length around the multiples of the packet size crossed with packet sizes and fault assignments",
 "TestSplitPacket sends two lengths with one packet size over a loss-free loopback.",
 ["split.go", "packet.go", "crypt.go", "channel.go", "tru.go"],
 [("split", "split.go splitPacket"), ("combine", "split.go combinePacket.packet"), ("maximum data length", "packet.go MaxDataLen, tru.go SetMaxDataLen")],
 [("combine", "fragments received so far", "split.go combinePacket")],
 ["reader callbacks, datagrams on the wire"])
prop("C05", "Concurrent writers never corrupt each other",
 "When several goroutines write messages of any size on one connection at the same time, every message arrives exactly once and intact, never mixed with another, and the messages of each goroutine arrive in the order that goroutine wrote them. Each accepted write gets its own packet number.",
 ["schedules"], "all interleavings of two or three writers of small and split messages up to a bound on scheduling deviations",
 "Every test writes from a single goroutine per channel.",
 ["channel.go", "split.go", "send_queue.go"],
 [("id allocation under a lock", "channel.go newID"), ("fragments of one message are written without interleaving", "channel.go WriteTo")],
 [("id", "next packet id", "channel.go Channel")],
 ["reader callback of the receiver"])
prop("C06", "A delivery callback fires exactly once, truthfully",
 "Each accepted write given a delivery callback leads to exactly one call of it: without error only after the peer has acknowledged the message's packet (for a split message its last part), otherwise with an error, no earlier than the given timeout and not much later. This also holds when acknowledgement and timeout coincide, when the acknowledgement is lost, duplicated or late, and when the connection is closed meanwhile.",
 ["schedules", "fault_sequences", "histories"], "every fault assignment to data and acknowledgement around the timeout, and all interleavings of acknowledgement, timeout and close up to a bound",
 "TestPacketDelivery tries one success and one timeout, stops watching after the first call, and never lets the two meet.",
 ["packet.go", "channel.go", "tru.go"],
 [("delivery timer", "packet.go SetDelivery"), ("success callback on acknowledgement", "tru.go serve, case statusAck")],
 [("deliveryTimer", "pending timeout", "packet.go Packet")],
 ["delivery callbacks"])
prop("C07", "Connecting ends in a usable connection or an error",
 "A connect call returns, within about five seconds, either a connection over which messages pass correctly in both directions at once, or an error; it never hangs, crashes, or returns neither. It succeeds if the peer is there and all datagrams of the handshake arrive in time. A failed connect leaves no connection behind on the connecting side. This holds under every loss, duplication and delay of the handshake datagrams and every timing of the answer against the timeout.",
 ["fault_sequences", "schedules"], "every fault assignment to the handshake datagrams up to a number of faults, and all interleavings of the last answer with the timeout",
 "Tests connect over a perfect loopback only; the timeout path and duplicate answers are never taken.",
 ["connect.go", "tru.go", "crypt.go"],
 [("handshake state", "connect.go serve"), ("wait or time out", "connect.go wait")],
 [("connects", "pending connect calls by uuid", "connect.go connect")],
 ["return values of Connect and Dial, later traffic, channel statistic"])
prop("C08", "Stray handshake packets do not break a live connection",
 "Once a connection is established, late or repeated copies of its own handshake datagrams, in any order and at any time, never destroy it, never change its keys, never make the server report a second connection, and never disturb the messages it carries. Handshake answers nobody asked for have no effect on any connection.",
 ["fault_sequences", "histories"], "every sequence of replayed handshake datagrams up to a length, at every position of a short exchange",
 "No test repeats or delays a handshake datagram.",
 ["connect.go", "tru.go"],
 [("handshake dispatch", "tru.go serve"), ("uuid lookup", "connect.go serve")],
 [("channels", "live channels by address", "tru.go Tru")],
 ["reader callbacks, connect callback, channel statistic"])
prop("C09", "No datagram can crash or wedge a node",
 "Whatever bytes arrive from whatever address, before, during or after connections exist, the node neither panics nor hangs: it keeps accepting connections and keeps serving the existing ones. Datagrams from addresses other than a connection's peer never change what that connection delivers.",
 ["inputs", "histories"], "every short header and payload shape of every packet type, from the peer's and from foreign addresses, in sequences up to a length, in every connection phase",
 "The tests only ever receive packets produced by the library itself.",
 ["tru.go", "connect.go", "packet.go", "crypt.go"],
 [("decode", "packet.go UnmarshalBinary, connect.go UnmarshalBinary"), ("dispatch", "tru.go serve")], [],
 ["liveness of the node, reader callbacks"])
prop("C10", "Application data is encrypted on the wire",
 "Once a connection is established, every datagram carrying a non-empty application message (or a part of one) is encrypted with the connection's own session key: the plaintext is not visible in it and a peer holding another key cannot read it. A data packet that arrives with more than 64 bytes of encrypted data and whose encrypted data or packet number was altered in transit is never handed to the application nor acknowledged, and does not prevent the genuine packet from being delivered.",
 ["inputs", "fault_sequences"], "every message length up to and beyond the algorithm boundaries, every alteration position of a packet",
 "The tests never look at the wire and never alter a packet.",
 ["crypt.go", "channel.go", "connect.go", "tru.go"],
 [("packet encryption", "crypt.go encryptPacketData, decryptPacketData"), ("key agreement", "connect.go serve")],
 [("sessionKey", "per-connection key", "crypt.go crypt")],
 ["datagrams on the wire, reader callbacks"])
prop("C11", "Idle links stay up, dead peers are detected in time",
 "A connection whose peer is alive and reachable (with a round trip well below two seconds) stays open for as long as wanted even if nobody writes, also if up to two keep-alive packets in a row are lost. A connection from whose peer nothing (punch packets aside) has arrived for more than six seconds is destroyed, within about half a second after that and not before, its readers are told, and writes on it fail from then on.",
 ["fault_sequences", "histories"], "every moment at which the peer falls silent, and every pattern of lost keep-alive packets up to a number of faults, on a virtual clock",
 "The longest test runs a few seconds and none keeps a connection idle or silences a peer.",
 ["statistic.go", "channel.go", "tru.go"],
 [("activity check", "statistic.go checkActivity"), ("ping and pong", "channel.go newChannel, tru.go serve")],
 [("lastActivity", "when the peer was last heard", "statistic.go statistic")],
 ["reader callbacks, datagrams on the wire"])
prop("C12", "A connection ends once, cleanly, on every path",
 "When a connection ends, by local close, the peer's disconnect, silence, retransmission limit or shutdown of the node, in any combination and interleaving, each of its readers is told exactly once, it is reported as destroyed, later writes on it fail, the peer is told on a local close, and no timer or goroutine of it keeps running or sends anything (the timeouts of pending delivery callbacks excepted). Closing it again does nothing.",
 ["schedules", "histories"], "all interleavings of two or three endings of the same connection with traffic and timers, up to a bound on scheduling deviations",
 "Tests close each connection once from one goroutine and do not look at what happens afterwards.",
 ["channel.go", "statistic.go", "send_queue.go", "speed.go", "tru.go"],
 [("destroy", "channel.go destroy"), ("timers re-arm unless destroyed", "statistic.go checkActivity, send_queue.go retransmit, speed.go process")],
 [("destroyed", "connection has ended", "statistic.go statistic")],
 ["reader callbacks, datagrams on the wire, live timers and goroutines"])
prop("C13", "Closing a node releases everything",
 "Closing a node returns, at whatever moment it is called and whatever else is going on; afterwards every connection of the node is destroyed and their peers are told, the global reader has been told, the UDP port can be used again, and no goroutine or timer of the node remains (a hotkey menu is the application's to stop). A node that cannot be created leaves nothing running either.",
 ["schedules", "histories"], "all interleavings of closing with traffic, connects, disconnects from peers and statistic calls, up to a bound on scheduling deviations",
 "Tests call Close in a deferred statement at exit and check nothing after it.",
 ["tru.go", "channel.go", "statistic.go"],
 [("close", "tru.go Close, stopListen"), ("walk over the channels", "channel.go ForEachChannel")],
 [("channels", "live channels", "tru.go Tru"), ("listenStop", "closed when the node stops", "tru.go Tru")],
 ["return of Close, live goroutines and timers, socket"])
prop("C14", "API calls never deadlock or crash each other",
 "Any mix of concurrent calls (write, close, connect, statistic, iteration over channels), incoming packets, timers, and calls made from inside reader, connect and delivery callbacks always completes: no call blocks for ever, nothing panics, and no shared table is accessed by two goroutines without synchronisation.",
 ["schedules"], "all interleavings of pairs and triples of API calls with incoming packets and timers, up to a bound on scheduling deviations",
 "The tests never call the API from two goroutines on purpose and the Go scheduler shows one interleaving of many.",
 ["tru.go", "channel.go", "connect.go", "send_queue.go", "receive_queue.go", "statistic.go"],
 [("locks", "tru.go mu, send_queue.go, receive_queue.go, statistic.go, connect.go m")], [],
 ["completion of calls, panics, race monitor on maps and lists"])
prop("C15", "A reconnecting peer gets a fresh working connection",
 "When a peer connects again from the same address, whether or not it or the network ended the earlier connection, the old connection is destroyed with its readers told and the new one works from its first message on, and it stays up: nothing of the old one left over inside the two nodes (timers, queued packets, a repeated close) destroys or disturbs it.",
 ["histories", "schedules", "fault_sequences"], "every short history of connect, traffic, close and reconnect from either side, with interleavings of the old connection's end and the new one's start",
 "No test connects the same two nodes twice.",
 ["connect.go", "channel.go", "tru.go"],
 [("replace a channel", "tru.go serve, channel.go newChannel"), ("remove only itself", "channel.go destroy")],
 [("channels", "live channel by address", "tru.go Tru")],
 ["reader callbacks, channel statistic"])
prop("C16", "Connections are isolated from each other",
 "With several peers connected, each message is handed over together with the connection it was sent on, and losses, faults, closing or destruction on one connection neither lose, reorder nor alter messages of another, nor end it.",
 ["histories", "fault_sequences", "schedules"], "every merge of the traffic of two or three peers, with faults or an end on one of them",
 "No test connects more than one peer to a node.",
 ["tru.go", "channel.go"],
 [("channel lookup by address", "channel.go getChannel"), ("per-channel queues and keys", "channel.go Channel")],
 [("channels", "channel per peer address", "tru.go Tru")],
 ["reader callbacks of the node"])
prop("C17", "Stream connections read exactly what was written",
 "Reading a connection obtained from Dial or Accept yields the bytes written on the other side, in order, complete and unduplicated, for every pattern of read buffer sizes, with one end-of-file after each written message and nowhere else. A write reports the full length or an error, and the caller may reuse its buffer as soon as it returns.",
 ["inputs", "histories"], "every sequence of message lengths and read-buffer lengths up to a bound, with and without network faults",
 "No test uses the net.Conn interface.",
 ["tru_net.go"],
 [("read buffering and end-of-message", "tru_net.go Conn.Read"), ("message hand-over", "tru_net.go Conn.reader")],
 [("buf, cont", "rest of the message being read", "tru_net.go connRead")],
 ["Conn.Read, Conn.Write"])
prop("C18", "Listener and stream connections honour their lifecycle",
 "Each established connection is returned by exactly one Accept and may be written by either side at once without losing the first message, however slowly the accepting goroutine runs. Closing a connection, locally or remotely or both at once, unblocks its reader with an error (after what was already received), makes later reads and writes fail, and a second close returns an error; closing the listener unblocks Accept with an error, and listening again afterwards works. Connections that nobody accepts or reads do not hold up the others.",
 ["schedules", "histories"], "all interleavings of accept, first messages, close from both sides and listener close, up to a bound on scheduling deviations",
 "No test uses the net.Listener or net.Conn interface.",
 ["tru_net.go", "connect.go", "channel.go"],
 [("accept queue", "tru_net.go connected, Accept"), ("close", "tru_net.go Conn.Close, Trunet.Close")],
 [("truCommon", "shared node of the process", "tru_net.go")],
 ["Accept, Read, Write, Close results"])
prop("C19", "Channel statistics match what happened",
 "For every history the statistic of a connection equals what actually happened on it: messages sent and received, acknowledgements, unexpected acknowledgements, retransmissions, dropped duplicates, current lengths of the send and receive queues, message rates over about the last second, and a trip time between the shortest and the longest observed; there is one entry per live connection, sorted by address.",
 ["histories", "fault_sequences", "configurations"], "every fault assignment of a short exchange with one to four peers, compared with counters kept on the wire",
 "TestSplitPacket prints the statistic and checks nothing.",
 ["statistic.go", "tru.go", "channel.go"],
 [("counters", "statistic.go set*"), ("snapshot", "statistic.go Statistic")],
 [("statistic", "per-channel counters", "statistic.go")],
 ["Tru.Statistic"])
prop("C20", "Log level and filter decide exactly what is printed",
 "After any sequence of level and filter changes a log message is printed if and only if its level is enabled by the current level and it contains one of the filter's alternatives (or there is no filter); level names and numbers convert to each other consistently, and switching walks through all levels and back to none.",
 ["histories", "inputs"], "every sequence of configuration operations up to a length, each followed by one message per level",
 "TestTeolog prints messages and asserts nothing.",
 ["teolog/teolog.go"],
 [("level", "teolog.go SetLevel, SwitchLevel"), ("filter", "teolog.go writer.Write")],
 [("level, filter", "current configuration", "teolog/teolog.go Teolog")],
 ["standard output"])
prop("C21", "Hotkeys run exactly their registered action",
 "For every sequence of registrations and key presses, each key press runs the pending one-shot action, if there is one, exactly once and first, and then exactly the action registered last for that key, or the unknown-key action if there is none; after stop no further key is handled and the stop actions have run. This also holds while registrations are made as the menu runs. The help text lists each registered entry once, in order of its first key.",
 ["histories", "inputs"], "every sequence of registrations and key presses over a small key alphabet up to a length",
 "The hotkey package has no tests.",
 ["hotkey/hotkey.go"],
 [("dispatch", "hotkey.go run"), ("registration", "hotkey.go Add, AddUnknown, NextKeyAction")],
 [("hotkeys, nextKeyAction", "registered actions", "hotkey/hotkey.go Hotkey")],
 ["callbacks"])
prop("C22", "The menu never loses the log level",
 "Whatever sequence of menu keys is pressed, looking at help or at the current level leaves the log level as it was once the next key is pressed, the switch key moves it by exactly one step, unknown keys leave it alone, and the statistic and mini-log keys toggle their displays and nothing else. Keys typed while the node is still being created are neither lost, misunderstood nor fatal.",
 ["histories"], "every sequence of menu keys up to a length against a reference model",
 "The menu has no tests.",
 ["hotkey.go", "hotkey/hotkey.go", "teolog/teolog.go", "statistic.go"],
 [("stop and restore the log", "hotkey.go stopLog, restoreLog, continueLog")],
 [("logLevel", "level saved while a menu page is shown", "hotkey.go hotkeyMenuState")],
 ["log level, statistic state"])
prop("C23", "Punch packets pass through untouched",
 "A punch datagram sent to a node reaches its punch callback exactly once per datagram received, with the sender's address and exactly the bytes given, whether or not a connection with that address exists, and never creates, changes or ends a connection (nor does it count as a sign of life of one).",
 ["inputs", "histories"], "every payload length up to a bound and every position in the life of a connection, with duplicated datagrams",
 "No test sends a punch packet.",
 ["tru.go", "channel.go", "packet.go"],
 [("dispatch", "tru.go serve, case statusPunch"), ("send", "channel.go WriteToPunch")], [],
 ["punch callback"])
prop("C24", "Packet encoding is lossless and decoding is total",
 "Encoding and then decoding a packet gives back its number (20 bits), type and data for every number, every type and every data length, the header takes four bytes, and decoding arbitrary bytes either yields a packet or an error and never fails otherwise; the same holds for handshake data.",
 ["inputs"], "all packet numbers and all types, all data lengths up to a bound, all short byte strings over a small alphabet",
 "TestPacStatusID tries two packets without data.",
 ["packet.go", "connect.go"],
 [("codec", "packet.go MarshalBinary, UnmarshalBinary, packStatID"), ("handshake codec", "connect.go MarshalBinary, UnmarshalBinary")], [],
 ["Packet.MarshalBinary, Packet.UnmarshalBinary"])
prop("C25", "Reading a key leaves the terminal as it was",
 "Reading a key returns the bytes of the key pressed without echo and without waiting for a line end, and afterwards the terminal settings are exactly those from before, for every key of up to three bytes (the terminal's own flow-control keys excepted) and every initial setting.",
 ["inputs", "configurations"], "every single-byte key and a set of multi-byte keys crossed with initial terminal settings, on a pseudo terminal",
 "The terminal examples are compiled but never run.",
 ["term/term.go", "term/term_unix.go"],
 [("raw mode and restore", "term_unix.go makeNonBlock, restoreState"), ("read", "term.go Getch")], [],
 ["bytes returned, terminal attributes"])
prop("C26", "Each new server connection is announced once, ready for use",
 "The server's connect callback is called exactly once for each connection whose handshake completes on the server's side (the client's key answer has arrived) and never for an attempt that does not complete; from inside it and at any time after it the connection can be used like any other: writing, closing and asking for statistics work, and messages written there reach the client intact. A callback that takes its time does not make the client's connect fail.",
 ["schedules", "fault_sequences", "histories"], "every fault assignment to the handshake and all interleavings of callback work with the rest of the handshake, up to a bound",
 "No test registers a connect callback.",
 ["connect.go", "channel.go", "tru.go"],
 [("announcement", "connect.go serve, channel.go newChannel")], [],
 ["connect callback, client reader"])
prop("C27", "Messages go to the right reader",
 "Each message is offered first to the reader given for its connection and then, exactly if that one is absent or did not report it as processed, to the node's global reader; readers given to a connect call see every message of that connection from the very first on, and callbacks for messages are never run concurrently with each other on one node.",
 ["schedules", "histories", "configurations"], "all combinations of reader presence and results, all interleavings of the connect call's return with early messages, up to a bound",
 "Tests use one reader at a time, and the peer never sends before the connecting side is ready.",
 ["tru.go", "connect.go", "channel.go"],
 [("dispatch", "tru.go readerProccess"), ("reader registration", "connect.go Connect, channel.go setReader")],
 [("reader", "per-channel and global callbacks", "tru.go Tru, channel.go Channel")],
 ["reader callbacks"])

prop("C28", "The statistic display shows what happened",
 "While the statistic display is on, a frame is printed about every half second, and none once it was stopped or the node closed, which also gives the whole screen back for scrolling. A frame shows in the first row the node's address and below it, sorted, one row for each live connection with its current numbers, and their totals for several; with the mini-log on, below that the latest events (connections made and ended) in the order they happened, as many as fit on the terminal, at most 256. Rows that are too long are cut, not wrapped. The rows below the frame are left to scroll, the frame fits above them, and the cursor is put back where it was and long lines wrap again.",
 ["schedules", "histories", "configurations"], "all sequences of connects, disconnects, messages and switches up to a depth on terminals of several sizes, all lengths of the log around its bounds, and all interleavings of switching with the drawing of a frame, up to a bound",
 "No test looks at what the display prints or has a terminal.",
 ["statistic.go", "statistic_log.go", "term/term.go"],
 [("frames", "statistic.go printStatistic, StatisticPrintStop"), ("table", "statistic.go ChannelsStatistic String, NumRows"), ("mini-log", "statistic_log.go")], [],
 ["the screen after each frame, StatisticPrintRunning"])

prop("C29", "Stream connections keep their deadlines and addresses",
 "A read of a stream connection (tru.Listen, tru.Dial) whose deadline is over, or is exceeded while it waits, returns os.ErrDeadlineExceeded (a timeout) and takes nothing of what was received; a deadline set, moved or removed applies to a waiting read at once; a write after its deadline fails the same way and sends nothing. Without a deadline in force nothing times out, and after a deadline is moved to the future or removed reading and writing go on where they were, and a closed connection leaves no deadline behind. Both ends agree on the addresses of the connection.",
 ["schedules", "histories"], "all sequences of setting deadlines, reads, writes, messages and time up to a depth, and all interleavings of a waiting read with its deadline, a new deadline, a message and the end of the connection, up to a bound",
 "No test uses deadlines.",
 ["tru_net.go"],
 [("deadlines", "tru_net.go SetDeadline, SetReadDeadline, SetWriteDeadline, connReadQueue"), ("read and write", "tru_net.go Read, Write"), ("addresses", "tru_net.go LocalAddr, RemoteAddr, Addr")], [],
 ["results and moments of Read and Write, addresses"])

prop("C30", "A node outlives errors of its socket",
 "A datagram the socket refuses to send counts as a lost one, and a read from the socket that fails as nothing read: neither an error of one write or read nor an outage of a few seconds ends a connection, stops a node's work for its other connections or leaves a call hanging. Messages written before, during and after it arrive once and in order, delivery callbacks fire once, connect succeeds or fails in time and succeeds afterwards, an outage longer than the silence allowed ends the connection on both sides, and closing a connection or a node meanwhile returns and releases everything.",
 ["faults", "histories"], "every datagram may meet a write error and every moment of a connection's life a failing read; no test can make a socket fail",
 "No test makes a socket fail.",
 ["tru.go", "connect.go", "channel.go", "send_queue.go"],
 [("sending", "tru.go WriteTo, sender; channel.go writeTo"), ("reading", "tru.go listen"), ("handshake", "connect.go")], [],
 ["messages, callbacks, ends of connections, results and moments of calls"])

prop("C31", "A walk over a node's connections visits exactly the live ones",
 "Walking over the connections of a node (ForEachChannel) visits every connection that lives from its start to its end exactly once and none twice, whatever happens meanwhile on other goroutines or inside the walk itself: connections ended by either side, made, written to, a second walk, the close of the node. It never visits nothing (nil), and a connection whose end was noticed before the walk began is not visited. A connection says truly who its peer is (address, IP, port) and whether this node accepted it.",
 ["schedules", "histories"], "all sequences of connects and endings up to a depth, one event at every step of a walk in every map order, and all interleavings of walks with connects and endings, up to a bound",
 "No test walks over connections.",
 ["channel.go", "connect.go", "tru.go"],
 [("walk", "channel.go ForEachChannel"), ("table", "channel.go newChannel, destroy"), ("identity", "channel.go Addr, String, IP, Port, ServerMode")], [],
 ["the connections visited and what they say of themselves"])
prop("C32", "Parameters of nodes and writes take effect in any order",
 "A node created with any sequence of parameters (callbacks in named or plain form, maximum data length, statistic display, hotkey menu, log, level, filter) behaves as each of them says, the last one of a kind counting; without a callback none is called, without a level nothing is logged, without a filter nothing is filtered out; it has the port asked for, and a parameter of a wrong type makes an error and leaves nothing behind: no port, goroutine, timer or display. The same holds for the delivery parameters of a write: the last callback and timeout count, and a wrong one makes an error, sends nothing and disturbs no later message.",
 ["configurations", "histories"], "every sequence of up to three (thorough: four) parameters of all kinds and forms, wrong ones included",
 "The tests use one fixed list of parameters each.",
 ["tru.go", "channel.go", "statistic.go"],
 [("node parameters", "tru.go New"), ("write parameters", "channel.go writeTo")], [],
 ["callbacks called, packets sent, display state, errors, what is left behind"])

prop("C33", "Terminal control sequences do what their functions say",
 "What the functions of package term return does, written to an ANSI terminal, what their names and comments say, alone and in every combination: each of the colours and None, SetColor (the text is in the colour, what follows has none), clearing the screen or the rest of the line, wrapping on and off, saving, setting (column, row) and restoring the cursor, hiding and showing it, setting a scroll region from a row to the end or to a given row, and resetting it. Nothing else about the terminal changes, and the key codes are those that terminals send.",
 ["histories", "configurations"], "every sequence of four (thorough: five) of 22 functions and texts, every pair of colours, every position and scroll region of a small terminal",
 "No test looks at a control sequence.",
 ["term/term.go"],
 [("sequences", "term/term.go ColorFuncs, SetColor, FuncFuncs, KeysFuncs")], [],
 ["cells, colours, cursor, modes and scroll region of the terminal"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
