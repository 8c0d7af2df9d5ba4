package ustack

import "time"

// Framing: C07 (exact payloads, any cutting) and C08 (connections never mix).

// zzFrames sends n payloads of symbolic length and content through a sender's
// frame processor and returns the payloads and the resulting stream.
func zzFrames(tag string, snd *zzRig, c TransportConnection, n int) ([][]byte, [][]byte) {
	var pays, outs [][]byte
	for i := 0; i < n; i++ {
		l := zzRange(tag+"len", 1, snd.stk.mtu-snd.stk.ovh)
		p := zzBytes(tag+"pay", l)
		k := len(snd.bot.recs)
		snd.down(c, p)
		zzAssert(len(snd.bot.recs) == k+1, "a payload that fits is passed down once")
		zzAssert(len(snd.top.recs) == 0, "sending delivers nothing upwards")
		r := snd.bot.recs[k]
		zzAssert(r.conn == c, "a frame keeps its connection")
		pays = append(pays, p)
		outs = append(outs, r.data)
	}
	return pays, outs
}

func zzJoin(parts [][]byte) []byte {
	var s []byte
	for _, p := range parts {
		s = append(s, p...)
	}
	return s
}

// zzComplete is the number of leading parts that end at or before position n.
func zzComplete(parts [][]byte, n int) int {
	k, end := 0, 0
	for _, p := range parts {
		end += len(p)
		if end > n {
			break
		}
		k++
	}
	return k
}

func zzNewFrameRig(mtu, ovh int) *zzRig {
	r := zzNewRig(NewFrameDecoder(), mtu, ovh)
	r.p.Run()
	return r
}

// ZZC07Cut: payloads of any length, stream cut anywhere.
func ZZC07Cut() {
	mtu := zzParam("mtu")
	ovh := zzRange("overhead", 4, 8)
	ca, cb := &zzConn{name: "a"}, &zzConn{name: "b"}
	snd := zzNewFrameRig(mtu, ovh)
	rcv := zzNewFrameRig(mtu, ovh)
	pays, outs := zzFrames("", snd, ca, zzParam("payloads"))
	s := zzJoin(outs)
	pos := 0
	for i := 0; i < zzParam("chunks"); i++ {
		max := len(s) - pos
		if max == 0 {
			break
		}
		if max > mtu {
			max = mtu
		}
		n := zzRange("chunk", 1, max)
		rcv.up(cb, s[pos:pos+n])
		pos += n
		want := zzComplete(outs, pos)
		zzAssert(len(rcv.top.recs) == want, "exactly the frames that have fully arrived are delivered")
	}
	zzAssert(len(rcv.bot.recs) == 0, "receiving sends nothing")
	if len(rcv.top.recs) > 0 {
		zzReach("delivered")
	}
	for i, r := range rcv.top.recs {
		zzAssert(r.conn == cb, "a payload is delivered with its connection")
		zzSame("k", r.data, pays[i], "payload")
		if i > 0 {
			continue
		}
		zzSame("k", zzData(r.ub), pays[i], "a payload kept for later does not change")
	}
}

// ZZC07Long: a long history of cut frames, then any payload cut anywhere.
func ZZC07Long() {
	mtu := zzParam("mtu")
	ca, cb := &zzConn{name: "a"}, &zzConn{name: "b"}
	snd := zzNewFrameRig(mtu, 4)
	rcv := zzNewFrameRig(mtu, 4)
	cnt := 0
	// frames of l bytes, each chunk carries the end of one and the start of the next
	l := zzRange("histlen", 1, mtu-4)
	off := zzRange("histcut", 1, l+3)
	var rest []byte
	for i := 0; i < zzParam("history"); i++ {
		p := zzBytes("hist", l)
		snd.down(ca, p)
		f := snd.bot.recs[i].data
		chunk := append(append([]byte{}, rest...), f[:off]...)
		if len(chunk) > mtu {
			rcv.up(cb, chunk[:mtu])
			chunk = chunk[mtu:]
		}
		rcv.up(cb, chunk)
		zzAssert(len(rcv.top.recs) == cnt, "only complete frames of the history")
		rest = f[off:]
		cnt++
	}
	rcv.up(cb, rest)
	zzAssert(len(rcv.top.recs) == cnt, "all frames of the history")
	zzReach("history delivered")
	p := zzBytes("pay", zzRange("len", 1, mtu-4))
	snd.down(ca, p)
	f := snd.bot.recs[len(snd.bot.recs)-1].data
	k := zzRange("cut", 1, len(f))
	rcv.up(cb, f[:k])
	if k < len(f) {
		zzAssert(len(rcv.top.recs) == cnt, "nothing from an incomplete frame")
		rcv.up(cb, f[k:])
	}
	zzAssert(len(rcv.top.recs) == cnt+1, "the payload after a long history")
	zzSame("k", rcv.top.recs[cnt].data, p, "payload after a long history")
}

// ZZC07Big: large payloads, followed by a small one.
func ZZC07Big() {
	mtu := zzParam("mtu")
	c := &zzConn{name: "a"}
	snd := zzNewFrameRig(mtu, 4)
	rcv := zzNewFrameRig(mtu, 4)
	p := zzBytes("pay", zzRange("len", 1, mtu-4))
	q := zzBytes("next", 1)
	snd.down(c, p)
	snd.down(c, q)
	zzAssert(len(snd.bot.recs) == 2, "each payload is passed down once")
	f, g := snd.bot.recs[0].data, snd.bot.recs[1].data
	k := zzRange("cut", 0, len(f))
	if k > 0 {
		rcv.up(c, f[:k])
	}
	if k < len(f) {
		zzAssert(len(rcv.top.recs) == 0, "nothing from an incomplete frame")
		rcv.up(c, f[k:])
	}
	rcv.up(c, g)
	zzAssert(len(rcv.top.recs) == 2, "every payload is delivered once")
	zzReach("delivered")
	zzSame("k", rcv.top.recs[0].data, p, "large payload")
	zzSame("k", rcv.top.recs[1].data, q, "payload after a large one")
}

// ZZC07Byte: one byte at a time.
func ZZC07Byte() {
	mtu := zzParam("mtu")
	c := &zzConn{name: "a"}
	snd := zzNewFrameRig(mtu, 4)
	rcv := zzNewFrameRig(mtu, 4)
	var pays, outs [][]byte
	for i := 0; i < zzParam("payloads"); i++ {
		p := zzBytes("pay", zzFork(zzRange("len", 1, zzParam("max"))))
		snd.down(c, p)
		pays = append(pays, p)
		outs = append(outs, snd.bot.recs[i].data)
	}
	s := zzJoin(outs)
	n := zzFork(len(s))
	for i := 0; i < n; i++ {
		rcv.up(c, s[i:i+1])
		zzAssert(len(rcv.top.recs) == zzComplete(outs, i+1), "exactly the complete frames, byte by byte")
	}
	zzReach("all bytes in")
	for i, r := range rcv.top.recs {
		zzSame("k", r.data, pays[i], "payload")
	}
}

// ZZC07Off: disabled on both sides, or a by-reference connection: untouched.
func ZZC07Off() {
	mtu := zzParam("mtu")
	c := &zzConn{name: "a", ref: zzBool("ref")}
	r := zzNewFrameRig(mtu, 4)
	if !c.ref {
		r.p.SetEnable(false)
	}
	p := zzBytes("pay", zzRange("len", 1, mtu-4))
	r.down(c, p)
	zzAssert(len(r.bot.recs) == 1 && len(r.top.recs) == 0, "passed down once")
	zzSame("k", r.bot.recs[0].data, p, "unchanged on the way down")
	r.up(c, p)
	zzAssert(len(r.bot.recs) == 1 && len(r.top.recs) == 1, "passed up once")
	zzSame("k", r.top.recs[0].data, p, "unchanged on the way up")
	zzReach("done")
}

// ZZC08Mix: anything on one connection has no influence on another.
func ZZC08Mix() {
	mtu := zzParam("mtu")
	a, b := &zzConn{name: "peer"}, &zzConn{name: "peer"}
	snd := zzNewFrameRig(mtu, 4)
	one := zzNewFrameRig(mtu, 4) // sees only connection b
	two := zzNewFrameRig(mtu, 4) // sees both
	p := zzBytes("pay", zzRange("len", 1, mtu-4))
	snd.down(b, p)
	f := snd.bot.recs[0].data
	got := 0
	noise := func() {
		for i := 0; i < zzParam("noise"); i++ {
			k := zzChoice("noise", 5)
			if k == 0 {
				break
			}
			if k == 2 {
				two.p.OnEvent(Event{Type: UStackEventConnectionClosed, Data: a})
				continue
			}
			if k == 3 {
				two.p.OnEvent(Event{Type: UStackEventNewConnection, Data: &zzConn{name: "peer"}})
				continue
			}
			if k == 4 {
				two.p.OnEvent(Event{Type: UStackEventHeartbeatLost, Data: a})
				two.p.OnEvent(Event{Type: UStackEventEndpointAdded, Data: NewEndPoint("e", 1)})
				continue
			}
			n := zzRange("noiselen", 1, zzParam("noisemax"))
			two.up(a, zzBytes("noise", n))
		}
	}
	pos := 0
	for i := 0; i < zzParam("chunks") && pos < len(f); i++ {
		noise()
		n := len(f) - pos
		if i < zzParam("chunks")-1 {
			n = zzRange("chunk", 1, n)
		}
		two.up(b, f[pos:pos+n])
		one.up(b, f[pos:pos+n])
		pos += n
	}
	for _, r := range two.top.recs {
		zzAssert(r.conn == a || r.conn == b, "a payload is delivered with a connection it arrived on")
		if r.conn == b {
			zzAssert(got < len(one.top.recs), "another connection's data is not delivered for b")
			zzSame("k", r.data, one.top.recs[got].data, "payload of b")
			got++
		}
	}
	zzAssert(got == len(one.top.recs), "b's payload is delivered whatever a sends")
	zzAssert(got == 1, "b's payload is delivered")
	zzReach("done")
}

// ZZC08Two: valid frames on two connections, interleaved chunk by chunk.
func ZZC08Two() {
	mtu := zzParam("mtu")
	cs := []*zzConn{{name: "peer"}, {name: "peer"}}
	snd := zzNewFrameRig(mtu, 4)
	rcv := zzNewFrameRig(mtu, 4)
	var f [2][]byte
	var p [2][]byte
	var pos [2]int
	for i := range cs {
		p[i] = zzBytes("pay", zzRange("len", 1, mtu-4))
		snd.down(cs[i], p[i])
		f[i] = snd.bot.recs[i].data
	}
	for i := 0; i < zzParam("chunks"); i++ {
		w := zzChoice("which", 2)
		if pos[w] == len(f[w]) {
			continue
		}
		n := zzRange("chunk", 1, len(f[w])-pos[w])
		k := len(rcv.top.recs)
		rcv.up(cs[w], f[w][pos[w]:pos[w]+n])
		pos[w] += n
		if pos[w] == len(f[w]) {
			zzAssert(len(rcv.top.recs) == k+1, "a complete frame is delivered whatever the other connection has pending")
			zzAssert(rcv.top.recs[k].conn == cs[w], "delivered with its own connection")
			zzSame("k", rcv.top.recs[k].data, p[w], "payload of this connection")
			zzReach("one complete")
			if w == 1 && pos[0] > 0 && pos[0] < len(f[0]) {
				zzReach("complete while the other is pending")
			}
		} else {
			zzAssert(len(rcv.top.recs) == k, "nothing from an incomplete frame")
		}
	}
}

// ZZC08Con: the readers of two connections at the same time.
func ZZC08Con() {
	cs := []*zzConn{{name: "peer"}, {name: "peer"}}
	snd := zzNewFrameRig(64, 4)
	rcv := zzNewFrameRig(64, 4)
	var f, p [2][]byte
	for i := range cs {
		p[i] = zzBytes("pay", 5)
		snd.down(cs[i], p[i])
		f[i] = snd.bot.recs[i].data
	}
	done := make(chan int, 2)
	cut := zzChoice("cut", 3)*3 + 1
	for i := range cs {
		i := i
		zzGo(func() {
			rcv.up(cs[i], f[i][:cut])
			rcv.up(cs[i], f[i][cut:])
			done <- 1
		})
	}
	<-done
	<-done
	zzAssert(len(rcv.top.recs) == 2, "each connection's frame is delivered")
	for _, r := range rcv.top.recs {
		w := 0
		if r.conn == cs[1] {
			w = 1
		}
		zzAssert(r.conn == cs[w], "with its connection")
		zzSame("k", r.data, p[w], "payload of the connection")
	}
	zzReach("both")
}

// ZZC07Time: any time passes between the pieces.
func ZZC07Time() {
	mtu := 64
	c := &zzConn{name: "a"}
	snd := zzNewFrameRig(mtu, 4)
	rcv := zzNewFrameRig(mtu, 4)
	pays, outs := zzFrames("", snd, c, 2)
	s := zzJoin(outs)
	pos := 0
	for i := 0; i < zzParam("chunks") && pos < len(s); i++ {
		n := len(s) - pos
		if n > mtu {
			n = mtu
		}
		n = zzRange("chunk", 1, n)
		rcv.up(c, s[pos:pos+n])
		pos += n
		zzAssert(len(rcv.top.recs) == zzComplete(outs, pos), "exactly the complete frames, whenever the pieces arrive")
		zzSleep(time.Duration(zzRange("pause", 1, int(30*24*time.Hour))))
		zzAssert(len(rcv.top.recs) == zzComplete(outs, pos), "nothing by itself")
	}
	if pos == len(s) {
		zzReach("all in")
	}
	for i, r := range rcv.top.recs {
		zzSame("k", r.data, pays[i], "payload")
	}
}

// ZZC08Many: many connections, each with an incomplete frame.
func ZZC08Many() {
	n := zzParam("conns")
	rcv := zzNewFrameRig(32, 4)
	snd := zzNewFrameRig(32, 4)
	var cs []*zzConn
	var pays, outs [][]byte
	for i := 0; i < n; i++ {
		c := &zzConn{name: "peer"}
		cs = append(cs, c)
		p := []byte{byte(i), byte(i >> 8), byte(i * 3)}
		if i == 0 || i == n-1 {
			p = zzBytes("pay", 5)
		}
		snd.down(c, p)
		pays = append(pays, p)
		outs = append(outs, snd.bot.recs[i].data)
	}
	cut := 1 + zzChoice("cut", 6)
	for i, c := range cs {
		rcv.up(c, outs[i][:cut])
	}
	zzAssert(len(rcv.top.recs) == 0, "nothing from incomplete frames")
	back := zzChoice("backwards", 2) == 1
	for k := range cs {
		i := k
		if back {
			i = n - 1 - k
		}
		rcv.up(cs[i], outs[i][cut:])
		zzAssert(len(rcv.top.recs) == k+1, "each connection's frame is delivered when it is complete")
		zzAssert(rcv.top.recs[k].conn == cs[i], "with its connection")
		zzSame("k", rcv.top.recs[k].data, pays[i], "payload of the connection")
	}
	zzReach("all")
}

// ZZC08Stuck: the layers above keep a payload of one connection for a long
// time; another connection is served meanwhile, and neither changes.
func ZZC08Stuck() {
	mtu := 32
	snd, rcv := zzNewFrameRig(mtu, 4), zzNewFrameRig(mtu, 4)
	a, b := &zzConn{name: "peer"}, &zzConn{name: "peer"}
	// two payloads each; all may come in one chunk
	var pays [2][][]byte
	var f [2][]byte
	for i, c := range []*zzConn{a, b} {
		for k := 0; k < 2; k++ {
			p := zzBytes("pay", zzRange("len", 1, mtu/2-4))
			snd.down(c, p)
			pays[i] = append(pays[i], p)
			f[i] = append(f[i], snd.bot.recs[2*i+k].data...)
		}
	}
	block := make(chan bool)
	na := 0
	rcv.top.hook = func(x *zzRec) {
		if x.conn == TransportConnection(a) {
			k := na
			na++
			<-block
			zzSame("k", zzData(x.ub), pays[0][k], "payload of a")
		}
	}
	cut := zzRange("cut", 1, len(f[1])-1)
	early := zzChoice("b has begun", 2) == 1
	if early {
		rcv.up(b, f[1][:cut])
	}
	end := make(chan bool, 2)
	zzGo(func() {
		rcv.up(a, f[0])
		end <- true
	})
	zzSettle()
	zzAssert(na == 1, "a payload is on its way up")
	zzGo(func() {
		if !early {
			rcv.up(b, f[1][:cut])
		}
		rcv.up(b, f[1][cut:])
		if zzChoice("then closed", 2) == 1 {
			rcv.p.OnEvent(Event{Type: UStackEventConnectionClosed, Data: b})
		}
		end <- true
	})
	<-end
	var got []*zzRec
	for _, r := range rcv.top.recs {
		if r.conn == TransportConnection(b) {
			got = append(got, r)
		}
	}
	zzAssert(len(got) == 2 && len(rcv.top.recs) == 3, "the other connection's payloads are delivered meanwhile")
	close(block)
	<-end
	zzAssert(len(rcv.top.recs) == 4 && na == 2, "everything is delivered once")
	for i, r := range got {
		zzSame("k", r.data, pays[1][i], "payload of b")
		zzSame("k", zzData(r.ub), pays[1][i], "a payload kept for later does not change")
	}
	zzReach("done")
}

// ZZC07Kept: payloads that the layers above keep do not change later.
func ZZC07Kept() {
	mtu := zzParam("mtu")
	c := &zzConn{name: "a"}
	snd, rcv := zzNewFrameRig(mtu, 4), zzNewFrameRig(mtu, 4)
	n := zzParam("payloads")
	var pays [][]byte
	var s []byte
	for i := 0; i < n; i++ {
		p := zzBytes("pay", 1+zzChoice("len", zzParam("max")))
		snd.down(c, p)
		pays = append(pays, p)
		s = append(s, snd.bot.recs[i].data...)
	}
	cut := zzChoice("cut", len(s))
	if cut > 0 {
		rcv.up(c, s[:cut])
	}
	rcv.up(c, s[cut:])
	zzAssert(len(rcv.top.recs) == n, "every payload is delivered once")
	for i, r := range rcv.top.recs {
		zzSame("k", r.data, pays[i], "payload")
		zzSame("k", zzData(r.ub), pays[i], "a payload kept for later does not change")
	}
	zzReach("kept")
}

// ZZC07Cap: the configured cache holds just the frame; chunks of any size.
func ZZC07Cap() {
	mtu := zzParam("mtu")
	c := &zzConn{name: "a"}
	snd := zzNewFrameRig(mtu, 4)
	rcv := zzNewRig(NewFrameDecoder().SetOption("CacheCapacity", zzRange("capacity", mtu, 4*mtu)), mtu, 4)
	rcv.p.Run()
	p, q := zzBytes("pay", zzRange("len", 1, mtu-4)), zzBytes("pay", zzRange("len", 1, mtu-4))
	snd.down(c, p)
	snd.down(c, q)
	s := append(append([]byte{}, snd.bot.recs[0].data...), snd.bot.recs[1].data...)
	cut := zzRange("cut", 1, mtu)
	zzAssume(cut < len(s))
	rcv.up(c, s[:cut])
	s = s[cut:]
	for len(s) > 0 {
		n := len(s)
		if n > mtu {
			n = mtu
		}
		rcv.up(c, s[:n])
		s = s[n:]
	}
	zzAssert(len(rcv.top.recs) == 2, "every payload is delivered once")
	zzSame("k", rcv.top.recs[0].data, p, "payload")
	zzSame("k", rcv.top.recs[1].data, q, "payload")
	zzReach("delivered")
}

// ZZC07Mid: empty payloads and events between the chunks do no harm.
func ZZC07Mid() {
	mtu := zzParam("mtu")
	c, o := &zzConn{name: "a"}, &zzConn{name: "b"}
	snd, rcv := zzNewFrameRig(mtu, 4), zzNewFrameRig(mtu, 4)
	var pays [][]byte
	for i := 0; i < zzParam("payloads"); i++ {
		p := zzBytes("pay", zzRange("len", 0, 3))
		snd.down(c, p)
		if len(p) > 0 {
			pays = append(pays, p)
		}
	}
	var s []byte
	for _, r := range snd.bot.recs {
		s = append(s, r.data...)
	}
	zzAssume(len(s) > 1)
	cut := zzRange("cut", 1, len(s)-1)
	rcv.up(c, s[:cut])
	switch zzChoice("event", 6) {
	case 1:
		rcv.p.OnEvent(Event{Type: UStackEventHeartbeatLost, Data: c})
	case 2:
		rcv.p.OnEvent(Event{Type: UStackEventHeartbeatRecover, Data: c})
	case 3:
		rcv.p.OnEvent(Event{Type: UStackEventNewConnection, Data: o})
	case 4:
		rcv.p.OnEvent(Event{Type: UStackEventConnectionClosed, Data: o})
	case 5:
		rcv.p.OnEvent(Event{Type: UStackEventEndpointAdded})
	}
	rcv.up(c, s[cut:])
	n := 0
	for _, r := range rcv.top.recs {
		if len(r.data) == 0 {
			continue // an empty payload may be handed up or not
		}
		zzAssert(n < len(pays), "only what was sent is delivered")
		zzAssert(r.conn == c, "a payload is delivered with its connection")
		zzSame("k", r.data, pays[n], "payload")
		n++
	}
	zzAssert(n == len(pays), "every payload is delivered, whatever lies between")
	zzReach("delivered")
}
