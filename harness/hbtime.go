package ustack

import "time"

// C16: heartbeat loss under every timing.

// zzBeat is one heartbeat, as a real peer sends it.
func zzBeat() []byte {
	p := NewHeartbeat().SetOption("IntervalInSecond", 500)
	r := zzNewRig(p, 64, 1)
	c := &zzConn{name: "q"}
	p.Run()
	p.OnEvent(Event{Type: UStackEventNewConnection, Data: c})
	zzSettle()
	c.Close()
	zzAssert(len(r.bot.recs) == 1, "a heartbeat is sent when the connection opens")
	return r.bot.recs[0].data
}

// zzPause is an arbitrary pause in nanoseconds.
func zzPause(name string, max time.Duration) time.Duration {
	return time.Duration(zzRange(name, 1, int(max)))
}

const zzLag = 2 * time.Second // the check runs periodically

// ZZC16Silence: heartbeats at any times on one connection, then silence.
func ZZC16Silence() {
	beat := zzBeat()
	timeout := 1 + zzChoice("timeout", zzParam("timeout"))
	closeOn := zzChoice("close", 2) == 0
	p := NewHeartbeat().SetOption("TimeoutInSecond", timeout).SetOption("IntervalInSecond", 500)
	late := zzChoice("late", 2) == 1
	if !closeOn || late {
		p.SetOption("CloseOnLost", closeOn)
	}
	r := zzNewRig(p, 64, 1)
	T := time.Second * time.Duration(timeout)
	c := &zzConn{name: "c"}
	last := time.Now()
	lost := 0
	r.stk.hook = func(e Event) {
		if e.Type != UStackEventHeartbeatLost || e.Data != TransportConnection(c) {
			return
		}
		lost++
		silent := time.Since(last)
		zzAssert(silent >= T, "a connection is declared lost only after the timeout")
		zzAssert(silent <= T+zzLag, "a connection is declared lost soon after the timeout")
		zzAssert(c.closed == closeOn, "the connection is closed exactly if close-on-lost is set")
	}
	p.Run()
	if late {
		zzSleep(zzPause("start", time.Second))
	}
	p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(c)})
	last = time.Now()
	for i := 0; i < zzParam("beats"); i++ {
		d := zzPause("gap", T-1)
		zzSleep(d)
		zzAssert(lost == 0, "a connection with heartbeats within the timeout is not declared lost")
		zzAssert(!c.closed, "nor closed")
		r.up(c, beat)
		last = time.Now()
	}
	zzSleep(T - 1)
	zzAssert(lost == 0, "not lost before the timeout")
	zzSleep(zzLag + 2)
	zzAssert(lost == 1, "a silent connection is declared lost once")
	zzReach("lost")
	zzSleep(T)
	zzAssert(lost == 1, "a silent connection is declared lost only once")
	zzAssert(c.closed == closeOn, "the connection is closed exactly if close-on-lost is set")
	zzAssert(len(r.top.recs) == 0, "heartbeats are not handed up")
	if !closeOn {
		// a heartbeat starts a new period
		r.up(c, beat)
		last = time.Now()
		zzSleep(T + zzLag)
		zzAssert(lost == 2, "a connection that falls silent again is declared lost again")
		zzReach("lost again")
	}
}

// ZZC16Data: application data is no heartbeat: a peer that sends only data is
// lost after the timeout, and a connection without data is kept by heartbeats.
func ZZC16Data() {
	beat := zzBeat()
	q := zzNewRig(NewHeartbeat(), 64, 1)
	q.down(&zzConn{name: "q"}, zzBytes("payload", zzRange("len", 1, 8)))
	data := q.bot.recs[0].data
	timeout := 1 + zzChoice("timeout", 2)
	T := time.Second * time.Duration(timeout)
	p := NewHeartbeat().SetOption("TimeoutInSecond", timeout).SetOption("IntervalInSecond", 500)
	r := zzNewRig(p, 64, 1)
	c := &zzConn{name: "c"}
	lost := 0
	r.stk.hook = func(e Event) {
		if e.Type == UStackEventHeartbeatLost {
			lost++
		}
	}
	p.Run()
	p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(c)})
	last := time.Now()
	for i := 0; i < zzParam("steps"); i++ {
		zzSleep(zzPause("gap", T-1))
		silent := time.Since(last)
		if silent < T {
			zzAssert(lost == 0, "a connection with heartbeats within the timeout is not declared lost")
		}
		if silent >= T+zzLag {
			zzAssert(lost == 1 && c.closed, "a connection without heartbeats is declared lost, whatever data arrives")
			zzReach("lost with data")
		}
		if lost == 0 && zzChoice("beat", 2) == 1 {
			r.up(c, beat)
			last = time.Now()
		} else {
			r.up(c, data)
		}
	}
	zzReach("done")
}

// ZZC16Other: one connection is silent, the other one has regular heartbeats.
func ZZC16Other() {
	beat := zzBeat()
	timeout := 1 + zzChoice("timeout", 2)
	T := time.Second * time.Duration(timeout)
	p := NewHeartbeat().SetOption("TimeoutInSecond", timeout).SetOption("IntervalInSecond", 500)
	r := zzNewRig(p, 64, 1)
	live, dead := &zzConn{name: "peer"}, &zzConn{name: "peer"}
	p.Run()
	cs := []*zzConn{live, dead}
	if zzChoice("order", 2) == 1 {
		cs[0], cs[1] = dead, live
	}
	for _, c := range cs {
		p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(c)})
	}
	var total time.Duration
	for i := 0; i < zzParam("beats"); i++ {
		d := zzPause("gap", T-1)
		zzSleep(d)
		total += d
		r.up(live, beat)
	}
	n := 0
	for _, e := range r.stk.events {
		if e.Type == UStackEventHeartbeatLost {
			zzAssert(e.Data == TransportConnection(dead), "only the silent connection is declared lost")
			n++
		}
	}
	zzAssert(!live.closed, "the live connection stays open")
	if total >= T+zzLag {
		zzAssert(n == 1 && dead.closed, "the silent connection is declared lost")
		zzReach("other lost")
	}
	if total < T {
		zzAssert(n == 0, "nothing is lost before the timeout")
		zzReach("too early")
	}
	// then both are silent
	zzSleep(T + zzLag)
	nl, nd := 0, 0
	for _, e := range r.stk.events {
		if e.Type == UStackEventHeartbeatLost {
			if e.Data == TransportConnection(live) {
				nl++
			} else {
				nd++
			}
		}
	}
	zzAssert(nl == 1 && nd == 1 && live.closed && dead.closed, "each silent connection is declared lost once")
	zzReach("both lost")
}

// ZZC16Send: a heartbeat every interval while the connection is open.
func ZZC16Send() {
	interval := 1 + zzChoice("interval", zzParam("interval"))
	I := time.Second * time.Duration(interval)
	p := NewHeartbeat().SetOption("TimeoutInSecond", 500)
	if interval != 1 || zzChoice("explicit", 2) == 1 {
		p.SetOption("IntervalInSecond", interval)
	}
	r := zzNewRig(p, 64, 1)
	c := &zzConn{name: "c"}
	var at []time.Duration
	t0 := time.Now()
	r.bot.hook = func(x *zzRec) {
		zzAssert(x.conn == c, "on the connection")
		zzAssert(!c.closed, "no heartbeat after the connection has closed")
		at = append(at, time.Since(t0))
	}
	p.Run()
	p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(c)})
	open := zzPause("open", I*time.Duration(zzParam("periods")))
	zzSleep(open)
	c.Close()
	n := len(at)
	for i, t := range at {
		zzAssert(t == I*time.Duration(i), "a heartbeat is sent every interval")
	}
	zzAssert(I*time.Duration(n) >= open, "heartbeats go on while the connection is open")
	zzSleep(I * 3)
	zzAssert(len(at) == n, "none after it has closed")
	zzReach("sent")
}

// ZZC16Peer: two stacks with heartbeats keep their connection; when one side's
// messages stop arriving the other side closes the connection.
func ZZC16Peer() {
	mk := func() DataProcessor {
		return NewHeartbeat().SetOption("TimeoutInSecond", 2).SetOption("IntervalInSecond", 1)
	}
	ea, eb := NewEndPoint("a", 0), NewEndPoint("b", 0)
	wa, wb := zzNewWire()
	a, ta := zzStack(64, []EndPoint{ea}, NewBytesCodec(), mk(), NewFrameDecoder())
	b, tb := zzStack(64, []EndPoint{eb}, NewBytesCodec(), mk(), NewFrameDecoder())
	lostA, lostB := 0, 0
	a.SetEventListener(func(e Event) {
		if e.Type == UStackEventHeartbeatLost && e.Data == TransportConnection(wa) {
			lostA++
		}
	})
	b.SetEventListener(func(e Event) {
		if e.Type == UStackEventHeartbeatLost && e.Data == TransportConnection(wb) {
			lostB++
		}
	})
	a.Run()
	b.Run()
	ta.next <- wa
	tb.next <- wb
	zzSleep(zzPause("alive", 4*time.Second))
	zzAssert(lostA == 0 && lostB == 0 && !wa.closed && !wb.closed, "the connection is kept while heartbeats are exchanged")
	// b falls silent
	wb.wr = func(p []byte) (int, error) { return len(p), nil }
	zzSleep(5 * time.Second)
	zzAssert(lostA == 1 && wa.closed, "the silent peer is detected")
	zzReach("peer lost")
}

// ZZC16Long: long timeouts.
func ZZC16Long() {
	beat := zzBeat()
	timeout := []int{5, 15, 60, 3600}[zzChoice("timeout", zzParam("timeouts"))]
	T := time.Second * time.Duration(timeout)
	p := NewHeartbeat().SetOption("TimeoutInSecond", timeout).SetOption("IntervalInSecond", 100000)
	r := zzNewRig(p, 64, 1)
	c := &zzConn{name: "c"}
	var at []time.Duration
	t0 := time.Now()
	r.stk.hook = func(e Event) {
		if e.Type == UStackEventHeartbeatLost {
			at = append(at, time.Since(t0))
		}
	}
	p.Run()
	zzSleep(zzPause("start", time.Second))
	p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(c)})
	zzSleep(T - time.Second + zzPause("gap", time.Second-1))
	zzAssert(len(at) == 0, "not lost before the timeout")
	r.up(c, beat)
	t0 = time.Now()
	zzSleep(T - 1)
	zzAssert(len(at) == 0, "not lost before the timeout")
	zzSleep(zzLag + 2)
	zzAssert(len(at) == 1 && at[0] >= T && at[0] <= T+zzLag, "lost soon after the timeout")
	zzAssert(c.closed, "and closed")
	zzReach("lost")
}

// ZZC16Many: many connections, one of them falls silent.
func ZZC16Many() {
	n := zzParam("conns")
	beat := zzBeat()
	p := NewHeartbeat().SetOption("TimeoutInSecond", 2).SetOption("IntervalInSecond", 500)
	r := zzNewRig(p, 64, 1)
	p.Run()
	var cs []*zzConn
	for i := 0; i < n; i++ {
		cs = append(cs, &zzConn{name: "peer"})
		p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(cs[i])})
	}
	quiet := zzChoice("silent", 3) * (n - 1) / 2
	gap := zzPause("gap", time.Millisecond) + time.Second
	for k := 0; k < 5; k++ {
		zzSleep(gap)
		for i, c := range cs {
			if i != quiet {
				r.up(c, beat)
			}
		}
	}
	k := 0
	for _, e := range r.stk.events {
		if e.Type == UStackEventHeartbeatLost {
			zzAssert(e.Data == TransportConnection(cs[quiet]), "only the silent connection is declared lost")
			k++
		}
	}
	zzAssert(k == 1, "the silent connection is declared lost once")
	for i, c := range cs {
		zzAssert(c.closed == (i == quiet), "and closed, and no other")
	}
	zzReach("one of many")
	zzSleep(2*time.Second + zzLag)
	for _, c := range cs {
		zzAssert(c.closed, "all are lost when all are silent")
	}
	zzReach("all")
}

// ZZC16Large: a large timeout is not reached soon.
func ZZC16Large() {
	timeout := zzRange("timeout", 12, 9000000000)
	p := NewHeartbeat().SetOption("TimeoutInSecond", timeout).SetOption("IntervalInSecond", 500)
	r := zzNewRig(p, 64, 1)
	p.Run()
	c := &zzConn{name: "peer"}
	p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(c)})
	zzSleep(10 * time.Second)
	for _, e := range r.stk.events {
		zzAssert(e.Type != UStackEventHeartbeatLost, "no loss before the timeout")
	}
	zzAssert(!c.closed, "the connection stays open before the timeout")
	zzReach("waiting")
}

// ZZC16Stall: sending on one connection takes forever; the others are served.
func ZZC16Stall() {
	p := NewHeartbeat().SetOption("TimeoutInSecond", 8).SetOption("IntervalInSecond", 1)
	r := zzNewRig(p, 64, 1)
	bad, good := &zzConn{name: "peer"}, &zzConn{name: "peer"}
	from := zzChoice("stalls at", 3)
	k := 0
	beats := 0
	block := make(chan bool)
	r.bot.hook = func(x *zzRec) {
		if x.conn == TransportConnection(bad) {
			k++
			if k > from {
				<-block
			}
			return
		}
		zzAssert(!good.closed, "no heartbeat after the connection has closed")
		beats++
	}
	p.Run()
	first := zzChoice("first", 2)
	cs := []*zzConn{bad, good}
	start := time.Now()
	for i := range cs {
		if cs[i^first] == good {
			start = time.Now()
		}
		p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(cs[i^first])})
		if i == 0 {
			zzSleep(zzPause("gap", time.Second))
		}
	}
	zzSleep(3*time.Second + time.Second/2)
	n := int(time.Since(start).Seconds())
	zzAssert(beats >= n && beats <= n+2, "a heartbeat is sent every interval, whatever another connection does")
	zzSleep(6*time.Second + zzLag)
	nb, ng := 0, 0
	for _, e := range r.stk.events {
		if e.Type == UStackEventHeartbeatLost {
			if e.Data == TransportConnection(bad) {
				nb++
			} else {
				ng++
			}
		}
	}
	zzAssert(nb == 1 && bad.closed, "silence is noticed also where sending takes forever")
	zzAssert(ng == 1 && good.closed, "silence is noticed")
	close(block)
	zzSleep(3 * time.Second)
	zzReach("stalled")
}

// ZZC16Closed: a connection that ended in time is not declared lost, also
// while another one goes on and is lost later.
func ZZC16Closed() {
	beat := zzBeat()
	timeout := 3 + zzChoice("timeout", zzParam("timeout"))
	interval := 1 + zzChoice("interval", 2)
	closeOn := zzChoice("close on lost", 2) == 1
	p := NewHeartbeat().SetOption("TimeoutInSecond", timeout).SetOption("IntervalInSecond", interval).SetOption("CloseOnLost", closeOn)
	r := zzNewRig(p, 64, 1)
	T, I := time.Duration(timeout)*time.Second, time.Duration(interval)*time.Second
	c, o := &zzConn{name: "peer"}, &zzConn{name: "peer"}
	ended := false
	lost := 0
	r.stk.hook = func(e Event) {
		if e.Type == UStackEventHeartbeatLost {
			zzAssert(e.Data == TransportConnection(o), "a connection that was closed in time is not declared lost")
			lost++
		}
	}
	r.bot.hook = func(x *zzRec) {
		zzAssert(x.conn != TransportConnection(c) || !ended, "no heartbeat after the connection has closed")
	}
	p.Run()
	p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(c)})
	if zzChoice("a heartbeat", 2) == 1 {
		zzSleep(zzPause("gap", T-1))
		r.up(c, beat)
	}
	zzSleep(zzPause("open", T-I-1))
	c.Close()
	ended = true
	if zzChoice("reported", 2) == 1 {
		p.OnEvent(Event{Type: UStackEventConnectionClosed, Data: TransportConnection(c)})
	}
	n := c.closes
	p.OnEvent(Event{Type: UStackEventNewConnection, Data: TransportConnection(o)})
	zzSleep(T - 1)
	zzAssert(lost == 0 && !o.closed, "no loss before the timeout")
	zzSleep(zzLag + 2)
	zzAssert(lost == 1 && o.closed == closeOn, "the silent connection is declared lost")
	zzSleep(T)
	zzAssert(c.closes == n, "a closed connection is not closed again")
	zzReach("done")
}
