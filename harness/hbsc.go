package ustack

import "time"

// C13 control messages vs. data, C14 counters, C16 heartbeat loss.

const (
	zzKHeart = iota
	zzKStat
)

func zzControl1(k int) DataProcessor {
	if k == zzKHeart {
		return NewHeartbeat()
	}
	return NewStatCounter()
}

// ZZC13Data: any data is handed up by the peer and never taken for control.
func ZZC13Data() {
	k := zzChoice("proc", 2)
	ps := zzControl1(k).SetEnable(zzChoice("senderOn", 2) == 0)
	pr := zzControl1(k).SetEnable(zzChoice("receiverOn", 2) == 0)
	ovh := ps.GetOverhead()
	mtu := zzParam("mtu")
	snd, rcv := zzNewRig(ps, mtu, ovh), zzNewRig(pr, mtu, ovh)
	cs, cr := &zzConn{name: "s"}, &zzConn{name: "r"}
	for i := 0; i < zzParam("msgs"); i++ {
		data := zzBytes("data", zzRange("len", 1, mtu-ovh))
		snd.down(cs, data)
		zzAssert(len(snd.bot.recs) == i+1, "data is sent once")
		zzAssert(len(snd.top.recs) == 0, "sent data is not handed up")
		zzAssert(snd.bot.recs[i].conn == cs, "on its connection")
		rcv.up(cr, snd.bot.recs[i].data)
		zzAssert(len(rcv.top.recs) == i+1, "data is handed up once, whatever it contains")
		zzAssert(len(rcv.bot.recs) == 0, "data is never answered as a control message")
		zzAssert(rcv.top.recs[i].conn == cr, "with its connection")
		zzSame("k", rcv.top.recs[i].data, data, "data")
		zzReach("handed up")
	}
}

// ZZC13Ref: on by-reference connections everything passes untouched.
func ZZC13Ref() {
	var p DataProcessor
	switch zzChoice("proc", 4) {
	case 0:
		p = NewHeartbeat()
	case 1:
		p = NewStatCounter()
	case 2:
		p = NewFrameDecoder()
	default:
		p = NewLoadBalancer()
	}
	p.SetEnable(zzChoice("on", 2) == 0)
	r := zzNewRig(p, 64, 4)
	c := &zzConn{name: "c", ref: true}
	var msg interface{} = &ZMsg{"x"}
	if zzChoice("bytes", 2) == 0 {
		msg = zzBytes("data", zzRange("len", 0, 40))
	}
	ctx := NewUStackContext().SetConnection(c).SetMessage(msg)
	var body []byte
	if zzChoice("buffer", 2) == 1 {
		// something above also left a buffer in the context
		body = zzBytes("body", zzRange("blen", 0, 12))
		ub := UBufAllocWithHeadReserved(64, 4)
		ub.Write(body)
		ctx.SetBuffer(ub)
	}
	var rec []*zzRec
	if zzChoice("dir", 2) == 0 {
		p.OnUpperData(ctx)
		zzAssert(len(r.bot.recs) == 1 && len(r.top.recs) == 0, "a by-reference message is passed down once")
		rec = r.bot.recs
	} else {
		p.OnLowerData(ctx)
		zzAssert(len(r.top.recs) == 1 && len(r.bot.recs) == 0, "a by-reference message is handed up once")
		rec = r.top.recs
	}
	zzAssert(rec[0].conn == c, "with its connection")
	zzAssert(zzIs(rec[0].ctx.GetMessage(), msg), "the same message")
	if body != nil {
		zzSame("k", rec[0].data, body, "a buffer that comes with a by-reference message is not touched")
	}
	zzReach("passed")
}

// ZZC13Ctl: the control messages a processor sends by itself.
func ZZC13Ctl() {
	k := zzChoice("proc", 2)
	on := zzChoice("on", 2) == 0
	ps := zzControl1(k).SetEnable(on)
	interval := 1 + zzChoice("interval", 2)
	if k == zzKHeart {
		ps.SetOption("IntervalInSecond", interval)
	} else {
		ps.SetOption("Collect.IntervalInSecond", interval)
	}
	ovh := 1 + zzRange("ovh", 0, 20)
	mtu := ovh + 40
	snd := zzNewRig(ps, mtu, ovh)
	ref := zzChoice("ref", 2) == 1
	cs, cr := &zzConn{name: "s", ref: ref}, &zzConn{name: "r"}
	ps.Run()
	ps.OnEvent(Event{Type: UStackEventNewConnection, Data: cs})
	zzSleep(time.Second*3 + time.Second/2)
	cs.Close()
	zzSleep(time.Second * 3)
	zzAssert(len(snd.top.recs) == 0, "nothing is handed up when control messages are sent")
	if ref {
		zzAssert(len(snd.bot.recs) == 0, "no control message on a by-reference connection")
		zzAssert(len(snd.stk.events) == 0, "a by-reference connection is not declared lost")
		zzReach("by reference")
		return
	}
	if len(snd.bot.recs) == 0 {
		return
	}
	// the sender works at the same time: data does not disturb control messages
	pr := zzControl1(k).SetEnable(zzChoice("peerOn", 2) == 0)
	rcv := zzNewRig(pr, mtu, ovh)
	rcv.stk.name = []string{"", "n", "a very long name, much longer than all"}[zzChoice("name", 3)]
	n := 0
	for _, r := range snd.bot.recs {
		zzAssert(r.conn == cs, "control messages go to the connection")
		zzAssert(len(r.data) > 0, "control messages are complete")
		zzAssert(r.ub.HeadWritableLength() >= ovh-1, "control messages leave room for the headers below")
		rcv.up(cr, r.data)
		zzAssert(len(rcv.top.recs) == 0, "control messages are never handed up")
		for _, a := range rcv.bot.recs[n:] {
			n++
			zzAssert(a.conn == cr, "the answer goes back on the same connection")
			snd.up(cs, a.data)
			zzAssert(len(snd.top.recs) == 0, "answers are never handed up")
			zzReach("answered")
		}
	}
	zzAssert(len(snd.bot.recs) > 0, "control messages are sent")
	zzReach("control")
}

// ZZC13Mix: control messages and data through two whole stacks.
func ZZC13Mix() {
	order := zzChoice("order", 2)
	mk := func() []DataProcessor {
		hb := NewHeartbeat()
		sc := NewStatCounter().SetOption("Collect.IntervalInSecond", 1)
		ps := []DataProcessor{NewBytesCodec()}
		if order == 0 {
			ps = append(ps, hb, sc)
		} else {
			ps = append(ps, sc, hb)
		}
		return append(ps, NewFrameDecoder())
	}
	ea, eb := NewEndPoint("a", 0), NewEndPoint("b", 0)
	wa, wb := zzNewWire()
	a, ta := zzStack(128, []EndPoint{ea}, mk()...)
	b, tb := zzStack(128, []EndPoint{eb}, mk()...)
	a.Run()
	b.Run()
	ta.next <- wa
	tb.next <- wb
	for i := 0; i < zzParam("rounds"); i++ {
		zzSleep(time.Second + time.Second/3)
		text := zzStr("text", zzRange("len", 1, 20))
		from, to, w, wr := ea, eb, wa, wb
		if zzChoice("dir", 2) == 1 {
			from, to, w, wr = eb, ea, wb, wa
		}
		from.GetTxChannel() <- NewEndPointData().SetConnection(w).SetData([]byte(text))
		zzSleep(time.Second / 3)
		zzAssert(len(zzRx(from)) == 0, "the sender gets nothing")
		got := zzRx(to)
		zzAssert(len(got) == 1, "the application gets its data and no control message")
		s, ok := zzText(zzCBytes, got[0].GetData())
		zzAssert(ok, "as bytes")
		zzSameStr(s, text, "data")
		zzAssert(got[0].GetConnection() == wr, "with its connection")
	}
	zzAssert(len(wa.sent) > zzParam("rounds")*2, "control messages are sent meanwhile")
	zzAssert(!wa.closed && !wb.closed, "the connection stays open")
	zzReach("mixed")
}

// zzStatResp delivers a request to the processor under test and checks the
// response it sends.
func zzStatResp(r *zzRig, req []byte, c *zzConn, tx, rx int, name string) {
	k := len(r.bot.recs)
	t := len(r.top.recs)
	r.up(c, req)
	zzAssert(len(r.top.recs) == t, "a request is not handed up")
	zzAssert(len(r.bot.recs) == k+1, "a request is answered once")
	a := r.bot.recs[k]
	zzAssert(a.conn == c, "on the connection it came from")
	zzAssert(len(a.data) == 17+len(name), "the response has the documented length")
	v := func(at int) uint64 {
		var x uint64
		for i := 0; i < 8; i++ {
			x = x<<8 | uint64(a.data[at+i])
		}
		return x
	}
	zzAssert(v(1) == uint64(tx), "the response carries the number of messages sent")
	zzAssert(v(9) == uint64(rx), "the response carries the number of messages received")
	zzSameStr(string(a.data[17:]), name, "the response carries the stack's name")
}

// zzStatReq is a real request, as the peer sends it.
func zzStatReq(mtu int) []byte {
	p := NewStatCounter().SetOption("Collect.IntervalInSecond", 5)
	r := zzNewRig(p, mtu, 1)
	c := &zzConn{name: "q"}
	p.Run()
	p.OnEvent(Event{Type: UStackEventNewConnection, Data: c})
	zzSettle()
	c.Close()
	zzAssert(len(r.bot.recs) == 1, "a request is sent")
	return r.bot.recs[0].data
}

// ZZC14Hist: any history of sends, receives, requests, responses and switches.
func ZZC14Hist() {
	mtu := 1024
	req := zzStatReq(mtu)
	p := NewStatCounter()
	r := zzNewRig(p, mtu, 1)
	r.stk.name = zzStr("name", zzRange("namelen", 0, mtu-1-16))
	peer := zzNewRig(NewStatCounter(), mtu, 1)
	cs := []*zzConn{{name: "peer"}, {name: "peer"}}
	on := true
	tx, rx := 0, 0
	for i := 0; i < zzParam("ops"); i++ {
		c := cs[i%2]
		switch zzChoice("op", 5) {
		case 0:
			k := len(r.bot.recs)
			r.down(c, zzBytes("data", zzRange("len", 0, 20)))
			zzAssert(len(r.bot.recs) == k+1, "data is sent once")
			if on {
				tx++
			}
		case 1:
			k := len(peer.bot.recs)
			peer.down(c, zzBytes("data", zzRange("len", 0, 20)))
			t := len(r.top.recs)
			r.up(c, peer.bot.recs[k].data)
			zzAssert(len(r.top.recs) == t+1, "data is handed up once")
			if on {
				rx++
			}
		case 2:
			c = cs[zzChoice("conn", 2)]
			if on {
				zzStatResp(r, req, c, tx, rx, r.stk.name)
				zzReach("asked")
			} else {
				t := len(r.top.recs)
				r.up(c, req)
				zzAssert(len(r.top.recs) == t, "a request is not handed up")
			}
		case 3:
			on = !on
			p.SetEnable(on)
		case 4:
			k := len(peer.bot.recs)
			peer.up(c, req)
			zzAssert(len(peer.bot.recs) == k+1, "a request is answered once")
			t, b := len(r.top.recs), len(r.bot.recs)
			r.up(c, peer.bot.recs[k].data)
			zzAssert(len(r.top.recs) == t && len(r.bot.recs) == b, "a response is neither handed up nor answered")
		}
	}
	if !on {
		p.SetEnable(true)
	}
	zzStatResp(r, req, cs[0], tx, rx, r.stk.name)
	zzReach("final")
}

// ZZC14Con: several goroutines send and receive at the same time.
func ZZC14Con() {
	mtu := 64
	req := zzStatReq(mtu)
	p := NewStatCounter()
	r := zzNewRig(p, mtu, 1)
	peer := zzNewRig(NewStatCounter(), mtu, 1)
	c := &zzConn{name: "c"}
	peer.down(c, []byte("x"))
	in := peer.bot.recs[0].data
	tx, rx := zzParam("tx"), zzParam("rx")
	done := make(chan int, 8)
	for i := 0; i < tx; i++ {
		zzGo(func() {
			r.down(c, []byte("y"))
			done <- 1
		})
	}
	for i := 0; i < rx; i++ {
		zzGo(func() {
			r.up(c, in)
			done <- 1
		})
	}
	for i := 0; i < tx+rx; i++ {
		<-done
	}
	zzStatResp(r, req, c, tx, rx, "stk")
	zzReach("counted")
}

// ZZC14Held: messages are sent, received and asked for while one is stuck
// below, one is stuck above, or one comes back at once.
func ZZC14Held() {
	mtu := 64
	req := zzStatReq(mtu)
	p := NewStatCounter()
	r := zzNewRig(p, mtu, 1)
	r.stk.name = "n"
	c := &zzConn{name: "c"}
	block := make(chan bool)
	how := zzChoice("how", 3)
	held := false
	r.bot.hook = func(x *zzRec) {
		if len(x.data) > 1 && x.data[1] == 77 && !held {
			held = true
			switch how {
			case 0:
				<-block
			case 1:
				r.up(c, x.data)
			}
		}
	}
	r.top.hook = func(x *zzRec) {
		if how == 2 && len(x.data) > 0 && x.data[0] == 77 && !held {
			held = true
			<-block
		}
	}
	tx, rx := 0, 0
	zzGo(func() {
		if how == 2 {
			r.up(c, []byte{0, 77, 1})
			rx++
		} else {
			r.down(c, []byte{77, 1})
			tx++
			if how == 1 {
				rx++
			}
		}
	})
	zzSettle()
	end := make(chan bool, 3)
	zzGo(func() {
		r.down(c, zzBytes("data", zzRange("len", 0, 20)))
		tx++
		end <- true
	})
	zzGo(func() {
		r.up(c, append([]byte{0}, zzBytes("data", zzRange("len", 0, 20))...))
		rx++
		end <- true
	})
	zzGo(func() {
		r.up(c, req)
		end <- true
	})
	<-end
	<-end
	<-end
	zzReach("not disturbed")
	close(block)
	zzSettle()
	zzAssert(tx+rx == 3 || how == 1 && tx+rx == 4, "everything is finished")
	zzStatResp(r, req, c, tx, rx, "n")
	zzReach("done")
}
