package ustack

import (
	"time"

	"ustack/zznet"
)

// C25: messages between the endpoints of two complete stacks.

// zzCutWire makes a connection whose stream is cut anywhere: the first reads
// take any number of the bytes that are there, later ones all of them.
func zzCutWire(cuts int) (*zzWire, *zzWire) {
	a, b := zzNewWire()
	for _, w := range []*zzWire{a, b} {
		w := w
		var pend []byte
		left := cuts
		w.rd = func(p []byte) (int, error) {
			if len(pend) == 0 {
				x, ok := <-w.in
				if !ok {
					return 0, zzErr
				}
				pend = x
			}
			for len(w.in) > 0 {
				pend = append(append([]byte{}, pend...), <-w.in...)
			}
			n := len(pend)
			if n > len(p) {
				n = len(p)
			}
			if left > 0 && n > 1 {
				left--
				n = zzRange("cut", 1, n)
			}
			copy(p, pend[:n])
			pend = pend[n:]
			return n, nil
		}
	}
	return a, b
}

// zzShape is a choice of processors below the codec; the framing lies
// somewhere below the session handling.
func zzShape(n int) func(cd int) []DataProcessor {
	shape := zzChoice("shape", n)
	return func(cd int) []DataProcessor {
		ps := []DataProcessor{zzCodec(cd)}
		add := func(k ...int) {
			for _, x := range k {
				ps = append(ps, zzHeader(x))
			}
		}
		switch shape {
		case 0:
			add(zzPSession, zzPFrame)
		case 1:
			add(zzPSession, zzPHeart, zzPStat, zzPFrame)
		case 2:
			add(zzPStat, zzPSession, zzPHeart, zzPFrame)
		case 3:
			add(zzPHeart, zzPSession, zzPFrame)
		case 4:
			add(zzPSession, zzPFrame)
			ps = append(ps[:2], append([]DataProcessor{NewFlowController(), NewLoopback().SetEnable(false)}, ps[2:]...)...)
		case 5:
			ps = append(ps, NewFilter(func(Context, bool) bool { return false }))
			add(zzPSession, zzPStat, zzPFrame)
		}
		return ps
	}
}

// ZZC25Deliver: any messages in both directions between two endpoints on each
// side, the streams cut anywhere.
func ZZC25Deliver() {
	s := []int{0, 70000}
	mk := zzShape(zzParam("shapes"))
	cd := zzChoice("codec", zzParam("codecs"))
	w := make([]*zzWire, 2)
	w[0], w[1] = zzCutWire(zzParam("cuts"))
	var eps [2][]EndPoint
	for i := range w {
		for _, x := range s {
			eps[i] = append(eps[i], NewEndPoint("e", x))
		}
		u, t := zzStack(64, eps[i], mk(cd)...)
		u.Run()
		t.next <- w[i]
	}
	zzSettle()
	var want [2][2][]string
	var froms [2][2][]int
	for k := 0; k < zzParam("msgs"); k++ {
		i, j := 0, 0
		if k > 0 {
			// the first one without loss of generality
			i, j = zzChoice("side", 2), zzChoice("endpoint", 2)
		}
		tag := string([]byte{byte('0' + k)})
		n := 3
		if k+1 == zzParam("msgs") {
			n = zzRange("len", 0, zzParam("len"))
		}
		text := tag + zzStr("text", n)
		d := NewEndPointData().SetConnection(w[i]).SetData(zzMessage(cd, text))
		to := j
		if zzChoice("addressed", 2) == 1 {
			to = 1 - j
			d.SetDestinationSession(s[to])
		}
		eps[i][j].GetTxChannel() <- d
		if k+1 < zzParam("msgs") && zzChoice("wait", 2) == 1 {
			zzSettle()
		}
		want[1-i][to] = append(want[1-i][to], text)
		froms[1-i][to] = append(froms[1-i][to], j)
	}
	zzSettle()
	for i := range eps {
		for j, e := range eps[i] {
			got := zzRx(e)
			zzAssert(len(got) == len(want[i][j]), "every message arrives once at the addressed endpoint of the peer, and nowhere else")
			seen := map[byte]bool{}
			for _, d := range got {
				zzAssert(d.GetConnection() == w[i], "with its connection")
				t, ok := zzText(cd, d.GetData())
				zzAssert(ok, "as a message")
				zzAssert(len(t) > 0, "as a message")
				at := -1
				for n, x := range want[i][j] {
					if x[0] == t[0] && !seen[x[0]] {
						at = n
						seen[x[0]] = true
						break
					}
				}
				zzAssert(at >= 0, "each message once")
				zzSameStr(t, want[i][j][at], "message")
				zzReach("delivered")
				for n := 0; n < at; n++ {
					zzAssert(froms[i][j][n] != froms[i][j][at] || seen[want[i][j][n][0]], "messages of one endpoint arrive in order")
				}
			}
		}
	}
	zzReach("done")
}

// ZZC25Conns: a stack with two peers; replies go back to where the message
// came from, and a peer that goes away does not matter to the other.
func ZZC25Conns() {
	mk := zzShape(zzParam("shapes"))
	srv := NewEndPoint("srv", 1)
	u, t := zzStack(64, []EndPoint{srv}, mk(zzCBytes)...)
	u.Run()
	srv.SetDataListener(func(e EndPoint, d EndPointData) {
		b := append([]byte{0x55}, d.GetData().([]byte)...)
		e.GetTxChannel() <- NewEndPointData().SetConnection(d.GetConnection()).SetData(b)
	})
	n := zzParam("peers")
	var eps []EndPoint
	var ws, far []*zzWire
	for i := 0; i < n; i++ {
		x, y := zzCutWire(zzParam("cuts"))
		e := NewEndPoint("c", 1)
		cu, ct := zzStack(64, []EndPoint{e}, mk(zzCBytes)...)
		cu.Run()
		ct.next <- x
		t.next <- y
		eps, ws, far = append(eps, e), append(ws, x), append(far, y)
	}
	zzSettle()
	gone := -1
	for k := 0; k < zzParam("msgs"); k++ {
		i := zzChoice("peer", n)
		if k == 1 && zzChoice("close", 2) == 1 {
			// in the middle of a frame
			gone = i
			if zzChoice("partial", 2) == 1 {
				far[i].in <- []byte{0, 0, 0, 9, 1}
				zzSettle()
			}
			close(far[i].in)
			zzSettle()
			zzAssert(far[i].closed, "a connection that ended is closed")
			continue
		}
		if i == gone {
			continue
		}
		d := zzBytes("data", zzRange("len", 1, 20))
		eps[i].GetTxChannel() <- NewEndPointData().SetConnection(ws[i]).SetData(d)
		zzSettle()
		for j, e := range eps {
			got := zzRx(e)
			if j != i {
				zzAssert(len(got) == 0, "a reply goes to nobody else")
				continue
			}
			zzAssert(len(got) == 1, "a reply comes back")
			b, ok := got[0].GetData().([]byte)
			zzAssert(ok && len(b) == len(d)+1 && b[0] == 0x55, "the reply")
			zzSame("k", b[1:], d, "reply")
			zzReach("replied")
			if gone >= 0 {
				zzReach("replied after another peer is gone")
			}
		}
	}
	zzReach("done")
}

// ZZC25Again: a connection ends in the middle of a frame and a new one comes.
func ZZC25Again() {
	mk := zzShape(zzParam("shapes"))
	e := NewEndPoint("e", 7)
	u, t := zzStack(64, []EndPoint{e}, mk(zzCBytes)...)
	u.Run()
	f := NewEndPoint("f", 7)
	v, tv := zzStack(64, []EndPoint{f}, mk(zzCBytes)...)
	v.Run()
	for k := 0; k < zzParam("rounds"); k++ {
		x, y := zzNewWire()
		t.next <- x
		tv.next <- y
		zzSettle()
		d := zzBytes("data", zzRange("len", 1, 20))
		e.GetTxChannel() <- NewEndPointData().SetConnection(x).SetData(d)
		zzSettle()
		got := zzRx(f)
		zzAssert(len(got) == 1 && got[0].GetConnection() == TransportConnection(y), "a message on a new connection arrives")
		b, _ := got[0].GetData().([]byte)
		zzSame("k", b, d, "message")
		// part of a frame, then the end
		p := zzBytes("part", zzRange("partlen", 1, 8))
		zzAssume(p[0] == 0)
		y.in <- p
		zzSettle()
		zzRx(f)
		close(y.in)
		close(x.in)
		zzSettle()
		zzAssert(y.closed && x.closed, "a connection that ended is closed")
	}
	zzReach("again")
}

// ZZC25Con: both endpoints of both sides send at the same time.
func ZZC25Con() {
	cs := []int{1, 2}
	w := make([]*zzWire, 2)
	w[0], w[1] = zzNewWire()
	var eps [2][]EndPoint
	for i := range w {
		for _, x := range cs {
			eps[i] = append(eps[i], NewEndPoint("e", x))
		}
		u, t := zzStack(64, eps[i], NewBytesCodec(), NewSessionResolver(), NewStatCounter(), NewFrameDecoder())
		u.Run()
		t.next <- w[i]
	}
	zzSettle()
	n := zzParam("msgs")
	for i := range eps {
		for j := range eps[i] {
			if i == 1 && j == 1 {
				continue
			}
			for k := 0; k < n; k++ {
				eps[i][j].GetTxChannel() <- NewEndPointData().SetConnection(w[i]).SetData([]byte{byte(i), byte(j), byte(k)})
			}
		}
	}
	zzSettle()
	for i := range eps {
		for j := range eps[i] {
			got := zzRx(eps[i][j])
			if i == 0 && j == 1 {
				zzAssert(len(got) == 0, "nothing was sent to it")
				continue
			}
			zzAssert(len(got) == n, "every message arrives once")
			for k, d := range got {
				b, ok := d.GetData().([]byte)
				zzAssert(ok && len(b) == 3 && b[0] == byte(1-i) && b[1] == byte(j) && b[2] == byte(k), "in order, unchanged")
			}
		}
	}
	zzReach("done")
}

// ZZC25Many: many messages with any pauses, heartbeats in between.
func ZZC25Many() {
	w := make([]*zzWire, 2)
	w[0], w[1] = zzNewWire()
	var eps []EndPoint
	var got [2][]int
	for i := range w {
		i := i
		e := NewEndPoint("e", 3)
		e.SetDataListener(func(_ EndPoint, d EndPointData) {
			b := d.GetData().([]byte)
			got[i] = append(got[i], int(b[0])<<8|int(b[1]))
		})
		u, t := zzStack(64, []EndPoint{e}, NewBytesCodec(), NewSessionResolver(),
			NewStatCounter().SetOption("Collect.IntervalInSecond", 1), NewHeartbeat(), NewFrameDecoder())
		u.Run()
		t.next <- w[i]
		eps = append(eps, e)
	}
	n := zzParam("msgs")
	pause := zzRange("pause", 1, int(10*time.Second))
	for k := 0; k < n; k++ {
		for i, e := range eps {
			e.GetTxChannel() <- NewEndPointData().SetConnection(w[i]).SetData([]byte{byte(k >> 8), byte(k)})
		}
		if k%16 == 0 {
			zzSettle()
		}
		if k == n/2 {
			zzSleep(time.Duration(pause))
		}
	}
	zzSettle()
	for i := range got {
		zzAssert(len(got[i]) == n, "every message arrives once")
		for k, v := range got[i] {
			zzAssert(v == k, "in order")
		}
		zzAssert(!w[i].closed, "the connection stays open")
	}
	zzReach("many")
}

// ZZC25Backlog: more messages than fit in any queue, received late.
func ZZC25Backlog() {
	w := make([]*zzWire, 2)
	w[0], w[1] = zzNewWire()
	var eps []EndPoint
	for i := range w {
		e := NewEndPoint("e", 3)
		u, t := zzStack(64, []EndPoint{e}, NewBytesCodec(), NewSessionResolver(), NewFrameDecoder())
		u.Run()
		t.next <- w[i]
		eps = append(eps, e)
	}
	n := zzParam("msgs")
	zzGo(func() {
		for k := 0; k < n; k++ {
			eps[0].GetTxChannel() <- NewEndPointData().SetConnection(w[0]).SetData([]byte{byte(k >> 8), byte(k)})
		}
	})
	if zzChoice("late", 2) == 1 {
		zzSettle()
	}
	var got []int
	take := func(_ EndPoint, d EndPointData) {
		b := d.GetData().([]byte)
		got = append(got, int(b[0])<<8|int(b[1]))
	}
	zzGo(func() {
		for {
			take(eps[1], <-eps[1].GetRxChannel())
		}
	})
	zzSettle()
	zzAssert(len(got) == n, "every message arrives once")
	for k, v := range got {
		zzAssert(v == k, "in order")
	}
	zzReach("backlog")
}

// zzSmall is a user-defined endpoint with small queues.
type zzSmall struct {
	EndPoint
	rx, tx chan EndPointData
}

func (e *zzSmall) GetRxChannel() chan EndPointData { return e.rx }
func (e *zzSmall) GetTxChannel() chan EndPointData { return e.tx }

// ZZC25Full: endpoints whose queues are full most of the time.
func ZZC25Full() {
	w := make([]*zzWire, 2)
	w[0], w[1] = zzNewWire()
	size := zzChoice("queue", 2)
	var eps []EndPoint
	for i := range w {
		e := &zzSmall{NewEndPoint("e", 3), make(chan EndPointData, size), make(chan EndPointData, size)}
		u, t := zzStack(64, []EndPoint{e}, NewBytesCodec(), NewSessionResolver(), NewFrameDecoder())
		u.Run()
		t.next <- w[i]
		eps = append(eps, e)
	}
	n := zzParam("msgs")
	zzGo(func() {
		for k := 0; k < n; k++ {
			eps[0].GetTxChannel() <- NewEndPointData().SetConnection(w[0]).SetData([]byte{byte(k)})
		}
	})
	if zzChoice("late", 2) == 1 {
		zzSettle()
	}
	var got []int
	zzGo(func() {
		for {
			d := <-eps[1].GetRxChannel()
			got = append(got, int(d.GetData().([]byte)[0]))
		}
	})
	zzSettle()
	zzAssert(len(got) == n, "every message arrives once")
	for k, v := range got {
		zzAssert(v == k, "in order")
	}
	zzReach("full")
}

// ZZC25Sock: the same over the socket transports.
func ZZC25Sock() {
	zznet.Reset()
	zznet.DialHook = func(n int) *zznet.FakeConn { return zznet.NewFakeConn("server") }
	mk := zzShape(1)
	var eps []EndPoint
	var us []UStack
	var conns [2]TransportConnection
	kind := zzChoice("transport", 2)
	for i := 0; i < 2; i++ {
		i := i
		var t Transport
		if kind == 0 {
			t = NewTCPTransport("t")
		} else {
			t = NewUDSTransport("t")
		}
		t.ForServer(i == 0).SetAddress("addr")
		e := NewEndPoint("e", 9)
		u := NewUStack().SetOption("MTU", 64).AddEndPoint(e).AddTransport(t)
		for _, p := range mk(zzCBytes) {
			u.AppendDataProcessor(p)
		}
		u.SetEventListener(func(ev Event) {
			if ev.Type == UStackEventNewConnection {
				conns[i] = ev.Data.(TransportConnection)
			}
		})
		eps, us = append(eps, e), append(us, u)
	}
	us[0].Run()
	zzSettle()
	us[1].Run()
	zzSettle()
	zzAssert(len(zznet.Dialed) == 1, "the client has dialed")
	near := zznet.Dialed[0]
	far := zznet.NewFakeConn("client")
	zznet.Listeners[0].Push(far)
	zzSettle()
	zzAssert(conns[0] != nil && conns[1] != nil, "the connection is announced on both sides")
	fs := []*zznet.FakeConn{far, near}
	for k := 0; k < zzParam("msgs"); k++ {
		i := zzChoice("side", 2)
		d := zzBytes("data", zzRange("len", 1, 20))
		at := len(fs[i].Written)
		eps[i].GetTxChannel() <- NewEndPointData().SetConnection(conns[i]).SetData(d)
		zzSettle()
		out := append([]byte{}, fs[i].Written[at:]...)
		zzAssert(len(out) > len(d), "the message is on the socket")
		cut := zzRange("cut", 1, len(out)-1)
		fs[1-i].In <- out[:cut]
		zzSettle()
		zzAssert(len(zzRx(eps[1-i])) == 0, "nothing from half a message")
		fs[1-i].In <- out[cut:]
		zzSettle()
		got := zzRx(eps[1-i])
		zzAssert(len(got) == 1 && got[0].GetConnection() == conns[1-i], "the message arrives")
		b, _ := got[0].GetData().([]byte)
		zzSame("k", b, d, "message")
		zzReach("over a socket")
	}
	us[0].DeleteTransport(us[0].GetTransport()[0])
	us[1].DeleteTransport(us[1].GetTransport()[0])
	zzSettle()
	zzAssert(conns[0].Closed() && conns[1].Closed() && far.CloseN > 0 && near.CloseN > 0, "deleting the transports closes the connections")
	zzReach("done")
}

// ZZC25Pause: any pauses, also in the middle of a message.
func ZZC25Pause() {
	stat := zzChoice("statistics", 2) == 1
	mk := func(cd int) []DataProcessor {
		ps := []DataProcessor{zzCodec(cd), NewSessionResolver()}
		if stat {
			ps = append(ps, NewStatCounter())
		}
		return append(ps, NewFrameDecoder())
	}
	var in, out [2]chan []byte
	for i := range in {
		in[i], out[i] = make(chan []byte, 64), make(chan []byte, 64)
	}
	w := []*zzWire{zzWireEnd("a", in[0], out[0]), zzWireEnd("b", in[1], out[1])}
	var eps []EndPoint
	for i := range w {
		e := NewEndPoint("e", 5)
		u, t := zzStack(64, []EndPoint{e}, mk(zzCBytes)...)
		u.Run()
		t.next <- w[i]
		eps = append(eps, e)
	}
	zzSettle()
	// what one side writes, the other reads
	flow := func(from int, cut int) {
		for len(out[from]) > 0 {
			b := <-out[from]
			if cut > 0 && cut < len(b) {
				in[1-from] <- b[:cut]
				zzSettle()
				zzSleep(time.Duration(zzRange("pause", 1, int(20*24*time.Hour))))
				b = b[cut:]
				zzReach("paused")
			}
			in[1-from] <- b
			zzSettle()
		}
	}
	flow(0, 0)
	flow(1, 0)
	for k := 0; k < zzParam("msgs"); k++ {
		side := zzChoice("side", 2)
		text := zzBytes("data", 3)
		eps[side].GetTxChannel() <- NewEndPointData().SetConnection(w[side]).SetData(text)
		zzSettle()
		flow(side, []int{0, 1, 5, 9}[zzChoice("cut", 4)])
		got := zzRx(eps[1-side])
		zzAssert(len(got) == 1, "the message arrives once")
		b, ok := got[0].GetData().([]byte)
		zzAssert(ok && got[0].GetConnection() == TransportConnection(w[1-side]), "with its connection")
		zzSame("k", b, text, "message")
		if zzChoice("pause after", 2) == 1 {
			zzSleep(time.Duration(zzRange("pause", 1, int(20*24*time.Hour))))
			zzSettle()
		}
	}
	zzReach("done")
}
