package ustack

import "time"

// C20: the by-reference transport.

func zzRefPair(address string) (Transport, Transport) {
	return NewReferenceTransport("s").ForServer(true).SetAddress(address), NewReferenceTransport("c").ForServer(false).SetAddress(address)
}

// ZZC20Queue: two pairs on different addresses; any sends and receives.
func ZZC20Queue() {
	a := zzStr("address", zzRange("len", 0, 3))
	b := zzStr("other address", zzRange("len", 0, 3))
	zzAssume(a != b)
	s1, c1 := zzRefPair(a)
	s2, c2 := zzRefPair(b)
	ts := []Transport{s1, c1, s2, c2}
	first := zzChoice("first", 2)
	var cs []TransportConnection
	for i := range ts {
		t := ts[i^first]
		t.Run()
		zzAssert(t.Run() == t, "running again does nothing")
	}
	for _, t := range ts {
		c := t.NextConnection()
		zzAssert(c != nil && !c.Closed(), "a running transport has a connection")
		zzAssert(c.UseReference(), "by reference")
		cs = append(cs, c)
	}
	var q [4][]interface{} // sent by side i and not received
	kinds := zzChoice("kinds of messages", 4)
	for k := 0; k < zzParam("ops"); k++ {
		i := zzChoice("side", 4)
		zzAssert(cs[i].SetReference(nil) != nil, "sending nothing is refused")
		switch zzChoice("op", 2) {
		case 0:
			var m interface{} = &ZMsg{"m"}
			if k%2 == 1 {
				switch (2*kinds + k/2) % 7 {
				case 0:
					m = zzInt("value")
				case 1:
					m = zzStr("text", zzRange("textlen", 0, 2))
				case 2:
					m = (*ZMsg)(nil)
				case 3:
					m = zzBool("flag")
				case 4:
					m = zzBytes("bytes", zzRange("byteslen", 0, 4))
				case 5:
					ub := UBufAlloc(8)
					ub.WriteByte(1)
					m = ub
				case 6:
					m = map[int]int{1: 1}
				}
			}
			zzAssert(cs[i].SetReference(m) == nil, "a message is accepted")
			q[i] = append(q[i], m)
			zzReach("sent")
		case 1:
			if len(q[i^1]) == 0 {
				continue
			}
			m, err := cs[i].GetReference()
			zzAssert(err == nil && zzIs(m, q[i^1][0]), "the peer receives the same objects in order")
			q[i^1] = q[i^1][1:]
			zzReach("received")
		}
	}
	// everything sent arrives
	for i := range cs {
		for len(q[i^1]) > 0 {
			m, err := cs[i].GetReference()
			zzAssert(err == nil && zzIs(m, q[i^1][0]), "everything sent is received by the peer, in order")
			q[i^1] = q[i^1][1:]
		}
	}
	zzReach("done")
}

// zzRefModel is what the two transports of an address should do.
type zzRefSide struct {
	t       Transport
	ran     bool
	running bool
	avail   bool
	conn    TransportConnection
	closed  bool
}

// ZZC20Life: any sequence of run, stop, close, send and receive.
func ZZC20Life() {
	s, c := zzRefPair(zzStr("address", 2))
	sides := []*zzRefSide{{t: s}, {t: c}}
	var q [2][]interface{}
	var old []TransportConnection
	if zzChoice("started", 2) == 1 {
		for _, x := range sides {
			x.t.Run()
			x.ran, x.running = true, true
			x.conn = x.t.NextConnection()
			zzAssert(x.conn != nil, "a running transport has a connection")
		}
	}
	for k := 0; k < zzParam("ops"); k++ {
		i := zzChoice("side", 2)
		x := sides[i]
		switch zzChoice("op", 6) {
		case 0:
			zzAssert(x.t.Run() == x.t, "run returns the transport")
			if !x.running {
				x.ran, x.running, x.avail = true, true, true
				if x.conn != nil {
					old = append(old, x.conn)
				}
				x.conn, x.closed = nil, false
			}
		case 1:
			zzAssert(x.t.Stop() == x.t, "stop returns the transport")
			if x.running {
				x.running, x.avail, x.closed = false, false, true
				if !sides[1-i].running {
					q = [2][]interface{}{}
					zzReach("fresh")
				}
			}
		case 2:
			if x.running && x.avail {
				n := x.t.NextConnection()
				zzAssert(n != nil && !n.Closed(), "a running transport has a connection")
				for _, o := range old {
					zzAssert(n != o, "a new one")
				}
				x.conn, x.avail = n, false
			} else if x.ran && !x.running {
				zzAssert(x.t.NextConnection() == nil, "a stopped transport has no connection")
				zzReach("none")
			}
		case 3:
			if x.conn == nil {
				continue
			}
			m := &ZMsg{"m"}
			err := x.conn.SetReference(m)
			zzAssert((err != nil) == x.closed, "sending is refused exactly if the connection is closed")
			if err == nil {
				q[i] = append(q[i], m)
			} else {
				zzReach("refused")
			}
		case 4:
			if x.conn == nil {
				continue
			}
			if x.closed {
				m, err := x.conn.GetReference()
				zzAssert(m == nil && err != nil, "receiving is refused if the connection is closed")
			} else if len(q[1-i]) > 0 {
				m, err := x.conn.GetReference()
				zzAssert(err == nil && m == q[1-i][0], "the peer receives the same objects in order")
				q[1-i] = q[1-i][1:]
				zzReach("received")
			}
		case 5:
			if x.conn == nil {
				continue
			}
			x.conn.Close()
			x.closed = true
		}
		for _, y := range sides {
			if y.conn != nil {
				zzAssert(y.conn.Closed() == y.closed, "a connection is closed exactly if it was closed or its transport stopped")
			}
		}
		for _, o := range old {
			zzAssert(o.Closed(), "a connection of a stopped transport stays closed")
		}
	}
	zzReach("done")
}

// ZZC20Stop: stopping at any moment, with waiting senders and receivers.
func ZZC20Stop() {
	s, c := zzRefPair("a")
	s.SetOption("MaxQueueSize", 1)
	c.SetOption("MaxQueueSize", 1)
	s.Run()
	c.Run()
	sc, cc := s.NextConnection(), c.NextConnection()
	end := make(chan bool, 4)
	var sent, got []interface{}
	n := zzParam("msgs")
	zzGo(func() {
		for i := 0; i < n; i++ {
			m := &ZMsg{"m"}
			sent = append(sent, m)
			if sc.SetReference(m) != nil {
				zzReach("send refused")
				break
			}
		}
		end <- true
	})
	zzGo(func() {
		for {
			m, err := cc.GetReference()
			if err != nil || m == nil {
				break
			}
			got = append(got, m)
			zzReach("received")
		}
		end <- true
	})
	next := make(chan TransportConnection, 2)
	zzGo(func() { next <- s.NextConnection() })
	switch zzChoice("order", 3) {
	case 0:
		s.Stop()
		c.Stop()
	case 1:
		c.Stop()
		s.Stop()
	case 2:
		zzGo(func() {
			s.Stop()
			end <- true
		})
		c.Stop()
		<-end
	}
	<-end
	<-end
	zzAssert(<-next == nil, "a waiting request for the next connection ends with none")
	zzAssert(sc.Closed() && cc.Closed(), "stopping closes the connection")
	zzAssert(len(got) <= len(sent), "nothing is made up")
	for i := range got {
		zzAssert(got[i] == sent[i], "received in order")
	}
	// the address can be used afresh
	s, c = zzRefPair("a")
	s.Run()
	c.Run()
	sc, cc = s.NextConnection(), c.NextConnection()
	zzAssert(sc.SetReference("x") == nil, "a message is accepted")
	m, err := cc.GetReference()
	zzAssert(err == nil && m == "x", "the address can be used afresh")
	zzReach("done")
}

// ZZC20Stack: two stacks over the transport.
func ZZC20Stack() {
	st, ct := zzRefPair("a")
	se, ce := NewEndPoint("s", 0), NewEndPoint("c", 0)
	var conns [2]TransportConnection
	var closed [2]int
	mk := func(i int, e EndPoint, t Transport) UStack {
		u := NewUStack().AddEndPoint(e).AddTransport(t)
		u.SetEventListener(func(ev Event) {
			if ev.Type == UStackEventNewConnection {
				conns[i] = ev.Data.(TransportConnection)
			} else if ev.Type == UStackEventConnectionClosed {
				zzAssert(ev.Data == interface{}(conns[i]), "the closed connection is reported")
				closed[i]++
			}
		})
		return u.Run()
	}
	us, uc := mk(0, se, st), mk(1, ce, ct)
	zzSettle()
	zzAssert(conns[0] != nil && conns[1] != nil, "the connection is announced on both sides")
	eps := []EndPoint{se, ce}
	for k := 0; k < zzParam("msgs"); k++ {
		i := zzChoice("side", 2)
		m := &ZMsg{"m"}
		eps[i].GetTxChannel() <- NewEndPointData().SetConnection(conns[i]).SetData(m)
		zzSettle()
		zzAssert(len(zzRx(eps[i])) == 0, "the sender does not get its own message")
		got := zzRx(eps[1-i])
		zzAssert(len(got) == 1 && got[0].GetData() == interface{}(m), "the peer's endpoint gets the same object")
		zzAssert(got[0].GetConnection() == conns[1-i], "with its connection")
	}
	us.DeleteTransport(st)
	uc.DeleteTransport(ct)
	zzSettle()
	zzAssert(conns[0].Closed() && conns[1].Closed(), "deleting the transports closes the connections")
	zzAssert(closed[0] == 1 && closed[1] == 1, "and that is reported")
	zzReach("done")
}

// ZZC20Slow: the receiver takes its time; the sender waits, nothing is lost.
func ZZC20Slow() {
	s, c := zzRefPair("a")
	size := 1 + zzChoice("size", 3)
	s.SetOption("MaxQueueSize", size)
	c.SetOption("MaxQueueSize", size)
	s.Run()
	c.Run()
	tx, rx := s.NextConnection(), c.NextConnection()
	if zzChoice("dir", 2) == 1 {
		tx, rx = rx, tx
	}
	n := size + 1 + zzChoice("more", zzParam("more"))
	var sent []interface{}
	end := make(chan bool, 1)
	zzGo(func() {
		for i := 0; i < n; i++ {
			m := &ZMsg{"m"}
			sent = append(sent, m)
			zzAssert(tx.SetReference(m) == nil, "a message is accepted, if only after a while")
		}
		end <- true
	})
	for i := 0; i < n; i++ {
		zzSleep(time.Duration(zzRange("pause", 1, int(30*24*time.Hour))))
		m, err := rx.GetReference()
		zzAssert(err == nil && m == sent[i], "received in order, however long it took")
	}
	<-end
	zzReach("all received")
	// and a receiver waits as long as it takes
	m := &ZMsg{"m"}
	zzGo(func() {
		zzSleep(time.Duration(zzRange("pause", 1, int(30*24*time.Hour))))
		zzAssert(tx.SetReference(m) == nil, "accepted")
	})
	x, err := rx.GetReference()
	zzAssert(err == nil && x == interface{}(m), "received, however long it took")
	zzReach("waited")
}

// ZZC20Pairs: many pairs at the same time.
func ZZC20Pairs() {
	n := zzParam("pairs")
	var tx, rx []TransportConnection
	for i := 0; i < n; i++ {
		a := string([]byte{byte('a' + i%26), byte('0' + i/26)})
		s, c := zzRefPair(a)
		s.Run()
		c.Run()
		tx, rx = append(tx, s.NextConnection()), append(rx, c.NextConnection())
	}
	for i := range tx {
		zzAssert(tx[i].SetReference(i) == nil && rx[i].SetReference(-i) == nil, "accepted")
	}
	for i := range tx {
		a, err := rx[i].GetReference()
		zzAssert(err == nil && a == i, "each pair gets its own messages")
		b, err := tx[i].GetReference()
		zzAssert(err == nil && b == -i, "each pair gets its own messages")
	}
	zzReach("pairs")
}

// ZZC20Burst: as many messages as the queue is said to hold, without a receiver.
func ZZC20Burst() {
	s, c := zzRefPair("a")
	n := []int{3, 100, 512}[zzChoice("size", 3)]
	if n != 512 || zzChoice("explicit", 2) == 1 {
		s.SetOption("MaxQueueSize", n)
		c.SetOption("MaxQueueSize", n)
	}
	s.Run()
	c.Run()
	tx, rx := s.NextConnection(), c.NextConnection()
	if zzChoice("dir", 2) == 1 {
		tx, rx = rx, tx
	}
	for i := 0; i < n; i++ {
		zzAssert(tx.SetReference(i) == nil, "accepted")
	}
	for i := 0; i < n; i++ {
		m, err := rx.GetReference()
		zzAssert(err == nil && m == i, "received in order")
	}
	zzReach("burst")
}

// ZZC20Move: the address of a transport is changed while it runs (it matters
// for the next run); after it has stopped both addresses are as good as new.
func ZZC20Move() {
	v := zzInt("value")
	s, c := zzRefPair("old")
	s2, c2 := zzRefPair("new")
	other := zzChoice("a pair on the new address", 2) == 1
	ts := []Transport{s, c}
	if other {
		ts = append(ts, s2, c2)
	}
	var cs []TransportConnection
	for _, t := range ts {
		t.Run()
		cs = append(cs, t.NextConnection())
	}
	for i, x := range cs {
		zzAssert(x.SetReference(v+10+i) == nil, "a message is accepted")
	}
	for i, t := range ts[:2] {
		if zzChoice("moved", 2) == 1 {
			zzAssert(t.SetAddress("new") == t && t.GetAddress() == "new", "the new address is told")
			zzReach("moved")
		}
		if zzChoice("used after that", 2) == 1 {
			zzAssert(cs[i].SetReference(v+20+i) == nil, "the connection works as before")
		}
	}
	first := zzChoice("first to stop", 2)
	ts[first].Stop()
	ts[1-first].Stop()
	zzAssert(cs[0].Closed() && cs[1].Closed(), "stopped: closed")
	// the old address is fresh
	s3, c3 := zzRefPair("old")
	s3.Run()
	c3.Run()
	x3, y3 := s3.NextConnection(), c3.NextConnection()
	zzAssert(x3.SetReference(v+30) == nil && y3.SetReference(v+31) == nil, "a message is accepted")
	m, err := y3.GetReference()
	zzAssert(err == nil && zzIs(m, v+30), "nothing is left of an earlier use of the address")
	m, err = x3.GetReference()
	zzAssert(err == nil && zzIs(m, v+31), "nothing is left of an earlier use of the address")
	// the other pair is not affected, and not mixed with a later one
	if other {
		for k := 0; k < 2; k++ {
			m, err = cs[3-k].GetReference()
			zzAssert(err == nil && zzIs(m, v+12+k), "another pair goes on")
		}
		zzAssert(cs[2].SetReference(v+40) == nil, "a message is accepted")
		s2.Stop()
		// half of the pair is renewed: the queue is still that of the pair
		s4 := NewReferenceTransport("s").ForServer(true).SetAddress("new")
		s4.Run()
		x4 := s4.NextConnection()
		zzAssert(x4.SetReference(v+41) == nil, "a message is accepted")
		m, err = cs[3].GetReference()
		zzAssert(err == nil && zzIs(m, v+40), "the client of the address gets it")
		m, err = cs[3].GetReference()
		zzAssert(err == nil && zzIs(m, v+41), "the client of the address gets it")
		zzReach("other")
	}
	zzReach("done")
}

// ZZC20Config: roles and addresses differ from run to run; nothing of an
// earlier run is left.
func ZZC20Config() {
	a, b := NewReferenceTransport("a"), NewReferenceTransport("b")
	v := zzInt("value")
	addrs := []string{"one", "two"}
	queue := [][]int{{2, 2}, {2, 600}, {600, 2}}[zzChoice("queues", 3)]
	for r := 0; r < zzParam("runs"); r++ {
		server := zzChoice("server", 2) == 1
		addr := addrs[zzChoice("address", 2)]
		if r > 0 && zzChoice("new peer", 2) == 1 {
			b = NewReferenceTransport("b")
		}
		a.ForServer(server).SetAddress(addr)
		b.ForServer(!server).SetAddress(addr)
		ts := []Transport{a, b}
		for i, t := range ts {
			t.SetOption("MaxQueueSize", queue[i])
		}
		first := zzChoice("first", 2)
		ts[first].Run()
		ts[1-first].Run()
		x, y := a.NextConnection(), b.NextConnection()
		zzAssert(x != nil && y != nil && x != y, "running transports have their connections")
		n := 1 + zzChoice("messages", 2)
		for i := 0; i < n; i++ {
			zzAssert(x.SetReference(v+i) == nil && y.SetReference(v+100+i) == nil, "a message is accepted")
		}
		left := zzChoice("left", 2)
		for i := 0; i < n-left; i++ {
			m, err := y.GetReference()
			zzAssert(err == nil && zzIs(m, v+i), "the peer receives the same objects in order")
			m, err = x.GetReference()
			zzAssert(err == nil && zzIs(m, v+100+i), "the peer receives the same objects in order")
			zzReach("received")
		}
		ts[zzChoice("first to stop", 2)].Stop()
		a.Stop()
		b.Stop()
		zzAssert(x.Closed() && y.Closed(), "stopped: closed")
		v += 1000
	}
	zzReach("done")
}

// ZZC20Names: addresses that differ by one byte somewhere are different.
func ZZC20Names() {
	a, b := "ab", ""
	x := zzStr("byte", 1)
	zzAssume(x[0] < 0x80)
	switch zzChoice("where", 5) {
	case 0:
		b = a + x
	case 1:
		b = x + a
	case 2:
		b = "a" + x
	case 3:
		b = "a" + x + "b"
	case 4:
		b = x + "b"
	}
	zzAssume(a != b)
	s1, c1 := zzRefPair(a)
	s2, c2 := zzRefPair(b)
	ts := []Transport{s1, c1, s2, c2}
	var cs []TransportConnection
	for _, t := range ts {
		t.Run()
		cs = append(cs, t.NextConnection())
	}
	for i := range cs {
		zzAssert(cs[i].SetReference(i) == nil, "a message is taken")
	}
	for i := len(cs) - 1; i >= 0; i-- {
		m, err := cs[i].GetReference()
		zzAssert(err == nil && m == i^1, "a message reaches the peer at its address")
	}
	for _, t := range ts {
		t.Stop()
	}
	zzReach("done")
}
