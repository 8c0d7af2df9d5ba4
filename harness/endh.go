package ustack

// C19: endpoints come and go. C23: listeners of endpoints.

// zzPut is a message put on an endpoint's transmit channel.
type zzPut struct {
	ep     int
	n      int
	must   bool // put while the endpoint was registered
	dead   bool // put while the endpoint was not registered
	passed int
}

// zzSink is a user-defined processor that takes what is passed down.
type zzSink struct {
	ProcBase
	up  DataProcessor
	got func(Context)
}

func zzNewSink(got func(Context)) *zzSink {
	s := &zzSink{ProcBase: NewProcBaseInstance("sink"), got: got}
	s.ProcBase.SetWhere(s)
	return s
}
func (s *zzSink) SetUpper(p DataProcessor) DataProcessor {
	s.up = p
	return s
}
func (s *zzSink) OnUpperData(ctx Context) { s.got(ctx) }

// zzDeck is a stack with endpoints and a model of what they should do.
type zzDeck struct {
	u     UStack
	sink  *zzSink
	eps   []EndPoint
	added []bool // known to the stack
	reg   []bool // registered
	gone  []bool // deleted before
	puts  []*zzPut
	last  []int
	conn  *zzConn
	seq   int
}

func zzNewDeck(sessions ...int) *zzDeck {
	d := &zzDeck{conn: &zzConn{name: "c"}}
	d.sink = zzNewSink(d.pass)
	d.u = NewUStack().AppendDataProcessor(d.sink)
	for _, s := range sessions {
		d.eps = append(d.eps, NewEndPoint("e", s))
		d.added = append(d.added, false)
		d.reg = append(d.reg, false)
		d.gone = append(d.gone, false)
		d.last = append(d.last, -1)
	}
	return d
}

func (d *zzDeck) pass(ctx Context) {
	m, ok := ctx.GetMessage().(*zzPut)
	zzAssert(ok, "only messages of endpoints are passed down")
	zzAssert(ctx.GetConnection() == TransportConnection(d.conn), "the connection is kept")
	zzAssert(!m.dead, "nothing is passed down for a deleted endpoint")
	m.passed++
	zzAssert(m.passed == 1, "a message is passed down once")
	zzAssert(m.n > d.last[m.ep], "messages of an endpoint are passed down in order")
	d.last[m.ep] = m.n
	zzReach("passed")
}

func (d *zzDeck) add(i int) {
	if !d.added[i] {
		free := true
		for j := range d.eps {
			if d.reg[j] && d.eps[j].GetSession() == d.eps[i].GetSession() {
				free = false
			}
		}
		if free {
			if d.gone[i] {
				zzSettle() // the deletion has taken effect
				zzReach("again")
			}
			d.reg[i] = true
			for _, m := range d.puts {
				if m.ep == i {
					m.dead = false
				}
			}
		} else {
			zzReach("refused")
		}
		d.added[i] = true
	}
	d.u.AddEndPoint(d.eps[i])
}

func (d *zzDeck) del(i int) {
	d.u.DeleteEndPoint(d.eps[i])
	if d.reg[i] {
		d.gone[i] = true
		for _, m := range d.puts {
			if m.ep == i {
				m.must = false
			}
		}
		zzReach("deleted")
	}
	d.added[i], d.reg[i] = false, false
}

func (d *zzDeck) put(i int) {
	m := &zzPut{ep: i, n: d.seq, must: d.reg[i], dead: !d.reg[i]}
	d.seq++
	d.puts = append(d.puts, m)
	d.eps[i].GetTxChannel() <- NewEndPointData().SetConnection(d.conn).SetData(m)
	zzYield()
}

// in is a message arriving for a session.
func (d *zzDeck) in(session int) {
	m := &ZMsg{"x"}
	d.sink.up.OnLowerData(NewUStackContext().SetConnection(d.conn).SetMessage(m).SetOption("session", session))
	for j, e := range d.eps {
		got := zzRx(e)
		if d.reg[j] && e.GetSession() == session {
			zzAssert(len(got) == 1 && got[0].GetData() == m && got[0].GetConnection() == TransportConnection(d.conn), "a registered endpoint gets the messages of its session")
			zzReach("received")
		} else {
			zzAssert(len(got) == 0, "an endpoint that is not registered for the session gets nothing")
		}
	}
}

func (d *zzDeck) done() {
	zzSettle()
	for _, m := range d.puts {
		if m.must {
			zzAssert(m.passed == 1, "a message put on a registered endpoint is passed down")
		}
	}
}

// ZZC19Churn: any sequence of add, delete, put and receive.
func ZZC19Churn() {
	n := zzParam("eps")
	var ss []int
	for i := 0; i < n; i++ {
		ss = append(ss, zzInt("session"))
	}
	d := zzNewDeck(ss...)
	if zzChoice("early", 2) == 1 {
		d.add(0)
	}
	d.u.Run()
	for k := 0; k < zzParam("ops"); k++ {
		switch zzChoice("op", 5) {
		case 0:
			d.add(zzChoice("ep", n))
		case 1:
			d.del(zzChoice("ep", n))
		case 2:
			d.put(zzChoice("ep", n))
		case 3:
			d.in(zzInt("to"))
		case 4:
			// an event of the application
			d.u.PublishEvent(Event{Type: zzRange("type", 8, 1<<20), Data: d.eps[zzChoice("ep", n)]})
		}
	}
	d.done()
	zzReach("done")
}

// ZZC19Delete: deletion at any moment of sending; the sender goes on.
func ZZC19Delete() {
	s := zzInt("session")
	d := zzNewDeck(s)
	d.add(0)
	d.u.Run()
	n := zzRange("before", 0, zzParam("before"))
	n = zzFork(n)
	for i := 0; i < n; i++ {
		d.put(0)
	}
	zzYield()
	d.del(0)
	for i := 0; i < zzParam("after"); i++ {
		d.put(0)
	}
	d.done()
	d.in(s)
	d.add(0)
	d.put(0)
	d.in(s)
	d.done()
	zzReach("done")
}

// ZZC19Twin: two goroutines add endpoints of one session.
func ZZC19Twin() {
	s := zzInt("session")
	d := zzNewDeck(s, s)
	d.u.Run()
	end := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		e := d.eps[i]
		zzGo(func() {
			d.u.AddEndPoint(e)
			end <- true
		})
	}
	<-end
	<-end
	zzSettle()
	d.reg[0], d.reg[1] = true, true
	d.put(0)
	d.put(1)
	zzSettle()
	zzAssert(d.puts[0].passed+d.puts[1].passed == 1, "at most one endpoint is registered for a session")
	d.sink.up.OnLowerData(NewUStackContext().SetConnection(d.conn).SetMessage("m").SetOption("session", s))
	for i, m := range d.puts {
		zzAssert(len(zzRx(d.eps[i])) == m.passed, "the same endpoint receives")
	}
	zzReach("done")
}

// zzTight is a user-defined endpoint with a small receive queue.
type zzTight struct {
	EndPoint
	rx chan EndPointData
}

func (e *zzTight) GetRxChannel() chan EndPointData { return e.rx }

// ZZC19Stuck: one endpoint does not read what it gets, and what it sends is
// stuck below; the others are added, used and deleted meanwhile.
func ZZC19Stuck() {
	d := zzNewDeck(1, 2, 3)
	rx := make(chan EndPointData, zzChoice("queue", 2))
	d.eps[0] = &zzTight{d.eps[0], rx}
	d.add(0)
	if zzChoice("early", 2) == 1 {
		d.add(1)
	}
	d.u.Run()
	block := make(chan bool)
	got := d.sink.got
	d.sink.got = func(ctx Context) {
		got(ctx)
		if ctx.GetMessage().(*zzPut).ep == 0 {
			<-block
		}
	}
	v := zzInt("message")
	receives := zzChoice("receives", 2) == 1
	if receives {
		zzGo(func() {
			for i := 0; i < 3; i++ {
				d.sink.up.OnLowerData(NewUStackContext().SetConnection(d.conn).SetMessage(v+i).SetOption("session", 1))
			}
		})
	} else {
		for i := 0; i < cap(rx); i++ {
			rx <- NewEndPointData()
		}
	}
	sends := zzChoice("sends", 2) == 1
	if sends {
		d.put(0)
	}
	zzSettle()
	// the others
	one := func(i, session int) {
		m := &ZMsg{"x"}
		d.sink.up.OnLowerData(NewUStackContext().SetConnection(d.conn).SetMessage(m).SetOption("session", session))
		g := zzRx(d.eps[i])
		zzAssert(len(g) == 1 && g[0].GetData() == m, "a registered endpoint gets the messages of its session")
		d.put(i)
		zzSettle()
		zzAssert(d.puts[len(d.puts)-1].passed == 1, "a message put on a registered endpoint is passed down")
	}
	d.add(1)
	one(1, 2)
	d.add(2)
	one(2, 3)
	d.del(1)
	d.put(1)
	zzSettle()
	zzAssert(len(zzRx(d.eps[1])) == 0, "a deleted endpoint gets nothing")
	if zzChoice("delete", 2) == 1 {
		d.del(0)
		zzReach("deleted while stuck")
		one(2, 3)
	} else if receives {
		// it reads at last
		for i := 0; i < 3; i++ {
			m := <-rx
			zzAssert(zzIs(m.GetData(), v+i), "an endpoint gets every message of its session in order, however late it reads")
		}
		zzReach("read late")
	}
	close(block)
	d.done()
	zzReach("done")
}
