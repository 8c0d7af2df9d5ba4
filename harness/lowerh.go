package ustack

// C22: life of connections in the stack.

// zzLive is a connection whose reads are fed by the harness.
type zzLive struct {
	zzConn
	feed  chan func(p []byte) (int, error)
	feedR chan func() (interface{}, error)
	done  chan bool
	fail  bool // writes fail
	some  int  // bytes taken by a failing write
	wrote [][]byte
	refs  []interface{}
	reads int
	// what the stack did with it
	announced int
	closedEv  int
	got       [][]byte
	kept      []*UBuf // not consumed
	gotRef    []interface{}
}

func zzNewLive(name string, ref bool) *zzLive {
	c := &zzLive{feed: make(chan func(p []byte) (int, error), 8), feedR: make(chan func() (interface{}, error), 8), done: make(chan bool)}
	c.name, c.ref = name, ref
	c.rd = func(p []byte) (int, error) {
		c.reads++
		select {
		case f := <-c.feed:
			return f(p)
		case <-c.done:
			return 0, zzErr
		}
	}
	c.getRef = func() (interface{}, error) {
		c.reads++
		select {
		case f := <-c.feedR:
			return f()
		case <-c.done:
			return nil, zzErr
		}
	}
	c.wr = func(p []byte) (int, error) {
		if c.fail || c.closed {
			n := c.some
			if n > len(p) {
				n = len(p)
			}
			return n, zzErr
		}
		c.wrote = append(c.wrote, append([]byte{}, p...))
		return len(p), nil
	}
	c.setRef = func(m interface{}) error {
		if c.fail || c.closed {
			return zzErr
		}
		c.refs = append(c.refs, m)
		return nil
	}
	return c
}

func (c *zzLive) Close() {
	c.zzConn.Close()
	if c.closes == 1 {
		close(c.done)
	}
}

// zzLow is a stack with connections that checks what is done with them.
type zzLow struct {
	u  UStack
	t  *zzTran
	pr *zzTop
	cs []*zzLive
	on func(c *zzLive, opened bool) // what the application does at an event
}

// zzTop is a user-defined processor above the transports.
type zzTop struct {
	ProcBase
	low DataProcessor
	up  func(Context)
}

func (s *zzTop) SetLower(p DataProcessor) DataProcessor {
	s.low = p
	return s
}
func (s *zzTop) OnLowerData(ctx Context) { s.up(ctx) }

func zzNewLow(mtu int, refs ...bool) *zzLow {
	l := &zzLow{t: zzNewTran("t")}
	for _, r := range refs {
		l.cs = append(l.cs, zzNewLive("peer", r))
	}
	find := func(x interface{}) *zzLive {
		for _, c := range l.cs {
			if x == interface{}(TransportConnection(c)) || x == interface{}(c) {
				return c
			}
		}
		return nil
	}
	l.pr = &zzTop{ProcBase: NewProcBaseInstance("top")}
	l.pr.ProcBase.SetWhere(l.pr)
	l.pr.up = func(ctx Context) {
		c := find(ctx.GetConnection())
		zzAssert(c != nil, "received data is tagged with its connection")
		zzAssert(c.announced == 1, "a connection is announced before its data is processed")
		if c.ref {
			zzAssert(ctx.GetMessage() != nil, "a received message is there")
			c.gotRef = append(c.gotRef, ctx.GetMessage())
		} else {
			zzAssert(ctx.GetBuffer() != nil, "received bytes are there")
			c.got = append(c.got, zzData(ctx.GetBuffer()))
			c.kept = append(c.kept, ctx.GetBuffer())
		}
	}
	l.u = NewUStack().SetOption("MTU", mtu).AppendDataProcessor(l.pr)
	l.u.SetEventListener(func(e Event) {
		if e.Type != UStackEventNewConnection && e.Type != UStackEventConnectionClosed {
			return
		}
		c := find(e.Data)
		zzAssert(c != nil, "an event carries its connection")
		if e.Type == UStackEventNewConnection {
			c.announced++
			zzAssert(c.announced == 1 && c.closedEv == 0, "a connection is announced once")
		} else {
			c.closedEv++
			zzAssert(c.announced == 1, "only an announced connection is reported closed")
			zzAssert(c.closedEv == 1, "a connection is reported closed once")
			zzAssert(c.closed, "a connection is closed before that is reported")
		}
		if l.on != nil {
			l.on(c, e.Type == UStackEventNewConnection)
		}
	})
	l.u.AddTransport(l.t).Run()
	return l
}

func (l *zzLow) open() {
	for _, c := range l.cs {
		l.t.next <- c
	}
	zzSettle()
	for _, c := range l.cs {
		zzAssert(c.announced == 1, "a new connection is announced")
		zzAssert(!c.closed && c.closedEv == 0, "a new connection stays open")
	}
}

// later checks that data that was passed up has not changed since.
func (l *zzLow) later() {
	for _, c := range l.cs {
		for i, ub := range c.kept {
			zzSame("k", zzData(ub), c.got[i], "data that was passed up does not change later")
		}
	}
}

func (l *zzLow) send(c *zzLive, b []byte, m interface{}) {
	ctx := NewUStackContext().SetConnection(c)
	if c.ref {
		ctx.SetMessage(m)
	} else {
		ub := UBufAllocWithHeadReserved(len(b)+4, 2)
		ub.Write(b)
		ctx.SetBuffer(ub)
	}
	l.pr.low.OnUpperData(ctx)
}

// ZZC22Life: any sequence of read and write results on several connections.
func ZZC22Life() {
	mtu := zzParam("mtu")
	kinds := zzChoice("kinds", 4)
	l := zzNewLow(mtu, kinds&1 != 0, kinds&2 != 0)
	l.open()
	dead := make([]bool, 2)
	for k := 0; k < zzParam("ops"); k++ {
		i := zzChoice("conn", 2)
		c, o := l.cs[i], l.cs[1-i]
		ng, ngr, nw, nwr := len(c.got), len(c.gotRef), len(c.wrote), len(c.refs)
		og, ogr, ow, owr := len(o.got), len(o.gotRef), len(o.wrote), len(o.refs)
		if dead[i] {
			zzAssume(false) // covered by ZZC22Con
		}
		switch zzChoice("op", 3) {
		case 0: // data arrives, with or without an error
			fails := zzBool("with error")
			if c.ref {
				m := &ZMsg{"m"}
				if fails {
					c.feedR <- func() (interface{}, error) { return nil, zzErr }
				} else {
					c.feedR <- func() (interface{}, error) { return m, nil }
				}
				zzSettle()
				if !fails {
					zzAssert(len(c.gotRef) == ngr+1 && c.gotRef[ngr] == interface{}(m), "a received message is passed up")
					zzReach("received")
				}
			} else {
				n := zzRange("n", 1, mtu)
				b := zzBytes("data", n)
				c.feed <- func(p []byte) (int, error) {
					zzAssert(len(p) >= n, "there is room for a whole packet")
					copy(p, b)
					if fails {
						return n, zzErr
					}
					return n, nil
				}
				zzSettle()
				zzAssert(len(c.got) == ng+1, "received data is passed up")
				zzSame("k", c.got[ng], b, "received data is passed up unchanged")
				zzReach("received")
			}
			dead[i] = fails
		case 1: // a read fails
			e := zzErr
			if zzChoice("end", 2) == 1 {
				e = nil // nothing read, no error
			}
			if c.ref {
				c.feedR <- func() (interface{}, error) { return nil, e }
			} else {
				c.feed <- func(p []byte) (int, error) { return 0, e }
			}
			zzSettle()
			zzAssert(len(c.got) == ng && len(c.gotRef) == ngr, "nothing is passed up when a read fails")
			dead[i] = true
		case 2: // data is sent
			c.fail = zzBool("write fails")
			m := &ZMsg{"m"}
			b := zzBytes("out", zzRange("m", 1, 6))
			if c.fail {
				c.some = zzRange("some", 0, 3)
			}
			l.send(c, b, m)
			zzSettle()
			if c.fail {
				dead[i] = true
			} else if c.ref {
				zzAssert(len(c.refs) == nwr+1 && c.refs[nwr] == interface{}(m), "a sent message reaches its connection")
				zzReach("sent")
			} else {
				var w []byte
				for _, x := range c.wrote[nw:] {
					w = append(w, x...)
				}
				zzSame("k", w, b, "sent data is written once, unchanged")
				zzReach("sent")
			}
		}
		for j, x := range l.cs {
			if dead[j] {
				zzAssert(x.closed && x.closedEv == 1, "a failed connection is closed and reported closed")
				zzReach("closed")
			} else {
				zzAssert(!x.closed && x.closedEv == 0, "a healthy connection stays open")
			}
		}
		zzAssert(len(o.got) == og && len(o.gotRef) == ogr && len(o.wrote) == ow && len(o.refs) == owr, "another connection is not touched")
	}
	l.later()
	zzReach("done")
}

// ZZC22Con: reads and writes of a connection fail at the same time.
func ZZC22Con() {
	ref := zzChoice("ref", 2) == 1
	l := zzNewLow(16, ref, ref)
	l.open()
	c := l.cs[0]
	c.fail = true
	n := zzParam("writers")
	end := make(chan bool, 4)
	for i := 0; i < n; i++ {
		zzGo(func() {
			l.send(c, []byte{1}, "m")
			end <- true
		})
	}
	switch zzChoice("reader", 3) {
	case 0:
		c.feed <- func(p []byte) (int, error) { return 0, zzErr }
		c.feedR <- func() (interface{}, error) { return nil, zzErr }
	case 1:
		// the user (or the heartbeat) closes it
		c.Close()
	}
	for i := 0; i < n; i++ {
		<-end
	}
	zzSettle()
	zzAssert(c.closed && c.closedEv == 1, "a failed connection is closed and reported closed once")
	l.send(c, []byte{1}, "m")
	zzSettle()
	zzAssert(c.closedEv == 1, "a failed connection is reported closed once")
	zzAssert(!l.cs[1].closed && l.cs[1].closedEv == 0, "another connection stays open")
	l.cs[1].feed <- func(p []byte) (int, error) { p[0] = 5; return 1, nil }
	l.cs[1].feedR <- func() (interface{}, error) { return "x", nil }
	zzSettle()
	zzAssert(len(l.cs[1].got)+len(l.cs[1].gotRef) == 1, "and is still read")
	l.later()
	zzReach("done")
}

// ZZC22Order: a stream of packets on two connections read by their routines.
func ZZC22Order() {
	l := zzNewLow(8, false, false)
	n := zzParam("packets")
	var want [2][][]byte
	for i, c := range l.cs {
		for k := 0; k < n; k++ {
			b := zzBytes("data", 2)
			want[i] = append(want[i], b)
			last := k == n-1
			c.feed <- func(p []byte) (int, error) {
				copy(p, b)
				if last && len(b) == 2 {
					return 2, zzErr
				}
				return 2, nil
			}
		}
	}
	if zzChoice("together", 2) == 1 {
		l.t.next <- l.cs[0]
		l.t.next <- l.cs[1]
	} else {
		l.t.next <- l.cs[0]
		zzSettle()
		l.t.next <- l.cs[1]
	}
	zzSettle()
	for i, c := range l.cs {
		zzAssert(len(c.got) == n, "every packet is passed up once")
		for k := range c.got {
			zzSame("k", c.got[k], want[i][k], "packets are passed up in order, unchanged")
		}
		zzAssert(c.closed && c.closedEv == 1, "and the connection closed at its end")
	}
	l.later()
	zzReach("done")
}

// ZZC22React: the application sends, on the same or another connection, in
// answer to an event.
func ZZC22React() {
	kinds := zzChoice("kinds", 4)
	l := zzNewLow(16, kinds&1 != 0, kinds&2 != 0)
	c, o := l.cs[0], l.cs[1]
	where := zzChoice("where", 2) // on which connection the answer is sent
	greet := zzBool("at the announcement")
	c.fail, o.fail = zzBool("first fails"), zzBool("second fails")
	answers := 0
	l.on = func(x *zzLive, opened bool) {
		if x == c && opened == greet {
			answers++
			l.send(l.cs[where], []byte{7}, "answer")
		}
	}
	l.t.next <- o
	zzSettle()
	l.t.next <- c
	zzSettle()
	if !greet {
		switch zzChoice("end", 2) {
		case 0:
			c.feed <- func(p []byte) (int, error) { return 0, zzErr }
			c.feedR <- func() (interface{}, error) { return nil, zzErr }
		case 1:
			c.fail = true
			l.send(c, []byte{1}, "m")
		}
		zzSettle()
	}
	zzAssert(answers == 1, "the event is published once")
	t := l.cs[where]
	if greet && !t.fail || !greet && t != c && !t.fail {
		zzAssert(len(t.wrote)+len(t.refs) == 1, "data sent in answer to an event is written")
		zzAssert(!t.closed && t.closedEv == 0, "and the connection stays open")
		zzReach("answered")
	} else {
		zzAssert(t.closed && t.closedEv == 1, "the connection whose write failed is closed and reported closed")
		zzReach("failed")
	}
	if !greet {
		zzAssert(c.closed && c.closedEv == 1, "a failed connection is closed and reported closed")
	}
	x := l.cs[1-where]
	if x == o || greet {
		zzAssert(!x.closed && x.closedEv == 0, "another connection stays open")
		x.feed <- func(p []byte) (int, error) { p[0] = 5; return 1, nil }
		x.feedR <- func() (interface{}, error) { return "x", nil }
		zzSettle()
		zzAssert(len(x.got)+len(x.gotRef) == 1, "and is read")
		zzReach("other")
	}
	zzReach("done")
}

// ZZC22Big: large packets sent on a connection by several routines, while it
// is written slowly, stay in one piece each.
func ZZC22Big() {
	l := zzNewLow(2048, false, false)
	l.open()
	c := l.cs[0]
	var all []byte
	c.wr = func(p []byte) (int, error) {
		all = append(all, p...)
		zzYield()
		return len(p), nil
	}
	size := func() int { return []int{2, 600, 1100, 2048}[zzChoice("size", 4)] }
	n := []int{size(), size()}
	var packets [][]byte
	end := make(chan bool, 2)
	for i := range n {
		b := make([]byte, n[i])
		for j := 0; j < n[i]; j += 50 {
			b[j] = byte(1 + i)
		}
		b[n[i]-1] = byte(3 + i)
		packets = append(packets, b)
		zzGo(func() {
			l.send(c, b, nil)
			end <- true
		})
	}
	<-end
	<-end
	zzSettle()
	zzAssert(len(all) == n[0]+n[1], "everything is written once")
	first := int(all[0]) - 1
	o := 0
	for _, i := range []int{first, 1 - first} {
		for j := 0; j < n[i]; j += 50 {
			zzAssert(all[o+j] == packets[i][j], "a packet is written in one piece")
		}
		o += n[i]
		zzAssert(all[o-1] == byte(3+i), "a packet is written in one piece, to its end")
	}
	zzReach("done")
}

// ZZC22Slow: many packets are sent and received while the connection is
// written slowly and the layers above are slow.
func ZZC22Slow() {
	ref := zzChoice("ref", 2) == 1
	l := zzNewLow(16, ref, ref)
	l.open()
	c, x := l.cs[0], l.cs[1]
	n := zzParam("packets")
	gate := make(chan bool, n)
	wr, setRef, up := c.wr, c.setRef, l.pr.up
	c.wr = func(p []byte) (int, error) {
		<-gate
		return wr(p)
	}
	c.setRef = func(m interface{}) error {
		<-gate
		return setRef(m)
	}
	hold := make(chan bool)
	l.pr.up = func(ctx Context) {
		if ctx.GetConnection() == TransportConnection(c) {
			<-hold
		}
		up(ctx)
	}
	v := zzU8("first")
	sent := 0
	zzGo(func() {
		for i := 0; i < n; i++ {
			l.send(c, []byte{v + byte(i)}, i)
			sent++
		}
	})
	zzGo(func() {
		for i := 0; i < n; i++ {
			k := i
			if ref {
				c.feedR <- func() (interface{}, error) { return 1000 + k, nil }
			} else {
				c.feed <- func(p []byte) (int, error) {
					p[0] = v + byte(k)
					return 1, nil
				}
			}
		}
	})
	zzSettle()
	zzAssert(len(c.wrote)+len(c.refs) == 0, "nothing is written yet")
	// another connection is not affected
	l.send(x, []byte{7}, 7)
	zzSettle()
	zzAssert(len(x.wrote)+len(x.refs) == 1, "the other connection is written")
	close(hold)
	zzSettle()
	zzAssert(len(c.got)+len(c.gotRef) == n, "everything received is passed up")
	for i := 0; i < n; i++ {
		gate <- true
	}
	zzSettle()
	zzAssert(sent == n, "everything is sent")
	zzAssert(len(c.wrote)+len(c.refs) == n, "everything is written once")
	for i := 0; i < n; i++ {
		if ref {
			zzAssert(c.refs[i] == i, "in order")
			zzAssert(c.gotRef[i] == 1000+i, "in order")
		} else {
			zzAssert(len(c.wrote[i]) == 1 && c.wrote[i][0] == v+byte(i), "in order")
			zzAssert(len(c.got[i]) == 1 && c.got[i][0] == v+byte(i), "in order")
		}
	}
	zzAssert(!c.closed && !x.closed, "the connections stay open")
	zzReach("done")
}

// zzRunTran hands out connections while it runs.
type zzRunTran struct {
	Transport
	name string
	run  bool
	next chan TransportConnection
}

func (t *zzRunTran) GetName() string { return t.name }
func (t *zzRunTran) Run() Transport {
	zzAssert(!t.run, "a running transport is not run again")
	t.run = true
	t.next = make(chan TransportConnection, 4)
	return t
}
func (t *zzRunTran) Stop() Transport {
	if t.run {
		t.run = false
		close(t.next)
	}
	return t
}
func (t *zzRunTran) NextConnection() TransportConnection {
	c, ok := <-t.next
	if !ok {
		return nil
	}
	return c
}

// ZZC22Transports: transports come and go, before and while the stack runs.
func ZZC22Transports() {
	names := []string{"t", "u"}
	var ts []*zzRunTran
	same := zzChoice("same name", 2)
	for i := 0; i < 2; i++ {
		ts = append(ts, &zzRunTran{name: names[i*(1-same)]})
	}
	u := NewUStack()
	pr := &zzTop{ProcBase: NewProcBaseInstance("top")}
	pr.ProcBase.SetWhere(pr)
	type life struct {
		c        *zzLive
		tr       int
		new, end int
		got      int
	}
	var ls []*life
	find := func(x interface{}) *life {
		for _, l := range ls {
			if x == interface{}(TransportConnection(l.c)) {
				return l
			}
		}
		zzAssert(false, "an event or data carries its connection")
		return nil
	}
	pr.up = func(ctx Context) {
		l := find(ctx.GetConnection())
		zzAssert(l.new == 1, "a connection is announced before its data is processed")
		l.got++
	}
	u.AppendDataProcessor(pr)
	u.SetEventListener(func(e Event) {
		if e.Type == UStackEventNewConnection {
			find(e.Data).new++
		} else if e.Type == UStackEventConnectionClosed {
			find(e.Data).end++
		}
	})
	added := []bool{false, false}
	running := false
	for k := 0; k < zzParam("ops"); k++ {
		i := zzChoice("transport", 2)
		switch zzChoice("op", 5) {
		case 4:
			if i == 1 && len(ls) > 0 {
				u.PublishEvent(Event{Type: zzRange("type", 8, 1<<20), Data: TransportConnection(ls[0].c)})
			} else {
				u.PublishEvent(Event{Type: zzRange("type", 8, 1<<20), Data: Transport(ts[0])})
			}
		case 0:
			u.AddTransport(ts[i])
			added[i] = true
		case 1:
			u.DeleteTransport(ts[i])
			added[i] = false
		case 2:
			if running || i == 1 {
				zzAssume(false)
			}
			u.Run()
			running = true
		case 3:
			if !ts[i].run {
				zzAssume(false)
			}
			l := &life{c: zzNewLive("peer", zzChoice("ref", 2) == 1), tr: i}
			ls = append(ls, l)
			ts[i].next <- l.c
		}
		zzSettle()
		for j, t := range ts {
			zzAssert(t.run == (running && added[j]), "exactly the transports of a running stack run")
		}
		for _, l := range ls {
			zzAssert(l.new == 1, "every connection is announced once")
			zzAssert(l.end == 0 && !l.c.closed, "and stays open")
			n := l.got
			if l.c.ref {
				l.c.feedR <- func() (interface{}, error) { return 1, nil }
			} else {
				l.c.feed <- func(p []byte) (int, error) { p[0] = 1; return 1, nil }
			}
			zzSettle()
			zzAssert(l.got == n+1, "received data is passed up once")
			w := len(l.c.wrote) + len(l.c.refs)
			ctx := NewUStackContext().SetConnection(l.c).SetMessage(1)
			ub := UBufAlloc(4)
			ub.WriteByte(1)
			pr.low.OnUpperData(ctx.SetBuffer(ub))
			zzAssert(len(l.c.wrote)+len(l.c.refs) == w+1, "sent data is written once")
			zzReach("used")
		}
	}
	for _, l := range ls {
		l.c.feed <- func(p []byte) (int, error) { return 0, zzErr }
		l.c.feedR <- func() (interface{}, error) { return nil, zzErr }
		zzSettle()
		zzAssert(l.end == 1 && l.c.closed, "a connection that fails is closed and that is reported once")
		zzReach("ended")
	}
}
