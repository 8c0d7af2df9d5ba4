package ustack

// C17 chaining, C18 events and membership, C24 options.

// zzStep is a user-defined processor that records and passes on.
type zzStep struct {
	ProcBase
	id      int
	ovh     int
	log     *[]int
	up, low DataProcessor
	stk     UStack
	stks    int
	runs    int
	runMTU  int
	events  []Event
	toBytes bool // turns messages into bytes and back
}

func zzNewStep(id, ovh int, log *[]int) *zzStep {
	s := &zzStep{ProcBase: NewProcBaseInstance("step"), id: id, ovh: ovh, log: log}
	s.ProcBase.SetWhere(s)
	return s
}
func (s *zzStep) GetOverhead() int { return s.ovh }
func (s *zzStep) SetUStack(u UStack) DataProcessor {
	s.stk = u
	s.stks++
	return s
}
func (s *zzStep) SetUpper(p DataProcessor) DataProcessor {
	s.up = p
	return s
}
func (s *zzStep) SetLower(p DataProcessor) DataProcessor {
	s.low = p
	return s
}
func (s *zzStep) Run() DataProcessor {
	s.runs++
	if s.stk != nil {
		s.runMTU = s.stk.GetMTU()
	}
	return s
}
func (s *zzStep) OnEvent(e Event) { s.events = append(s.events, e) }
func (s *zzStep) OnUpperData(ctx Context) {
	*s.log = append(*s.log, s.id+1)
	if s.toBytes {
		ub := UBufAllocWithHeadReserved(s.stk.GetMTU(), s.stk.GetOverhead())
		b, _ := ctx.GetMessage().([]byte)
		ub.Write(b)
		ctx.SetBuffer(ub)
	}
	s.low.OnUpperData(ctx)
}
func (s *zzStep) OnLowerData(ctx Context) {
	*s.log = append(*s.log, -(s.id + 1))
	if s.toBytes {
		ctx.SetMessage(zzData(ctx.GetBuffer()))
	}
	s.up.OnLowerData(ctx)
}

// zzRefEnd is one end of a by-reference connection fed by the harness.
func zzRefEnd(name string) (*zzConn, chan interface{}, *[]interface{}) {
	in := make(chan interface{}, 16)
	out := new([]interface{})
	c := &zzConn{name: name, ref: true}
	c.getRef = func() (interface{}, error) {
		m, ok := <-in
		if !ok {
			return nil, zzErr
		}
		return m, nil
	}
	c.setRef = func(m interface{}) error {
		*out = append(*out, m)
		return nil
	}
	return c, in, out
}

// ZZC17Order: any number of processors; messages pass them in order.
func ZZC17Order() {
	n := zzChoice("count", zzParam("procs")+1)
	var log []int
	var ps []*zzStep
	sum := 0
	u := NewUStack()
	mtu := 2048
	if zzChoice("mtu set", 2) == 1 {
		mtu = zzRange("mtu", 1, 100000)
		u.SetOption("MTU", mtu)
	}
	for i := 0; i < n; i++ {
		o := zzRange("ovh", 0, 1<<20)
		sum += o
		ps = append(ps, zzNewStep(i, o, &log))
		u.AppendDataProcessor(ps[i])
	}
	ep := NewEndPoint("e", 0)
	t := zzNewTran("t")
	u.AddEndPoint(ep).AddTransport(t)
	u.Run()
	zzAssert(u.GetOverhead() == sum, "the stack's overhead is the sum of its processors'")
	zzAssert(u.GetMTU() == mtu, "the stack's MTU is the configured one")
	for _, p := range ps {
		zzAssert(p.runs == 1, "every processor is run once")
		zzAssert(p.stk == u, "every processor is attached to its stack")
		zzAssert(p.runMTU == mtu, "processors see the configured MTU")
	}
	zzAssert(t.runs == 1, "the transport is run once")
	c, in, out := zzRefEnd("c")
	t.next <- c
	zzSettle()
	for i := 0; i < zzParam("msgs"); i++ {
		log = nil
		m := []interface{}{&ZMsg{"x"}, "", 0, false, (*ZMsg)(nil), ZMsg{}}[zzChoice("message", 6)]
		if zzChoice("dir", 2) == 0 {
			k := len(*out)
			ep.GetTxChannel() <- NewEndPointData().SetConnection(c).SetData(m)
			zzSettle()
			zzAssert(len(log) == n, "sent data passes every processor once")
			for j, x := range log {
				zzAssert(x == j+1, "from first to last")
			}
			zzAssert(len(*out) == k+1 && (*out)[k] == m, "and then reaches the transport")
			zzAssert(len(zzRx(ep)) == 0, "and not the endpoint")
			zzReach("sent")
		} else {
			k := len(*out)
			in <- m
			zzSettle()
			zzAssert(len(log) == n, "received data passes every processor once")
			for j, x := range log {
				zzAssert(x == -(n-j), "from last to first")
			}
			got := zzRx(ep)
			zzAssert(len(got) == 1 && got[0].GetData() == m && got[0].GetConnection() == c, "and then reaches the endpoint")
			zzAssert(len(*out) == k, "and not the transport")
			zzReach("received")
		}
	}
}

// ZZC17Bytes: the same over a byte connection.
func ZZC17Bytes() {
	n := 1 + zzChoice("count", zzParam("procs"))
	var log []int
	u := NewUStack().SetOption("MTU", 64)
	for i := 0; i < n; i++ {
		p := zzNewStep(i, zzRange("ovh", 0, 5), &log)
		p.toBytes = i == 0
		u.AppendDataProcessor(p)
	}
	ep := NewEndPoint("e", 0)
	t := zzNewTran("t")
	u.AddEndPoint(ep).AddTransport(t)
	u.Run()
	x, y := zzNewWire()
	t.next <- x
	zzSettle()
	d := zzBytes("data", zzRange("len", 1, 30))
	ep.GetTxChannel() <- NewEndPointData().SetConnection(x).SetData(d)
	zzSettle()
	zzAssert(len(log) == n, "sent data passes every processor once")
	for j, v := range log {
		zzAssert(v == j+1, "from first to last")
	}
	zzAssert(len(x.sent) == 1, "and then reaches the connection")
	zzSame("k", x.sent[0], d, "sent data")
	log = nil
	e := zzBytes("data2", zzRange("len2", 1, 30))
	y.Write(e)
	zzSettle()
	zzAssert(len(log) == n, "received data passes every processor once")
	for j, v := range log {
		zzAssert(v == -(n-j), "from last to first")
	}
	got := zzRx(ep)
	zzAssert(len(got) == 1, "and then reaches the endpoint")
	b, _ := got[0].GetData().([]byte)
	zzSame("k", b, e, "received data")
	zzReach("both ways")
}

// zzParty is an endpoint that records events.
func zzParty(name string, session int, seen *[]Event) EndPoint {
	return NewEndPoint(name, session).SetEventListener(func(_ EndPoint, e Event) { *seen = append(*seen, e) })
}

// ZZC18Members: any sequence of additions, deletions and publications.
func ZZC18Members() {
	ne, nt, nl := zzParam("endpoints"), zzParam("transports"), zzParam("listeners")
	seenE := make([][]Event, ne)
	seenL := make([][]Event, nl)
	distinct := zzChoice("distinct sessions", 2)
	var eps []EndPoint
	var trs []*zzTran
	for i := 0; i < ne; i++ {
		eps = append(eps, zzParty("e", i*distinct, &seenE[i]))
	}
	for i := 0; i < nt; i++ {
		trs = append(trs, zzNewTran("t"))
	}
	var log []int
	ps := []*zzStep{zzNewStep(0, 0, &log), zzNewStep(1, 0, &log)}
	u := NewUStack()
	for _, p := range ps {
		u.AppendDataProcessor(p)
	}
	for i := range seenL {
		i := i
		u.SetEventListener(func(e Event) { seenL[i] = append(seenL[i], e) })
	}
	var mE []int // expected members, in order
	var mT []int
	has := func(m []int, x int) int {
		for i, y := range m {
			if y == x {
				return i
			}
		}
		return -1
	}
	running := false
	for i := 0; i < zzParam("ops"); i++ {
		for j := range seenE {
			seenE[j] = nil
		}
		for j := range seenL {
			seenL[j] = nil
		}
		for _, p := range ps {
			p.events = nil
		}
		want, typ := 0, 0
		var data interface{}
		self := -1
		switch zzChoice("op", 6) {
		case 0:
			k := zzChoice("which", ne)
			if has(mE, k) < 0 {
				want, typ, data, self = 1, UStackEventEndpointAdded, eps[k], k
				mE = append(mE, k)
			}
			u.AddEndPoint(eps[k])
		case 1:
			k := zzChoice("which", ne)
			if at := has(mE, k); at >= 0 {
				want, typ, data, self = 1, UStackEventEndpointDeleted, eps[k], k
				mE = append(append([]int{}, mE[:at]...), mE[at+1:]...)
			}
			u.DeleteEndPoint(eps[k])
		case 2:
			k := zzChoice("which", nt)
			if has(mT, k) < 0 {
				want, typ, data = 1, UStackEventTransportAdded, trs[k]
				mT = append(mT, k)
			}
			u.AddTransport(trs[k])
		case 3:
			k := zzChoice("which", nt)
			if at := has(mT, k); at >= 0 {
				want, typ, data = 1, UStackEventTransportDeleted, trs[k]
				mT = append(append([]int{}, mT[:at]...), mT[at+1:]...)
			}
			u.DeleteTransport(trs[k])
		case 4:
			want, typ, data = 1, zzRange("type", 0, 1000), &ZMsg{"e"}
			u.PublishEvent(Event{Type: typ, Source: u, Data: data})
			zzReach("published")
		case 5:
			zzAssume(!running)
			running = true
			u.Run()
		}
		zzSettle()
		check := func(seen []Event) {
			zzAssert(len(seen) == want, "every party gets every published event exactly once, and nothing else is published")
			if want == 1 {
				zzAssert(seen[0].Type == typ && seen[0].Data == data, "as it was published")
			}
		}
		for j := range seenL {
			check(seenL[j])
		}
		for _, p := range ps {
			check(p.events)
		}
		for j := range seenE {
			if j == self {
				continue // an endpoint's own coming and going
			}
			if has(mE, j) >= 0 {
				check(seenE[j])
			} else {
				zzAssert(len(seenE[j]) == 0, "only the stack's endpoints get its events")
			}
		}
		ge, gt := u.GetEndPoint(), u.GetTransport()
		zzAssert(len(ge) == len(mE) && len(gt) == len(mT), "the lists contain exactly what was added and not deleted")
		for j, k := range mE {
			zzAssert(ge[j] == eps[k], "in the order of addition")
		}
		for j, k := range mT {
			zzAssert(gt[j] == Transport(trs[k]), "in the order of addition")
		}
	}
	if len(mE) > 1 && running {
		zzReach("members")
	}
}

// ZZC18Walk: deleting while walking the list or from an event listener.
func ZZC18Walk() {
	n := 2 + zzChoice("count", zzParam("endpoints")-1)
	seen := make([][]Event, n)
	u := NewUStack()
	var eps []EndPoint
	victim := zzChoice("victim", n)
	by := zzChoice("by", n)
	mode := zzChoice("mode", 2)
	for i := 0; i < n; i++ {
		i := i
		eps = append(eps, NewEndPoint("e", i).SetEventListener(func(_ EndPoint, e Event) {
			if e.Type != 99 {
				return
			}
			seen[i] = append(seen[i], e)
			if mode == 0 && i == by {
				u.DeleteEndPoint(eps[victim])
			}
		}))
		u.AddEndPoint(eps[i])
	}
	if zzChoice("running", 2) == 1 {
		u.Run()
	}
	if mode == 1 {
		for _, e := range u.GetEndPoint() {
			u.DeleteEndPoint(e)
		}
		zzAssert(len(u.GetEndPoint()) == 0, "deleting every endpoint of the list leaves none")
		zzReach("all deleted")
		return
	}
	u.PublishEvent(Event{Type: 99})
	for i := range seen {
		if i == victim && by < victim {
			zzAssert(len(seen[i]) <= 1, "an endpoint gets an event at most once")
			continue
		}
		zzAssert(len(seen[i]) == 1, "an endpoint gets an event exactly once, also when another one is deleted meanwhile")
	}
	zzAssert(len(u.GetEndPoint()) == n-1, "one was deleted")
	zzReach("deleted by a listener")
}

// ZZC18WalkT: the same for transports.
func ZZC18WalkT() {
	n := 2 + zzChoice("count", zzParam("transports")-1)
	u := NewUStack()
	for i := 0; i < n; i++ {
		u.AddTransport(zzNewTran("t"))
	}
	if zzChoice("running", 2) == 1 {
		u.Run()
	}
	for _, t := range u.GetTransport() {
		u.DeleteTransport(t)
	}
	zzAssert(len(u.GetTransport()) == 0, "deleting every transport of the list leaves none")
	zzReach("all deleted")
}

// ZZC18Nested: a listener of a deletion deletes another endpoint or transport.
func ZZC18Nested() {
	n := 2 + zzChoice("count", zzParam("members")-1)
	u := NewUStack()
	var eps []EndPoint
	var trs []Transport
	for i := 0; i < n; i++ {
		eps = append(eps, NewEndPoint("e", i))
		trs = append(trs, zzNewTran("t"))
		u.AddEndPoint(eps[i])
		u.AddTransport(trs[i])
	}
	a, b := zzChoice("first", n), zzChoice("second", n)
	zzAssume(a != b)
	var del []interface{}
	u.SetEventListener(func(e Event) {
		if e.Type != UStackEventEndpointDeleted && e.Type != UStackEventTransportDeleted {
			return
		}
		del = append(del, e.Data)
		if e.Data == eps[a] {
			u.DeleteEndPoint(eps[b])
		} else if e.Data == trs[a] {
			u.DeleteTransport(trs[b])
		}
	})
	if zzChoice("what", 2) == 0 {
		u.DeleteEndPoint(eps[a])
		zzAssert(len(del) == 2 && del[0] == eps[a] && del[1] == eps[b], "one event for each deletion")
	} else {
		u.DeleteTransport(trs[a])
		zzAssert(len(del) == 2 && del[0] == trs[a] && del[1] == trs[b], "one event for each deletion")
	}
	left := 2*n - 2
	zzAssert(len(u.GetEndPoint())+len(u.GetTransport()) == left, "exactly the two are gone")
	for _, e := range u.GetEndPoint() {
		zzAssert(len(u.GetTransport()) < n || e != eps[a] && e != eps[b], "the deleted endpoints")
	}
	for _, t := range u.GetTransport() {
		zzAssert(len(u.GetEndPoint()) < n || t != trs[a] && t != trs[b], "the deleted transports")
	}
	zzReach("both deleted")
}

// ZZC18Reenter: on the first event of any kind a listener adds or deletes any
// other endpoint or transport.
func ZZC18Reenter() {
	u := NewUStack()
	var eps []EndPoint
	var trs []Transport
	inE, inT := map[int]bool{}, map[int]bool{}
	for i := 0; i < 3; i++ {
		eps = append(eps, NewEndPoint("e", i))
		trs = append(trs, zzNewTran("t"))
	}
	for i := 0; i < 3; i++ {
		if zzChoice("hasE", 2) == 1 {
			u.AddEndPoint(eps[i])
			inE[i] = true
		}
	}
	for i := 0; i < 2; i++ {
		if zzChoice("hasT", 2) == 1 {
			u.AddTransport(trs[i])
			inT[i] = true
		}
	}
	changes := 0
	do := func(what string, not int) int {
		i := zzChoice(what+" member", 3)
		zzAssume(i != not)
		switch zzChoice(what, 4) {
		case 0:
			if !inE[i] {
				changes++
			}
			inE[i] = true
			u.AddEndPoint(eps[i])
		case 1:
			if inE[i] {
				changes++
			}
			inE[i] = false
			u.DeleteEndPoint(eps[i])
		case 2:
			if !inT[i] {
				changes++
			}
			inT[i] = true
			u.AddTransport(trs[i])
		case 3:
			if inT[i] {
				changes++
			}
			inT[i] = false
			u.DeleteTransport(trs[i])
		}
		return i
	}
	events := 0
	outer := -1
	u.SetEventListener(func(e Event) {
		events++
		if events == 1 {
			outer = -1
			for i := 0; i < 3; i++ {
				if e.Data == eps[i] || e.Data == trs[i] {
					outer = i
				}
			}
			do("inner", outer)
			zzReach("changed from a listener")
		}
	})
	if zzChoice("running", 2) == 1 {
		u.Run()
	}
	do("outer", -1)
	zzAssert(events == changes, "one event for each actual change")
	ne, nt := 0, 0
	for i := 0; i < 3; i++ {
		k, l := 0, 0
		for _, e := range u.GetEndPoint() {
			if e == eps[i] {
				k++
			}
		}
		for _, t := range u.GetTransport() {
			if t == trs[i] {
				l++
			}
		}
		zzAssert(k <= 1 && (k == 1) == inE[i], "exactly the endpoints added and not deleted, once each")
		zzAssert(l <= 1 && (l == 1) == inT[i], "exactly the transports added and not deleted, once each")
		ne, nt = ne+k, nt+l
	}
	zzAssert(len(u.GetEndPoint()) == ne && len(u.GetTransport()) == nt, "and nothing else")
	zzReach("done")
}

// ZZC18Chain: listeners publish further events, several levels deep.
func ZZC18Chain() {
	depth := 1 + zzChoice("depth", zzParam("depth"))
	base := zzRange("base", 1000, 2000)
	u := NewUStack()
	var log []int
	st := zzNewStep(0, 0, &log)
	u.AppendDataProcessor(st)
	var seenE, seenL, seenM []Event
	next := func(e Event) {
		if e.Type >= base && e.Type < base+depth {
			u.PublishEvent(Event{Type: e.Type + 1, Source: u, Data: e.Data})
		}
	}
	by := zzChoice("by", 2)
	u.SetEventListener(func(e Event) {
		seenL = append(seenL, e)
		if by == 0 {
			next(e)
		}
	})
	ep := NewEndPoint("e", 0).SetEventListener(func(_ EndPoint, e Event) {
		seenE = append(seenE, e)
		if by == 1 {
			next(e)
		}
	})
	u.AddEndPoint(ep)
	u.SetEventListener(func(e Event) { seenM = append(seenM, e) })
	if zzChoice("running", 2) == 1 {
		u.Run()
		zzSettle()
	}
	seenE, seenL, seenM, st.events = nil, nil, nil, nil
	m := &ZMsg{"m"}
	u.PublishEvent(Event{Type: base, Source: u, Data: m})
	zzSettle()
	for _, seen := range [][]Event{seenE, seenL, seenM, st.events} {
		zzAssert(len(seen) == depth+1, "events published by listeners reach every party once")
		for i := 0; i <= depth; i++ {
			k := 0
			for _, e := range seen {
				if e.Type == base+i && e.Data == interface{}(m) {
					k++
				}
			}
			zzAssert(k == 1, "each of them")
		}
	}
	zzReach("chain")
}

// ZZC18Many: many members and listeners.
func ZZC18Many() {
	n := zzParam("members")
	u := NewUStack()
	var log []int
	count := 0
	var eps []EndPoint
	var trs []*zzTran
	var sts []*zzStep
	seen := make([]int, 3*n)
	for i := 0; i < n; i++ {
		i := i
		u.SetEventListener(func(e Event) {
			if e.Type == 99 {
				seen[i]++
			}
			if i == n-1 {
				count++
			}
		})
		sts = append(sts, zzNewStep(i, 0, &log))
		u.AppendDataProcessor(sts[i])
	}
	if zzChoice("run first", 2) == 1 {
		u.Run()
	}
	count = 0
	for i := 0; i < n; i++ {
		i := i
		eps = append(eps, NewEndPoint("e", i/2).SetEventListener(func(_ EndPoint, e Event) {
			if e.Type == 99 {
				seen[n+i]++
			}
		}))
		trs = append(trs, zzNewTran("t"))
		u.AddEndPoint(eps[i])
		u.AddTransport(trs[i])
	}
	zzAssert(count == 2*n, "one event for each addition")
	zzAssert(len(u.GetEndPoint()) == n && len(u.GetTransport()) == n, "everything added is there")
	gone := []int{0, 1, n / 2, n - 1}[zzChoice("gone", 4)]
	u.DeleteEndPoint(eps[gone])
	u.DeleteTransport(trs[gone])
	zzAssert(count == 2*n+2, "one event for each deletion")
	u.PublishEvent(Event{Type: 99})
	zzSettle()
	for i := 0; i < n; i++ {
		k := 0
		for _, e := range sts[i].events {
			if e.Type == 99 {
				k++
			}
		}
		zzAssert(seen[i] == 1 && k == 1, "every listener and processor gets the event once")
		if i != gone {
			zzAssert(seen[n+i] == 1, "every endpoint gets the event once")
		} else {
			zzAssert(seen[n+i] == 0, "but not the deleted one")
		}
	}
	j := 0
	ge, gt := u.GetEndPoint(), u.GetTransport()
	zzAssert(len(ge) == n-1 && len(gt) == n-1, "exactly the others are left")
	for i := 0; i < n; i++ {
		if i != gone {
			zzAssert(ge[j] == eps[i] && gt[j] == Transport(trs[i]), "in order")
			j++
		}
	}
	zzReach("many")
}

// ZZC18Source: events of any type, source and content reach everybody once.
func ZZC18Source() {
	var seenE, seenL [2][]Event
	var log []int
	eps := []EndPoint{zzParty("e", 0, &seenE[0]), zzParty("e", 1, &seenE[1])}
	ps := []*zzStep{zzNewStep(0, 0, &log), zzNewStep(1, 0, &log)}
	tr := zzNewTran("t")
	u := NewUStack().AddEndPoint(eps[0]).AddEndPoint(eps[1]).AddTransport(tr).AppendDataProcessor(ps[0]).AppendDataProcessor(ps[1])
	for i := range seenL {
		i := i
		u.SetEventListener(func(e Event) { seenL[i] = append(seenL[i], e) })
	}
	if zzChoice("run", 2) == 1 {
		u.Run()
		zzSettle()
	}
	for i := range seenE {
		seenE[i], seenL[i], ps[i].events = nil, nil, nil
	}
	var want []Event
	any := []interface{}{nil, u, ps[0], ps[1], eps[0], eps[1], tr, "text", &ZMsg{"e"}}
	for i := 0; i < zzParam("events"); i++ {
		e := Event{Type: zzInt("type"), Source: any[zzChoice("source", len(any))], Data: any[zzChoice("data", len(any))]}
		// these are the stack's own
		zzAssume(e.Type != UStackEventEndpointAdded && e.Type != UStackEventEndpointDeleted)
		zzAssume(e.Type != UStackEventTransportAdded && e.Type != UStackEventTransportDeleted)
		zzAssert(u.PublishEvent(e) == u, "publishing returns the stack")
		want = append(want, e)
		zzSettle()
	}
	for _, seen := range [][]Event{seenE[0], seenE[1], seenL[0], seenL[1], ps[0].events, ps[1].events} {
		zzAssert(len(seen) == len(want), "every party gets every published event exactly once")
		for i := range want {
			zzAssert(seen[i].Type == want[i].Type && seen[i].Source == want[i].Source && seen[i].Data == want[i].Data, "as it was published, in order")
		}
	}
	zzReach("published")
}
