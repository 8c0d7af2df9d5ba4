package ustack

import "time"

// C23: data and event listeners of endpoints.

type zzHeard struct {
	n     int
	who   int // listener
	calls int
	since int // index of the first listener setting that may handle it
}

// ZZC23Listen: any order of setting listeners and delivering messages.
func ZZC23Listen() {
	ep := NewEndPoint("e", zzInt("session"))
	var sets []int // listeners set so far, -1 for none
	var msgs []*zzHeard
	handled := 0
	busy := false
	sets = append(sets, -1)
	listener := func(k int) func(EndPoint, EndPointData) {
		return func(e EndPoint, d EndPointData) {
			zzAssert(!busy, "a listener is not called while a call is in progress")
			busy = true
			zzYield()
			zzAssert(e == ep, "a listener is given its endpoint")
			m, ok := d.GetData().(*zzHeard)
			zzAssert(ok && m.calls == 0, "each message is handed to one listener call")
			m.calls++
			m.who = k
			zzAssert(m.n == handled, "messages are handed over in order of delivery")
			handled++
			// one of the listeners set when the message arrived or later
			found := false
			for _, s := range sets[m.since:] {
				if s == k {
					found = true
				}
			}
			zzAssert(found, "a message is handed to a listener that is set")
			zzReach("heard")
			busy = false
		}
	}
	set := func(k int) {
		// while the setting is in progress the old or the new one may be used
		sets = append(sets, k)
		if k < 0 {
			ep.SetDataListener(nil)
		} else {
			ep.SetDataListener(listener(k))
		}
		zzYield()
	}
	for i := 0; i < zzParam("ops"); i++ {
		switch zzChoice("op", 4) {
		case 0:
			set(0)
		case 1:
			set(1)
			zzReach("replaced")
		case 2:
			set(-1)
		case 3:
			m := &zzHeard{n: len(msgs), since: len(sets) - 1}
			// a message that meets the removal may go to the removed one
			for m.since > 0 && sets[m.since] < 0 {
				m.since--
			}
			msgs = append(msgs, m)
			ep.GetRxChannel() <- NewEndPointData().SetData(m)
			zzYield()
		}
	}
	zzSettle()
	left := zzRx(ep)
	if sets[len(sets)-1] >= 0 {
		zzAssert(len(left) == 0, "with a listener set no message is left over")
	}
	zzAssert(handled+len(left) == len(msgs), "no message is lost")
	for i, d := range left {
		zzAssert(d.GetData() == interface{}(msgs[handled+i]), "messages not handed over can still be read")
		zzReach("left")
	}
	zzReach("done")
}

// ZZC23Self: a listener replaces or removes itself, another goroutine delivers.
func ZZC23Self() {
	ep := NewEndPoint("e", 0)
	var got []int
	n := zzParam("msgs")
	at := zzFork(zzRange("at", 0, n-1))
	second := func(e EndPoint, d EndPointData) {
		got = append(got, 100+d.GetData().(int))
	}
	ep.SetDataListener(func(e EndPoint, d EndPointData) {
		v := d.GetData().(int)
		got = append(got, v)
		if v == at {
			e.SetDataListener(second)
		}
	})
	end := make(chan bool, 1)
	zzGo(func() {
		for i := 0; i < n; i++ {
			ep.GetRxChannel() <- NewEndPointData().SetData(i)
			zzYield()
		}
		end <- true
	})
	<-end
	zzSettle()
	zzAssert(len(got) == n, "every message is heard once")
	for i, v := range got {
		w := i
		if i > at {
			w += 100
		}
		zzAssert(v == w, "in order, by the listener set at that time")
	}
	zzReach("done")
}

// ZZC23Two: two goroutines set listeners while messages are there.
func ZZC23Two() {
	ep := NewEndPoint("e", 0)
	n := zzParam("msgs")
	early := zzFork(zzRange("early", 0, n))
	var got []int
	busy := false
	l := func(e EndPoint, d EndPointData) {
		zzAssert(!busy, "a listener is not called while a call is in progress")
		busy = true
		zzYield()
		got = append(got, d.GetData().(int))
		busy = false
	}
	for i := 0; i < early; i++ {
		ep.GetRxChannel() <- NewEndPointData().SetData(i)
	}
	end := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		zzGo(func() {
			ep.SetDataListener(l)
			end <- true
		})
	}
	for i := early; i < n; i++ {
		ep.GetRxChannel() <- NewEndPointData().SetData(i)
	}
	<-end
	<-end
	zzSettle()
	zzAssert(len(got) == n, "every message is heard once")
	for i, v := range got {
		zzAssert(v == i, "in order")
	}
	zzReach("done")
}

// ZZC23Events: event listeners get every event, directly and through a stack.
func ZZC23Events() {
	n := zzParam("events")
	ep := NewEndPoint("e", 0)
	var want, got []Event
	on := false
	u := NewUStack().AddEndPoint(ep)
	if zzChoice("run", 2) == 1 {
		u.Run()
	}
	var data interface{} = &ZMsg{"d"}
	for i := 0; i < n; i++ {
		switch zzChoice("op", 4) {
		case 0:
			ep.SetEventListener(func(e EndPoint, ev Event) {
				zzAssert(e == ep, "an event listener is given its endpoint")
				got = append(got, ev)
			})
			on = true
		case 1:
			ep.SetEventListener(nil)
			on = false
		case 2, 3:
			ev := Event{Type: zzInt("type"), Source: u, Data: data}
			switch zzChoice("about", 3) {
			case 1:
				ev.Data = nil
			case 2:
				// about the endpoint itself
				zzAssume(ev.Type != UStackEventEndpointAdded && ev.Type != UStackEventEndpointDeleted)
				ev.Data = ep
			}
			if zzChoice("via stack", 2) == 1 {
				u.PublishEvent(ev)
			} else {
				ep.OnEvent(ev)
			}
			if on {
				want = append(want, ev)
			}
		}
	}
	zzAssert(len(got) == len(want), "every event is heard once, none without a listener")
	for i := range got {
		zzAssert(got[i].Type == want[i].Type && got[i].Data == want[i].Data && got[i].Source == want[i].Source, "events are heard in order, unchanged")
		zzReach("heard")
	}
	zzReach("done")
}

// ZZC23Many: many messages wait when the listener is set.
func ZZC23Many() {
	ep := NewEndPoint("e", 0)
	n := []int{1, 20, zzParam("msgs")}[zzChoice("count", 3)]
	more := 2
	var got []int
	busy := false
	l := func(e EndPoint, d EndPointData) {
		zzAssert(!busy, "a listener is not called while a call is in progress")
		busy = true
		zzYield()
		got = append(got, d.GetData().(int))
		busy = false
	}
	for i := 0; i < n; i++ {
		ep.GetRxChannel() <- NewEndPointData().SetData(i)
	}
	ep.SetDataListener(l)
	for i := 0; i < more; i++ {
		ep.GetRxChannel() <- NewEndPointData().SetData(n + i)
	}
	zzSettle()
	zzSleep(time.Duration(zzRange("pause", 1, int(24*time.Hour))))
	ep.GetRxChannel() <- NewEndPointData().SetData(n + more)
	zzSettle()
	zzAssert(len(got) == n+more+1, "every message is heard once")
	for i, v := range got {
		zzAssert(v == i, "in order")
	}
	zzReach("done")
}

// ZZC23Slow: a listener takes any time for each message.
func ZZC23Slow() {
	ep := NewEndPoint("e", 0)
	n := zzParam("msgs")
	var got []int
	busy := false
	ep.SetDataListener(func(e EndPoint, d EndPointData) {
		zzAssert(!busy, "a listener is not called while a call is in progress")
		busy = true
		zzSleep(time.Duration(zzRange("work", 1, int(24*time.Hour))))
		got = append(got, d.GetData().(int))
		busy = false
	})
	for i := 0; i < n; i++ {
		ep.GetRxChannel() <- NewEndPointData().SetData(i)
		if zzChoice("wait", 2) == 1 {
			zzSleep(time.Duration(zzRange("pause", 1, int(24*time.Hour))))
		}
	}
	zzSleep(time.Duration(n+1) * 24 * time.Hour)
	zzAssert(len(got) == n, "every message is heard once")
	for i, v := range got {
		zzAssert(v == i, "in order")
	}
	zzReach("done")
}

// ZZC23React: event and data listeners that change the listeners of their own
// endpoint or of another one, send, or raise further events.
func ZZC23React() {
	ep, other := NewEndPoint("e", 0), NewEndPoint("o", 1)
	u := NewUStack().AddEndPoint(ep).AddEndPoint(other)
	if zzChoice("run", 2) == 1 {
		u.Run()
		zzSettle()
	}
	got, gotO, events, eventsO := 0, 0, 0, 0
	other.SetEventListener(func(e EndPoint, ev Event) { eventsO++ })
	what := zzChoice("what", 5)
	act := func() {
		switch what {
		case 0:
			ep.SetDataListener(func(e EndPoint, d EndPointData) { got++ })
		case 1:
			other.SetDataListener(func(e EndPoint, d EndPointData) { gotO++ })
		case 2:
			ep.SetDataListener(nil)
		case 3:
			other.OnEvent(Event{Type: 1001})
		case 4:
			ep.SetEventListener(nil)
		}
	}
	fromData := zzBool("from the data listener")
	if fromData {
		ep.SetDataListener(func(e EndPoint, d EndPointData) {
			got++
			act()
		})
	} else {
		ep.SetEventListener(func(e EndPoint, ev Event) {
			events++
			act()
		})
	}
	zzSettle()
	if fromData {
		ep.GetRxChannel() <- NewEndPointData().SetData(1)
	} else {
		zzGo(func() { ep.OnEvent(Event{Type: 1000}) })
	}
	zzSettle()
	if fromData {
		zzAssert(got == 1, "a message is handed to the listener")
	} else {
		zzAssert(events == 1, "an event is handed to the listener")
	}
	ep.GetRxChannel() <- NewEndPointData().SetData(2)
	other.GetRxChannel() <- NewEndPointData().SetData(3)
	zzSettle()
	want, wantO := 0, 0
	if fromData {
		want = 2
		if what == 2 {
			want = 1
		}
	} else if what == 0 {
		want = 1
	}
	if what == 1 {
		wantO = 1
	}
	zzAssert(got == want, "messages are handed to the listener that is set")
	zzAssert(gotO == wantO, "and to the one of the other endpoint")
	n := eventsO
	if what == 3 {
		zzAssert(n == events+got, "an event raised by a listener is heard")
	}
	zzGo(func() { other.OnEvent(Event{Type: 1002}) })
	zzSettle()
	zzAssert(eventsO == n+1, "events go on being heard")
	total := 1
	if fromData {
		total = 2
	}
	zzAssert(len(ep.GetRxChannel()) == total-want, "no message is lost")
	zzReach("done")
}
