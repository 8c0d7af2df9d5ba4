package ustack

import "io"

// C12: session addressing through two whole stacks.

// ZZC12Addr: any sessions, any destination, with or without an explicit one.
func ZZC12Addr() {
	n := zzParam("endpoints")
	var eps []EndPoint
	for i := 0; i < n; i++ {
		eps = append(eps, NewEndPoint("r", int(zzU32("rsession"))))
	}
	own := int(zzU32("own"))
	snd := NewEndPoint("s", own)
	wa, wb := zzNewWire()
	cd := zzChoice("codec", 2)
	k := zzChoice("below", 3) // what lies below the session resolver
	mk := func() []DataProcessor {
		ps := []DataProcessor{zzCodec(cd), NewSessionResolver()}
		if k == 1 {
			ps = append(ps, NewFrameDecoder())
		} else if k == 2 {
			ps = append(ps, NewStatCounter())
		}
		return ps
	}
	a, ta := zzStack(64, []EndPoint{snd}, mk()...)
	b, tb := zzStack(64, eps, mk()...)
	a.Run()
	b.Run()
	ta.next <- wa
	tb.next <- wb
	zzSettle()

	text := zzStr("text", zzRange("len", 1, zzParam("len")))
	epd := NewEndPointData().SetConnection(wa).SetData(zzMessage(cd, text))
	dest := own
	if zzChoice("explicit", 2) == 1 {
		dest = int(zzU32("dest"))
		epd.SetDestinationSession(dest)
	}
	snd.GetTxChannel() <- epd
	zzSettle()

	target := -1
	for i, e := range eps {
		if e.GetSession() == dest {
			target = i
			break
		}
	}
	for i, e := range eps {
		got := zzRx(e)
		if i != target {
			zzAssert(len(got) == 0, "no other endpoint receives the message")
			continue
		}
		zzAssert(len(got) == 1, "the addressed endpoint receives the message once")
		s, ok := zzText(cd, got[0].GetData())
		zzAssert(ok, "as a message of the right type")
		zzSameStr(s, text, "message")
		zzAssert(got[0].GetConnection() == wb, "with its connection")
		zzReach("delivered")
	}
	zzAssert(len(zzRx(snd)) == 0, "the sender does not receive its own message")
	if target < 0 {
		zzReach("nobody addressed")
	}
}

// ZZC12Seq: several messages from two endpoints, settings changed in between.
func ZZC12Seq() {
	s := []int{int(zzU32("s0")), int(zzU32("s1"))}
	zzAssume(s[0] != s[1])
	var ea, eb []EndPoint
	for _, x := range s {
		ea = append(ea, NewEndPoint("a", x))
		eb = append(eb, NewEndPoint("b", x))
	}
	wa, wb := zzNewWire()
	mk := func() []DataProcessor { return []DataProcessor{NewBytesCodec(), NewSessionResolver()} }
	a, ta := zzStack(64, ea, mk()...)
	b, tb := zzStack(64, eb, mk()...)
	a.Run()
	b.Run()
	ta.next <- wa
	tb.next <- wb
	zzSettle()
	epd := NewEndPointData().SetConnection(wa)
	explicit, dest := false, 0
	var all []EndPointData
	var texts []string
	for i := 0; i < zzParam("msgs"); i++ {
		text := zzStr("text", 2)
		epd.SetData([]byte(text))
		switch zzChoice("setting", 3) {
		case 1:
			d := zzChoice("dest", 2)
			explicit, dest = true, d
			epd.SetDestinationSession(s[d])
		case 2:
			explicit = false
			epd.ClearDestinationSession()
		}
		from := zzChoice("from", 2)
		want := from
		if explicit {
			want = dest
		}
		ea[from].GetTxChannel() <- epd
		zzSettle()
		for j, e := range eb {
			got := zzRx(e)
			if j != want {
				zzAssert(len(got) == 0, "no other endpoint receives the message")
				continue
			}
			zzAssert(len(got) == 1, "the addressed endpoint receives the message once")
			t, ok := zzText(zzCBytes, got[0].GetData())
			zzAssert(ok, "as a message of the right type")
			zzSameStr(t, text, "message")
			zzAssert(got[0].GetConnection() == wb, "with its connection")
			zzReach("delivered")
			all, texts = append(all, got[0]), append(texts, text)
		}
	}
	for i, d := range all {
		t, ok := zzText(zzCBytes, d.GetData())
		zzAssert(ok && d.GetConnection() == wb, "a received message stays with its connection")
		zzSameStr(t, texts[i], "a received message stays as it was")
	}
}

// ZZC12Off: without session handling everything goes to session 0.
func ZZC12Off() {
	eps := []EndPoint{NewEndPoint("r", int(zzU32("s0"))), NewEndPoint("r", int(zzU32("s1")))}
	snd := NewEndPoint("s", int(zzU32("own")))
	wa, wb := zzNewWire()
	mk := func() []DataProcessor {
		ps := []DataProcessor{NewBytesCodec()}
		if zzChoice("resolver", 2) == 1 {
			ps = append(ps, NewSessionResolver().SetEnable(false))
		}
		return ps
	}
	a, ta := zzStack(64, []EndPoint{snd}, mk()...)
	b, tb := zzStack(64, eps, mk()...)
	a.Run()
	b.Run()
	ta.next <- wa
	tb.next <- wb
	zzSettle()
	snd.GetTxChannel() <- NewEndPointData().SetConnection(wa).SetData([]byte("hi")).SetDestinationSession(int(zzU32("dest")))
	zzSettle()
	target := -1
	for i, e := range eps {
		if e.GetSession() == 0 && target < 0 {
			target = i
		}
		got := len(zzRx(e))
		if i == target {
			zzAssert(got == 1, "without session handling session 0 receives everything")
			zzReach("session 0")
		} else {
			zzAssert(got == 0, "without session handling only session 0 receives")
		}
	}
}

// ZZC12Val: messages of any type and value, also empty ones, by a codec of
// the application.
func ZZC12Val() {
	vals := []interface{}{"", "x", 0, false, []byte{}, ZMsg{}, (*ZMsg)(nil), 0.0, error(nil), struct{}{}}
	enc := func(m interface{}, w io.Writer) error {
		_, err := w.Write([]byte{m.(byte)})
		return err
	}
	dec := func(r io.Reader) (interface{}, error) {
		b := []byte{0}
		_, err := r.Read(b)
		if err != nil {
			return nil, err
		}
		return vals[b[0]], nil
	}
	s, d := int(zzU32("s")), int(zzU32("d"))
	zzAssume(s != d)
	snd := NewEndPoint("s", s)
	es := []EndPoint{NewEndPoint("r", s), NewEndPoint("r", d)}
	wa, wb := zzNewWire()
	a, ta := zzStack(64, []EndPoint{snd}, NewGenericCodec(nil, enc, dec), NewSessionResolver())
	b, tb := zzStack(64, es, NewGenericCodec(nil, enc, dec), NewSessionResolver())
	a.Run()
	b.Run()
	ta.next <- wa
	tb.next <- wb
	zzSettle()
	for i := 0; i < zzParam("msgs"); i++ {
		k := zzChoice("value", len(vals))
		epd := NewEndPointData().SetConnection(wa).SetData(byte(k))
		to := zzChoice("to", 2)
		if to == 1 {
			epd.SetDestinationSession(d)
		}
		snd.GetTxChannel() <- epd
		zzSettle()
		zzAssert(len(zzRx(es[1-to])) == 0, "no other endpoint receives the message")
		got := zzRx(es[to])
		if vals[k] == nil {
			zzAssert(len(got) == 0, "where there is no message nobody receives one")
			continue
		}
		zzAssert(len(got) == 1, "the addressed endpoint receives the message once")
		zzAssert(got[0].GetConnection() == TransportConnection(wb), "with its connection")
		m := got[0].GetData()
		if k == 4 {
			x, ok := m.([]byte)
			zzAssert(ok && x != nil && len(x) == 0, "the message is unmodified")
		} else {
			zzAssert(m == vals[k], "the message is unmodified")
		}
		zzReach("delivered")
	}
}

// zzShort is a user-defined endpoint with a small receive queue.
type zzShort struct {
	EndPoint
	rx chan EndPointData
}

func (e *zzShort) GetRxChannel() chan EndPointData { return e.rx }

// ZZC12Slow: an endpoint that reads late gets everything.
func ZZC12Slow() {
	s := int(zzU32("session"))
	snd := NewEndPoint("s", s)
	rx := make(chan EndPointData, zzChoice("queue", 3))
	wa, wb := zzNewWire()
	mk := func() []DataProcessor { return []DataProcessor{NewBytesCodec(), NewSessionResolver()} }
	a, ta := zzStack(64, []EndPoint{snd}, mk()...)
	b, tb := zzStack(64, []EndPoint{&zzShort{NewEndPoint("r", s), rx}}, mk()...)
	a.Run()
	b.Run()
	ta.next <- wa
	tb.next <- wb
	n := zzParam("msgs")
	v := zzU8("v")
	for i := 0; i < n; i++ {
		snd.GetTxChannel() <- NewEndPointData().SetConnection(wa).SetData([]byte{v + byte(i)})
	}
	zzSettle()
	for i := 0; i < n; i++ {
		d := <-rx
		x, ok := d.GetData().([]byte)
		zzAssert(ok && len(x) == 1 && x[0] == v+byte(i), "every message arrives once, in order")
		zzAssert(d.GetConnection() == TransportConnection(wb), "with its connection")
		zzSettle()
	}
	zzAssert(len(rx) == 0, "and nothing else")
	zzReach("done")
}
