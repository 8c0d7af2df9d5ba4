package ustack

// C09 robustness, C10 end-to-end identity, C11 whole or nothing.

// ZZC09Proc: one processor, arbitrary bytes in arbitrary chunks.
func ZZC09Proc() {
	k := zzChoice("proc", zzPHeaders+3)
	var p DataProcessor
	if k < zzPHeaders {
		p = zzHeader(k)
	} else {
		p = zzCodec(k - zzPHeaders)
	}
	l := zzNewLine(zzParam("mtu"), p).run()
	if zzChoice("enable", 2) == 0 {
		p.SetEnable(false)
	}
	c := &zzConn{name: "c"}
	for i := 0; i < zzParam("chunks"); i++ {
		n := zzRange("n", 0, zzParam("max"))
		l.recv(c, zzBytes("in", n))
	}
	zzReach("returned")
}

// ZZC09Chain: a whole stack, arbitrary bytes.
func ZZC09Chain() {
	a := zzChoice("first", zzPHeaders)
	b := zzChoice("second", zzPHeaders)
	cd := zzChoice("codec", 2)
	l := zzNewLine(zzParam("mtu"), zzCodec(cd), zzHeader(a), zzHeader(b)).run()
	if zzChoice("enable", 2) == 0 {
		l.ps[1+zzChoice("disabled", 2)].SetEnable(false)
	}
	c := &zzConn{name: "c"}
	for i := 0; i < zzParam("chunks"); i++ {
		n := zzRange("n", 0, zzParam("max"))
		l.recv(c, zzBytes("in", n))
	}
	zzReach("returned")
}

// ZZC09Codec: the structured codecs, arbitrary bytes.
func ZZC09Codec() {
	cd := zzCJSON + zzChoice("codec", 2)
	l := zzNewLine(zzParam("mtu"), zzCodec(cd)).run()
	c := &zzConn{name: "c"}
	l.recv(c, zzBytes("in", zzRange("n", 0, zzParam("max"))))
	zzReach("returned")
}

// ZZC09Cut: the encoding of a real message, cut anywhere.
func ZZC09Cut() {
	cd := zzChoice("codec", 5)
	l := zzNewLine(256, zzCodec(cd)).run()
	c := &zzConn{name: "c"}
	l.send(c, zzMessage(cd, zzLower("text", zzParam("text"))))
	zzAssert(len(l.bot.recs) == 1, "a message that fits is passed down")
	d := l.bot.recs[0].data
	n := zzFork(zzRange("cut", 0, len(d)-1))
	l.recv(c, d[:n])
	zzReach("returned")
	if cd >= zzCJSON {
		zzAssert(len(l.top.recs) == 0, "an incomplete encoding produces no message")
	}
}

// zzPair builds the same stack on both sides.
func zzPair(mtu int, mk func() []DataProcessor) (*zzLine, *zzLine) {
	return zzNewLine(mtu, mk()...).run(), zzNewLine(mtu, mk()...).run()
}

// zzTransfer sends msg through a and b and checks that it arrives unchanged.
func zzTransfer(a, b *zzLine, cd int, text string) {
	ca, cb := &zzConn{name: "a"}, &zzConn{name: "b"}
	ka, kb := len(a.bot.recs), len(b.top.recs)
	a.send(ca, zzMessage(cd, text))
	zzAssert(len(a.bot.recs) == ka+1, "a message that fits is passed down once")
	zzAssert(len(a.top.recs) == 0, "sending delivers nothing upwards")
	w := a.bot.recs[ka]
	zzAssert(w.conn == ca, "the message keeps its connection")
	if cd <= zzCGeneric {
		zzAssert(len(w.data) <= len(text)+a.stk.ovh, "the headers fit the declared overhead")
	}
	zzAssert(len(w.data) <= a.stk.mtu, "what is sent fits the MTU")
	b.recv(cb, w.data)
	zzAssert(len(b.bot.recs) == 0, "receiving sends nothing")
	zzAssert(len(b.top.recs) == kb+1, "the message arrives once")
	r := b.top.recs[kb]
	zzAssert(r.conn == cb, "with the connection it arrived on")
	got, ok := zzText(cd, r.msg)
	zzAssert(ok, "as a message of the right type")
	zzSameStr(got, text, "message")
	zzReach("arrived")
}

// ZZC10Any: any selection and order of header processors.
func ZZC10Any() {
	cd := zzChoice("codec", 3)
	n := zzChoice("count", zzParam("procs")+1)
	var ks []int
	var en []bool
	for i := 0; i < n; i++ {
		k := zzChoice("proc", zzPHeaders)
		for _, o := range ks {
			zzAssume(o != k)
		}
		ks = append(ks, k)
		en = append(en, zzChoice("enabled", 2) == 0 && k != zzPLoad)
	}
	mk := func() []DataProcessor {
		ps := []DataProcessor{zzCodec(cd)}
		for i, k := range ks {
			ps = append(ps, zzHeader(k).SetEnable(en[i]))
		}
		return ps
	}
	a, b := zzPair(zzParam("mtu"), mk)
	text := zzStr("text", zzRange("len", 1, a.stk.mtu-a.stk.ovh))
	zzTransfer(a, b, cd, text)
}

// ZZC10Full: all header processors, in every order.
func ZZC10Full() {
	var ks []int
	for i := 0; i < zzPHeaders; i++ {
		k := zzChoice("proc", zzPHeaders)
		for _, o := range ks {
			zzAssume(o != k)
		}
		ks = append(ks, k)
	}
	mk := func() []DataProcessor {
		ps := []DataProcessor{NewBytesCodec()}
		for _, k := range ks {
			ps = append(ps, zzHeader(k).SetEnable(k != zzPLoad))
		}
		return ps
	}
	a, b := zzPair(zzParam("mtu"), mk)
	for i := 0; i < zzParam("msgs"); i++ {
		text := zzStr("text", zzRange("len", 1, a.stk.mtu-a.stk.ovh))
		zzTransfer(a, b, zzCBytes, text)
	}
}

// ZZC10Struct: the structured codecs.
func ZZC10Struct() {
	cd := zzCJSON + zzChoice("codec", 2)
	k := zzChoice("proc", zzPHeaders)
	k2 := zzChoice("proc2", zzPHeaders)
	mk := func() []DataProcessor {
		return []DataProcessor{zzCodec(cd), zzHeader(k).SetEnable(k != zzPLoad), zzHeader(k2).SetEnable(k2 != zzPLoad)}
	}
	a, b := zzPair(128, mk)
	text := zzLower("text", zzFork(zzRange("len", 0, zzParam("text"))))
	zzTransfer(a, b, cd, text)
}

// ZZC11Send: any message, MTU and overhead: the complete encoding or nothing.
func ZZC11Send() {
	cd := zzChoice("codec", 3)
	p := zzCodec(cd)
	mtu := zzRange("mtu", 1, zzParam("mtu"))
	ovh := zzRange("ovh", 0, zzParam("mtu"))
	zzAssume(ovh < mtu)
	l := zzNewLine(mtu, p)
	l.stk.ovh = ovh
	text := zzStr("text", zzRange("len", 0, zzParam("max")))
	c := &zzConn{name: "c"}
	kind := zzChoice("kind", 3)
	var msg interface{}
	switch kind {
	case 0:
		msg = zzMessage(cd, text)
	case 1:
		msg = zzWrong(cd, text)
	}
	ctx := NewUStackContext().SetConnection(c)
	if msg != nil {
		ctx.SetMessage(msg)
	}
	p.OnUpperData(ctx)
	zzAssert(len(l.top.recs) == 0, "sending delivers nothing upwards")
	if kind != 0 || len(text) == 0 || len(text) > mtu-ovh {
		zzAssert(len(l.bot.recs) == 0, "a message that is empty, too large or of the wrong type puts nothing on the wire")
		zzReach("dropped")
		return
	}
	zzAssert(len(l.bot.recs) == 1, "a message that fits is passed down once")
	zzSameStr(string(l.bot.recs[0].data), text, "encoding")
	zzReach("sent")
}

type zzMyStr string
type zzMyRaw []byte
type zzNamed struct{ s string }

func (n zzNamed) String() string               { return n.s }
func (n zzNamed) MarshalText() ([]byte, error) { return []byte(n.s), nil }
func (n zzNamed) Bytes() []byte                { return []byte(n.s) }
func (n zzNamed) Read(p []byte) (int, error)   { return copy(p, n.s), nil }

// zzWrong is a message of a type the codec does not send.
func zzWrong(cd int, text string) interface{} {
	switch zzChoice("wrong", 14) {
	case 0:
		return 42
	case 1:
		return zzErr
	case 2:
		return zzNamed{"abc"}
	case 3:
		return &zzNamed{"abc"}
	case 4:
		if cd == zzCBytes {
			return text
		}
		return []byte(text)
	case 5:
		return &text
	case 6:
		return zzMyStr("abc")
	case 7:
		return zzMyRaw("abc")
	case 8:
		return []rune("abc")
	case 9:
		return []string{"abc"}
	case 10:
		return [][]byte{[]byte("abc")}
	case 11:
		return [3]byte{1, 2, 3}
	case 12:
		return ZMsg{"abc"}
	}
	return 'a'
}

// ZZC11Struct: the structured codecs, any MTU and overhead.
func ZZC11Struct() {
	cd := zzCJSON + zzChoice("codec", 2)
	n := zzFork(zzRange("len", 0, zzParam("text")))
	text := zzLower("text", n)
	c := &zzConn{name: "c"}
	big := zzNewLine(512, zzCodec(cd))
	big.send(c, zzMessage(cd, text))
	zzAssert(len(big.bot.recs) == 1, "a message that fits is passed down once")
	enc := big.bot.recs[0].data
	p := zzCodec(cd)
	mtu := zzRange("mtu", 1, 100)
	ovh := zzRange("ovh", 0, 40)
	zzAssume(ovh < mtu)
	l := zzNewLine(mtu, p)
	l.stk.ovh = ovh
	l.send(c, zzMessage(cd, text))
	if len(enc) > mtu-ovh {
		zzAssert(len(l.bot.recs) == 0, "a message that is too large puts nothing on the wire")
		zzReach("dropped")
		return
	}
	zzAssert(len(l.bot.recs) == 1, "a message that fits is passed down once")
	zzSame("k", l.bot.recs[0].data, enc, "encoding")
	zzReach("sent")
}

// ZZC11Fail: an encoding that fails, or a generic encoder that writes nothing.
func ZZC11Fail() {
	c := &zzConn{name: "c"}
	var l *zzLine
	switch zzChoice("how", 3) {
	case 0:
		l = zzNewLine(64, zzCodec(zzCJSON+zzChoice("codec", 2)))
		l.send(c, make(chan int))
	case 1:
		l = zzNewLine(64, zzCodec(zzCGeneric))
		l.send(c, "")
	case 2:
		l = zzNewLine(64, NewGenericCodec(nil, nil, nil))
		l.send(c, "abc")
		l.recv(c, []byte("abc"))
	}
	zzAssert(len(l.bot.recs) == 0, "a failing or empty encoding puts nothing on the wire")
	zzAssert(len(l.top.recs) == 0, "no decoder, no message")
	zzReach("nothing sent")
}

// ZZC11Recv: received buffers that are missing, empty or cannot be decoded.
func ZZC11Recv() {
	cd := zzChoice("codec", 5)
	l := zzNewLine(64, zzCodec(cd))
	c := &zzConn{name: "c"}
	switch zzChoice("how", 3) {
	case 0:
		l.recv(c, nil)
	case 1:
		l.ps[0].OnLowerData(NewUStackContext().SetConnection(c))
	case 2:
		zzAssume(cd >= zzCJSON)
		b := zzBytes("junk", zzParam("junk"))
		zzAssume(b[0] != '{' && b[0] != 0x17 && b[0] != ' ' && b[0] != '\n' && b[0] != '\t' && b[0] != '\r' && b[0] != 'n' && b[0] < 0x20 && b[0] > 0)
		l.recv(c, b)
	}
	zzAssert(len(l.top.recs) == 0, "an empty or undecodable buffer produces no message")
	zzAssert(len(l.bot.recs) == 0, "receiving sends nothing")
	zzReach("no message")
}

// ZZC10Again: several messages of any codec one after the other, with
// undecodable data in between; what was received stays as it was.
func ZZC10Again() {
	cd := zzChoice("codec", 5)
	a, b := zzPair(128, func() []DataProcessor { return []DataProcessor{zzCodec(cd), NewSessionResolver()} })
	ca, cb := &zzConn{name: "a"}, &zzConn{name: "b"}
	var texts []string
	for i := 0; i < zzParam("msgs"); i++ {
		n := zzChoice("len", 3)
		if n == 0 && cd < zzCJSON {
			n = 4
		}
		text := zzLower("text", n)
		for j := range text {
			zzAssume(text[j] >= 'a' && text[j] <= 'z')
		}
		texts = append(texts, text)
		a.send(ca, zzMessage(cd, text))
		zzAssert(len(a.bot.recs) == i+1, "a message that fits is passed down once")
		zzAssert(a.bot.recs[i].conn == ca, "the message keeps its connection")
		d := a.bot.recs[i].data
		if zzBool("junk before") {
			switch zzChoice("junk", 3) {
			case 0:
				b.recv(cb, nil)
			case 1:
				if cd >= zzCJSON {
					b.recv(cb, d[:len(d)-1]) // the end is missing
				}
			case 2:
				if cd == zzCJSON {
					b.recv(cb, append(append([]byte{}, d[:len(d)-1]...), `,"S":0}`...))
				}
			}
		}
		zzAssert(len(b.top.recs) == i, "undecodable data produces no message")
		b.recv(cb, d)
		zzAssert(len(b.top.recs) == i+1, "the message arrives once")
	}
	for i, r := range b.top.recs {
		zzAssert(r.conn == cb, "with the connection it arrived on")
		got, ok := zzText(cd, r.msg)
		zzAssert(ok, "as a message of the right type")
		zzSameStr(got, texts[i], "every message is as it was sent, also after others were received")
	}
	zzReach("arrived")
	if cd == zzCJSON {
		// nothing of an earlier message is in one that leaves it out
		d := a.bot.recs[0].data
		if zzBool("after junk") {
			b.recv(cb, append(append([]byte{}, d[:len(d)-1]...), `,"S":0}`...))
		}
		b.recv(cb, append(append([]byte{}, d[:SessionFieldSizeInByte]...), "{}"...))
		zzAssert(len(b.top.recs) == len(texts)+1, "an empty object is a message")
		got, ok := zzText(cd, b.top.recs[len(texts)].msg)
		zzAssert(ok && got == "", "with nothing in it")
		zzReach("empty object")
	}
}

// ZZC11Raw: a message that no codec encoded, on a connection that carries bytes.
func ZZC11Raw() {
	var ps []DataProcessor
	for i, n := 0, 1+zzChoice("procs", 2); i < n; i++ {
		var p DataProcessor
		switch zzChoice("proc", 6) {
		case 0:
			p = NewHeartbeat()
		case 1:
			p = NewStatCounter()
		case 2:
			p = NewFrameDecoder()
		case 3:
			p = NewLoadBalancer()
		case 4:
			p = NewSessionResolver()
		default:
			p = NewFlowController()
		}
		ps = append(ps, p.SetEnable(zzChoice("on", 2) == 0))
	}
	l := zzNewLine(64, append(ps, NewLowerDeck())...)
	wrote := 0
	c := &zzConn{name: "c", wr: func(p []byte) (int, error) {
		wrote += len(p)
		return len(p), nil
	}}
	var msg interface{} = &ZMsg{"x"}
	if zzChoice("bytes", 2) == 0 {
		msg = zzBytes("data", zzRange("len", 0, 8))
	}
	if zzChoice("dir", 2) == 0 {
		l.send(c, msg)
		zzAssert(wrote == 0, "a message that was not encoded puts no byte on the wire")
		zzAssert(len(l.top.recs) == 0, "sending hands nothing up")
	} else {
		l.ps[len(ps)-1].OnLowerData(NewUStackContext().SetConnection(c).SetMessage(msg))
		zzAssert(wrote == 0, "receiving sends nothing")
	}
	zzAssert(!c.closed, "the connection stays open")
	zzReach("nothing sent")
}
