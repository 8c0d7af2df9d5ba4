package ustack

// C15: routing processors.

// zzMsgCtx is a context with arbitrary content.
func zzMsgCtx(c TransportConnection) (Context, *UBuf, interface{}) {
	ub := UBufAllocWithHeadReserved(64, 8)
	ub.Write(zzBytes("data", zzRange("len", 0, 40)))
	var m interface{} = &ZMsg{"m"}
	ctx := NewUStackContext().SetConnection(c).SetOption("session", 7)
	switch zzChoice("content", 3) {
	case 0:
		ctx.SetBuffer(ub).SetMessage(m)
	case 1: // not decoded yet
		ctx.SetBuffer(ub)
		m = nil
	case 2: // not encoded
		ctx.SetMessage(m)
		ub = nil
	}
	return ctx, ub, m
}

// zzPush gives ctx to p in one direction and says where it came out:
// 0 nowhere, 1 below, 2 above, 3 more than once or changed.
func zzPush(r *zzRig, up bool, ctx Context, ub *UBuf, m interface{}) int {
	kt, kb := len(r.top.recs), len(r.bot.recs)
	before := zzData(ub)
	if up {
		r.p.OnLowerData(ctx)
	} else {
		r.p.OnUpperData(ctx)
	}
	t, b := r.top.recs[kt:], r.bot.recs[kb:]
	zzAssert(len(t)+len(b) <= 1, "a message is never passed twice")
	if len(t)+len(b) == 0 {
		return 0
	}
	x, at := (*zzRec)(nil), 1
	if len(b) == 1 {
		x = b[0]
		zzAssert(!x.up, "what goes to the lower layer is sent, not received")
	} else {
		x, at = t[0], 2
		zzAssert(x.up, "what goes to the upper layer is received, not sent")
	}
	zzAssert(x.conn == ctx.GetConnection(), "with its connection")
	zzAssert(x.msg == m, "with its message")
	zzAssert(x.session == 7, "with its options")
	zzSame("k", x.data, before, "with its data")
	return at
}

func zzDir(up bool) int {
	if up {
		return 2
	}
	return 1
}

// ZZC15Filter: any number of functions with any answers.
func ZZC15Filter() {
	fwd := zzChoice("forwarder", 2) == 1
	n := zzChoice("functions", zzParam("functions")+1)
	c := &zzConn{name: "c"}
	up, calls := false, 0
	var cur Context
	hit := false
	fn := func(ctx Context, toUpper bool) bool {
		calls++
		zzAssert(ctx == cur, "the functions see the message")
		zzAssert(toUpper == up, "and its direction")
		zzAssert(!fwd || !hit, "a message that was taken is not offered again")
		v := zzBool("answer")
		if v {
			hit = true
		}
		return v
	}
	var p DataProcessor
	if fwd {
		var fs []ForwardFn
		for i := 0; i < n; i++ {
			fs = append(fs, fn)
		}
		p = NewForwarder(fs...)
	} else {
		var fs []FilterFn
		for i := 0; i < n; i++ {
			fs = append(fs, fn)
		}
		p = NewFilter(fs...)
	}
	r := zzNewRig(p, 64, 8)
	p.Run()
	for i := 0; i < zzParam("msgs"); i++ {
		on := zzChoice("enabled", 2) == 0
		p.SetEnable(on)
		up = zzChoice("up", 2) == 1
		ctx, ub, m := zzMsgCtx(c)
		cur, hit, calls = ctx, false, 0
		at := zzPush(r, up, ctx, ub, m)
		if !on {
			zzAssert(at == zzDir(up), "disabled: everything passes")
			zzReach("disabled")
			continue
		}
		zzAssert(calls <= n, "each function is asked at most once")
		zzAssert(hit || calls == n, "every function is asked until one answers yes")
		if hit != fwd {
			zzAssert(at == zzDir(up), "the message passes on in its direction")
			zzReach("passed")
		} else {
			zzAssert(at == 0, "the message goes no further")
			zzReach("dropped")
		}
	}
}

// ZZC15Fixed: discarder, echo, loopback and flow controller.
func ZZC15Fixed() {
	k := zzChoice("proc", 4)
	var p DataProcessor
	switch k {
	case 0:
		p = NewDiscarder()
	case 1:
		p = NewEcho()
	case 2:
		p = NewLoopback()
	case 3:
		p = NewFlowController()
	}
	r := zzNewRig(p, 64, 8)
	p.Run()
	c := &zzConn{name: "c", ref: zzChoice("ref", 2) == 1}
	for i := 0; i < zzParam("msgs"); i++ {
		on := zzChoice("enabled", 2) == 0
		p.SetEnable(on)
		up := zzChoice("up", 2) == 1
		ctx, ub, m := zzMsgCtx(c)
		want := zzDir(up)
		switch {
		case k == 2 && !up:
			want = 2
		case k == 2:
			zzAssume(false) // nothing is below a loopback
		case on && up && k == 0:
			want = 0
		case on && up && k == 1:
			want = 1
		}
		zzAssert(zzPush(r, up, ctx, ub, m) == want, "the message is passed, dropped or returned as documented")
		zzReach("routed")
	}
}

// ZZC15Echo: an echo in a whole stack returns what the peer sent, readably.
func ZZC15Echo() {
	cd := zzChoice("codec", 2)
	ref := zzChoice("where", 2) // below or above the codec
	k := zzChoice("proc", zzPHeaders)
	k2 := zzChoice("proc2", zzPHeaders+1)
	zzAssume(k2 != k)
	mk := func() []DataProcessor {
		ps := []DataProcessor{zzHeader(k).SetEnable(k != zzPLoad)}
		if k2 < zzPHeaders {
			ps = append(ps, zzHeader(k2).SetEnable(k2 != zzPLoad))
		}
		return ps
	}
	a := zzNewLine(64, append([]DataProcessor{zzCodec(cd)}, mk()...)...).run()
	var b *zzLine
	if ref == 0 {
		b = zzNewLine(64, append([]DataProcessor{zzCodec(cd), NewEcho()}, mk()...)...).run()
	} else {
		b = zzNewLine(64, append([]DataProcessor{NewEcho(), zzCodec(cd)}, mk()...)...).run()
	}
	ca, cb := &zzConn{name: "a"}, &zzConn{name: "b"}
	for i := 0; i < zzParam("msgs"); i++ {
		text := zzStr("text", zzRange("len", 1, 64-a.stk.ovh))
		ka, kb, kt := len(a.bot.recs), len(b.bot.recs), len(a.top.recs)
		a.send(ca, zzMessage(cd, text))
		zzAssert(len(a.bot.recs) == ka+1, "the message is sent")
		b.recv(cb, a.bot.recs[ka].data)
		zzAssert(len(b.top.recs) == 0, "an echo hands nothing up")
		zzAssert(len(b.bot.recs) == kb+1, "the message is sent back once")
		zzAssert(b.bot.recs[kb].conn == cb, "on the connection it came from")
		a.recv(ca, b.bot.recs[kb].data)
		zzAssert(len(a.top.recs) == kt+1, "the peer can read the echo")
		got, ok := zzText(cd, a.top.recs[kt].msg)
		zzAssert(ok, "as a message of the right type")
		zzSameStr(got, text, "echo")
		zzReach("echoed")
	}
}
