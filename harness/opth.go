package ustack

// C24: options and fields.

// zzOpt is an object with options.
type zzOpt struct {
	set func(n string, v interface{}) bool // whether the object itself is returned
	get func(n string) interface{}
}

const zzOptKinds = 24

func zzOptProc(p DataProcessor) zzOpt {
	return zzOpt{func(n string, v interface{}) bool { return p.SetOption(n, v) == p }, p.GetOption}
}

func zzOptTran(t Transport) zzOpt {
	return zzOpt{func(n string, v interface{}) bool { return t.SetOption(n, v) == t }, t.GetOption}
}

func zzProcKind(k int) DataProcessor {
	switch k {
	case 0, 1, 2, 3, 4:
		return zzHeader(k)
	case 5, 6, 7, 8, 9:
		return zzCodec(k - 5)
	case 10:
		return NewFilter()
	case 11:
		return NewForwarder()
	case 12:
		return NewEcho()
	case 13:
		return NewDiscarder()
	case 14:
		return NewLoopback()
	case 15:
		return NewFlowController()
	case 16:
		return NewUpperDeck()
	case 17:
		return NewLowerDeck()
	}
	return NewProcBase()
}

const zzProcKinds = 19

func zzOptObj(k int) zzOpt {
	if k < zzProcKinds {
		return zzOptProc(zzProcKind(k))
	}
	switch k {
	case 19:
		return zzOptTran(NewReferenceTransport("t"))
	case 20:
		return zzOptTran(NewTCPTransport("t"))
	case 21:
		return zzOptTran(NewUDSTransport("t"))
	case 22:
		f := NewFeatBase()
		return zzOpt{func(n string, v interface{}) bool { return f.SetOption(n, v) == f }, f.GetOption}
	case 23:
		u := NewUStack()
		return zzOpt{func(n string, v interface{}) bool { return u.SetOption(n, v) == u }, u.GetOption}
	}
	c := NewUStackContext()
	return zzOpt{func(n string, v interface{}) bool { return c.SetOption(n, v) == c }, c.GetOption}
}

// zzValue is an option value of any type.
func zzValue(k int) interface{} {
	switch k {
	case 0:
		return zzInt("int")
	case 1:
		return zzU8("byte")
	case 2:
		return zzBool("bool")
	case 3:
		return zzStr("string", zzRange("slen", 0, 5))
	}
	return zzU64("u64")
}

// ZZC24Options: any sequence of setting options, on two objects of a kind.
func ZZC24Options() {
	k := zzChoice("kind", zzOptKinds+1)
	obs := []zzOpt{zzOptObj(k), zzOptObj(k)}
	type ent struct {
		ob   int
		name string
		v    interface{}
	}
	var model []ent
	look := func(ob int, name string) interface{} {
		for i := len(model) - 1; i >= 0; i-- {
			if model[i].ob == ob && model[i].name == name {
				return model[i].v
			}
		}
		return nil
	}
	for i := 0; i < zzParam("ops"); i++ {
		ob := 0
		if i > 0 {
			ob = zzChoice("object", 2)
		}
		name := zzStr("name", 3*zzChoice("namelen", 2))
		v := zzValue((k + i) % 5)
		if i > 0 && zzChoice("nil", 2) == 1 {
			v = nil
		}
		zzAssert(obs[ob].set(name, v), "setting an option returns the object itself")
		model = append(model, ent{ob, name, v})
	}
	probe := zzStr("probe", 3*zzChoice("probelen", 2))
	ob := zzChoice("object", 2)
	got, want := obs[ob].get(probe), look(ob, probe)
	zzAssert(got == want, "an option has the value set last, and is absent if never set")
	if want != nil {
		zzReach("present")
	} else {
		zzReach("absent")
	}
	zzAssert(zzOptObj(k).get(probe) == nil, "a new object has no options")
}

type zzMyInt int
type zzMyBool bool
type zzMyBytes []byte

// ZZC24Parse: every parse function on every dynamic type.
func ZZC24Parse() {
	t := zzChoice("type", 22)
	i, b, bo := zzInt("int"), zzU8("byte"), zzBool("bool")
	bs := zzBytes("bytes", zzRange("len", 0, 20))
	var o interface{}
	switch t {
	case 0:
		o = i
	case 1:
		o = b
	case 2:
		o = bo
	case 3:
		o = bs
	case 4:
		o = "text"
	case 5:
		o = uint64(i)
	case 6:
		o = int32(i)
	case 7:
		o = nil
	case 8:
		o = int64(i)
	case 9:
		o = int8(i)
	case 10:
		o = int16(i)
	case 11:
		o = uint(i)
	case 12:
		o = uint32(i)
	case 13:
		o = uint16(i)
	case 14:
		o = zzMyInt(i)
	case 15:
		o = zzMyBool(bo)
	case 16:
		o = zzMyBytes(bs)
	case 17:
		o = &i
	case 18:
		o = 1.0
	case 19:
		o = []interface{}{i}
	case 20:
		o = []string{"1", "true"}[zzChoice("text", 2)]
	case 21:
		o = [2]byte{b, b}
	}
	di, db, dbo := zzInt("dint"), zzU8("dbyte"), zzBool("dbool")
	ri, ok := OptionParseInt(o, di)
	zzAssert(ok == (t == 0), "an int option is recognised exactly if it is an int")
	if t == 0 {
		zzAssert(ri == i, "its value")
	} else {
		zzAssert(ri == di, "else the default")
	}
	rb, ok := OptionParseByte(o, db)
	zzAssert(ok == (t == 1), "a byte option is recognised exactly if it is a byte")
	if t == 1 {
		zzAssert(rb == b, "its value")
	} else {
		zzAssert(rb == db, "else the default")
	}
	rbo, ok := OptionParseBool(o, dbo)
	zzAssert(ok == (t == 2), "a bool option is recognised exactly if it is a bool")
	if t == 2 {
		zzAssert(rbo == bo, "its value")
	} else {
		zzAssert(rbo == dbo, "else the default")
	}
	rbs, ok := OptionParseByteSlice(o)
	zzAssert(ok == (t == 3), "a slice option is recognised exactly if it is a slice")
	if t == 3 {
		zzSame("k", rbs, bs, "its value")
	} else {
		zzAssert(rbs == nil, "else nothing")
	}
	zzReach("parsed")
}

// ZZC24Fields: fields of contexts, endpoint data, endpoints, stacks,
// processors, transports and features.
func ZZC24Fields() {
	s1, s2 := zzStr("s1", zzRange("l1", 0, 5)), zzStr("s2", zzRange("l2", 0, 5))
	n1, n2 := zzInt("n1"), zzInt("n2")
	c1, c2 := &zzConn{name: "1"}, &zzConn{name: "2"}
	m1, m2 := &ZMsg{"1"}, &ZMsg{"2"}
	twice := zzBool("twice")
	// the value expected in the end
	S, N, C, M := s1, n1, c1, m1
	if twice {
		S, N, C, M = s2, n2, c2, m2
	}
	switch zzChoice("object", 7) {
	case 0:
		x, y := NewUStackContext(), NewUStackContext()
		b1, b2 := UBufAlloc(4), UBufAlloc(4)
		B := b1
		zzAssert(x.GetConnection() == nil && x.GetBuffer() == nil && x.GetMessage() == nil, "a new context is empty")
		zzAssert(x.SetConnection(c1) == x && x.SetBuffer(b1) == x && x.SetMessage(m1) == x, "setters return the object")
		if twice {
			B = b2
			x.SetMessage(m2)
			x.SetConnection(c2)
			x.SetBuffer(b2)
		}
		zzAssert(x.GetConnection() == C && x.GetBuffer() == B && x.GetMessage() == M, "a context field has the value set last")
		zzAssert(y.GetConnection() == nil && y.GetBuffer() == nil && y.GetMessage() == nil, "and other contexts are not affected")
		x.SetConnection(nil)
		x.SetBuffer(nil)
		x.SetMessage(nil)
		zzAssert(x.GetConnection() == nil && x.GetBuffer() == nil && x.GetMessage() == nil, "also when it is cleared")
	case 1:
		x, y := NewEndPointData(), NewEndPointData()
		zzAssert(x.GetConnection() == nil && x.GetData() == nil && !x.HasDestinationSession(), "new endpoint data is empty")
		zzAssert(x.SetConnection(c1) == x && x.SetData(m1) == x, "setters return the object")
		if twice {
			x.SetConnection(c2)
			x.SetData(m2)
		}
		zzAssert(!x.HasDestinationSession(), "no destination unless set")
		zzAssert(x.SetDestinationSession(n1) == x, "setters return the object")
		if twice {
			x.SetDestinationSession(n2)
		}
		zzAssert(x.HasDestinationSession() && x.GetDestinationSession() == N, "the destination set last")
		zzAssert(x.GetConnection() == C && x.GetData() == M, "a field has the value set last")
		zzAssert(x.ClearDestinationSession() == x && !x.HasDestinationSession(), "no destination after clearing")
		x.SetDestinationSession(n1)
		zzAssert(x.HasDestinationSession() && x.GetDestinationSession() == n1, "a destination set again")
		zzAssert(x.GetConnection() == C && x.GetData() == M, "other fields keep their values")
		zzAssert(y.GetConnection() == nil && y.GetData() == nil && !y.HasDestinationSession(), "and other objects are not affected")
	case 2:
		x, y := NewEndPoint(s1, n1), NewEndPoint(s1, n1)
		zzAssert(x.GetName() == s1 && x.GetSession() == n1, "an endpoint has the given name and session")
		if twice {
			zzAssert(x.SetName(s2) == x && x.SetSession(n2) == x, "setters return the object")
		}
		zzAssert(x.GetName() == S && x.GetSession() == N, "a field has the value set last")
		zzAssert(y.GetName() == s1 && y.GetSession() == n1, "and other objects are not affected")
		zzAssert(x.GetTxChannel() == x.GetTxChannel() && x.GetTxChannel() != x.GetRxChannel(), "an endpoint has two different channels")
		zzAssert(x.GetTxChannel() != y.GetTxChannel() && x.GetRxChannel() != y.GetRxChannel(), "of its own")
	case 3:
		x, y := NewUStack(), NewUStack()
		d := y.GetName()
		zzAssert(x.SetName(s1) == x, "setters return the object")
		if twice {
			x.SetName(s2)
		}
		zzAssert(x.GetName() == S && y.GetName() == d, "a stack has the name set last")
		f1, f2 := NewFeatBase().SetName("f1"), NewFeatBase().SetName("f2")
		zzAssert(x.GetFeature("f1") == nil && len(x.GetFeatures()) == 0, "no feature unless added")
		zzAssert(x.AddFeature(f1).AddFeature(f2) == x, "setters return the object")
		zzAssert(x.GetFeature("f1") == f1 && x.GetFeature("f2") == f2 && x.GetFeature("f3") == nil, "a feature is found by its name")
		fs := x.GetFeatures()
		zzAssert(len(fs) == 2 && fs[0] == f1 && fs[1] == f2 && len(y.GetFeatures()) == 0, "the features added")
	case 4:
		k := zzChoice("proc", zzProcKinds)
		x, y := zzProcKind(k), zzProcKind(k)
		d := y.GetName()
		zzAssert(x.SetName(s1) == x, "setters return the object")
		if twice {
			x.SetName(s2)
		}
		zzAssert(x.GetName() == S && y.GetName() == d, "a processor has the name set last")
		zzAssert(x.SetEnable(false) == x && x.ForServer(false) == x && x.SetUStack(nil) == x && x.SetUpper(nil) == x && x.SetLower(nil) == x, "setters return the object")
	case 5:
		mk := func(k int, n string) Transport {
			switch k {
			case 0:
				return NewReferenceTransport(n)
			case 1:
				return NewTCPTransport(n)
			}
			return NewUDSTransport(n)
		}
		k := zzChoice("tran", 3)
		x, y := mk(k, s1), mk(k, s2)
		zzAssert(x.GetName() == s1 && y.GetName() == s2, "a transport has the given name")
		zzAssert(x.SetAddress(s1) == x && x.ForServer(false) == x, "setters return the object")
		if twice {
			x.SetAddress(s2)
		}
		zzAssert(x.GetAddress() == S && y.GetAddress() == "", "a transport has the address set last")
	case 6:
		x, y := NewFeatBase(), NewFeatBase()
		d := y.GetName()
		zzAssert(x.SetName(s1) == x && x.SetUStack(nil) == x, "setters return the object")
		if twice {
			x.SetName(s2)
		}
		zzAssert(x.GetName() == S && y.GetName() == d, "a feature has the name set last")
	}
	zzReach("checked")
}

// ZZC24Stack: the MTU option decides the stack's MTU, else the default.
func ZZC24Stack() {
	u := NewUStack()
	want := 2048
	switch zzChoice("option", 3) {
	case 1:
		want = zzRange("mtu", 1, 1000000)
		u.SetOption("MTU", want)
	case 2:
		u.SetOption("MTU", "1500")
	}
	u.Run()
	zzAssert(u.GetMTU() == want, "the MTU is the option's value if it is an int, else the default")
	zzReach("mtu")
}
