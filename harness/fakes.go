package ustack

import "errors"

// Recording stand-ins for the parts around the code under test.

var zzErr = errors.New("zz")

// zzConn is a connection. Reads come from rd, writes go to wr.
type zzConn struct {
	TransportConnection
	name   string
	ref    bool
	closed bool
	closes int
	rd     func(p []byte) (int, error)
	wr     func(p []byte) (int, error)
	getRef func() (interface{}, error)
	setRef func(interface{}) error
}

func (c *zzConn) GetName() string    { return c.name }
func (c *zzConn) UseReference() bool { return c.ref }
func (c *zzConn) Close() {
	c.closed = true
	c.closes++
}
func (c *zzConn) Closed() bool { return c.closed }
func (c *zzConn) Read(p []byte) (int, error) {
	if c.rd == nil {
		return 0, zzErr
	}
	return c.rd(p)
}
func (c *zzConn) Write(p []byte) (int, error) {
	if c.wr == nil {
		return 0, zzErr
	}
	return c.wr(p)
}
func (c *zzConn) GetReference() (interface{}, error) {
	if c.getRef == nil {
		return nil, zzErr
	}
	return c.getRef()
}
func (c *zzConn) SetReference(p interface{}) error {
	if c.setRef == nil {
		return zzErr
	}
	return c.setRef(p)
}

// zzRec is one recorded call.
type zzRec struct {
	up      bool // OnLowerData (towards the endpoint)
	ctx     Context
	conn    TransportConnection
	ub      *UBuf
	data    []byte // copy of the readable bytes at the time of the call
	msg     interface{}
	session interface{}
}

// zzEnd is the processor at one end of the chain under test.
type zzEnd struct {
	ProcBase
	recs   []*zzRec
	events []Event
	runs   int
	hook   func(*zzRec)
}

func zzNewEnd() *zzEnd {
	e := &zzEnd{ProcBase: NewProcBaseInstance("zzEnd")}
	e.ProcBase.SetWhere(e)
	return e
}

// zzData is a copy of the readable bytes; the buffer itself is not consumed.
func zzData(ub *UBuf) []byte {
	if ub == nil {
		return nil
	}
	b := make([]byte, ub.ReadableLength())
	ub.Peek(b)
	return b
}

func (e *zzEnd) rec(up bool, context Context) {
	r := &zzRec{up: up, ctx: context, conn: context.GetConnection(), ub: context.GetBuffer(), msg: context.GetMessage(), session: context.GetOption("session")}
	r.data = zzData(r.ub)
	e.recs = append(e.recs, r)
	if e.hook != nil {
		e.hook(r)
	}
}
func (e *zzEnd) OnUpperData(context Context) { e.rec(false, context) }
func (e *zzEnd) OnLowerData(context Context) { e.rec(true, context) }
func (e *zzEnd) OnEvent(event Event)         { e.events = append(e.events, event) }
func (e *zzEnd) Run() DataProcessor {
	e.runs++
	return e
}

// zzStk is the stack the processor under test is attached to.
type zzStk struct {
	UStack
	name   string
	mtu    int
	ovh    int
	events []Event
	hook   func(Event)
	eps    []EndPoint
	trs    []Transport
}

func (s *zzStk) GetName() string  { return s.name }
func (s *zzStk) GetMTU() int      { return s.mtu }
func (s *zzStk) GetOverhead() int { return s.ovh }
func (s *zzStk) PublishEvent(e Event) UStack {
	s.events = append(s.events, e)
	if s.hook != nil {
		s.hook(e)
	}
	return s
}
func (s *zzStk) GetEndPoint() []EndPoint   { return s.eps }
func (s *zzStk) GetTransport() []Transport { return s.trs }

// zzRig is a processor between two recording ends.
type zzRig struct {
	top, bot *zzEnd
	stk      *zzStk
	p        DataProcessor
}

func zzNewRig(p DataProcessor, mtu, ovh int) *zzRig {
	r := &zzRig{top: zzNewEnd(), bot: zzNewEnd(), stk: &zzStk{name: "stk", mtu: mtu, ovh: ovh}, p: p}
	p.SetUStack(r.stk)
	p.SetUpper(r.top)
	p.SetLower(r.bot)
	return r
}

// down sends payload through the processor on c, in a buffer with head room.
func (r *zzRig) down(c TransportConnection, payload []byte) {
	ub := UBufAllocWithHeadReserved(r.stk.mtu, r.stk.ovh)
	ub.Write(payload)
	r.p.OnUpperData(NewUStackContext().SetConnection(c).SetBuffer(ub))
}

// up hands bytes received on c to the processor.
func (r *zzRig) up(c TransportConnection, data []byte) {
	n := r.stk.mtu
	if n < 1 {
		n = 1
	}
	ub := UBufAlloc(n)
	ub.Write(data)
	r.p.OnLowerData(NewUStackContext().SetConnection(c).SetBuffer(ub))
}

// zzIs says whether a is the object b, not a copy.
func zzIs(a, b interface{}) bool {
	switch x := b.(type) {
	case []byte:
		y, ok := a.([]byte)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		if len(x) == 0 {
			return true
		}
		x[0] ^= 1
		return y[0] == x[0]
	case map[int]int:
		y, ok := a.(map[int]int)
		if !ok || len(x) != len(y) {
			return false
		}
		x[1]++
		return y[1] == x[1]
	}
	return a == b
}
