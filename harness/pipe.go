package ustack

import "io"

// zzTran is a transport that hands out the connections put into next.
type zzTran struct {
	Transport
	name  string
	next  chan TransportConnection
	runs  int
	stops int
}

func zzNewTran(name string) *zzTran {
	return &zzTran{name: name, next: make(chan TransportConnection, 8)}
}

func (t *zzTran) GetName() string { return t.name }
func (t *zzTran) Run() Transport {
	t.runs++
	return t
}
func (t *zzTran) Stop() Transport {
	t.stops++
	return t
}
func (t *zzTran) NextConnection() TransportConnection { return <-t.next }

// zzWire is one end of a byte connection between two stacks.
type zzWire struct {
	zzConn
	in   chan []byte
	sent [][]byte
}

// zzNewWire makes the two ends of a connection.
func zzNewWire() (*zzWire, *zzWire) {
	x, y := make(chan []byte, 64), make(chan []byte, 64)
	return zzWireEnd("a", x, y), zzWireEnd("b", y, x)
}

func zzWireEnd(name string, in, out chan []byte) *zzWire {
	w := &zzWire{in: in}
	w.name = name
	w.rd = func(p []byte) (int, error) {
		b, ok := <-in
		if !ok {
			return 0, io.EOF
		}
		zzAssert(len(b) <= len(p), "the reader offers room for a whole message")
		return copy(p, b), nil
	}
	w.wr = func(p []byte) (int, error) {
		b := append([]byte{}, p...)
		w.sent = append(w.sent, b)
		out <- b
		return len(p), nil
	}
	return w
}

// zzStack is a stack of the given processors over a fake transport.
func zzStack(mtu int, eps []EndPoint, ps ...DataProcessor) (UStack, *zzTran) {
	t := zzNewTran("tran")
	u := NewUStack().SetName("stk").SetOption("MTU", mtu)
	for _, p := range ps {
		u.AppendDataProcessor(p)
	}
	for _, e := range eps {
		u.AddEndPoint(e)
	}
	u.AddTransport(t)
	return u, t
}

// zzRx is what an endpoint has received and not taken yet.
func zzRx(e EndPoint) []EndPointData {
	var r []EndPointData
	for len(e.GetRxChannel()) > 0 {
		r = append(r, <-e.GetRxChannel())
	}
	return r
}
