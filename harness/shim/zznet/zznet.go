// Package zznet replaces net under schedule exploration: listeners and
// connections are in-memory and fully controlled by the harness.
package zznet

import (
	"errors"
	"io"
	"time"

	os "ustack/zzos"
)

var ErrClosed = errors.New("use of closed network connection")

type Addr interface {
	Network() string
	String() string
}

type Error interface {
	error
	Timeout() bool
	Temporary() bool
}

type OpError struct {
	Op      string
	Err     error
	timeout bool
}

func (e *OpError) Error() string   { return e.Op + ": " + e.Err.Error() }
func (e *OpError) Unwrap() error   { return e.Err }
func (e *OpError) Timeout() bool   { return e.timeout }
func (e *OpError) Temporary() bool { return false }

type Conn interface {
	Read(b []byte) (n int, err error)
	Write(b []byte) (n int, err error)
	Close() error
	LocalAddr() Addr
	RemoteAddr() Addr
	SetDeadline(t time.Time) error
	SetReadDeadline(t time.Time) error
	SetWriteDeadline(t time.Time) error
}

type Listener interface {
	Accept() (Conn, error)
	Close() error
	Addr() Addr
}

type fakeAddr struct{ s string }

func (a fakeAddr) Network() string { return "fake" }
func (a fakeAddr) String() string  { return a.s }

// FakeConn records what happens to it.
type FakeConn struct {
	Name     string
	CloseN   int
	Written  []byte
	WriteErr error
	Takes    int    // bytes taken before WriteErr
	Full     bool   // the peer does not read: writing blocks until closed
	Last     []byte // returned together with LastErr at the end
	LastErr  error
	In       chan []byte // data for Read; closed channel: EOF
	closedCh chan struct{}
	rest     []byte
	rdl, wdl time.Time
}

func NewFakeConn(name string) *FakeConn {
	return &FakeConn{Name: name, In: make(chan []byte, 16), closedCh: make(chan struct{})}
}

type timeoutError struct{}

func (timeoutError) Error() string   { return "i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

func (c *FakeConn) Read(b []byte) (int, error) {
	if c.CloseN > 0 {
		return 0, ErrClosed
	}
	if len(c.rest) > 0 {
		n := copy(b, c.rest)
		c.rest = c.rest[n:]
		return n, nil
	}
	var late <-chan time.Time
	if !c.rdl.IsZero() {
		d := time.Until(c.rdl)
		if d <= 0 {
			return 0, &OpError{Op: "read", Err: timeoutError{}, timeout: true}
		}
		late = time.After(d)
	}
	select {
	case d, ok := <-c.In:
		if !ok {
			if c.LastErr != nil {
				return copy(b, c.Last), c.LastErr
			}
			return 0, io.EOF
		}
		n := copy(b, d)
		c.rest = d[n:]
		return n, nil
	case <-late:
		return 0, &OpError{Op: "read", Err: timeoutError{}, timeout: true}
	case <-c.closedCh:
		return 0, ErrClosed
	}
}

func (c *FakeConn) Write(b []byte) (int, error) {
	if c.CloseN > 0 {
		return 0, ErrClosed
	}
	if !c.wdl.IsZero() && time.Until(c.wdl) <= 0 {
		return 0, &OpError{Op: "write", Err: timeoutError{}, timeout: true}
	}
	if c.Full && len(b) > 0 {
		var late <-chan time.Time
		if !c.wdl.IsZero() {
			late = time.After(time.Until(c.wdl))
		}
		select {
		case <-late:
			return 0, &OpError{Op: "write", Err: timeoutError{}, timeout: true}
		case <-c.closedCh:
			return 0, ErrClosed
		}
	}
	if c.WriteErr != nil {
		c.Written = append(c.Written, b[:c.Takes]...)
		return c.Takes, c.WriteErr
	}
	c.Written = append(c.Written, b...)
	return len(b), nil
}

func (c *FakeConn) Close() error {
	c.CloseN++
	if c.CloseN > 1 {
		return ErrClosed
	}
	close(c.closedCh)
	return nil
}

func (c *FakeConn) LocalAddr() Addr                    { return fakeAddr{"local"} }
func (c *FakeConn) RemoteAddr() Addr                   { return fakeAddr{c.Name} }
func (c *FakeConn) SetDeadline(t time.Time) error      { c.rdl, c.wdl = t, t; return nil }
func (c *FakeConn) SetReadDeadline(t time.Time) error  { c.rdl = t; return nil }
func (c *FakeConn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// Options of real sockets.
func (c *FakeConn) SetNoDelay(bool) error                  { return nil }
func (c *FakeConn) SetKeepAlive(bool) error                { return nil }
func (c *FakeConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *FakeConn) SetLinger(int) error                    { return nil }
func (c *FakeConn) SetReadBuffer(int) error                { return nil }
func (c *FakeConn) SetWriteBuffer(int) error               { return nil }

// TCPConn and UnixConn are what type assertions on a connection find.
type TCPConn = FakeConn
type UnixConn = FakeConn
type TCPListener = FakeListener
type UnixListener = FakeListener

func (l *FakeListener) SetUnlinkOnClose(unlink bool)  { l.keepFile = !unlink }
func (l *FakeListener) SetDeadline(t time.Time) error { return nil }

// FakeListener hands out connections pushed by the harness.
type FakeListener struct {
	Network_ string
	Address  string
	CloseN   int
	in       chan *FakeConn
	closedCh chan struct{}
	keepFile bool
}

// Push offers an incoming connection; it reports false if the listener is closed.
func (l *FakeListener) Push(c *FakeConn) bool {
	if l.CloseN > 0 {
		return false
	}
	l.in <- c
	return true
}

func (l *FakeListener) Accept() (Conn, error) {
	if l.CloseN > 0 {
		return nil, ErrClosed
	}
	select {
	case c, ok := <-l.in:
		if !ok {
			return nil, errors.New("accept failed")
		}
		Accepted = append(Accepted, c)
		return c, nil
	case <-l.closedCh:
		return nil, ErrClosed
	}
}

func (l *FakeListener) FailAccept() { close(l.in) }

func (l *FakeListener) Close() error {
	l.CloseN++
	if l.CloseN > 1 {
		return ErrClosed
	}
	close(l.closedCh)
	if l.Network_ == "unix" && !l.keepFile {
		// as the real one, it unlinks its file name
		delete(os.Files, l.Address)
	}
	return nil
}

func (l *FakeListener) Addr() Addr { return fakeAddr{l.Address} }

// ---- the fake network, set up by the harness

var (
	Listeners []*FakeListener
	Accepted  []*FakeConn
	Dialed    []*FakeConn
	Dials     int
	DialAddr  []string
	ListenErr error
	// DialHook decides the outcome of a dial attempt (nil conn: failure).
	DialHook func(n int) *FakeConn
	// Yield is a scheduling point inside blocking network calls.
	Yield func()
)

func Reset() {
	Listeners, Accepted, Dialed, Dials, DialAddr, ListenErr, DialHook = nil, nil, nil, 0, nil, nil, nil
	Yield = nil
	os.Files = map[string]bool{}
	os.Removed = nil
}

func Listen(network, address string) (Listener, error) {
	if ListenErr != nil {
		return nil, ListenErr
	}
	for _, o := range Listeners {
		if o.Network_ == network && network != "unix" && o.Address == address && o.CloseN == 0 {
			return nil, &OpError{Op: "listen", Err: errors.New("address already in use")}
		}
	}
	if network == "unix" {
		if os.Files[address] {
			return nil, &OpError{Op: "listen", Err: errors.New("address already in use")}
		}
		os.Files[address] = true
	}
	l := &FakeListener{Network_: network, Address: address, in: make(chan *FakeConn, 16), closedCh: make(chan struct{})}
	Listeners = append(Listeners, l)
	return l, nil
}

func Dial(network, address string) (Conn, error) {
	Dials++
	DialAddr = append(DialAddr, network+":"+address)
	n := Dials
	if Yield != nil {
		Yield()
	}
	if DialHook != nil {
		if c := DialHook(n); c != nil {
			Dialed = append(Dialed, c)
			return c, nil
		}
	}
	return nil, &OpError{Op: "dial", Err: errors.New("connection refused")}
}

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return Dial(network, address)
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr Addr
}

func (d *Dialer) Dial(network, address string) (Conn, error) { return Dial(network, address) }

func JoinHostPort(h, p string) string { return h + ":" + p }
