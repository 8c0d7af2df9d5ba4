package ustack

import (
	"errors"
	"io"
	"time"

	"ustack/zznet"
	"ustack/zzos"
)

// C21: socket transports over a network under the control of the harness.

func zzSock(name string) (Transport, string) {
	zznet.Reset()
	zznet.Yield = zzYield
	if zzChoice("transport", 2) == 0 {
		return NewTCPTransport(name).SetAddress("addr"), "tcp"
	}
	return NewUDSTransport(name).SetAddress("addr"), "unix"
}

// zzTake takes connections until there are no more.
type zzTake struct {
	got []TransportConnection
	end bool
}

func (k *zzTake) run(t Transport) {
	for {
		c := t.NextConnection()
		if c == nil {
			k.end = true
			return
		}
		for _, o := range k.got {
			zzAssert(o != c, "a connection is handed out once")
		}
		k.got = append(k.got, c)
		zzReach("handed out")
	}
}

// zzStopped checks the state after a stop.
func zzStopped(t Transport, k *zzTake) {
	for _, l := range zznet.Listeners {
		zzAssert(l.CloseN > 0, "after a stop the listener is closed")
	}
	for _, c := range zznet.Accepted {
		zzAssert(c.CloseN > 0, "after a stop every accepted connection is closed")
	}
	for _, c := range zznet.Dialed {
		zzAssert(c.CloseN > 0, "after a stop every dialed connection is closed")
	}
	for _, c := range k.got {
		zzAssert(c.Closed(), "after a stop every connection is marked closed")
	}
	zzAssert(k.end, "after a stop a waiting request for a connection ends with none")
	zzAssert(t.NextConnection() == nil, "after a stop a later request for a connection ends with none")
	zzAssert(t.Stop() == t, "stopping again does nothing")
	zzAssert(t.NextConnection() == nil, "after a stop a later request for a connection ends with none")
}

// ZZC21Server: connections come in while the server runs and is stopped.
func ZZC21Server() {
	t, network := zzSock("s")
	t.ForServer(true)
	zzAssert(t.Run() == t, "run returns the transport")
	if zzChoice("run twice", 2) == 1 {
		t.Run()
	}
	n := zzParam("conns")
	k := &zzTake{}
	zzGo(func() { k.run(t) })
	pushed := make(chan bool, 1)
	zzGo(func() {
		for i := 0; i < n; i++ {
			zzYield()
			if len(zznet.Listeners) > 0 && zznet.Listeners[0].Push(zznet.NewFakeConn("c")) {
				zzReach("pushed")
			}
		}
		pushed <- true
	})
	if zzChoice("stop", 2) == 1 {
		zzYield()
		if zzChoice("stop twice", 2) == 1 {
			end := make(chan bool, 1)
			zzGo(func() {
				t.Stop()
				end <- true
			})
			t.Stop()
			<-end
		} else {
			t.Stop()
		}
		<-pushed
		zzSettle()
		zzAssert(len(zznet.Listeners) <= 1, "running twice is the same as running once")
		zzStopped(t, k)
		zzReach("stopped")
	} else {
		<-pushed
		zzSettle()
		zzAssert(len(zznet.Listeners) == 1, "a running server has one listener")
		l := zznet.Listeners[0]
		zzAssert(l.Network_ == network && l.Address == "addr" && l.CloseN == 0, "on the configured address")
		c := zznet.NewFakeConn("last")
		l.Push(c)
		zzSettle()
		zzAssert(len(k.got) == len(zznet.Accepted) && len(k.got) > 0, "every accepted connection is handed out")
		for _, c := range zznet.Accepted {
			zzAssert(c.CloseN == 0, "connections stay open while the server runs")
		}
		zzAssert(k.got[len(k.got)-1].GetName() == "last", "a connection is named after its peer")
		if zzChoice("end", 2) == 0 {
			t.Stop()
		} else {
			l.FailAccept()
			zzReach("failed")
		}
		zzSettle()
		zzStopped(t, k)
	}
	zzReach("done")
}

// ZZC21Pending: connections nobody has asked for when the server stops.
func ZZC21Pending() {
	t, _ := zzSock("s")
	t.ForServer(true)
	t.Run()
	zzSettle()
	n := zzParam("pending")
	if zzChoice("one", 2) == 1 {
		n = 1
	}
	l := zznet.Listeners[0]
	for i := 0; i < n; i++ {
		l.Push(zznet.NewFakeConn("c"))
		if i%8 == 7 {
			zzSettle()
		}
	}
	zzSettle()
	k := &zzTake{}
	if zzChoice("late", 2) == 1 {
		// somebody asks after a long time
		zzSleep(time.Hour)
		zzSettle()
		zzGo(func() { k.run(t) })
		zzSettle()
		zzAssert(len(k.got) == n, "every connection is handed out, however late it is asked for")
		for _, c := range k.got {
			zzAssert(!c.Closed(), "a connection that is handed out is open")
		}
		t.Stop()
		zzSettle()
		zzStopped(t, k)
		zzReach("late")
		return
	}
	t.Stop()
	zzSettle()
	k.run(t)
	zzSettle()
	zzAssert(len(k.got) == 0, "a stopped server hands out no connections")
	zzStopped(t, k)
	zzReach("done")
}

// ZZC21Again: a transport is run again after a stop.
func ZZC21Again() {
	t, network := zzSock("s")
	server := zzChoice("server", 2) == 1
	t.ForServer(server)
	t.SetOption("MaxRetryCount", 2)
	zznet.DialHook = func(n int) *zznet.FakeConn { return zznet.NewFakeConn("d") }
	t.Run()
	k0 := &zzTake{}
	zzGo(func() { k0.run(t) })
	zzYield()
	if zzChoice("traffic", 2) == 1 && len(zznet.Listeners) == 1 {
		zznet.Listeners[0].Push(zznet.NewFakeConn("o"))
	}
	t.Stop()
	t.Run()
	k := &zzTake{}
	zzGo(func() { k.run(t) })
	zzSettle()
	if server {
		var l *zznet.FakeListener
		for _, x := range zznet.Listeners {
			if x.CloseN == 0 {
				zzAssert(l == nil, "there is one listener")
				l = x
			}
		}
		zzAssert(l != nil, "a server that is run again listens again")
		if network == "unix" {
			zzAssert(zzos.Files["addr"], "the socket file of a running server exists")
		}
		l.Push(zznet.NewFakeConn("n"))
		zzSettle()
	}
	all := append(append([]TransportConnection{}, k0.got...), k.got...)
	var open []TransportConnection
	for i, c := range all {
		for _, o := range all[:i] {
			zzAssert(o != c, "a connection is handed out once")
		}
		if !c.Closed() {
			open = append(open, c)
		}
	}
	zzAssert(len(open) == 1, "a transport that is run again hands out its connection")
	t.Stop()
	zzSettle()
	k.got = all
	zzAssert(k0.end, "requests of the first run have ended")
	zzStopped(t, k)
	zzReach("done")
}

// ZZC21Client: dial results in any order, stopped at any time or not.
func ZZC21Client() {
	t, network := zzSock("c")
	t.ForServer(false)
	max := zzChoice("max", zzParam("tries")+1)
	good := 1 + zzChoice("good", zzParam("tries")+1) // attempt that succeeds
	wait := zzRange("interval", 1, 100)
	t.SetOption("MaxRetryCount", max).SetOption("RetryIntervalInSecond", wait)
	last := time.Now()
	zznet.DialHook = func(n int) *zznet.FakeConn {
		if n > 1 {
			zzAssert(time.Since(last) >= time.Duration(wait)*time.Second, "the client pauses between attempts")
		}
		last = time.Now()
		if n >= good {
			return zznet.NewFakeConn("peer")
		}
		return nil
	}
	t.Run()
	if zzChoice("run twice", 2) == 1 {
		t.Run()
	}
	k := &zzTake{}
	zzGo(func() { k.run(t) })
	if zzChoice("stop", 2) == 1 {
		if zzChoice("late", 2) == 1 {
			zzSleep(time.Duration(zzRange("stop at", 1, int(250*time.Second))))
		}
		zzYield()
		t.Stop()
		d := zznet.Dials
		zzSleep(1000 * time.Second)
		zzSettle()
		zzAssert(zznet.Dials <= d+1, "a stopped client does not go on dialing")
		zzStopped(t, k)
		zzReach("stopped")
	} else {
		zzSleep(1000 * time.Second)
		zzSettle()
		if good <= max {
			zzAssert(zznet.Dials == good, "the client dials until it succeeds")
			zzAssert(len(k.got) == 1 && !k.end, "and hands out the connection")
			zzAssert(!k.got[0].Closed() && zznet.Dialed[0].CloseN == 0, "which is open")
			zzAssert(k.got[0].GetName() == "peer", "and named after the peer")
			zzReach("connected")
			t.Stop()
			zzSettle()
		} else {
			zzAssert(zznet.Dials == max, "the client gives up after the configured number of attempts")
			zzReach("gave up")
		}
		zzStopped(t, k)
	}
	for _, a := range zznet.DialAddr {
		zzAssert(a == network+":addr", "the client dials the configured address")
	}
	zzReach("done")
}

// ZZC21Data: bytes pass unchanged between the socket and its connection.
func ZZC21Data() {
	t, _ := zzSock("s")
	t.ForServer(true).Run()
	zzSettle()
	f := zznet.NewFakeConn("c")
	zznet.Listeners[0].Push(f)
	c := t.NextConnection()
	zzAssert(c != nil && !c.UseReference() && !c.Closed(), "a byte connection")
	out := zzBytes("out", zzRange("n", 0, zzParam("size")))
	n, err := c.Write(out)
	zzAssert(err == nil && n == len(out), "a write is complete")
	zzSame("k", f.Written, out, "what is written reaches the socket")
	in := zzBytes("in", zzRange("m", 1, 12))
	if zzChoice("idle", 2) == 1 {
		// nothing happens for a long time
		zzGo(func() {
			zzSleep(time.Duration(zzRange("pause", 1, int(30*24*time.Hour))))
			f.In <- in
		})
	} else {
		f.In <- in
	}
	p := make([]byte, 16)
	n, err = c.Read(p)
	zzAssert(err == nil && n == len(in), "a read returns what has arrived")
	zzSame("k", p[:n], in, "what is read comes from the socket")
	switch zzChoice("end", 5) {
	case 3:
		// the last data may come together with the error
		f.Last = zzBytes("last", zzRange("l", 1, 12))
		f.LastErr = errors.New("reset")
		if zzChoice("eof", 2) == 1 {
			f.LastErr = io.EOF
		}
		close(f.In)
		n, err = c.Read(p)
		zzAssert(err != nil && n == len(f.Last), "data that comes with an error is passed on with the error")
		zzSame("k", p[:n], f.Last, "what is read comes from the socket")
	case 4:
		f.WriteErr = errors.New("broken")
		f.Takes = zzRange("takes", 0, 3)
		w := len(f.Written)
		n, err = c.Write([]byte{1, 2, 3, 4})
		zzAssert(err != nil && n == f.Takes && len(f.Written) == w+n, "a partial write is reported as such")
	case 0:
		close(f.In)
		n, err = c.Read(p)
		zzAssert(n == 0 && err != nil, "the end of the stream is reported")
	case 1:
		f.WriteErr = errors.New("broken")
		n, err = c.Write([]byte{1})
		zzAssert(n == 0 && err != nil, "a failing write is reported")
	case 2:
		c.Close()
		zzAssert(c.Closed() && f.CloseN > 0, "closing closes the socket")
		w := len(f.Written)
		f.In <- []byte{1}
		n, _ = c.Read(p)
		zzAssert(n == 0, "nothing is read from a closed connection")
		n, _ = c.Write([]byte{1})
		zzAssert(n == 0 && len(f.Written) == w, "nothing is written to a closed connection")
	}
	zzReach("done")
}

// ZZC21Stuck: the users of a connection wait in reading and writing; a stop
// or close ends that, and the other connections are used meanwhile.
func ZZC21Stuck() {
	t, _ := zzSock("s")
	t.ForServer(true).Run()
	zzSettle()
	f, g := zznet.NewFakeConn("c"), zznet.NewFakeConn("c")
	f.Full = true
	zznet.Listeners[0].Push(f)
	zznet.Listeners[0].Push(g)
	c, d := t.NextConnection(), t.NextConnection()
	zzAssert(c != nil && d != nil && c != d, "each connection is handed out")
	k := &zzTake{}
	zzGo(func() { k.run(t) })
	reads, writes := 0, 0
	if zzChoice("reader", 2) == 1 {
		zzGo(func() {
			n, _ := c.Read(make([]byte, 4))
			zzAssert(n == 0, "nothing is read")
			reads++
		})
	} else {
		reads++
	}
	if zzChoice("writer", 2) == 1 {
		zzGo(func() {
			n, err := c.Write([]byte{zzU8("byte")})
			zzAssert(n == 0 && err != nil, "nothing is written")
			writes++
		})
	} else {
		writes++
	}
	zzSettle()
	zzAssert(!c.Closed() && !d.Closed(), "the connections are open")
	b := zzU8("other")
	n, err := d.Write([]byte{b})
	zzAssert(n == 1 && err == nil && len(g.Written) == 1 && g.Written[0] == b, "another connection is written")
	g.In <- []byte{b + 1}
	p := make([]byte, 4)
	n, err = d.Read(p)
	zzAssert(n == 1 && err == nil && p[0] == b+1, "another connection is read")
	if zzChoice("close", 2) == 1 {
		c.Close()
		zzSettle()
		zzAssert(c.Closed() && f.CloseN > 0 && reads == 1 && writes == 1, "closing ends the waiting")
		zzAssert(!d.Closed() && g.CloseN == 0, "and concerns no other connection")
		zzReach("closed")
	}
	t.Stop()
	zzSettle()
	zzAssert(reads == 1 && writes == 1, "stopping ends the waiting")
	zzStopped(t, k)
	zzReach("stopped")
}

// ZZC21Config: role, address and number of attempts differ from run to run.
func ZZC21Config() {
	t, network := zzSock("s")
	addrs := []string{"one", "two"}
	for r := 0; r < zzParam("runs"); r++ {
		server := zzChoice("server", 2) == 1
		addr := addrs[zzChoice("address", 2)]
		max := 1 + zzChoice("max", 2)
		t.ForServer(server).SetAddress(addr).SetOption("MaxRetryCount", max).SetOption("RetryIntervalInSecond", 1)
		dials := zznet.Dials
		good := zzChoice("dial works", 2) == 1
		zznet.DialHook = func(n int) *zznet.FakeConn {
			if good {
				return zznet.NewFakeConn("d")
			}
			return nil
		}
		zznet.DialAddr = nil
		if server && network == "unix" && zzChoice("stale file", 2) == 1 {
			// a file left by a process that was killed
			zzos.Files[addr] = true
		}
		t.Run()
		k := &zzTake{}
		zzGo(func() { k.run(t) })
		zzSleep(10 * time.Second)
		var open []*zznet.FakeListener
		for _, l := range zznet.Listeners {
			if l.CloseN == 0 {
				open = append(open, l)
			}
		}
		if server {
			zzAssert(len(open) == 1, "a server listens")
			zzAssert(open[0].Network_ == network && open[0].Address == addr, "at its address")
			zzAssert(zznet.Dials == dials, "a server does not dial")
			if network == "unix" {
				zzAssert(zzos.Files[addr], "the socket file of a running server exists")
			}
			open[0].Push(zznet.NewFakeConn("n"))
			zzSettle()
			zzReach("server")
		} else {
			zzAssert(len(open) == 0, "a client does not listen")
			n := max
			if good {
				n = 1
			}
			zzAssert(zznet.Dials == dials+n, "a client dials until it succeeds or has tried as often as configured")
			for _, a := range zznet.DialAddr {
				zzAssert(a == network+":"+addr, "the client dials the configured address")
			}
			zzReach("client")
		}
		if server || good {
			zzAssert(len(k.got) == 1 && !k.got[0].Closed(), "and hands out its connection")
		} else {
			zzAssert(len(k.got) == 0, "and hands out nothing")
		}
		t.Stop()
		zzSettle()
		zzStopped(t, k)
	}
	zzReach("done")
}
