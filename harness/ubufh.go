package ustack

import (
	"bytes"
	"errors"
	"io"
	"strings"
)

// ---- reference model of a buffer

type zzModel struct {
	cap, res, head int
	data           []byte
}

func (m *zzModel) tail() int { return m.cap - m.head - len(m.data) }

func (m *zzModel) add(p []byte) {
	d := make([]byte, len(m.data)+len(p))
	copy(d, m.data)
	copy(d[len(m.data):], p)
	m.data = d
}

func (m *zzModel) pre(p []byte) {
	d := make([]byte, len(m.data)+len(p))
	copy(d, p)
	copy(d[len(p):], m.data)
	m.data = d
	m.head -= len(p)
}

func (m *zzModel) drop(n int) {
	m.data = m.data[n:]
	m.head += n
}

func (m *zzModel) clone() *zzModel {
	return &zzModel{m.cap, m.res, m.head, m.data}
}

const (
	zzOAlloc = iota
	zzOFrom
	zzOCowSrc
	zzOCowSnap
	zzODirect
	zzORef
	zzOCowPair
	zzOrigins
)

// zzBase builds a buffer in an arbitrary reachable state: capacity, reserved
// head room, contents and both cursors are symbolic.
func zzBase(max int, from bool) (*UBuf, *zzModel) {
	capacity := zzRange("cap", 1, max)
	res := zzRange("res", 0, capacity)
	var ub *UBuf
	if from {
		l := zzRange("len", 0, capacity)
		ub = UBufFromWithHeadReserved(make([]byte, l, capacity), res)
		zzAssert(ub != nil, "adopting a valid slice gives a buffer")
	} else {
		ub = UBufAllocWithHeadReserved(capacity, res)
	}
	m := &zzModel{cap: capacity, res: res, head: res}
	nb := zzRange("nb", 0, capacity-res)
	b := zzBytes("b", nb)
	ub.Write(b)
	m.add(b)
	nc := zzRange("nc", 0, nb)
	ub.Read(make([]byte, nc))
	m.drop(nc)
	return ub, m
}

// zzState is zzBase with a choice of where the buffer comes from.
func zzState(max int, origins int) (*UBuf, *zzModel) {
	o := zzChoice("origin", origins)
	ub, m := zzBase(max, o == zzOFrom)
	switch o {
	case zzOCowSrc:
		UBufMakeSnapshot(ub, UBufSnapshotTypeCopyOnWrite)
	case zzOCowSnap:
		ub = UBufMakeSnapshot(ub, UBufSnapshotTypeCopyOnWrite)
	case zzODirect:
		ub = UBufMakeSnapshot(ub, UBufSnapshotTypeCopyDirectly)
	case zzORef:
		ub = UBufMakeSnapshot(ub, UBufSnapshotTypeReference)
	case zzOCowPair:
		// a snapshot of which every other holder has already detached
		s := UBufMakeSnapshot(ub, UBufSnapshotTypeCopyOnWrite)
		if ub.TailWritableLength() > 0 {
			ub.WriteByte(zzU8("det"))
		}
		ub = s
	}
	return ub, m
}

func zzCheckSpace(ub *UBuf, m *zzModel, what string) {
	zzAssert(ub.Capacity() == m.cap, what+": capacity unchanged")
	zzAssert(ub.ReadableLength() == len(m.data), what+": readable length")
	zzAssert(ub.HeadWritableLength() == m.head, what+": head room")
	zzAssert(ub.TailWritableLength() == m.tail(), what+": tail room")
}

// zzCheckData compares the readable bytes with the model.
func zzCheckData(ub *UBuf, m *zzModel, what string) {
	zzAssert(ub.ReadableLength() == len(m.data), what+": readable length")
	p := make([]byte, len(m.data))
	n, err := ub.Read(p)
	zzAssert(n == len(p) && err == nil, what+": everything is readable")
	if len(p) > 0 {
		k := zzRange("k", 0, len(p)-1)
		zzAssert(p[k] == m.data[k], what+": content")
		zzReach("content compared")
	}
}

// ---- fakes on the other side of ReadFrom / WriteTo

type zzReader struct {
	src  []byte
	n    int
	err  error
	got  int
	used int
}

func (r *zzReader) Read(p []byte) (int, error) {
	r.used++
	if r.used > 1 {
		return 0, io.EOF
	}
	r.got = len(p)
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.src[:n])
	r.n = n
	return n, r.err
}

type zzWriter struct {
	max  int
	err  error
	got  []byte
	used int
}

func (w *zzWriter) Write(p []byte) (int, error) {
	w.used++
	if w.used > 1 {
		return 0, w.err
	}
	n := w.max
	if n > len(p) {
		n = len(p)
	}
	w.got = make([]byte, n)
	copy(w.got, p[:n])
	return n, w.err
}

var zzErr = errors.New("peer failure")

// ---- tail operations checked against the model

func zzWriteUint(ub *UBuf, v uint64, k int) (int, error) {
	switch k {
	case 0:
		return 2, ub.WriteU16(uint16(v))
	case 1:
		return 4, ub.WriteU32(uint32(v))
	case 2:
		return 8, ub.WriteU64(v)
	case 3:
		return 2, ub.WriteU16BE(uint16(v))
	case 4:
		return 4, ub.WriteU32BE(uint32(v))
	case 5:
		return 8, ub.WriteU64BE(v)
	case 6:
		return 2, ub.WriteU16LE(uint16(v))
	case 7:
		return 4, ub.WriteU32LE(uint32(v))
	}
	return 8, ub.WriteU64LE(v)
}

func zzHeadUint(ub *UBuf, v uint64, k int) (int, error) {
	switch k {
	case 0:
		return 2, ub.WriteHeadU16(uint16(v))
	case 1:
		return 4, ub.WriteHeadU32(uint32(v))
	case 2:
		return 8, ub.WriteHeadU64(v)
	case 3:
		return 2, ub.WriteHeadU16BE(uint16(v))
	case 4:
		return 4, ub.WriteHeadU32BE(uint32(v))
	case 5:
		return 8, ub.WriteHeadU64BE(v)
	case 6:
		return 2, ub.WriteHeadU16LE(uint16(v))
	case 7:
		return 4, ub.WriteHeadU32LE(uint32(v))
	}
	return 8, ub.WriteHeadU64LE(v)
}

func zzReadUint(ub *UBuf, k int) (int, uint64, error) {
	switch k {
	case 0:
		v, err := ub.ReadU16()
		return 2, uint64(v), err
	case 1:
		v, err := ub.ReadU32()
		return 4, uint64(v), err
	case 2:
		v, err := ub.ReadU64()
		return 8, v, err
	case 3:
		v, err := ub.ReadU16BE()
		return 2, uint64(v), err
	case 4:
		v, err := ub.ReadU32BE()
		return 4, uint64(v), err
	case 5:
		v, err := ub.ReadU64BE()
		return 8, v, err
	case 6:
		v, err := ub.ReadU16LE()
		return 2, uint64(v), err
	case 7:
		v, err := ub.ReadU32LE()
		return 4, uint64(v), err
	}
	v, err := ub.ReadU64LE()
	return 8, v, err
}

func zzPeekUint(ub *UBuf, k int) (int, uint64, error) {
	switch k {
	case 0:
		v, err := ub.PeekU16()
		return 2, uint64(v), err
	case 1:
		v, err := ub.PeekU32()
		return 4, uint64(v), err
	case 2:
		v, err := ub.PeekU64()
		return 8, v, err
	case 3:
		v, err := ub.PeekU16BE()
		return 2, uint64(v), err
	case 4:
		v, err := ub.PeekU32BE()
		return 4, uint64(v), err
	case 5:
		v, err := ub.PeekU64BE()
		return 8, v, err
	case 6:
		v, err := ub.PeekU16LE()
		return 2, uint64(v), err
	case 7:
		v, err := ub.PeekU32LE()
		return 4, uint64(v), err
	}
	v, err := ub.PeekU64LE()
	return 8, v, err
}

// zzWidth/zzBE describe variant k of the fixed-width functions.
func zzWidth(k int) int { return 2 << uint(k%3) }
func zzBE(k int) bool   { return k < 6 }

// zzEnc is the documented byte string of value v in variant k.
func zzEnc(v uint64, k int) []byte {
	n := zzWidth(k)
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		if zzBE(k) {
			b[n-1-i] = byte(v >> uint(8*i))
		} else {
			b[i] = byte(v >> uint(8*i))
		}
	}
	return b
}

// zzDec is the documented value of the bytes of b in variant k.
func zzDec(b []byte, k int) uint64 {
	n := zzWidth(k)
	var v uint64
	for i := 0; i < n; i++ {
		if zzBE(k) {
			v = v<<8 | uint64(b[i])
		} else {
			v |= uint64(b[i]) << uint(8*i)
		}
	}
	return v
}

func zzOpWriteByte(ub *UBuf, m *zzModel) {
	c := zzU8("c")
	room := m.tail()
	err := ub.WriteByte(c)
	zzAssert((err == nil) == (room >= 1), "WriteByte succeeds iff there is room")
	if err == nil {
		m.add([]byte{c})
	}
}

func zzOpWrite(ub *UBuf, m *zzModel, max int) {
	n := zzRange("n", 0, max)
	p := zzBytes("p", n)
	room := m.tail()
	k, err := ub.Write(p)
	fit := n
	if fit > room {
		fit = room
	}
	zzAssert(k == fit, "Write transfers what fits and reports it")
	zzAssert(err != nil || k == n, "a short Write reports an error")
	if room > 0 {
		zzAssert(err == nil || k < n, "a complete Write reports no error")
	}
	m.add(p[:k])
}

func zzOpWriteUint(ub *UBuf, m *zzModel, k int) {
	v := zzU64("v")
	room := m.tail()
	n, err := zzWriteUint(ub, v, k)
	zzAssert((err == nil) == (room >= n), "a fixed-width write succeeds iff there is room")
	if err == nil {
		m.add(zzEnc(v, k))
	}
}

func zzOpReadFrom(ub *UBuf, m *zzModel, max int) {
	n := zzRange("n", 0, max)
	r := &zzReader{src: zzBytes("p", n), n: n}
	switch zzChoice("rerr", 3) {
	case 1:
		r.err = zzErr
	case 2:
		r.err = io.EOF
	}
	room := m.tail()
	k, err := ub.ReadFrom(r)
	if room == 0 {
		zzAssert(k == 0, "ReadFrom into a full buffer takes nothing")
		zzAssert(r.used == 0 || r.got == 0 || r.n == 0, "ReadFrom into a full buffer consumes nothing from the reader")
		return
	}
	if r.used == 0 {
		zzAssert(k == 0, "ReadFrom reports only what it read")
		return
	}
	zzAssert(r.got <= room, "the reader is offered at most the tail room")
	zzAssert(k == int64(r.n), "ReadFrom reports what the reader delivered")
	if r.err == zzErr {
		zzAssert(err == zzErr, "ReadFrom passes the reader's error on")
	}
	if r.err == nil {
		zzAssert(err == nil, "ReadFrom without failure reports none")
	}
	m.add(r.src[:r.n])
}

func zzOpReadByte(ub *UBuf, m *zzModel) {
	avail := len(m.data)
	c, err := ub.ReadByte()
	zzAssert((err == nil) == (avail >= 1), "ReadByte succeeds iff there is data")
	if err == nil {
		zzAssert(c == m.data[0], "ReadByte returns the oldest byte")
		m.drop(1)
	}
}

func zzOpRead(ub *UBuf, m *zzModel, max int) {
	n := zzRange("n", 0, max)
	p := make([]byte, n)
	avail := len(m.data)
	k, err := ub.Read(p)
	fit := n
	if fit > avail {
		fit = avail
	}
	zzAssert(k == fit, "Read transfers min(available, requested) and reports it")
	if avail > 0 {
		zzAssert((err == nil) == (k == n), "Read reports an error iff short")
	}
	if k > 0 {
		i := zzRange("i", 0, k-1)
		zzAssert(p[i] == m.data[i], "Read returns the oldest bytes in order")
	}
	if k < n {
		i := zzRange("i2", k, n-1)
		zzAssert(p[i] == 0, "Read leaves the rest of the slice alone")
	}
	m.drop(k)
}

func zzOpReadUint(ub *UBuf, m *zzModel, k int) {
	avail := len(m.data)
	n, v, err := zzReadUint(ub, k)
	zzAssert((err == nil) == (avail >= n), "a fixed-width read succeeds iff there is data")
	if err == nil {
		zzAssert(v == zzDec(m.data, k), "a fixed-width read returns the oldest bytes")
		m.drop(n)
	}
}

func zzOpWriteTo(ub *UBuf, m *zzModel, max int) {
	w := &zzWriter{max: zzRange("n", 0, max)}
	if zzBool("werr") {
		w.err = zzErr
	}
	avail := len(m.data)
	k, err := ub.WriteTo(w)
	if w.used == 0 {
		zzAssert(k == 0 && avail == 0, "WriteTo offers the data to the writer")
		return
	}
	zzAssert(k == int64(len(w.got)), "WriteTo reports what the writer took")
	if w.err != nil {
		zzAssert(err == zzErr, "WriteTo passes the writer's error on")
	} else if len(w.got) == avail {
		zzAssert(err == nil, "a complete WriteTo reports no error")
	}
	zzAssert(len(w.got) <= avail, "WriteTo offers readable data only")
	if len(w.got) > 0 {
		i := zzRange("i", 0, len(w.got)-1)
		zzAssert(w.got[i] == m.data[i], "WriteTo writes the oldest bytes in order")
	}
	m.drop(len(w.got))
}

func zzTailOp(ub *UBuf, m *zzModel, op, max int) {
	switch op {
	case 0:
		zzOpWrite(ub, m, max)
	case 1:
		zzOpReadFrom(ub, m, max)
	case 2:
		zzOpRead(ub, m, max)
	case 3:
		zzOpWriteTo(ub, m, max)
	case 4:
		zzOpWriteByte(ub, m)
	case 5:
		zzOpReadByte(ub, m)
	case 6:
		zzOpWriteUint(ub, m, zzChoice("variant", 9))
	case 7:
		zzOpReadUint(ub, m, zzChoice("variant", 9))
	}
}

// ---- C01

// ZZC01Op: one tail operation of any kind in any state.
func ZZC01Op() {
	max := zzParam("cap")
	ub, m := zzState(max, zzOrigins)
	zzTailOp(ub, m, zzChoice("op", 8), max)
	zzCheckData(ub, m, "after one operation")
}

// ZZC01Seq: a sequence of tail operations, then everything is drained.
func ZZC01Seq() {
	max := zzParam("cap")
	ub, m := zzState(max, 1)
	ops := zzParam("ops")
	for i := 0; i < ops; i++ {
		switch zzChoice("op", 9) {
		case 0:
			zzOpWrite(ub, m, max)
		case 1:
			zzOpReadFrom(ub, m, max)
		case 2:
			zzOpRead(ub, m, max)
		case 3:
			zzOpWriteTo(ub, m, max)
		case 4:
			zzOpWriteByte(ub, m)
		case 5:
			zzOpReadByte(ub, m)
		case 6:
			zzOpWriteUint(ub, m, 4)
		case 7:
			zzOpReadUint(ub, m, 4)
		case 8:
			ub.Reset()
			m.data, m.head = nil, m.res
		}
	}
	zzCheckData(ub, m, "after the sequence")
}

// ---- C02

func zzHeadOp(ub *UBuf, m *zzModel, max int) {
	switch zzChoice("hop", 3) {
	case 0:
		c := zzU8("c")
		err := ub.WriteHeadByte(c)
		zzAssert((err == nil) == (m.head >= 1), "WriteHeadByte succeeds iff there is head room")
		if err == nil {
			m.pre([]byte{c})
			zzReach("head byte written")
		}
	case 1:
		n := zzRange("hn", 0, max)
		p := zzBytes("hp", n)
		room := m.head
		full := m.tail() == 0 && m.head == 0 && len(m.data) == 0
		err := ub.WriteHeadBytes(p)
		if n > 0 && !full {
			zzAssert((err == nil) == (room >= n), "WriteHeadBytes succeeds iff there is head room")
		}
		if err == nil {
			m.pre(p)
			zzReach("head bytes written")
		}
	case 2:
		k := zzChoice("hvariant", 9)
		v := zzU64("hv")
		n, err := zzHeadUint(ub, v, k)
		zzAssert((err == nil) == (m.head >= n), "a fixed-width head write succeeds iff there is head room")
		if err == nil {
			m.pre(zzEnc(v, k))
			zzReach("head integer written")
		}
	}
}

func zzAnyOp(ub *UBuf, m *zzModel, max int) {
	op := zzChoice("op", 12)
	switch {
	case op < 8:
		zzTailOp(ub, m, op, max)
	case op == 8:
		zzHeadOp(ub, m, max)
	case op == 9:
		ub.Reset()
		m.data, m.head = nil, m.res
	case op == 10:
		UBufMakeSnapshot(ub, zzChoice("skind", 3))
	case op == 11:
		switch zzChoice("peek", 3) {
		case 0:
			ub.PeekByte()
		case 1:
			ub.Peek(make([]byte, zzRange("pn", 0, max)))
		case 2:
			zzPeekUint(ub, zzChoice("pvariant", 9))
		}
	}
}

// ZZC02Op: any operation in any state keeps the space accounting exact and
// does not panic; a failing operation changes nothing.
func ZZC02Op() {
	max := zzParam("cap")
	ub, m := zzState(max, zzOrigins)
	zzCheckSpace(ub, m, "before")
	zzAnyOp(ub, m, max)
	zzCheckSpace(ub, m, "after")
	zzAssert(m.head >= 0 && m.tail() >= 0, "no negative space")
	zzReach("done")
}

// ZZC02Seq: sequences of operations.
func ZZC02Seq() {
	max := zzParam("cap")
	ub, m := zzState(max, 1)
	n := zzParam("ops")
	for i := 0; i < n; i++ {
		switch zzChoice("sop", 7) {
		case 0:
			zzOpWrite(ub, m, max)
		case 1:
			zzOpRead(ub, m, max)
		case 2:
			ub.Reset()
			m.data, m.head = nil, m.res
		case 3:
			p := zzBytes("hp", zzRange("hn", 1, max))
			if ub.WriteHeadBytes(p) == nil {
				m.pre(p)
			}
		case 4:
			zzOpReadFrom(ub, m, max)
		case 5:
			zzOpWriteTo(ub, m, max)
		case 6:
			UBufMakeSnapshot(ub, UBufSnapshotTypeCopyOnWrite)
		}
		zzCheckSpace(ub, m, "in a sequence")
	}
	zzReach("done")
}

// ZZC02Alloc: the allocating constructor accepts exactly the valid pairs.
func ZZC02Alloc() {
	max := zzParam("cap")
	capacity := zzInt("capacity")
	reserved := zzInt("reserved")
	zzAssume(capacity <= max)
	valid := capacity > 0 && reserved >= 0 && reserved <= capacity
	var ub *UBuf
	p := zzPanics(func() { ub = UBufAllocWithHeadReserved(capacity, reserved) })
	if !valid {
		zzAssert(p, "an invalid allocation panics")
		zzReach("invalid")
		return
	}
	zzAssert(!p && ub != nil, "a valid allocation succeeds")
	zzCheckSpace(ub, &zzModel{cap: capacity, res: reserved, head: reserved}, "allocated")
	zzReach("valid")
	if reserved == 0 {
		u2 := UBufAlloc(capacity)
		zzCheckSpace(u2, &zzModel{cap: capacity}, "allocated without reserve")
		zzReach("plain")
	}
}

func ZZC02AllocPlain() {
	max := zzParam("cap")
	capacity := zzInt("capacity")
	zzAssume(capacity <= max)
	var ub *UBuf
	p := zzPanics(func() { ub = UBufAlloc(capacity) })
	zzAssert(p == (capacity <= 0), "UBufAlloc panics iff the capacity is not positive")
	if !p {
		zzCheckSpace(ub, &zzModel{cap: capacity}, "allocated")
		zzReach("valid")
	}
}

// ZZC02From: adopting a user slice.
func ZZC02From() {
	max := zzParam("cap")
	c := zzRange("c", 0, max)
	l := zzRange("l", 0, c)
	data := make([]byte, l, c)
	reserved := zzInt("reserved")
	valid := c > 0 && reserved >= 0 && reserved <= c
	ub := UBufFromWithHeadReserved(data, reserved)
	zzAssert((ub != nil) == valid, "adoption succeeds iff the pair is valid")
	zzAssert(UBufFromWithHeadReserved(nil, reserved) == nil, "adopting nil gives nil")
	zzAssert(UBufFrom(nil) == nil, "adopting nil gives nil")
	zzAssert((UBufFrom(data) != nil) == (c > 0), "adoption without reserve succeeds iff there is capacity")
	if !valid {
		zzReach("invalid")
		return
	}
	m := &zzModel{cap: c, res: reserved, head: reserved}
	zzCheckSpace(ub, m, "adopted")
	// the whole capacity is usable
	p := zzBytes("p", c-reserved)
	n, err := ub.Write(p)
	zzAssert(n == c-reserved, "an adopted buffer takes its whole capacity")
	zzAssert(err == nil || c == reserved, "filling an adopted buffer succeeds")
	h := zzBytes("h", reserved)
	if reserved > 0 {
		zzAssert(ub.WriteHeadBytes(h) == nil, "the reserved head room of an adopted buffer is usable")
	}
	m.add(p)
	m.pre(h)
	zzCheckSpace(ub, m, "filled")
	zzCheckData(ub, m, "filled")
	zzReach("valid")
}

// ---- C03

func ZZC03Head() {
	max := zzParam("cap")
	ub, m := zzState(max, zzOrigins)
	zzHeadOp(ub, m, max)
	zzCheckSpace(ub, m, "after a head write")
	zzCheckData(ub, m, "after a head write")
}

// ZZC03Seq: several head writes with tail writes and reads between them.
func ZZC03Seq() {
	max := zzParam("cap")
	ub, m := zzState(max, 3)
	n := zzParam("ops")
	for i := 0; i < n; i++ {
		switch zzChoice("op", 4) {
		case 0:
			p := zzBytes("hp", zzRange("hn", 1, max))
			room := m.head
			err := ub.WriteHeadBytes(p)
			zzAssert((err == nil) == (room >= len(p)), "a head write succeeds iff there is head room")
			if err == nil {
				m.pre(p)
				zzReach("head bytes written")
			}
		case 1:
			v := zzU32("hv")
			err := ub.WriteHeadU32BE(v)
			zzAssert((err == nil) == (m.head >= 4), "a head write succeeds iff there is head room")
			if err == nil {
				m.pre(zzEnc(uint64(v), 4))
			}
		case 2:
			zzOpWrite(ub, m, max)
		case 3:
			zzOpRead(ub, m, max)
		}
	}
	zzCheckSpace(ub, m, "after head writes")
	zzCheckData(ub, m, "after head writes")
}

// ---- C04

// ZZC04Write: the bytes of an integer written at the tail or the head.
func ZZC04Write() {
	max := zzParam("cap")
	ub, m := zzState(max, 2)
	k := zzChoice("variant", 9)
	v := zzU64("v")
	n := zzWidth(k)
	head := zzChoice("head", 2) == 1
	skip := len(m.data)
	var err error
	if head {
		zzAssume(m.head >= n)
		_, err = zzHeadUint(ub, v, k)
		skip = 0
	} else {
		zzAssume(m.tail() >= n)
		_, err = zzWriteUint(ub, v, k)
	}
	zzAssert(err == nil, "an integer fits where there is room for its width")
	ub.Read(make([]byte, skip))
	e := zzEnc(v, k)
	for i := 0; i < n; i++ {
		c, err := ub.ReadByte()
		zzAssert(err == nil && c == e[i], "integer bytes in the documented order")
	}
	zzReach("compared")
}

// ZZC04Read: reading and peeking integers from given bytes.
func ZZC04Read() {
	max := zzParam("cap")
	ub, m := zzState(max, 2)
	k := zzChoice("variant", 9)
	n := zzWidth(k)
	zzAssume(len(m.data) >= n)
	want := zzDec(m.data, k)
	_, pv, err := zzPeekUint(ub, k)
	zzAssert(err == nil && pv == want, "a peeked integer has the documented byte order")
	_, v, err := zzReadUint(ub, k)
	zzAssert(err == nil && v == want, "a read integer has the documented byte order")
	zzAssert(ub.ReadableLength() == len(m.data)-n, "reading an integer consumes exactly its width")
	m.drop(n)
	zzCheckData(ub, m, "after an integer read")
}

// ZZC04Round: write and read back with the matching variant.
func ZZC04Round() {
	max := zzParam("cap")
	ub, m := zzState(max, 1)
	k := zzChoice("variant", 9)
	v := zzU64("v")
	n := zzWidth(k)
	if zzChoice("head", 2) == 1 {
		zzAssume(m.head >= n)
		zzHeadUint(ub, v, k)
	} else {
		zzAssume(m.tail() >= n)
		zzWriteUint(ub, v, k)
		ub.Read(make([]byte, len(m.data)))
	}
	want := v
	if n < 8 {
		want = v & (1<<uint(8*n) - 1)
	}
	_, pv, err := zzPeekUint(ub, k)
	zzAssert(err == nil && pv == want, "peek returns the value written")
	_, rv, err := zzReadUint(ub, k)
	zzAssert(err == nil && rv == want, "read returns the value written")
	zzReach("compared")
}

// ---- C05

func ZZC05Peek() {
	max := zzParam("cap")
	ub, m := zzState(max, zzOrigins)
	switch zzChoice("peek", 3) {
	case 0:
		c, err := ub.PeekByte()
		zzCheckSpace(ub, m, "after a peek")
		d, err2 := ub.ReadByte()
		zzAssert((err == nil) == (err2 == nil), "PeekByte fails exactly when ReadByte does")
		zzAssert((err == nil) == (len(m.data) > 0), "PeekByte succeeds iff there is data")
		if err == nil {
			zzAssert(c == d, "PeekByte shows what ReadByte returns")
			m.drop(1)
		}
	case 1:
		n := zzRange("n", 0, max)
		p := make([]byte, n)
		k, err := ub.Peek(p)
		zzCheckSpace(ub, m, "after a peek")
		fit := n
		if fit > len(m.data) {
			fit = len(m.data)
		}
		zzAssert(k == fit, "Peek fills min(available, requested)")
		zzAssert(err != nil || k == n, "a short Peek reports an error")
		if len(m.data) > 0 && k == n {
			zzAssert(err == nil, "a complete Peek reports no error")
		}
		if k > 0 {
			i := zzRange("i", 0, k-1)
			zzAssert(p[i] == m.data[i], "Peek shows the next bytes")
		}
		if k < n {
			i := zzRange("i2", k, n-1)
			zzAssert(p[i] == 0, "Peek leaves the rest of the slice alone")
		}
	case 2:
		k := zzChoice("variant", 9)
		n, v, err := zzPeekUint(ub, k)
		zzCheckSpace(ub, m, "after a peek")
		_, v2, err2 := zzReadUint(ub, k)
		zzAssert((err == nil) == (err2 == nil), "an integer peek fails exactly when the read does")
		zzAssert((err == nil) == (len(m.data) >= n), "an integer peek succeeds iff there is data")
		if err == nil {
			zzAssert(v == v2, "an integer peek shows what the read returns")
			m.drop(n)
		}
	}
	zzCheckData(ub, m, "after peeking")
}

// ---- C06

// ZZC06Family: a family of snapshots; operations on its members do not show in
// the others.
func ZZC06Family() {
	max := zzParam("cap")
	ub, m := zzBase(max, zzChoice("from", 2) == 1)
	us := []*UBuf{ub}
	ms := []*zzModel{m}
	fam := zzParam("family")
	for len(us) < fam {
		src := zzChoice("src", len(us))
		kind := UBufSnapshotTypeCopyOnWrite + zzChoice("kind", 2)
		s := UBufMakeSnapshot(us[src], kind)
		zzAssert(s != nil, "a snapshot is made")
		zzCheckSpace(s, ms[src], "fresh snapshot")
		us = append(us, s)
		ms = append(ms, ms[src].clone())
	}
	n := zzParam("ops")
	for i := 0; i < n; i++ {
		w := zzChoice("who", len(us))
		zzSnapOp(us[w], ms[w], max)
	}
	x := zzChoice("look", len(us))
	zzCheckSpace(us[x], ms[x], "member of the family")
	zzCheckData(us[x], ms[x], "member of the family")
}

func zzSnapOp(ub *UBuf, m *zzModel, max int) {
	switch zzChoice("op", 9) {
	case 0:
		zzOpWrite(ub, m, max)
	case 1:
		p := zzBytes("hp", zzRange("hn", 1, max))
		if ub.WriteHeadBytes(p) == nil {
			m.pre(p)
			zzReach("head write on a shared buffer")
		}
	case 2:
		zzOpRead(ub, m, max)
	case 3:
		ub.Reset()
		m.data, m.head = nil, m.res
	case 4:
		zzOpWriteByte(ub, m)
	case 5:
		zzOpReadFrom(ub, m, max)
	case 6:
		zzOpWriteUint(ub, m, 7)
	case 7:
		v := zzU64("hv")
		if ub.WriteHeadU64LE(v) == nil {
			m.pre(zzEnc(v, 8))
		}
	case 8:
		c := zzU8("c")
		if ub.WriteHeadByte(c) == nil {
			m.pre([]byte{c})
		}
	}
}

// ZZC06Seq: alternation of snapshots and operations.
func ZZC06Seq() {
	max := zzParam("cap")
	ub, m := zzBase(max, false)
	us := []*UBuf{ub}
	ms := []*zzModel{m}
	n := zzParam("ops")
	for i := 0; i < n; i++ {
		src := zzChoice("who", len(us))
		switch zzChoice("op", 5) {
		case 0, 1:
			kind := UBufSnapshotTypeCopyOnWrite
			s := UBufMakeSnapshot(us[src], kind)
			us = append(us, s)
			ms = append(ms, ms[src].clone())
		case 2:
			zzOpWrite(us[src], ms[src], max)
		case 3:
			p := zzBytes("hp", zzRange("hn", 1, max))
			if us[src].WriteHeadBytes(p) == nil {
				ms[src].pre(p)
			}
		case 4:
			us[src].Reset()
			ms[src].data, ms[src].head = nil, ms[src].res
			zzOpWriteByte(us[src], ms[src])
		}
	}
	x := zzChoice("look", len(us))
	zzCheckSpace(us[x], ms[x], "member of the family")
	zzCheckData(us[x], ms[x], "member of the family")
}

// ZZC06Hist: longer histories on a family of up to four buffers of one size,
// every member compared at the end.
func ZZC06Hist() {
	ub := UBufAllocWithHeadReserved(6, 2)
	m := &zzModel{cap: 6, res: 2, head: 2}
	b := zzBytes("b", 2*zzChoice("filled", 2))
	ub.Write(b)
	m.add(b)
	us := []*UBuf{ub}
	ms := []*zzModel{m}
	n := zzParam("ops")
	for i := 0; i < n; i++ {
		w := zzChoice("who", len(us))
		x, mx := us[w], ms[w]
		switch zzChoice("op", 5) {
		case 0:
			zzAssume(len(us) < 4)
			us = append(us, UBufMakeSnapshot(x, UBufSnapshotTypeCopyOnWrite))
			ms = append(ms, mx.clone())
		case 1:
			zzOpWriteByte(x, mx)
		case 2:
			c := zzU8("c")
			if x.WriteHeadByte(c) == nil {
				mx.pre([]byte{c})
			}
		case 3:
			x.Reset()
			mx.data, mx.head = nil, mx.res
			zzOpWriteByte(x, mx)
		case 4:
			zzAssume(len(us) < 4)
			us = append(us, UBufMakeSnapshot(x, UBufSnapshotTypeCopyDirectly))
			ms = append(ms, mx.clone())
		}
	}
	for i := range us {
		zzCheckSpace(us[i], ms[i], "member of the family")
		p := make([]byte, len(ms[i].data))
		us[i].Peek(p)
		for k := range p {
			zzAssert(p[k] == ms[i].data[k], "member of the family: content")
		}
	}
	zzReach("family compared")
}

// ZZC06Con: source and snapshots are used by different goroutines.
func ZZC06Con() {
	ub := UBufAllocWithHeadReserved(6, 2)
	m := &zzModel{cap: 6, res: 2, head: 2}
	b := zzBytes("b", 2)
	ub.Write(b)
	m.add(b)
	us := []*UBuf{ub}
	ms := []*zzModel{m}
	n := zzParam("snaps")
	for i := 0; i < n; i++ {
		us = append(us, UBufMakeSnapshot(us[zzChoice("of", len(us))], UBufSnapshotTypeCopyOnWrite))
		ms = append(ms, m.clone())
	}
	ops := make([]int, len(us))
	for i := range us {
		ops[i] = zzChoice("op", 4)
	}
	for i := range us {
		x, mx, op := us[i], ms[i], ops[i]
		go func() {
			switch op {
			case 0:
				x.WriteByte(77)
				mx.add([]byte{77})
			case 1:
				x.WriteHeadByte(88)
				mx.pre([]byte{88})
			case 2:
				x.Reset()
				x.Write([]byte{1, 2, 3})
				mx.data, mx.head = nil, mx.res
				mx.add([]byte{1, 2, 3})
			case 3:
				c, _ := x.ReadByte()
				zzAssert(c == b[0], "the snapshot's own data")
				mx.drop(1)
			}
		}()
	}
	zzSettle()
	for i := range us {
		zzCheckSpace(us[i], ms[i], "member of the family")
		p := make([]byte, len(ms[i].data))
		us[i].Peek(p)
		for k := range p {
			zzAssert(p[k] == ms[i].data[k], "member of the family: content")
		}
	}
	zzReach("family compared")
}

// ---- transfers between a buffer and the usual readers and writers

// ZZC01Xfer: data is moved from or to another buffer or a standard reader or
// writer: exactly what was transferred leaves one and enters the other.
func ZZC01Xfer() {
	max := zzParam("cap")
	ub, m := zzState(max, 3)
	if zzChoice("dir", 2) == 0 {
		// into ub
		var src io.Reader
		var left func() []byte
		var d []byte
		k := zzChoice("kind", 5)
		var o *UBuf
		var om *zzModel
		if k == 0 || k == 4 {
			if k == 0 {
				o, om = zzBase(max, false)
			} else {
				// the buffer's own past
				o, om = UBufMakeSnapshot(ub, UBufSnapshotTypeCopyOnWrite), m.clone()
			}
			d = om.data
			src = o
		} else {
			d = zzBytes("d", zzRange("dn", 0, max))
			switch k {
			case 1:
				b := bytes.NewBuffer(zzDup(d))
				src, left = b, func() []byte { return b.Bytes() }
			case 2:
				b := bytes.NewReader(zzDup(d))
				src, left = b, func() []byte { return d[len(d)-b.Len():] }
			case 3:
				b := strings.NewReader(string(d))
				src, left = b, func() []byte { return d[len(d)-b.Len():] }
			}
		}
		room := m.tail()
		n, _ := ub.ReadFrom(src)
		fit := len(d)
		if fit > room {
			fit = room
		}
		zzAssert(n == int64(fit), "ReadFrom takes what fits and reports it")
		if o != nil {
			om.drop(fit)
			zzCheckSpace(o, om, "the other buffer's space")
			zzCheckData(o, om, "the other buffer's data")
			m.add(d[:fit])
			zzCheckSpace(ub, m, "space")
			zzCheckData(ub, m, "data")
			zzReach("in from a buffer")
			return
		}
		rest := left()
		zzAssert(len(rest) == len(d)-fit, "ReadFrom takes from the source exactly what it stores")
		if len(rest) > 0 {
			i := zzRange("i", 0, len(rest)-1)
			zzAssert(rest[i] == d[fit+i], "the rest stays in the source")
		}
		m.add(d[:fit])
		zzReach("in")
	} else {
		k := zzChoice("kind", 3)
		avail := len(m.data)
		var got []byte
		if k == 0 {
			o, om := zzBase(max, false)
			room := om.tail()
			n, _ := ub.WriteTo(o)
			fit := avail
			if fit > room {
				fit = room
			}
			zzAssert(n == int64(fit), "WriteTo writes what fits and reports it")
			om.add(m.data[:fit])
			zzCheckSpace(o, om, "the other buffer's space")
			zzCheckData(o, om, "the other buffer's data")
			m.drop(fit)
		} else {
			var n int64
			if k == 1 {
				b := &bytes.Buffer{}
				n, _ = ub.WriteTo(b)
				got = b.Bytes()
			} else {
				b := &strings.Builder{}
				n, _ = ub.WriteTo(b)
				got = []byte(b.String())
			}
			zzAssert(n == int64(avail) && len(got) == avail, "WriteTo writes everything")
			if avail > 0 {
				i := zzRange("i", 0, avail-1)
				zzAssert(got[i] == m.data[i], "in order")
			}
			m.drop(avail)
		}
		zzReach("out")
	}
	zzCheckSpace(ub, m, "space")
	zzCheckData(ub, m, "data")
}

func zzDup(b []byte) []byte {
	d := make([]byte, len(b))
	copy(d, b)
	return d
}
