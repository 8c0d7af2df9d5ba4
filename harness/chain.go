package ustack

import (
	"errors"
	"io"
)

// zzLine is a chain of processors (first = next to the endpoint) between two
// recording ends.
type zzLine struct {
	top, bot *zzEnd
	stk      *zzStk
	ps       []DataProcessor
}

func zzNewLine(mtu int, ps ...DataProcessor) *zzLine {
	l := &zzLine{top: zzNewEnd(), bot: zzNewEnd(), stk: &zzStk{name: "stk", mtu: mtu}, ps: ps}
	var up DataProcessor = l.top
	for _, p := range ps {
		l.stk.ovh += p.GetOverhead()
		p.SetUStack(l.stk)
		up.SetLower(p)
		p.SetUpper(up)
		up = p
	}
	up.SetLower(l.bot)
	l.bot.SetUpper(up)
	return l
}

func (l *zzLine) run() *zzLine {
	for _, p := range l.ps {
		p.Run()
	}
	return l
}

// send passes a message down from the top.
func (l *zzLine) send(c TransportConnection, msg interface{}) {
	l.ps[0].OnUpperData(NewUStackContext().SetConnection(c).SetMessage(msg).SetOption("session", 0))
}

// recv hands received bytes up from the bottom, in a buffer of MTU bytes.
func (l *zzLine) recv(c TransportConnection, data []byte) {
	n := l.stk.mtu
	if n < len(data) {
		n = len(data)
	}
	ub := UBufAlloc(n)
	ub.Write(data)
	l.ps[len(l.ps)-1].OnLowerData(NewUStackContext().SetConnection(c).SetBuffer(ub))
}

const (
	zzPFrame = iota
	zzPHeart
	zzPStat
	zzPSession
	zzPLoad
	zzPHeaders // number of header-adding processors
)

func zzHeader(k int) DataProcessor {
	switch k {
	case zzPFrame:
		return NewFrameDecoder()
	case zzPHeart:
		return NewHeartbeat()
	case zzPStat:
		return NewStatCounter()
	case zzPSession:
		return NewSessionResolver()
	}
	return NewLoadBalancer()
}

const (
	zzCBytes = iota
	zzCString
	zzCGeneric
	zzCJSON
	zzCGob
)

// a generic codec that writes the string of a message
func zzGenEnc(m interface{}, w io.Writer) error {
	s, ok := m.(string)
	if !ok {
		return errors.New("not a string")
	}
	_, err := w.Write([]byte(s))
	return err
}

func zzGenDec(r io.Reader) (interface{}, error) {
	ub, ok := r.(interface{ ReadableLength() int })
	if !ok {
		return nil, errors.New("no length")
	}
	b := make([]byte, ub.ReadableLength())
	n, err := r.Read(b)
	if err != nil || n == 0 {
		return nil, errors.New("nothing")
	}
	return string(b[:n]), nil
}

func zzCodec(k int) DataProcessor {
	switch k {
	case zzCBytes:
		return NewBytesCodec()
	case zzCString:
		return NewStringCodec()
	case zzCGeneric:
		return NewGenericCodec(nil, zzGenEnc, zzGenDec)
	case zzCJSON:
		return NewJSONCodec(zMsgType)
	}
	return NewGOBCodec(zMsgType)
}

// zzMessage is a message of the codec's type with text s.
func zzMessage(k int, s string) interface{} {
	switch k {
	case zzCBytes:
		return []byte(s)
	case zzCString, zzCGeneric:
		return s
	}
	return ZMsg{S: s}
}

// zzText is the text of a received message, and whether it has the right type.
func zzText(k int, m interface{}) (string, bool) {
	switch k {
	case zzCBytes:
		b, ok := m.([]byte)
		return string(b), ok
	case zzCString, zzCGeneric:
		s, ok := m.(string)
		return s, ok
	}
	switch v := m.(type) {
	case *ZMsg:
		if v == nil {
			return "", false
		}
		return v.S, true
	case ZMsg:
		return v.S, true
	}
	return "", false
}

// zzSameStr asserts that two strings are equal.
func zzSameStr(a, b, msg string) {
	zzAssert(len(a) == len(b), msg+" (length)")
	if len(a) > 0 {
		k := zzRange("kstr", 0, len(a)-1)
		zzAssert(a[k] == b[k], msg+" (content)")
	}
}

// zzLower makes a string of n letters, or of any printable characters if it is short.
func zzLower(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		c := zzU8(name)
		if n <= 3 {
			zzAssume(c >= ' ' && c <= '~')
		} else {
			zzAssume(c >= 'a' && c <= 'z')
		}
		b[i] = c
	}
	return string(b)
}
