package ustack

// Contracts that stand for encoding/json and encoding/gob while the code is
// executed symbolically. They reproduce the real encodings byte for byte for
// the message type ZMsg with printable ASCII text (the native replay uses the real
// packages). bytes.Equal is expressed by string comparison.

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"errors"
	"io"
	"reflect"
)

// ZMsg is the message type used with the structured codecs.
type ZMsg struct{ S string }

var _ = bytes.Equal
var _ = json.Marshal
var _ gob.Encoder
var zMsgType = reflect.TypeOf(ZMsg{})

// zzLetters: printable characters only
func zzLetters(b string) bool {
	for i := 0; i < len(b); i++ {
		if b[i] < ' ' || b[i] > '~' {
			return false
		}
	}
	return true
}

func zzModelMsg(v interface{}) (string, bool) {
	switch m := v.(type) {
	case *ZMsg:
		if m == nil {
			return "", false
		}
		return m.S, true
	case ZMsg:
		return m.S, true
	}
	return "", false
}

func zzModelJSONMarshal(v interface{}) ([]byte, error) {
	s, ok := zzModelMsg(v)
	if !ok {
		return nil, errors.New("json: unsupported type")
	}
	b := []byte(`{"S":"`)
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '<':
			b = append(b, `\u003c`...)
		case c == '>':
			b = append(b, `\u003e`...)
		case c == '&':
			b = append(b, `\u0026`...)
		default:
			b = append(b, c)
		}
	}
	return append(b, `"}`...), nil
}

func zzModelJSONUnmarshal(data []byte, v interface{}) error {
	m, ok := v.(*ZMsg)
	if !ok {
		return errors.New("json: cannot unmarshal")
	}
	// an Encoder ends with a newline
	if len(data) > 0 && data[len(data)-1] == '\n' {
		data = data[:len(data)-1]
	}
	n := len(data)
	if n == 2 && string(data) == "{}" || n == 4 && string(data) == "null" {
		return nil // what is not mentioned keeps its value
	}
	if n >= 14 && string(data[n-7:]) == `,"S":0}` {
		// a value of the wrong type after a good one
		if err := zzModelJSONUnmarshal(append(append([]byte{}, data[:n-7]...), '}'), v); err != nil {
			return err
		}
		return errors.New("json: cannot unmarshal number")
	}
	if n < 8 {
		return errors.New("json: unexpected end of JSON input")
	}
	if string(data[:6]) != `{"S":"` || string(data[n-2:]) != `"}` {
		return errors.New("json: invalid character")
	}
	data = data[6 : n-2]
	var b []byte
	escaped := false
	for i := 0; i < len(data); i++ {
		// escapes in texts of up to three characters only
		if escaped && len(b) == 3 {
			return errors.New("json: too long")
		}
		c := data[i]
		if c == '"' || c < ' ' || c > '~' {
			return errors.New("json: invalid character")
		}
		if c != '\\' {
			b = append(b, c)
			continue
		}
		escaped = true
		if len(b) >= 3 {
			return errors.New("json: too long")
		}
		i++
		if i == len(data) {
			return errors.New("json: invalid character in string escape code")
		}
		if data[i] == '"' || data[i] == '\\' {
			b = append(b, data[i])
			continue
		}
		if i+5 > len(data) {
			return errors.New("json: invalid character in string escape code")
		}
		switch string(data[i : i+5]) {
		case "u003c":
			b = append(b, '<')
		case "u003e":
			b = append(b, '>')
		case "u0026":
			b = append(b, '&')
		default:
			return errors.New("json: invalid character in string escape code")
		}
		i += 4
	}
	m.S = string(b)
	return nil
}

var zzJSONEncs map[*json.Encoder]io.Writer
var zzJSONDecs map[*json.Decoder]*zzJSONDec

type zzJSONDec struct {
	r   io.Reader
	buf []byte
}

func zzModelJSONNewEncoder(w io.Writer) *json.Encoder {
	if zzJSONEncs == nil {
		zzJSONEncs = map[*json.Encoder]io.Writer{}
	}
	e := new(json.Encoder)
	zzJSONEncs[e] = w
	return e
}

func zzModelJSONEncode(e *json.Encoder, v interface{}) error {
	b, err := zzModelJSONMarshal(v)
	if err != nil {
		return err
	}
	_, err = zzJSONEncs[e].Write(append(b, '\n'))
	return err
}

func zzModelJSONNewDecoder(r io.Reader) *json.Decoder {
	if zzJSONDecs == nil {
		zzJSONDecs = map[*json.Decoder]*zzJSONDec{}
	}
	d := new(json.Decoder)
	zzJSONDecs[d] = &zzJSONDec{r: r}
	return d
}

// zzJSONEnd is the length of the first object in b: 0 if it is not complete,
// -1 if there is none.
func zzJSONEnd(b []byte) int {
	i := 0
	for i < len(b) && (b[i] == ' ' || b[i] == '\n') {
		i++
	}
	if i == len(b) {
		return 0
	}
	if b[i] != '{' {
		return -1
	}
	str := false
	for ; i < len(b); i++ {
		switch {
		case str && b[i] == '\\':
			i++
		case b[i] == '"':
			str = !str
		case !str && b[i] == '}':
			return i + 1
		}
	}
	return 0
}

func zzModelJSONDecode(d *json.Decoder, v interface{}) error {
	x := zzJSONDecs[d]
	var failed error
	for {
		n := zzJSONEnd(x.buf)
		if n < 0 {
			return errors.New("json: invalid character")
		}
		if n > 0 {
			b := x.buf[:n]
			x.buf = x.buf[n:]
			return zzModelJSONUnmarshal(b, v)
		}
		if failed != nil {
			if failed == io.EOF && len(x.buf) > 0 {
				return io.ErrUnexpectedEOF
			}
			return failed
		}
		p := make([]byte, 512)
		n, failed = x.r.Read(p)
		x.buf = append(x.buf, p[:n]...)
		if n > 0 {
			failed = nil // reported again by the next read
		}
	}
}

const zzGobType = "\x17\x7f\x03\x01\x01\x04ZMsg\x01\xff\x80\x00\x01\x01\x01\x01S\x01\f\x00\x00\x00"

type zzGobEnc struct{ w io.Writer }
type zzGobDec struct{ r io.Reader }

var zzGobSent map[*gob.Encoder]bool
var zzGobKnown map[*gob.Decoder]bool
var zzGobEncs map[*gob.Encoder]io.Writer
var zzGobDecs map[*gob.Decoder]io.Reader

func zzModelGobNewEncoder(w io.Writer) *gob.Encoder {
	if zzGobEncs == nil {
		zzGobEncs = map[*gob.Encoder]io.Writer{}
		zzGobSent = map[*gob.Encoder]bool{}
	}
	e := new(gob.Encoder)
	zzGobEncs[e] = w
	return e
}

func zzModelGobEncode(e *gob.Encoder, v interface{}) error {
	s, ok := zzModelMsg(v)
	if !ok {
		return errors.New("gob: type not registered")
	}
	w := zzGobEncs[e]
	// an encoder describes a type once
	if !zzGobSent[e] {
		if _, err := w.Write([]byte(zzGobType)); err != nil {
			return err
		}
		zzGobSent[e] = true
	}
	if len(s) == 0 {
		_, err := w.Write([]byte("\x03\xff\x80\x00"))
		return err
	}
	b := []byte{byte(5 + len(s)), 0xff, 0x80, 1, byte(len(s))}
	b = append(b, s...)
	b = append(b, 0)
	_, err := w.Write(b)
	return err
}

func zzModelGobNewDecoder(r io.Reader) *gob.Decoder {
	if zzGobDecs == nil {
		zzGobDecs = map[*gob.Decoder]io.Reader{}
		zzGobKnown = map[*gob.Decoder]bool{}
	}
	d := new(gob.Decoder)
	zzGobDecs[d] = r
	return d
}

// one length-prefixed gob message, read the way the real decoder reads it
func zzGobMessage(r io.Reader) ([]byte, error) {
	var l [1]byte
	if _, err := io.ReadFull(r, l[:]); err != nil {
		return nil, err
	}
	if l[0] > 0x7f || l[0] == 0 {
		return nil, errors.New("gob: bad length")
	}
	b := make([]byte, int(l[0]))
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return b, nil
}

func zzModelGobDecode(d *gob.Decoder, v interface{}) error {
	m, ok := v.(*ZMsg)
	if !ok {
		return errors.New("gob: wrong type")
	}
	r := zzGobDecs[d]
	b, err := zzGobMessage(r)
	if err != nil {
		return err
	}
	if !zzGobKnown[d] {
		if string(b) != zzGobType[1:] {
			return errors.New("gob: bad data: undefined type")
		}
		zzGobKnown[d] = true
		b, err = zzGobMessage(r)
		if err != nil {
			return err
		}
	}
	if string(b) == "\xff\x80\x00" {
		return nil // a field that is not sent keeps its value
	}
	if len(b) < 6 || string(b[:3]) != "\xff\x80\x01" || int(b[3]) != len(b)-5 || b[len(b)-1] != 0 || !zzLetters(string(b[4:len(b)-1])) {
		return errors.New("gob: bad data")
	}
	m.S = string(b[4 : len(b)-1])
	return nil
}

func zzModelBytesEqual(a, b []byte) bool { return string(a) == string(b) }
