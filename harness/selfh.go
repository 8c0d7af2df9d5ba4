package ustack

// Self test of the engine: language and library features that changed code
// may use. Not part of any property.

import (
	"bufio"
	"bytes"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math"
	"math/bits"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func ZZSelfBytes() {
	p := zzBytes("p", zzRange("n", 1, 6))
	var b bytes.Buffer
	b.Write(p)
	zzAssert(b.Len() == len(p), "buffer length")
	q := make([]byte, len(p))
	n, err := io.ReadFull(&b, q)
	zzAssert(err == nil && n == len(p), "read full")
	zzAssert(bytes.Equal(p, q), "equal")
	zzAssert(bytes.Compare(p, q) == 0, "compare")
	r := bytes.NewReader(p)
	out, err := io.ReadAll(r)
	zzAssert(err == nil && len(out) == len(p), "read all")
	zzReach("end")
}

func ZZSelfBufio() {
	p := zzBytes("p", 4)
	r := bufio.NewReaderSize(bytes.NewReader(p), 16)
	x, err := r.Peek(2)
	zzAssert(err == nil && x[0] == p[0], "peek")
	c, err := r.ReadByte()
	zzAssert(err == nil && c == p[0], "read byte")
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	w.Write(p)
	w.Flush()
	zzAssert(b.Len() == 4, "written")
	zzReach("end")
}

func ZZSelfBinary() {
	v := zzU32("v")
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	zzAssert(binary.BigEndian.Uint32(b) == v, "be")
	b = append(b[:0], byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
	zzAssert(binary.BigEndian.Uint32(b) == v, "append")
	var w bytes.Buffer
	zzAssert(binary.Write(&w, binary.LittleEndian, v) == nil, "write")
	var u uint32
	zzAssert(binary.Read(&w, binary.LittleEndian, &u) == nil && u == v, "read")
	zzAssert(bits.ReverseBytes32(bits.ReverseBytes32(v)) == v, "reverse")
	zzAssert(binary.Size(v) == 4, "size")
	var vb [10]byte
	n := binary.PutUvarint(vb[:], uint64(v&0x3fff))
	y, m := binary.Uvarint(vb[:n])
	zzAssert(m == n && y == uint64(v&0x3fff), "varint")
	zzReach("end")
}

func ZZSelfStrings() {
	s := "a,b,c"
	zzAssert(len(strings.Split(s, ",")) == 3, "split")
	zzAssert(strings.Join([]string{"x", "y"}, "-") == "x-y", "join")
	zzAssert(strings.HasPrefix(s, "a,"), "prefix")
	zzAssert(strings.TrimSpace("  a ") == "a", "trim")
	zzAssert(strings.Contains(s, "b"), "contains")
	zzAssert(strings.Index(s, "c") == 4, "index")
	zzAssert(strings.ToUpper("abc") == "ABC", "upper")
	zzAssert(strings.EqualFold("abc", "ABC"), "fold")
	zzAssert(strings.Repeat("ab", 2) == "abab", "repeat")
	zzAssert(strings.Replace("aXb", "X", "Y", 1) == "aYb", "replace")
	var sb strings.Builder
	sb.WriteString("hello")
	sb.WriteByte('!')
	zzAssert(sb.String() == "hello!", "builder")
	zzAssert(strconv.Itoa(42) == "42", "itoa")
	n, err := strconv.Atoi("17")
	zzAssert(err == nil && n == 17, "atoi")
	_, err = strconv.Atoi("x")
	zzAssert(err != nil, "bad atoi")
	zzAssert(fmt.Sprintf("%s-%d", "a", 5) == "a-5", "sprintf")
	zzAssert(fmt.Sprint("a", 1) == "a1" || fmt.Sprint("a", 1) == "a 1", "sprint")
	d := zzRange("d", -120, 120)
	back, err := strconv.Atoi(strconv.Itoa(d))
	zzAssert(err == nil && back == d, "itoa and back")
	zzAssert(hex.EncodeToString([]byte{1, 255}) == "01ff", "hex")
	zzAssert(strconv.FormatInt(-5, 10) == "-5" && strconv.Quote("a") == "\"a\"", "format")
	for i, r := range "aé" {
		zzAssert(i < 2 && r > 0, "range")
	}
	zzReach("end")
}

func ZZSelfSort() {
	a, b, c := zzRange("a", 0, 9), zzRange("b", 0, 9), zzRange("c", 0, 9)
	s := []int{a, b, c}
	sort.Ints(s)
	zzAssert(s[0] <= s[1] && s[1] <= s[2], "sorted")
	t := []int{a, b, c}
	sort.Slice(t, func(i, j int) bool { return t[i] > t[j] })
	zzAssert(t[0] >= t[1] && t[1] >= t[2], "sorted down")
	i := sort.SearchInts(s, s[1])
	zzAssert(i <= 1, "search")
	u := []string{"b", "a"}
	sort.Strings(u)
	zzAssert(u[0] == "a", "strings")
	sort.SliceStable(t, func(i, j int) bool { return t[i] < t[j] })
	zzAssert(t[0] <= t[1], "stable")
	zzReach("end")
}

func ZZSelfList() {
	l := list.New()
	l.PushBack(1)
	l.PushFront(0)
	e := l.PushBack(2)
	l.Remove(e)
	k := 0
	for e := l.Front(); e != nil; e = e.Next() {
		zzAssert(e.Value.(int) == k, "order")
		k++
	}
	zzAssert(k == 2 && l.Len() == 2, "length")
	zzReach("end")
}

type zzSelfErr struct{ code int }

func (e *zzSelfErr) Error() string { return "self" }

func ZZSelfErrors() {
	base := &zzSelfErr{3}
	w := fmt.Errorf("wrapped: %w", base)
	var t *zzSelfErr
	zzAssert(errors.As(w, &t) && t.code == 3, "as")
	zzAssert(errors.Is(w, base), "is")
	zzAssert(errors.Unwrap(w) == base, "unwrap")
	zzAssert(errors.Is(io.EOF, io.EOF), "eof")
	func() {
		defer func() {
			r := recover()
			zzAssert(r == "boom", "recovered")
		}()
		panic("boom")
	}()
	func() {
		defer func() {
			r := recover()
			_, ok := r.(runtime.Error)
			zzAssert(ok, "runtime error")
		}()
		var m map[string]int
		m["a"] = 1
	}()
	zzReach("end")
}

func ZZSelfReflect() {
	zzAssert(reflect.DeepEqual([]int{1, 2}, []int{1, 2}), "deep equal")
	zzAssert(!reflect.DeepEqual([]int{1, 2}, []int{1, 3}), "not deep equal")
	zzAssert(reflect.TypeOf(1).Kind() == reflect.Int, "kind")
	zzAssert(reflect.TypeOf("a") == reflect.TypeOf("b"), "type")
	var p *zzSelfErr
	var i interface{} = p
	zzAssert(reflect.ValueOf(i).IsNil(), "nil")
	zzReach("end")
}

func ZZSelfMath() {
	zzAssert(math.MaxInt32 == 1<<31-1, "const")
	zzAssert(math.Max(1, 2) == 2 && math.Floor(1.5) == 1 && math.Ceil(1.5) == 2, "floats")
	zzAssert(int(time.Duration(1500*time.Millisecond).Seconds()) == 1, "seconds")
	zzAssert((1500*time.Millisecond).Round(time.Second) == 2*time.Second, "round")
	zzAssert((1500*time.Millisecond).Truncate(time.Second) == time.Second, "truncate")
	zzAssert(time.Duration(1500*time.Millisecond).Milliseconds() == 1500, "ms")
	zzAssert(bits.LeadingZeros8(1) == 7 && bits.Len(5) == 3 && bits.OnesCount(7) == 3, "bits")
	zzReach("end")
}

func ZZSelfMaps() {
	m := map[string]int{"a": 1, "b": 2}
	s := 0
	for k, v := range m {
		s += v
		delete(m, k)
	}
	zzAssert(s == 3 && len(m) == 0, "sum")
	type key struct {
		a int
		b string
	}
	x := zzRange("x", 0, 3)
	km := map[key]int{{1, "a"}: 5}
	km[key{x, "a"}]++
	if x == 1 {
		zzAssert(len(km) == 1 && km[key{1, "a"}] == 6, "same key")
	} else {
		zzAssert(len(km) == 2, "other key")
	}
	var arr [4]int
	arr[x] = 7
	sum := 0
	for _, v := range arr {
		sum += v
	}
	zzAssert(sum == 7, "array")
	im := map[interface{}]int{1: 1, "a": 2}
	zzAssert(im["a"] == 2 && im[1] == 1, "interface keys")
	zzReach("end")
}

func ZZSelfAtomic() {
	var n int32
	var u uint64
	atomic.AddInt32(&n, 2)
	zzAssert(atomic.CompareAndSwapInt32(&n, 2, 5) && atomic.LoadInt32(&n) == 5, "cas")
	atomic.StoreUint64(&u, 9)
	zzAssert(atomic.SwapUint64(&u, 4) == 9, "swap")
	var v atomic.Value
	zzAssert(v.Load() == nil, "empty")
	v.Store("x")
	zzAssert(v.Load().(string) == "x", "value")
	zzReach("end")
}

func ZZSelfTime() {
	t0 := time.Now()
	time.Sleep(2 * time.Second)
	zzAssert(time.Since(t0) >= 2*time.Second, "slept")
	tk := time.NewTicker(time.Second)
	<-tk.C
	<-tk.C
	tk.Stop()
	tm := time.NewTimer(time.Second)
	select {
	case <-tm.C:
		zzAssert(false, "too early")
	default:
	}
	zzAssert(tm.Stop(), "stopped")
	tm.Reset(time.Second)
	<-tm.C
	f := make(chan bool, 1)
	time.AfterFunc(time.Second, func() { f <- true })
	<-f
	select {
	case <-f:
	case <-time.After(3 * time.Second):
	}
	zzAssert(time.Now().Sub(t0) >= 9*time.Second, "total")
	zzAssert(time.Now().After(t0) && t0.Before(time.Now()), "order")
	zzAssert(!t0.IsZero() && t0.Add(time.Second).After(t0), "add")
	zzAssert(time.Now().Unix()-t0.Unix() >= 9, "unix")
	zzAssert(time.Now().UnixNano() > t0.UnixNano(), "nano")
	for range time.Tick(time.Second) {
		break
	}
	zzReach("end")
}

func ZZSelfContext() {
	ctx, cancel := context.WithCancel(context.Background())
	go func() { cancel() }()
	<-ctx.Done()
	zzAssert(ctx.Err() != nil, "cancelled")
	ctx2, c2 := context.WithTimeout(context.Background(), time.Second)
	defer c2()
	<-ctx2.Done()
	zzAssert(ctx2.Err() == context.DeadlineExceeded, "deadline")
	ctx3 := context.WithValue(context.Background(), "k", 1)
	zzAssert(ctx3.Value("k").(int) == 1, "value")
	zzReach("end")
}

func ZZSelfIO() {
	p := zzBytes("p", 3)
	var b bytes.Buffer
	n, err := io.Copy(&b, bytes.NewReader(p))
	zzAssert(n == 3 && err == nil, "copy")
	n, err = io.CopyN(io.Discard, &b, 2)
	zzAssert(n == 2 && err == nil, "copyn")
	lr := io.LimitReader(bytes.NewReader(p), 2)
	q := make([]byte, 5)
	k, err := lr.Read(q)
	zzAssert(k == 2 && err == nil && q[0] == p[0], "limit")
	mr := io.MultiReader(bytes.NewReader(p[:1]), bytes.NewReader(p[1:]))
	all, err := io.ReadAll(mr)
	zzAssert(err == nil && bytes.Equal(all, p), "multi")
	mw := io.MultiWriter(&b)
	mw.Write(p)
	k, err = io.ReadAtLeast(bytes.NewReader(p), q, 3)
	zzAssert(k == 3 && err == nil, "at least")
	k, err = io.WriteString(&b, "x")
	zzAssert(k == 1 && err == nil, "write string")
	tr := io.TeeReader(bytes.NewReader(p), &b)
	tr.Read(q)
	zzReach("end")
}

type zzSelfT struct {
	a  int
	ch chan int
	fn func(int) int
}

func (t *zzSelfT) Inc()      { t.a++ }
func (t zzSelfT) Get() int   { return t.a }
func zzSelfVar(x ...int) int { return len(x) }

func ZZSelfLang() {
	t := &zzSelfT{ch: make(chan int, 2)}
	f := t.Inc
	f()
	g := (*zzSelfT).Inc
	g(t)
	zzAssert(t.Get() == 2, "method values")
	var i interface{} = t
	switch x := i.(type) {
	case fmt.Stringer:
		zzAssert(false, "no stringer")
	case *zzSelfT:
		zzAssert(x.a == 2, "type switch")
	}
	zzAssert(zzSelfVar([]int{1, 2, 3}...) == 3 && zzSelfVar() == 0, "variadic")
	a := [3]int{1, 2, 3}
	b := a
	b[0] = 9
	zzAssert(a[0] == 1 && a != b, "array copy")
	s := a[:]
	s = append(s[:1], s[2:]...)
	zzAssert(len(s) == 2 && s[1] == 3, "delete")
	s2 := make([]int, 2, 10)
	s3 := s2[1:2:3]
	zzAssert(cap(s3) == 2, "full slice")
outer:
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if j == 1 {
				continue outer
			}
			if i == 2 {
				break outer
			}
		}
	}
	k := 0
loop:
	if k < 3 {
		k++
		goto loop
	}
	t.ch <- 1
	close(t.ch)
	sum := 0
	for v := range t.ch {
		sum += v
	}
	zzAssert(sum == 1, "channel")
	v, ok := <-t.ch
	zzAssert(v == 0 && !ok, "closed")
	var nilch chan int
	select {
	case <-nilch:
		zzAssert(false, "nil channel")
	default:
	}
	x := zzU8("x")
	zzAssert(x&^x == 0 && x^x == 0 && (x<<4)>>4 <= 15, "bits")
	zzAssert(int8(x) >= -128 && uint16(x) < 256, "conversions")
	if x > 0 {
		zzAssert(255/x >= 1 && 255%x < x, "division")
	}
	str := string([]byte{x})
	zzAssert(len(str) == 1 && str[0] == x, "string")
	copy(s2, []int{4, 5})
	zzAssert(s2[1] == 5, "copy")
	fs := []func() int{}
	for i := 0; i < 2; i++ {
		i := i
		fs = append(fs, func() int { return i })
	}
	zzAssert(fs[0]() == 0 && fs[1]() == 1, "closures")
	defer func() { zzReach("end") }()
	func() (r int) {
		defer func() { r++ }()
		return 1
	}()
}

// ZZSelfRunes: conversions and iteration of strings that are not constant.
func ZZSelfRunes() {
	s := zzStr("s", 3)
	rs := []rune(s)
	n := 0
	for i, r := range s {
		zzAssert(n < len(rs) && rs[n] == r, "range gives the runes")
		zzAssert(i < 3 && (r != 0xfffd || s[i] >= 0x80), "replacement for a byte that is no character")
		n++
	}
	zzAssert(n == len(rs), "as many")
	back := string(rs)
	if s[0] < 0x80 && s[1] < 0x80 && s[2] < 0x80 {
		zzAssert(n == 3 && back == s, "plain")
		zzReach("plain")
	}
	if s[0] == 0xff {
		zzAssert(len(back) >= 5 && back != s, "replaced")
		zzReach("replaced")
	}
	if n == 1 {
		zzAssert(back == s || len(back) == 3, "one character of three bytes")
		zzReach("one")
	}
	if n == 2 {
		zzAssert(back == s || len(back) > 3, "a two-byte character")
		zzReach("two")
	}
	x := zzU8("x")
	zzAssert(len(string(rune(x))) == 1 || x >= 0x80, "rune to string")
}
