package ustack

import "sync"

// Models, in Go, of library functions that are written in assembly or through
// reflection; used only while the code is executed symbolically.

func zzModelCompare(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	if len(a) == len(b) {
		return 0
	}
	if len(a) < len(b) {
		return -1
	}
	return 1
}

func zzModelCompareString(a, b string) int { return zzModelCompare([]byte(a), []byte(b)) }

func zzModelCount(b []byte, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func zzModelCountString(s string, c byte) int { return zzModelCount([]byte(s), c) }

func zzModelIndexByte(b []byte, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func zzModelIndexByteString(s string, c byte) int { return zzModelIndexByte([]byte(s), c) }

func zzModelIndex(a, b []byte) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if string(a[i:i+len(b)]) == string(b) {
			return i
		}
	}
	return -1
}

func zzModelIndexString(a, b string) int { return zzModelIndex([]byte(a), []byte(b)) }

// zzSliceLen, zzSliceSwap and zzAssignTo are intercepted by the engine.
func zzSliceLen(x interface{}) int                      { return 0 }
func zzSliceSwap(x interface{}, i, j int)               {}
func zzAssignTo(err error, target interface{}) bool     { return false }
func zzComparableIs(err error, target interface{}) bool { return false }

func zzModelSortSlice(x interface{}, less func(i, j int) bool) {
	n := zzSliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			zzSliceSwap(x, j, j-1)
		}
	}
}

func zzModelErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if zzAssignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if zzModelErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func zzModelErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	for {
		if zzComparableIs(err, target) {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if zzModelErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func zzModelPoolGet(p *sync.Pool) interface{} {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func zzModelFormatUint(u uint64, base int) string {
	const digits = "0123456789abcdefghijklmnopqrstuvwxyz"
	if u == 0 {
		return "0"
	}
	var a [64]byte
	n := len(a)
	for u > 0 {
		n--
		a[n] = digits[u%uint64(base)]
		u /= uint64(base)
	}
	return string(a[n:])
}

func zzModelFormatInt(i int64, base int) string {
	if i < 0 {
		return "-" + zzModelFormatUint(uint64(-i), base)
	}
	return zzModelFormatUint(uint64(i), base)
}

func zzModelItoa(i int) string { return zzModelFormatInt(int64(i), 10) }

func zzModelRunes(s string) []rune {
	var rs []rune
	for i := 0; i < len(s); {
		r, w := zzModelDecodeRuneInString(s[i:])
		rs = append(rs, r)
		i += w
	}
	return rs
}

func zzModelRunesString(rs []rune) string {
	var b []byte
	for _, r := range rs {
		b = append(b, zzModelRuneString(int64(r))...)
	}
	return string(b)
}

func zzModelRuneString(r int64) string {
	switch {
	case 0 <= r && r < 0x80:
		return string([]byte{byte(r)})
	case 0 <= r && r < 0x800:
		return string([]byte{0xc0 | byte(r>>6), 0x80 | byte(r)&0x3f})
	case r < 0 || r > 0x10ffff || 0xd800 <= r && r <= 0xdfff:
		return "\xef\xbf\xbd"
	case r < 0x10000:
		return string([]byte{0xe0 | byte(r>>12), 0x80 | byte(r>>6)&0x3f, 0x80 | byte(r)&0x3f})
	}
	return string([]byte{0xf0 | byte(r>>18), 0x80 | byte(r>>12)&0x3f, 0x80 | byte(r>>6)&0x3f, 0x80 | byte(r)&0x3f})
}

func zzModelNextRune(s string, pos *int) (bool, int, rune) {
	i := *pos
	if i >= len(s) {
		return false, 0, 0
	}
	r, w := zzModelDecodeRuneInString(s[i:])
	*pos = i + w
	return true, i, r
}

func zzModelDecodeRuneInString(s string) (rune, int) {
	if len(s) == 0 {
		return 0xfffd, 0
	}
	a := s[0]
	if a < 0x80 {
		return rune(a), 1
	}
	if a < 0xc2 || a > 0xf4 || len(s) < 2 {
		return 0xfffd, 1
	}
	b := s[1]
	if b < 0x80 || b > 0xbf || a == 0xe0 && b < 0xa0 || a == 0xed && b > 0x9f || a == 0xf0 && b < 0x90 || a == 0xf4 && b > 0x8f {
		return 0xfffd, 1
	}
	if a < 0xe0 {
		return rune(a&0x1f)<<6 | rune(b&0x3f), 2
	}
	if len(s) < 3 {
		return 0xfffd, 1
	}
	c := s[2]
	if c < 0x80 || c > 0xbf {
		return 0xfffd, 1
	}
	if a < 0xf0 {
		return rune(a&0xf)<<12 | rune(b&0x3f)<<6 | rune(c&0x3f), 3
	}
	if len(s) < 4 {
		return 0xfffd, 1
	}
	d := s[3]
	if d < 0x80 || d > 0xbf {
		return 0xfffd, 1
	}
	return rune(a&7)<<18 | rune(b&0x3f)<<12 | rune(c&0x3f)<<6 | rune(d&0x3f), 4
}

func zzModelDecodeRune(p []byte) (rune, int) { return zzModelDecodeRuneInString(string(p)) }

func zzModelValidString(s string) bool {
	for i := 0; i < len(s); {
		r, w := zzModelDecodeRuneInString(s[i:])
		if r == 0xfffd && w == 1 {
			return false
		}
		i += w
	}
	return true
}

func zzModelValid(p []byte) bool { return zzModelValidString(string(p)) }

func zzModelRuneCountInString(s string) int {
	n := 0
	for i := 0; i < len(s); {
		_, w := zzModelDecodeRuneInString(s[i:])
		i += w
		n++
	}
	return n
}

func zzModelRuneCount(p []byte) int { return zzModelRuneCountInString(string(p)) }

// zzModelIsSpace is unicode.IsSpace without its table.
func zzModelIsSpace(r rune) bool {
	switch r {
	case '\t', '\n', '\v', '\f', '\r', ' ', 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000:
		return true
	}
	return 0x2000 <= r && r <= 0x200a
}
