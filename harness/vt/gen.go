package vt

import (
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Weighted draws an index with the given weights.
func Weighted(rt *rapid.T, label string, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	n := rapid.IntRange(0, sum-1).Draw(rt, label)
	for i, x := range w {
		if n < x {
			return i
		}
		n -= x
	}
	return len(w) - 1
}

// Pick draws one of the values.
func Pick[T any](rt *rapid.T, label string, vs ...T) T {
	return vs[rapid.IntRange(0, len(vs)-1).Draw(rt, label)]
}

// Text draws a string mixing ASCII, multi-byte characters, separators and invalid bytes.
func Text(min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(rt *rapid.T) string {
		n := rapid.IntRange(min, max).Draw(rt, "n")
		var b []byte
		mode := rapid.IntRange(0, 4).Draw(rt, "mode")
		for i := 0; i < n; i++ {
			m := mode
			if m == 4 {
				m = rapid.IntRange(0, 3).Draw(rt, "m")
			}
			switch m {
			case 0:
				b = append(b, byte(rapid.IntRange('a', 'z').Draw(rt, "c")))
			case 1:
				b = append(b, byte(rapid.IntRange(0x20, 0x7e).Draw(rt, "c")))
			case 2:
				b = utf8.AppendRune(b, Pick(rt, "r", 'é', 'ß', '世', '界', 'Ж', '😀', '́', 'ǆ', 'İ', 'ı', '一', 'ö', '�', ' ', '𝒳'))
			case 3:
				b = append(b, rapid.Byte().Draw(rt, "b"))
			}
		}
		return string(b)
	})
}

// ValidText is Text without invalid UTF-8.
func ValidText(min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(rt *rapid.T) string {
		n := rapid.IntRange(min, max).Draw(rt, "n")
		var b []byte
		mode := rapid.IntRange(0, 3).Draw(rt, "mode")
		for i := 0; i < n; i++ {
			m := mode
			if m == 3 {
				m = rapid.IntRange(0, 2).Draw(rt, "m")
			}
			switch m {
			case 0:
				b = append(b, byte(rapid.IntRange('a', 'z').Draw(rt, "c")))
			case 1:
				b = append(b, byte(rapid.IntRange(0, 0x7f).Draw(rt, "c")))
			case 2:
				b = utf8.AppendRune(b, Pick(rt, "r", 'é', 'ß', '世', '界', 'Ж', '😀', '́', 'ǆ', 'İ', 'ı', '一', 'ö', ' ', '𝒳', '�'))
			}
		}
		return string(b)
	})
}

// Bytes draws a byte string with varied sizes, mostly small, sometimes around block limits.
func Bytes(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(rt *rapid.T) []byte {
		var n int
		switch rapid.IntRange(0, 5).Draw(rt, "size") {
		case 0, 1, 2:
			n = rapid.IntRange(0, min(40, max)).Draw(rt, "n")
		case 3:
			n = min(max, Pick(rt, "n", 0, 1, 15, 16, 17, 31, 32, 33, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769))
		case 4:
			n = rapid.IntRange(0, min(600, max)).Draw(rt, "n")
		default:
			n = rapid.IntRange(0, max).Draw(rt, "n")
		}
		return Fill(rt, n)
	})
}

// Big draws Bytes(max), but one time in rare up to limit bytes.
func Big(max, limit, rare int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(rt *rapid.T) []byte {
		if rapid.IntRange(1, rare).Draw(rt, "big") == rare {
			return Fill(rt, rapid.IntRange(max, limit).Draw(rt, "n"))
		}
		return Bytes(max).Draw(rt, "bytes")
	})
}

// Fill draws n bytes: small ones byte by byte, long ones expanded from a drawn seed.
func Fill(rt *rapid.T, n int) []byte {
	b := make([]byte, n)
	if n <= 40 {
		for i := range b {
			b[i] = rapid.Byte().Draw(rt, "b")
		}
		return b
	}
	s := rapid.Uint64().Draw(rt, "seed")
	for i := range b {
		if i%8 == 0 {
			s = Mix(s + 0x9e3779b97f4a7c15)
		}
		b[i] = byte(s >> (8 * (i % 8)))
	}
	return b
}

// Mix is splitmix64's finaliser: a pure function from a drawn seed to pseudo-random bits.
func Mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}
