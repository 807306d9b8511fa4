// Package gen has the generators and the reference layouts of the checks. It does
// not import the code under test: everything here is written from the C structures
// of pttbbs and from the Big5 table in big5.txt.
package gen

import (
	_ "embed"
	"fmt"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

//go:embed big5.txt
var big5Table string

var (
	// Codes are the canonical double-byte characters in code order
	Codes    []uint16
	codeRune = map[uint16]string{}
	runeCode = map[string]uint16{}
	special  []uint16 // second byte is \ | ~ ^ @ or another ASCII sign
)

const fullSpace = 0xa140

func init() {
	for _, l := range strings.Split(strings.TrimSpace(big5Table), "\n") {
		var c uint16
		var s string
		if _, err := fmt.Sscanf(l, "%04x %s", &c, &s); err != nil {
			panic(err)
		}
		Codes = append(Codes, c)
		codeRune[c] = s
		runeCode[s] = c
		switch byte(c) {
		case 0x5c, 0x7c, 0x7e, 0x40, 0x5b, 0x5e, 0x6d, 0x3a:
			special = append(special, c)
		}
		if c == fullSpace { // the full-width space
			special = append(special, c, c, c)
		}
	}
}

// CodeText returns the UTF-8 text of a canonical code
func CodeText(c uint16) string { return codeRune[c] }

// EncodeBig5 encodes text made of ASCII and canonical characters; ok is false for others
func EncodeBig5(s string) (b []byte, ok bool) {
	for _, r := range s {
		if r < 0x80 {
			b = append(b, byte(r))
			continue
		}
		c, known := runeCode[string(r)]
		if !known {
			return nil, false
		}
		b = append(b, byte(c>>8), byte(c))
	}
	return b, true
}

// DecodeBig5 is its inverse
func DecodeBig5(b []byte) (s string, ok bool) {
	var sb strings.Builder
	for i := 0; i < len(b); {
		if b[i] < 0x80 {
			sb.WriteByte(b[i])
			i++
			continue
		}
		if i+1 >= len(b) {
			return "", false
		}
		t, known := codeRune[uint16(b[i])<<8|uint16(b[i+1])]
		if !known {
			return "", false
		}
		sb.WriteString(t)
		i += 2
	}
	return sb.String(), true
}

// MustBig5 encodes text which the generators made
func MustBig5(s string) []byte {
	b, ok := EncodeBig5(s)
	if !ok {
		panic(fmt.Sprintf("gen: %q is not canonical Big5", s))
	}
	return b
}

// CString returns b up to its first NUL
func CString(b []byte) []byte {
	for i, c := range b {
		if c == 0 {
			return b[:i]
		}
	}
	return b
}

// Code draws a canonical double-byte character
func Code() *rapid.Generator[uint16] {
	return rapid.Custom(func(t *rapid.T) uint16 {
		if v, ok := Hot(t, 0x8140, 0xfefe); ok && codeRune[uint16(v)] != "" {
			return uint16(v)
		}
		if rapid.IntRange(0, 3).Draw(t, "pick") == 0 {
			return rapid.SampledFrom(special).Draw(t, "special")
		}
		return rapid.SampledFrom(Codes).Draw(t, "code")
	})
}

// Len draws a length between 0 and max which is often at a limit
func Len(max int) *rapid.Generator[int] {
	if max <= 0 {
		return rapid.Just(0)
	}
	return rapid.Custom(func(t *rapid.T) int {
		if v, ok := Hot(t, 0, int64(max)); ok {
			return int(v)
		}
		switch rapid.IntRange(0, 5).Draw(t, "len") {
		case 0:
			return 0
		case 1:
			return max
		case 2:
			return max - rapid.IntRange(0, 1).Draw(t, "below")
		default:
			return rapid.IntRange(0, max).Draw(t, "n")
		}
	})
}

const idFirst = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
const idRest = idFirst + "0123456789"

func letters(t *rapid.T, alphabet string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[rapid.IntRange(0, len(alphabet)-1).Draw(t, "c")]
	}
	return string(b)
}

// ID draws a user or board id; one in ten is a single letter
func ID() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if rapid.IntRange(0, 9).Draw(t, "letter?") == 9 {
			return letters(t, idFirst, 1)
		}
		return CommentID().Draw(t, "id")
	})
}

// CommentID draws an id of 2 to 12 characters: a comment line names no shorter one
func CommentID() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if s, ok := hotText(t, 12); ok { // as an id, or at its end
			if idLike(s) && rapid.Bool().Draw(t, "alone") {
				return s
			}
			if s = letters(t, idFirst, rapid.IntRange(1, 3).Draw(t, "before")) + s; idLike(s) && len(s) <= 12 {
				return s
			}
		}
		if v, ok := Hot(t, 2, 12); ok {
			return letters(t, idFirst, 1) + letters(t, idRest, int(v)-1)
		}
		n := 1 + rapid.OneOf(rapid.IntRange(1, 11), rapid.Just(11)).Draw(t, "idlen")
		return letters(t, idFirst, 1) + letters(t, idRest, n-1)
	})
}

func idLike(s string) bool {
	if len(s) < 2 || !strings.Contains(idFirst, s[:1]) {
		return false
	}
	for i := range s {
		if !strings.Contains(idRest, s[i:i+1]) {
			return false
		}
	}
	return true
}

// Ascii draws printable ASCII of at most max bytes
func Ascii(max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := Len(max).Draw(t, "size")
		b := make([]byte, n)
		for i := range b {
			b[i] = char(t)
		}
		if s, ok := hotText(t, n); ok {
			for i := range s {
				if s[i] < 0x20 || s[i] > 0x7e {
					return string(b)
				}
			}
			copy(b[rapid.IntRange(0, n-len(s)).Draw(t, "at"):], s)
		}
		return string(b)
	})
}

// Text draws ASCII and Chinese text of at most max bytes of Big5
func Text(max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := Len(max).Draw(t, "size")
		style := rapid.IntRange(0, 2).Draw(t, "style")
		end := ""
		if n >= 3 && rapid.IntRange(0, 5).Draw(t, "edge") == 0 { // blanks at the edges
			end = rapid.SampledFrom([]string{" ", codeRune[fullSpace]}).Draw(t, "blank")
			n -= len(MustBig5(end))
		}
		var sb strings.Builder
		if s, ok := hotText(t, n); ok && !strings.ContainsFunc(s, unicode.IsControl) {
			if b, ok := EncodeBig5(s); ok && len(b) <= n { // between, in front, or at the end
				n -= len(b)
				if rapid.Bool().Draw(t, "first") {
					sb.WriteString(s)
				} else {
					end = s + end
				}
			}
		}
		if end != "" && rapid.Bool().Draw(t, "front") {
			sb.WriteString(end)
			end = ""
		}
		for n > 0 {
			wide := style == 1
			if style == 2 {
				wide = rapid.Bool().Draw(t, "wide")
			}
			if wide && n >= 2 {
				sb.WriteString(codeRune[Code().Draw(t, "code")])
				n -= 2
			} else {
				sb.WriteByte(char(t))
				n--
			}
		}
		return sb.String() + end
	})
}

// Echo sometimes repeats elements of the list, mostly next to each other: what
// independent draws hardly ever do.
func Echo[T any](t *rapid.T, l []T) []T {
	if len(l) < 2 || rapid.IntRange(0, 2).Draw(t, "echo") != 0 {
		return l
	}
	for k := rapid.IntRange(1, 3).Draw(t, "echoes"); k > 0; k-- {
		i := rapid.IntRange(0, len(l)-1).Draw(t, "from")
		j := rapid.IntRange(0, len(l)-1).Draw(t, "to")
		if i+1 < len(l) && rapid.Bool().Draw(t, "next") {
			j = i + 1
		}
		l[j] = l[i]
	}
	return l
}

// Fill expands a drawn description to n bytes: zeros, ones, a counter or noise.
func Fill(n int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		b := make([]byte, n)
		switch rapid.IntRange(0, 3).Draw(t, "fill") {
		case 0:
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		case 2:
			for i := range b {
				b[i] = byte(i + 1)
			}
		default:
			Noise(b, rapid.Uint64().Draw(t, "noise"))
		}
		return b
	})
}

// Noise fills b with the sequence of the seed (splitmix64)
func Noise(b []byte, seed uint64) {
	for i := 0; i < len(b); i += 8 {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		z ^= z >> 31
		for j := 0; j < 8 && i+j < len(b); j++ {
			b[i+j] = byte(z >> (8 * j))
		}
	}
}

// Bytes draws up to max bytes of any kind; long ones are noise, so they cost few draws
func Bytes(max int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		n := Len(max).Draw(t, "size")
		if s, ok := hotText(t, n); ok {
			b := rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "around")
			return append(append(b, s...), rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "around")...)[:min(n, len(s)+len(b))]
		}
		if n <= 24 {
			return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes")
		}
		b := make([]byte, n)
		Noise(b, rapid.Uint64().Draw(t, "noise"))
		return b
	})
}

// U draws an unsigned number of the given number of bits, often at a limit
func U(bits int) *rapid.Generator[uint64] {
	max := uint64(1)<<bits - 1
	return rapid.Custom(func(t *rapid.T) uint64 {
		if v, ok := hotBits(t, max); ok {
			return v
		}
		switch rapid.IntRange(0, 5).Draw(t, "num") {
		case 0:
			return 0
		case 1:
			return max
		case 2: // around a power of two
			k := rapid.IntRange(0, bits-1).Draw(t, "bit")
			d := rapid.IntRange(-1, 1).Draw(t, "off")
			return (uint64(1)<<k + uint64(d)) & max
		case 3:
			return rapid.Uint64Range(0, min(max, 300)).Draw(t, "small")
		default:
			return rapid.Uint64Range(0, max).Draw(t, "n")
		}
	})
}

// I32 draws a signed 32-bit number, often at a limit
func I32() *rapid.Generator[int32] {
	return rapid.Map(U(32), func(u uint64) int32 { return int32(uint32(u)) })
}
