// C20: Big5 text survives conversion, and an unknown character costs only itself.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"pgregory.net/rapid"
)

// sequence of ASCII bytes (below 0x80) and double-byte codes
type sequence struct {
	Codes  []uint16
	Repeat int
}

func code() *rapid.Generator[uint16] {
	return rapid.OneOf(gen.Code(), gen.Code(), rapid.Uint16Range(0, 0x7f))
}

func draw(t *rapid.T) sequence {
	s := sequence{gen.ListOf(code(), 0, rapid.SampledFrom([]int{1, 3, 40}).Draw(t, "max"), 300).Draw(t, "codes"), 1}
	if rapid.IntRange(0, 19).Draw(t, "long?") == 0 {
		s.Repeat = gen.Num(2, 2000).Draw(t, "repeat")
	}
	return s
}

func (s sequence) build() (big5 []byte, text string) {
	var b []byte
	var sb strings.Builder
	for _, c := range s.Codes {
		if c < 0x80 {
			b = append(b, byte(c))
			sb.WriteByte(byte(c))
		} else {
			b = append(b, byte(c>>8), byte(c))
			sb.WriteString(gen.CodeText(c))
		}
	}
	return bytes.Repeat(b, s.Repeat), strings.Repeat(sb.String(), s.Repeat)
}

func check(c sequence, x *kit.X) error {
	b, s := c.build()
	in := append([]byte{}, b...)
	if got := bbs.Big5ToUtf8(in); got != s {
		return fmt.Errorf("%.200x is converted to %.200q instead of %.200q", b, got, s)
	}
	if !bytes.Equal(in, b) {
		return fmt.Errorf("the argument was changed")
	}
	if got := bbs.Utf8ToBig5(s); !bytes.Equal(got, b) {
		return fmt.Errorf("%.200q is converted to %.200x instead of %.200x", s, got, b)
	}
	wide := false
	for _, k := range c.Codes {
		wide = wide || k >= 0x80
	}
	x.NonTrivial(wide)
	return nil
}

// every canonical character, in the neighbourhood of every kind of byte
type sweep struct {
	First, Step int
	Around      string
}

func drawSweep(t *rapid.T) sweep {
	return sweep{gen.Num(0, 15).Draw(t, "first"), 16, rapid.SampledFrom([]string{"", "a", "\\", "|", "\x1b[m", "\x00"}).Draw(t, "around")}
}

func checkSweep(c sweep, x *kit.X) error {
	for i := c.First; i < len(gen.Codes); i += c.Step {
		k := gen.Codes[i]
		b := append(append([]byte(c.Around), byte(k>>8), byte(k)), c.Around...)
		around := c.Around
		if around == "\xa1\x40" {
			around = "\u3000"
		}
		s := around + gen.CodeText(k) + around
		if got := bbs.Big5ToUtf8(b); got != s {
			return fmt.Errorf("%x is converted to %q instead of %q", b, got, s)
		}
		if got := bbs.Utf8ToBig5(s); !bytes.Equal(got, b) {
			return fmt.Errorf("%q is converted to %x instead of %x", s, got, b)
		}
	}
	x.NonTrivial(true)
	return nil
}

func drawAll(t *rapid.T) sweep {
	return sweep{First: 0, Step: 1}
}

// checkAll has each character alone, at the start, at the end and in the middle
func checkAll(c sweep, x *kit.X) error {
	for _, around := range []string{"", "x", " ", "\xa1\x40", "\n"} {
		c.Around = around
		if err := checkSweep(c, x); err != nil {
			return err
		}
	}
	return nil
}

// mixed: known text and, between the parts, characters which Big5 does not have
type mixed struct {
	Known   []sequence
	Unknown [][]byte // one between two known parts; nothing is allowed too
}

var outside = [][2]int{ // Hangul, Arabic, Thai, emoji, plane 3 and private use
	{0xac00, 0xd7a3}, {0x620, 0x64a}, {0xe01, 0xe30}, {0x1f300, 0x1f5ff}, {0x1f600, 0x1f64f}, {0xf0000, 0xf0100}, {0x10ff00, 0x10fff0},
}

func drawMixed(t *rapid.T) mixed {
	n := rapid.IntRange(1, 6).Draw(t, "parts")
	m := mixed{}
	for i := 0; i < n; i++ {
		k := sequence{Repeat: 1}
		if i > 0 && i+1 < n && !valid(m.Unknown[i-1]) {
			k.Codes = append(k.Codes, 'a') // invalid sequences do not touch, together they may be valid
		}
		known := gen.ListOf(code(), 0, 8, 300).Draw(t, "known")
		if i == n-1 && rapid.Bool().Draw(t, "unknown at the end") {
			known = nil
		}
		for _, c := range known {
			if c >= 0x20 { // the substitute is a control character
				k.Codes = append(k.Codes, c)
			}
		}
		if rapid.IntRange(0, 19).Draw(t, "long?") == 0 {
			k.Repeat = gen.Num(2, 1500).Draw(t, "repeat")
		}
		m.Known = append(m.Known, k)
		if i+1 < n {
			r := rapid.SampledFrom(outside).Draw(t, "range")
			u := []byte(string(rune(gen.Num(r[0], r[1]).Draw(t, "rune"))))
			if rapid.IntRange(0, 3).Draw(t, "invalid?") == 0 {
				u = rapid.SampledFrom([][]byte{{0xff}, {0x80}, {0xe4, 0xb8}, {0xc3}, {0xf0, 0x9f}, {0xf0, 0x9f, 0x98}}).Draw(t, "invalid")
			}
			m.Unknown = append(m.Unknown, u)
		}
	}
	return m
}

func valid(u []byte) bool {
	return len([]rune(string(u))) == 1 && string([]rune(string(u))) == string(u)
}

func checkMixed(c mixed, x *kit.X) error {
	var in []byte
	for i, k := range c.Known {
		_, s := k.build()
		in = append(in, s...)
		if i < len(c.Unknown) {
			in = append(in, c.Unknown[i]...)
		}
	}
	sub := bbs.Utf8ToBig5("\U0001F600")
	if len(sub) < 1 || len(sub) > 2 {
		return fmt.Errorf("an unknown character becomes %x, not a single character", sub)
	}
	got := bbs.Utf8ToBig5(string(in))
	rest := got
	for i, k := range c.Known {
		b, _ := k.build()
		if !bytes.HasPrefix(rest, b) {
			return fmt.Errorf("%.300q is converted to %.300x, known part %d (%.100x) is not kept", in, got, i, b)
		}
		rest = rest[len(b):]
		if i < len(c.Unknown) {
			// an invalid sequence may count as one character or as one per byte
			n := 1
			if !valid(c.Unknown[i]) {
				for n < len(c.Unknown[i]) && bytes.HasPrefix(rest[min(n*len(sub), len(rest)):], sub) {
					n++
				}
			}
			s := bytes.Repeat(sub, n)
			if !bytes.HasPrefix(rest, s) {
				return fmt.Errorf("%.300q is converted to %.300x, %q is not replaced by %x", in, got, c.Unknown[i], sub)
			}
			rest = rest[len(s):]
		}
	}
	if len(rest) > 0 {
		return fmt.Errorf("%.300q is converted to %.300x, with %x at its end", in, got, rest)
	}
	x.NonTrivial(len(c.Unknown) > 0)
	return nil
}

// broken: known Big5 text and, between the parts, bytes which are no character there
type broken struct {
	Known []sequence
	Bad   []byte // one between two known parts
	Half  byte   // the first byte of a character at the end, 0 for none
}

func drawBroken(t *rapid.T) broken {
	n := rapid.IntRange(1, 6).Draw(t, "parts")
	b := broken{}
	for i := 0; i < n; i++ {
		k := sequence{Codes: gen.ListOf(code(), 0, 8, 300).Draw(t, "known"), Repeat: 1}
		if rapid.IntRange(0, 19).Draw(t, "long?") == 0 {
			k.Repeat = gen.Num(2, 1500).Draw(t, "repeat")
		}
		b.Known = append(b.Known, k)
		if i+1 < n {
			b.Bad = append(b.Bad, rapid.SampledFrom([]byte{0x80, 0xff}).Draw(t, "bad"))
		}
	}
	if rapid.Bool().Draw(t, "cut?") {
		b.Half = byte(rapid.SampledFrom(gen.Codes).Draw(t, "character") >> 8)
	}
	return b
}

func checkBroken(c broken, x *kit.X) error {
	var in []byte
	var want strings.Builder
	for i, k := range c.Known {
		b, s := k.build()
		in = append(in, b...)
		want.WriteString(s)
		if i < len(c.Bad) {
			in = append(in, c.Bad[i])
			want.WriteString("\ufffd")
		}
	}
	if c.Half != 0 {
		in = append(in, c.Half)
		want.WriteString("\ufffd")
	}
	if got := bbs.Big5ToUtf8(in); got != want.String() {
		return fmt.Errorf("%.300x is converted to %.300q instead of %.300q", in, got, want.String())
	}
	x.NonTrivial(len(c.Bad) > 0 || c.Half != 0)
	return nil
}

type junk struct{ Data []byte }

func drawJunk(t *rapid.T) junk { return junk{gen.Bytes(200).Draw(t, "data")} }

func checkJunk(c junk, x *kit.X) error {
	in := append([]byte{}, c.Data...)
	bbs.Big5ToUtf8(in)
	bbs.Utf8ToBig5(string(in))
	if !bytes.Equal(in, c.Data) {
		return fmt.Errorf("the argument was changed")
	}
	x.NonTrivial(len(c.Data) > 0)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C20",
		Rule:        "a case is a sequence of ASCII and canonical double-byte characters (up to 160 kB), a sweep over all 13 420 canonical characters, known text with characters outside Big5 or invalid UTF-8 between its parts, Big5 text with bytes which are no character between its parts and half a character at its end, or arbitrary bytes (no panic); it is non-trivial when it has a double-byte character, an unknown one, or any byte at all",
		Assumptions: []string{"canonical characters are those which the WHATWG Big5 index maps both ways"},
		Arms: []kit.Arm{
			kit.NewArm("round trip", 12000, 600000, draw, check),
			kit.NewArm("sweep", 30, 1000, drawSweep, checkSweep),
			kit.NewArm("all characters", 2, 20, drawAll, checkAll),
			kit.NewArm("unknown characters", 12000, 600000, drawMixed, checkMixed),
			kit.NewArm("broken Big5", 6000, 300000, drawBroken, checkBroken),
			kit.NewArm("any bytes", 6000, 300000, drawJunk, checkJunk),
			kit.Together(150, 6000, drawMixed, checkMixed),
		},
	})
}
