// C21: the ANSI filter removes the escape sequences and nothing else.
package main

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"pgregory.net/rapid"
)

type piece struct {
	Seq  bool
	Text string
}

type text struct{ Pieces []piece }

// plain draws any text without the characters which begin or end escape sequences
func plain() *rapid.Generator[string] {
	ok := func(r rune) bool { return r != 0x1b && r != 0x9b && r != 7 }
	return rapid.Map(rapid.OneOf(
		gen.Text(30), gen.Text(30),
		rapid.StringOfN(rapid.SampledFrom([]rune("[]()#;?0123456789mHJKABCDf\\ \n\r\t")), 0, 12, -1),
		rapid.String(),
		rapid.StringOfN(rapid.RuneFrom([]rune("批踢踢實業坊é😀\u00a0\u200b\x00\x7f\x1c")), 0, 8, -1),
	), func(s string) string {
		return strings.Map(func(r rune) rune {
			if ok(r) {
				return r
			}
			return -1
		}, s)
	})
}

// sequence draws a colour, cursor movement or erase sequence
func sequence(t *rapid.T) string {
	param := func() string {
		return rapid.OneOf(rapid.SampledFrom([]string{"0", "1", "5", "7", "30", "37", "40", "47", "4", "", "00", "01"}),
			rapid.Map(gen.Num(0, 9999), func(n int) string { return fmt.Sprint(n) })).Draw(t, "param")
	}
	n, final := 0, ""
	switch rapid.IntRange(0, 4).Draw(t, "kind") {
	case 0, 1: // colour
		n, final = rapid.IntRange(0, 6).Draw(t, "params"), "m"
		if rapid.IntRange(0, 15).Draw(t, "long?") == 0 {
			n = gen.Num(7, 300).Draw(t, "many params")
		}
	case 2: // cursor movement
		n, final = rapid.IntRange(0, 1).Draw(t, "params"), rapid.SampledFrom([]string{"A", "B", "C", "D", "E", "F", "G"}).Draw(t, "final")
	case 3: // position
		n, final = rapid.SampledFrom([]int{0, 2}).Draw(t, "params"), rapid.SampledFrom([]string{"H", "f"}).Draw(t, "final")
	default: // erase
		n, final = rapid.IntRange(0, 1).Draw(t, "params"), rapid.SampledFrom([]string{"J", "K"}).Draw(t, "final")
	}
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, param())
	}
	return "\x1b[" + strings.Join(ps, ";") + final
}

func draw(t *rapid.T) text {
	return text{gen.ListOf(rapid.Custom(func(t *rapid.T) piece {
		if rapid.Bool().Draw(t, "seq") {
			return piece{true, sequence(t)}
		}
		return piece{false, plain().Draw(t, "plain")}
	}), 0, 12, 200).Draw(t, "pieces")}
}

func check(c text, x *kit.X) error {
	var all, want strings.Builder
	seqs, texts := 0, 0
	for _, p := range c.Pieces {
		all.WriteString(p.Text)
		if p.Seq {
			seqs++
		} else {
			want.WriteString(p.Text)
			if p.Text != "" {
				texts++
			}
		}
	}
	got := bbs.FilterStringANSI(all.String())
	if got != want.String() {
		return fmt.Errorf("%q is filtered to %q instead of %q", all.String(), got, want.String())
	}
	if again := bbs.FilterStringANSI(got); again != got {
		return fmt.Errorf("%q is filtered to %q, and that to %q", all.String(), got, again)
	}
	x.NonTrivial(seqs > 0 && texts > 0)
	return nil
}

// noEscape: any bytes without an escape character (ESC, or U+009B as UTF-8)
type noEscape struct{ Data []byte }

func drawNone(t *rapid.T) noEscape {
	var b []byte
	for _, p := range rapid.SliceOfN(rapid.OneOf(gen.Bytes(60), rapid.Map(plain(), func(s string) []byte { return []byte(s) }),
		rapid.Just([]byte("[1;31m")), rapid.Just([]byte("\x07")), rapid.Map(gen.Text(20), gen.MustBig5)), 0, 6).Draw(t, "parts") {
		b = append(b, p...)
	}
	for i, c := range b {
		if c == 0x1b || c == 0x9b {
			b[i] = '['
		}
	}
	return noEscape{b}
}

func checkNone(c noEscape, x *kit.X) error {
	if got := bbs.FilterStringANSI(string(c.Data)); got != string(c.Data) {
		return fmt.Errorf("%q has no escape character and is filtered to %q", c.Data, got)
	}
	x.NonTrivial(len(c.Data) > 0)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C21",
		Rule:        "a case is a list of plain texts and escape sequences (colours, cursor movement, position, erase; usually up to six parameters of up to four digits, sometimes hundreds), or any bytes without an escape character; it is non-trivial when it has both a sequence and plain text, or any byte",
		Assumptions: []string{"plain text has no BEL, which ends another kind of escape sequence"},
		Arms: []kit.Arm{
			kit.NewArm("pieces", 12000, 600000, draw, check),
			kit.NewArm("no escape", 8000, 400000, drawNone, checkNone),
			kit.Together(150, 6000, draw, check),
		},
	})
}
