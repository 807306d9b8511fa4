// C01: board records keep every field at its documented place, both ways.
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type recCase struct{ Rec []byte }

type zeroCase struct {
	Rec  []byte
	Zero []bool // which of the times are the zero Time
}

func main() {
	l := gen.Board
	kit.Main(kit.Property{
		ID:   "C01",
		Rule: "a case is a 256-byte board record with drawn field values, stale bytes behind texts and any padding; it is non-trivial when at least 10 different numbers other than 0 and -1 are stored in it and the title is not empty",
		Assumptions: []string{
			"layout table harness/gen/layout.go transcribed from boardheader_t of pttstruct.h",
			"text is ASCII or canonical Big5; posttype is padded with NULs and has none inside",
		},
		Arms: kit.Arms(40, 2000, 100,
			kit.NewArm("read and write back", 48000, 1600000, func(t *rapid.T) recCase {
				return recCase{l.Record().Draw(t, "rec")}
			}, func(c recCase, x *kit.X) error {
				x.NonTrivial(l.Distinct(c.Rec) >= 10 && c.Rec[13] != 0)
				in := append([]byte{}, c.Rec...)
				b, err := pttbbs.UnmarshalBoardHeader(in)
				if err != nil {
					return fmt.Errorf("decode: %w", err)
				}
				if string(in) != string(c.Rec) {
					return fmt.Errorf("decoding changed its input")
				}
				if err := rec.Compare(l, c.Rec, rec.Board(b)); err != nil {
					return err
				}
				out, err := b.MarshalBinary()
				if err != nil {
					return fmt.Errorf("encode: %w", err)
				}
				return l.Diff(c.Rec, out)
			}),
			kit.NewArm("write from values", 24000, 800000, func(t *rapid.T) recCase {
				return recCase{l.Record().Draw(t, "rec")}
			}, func(c recCase, x *kit.X) error {
				x.NonTrivial(l.Distinct(c.Rec) >= 10 && c.Rec[13] != 0)
				want := append([]byte{}, c.Rec...)
				l.Find("bm").PutText(want, "")
				out, err := rec.NewBoard(want).MarshalBinary()
				if err != nil {
					return fmt.Errorf("encode: %w", err)
				}
				return l.Diff(want, out)
			}),
			kit.NewArm("times never set", 8000, 200000, func(t *rapid.T) zeroCase {
				return zeroCase{l.Record().Draw(t, "rec"), rapid.SliceOfN(rapid.Bool(), 5, 5).Draw(t, "zero")}
			}, func(c zeroCase, x *kit.X) error {
				want := append([]byte{}, c.Rec...)
				l.Find("bm").PutText(want, "")
				b := rec.NewBoard(want)
				fresh := pttbbs.NewBoardHeader()
				for i, n := range []string{"bupdate", "vtime", "perm_reload", "endgamble", "srexpire"} {
					if !c.Zero[i] {
						continue
					}
					x.NonTrivial(true)
					l.Find(n).Put(want, 0)
					switch i {
					case 0:
						b.BUpdate = fresh.BUpdate
					case 1:
						b.VTime = fresh.VTime
					case 2:
						b.PermReload = fresh.PermReload
					case 3:
						b.EndGamble = fresh.EndGamble
					case 4:
						b.SRexpire = fresh.SRexpire
					}
				}
				out, err := b.MarshalBinary()
				if err != nil {
					return fmt.Errorf("encode: %w", err)
				}
				return l.Diff(want, out)
			}),
		),
	})
}
