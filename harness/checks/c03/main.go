// C03: user account records keep every field at its documented place, both ways.
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type recCase struct{ Rec []byte }
type twoCase struct{ Old, New []byte }

func record(t *rapid.T) []byte { return gen.User.Record().Draw(t, "rec") }

func main() {
	l := gen.User
	kit.Main(kit.Property{
		ID:   "C03",
		Rule: "a case is a 512-byte account record (or two of them) with drawn field values, stale bytes behind texts and any padding; it is non-trivial when at least 20 different numbers other than 0 and -1 are stored in it",
		Assumptions: []string{
			"layout table harness/gen/layout.go transcribed from userec_t of pttstruct.h",
			"the first login has no getter and is compared through the written record",
		},
		Arms: kit.Arms(40, 2000, 100,
			kit.NewArm("read and write back", 24000, 1200000, func(t *rapid.T) recCase {
				return recCase{record(t)}
			}, func(c recCase, x *kit.X) error {
				x.NonTrivial(l.Distinct(c.Rec) >= 20)
				in := append([]byte{}, c.Rec...)
				u, err := pttbbs.UnmarshalUserec(in)
				if err != nil {
					return fmt.Errorf("decode: %w", err)
				}
				if string(in) != string(c.Rec) {
					return fmt.Errorf("decoding changed its input")
				}
				if err := rec.Compare(l, c.Rec, rec.User(u)); err != nil {
					return err
				}
				out, err := u.MarshalBinary()
				if err != nil {
					return fmt.Errorf("encode: %w", err)
				}
				return l.Diff(c.Rec, out)
			}),
			kit.NewArm("change the fields", 12000, 600000, func(t *rapid.T) twoCase {
				return twoCase{record(t), record(t)}
			}, func(c twoCase, x *kit.X) error {
				x.NonTrivial(l.Distinct(c.Old) >= 20 && l.Distinct(c.New) >= 20)
				u, err := pttbbs.UnmarshalUserec(append([]byte{}, c.Old...))
				if err != nil {
					return fmt.Errorf("decode: %w", err)
				}
				set := rec.Assign(l, c.New, rec.User(u))
				want := rec.Merge(l, c.Old, c.New, set)
				out, err := u.MarshalBinary()
				if err != nil {
					return fmt.Errorf("encode: %w", err)
				}
				return l.Diff(want, out)
			}),
		),
	})
}
