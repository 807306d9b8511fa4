// C42: Formosa article indexes are read with every field as stored.
package main

import (
	"fmt"
	"path/filepath"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"pgregory.net/rapid"
)

type recCase struct{ Recs [][]byte }

func main() {
	k := rec.KindOf("formosa")
	kit.Main(kit.Property{
		ID:          "C42",
		Rule:        "a case is up to four 248-byte index records with drawn values, stale bytes behind texts and any bytes elsewhere; it is non-trivial when the post number and time of one of them are neither 0 nor -1 and it has a title",
		Assumptions: []string{"only the fields which the decoder reads are compared"},
		Arms: kit.Arms(40, 2000, 40,
			kit.NewArm("records", 30000, 1500000, func(t *rapid.T) recCase {
				return recCase{gen.Echo(t, gen.ListOf(k.L.Record(), 1, 4, 300).Draw(t, "recs"))}
			}, func(c recCase, x *kit.X) error {
				for i, r := range c.Recs {
					x.NonTrivial(k.L.Distinct(r) == 2 && r[160] != 0)
					in := append([]byte{}, r...)
					vs, err := k.Decode(in)
					if err != nil {
						return fmt.Errorf("decode: %w", err)
					}
					if err := rec.Compare(k.L, r, vs); err != nil {
						return fmt.Errorf("record %d: %w", i, err)
					}
					if string(in) != string(r) {
						return fmt.Errorf("decoding changed its input")
					}
				}
				return nil
			}),
			kit.NewArm("files", 3000, 100000, func(t *rapid.T) recCase {
				return recCase{gen.Echo(t, gen.ListOf(k.L.Record(), 0, 6, 300).Draw(t, "recs"))}
			}, func(c recCase, x *kit.X) error {
				name := filepath.Join(x.Dir(), ".DIR")
				kit.Write(name, gen.Join(c.Recs))
				vs, err := k.Open(name)
				if err != nil {
					return fmt.Errorf("open: %w", err)
				}
				if len(vs) != len(c.Recs) {
					return fmt.Errorf("%d records are read as %d", len(c.Recs), len(vs))
				}
				for i, r := range c.Recs {
					x.NonTrivial(k.L.Distinct(r) == 2 && r[160] != 0)
					if err := rec.Compare(k.L, r, vs[i]); err != nil {
						return fmt.Errorf("record %d: %w", i, err)
					}
				}
				return nil
			}),
		),
	})
}
