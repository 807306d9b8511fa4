// C04: online-user records keep every field at its documented place, both ways.
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// onlineCase: the arrays are described by a seed, the other fields are drawn
type onlineCase struct {
	Head  []byte // 0..99
	Noise uint64
	Tail  []byte // 2288, 3392..3483
	Bool  bool
}

func (c onlineCase) record() []byte {
	r := make([]byte, 3484)
	gen.Noise(r, c.Noise)
	copy(r, c.Head)
	r[2288] = c.Tail[0]
	copy(r[3392:], c.Tail[1:])
	return r
}

func drawOnline(t *rapid.T) onlineCase {
	// only the scalar fields are drawn one by one
	scalar := &gen.Layout{Name: gen.Online.Name, Size: gen.Online.Size}
	for _, f := range gen.Online.Fields {
		if f.Off < 100 || f.Off == 2288 || f.Off >= 3392 {
			scalar.Fields = append(scalar.Fields, f)
		}
	}
	r := scalar.Record().Draw(t, "rec")
	return onlineCase{Head: r[:100], Noise: rapid.Uint64().Draw(t, "noise"), Tail: append([]byte{r[2288]}, r[3392:]...)}
}

type twoCase struct{ Old, New onlineCase }

func main() {
	l := gen.Online
	kit.Main(kit.Property{
		ID:   "C04",
		Rule: "a case is a 3484-byte online-user record (or two of them): drawn scalar fields, arrays filled with noise from a drawn seed, stale bytes behind texts, any padding; it is non-trivial when at least 300 different numbers other than 0 and -1 are stored in it",
		Assumptions: []string{
			"layout table harness/gen/layout.go computed from userinfo_t of pttstruct.h with the C alignment rules",
			"the private uid, pid, id, nickname, host, address, brc id and write-back time have no getter and are compared through the written record",
		},
		Arms: kit.Arms(40, 2000, 100,
			kit.NewArm("read and write back", 6000, 480000, drawOnline, func(c onlineCase, x *kit.X) error {
				r := c.record()
				x.NonTrivial(l.Distinct(r) >= 300)
				u := pttbbs.UnmarshalUserInfo(append([]byte{}, r...))
				if u == nil {
					return fmt.Errorf("decode: nil")
				}
				if err := rec.Compare(l, r, rec.Online(u)); err != nil {
					return err
				}
				return l.Diff(r, u.MarshalBinary())
			}),
			kit.NewArm("change the fields", 2400, 200000, func(t *rapid.T) twoCase {
				return twoCase{drawOnline(t), drawOnline(t)}
			}, func(c twoCase, x *kit.X) error {
				a, b := c.Old.record(), c.New.record()
				x.NonTrivial(l.Distinct(a) >= 300 && l.Distinct(b) >= 300)
				u := pttbbs.UnmarshalUserInfo(append([]byte{}, a...))
				set := rec.Assign(l, b, rec.Online(u))
				return l.Diff(rec.Merge(l, a, b, set), u.MarshalBinary())
			}),
		),
	})
}
