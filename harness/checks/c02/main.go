// C02: article index records keep every field at its documented place, both ways.
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type recCase struct{ Rec []byte }

func record(t *rapid.T) recCase {
	r := gen.Article.Record().Draw(t, "rec")
	// the mode decides how the shared slot is read: make its bits independent
	if rapid.Bool().Draw(t, "mode?") {
		gen.Article.Find("filemode").Put(r, uint64(rapid.Byte().Draw(t, "mode")))
	}
	return recCase{r}
}

func main() {
	l := gen.Article
	kit.Main(kit.Property{
		ID:   "C02",
		Rule: "a case is a 128-byte article record with drawn field values, stale bytes behind texts and any padding; it is non-trivial when its shared slot is neither 0 nor -1 and it has a title",
		Assumptions: []string{
			"layout table harness/gen/layout.go transcribed from fileheader_t of pttstruct.h",
			"the shared slot is compared as 32 bits; a vote takes precedence over an anonymous post",
		},
		Arms: kit.Arms(40, 2000, 100,
			kit.NewArm("read and write back", 64000, 2400000, record, func(c recCase, x *kit.X) error {
				multi := l.Find("multi").Value(c.Rec).(uint64)
				x.NonTrivial(multi != 0 && multi != 0xffffffff && c.Rec[54] != 0)
				mode := c.Rec[124]
				x.LabelIf(mode&0x40 != 0, "vote")
				x.LabelIf(mode&0xc0 == 0x80, "anonymous")
				x.LabelIf(mode&0xc0 == 0, "money")
				in := append([]byte{}, c.Rec...)
				a, err := pttbbs.NewFileHeaderWithByte(in)
				if err != nil {
					return fmt.Errorf("decode: %w", err)
				}
				if string(in) != string(c.Rec) {
					return fmt.Errorf("decoding changed its input")
				}
				if err := rec.Compare(l, c.Rec, rec.Article(a)); err != nil {
					return err
				}
				if a.IsVotePost() != (mode&0x40 != 0) {
					return fmt.Errorf("mode %02x: vote post is %v", mode, a.IsVotePost())
				}
				out, err := a.MarshalToByte()
				if err != nil {
					return fmt.Errorf("encode: %w", err)
				}
				return l.Diff(c.Rec, out)
			}),
			kit.NewArm("write from values", 32000, 1200000, record, func(c recCase, x *kit.X) error {
				want := append([]byte{}, c.Rec...)
				if want[124]&0xc0 == 0 { // money has no setter
					l.Find("multi").Put(want, 0)
				}
				rc := l.Find("recommend") // set by votes, which stop at the limits
				if v := rc.Value(want).(int64); v > 100 {
					rc.Put(want, 100)
				} else if v < -100 {
					rc.Put(want, uint64(0x100-100))
				}
				multi := l.Find("multi").Value(want).(uint64)
				x.NonTrivial(multi != 0 && multi != 0xffffffff && c.Rec[54] != 0)
				out, err := rec.NewArticle(want).MarshalToByte()
				if err != nil {
					return fmt.Errorf("encode: %w", err)
				}
				return l.Diff(want, out)
			}),
		),
	})
}
