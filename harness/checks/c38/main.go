// C38: the user-id hash equals 32-bit FNV-1a from any starting value.
package main

import (
	"bytes"
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// reference is 32-bit FNV-1a
func reference(start uint32, data []byte) uint32 {
	for _, b := range data {
		start = (start ^ uint32(b)) * 16777619
	}
	return start
}

type hashCase struct {
	Start  uint32
	Chunks [][]byte
	Prefix []byte
	Twin   uint32 // start of a second hash which is used in between
}

func genStart() *rapid.Generator[uint32] {
	return rapid.OneOf(rapid.Uint32(),
		rapid.SampledFrom([]uint32{33554467, 2166136261, 0, 1, 0xff, 0x100, 0xff00, 0x10000, 0xff0000, 0x1000000, 0xff000000, 0x80000000, 0x7fffffff, 0xffffffff}),
		rapid.Custom(func(t *rapid.T) uint32 { return 1 << gen.Num(0, 31).Draw(t, "bit") }))
}

func genCase() func(t *rapid.T) hashCase {
	return func(t *rapid.T) hashCase {
		id := rapid.Map(gen.SimilarIDs(), func(ids []string) []byte { return []byte(ids[0]) })
		chunk := rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 40), id, rapid.SliceOfN(rapid.Byte(), 200, 600))
		return hashCase{
			Start:  genStart().Draw(t, "start"),
			Chunks: gen.ListOf(chunk, 0, 5, 100).Draw(t, "chunks"),
			Prefix: rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "prefix"),
			Twin:   genStart().Draw(t, "twin"),
		}
	}
}

func check(c hashCase, x *kit.X) error {
	all := bytes.Join(c.Chunks, nil)
	x.NonTrivial(len(all) > 0 && c.Start != 2166136261)
	x.LabelIf(len(c.Chunks) > 1, "several writes")
	x.LabelIf(c.Start == 33554467, "start of the user ids")

	h, twin := pttbbs.VerifFnv(c.Start), pttbbs.VerifFnv(c.Twin)
	start, soFar := c.Start, []byte{}
	for i, chunk := range c.Chunks {
		given := append([]byte{}, chunk...)
		n, err := h.Write(given)
		if err != nil || n != len(chunk) {
			return fmt.Errorf("write %d of %d bytes: %d, %v", i, len(chunk), n, err)
		}
		if !bytes.Equal(given, chunk) {
			return fmt.Errorf("write %d changed the bytes it was given", i)
		}
		if _, err := twin.Write(chunk); err != nil {
			return err
		}
		soFar = append(soFar, chunk...)
		want := reference(c.Start, soFar)
		if got := h.Sum32(); got != want {
			return fmt.Errorf("after write %d the hash is %#x, want %#x", i, got, want)
		}
		next := pttbbs.VerifFnv(start)
		if _, err := next.Write(chunk); err != nil {
			return err
		}
		if got := next.Sum32(); got != want {
			return fmt.Errorf("resumed from %#x, the hash after write %d is %#x, want %#x", start, i, got, want)
		}
		start = next.Sum32()
	}
	want := reference(c.Start, all)
	in := append([]byte{}, c.Prefix...)
	sum := h.Sum(in)
	if w := append(append([]byte{}, c.Prefix...), byte(want>>24), byte(want>>16), byte(want>>8), byte(want)); !bytes.Equal(sum, w) {
		return fmt.Errorf("the sum is %x, want %x", sum, w)
	}
	if got := h.Sum32(); got != want {
		return fmt.Errorf("the hash is %#x after asking for its sum, want %#x", got, want)
	}
	if got := twin.Sum32(); got != reference(c.Twin, all) {
		return fmt.Errorf("a second hash from %#x is %#x, want %#x", c.Twin, got, reference(c.Twin, all))
	}
	if h.Size() != 4 {
		return fmt.Errorf("the size of the hash is %d bytes", h.Size())
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C38",
		Rule:        "a case is a starting value, a byte string cut into up to five writes (ids, short and long noise), a prefix for the sum and the start of a second hash fed in between; it is non-trivial when the string is not empty and the start is not the standard one",
		Assumptions: []string{"the internal package is reached through a file added to package pttbbs at build time", "resetting a hash is left out: no caller does it"},
		Arms: kit.Arms(40, 2000, 40,
			kit.NewArm("hashes", 60000, 3000000, genCase(), check),
			kit.NewArm("user ids", 20000, 1000000, func(t *rapid.T) hashCase {
				c := genCase()(t)
				c.Start = pttbbs.VerifFnvInit()
				return c
			}, func(c hashCase, x *kit.X) error {
				if pttbbs.VerifFnvInit() != 33554467 {
					return fmt.Errorf("PTT's starting value is %d, want 33554467", pttbbs.VerifFnvInit())
				}
				return check(c, x)
			}),
		),
	})
}
