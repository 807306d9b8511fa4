// C08: text fields end at their first NUL, whatever stale bytes follow.
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type staleCase struct {
	Kind string
	Rec  []byte
}

// small layouts: just the text fields, so a case draws little else
func texts(l *gen.Layout) *gen.Layout {
	out := &gen.Layout{Name: l.Name, Size: l.Size}
	for _, f := range l.Fields {
		if f.IsText() {
			out.Fields = append(out.Fields, f)
		}
	}
	return out
}

// stale draws what follows the NUL: further NULs, ids, half characters, noise.
func stale(t *rapid.T, b []byte) {
	if len(b) == 0 {
		return
	}
	switch rapid.IntRange(0, 4).Draw(t, "stale") {
	case 0:
		clear(b)
	case 1: // the rest of a longer value
		copy(b, gen.ID().Draw(t, "old")+gen.ID().Draw(t, "old2"))
	case 2: // NULs and then something
		clear(b)
		b[len(b)-1] = rapid.Byte().Draw(t, "last")
	case 3: // the second half of a character
		b[0] = 0xa4
		gen.Noise(b[1:], rapid.Uint64().Draw(t, "noise"))
	case 4:
		gen.Noise(b, rapid.Uint64().Draw(t, "noise"))
	}
}

type favCase struct {
	Tree gen.Fav
}

func main() {
	kit.Main(kit.Property{
		ID:   "C08",
		Rule: "a case is a record whose text fields hold drawn texts (often empty or full) followed by stale bytes: rests of ids, further NULs, half characters, noise; it is non-trivial when a byte other than NUL follows the NUL of a text",
		Assumptions: []string{
			"posttype of a board is eight packed names padded with NULs and not a C string, it is not part of this",
			"a field of an online user without a getter is compared through the written record",
		},
		Arms: kit.Arms(40, 2000, 100,
			kit.NewArm("records", 30000, 1500000, func(t *rapid.T) staleCase {
				c := staleCase{Kind: rapid.SampledFrom(rec.KindNames()).Draw(t, "kind")}
				k := rec.KindOf(c.Kind)
				c.Rec = make([]byte, k.L.Size)
				for _, f := range texts(k.L).Fields {
					switch {
					case f.Kind == gen.IDKind && rapid.IntRange(0, 4).Draw(t, "id?") > 0:
						f.PutText(c.Rec, gen.ID().Draw(t, f.Name))
					case f.Kind == gen.Big5:
						f.PutText(c.Rec, gen.Text(f.Size-1).Draw(t, f.Name))
					case f.Kind == gen.Ascii7:
						f.PutText(c.Rec, gen.Ascii(f.Size-1).Draw(t, f.Name))
					}
					if f.Kind != gen.Packed {
						n := len(gen.CString(c.Rec[f.Off : f.Off+f.Size]))
						stale(t, c.Rec[f.Off+n+1:f.Off+f.Size])
					}
				}
				return c
			}, func(c staleCase, x *kit.X) error {
				k := rec.KindOf(c.Kind)
				x.Label(c.Kind)
				for _, f := range k.L.Fields {
					if f.IsText() {
						b := c.Rec[f.Off : f.Off+f.Size]
						for _, s := range b[min(f.Size, len(gen.CString(b))):] {
							x.NonTrivial(s != 0)
						}
					}
				}
				vs, err := k.Decode(append([]byte{}, c.Rec...))
				if err != nil {
					return fmt.Errorf("%s: %w", k.Name, err)
				}
				if k.Name == "online" {
					for n := range vs { // its arrays hold no text
						if f := k.L.Find(n); !f.IsText() {
							delete(vs, n)
						}
					}
					u := pttbbs.UnmarshalUserInfo(append([]byte{}, c.Rec...))
					out := u.MarshalBinary()
					if err := k.L.Diff(k.L.Clean(c.Rec), out); err != nil {
						return err
					}
					// The written record has no stale bytes either
					for _, f := range k.L.Fields {
						if f.IsText() && string(out[f.Off:f.Off+f.Size]) != string(k.L.Clean(c.Rec)[f.Off:f.Off+f.Size]) {
							return fmt.Errorf("online user: field %s is %x, and is written as %x", f.Name, c.Rec[f.Off:f.Off+f.Size], out[f.Off:f.Off+f.Size])
						}
					}
				}
				return rec.Compare(k.L, c.Rec, vs)
			}),
			kit.NewArm("favourites", 6000, 200000, func(t *rapid.T) favCase {
				f := gen.FavTree(2, rapid.Just(uint32(1))).Draw(t, "tree")
				for i := range f {
					if f[i].Kind == gen.FavFolder {
						f[i].Stale = make([]byte, 48)
						stale(t, f[i].Stale)
					}
				}
				return favCase{f}
			}, func(c favCase, x *kit.X) error {
				for _, e := range c.Tree {
					if e.Kind == gen.FavFolder && len(gen.MustBig5(e.Title)) < 47 {
						for _, b := range e.Stale {
							x.NonTrivial(b != 0)
						}
					}
				}
				f, err := pttbbs.UnmarshalFavFile(gen.EncodeFav(3363, c.Tree))
				if err != nil {
					return err
				}
				got, err := rec.Fav(f.Folder)
				if err != nil {
					return err
				}
				return gen.FavDiff(c.Tree.Numbered(), got)
			}),
		),
	})
}
