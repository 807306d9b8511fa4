// C09: a damaged favourites file is refused cleanly, never misread.
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type edit struct {
	Kind string // set, cut, insert, drop, count
	At   int    // modulo the length
	Data []byte
}

type dataCase struct {
	Tree  gen.Fav
	Edits []edit
}

func (c dataCase) data() []byte {
	b := gen.EncodeFav(3363, c.Tree)
	for _, e := range c.Edits {
		if len(b) == 0 {
			break
		}
		at := e.At % len(b)
		switch e.Kind {
		case "set":
			copy(b[at:], e.Data)
		case "cut":
			b = b[:at]
		case "insert":
			b = append(b[:at:at], append(append([]byte{}, e.Data...), b[at:]...)...)
		case "drop":
			b = append(b[:at:at], b[min(len(b), at+len(e.Data)):]...)
		case "count": // of the top folder
			copy(b[min(len(b), 2):min(len(b), 6)], e.Data)
		}
	}
	return b
}

var anyBoard = rapid.Map(gen.U(32), func(u uint64) uint32 { return uint32(u) })

func agree(data []byte, x *kit.X) error {
	_, want, loose, refErr := gen.FavParse(data)
	f, err := pttbbs.UnmarshalFavFile(append([]byte{}, data...))
	if len(data)%8 == 0 || len(data) < 4 { // the file of a user
		if e := stored(data, x); (e == nil) != (err == nil) {
			return fmt.Errorf("%d bytes are read from a user's file with %v and from memory with %v: %x", len(data), e, err, trunc(data))
		}
	}
	if err != nil {
		if refErr == nil && !loose {
			return fmt.Errorf("a well-formed file of %d bytes is refused: %w", len(data), err)
		}
		return nil
	}
	if f == nil {
		return fmt.Errorf("neither a tree nor an error")
	}
	if refErr != nil {
		return fmt.Errorf("%d bytes are accepted which are no favourites file: %x", len(data), trunc(data))
	}
	got, err := rec.Fav(f.Folder)
	if err != nil {
		return err
	}
	return gen.FavDiff(want.Numbered(), got)
}

// stored reads the bytes as somebody's favourites
func stored(data []byte, x *kit.X) error {
	h := gen.Home(x.Dir())
	kit.Write(h.Boards(), gen.NewBoard("Board", "of all"))
	kit.Write(h.User("Somebody", ".fav"), data)
	db, err := bbs.Open("pttbbs", string(h))
	if err == nil {
		_, err = db.ReadUserFavoriteRecords("Somebody")
	}
	return err
}

func trunc(b []byte) []byte { return b[:min(len(b), 200)] }

func main() {
	kit.Main(kit.Property{
		ID:   "C09",
		Rule: "truncations: a case is a drawn tree whose file is read at every proper prefix; damages: a drawn file with up to four edits (bytes overwritten, inserted or dropped, cut, counts replaced); bytes: arbitrary bytes. Some are read as the favourites of a user of an opened BBS too. A case is non-trivial when the file it damages has at least one entry, or the bytes are at least 6 long.",
		Assumptions: []string{
			"a file with data behind the tree, or whose counts disagree with the kinds of its entries, may be refused or read as the tree it describes",
		},
		Arms: []kit.Arm{
			kit.NewArm("truncations", 1500, 20000, func(t *rapid.T) dataCase {
				return dataCase{Tree: gen.FavTree(rapid.IntRange(1, 4).Draw(t, "depth"), anyBoard).Draw(t, "tree")}
			}, func(c dataCase, x *kit.X) error {
				data := c.data()
				x.NonTrivial(len(c.Tree) > 0)
				for n := 0; n < len(data); n++ {
					if _, err := pttbbs.UnmarshalFavFile(append([]byte{}, data[:n]...)); err == nil {
						return fmt.Errorf("the first %d of %d bytes are accepted", n, len(data))
					}
					if n < 8 || n%64 == 0 || n == len(data)-1 {
						if stored(data[:n], x) == nil {
							return fmt.Errorf("the first %d of %d bytes are accepted as a user's favourites", n, len(data))
						}
					}
				}
				return agree(data, x)
			}),
			kit.NewArm("damages", 40000, 600000, func(t *rapid.T) dataCase {
				return dataCase{
					Tree: gen.FavTree(rapid.IntRange(1, 4).Draw(t, "depth"), anyBoard).Draw(t, "tree"),
					Edits: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) edit {
						e := edit{Kind: rapid.SampledFrom([]string{"set", "set", "cut", "insert", "drop", "count"}).Draw(t, "kind"), At: gen.Num(0, 4000).Draw(t, "at")}
						switch e.Kind {
						case "count":
							e.Data = rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 2, 3, 255}), 4, 4).Draw(t, "data")
						case "cut":
						default:
							e.Data = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 255}), rapid.Byte()), 1, 4).Draw(t, "data")
						}
						return e
					}), 1, 4).Draw(t, "edits"),
				}
			}, func(c dataCase, x *kit.X) error {
				data := c.data()
				x.NonTrivial(len(c.Tree) > 0)
				_, _, loose, err := gen.FavParse(data)
				x.LabelIf(err != nil, "no favourites file")
				x.LabelIf(err == nil && loose, "loose")
				x.LabelIf(err == nil && !loose, "well-formed")
				return agree(data, x)
			}),
			kit.NewArm("bytes", 40000, 600000, func(t *rapid.T) []byte {
				b := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 2, 3}), rapid.SampledFrom([]byte{0, 0, 1, 255}), rapid.Byte()), 0, 90).Draw(t, "bytes")
				return b
			}, func(b []byte, x *kit.X) error {
				x.NonTrivial(len(b) >= 6)
				return agree(b, x)
			}),
		},
	})
}
