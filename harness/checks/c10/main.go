// C10: favourites name the right boards, and missing boards are blank.
package main

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type favCase struct {
	Boards []string // "" is a vacated slot
	Many   int      // further boards B0000, B0001, ...
	User   string
	Tree   gen.Fav
	Other  string // another user, with or without favourites
	Has    bool   // whether User has favourites
	Slash  bool   // opened by URL
}

func (c favCase) boards() []string {
	bs := append([]string{}, c.Boards...)
	for i := 0; i < c.Many; i++ {
		bs = append(bs, fmt.Sprintf("B%04d", i))
	}
	return bs
}

func compare(path string, want gen.Fav, got []bbs.FavoriteRecord, boards []string) error {
	if len(want) != len(got) {
		return fmt.Errorf("folder %q has %d entries instead of %d", path, len(got), len(want))
	}
	for i, e := range want {
		at := fmt.Sprintf("%s/%d", path, i)
		g := got[i]
		if e.Kind != gen.FavFolder {
			g.Title()
			if l := g.Records(); len(l) > 0 {
				return fmt.Errorf("entry %s is no folder and has %d entries", at, len(l))
			}
		}
		switch e.Kind {
		case gen.FavBoard:
			name := ""
			if e.Board >= 1 && uint64(e.Board) <= uint64(len(boards)) {
				name = boards[e.Board-1]
			}
			if g.Type() != bbs.FavoriteTypeBoard || g.BoardID() != name {
				return fmt.Errorf("entry %s is board %d of %d, %q: read as type %d, %q", at, e.Board, len(boards), name, g.Type(), g.BoardID())
			}
		case gen.FavLine:
			if g.Type() != bbs.FavoriteTypeLine || g.BoardID() != "" || g.Title() == "" || strings.Trim(g.Title(), "-") != "" {
				return fmt.Errorf("entry %s is a line: read as type %d, title %q, board %q", at, g.Type(), g.Title(), g.BoardID())
			}
		case gen.FavFolder:
			if g.Type() != bbs.FavoriteTypeFolder || g.Title() != e.Title || g.BoardID() != "" {
				return fmt.Errorf("entry %s is folder %q: read as type %d, title %q, board %q", at, e.Title, g.Type(), g.Title(), g.BoardID())
			}
			if err := compare(at, e.Sub, g.Records(), boards); err != nil {
				return err
			}
		}
	}
	return nil
}

func inRange(f gen.Fav, n int) (in, out int) {
	for _, e := range f {
		if e.Kind == gen.FavBoard {
			if e.Board >= 1 && uint64(e.Board) <= uint64(n) {
				in++
			} else {
				out++
			}
		}
		a, b := inRange(e.Sub, n)
		in, out = in+a, out+b
	}
	return
}

func main() {
	kit.Main(kit.Property{
		ID:   "C10",
		Rule: "a case is a board list, a favourites tree whose board numbers lie in and around it, and the user who has it; it is non-trivial when at least one number is in the list and one is not",
		Arms: []kit.Arm{
			kit.NewArm("favourites", 2500, 100000, func(t *rapid.T) favCase {
				c := favCase{
					Boards: gen.ListOf(rapid.OneOf(gen.ID(), gen.ID(), gen.ID(), rapid.Just("")), 0, 12, 300).Draw(t, "boards"),
					User:   gen.ID().Draw(t, "user"),
					Other:  gen.ID().Draw(t, "other"),
					Has:    rapid.IntRange(0, 7).Draw(t, "has") > 0,
					Slash:  rapid.Bool().Draw(t, "url"),
				}
				if rapid.IntRange(0, 9).Draw(t, "many?") == 0 {
					c.Many = gen.Num(200, 700).Draw(t, "many")
				}
				if rapid.IntRange(0, 399).Draw(t, "very many?") == 0 {
					c.Many = rapid.SampledFrom([]int{1 << 10, 1 << 12, 1 << 14, 1 << 15, 1 << 16, 70000}).Draw(t, "thousands") + rapid.IntRange(0, 3).Draw(t, "more")
				}
				n := len(c.boards())
				nums := rapid.OneOf(
					rapid.Map(gen.Num(1, max(1, n)), func(i int) uint32 { return uint32(i) }),
					rapid.Map(gen.Num(0, n+2), func(i int) uint32 { return uint32(i) }),
					rapid.SampledFrom([]uint32{0, 1, uint32(n), uint32(n + 1), 1 << 16, 1<<16 + 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2}),
				)
				c.Tree = gen.FavTree(rapid.IntRange(1, 4).Draw(t, "depth"), nums).Draw(t, "tree")
				return c
			}, func(c favCase, x *kit.X) error {
				boards := c.boards()
				h := gen.Home(x.Dir() + "/bbs")
				var recs [][]byte
				for i, b := range boards {
					recs = append(recs, gen.NewBoard(b, fmt.Sprintf("title %d", i)))
				}
				kit.Write(h.Boards(), gen.Join(recs))
				if c.Has {
					kit.Write(h.User(c.User, ".fav"), gen.EncodeFav(3363, c.Tree))
				}
				if c.Other != c.User {
					kit.Write(h.User(c.Other, ".fav"), gen.EncodeFav(3363, gen.Fav{{Kind: gen.FavLine}, {Kind: gen.FavBoard, Board: 1}}))
				}
				in, out := inRange(c.Tree, len(boards))
				x.NonTrivial(c.Has && in > 0 && out > 0)
				x.LabelIf(!c.Has, "no favourites")
				name := string(h)
				if c.Slash {
					name = "file://" + name
				}
				db, err := bbs.Open("pttbbs", name)
				if err != nil {
					return fmt.Errorf("open: %w", err)
				}
				got, err := db.ReadUserFavoriteRecords(c.User)
				if err != nil {
					return fmt.Errorf("favourites of %s: %w", c.User, err)
				}
				if !c.Has {
					return compare("", nil, got, boards)
				}
				return compare("", c.Tree, got, boards)
			}),
		},
	})
}
