// C26: a user's articles are found on all boards, and only theirs.
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

func draw(t *rapid.T) gen.Tree { return gen.TreeOf(7, 7, 0).Draw(t, "tree") }

// large is a BBS whose parts are repeated
type large struct {
	Tree gen.Tree
	By   gen.Grow
}

func drawLarge(t *rapid.T) large {
	c := large{gen.TreeOf(6, 7, 0).Draw(t, "tree"), gen.GrowOf().Draw(t, "grow")}
	c.By.Lines = 1
	return c
}

func checkLarge(c large, x *kit.X) error { return check(c.Tree.Grown(c.By), x) }

func check(c gen.Tree, x *kit.X) error {
	h := gen.Home(x.Dir())
	kit.Must(c.Write(h))
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	type entry struct{ Board, File, Owner, Title string }
	most := 0
	for _, u := range append([]string{"nobody"}, c.Users...) {
		var want []entry
		boards := map[string]bool{}
		for _, b := range c.Boards {
			if !b.Listed() {
				continue
			}
			for _, a := range b.Arts {
				if a.Owner == u {
					want = append(want, entry{b.ID, a.File, u, a.Title})
					boards[b.ID] = true
				}
			}
		}
		most = max(most, len(boards))
		got, err := db.GetUserArticleRecordFile(u)
		if err != nil {
			return fmt.Errorf("articles of %s: %w", u, err)
		}
		for i := 0; i < len(got) && i < len(want); i++ {
			g := got[i]
			if e := (entry{g.BoardID(), g.ArticleID(), g.Owner(), g.Title()}); e != want[i] {
				return fmt.Errorf("articles of %s: entry %d is %q instead of %q", u, i, e, want[i])
			}
		}
		if len(got) != len(want) {
			return fmt.Errorf("articles of %s: %d instead of %d", u, len(got), len(want))
		}
	}
	x.NonTrivial(most >= 2)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C26",
		Rule: "a case is a BBS of up to seven board slots (vacated ones, ALLPOST and similar names, boards without index or directory) with up to seven articles each by users with similar ids, listed for each user and for nobody; it is non-trivial when some user has articles on at least two boards",
		Arms: []kit.Arm{
			kit.NewArm("bbs", 4000, 150000, draw, check),
			kit.NewArm("large", 60, 2500, drawLarge, checkLarge),
			kit.Together(30, 1000, draw, check),
		},
	})
}
