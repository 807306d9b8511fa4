// C25: a user's comments are found on all boards, and only theirs.
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

func draw(t *rapid.T) gen.Tree { return gen.TreeOf(6, 4, 6).Draw(t, "tree") }

// large is a BBS whose parts are repeated
type large struct {
	Tree gen.Tree
	By   gen.Grow
}

func drawLarge(t *rapid.T) large {
	return large{gen.TreeOf(5, 4, 6).Draw(t, "tree"), gen.GrowOf().Draw(t, "grow")}
}

func checkLarge(c large, x *kit.X) error { return check(c.Tree.Grown(c.By), x) }

type entry struct {
	Board, File, Owner, Text, Stamp string
	Order                           uint32
}

func of(b gen.Brd, user string) (es []entry) {
	for _, a := range b.Arts {
		if a.Gone {
			continue
		}
		for i, c := range a.Comments() {
			if c.Owner == user {
				es = append(es, entry{b.ID, a.File, user, string(gen.MustBig5(c.Text)), c.Stamp(), uint32(i + 1)})
			}
		}
	}
	return
}

func compare(got []bbs.UserCommentRecord, want []entry) error {
	for i := 0; i < len(got) && i < len(want); i++ {
		g := got[i]
		e := entry{g.BoardID(), g.Filename(), g.Owner(), g.Comment(), g.CommentTime().Format("01/02 15:04"), g.CommentOrder()}
		if e != want[i] {
			return fmt.Errorf("entry %d is %q instead of %q", i, e, want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d comments instead of %d", len(got), len(want))
	}
	return nil
}

func check(c gen.Tree, x *kit.X) error {
	h := gen.Home(x.Dir())
	kit.Must(c.Write(h))
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	users, arts := append([]string{"nobody"}, c.Users...), 0
	for _, b := range c.Boards {
		arts += len(b.Arts)
	}
	if arts > 600 && len(users) > 4 { // each of them reads all articles
		users = users[:4]
	}
	boards, gone := 0, false
	for _, u := range users {
		var want []entry
		for _, b := range c.Boards {
			if b.ID == "" {
				continue
			}
			mine := of(b, u)
			got, err := db.GetBoardUserCommentRecord(b.ID, u)
			if err != nil {
				return fmt.Errorf("comments of %s on %s: %w", u, b.ID, err)
			}
			if err := compare(got, mine); err != nil {
				return fmt.Errorf("comments of %s on %s: %w", u, b.ID, err)
			}
			if b.Listed() {
				want = append(want, mine...)
				if len(mine) > 0 {
					boards++
				}
			}
			for _, a := range b.Arts {
				gone = gone || a.Gone
			}
		}
		got, err := db.GetUserCommentRecordFile(u)
		if err != nil {
			return fmt.Errorf("comments of %s: %w", u, err)
		}
		if err := compare(got, want); err != nil {
			return fmt.Errorf("comments of %s: %w", u, err)
		}
	}
	x.NonTrivial(boards >= 2)
	x.LabelIf(gone, "with a deleted article")
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C25",
		Rule: "a case is a BBS of up to six board slots (vacated ones, ALLPOST and similar names, boards without index or directory) with up to four articles each (some deleted) and comments by users with similar ids, listed for each user and for nobody, or such a BBS with its boards, articles or lines repeated up to 300 times; it is non-trivial when comments are found on at least two boards",
		Arms: []kit.Arm{
			kit.NewArm("bbs", 3000, 100000, draw, check),
			kit.NewArm("large", 40, 1500, drawLarge, checkLarge),
			kit.Together(30, 1000, draw, check),
		},
	})
}
