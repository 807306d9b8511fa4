// C24: the comments of an article are all its comment lines, numbered in order.
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type article struct {
	Board string
	Many  int // the lines are repeated so often
	gen.Art
}

func draw(t *rapid.T) article {
	a := article{Board: gen.ID().Draw(t, "board"), Many: 1, Art: gen.ArticleOf([]string{"pichu", "pichux", "Ab", "z9"}, 14, true).Draw(t, "article")}
	if rapid.IntRange(0, 29).Draw(t, "many?") == 0 {
		a.Many = gen.Num(2, 150).Draw(t, "many")
		if rapid.IntRange(0, 19).Draw(t, "very many?") == 0 {
			a.Many = 1 + rapid.SampledFrom([]int{5000, 33000, 66000}).Draw(t, "lines")/max(1, len(a.Lines))
		}
		for i := range a.Lines {
			a.Lines[i].Repeat = 0
		}
	}
	return a
}

// drawLong draws an article with more comments than 16 bits count
func drawLong(t *rapid.T) article {
	a := article{Board: "test", Art: gen.ArticleOf([]string{"pichu", "Ab"}, 2, true).Draw(t, "article")}
	if len(a.Comments()) == 0 {
		a.Lines = append(a.Lines, gen.ArtLine{Comment: &gen.Comment{Mark: "推", Owner: "Ab", Text: "x", Gap: " ", Pad: " ", Month: 1, Day: 1 + gen.Num(0, 27).Draw(t, "day")}})
	}
	for i := range a.Lines {
		a.Lines[i].Repeat = 0
	}
	a.Many = 1 + rapid.SampledFrom([]int{66000, 70000, 132000}).Draw(t, "comments")/max(1, len(a.Comments()))
	return a
}

func check(c article, x *kit.X) error {
	h := gen.Home(x.Dir())
	a := c.Art
	a.Lines = nil
	for i := 0; i < c.Many; i++ {
		a.Lines = append(a.Lines, c.Art.Lines...)
	}
	content := a.Content()
	kit.Write(h.Board(c.Board, a.File), content)
	kit.Write(h.Board(c.Board, ".DIR"), a.Record())
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	ars, err := db.ReadBoardArticleRecordsFile(c.Board)
	if err != nil {
		return err
	}
	if len(ars) != 1 {
		return fmt.Errorf("%d articles are listed instead of 1", len(ars))
	}
	got, err := db.GetBoardArticleCommentRecords(c.Board, ars[0])
	if err != nil {
		return err
	}
	want := a.Comments()
	for i := 0; i < len(got) && i < len(want); i++ {
		g, w := got[i], want[i]
		text := string(gen.MustBig5(w.Text))
		if g.Owner() != w.Owner || g.Comment() != text || g.CommentTime().Format("01/02 15:04") != w.Stamp() {
			return fmt.Errorf("comment %d is by %q, %.200q, at %v instead of by %q, %.200q, at %s", i+1, g.Owner(), g.Comment(), g.CommentTime(), w.Owner, text, w.Stamp())
		}
		if g.CommentOrder() != uint32(i+1) {
			return fmt.Errorf("comment %d has the number %d", i+1, g.CommentOrder())
		}
		if g.BoardID() != c.Board || g.Filename() != a.File {
			return fmt.Errorf("comment %d is of %s/%s instead of %s/%s", i+1, g.BoardID(), g.Filename(), c.Board, a.File)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d comments are listed instead of %d", len(got), len(want))
	}
	x.NonTrivial(len(want) > 0 && len(want) < len(a.Lines))
	x.LabelIf(len(content) > 65536, "over 64 KiB")
	x.LabelIf(len(want) > 255, "over 255 comments")
	x.LabelIf(len(want) > 32767, "over 32767 comments")
	x.LabelIf(len(want) > 65535, "over 65535 comments")
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C24",
		Rule:        "a case is an article of up to 14 lines (or up to 2100 in one of thirty cases, 66000 in one of three hundred), each a comment or a body line which may look like one, coloured or not, repeated to up to half a megabyte, with LF or CR LF; in another arm 66000 to 132000 comments; it is non-trivial when it has both comments and other lines",
		Assumptions: []string{"no line has an impossible time stamp behind a possible one"},
		Arms: []kit.Arm{
			kit.NewArm("articles", 3000, 150000, draw, check),
			kit.NewArm("long", 8, 80, drawLong, check),
			kit.Together(40, 1500, draw, check),
		},
	})
}
