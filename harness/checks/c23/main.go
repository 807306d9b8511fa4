// C23: a comment line is read as its author, its text and its time.
package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type line struct {
	gen.Comment
	Big5  bool
	Order uint32
	Board string
	File  string
}

func draw(t *rapid.T) line {
	l := line{Comment: gen.CommentOf(nil, 60).Draw(t, "comment"), Big5: rapid.Bool().Draw(t, "big5"), Order: uint32(gen.U(32).Draw(t, "order")),
		Board: gen.ID().Draw(t, "board"), File: fmt.Sprintf("M.%d.A.000", gen.Num(1, 9999).Draw(t, "file"))}
	if rapid.IntRange(0, 19).Draw(t, "long?") == 0 && l.Text != "" {
		l.Text = strings.Repeat(l.Text, gen.Num(2, 1000).Draw(t, "repeat"))
	}
	return l
}

func (l line) enc(s string) string {
	if l.Big5 {
		return string(gen.MustBig5(s))
	}
	return s
}

func same(got time.Time, stamp string) bool { return got.Format("01/02 15:04") == stamp }

func check(c line, x *kit.X) error {
	s := c.enc(c.Line())
	ar := pttbbs.NewFileHeader()
	ar.SetFilename(c.File)
	r, err := bbs.NewUserCommentRecord(c.Order, s, c.Board, ar)
	if err != nil {
		return fmt.Errorf("%.300q: %w", s, err)
	}
	if r.Owner() != c.Owner {
		return fmt.Errorf("the author of %.300q is %q instead of %q", s, r.Owner(), c.Owner)
	}
	if r.Comment() != c.enc(c.Text) {
		return fmt.Errorf("the text of %.300q is %.300q instead of %.300q", s, r.Comment(), c.enc(c.Text))
	}
	if !same(r.CommentTime(), c.Stamp()) || r.CommentTime().Second() != 0 {
		return fmt.Errorf("the time of %.300q is %v instead of %s", s, r.CommentTime(), c.Stamp())
	}
	if r.CommentOrder() != c.Order || r.BoardID() != c.Board || r.Filename() != c.File {
		return fmt.Errorf("order, board and file are %d, %q, %q instead of %d, %q, %q", r.CommentOrder(), r.BoardID(), r.Filename(), c.Order, c.Board, c.File)
	}
	x.NonTrivial(strings.Contains(c.Text, ":"))
	x.LabelIf(strings.Contains(c.Text, "/15 "), "other stamps")
	return nil
}

// soup of the signs which matter, against a parser written by hand
type soup struct{ Line string }

func drawSoup(t *rapid.T) soup {
	w := rapid.OneOf(
		rapid.SampledFrom([]string{"推", "abc", "ab", "a", "1", "9a", ":", ":", ": ", " ", " ", "05/15 01:06", "05/15 01:06", "02/29 00:00", "12/31 23:59", "5/15 01:06", "05/15 1:06", "13/01 00:00", "00/00 00:00", "/", "x:y", "：", "\xff", "\xa4\x40", "é"}),
		gen.Ascii(6), gen.CommentID(), gen.Text(6),
	)
	s := func() string { return strings.Join(gen.ListOf(w, 0, 5, 40).Draw(t, "words"), "") }
	if rapid.Bool().Draw(t, "any") {
		return soup{s() + s()}
	}
	return soup{s() + gen.CommentID().Draw(t, "id") + ":" + s() + "11/03 07:08" + s()}
}

func checkSoup(c soup, x *kit.X) error {
	owner, text, stamps, ok := gen.ParseComment(c.Line)
	r, err := bbs.NewUserCommentRecord(1, c.Line, "b", pttbbs.NewFileHeader())
	if ok && !gen.StampValid(stamps[len(stamps)-1]) {
		for _, s := range stamps {
			if gen.StampValid(s) {
				return nil // which of them is the time is not said
			}
		}
		ok = false
	}
	if !ok {
		if err == nil {
			return fmt.Errorf("%q is not a comment and is read as one by %q, %q, %v", c.Line, r.Owner(), r.Comment(), r.CommentTime())
		}
		if !errors.Is(err, bbs.ErrNotUserComment) {
			return fmt.Errorf("%q is reported as %v", c.Line, err)
		}
		x.NonTrivial(strings.Contains(c.Line, ":"))
		x.Label("not a comment")
		return nil
	}
	if err != nil {
		return fmt.Errorf("%q: %w", c.Line, err)
	}
	stamp := stamps[len(stamps)-1]
	if r.Owner() != owner || r.Comment() != text || !same(r.CommentTime(), stamp) {
		return fmt.Errorf("%q is read as %q, %q, %v instead of %q, %q, %s", c.Line, r.Owner(), r.Comment(), r.CommentTime(), owner, text, stamp)
	}
	x.NonTrivial(true)
	x.Label("a comment")
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C23",
		Rule:        "a case is a comment line built from known parts (UTF-8 or Big5), or a soup of ids, colons, blanks, time stamps and other signs which is also read by a hand-written parser; it is non-trivial when the comment's text has a colon, or the soup is a comment or has a colon",
		Assumptions: []string{"lines whose last time stamp is impossible and which have a possible one before it are not generated"},
		Arms: []kit.Arm{
			kit.NewArm("lines", 12000, 600000, draw, check),
			kit.NewArm("soup", 16000, 800000, drawSoup, checkSoup),
			kit.Together(150, 6000, draw, check),
		},
	})
}
