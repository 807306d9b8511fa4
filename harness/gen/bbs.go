package gen

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ArtLine is a line of an article: a comment, or a body line which is not one
type ArtLine struct {
	Comment *Comment `json:",omitempty"`
	Body    string   `json:",omitempty"`
	Repeat  int      `json:",omitempty"` // the body line or the comment's text is repeated
	CR      bool     `json:",omitempty"`
}

// Art is an article in an index
type Art struct {
	File, Owner, Date, Title string
	Gone                     bool // its file does not exist
	Lines                    []ArtLine
	NoFinal                  bool // the last line has no line end
}

// Brd is a slot of the board list
type Brd struct {
	ID    string // blank for a vacated slot
	Title string
	Has   string // none, dir (no index), index
	Arts  []Art
}

// Tree is a BBS
type Tree struct {
	Users  []string
	Boards []Brd
}

// Content is the article's file
func (a Art) Content() []byte {
	var b []byte
	for i, l := range a.Lines {
		b = append(b, MustBig5(l.text())...)
		if i == len(a.Lines)-1 && a.NoFinal {
			break
		}
		if l.CR {
			b = append(b, '\r')
		}
		b = append(b, '\n')
	}
	return b
}

func (l ArtLine) text() string {
	if l.Comment != nil {
		c := l.Full()
		return c.Coloured()
	}
	return strings.Repeat(l.Body, max(1, l.Repeat))
}

// Full is the comment with its repeated text
func (l ArtLine) Full() Comment {
	c := *l.Comment
	if l.Repeat > 1 {
		c.Text = strings.Trim(strings.Repeat(c.Text+" ", l.Repeat), " ")
	}
	return c
}

// Comments are the comments of the article in order
func (a Art) Comments() (cs []Comment) {
	for _, l := range a.Lines {
		if l.Comment != nil {
			cs = append(cs, l.Full())
		}
	}
	return
}

// Record is the index record
func (a Art) Record() []byte { return NewArticle(a.File, a.Owner, a.Date, a.Title) }

// ArticleOf draws an article with comments by the given users
func ArticleOf(users []string, maxLines int, long bool) *rapid.Generator[Art] {
	return rapid.Custom(func(t *rapid.T) Art {
		a := Art{
			File:  fmt.Sprintf("M.%d.A.%03X", Num(1, 1<<31-1).Draw(t, "time"), Num(0, 4095).Draw(t, "rand")),
			Owner: rapid.SampledFrom(append([]string{"-"}, users...)).Draw(t, "owner"), Date: fmt.Sprintf("%2d/%02d", Num(1, 12).Draw(t, "m"), Num(1, 28).Draw(t, "d")),
			Title: Text(64).Draw(t, "title"), NoFinal: rapid.Bool().Draw(t, "nofinal"),
		}
		a.Lines = Echo(t, ListOf(rapid.Custom(func(t *rapid.T) ArtLine {
			l := ArtLine{CR: rapid.IntRange(0, 4).Draw(t, "cr") == 0}
			if rapid.IntRange(0, 2).Draw(t, "comment?") > 0 {
				c := CommentOf(users, 30).Draw(t, "comment")
				l.Comment = &c
			} else {
				l.Body = Body(40).Draw(t, "body")
				if l.Body != "" && rapid.IntRange(0, 3).Draw(t, "colour?") == 0 {
					l.Body = "\x1b[1;36m" + l.Body + "\x1b[m"
				}
			}
			if long && rapid.IntRange(0, 11).Draw(t, "long?") == 0 {
				l.Repeat = rapid.SampledFrom([]int{2, 30, 3000, 9000}).Draw(t, "repeat")
				if l.Comment == nil {
					if _, _, _, ok := ParseComment(strings.Repeat(l.Body, 2)); ok {
						l.Repeat = 0 // joined they would be a comment
					}
				}
			}
			return l
		}), 0, maxLines, 300).Draw(t, "lines"))
		return a
	})
}

// SimilarIDs draws ids which differ little
func SimilarIDs() *rapid.Generator[[]string] {
	return rapid.Custom(func(t *rapid.T) []string {
		id := letters(t, idFirst, 2) + letters(t, idRest, rapid.IntRange(0, 8).Draw(t, "n"))
		ids := []string{id, id + "x", id + "1", "x" + id, swapCase(id), id[:len(id)-1] + "0"}
		if len(id) > 2 {
			ids = append(ids, id[:2], id[1:])
		}
		seen := map[string]bool{}
		var out []string
		for _, i := range append(ids, CommentID().Draw(t, "other")) {
			if !seen[i] && len(i) >= 2 && isLetter(i[0]) {
				seen[i] = true
				out = append(out, i)
			}
		}
		return out
	})
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if isLetter(c) {
			b[i] = c ^ 0x20
		}
	}
	return string(b)
}

// TreeOf draws a BBS
func TreeOf(maxBoards, maxArts, maxLines int) *rapid.Generator[Tree] {
	return rapid.Custom(func(t *rapid.T) Tree {
		tr := Tree{Users: SimilarIDs().Draw(t, "users")}
		ids := map[string]bool{}
		n := Num(0, maxBoards).Draw(t, "boards")
		for i := 0; i < n; i++ {
			b := Brd{Title: Text(48).Draw(t, "btitle"), Has: rapid.SampledFrom([]string{"index", "index", "index", "index", "dir", "none"}).Draw(t, "has")}
			switch Num(0, 9).Draw(t, "slot") {
			case 0: // vacated
			case 1:
				b.ID = "ALLPOST"
			case 2:
				b.ID = rapid.SampledFrom([]string{"ALLPOST2", "allpost", "ALLPOS", "AllPost", "ALLHIDPOST"}).Draw(t, "like")
			default:
				b.ID = ID().Draw(t, "bid")
			}
			if b.ID != "" && ids[b.ID] {
				b.ID = fmt.Sprintf("board%d", i)
			}
			ids[b.ID] = true
			if b.Has == "index" {
				names := map[string]bool{}
				var other []Art // of another board
				if k := len(tr.Boards); k > 0 {
					other = tr.Boards[k-1].Arts
				}
				for j, a := range ListOf(ArticleOf(tr.Users, maxLines, false), 0, maxArts, 70).Draw(t, "arts") {
					if len(other) > 0 && rapid.IntRange(0, 5).Draw(t, "known?") == 0 {
						o := other[j%len(other)]
						a.File = o.File // the same file name on two boards
						if rapid.Bool().Draw(t, "crosspost") {
							a.Title, a.Owner, a.Lines = o.Title, o.Owner, o.Lines
						}
					} else if len(b.Arts) > 0 && rapid.IntRange(0, 5).Draw(t, "again?") == 0 {
						o := b.Arts[len(b.Arts)-1] // the same article under another name
						a.Title, a.Owner, a.Date, a.Lines = o.Title, o.Owner, o.Date, o.Lines
					}
					if rapid.IntRange(0, 5).Draw(t, "from elsewhere?") == 0 && len(a.Owner) < 13 {
						// pttbbs marks authors who are not of this BBS by a dot
						a.Owner += rapid.SampledFrom([]string{".", ".", " ", "@", "\t"}).Draw(t, "mark")
					}
					if !names[a.File] {
						names[a.File] = true
						a.Gone = rapid.IntRange(0, 5).Draw(t, "gone") == 0
						b.Arts = append(b.Arts, a)
					}
				}
			}
			tr.Boards = append(tr.Boards, b)
		}
		return tr
	})
}

// Grow says how often the parts of a BBS are repeated, so that a small case makes a large BBS
type Grow struct{ Boards, Arts, Lines int }

// GrowOf draws one kind of part to be repeated often, another one a few times
func GrowOf() *rapid.Generator[Grow] {
	return rapid.Custom(func(t *rapid.T) Grow {
		g := Grow{1, 1, 1}
		n := []*int{&g.Boards, &g.Arts, &g.Lines}
		which := rapid.IntRange(0, 2).Draw(t, "which")
		*n[which] = rapid.SampledFrom([]int{20, 70, 140, 300}).Draw(t, "times")
		if v, ok := Hot(t, 4, 1200); ok {
			*n[which] = int(v)
		}
		*n[(which+rapid.IntRange(1, 2).Draw(t, "other"))%3] = rapid.IntRange(1, 3).Draw(t, "few")
		return g
	})
}

// within is g, less of it when the BBS would have more articles or lines than that
func (g Grow) within(tr Tree, maxArts, maxLines int) Grow {
	arts, lines := 0, 0
	for _, b := range tr.Boards {
		arts += len(b.Arts)
		for _, a := range b.Arts {
			lines += len(a.Lines)
		}
	}
	fits := func() bool {
		n := max(1, g.Boards) * max(1, g.Arts)
		return n*arts <= maxArts && n*lines*max(1, g.Lines) <= maxLines
	}
	few := []*int{&g.Boards, &g.Arts, &g.Lines}
	sort.Slice(few, func(i, j int) bool { return *few[i] < *few[j] })
	for _, n := range few {
		for *n > 1 && !fits() {
			*n -= 1 + *n/20
		}
	}
	return g
}

// Grown is the BBS with its parts repeated, each board and article under a name of its own
func (tr Tree) Grown(g Grow) Tree {
	g = g.within(tr, 6000, 40000)
	out := Tree{Users: tr.Users}
	ids := map[string]bool{}
	for _, b := range tr.Boards {
		ids[b.ID] = true
	}
	for i := 0; i < max(1, g.Boards); i++ {
		for j, b := range tr.Boards {
			if i > 0 && b.ID != "" {
				if b.ID = fmt.Sprintf("grown%d.%d", i, j); ids[b.ID] {
					continue
				}
			}
			arts := b.Arts
			b.Arts = nil
			names := map[string]bool{}
			for _, a := range arts {
				names[a.File] = true
			}
			for k := 0; k < max(1, g.Arts); k++ {
				for l, a := range arts {
					if k > 0 {
						if a.File = fmt.Sprintf("M.%d.A.%03X", 1600000000+k, l); names[a.File] {
							continue
						}
					}
					lines := a.Lines
					a.Lines = nil
					for m := 0; m < max(1, g.Lines); m++ {
						a.Lines = append(a.Lines, lines...)
					}
					b.Arts = append(b.Arts, a)
				}
			}
			out.Boards = append(out.Boards, b)
		}
	}
	return out
}

// Write makes the files of the BBS under h, which exists
func (tr Tree) Write(h Home) error {
	put := func(name string, data []byte) error {
		if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
			return err
		}
		return os.WriteFile(name, data, 0644)
	}
	var list []byte
	for i, b := range tr.Boards {
		r := NewBoard(b.ID, b.Title)
		if b.ID == "" {
			copy(r[1:13], "stale") // what was there before, behind the NUL
		}
		Board.Find("nuser").Put(r, uint64(i))
		list = append(list, r...)
		if b.ID == "" {
			continue
		}
		if b.Has == "dir" {
			if err := os.MkdirAll(Dir(h.Board(b.ID, "x")), 0755); err != nil {
				return err
			}
		}
		if b.Has != "index" {
			continue
		}
		var index []byte
		for _, a := range b.Arts {
			index = append(index, a.Record()...)
			if !a.Gone {
				if err := put(h.Board(b.ID, a.File), a.Content()); err != nil {
					return err
				}
			}
		}
		if err := put(h.Board(b.ID, ".DIR"), index); err != nil {
			return err
		}
	}
	return put(h.Boards(), list)
}

// Listed reports whether the board takes part in listings over all boards
func (b Brd) Listed() bool { return b.ID != "" && b.ID != "ALLPOST" }
