// C45: an optional file that is missing reads as empty; other failures are errors.
package main

import (
	"fmt"
	"os"
	"syscall"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// what happened to a file
const (
	there     = iota
	missing   // nothing of that name
	noDir     // its directory is missing, too
	directory // a directory of that name
	loop      // a link to itself
	dangling  // a link to nothing
	empty     // a file of no bytes
	locked    // nobody may read it
	shut      // its directory lets nobody in
	fileDir   // a file is where its directory should be
	faults
)

var faultNames = []string{"there", "missing", "missing with its directory", "a directory", "a link to itself", "a link to nothing", "empty", "not to be read", "in a directory which is shut", "below a file"}

// the kinds of file
const (
	users = iota
	boards
	index
	article
	treasureIndex
	treasure
	favourites
	draft
	kinds
)

var kindNames = []string{"the account file", "the board list", "the index", "the article", "the treasure index", "the treasure", "the favourites", "the draft"}

type bbsCase struct {
	User, Other  string
	Board, Next  string // a board with the fault and a sound one after it
	File, Man    string
	Sub          []string
	Draft        string
	Text         string
	Fault        [kinds]int
	UsersN, ArtN int
	Home         string // the name of the home's directory
}

// directories whose names read like messages
var homes = []string{"bbs", "bbs", "no such file or directory", "open x: no such file or directory", "file does not exist", "EOF", "permission denied", "is a directory", "not a comment: not implement"}

func draw(one bool) func(t *rapid.T) bbsCase {
	return func(t *rapid.T) bbsCase {
		ids := rapid.SliceOfNDistinct(gen.CommentID().Filter(func(s string) bool { return s != "ALLPOST" }), 4, 4, rapid.ID).Draw(t, "ids")
		c := bbsCase{User: ids[0], Other: ids[1], Board: ids[2], Next: ids[3], File: gen.Match(`M\.[0-9]{1,10}\.A\.[0-9A-F]{3}`).Draw(t, "file"), Man: "M.1.A.ABC",
			Sub:   rapid.SliceOfN(gen.Match(`D[0-9A-F]{1,4}`), 0, 3).Draw(t, "sub"),
			Draft: gen.Match(`[0-9a-z]{1,2}`).Draw(t, "draft"), Text: gen.Match(`[a-z]{1,20}`).Draw(t, "text"),
			UsersN: rapid.IntRange(1, 4).Draw(t, "n"), ArtN: rapid.IntRange(1, 4).Draw(t, "articles"),
			Home: rapid.SampledFrom(homes).Draw(t, "home")}
		if one {
			c.Fault[gen.Num(0, kinds-1).Draw(t, "kind")] = gen.Num(0, faults-1).Draw(t, "fault")
			return c
		}
		for i := range c.Fault {
			if rapid.Bool().Draw(t, "fault?") {
				c.Fault[i] = gen.Num(0, faults-1).Draw(t, "fault")
			}
		}
		return c
	}
}

// outcome of an operation: an error, or that many entries or bytes
type outcome struct {
	fails bool
	n     int
}

func (o outcome) String() string {
	if o.fails {
		return "an error"
	}
	return fmt.Sprintf("%d entries or bytes", o.n)
}

func check(c bbsCase, x *kit.X) error {
	h := gen.Home(x.Dir() + "/" + c.Home)
	kit.Must(os.MkdirAll(string(h), 0755))
	comment := gen.MustBig5("推 " + c.User + ": " + c.Text + " 01/02 03:04\n")
	arts := [][]byte{}
	for i := 0; i < c.ArtN; i++ {
		arts = append(arts, gen.NewArticle(c.File, c.User, " 1/02", fmt.Sprint(i)))
	}
	us := [][]byte{}
	for i := 0; i < c.UsersN; i++ {
		us = append(us, make([]byte, 512))
		gen.User.Find("userid").PutText(us[i], fmt.Sprintf("u%d", i))
	}
	paths := [kinds]string{h.Passwds(), h.Boards(), h.Board(c.Board, ".DIR"), h.Board(c.Board, c.File), h.Man(c.Board, c.Sub, ".DIR"), h.Man(c.Board, c.Sub, c.Man), h.User(c.User, ".fav"), h.User(c.User, "buf."+c.Draft)}
	data := [kinds][]byte{gen.Join(us), gen.Join([][]byte{gen.NewBoard(c.Board, "1"), gen.NewBoard(c.Next, "2")}), gen.Join(arts), comment, gen.Join(arts), comment,
		gen.EncodeFav(3363, gen.Fav{{Kind: gen.FavBoard, Board: 1}, {Kind: gen.FavLine}}), []byte(c.Text)}
	fault := c.Fault
	// a directory is as it is for everything in it
	for _, p := range [][2]int{{index, article}, {treasureIndex, treasure}, {favourites, draft}} {
		for _, f := range []int{noDir, shut, fileDir} {
			if fault[p[0]] == f || fault[p[1]] == f {
				fault[p[0]], fault[p[1]] = f, f
			}
		}
	}
	for _, k := range []int{users, boards} {
		switch fault[k] {
		case noDir:
			fault[k] = missing
		case shut, fileDir:
			fault[k] = locked
		}
	}
	var after []func()
	faulty := 0
	for k, p := range paths {
		f := fault[k]
		if f != there {
			faulty++
			x.Label(kindNames[k] + " is " + faultNames[f])
		}
		if f == fileDir {
			kit.Write(gen.Dir(p), data[k])
			continue
		}
		if f != noDir {
			kit.Must(os.MkdirAll(gen.Dir(p), 0755))
		}
		switch f {
		case there:
			kit.Write(p, data[k])
		case directory:
			kit.Must(os.Mkdir(p, 0755))
		case loop:
			kit.Must(syscall.Symlink(p, p))
		case dangling:
			kit.Must(syscall.Symlink(p+".gone", p))
		case empty:
			kit.Write(p, nil)
		case locked, shut:
			kit.Write(p, data[k])
			what, back := p, os.FileMode(0644)
			if f == shut {
				what, back = gen.Dir(p), 0755
			}
			after = append(after, func() { kit.Must(os.Chmod(what, 0)) })
			defer os.Chmod(what, back)
		}
	}
	kit.Write(h.Board(c.Next, ".DIR"), gen.NewArticle(c.File, c.User, " 1/02", "next"))
	kit.Write(h.Board(c.Next, c.File), comment)

	gone := func(k int) bool { return fault[k] == missing || fault[k] == noDir || fault[k] == dangling }
	bad := func(k int) bool {
		return fault[k] == directory || fault[k] == loop || fault[k] == locked || fault[k] == shut || fault[k] == fileDir
	}
	for _, f := range after {
		f()
	}
	required := func(k, n int) outcome {
		switch {
		case gone(k) || bad(k):
			return outcome{fails: true}
		case fault[k] == empty:
			return outcome{}
		}
		return outcome{n: n}
	}
	optional := func(k, n int) outcome {
		if gone(k) {
			return outcome{}
		}
		return required(k, n)
	}
	var err error
	kit.Powerless(func() { err = read(c, h, fault, required, optional, len(comment)) })
	x.NonTrivial(faulty > 0)
	return err
}

// read tries each reading operation
func read(c bbsCase, h gen.Home, fault [kinds]int, required, optional func(k, n int) outcome, length int) error {
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	is := func(what string, want outcome, n int, err error) error {
		if got := (outcome{err != nil, n}); got.fails != want.fails || !got.fails && got.n != want.n {
			return fmt.Errorf("%s gives %v (%v) instead of %v", what, got, err, want)
		}
		return nil
	}
	var r []bbs.ArticleRecord
	u, err := db.ReadUserRecords()
	if err := is("reading the users", required(users, c.UsersN), len(u), err); err != nil {
		return err
	}
	b, err := db.ReadBoardRecords()
	if err := is("reading the boards", required(boards, 2), len(b), err); err != nil {
		return err
	}
	r, err = db.ReadBoardArticleRecordsFile(c.Board)
	if err := is("reading the index", optional(index, c.ArtN), len(r), err); err != nil {
		return err
	}
	f, err := db.ReadBoardArticleFile(c.Board, c.File)
	if err := is("reading the article", required(article, length), len(f), err); err != nil {
		return err
	}
	r, err = db.ReadBoardTreasureRecordsFile(c.Board, c.Sub)
	if err := is("reading the treasure index", required(treasureIndex, c.ArtN), len(r), err); err != nil {
		return err
	}
	f, err = db.ReadBoardTreasureFile(c.Board, c.Sub, c.Man)
	if err := is("reading the treasure", required(treasure, length), len(f), err); err != nil {
		return err
	}
	want := optional(favourites, 2)
	if fault[favourites] == empty || fault[favourites] != missing && fault[favourites] != noDir && fault[favourites] != dangling && required(boards, 0).fails {
		want = outcome{fails: true} // a file without a header; board names cannot be found
	}
	v, err := db.ReadUserFavoriteRecords(c.User)
	if err := is("reading the favourites", want, len(v), err); err != nil {
		return err
	}
	v, err = db.ReadUserFavoriteRecords(c.Other)
	if err := is("reading the favourites of one who has none", outcome{}, len(v), err); err != nil {
		return err
	}
	n := 0
	d, err := db.GetUserDrafts(c.User, c.Draft)
	if err == nil {
		n = len(d.Raw())
	}
	if err := is("reading the draft", optional(draft, len(c.Text)), n, err); err != nil {
		return err
	}
	n = 0
	d, err = db.GetUserDrafts(c.Other, c.Draft)
	if err == nil {
		n = len(d.Raw())
	}
	if err := is("reading the draft of one who has none", outcome{}, n, err); err != nil {
		return err
	}
	// the listings need the board list, and the index of each board which has one
	whole := required(boards, 0)
	if !whole.fails && fault[boards] != empty {
		whole = optional(index, c.ArtN)
		whole.n++
	}
	a, err := db.GetUserArticleRecordFile(c.User)
	if err := is("listing the user's articles", whole, len(a), err); err != nil {
		return err
	}
	if fault[article] == there || whole.fails || fault[boards] == empty {
		m, err := db.GetUserCommentRecordFile(c.User)
		if err := is("listing the user's comments", whole, len(m), err); err != nil {
			return err
		}
	}
	if fault[index] == there {
		r, err = db.ReadBoardArticleRecordsFile(c.Board)
		if err != nil {
			return err
		}
		m, err := db.GetBoardArticleCommentRecords(c.Board, r[0])
		if err := is("listing the article's comments", required(article, 1), len(m), err); err != nil {
			return err
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C45",
		Rule: "a case is a BBS in which one file, or any set of the eight kinds of file, is missing (with or without its directory, or behind a dead link), replaced by a directory or by a link to itself, unreadable, in a directory which is shut, below a file, or empty, in a home whose name may read like a message; every reading operation is compared with an outcome table. It is non-trivial when there is such a fault",
		Arms: []kit.Arm{
			kit.NewArm("one fault", 2500, 60000, draw(true), check),
			kit.NewArm("any faults", 2500, 120000, draw(false), check),
		},
	})
}
