// Package acts has the reading and writing operations of a BBS, each with what it needs to be stored,
// and a description of its result, for checks which disturb them.
package acts

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	formosa "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// Home is what is stored
type Home struct {
	gen.Tree
	Users  [][]byte
	Fav    gen.Fav
	Draft  []byte
	Bad    []gen.Attempt
	Recent []gen.Recent
	Online [][]byte
	Man    [][]byte
	Other  [][]byte // Formosa articles
}

// Act is an operation on a BBS
type Act struct {
	Home Home
	Name string
	Rec  []byte // what is written
	At   int
	Pick int // of the boards and articles, counted from 1; 0 is the fullest board and its last article
}

// Of draws one of the operations of that names
func Of(names []string) *rapid.Generator[Act] {
	return rapid.Custom(func(t *rapid.T) Act {
		a := Act{Name: rapid.SampledFrom(names).Draw(t, "op"), At: rapid.IntRange(0, 3).Draw(t, "at")}
		h := &a.Home
		n := a.Name
		maxBoards, lines := 4, 4
		if Writes(n) || strings.HasPrefix(n, "fav") || kinds[n] {
			maxBoards = 2
		}
		h.Tree = gen.TreeOf(maxBoards, 4, lines).Draw(t, "tree")
		rs := func(l *gen.Layout, most int) [][]byte { return rapid.SliceOfN(l.Record(), 1, most).Draw(t, n) }
		switch n { // only what the operation needs
		case "users":
			h.Users = rs(gen.User, 5)
		case "online users":
			h.Online = rs(gen.Online, 2)
		case "formosa":
			h.Other = rs(gen.Formosa, 5)
		case "treasure index", "treasure":
			h.Man = rs(gen.Article, 5)
		case "favourites", "favourites file":
			h.Fav = gen.FavTree(2, rapid.Map(rapid.IntRange(0, 5), func(i int) uint32 { return uint32(i) })).Draw(t, n)
		case "draft", "delete draft":
			h.Draft = gen.Bytes(9000).Draw(t, n)
		case "failed logins":
			h.Bad = rapid.SliceOfN(gen.AttemptOf(rapid.Bool().Draw(t, "own")), 1, 8).Draw(t, n)
		case "recent logins":
			h.Recent = rapid.SliceOfN(gen.RecentOf(), 1, 8).Draw(t, n)
		case "add board":
			a.Rec = gen.Board.Record().Draw(t, n)
		case "add article", "update article":
			a.Rec = gen.Article.Record().Draw(t, n)
		case "write draft", "write article", "append to article":
			a.Rec = gen.Bytes(9000).Draw(t, n)
		}
		if len(h.Boards) == 0 {
			h.Boards = []gen.Brd{{ID: "test"}}
		}
		return a
	})
}

var kinds = map[string]bool{"users": true, "online users": true, "formosa": true, "treasure": true, "treasure index": true, "draft": true, "failed logins": true, "recent logins": true}

// Writes tells whether the operation changes files
func Writes(name string) bool {
	switch strings.Fields(name)[0] {
	case "add", "update", "remove", "write", "append", "delete":
		return true
	}
	return false
}

// Reading and All are the names
var Reading, All = func() (r, a []string) {
	for _, o := range ops {
		a = append(a, o.name)
		if !Writes(o.name) {
			r = append(r, o.name)
		}
	}
	return
}()

// Do writes the BBS in that home and returns the operation on it
func (a Act) Do(h gen.Home) func() (string, error) {
	a.Home.write(h)
	return a.On(h)
}

func (a Act) where(h gen.Home) where {
	w := where{h: h, user: "nobody", act: a}
	if len(a.Home.Tree.Users) > 0 {
		w.user = a.Home.Tree.Users[0]
	}
	for _, b := range a.Home.Boards { // the fullest one
		if b.Listed() && len(b.Arts) >= len(w.brd.Arts) {
			w.brd = b
		}
	}
	if n := len(a.Home.Boards); a.Pick > 0 && n > 0 {
		w.brd = a.Home.Boards[a.Pick%n]
	}
	var owners []string // who has something to be found there
	for _, r := range w.brd.Arts {
		w.file = r.File
		if a.Name == "articles of a user" {
			owners = append(owners, r.Owner)
		}
		for _, l := range r.Lines {
			if l.Comment != nil && !r.Gone && a.Name != "articles of a user" {
				owners = append(owners, l.Comment.Owner)
			}
		}
	}
	if n := len(w.brd.Arts); a.Pick > 0 && n > 0 {
		w.file = w.brd.Arts[a.Pick/2%n].File
	}
	if len(owners) > 0 {
		w.user = owners[a.At%len(owners)]
	}
	if w.brd.ID == "" || w.file == "" {
		w.brd.ID, w.file = "test", "M.1.A.000"
	}
	return w
}

// Target is the file which the operation changes
func (a Act) Target(h gen.Home) string {
	w := a.where(h)
	switch a.Name {
	case "add board", "remove board":
		return h.Boards()
	case "add article", "update article":
		return h.Board(w.brd.ID, ".DIR")
	case "write article", "append to article":
		return h.Board(w.brd.ID, w.file)
	case "write draft", "delete draft":
		return h.User("tester", "buf.1")
	}
	return ""
}

// Board is where the operation takes place
func (a Act) Board() string { return a.where("").brd.ID }

// On returns the operation on whatever is in that home
func (a Act) On(h gen.Home) func() (string, error) {
	w := a.where(h)
	var err error
	w.db, err = bbs.Open("pttbbs", string(h))
	if err != nil {
		return func() (string, error) { return "", err }
	}
	for _, o := range ops {
		if o.name == a.Name {
			return func() (string, error) { return o.do(w) }
		}
	}
	panic("acts: no " + a.Name)
}

// Tree describes all files below a directory
func Tree(dir string) string {
	var l []string
	kit.Must(filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		kit.Must(err)
		s := strings.TrimPrefix(p, dir)
		if !i.IsDir() {
			s += fmt.Sprintf(" %d bytes %q", i.Size(), kit.ReadFile(p))
		}
		l = append(l, s)
		return nil
	}))
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// lines describes each element
func lines[T any](l []T, err error, f func(T) string) (string, error) {
	if err != nil {
		return "", err
	}
	if Brief {
		return "", nil
	}
	var sb strings.Builder
	for _, e := range l {
		sb.WriteString(f(e))
		sb.WriteByte('\n')
	}
	return fmt.Sprintf("%d entries\n%s", len(l), sb.String()), nil
}

// Brief leaves the results undescribed, for checks of what the operations themselves cost
var Brief bool

func snap[T any](v T) string {
	if Brief {
		return ""
	}
	return rec.Snapshot(v)
}

func comment(c bbs.UserCommentRecord) string {
	return fmt.Sprintf("%d %q %q %q %s %v %q %q", c.CommentOrder(), c.BoardID(), c.Filename(), c.Owner(), c.IP(), c.CommentTime(), c.Comment(), c.String())
}

func raw(b []byte, err error) (string, error) {
	if Brief {
		return "", err
	}
	return fmt.Sprintf("%d bytes %q", len(b), b), err
}

type where struct {
	h    gen.Home
	db   *bbs.DB
	user string
	brd  gen.Brd
	file string
	act  Act
}

var ops = []struct {
	name string
	do   func(w where) (string, error)
}{
	{"users", func(w where) (string, error) { l, err := w.db.ReadUserRecords(); return lines(l, err, snap) }},
	{"boards", func(w where) (string, error) { l, err := w.db.ReadBoardRecords(); return lines(l, err, snap) }},
	{"index", func(w where) (string, error) {
		l, err := w.db.ReadBoardArticleRecordsFile(w.brd.ID)
		return lines(l, err, snap)
	}},
	{"article", func(w where) (string, error) { return raw(w.db.ReadBoardArticleFile(w.brd.ID, w.file)) }},
	{"treasure index", func(w where) (string, error) {
		l, err := w.db.ReadBoardTreasureRecordsFile("test", []string{"D1"})
		return lines(l, err, snap)
	}},
	{"treasure", func(w where) (string, error) { return raw(w.db.ReadBoardTreasureFile("test", []string{"D1"}, "M.1")) }},
	{"favourites", func(w where) (string, error) {
		l, err := w.db.ReadUserFavoriteRecords("tester")
		return lines(l, err, snap)
	}},
	{"favourites file", func(w where) (string, error) {
		f, err := pttbbs.OpenFavFile(w.h.User("tester", ".fav"))
		if err != nil {
			return "", err
		}
		return snap(f), nil
	}},
	{"draft", func(w where) (string, error) {
		d, err := w.db.GetUserDrafts("tester", "1")
		if err != nil {
			return "", err
		}
		return raw(d.Raw(), nil)
	}},
	{"recent logins", func(w where) (string, error) {
		l, err := pttbbs.OpenLoginRecentFile(w.h.User("tester", "logins.recent"))
		return lines(l, err, snap)
	}},
	{"failed logins", func(w where) (string, error) {
		l, err := pttbbs.OpenBadLoginFile(string(w.h) + "/logins.bad")
		return lines(l, err, snap)
	}},
	{"online users", func(w where) (string, error) {
		l, err := pttbbs.OpenUserInfoCache(string(w.h) + "/online")
		return lines(l, err, snap)
	}},
	{"formosa", func(w where) (string, error) {
		l, err := formosa.OpenFormosaBBSFileHeaderFile(string(w.h) + "/formosa")
		return lines(l, err, snap)
	}},
	{"articles of a user", func(w where) (string, error) {
		l, err := w.db.GetUserArticleRecordFile(w.user)
		return lines(l, err, func(r bbs.UserArticleRecord) string {
			return fmt.Sprintf("%q %q %q %q", r.BoardID(), r.ArticleID(), r.Owner(), r.Title())
		})
	}},
	{"comments of a user", func(w where) (string, error) {
		l, err := w.db.GetUserCommentRecordFile(w.user)
		return lines(l, err, comment)
	}},
	{"comments of a user on a board", func(w where) (string, error) {
		l, err := w.db.GetBoardUserCommentRecord(w.brd.ID, w.user)
		return lines(l, err, comment)
	}},
	{"comments of an article", func(w where) (string, error) {
		as, err := w.db.ReadBoardArticleRecordsFile(w.brd.ID)
		if err != nil || len(as) == 0 {
			return "", err
		}
		l, err := w.db.GetBoardArticleCommentRecords(w.brd.ID, as[len(as)-1])
		return lines(l, err, comment)
	}},
	{"add board", func(w where) (string, error) {
		b, err := pttbbs.UnmarshalBoardHeader(append([]byte{}, w.act.Rec...))
		if err != nil {
			return "", err
		}
		return "", w.db.AddBoardRecord(b)
	}},
	{"remove board", func(w where) (string, error) { return "", pttbbs.RemoveBoardHeaderFileRecord(w.h.Boards(), 0) }},
	{"add article", func(w where) (string, error) {
		a, err := pttbbs.NewFileHeaderWithByte(append([]byte{}, w.act.Rec...))
		if err != nil {
			return "", err
		}
		return "", w.db.AddArticleRecordFileRecord(w.brd.ID, a)
	}},
	{"update article", func(w where) (string, error) {
		a, err := pttbbs.NewFileHeaderWithByte(append([]byte{}, w.act.Rec...))
		if err != nil {
			return "", err
		}
		return "", pttbbs.UpdateFileHeaderFileRecord(w.h.Board(w.brd.ID, ".DIR"), uint(w.act.At), a)
	}},
	{"write article", func(w where) (string, error) { return "", w.db.WriteBoardArticleFile(w.brd.ID, w.file, w.act.Rec) }},
	{"append to article", func(w where) (string, error) { return "", w.db.AppendBoardArticleFile(w.brd.ID, w.file, w.act.Rec) }},
	{"write draft", func(w where) (string, error) {
		return "", w.db.WriteUserDraft("tester", "1", bbs.NewUserDraft(w.act.Rec))
	}},
	{"delete draft", func(w where) (string, error) { return "", w.db.DeleteUserDraft("tester", "1") }},
}

func (c Home) write(h gen.Home) {
	kit.Must(c.Tree.Write(h))
	join := func(name string, rs [][]byte) {
		if rs != nil {
			kit.Write(name, gen.Join(rs))
		}
	}
	join(h.Passwds(), c.Users)
	join(string(h)+"/online", c.Online)
	join(string(h)+"/formosa", c.Other)
	join(h.Man("test", []string{"D1"}, ".DIR"), c.Man)
	join(h.Man("test", []string{"D1"}, "M.1"), c.Man)
	if c.Fav != nil {
		kit.Write(h.User("tester", ".fav"), gen.EncodeFav(3363, c.Fav))
	}
	if c.Draft != nil {
		kit.Write(h.User("tester", "buf.1"), c.Draft)
	}
	text := ""
	for _, a := range c.Bad {
		text += a.Line() + "\n"
	}
	kit.Write(string(h)+"/logins.bad", []byte(text))
	text = ""
	for _, r := range c.Recent {
		text += r.Line() + "\n"
	}
	kit.Write(h.User("tester", "logins.recent"), []byte(text))
}

// Larger is the BBS with its parts repeated, and each file the longer
func (c Home) Larger(g gen.Grow) Home {
	n := max(g.Boards, g.Arts, g.Lines, 1)
	times := func(l *[][]byte) {
		var out [][]byte
		for i := 0; i < n && *l != nil; i++ {
			out = append(out, *l...)
		}
		*l = out
	}
	c.Tree = c.Tree.Grown(g)
	times(&c.Users)
	times(&c.Online)
	times(&c.Man)
	times(&c.Other)
	c.Draft = bytes.Repeat(c.Draft, min(n, 200))
	bad, recent := c.Bad, c.Recent
	for i := 1; i < n; i++ {
		c.Bad, c.Recent = append(c.Bad, bad...), append(c.Recent, recent...)
	}
	return c
}
