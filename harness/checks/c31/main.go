// C31: each opened BBS keeps reading and writing its own data.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

const (
	opOpen = iota
	opUnknown
	opCheck
	opBoard
	opDraft
	opPost
	opKinds
)

type op struct {
	Kind   int
	Home   int
	Form   int
	Handle int
	Text   string
}

// history works on homes which have the same board and user names
type history struct {
	Names  []string // of the homes
	Board  string
	User   string
	Driver string
	Ops    []op
}

func draw(t *rapid.T) history {
	c := history{
		Names: rapid.SliceOfNDistinct(rapid.OneOf(gen.ID(), rapid.SampledFrom([]string{"a b", "%s", "x#y", "a%41b", "aAb", "a%2Fb", "a+b", "a%20b", "a&b", "a=b", "~a", "a;b", "a:b", "bbs", "bbs2", "file:", "家"})), 2, 4, rapid.ID).Draw(t, "homes"),
		Board: gen.ID().Draw(t, "board"), User: gen.ID().Draw(t, "user"),
		Driver: rapid.OneOf(gen.ID(), rapid.SampledFrom([]string{"", "PTTBBS", "pttbbs ", "ptt"})).Filter(func(s string) bool { return s != "pttbbs" }).Draw(t, "driver"),
	}
	c.Ops = gen.ListOf(rapid.Custom(func(t *rapid.T) op {
		return op{Kind: rapid.SampledFrom([]int{opOpen, opOpen, opUnknown, opCheck, opCheck, opBoard, opDraft, opPost}).Draw(t, "kind"), Home: gen.Num(0, len(c.Names)-1).Draw(t, "home"),
			Form: rapid.IntRange(0, 5).Draw(t, "form"), Handle: gen.Num(0, 20).Draw(t, "handle"), Text: gen.Text(12).Draw(t, "text")}
	}), 3, 16, 80).Draw(t, "ops")
	return c
}

type home struct {
	dir    gen.Home
	users  []string
	titles []string // of the boards
	posts  []string // titles of the articles
	files  []string
	draft  string
}

type handle struct {
	db   *bbs.DB
	home int
}

func (m *home) agrees(db *bbs.DB, c history) error {
	us, err := db.ReadUserRecords()
	if err != nil {
		return fmt.Errorf("users: %w", err)
	}
	if len(us) != len(m.users) {
		return fmt.Errorf("%d users instead of %d", len(us), len(m.users))
	}
	for i, u := range us {
		if u.UserID() != m.users[i] {
			return fmt.Errorf("user %d is %q instead of %q", i, u.UserID(), m.users[i])
		}
	}
	bs, err := db.ReadBoardRecords()
	if err != nil {
		return fmt.Errorf("boards: %w", err)
	}
	if len(bs) != len(m.titles) {
		return fmt.Errorf("%d boards instead of %d", len(bs), len(m.titles))
	}
	for i, b := range bs {
		if b.BoardID() != c.Board || b.Title() != m.titles[i] {
			return fmt.Errorf("board %d is %q, %q instead of %q, %q", i, b.BoardID(), b.Title(), c.Board, m.titles[i])
		}
	}
	as, err := db.ReadBoardArticleRecordsFile(c.Board)
	if err != nil {
		return fmt.Errorf("articles: %w", err)
	}
	if len(as) != len(m.posts) {
		return fmt.Errorf("%d articles instead of %d", len(as), len(m.posts))
	}
	for i, a := range as {
		if a.Title() != m.posts[i] || a.Filename() != m.files[i] {
			return fmt.Errorf("article %d is %q, %q instead of %q, %q", i, a.Filename(), a.Title(), m.files[i], m.posts[i])
		}
		if got, err := db.ReadBoardArticleFile(c.Board, m.files[i]); err != nil || string(got) != m.posts[i] {
			return fmt.Errorf("article %d holds %q, %v instead of %q", i, got, err, m.posts[i])
		}
	}
	d, err := db.GetUserDrafts(c.User, "0")
	if err != nil {
		return fmt.Errorf("draft: %w", err)
	}
	if string(d.Raw()) != m.draft {
		return fmt.Errorf("the draft is %q instead of %q", d.Raw(), m.draft)
	}
	f, err := db.ReadUserFavoriteRecords(c.User)
	if err != nil {
		return fmt.Errorf("favourites: %w", err)
	}
	if len(f) != 1 || f[0].Title() != "of "+m.users[0] {
		return fmt.Errorf("%d favourites, or not those of this home", len(f))
	}
	return nil
}

func check(c history, x *kit.X) error {
	homes := make([]*home, len(c.Names))
	for i, n := range c.Names {
		m := &home{dir: gen.Home(x.Dir() + "/" + n), titles: []string{"first " + fmt.Sprint(i)}}
		var users [][]byte
		for k := 0; k <= i; k++ {
			m.users = append(m.users, fmt.Sprintf("user%dof%d", k, i))
			u := make([]byte, 512)
			gen.User.Find("userid").PutText(u, m.users[k])
			users = append(users, u)
		}
		kit.Write(m.dir.Passwds(), gen.Join(users))
		kit.Write(m.dir.Boards(), gen.NewBoard(c.Board, m.titles[0]))
		kit.Write(m.dir.User(c.User, ".fav"), gen.EncodeFav(3363, gen.Fav{{Kind: gen.FavFolder, Title: "of " + m.users[0]}}))
		kit.Must(os.MkdirAll(gen.Dir(m.dir.Board(c.Board, "x")), 0755))
		homes[i] = m
	}
	var handles []handle
	used := map[int]bool{}
	for i, o := range c.Ops {
		if o.Kind == opUnknown {
			if db, err := bbs.Open(c.Driver, string(homes[o.Home].dir)); err == nil {
				return fmt.Errorf("op %d: the driver %q is opened: %v", i, c.Driver, db)
			}
			continue
		}
		if o.Kind == opOpen || len(handles) == 0 {
			d := string(homes[o.Home].dir)
			wd, err := os.Getwd()
			kit.Must(err)
			rel, err := filepath.Rel(wd, d)
			kit.Must(err)
			dsn := []string{d, "file://" + d, "file://" + d + "?UTMP=1993", "file://" + d + "?a=/x?b=" + o.Text, rel, "file://" + rel}[o.Form]
			db, err := bbs.Open("pttbbs", dsn)
			if err != nil {
				return fmt.Errorf("op %d: opening %q: %w", i, dsn, err)
			}
			handles = append(handles, handle{db, o.Home})
			used[o.Home] = true
			continue
		}
		h := handles[o.Handle%len(handles)]
		m := homes[h.home]
		fail := func(what string, err error) error {
			return fmt.Errorf("op %d: %s through handle %d, opened on home %d: %w", i, what, o.Handle%len(handles), h.home, err)
		}
		switch o.Kind {
		case opBoard:
			b, err := h.db.NewBoardRecord(map[string]interface{}{"board_id": c.Board, "title": o.Text})
			if err == nil {
				err = h.db.AddBoardRecord(b)
			}
			if err != nil {
				return fail("adding a board", err)
			}
			m.titles = append(m.titles, o.Text)
		case opDraft:
			if err := h.db.WriteUserDraft(c.User, "0", bbs.NewUserDraft([]byte(o.Text))); err != nil {
				return fail("saving a draft", err)
			}
			m.draft = o.Text
		case opPost:
			a, err := h.db.CreateArticleRecord(c.Board, c.User, "1/01", o.Text)
			if err == nil {
				err = h.db.WriteBoardArticleFile(c.Board, a.Filename(), []byte(o.Text))
			}
			if err == nil {
				err = h.db.AddArticleRecordFileRecord(c.Board, a)
			}
			if err != nil {
				return fail("posting", err)
			}
			m.posts = append(m.posts, o.Text)
			m.files = append(m.files, a.Filename())
		}
		if err := m.agrees(h.db, c); err != nil {
			return fail("reading", err)
		}
	}
	for i, h := range handles {
		if err := homes[h.home].agrees(h.db, c); err != nil {
			return fmt.Errorf("at the end, handle %d opened on home %d: %w", i, h.home, err)
		}
	}
	x.NonTrivial(len(used) >= 2)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C31",
		Rule: "a case is a history of opening databases on up to four homes with the same board and user (as path, URL, URL with parameters, relative path, URL of a relative path, unknown driver), of writing (boards, drafts, articles) and of reading everything back; after it every handle is read. It is non-trivial when at least two homes were opened",
		Arms: []kit.Arm{
			kit.NewArm("homes", 3000, 120000, draw, check),
			kit.Together(60, 2500, draw, check),
		},
	})
}
