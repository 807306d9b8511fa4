// C30: every user, board and treasure has its own documented path.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type place struct {
	ID, File string
	Sub      []string
}

type pair struct {
	Home  string
	A, B  place
	Spare []string
	URL   bool
	Args  string
}

func name() *rapid.Generator[string] {
	return plain().Filter(func(s string) bool { return s != "." && s != ".." })
}

func plain() *rapid.Generator[string] {
	return rapid.OneOf(
		gen.Match(`[ -.0-~]{1,20}`),
		gen.Match(`M\.[0-9]{1,10}\.A(\.[0-9A-F]{3})?`),
		gen.Match(`D[0-9A-F]{1,4}`),
		rapid.SampledFrom([]string{".DIR", ".Name", ".fav", "0", "9", "buf.0", "%s", "%d%%", "%!", "a b", "logins.recent"}),
	)
}

func id() *rapid.Generator[string] {
	return rapid.OneOf(gen.ID(), gen.ID(), gen.Match(`[ -,0-~][ -.0-~]{0,11}`), rapid.SampledFrom([]string{"a", "A", "%", "%s", "%d%%", "a%20b", "-x", ".x"}))
}

func placeOf() *rapid.Generator[place] {
	return rapid.Custom(func(t *rapid.T) place {
		return place{id().Draw(t, "id"), name().Draw(t, "file"), gen.ListOf(name(), 0, rapid.SampledFrom([]int{1, 3, 12}).Draw(t, "depth"), 40).Draw(t, "sub")}
	})
}

func draw(t *rapid.T) pair {
	c := pair{A: placeOf().Draw(t, "a"), Spare: gen.ListOf(name(), 0, 4, 40).Draw(t, "spare")}
	c.Home = rapid.OneOf(rapid.SampledFrom([]string{"/home/bbs", ".", "..", "/x/", "/a%20b", "/%s/%d", "./x", "home", "/一/二"}), gen.Match(`/?[ ->@-~]{1,30}`)).Draw(t, "home")
	if strings.HasPrefix(c.Home, "file:") { // would be a URL
		c.Home = "./" + c.Home
	}
	c.URL = rapid.Bool().Draw(t, "url")
	if c.URL && rapid.Bool().Draw(t, "args?") {
		c.Args = "?" + gen.Match(`[ -~]{0,20}`).Draw(t, "args")
	}
	// the other place is mostly close to the first
	c.B = c.A
	c.B.Sub = append([]string{}, c.A.Sub...)
	switch rapid.IntRange(0, 6).Draw(t, "other") {
	case 0:
		c.B = placeOf().Draw(t, "b")
	case 1:
		c.B.ID = strings.ToUpper(c.A.ID[:1]) + c.A.ID[1:]
	case 2:
		c.B.ID = c.A.ID + "x"
	case 3:
		c.B.File = name().Draw(t, "file")
	case 4:
		c.B.Sub = append(c.B.Sub, c.A.File)
	case 5:
		if n := len(c.B.Sub); n > 0 {
			c.B.Sub = c.B.Sub[:n-1]
		}
	case 6:
		if n := len(c.B.Sub); n > 1 {
			c.B.Sub[0], c.B.Sub[n-1] = c.B.Sub[n-1], c.B.Sub[0]
		}
	}
	return c
}

// all gives the paths of a place by kind, with what the directory scheme says
func all(home, dsn string, p place, sub []string) (kinds []string, got, want []string, err error) {
	h := gen.Home(home)
	conn := (&pttbbs.Connector{}).NewConnector().(*pttbbs.Connector)
	if err := conn.Open(dsn); err != nil {
		return nil, nil, nil, fmt.Errorf("opening %q: %w", dsn, err)
	}
	add := func(kind, w string, fs ...func() (string, error)) {
		for _, f := range fs {
			g, e := f()
			if e != nil && err == nil {
				err = fmt.Errorf("%s of %q: %w", kind, p, e)
			}
			kinds, got, want = append(kinds, kind), append(got, g), append(want, w)
		}
	}
	add("accounts", h.Passwds(), func() (string, error) { return pttbbs.GetPasswdsPath(home) }, conn.GetUserRecordsPath)
	add("board list", h.Boards(), func() (string, error) { return pttbbs.GetBoardPath(home) }, conn.GetBoardRecordsPath)
	add("favourites", h.User(p.ID, ".fav"), func() (string, error) { return pttbbs.GetUserFavoritePath(home, p.ID) }, func() (string, error) { return conn.GetUserFavoriteRecordsPath(p.ID) })
	add("draft", h.User(p.ID, "buf."+p.File), func() (string, error) { return pttbbs.GetUserDraftPath(home, p.ID, p.File) }, func() (string, error) { return conn.GetUserDraftPath(p.ID, p.File) })
	add("mail", h.User(p.ID, p.File), func() (string, error) { return pttbbs.GetUserMailPath(home, p.ID, p.File) })
	add("recent logins", h.User(p.ID, "logins.recent"), func() (string, error) { return pttbbs.GetLoginRecentPath(home, p.ID) })
	add("index", h.Board(p.ID, ".DIR"), func() (string, error) { return pttbbs.GetBoardArticlesDirectoryPath(home, p.ID) }, func() (string, error) { return conn.GetBoardArticleRecordsPath(p.ID) })
	add("article", h.Board(p.ID, p.File), func() (string, error) { return pttbbs.GetBoardArticleFilePath(home, p.ID, p.File) }, func() (string, error) { return conn.GetBoardArticleFilePath(p.ID, p.File) })
	add("name", h.Board(p.ID, ".Name"), func() (string, error) { return pttbbs.GetBoardNameFilePath(home, p.ID) })
	add("treasure index", h.Man(p.ID, p.Sub, ".DIR"), func() (string, error) { return pttbbs.GetBoardTreasuresDirectoryPath(home, p.ID, sub) }, func() (string, error) { return conn.GetBoardTreasureRecordsPath(p.ID, sub) })
	add("treasure", h.Man(p.ID, p.Sub, p.File), func() (string, error) { return pttbbs.GetBoardTreasureFilePath(home, p.ID, sub, p.File) }, func() (string, error) { return conn.GetBoardTreasureFilePath(p.ID, sub, p.File) })
	return
}

func check(c pair, x *kit.X) error {
	dsn := c.Home
	if c.URL {
		dsn = "file://" + c.Home + c.Args
	}
	// the list of folders lies at the front of a longer list of the caller
	whole := append(append([]string{}, c.A.Sub...), c.Spare...)
	keep := append([]string{}, whole...)
	kinds, got, want, err := all(c.Home, dsn, c.A, whole[:len(c.A.Sub)])
	if err != nil {
		return err
	}
	for i := range got {
		if filepath.Clean(got[i]) != filepath.Clean(want[i]) {
			return fmt.Errorf("the %s path for %q in home %q (%q) is %q instead of %q", kinds[i], c.A, c.Home, dsn, got[i], want[i])
		}
	}
	for i := range whole {
		if whole[i] != keep[i] {
			return fmt.Errorf("computing a path changed the caller's list from %q to %q", keep, whole)
		}
	}
	_, other, _, err := all(c.Home, dsn, c.B, c.B.Sub)
	if err != nil {
		return err
	}
	differ := func(kind string) bool {
		switch kind {
		case "accounts", "board list":
			return false
		case "favourites", "recent logins", "index", "name":
			return c.A.ID != c.B.ID
		case "draft", "mail", "article":
			return c.A.ID != c.B.ID || c.A.File != c.B.File
		case "treasure index":
			return c.A.ID != c.B.ID || !same(c.A.Sub, c.B.Sub)
		}
		return c.A.ID != c.B.ID || c.A.File != c.B.File || !same(c.A.Sub, c.B.Sub)
	}
	for i := range got {
		if (got[i] != other[i]) != differ(kinds[i]) {
			return fmt.Errorf("the %s paths of %q and %q are %q and %q", kinds[i], c.A, c.B, got[i], other[i])
		}
	}
	x.NonTrivial(len(c.A.Sub) > 0 && len(c.Spare) > 0)
	return nil
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkEmpty(c pair, x *kit.X) error {
	conn := (&pttbbs.Connector{}).NewConnector().(*pttbbs.Connector)
	if err := conn.Open(c.Home); err != nil {
		return err
	}
	try := func(kind string, f func() (string, error)) error {
		if p, err := f(); err == nil {
			return fmt.Errorf("the %s path without an id is %q and no error", kind, p)
		}
		return nil
	}
	h, f, sub := c.Home, c.A.File, c.A.Sub
	for kind, g := range map[string]func() (string, error){
		"favourites":      func() (string, error) { return pttbbs.GetUserFavoritePath(h, "") },
		"draft":           func() (string, error) { return pttbbs.GetUserDraftPath(h, "", f) },
		"mail":            func() (string, error) { return pttbbs.GetUserMailPath(h, "", f) },
		"recent logins":   func() (string, error) { return pttbbs.GetLoginRecentPath(h, "") },
		"index":           func() (string, error) { return pttbbs.GetBoardArticlesDirectoryPath(h, "") },
		"article":         func() (string, error) { return pttbbs.GetBoardArticleFilePath(h, "", f) },
		"name":            func() (string, error) { return pttbbs.GetBoardNameFilePath(h, "") },
		"treasure index":  func() (string, error) { return pttbbs.GetBoardTreasuresDirectoryPath(h, "", sub) },
		"treasure":        func() (string, error) { return pttbbs.GetBoardTreasureFilePath(h, "", sub, f) },
		"favourites (c)":  func() (string, error) { return conn.GetUserFavoriteRecordsPath("") },
		"draft (c)":       func() (string, error) { return conn.GetUserDraftPath("", f) },
		"index (c)":       func() (string, error) { return conn.GetBoardArticleRecordsPath("") },
		"article (c)":     func() (string, error) { return conn.GetBoardArticleFilePath("", f) },
		"treasure dir(c)": func() (string, error) { return conn.GetBoardTreasureRecordsPath("", sub) },
		"treasure (c)":    func() (string, error) { return conn.GetBoardTreasureFilePath("", sub, f) },
	} {
		if err := try(kind, g); err != nil {
			return err
		}
	}
	x.NonTrivial(true)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C30",
		Rule:        "a case is a home, a place (id, file name, list of folders at the front of a longer list) and mostly a close other place: every kind of path is compared with the directory scheme, and the two places with each other; or the same with an empty id. It is non-trivial when there are folders and the longer list has more, or the id is empty",
		Assumptions: []string{"names are not empty, not dots, and have no slashes; spellings of a path which differ in doubled slashes are the same; ids are ASCII"},
		Arms: []kit.Arm{
			kit.NewArm("paths", 12000, 1000000, draw, check),
			kit.NewArm("empty", 300, 20000, draw, checkEmpty),
			kit.Together(150, 6000, draw, check),
		},
	})
}
