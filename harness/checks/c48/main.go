// C48: a new record holds exactly the given values; incomplete and foreign ones are refused.
package main

import (
	"bytes"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// given is one argument
type given struct {
	Text string
	As   int // 0: as the string; otherwise what is no string
}

type stringer string

func (s stringer) String() string { return string(s) }

func (g given) value() interface{} {
	switch g.As {
	case 0:
		return g.Text
	case 1:
		return []byte(g.Text)
	case 2:
		return &g.Text
	case 3:
		return len(g.Text)
	case 4:
		return nil
	case 5:
		return []string{g.Text}
	case 6:
		return stringer(g.Text)
	case 7:
		return errorOf(g.Text)
	}
	return []interface{}{g.Text}
}

func errorOf(s string) error { return fmt.Errorf("%s", s) }

const notStrings = 8

type request struct {
	Board bool // or an article
	Args  map[string]given
	Extra map[string]given
	Via   bool
}

var needs = map[bool][]string{true: {"board_id", "title"}, false: {"board_id", "date", "owner", "title"}}

// in an article board_id is where its file is, it is no field
var field = map[bool]map[string]string{true: {"board_id": "brdname", "title": "title"}, false: {"date": "date", "owner": "owner", "title": "title"}}

func (r request) complete() bool {
	for _, n := range needs[r.Board] {
		if g, ok := r.Args[n]; !ok || g.As != 0 {
			return false
		}
	}
	return true
}

func (r request) args() map[string]interface{} {
	m := map[string]interface{}{}
	for k, v := range r.Extra {
		m[k] = v.value()
	}
	for k, v := range r.Args {
		m[k] = v.value()
	}
	return m
}

func notEmpty(s string) bool { return s != "" }

func drawRequest() *rapid.Generator[request] {
	return rapid.Custom(func(t *rapid.T) request {
		r := request{Board: rapid.Bool().Draw(t, "board"), Args: map[string]given{}, Extra: map[string]given{}, Via: rapid.Bool().Draw(t, "via")}
		l := gen.Article
		if r.Board {
			l = gen.Board
		}
		for _, n := range needs[r.Board] {
			var g given
			if f, ok := field[r.Board][n]; ok && n != "board_id" {
				fl := l.Find(f)
				g.Text = gen.Text(fl.Size-1).Draw(t, n)
				if fl.Kind != gen.Big5 {
					g.Text = gen.Ascii(fl.Size-1).Draw(t, n)
				}
			} else {
				g.Text = gen.ID().Draw(t, n)
			}
			r.Args[n] = g
		}
		// what is wrong with it
		switch rapid.IntRange(0, 4).Draw(t, "fault") {
		case 0:
			delete(r.Args, rapid.SampledFrom(needs[r.Board]).Draw(t, "missing"))
		case 1:
			n := rapid.SampledFrom(needs[r.Board]).Draw(t, "odd")
			r.Args[n] = given{r.Args[n].Text, gen.Num(1, notStrings).Draw(t, "as")}
		case 2:
			for _, n := range needs[r.Board] {
				switch rapid.IntRange(0, 3).Draw(t, "each") {
				case 0:
					delete(r.Args, n)
				case 1:
					r.Args[n] = given{r.Args[n].Text, gen.Num(0, notStrings).Draw(t, "as")}
				}
			}
		}
		extra := []string{"Title", "BOARD_ID", "boardid", "TITLE", "Owner", "xtitle", "title ", "x-id", ""}
		for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "extra"); i < n; i++ {
			r.Extra[rapid.SampledFrom(extra).Draw(t, "key")] = given{gen.Ascii(12).Draw(t, "value"), gen.Num(0, notStrings).Draw(t, "as")}
		}
		return r
	})
}

type requests struct {
	Rs  []request
	Add []int // the order in which what was made is added to the lists
}

func draw(t *rapid.T) requests {
	c := requests{Rs: gen.ListOf(drawRequest(), 1, 6, 20).Draw(t, "requests")}
	c.Add = gen.ListOf(rapid.IntRange(0, 5), 0, 8, 20).Draw(t, "add")
	return c
}

// files lists all files below a directory
func files(dir string) (l []string) {
	es, err := os.ReadDir(dir)
	kit.Must(err)
	for _, e := range es {
		if e.IsDir() {
			l = append(l, files(dir+"/"+e.Name())...)
		} else {
			l = append(l, dir+"/"+e.Name())
		}
	}
	return l
}

type made struct {
	board bbs.BoardRecord
	art   bbs.ArticleRecord
	raw   []byte // the record as it has to be stored
	in    string // the board of an article
}

func (m made) shows() error {
	if m.board != nil {
		b, ok := m.board.(*pttbbs.BoardHeader)
		if !ok {
			return fmt.Errorf("a board is a %T", m.board)
		}
		if m.board.BoardID() != gen.Board.Find("brdname").Value(m.raw) || m.board.Title() != gen.Board.Find("title").Value(m.raw) {
			return fmt.Errorf("the board is %q with title %q", m.board.BoardID(), m.board.Title())
		}
		out, err := b.MarshalBinary()
		if err != nil {
			return err
		}
		return gen.Board.Diff(m.raw, out)
	}
	a, ok := m.art.(*pttbbs.FileHeader)
	if !ok {
		return fmt.Errorf("an article is a %T", m.art)
	}
	v := func(n string) string { return gen.Article.Find(n).Value(m.raw).(string) }
	if a.Filename() != v("filename") || a.Owner() != v("owner") || a.Date() != v("date") || a.Title() != v("title") {
		return fmt.Errorf("the article is %q by %q of %q: %q", a.Filename(), a.Owner(), a.Date(), a.Title())
	}
	out, err := a.MarshalToByte()
	if err != nil {
		return err
	}
	return gen.Article.Diff(m.raw, out)
}

func check(c requests, x *kit.X) error {
	h := gen.Home(x.Dir() + "/home")
	kit.Must(os.MkdirAll(string(h), 0755))
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	conn := &pttbbs.Connector{}
	if err := conn.Open(string(h)); err != nil {
		return err
	}
	for _, r := range c.Rs {
		for _, n := range []string{r.Args["board_id"].Text, "board"} {
			if n != "" {
				kit.Must(os.MkdirAll(gen.Dir(h.Board(n, ".DIR")), 0755))
			}
		}
	}
	var ms []made
	good, bad := 0, 0
	for i, r := range c.Rs {
		step := fmt.Sprintf("request %d (%v, %v)", i, needs[r.Board], r.args())
		before := files(string(h))
		args := r.args()
		shown := fmt.Sprint(args)
		m := made{in: r.Args["board_id"].Text}
		var err error
		if r.Board && r.Via {
			m.board, err = db.NewBoardRecord(args)
		} else if r.Board {
			m.board, err = conn.NewBoardRecord(args)
		} else {
			m.art, err = conn.NewArticleRecordWithMap(args)
		}
		if s := fmt.Sprint(args); s != shown {
			return fmt.Errorf("%s: the arguments became %s", step, s)
		}
		after := files(string(h))
		if !r.complete() {
			bad++
			if err == nil {
				return fmt.Errorf("%s: an incomplete request succeeds", step)
			}
			if strings.Join(after, " ") != strings.Join(before, " ") {
				return fmt.Errorf("%s: an incomplete request makes a file: %v", step, after)
			}
			continue
		}
		good++
		if err != nil {
			return fmt.Errorf("%s: %w", step, err)
		}
		val := func(n string) string { return r.Args[n].Text }
		if r.Board {
			if len(after) != len(before) {
				return fmt.Errorf("%s: a file is made: %v", step, after)
			}
			m.raw = gen.NewBoard(val("board_id"), val("title"))
		} else {
			if m.art == nil {
				return fmt.Errorf("%s: neither a record nor an error", step)
			}
			m.raw = gen.NewArticle(m.art.Filename(), val("owner"), val("date"), val("title"))
			name := h.Board(val("board_id"), m.art.Filename())
			want := append(append([]string{}, before...), name)
			sort.Strings(want)
			sort.Strings(after)
			if strings.Join(after, " ") != strings.Join(want, " ") {
				return fmt.Errorf("%s: the files are %v instead of %v", step, after, want)
			}
			text, err := db.ReadBoardArticleFile(val("board_id"), m.art.Filename())
			if err != nil {
				return fmt.Errorf("%s: its text: %w", step, err)
			}
			head := fmt.Sprintf("作者: %s 看板: %s\n標題: %s \n時間: %s\n", val("owner"), val("board_id"), val("title"), val("date"))
			if !bytes.Equal(text, gen.MustBig5(head)) {
				return fmt.Errorf("%s: its text is %q instead of %q in Big5", step, text, head)
			}
		}
		ms = append(ms, m)
		for j, m := range ms {
			if err := m.shows(); err != nil {
				return fmt.Errorf("%s: record %d: %w", step, j, err)
			}
		}
	}
	x.NonTrivial(good > 0)
	x.LabelIf(bad > 0, "incomplete")
	// adding does not change the record, and stores it as it is, several times if asked to
	var list [][]byte
	index := map[string][][]byte{}
	for i, n := range c.Add {
		if len(ms) == 0 {
			break
		}
		m := ms[n%len(ms)]
		if m.board != nil {
			err = db.AddBoardRecord(m.board)
			list = append(list, m.raw)
		} else {
			err = db.AddArticleRecordFileRecord(m.in, m.art)
			index[m.in] = append(index[m.in], m.raw)
		}
		if err != nil {
			return fmt.Errorf("addition %d: %w", i, err)
		}
		if err := m.shows(); err != nil {
			return fmt.Errorf("after adding: %w", err)
		}
	}
	if len(list) > 0 {
		got, err := db.ReadBoardRecords()
		if err != nil {
			return err
		}
		if len(got) != len(list) {
			return fmt.Errorf("%d boards are stored instead of %d", len(got), len(list))
		}
		for i, g := range got {
			if err := rec.Compare(gen.Board, list[i], rec.Board(g.(*pttbbs.BoardHeader))); err != nil {
				return fmt.Errorf("stored board %d: %w", i, err)
			}
		}
	}
	for b, want := range index {
		got, err := db.ReadBoardArticleRecordsFile(b)
		if err != nil {
			return err
		}
		if len(got) != len(want) {
			return fmt.Errorf("%d articles of %s are stored instead of %d", len(got), b, len(want))
		}
		for i, g := range got {
			if err := rec.Compare(gen.Article, want[i], rec.Article(g.(*pttbbs.FileHeader))); err != nil {
				return fmt.Errorf("stored article %d of %s: %w", i, b, err)
			}
		}
	}
	return nil
}

// foreign records are those of another driver
type foreignBoard struct{ id, title string }

func (b foreignBoard) BoardID() string { return b.id }
func (b foreignBoard) Title() string   { return b.title }
func (b foreignBoard) IsClass() bool   { return false }
func (b foreignBoard) ClassID() string { return "" }
func (b foreignBoard) BM() []string    { return nil }

type foreignArticle struct{ name, title string }

func (a foreignArticle) Filename() string        { return a.name }
func (a foreignArticle) Modified() time.Time     { return time.Time{} }
func (a foreignArticle) SetModified(_ time.Time) {}
func (a foreignArticle) Recommend() int          { return 0 }
func (a foreignArticle) Date() string            { return " 1/02" }
func (a foreignArticle) Title() string           { return a.title }
func (a foreignArticle) Money() int              { return 0 }
func (a foreignArticle) Owner() string           { return "owner" }

type alien struct {
	Board  bool
	Kind   int // 0: a value of another type, 1: a pointer to it, 2: none at all
	Init   [][]byte
	Exists bool
	At     uint
	Via    int // for articles, 0: DB, 1: connector, 2: update
	Text   string
}

func drawAlien(t *rapid.T) alien {
	a := alien{Board: rapid.Bool().Draw(t, "board"), Kind: rapid.IntRange(0, 2).Draw(t, "kind"), Exists: rapid.IntRange(0, 3).Draw(t, "exists") > 0, Via: rapid.IntRange(0, 2).Draw(t, "via"), Text: gen.Ascii(12).Draw(t, "text")}
	l := gen.Article
	if a.Board {
		l = gen.Board
	}
	if a.Exists {
		a.Init = gen.ListOf(l.Record(), 0, 4, 40).Draw(t, "init")
		if len(a.Init) > 0 {
			a.At = uint(gen.Num(0, len(a.Init)-1).Draw(t, "at"))
		}
	}
	return a
}

func checkAlien(c alien, x *kit.X) error {
	h := gen.Home(x.Dir() + "/home")
	name := h.Boards()
	if !c.Board {
		name = h.Board("test", ".DIR")
	}
	kit.Must(os.MkdirAll(gen.Dir(name), 0755))
	if c.Exists {
		kit.Write(name, gen.Join(c.Init))
	}
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	conn := &pttbbs.Connector{}
	if err := conn.Open(string(h)); err != nil {
		return err
	}
	if c.Board {
		r := []bbs.BoardRecord{foreignBoard{c.Text, c.Text}, &foreignBoard{c.Text, c.Text}, nil}[c.Kind]
		if c.Via == 0 {
			err = db.AddBoardRecord(r)
		} else {
			err = conn.AddBoardRecordFileRecord(name, r)
		}
	} else {
		r := []bbs.ArticleRecord{foreignArticle{c.Text, c.Text}, &foreignArticle{c.Text, c.Text}, nil}[c.Kind]
		switch c.Via {
		case 0:
			err = db.AddArticleRecordFileRecord("test", r)
		case 1:
			err = conn.AddArticleRecordFileRecord(name, r)
		default:
			err = conn.UpdateArticleRecordFileRecord(name, c.At, r)
		}
	}
	if err == nil {
		return fmt.Errorf("a record of another driver (kind %d) is accepted", c.Kind)
	}
	got, rerr := os.ReadFile(name)
	if os.IsNotExist(rerr) != !c.Exists && !(rerr == nil && len(got) == 0) {
		return fmt.Errorf("the file: %v", rerr)
	}
	if !bytes.Equal(got, gen.Join(c.Init)) {
		return fmt.Errorf("the refused record changed the file of %d bytes to one of %d", len(gen.Join(c.Init)), len(got))
	}
	x.NonTrivial(len(c.Init) > 0)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C48",
		Rule:        "a case is up to six requests for new boards and articles, some with missing arguments, arguments which are no strings, or arguments nobody asked for, and additions of what was made; or an addition or update with a record of another driver; it is non-trivial when a request was complete, or the file held records",
		Assumptions: []string{"the texts fit their fields and are not empty", "what a new article file holds is not part of the property"},
		Arms: []kit.Arm{
			kit.NewArm("requests", 6000, 250000, draw, check),
			kit.NewArm("foreign", 3000, 100000, drawAlien, checkAlien),
			kit.Together(60, 2500, draw, check),
		},
	})
}
