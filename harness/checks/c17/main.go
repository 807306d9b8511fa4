// C17: a posted article is listed and readable exactly as posted.
package main

import (
	"fmt"
	"os"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// op begins a posting, or takes the next step of one which was begun before
// (create, write the content, add to the index): postings overlap.
type op struct {
	Begin   bool
	Board   int
	Owner   string
	Date    string
	Title   string
	Content []byte
	Which   int  // of the postings under way
	Fresh   bool // through a freshly opened database
	Size    int  // if set the content is so much noise
	Noise   uint64
}

type old struct {
	Board   int
	Rec     []byte
	Content []byte
}

type history struct {
	Boards []string
	Old    []old
	Ops    []op

	huge bool
}

func owner() *rapid.Generator[string] {
	return rapid.OneOf(gen.ID(), gen.ID(), rapid.Map(gen.ID(), func(s string) string { return s + "." }), gen.Ascii(13))
}

func draw(t *rapid.T) history {
	h := history{Boards: rapid.SliceOfNDistinct(gen.ID(), 1, 3, rapid.ID).Draw(t, "boards")}
	board := gen.Num(0, len(h.Boards)-1)
	h.Old = gen.ListOf(rapid.Custom(func(t *rapid.T) old {
		return old{board.Draw(t, "board"), gen.NewArticle(fmt.Sprintf("M.%d.A.%03X", gen.Num(1, 5000).Draw(t, "time"), gen.Num(0, 4095).Draw(t, "rand")),
			owner().Draw(t, "owner"), " 1/02", gen.Text(64).Draw(t, "title")), gen.Bytes(200).Draw(t, "content")}
	}), 0, 4, 80).Draw(t, "old")
	h.Ops = gen.ListOf(rapid.Custom(func(t *rapid.T) op {
		o := op{Begin: rapid.IntRange(0, 3).Draw(t, "begin") == 0, Fresh: rapid.Bool().Draw(t, "fresh")}
		if o.Begin {
			o.Board = board.Draw(t, "board")
			o.Owner, o.Date, o.Title = owner().Draw(t, "owner"), gen.Ascii(5).Draw(t, "date"), gen.Text(64).Draw(t, "title")
			o.Content = gen.Bytes(rapid.SampledFrom([]int{0, 20, 500, 70000}).Draw(t, "max")).Draw(t, "content")
			if !h.huge && rapid.IntRange(0, 149).Draw(t, "huge?") == 0 { // once in a history: around a power of two
				h.huge = true
				o.Content, o.Noise = nil, rapid.Uint64().Draw(t, "noise")
				o.Size = 1<<gen.Num(12, 22).Draw(t, "power") + rapid.IntRange(-1, 1).Draw(t, "off")
			}
		} else {
			o.Which = rapid.IntRange(0, 3).Draw(t, "which")
		}
		return o
	}), 4, 20, 80).Draw(t, "ops")
	return h
}

type posting struct {
	op
	rec  bbs.ArticleRecord
	name string
	step int
}

type entry struct{ name, owner, date, title string }

func check(c history, x *kit.X) error {
	h := gen.Home(x.Dir())
	for _, b := range c.Boards {
		kit.Must(os.MkdirAll(gen.Dir(h.Board(b, "x")), 0755))
	}
	index := make([][]entry, len(c.Boards))
	raw := make([][]byte, len(c.Boards))
	content := make([]map[string][]byte, len(c.Boards))
	for i := range content {
		content[i] = map[string][]byte{}
	}
	for _, o := range c.Old {
		v := func(n string) string { return gen.Article.Find(n).Value(o.Rec).(string) }
		if _, ok := content[o.Board][v("filename")]; ok {
			continue
		}
		index[o.Board] = append(index[o.Board], entry{v("filename"), v("owner"), v("date"), v("title")})
		content[o.Board][v("filename")] = o.Content
		raw[o.Board] = append(raw[o.Board], o.Rec...)
		kit.Write(h.Board(c.Boards[o.Board], v("filename")), o.Content)
	}
	for i, r := range raw {
		if len(r) > 0 {
			kit.Write(h.Board(c.Boards[i], ".DIR"), r)
		}
	}
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}

	var under []*posting
	done, overlap := 0, false
	for i, o := range c.Ops {
		if o.Fresh {
			if db, err = bbs.Open("pttbbs", "file://"+string(h)); err != nil {
				return err
			}
		}
		if o.Size > 0 {
			o.Content = make([]byte, o.Size)
			gen.Noise(o.Content, o.Noise)
		}
		var p *posting
		if o.Begin || len(under) == 0 {
			p = &posting{op: o}
			under = append(under, p)
			overlap = overlap || len(under) > 1
		} else {
			p = under[o.Which%len(under)]
		}
		b := c.Boards[p.Board]
		step := fmt.Sprintf("op %d, step %d of the posting on %s", i, p.step, b)
		switch p.step {
		case 0:
			r, err := db.CreateArticleRecord(b, p.Owner, p.Date, p.Title)
			if err != nil {
				return fmt.Errorf("%s: create: %w", step, err)
			}
			p.rec, p.name = r, r.Filename()
			if _, ok := content[p.Board][p.name]; ok {
				return fmt.Errorf("%s: the new article has the name %s of an old one", step, p.name)
			}
			if r.Owner() != p.Owner || r.Date() != p.Date || r.Title() != p.Title {
				return fmt.Errorf("%s: the record has %q, %q, %q instead of %q, %q, %q", step, r.Owner(), r.Date(), r.Title(), p.Owner, p.Date, p.Title)
			}
			content[p.Board][p.name] = nil // reserved; what it holds until it is written is not specified
		case 1:
			if err := db.WriteBoardArticleFile(b, p.name, append([]byte{}, p.Content...)); err != nil {
				return fmt.Errorf("%s: write: %w", step, err)
			}
			content[p.Board][p.name] = append([]byte{}, p.Content...)
		case 2:
			if err := db.AddArticleRecordFileRecord(b, p.rec); err != nil {
				return fmt.Errorf("%s: add: %w", step, err)
			}
			index[p.Board] = append(index[p.Board], entry{p.name, p.Owner, p.Date, p.Title})
			done++
		}
		p.step++
		if p.step == 3 {
			for j := range under {
				if under[j] == p {
					under = append(under[:j:j], under[j+1:]...)
					break
				}
			}
		}
		for j, b := range c.Boards {
			rs, err := db.ReadBoardArticleRecordsFile(b)
			if err != nil {
				return fmt.Errorf("%s: listing %s: %w", step, b, err)
			}
			if len(rs) != len(index[j]) {
				return fmt.Errorf("%s: %s lists %d articles instead of %d", step, b, len(rs), len(index[j]))
			}
			for k, r := range rs {
				if got := (entry{r.Filename(), r.Owner(), r.Date(), r.Title()}); got != index[j][k] {
					return fmt.Errorf("%s: article %d of %s is listed as %q instead of %q", step, k, b, got, index[j][k])
				}
			}
			for name, want := range content[j] {
				if want == nil {
					continue
				}
				got, err := db.ReadBoardArticleFile(b, name)
				if err != nil {
					return fmt.Errorf("%s: reading %s/%s: %w", step, b, name, err)
				}
				if string(got) != string(want) {
					return fmt.Errorf("%s: %s/%s is read as %.200q instead of %.200q", step, b, name, got, want)
				}
			}
		}
	}
	x.NonTrivial(done >= 2)
	x.LabelIf(overlap, "overlapping postings")
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C17",
		Rule: "a case is up to three boards with up to four old articles and a history of up to 20 steps of postings (create, write, add), which may overlap and change the opened database in between; after each step all boards are listed and all articles read. It is non-trivial when at least two postings were completed.",
		Arms: []kit.Arm{kit.NewArm("postings", 4000, 120000, draw, check)},
	})
}
