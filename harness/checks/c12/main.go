// C12: the article index follows every history of postings, edits and votes.
package main

import (
	"errors"
	"fmt"
	"os"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type op struct {
	Kind  string // append, post (made by the connector), replace, edit, vote
	Rec   []byte `json:",omitempty"`
	At    uint64 `json:",omitempty"`
	Far   int    `json:",omitempty"` // 1: At is added to the length, 2: At is modulo the length
	Votes []int8 `json:",omitempty"`
	Text  string `json:",omitempty"`
}

type history struct {
	Exists bool
	Init   [][]byte
	Many   int
	Ops    []op
}

var l = gen.Article

// record draws one whose vote count is within the limits
func record() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		r := l.Record().Draw(t, "rec")
		r[33] = byte(int8(rapid.OneOf(gen.Num(-100, 100), gen.Num(-128, 127), rapid.SampledFrom([]int{0, 99, 100, -99, -100})).Draw(t, "votes")))
		return r
	})
}

func draw(t *rapid.T) history { return drawOf(t, false) }

// long lists need positions of more than 8 and 16 bits
func drawLong(t *rapid.T) history { return drawOf(t, true) }

func drawOf(t *rapid.T, long bool) history {
	h := history{Exists: long || gen.Num(0, 9).Draw(t, "exists") > 0}
	if h.Exists {
		h.Init = gen.Echo(t, gen.ListOf(record(), 0, 3, 20).Draw(t, "init"))
		if rapid.Bool().Draw(t, "many?") {
			h.Many = gen.Num(1, 200).Draw(t, "many")
		}
	}
	maxOps := 12
	if long {
		maxOps = 4
		h.Many = rapid.OneOf(gen.Num(256, 1100), gen.Num(4000, 5000), rapid.SampledFrom([]int{65537, 66000})).Draw(t, "long")
	}
	h.Ops = gen.ListOf(rapid.Custom(func(t *rapid.T) op {
		o := op{Kind: rapid.SampledFrom([]string{"append", "post", "replace", "edit", "vote", "vote", "replace"}).Draw(t, "op")}
		switch o.Kind {
		case "append", "post", "replace":
			o.Rec = record().Draw(t, "rec")
		case "edit":
			o.Text = gen.Text(64).Draw(t, "title")
		case "vote":
			o.Votes = gen.ListOf(rapid.OneOf(rapid.SampledFrom([]int8{1, -1, 1, 100, -100, 127, -128}), rapid.Int8()), 1, 8, 150).Draw(t, "votes")
		}
		if o.Kind == "replace" || o.Kind == "edit" || o.Kind == "vote" {
			switch rapid.IntRange(0, 5).Draw(t, "where") {
			case 0:
				o.Far, o.At = 1, rapid.SampledFrom([]uint64{0, 1, 1 << 20, 1 << 31, 1 << 32, 1 << 56, 1 << 57, 1<<63 - 300, 1 << 63, 1<<64 - 300}).Draw(t, "beyond")
			case 1: // near the end
				o.Far, o.At = 1, ^uint64(rapid.IntRange(0, 3).Draw(t, "last"))
			default:
				o.Far, o.At = 2, uint64(rapid.OneOf(gen.Num(0, 1000), gen.Num(0, 70000)).Draw(t, "pos"))
			}
		}
		return o
	}), 1, maxOps, 150).Draw(t, "ops")
	if fit := 4 + 400000/(h.Many+1); len(h.Ops) > fit { // each reads the list again
		h.Ops = h.Ops[:fit]
	}
	return h
}

func clamp(v int) int { return max(-100, min(100, v)) }

func check(c history, x *kit.X) error {
	h := gen.Home(x.Dir())
	name := h.Board("test", ".DIR")
	kit.Must(os.MkdirAll(gen.Dir(name), 0755))
	var model [][]byte
	model = append(model, c.Init...)
	for i := 0; i < c.Many; i++ {
		r := gen.NewArticle(fmt.Sprintf("M.%d.A.000", i), "many", "", "")
		model = append(model, r)
	}
	exists := c.Exists
	if exists {
		kit.Write(name, gen.Join(model))
	}
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	conn := &pttbbs.Connector{}
	if err := conn.Open(string(h)); err != nil {
		return err
	}
	appends, updates := 0, 0
	for i, o := range c.Ops {
		step := fmt.Sprintf("step %d (%s)", i, o.Kind)
		at := o.At
		switch o.Far {
		case 1:
			at += uint64(len(model))
		case 2:
			if len(model) > 0 {
				at %= uint64(len(model))
			}
		}
		ok := exists && at < uint64(len(model))
		var before []byte
		if exists {
			before = kit.ReadFile(name)
		}
		switch o.Kind {
		case "append":
			a, err := pttbbs.NewFileHeaderWithByte(append([]byte{}, o.Rec...))
			if err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			if err := pttbbs.AppendFileHeaderFileRecord(name, a); err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			model = append(model, o.Rec)
			exists = true
			appends++
		case "post":
			v := func(n string) string { return l.Find(n).Value(o.Rec).(string) }
			a, err := conn.NewArticleRecord(v("filename"), v("owner"), v("date"), v("title"))
			if err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			if err := db.AddArticleRecordFileRecord("test", a); err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			model = append(model, gen.NewArticle(v("filename"), v("owner"), v("date"), v("title")))
			exists = true
			appends++
		case "replace", "edit", "vote":
			var a *pttbbs.FileHeader
			var want []byte
			if o.Kind == "replace" {
				if a, err = pttbbs.NewFileHeaderWithByte(append([]byte{}, o.Rec...)); err != nil {
					return fmt.Errorf("%s: %w", step, err)
				}
				want = o.Rec
			} else if ok {
				// what an user of the library does: read, change, write back
				rs, err := pttbbs.OpenFileHeaderFile(name)
				if err != nil {
					return fmt.Errorf("%s: %w", step, err)
				}
				if uint64(len(rs)) <= at {
					return fmt.Errorf("%s: %d records are read instead of %d", step, len(rs), len(model))
				}
				a = rs[at]
				want = append([]byte{}, model[at]...)
				if o.Kind == "edit" {
					a.SetTitle(o.Text)
					l.Find("title").PutText(want, o.Text)
				}
				for _, v := range o.Votes {
					n := clamp(a.Recommend() + int(v))
					a.AddRecommend(v)
					if a.Recommend() != n {
						return fmt.Errorf("%s: %d votes lead to %d instead of %d", step, v, a.Recommend(), n)
					}
					want[33] = byte(int8(n))
					x.LabelIf(n == 100 || n == -100, "votes at a limit")
				}
			} else {
				a = pttbbs.NewFileHeader()
				a.SetTitle(o.Text)
			}
			if i%2 == 0 {
				err = conn.UpdateArticleRecordFileRecord(name, uint(at), a)
			} else {
				err = pttbbs.UpdateFileHeaderFileRecord(name, uint(at), a)
			}
			if ok {
				if err != nil {
					return fmt.Errorf("%s at %d of %d: %w", step, at, len(model), err)
				}
				model[at] = want
				updates++
			} else {
				x.Label("replacement of nothing")
				if err == nil {
					return fmt.Errorf("%s: replacing record %d of %d succeeds", step, at, len(model))
				}
				if exists && string(kit.ReadFile(name)) != string(before) {
					return fmt.Errorf("%s: replacing record %d of %d changes the index", step, at, len(model))
				}
			}
		}
		if !exists {
			if _, err := os.Stat(name); !errors.Is(err, os.ErrNotExist) {
				return fmt.Errorf("%s: the index came into being: %v", step, err)
			}
			continue
		}
		raw := kit.ReadFile(name)
		if len(raw) != len(model)*l.Size {
			return fmt.Errorf("%s: the index of %d records has %d bytes", step, len(model), len(raw))
		}
		for j, w := range model {
			if err := l.Diff(w, raw[j*l.Size:(j+1)*l.Size]); err != nil {
				return fmt.Errorf("%s: stored record %d: %w", step, j, err)
			}
		}
		got, err := db.ReadBoardArticleRecordsFile("test")
		if err != nil {
			return fmt.Errorf("%s: reading: %w", step, err)
		}
		if len(got) != len(model) {
			return fmt.Errorf("%s: %d records are read instead of %d", step, len(got), len(model))
		}
		for j, g := range got {
			if err := rec.Compare(l, model[j], rec.Article(g.(*pttbbs.FileHeader))); err != nil {
				return fmt.Errorf("%s: record %d: %w", step, j, err)
			}
		}
	}
	x.NonTrivial(appends >= 1 && updates >= 1)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C12",
		Rule:        "a case is an index of up to 203 records (66 003 in the second arm) and a history of up to 12 appends, replacements, edits and votes in and outside of it, after each of which the index is compared with the model; it is non-trivial when at least one record was appended and at least one replaced",
		Assumptions: []string{"stored vote counts are within -100 and +100"},
		Arms: []kit.Arm{
			kit.NewArm("histories", 4000, 150000, draw, check),
			kit.NewArm("long lists", 40, 1500, drawLong, check),
		},
	})
}
