// C13: a record torn by a crash is skipped and does not shift later records.
package main

import (
	"bytes"
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type crash struct {
	Torn  []byte   // the record whose writing the crash cut short
	Shift int      // added to the enumerated length, so that several crashes differ
	After [][]byte // what is appended after it
	Edit  int      // the record which is updated or removed before that, counted from 1; 0 for none
	New   []byte   // what it is updated to
}

type history struct {
	Kind    string
	Before  [][]byte
	Crashes []crash
}

func records(t *rapid.T, l *gen.Layout, lo, hi int, name string) [][]byte {
	return gen.Echo(t, rapid.SliceOfN(l.Record(), lo, hi).Draw(t, name))
}

func draw(kind string) func(t *rapid.T) history {
	return func(t *rapid.T) history {
		l := rec.KindOf(kind).L
		h := history{Kind: kind, Before: records(t, l, 0, 4, "before")}
		n := rapid.IntRange(1, 2).Draw(t, "crashes")
		for i := 0; i < n; i++ {
			c := crash{Torn: records(t, l, 1, 1, "torn")[0], After: records(t, l, 0, 2, "after")}
			if i > 0 {
				c.Shift = gen.Num(0, 255).Draw(t, "shift")
			}
			if rapid.Bool().Draw(t, "edit?") {
				c.Edit = gen.Num(1, 5).Draw(t, "edit")
			}
			c.New = records(t, l, 1, 1, "new")[0]
			h.Crashes = append(h.Crashes, c)
		}
		return h
	}
}

func check(c history, x *kit.X) error {
	l := rec.KindOf(c.Kind).L
	h := gen.Home(x.Dir())
	name := h.Boards()
	if c.Kind == "article" {
		name = h.Board("test", ".DIR")
	}
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	appends := 0
	for _, cr := range c.Crashes {
		appends += len(cr.After)
	}
	x.NonTrivial(len(c.Before) > 0 && appends > 0)
	x.LabelIf(len(c.Crashes) > 1, "several crashes")

	for torn := 1; torn < l.Size; torn++ {
		model := append([][]byte{}, c.Before...)
		kit.Write(name, gen.Join(model))
		for i, cr := range c.Crashes {
			n := (torn-1+cr.Shift)%(l.Size-1) + 1
			at := fmt.Sprintf("%d records, crash %d after %d bytes", len(model), i, n)
			raw := kit.ReadFile(name)
			if len(raw)%l.Size != 0 {
				return fmt.Errorf("%s: the file had %d bytes", at, len(raw))
			}
			kit.Write(name, append(raw, cr.Torn[:n]...))
			if err := read(db, c.Kind, l, model); err != nil {
				return fmt.Errorf("%s, reading: %w", at, err)
			}
			if model, err = edit(db, c.Kind, l, name, model, cr); err != nil {
				return fmt.Errorf("%s, %w", at, err)
			}
			for j, r := range cr.After {
				if err := appendTo(db, c.Kind, name, r, j); err != nil {
					return fmt.Errorf("%s, append %d: %w", at, j, err)
				}
				model = append(model, r)
				if err := read(db, c.Kind, l, model); err != nil {
					return fmt.Errorf("%s, append %d: %w", at, j, err)
				}
			}
			if len(cr.After) == 0 && i+1 < len(c.Crashes) {
				// the next crash needs whole records again: nothing was appended
				kit.Write(name, gen.Join(model))
			}
		}
	}
	return nil
}

// edit updates an article or removes a board while the torn record is there; the torn record itself is none
func edit(db *bbs.DB, kind string, l *gen.Layout, name string, model [][]byte, cr crash) ([][]byte, error) {
	change := func(at int) error {
		if kind == "board" {
			return pttbbs.RemoveBoardHeaderFileRecord(name, at)
		}
		a, err := pttbbs.NewFileHeaderWithByte(append([]byte{}, cr.New...))
		kit.Must(err)
		return pttbbs.UpdateFileHeaderFileRecord(name, uint(at), a)
	}
	before := kit.ReadFile(name)
	if err := change(len(model)); err == nil {
		return nil, fmt.Errorf("a change of the torn record was not refused")
	}
	if !bytes.Equal(kit.ReadFile(name), before) {
		return nil, fmt.Errorf("a refused change of the torn record changed the file")
	}
	if cr.Edit > 0 && len(model) > 0 {
		at := (cr.Edit - 1) % len(model)
		if err := change(at); err != nil {
			return nil, fmt.Errorf("change of record %d: %w", at, err)
		}
		model = append([][]byte{}, model...)
		if kind == "board" {
			model = append(model[:at], model[at+1:]...)
		} else {
			model[at] = cr.New
		}
		if err := read(db, kind, l, model); err != nil {
			return nil, fmt.Errorf("change of record %d: %w", at, err)
		}
	}
	return model, nil
}

func appendTo(db *bbs.DB, kind, name string, r []byte, j int) error {
	in := append([]byte{}, r...)
	if kind == "board" {
		b, err := pttbbs.UnmarshalBoardHeader(in)
		if err != nil {
			return err
		}
		if j%2 == 0 {
			return db.AddBoardRecord(b)
		}
		return pttbbs.AppendBoardHeaderFileRecord(name, b)
	}
	a, err := pttbbs.NewFileHeaderWithByte(in)
	if err != nil {
		return err
	}
	if j%2 == 0 {
		return db.AddArticleRecordFileRecord("test", a)
	}
	return pttbbs.AppendFileHeaderFileRecord(name, a)
}

func read(db *bbs.DB, kind string, l *gen.Layout, model [][]byte) error {
	var vs []rec.Values
	if kind == "board" {
		rs, err := db.ReadBoardRecords()
		if err != nil {
			return err
		}
		for _, r := range rs {
			vs = append(vs, rec.Board(r.(*pttbbs.BoardHeader)))
		}
	} else {
		rs, err := db.ReadBoardArticleRecordsFile("test")
		if err != nil {
			return err
		}
		for _, r := range rs {
			vs = append(vs, rec.Article(r.(*pttbbs.FileHeader)))
		}
	}
	if len(vs) != len(model) {
		return fmt.Errorf("%d records are read instead of %d", len(vs), len(model))
	}
	for i, v := range vs {
		if err := rec.Compare(l, model[i], v); err != nil {
			return fmt.Errorf("record %d: %w", i, err)
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID: "C13", Level: "fault_enumeration",
		Rule: "a case is a board list or article index, one or two crashes with the record each of them tears, which record is then updated or removed, and what is appended after each; every torn length from 1 to the record length less 1 is tried. It is non-trivial when there are records before the crash and appends after it.",
		Assumptions: []string{
			"a crash leaves a prefix of the record; sectors are not reordered",
			"nobody else appends while the torn record is there",
		},
		Arms: []kit.Arm{
			kit.NewArm("board list", 120, 6000, draw("board"), check),
			kit.NewArm("article index", 240, 12000, draw("article"), check),
		},
	})
}
