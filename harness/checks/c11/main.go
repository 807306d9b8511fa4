// C11: the board list follows every history of additions and removals.
package main

import (
	"errors"
	"fmt"
	"os"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type op struct {
	Kind string // add (a decoded record), new (one made from values), args (one made by the database), remove, reopen
	Rec  []byte `json:",omitempty"`
	ID   string `json:",omitempty"`
	Text string `json:",omitempty"`
	At   int64  `json:",omitempty"` // position, or Far
	Far  int64  `json:",omitempty"` // added to the length of the list when set
}

type history struct {
	Exists bool
	Init   [][]byte
	Many   int // further records from a counter
	Ops    []op
}

var l = gen.Board

func draw(t *rapid.T) history { return drawOf(t, false) }

// long lists need positions of more than 8 and 16 bits
func drawLong(t *rapid.T) history { return drawOf(t, true) }

func drawOf(t *rapid.T, long bool) history {
	h := history{Exists: long || gen.Num(0, 9).Draw(t, "exists") > 0}
	if h.Exists {
		h.Init = gen.Echo(t, gen.ListOf(l.Record(), 0, 4, 20).Draw(t, "init"))
		if rapid.Bool().Draw(t, "many?") {
			h.Many = gen.Num(1, 60).Draw(t, "many")
		}
	}
	maxOps := 12
	if long {
		maxOps = 4
		h.Many = rapid.OneOf(gen.Num(256, 1100), gen.Num(256, 1100), gen.Num(4000, 5000), rapid.SampledFrom([]int{33000, 66000})).Draw(t, "long")
	}
	h.Ops = gen.ListOf(rapid.Custom(func(t *rapid.T) op {
		o := op{Kind: rapid.SampledFrom([]string{"remove", "remove", "add", "remove", "args", "new", "reopen"}).Draw(t, "op")}
		switch o.Kind {
		case "add", "new":
			o.Rec = l.Record().Draw(t, "rec")
		case "args":
			o.ID, o.Text = gen.ID().Draw(t, "id"), gen.Text(48).Draw(t, "title")
		case "remove":
			switch rapid.IntRange(0, 7).Draw(t, "where") {
			case 0:
				o.At = 0
			case 1: // the last one
				o.Far, o.At = 1, -1
			case 2: // outside
				o.Far, o.At = 1, rapid.SampledFrom([]int64{0, 1, 2, 1 << 20, 1 << 40, 1<<55 - 1}).Draw(t, "beyond")
			case 3:
				o.At = rapid.SampledFrom([]int64{-1, -2, -256, -1 << 40, -1 << 62}).Draw(t, "before")
			default: // modulo the length
				o.Far, o.At = 2, int64(rapid.OneOf(gen.Num(0, 1000), gen.Num(0, 70000)).Draw(t, "pos"))
			}
		}
		return o
	}), 1, maxOps, 150).Draw(t, "ops")
	if fit := 4 + 400000/(h.Many+1); len(h.Ops) > fit { // each reads the list again
		h.Ops = h.Ops[:fit]
	}
	return h
}

func check(c history, x *kit.X) error {
	h := gen.Home(x.Dir())
	name := h.Boards()
	var model [][]byte
	model = append(model, c.Init...)
	for i := 0; i < c.Many; i++ {
		r := gen.NewBoard(fmt.Sprintf("many%d", i), "")
		l.Find("nuser").Put(r, uint64(i))
		model = append(model, r)
	}
	exists := c.Exists
	if exists {
		kit.Write(name, gen.Join(model))
	}
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	adds, removes := 0, 0
	for i, o := range c.Ops {
		step := fmt.Sprintf("step %d (%s)", i, o.Kind)
		switch o.Kind {
		case "add":
			b, err := pttbbs.UnmarshalBoardHeader(append([]byte{}, o.Rec...))
			if err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			if i%2 == 0 {
				err = db.AddBoardRecord(b)
			} else {
				err = pttbbs.AppendBoardHeaderFileRecord(name, b)
			}
			if err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			model = append(model, o.Rec)
			exists = true
			adds++
		case "new":
			r := append([]byte{}, o.Rec...)
			l.Find("bm").PutText(r, "")
			if err := db.AddBoardRecord(rec.NewBoard(r)); err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			model = append(model, r)
			exists = true
			adds++
		case "args":
			b, err := db.NewBoardRecord(map[string]interface{}{"board_id": o.ID, "title": o.Text})
			if err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			if err := db.AddBoardRecord(b); err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			model = append(model, gen.NewBoard(o.ID, o.Text))
			exists = true
			adds++
		case "remove":
			at := o.At
			switch o.Far {
			case 1:
				at += int64(len(model))
			case 2:
				if len(model) > 0 {
					at %= int64(len(model))
				}
			}
			err := pttbbs.RemoveBoardHeaderFileRecord(name, int(at))
			ok := exists && at >= 0 && at < int64(len(model))
			x.LabelIf(!ok, "removal of nothing")
			if ok {
				if err != nil {
					return fmt.Errorf("%s %d of %d: %w", step, at, len(model), err)
				}
				model = append(append([][]byte{}, model[:at]...), model[at+1:]...)
				removes++
			} else if err == nil {
				return fmt.Errorf("%s: removing record %d of %d succeeds", step, at, len(model))
			}
		case "reopen":
			if db, err = bbs.Open("pttbbs", "file://"+string(h)); err != nil {
				return err
			}
		}
		if !exists {
			if _, err := os.Stat(name); !errors.Is(err, os.ErrNotExist) {
				return fmt.Errorf("%s: the list came into being: %v", step, err)
			}
			continue
		}
		raw := kit.ReadFile(name)
		if len(raw) != len(model)*l.Size {
			return fmt.Errorf("%s: the list of %d records has %d bytes", step, len(model), len(raw))
		}
		for j, w := range model {
			if err := l.Diff(w, raw[j*l.Size:(j+1)*l.Size]); err != nil {
				return fmt.Errorf("%s: stored record %d: %w", step, j, err)
			}
		}
		got, err := db.ReadBoardRecords()
		if err != nil {
			return fmt.Errorf("%s: reading: %w", step, err)
		}
		if len(got) != len(model) {
			return fmt.Errorf("%s: %d records are read instead of %d", step, len(got), len(model))
		}
		for j, g := range got {
			if err := rec.Compare(l, model[j], rec.Board(g.(*pttbbs.BoardHeader))); err != nil {
				return fmt.Errorf("%s: record %d: %w", step, j, err)
			}
		}
	}
	x.NonTrivial(adds >= 1 && removes >= 1)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C11",
		Rule: "a case is a list of up to 63 board records and a history of up to 12 additions and removals in and outside of it, after each of which the list is compared with the model; it is non-trivial when at least one record was added and at least one removed",
		Arms: []kit.Arm{
			kit.NewArm("histories", 4000, 150000, draw, check),
			kit.NewArm("long lists", 24, 1000, drawLong, check),
		},
	})
}
