// C14: article files hold exactly what was written and then appended.
package main

import (
	"errors"
	"fmt"
	"os"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type op struct {
	Kind   string // write, append, read, reopen
	Board  int
	File   int
	Data   []byte
	Repeat int // the data is repeated so often
	Size   int // if set the data is so much noise instead
	Noise  uint64
	Near   uint64 // if set a write is of content near the one which is there (see gen.Near)
}

type history struct {
	Boards []string // the last one has no directory
	Files  []string
	Ops    []op

	huge bool
}

func (o op) data() []byte {
	if o.Size > 0 {
		b := make([]byte, o.Size)
		gen.Noise(b, o.Noise)
		return b
	}
	var b []byte
	for i := 0; i < o.Repeat; i++ {
		b = append(b, o.Data...)
	}
	return b
}

func draw(t *rapid.T) history {
	h := history{
		Boards: rapid.SliceOfNDistinct(gen.ID(), 2, 3, rapid.ID).Draw(t, "boards"),
		Files:  []string{"M.1.A.000", "M.1.A.001", "M.12.A.00F"},
	}
	h.Ops = gen.ListOf(rapid.Custom(func(t *rapid.T) op {
		o := op{
			Kind:  rapid.SampledFrom([]string{"write", "append", "write", "append", "read", "reopen"}).Draw(t, "op"),
			Board: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "board"), File: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "file"),
			Repeat: 1,
		}
		if o.Kind == "write" || o.Kind == "append" {
			o.Data = gen.Bytes(rapid.SampledFrom([]int{0, 10, 100, 3000}).Draw(t, "max")).Draw(t, "data")
			if o.Kind == "write" && rapid.IntRange(0, 2).Draw(t, "near?") == 0 {
				o.Near = rapid.Uint64().Draw(t, "near")
			}
			if rapid.IntRange(0, 9).Draw(t, "big?") == 0 {
				o.Repeat = gen.Num(2, 100).Draw(t, "repeat")
			}
			if !h.huge && rapid.IntRange(0, 299).Draw(t, "huge?") == 0 { // once in a history: around a power of two
				h.huge = true
				n := 1<<gen.Num(12, 22).Draw(t, "power") + rapid.IntRange(-1, 1).Draw(t, "off")
				o.Data, o.Repeat = o.Data[:0:0], 1
				o.Size = n
				o.Noise = rapid.Uint64().Draw(t, "noise")
			}
		}
		return o
	}), 3, 14, 150).Draw(t, "ops")
	return h
}

func check(c history, x *kit.X) error {
	h := gen.Home(x.Dir())
	last := len(c.Boards) - 1
	for _, b := range c.Boards[:last] {
		kit.Must(os.MkdirAll(gen.Dir(h.Board(b, "x")), 0755))
	}
	model := map[[2]int][]byte{}
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	shorter := false
	appended := false
	for i, o := range c.Ops {
		bi := min(o.Board, last)
		board, file := c.Boards[bi], c.Files[o.File]
		key := [2]int{bi, o.File}
		step := fmt.Sprintf("step %d (%s %s/%s)", i, o.Kind, board, file)
		old, exists := model[key]
		data := o.data()
		if o.Near != 0 && exists {
			data = gen.Near(old, o.Near)
			x.Label("near")
		}
		keep := append([]byte{}, data...)
		switch o.Kind {
		case "write":
			err := db.WriteBoardArticleFile(board, file, data)
			if bi == last {
				if err == nil {
					return fmt.Errorf("%s: writing to a board without directory succeeds", step)
				}
				break
			}
			if err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			if exists && len(data) < len(old) {
				shorter = true
			}
			model[key] = keep
		case "append":
			err := db.AppendBoardArticleFile(board, file, data)
			if !exists {
				if err == nil {
					return fmt.Errorf("%s: appending to an article which does not exist succeeds", step)
				}
				x.Label("append to nothing")
				break
			}
			if err != nil {
				return fmt.Errorf("%s: %w", step, err)
			}
			appended = appended || len(data) > 0
			model[key] = append(append([]byte{}, old...), keep...)
		case "reopen":
			if db, err = bbs.Open("pttbbs", "file://"+string(h)); err != nil {
				return err
			}
		}
		if string(data) != string(keep) {
			return fmt.Errorf("%s: the caller's data was changed", step)
		}
		// all articles are as the model says
		for b := range c.Boards {
			for f := range c.Files {
				want, exists := model[[2]int{b, f}]
				path := h.Board(c.Boards[b], c.Files[f])
				if !exists {
					if _, err := os.Lstat(path); err == nil || !errors.Is(err, os.ErrNotExist) {
						return fmt.Errorf("%s: %s/%s came into being", step, c.Boards[b], c.Files[f])
					}
					if b == bi && f == o.File {
						if got, err := db.ReadBoardArticleFile(c.Boards[b], c.Files[f]); err == nil {
							return fmt.Errorf("%s: an article which does not exist reads as %q", step, got)
						}
					}
					continue
				}
				got, err := db.ReadBoardArticleFile(c.Boards[b], c.Files[f])
				if err != nil {
					return fmt.Errorf("%s: reading %s/%s: %w", step, c.Boards[b], c.Files[f], err)
				}
				if string(got) != string(want) {
					n := 0
					for n < len(got) && n < len(want) && got[n] == want[n] {
						n++
					}
					return fmt.Errorf("%s: %s/%s has %d bytes instead of %d, they differ at %d", step, c.Boards[b], c.Files[f], len(got), len(want), n)
				}
			}
		}
	}
	x.NonTrivial(shorter && appended)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C14",
		Rule: "a case is a history of up to 14 writes and appends of any bytes (up to 300 kB, now and then up to 4 MiB) to three articles of two or three boards, the last of which has no directory; after each step every article is compared with the model. It is non-trivial when an article was rewritten with shorter content and another operation appended something.",
		Arms: []kit.Arm{kit.NewArm("histories", 6000, 200000, draw, check)},
	})
}
