// C32: drafts are independent slots that hold exactly what was saved last.
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type op struct {
	Kind    int // 0 save, 1 read, 2 delete
	User    int
	Slot    int
	Content []byte
	Fresh   bool
	Size    int // of content made from Noise
	Noise   uint64
	Near    uint64 // if set the content is near the one which is saved (see gen.Near)
}

type history struct {
	Users []string
	Slots []string
	Ops   []op

	huge bool
}

func draw(t *rapid.T) history {
	c := history{
		Users: rapid.SliceOfNDistinct(rapid.OneOf(gen.ID(), rapid.SampledFrom([]string{"aa", "Aa", "aaa", "ab"})), 1, 3, rapid.ID).Draw(t, "users"),
		Slots: rapid.SliceOfNDistinct(rapid.OneOf(rapid.SampledFrom([]string{"0", "1", "2", "9", "a", "10", "00", "draft-no-1", "draft-no-10", "draft-no-11", "draft.no.10", "draft", strings.Repeat("d", 60) + "1", strings.Repeat("d", 60) + "2"}), gen.Match(`[0-9a-z]{1,3}`)), 1, 4, rapid.ID).Draw(t, "slots"),
	}
	c.Ops = gen.ListOf(rapid.Custom(func(t *rapid.T) op {
		o := op{Kind: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "kind"), User: gen.Num(0, len(c.Users)-1).Draw(t, "user"), Slot: gen.Num(0, len(c.Slots)-1).Draw(t, "slot"), Fresh: rapid.IntRange(0, 3).Draw(t, "fresh") == 0}
		if o.Kind == 0 {
			o.Content = gen.Bytes(rapid.SampledFrom([]int{0, 0, 3, 3, 3, 40, 40, 5000, 5000, 70000}).Draw(t, "max")).Draw(t, "content")
			if rapid.IntRange(0, 2).Draw(t, "near?") == 0 {
				o.Near = rapid.Uint64().Draw(t, "near")
			}
		}
		if o.Kind == 0 && !c.huge && rapid.IntRange(0, 299).Draw(t, "huge?") == 0 { // once in a history: around a power of two
			c.huge = true
			o.Content, o.Noise = nil, rapid.Uint64().Draw(t, "noise")
			o.Size = 1<<gen.Num(12, 22).Draw(t, "power") + rapid.IntRange(-1, 1).Draw(t, "off")
		}
		return o
	}), 2, 24, 150).Draw(t, "ops")
	return c
}

type slot struct{ user, slot int }

func check(c history, x *kit.X) error {
	h := gen.Home(x.Dir())
	for _, u := range c.Users {
		kit.Must(os.MkdirAll(gen.Dir(h.User(u, "x")), 0755))
		kit.Write(h.User(u, ".fav"), []byte("fav of "+u))
		kit.Write(h.User(u, "buf"), []byte("buf of "+u))
	}
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	model := map[slot][]byte{}
	again, deleted := false, false
	for i, o := range c.Ops {
		if o.Size > 0 {
			o.Content = make([]byte, o.Size)
			gen.Noise(o.Content, o.Noise)
		}
		if o.Fresh {
			if db, err = bbs.Open("pttbbs", string(h)); err != nil {
				return err
			}
		}
		s := slot{o.User, o.Slot}
		u, d := c.Users[o.User], c.Slots[o.Slot]
		old, saved := model[s]
		if o.Near != 0 && saved {
			o.Content = gen.Near(old, o.Near)
			x.Label("near")
		}
		switch o.Kind {
		case 0:
			in := append([]byte{}, o.Content...)
			draft := bbs.NewUserDraft(in)
			if err := db.WriteUserDraft(u, d, draft); err != nil {
				return fmt.Errorf("op %d: saving draft %s of %s: %w", i, d, u, err)
			}
			if !bytes.Equal(in, o.Content) || !bytes.Equal(draft.Raw(), o.Content) {
				return fmt.Errorf("op %d: saving changed the draft", i)
			}
			again = again || saved && len(o.Content) < len(old)
			model[s] = append([]byte{}, o.Content...)
		case 2:
			err := db.DeleteUserDraft(u, d)
			if (err == nil) != saved {
				return fmt.Errorf("op %d: deleting draft %s of %s (saved: %v) gives the error %v", i, d, u, saved, err)
			}
			deleted = deleted || saved
			delete(model, s)
		}
		for ui, u := range c.Users {
			for di, d := range c.Slots {
				got, err := db.GetUserDrafts(u, d)
				if err != nil {
					return fmt.Errorf("after op %d: reading draft %s of %s: %w", i, d, u, err)
				}
				if want := model[slot{ui, di}]; !bytes.Equal(got.Raw(), want) {
					return fmt.Errorf("after op %d: draft %s of %s holds %.100q instead of %.100q", i, d, u, got.Raw(), want)
				}
			}
			for _, f := range []string{".fav", "buf"} {
				if got := string(kit.ReadFile(h.User(u, f))); got != f[len(f)-3:]+" of "+u {
					return fmt.Errorf("after op %d: the file %s of %s became %q", i, f, u, got)
				}
			}
		}
	}
	x.NonTrivial(again && len(model) > 1)
	x.LabelIf(deleted, "with a deletion")
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C32",
		Rule: "a case is a history of saving, reading and deleting drafts of up to three users in up to four slots, with contents of up to 4 MiB; all slots are read after each step. It is non-trivial when a draft was replaced by a shorter one and another one is there",
		Arms: []kit.Arm{
			kit.NewArm("drafts", 4000, 150000, draw, check),
			kit.Together(60, 2500, draw, check),
		},
	})
}
