// C34: shared-memory readers return the values of the documented layout.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs/cache"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// config is a server configuration with the contents of its shared memory
type config struct {
	Align, Users, IDLen, HashBits, Online int
	CoolDown                              bool
	Noise                                 uint64 // what is in the region beside the ids
	IDs                                   map[int]string
	Extra                                 int
	Form                                  int
	Change                                uint64
}

func draw(t *rapid.T) config {
	c := config{
		Align: rapid.SampledFrom([]int{1, 1, 2, 2, 4, 8}).Draw(t, "align"), IDLen: rapid.OneOf(rapid.Just(12), gen.Num(2, 20)).Draw(t, "idlen"),
		Users:    rapid.OneOf(gen.Num(1, 12), rapid.SampledFrom([]int{1, 50, 51, 500}), gen.Num(1, 300)).Draw(t, "users"),
		HashBits: rapid.OneOf(rapid.IntRange(0, 8), rapid.SampledFrom([]int{12, 16})).Draw(t, "hashbits"), Online: rapid.IntRange(1, 5).Draw(t, "online"),
		CoolDown: rapid.Bool().Draw(t, "cooldown"), Noise: rapid.Uint64().Draw(t, "noise"), Change: rapid.Uint64().Draw(t, "change"),
		Extra: rapid.SampledFrom([]int{0, 0, 1, 1000}).Draw(t, "extra"), Form: rapid.IntRange(0, 1).Draw(t, "form"),
	}
	if rapid.IntRange(0, 399).Draw(t, "many?") == 0 {
		c.Users = rapid.SampledFrom([]int{1 << 12, 1 << 15, 1 << 16, 70000, 150000}).Draw(t, "many") + rapid.IntRange(-1, 1).Draw(t, "off")
		c.Online = rapid.SampledFrom([]int{5, 60, 130}).Draw(t, "many online")
	}
	c.IDs = map[int]string{}
	for i := gen.Num(0, 12).Draw(t, "ids"); i > 0; i-- {
		id := gen.ID().Draw(t, "id")
		c.IDs[rapid.OneOf(gen.Num(0, c.Users-1), rapid.Just(c.Users-1), rapid.Just(0)).Draw(t, "uid")] = id[:min(len(id), c.IDLen)]
	}
	return c
}

// layout is where things are, walking through SHM_t of pttstruct.h
type layout struct{ id, money, online, size int }

func (c config) layout() (l layout) {
	at := 0
	put := func(n int) int { at += n; return at - n }
	put(4)                              // version
	put(4)                              // size
	l.id = put(c.Users * (c.IDLen + 1)) // userid
	put(c.IDLen + 1)                    // gap_1
	for at%c.Align != 0 {
		at++
	}
	put(c.Users * 4)           // next_in_hash
	put(4)                     // gap_2
	l.money = put(c.Users * 4) // money
	put(4)                     // gap_3
	if c.CoolDown {
		put(c.Users * 4) // cooldowntime
	}
	put(4)                          // gap_4
	put(4 << c.HashBits)            // hash_head
	put(4)                          // gap_5
	put(4)                          // number
	put(4)                          // loaded
	l.online = put(c.Online * 3484) // uinfo
	l.size = at
	return l
}

func (c config) fill(seed uint64) []byte {
	l := c.layout()
	b := make([]byte, l.size+c.Extra)
	gen.Noise(b, seed)
	for i := 0; i < c.Online; i++ {
		r := b[l.online+3484*i:][:3484]
		for _, f := range gen.Online.Fields {
			if f.IsText() {
				s := fmt.Sprintf("%d.%x", i, seed)
				f.PutText(r, s[:min(len(s), f.Size-1, 9)])
			}
		}
	}
	for u, id := range c.IDs {
		s := b[l.id+u*(c.IDLen+1):][:c.IDLen+1]
		copy(s, id)
		s[len(id)] = 0 // what follows is stale
	}
	return b
}

func agrees(c config, raw []byte, shm *pttbbs.Cache) error {
	l := c.layout()
	if v, w := shm.Version(), (gen.Field{Name: "version", Size: 4}).Value(raw); uint64(v) != w.(uint64) {
		return fmt.Errorf("version %d instead of %d", v, w)
	}
	for u := 0; u < c.Users; u++ {
		if got, want := shm.UserID(u), gen.CString(raw[l.id+u*(c.IDLen+1):][:c.IDLen+1]); got != string(want) {
			return fmt.Errorf("the id of user %d of %d is read as %q instead of %q", u, c.Users, got, want)
		}
		if got, want := shm.Money(u), (gen.Field{Off: l.money + 4*u, Size: 4, Kind: gen.Int}).Value(raw).(int64); int64(got) != want {
			return fmt.Errorf("the money of user %d of %d is read as %d instead of %d", u, c.Users, got, want)
		}
	}
	for i := 0; i < c.Online; i++ {
		if err := rec.Compare(gen.Online, raw[l.online+3484*i:][:3484], rec.Online(shm.UserInfo(i))); err != nil {
			return fmt.Errorf("online record %d of %d: %w", i, c.Online, err)
		}
	}
	return nil
}

func check(c config, x *kit.X) error {
	name := filepath.Join(x.Dir(), "shm")
	raw := c.fill(c.Noise)
	kit.Write(name, raw)
	if c.Form == 1 {
		name = "file:" + name
	}
	shm, err := pttbbs.NewCache(name, &pttbbs.MemoryMappingSetting{AlignmentBytes: c.Align, MaxUsers: c.Users, IDLen: c.IDLen, UseCoolDown: c.CoolDown, HashBits: c.HashBits})
	if err != nil {
		return err
	}
	defer shm.Close()
	if len(shm.Bytes()) != len(raw) {
		return fmt.Errorf("the region has %d bytes instead of %d", len(shm.Bytes()), len(raw))
	}
	if err := agrees(c, raw, shm); err != nil {
		return err
	}
	// the server changes its memory
	raw = c.fill(c.Change)
	f, err := os.OpenFile(filepath.Join(x.Dir(), "shm"), os.O_WRONLY, 0)
	kit.Must(err)
	_, err = f.WriteAt(raw, 0)
	kit.Must(err)
	kit.Must(f.Close())
	if err := agrees(c, raw, shm); err != nil {
		return fmt.Errorf("after the memory changed: %w", err)
	}
	x.NonTrivial(len(c.IDs) >= 2)
	return nil
}

func checkBad(c config, x *kit.X) error {
	if shm, err := pttbbs.NewCache(filepath.Join(x.Dir(), "shm"), &pttbbs.MemoryMappingSetting{AlignmentBytes: c.Align, MaxUsers: c.Users, IDLen: c.IDLen}); err == nil {
		return fmt.Errorf("a missing region is opened: %v", shm)
	}
	x.NonTrivial(true)
	return nil
}

var _ cache.Cache = &pttbbs.Cache{}

func main() {
	kit.Main(kit.Property{
		ID:          "C34",
		Rule:        "a case is a server configuration (alignment, users, id length, hash bits, cool-down table) with a region full of noise, in which some slots hold ids; the version, all ids, all money and up to five online records are read, and read again after the region changed. It is non-trivial when at least two slots hold drawn ids",
		Assumptions: []string{"user numbers are within the configuration", "the layout is that of SHM_t with the alignment the caller states"},
		Arms: []kit.Arm{
			kit.NewArm("configurations", 3000, 120000, draw, check),
			kit.NewArm("missing", 20, 100, draw, checkBad),
			kit.Together(20, 1000, draw, check),
		},
	})
}
