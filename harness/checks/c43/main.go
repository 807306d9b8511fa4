// C43: each preference of a user is the state of its own flag bit.
package main

import (
	"encoding/binary"
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// bits of the flag word, as PTT's uflags.h has them
var bits = map[string]uint32{
	"favNohilight": 0x1, "favAddnew": 0x2, "dbanner": 0x40, "dbannerUsong": 0x80,
	"dbcsAware": 0x200, "dbcsNointresc": 0x400, "dbcsDropRepeat": 0x800,
	"noModmark": 0x1000, "coloredModmark": 0x2000, "defBackup": 0x10000, "newAngelPager": 0x20000,
	"rejOuttamail": 0x40000, "secureLogin": 0x80000, "menuLightbar": 0x1000000, "cursorASCII": 0x2000000,
}

type account struct {
	ID    string
	Flags uint32
	Bytes []byte // the account's record, but for id and flags
}

type flagCase struct {
	Accounts []account
	Unknown  []string
}

func (a account) record() []byte {
	r := append([]byte{}, a.Bytes...)
	f := gen.User.Find("uflag")
	binary.LittleEndian.PutUint32(r[f.Off:], a.Flags)
	gen.User.Find("userid").PutText(r, a.ID)
	return r
}

func genWord() *rapid.Generator[uint32] {
	return rapid.Custom(func(t *rapid.T) uint32 {
		w := rapid.Uint32().Draw(t, "word")
		switch rapid.IntRange(0, 3).Draw(t, "density") {
		case 0:
			w &= rapid.Uint32().Draw(t, "and") & rapid.Uint32().Draw(t, "and")
		case 1:
			w |= rapid.Uint32().Draw(t, "or") | rapid.Uint32().Draw(t, "or")
		}
		return w
	})
}

func check(c flagCase, x *kit.X) error {
	var us []bbs.UserRecord
	ids := map[string]bool{}
	for _, a := range c.Accounts {
		u, err := pttbbs.UnmarshalUserec(a.record())
		if err != nil {
			return fmt.Errorf("decode account %q: %w", a.ID, err)
		}
		us = append(us, u)
		ids[a.ID] = true
		x.NonTrivial(a.Flags != 0 && a.Flags != 1<<32-1)
	}
	for _, a := range c.Accounts {
		got, err := pttbbs.VerifFlags(us, a.ID)
		if err != nil {
			return fmt.Errorf("preferences of %q: %w", a.ID, err)
		}
		for name, bit := range bits {
			v, there := got[name]
			if !there {
				return fmt.Errorf("there is no preference %s of %q", name, a.ID)
			}
			if v != (a.Flags&bit != 0) {
				return fmt.Errorf("preference %s of %q with flags %#x is %v", name, a.ID, a.Flags, v)
			}
		}
	}
	for _, id := range c.Unknown {
		if ids[id] {
			continue
		}
		x.Label("unknown id")
		if got, err := pttbbs.VerifFlags(us, id); err == nil {
			return fmt.Errorf("preferences of %q, who has no account, are %v", id, got)
		}
	}
	return nil
}

func main() {
	blank := func(w uint32) flagCase {
		return flagCase{Accounts: []account{{ID: "SYSOP", Flags: w, Bytes: make([]byte, 512)}}}
	}
	kit.Main(kit.Property{
		ID:          "C43",
		Rule:        "a case is up to eight accounts with similar ids, drawn records and flag words of drawn density, with ids nobody has; it is non-trivial when a flag word is neither empty nor full. Besides, every word of one and of two bits and their complements",
		Assumptions: []string{"no two accounts share an id", "the function is reached through a file added to package pttbbs at build time"},
		Arms: []kit.Arm{
			kit.NewArm("accounts", 15000, 800000, func(t *rapid.T) flagCase {
				c := flagCase{}
				ids := gen.SimilarIDs().Draw(t, "ids")
				n := gen.Num(0, len(ids)).Draw(t, "n")
				for _, id := range ids[:n] {
					c.Accounts = append(c.Accounts, account{id, genWord().Draw(t, "flags"), gen.User.Record().Draw(t, "bytes")})
				}
				c.Unknown = append(append([]string{}, ids[n:]...), "", "nosuchuser")
				return c
			}, check),
			kit.NewArm("bits", 1, 1, func(t *rapid.T) [2]int { return [2]int{0, 32} }, func(c [2]int, x *kit.X) error {
				for one := c[0]; one < c[1]; one++ {
					for other := c[0]; other < c[1]; other++ {
						w := uint32(1)<<one | uint32(1)<<other
						if err := check(blank(w), x); err != nil {
							return err
						}
						if err := check(blank(^w), x); err != nil {
							return err
						}
					}
				}
				for _, w := range []uint32{0, ^uint32(0)} {
					if err := check(blank(w), x); err != nil {
						return err
					}
				}
				return nil
			}),
			kit.NewArm("words", 50000, 3000000, func(t *rapid.T) uint32 { return genWord().Draw(t, "word") }, func(w uint32, x *kit.X) error {
				return check(blank(w), x)
			}),
		},
	})
}
