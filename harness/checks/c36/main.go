// C36: board attributes, limits, moderators and class links read as stored.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// attribute of a board and its bit, from BRD_* of pttstruct.h
type attribute struct {
	name string
	bit  uint32
	get  func(*pttbbs.BoardHeader) bool
	// through the interface which the database returns, nil when it is not a part of that
	set func(bbs.BoardRecordSettings) bool
}

var attributes = []attribute{
	{"no count", 0x2, (*pttbbs.BoardHeader).IsNoCount, nil},
	{"group", 0x8, (*pttbbs.BoardHeader).IsGroupBoard, nil},
	{"class", 0x8, (*pttbbs.BoardHeader).IsClass, nil},
	{"hide", 0x10, (*pttbbs.BoardHeader).IsHide, bbs.BoardRecordSettings.IsHide},
	{"post mask", 0x20, (*pttbbs.BoardHeader).IsPostMask, bbs.BoardRecordSettings.IsPostMask},
	{"anonymous", 0x40, (*pttbbs.BoardHeader).IsAnonymous, bbs.BoardRecordSettings.IsAnonymous},
	{"default anonymous", 0x80, (*pttbbs.BoardHeader).IsDefaultAnonymous, bbs.BoardRecordSettings.IsDefaultAnonymous},
	{"no credit", 0x100, (*pttbbs.BoardHeader).IsNoCredit, bbs.BoardRecordSettings.IsNoCredit},
	{"vote board", 0x200, (*pttbbs.BoardHeader).IsVoteBoard, bbs.BoardRecordSettings.IsVoteBoard},
	{"warn", 0x400, (*pttbbs.BoardHeader).IsWarnEL, bbs.BoardRecordSettings.IsWarnEL},
	{"top", 0x800, (*pttbbs.BoardHeader).IsTop, bbs.BoardRecordSettings.IsTop},
	{"no recommend", 0x1000, (*pttbbs.BoardHeader).IsNoRecommend, bbs.BoardRecordSettings.IsNoRecommend},
	{"angel anonymous", 0x2000, (*pttbbs.BoardHeader).IsAngelAnonymous, bbs.BoardRecordSettings.IsAngelAnonymous},
	{"bm count", 0x4000, (*pttbbs.BoardHeader).IsBMCount, bbs.BoardRecordSettings.IsBMCount},
	{"symbolic", 0x8000, (*pttbbs.BoardHeader).IsIsSymbolic, nil},
	{"no boo", 0x10000, (*pttbbs.BoardHeader).IsNoBoo, bbs.BoardRecordSettings.IsNoBoo},
	{"restricted post", 0x40000, (*pttbbs.BoardHeader).IsRestrictedPost, bbs.BoardRecordSettings.IsRestrictedPost},
	{"guest post", 0x80000, (*pttbbs.BoardHeader).IsGuestPost, bbs.BoardRecordSettings.IsGuestPost},
	{"cooldown", 0x100000, (*pttbbs.BoardHeader).IsCooldown, bbs.BoardRecordSettings.IsCooldown},
	{"cp log", 0x200000, (*pttbbs.BoardHeader).IsCPLog, bbs.BoardRecordSettings.IsCPLog},
	{"no fast recommend", 0x400000, (*pttbbs.BoardHeader).IsNoFastRecommend, bbs.BoardRecordSettings.IsNoFastRecommend},
	{"ip log recommend", 0x800000, (*pttbbs.BoardHeader).IsIPLogRecommend, bbs.BoardRecordSettings.IsIPLogRecommend},
	{"over 18", 0x1000000, (*pttbbs.BoardHeader).IsOver18, bbs.BoardRecordSettings.IsOver18},
	{"no reply", 0x2000000, (*pttbbs.BoardHeader).IsNoReply, bbs.BoardRecordSettings.IsNoReply},
	{"aligned comment", 0x4000000, (*pttbbs.BoardHeader).IsAlignedComment, bbs.BoardRecordSettings.IsAlignedComment},
	{"no self delete", 0x8000000, (*pttbbs.BoardHeader).IsNoSelfDeletePost, bbs.BoardRecordSettings.IsNoSelfDeletePost},
	{"bm mask content", 0x10000000, (*pttbbs.BoardHeader).IsBMMaskContent, bbs.BoardRecordSettings.IsBMMaskContent},
}

func attributesOf(b *pttbbs.BoardHeader, word uint32) error {
	for _, a := range attributes {
		if got, want := a.get(b), word&a.bit != 0; got != want {
			return fmt.Errorf("attribute %q of the word %08x is %v", a.name, word, got)
		}
	}
	return nil
}

// board is what these properties are about; the rest of the record is noise
type board struct {
	Attr                   uint32
	BM                     string
	Gid                    int32
	Posts, Logins, Badpost uint8
	Vacant                 bool
}

func (b board) record(seed uint64) []byte {
	r := make([]byte, 256)
	gen.Noise(r, seed)
	for _, f := range gen.Board.Fields {
		if f.IsText() {
			f.PutText(r, "")
		}
	}
	if !b.Vacant {
		gen.Board.Find("brdname").PutText(r, "board")
	}
	gen.Board.Find("bm").PutText(r, b.BM)
	gen.Board.Find("brdattr").Put(r, uint64(b.Attr))
	gen.Board.Find("gid").Put(r, uint64(uint32(b.Gid)))
	gen.Board.Find("post_limit_posts").Put(r, uint64(b.Posts))
	gen.Board.Find("post_limit_logins").Put(r, uint64(b.Logins))
	gen.Board.Find("post_limit_badpost").Put(r, uint64(b.Badpost))
	return r
}

// split at slashes, without strings.Split
func split(s string) []string {
	if s == "" {
		return nil
	}
	out := []string{""}
	for _, c := range []byte(s) {
		if c == '/' {
			out = append(out, "")
		} else {
			out[len(out)-1] += string([]byte{c})
		}
	}
	return out
}

func (b board) agrees(r bbs.BoardRecord) error {
	h, ok := r.(*pttbbs.BoardHeader)
	if !ok {
		return fmt.Errorf("the record is a %T", r)
	}
	if err := attributesOf(h, b.Attr); err != nil {
		return err
	}
	s, ok := r.(bbs.BoardRecordSettings)
	if !ok {
		return fmt.Errorf("the record has no settings")
	}
	for _, a := range attributes {
		if a.set != nil && a.set(s) != (b.Attr&a.bit != 0) {
			return fmt.Errorf("setting %q of the word %08x is %v", a.name, b.Attr, a.set(s))
		}
	}
	if got, want := r.IsClass(), b.Attr&8 != 0; got != want {
		return fmt.Errorf("with the word %08x, being a class is %v", b.Attr, got)
	}
	if got, want := r.ClassID(), fmt.Sprintf("%d", b.Gid); got != want {
		return fmt.Errorf("the class is %q instead of %q", got, want)
	}
	got, want := r.BM(), split(b.BM)
	if len(got) != len(want) || strings.Join(got, "\n") != strings.Join(want, "\n") {
		return fmt.Errorf("the moderators stored as %q are %q", b.BM, got)
	}
	i, ok := r.(bbs.BoardRecordInfo)
	if !ok {
		return fmt.Errorf("the record has no information")
	}
	if i.GetPostLimitPosts() != b.Posts || i.GetPostLimitLogins() != b.Logins || i.GetPostLimitBadPost() != b.Badpost {
		return fmt.Errorf("the limits %d, %d, %d are read as %d, %d, %d", b.Posts, b.Logins, b.Badpost, i.GetPostLimitPosts(), i.GetPostLimitLogins(), i.GetPostLimitBadPost())
	}
	return nil
}

func drawBoard(t *rapid.T) board {
	b := board{Attr: uint32(gen.U(32).Draw(t, "attr")), Gid: gen.I32().Draw(t, "gid"), Vacant: gen.Num(0, 9).Draw(t, "vacant") == 0,
		Posts: uint8(gen.U(8).Draw(t, "posts")), Logins: uint8(gen.U(8).Draw(t, "logins")), Badpost: uint8(gen.U(8).Draw(t, "badpost"))}
	switch rapid.IntRange(0, 5).Draw(t, "bm") {
	case 0:
	case 1, 2, 3:
		b.BM = strings.Join(gen.ListOf(gen.ID(), 1, 5, 13).Draw(t, "bms"), "/")
	case 5: // as many as there is room for
		b.BM = strings.Join(gen.ListOf(gen.Match(`[A-Za-z][A-Za-z0-9]`), 10, 13, 13).Draw(t, "bms"), "/")
	case 4:
		b.BM = strings.Join(gen.ListOf(rapid.OneOf(rapid.SampledFrom([]string{"", "", "ab", " cd", "e", "[x]"}), gen.Ascii(12)), 1, 6, 13).Draw(t, "bms"), "/")
	}
	b.BM = b.BM[:min(len(b.BM), 38)]
	return b
}

type listCase struct {
	Boards []board
	Seed   uint64
}

func check(c listCase, x *kit.X) error {
	h := gen.Home(x.Dir())
	var raw []byte
	for i, b := range c.Boards {
		raw = append(raw, b.record(c.Seed+uint64(i))...)
		x.NonTrivial(b.Attr != 0 && b.Attr != 0xffffffff && strings.Contains(b.BM, "/"))
	}
	kit.Write(h.Boards(), raw)
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	rs, err := db.ReadBoardRecords()
	if err != nil {
		return err
	}
	if len(rs) != len(c.Boards) {
		return fmt.Errorf("%d boards are read as %d", len(c.Boards), len(rs))
	}
	for i, b := range c.Boards {
		if err := b.agrees(rs[i]); err != nil {
			return fmt.Errorf("board %d: %w", i, err)
		}
	}
	// and after they were written elsewhere
	name := filepath.Join(x.Dir(), "copy")
	for _, r := range rs {
		if err := pttbbs.AppendBoardHeaderFileRecord(name, r.(*pttbbs.BoardHeader)); err != nil {
			return err
		}
	}
	if len(rs) == 0 {
		return nil
	}
	hs, err := pttbbs.OpenBoardHeaderFile(name)
	if err != nil {
		return err
	}
	if len(hs) != len(c.Boards) {
		return fmt.Errorf("%d boards are copied as %d", len(c.Boards), len(hs))
	}
	for i, b := range c.Boards {
		if err := b.agrees(hs[i]); err != nil {
			return fmt.Errorf("board %d, copied: %w", i, err)
		}
	}
	return nil
}

// pairs: all words which differ from a base in one or two bits
type pairs struct{ Base uint32 }

func checkPairs(c pairs, x *kit.X) error {
	raw := board{}.record(uint64(c.Base))
	b, err := pttbbs.UnmarshalBoardHeader(raw)
	if err != nil {
		return err
	}
	for i := 0; i < 32; i++ {
		for j := i; j < 32; j++ {
			word := c.Base ^ (1<<i | 1<<j)
			b.Brdattr = word
			if err := attributesOf(b, word); err != nil {
				return err
			}
			gen.Board.Find("brdattr").Put(raw, uint64(word))
			d, err := pttbbs.UnmarshalBoardHeader(raw)
			if err != nil {
				return err
			}
			if err := attributesOf(d, word); err != nil {
				return fmt.Errorf("decoded: %w", err)
			}
		}
	}
	x.NonTrivial(true)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C36",
		Rule:        "a case is a board list with drawn attribute words, moderator lists, class numbers and limits in records full of noise, read through the database, also after writing the records to another file; or a base word, of which all 528 words that differ from it in one or two bits are checked (0 and -1 are always among the bases). It is non-trivial when the word is neither 0 nor -1 and there are several moderators",
		Assumptions: []string{"the bits are those of BRD_* in pttstruct.h"},
		Arms: kit.Arms(20, 1000, 10,
			kit.NewArm("lists", 3000, 150000, func(t *rapid.T) listCase {
				return listCase{gen.ListOf(rapid.Custom(drawBoard), 0, 8, 100).Draw(t, "boards"), rapid.Uint64().Draw(t, "seed")}
			}, check),
			kit.NewArm("bits", 150, 10000, func(t *rapid.T) pairs {
				return pairs{rapid.OneOf(rapid.Just(uint32(0)), rapid.Just(^uint32(0)), rapid.Uint32()).Draw(t, "base")}
			}, checkPairs),
		),
	})
}
