// C06: over-long values never spill into neighbouring fields or change the record size.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type longCase struct {
	Rec    []byte
	Fields []string // which get an over-long text
	Texts  []string
	Repeat []int // how often the text is repeated
}

var settable = map[string][]string{
	"board":   {"brdname", "title", "posttype", "chesscountry", "posttype_f"},
	"article": {"filename", "owner", "date", "title"},
	"user":    {"email", "address", "justify", "career", "myangel"},
}

func wide(f gen.Field) bool { return f.Kind == gen.Big5 || f.Kind == gen.Packed }

func long(t *rapid.T, f gen.Field) (string, int) {
	over := rapid.OneOf(rapid.IntRange(0, 3), gen.Num(0, 60)).Draw(t, "over")
	n := f.Size + over // bytes, at least the whole field without a NUL
	var s string
	if wide(f) {
		s = gen.Text(n).Draw(t, "text")
	} else {
		s = gen.Ascii(n).Draw(t, "text")
	}
	s += strings.Repeat("x", n) // at least n bytes
	rep := 1
	if rapid.IntRange(0, 5).Draw(t, "huge?") == 0 {
		rep = gen.Num(2, 40).Draw(t, "repeat")
	}
	return s, rep
}

func draw(l *gen.Layout, names []string) func(t *rapid.T) longCase {
	return func(t *rapid.T) longCase {
		c := longCase{Rec: l.Record().Draw(t, "rec")}
		mask := gen.Num(1, 1<<len(names)-1).Draw(t, "fields")
		if rapid.Bool().Draw(t, "one") {
			mask = 1 << gen.Num(0, len(names)-1).Draw(t, "field")
		}
		for i, n := range names {
			if mask>>i&1 == 1 {
				s, rep := long(t, l.Find(n))
				c.Fields = append(c.Fields, n)
				c.Texts = append(c.Texts, s)
				c.Repeat = append(c.Repeat, rep)
			}
		}
		return c
	}
}

// judge compares the written record with the one of short values
func judge(l *gen.Layout, c longCase, out []byte) error {
	if len(out) != l.Size {
		return fmt.Errorf("%s: the record has %d bytes instead of %d", l.Name, len(out), l.Size)
	}
	longs := map[string]string{}
	for i, n := range c.Fields {
		longs[n] = strings.Repeat(c.Texts[i], c.Repeat[i])
	}
	for _, f := range l.Fields {
		got := out[f.Off : f.Off+f.Size]
		s, isLong := longs[f.Name]
		if !isLong {
			if !f.Equal(c.Rec, out) {
				return fmt.Errorf("%s: with over-long %v, field %s at %d changed from %x to %x", l.Name, c.Fields, f.Name, f.Off, c.Rec[f.Off:f.Off+f.Size], got)
			}
			continue
		}
		enc := []byte(s)
		if wide(f) {
			enc = gen.MustBig5(s)
		}
		val := gen.CString(got)
		if !bytes.HasPrefix(enc, val) || len(val) < f.Size-2 {
			return fmt.Errorf("%s: over-long field %s holds %x, which are not the leading bytes of %x", l.Name, f.Name, got, enc[:min(len(enc), f.Size+4)])
		}
	}
	return nil
}

func arm(name string, quick, thorough int, l *gen.Layout, write func(c longCase) ([]byte, error)) kit.Arm {
	return kit.NewArm(name, quick, thorough, draw(l, settable[name]), func(c longCase, x *kit.X) error {
		x.NonTrivial(l.Distinct(c.Rec) >= 3)
		for _, n := range c.Fields {
			x.Label(n)
		}
		out, err := write(c)
		if err != nil {
			return fmt.Errorf("encode: %w", err)
		}
		return judge(l, c, out)
	})
}

type titleCase struct {
	Before, After gen.Fav
	Title         string
	Repeat        int
}

func main() {
	kit.Main(kit.Property{
		ID:   "C06",
		Rule: "a case is a record and one or more of its text fields with texts of at least the field's size (up to some thousand bytes); it is non-trivial when at least 3 different numbers other than 0 and -1 are stored in the other fields (or, for favourites, there are other entries)",
		Assumptions: []string{
			"the over-long field may be cut at a character or leave room for its NUL, so it must hold at least its size less two of the leading bytes",
			"nickname, names, id and password of an account have no setter and cannot become over-long",
		},
		Arms: kit.Arms(40, 2000, 100,
			arm("board", 15000, 300000, gen.Board, func(c longCase) ([]byte, error) {
				b, err := pttbbs.UnmarshalBoardHeader(append([]byte{}, c.Rec...))
				if err != nil {
					return nil, err
				}
				for i, n := range c.Fields {
					s := strings.Repeat(c.Texts[i], c.Repeat[i])
					switch n {
					case "brdname":
						b.SetBoardID(s)
					case "title":
						b.SetTitle(s)
					default:
						*(rec.Board(b)[n].(*string)) = s
					}
				}
				return b.MarshalBinary()
			}),
			arm("article", 15000, 300000, gen.Article, func(c longCase) ([]byte, error) {
				a, err := pttbbs.NewFileHeaderWithByte(append([]byte{}, c.Rec...))
				if err != nil {
					return nil, err
				}
				for i, n := range c.Fields {
					s := strings.Repeat(c.Texts[i], c.Repeat[i])
					switch n {
					case "filename":
						a.SetFilename(s)
					case "owner":
						a.SetOwner(s)
					case "date":
						a.SetDate(s)
					case "title":
						a.SetTitle(s)
					}
				}
				return a.MarshalToByte()
			}),
			arm("user", 8000, 200000, gen.User, func(c longCase) ([]byte, error) {
				u, err := pttbbs.UnmarshalUserec(append([]byte{}, c.Rec...))
				if err != nil {
					return nil, err
				}
				for i, n := range c.Fields {
					*(rec.User(u)[n].(*string)) = strings.Repeat(c.Texts[i], c.Repeat[i])
				}
				return u.MarshalBinary()
			}),
			kit.NewArm("favourites", 5000, 100000, func(t *rapid.T) titleCase {
				board := rapid.Map(gen.U(32), func(u uint64) uint32 { return uint32(u) })
				s, rep := long(t, gen.Field{Size: 49, Kind: gen.Big5})
				return titleCase{gen.FavTree(2, board).Draw(t, "before"), gen.FavTree(2, board).Draw(t, "after"), s, rep}
			}, func(c titleCase, x *kit.X) error {
				x.NonTrivial(len(c.Before) > 0 && len(c.After) > 0)
				tree := append(append(append(gen.Fav{}, c.Before...), gen.FavEntry{Kind: gen.FavFolder, Sub: gen.Fav{{Kind: gen.FavLine, ID: 1}}}), c.After...).Numbered()
				at := len(c.Before)
				s := strings.Repeat(c.Title, c.Repeat)
				f := rec.NewFav(tree)
				f.FavItems[at].GetFolder().Title = s
				out, err := (&pttbbs.FavFile{Version: 3363, Folder: f}).MarshalBinary()
				if err != nil {
					return fmt.Errorf("encode: %w", err)
				}
				short := gen.EncodeFav(3363, tree)
				if len(out) != len(short) {
					return fmt.Errorf("the file has %d bytes with an over-long title and %d with a short one", len(out), len(short))
				}
				// where the title lies: behind the version, the counts and the entries before it
				off := 2 + 4 + 2 + 1
				for _, e := range tree[:at] {
					off += 2 + map[int]int{gen.FavBoard: 12, gen.FavLine: 1, gen.FavFolder: 50}[e.Kind]
				}
				enc := gen.MustBig5(s)
				val := gen.CString(out[off : off+49])
				if !bytes.HasPrefix(enc, val) || len(val) < 47 {
					return fmt.Errorf("the over-long title is stored as %x, which are not the leading bytes of %x", out[off:off+49], enc[:60])
				}
				copy(out[off:off+49], short[off:off+49])
				_, got, loose, err := gen.FavParse(out)
				if err != nil || loose {
					return fmt.Errorf("the file with an over-long title is damaged: %v", err)
				}
				return gen.FavDiff(tree, got)
			}),
		),
	})
}
