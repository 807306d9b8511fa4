package gen

import (
	"encoding/binary"
	"fmt"

	"pgregory.net/rapid"
)

// Kind of a field
type Kind int

const (
	Uint   Kind = iota // little endian, Size bytes
	Int                // the same, signed
	Time               // time4_t
	Bool               // one byte
	Ascii7             // C string, read as it is
	Big5               // C string in Big5
	Raw                // bytes
	Char               // one character, empty when NUL
	IDKind             // C string which is an id
	Packed             // Big5 text padded with NULs, with none inside
)

// Field of a record
type Field struct {
	Name string
	Off  int
	Size int
	Kind Kind
}

// IsText tells whether the field is a C string
func (f Field) IsText() bool {
	return f.Kind == Ascii7 || f.Kind == Big5 || f.Kind == IDKind || f.Kind == Packed
}

// Layout of a record
type Layout struct {
	Name   string
	Size   int
	Fields []Field
}

// Find returns the field of that name
func (l *Layout) Find(name string) Field {
	for _, f := range l.Fields {
		if f.Name == name {
			return f
		}
	}
	panic("gen: no field " + name)
}

// Value decodes the field from a record: uint64, int64, bool, string or []byte
func (f Field) Value(rec []byte) any {
	b := rec[f.Off : f.Off+f.Size]
	switch f.Kind {
	case Uint, Time:
		return f.uint(b)
	case Int:
		u := f.uint(b)
		shift := 64 - 8*f.Size
		return int64(u<<shift) >> shift
	case Bool:
		return b[0] != 0
	case Ascii7, IDKind:
		return string(CString(b))
	case Big5, Packed:
		s, ok := DecodeBig5(CString(b))
		if !ok {
			panic(fmt.Sprintf("gen: field %s holds no canonical text: %x", f.Name, b))
		}
		return s
	case Char:
		if b[0] == 0 {
			return ""
		}
		return string([]byte{b[0]})
	case Raw:
		return append([]byte{}, b...)
	}
	panic("gen: kind")
}

func (f Field) uint(b []byte) uint64 {
	switch f.Size {
	case 1:
		return uint64(b[0])
	case 2:
		return uint64(binary.LittleEndian.Uint16(b))
	case 4:
		return uint64(binary.LittleEndian.Uint32(b))
	}
	panic("gen: size of " + f.Name)
}

// Put stores a number
func (f Field) Put(rec []byte, v uint64) {
	for i := 0; i < f.Size; i++ {
		rec[f.Off+i] = byte(v >> (8 * i))
	}
}

// PutText stores text and its NUL, the bytes after it stay as they were. A text which fills
// the field has no NUL.
func (f Field) PutText(rec []byte, s string) {
	b := []byte(s)
	if f.Kind == Big5 || f.Kind == Packed {
		b = MustBig5(s)
	}
	if len(b) > f.Size {
		panic(fmt.Sprintf("gen: %q does not fit %s", s, f.Name))
	}
	copy(rec[f.Off:], b)
	if len(b) < f.Size {
		rec[f.Off+len(b)] = 0
	}
	if f.Kind == Packed {
		clear(rec[f.Off+len(b) : f.Off+f.Size])
	}
}

// Clean zeroes what follows the NUL of each text field
func (l *Layout) Clean(rec []byte) []byte {
	rec = append([]byte{}, rec...)
	for _, f := range l.Fields {
		if f.IsText() {
			n := len(CString(rec[f.Off : f.Off+f.Size]))
			for i := f.Off + n; i < f.Off+f.Size; i++ {
				rec[i] = 0
			}
		}
	}
	return rec
}

// Equal compares a defined field of two records: numbers by value, text up to its NUL
func (f Field) Equal(a, b []byte) bool {
	x, y := a[f.Off:f.Off+f.Size], b[f.Off:f.Off+f.Size]
	if f.IsText() {
		x, y = CString(x), CString(y)
	}
	if f.Kind == Bool {
		return (x[0] != 0) == (y[0] != 0)
	}
	return string(x) == string(y)
}

// Diff names the first defined field in which the records differ
func (l *Layout) Diff(want, got []byte) error {
	if len(got) != l.Size {
		return fmt.Errorf("%s: the record has %d bytes instead of %d", l.Name, len(got), l.Size)
	}
	for _, f := range l.Fields {
		if !f.Equal(want, got) {
			return fmt.Errorf("%s: field %s at %d: want bytes %x, got %x", l.Name, f.Name, f.Off, want[f.Off:f.Off+f.Size], got[f.Off:f.Off+f.Size])
		}
	}
	return nil
}

// Record draws a record: any padding, any value in each field, stale bytes behind texts.
func (l *Layout) Record() *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		rec := Fill(l.Size).Draw(t, "base")
		// most fields of a case are drawn, the others keep what the base has
		for _, f := range l.Fields {
			switch f.Kind {
			case Uint, Int, Time:
				if rapid.IntRange(0, 3).Draw(t, f.Name+"?") > 0 {
					f.Put(rec, U(8*f.Size).Draw(t, f.Name))
				}
			case Bool:
				// any byte but 0 is true
				rec[f.Off] = rapid.SampledFrom([]byte{0, 0, 1, 1, 2, 0x80, 0xff}).Draw(t, f.Name)
			case Ascii7:
				f.PutText(rec, Ascii(f.most(t)).Draw(t, f.Name))
			case IDKind:
				s := ID().Draw(t, f.Name)
				if rapid.IntRange(0, 9).Draw(t, "noid") == 0 {
					s = ""
				}
				f.PutText(rec, s)
			case Big5, Packed:
				f.PutText(rec, Text(f.most(t)).Draw(t, f.Name))
			case Char:
				rec[f.Off] = byte(rapid.IntRange(0x00, 0x7f).Draw(t, f.Name))
			case Raw:
				if rapid.Bool().Draw(t, f.Name+"?") {
					copy(rec[f.Off:f.Off+f.Size], Fill(f.Size).Draw(t, f.Name))
				}
			}
		}
		return rec
	})
}

// most is the size of the longest text: sometimes one without room for a NUL
func (f Field) most(t *rapid.T) int {
	// (the library always leaves justify its NUL)
	if rapid.IntRange(0, 7).Draw(t, "full") == 0 && f.Name != "justify" {
		return f.Size
	}
	return f.Size - 1
}

// Distinct counts the defined number fields with values other than 0 and -1, to tell rich records
func (l *Layout) Distinct(rec []byte) int {
	seen := map[string]bool{}
	for _, f := range l.Fields {
		if f.Kind == Uint || f.Kind == Int || f.Kind == Time {
			b := rec[f.Off : f.Off+f.Size]
			zero, ones := true, true
			for _, c := range b {
				zero = zero && c == 0
				ones = ones && c == 0xff
			}
			if !zero && !ones {
				seen[string(b)] = true
			}
		}
	}
	return len(seen)
}

func seq(fs []Field, name string, off, size, count int, k Kind) []Field {
	for i := 0; i < count; i++ {
		fs = append(fs, Field{fmt.Sprintf("%s%d", name, i), off + i*size, size, k})
	}
	return fs
}

// Board is boardheader_t of pttstruct.h
var Board = &Layout{"board", 256, []Field{
	{"brdname", 0, 13, IDKind}, {"title", 13, 49, Big5}, {"bm", 62, 39, Ascii7},
	{"brdattr", 104, 4, Uint}, {"chesscountry", 108, 1, Char},
	{"vote_limit_posts", 109, 1, Uint}, {"vote_limit_logins", 110, 1, Uint},
	{"bupdate", 112, 4, Time}, {"post_limit_posts", 116, 1, Uint}, {"post_limit_logins", 117, 1, Uint},
	{"bvote", 119, 1, Uint}, {"vtime", 120, 4, Time}, {"level", 124, 4, Uint}, {"perm_reload", 128, 4, Time},
	{"gid", 132, 4, Int}, {"next0", 136, 4, Int}, {"next1", 140, 4, Int}, {"firstchild0", 144, 4, Int}, {"firstchild1", 148, 4, Int},
	{"parent", 152, 4, Int}, {"childcount", 156, 4, Int}, {"nuser", 160, 4, Int}, {"postexpire", 164, 4, Int},
	{"endgamble", 168, 4, Time}, {"posttype", 172, 33, Packed}, {"posttype_f", 205, 1, Raw},
	{"fastrecommend_pause", 206, 1, Uint}, {"vote_limit_badpost", 207, 1, Uint}, {"post_limit_badpost", 208, 1, Uint},
	{"srexpire", 212, 4, Time},
}}

// Article is fileheader_t
var Article = &Layout{"article", 128, []Field{
	{"filename", 0, 28, Ascii7}, {"modified", 28, 4, Time}, {"recommend", 33, 1, Int},
	{"owner", 34, 14, IDKind}, {"date", 48, 6, Ascii7}, {"title", 54, 65, Big5},
	{"multi", 120, 4, Uint}, {"filemode", 124, 1, Uint},
}}

// User is userec_t
var User = &Layout{"user", 512, []Field{
	{"version", 0, 4, Uint}, {"userid", 4, 13, IDKind}, {"realname", 17, 20, Big5}, {"nickname", 37, 24, Big5},
	{"passwd", 61, 14, Ascii7}, {"uflag", 76, 4, Uint}, {"userlevel", 84, 4, Uint},
	{"numlogindays", 88, 4, Uint}, {"numposts", 92, 4, Uint}, {"firstlogin", 96, 4, Time}, {"lastlogin", 100, 4, Time},
	{"lasthost", 104, 16, Ascii7}, {"money", 120, 4, Int}, {"email", 128, 50, Big5}, {"address", 178, 50, Big5},
	{"justify", 228, 39, Big5}, {"over_18", 270, 1, Bool}, {"pager_ui_type", 271, 1, Uint}, {"pager", 272, 1, Uint},
	{"invisible", 273, 1, Bool}, {"exmailbox", 276, 4, Uint}, {"career", 284, 40, Big5}, {"role", 392, 4, Uint},
	{"lastseen", 396, 4, Time}, {"timesetangel", 400, 4, Time}, {"timeplayangel", 404, 4, Time},
	{"lastsong", 408, 4, Time}, {"loginview", 412, 4, Uint}, {"vl_count", 418, 2, Uint},
	{"five_win", 420, 2, Uint}, {"five_lose", 422, 2, Uint}, {"five_tie", 424, 2, Uint},
	{"chc_win", 426, 2, Uint}, {"chc_lose", 428, 2, Uint}, {"chc_tie", 430, 2, Uint},
	{"conn6_win", 432, 2, Uint}, {"conn6_lose", 434, 2, Uint}, {"conn6_tie", 436, 2, Uint},
	{"go_win", 440, 2, Uint}, {"go_lose", 442, 2, Uint}, {"go_tie", 444, 2, Uint},
	{"dark_win", 446, 2, Uint}, {"dark_lose", 448, 2, Uint}, {"ua_version", 450, 1, Uint}, {"signature", 451, 1, Uint},
	{"badpost", 453, 1, Uint}, {"dark_tie", 454, 2, Uint}, {"myangel", 456, 13, IDKind},
	{"chess_elo_rating", 470, 2, Uint}, {"withme", 472, 4, Uint}, {"timeremovebadpost", 476, 4, Time}, {"timeviolatelaw", 480, 4, Time},
}}

// Online is userinfo_t
var Online = func() *Layout {
	fs := []Field{
		{"uid", 0, 4, Int}, {"pid", 4, 4, Int}, {"sockaddr", 8, 4, Int}, {"userlevel", 12, 4, Uint},
		{"userid", 16, 13, IDKind}, {"nickname", 29, 24, Big5}, {"from", 53, 27, Ascii7}, {"from_ip", 80, 4, Uint},
		{"dark_win", 84, 2, Uint}, {"dark_lose", 86, 2, Uint}, {"angelpause", 89, 1, Uint}, {"dark_tie", 90, 2, Uint},
		{"friendtotal", 92, 4, Int}, {"nFriends", 96, 2, Int},
	}
	fs = seq(fs, "myfriend", 100, 4, 256, Int)
	fs = seq(fs, "friend_online", 1128, 4, 256, Uint)
	fs = seq(fs, "reject", 2156, 4, 32, Int)
	fs = append(fs, Field{"msgcount", 2288, 1, Uint})
	fs = seq(fs, "msgs", 2292, 100, 10, Raw)
	fs = append(fs,
		Field{"birth", 3392, 1, Bool}, Field{"active", 3393, 1, Bool}, Field{"invisible", 3394, 1, Bool}, Field{"mode", 3395, 1, Uint},
		Field{"pager", 3396, 1, Bool}, Field{"conn6_win", 3398, 2, Uint}, Field{"lastact", 3400, 4, Time}, Field{"alerts", 3404, 1, Uint},
		Field{"conn6_lose", 3406, 2, Uint}, Field{"sig", 3409, 1, Uint}, Field{"conn6_tie", 3410, 2, Uint},
		Field{"destuid", 3412, 4, Int}, Field{"destuip", 3416, 4, Int}, Field{"sockactive", 3420, 1, Uint}, Field{"in_chat", 3421, 1, Uint},
		Field{"chatid", 3422, 11, Ascii7}, Field{"lockmode", 3433, 1, Uint}, Field{"turn", 3434, 1, Bool},
		Field{"mateid", 3435, 13, IDKind}, Field{"color", 3448, 1, Uint},
		Field{"five_win", 3450, 2, Uint}, Field{"five_lose", 3452, 2, Uint}, Field{"five_tie", 3454, 2, Uint},
		Field{"chc_win", 3456, 2, Uint}, Field{"chc_lose", 3458, 2, Uint}, Field{"chc_tie", 3460, 2, Uint},
		Field{"chess_elo_rating", 3462, 2, Uint},
		Field{"go_win", 3464, 2, Uint}, Field{"go_lose", 3466, 2, Uint}, Field{"go_tie", 3468, 2, Uint},
		Field{"withme", 3472, 4, Uint}, Field{"brc_id", 3476, 4, Uint}, Field{"wbtime", 3480, 4, Time},
	)
	return &Layout{"online user", 3484, fs}
}()

// Formosa is the index record of Formosa BBS, as far as it is read
var Formosa = &Layout{"formosa article", 248, []Field{
	{"filename", 0, 44, Ascii7}, {"postno", 72, 4, Int}, {"owner", 80, 72, Ascii7}, {"modified", 152, 4, Time}, {"title", 160, 67, Big5},
}}
