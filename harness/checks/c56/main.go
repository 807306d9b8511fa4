// C56: any bytes can be read, at a cost in proportion to their number.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/acts"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	formosa "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// ---- hostile bytes

// edit makes a file something else
type edit struct {
	File int // of the sorted ones, modulo their number
	How  string
	At   uint16 // of 65536
	Len  int
	Data []byte
	From int // another file
}

type fileCase struct {
	Act   acts.Act
	Edits []edit
}

var pieces = []string{
	"\x1b[", "\x1b[1;31m", "\x1b[1;1;1;1;1;", "\x1b", "\u009b", "\xa1\xb0 ", "\xb1\xc0 ", "\xbc\x4e ", "\xa1\xf7 ", ": ", "\n", "\r\n", "\n\n", "\r", "\x00", "\xff\xff\xff\xff", "\x80", "\x81", "\xfe", "\xa4",
	"99/99 99:99", "13/32 25:61", "00/00", "-1", "18446744073709551616", "[", "]", " ", "?@", "::", "\t", "\x7f\xff\xff\xff", "M.", "../", "/", "\xef\xbb\xbf", "\x01\x00\x00\x00", "\x03\x01", "\x01\x01",
}

func drawEdit(t *rapid.T) edit {
	e := edit{File: gen.Num(0, 30).Draw(t, "file"), How: rapid.SampledFrom([]string{"random", "fill", "splice", "flip", "flip", "cut", "insert", "insert", "repeat", "many"}).Draw(t, "how"), At: rapid.Uint16().Draw(t, "at")}
	switch e.How {
	case "random":
		e.Data = gen.Bytes(3000).Draw(t, "data")
	case "fill":
		e.Data = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 0xff, '\n', 0x1b, 0x80, ' ', '0', ':', 1}), rapid.Byte()), 1, 3).Draw(t, "data")
		e.Len = rapid.SampledFrom([]int{1, 127, 129, 511, 600, 5000, 70000}).Draw(t, "len")
	case "flip":
		e.Data = rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 0xff, '\n', 0x1b, 0x80, 0x7f, 1, 2, 3, 4}), rapid.Byte()), 1, 6).Draw(t, "data")
		e.Len = rapid.IntRange(1, 97).Draw(t, "step")
	case "insert", "many":
		e.Data = []byte(rapid.OneOf(rapid.SampledFrom(pieces), rapid.Map(gen.Bytes(40), func(b []byte) string { return string(b) })).Draw(t, "data"))
		e.Len = rapid.IntRange(1, 40).Draw(t, "times")
	case "splice", "cut", "repeat":
		e.Len = rapid.IntRange(1, 700).Draw(t, "len")
		e.From = gen.Num(0, 30).Draw(t, "from")
	}
	return e
}

func (e edit) change(b, other []byte) []byte {
	b = append([]byte{}, b...)
	at := int(e.At) * (len(b) + 1) / 65536
	end := min(at+e.Len, len(b))
	put := func(p []byte) []byte { return append(append(append([]byte{}, b[:at]...), p...), b[at:]...) }
	switch e.How {
	case "random":
		return e.Data
	case "fill":
		return bytes.Repeat(e.Data, e.Len)
	case "splice":
		i := int(e.At) * (len(other) + 1) / 65536
		return put(other[i:min(i+e.Len, len(other))])
	case "flip":
		for i, d := range e.Data {
			if p := at + i*e.Len; p < len(b) {
				b[p] = d
			}
		}
	case "cut":
		return append(b[:at], b[end:]...)
	case "insert":
		return put(bytes.Repeat(e.Data, e.Len))
	case "many":
		var l []byte
		for i := 0; i < len(b); i += e.Len {
			l = append(append(l, b[i:min(i+e.Len, len(b))]...), e.Data...)
		}
		return l
	case "repeat":
		return put(bytes.Repeat(b[at:end], 5))
	}
	return b
}

// files of a home
func files(h gen.Home) []string {
	var l []string
	kit.Must(filepath.Walk(string(h), func(p string, i os.FileInfo, err error) error {
		kit.Must(err)
		if !i.IsDir() {
			l = append(l, p)
		}
		return nil
	}))
	sort.Strings(l)
	return l
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func checkFiles(c fileCase, x *kit.X) error {
	h := gen.Home(x.Dir() + "/home")
	do := c.Act.Do(h)
	l := files(h)
	if len(l) == 0 {
		return nil
	}
	first, ferr := do()
	for _, e := range c.Edits {
		p := l[e.File%len(l)]
		b := e.change(kit.ReadFile(p), kit.ReadFile(l[e.From%len(l)]))
		kit.Write(p, b[:min(len(b), 200000)])
	}
	size := 0
	for _, p := range l {
		size += len(kit.ReadFile(p))
	}
	before := allocated()
	got, err := do()
	// an article may be listed, and so be read, many times
	if a := allocated() - before; a > 64<<20+uint64(size)*uint64(size)/20+uint64(size)*1000 {
		return fmt.Errorf("reading the %s from files of %d bytes takes %d bytes of memory", c.Act.Name, size, a)
	}
	x.LabelIf(err != nil, "error")
	x.Label(c.Act.Name)
	x.NonTrivial(got != first || (err != nil) != (ferr != nil))
	return nil
}

// ---- decoders of buffers

type bufCase struct {
	Of   string
	Data []byte
	More []byte
	At   int
}

var decoders = []struct {
	name string
	size int // of a record; 0 when there is no such
	do   func(b []byte, c bufCase) (string, error)
}{
	{"UnmarshalUserec", 512, func(b []byte, c bufCase) (string, error) {
		r, err := pttbbs.UnmarshalUserec(b)
		if err == nil {
			_ = r.VerifyPassword(string(c.More))
		}
		return rec.Snapshot(r), err
	}},
	{"UnmarshalBoardHeader", 256, func(b []byte, _ bufCase) (string, error) {
		r, err := pttbbs.UnmarshalBoardHeader(b)
		return rec.Snapshot(r), err
	}},
	{"NewFileHeaderWithByte", 128, func(b []byte, _ bufCase) (string, error) {
		r, err := pttbbs.NewFileHeaderWithByte(b)
		return rec.Snapshot(r), err
	}},
	{"NewFomosaBBSFileHeaderWithByte", 248, func(b []byte, _ bufCase) (string, error) {
		r, err := formosa.NewFomosaBBSFileHeaderWithByte(b)
		return rec.Snapshot(r), err
	}},
	{"UnmarshalFavFile", 0, func(b []byte, _ bufCase) (string, error) {
		r, err := pttbbs.UnmarshalFavFile(b)
		return rec.Snapshot(r), err
	}},
	{"UnmarshalFavFolder", 0, func(b []byte, c bufCase) (string, error) {
		r, _, err := pttbbs.UnmarshalFavFolder(b, c.At)
		return rec.Snapshot(r), err
	}},
	{"UnmarshalFavItem", 0, func(b []byte, c bufCase) (string, error) {
		r, _, err := pttbbs.UnmarshalFavItem(b, c.At)
		return rec.Snapshot(r), err
	}},
	{"UnmarshalFavBoardItem", 0, func(b []byte, c bufCase) (string, error) {
		r, _, err := pttbbs.UnmarshalFavBoardItem(b, c.At)
		return rec.Snapshot(r), err
	}},
	{"UnmarshalFavFolderItem", 0, func(b []byte, c bufCase) (string, error) {
		r, _, err := pttbbs.UnmarshalFavFolderItem(b, c.At)
		return rec.Snapshot(r), err
	}},
	{"UnmarshalFavLineItem", 0, func(b []byte, c bufCase) (string, error) {
		r, _, err := pttbbs.UnmarshalFavLineItem(b, c.At)
		return rec.Snapshot(r), err
	}},
	{"NewLoginRecentRecord", 0, func(b []byte, _ bufCase) (string, error) {
		r, err := pttbbs.NewLoginRecentRecord(string(b))
		return rec.Snapshot(r), err
	}},
	{"LoginAttempt.UnmarshalText", 0, func(b []byte, _ bufCase) (string, error) {
		r := &pttbbs.LoginAttempt{}
		err := r.UnmarshalText(b)
		return rec.Snapshot(r), err
	}},
	{"NewUserCommentRecord", 0, func(b []byte, c bufCase) (string, error) {
		a, err := pttbbs.NewFileHeaderWithByte(gen.NewArticle("M.1.A.000", "tester", "1/01", "title"))
		kit.Must(err)
		r, err := bbs.NewUserCommentRecord(uint32(c.At), string(b), string(c.More), a)
		return rec.Snapshot(r), err
	}},
	{"Big5ToUtf8", 0, func(b []byte, _ bufCase) (string, error) { return bbs.Big5ToUtf8(b), nil }},
	{"Utf8ToBig5", 0, func(b []byte, _ bufCase) (string, error) { return string(bbs.Utf8ToBig5(string(b))), nil }},
	{"FilterStringANSI", 0, func(b []byte, _ bufCase) (string, error) { return bbs.FilterStringANSI(string(b)), nil }},
	{"CstrToString", 0, func(b []byte, _ bufCase) (string, error) { return bbs.CstrToString(b), nil }},
}

func drawBuf(t *rapid.T) bufCase {
	d := rapid.SampledFrom(decoders).Draw(t, "of")
	c := bufCase{Of: d.name, At: gen.Num(0, 12).Draw(t, "at")}
	if d.size > 0 {
		c.Data = gen.Bytes(3*d.size).Draw(t, "data")
		switch rapid.IntRange(0, 3).Draw(t, "length") {
		case 0: // just too short, or not
			n := d.size + rapid.IntRange(-3, 3).Draw(t, "n")
			for len(c.Data) < n {
				c.Data = append(c.Data, c.Data...)
				c.Data = append(c.Data, 'x')
			}
			c.Data = c.Data[:n]
		case 1:
			c.Data = append(c.Data, make([]byte, rapid.IntRange(0, d.size).Draw(t, "nul"))...)
		}
	} else {
		l := rapid.SliceOfN(rapid.OneOf(
			rapid.Map(rapid.SampledFrom(pieces), func(s string) []byte { return []byte(s) }),
			gen.Bytes(30),
			rapid.Map(gen.Text(20), gen.MustBig5),
			rapid.SliceOfN(rapid.ByteMax(4), 1, 5),
		), 0, 12).Draw(t, "pieces")
		c.Data = bytes.Join(l, nil)
	}
	c.More = gen.Bytes(20).Draw(t, "more")
	return c
}

func checkBuf(c bufCase, x *kit.X) error {
	for _, d := range decoders {
		if d.name != c.Of {
			continue
		}
		b := append([]byte{}, c.Data...)
		before := allocated()
		got, err := d.do(b, c)
		if a := allocated() - before; a > 8<<20+uint64(len(b))*5000 {
			return fmt.Errorf("%s takes %d bytes of memory for %d bytes", c.Of, a, len(b))
		}
		if !bytes.Equal(b, c.Data) {
			return fmt.Errorf("%s changes what it reads", c.Of)
		}
		if again, aerr := d.do(b, c); again != got && err == nil || (err != nil) != (aerr != nil) {
			return fmt.Errorf("%s of the same bytes gives %.300s, %v and then %.300s, %v", c.Of, got, err, again, aerr)
		}
		if d.size > 0 {
			if len(b) < d.size && err == nil {
				return fmt.Errorf("%s of %d bytes, a part of a record, gives %.300s and no error", c.Of, len(b), got)
			}
			if len(b) >= d.size && err != nil {
				return fmt.Errorf("%s of %d bytes fails: %w", c.Of, len(b), err)
			}
			if len(b) > d.size {
				first, _ := d.do(append([]byte{}, b[:d.size]...), c)
				if first != got {
					return fmt.Errorf("%s of %d bytes gives %.300s, but of just the record %.300s", c.Of, len(b), got, first)
				}
			}
			x.LabelIf(len(b) < d.size, "too short")
		}
		x.NonTrivial(len(b) > 0)
		x.LabelIf(err != nil, "error")
		x.Label(c.Of)
	}
	return nil
}

// ---- growth

type growCase struct {
	Act  acts.Act
	File int
	Text []byte // in the case of a text function
	Of   int
	Vary []int // each copy gets its number at these places, if letters are there
}

const (
	small  = 8 << 10
	factor = 128
)

var functions = []struct {
	name string
	do   func(b []byte)
}{
	{"Big5ToUtf8", func(b []byte) { bbs.Big5ToUtf8(b) }},
	{"Utf8ToBig5", func(b []byte) { bbs.Utf8ToBig5(string(b)) }},
	{"FilterStringANSI", func(b []byte) { bbs.FilterStringANSI(string(b)) }},
	{"CstrToString", func(b []byte) { bbs.CstrToString(b) }},
	{"NewUserCommentRecord", func(b []byte) {
		a, err := pttbbs.NewFileHeaderWithByte(gen.NewArticle("M.1.A.000", "tester", "1/01", "title"))
		kit.Must(err)
		bbs.NewUserCommentRecord(1, string(b), "test", a)
	}},
	{"NewLoginRecentRecord", func(b []byte) { pttbbs.NewLoginRecentRecord(string(b)) }},
	{"LoginAttempt.UnmarshalText", func(b []byte) { (&pttbbs.LoginAttempt{}).UnmarshalText(b) }},
	{"UnmarshalFavFile", func(b []byte) {
		if len(b) > 2 {
			pttbbs.UnmarshalFavFile(append([]byte{b[0], b[1], 0xff, 0xff, 0xff, 0xff}, b[2:]...))
		}
	}},
	{"deep favourites", func(b []byte) {
		// each folder holds the next one, and the bytes are its name
		l := []byte{0x23, 0x0d}
		for i := 0; i+48 <= len(b); i += 48 {
			l = append(l, 0, 0, 0, 1, 2, b[i], b[i+1])
			l = append(append(l, b[i:i+48]...), 0)
		}
		pttbbs.UnmarshalFavFile(append(l, 0, 0, 0, 0))
	}},
	{"wide favourites", func(b []byte) {
		n := min(len(b)/14, 65000)
		l := []byte{0x23, 0x0d, byte(n), byte(n >> 8), 0, 0}
		for i := 0; i < n; i++ {
			l = append(append(l, 1, b[i]), b[12*i:12*i+12]...)
		}
		pttbbs.UnmarshalFavFile(l)
	}},
}

// manys are operations on files of very many different entries, k times as many as at first; id
// numbers an entry
var manys = []struct {
	act string
	set func(h gen.Home, k int, id func(int) int)
}{
	{"favourites", func(h gen.Home, k int, id func(int) int) {
		var brds [][]byte
		l := gen.Fav{}
		for i := 0; i < 400*k; i++ {
			brds = append(brds, gen.NewBoard(fmt.Sprint("b", i), "title"))
			l = append(l, gen.FavEntry{Kind: gen.FavBoard, Board: uint32(id(i)%(400*k) + 1)})
		}
		kit.Write(h.Boards(), gen.Join(brds))
		kit.Write(h.User("tester", ".fav"), gen.EncodeFav(3363, l))
	}},
	{"comments of an article", func(h gen.Home, k int, id func(int) int) {
		kit.Write(h.Board("test", ".DIR"), gen.NewArticle("M.1.A.000", "tester", " 1/01", "title"))
		var b []byte
		for i := 0; i < 250*k; i++ {
			b = append(b, comment(fmt.Sprint("u", id(i)), i)...)
		}
		kit.Write(h.Board("test", "M.1.A.000"), b)
	}},
	{"comments of a user on a board", func(h gen.Home, k int, id func(int) int) {
		var recs [][]byte
		for i := 0; i < 10*k; i++ {
			n := fmt.Sprintf("M.%d.A.000", 1000000000+id(i))
			recs = append(recs, gen.NewArticle(n, fmt.Sprint("u", i), " 1/01", fmt.Sprint("title ", i)))
			kit.Write(h.Board("test", n), append([]byte(comment(fmt.Sprint("u", i), i)), comment("tester", i)...))
		}
		kit.Write(h.Board("test", ".DIR"), gen.Join(recs))
	}},
	{"comments of a user", func(h gen.Home, k int, id func(int) int) {
		var recs [][]byte
		for i := 0; i < 5*k; i++ {
			n := fmt.Sprint("b", i)
			recs = append(recs, gen.NewBoard(n, "title"))
			kit.Write(h.Board(n, ".DIR"), gen.NewArticle("M.1.A.000", "tester", " 1/01", "title"))
			kit.Write(h.Board(n, "M.1.A.000"), append([]byte(comment(fmt.Sprint("u", id(i)), i)), comment("tester", i)...))
		}
		kit.Write(h.Boards(), gen.Join(recs))
	}},
	{"articles of a user", func(h gen.Home, k int, id func(int) int) {
		var recs [][]byte
		for i := 0; i < 100*k; i++ {
			o := "tester"
			if id(i)%3 == 0 {
				o = fmt.Sprint("u", i)
			}
			recs = append(recs, gen.NewArticle(fmt.Sprintf("M.%d.A.000", 1000000000+id(i)), o, " 1/01", fmt.Sprint("title ", i)))
		}
		kit.Write(h.Boards(), gen.NewBoard("test", "title"))
		kit.Write(h.Board("test", ".DIR"), gen.Join(recs))
	}},
	{"index", func(h gen.Home, k int, id func(int) int) {
		var recs [][]byte
		for i := 0; i < 150*k; i++ {
			recs = append(recs, gen.NewArticle(fmt.Sprintf("M.%d.A.000", 1000000000+id(i)), fmt.Sprint("u", i), " 1/01", fmt.Sprint("title ", i)))
		}
		kit.Write(h.Board("test", ".DIR"), gen.Join(recs))
	}},
	{"boards", func(h gen.Home, k int, id func(int) int) {
		var recs [][]byte
		for i := 0; i < 100*k; i++ {
			recs = append(recs, gen.NewBoard(fmt.Sprint("b", id(i)), fmt.Sprint("title ", i)))
		}
		kit.Write(h.Boards(), gen.Join(recs))
	}},
	{"users", func(h gen.Home, k int, id func(int) int) {
		var recs [][]byte
		for i := 0; i < 50*k; i++ {
			r := make([]byte, gen.User.Size)
			gen.User.Find("userid").PutText(r, fmt.Sprint("u", id(i)))
			recs = append(recs, r)
		}
		kit.Write(h.Passwds(), gen.Join(recs))
	}},
	{"failed logins", func(h gen.Home, k int, id func(int) int) {
		var b []byte
		for i := 0; i < 200*k; i++ {
			b = append(b, fmt.Sprintf("-%-12s[01/02/2006 15:%02d:%02d Mon] ?@host%d\n", fmt.Sprint("u", id(i)), i/60%60, i%60, i)...)
		}
		kit.Write(string(h)+"/logins.bad", b)
	}},
	{"recent logins", func(h gen.Home, k int, id func(int) int) {
		var b []byte
		for i := 0; i < 200*k; i++ {
			b = append(b, fmt.Sprintf("01/02/2006 15:%02d:%02d host%d\n", i/60%60, i%60, id(i))...)
		}
		kit.Write(h.User("tester", "logins.recent"), b)
	}},
}

// comment is the i-th one, at another minute than those near it
func comment(by string, i int) string {
	return fmt.Sprintf("\xb1\xc0 %s: number %d %02d/%02d %02d:%02d\n", by, i, i/40320%12+1, i/1440%28+1, i/60%24, i%60)
}

func drawGrow(t *rapid.T) growCase {
	c := growCase{File: gen.Num(0, 12).Draw(t, "file")}
	if rapid.Bool().Draw(t, "vary?") {
		c.Vary = rapid.SliceOfN(rapid.OneOf(gen.Num(0, 64), gen.Num(0, 600)), 1, 4).Draw(t, "vary")
	}
	if rapid.Bool().Draw(t, "a function") {
		c.Of = rapid.OneOf(rapid.IntRange(1, len(functions)), rapid.IntRange(1, len(functions)), rapid.IntRange(len(functions)+1, len(functions)+len(manys))).Draw(t, "of")
		c.Text = bytes.Join(rapid.SliceOfN(rapid.OneOf(
			rapid.Map(rapid.SampledFrom(pieces), func(s string) []byte { return []byte(s) }),
			gen.Bytes(30),
			rapid.Map(gen.Text(20), gen.MustBig5),
		), 1, 5).Draw(t, "pieces"), nil)
		if len(c.Text) == 0 {
			c.Text = []byte("x")
		}
		return c
	}
	c.Act = acts.Of(acts.All).Draw(t, "act")
	return c
}

// cost is what f takes: memory, and time of this thread
func cost(f func()) (uint64, time.Duration) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	now := func() time.Duration {
		var r syscall.Rusage
		kit.Must(syscall.Getrusage(1, &r)) // RUSAGE_THREAD
		return time.Duration(r.Utime.Nano() + r.Stime.Nano())
	}
	m, t := allocated(), now()
	f()
	t = now() - t
	return allocated() - m, t
}

// grow repeats b to at least n bytes
func grow(b []byte, n int) []byte { return bytes.Repeat(b, (n+len(b)-1)/len(b)) }

// vary numbers the copies of a unit: at each place the letters and digits from there on (to the
// end of the word, five at most) become the number of the copy
func (c growCase) vary(b []byte, unit int) []byte {
	word := func(x byte) bool { return x >= '0' && x <= '9' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' }
	for _, p := range c.Vary {
		from := p % unit
		for n := 0; n < unit && !word(b[from]); n++ {
			from = (from + 1) % unit
		}
		to := from
		for to < unit && to < from+5 && word(b[to]) {
			to++
		}
		for i := 0; i < len(b)/unit; i++ {
			n := i
			for k := to - 1; k >= from; k-- {
				b[i*unit+k] = "0123456789abcdefghijklmnopqrstuvwxyz"[n%36]
				n /= 36
			}
		}
	}
	return b
}

func checkGrow(c growCase, x *kit.X) error {
	acts.Brief = true
	defer func() { acts.Brief = false }()
	what := c.Act.Name
	var set func(k int)
	var f func()
	name := ""
	if c.Of > len(functions) {
		m := manys[c.Of-len(functions)-1]
		what, name = m.act+" of many", "each of the files"
		h := gen.Home(x.Dir() + "/home")
		set = func(k int) { m.set(h, k, func(i int) int { return i * (1 + 2*int(c.Text[i%len(c.Text)]%8)) }) }
		set(1)
		a := acts.Act{Name: m.act}
		a.Home.Tree = gen.Tree{Users: []string{"tester"}, Boards: []gen.Brd{{ID: "test"}}}
		do := a.On(h)
		f = func() { _, err := do(); kit.Must(err) }
	} else if c.Of > 0 {
		d := functions[c.Of-1]
		what = d.name
		name = "the text"
		base := grow(c.Text, small)
		var b []byte
		set = func(k int) { b = c.vary(bytes.Repeat(base, k), len(c.Text)) }
		f = func() { d.do(b) }
	} else {
		h := gen.Home(x.Dir() + "/home")
		do := c.Act.Do(h)
		var l []string
		for _, p := range files(h) {
			if i, err := os.Stat(p); err == nil && i.Size() > 0 {
				l = append(l, p)
			}
		}
		if len(l) == 0 {
			return nil
		}
		p := l[c.File%len(l)]
		name = strings.TrimPrefix(p, string(h))
		was := kit.ReadFile(p)
		base := grow(was, small)
		set = func(k int) { kit.Write(p, c.vary(bytes.Repeat(base, k), len(was))) }
		f = func() { _, _ = do() }
	}
	set(1)
	f() // whatever is done but once
	m1, t1 := cost(f)
	if m1 > 16<<20 {
		return fmt.Errorf("%s takes %d bytes of memory when %s is of some %d bytes", what, m1, name, small)
	}
	set(factor)
	m2, t2 := cost(f)
	if m2 > 2*factor*m1+(2<<20) {
		return fmt.Errorf("%s takes %d bytes of memory, but %d when %s is %d times as long", what, m1, m2, name, factor)
	}
	if limit := 4*factor*t1 + 500*time.Millisecond; t2 > limit {
		// not by chance
		for i := 0; i < 3; i++ {
			if _, t := cost(f); t < t2 {
				t2 = t
			}
		}
		if t2 > limit {
			return fmt.Errorf("%s takes %v, but %v when %s is %d times as long", what, t1, t2, name, factor)
		}
	}
	x.Label(what)
	x.LabelIf(len(c.Vary) > 0, "different copies")
	x.NonTrivial(m2 > 2*m1 || c.Of > 0)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C56",
		Rule: "files: a case is a BBS, one of 17 reading operations and up to six edits of its files (random and uniform bytes, parts of other files, odd pieces, cut, repeated); it is non-trivial when the answer changes. buffers: a case is one of 17 decoders and text functions, and bytes of any length; it is non-trivial when there are any. growth: a case is a reading or writing operation and one file of the BBS, or a text function, at 8 KiB and at 128 times that; it is non-trivial when the operation reads it",
		Arms: []kit.Arm{
			kit.NewArm("files", 5000, 300000, func(t *rapid.T) fileCase {
				return fileCase{acts.Of(acts.Reading).Draw(t, "act"), rapid.SliceOfN(rapid.Custom(drawEdit), 1, 6).Draw(t, "edits")}
			}, checkFiles),
			kit.NewArm("buffers", 30000, 2000000, drawBuf, checkBuf),
			kit.NewArm("growth", 500, 20000, drawGrow, checkGrow),
		},
	})
}
