// C07: a record file is read as exactly its complete records, in order.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	"pgregory.net/rapid"
)

type fileCase struct {
	Kind string
	Recs [][]byte // of one record each, used in turn
	N    int      // number of complete records
	Tail int      // bytes of a further record
	Zero []zero   // records which are all NUL
	How  string   // file, or what stands in its place
}

type zero struct{ From, N int }

func (c fileCase) records(k rec.Kind) [][]byte {
	out := make([][]byte, c.N)
	mark := k.L.Find(k.Mark)
	for i := range out {
		out[i] = append([]byte{}, c.Recs[i%len(c.Recs)]...)
		mark.Put(out[i], uint64(i)*2654435761)
	}
	for _, z := range c.Zero {
		for i := z.From; i < z.From+z.N && i < c.N; i++ {
			out[i] = make([]byte, k.L.Size)
		}
	}
	return out
}

func drawRecord(t *rapid.T, k rec.Kind) []byte {
	if k.Name == "online" { // drawing each element of its arrays would take long
		r := make([]byte, k.L.Size)
		gen.Noise(r, rapid.Uint64().Draw(t, "noise"))
		for _, f := range k.L.Fields {
			switch {
			case f.Kind == gen.Bool:
				r[f.Off] &= 1
			case f.IsText():
				f.PutText(r, gen.CommentID().Draw(t, f.Name)[:2])
			}
		}
		return r
	}
	return k.L.Record().Draw(t, "rec")
}

func draw(t *rapid.T) fileCase {
	c := fileCase{Kind: rapid.SampledFrom(rec.KindNames()).Draw(t, "kind")}
	k := rec.KindOf(c.Kind)
	c.Recs = [][]byte{drawRecord(t, k)}
	if rapid.Bool().Draw(t, "two") {
		c.Recs = append(c.Recs, drawRecord(t, k))
	}
	c.N = rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 4), gen.Num(0, 40)).Draw(t, "n")
	if rapid.IntRange(0, 40).Draw(t, "many?") == 0 {
		c.N = gen.Num(100, 6000).Draw(t, "many")
	}
	c.Tail = rapid.OneOf(rapid.Just(0), rapid.SampledFrom([]int{1, k.L.Size - 1}), gen.Num(0, k.L.Size-1)).Draw(t, "tail")
	if rapid.IntRange(0, 2).Draw(t, "zero?") == 0 {
		from := rapid.OneOf(gen.Num(0, c.N), gen.Num(0, c.N), rapid.SampledFrom([]int{1, 2, 8, 10, 16, 32, 64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 2500, 4096, 5000}))
		c.Zero = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) zero {
			return zero{from.Draw(t, "from"), rapid.SampledFrom([]int{1, 1, 2, 3, 8, 100, 1024}).Draw(t, "n")}
		}), 1, 4).Draw(t, "zero")
	}
	c.How = "file"
	if rapid.IntRange(0, 11).Draw(t, "how?") == 0 {
		c.How = rapid.SampledFrom([]string{"missing", "directory", "below a file", "dangling link", "link"}).Draw(t, "how")
	}
	return c
}

func check(c fileCase, x *kit.X) error {
	k := rec.KindOf(c.Kind)
	recs := c.records(k)
	data := gen.Join(recs)
	if c.Tail > 0 {
		data = append(data, c.Recs[0][:c.Tail]...)
	}
	x.Label(c.Kind)
	x.NonTrivial(c.N >= 2 && c.Tail > 0 || c.How != "file")
	x.LabelIf(c.N >= 1000, "1000 records or more")
	x.LabelIf(c.Tail > 0, "with a tail")
	x.LabelIf(len(c.Zero) > 0, "with records of zeros")
	name := filepath.Join(x.Dir(), "records")
	switch c.How {
	case "file":
		kit.Write(name, data)
	case "link":
		kit.Write(name+".real", data)
		kit.Must(os.Symlink("records.real", name))
	case "missing":
	case "directory":
		kit.Must(os.Mkdir(name, 0755))
	case "below a file":
		kit.Write(name, data)
		name = filepath.Join(name, "records")
	case "dangling link":
		kit.Must(os.Symlink("nowhere", name))
	}
	if c.How != "file" && c.How != "link" {
		vs, err := k.Open(name)
		if err == nil {
			return fmt.Errorf("%s (%s) is read as %d records without an error", k.Name, c.How, len(vs))
		}
		return nil
	}
	marks, err := k.OpenMarks(name)
	if err != nil {
		return fmt.Errorf("%s: %w", k.Name, err)
	}
	if len(marks) != c.N {
		return fmt.Errorf("%s: %d bytes, which are %d records and %d more bytes, are read as %d records", k.Name, len(data), c.N, c.Tail, len(marks))
	}
	mark := k.L.Find(k.Mark)
	for i, m := range marks {
		var want uint64
		switch v := mark.Value(recs[i]).(type) {
		case uint64:
			want = v
		case int64:
			want = uint64(uint32(v))
		}
		if m != want {
			return fmt.Errorf("%s: record %d of %d has %s %d instead of %d", k.Name, i, c.N, k.Mark, m, want)
		}
	}
	if c.N <= 12 {
		vs, err := k.Open(name)
		if err != nil {
			return fmt.Errorf("%s: %w", k.Name, err)
		}
		if len(vs) != c.N {
			return fmt.Errorf("%s: read %d records, and %d the second time", k.Name, c.N, len(vs))
		}
		for i := range vs {
			if err := rec.Compare(k.L, recs[i], vs[i]); err != nil {
				return fmt.Errorf("record %d: %w", i, err)
			}
		}
	}
	return nil
}

// dbCase: the same through an opened BBS
type dbCase struct {
	Kind string
	N    int
	Tail int
	Dir  bool // a directory in place of the file
}

func checkDB(c dbCase, x *kit.X) error {
	x.Label(c.Kind)
	x.NonTrivial(c.N >= 2 && c.Tail > 0 || c.Dir)
	h := gen.Home(x.Dir())
	size := map[string]int{"users": 512, "boards": 256, "articles": 128, "treasure": 128}[c.Kind]
	file := map[string]string{"users": h.Passwds(), "boards": h.Boards(), "articles": h.Board("test", ".DIR"), "treasure": h.Man("test", []string{"D1"}, ".DIR")}[c.Kind]
	data := make([]byte, c.N*size+c.Tail)
	id := map[string]int{"users": 4, "boards": 0, "articles": 0, "treasure": 0}[c.Kind]
	for i := 0; i < c.N; i++ {
		copy(data[i*size+id:], fmt.Sprintf("r%d", i))
	}
	for i := c.N * size; i < len(data); i++ {
		data[i] = 'x'
	}
	if c.Dir {
		kit.Must(os.MkdirAll(file, 0755))
	} else {
		kit.Write(file, data)
	}
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	var got []string
	switch c.Kind {
	case "users":
		rs, e := db.ReadUserRecords()
		for _, r := range rs {
			got = append(got, r.UserID())
		}
		err = e
	case "boards":
		rs, e := db.ReadBoardRecords()
		for _, r := range rs {
			got = append(got, r.BoardID())
		}
		err = e
	case "articles":
		rs, e := db.ReadBoardArticleRecordsFile("test")
		for _, r := range rs {
			got = append(got, r.Filename())
		}
		err = e
	case "treasure":
		rs, e := db.ReadBoardTreasureRecordsFile("test", []string{"D1"})
		for _, r := range rs {
			got = append(got, r.Filename())
		}
		err = e
	}
	if c.Dir {
		if err == nil {
			return fmt.Errorf("%s: a directory is read as %d records without an error", c.Kind, len(got))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %w", c.Kind, err)
	}
	if len(got) != c.N {
		return fmt.Errorf("%s: %d records and %d bytes are read as %d records", c.Kind, c.N, c.Tail, len(got))
	}
	for i, g := range got {
		if g != fmt.Sprintf("r%d", i) {
			return fmt.Errorf("%s: record %d is %q", c.Kind, i, g)
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C07",
		Rule: "a case is a file of n records (0 to 6000, of five kinds, each with its own number stored in it) and a part of a further record, or something unreadable in its place; it is non-trivial when it has at least 2 records and a tail, or is unreadable",
		Assumptions: []string{
			"the checks run as root, so a file without permissions cannot be used as an unreadable one; directories, dangling links and paths below a file are",
			"a board without an index is C45",
		},
		Arms: kit.Arms(20, 800, 10,
			kit.NewArm("files", 4000, 200000, draw, check),
			kit.NewArm("through the database", 2500, 100000, func(t *rapid.T) dbCase {
				c := dbCase{Kind: rapid.SampledFrom([]string{"users", "boards", "articles", "treasure"}).Draw(t, "kind"),
					N: rapid.OneOf(rapid.IntRange(0, 5), gen.Num(0, 300)).Draw(t, "n")}
				size := map[string]int{"users": 512, "boards": 256, "articles": 128, "treasure": 128}[c.Kind]
				c.Tail = rapid.OneOf(rapid.Just(0), gen.Num(0, size-1)).Draw(t, "tail")
				c.Dir = gen.Num(0, 9).Draw(t, "dir") == 0
				return c
			}, checkDB),
		),
	})
}
