// C35: what was read stays as it was when its source changes.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	formosa "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// kind of record
type kind struct {
	decode  func(raw []byte) (any, error)
	marshal func(r any) ([]byte, error)
	open    func(file string) (any, error)
	draw    *rapid.Generator[[]byte]
	single  bool // a file holds one
}

func of[T any](decode func([]byte) (T, error), marshal func(T) ([]byte, error), open func(string) (any, error), draw *rapid.Generator[[]byte]) kind {
	k := kind{open: open, draw: draw, decode: func(raw []byte) (any, error) { return decode(raw) }}
	if marshal != nil {
		k.marshal = func(r any) ([]byte, error) { return marshal(r.(T)) }
	}
	return k
}

func opened[T any](open func(string) (T, error)) func(string) (any, error) {
	return func(name string) (any, error) { return open(name) }
}

var favs = rapid.Custom(func(t *rapid.T) []byte {
	return gen.EncodeFav(uint16(gen.U(16).Draw(t, "version")), gen.FavTree(rapid.IntRange(1, 4).Draw(t, "depth"), rapid.Map(gen.U(32), func(u uint64) uint32 { return uint32(u) })).Draw(t, "tree"))
})

var kinds = map[string]kind{
	"board":   of(pttbbs.UnmarshalBoardHeader, (*pttbbs.BoardHeader).MarshalBinary, opened(pttbbs.OpenBoardHeaderFile), gen.Board.Record()),
	"article": of(pttbbs.NewFileHeaderWithByte, (*pttbbs.FileHeader).MarshalToByte, opened(pttbbs.OpenFileHeaderFile), gen.Article.Record()),
	"user":    of(pttbbs.UnmarshalUserec, (*pttbbs.Userec).MarshalBinary, opened(pttbbs.OpenUserecFile), gen.User.Record()),
	"online": of(func(b []byte) (*pttbbs.UserInfoCache, error) { return pttbbs.UnmarshalUserInfo(b), nil },
		func(u *pttbbs.UserInfoCache) ([]byte, error) { return u.MarshalBinary(), nil }, opened(pttbbs.OpenUserInfoCache), gen.Online.Record()),
	"formosa": of(formosa.NewFomosaBBSFileHeaderWithByte, nil, opened(formosa.OpenFormosaBBSFileHeaderFile), gen.Formosa.Record()),
	"favourites": func() kind {
		k := of(pttbbs.UnmarshalFavFile, (*pttbbs.FavFile).MarshalBinary, opened(pttbbs.OpenFavFile), favs)
		k.single = true
		return k
	}(),
}

var names = []string{"board", "article", "user", "online", "formosa", "favourites"}

func differ(what string, before, after string) error {
	if before == after {
		return nil
	}
	i := 0
	for i < len(before) && i < len(after) && before[i] == after[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, min(i-60, len(s))):min(i+60, len(s))] }
	return fmt.Errorf("%s: before ...%s..., after ...%s...", what, cut(before), cut(after))
}

// pair of records of a kind
type pair struct {
	Kind  string
	A, B  []byte
	Noise uint64
}

func drawPair(t *rapid.T) pair {
	p := pair{Kind: rapid.SampledFrom(names).Draw(t, "kind"), Noise: rapid.Uint64().Draw(t, "noise")}
	p.A, p.B = kinds[p.Kind].draw.Draw(t, "a"), kinds[p.Kind].draw.Draw(t, "b")
	return p
}

func checkBuffers(c pair, x *kit.X) error {
	k := kinds[c.Kind]
	// with room behind it, as a part of a larger buffer
	whole := append(append([]byte{}, c.A...), make([]byte, 64)...)
	a, err := k.decode(whole[:len(c.A)])
	if err != nil {
		return fmt.Errorf("decode: %w", err)
	}
	if !bytes.Equal(whole[:len(c.A)], c.A) {
		return fmt.Errorf("decoding changed the buffer")
	}
	was := rec.Snapshot(a)
	gen.Noise(whole, c.Noise)
	if err := differ(c.Kind+" changes with the buffer it came from", was, rec.Snapshot(a)); err != nil {
		return err
	}
	// another record in the same buffer
	other := append([]byte{}, c.B...)
	b, err := k.decode(other)
	if err != nil {
		return fmt.Errorf("decode: %w", err)
	}
	if err := differ(c.Kind+" changes when another is decoded", was, rec.Snapshot(a)); err != nil {
		return err
	}
	bWas := rec.Snapshot(b)
	if k.marshal != nil {
		m, err := k.marshal(a)
		if err != nil {
			return fmt.Errorf("encode: %w", err)
		}
		encoded := append([]byte{}, m...)
		if _, err := k.marshal(b); err != nil {
			return fmt.Errorf("encode: %w", err)
		}
		if !bytes.Equal(m, encoded) {
			return fmt.Errorf("%s: the encoded record changes when another is encoded", c.Kind)
		}
		gen.Noise(m, c.Noise+1)
		if err := differ(c.Kind+" changes with the bytes it was encoded to", was, rec.Snapshot(a)); err != nil {
			return err
		}
		again, err := k.marshal(a)
		if err != nil {
			return fmt.Errorf("encode: %w", err)
		}
		if !bytes.Equal(again, encoded) {
			return fmt.Errorf("%s is encoded differently after the bytes of its first encoding changed", c.Kind)
		}
	}
	// a change of one is no change of its source or of another
	n := rec.Scribble(b)
	if !bytes.Equal(other, c.B) {
		return fmt.Errorf("%s: changing the record changes the buffer it came from", c.Kind)
	}
	if err := differ(c.Kind+" changes when another is changed", was, rec.Snapshot(a)); err != nil {
		return err
	}
	fresh, err := k.decode(other)
	if err != nil {
		return fmt.Errorf("decode: %w", err)
	}
	if err := differ(c.Kind+" is decoded differently after another of the same bytes was changed", bWas, rec.Snapshot(fresh)); err != nil {
		return err
	}
	x.NonTrivial(n >= 3 && was != bWas)
	x.Label(c.Kind)
	return nil
}

// file of records, which changes afterwards
type file struct {
	Kind   string
	Recs   [][]byte
	Change string
	Noise  uint64
}

func drawFile(t *rapid.T) file {
	c := file{Kind: rapid.SampledFrom(names).Draw(t, "kind"), Change: rapid.SampledFrom([]string{"overwrite", "truncate", "remove", "replace"}).Draw(t, "change"), Noise: rapid.Uint64().Draw(t, "noise")}
	n := rapid.IntRange(1, 6).Draw(t, "n")
	if kinds[c.Kind].single {
		n = 1
	}
	for i := 0; i < n; i++ {
		c.Recs = append(c.Recs, kinds[c.Kind].draw.Draw(t, "rec"))
	}
	return c
}

func change(name, how string, noise uint64, size int) {
	junk := make([]byte, size)
	gen.Noise(junk, noise)
	switch how {
	case "overwrite":
		f, err := os.OpenFile(name, os.O_WRONLY, 0)
		kit.Must(err)
		_, err = f.WriteAt(junk, 0)
		kit.Must(err)
		kit.Must(f.Close())
	case "truncate":
		kit.Must(os.Truncate(name, 0))
	case "remove":
		kit.Must(os.Remove(name))
	case "replace":
		kit.Must(os.Remove(name))
		kit.Write(name, junk)
	}
}

func checkFiles(c file, x *kit.X) error {
	k := kinds[c.Kind]
	name := filepath.Join(x.Dir(), "records")
	raw := gen.Join(c.Recs)
	kit.Write(name, raw)
	rs, err := k.open(name)
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}
	was := rec.Snapshot(rs)
	twin, err := k.open(name)
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}
	n := rec.Scribble(twin)
	if !bytes.Equal(kit.ReadFile(name), raw) {
		return fmt.Errorf("%s: changing the records changes their file", c.Kind)
	}
	if err := differ(c.Kind+" changes when what a second reading returned is changed", was, rec.Snapshot(rs)); err != nil {
		return err
	}
	change(name, c.Change, c.Noise, len(raw))
	if err := differ(c.Kind+" changes with its file", was, rec.Snapshot(rs)); err != nil {
		return err
	}
	x.NonTrivial(n >= 3)
	x.Label(c.Change)
	return nil
}

// region of shared memory
type region struct {
	Users, Online int
	Noise, Change uint64
	IDs           []string
	Unmap         bool
}

func drawRegion(t *rapid.T) region {
	c := region{Users: gen.Num(1, 20).Draw(t, "users"), Online: rapid.IntRange(1, 4).Draw(t, "online"), Noise: rapid.Uint64().Draw(t, "noise"), Change: rapid.Uint64().Draw(t, "change"), Unmap: rapid.Bool().Draw(t, "unmap")}
	for i := 0; i < c.Users; i++ {
		c.IDs = append(c.IDs, gen.ID().Draw(t, "id"))
	}
	return c
}

func checkRegion(c region, x *kit.X) error {
	const bits = 2
	s := pttbbs.MemoryMappingSetting{AlignmentBytes: 1, MaxUsers: c.Users, IDLen: 12, HashBits: bits}
	online := 8 + 13*(c.Users+1) + 4*c.Users + 4 + 4*c.Users + 4 + 4 + 4<<bits + 4 + 4 + 4
	raw := make([]byte, online+3484*c.Online)
	gen.Noise(raw, c.Noise)
	for i, id := range c.IDs {
		copy(raw[8+13*i:], append([]byte(id), 0))
	}
	name := filepath.Join(x.Dir(), "shm")
	kit.Write(name, raw)
	shm, err := pttbbs.NewCache(name, &s)
	if err != nil {
		return err
	}
	closed := false
	defer func() {
		if !closed {
			shm.Close()
		}
	}()
	var ids []string
	var infos []*pttbbs.UserInfoCache
	for i := range c.IDs {
		ids = append(ids, shm.UserID(i))
	}
	for i := 0; i < c.Online; i++ {
		infos = append(infos, shm.UserInfo(i))
	}
	idWas, was := rec.Snapshot(ids), rec.Snapshot(infos)
	n := 0
	for i := 0; i < c.Online; i++ {
		n += rec.Scribble(shm.UserInfo(i))
	}
	if !bytes.Equal(shm.Bytes(), raw) {
		return fmt.Errorf("changing what was read changes the shared memory")
	}
	gen.Noise(shm.Bytes(), c.Change)
	if c.Unmap {
		closed = true
		if err := shm.Close(); err != nil {
			return err
		}
	}
	if err := differ("the ids which were read change with the shared memory", idWas, rec.Snapshot(ids)); err != nil {
		return err
	}
	if err := differ("the online users which were read change with the shared memory", was, rec.Snapshot(infos)); err != nil {
		return err
	}
	x.NonTrivial(c.Users >= 2 && n > 0)
	x.LabelIf(c.Unmap, "unmapped afterwards")
	return nil
}

// bbsCase reads all kinds of data through a database, then its files change
type bbsCase struct {
	Tree   gen.Tree
	Man    []byte
	Draft  []byte
	Change string
	Noise  uint64
}

func drawBBS(t *rapid.T) bbsCase {
	return bbsCase{
		Tree: gen.TreeOf(3, 3, 5).Draw(t, "tree"), Man: gen.Bytes(200).Draw(t, "man"), Draft: gen.Bytes(200).Draw(t, "draft"),
		Change: rapid.SampledFrom([]string{"overwrite", "truncate", "remove", "replace"}).Draw(t, "change"), Noise: rapid.Uint64().Draw(t, "noise"),
	}
}

func checkBBS(c bbsCase, x *kit.X) error {
	h := gen.Home(x.Dir())
	kit.Must(c.Tree.Write(h))
	user := c.Tree.Users[0]
	passwd := make([]byte, 512)
	gen.User.Find("userid").PutText(passwd, user)
	gen.User.Find("nickname").PutText(passwd, "name")
	kit.Write(h.Passwds(), passwd)
	kit.Write(h.User(user, "buf.1"), c.Draft)
	kit.Write(h.User(user, ".fav"), gen.EncodeFav(1, gen.Fav{{Kind: gen.FavBoard, Board: 1}, {Kind: gen.FavFolder, ID: 1, Title: "t", Sub: gen.Fav{{Kind: gen.FavLine, ID: 1}}}}))
	kit.Write(h.Man("SYSOP", []string{"D1"}, "M.1.A.001"), c.Man)
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	type read struct {
		what string
		f    func() (any, error)
	}
	reads := []read{
		{"users", func() (any, error) { return db.ReadUserRecords() }},
		{"boards", func() (any, error) { return db.ReadBoardRecords() }},
		{"favourites", func() (any, error) { return db.ReadUserFavoriteRecords(user) }},
		{"treasure article", func() (any, error) { return db.ReadBoardTreasureFile("SYSOP", []string{"D1"}, "M.1.A.001") }},
		{"draft", func() (any, error) {
			d, err := db.GetUserDrafts(user, "1")
			if err != nil {
				return nil, err
			}
			return d.Raw(), nil
		}},
		{"articles of the user", func() (any, error) { return db.GetUserArticleRecordFile(user) }},
	}
	arts := 0
	for _, b := range c.Tree.Boards {
		if !b.Listed() {
			continue
		}
		reads = append(reads, read{"index of " + b.ID, func() (any, error) { return db.ReadBoardArticleRecordsFile(b.ID) }})
		for _, a := range b.Arts {
			if !a.Gone {
				arts++
				reads = append(reads, read{"article " + a.File, func() (any, error) { return db.ReadBoardArticleFile(b.ID, a.File) }})
			}
		}
	}
	var got []any
	var was []string
	for i := range reads {
		v, err := reads[i].f()
		if err != nil {
			return fmt.Errorf("%s: %w", reads[i].what, err)
		}
		got, was = append(got, v), append(was, rec.Snapshot(v))
	}
	same := func(why string) error {
		for i := range reads {
			if err := differ(reads[i].what+" "+why, was[i], rec.Snapshot(got[i])); err != nil {
				return err
			}
		}
		return nil
	}
	if err := same("changes when others are read"); err != nil {
		return err
	}
	n := 0
	for i := range reads {
		v, err := reads[i].f()
		if err != nil {
			return fmt.Errorf("%s: %w", reads[i].what, err)
		}
		n += rec.Scribble(v)
		if err := differ(reads[i].what+" changes when what a second reading returned is changed", was[i], rec.Snapshot(got[i])); err != nil {
			return err
		}
		if v, err = reads[i].f(); err != nil {
			return fmt.Errorf("%s: %w", reads[i].what, err)
		}
		if err := differ(reads[i].what+" is read differently after what an earlier reading returned was changed", was[i], rec.Snapshot(v)); err != nil {
			return err
		}
	}
	var files []string
	kit.Must(filepath.Walk(string(h), func(name string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			files = append(files, name)
		}
		return err
	}))
	for i, name := range files {
		change(name, c.Change, c.Noise+uint64(i), len(kit.ReadFile(name)))
	}
	if err := same("changes with the files"); err != nil {
		return err
	}
	x.NonTrivial(arts > 0 && n > 10)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C35",
		Rule: "a case is a pair of records of any kind, a file of records, a region of shared memory, or a BBS read through the database; what it shows (exported fields and argument-less methods) is compared before and after its source is overwritten, truncated, removed or unmapped, after other records are read, encoded or changed, and the source is compared after the record was changed. It is non-trivial when the record has at least three values that can be changed and the pair differs; for a BBS when an article is read",
		Arms: kit.Arms(40, 1500, 20,
			kit.NewArm("buffers", 3000, 200000, drawPair, checkBuffers),
			kit.NewArm("files", 1500, 60000, drawFile, checkFiles),
			kit.NewArm("shared memory", 1500, 60000, drawRegion, checkRegion),
			kit.NewArm("database", 600, 30000, drawBBS, checkBBS),
		),
	})
}
