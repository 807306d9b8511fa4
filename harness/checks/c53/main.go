// C53: operations at the same time do not race in memory. Built with the race detector, which ends the
// process at the first two accesses that nothing orders.
package main

import (
	"bytes"
	"fmt"
	"net/url"
	"path/filepath"
	"sync"

	"verif/harness/acts"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"
	"verif/harness/web"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/crypt"
	formosa "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// together runs each of fs in several threads at the same time, and all of them beside each other
func together(each, rounds int, fs []func() error) error {
	var wg sync.WaitGroup
	errs := make([]error, each*len(fs))
	panics := make([]any, each*len(fs))
	start := make(chan struct{})
	for i := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			<-start
			for r := 0; r < rounds; r++ {
				if err := fs[(i+r)%len(fs)](); err != nil && errs[i] == nil {
					errs[i] = err
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for i := range errs {
		if panics[i] != nil {
			panic(panics[i])
		}
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// operations

func drawOps(names []string) func(t *rapid.T) []acts.Act {
	return func(t *rapid.T) []acts.Act {
		return rapid.SliceOfN(acts.Of(names), 1, 3).Draw(t, "acts")
	}
}

func checkOps(c []acts.Act, x *kit.X) error {
	var fs []func() error
	for i, a := range c {
		do := a.Do(gen.Home(filepath.Join(x.Dir(), fmt.Sprint(i)))) // one opening for all threads
		if acts.Writes(a.Name) {
			fs = append(fs, func() error { do(); return nil })
			x.NonTrivial(true)
		} else {
			want, werr := do()
			x.NonTrivial(werr == nil)
			fs = append(fs, func() error {
				got, err := do()
				if (err != nil) != (werr != nil) {
					return fmt.Errorf("reading the %s, others at the same time: error %v; alone: error %v", a.Name, err, werr)
				}
				if err == nil && got != want {
					return fmt.Errorf("reading the %s, others at the same time: %.300s; alone: %.300s", a.Name, got, want)
				}
				return nil
			})
		}
		x.Label(a.Name)
	}
	return together(3, 3, fs)
}

// records which several threads look at

type recCase struct {
	Kind string
	Recs [][]byte
	Pass string
}

func drawRecs(t *rapid.T) recCase {
	c := recCase{Kind: rapid.SampledFrom([]string{"board", "article", "user", "online", "formosa", "favourites"}).Draw(t, "kind"), Pass: gen.Ascii(9).Draw(t, "pass")}
	l := gen.Board
	switch c.Kind {
	case "article":
		l = gen.Article
	case "user":
		l = gen.User
	case "online":
		l = gen.Online
	case "formosa":
		l = gen.Formosa
	case "favourites":
		c.Recs = [][]byte{gen.EncodeFav(3363, gen.FavTree(2, rapid.Map(rapid.IntRange(0, 5), func(i int) uint32 { return uint32(i) })).Draw(t, "fav"))}
		return c
	}
	c.Recs = rapid.SliceOfN(l.Record(), 1, 3).Draw(t, "recs")
	if c.Kind == "user" {
		for _, r := range c.Recs {
			gen.User.Find("passwd").PutText(r, gen.DESCrypt([]byte(c.Pass), "ab"))
		}
	}
	return c
}

// decode returns the record, and what marshals it
func (c recCase) decode(raw []byte) (any, func() ([]byte, error), error) {
	raw = append([]byte{}, raw...)
	switch c.Kind {
	case "board":
		b, err := pttbbs.UnmarshalBoardHeader(raw)
		return b, func() ([]byte, error) { return b.MarshalBinary() }, err
	case "article":
		a, err := pttbbs.NewFileHeaderWithByte(raw)
		return a, func() ([]byte, error) { return a.MarshalToByte() }, err
	case "user":
		u, err := pttbbs.UnmarshalUserec(raw)
		return u, func() ([]byte, error) {
			if len(c.Pass) == 0 {
				return u.MarshalBinary()
			}
			if err := u.VerifyPassword(c.Pass); err != nil {
				return nil, fmt.Errorf("the right password: %w", err)
			}
			if u.VerifyPassword(c.Pass+"x") == nil && len(c.Pass) > 0 && len(c.Pass) < 8 {
				return nil, fmt.Errorf("a wrong password is accepted")
			}
			return u.MarshalBinary()
		}, err
	case "online":
		u := pttbbs.UnmarshalUserInfo(raw)
		return u, func() ([]byte, error) { return u.MarshalBinary(), nil }, nil
	case "formosa":
		a, err := formosa.NewFomosaBBSFileHeaderWithByte(raw)
		return a, func() ([]byte, error) { return nil, nil }, err
	}
	f, err := pttbbs.UnmarshalFavFile(raw)
	return f, func() ([]byte, error) { return f.MarshalBinary() }, err
}

func checkRecs(c recCase, x *kit.X) error {
	var fs []func() error
	for _, raw := range c.Recs {
		alone, enc, err := c.decode(raw)
		if err != nil {
			return err
		}
		want := rec.Snapshot(alone)
		bytesWant, err := enc()
		if err != nil {
			return err
		}
		shared, enc, err := c.decode(raw) // which nobody has looked at yet
		if err != nil {
			return err
		}
		fs = append(fs, func() error {
			if got := rec.Snapshot(shared); got != want {
				return fmt.Errorf("a %s looked at by several threads: %.300s; by one: %.300s", c.Kind, got, want)
			}
			return nil
		}, func() error {
			got, err := enc()
			if err != nil {
				return err
			}
			if !bytes.Equal(got, bytesWant) {
				return fmt.Errorf("a %s written by several threads: %x; by one: %x", c.Kind, got, bytesWant)
			}
			return nil
		})
	}
	x.NonTrivial(true)
	x.Label(c.Kind)
	return together(2, 3, fs)
}

// functions on texts

type textCase struct {
	Text  []string
	Bytes [][]byte
	Salts []string
}

func drawTexts(t *rapid.T) textCase {
	return textCase{
		rapid.SliceOfN(gen.Text(40), 1, 4).Draw(t, "texts"), rapid.SliceOfN(gen.Bytes(60), 1, 4).Draw(t, "bytes"),
		rapid.SliceOfN(gen.Match(`[./0-9A-Za-z]{2}`), 1, 2).Draw(t, "salts"),
	}
}

func checkTexts(c textCase, x *kit.X) error {
	var fs []func() error
	add := func(what string, f func() string) {
		want := f()
		fs = append(fs, func() error {
			if got := f(); got != want {
				return fmt.Errorf("%s, others at the same time: %q; alone: %q", what, got, want)
			}
			return nil
		})
	}
	for _, s := range c.Text {
		add("Utf8ToBig5", func() string { return string(bbs.Utf8ToBig5(s)) })
		add("FilterStringANSI", func() string { return bbs.FilterStringANSI("\x1b[1;31m" + s + "\x1b[m") })
	}
	for _, b := range c.Bytes {
		add("Big5ToUtf8", func() string { return bbs.Big5ToUtf8(b) })
		add("CstrToString", func() string { return bbs.CstrToString(b) })
	}
	for _, s := range c.Salts {
		add("Fcrypt", func() string {
			h, err := crypt.Fcrypt([]byte(c.Text[0]), []byte(s))
			return fmt.Sprint(h, err)
		})
	}
	ar := pttbbs.NewFileHeader()
	ar.SetFilename("M.1.A.001")
	for i, s := range c.Text {
		l := gen.Comment{Mark: "推", Owner: fmt.Sprint("user", i), Text: s, Gap: " ", Pad: " ", Month: 1, Day: 2, Hour: 3, Minute: 4}
		line := gen.MustBig5(l.Coloured())
		add("NewUserCommentRecord", func() string {
			r, err := bbs.NewUserCommentRecord(1, bbs.Big5ToUtf8(line), "test", ar)
			if err != nil {
				return "error"
			}
			return r.String()
		})
	}
	x.NonTrivial(true)
	return together(2, 3, fs)
}

// shared memory

type shmCase struct {
	Users int
	Seed  uint64
}

func drawShm(t *rapid.T) shmCase {
	return shmCase{rapid.IntRange(1, 4).Draw(t, "users"), rapid.Uint64().Draw(t, "seed")}
}

func checkShm(c shmCase, x *kit.X) error {
	name := filepath.Join(x.Dir(), "shm")
	set := &pttbbs.MemoryMappingSetting{AlignmentBytes: 4, MaxUsers: c.Users, IDLen: 12, HashBits: 4}
	raw := make([]byte, 40000+c.Users*8000) // more than such a region has
	n := c.Seed
	for i := range raw {
		n = n*6364136223846793005 + 1442695040888963407
		raw[i] = byte(n >> 56)
	}
	kit.Write(name, raw)
	shm, err := pttbbs.NewCache(name, set)
	if err != nil {
		return err
	}
	defer shm.Close()
	var fs []func() error
	for u := 0; u < c.Users; u++ {
		f := func() string {
			return fmt.Sprint(shm.Version(), shm.UserID(u), shm.Money(u), rec.Snapshot(shm.UserInfo(u)))
		}
		want := f()
		fs = append(fs, func() error {
			if got := f(); got != want {
				return fmt.Errorf("user %d, others at the same time: %.200s; alone: %.200s", u, got, want)
			}
			return nil
		})
	}
	x.NonTrivial(true)
	return together(2, 2, fs)
}

// the web server, which is built with the detector, too

type serverCase struct {
	web.Accounts
	Boards [][]byte
	Asks   []int
}

func drawServer(t *rapid.T) serverCase {
	c := serverCase{web.AccountsOf().Draw(t, "accounts"), rapid.SliceOfN(gen.Board.Record(), 0, 4).Draw(t, "boards"), rapid.SliceOfN(rapid.IntRange(0, 3), 4, 12).Draw(t, "asks")}
	c.Crowd = 0
	return c
}

func checkServer(c serverCase, x *kit.X) error {
	h := web.Home(x.Dir())
	kit.Write(h.Passwds(), c.File())
	kit.Write(h.Boards(), gen.Join(c.Boards))
	s, err := web.Start(x.Dir())
	if err != nil {
		return err
	}
	defer s.Stop()
	id, pass := "nobody", ""
	var fs []func() error
	for i, a := range c.Asks {
		if len(c.List) > 0 {
			u := c.List[i%len(c.List)]
			id, pass = u.ID, u.Password
		}
		user, pw := id, pass
		fs = append(fs, func() error {
			var err error
			switch a {
			case 0:
				_, err = s.Post("/v1/token", url.Values{"grant_type": {"password"}, "username": {user}, "password": {pw}})
			case 1:
				_, err = s.Get("/v1/users/"+web.Escape(user)+"/information", nil)
			case 2:
				_, err = s.Get("/v1/boards", nil)
			default:
				_, err = s.Get("/v1/classes/1", nil)
			}
			if err != nil {
				b := kit.ReadFile(filepath.Join(x.Dir(), "log"))
				if i := bytes.Index(b, []byte("WARNING: DATA RACE")); i >= 0 {
					return fmt.Errorf("%w: %.1200s", err, b[i:])
				}
			}
			return err
		})
	}
	x.NonTrivial(true)
	return together(1, 2, fs)
}

func main() {
	kit.Main(kit.Property{
		ID:      "C53",
		Rule:    "a case is up to three operations on homes of their own, each done by three threads through one opening; or records which several threads look at and encode; or conversions of texts and passwords; or a region of shared memory; or requests to a running server; in several rounds, under the race detector. A case is non-trivial when an operation succeeded or wrote",
		Race:    true,
		Prepare: web.Build("./serverlet", "-race"), Wrap: web.Wrap, Serial: !web.Private(),
		Assumptions: []string{"no thread changes a record another one reads; Register and Open are done before"},
		Arms: []kit.Arm{
			kit.NewArm("reading", 400, 16000, drawOps(acts.Reading), checkOps).AsRacy(),
			kit.NewArm("all", 400, 16000, drawOps(acts.All), checkOps).AsRacy(),
			kit.NewArm("records", 500, 20000, drawRecs, checkRecs).AsRacy(),
			kit.NewArm("texts", 500, 20000, drawTexts, checkTexts).AsRacy(),
			kit.NewArm("shared memory", 80, 3000, drawShm, checkShm).AsRacy(),
			kit.NewArm("server", 60, 2000, drawServer, checkServer).AsRacy(),
		},
	})
}
