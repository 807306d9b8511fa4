// C37: no operation leaves a file open, whether it succeeds or fails.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/cache"
	formosa "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// step of a history: an operation on the pick-th board, article, user or file
type step struct {
	Op   string
	Pick int
	N    int
	Text string
}

type history struct {
	Tree  gen.Tree
	Users int
	Steps []step
}

// bench is where a history runs
type bench struct {
	h       gen.Home
	c       history
	db      *bbs.DB
	conn    *pttbbs.Connector
	paths   []string // what there was in the beginning
	regions []cache.Cache
}

func (b *bench) board(s step) string {
	var ids []string
	for _, x := range b.c.Tree.Boards {
		if x.ID != "" {
			ids = append(ids, x.ID)
		}
	}
	ids = append(ids, "nosuchboard", "SYSOP", "SYSOP")
	return ids[s.Pick%len(ids)]
}

func (b *bench) article(s step) string {
	for _, x := range b.c.Tree.Boards {
		if x.ID == b.board(s) && len(x.Arts) > 0 {
			return x.Arts[s.N%len(x.Arts)].File
		}
	}
	return "M.1.A.001"
}

func (b *bench) user(s step) string { return b.c.Tree.Users[s.N%len(b.c.Tree.Users)] }

func (b *bench) file(s step) string { return b.paths[s.Pick%len(b.paths)] }

func two[T any](_ T, err error) error { return err }

// ops are the operations of the code under test
var ops = map[string]func(b *bench, s step) error{
	"users":      func(b *bench, s step) error { return two(b.db.ReadUserRecords()) },
	"boards":     func(b *bench, s step) error { return two(b.db.ReadBoardRecords()) },
	"favourites": func(b *bench, s step) error { return two(b.db.ReadUserFavoriteRecords(b.user(s))) },
	"index":      func(b *bench, s step) error { return two(b.db.ReadBoardArticleRecordsFile(b.board(s))) },
	"treasure index": func(b *bench, s step) error {
		return two(b.db.ReadBoardTreasureRecordsFile(b.board(s), []string{"D1"}))
	},
	"article": func(b *bench, s step) error { return two(b.db.ReadBoardArticleFile(b.board(s), b.article(s))) },
	"treasure": func(b *bench, s step) error {
		return two(b.db.ReadBoardTreasureFile(b.board(s), []string{"D1"}, "M.1.A.001"))
	},
	"user articles":  func(b *bench, s step) error { return two(b.db.GetUserArticleRecordFile(b.user(s))) },
	"user comments":  func(b *bench, s step) error { return two(b.db.GetUserCommentRecordFile(b.user(s))) },
	"board comments": func(b *bench, s step) error { return two(b.db.GetBoardUserCommentRecord(b.board(s), b.user(s))) },
	"article comments": func(b *bench, s step) error {
		return two(b.db.GetBoardArticleCommentRecords(b.board(s), header(b.article(s), "x")))
	},
	"draft": func(b *bench, s step) error { return two(b.db.GetUserDrafts(b.user(s), s.draft())) },
	"save draft": func(b *bench, s step) error {
		return b.db.WriteUserDraft(b.user(s), s.draft(), bbs.NewUserDraft([]byte(s.Text)))
	},
	"delete draft": func(b *bench, s step) error { return b.db.DeleteUserDraft(b.user(s), s.draft()) },
	"write article": func(b *bench, s step) error {
		return b.db.WriteBoardArticleFile(b.board(s), b.article(s), []byte(s.Text))
	},
	"append article": func(b *bench, s step) error {
		return b.db.AppendBoardArticleFile(b.board(s), b.article(s), []byte(s.Text))
	},
	"add board": func(b *bench, s step) error {
		r, err := b.db.NewBoardRecord(map[string]interface{}{"board_id": fmt.Sprintf("b%d", s.N), "title": s.Text})
		if err != nil {
			return err
		}
		return b.db.AddBoardRecord(r)
	},
	"post": func(b *bench, s step) error {
		a, err := b.db.CreateArticleRecord(b.board(s), b.user(s), "1/02", s.Text)
		if err != nil {
			return err
		}
		if err := b.db.WriteBoardArticleFile(b.board(s), a.Filename(), []byte(s.Text)); err != nil {
			return err
		}
		return b.db.AddArticleRecordFileRecord(b.board(s), a)
	},
	"post with map": func(b *bench, s step) error {
		return two(b.conn.NewArticleRecordWithMap(map[string]interface{}{"owner": b.user(s), "date": "1/02", "title": s.Text, "board_id": b.board(s)}))
	},
	"list article": func(b *bench, s step) error {
		return b.db.AddArticleRecordFileRecord(b.board(s), header(b.article(s), s.Text))
	},
	"board file":     func(b *bench, s step) error { return two(pttbbs.OpenBoardHeaderFile(b.file(s))) },
	"article file":   func(b *bench, s step) error { return two(pttbbs.OpenFileHeaderFile(b.file(s))) },
	"user file":      func(b *bench, s step) error { return two(pttbbs.OpenUserecFile(b.file(s))) },
	"online file":    func(b *bench, s step) error { return two(pttbbs.OpenUserInfoCache(b.file(s))) },
	"favourite file": func(b *bench, s step) error { return two(pttbbs.OpenFavFile(b.file(s))) },
	"recent file":    func(b *bench, s step) error { return two(pttbbs.OpenLoginRecentFile(b.file(s))) },
	"attempts file":  func(b *bench, s step) error { return two(pttbbs.OpenBadLoginFile(b.file(s))) },
	"formosa file":   func(b *bench, s step) error { return two(formosa.OpenFormosaBBSFileHeaderFile(b.file(s))) },
	"raw file":       func(b *bench, s step) error { return two(b.conn.ReadBoardArticleFile(b.file(s))) },
	"append board record": func(b *bench, s step) error {
		r := pttbbs.NewBoardHeader()
		r.SetBoardID("new")
		return pttbbs.AppendBoardHeaderFileRecord(b.file(s), r)
	},
	"remove board record": func(b *bench, s step) error { return pttbbs.RemoveBoardHeaderFileRecord(b.file(s), s.N%6-1) },
	"append article record": func(b *bench, s step) error {
		return pttbbs.AppendFileHeaderFileRecord(b.file(s), header("M.1.A.001", s.Text))
	},
	"update article record": func(b *bench, s step) error {
		return pttbbs.UpdateFileHeaderFileRecord(b.file(s), uint(s.N%6), header("M.1.A.001", s.Text))
	},
	"map region": func(b *bench, s step) error {
		shm, err := cache.OpenMmap(b.file(s))
		if err == nil {
			b.regions = append(b.regions, shm)
		}
		return err
	},
	"create region": func(b *bench, s step) error {
		shm, err := cache.CreateMmap(filepath.Join(string(b.h), fmt.Sprintf("shm%d", s.Pick)), int64(s.N%5-1)*100)
		if err == nil {
			b.regions = append(b.regions, shm)
		}
		return err
	},
	"open shared memory": func(b *bench, s step) error {
		shm, err := pttbbs.NewCache(b.file(s), &pttbbs.MemoryMappingSetting{AlignmentBytes: 1, MaxUsers: 2, IDLen: 12})
		if err == nil {
			b.regions = append(b.regions, shm)
		}
		return err
	},
}

// faults are what happens to a file in between
var faults = map[string]func(b *bench, s step){
	"! gone": func(b *bench, s step) { os.RemoveAll(b.file(s)) },
	"! directory": func(b *bench, s step) {
		os.RemoveAll(b.file(s))
		kit.Must(os.MkdirAll(b.file(s), 0755))
	},
	"! link to nothing": func(b *bench, s step) { b.link(s, filepath.Join(string(b.h), "gone", "gone")) },
	"! link to itself":  func(b *bench, s step) { b.link(s, b.file(s)) },
	"! empty":           func(b *bench, s step) { b.put(s, nil) },
	"! noise": func(b *bench, s step) {
		junk := make([]byte, s.N*37%9000)
		gen.Noise(junk, uint64(s.N))
		b.put(s, junk)
	},
	"! text": func(b *bench, s step) { b.put(s, []byte(strings.Repeat(s.Text+"\n", s.N%50))) },
	"! cut": func(b *bench, s step) {
		if fi, err := os.Lstat(b.file(s)); err == nil && fi.Mode().IsRegular() {
			kit.Must(os.Truncate(b.file(s), fi.Size()-int64(s.N)%(fi.Size()+1)))
		}
	},
	"! log": func(b *bench, s step) {
		b.put(s, []byte(strings.Repeat("[01/02/2003 03:04:05 Thu] ?10.0.0.1\n01/02/2003 03:04:05 Thu 10.0.0.1\n", s.N%4)+s.Text))
	},
}

func (b *bench) link(s step, to string) {
	os.RemoveAll(b.file(s))
	kit.Must(os.MkdirAll(filepath.Dir(b.file(s)), 0755))
	kit.Must(syscall.Symlink(to, b.file(s)))
}

func (b *bench) put(s step, data []byte) {
	os.RemoveAll(b.file(s))
	kit.Write(b.file(s), data)
}

// writes can be made to fail for a full device
var writes = []string{"save draft", "write article", "append article", "append board record", "append article record", "list article", "add board"}

func (s step) draft() string { return fmt.Sprint(s.Pick % 3) }

func header(file, title string) *pttbbs.FileHeader {
	f := pttbbs.NewFileHeader()
	f.SetFilename(file)
	f.SetTitle(title)
	f.SetModified(time.Unix(1, 0))
	return f
}

// target is the file which a writing operation writes to
func (b *bench) target(s step) string {
	switch s.Op {
	case "save draft":
		return b.h.User(b.user(s), "buf."+s.draft())
	case "write article", "append article":
		return b.h.Board(b.board(s), b.article(s))
	case "list article":
		return b.h.Board(b.board(s), ".DIR")
	case "add board":
		return b.h.Boards()
	}
	return b.file(s)
}

// full runs the operation while its file is a full device
func (b *bench) full(s step) error {
	name := b.target(s)
	if fi, err := os.Lstat(name); err != nil || !fi.Mode().IsRegular() {
		return ops[s.Op](b, s)
	}
	kit.Must(os.Rename(name, name+".aside"))
	kit.Must(syscall.Symlink("/dev/full", name))
	defer func() {
		os.Remove(name)
		kit.Must(os.Rename(name+".aside", name))
	}()
	return ops[s.Op](b, s)
}

// open lists what this process has open or mapped below dir, and full devices
func open(dir string) (out []string) {
	d, err := os.Open("/proc/self/fd")
	kit.Must(err)
	names, err := d.Readdirnames(-1)
	kit.Must(err)
	kit.Must(d.Close())
	for _, n := range names {
		to, err := os.Readlink("/proc/self/fd/" + n)
		if err == nil && (strings.HasPrefix(to, dir+"/") || to == dir || strings.HasPrefix(to, "/dev/full")) {
			out = append(out, to)
		}
	}
	for _, l := range strings.Split(string(kit.ReadFile("/proc/self/maps")), "\n") {
		if strings.Contains(l, " "+dir+"/") {
			out = append(out, l)
		}
	}
	return
}

func drawHistory(max int) func(t *rapid.T) history {
	var names, bad []string
	for n := range ops {
		names = append(names, n)
	}
	for n := range faults {
		bad = append(bad, n)
	}
	sortStrings(names)
	sortStrings(bad)
	return func(t *rapid.T) history {
		c := history{Tree: gen.TreeOf(3, 3, 3).Draw(t, "tree"), Users: rapid.IntRange(1, 3).Draw(t, "users")}
		for i := gen.Num(1, max).Draw(t, "steps"); i > 0; i-- {
			s := step{Pick: gen.Num(0, 40).Draw(t, "pick"), N: gen.Num(0, 400).Draw(t, "n"), Text: rapid.SampledFrom([]string{"", "text", "a\nb", strings.Repeat("x", 600)}).Draw(t, "text")}
			switch rapid.IntRange(0, 5).Draw(t, "step") {
			case 0, 1:
				s.Op = rapid.SampledFrom(bad).Draw(t, "fault")
			case 2:
				s.Op = "full: " + rapid.SampledFrom(writes).Draw(t, "write")
			default:
				s.Op = rapid.SampledFrom(names).Draw(t, "op")
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func check(c history, x *kit.X) error {
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // a finalizer would close what was left open
	dir, err := filepath.EvalSymlinks(x.Dir())
	kit.Must(err)
	b := &bench{h: gen.Home(dir), c: c, conn: &pttbbs.Connector{}}
	kit.Must(c.Tree.Write(b.h))
	user := c.Tree.Users[0]
	passwd := make([]byte, 512*c.Users)
	for i := 0; i < c.Users; i++ {
		gen.User.Find("userid").PutText(passwd[512*i:][:512], c.Tree.Users[i])
	}
	kit.Write(b.h.Passwds(), passwd)
	kit.Write(b.h.User(user, "buf.0"), []byte("draft"))
	kit.Write(b.h.User(user, ".fav"), gen.EncodeFav(3363, gen.Fav{{Kind: gen.FavBoard, Board: 1}, {Kind: gen.FavFolder, Title: "t"}}))
	kit.Write(b.h.User(user, "logins.recent"), []byte("01/02/2003 03:04:05 Thu 10.0.0.1\n"))
	kit.Write(b.h.User(user, "logins.bad"), []byte("[01/02/2003 03:04:05 Thu] ?10.0.0.1\n"))
	kit.Write(b.h.Man("SYSOP", []string{"D1"}, ".DIR"), gen.NewArticle("M.1.A.001", "a", "1/02", "t"))
	kit.Write(filepath.Join(dir, "online"), make([]byte, 3484*2))
	kit.Write(filepath.Join(dir, "formosa"), make([]byte, 248*2))
	kit.Must(filepath.Walk(dir, func(name string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b.paths = append(b.paths, name)
		}
		return err
	}))
	kit.Must(b.conn.Open(dir))
	if b.db, err = bbs.Open("pttbbs", dir); err != nil {
		return err
	}
	if left := open(dir); len(left) > 0 {
		return fmt.Errorf("opening the database leaves open: %q", left)
	}
	failed, succeeded := 0, 0
	for i, s := range c.Steps {
		if f, ok := faults[s.Op]; ok {
			f(b, s)
			continue
		}
		var err error
		if op, ok := strings.CutPrefix(s.Op, "full: "); ok {
			s.Op = op
			err = b.full(s)
			x.LabelIf(err != nil && strings.Contains(err.Error(), "no space"), "device full")
		} else {
			err = ops[s.Op](b, s)
		}
		if err != nil {
			failed++
			x.Label("failed: " + s.Op)
		} else {
			succeeded++
			x.Label("succeeded: " + s.Op)
		}
		for _, r := range b.regions {
			r.Close()
		}
		b.regions = nil
		if left := open(dir); len(left) > 0 {
			return fmt.Errorf("step %d, %q which returned %v, leaves open: %q", i, s.Op, err, left)
		}
	}
	x.NonTrivial(failed > 0 && succeeded > 0)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C37",
		Rule: "a case is a BBS and a history of operations (34 kinds, on any file there is) mixed with faults: files which disappear, become directories, links to nothing or to themselves, empty, noise, text or shorter, and full devices; after each operation nothing below the BBS may be open or mapped. It is non-trivial when one operation fails and one succeeds",
		Assumptions: []string{
			"what is open is read from /proc/self/fd and /proc/self/maps; garbage collection is off during a case so that no finalizer closes what was left open",
			"a region that was opened is closed by its user",
		},
		Arms: []kit.Arm{
			kit.NewArm("histories", 2000, 100000, drawHistory(25), check),
			kit.NewArm("long histories", 60, 4000, drawHistory(200), check),
		},
	})
}
