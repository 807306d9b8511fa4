// C55: an operation changes nothing but what it is about.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/harness/acts"
	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// step is one operation; New tells whether it creates an article, in one of two ways, instead of Act
type step struct {
	Act   acts.Act
	New   int
	Fault int // the call which fails, counted from 1; 0 for none
	Errno uint16
}

// odd is something about the home which is not as usual
type odd struct {
	How  string
	At   int // of the files, modulo their number
	Step int // the file of that step instead, counted from 1
	As   string
}

type frameCase struct {
	Steps []step
	Odd   []odd
	Umask int
	Bare  bool // without a time zone, home and the like in the environment
	Power bool // modes do not apply
}

var (
	suffixes = []string{".bak", "~", ".tmp", ".new", ".old", ".lock", ".swp", ".1", "0", ".journal"}
	names    = []string{"M.1.A.000.tmp", "buf.10", "buf.", "buf.1.bak", ".DIR.lock", ".BRD~", ".tmp", "tmp", "#1", "M.1", "core", ".DIR.1", ".BRD.new", ".PASSWDS~"}
	modes    = []string{"0600", "0640", "0664", "0666", "0755", "0444", "0400", "2644", "0000"}
	errnos   = []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.ENOSPC, syscall.EDQUOT, syscall.EACCES, syscall.EMFILE, syscall.EROFS, syscall.ENOENT, syscall.EFBIG}
	mutating = func() (l []string) {
		for _, n := range acts.All {
			if acts.Writes(n) {
				l = append(l, n)
			}
		}
		return
	}()
)

func stepOf(faults bool) *rapid.Generator[step] {
	return rapid.Custom(func(t *rapid.T) step {
		of := mutating
		if rapid.IntRange(0, 2).Draw(t, "reads") == 0 {
			of = acts.Reading
		}
		s := step{Act: acts.Of(of).Draw(t, "act")}
		s.Act.Pick = gen.Num(0, 12).Draw(t, "pick")
		if rapid.IntRange(0, 7).Draw(t, "create") == 0 {
			s.New = rapid.IntRange(1, 2).Draw(t, "how")
		}
		if faults {
			s.Fault = gen.Num(0, 12).Draw(t, "fault")
			s.Errno = uint16(rapid.SampledFrom(errnos).Draw(t, "errno"))
		}
		return s
	})
}

func drawOdd(t *rapid.T) odd {
	o := odd{How: rapid.SampledFrom([]string{"mode", "mode", "link", "link to directory", "gone", "no directory", "directory", "more", "like", "torn"}).Draw(t, "how"), At: gen.Num(0, 40).Draw(t, "file")}
	if rapid.Bool().Draw(t, "of a step") {
		o.Step = rapid.IntRange(1, 8).Draw(t, "step")
	}
	switch o.How {
	case "mode":
		o.As = rapid.SampledFrom(modes).Draw(t, "as")
	case "more":
		o.As = rapid.SampledFrom(names).Draw(t, "as")
	case "like":
		o.As = rapid.SampledFrom(suffixes).Draw(t, "as")
	}
	return o
}

func draw(faults bool) func(t *rapid.T) frameCase {
	return func(t *rapid.T) frameCase {
		return frameCase{
			Steps: gen.ListOf(stepOf(faults), 1, 8, 20).Draw(t, "steps"),
			Odd:   rapid.SliceOfN(rapid.Custom(drawOdd), 0, 6).Draw(t, "odd"),
			Umask: rapid.SampledFrom([]int{022, 022, 022, 002, 077, 0}).Draw(t, "umask"),
			Bare:  rapid.Bool().Draw(t, "bare"),
			Power: rapid.Bool().Draw(t, "power"),
		}
	}
}

// all is one home for all steps
func all(l []step) acts.Home {
	h := l[0].Act.Home
	for _, s := range l[1:] {
		o := s.Act.Home
		for _, p := range []struct{ to, from *[][]byte }{{&h.Users, &o.Users}, {&h.Online, &o.Online}, {&h.Man, &o.Man}, {&h.Other, &o.Other}} {
			if *p.to == nil {
				*p.to = *p.from
			}
		}
		if h.Fav == nil {
			h.Fav = o.Fav
		}
		if h.Draft == nil {
			h.Draft = o.Draft
		}
		if h.Bad == nil {
			h.Bad = o.Bad
		}
		if h.Recent == nil {
			h.Recent = o.Recent
		}
		if len(o.Boards) > len(h.Boards) {
			h.Tree = o.Tree
		}
	}
	return h
}

// state of a file
type state struct {
	ino  uint64
	mode os.FileMode
	at   time.Time
	what string // content, or where it leads
}

func (s state) String() string {
	return fmt.Sprintf("inode %d, %s, changed %s, %.200q", s.ino, s.mode, s.at.Format("2006"), s.what)
}

// files are all below a directory
func files(dir string) map[string]state {
	m := map[string]state{}
	kit.Must(filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		kit.Must(err)
		s := state{ino: i.Sys().(*syscall.Stat_t).Ino, mode: i.Mode(), at: i.ModTime()}
		switch {
		case i.Mode()&os.ModeSymlink != 0:
			s.what, err = os.Readlink(p)
			kit.Must(err)
		case !i.IsDir():
			s.what = string(kit.ReadFile(p))
		}
		m[p] = s
		return nil
	}))
	return m
}

var longAgo = time.Unix(1e9, 0)

// age makes all changes visible, however soon they come
func age(dir string) {
	kit.Must(filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		kit.Must(err)
		if i.Mode()&os.ModeSymlink == 0 {
			kit.Must(os.Chtimes(p, longAgo, longAgo))
		}
		return nil
	}))
}

// apply it to the home
func (o odd) apply(dir string, n int, target string) {
	var l []string
	for p, s := range files(dir + "/home") {
		if !s.mode.IsDir() && s.mode&os.ModeSymlink == 0 {
			l = append(l, p)
		}
	}
	if len(l) == 0 {
		return
	}
	sort.Strings(l)
	p := l[o.At%len(l)]
	if i, err := os.Lstat(target); err == nil && i.Mode().IsRegular() {
		p = target
	}
	// names which are taken do not change hands
	fresh := func(name string) bool { _, err := os.Lstat(name); return err != nil }
	switch o.How {
	case "mode":
		var m uint32
		_, err := fmt.Sscanf(o.As, "%o", &m)
		kit.Must(err)
		kit.Must(syscall.Chmod(p, m))
	case "link":
		to := fmt.Sprint(dir, "/elsewhere/", n)
		kit.Must(os.Rename(p, to))
		kit.Must(os.Symlink(to, p))
	case "link to directory":
		d := filepath.Dir(p)
		if d == dir+"/home" || d == dir+"/elsewhere" {
			return
		}
		i, err := os.Lstat(d)
		kit.Must(err)
		if i.IsDir() {
			to := fmt.Sprint(dir, "/elsewhere/", n)
			kit.Must(os.Rename(d, to))
			kit.Must(os.Symlink(to, d))
		}
	case "gone":
		kit.Must(os.Remove(p))
	case "no directory":
		if d := filepath.Dir(p); d != dir+"/home" && d != dir+"/elsewhere" {
			kit.Must(os.RemoveAll(d))
		}
	case "torn":
		b := kit.ReadFile(p)
		kit.Must(os.Truncate(p, int64(len(b)-min(len(b), 1+o.At))))
	case "directory": // where a file should be
		kit.Must(os.Remove(p))
		kit.Must(os.Mkdir(p, 0755))
	case "more":
		if q := filepath.Dir(p) + "/" + o.As; fresh(q) {
			kit.Write(q, []byte("a bystander"))
		}
	case "like":
		if q := p + o.As; fresh(q) {
			kit.Write(q, []byte("another bystander"))
		}
	}
}

// resolved is where the path leads
func resolved(p string) string {
	for i := 0; i < 20; i++ {
		d, err := filepath.EvalSymlinks(filepath.Dir(p))
		if err != nil {
			return p
		}
		p = d + "/" + filepath.Base(p)
		l, err := os.Readlink(p)
		if err != nil {
			return p
		}
		p = l
	}
	return p
}

func check(c frameCase, x *kit.X) error {
	dir, err := filepath.EvalSymlinks(x.Dir())
	kit.Must(err)
	for _, d := range []string{"/home", "/elsewhere", "/tmp", "/cwd"} {
		kit.Must(os.Mkdir(dir+d, 0755))
	}
	h := gen.Home(dir + "/home")
	home := all(c.Steps)
	for i := range c.Steps {
		c.Steps[i].Act.Home = home
	}
	c.Steps[0].Act.Do(h)
	for i, o := range c.Odd {
		target := ""
		if o.Step > 0 {
			if target = c.Steps[(o.Step-1)%len(c.Steps)].Act.Target(h); target != "" {
				target = resolved(target)
			}
		}
		o.apply(dir, i, target)
	}
	old, err := os.Getwd()
	kit.Must(err)
	kit.Must(os.Chdir(dir + "/cwd"))
	defer os.Chdir(old)
	oldTmp := os.Getenv("TMPDIR")
	kit.Must(os.Setenv("TMPDIR", dir+"/tmp"))
	defer os.Setenv("TMPDIR", oldTmp)
	if c.Bare {
		for _, n := range []string{"TZ", "HOME", "LANG", "LC_ALL", "USER", "LOGNAME"} {
			if old, ok := os.LookupEnv(n); ok {
				kit.Must(os.Unsetenv(n))
				defer os.Setenv(n, old)
			}
		}
	}
	env := environment()
	oldMask := syscall.Umask(c.Umask)
	defer syscall.Umask(oldMask)

	changed, failed := 0, 0
	for i, s := range c.Steps {
		what := s.Act.Name
		// where something may change, and whether it is a file of a name nobody knows before
		target, once := s.Act.Target(h), false
		var made string
		do := s.Act.On(h)
		if s.New > 0 {
			what = "create article"
			b := s.Act.Board()
			once = true
			target = h.Board(b, "")
			do = func() (string, error) {
				var a bbs.ArticleRecord
				var err error
				if s.New == 1 {
					var db *bbs.DB
					if db, err = bbs.Open("pttbbs", string(h)); err == nil {
						a, err = db.CreateArticleRecord(b, "tester", "1/02", "title")
					}
				} else {
					co := &pttbbs.Connector{}
					if err = co.Open(string(h)); err == nil {
						a, err = co.NewArticleRecordWithMap(map[string]interface{}{"owner": "tester", "date": "1/02", "title": "title", "board_id": b})
					}
				}
				if err != nil {
					return "", err
				}
				made = a.Filename()
				return made, nil
			}
		}
		var at string
		if once {
			at, _ = filepath.EvalSymlinks(target)
		} else if target != "" {
			at = resolved(target)
			if strings.HasPrefix(what, "delete") { // the link, not what it leads to
				if d, err := filepath.EvalSymlinks(filepath.Dir(target)); err == nil {
					at = d + "/" + filepath.Base(target)
				}
			}
		}
		age(dir)
		before := files(dir)
		var operr error
		run := func() {
			if !c.Power && s.Fault > 0 {
				kit.DropPowers()
			}
			_, operr = do()
		}
		fault := ""
		if s.Fault == 0 && !c.Power {
			kit.Powerless(run)
		} else if s.Fault == 0 {
			run()
		} else if err := kit.Faults(dir, func(n int, k kit.Call) syscall.Errno {
			if n != s.Fault-1 {
				return 0
			}
			fault = fmt.Sprintf(" while the %s of %s fails with %v", k.Name, strings.TrimPrefix(k.File, dir), syscall.Errno(s.Errno))
			return syscall.Errno(s.Errno)
		}, run); err != nil {
			x.Label("no faults: " + err.Error())
			return nil
		}
		if operr != nil {
			failed++
		}
		fail := func(s string, args ...any) error {
			end := ""
			if operr != nil {
				end = fmt.Sprintf(" (it returns: %.300s)", operr)
			}
			return fmt.Errorf("step %d: %s%s%s %s", i, what, fault, end, fmt.Sprintf(s, args...))
		}
		if wd, err := os.Getwd(); err != nil || wd != dir+"/cwd" {
			return fail("changes the working directory")
		}
		if m := syscall.Umask(c.Umask); m != c.Umask {
			return fail("changes the umask to %o", m)
		}
		if now := environment(); now != env {
			return fail("changes the environment from %q to %q", env, now)
		}
		after := files(dir)
		entries, created := false, 0 // of the target's directory
		for p, b := range before {
			if _, ok := after[p]; ok {
				continue
			}
			if p != at || !strings.HasPrefix(what, "delete") {
				return fail("removes %s (%s)", strings.TrimPrefix(p, dir), b)
			}
			entries = true
			changed++
		}
		parent := filepath.Dir(at)
		if once {
			parent = at
		}
		for p, a := range after {
			if _, ok := before[p]; ok {
				continue
			}
			mine := p == at && (strings.HasPrefix(what, "add") || strings.HasPrefix(what, "write"))
			if once && filepath.Dir(p) == parent && (operr != nil || filepath.Base(p) == made) {
				mine = true
				created++
			}
			if !mine || created > 1 {
				return fail("creates %s (%s)", strings.TrimPrefix(p, dir), a)
			}
			if want := os.FileMode(0644 &^ c.Umask); a.mode != want {
				return fail("creates %s with mode %s instead of %s", strings.TrimPrefix(p, dir), a.mode, want)
			}
			entries = true
			changed++
		}
		if once && operr == nil && created != 1 {
			return fail("creates no file %q", made)
		}
		for p, b := range before {
			a, ok := after[p]
			if !ok || a == b {
				continue
			}
			if a.ino != b.ino {
				return fail("puts another file in the place of %s: %s, was %s", strings.TrimPrefix(p, dir), a, b)
			}
			if a.mode != b.mode && (p != at || a.mode != b.mode&^(os.ModeSetuid|os.ModeSetgid)) {
				return fail("changes the mode of %s from %s to %s", strings.TrimPrefix(p, dir), b.mode, a.mode)
			}
			if p == at && !b.mode.IsDir() && !once {
				changed++
				continue
			}
			if p == parent && entries && b.mode.IsDir() {
				continue
			}
			return fail("changes %s: %s, was %s", strings.TrimPrefix(p, dir), a, b)
		}
		x.Label(what)
	}
	x.LabelIf(failed > 0, "failed")
	x.NonTrivial(changed > 0 || failed > 0)
	return nil
}

func environment() string {
	e := os.Environ()
	sort.Strings(e)
	return strings.Join(e, "\n")
}

func main() {
	kit.Main(kit.Property{
		ID:   "C55",
		Rule: "a case is a BBS, up to six oddities of its files (modes, links, missing ones, bystanders of similar names), and up to twenty operations, reading and writing, also failing ones; all files below the home, the working directory and TMPDIR are compared before and after each: content, mode, inode, time. It is non-trivial when an operation changed its file, or failed",
		Arms: []kit.Arm{
			kit.NewArm("histories", 4000, 100000, draw(false), check),
			kit.NewArm("faults", 2500, 60000, draw(true), check),
		},
	})
}
