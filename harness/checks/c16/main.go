// C16: every created article gets a fresh file name of its own.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type plan struct {
	Board    string
	Free     int    // names per second which are not taken
	Step     int    // distance of the free names
	Taken    int    // seconds, from now on, whose names are taken
	Procs    bool   // creators are processes
	Creators []int  // how many articles each one creates
	Old      int    // what the taken names are of: an article, an empty file, a symbolic link, a directory
	Age      int64  // and how many seconds ago it was changed
	Mode     uint32 // and its mode
	Via      []int  // per creator 0: DB.CreateArticleRecord, 1: CreateBoardArticleFilename, 2: NewArticleRecordWithMap
}

func draw(procs bool) func(t *rapid.T) plan {
	return func(t *rapid.T) plan {
		p := plan{Board: gen.ID().Draw(t, "board"), Procs: procs, Taken: 4, Step: 2*gen.Num(0, 2047).Draw(t, "step") + 1}
		p.Creators = rapid.SliceOfN(gen.Num(1, 12), 2, 8).Draw(t, "creators")
		total := 0
		for range p.Creators {
			p.Via = append(p.Via, rapid.IntRange(0, 2).Draw(t, "via"))
		}
		for _, n := range p.Creators {
			total += n
		}
		p.Old, p.Age, p.Mode = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 1, 1, 2, 3}).Draw(t, "old"), rapid.SampledFrom([]int64{0, 30, 5000, 1 << 29, -5000}).Draw(t, "age"), rapid.SampledFrom([]uint32{0644, 0600, 0400, 0}).Draw(t, "mode")
		if rapid.IntRange(0, 4).Draw(t, "none taken?") == 0 {
			p.Free = 4096
		} else {
			p.Free = total + gen.Num(0, 60).Draw(t, "spare")
		}
		return p
	}
}

// all names of this second are taken, so creating one has to wait for the next
func drawFull(t *rapid.T) plan {
	return plan{Board: gen.ID().Draw(t, "board"), Taken: 2, Step: 1, Creators: []int{rapid.IntRange(1, 3).Draw(t, "n")}, Via: []int{rapid.IntRange(0, 2).Draw(t, "via")}}
}

type part struct {
	Home, Go, Board string
	N, Via          int
}

// create makes one article and returns its name
func create(home, board string, via, n int) (string, error) {
	if via == 0 {
		db, err := bbs.Open("pttbbs", home)
		if err != nil {
			return "", err
		}
		r, err := db.CreateArticleRecord(board, "owner", " 1/02", fmt.Sprint("title ", n))
		if err != nil {
			return "", err
		}
		return r.Filename(), nil
	}
	conn := &pttbbs.Connector{}
	if err := conn.Open(home); err != nil {
		return "", err
	}
	if via == 1 {
		return conn.CreateBoardArticleFilename(board)
	}
	r, err := conn.NewArticleRecordWithMap(map[string]interface{}{"owner": "owner", "date": " 1/02", "title": fmt.Sprint("title ", n), "board_id": board})
	if err != nil {
		return "", err
	}
	return r.Filename(), nil
}

func creator() {
	var p part
	if err := json.NewDecoder(os.Stdin).Decode(&p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Stdout.WriteString("r")
	for end := time.Now().Add(60 * time.Second); ; {
		if _, err := os.Stat(p.Go); err == nil {
			break
		}
		if time.Now().After(end) {
			os.Exit(3)
		}
		time.Sleep(50 * time.Microsecond)
	}
	for i := 0; i < p.N; i++ {
		name, err := create(p.Home, p.Board, p.Via, i)
		if err != nil {
			fmt.Fprintf(os.Stderr, "creation %d: %v\n", i, err)
			os.Exit(4)
		}
		fmt.Println(name)
	}
	os.Exit(0)
}

func byProcs(c plan, home string, gate string) ([][]string, error) {
	self, err := os.Executable()
	kit.Must(err)
	var cmds []*exec.Cmd
	var outs, errs []*bytes.Buffer
	for i, n := range c.Creators {
		in, err := json.Marshal(part{home, gate, c.Board, n, c.Via[i]})
		kit.Must(err)
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VERIF_CREATOR=1")
		cmd.Stdin = bytes.NewReader(in)
		eb, ob := &bytes.Buffer{}, &bytes.Buffer{}
		cmd.Stderr, cmd.Stdout = eb, ob
		kit.Must(cmd.Start())
		cmds, outs, errs = append(cmds, cmd), append(outs, ob), append(errs, eb)
	}
	time.Sleep(10 * time.Millisecond) // most of them wait at the gate by then
	kit.Write(gate, nil)
	var failed error
	names := make([][]string, len(cmds))
	for i, cmd := range cmds {
		late := false
		kill := time.AfterFunc(100*time.Second, func() { late = true; cmd.Process.Kill() })
		err := cmd.Wait()
		kill.Stop()
		switch {
		case err == nil:
			for _, l := range bytes.Fields(outs[i].Bytes()[1:]) {
				names[i] = append(names[i], string(l))
			}
		case late:
			failed = fmt.Errorf("creator %d did not end", i)
		case cmd.ProcessState.ExitCode() == 4 || cmd.ProcessState.ExitCode() == 2:
			failed = fmt.Errorf("creator %d: %s", i, errs[i])
		default:
			kit.Harness(fmt.Errorf("creator %d: %v %s", i, err, errs[i]))
		}
	}
	return names, failed
}

func byThreads(c plan, home string) ([][]string, error) {
	start := make(chan struct{})
	names := make([][]string, len(c.Creators))
	errs := make([]error, len(c.Creators))
	var wg sync.WaitGroup
	for i, n := range c.Creators {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[i] = fmt.Errorf("panic: %v", r)
				}
			}()
			<-start
			for j := 0; j < n; j++ {
				name, err := create(home, c.Board, c.Via[i], j)
				if err != nil {
					errs[i] = fmt.Errorf("creator %d, creation %d: %w", i, j, err)
					return
				}
				names[i] = append(names[i], name)
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return nil, err
		}
	}
	return names, nil
}

var form = regexp.MustCompile(`^M\.([0-9]+)\.A\.[0-9A-F]{3}$`)

func check(c plan, x *kit.X) error {
	h := gen.Home(x.Dir())
	dir := gen.Dir(h.Board(c.Board, "x"))
	other := h.Board(c.Board+"x", "x")
	kit.Must(os.MkdirAll(dir, 0755))
	kit.Must(os.MkdirAll(gen.Dir(other), 0755))
	taken := string(h) + "/taken"
	text := "an article which is there already"
	if c.Old == 1 {
		text = ""
	}
	kit.Write(taken, []byte(text))
	kit.Must(os.Chtimes(taken, time.Time{}, time.Now().Add(-time.Duration(c.Age)*time.Second)))
	if c.Mode != 0 {
		kit.Must(os.Chmod(taken, os.FileMode(c.Mode)))
	}
	took, err := os.Stat(taken)
	kit.Must(err)
	free := map[int]bool{}
	for i := 0; i < c.Free; i++ {
		free[(i*c.Step)%4096] = true
	}
	now := time.Now().Unix()
	pre := map[string]bool{}
	if c.Free < 4096 {
		for s := 0; s < c.Taken; s++ {
			for n := 0; n < 4096; n++ {
				if !free[n] {
					// links to one file: a change of any of them shows
					name := fmt.Sprintf("M.%d.A.%03X", now+int64(s), n)
					switch path := filepath.Join(dir, name); c.Old {
					case 2: // one which leads nowhere
						kit.Must(os.Symlink(string(h)+"/nowhere", path))
					case 3:
						kit.Must(os.Mkdir(path, 0755))
					default:
						kit.Must(os.Link(taken, path))
					}
					pre[name] = true
				}
			}
		}
	}
	st, err := os.Stat(taken)
	kit.Must(err)

	begin := time.Now().Unix()
	var names [][]string
	if c.Procs {
		names, err = byProcs(c, string(h), string(h)+"/go")
	} else {
		names, err = byThreads(c, string(h))
	}
	if err != nil {
		return err
	}
	end := time.Now().Unix()

	seen := map[string]int{}
	for i, ns := range names {
		if len(ns) != c.Creators[i] {
			return fmt.Errorf("creator %d returned %d names instead of %d", i, len(ns), c.Creators[i])
		}
		for _, n := range ns {
			m := form.FindStringSubmatch(n)
			if m == nil {
				return fmt.Errorf("%q is not of the form M.<time>.A.<three hex digits>", n)
			}
			if sec, err := strconv.ParseInt(m[1], 10, 64); err != nil || sec < begin-1 || sec > end+1 {
				return fmt.Errorf("%q was created between %d and %d", n, begin, end)
			}
			if pre[n] {
				return fmt.Errorf("%q was there before", n)
			}
			if o, ok := seen[n]; ok {
				return fmt.Errorf("%q was given to creators %d and %d", n, o, i)
			}
			seen[n] = i
		}
	}
	// The directory has the old names and the new ones, and the old ones are the file they were
	es, err := os.ReadDir(dir)
	kit.Must(err)
	links := 0
	for _, e := range es {
		_, isNew := seen[e.Name()]
		if !pre[e.Name()] && !isNew {
			return fmt.Errorf("%q was created and not returned", e.Name())
		}
		if pre[e.Name()] {
			fi, err := os.Lstat(filepath.Join(dir, e.Name()))
			kit.Must(err)
			same := os.SameFile(fi, st)
			switch c.Old {
			case 2:
				to, err := os.Readlink(filepath.Join(dir, e.Name()))
				same = err == nil && to == string(h)+"/nowhere"
			case 3:
				same = fi.IsDir()
			}
			if !same {
				return fmt.Errorf("%q was replaced", e.Name())
			}
			links++
		}
	}
	if links != len(pre) || len(es) != len(pre)+len(seen) {
		return fmt.Errorf("there are %d old and %d new articles instead of %d and %d", links, len(es)-links, len(pre), len(seen))
	}
	if now, err := os.Stat(taken); string(kit.ReadFile(taken)) != text || err != nil || !now.ModTime().Equal(took.ModTime()) || now.Mode() != took.Mode() {
		return fmt.Errorf("an old article was changed: %.100q", kit.ReadFile(taken))
	}
	if _, err := os.Lstat(string(h) + "/nowhere"); err == nil {
		return fmt.Errorf("an article was created where a link leads")
	}
	if left, err := os.ReadDir(gen.Dir(other)); err != nil || len(left) > 0 {
		return fmt.Errorf("another board was changed: %v %v", left, err)
	}
	x.NonTrivial(len(pre) > 0)
	x.LabelIf(end > begin, "several seconds")
	return nil
}

type missing struct {
	Board string
	Kind  string // none, file (in place of the directory), home
	Via   int
}

func drawMissing(t *rapid.T) missing {
	return missing{gen.ID().Draw(t, "board"), rapid.SampledFrom([]string{"none", "file", "home", "other"}).Draw(t, "kind"), rapid.IntRange(0, 2).Draw(t, "via")}
}

// checkMissing relies on the watchdog to notice an endless loop
func checkMissing(c missing, x *kit.X) error {
	h := gen.Home(x.Dir())
	dir := gen.Dir(h.Board(c.Board, "x"))
	switch c.Kind {
	case "file":
		kit.Write(dir, []byte("not a directory"))
	case "other":
		kit.Must(os.MkdirAll(gen.Dir(h.Board(c.Board+"x", "y")), 0755))
	case "home":
		h += "/nowhere"
	}
	name, err := create(string(h), c.Board, c.Via, 0)
	if err == nil {
		return fmt.Errorf("creating an article in a board without directory succeeds: %q", name)
	}
	if fi, err := os.Stat(dir); c.Kind != "file" && err == nil && fi.IsDir() {
		return fmt.Errorf("the board's directory came into being")
	}
	x.NonTrivial(true)
	x.Label(c.Kind)
	return nil
}

func main() {
	if os.Getenv("VERIF_CREATOR") != "" {
		creator()
	}
	kit.Main(kit.Property{
		ID:   "C16",
		Rule: "a case is a board in which nearly all names of the next seconds are taken and 2 to 8 threads or processes which create up to 12 articles each at the same time, or a board without directory; it is non-trivial when names were taken before (or the directory is missing)",
		Arms: []kit.Arm{
			kit.NewArm("threads", 60, 2500, draw(false), check).AsRacy(),
			kit.NewArm("processes", 30, 1200, draw(true), check).AsRacy(),
			kit.NewArm("a full second", 3, 60, drawFull, check).AsRacy(),
			kit.NewArm("no directory", 600, 20000, drawMissing, checkMissing),
		},
	})
}
