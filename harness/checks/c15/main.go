// C15: concurrent appends are all kept, whole, and in each writer's order.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

const (
	board = "test"
	file  = "M.1.A.000"
)

type program struct {
	Target  string // index, boards, article
	Procs   bool   // writers are processes
	Shared  bool   // writers share one opened database
	Before  int    // records or bytes which are there already
	Writers [][]int
}

// part of a program for one process
type part struct {
	Target, Home, Go string
	Writer           int
	Sizes            []int
}

func draw(target string, procs bool) func(t *rapid.T) program {
	return func(t *rapid.T) program {
		p := program{Target: target, Procs: procs, Shared: rapid.Bool().Draw(t, "shared"), Before: gen.Num(0, 70).Draw(t, "before")}
		writers, appends := 12, 16
		if procs {
			writers, appends = 6, 30
		}
		sizes := rapid.Just(0)
		if target == "article" {
			sizes = rapid.OneOf(gen.Num(0, 200), rapid.SampledFrom([]int{4095, 4096, 4097, 8192, 20000, 65535, 65536, 65537, 150000}), gen.Num(0, 70000))
		}
		p.Writers = rapid.SliceOfN(rapid.SliceOfN(sizes, 1, appends), 2, writers).Draw(t, "writers")
		return p
	}
}

// text of the n-th append of a writer: every byte tells whose it is
func text(writer, n, size int) []byte {
	b := []byte(fmt.Sprintf("\n<%02d/%03d/%06d:", writer, n, size))
	b = append(b, bytes.Repeat([]byte{byte('A' + writer), byte('a' + n%26)}, size/2)...)
	return append(b, '>')
}

func record(target string, writer, n int) []byte {
	id := fmt.Sprintf("w%dn%d", writer, n)
	if target == "boards" {
		r := gen.NewBoard(id, id+" title "+string(rune('a'+writer%26)))
		gen.Board.Find("nuser").Put(r, uint64(writer*1000+n))
		gen.Board.Find("gid").Put(r, uint64(writer*1000+n))
		return r
	}
	r := gen.NewArticle(fmt.Sprintf("M.%d.A.%03X", writer, n), id, "1/02", id+" title")
	gen.Article.Find("modified").Put(r, uint64(writer*1000+n+1))
	r[33] = byte(writer)
	return r
}

func appendOne(db *bbs.DB, target string, writer, n, size int) error {
	switch target {
	case "boards":
		b, err := pttbbs.UnmarshalBoardHeader(record(target, writer, n))
		if err != nil {
			return err
		}
		return db.AddBoardRecord(b)
	case "index":
		a, err := pttbbs.NewFileHeaderWithByte(record(target, writer, n))
		if err != nil {
			return err
		}
		return db.AddArticleRecordFileRecord(board, a)
	}
	return db.AppendBoardArticleFile(board, file, text(writer, n, size))
}

// writer is the process which makes the appends of one writer
func writer() {
	var p part
	if err := json.NewDecoder(os.Stdin).Decode(&p); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	db, err := bbs.Open("pttbbs", p.Home)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	os.Stdout.WriteString("r")
	for end := time.Now().Add(60 * time.Second); ; {
		if _, err := os.Stat(p.Go); err == nil {
			break
		}
		if time.Now().After(end) {
			os.Exit(3)
		}
		time.Sleep(50 * time.Microsecond)
	}
	for n, size := range p.Sizes {
		if err := appendOne(db, p.Target, p.Writer, n, size); err != nil {
			fmt.Fprintf(os.Stderr, "append %d: %v\n", n, err)
			os.Exit(4)
		}
	}
	os.Exit(0)
}

func runProcs(c program, h gen.Home) error {
	self, err := os.Executable()
	kit.Must(err)
	gate := string(h) + "/go"
	var cmds []*exec.Cmd
	var outs []*bytes.Buffer
	ready := make([]byte, 1)
	for w, sizes := range c.Writers {
		in, err := json.Marshal(part{c.Target, string(h), gate, w, sizes})
		kit.Must(err)
		cmd := exec.Command(self)
		cmd.Env = append(os.Environ(), "VERIF_WRITER=1")
		cmd.Stdin = bytes.NewReader(in)
		out := &bytes.Buffer{}
		cmd.Stderr = out
		so, err := cmd.StdoutPipe()
		kit.Must(err)
		kit.Must(cmd.Start())
		if _, err := so.Read(ready); err != nil {
			cmd.Wait()
			return fmt.Errorf("writer %d: %s", w, out)
		}
		cmds, outs = append(cmds, cmd), append(outs, out)
	}
	kit.Write(gate, nil)
	var failed error
	for w, cmd := range cmds {
		kill := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		kill.Stop()
		if err == nil {
			continue
		}
		if cmd.ProcessState.ExitCode() != 4 {
			kit.Harness(fmt.Errorf("writer %d: %v %s", w, err, outs[w]))
		}
		failed = fmt.Errorf("writer %d: %s", w, outs[w])
	}
	return failed
}

func runThreads(c program, h gen.Home) error {
	shared, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	start := make(chan struct{})
	errs := make([]error, len(c.Writers))
	var wg sync.WaitGroup
	for w := range c.Writers {
		db := shared
		if !c.Shared {
			if db, err = bbs.Open("pttbbs", string(h)); err != nil {
				return err
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[w] = fmt.Errorf("panic: %v", r)
				}
			}()
			<-start
			for n, size := range c.Writers[w] {
				if err := appendOne(db, c.Target, w, n, size); err != nil {
					errs[w] = fmt.Errorf("writer %d, append %d: %w", w, n, err)
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func check(c program, x *kit.X) error {
	h := gen.Home(x.Dir())
	l := gen.Board
	name := h.Boards()
	var before []byte
	switch c.Target {
	case "index":
		l, name = gen.Article, h.Board(board, ".DIR")
	case "article":
		l, name = nil, h.Board(board, file)
	}
	kit.Must(os.MkdirAll(gen.Dir(name), 0755))
	if l == nil {
		before = bytes.Repeat([]byte("before\r"), c.Before)
	} else {
		for i := 0; i < c.Before; i++ {
			before = append(before, record(c.Target, 99, i)...)
		}
	}
	if len(before) > 0 || l == nil { // an article is appended to only when it exists
		kit.Write(name, before)
	}
	var err error
	if c.Procs {
		err = runProcs(c, h)
	} else {
		err = runThreads(c, h)
	}
	if err != nil {
		return err
	}

	raw := kit.ReadFile(name)
	if !bytes.HasPrefix(raw, before) {
		return fmt.Errorf("what was there before was changed")
	}
	raw = raw[len(before):]
	next := make([]int, len(c.Writers))
	last, turns := -1, 0
	for at := 0; at < len(raw); {
		var w, n, size, end int
		if l == nil {
			if k, err := fmt.Sscanf(string(raw[at:min(at+16, len(raw))]), "\n<%02d/%03d/%06d:", &w, &n, &size); k != 3 || err != nil {
				return fmt.Errorf("no text starts at byte %d: %q", at, raw[at:min(at+40, len(raw))])
			}
			if w >= len(c.Writers) || n >= len(c.Writers[w]) || size != c.Writers[w][n] {
				return fmt.Errorf("nobody wrote the text at byte %d", at)
			}
			t := text(w, n, size)
			end = at + len(t)
			if end > len(raw) || !bytes.Equal(raw[at:end], t) {
				return fmt.Errorf("the text at byte %d (writer %d, append %d) is divided", at, w, n)
			}
		} else {
			end = at + l.Size
			if end > len(raw) {
				return fmt.Errorf("the list ends with %d bytes of a record", len(raw)-at)
			}
			found := false
			for cand := range c.Writers {
				if next[cand] < len(c.Writers[cand]) && l.Diff(record(c.Target, cand, next[cand]), raw[at:end]) == nil {
					found, w, n = true, cand, next[cand]
				}
			}
			if !found {
				return fmt.Errorf("record %d is not what some writer appends next: %q", at/l.Size, raw[at:at+40])
			}
		}
		if n != next[w] {
			return fmt.Errorf("append %d of writer %d is where append %d should be", n, w, next[w])
		}
		next[w]++
		if w != last {
			turns++
		}
		last = w
		at = end
	}
	for w, n := range next {
		if n != len(c.Writers[w]) {
			return fmt.Errorf("append %d of writer %d is lost", n, w)
		}
	}
	x.NonTrivial(turns > len(c.Writers))
	x.LabelIf(turns > len(c.Writers), "interleaved")
	return nil
}

func main() {
	if os.Getenv("VERIF_WRITER") != "" {
		writer()
	}
	kit.Main(kit.Property{
		ID:          "C15",
		Rule:        "a case is a set of 2 to 12 writers with 1 to 30 appends each, which start together on one article index, board list or article, as threads of one process (with one or several opened databases) or as processes; afterwards the file must be an interleaving of whole appends. It is non-trivial when the appends were really interleaved: the writer changes more often than there are writers.",
		Assumptions: []string{"the file system keeps one O_APPEND write undivided"},
		Arms: []kit.Arm{
			kit.NewArm("threads on an index", 500, 15000, draw("index", false), check).AsRacy(),
			kit.NewArm("threads on a board list", 500, 15000, draw("boards", false), check).AsRacy(),
			kit.NewArm("threads on an article", 500, 15000, draw("article", false), check).AsRacy(),
			kit.NewArm("processes on an index", 25, 600, draw("index", true), check).AsRacy(),
			kit.NewArm("processes on a board list", 25, 600, draw("boards", true), check).AsRacy(),
			kit.NewArm("processes on an article", 25, 600, draw("article", true), check).AsRacy(),
		},
	})
}
