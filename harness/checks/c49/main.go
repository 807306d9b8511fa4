// C49: a write which cannot be completed is reported and leaves what was stored.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// limited runs f while no file of this process can grow beyond size bytes; this is
// what a full disk or a quota looks like: a write is cut short, and the next one fails.
func limited(size int64, f func() error) error {
	var old syscall.Rlimit
	kit.Must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	low := old
	low.Cur = uint64(size)
	kit.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &low))
	defer func() { kit.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	return f()
}

type op struct {
	Kind string // add, update, remove; append, write
	Rec  []byte
	At   int
	Room int  // the space the operation has, -1: enough
	Dir  bool // a directory is in the place of the file
	// a system call, counted from 1, which fails
	Call  int    `json:",omitempty"`
	Errno uint16 `json:",omitempty"`
	Via   bool
}

type history struct {
	Kind string
	Init [][]byte
	Ops  []op
}

func drawOp(kinds []string, content *rapid.Generator[[]byte]) *rapid.Generator[op] {
	return rapid.Custom(func(t *rapid.T) op {
		o := op{Kind: rapid.SampledFrom(kinds).Draw(t, "op"), Rec: content.Draw(t, "content"), Room: -1, Via: rapid.Bool().Draw(t, "via")}
		o.At = gen.Num(0, 20).Draw(t, "at")
		switch gen.Num(0, 9).Draw(t, "fault") {
		case 0, 1, 2, 3:
		case 4:
			o.Dir = true
		case 5, 6, 7:
			o.Call = gen.Num(1, 12).Draw(t, "call")
			o.Errno = uint16(rapid.SampledFrom([]syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EACCES, syscall.EROFS, syscall.ENFILE, syscall.ENOMEM}).Draw(t, "errno"))
		default:
			n := len(o.Rec)
			o.Room = rapid.OneOf(gen.Num(0, n+2), gen.Num(0, n+2), rapid.SampledFrom([]int{0, 1, n / 2, max(n-1, 0), n})).Draw(t, "room")
		}
		return o
	})
}

func layoutOf(kind string) *gen.Layout {
	if kind == "board" {
		return gen.Board
	}
	return gen.Article
}

// during does the operation with its fault; hit tells whether there was one
func (o op) during(name string, size int64, f func() error) (hit bool, err error) {
	switch {
	case o.Dir:
		aside := name + ".aside"
		_, none := os.Stat(name)
		if none == nil {
			kit.Must(os.Rename(name, aside))
		}
		kit.Must(os.Mkdir(name, 0755))
		err := f()
		kit.Must(os.Remove(name))
		if none == nil {
			kit.Must(os.Rename(aside, name))
		}
		return true, err
	case o.Call > 0:
		no := kit.Faults(gen.Dir(name), func(n int, c kit.Call) syscall.Errno {
			if n != o.Call-1 {
				return 0
			}
			hit = true
			return syscall.Errno(o.Errno)
		}, func() { err = f() })
		if no != nil {
			return false, f()
		}
		return hit, err
	case o.Room >= 0:
		return true, limited(size, f)
	}
	return false, f()
}

func drawRecords(kind string) func(t *rapid.T) history {
	return func(t *rapid.T) history {
		l := layoutOf(kind)
		kinds := []string{"add", "add", "update", "update"}
		if kind == "board" {
			kinds = []string{"add", "add", "remove"}
		}
		return history{kind, gen.Echo(t, gen.ListOf(l.Record(), 0, 5, 100).Draw(t, "init")), gen.ListOf(drawOp(kinds, l.Record()), 1, 8, 30).Draw(t, "ops")}
	}
}

func checkRecords(c history, x *kit.X) error {
	l := layoutOf(c.Kind)
	dir, err := filepath.EvalSymlinks(x.Dir())
	kit.Must(err)
	h := gen.Home(dir + "/home")
	name := h.Boards()
	if c.Kind == "article" {
		name = h.Board("test", ".DIR")
	}
	kit.Must(os.MkdirAll(gen.Dir(name), 0755))
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	conn := &pttbbs.Connector{}
	if err := conn.Open(string(h)); err != nil {
		return err
	}
	model := append([][]byte{}, c.Init...)
	if len(model) > 0 {
		kit.Write(name, gen.Join(model))
	}
	failed, later := 0, 0
	for i, o := range c.Ops {
		step := fmt.Sprintf("step %d (%s with room for %d of %d bytes, directory %v, call %d: %v)", i, o.Kind, o.Room, len(o.Rec), o.Dir, o.Call, syscall.Errno(o.Errno))
		if o.Kind != "add" && len(model) == 0 {
			continue
		}
		at := 0
		if len(model) > 0 {
			at = o.At % len(model)
		}
		in := append([]byte{}, o.Rec...)
		var f func() error
		var size int64
		after := append([][]byte{}, model...)
		var untouched func(j int) bool // of the records of before, when the operation fails
		switch o.Kind {
		case "add":
			size = int64(len(model)*l.Size + o.Room)
			untouched = func(int) bool { return true }
			after = append(after, o.Rec)
			if c.Kind == "board" {
				b, err := pttbbs.UnmarshalBoardHeader(in)
				kit.Must(err)
				f = func() error { return pttbbs.AppendBoardHeaderFileRecord(name, b) }
				if o.Via {
					f = func() error { return db.AddBoardRecord(b) }
				}
			} else {
				a, err := pttbbs.NewFileHeaderWithByte(in)
				kit.Must(err)
				f = func() error { return pttbbs.AppendFileHeaderFileRecord(name, a) }
				if o.Via {
					f = func() error { return db.AddArticleRecordFileRecord("test", a) }
				}
			}
		case "update":
			size = int64(at*l.Size + o.Room)
			untouched = func(j int) bool { return j != at }
			after[at] = o.Rec
			a, err := pttbbs.NewFileHeaderWithByte(in)
			kit.Must(err)
			f = func() error { return pttbbs.UpdateFileHeaderFileRecord(name, uint(at), a) }
			if o.Via {
				f = func() error { return conn.UpdateArticleRecordFileRecord(name, uint(at), a) }
			}
		case "remove":
			// the room is anywhere within what has to be moved
			size = int64(at*l.Size + o.Room*max(1, len(model)-at))
			untouched = func(j int) bool { return j < at }
			after = append(after[:at], after[at+1:]...)
			f = func() error { return pttbbs.RemoveBoardHeaderFileRecord(name, at) }
		}
		hit, err := o.during(name, size, f)
		if err == nil {
			if o.Dir {
				return fmt.Errorf("%s: success", step)
			}
			model = after
			if failed > 0 {
				later++
			}
			if err := readAll(db, c.Kind, l, model, func(int) bool { return true }); err != nil {
				return fmt.Errorf("%s succeeded: %w", step, err)
			}
			continue
		}
		if !hit {
			return fmt.Errorf("%s: %w", step, err)
		}
		failed++
		x.Label("failed " + o.Kind)
		x.LabelIf(o.Call > 0, "failed call")
		if _, err := os.Stat(name); os.IsNotExist(err) {
			if len(model) > 0 {
				return fmt.Errorf("%s failed, and the file with %d records is gone", step, len(model))
			}
			continue
		}
		if err := readAll(db, c.Kind, l, model, untouched); err != nil {
			return fmt.Errorf("%s failed: %w", step, err)
		}
		// what the failed operation itself left is repaired, as an operator would do it
		if o.Kind != "add" {
			kit.Write(name, gen.Join(model))
		}
	}
	x.NonTrivial(failed > 0 && later > 0)
	return nil
}

func readAll(db *bbs.DB, kind string, l *gen.Layout, model [][]byte, care func(j int) bool) error {
	var vs []rec.Values
	if kind == "board" {
		rs, err := db.ReadBoardRecords()
		if err != nil {
			return err
		}
		for _, r := range rs {
			vs = append(vs, rec.Board(r.(*pttbbs.BoardHeader)))
		}
	} else {
		rs, err := db.ReadBoardArticleRecordsFile("test")
		if err != nil {
			return err
		}
		for _, r := range rs {
			vs = append(vs, rec.Article(r.(*pttbbs.FileHeader)))
		}
	}
	if len(vs) != len(model) {
		return fmt.Errorf("%d records are read instead of %d", len(vs), len(model))
	}
	for i, v := range vs {
		if !care(i) {
			continue
		}
		if err := rec.Compare(l, model[i], v); err != nil {
			return fmt.Errorf("record %d: %w", i, err)
		}
	}
	return nil
}

func drawFiles(kind string) func(t *rapid.T) history {
	return func(t *rapid.T) history {
		kinds := []string{"append", "append", "append", "write"}
		if kind == "draft" {
			kinds = []string{"write"}
		}
		content := rapid.OneOf(gen.Bytes(12), gen.Bytes(12), gen.Bytes(300), gen.Bytes(9000))
		h := history{Kind: kind, Ops: gen.ListOf(drawOp(kinds, content), 1, 8, 30).Draw(t, "ops")}
		if rapid.Bool().Draw(t, "exists") {
			h.Init = [][]byte{content.Draw(t, "init")}
		}
		return h
	}
}

func checkFiles(c history, x *kit.X) error {
	dir, err := filepath.EvalSymlinks(x.Dir())
	kit.Must(err)
	h := gen.Home(dir + "/home")
	name := h.Board("test", "M.1.A.000")
	if c.Kind == "draft" {
		name = h.User("tester", "buf.3")
	}
	kit.Must(os.MkdirAll(gen.Dir(name), 0755))
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	conn := &pttbbs.Connector{}
	if err := conn.Open(string(h)); err != nil {
		return err
	}
	var model []byte
	exists := false
	if len(c.Init) > 0 {
		model, exists = c.Init[0], true
		kit.Write(name, model)
	}
	failed, later := 0, 0
	for i, o := range c.Ops {
		step := fmt.Sprintf("step %d (%s with room for %d of %d bytes, directory %v, call %d: %v)", i, o.Kind, o.Room, len(o.Rec), o.Dir, o.Call, syscall.Errno(o.Errno))
		if o.Kind == "append" && !exists {
			continue
		}
		in := append([]byte{}, o.Rec...)
		var f func() error
		size := int64(o.Room)
		switch {
		case c.Kind == "draft":
			f = func() error { return conn.WriteUserDraft(name, in) }
			if o.Via {
				f = func() error { return db.WriteUserDraft("tester", "3", bbs.NewUserDraft(in)) }
			}
		case o.Kind == "append":
			size += int64(len(model))
			f = func() error { return conn.AppendBoardArticleFile(name, in) }
			if o.Via {
				f = func() error { return db.AppendBoardArticleFile("test", "M.1.A.000", in) }
			}
		default:
			f = func() error { return conn.WriteBoardArticleFile(name, in) }
			if o.Via {
				f = func() error { return db.WriteBoardArticleFile("test", "M.1.A.000", in) }
			}
		}
		hit, err := o.during(name, size, f)
		if err == nil {
			if o.Dir {
				return fmt.Errorf("%s: success", step)
			}
			if o.Kind == "append" {
				model = append(append([]byte{}, model...), o.Rec...)
			} else {
				model = o.Rec
			}
			exists = true
			if failed > 0 {
				later++
			}
			if got := kit.ReadFile(name); !bytes.Equal(got, model) {
				return fmt.Errorf("%s succeeded: the file holds %s instead of %s", step, brief(got), brief(model))
			}
			continue
		}
		if !hit {
			return fmt.Errorf("%s: %w", step, err)
		}
		failed++
		x.Label("failed " + o.Kind)
		x.LabelIf(o.Call > 0, "failed call")
		got, rerr := os.ReadFile(name)
		if os.IsNotExist(rerr) && !exists {
			continue
		}
		if rerr != nil {
			return fmt.Errorf("%s failed, and the file cannot be read: %w", step, rerr)
		}
		switch {
		case exists && bytes.Equal(got, model): // nothing was written
		case o.Dir:
			return fmt.Errorf("%s failed: the file holds %s instead of %s", step, brief(got), brief(model))
		case o.Kind == "append" && !(bytes.HasPrefix(got, model) && bytes.HasPrefix(o.Rec, got[len(model):])):
			return fmt.Errorf("%s failed: the file holds %s instead of %s and a part of %s", step, brief(got), brief(model), brief(o.Rec))
		case o.Kind == "write" && !bytes.HasPrefix(o.Rec, got):
			return fmt.Errorf("%s failed: the file holds %s, which is no part of %s", step, brief(got), brief(o.Rec))
		}
		model, exists = got, true
	}
	x.NonTrivial(failed > 0 && later > 0)
	return nil
}

func brief(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%d bytes (%q...)", len(b), b[:60])
	}
	return fmt.Sprintf("%q", b)
}

func main() {
	signal.Ignore(syscall.SIGXFSZ)
	kit.Main(kit.Property{
		ID: "C49", Level: "fault_enumeration",
		Rule: "a case is a board list, an article index, an article or a draft and up to eight operations on it, each of which has room for a drawn number of bytes only (a limit of the file size), or cannot open its file, or has no fault; it is non-trivial when an operation failed and a later one succeeded",
		Assumptions: []string{
			"a failed overwriting or removal may leave the part it was at undefined; what it did not have to touch stays",
			"a failed append leaves a part of what was to be appended, or nothing, at the end",
		},
		Arms: []kit.Arm{
			kit.NewArm("board list", 3000, 120000, drawRecords("board"), checkRecords),
			kit.NewArm("article index", 3000, 120000, drawRecords("article"), checkRecords),
			kit.NewArm("article", 3000, 120000, drawFiles("article"), checkFiles),
			kit.NewArm("draft", 2000, 80000, drawFiles("draft"), checkFiles),
		},
	})
}
