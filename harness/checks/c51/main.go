// C51: operations which overlap in any way leave what whole operations leave.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/acts"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

// turn lets a thread which waits, that many after the one before, do some system calls
type turn struct{ Skip, Calls int }

func drawPlan(t *rapid.T) []turn {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) turn {
		return turn{rapid.IntRange(0, 2).Draw(t, "skip"), rapid.OneOf(rapid.IntRange(1, 4), gen.Num(1, 12)).Draw(t, "calls")}
	}), 1, 16).Draw(t, "plan")
}

// follow runs the threads by the plan and tells how often one was interrupted by another
func follow(dir string, plan []turn, fs []func(), x *kit.X) (switches int) {
	i, used, last := -1, 0, -1
	err := kit.Schedule(dir, fs, func(ws []kit.Waiting) (int, syscall.Errno) {
		n, there := 0, false
		for k, w := range ws {
			if w.Thread == last {
				n, there = k, true
			}
		}
		// its turn is over, or it is; after the plan each goes on to its end
		if i < len(plan) && (i < 0 || !there || used >= plan[i].Calls) {
			i, used = i+1, 0
			if i < len(plan) {
				rest := ws
				if there && len(ws) > 1 {
					rest = append(append([]kit.Waiting{}, ws[n+1:]...), ws[:n]...)
				}
				w := rest[plan[i].Skip%len(rest)]
				for k := range ws {
					if ws[k].Thread == w.Thread {
						n = k
					}
				}
			}
		}
		used++
		if ws[n].Thread != last && last >= 0 {
			for _, w := range ws {
				if w.Thread == last {
					switches++
				}
			}
		}
		last = ws[n].Thread
		return n, 0
	})
	if errors.Is(err, kit.ErrNoFaults) {
		x.Label("no schedules here")
		done := make(chan bool)
		for _, f := range fs {
			go func() { defer func() { done <- true }(); f() }()
		}
		for range fs {
			<-done
		}
	} else {
		kit.Must(err)
	}
	return
}

// step of a program
type step struct {
	Kind string // append, update, read
	Rec  []byte
	At   int
}

type overlap struct {
	Kind   string
	Init   [][]byte
	Progs  [][]step
	Plan   []turn
	Shared bool // the threads use the same database
}

// event is what a step did
type event struct {
	step
	n          int // unique number
	start, end int64
	err        error
	recs       []rec.Values
	text       []byte
}

func layoutOf(kind string) (*gen.Layout, string) {
	if kind == "board" {
		return gen.Board, "nuser"
	}
	return gen.Article, "modified"
}

func draw(kind string) func(t *rapid.T) overlap {
	return func(t *rapid.T) overlap {
		c := overlap{Kind: kind, Plan: drawPlan(t), Shared: rapid.Bool().Draw(t, "shared")}
		kinds := []string{"append", "append", "read"}
		if kind == "article" {
			kinds = append(kinds, "update")
		}
		var content *rapid.Generator[[]byte]
		if kind == "text" {
			content = gen.Bytes(5000)
		} else {
			l, _ := layoutOf(kind)
			content = l.Record()
		}
		c.Init = gen.ListOf(content, 0, 4, 60).Draw(t, "init")
		c.Progs = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) step {
			s := step{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), At: rapid.IntRange(0, 3).Draw(t, "at")}
			if s.Kind == "update" && len(c.Init) == 0 {
				s.Kind = "append"
			}
			if s.Kind != "read" {
				s.Rec = content.Draw(t, "content")
			}
			return s
		}), 1, 3), 2, 3).Draw(t, "programs")
		return c
	}
}

// run does the programs and returns what happened, in the order of the steps of each
func (c overlap) run(h gen.Home, dir, name string, x *kit.X) (evs [][]event, switches int, err error) {
	var clock atomic.Int64
	n := 0
	evs = make([][]event, len(c.Progs))
	var fs []func()
	var shared *bbs.DB
	for i, p := range c.Progs {
		db, err := bbs.Open("pttbbs", string(h))
		if err != nil {
			return nil, 0, err
		}
		if shared == nil {
			shared = db
		}
		if c.Shared {
			db = shared
		}
		for _, s := range p {
			e := event{step: s, n: n + 1}
			n++
			e.Rec = append([]byte{}, s.Rec...)
			switch c.Kind {
			case "text":
				e.Rec = append([]byte(fmt.Sprintf("<%d>", e.n)), e.Rec...)
			default:
				l, mark := layoutOf(c.Kind)
				if len(e.Rec) > 0 {
					l.Find(mark).Put(e.Rec, uint64(e.n))
				}
			}
			if len(c.Init) > 0 {
				e.At %= len(c.Init)
			}
			evs[i] = append(evs[i], e)
		}
		fs = append(fs, func() {
			for j := range evs[i] {
				e := &evs[i][j]
				e.start = clock.Add(1)
				e.err = c.do(db, name, e)
				e.end = clock.Add(1)
			}
		})
	}
	return evs, follow(dir, c.Plan, fs, x), nil
}

func (c overlap) do(db *bbs.DB, name string, e *event) error {
	in := append([]byte{}, e.Rec...)
	switch c.Kind + " " + e.Kind {
	case "text append":
		return db.AppendBoardArticleFile("test", "M.1.A.000", in)
	case "text read":
		var err error
		e.text, err = db.ReadBoardArticleFile("test", "M.1.A.000")
		return err
	case "board append":
		b, err := pttbbs.UnmarshalBoardHeader(in)
		if err != nil {
			return err
		}
		return db.AddBoardRecord(b)
	case "article append":
		a, err := pttbbs.NewFileHeaderWithByte(in)
		if err != nil {
			return err
		}
		return db.AddArticleRecordFileRecord("test", a)
	case "article update":
		a, err := pttbbs.NewFileHeaderWithByte(in)
		if err != nil {
			return err
		}
		return pttbbs.UpdateFileHeaderFileRecord(name, uint(e.At), a)
	case "board read":
		rs, err := db.ReadBoardRecords()
		for _, r := range rs {
			e.recs = append(e.recs, rec.Board(r.(*pttbbs.BoardHeader)))
		}
		return err
	case "article read":
		rs, err := db.ReadBoardArticleRecordsFile("test")
		for _, r := range rs {
			e.recs = append(e.recs, rec.Article(r.(*pttbbs.FileHeader)))
		}
		return err
	}
	panic("no such step")
}

func check(c overlap, x *kit.X) error {
	dir, err := filepath.EvalSymlinks(x.Dir())
	kit.Must(err)
	h := gen.Home(dir + "/home")
	name := map[string]string{"board": h.Boards(), "article": h.Board("test", ".DIR"), "text": h.Board("test", "M.1.A.000")}[c.Kind]
	kit.Write(name, gen.Join(c.Init))
	evs, switches, err := c.run(h, dir, name, x)
	if err != nil {
		return err
	}
	x.NonTrivial(switches > 0)
	var all, appends, reads []event
	for i, es := range evs {
		for j, e := range es {
			if e.err != nil {
				return fmt.Errorf("thread %d, step %d (%s): %w", i, j, e.Kind, e.err)
			}
			all = append(all, e)
			switch e.Kind {
			case "append":
				appends = append(appends, e)
			case "read":
				reads = append(reads, e)
			}
		}
	}
	final := kit.ReadFile(name)
	var order []event // of the appends
	if c.Kind == "text" {
		rest, ok := bytes.CutPrefix(final, gen.Join(c.Init))
		if !ok {
			return fmt.Errorf("what stood in the article is changed")
		}
		left := append([]event{}, appends...)
	next:
		for len(rest) > 0 {
			for i, e := range left {
				if bytes.HasPrefix(rest, e.Rec) {
					order, rest = append(order, e), rest[len(e.Rec):]
					left = append(left[:i:i], left[i+1:]...)
					continue next
				}
			}
			return fmt.Errorf("the article does not consist of what was appended, from byte %d on", len(final)-len(rest))
		}
		if len(left) > 0 {
			return fmt.Errorf("%d of %d texts are missing", len(left), len(appends))
		}
	} else {
		l, mark := layoutOf(c.Kind)
		if len(final) != l.Size*(len(c.Init)+len(appends)) {
			return fmt.Errorf("after %d records and %d appended ones the file has %d bytes", len(c.Init), len(appends), len(final))
		}
		for p := 0; p < len(final)/l.Size; p++ {
			raw := final[p*l.Size : (p+1)*l.Size]
			if p < len(c.Init) {
				if err := one(l, c.candidates(all, p, 1<<62, 1<<62), func(want []byte) error { return l.Diff(want, raw) }); err != nil {
					return fmt.Errorf("at the end record %d: %w", p, err)
				}
				continue
			}
			ok := false
			for _, e := range appends {
				if l.Find(mark).Value(e.Rec) == l.Find(mark).Value(raw) {
					if err := l.Diff(e.Rec, raw); err != nil {
						return fmt.Errorf("appended record %d: %w", p, err)
					}
					order, ok = append(order, e), true
				}
			}
			if !ok {
				return fmt.Errorf("record %d is none of those which were appended", p)
			}
		}
	}
	seen := map[int]bool{}
	for i, e := range order {
		if seen[e.n] {
			return fmt.Errorf("one of the appended ones is there twice")
		}
		seen[e.n] = true
		for _, f := range order[:i] {
			if e.end < f.start {
				return fmt.Errorf("what was appended later comes first")
			}
		}
	}
	for i, r := range reads {
		must, may := 0, 0
		for _, a := range appends {
			if a.end < r.start {
				must++
			}
			if a.start < r.end {
				may++
			}
		}
		if c.Kind == "text" {
			got, k := r.text, 0
			want := gen.Join(c.Init)
			for k < len(order) && len(want) < len(got) {
				want = append(want, order[k].Rec...)
				k++
			}
			if !bytes.Equal(got, want) || k < must || k > may {
				return fmt.Errorf("read %d gives %d bytes while %d to %d of %d texts were appended: not the bytes which %d of them leave", i, len(got), must, may, len(order), k)
			}
			continue
		}
		l, _ := layoutOf(c.Kind)
		k := len(r.recs) - len(c.Init)
		if k < must || k > may {
			return fmt.Errorf("read %d gives %d records, %d of them appended, while %d to %d were", i, len(r.recs), k, must, may)
		}
		for p, v := range r.recs {
			want := [][]byte{}
			if p < len(c.Init) {
				want = c.candidates(all, p, r.start, r.end)
			} else {
				want = append(want, order[p-len(c.Init)].Rec)
			}
			if err := one(l, want, func(want []byte) error { return rec.Compare(l, want, v) }); err != nil {
				return fmt.Errorf("read %d, record %d: %w", i, p, err)
			}
		}
	}
	return nil
}

// candidates are the values which record p may show to one who reads from start to end
func (c overlap) candidates(all []event, p int, start, end int64) (vs [][]byte) {
	over := func(from int64) bool { // something written later is complete
		for _, e := range all {
			if e.Kind == "update" && e.At == p && e.start > from && e.end < start {
				return true
			}
		}
		return false
	}
	if !over(0) {
		vs = append(vs, c.Init[p])
	}
	for _, e := range all {
		if e.Kind == "update" && e.At == p && e.start < end && !over(e.end) {
			vs = append(vs, e.Rec)
		}
	}
	return
}

func one(l *gen.Layout, want [][]byte, is func([]byte) error) error {
	var err error
	for _, w := range want {
		if err = is(w); err == nil {
			return nil
		}
	}
	return fmt.Errorf("none of the %d values which it can have: %w", len(want), err)
}

// creation of articles, names of the next seconds being scarce
type creation struct {
	Vias []int // per creator 0: CreateArticleRecord, 1: NewArticleRecordWithMap
	Each int
	Free int // names per second
	Step int
	Plan []turn
}

func drawCreation(t *rapid.T) creation {
	c := creation{Vias: rapid.SliceOfN(rapid.IntRange(0, 1), 2, 3).Draw(t, "vias"), Each: rapid.IntRange(1, 2).Draw(t, "each"), Step: 2*gen.Num(0, 2047).Draw(t, "step") + 1, Plan: drawPlan(t)}
	c.Free = 4096
	if rapid.IntRange(0, 2).Draw(t, "scarce") > 0 {
		c.Free = c.Each*len(c.Vias) + gen.Num(0, 200).Draw(t, "spare")
	}
	return c
}

func checkCreation(c creation, x *kit.X) error {
	dir, err := filepath.EvalSymlinks(x.Dir())
	kit.Must(err)
	h := gen.Home(dir + "/home")
	name := h.Board("test", ".DIR")
	kit.Write(name, nil)
	taken := map[string]bool{}
	if c.Free < 4096 {
		free := map[int]bool{}
		for i := 0; i < c.Free; i++ {
			free[i*c.Step%4096] = true
		}
		old := dir + "/old"
		kit.Write(old, nil)
		now := time.Now().Unix()
		for s := now; s < now+2; s++ {
			for i := 0; i < 4096; i++ {
				if !free[i] {
					n := fmt.Sprintf("M.%d.A.%3.3X", s, i)
					kit.Must(os.Link(old, h.Board("test", n)))
					taken[n] = true
				}
			}
		}
	}
	type made struct {
		name, text, title string
		via               int
	}
	all := make([][]made, len(c.Vias))
	errs := make([]error, len(c.Vias))
	var fs []func()
	for i, via := range c.Vias {
		db, err := bbs.Open("pttbbs", string(h))
		if err != nil {
			return err
		}
		conn := &pttbbs.Connector{}
		if err := conn.Open(string(h)); err != nil {
			return err
		}
		fs = append(fs, func() {
			for j := 0; j < c.Each; j++ {
				m := made{title: fmt.Sprintf("title %d of %d", j, i), text: fmt.Sprintf("text %d of %d", j, i), via: via}
				var r bbs.ArticleRecord
				var err error
				if via == 0 {
					r, err = db.CreateArticleRecord("test", "owner", " 1/02", m.title)
				} else {
					r, err = conn.NewArticleRecordWithMap(map[string]interface{}{"owner": "owner", "date": " 1/02", "title": m.title, "board_id": "test"})
				}
				if err == nil {
					m.name = r.Filename()
					if err = db.WriteBoardArticleFile("test", m.name, []byte(m.text)); err == nil {
						err = db.AddArticleRecordFileRecord("test", r)
					}
				}
				if err != nil {
					errs[i] = err
					return
				}
				all[i] = append(all[i], m)
			}
		})
	}
	x.NonTrivial(follow(dir, c.Plan, fs, x) > 0)
	seen := map[string]string{}
	for i, ms := range all {
		if errs[i] != nil {
			return fmt.Errorf("creator %d: %w", i, errs[i])
		}
		for _, m := range ms {
			if taken[m.name] {
				return fmt.Errorf("the article gets the name %s of another", m.name)
			}
			if _, ok := seen[m.name]; ok {
				return fmt.Errorf("two articles get the name %s", m.name)
			}
			seen[m.name] = m.title
			if got := kit.ReadFile(h.Board("test", m.name)); string(got) != m.text {
				return fmt.Errorf("article %s holds %q instead of %q", m.name, got, m.text)
			}
		}
	}
	rs, err := pttbbs.OpenFileHeaderFile(name)
	if err != nil {
		return err
	}
	if len(rs) != len(seen) {
		return fmt.Errorf("the index has %d of %d articles", len(rs), len(seen))
	}
	for _, r := range rs {
		if t, ok := seen[r.Filename()]; !ok || t != r.Title() {
			return fmt.Errorf("the index has %s with title %q instead of %q", r.Filename(), r.Title(), t)
		}
		delete(seen, r.Filename())
	}
	return nil
}

// apart are operations on BBSes of their own
type apart struct {
	Acts []acts.Act
	Plan []turn
}

func drawApart(t *rapid.T) apart {
	return apart{rapid.SliceOfN(acts.Of(acts.All), 2, 4).Draw(t, "acts"), drawPlan(t)}
}

func checkApart(c apart, x *kit.X) error {
	dir, err := filepath.EvalSymlinks(x.Dir())
	kit.Must(err)
	type result struct {
		text string
		err  error
	}
	got := make([]result, len(c.Acts))
	var fs []func()
	for i, a := range c.Acts {
		f := a.Do(gen.Home(fmt.Sprintf("%s/%d", dir, i)))
		fs = append(fs, func() { got[i].text, got[i].err = f() })
	}
	x.NonTrivial(follow(dir, c.Plan, fs, x) > 0)
	for i, a := range c.Acts {
		x.Label(a.Name)
		alone := fmt.Sprintf("%s/alone%d", dir, i)
		var want result
		want.text, want.err = a.Do(gen.Home(alone))()
		if want.text != got[i].text || (want.err == nil) != (got[i].err == nil) {
			return fmt.Errorf("%s gives %.300s and error %v, and alone %.300s and %v", a.Name, got[i].text, got[i].err, want.text, want.err)
		}
		if w, g := acts.Tree(alone), acts.Tree(fmt.Sprintf("%s/%d", dir, i)); w != g {
			n := 0
			for n < len(w) && n < len(g) && w[n] == g[n] {
				n++
			}
			cut := func(s string) string { return s[max(0, min(n-100, len(s))):min(n+100, len(s))] }
			return fmt.Errorf("%s leaves ...%s..., and alone ...%s...", a.Name, cut(g), cut(w))
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C51",
		Rule:        "a case is two or three programs of appends, updates and readings on one board list, article index or article, creations of articles on one board, or up to four operations on BBSes of their own, and a plan which says thread by thread how many system calls go on before another thread has its turn; it is non-trivial when a thread was interrupted by another between two system calls",
		Assumptions: []string{"threads are interrupted at their system calls on files only (a seccomp listener holds them there)", "a read while others write shows each record as it was at some time during the read, not all of them at the same time", "removals, and overwriting of articles and drafts, are not atomic and are not part of this"},
		Arms: []kit.Arm{
			kit.NewArm("article index", 1200, 50000, draw("article"), check).AsRacy(),
			kit.NewArm("board list", 700, 30000, draw("board"), check).AsRacy(),
			kit.NewArm("article", 700, 30000, draw("text"), check).AsRacy(),
			kit.NewArm("creation", 40, 2000, drawCreation, checkCreation).AsRacy(),
			kit.NewArm("apart", 900, 40000, drawApart, checkApart).AsRacy(),
		},
	})
}
