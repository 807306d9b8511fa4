// C46: each database operation works on its driver's own paths and reports its errors.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"pgregory.net/rapid"
)

type line struct {
	Owner string // none: no comment
	Text  string
}

type art struct {
	File, Owner, Title string
	Lines              []line
}

// Text is the article's content
func (a art) Text() string {
	var sb strings.Builder
	for _, l := range a.Lines {
		if l.Owner == "" {
			sb.WriteString(l.Text + "\n")
		} else {
			sb.WriteString("+ " + l.Owner + ": " + l.Text + " 05/15 01:06\n")
		}
	}
	return sb.String()
}

type brd struct {
	ID   string
	Arts []art
}

type op struct {
	Name        string
	Board, User string
	File        string
	Folder      []string
	Data        string
	Fault       fault
}

type driverCase struct {
	Parts           string
	Factory         bool
	Salt, Source    string
	OpenFails       bool
	Users           int
	Posts, Comments int // cached records
	Boards          []brd
	Ops             []op
}

// model of the operations: what they may read, must write and return
type model struct {
	f      *fake
	parts  string
	fault  fault
	failed bool
	reads  map[string]bool
	writes []string
	given  []any
}

func (m *model) has(part string) bool {
	if !strings.Contains(m.parts, part) {
		m.failed = true
	}
	return !m.failed
}

func (m *model) fails(call string, args ...string) bool {
	return m.fault.Call == call && (m.fault.Arg == "" || strings.Contains(strings.Join(args, "\x01"), m.fault.Arg))
}

// path is the path for these, unless the driver fails to tell
func (m *model) path(call, kind string, args ...string) string {
	if !m.failed && m.fails(call, args...) {
		m.failed = true
	}
	return m.f.p(kind, args...)
}

func (m *model) read(call string, args ...string) bool {
	if m.failed {
		return false
	}
	m.reads[fmt.Sprintf("%s%q", call, args)] = true
	if m.fails(call, args...) {
		m.failed = true
	}
	return !m.failed
}

func (m *model) write(call string, args ...string) bool {
	if m.failed {
		return false
	}
	m.writes = append(m.writes, fmt.Sprintf("%s%q", call, args))
	if m.fails(call, args...) {
		m.failed = true
	}
	return !m.failed
}

// index reads the index of a board; a missing one is empty
func (m *model) index(b string) []bbs.ArticleRecord {
	p := m.path("GetBoardArticleRecordsPath", "index", b)
	if m.failed {
		return nil
	}
	if !m.read("ReadArticleRecordsFile", p) {
		if m.fault.Missing {
			m.failed = false
		}
		return nil
	}
	if as, ok := m.f.arts[p]; ok {
		return as
	}
	return m.f.others()
}

func ids[T any](vs []T) (out []string) {
	for _, v := range vs {
		out = append(out, fmt.Sprintf("%p", any(v)))
	}
	return out
}

func (m *model) comments(b string, a bbs.ArticleRecord) (out []string, missing bool) {
	p := m.path("GetBoardArticleFilePath", "article", b, a.Filename())
	if m.failed {
		return nil, m.fault.Missing
	}
	if !m.read("ReadBoardArticleFile", p) {
		return nil, m.fault.Missing
	}
	n := 0
	var of *art
	if x, ok := a.(*article); ok && x.board == b {
		of = &x.art
	}
	if of == nil {
		return nil, false
	}
	for _, l := range of.Lines {
		if l.Owner != "" {
			n++
			out = append(out, fmt.Sprintf("%d %s %s %s %s", n, l.Owner, l.Text, b, of.File))
		}
	}
	return out, false
}

func commentStrings(cs []bbs.UserCommentRecord) (out []string) {
	for _, c := range cs {
		if _, own := c.(*comment); own {
			out = append(out, fmt.Sprintf("%p", c))
			continue
		}
		out = append(out, fmt.Sprintf("%d %s %s %s %s", c.CommentOrder(), c.Owner(), c.Comment(), c.BoardID(), c.Filename()))
	}
	return out
}

func (m *model) userComments(b, user string) (out []string) {
	for _, a := range m.index(b) {
		if a.Filename() == "" {
			continue
		}
		cs, missing := m.comments(b, a)
		if m.failed {
			if !missing {
				return nil
			}
			m.failed = false
			continue
		}
		for _, c := range cs {
			if strings.Fields(c)[1] == user {
				out = append(out, c)
			}
		}
	}
	return out
}

// operation of the database, and what the model says of it
type operation struct {
	do    func(db *bbs.DB, o op, f *fake) ([]string, error)
	model func(m *model, o op) []string
}

var someBoard, someArticle = &board{id: "given"}, &article{art: art{File: "given"}}

func text(b []byte, err error) ([]string, error) { return []string{string(b)}, err }

var operations = map[string]operation{
	"users": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		r, err := db.ReadUserRecords()
		return ids(r), err
	}, func(m *model, o op) []string {
		m.read("ReadUserRecordsFile", m.path("GetUserRecordsPath", "users"))
		return ids(m.f.users)
	}},
	"favourites": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		r, err := db.ReadUserFavoriteRecords(o.User)
		return ids(r), err
	}, func(m *model, o op) []string {
		m.read("ReadUserFavoriteRecordsFile", m.path("GetUserFavoriteRecordsPath", "favourites", o.User))
		return ids(m.f.favs)
	}},
	"boards": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		r, err := db.ReadBoardRecords()
		return ids(r), err
	}, func(m *model, o op) []string {
		m.read("ReadBoardRecordsFile", m.path("GetBoardRecordsPath", "boards"))
		return ids(m.f.boards)
	}},
	"index": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		r, err := db.ReadBoardArticleRecordsFile(o.Board)
		return ids(r), err
	}, func(m *model, o op) []string { return ids(m.index(o.Board)) }},
	"treasure index": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		r, err := db.ReadBoardTreasureRecordsFile(o.Board, o.Folder)
		return []string{fmt.Sprint(len(r))}, err
	}, func(m *model, o op) []string {
		m.read("ReadArticleRecordsFile", m.path("GetBoardTreasureRecordsPath", "treasure index", append([]string{o.Board}, o.Folder...)...))
		return []string{fmt.Sprint(len(m.f.others()))}
	}},
	"article": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		return text(db.ReadBoardArticleFile(o.Board, o.File))
	}, func(m *model, o op) []string {
		p := m.path("GetBoardArticleFilePath", "article", o.Board, o.File)
		m.read("ReadBoardArticleFile", p)
		return []string{string(m.f.content(p))}
	}},
	"treasure": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		return text(db.ReadBoardTreasureFile(o.Board, o.Folder, o.File))
	}, func(m *model, o op) []string {
		p := m.path("GetBoardTreasureFilePath", "treasure", append(append([]string{o.Board}, o.Folder...), o.File)...)
		m.read("ReadBoardArticleFile", p)
		return []string{string(m.f.content(p))}
	}},
	"new board": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		r, err := db.NewBoardRecord(map[string]interface{}{"board_id": o.Board, "title": o.Data})
		if err == nil && any(r) != f.newest {
			return nil, fmt.Errorf("it is not the record of the driver")
		}
		return nil, err
	}, func(m *model, o op) []string {
		if m.has("B") {
			m.write("NewBoardRecord", fmt.Sprint(map[string]interface{}{"board_id": o.Board, "title": o.Data}))
		}
		return nil
	}},
	"add board": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		return nil, db.AddBoardRecord(someBoard)
	}, func(m *model, o op) []string {
		if m.has("B") {
			if p := m.path("GetBoardRecordsPath", "boards"); !m.failed {
				m.given = []any{someBoard}
				m.write("AddBoardRecordFileRecord", p)
			}
		}
		return nil
	}},
	"new article": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		r, err := db.CreateArticleRecord(o.Board, o.User, "1/02", o.Data)
		if err == nil && any(r) != f.newest {
			return nil, fmt.Errorf("it is not the record of the driver")
		}
		return nil, err
	}, func(m *model, o op) []string {
		if m.has("A") && m.write("CreateBoardArticleFilename", o.Board) {
			m.write("NewArticleRecord", "new in "+o.Board, o.User, "1/02", o.Data)
		}
		return nil
	}},
	"list article": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		return nil, db.AddArticleRecordFileRecord(o.Board, someArticle)
	}, func(m *model, o op) []string {
		if m.has("A") {
			if p := m.path("GetBoardArticleRecordsPath", "index", o.Board); !m.failed {
				m.given = []any{someArticle}
				m.write("AddArticleRecordFileRecord", p)
			}
		}
		return nil
	}},
	"write article": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		return nil, db.WriteBoardArticleFile(o.Board, o.File, []byte(o.Data))
	}, func(m *model, o op) []string {
		if m.has("A") {
			m.write("WriteBoardArticleFile", m.path("GetBoardArticleFilePath", "article", o.Board, o.File), o.Data)
		}
		return nil
	}},
	"append article": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		return nil, db.AppendBoardArticleFile(o.Board, o.File, []byte(o.Data))
	}, func(m *model, o op) []string {
		if m.has("A") {
			m.write("AppendBoardArticleFile", m.path("GetBoardArticleFilePath", "article", o.Board, o.File), o.Data)
		}
		return nil
	}},
	"user articles": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		rs, err := db.GetUserArticleRecordFile(o.User)
		var out []string
		for _, r := range rs {
			if _, own := r.(*posted); own {
				out = append(out, fmt.Sprintf("%p", r))
			} else {
				out = append(out, strings.Join([]string{r.BoardID(), r.Title(), r.Owner(), r.ArticleID()}, "|"))
			}
		}
		return out, err
	}, func(m *model, o op) (out []string) {
		if strings.Contains(m.parts, "P") {
			m.read("ReadUserArticleRecordFile", m.path("GetUserArticleRecordsPath", "posts", o.User))
			if m.failed || len(m.f.posts) > 0 {
				return ids(m.f.posts)
			}
		}
		if !m.read("ReadBoardRecordsFile", m.path("GetBoardRecordsPath", "boards")) {
			return nil
		}
		for _, b := range m.f.boards {
			if b.BoardID() == "" || b.BoardID() == "ALLPOST" {
				continue
			}
			for _, a := range m.index(b.BoardID()) {
				if a.Owner() == o.User {
					out = append(out, strings.Join([]string{b.BoardID(), a.Title(), a.Owner(), a.Filename()}, "|"))
				}
			}
			if m.failed {
				return nil
			}
		}
		return out
	}},
	"user comments": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		rs, err := db.GetUserCommentRecordFile(o.User)
		return commentStrings(rs), err
	}, func(m *model, o op) (out []string) {
		if strings.Contains(m.parts, "C") {
			m.read("ReadUserCommentRecordFile", m.path("GetUserCommentRecordsPath", "comments", o.User))
			if m.failed || len(m.f.comms) > 0 {
				return ids(m.f.comms)
			}
		}
		if !m.read("ReadBoardRecordsFile", m.path("GetBoardRecordsPath", "boards")) {
			return nil
		}
		for _, b := range m.f.boards {
			if b.BoardID() != "" && b.BoardID() != "ALLPOST" {
				out = append(out, m.userComments(b.BoardID(), o.User)...)
				if m.failed {
					return nil
				}
			}
		}
		return out
	}},
	"board comments": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		rs, err := db.GetBoardUserCommentRecord(o.Board, o.User)
		return commentStrings(rs), err
	}, func(m *model, o op) []string { return m.userComments(o.Board, o.User) }},
	"article comments": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		rs, err := db.GetBoardArticleCommentRecords(o.Board, f.find(o))
		return commentStrings(rs), err
	}, func(m *model, o op) []string {
		cs, _ := m.comments(o.Board, m.f.find(o))
		return cs
	}},
	"draft": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		d, err := db.GetUserDrafts(o.User, o.File)
		if err != nil {
			return nil, err
		}
		return text(d.Raw(), nil)
	}, func(m *model, o op) []string {
		p := m.f.p("draft", o.User, o.File)
		if m.has("D") {
			m.read("ReadUserDraft", m.path("GetUserDraftPath", "draft", o.User, o.File))
		}
		return []string{"draft in " + p}
	}},
	"delete draft": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		return nil, db.DeleteUserDraft(o.User, o.File)
	}, func(m *model, o op) []string {
		if m.has("D") {
			m.write("DeleteUserDraft", m.path("GetUserDraftPath", "draft", o.User, o.File))
		}
		return nil
	}},
	"save draft": {func(db *bbs.DB, o op, f *fake) ([]string, error) {
		return nil, db.WriteUserDraft(o.User, o.File, bbs.NewUserDraft([]byte(o.Data)))
	}, func(m *model, o op) []string {
		if m.has("D") {
			m.write("WriteUserDraft", m.path("GetUserDraftPath", "draft", o.User, o.File), o.Data)
		}
		return nil
	}},
}

// find returns the record of the operation's article
func (f *fake) find(o op) bbs.ArticleRecord {
	for _, a := range f.arts[f.p("index", o.Board)] {
		if a.Filename() == o.File {
			return a
		}
	}
	return &article{art: art{File: o.File}}
}

// calls which a fault can strike
var calls = []string{
	"GetUserRecordsPath", "ReadUserRecordsFile", "GetUserFavoriteRecordsPath", "ReadUserFavoriteRecordsFile", "GetBoardRecordsPath", "ReadBoardRecordsFile",
	"GetBoardArticleRecordsPath", "ReadArticleRecordsFile", "GetBoardTreasureRecordsPath", "GetBoardArticleFilePath", "GetBoardTreasureFilePath", "ReadBoardArticleFile",
	"NewBoardRecord", "AddBoardRecordFileRecord", "CreateBoardArticleFilename", "NewArticleRecord", "AddArticleRecordFileRecord", "WriteBoardArticleFile", "AppendBoardArticleFile",
	"GetUserArticleRecordsPath", "ReadUserArticleRecordFile", "GetUserCommentRecordsPath", "ReadUserCommentRecordFile",
	"GetUserDraftPath", "ReadUserDraft", "DeleteUserDraft", "WriteUserDraft",
}

// struck are the calls which the operation makes
var struck = map[string][]string{
	"users": calls[0:2], "favourites": calls[2:4], "boards": calls[4:6], "index": calls[6:8],
	"treasure index": {"GetBoardTreasureRecordsPath", "ReadArticleRecordsFile"}, "article": {"GetBoardArticleFilePath", "ReadBoardArticleFile"},
	"treasure": calls[10:12], "new board": calls[12:13], "add board": {"GetBoardRecordsPath", "AddBoardRecordFileRecord"},
	"new article": calls[14:16], "list article": {"GetBoardArticleRecordsPath", "AddArticleRecordFileRecord"},
	"write article": {"GetBoardArticleFilePath", "WriteBoardArticleFile"}, "append article": {"GetBoardArticleFilePath", "AppendBoardArticleFile"},
	"user articles":    {"GetUserArticleRecordsPath", "ReadUserArticleRecordFile", "GetBoardRecordsPath", "ReadBoardRecordsFile", "GetBoardArticleRecordsPath", "ReadArticleRecordsFile"},
	"user comments":    {"GetUserCommentRecordsPath", "ReadUserCommentRecordFile", "GetBoardRecordsPath", "ReadBoardRecordsFile", "GetBoardArticleRecordsPath", "ReadArticleRecordsFile", "GetBoardArticleFilePath", "ReadBoardArticleFile"},
	"board comments":   {"GetBoardArticleRecordsPath", "ReadArticleRecordsFile", "GetBoardArticleFilePath", "ReadBoardArticleFile"},
	"article comments": {"GetBoardArticleFilePath", "ReadBoardArticleFile"},
	"draft":            calls[23:25], "delete draft": {"GetUserDraftPath", "DeleteUserDraft"}, "save draft": {"GetUserDraftPath", "WriteUserDraft"},
}

var opNames = func() (out []string) {
	for n := range operations {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}()

func draw(t *rapid.T) driverCase {
	users := []string{"pichu", "Pichu", "pichu2", "SYSOP"}
	word := gen.Match(`[a-zA-Z0-9]{1,8}`)
	c := driverCase{
		Parts:   rapid.SampledFrom(kinds).Draw(t, "parts"),
		Factory: rapid.Bool().Draw(t, "factory"), OpenFails: gen.Num(0, 19).Draw(t, "open fails") == 0,
		Salt: word.Draw(t, "salt"), Source: rapid.OneOf(word, gen.Text(30)).Draw(t, "source"),
		Users: rapid.IntRange(0, 3).Draw(t, "users"),
		Posts: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "posts"), Comments: rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "comments"),
	}
	lines := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) line {
		l := line{Text: gen.Match(`[a-z]{1,5}`).Draw(t, "text")}
		if rapid.Bool().Draw(t, "comment?") {
			l.Owner = rapid.SampledFrom(users).Draw(t, "owner")
		}
		return l
	}), 0, 5)
	for i, id := range rapid.SliceOfNDistinct(rapid.OneOf(word, rapid.SampledFrom([]string{"ALLPOST", "", "allpost", "Test"})), 0, 4, rapid.ID[string]).Draw(t, "boards") {
		b := brd{ID: id}
		n := rapid.IntRange(0, 3).Draw(t, "arts")
		for j := 0; j < n; j++ {
			a := art{File: fmt.Sprintf("M.%d%d.A", i, j), Owner: rapid.SampledFrom(users).Draw(t, "owner"), Title: word.Draw(t, "title"), Lines: lines.Draw(t, "lines")}
			if rapid.IntRange(0, 9).Draw(t, "vacated?") == 0 {
				a.File = ""
			}
			b.Arts = append(b.Arts, a)
		}
		c.Boards = append(c.Boards, b)
	}
	c.Ops = gen.ListOf(rapid.Custom(func(t *rapid.T) op {
		o := op{
			Name:  rapid.SampledFrom(opNames).Draw(t, "op"),
			Board: rapid.OneOf(word, rapid.SampledFrom([]string{"", "Test", "ALLPOST", "a/b"})).Draw(t, "board"),
			User:  rapid.OneOf(rapid.SampledFrom(users), word).Draw(t, "user"),
			File:  rapid.OneOf(word, rapid.SampledFrom([]string{"", "0", "M.1.A.001", "a/b"})).Draw(t, "file"),
			Data:  rapid.OneOf(word, gen.Text(40), rapid.Just("")).Draw(t, "data"),
		}
		o.Folder = rapid.SliceOfN(word, 0, 3).Draw(t, "folder")
		if len(c.Boards) > 0 && rapid.IntRange(0, 4).Draw(t, "known?") > 0 {
			b := rapid.SampledFrom(c.Boards).Draw(t, "known board")
			o.Board = b.ID
			if len(b.Arts) > 0 {
				o.File = rapid.SampledFrom(b.Arts).Draw(t, "known file").File
			}
		}
		if rapid.Bool().Draw(t, "fault?") {
			o.Fault = fault{
				Call:    rapid.OneOf(rapid.SampledFrom(struck[o.Name]), rapid.SampledFrom(struck[o.Name]), rapid.SampledFrom(calls)).Draw(t, "call"),
				Missing: rapid.Bool().Draw(t, "missing"), Text: word.Draw(t, "text"),
			}
			if rapid.Bool().Draw(t, "arg?") {
				o.Fault.Arg = rapid.SampledFrom([]string{o.Board, o.File, o.User}).Draw(t, "arg")
			}
		}
		return o
	}), 1, 8, 60).Draw(t, "ops")
	return c
}

func isWrite(entry string) bool { return !strings.HasPrefix(entry, "Read") }

var serial atomic.Int64

func check(c driverCase, x *kit.X) error {
	f := newFake(c)
	name := fmt.Sprintf("fake%d", serial.Add(1))
	conn, calls := f.driver(c.Parts), 0
	if c.Factory {
		bbs.Register(name, factory{(&fake{}).driver(""), func() bbs.Connector { calls++; return conn }})
	} else {
		bbs.Register(name, conn)
	}
	if c.OpenFails {
		f.fault = fault{Call: "Open", Text: "at open"}
	}
	if _, err := bbs.Open(name+"x", c.Source); err == nil {
		return fmt.Errorf("a driver which nobody registered can be opened")
	}
	db, err := bbs.Open(name, c.Source)
	if c.OpenFails {
		if err == nil {
			return fmt.Errorf("the driver fails to open, and there is no error")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}
	if f.path != c.Source {
		return fmt.Errorf("the driver is to open %q instead of %q", f.path, c.Source)
	}
	for i, o := range c.Ops {
		f.fault, f.hit, f.log, f.got = o.Fault, false, nil, nil
		what := operations[o.Name]
		m := &model{f: f, parts: c.Parts, fault: o.Fault, reads: map[string]bool{}}
		want := what.model(m, o)
		all := &model{f: f, parts: c.Parts, reads: map[string]bool{}}
		what.model(all, o)
		got, err := what.do(db, o, f)
		at := fmt.Sprintf("step %d, %s of a driver with parts %q", i, o.Name, c.Parts)
		if m.failed {
			x.NonTrivial(f.hit)
			x.LabelIf(!f.hit, "part is missing")
			if err == nil {
				return fmt.Errorf("%s: no error, though %+v", at, o.Fault)
			}
			if f.hit && !strings.Contains(err.Error(), o.Fault.Text) {
				return fmt.Errorf("%s: the error is %v, though %+v", at, err, o.Fault)
			}
		} else {
			if err != nil {
				return fmt.Errorf("%s: %w", at, err)
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				return fmt.Errorf("%s: it returns %.300q instead of %.300q", at, got, want)
			}
			x.NonTrivial(len(got) > 1)
		}
		var writes []string
		for _, e := range f.log {
			if isWrite(e) {
				writes = append(writes, e)
			} else if !all.reads[e] {
				return fmt.Errorf("%s: it reads %s", at, e)
			}
		}
		if strings.Join(writes, "\n") != strings.Join(m.writes, "\n") {
			return fmt.Errorf("%s: it does %q instead of %q", at, writes, m.writes)
		}
		if !m.failed && len(f.got) != len(m.given) {
			return fmt.Errorf("%s: the driver is given %d records instead of %d", at, len(f.got), len(m.given))
		}
		for j := range f.got {
			if j < len(m.given) && f.got[j] != m.given[j] {
				return fmt.Errorf("%s: the driver is given another record", at)
			}
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C46",
		Rule:        "a case is a driver (12 choices of optional parts, with or without a factory, made up paths, records, cached lists and articles) and up to eight operations, half of them with an error at one of the driver's calls, for all arguments or for one board, user or file; it is non-trivial when an error strikes or an operation returns at least two records",
		Assumptions: []string{"the error of the operation contains the text of the driver's error", "an index which is said not to exist is empty, and articles which are said not to exist are passed over in a search for comments, as C24 and C45 have it", "reads may be repeated or reordered, other calls may not"},
		Arms:        []kit.Arm{kit.NewArm("drivers", 40000, 2000000, draw, check)},
	})
}
