package main

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	"io/fs"

	"github.com/Ptt-official-app/go-bbs"
)

// what the driver hands out and takes; the database must pass on these very values
type (
	user  struct{ bbs.UserRecord }
	fav   struct{ bbs.FavoriteRecord }
	board struct {
		bbs.BoardRecord
		id string
	}
	article struct {
		bbs.ArticleRecord
		art
		board string
	}
	posted  struct{ bbs.UserArticleRecord }
	comment struct{ bbs.UserCommentRecord }
)

func (b *board) BoardID() string       { return b.id }
func (b *board) Title() string         { return "title of " + b.id }
func (b *board) IsClass() bool         { return false }
func (b *board) ClassID() string       { return "1" }
func (b *board) BM() []string          { return nil }
func (a *article) Filename() string    { return a.File }
func (a *article) Owner() string       { return a.art.Owner }
func (a *article) Title() string       { return a.art.Title }
func (a *article) Date() string        { return "1/02" }
func (a *article) Recommend() int      { return 0 }
func (a *article) Money() int          { return 0 }
func (a *article) Modified() time.Time { return time.Time{} }

// fault of the driver
type fault struct {
	Call    string // none when empty
	Arg     string // part of the path or id; any when empty
	Missing bool   // the error says that there is no such file
	Text    string
}

// fake is a driver which records what it is asked for
type fake struct {
	c     driverCase
	fault fault
	hit   bool     // the fault has happened
	log   []string // every effect: call with its arguments
	got   []any    // records it was given
	path  string   // data source

	users  []bbs.UserRecord
	favs   []bbs.FavoriteRecord
	boards []bbs.BoardRecord
	posts  []bbs.UserArticleRecord
	comms  []bbs.UserCommentRecord
	arts   map[string][]bbs.ArticleRecord // of a path
	newest any                            // the record it made last
}

func newFake(c driverCase) *fake {
	f := &fake{c: c, arts: map[string][]bbs.ArticleRecord{}}
	for i := 0; i < c.Users; i++ {
		f.users = append(f.users, &user{})
		f.favs = append(f.favs, &fav{})
	}
	for _, b := range c.Boards {
		f.boards = append(f.boards, &board{id: b.ID})
		for _, a := range b.Arts {
			p := f.p("index", b.ID)
			f.arts[p] = append(f.arts[p], &article{art: a, board: b.ID})
		}
	}
	for i := 0; i < c.Posts; i++ {
		f.posts = append(f.posts, &posted{})
	}
	for i := 0; i < c.Comments; i++ {
		f.comms = append(f.comms, &comment{})
	}
	return f
}

// p names a path
func (f *fake) p(kind string, args ...string) string {
	return fmt.Sprintf("%s%s%q", f.c.Salt, kind, args)
}

// call decides whether the call fails
func (f *fake) call(name string, args ...string) error {
	if f.fault.Call != name {
		return nil
	}
	if f.fault.Arg != "" && !strings.Contains(strings.Join(args, "\x01"), f.fault.Arg) {
		return nil
	}
	f.hit = true
	if f.fault.Missing {
		return &fs.PathError{Op: "open", Path: f.fault.Text, Err: syscall.ENOENT}
	}
	return fmt.Errorf("fault %s", f.fault.Text)
}

// effect records a call which does something
func (f *fake) effect(name string, args ...string) error {
	err := f.call(name, args...)
	f.log = append(f.log, fmt.Sprintf("%s%q", name, args))
	return err
}

func (f *fake) named(call, kind string, args ...string) (string, error) {
	if err := f.call(call, args...); err != nil {
		return "", err
	}
	return f.p(kind, args...), nil
}

func (f *fake) Open(source string) error {
	f.path = source
	return f.call("Open", source)
}
func (f *fake) GetUserRecordsPath() (string, error) { return f.named("GetUserRecordsPath", "users") }
func (f *fake) ReadUserRecordsFile(name string) ([]bbs.UserRecord, error) {
	return f.users, f.effect("ReadUserRecordsFile", name)
}
func (f *fake) GetUserFavoriteRecordsPath(u string) (string, error) {
	return f.named("GetUserFavoriteRecordsPath", "favourites", u)
}
func (f *fake) ReadUserFavoriteRecordsFile(name string) ([]bbs.FavoriteRecord, error) {
	return f.favs, f.effect("ReadUserFavoriteRecordsFile", name)
}
func (f *fake) GetBoardRecordsPath() (string, error) { return f.named("GetBoardRecordsPath", "boards") }
func (f *fake) ReadBoardRecordsFile(name string) ([]bbs.BoardRecord, error) {
	return f.boards, f.effect("ReadBoardRecordsFile", name)
}
func (f *fake) GetBoardArticleRecordsPath(b string) (string, error) {
	return f.named("GetBoardArticleRecordsPath", "index", b)
}
func (f *fake) GetBoardTreasureRecordsPath(b string, t []string) (string, error) {
	return f.named("GetBoardTreasureRecordsPath", "treasure index", append([]string{b}, t...)...)
}
func (f *fake) ReadArticleRecordsFile(name string) ([]bbs.ArticleRecord, error) {
	err := f.effect("ReadArticleRecordsFile", name)
	if as, ok := f.arts[name]; ok {
		return as, err
	}
	return f.others(), err
}

// others are the records of every file but an index of a board
func (f *fake) others() []bbs.ArticleRecord {
	if len(f.arts) == 0 {
		return nil
	}
	return []bbs.ArticleRecord{other}
}

var other = &article{art: art{File: "other"}}

func (f *fake) GetBoardArticleFilePath(b, name string) (string, error) {
	return f.named("GetBoardArticleFilePath", "article", b, name)
}
func (f *fake) GetBoardTreasureFilePath(b string, t []string, name string) (string, error) {
	return f.named("GetBoardTreasureFilePath", "treasure", append(append([]string{b}, t...), name)...)
}
func (f *fake) ReadBoardArticleFile(name string) ([]byte, error) {
	return f.content(name), f.effect("ReadBoardArticleFile", name)
}

func (f *fake) content(name string) []byte {
	for _, b := range f.c.Boards {
		for _, a := range b.Arts {
			if name == f.p("article", b.ID, a.File) {
				return []byte(a.Text())
			}
		}
	}
	return []byte("content of " + name)
}

type boardPart struct{ *fake }

func (f boardPart) NewBoardRecord(args map[string]interface{}) (bbs.BoardRecord, error) {
	f.newest = &board{id: fmt.Sprint(args)}
	return f.newest.(bbs.BoardRecord), f.effect("NewBoardRecord", fmt.Sprint(args))
}
func (f boardPart) AddBoardRecordFileRecord(name string, b bbs.BoardRecord) error {
	f.got = append(f.got, b)
	return f.effect("AddBoardRecordFileRecord", name)
}
func (f boardPart) UpdateBoardRecordFileRecord(name string, index uint, b bbs.BoardRecord) error {
	return f.effect("UpdateBoardRecordFileRecord", name, fmt.Sprint(index))
}
func (f boardPart) ReadBoardRecordFileRecord(name string, index uint) (bbs.BoardRecord, error) {
	return nil, f.effect("ReadBoardRecordFileRecord", name, fmt.Sprint(index))
}
func (f boardPart) RemoveBoardRecordFileRecord(name string, index uint) error {
	return f.effect("RemoveBoardRecordFileRecord", name, fmt.Sprint(index))
}

type articlePart struct{ *fake }

func (f articlePart) CreateBoardArticleFilename(b string) (string, error) {
	return "new in " + b, f.effect("CreateBoardArticleFilename", b)
}
func (f articlePart) NewArticleRecord(name, owner, date, title string) (bbs.ArticleRecord, error) {
	f.newest = &article{art: art{File: name, Owner: owner, Title: title}}
	return f.newest.(bbs.ArticleRecord), f.effect("NewArticleRecord", name, owner, date, title)
}
func (f articlePart) AddArticleRecordFileRecord(name string, a bbs.ArticleRecord) error {
	f.got = append(f.got, a)
	return f.effect("AddArticleRecordFileRecord", name)
}
func (f articlePart) UpdateArticleRecordFileRecord(name string, index uint, a bbs.ArticleRecord) error {
	return f.effect("UpdateArticleRecordFileRecord", name, fmt.Sprint(index))
}
func (f articlePart) WriteBoardArticleFile(name string, content []byte) error {
	return f.effect("WriteBoardArticleFile", name, string(content))
}
func (f articlePart) AppendBoardArticleFile(name string, content []byte) error {
	return f.effect("AppendBoardArticleFile", name, string(content))
}

type postsPart struct{ *fake }

func (f postsPart) GetUserArticleRecordsPath(u string) (string, error) {
	return f.named("GetUserArticleRecordsPath", "posts", u)
}
func (f postsPart) ReadUserArticleRecordFile(name string) ([]bbs.UserArticleRecord, error) {
	return f.posts, f.effect("ReadUserArticleRecordFile", name)
}
func (f postsPart) WriteUserArticleRecordFile(name string, _ []bbs.UserArticleRecord) error {
	return f.effect("WriteUserArticleRecordFile", name)
}
func (f postsPart) AppendUserArticleRecordFile(name string, _ bbs.UserArticleRecord) error {
	return f.effect("AppendUserArticleRecordFile", name)
}

type commentsPart struct{ *fake }

func (f commentsPart) GetUserCommentRecordsPath(u string) (string, error) {
	return f.named("GetUserCommentRecordsPath", "comments", u)
}
func (f commentsPart) ReadUserCommentRecordFile(name string) ([]bbs.UserCommentRecord, error) {
	return f.comms, f.effect("ReadUserCommentRecordFile", name)
}

type draftPart struct{ *fake }

func (f draftPart) GetUserDraftPath(u, d string) (string, error) {
	return f.named("GetUserDraftPath", "draft", u, d)
}
func (f draftPart) ReadUserDraft(name string) ([]byte, error) {
	return []byte("draft in " + name), f.effect("ReadUserDraft", name)
}
func (f draftPart) DeleteUserDraft(name string) error { return f.effect("DeleteUserDraft", name) }
func (f draftPart) WriteUserDraft(name string, draft []byte) error {
	return f.effect("WriteUserDraft", name, string(draft))
}

// The parts a driver has, one letter each: Boards, Articles, Posts, Comments, Drafts
var kinds = []string{"", "B", "A", "P", "C", "D", "APCD", "BPCD", "BACD", "BAPD", "BAPC", "BAPCD", "BAPCD", "BAPCD"}

func (f *fake) driver(parts string) bbs.Connector {
	type (
		n = bbs.Connector
		b = bbs.WriteBoardConnector
		a = bbs.WriteArticleConnector
		p = bbs.UserArticleConnector
		c = bbs.UserCommentConnector
		d = bbs.UserDraftConnector
	)
	fb, fa, fp, fc, fd := boardPart{f}, articlePart{f}, postsPart{f}, commentsPart{f}, draftPart{f}
	switch parts {
	case "":
		return f
	case "B":
		return struct {
			n
			b
		}{f, fb}
	case "A":
		return struct {
			n
			a
		}{f, fa}
	case "P":
		return struct {
			n
			p
		}{f, fp}
	case "C":
		return struct {
			n
			c
		}{f, fc}
	case "D":
		return struct {
			n
			d
		}{f, fd}
	case "APCD":
		return struct {
			n
			a
			p
			c
			d
		}{f, fa, fp, fc, fd}
	case "BPCD":
		return struct {
			n
			b
			p
			c
			d
		}{f, fb, fp, fc, fd}
	case "BACD":
		return struct {
			n
			b
			a
			c
			d
		}{f, fb, fa, fc, fd}
	case "BAPD":
		return struct {
			n
			b
			a
			p
			d
		}{f, fb, fa, fp, fd}
	case "BAPC":
		return struct {
			n
			b
			a
			p
			c
		}{f, fb, fa, fp, fc}
	case "BAPCD":
		return struct {
			n
			b
			a
			p
			c
			d
		}{f, fb, fa, fp, fc, fd}
	}
	panic(parts)
}

// factory makes a driver for each Open
type factory struct {
	bbs.Connector
	f func() bbs.Connector
}

func (f factory) NewConnector() bbs.Connector { return f.f() }
