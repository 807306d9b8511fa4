// C41: the command line tool shows and changes exactly what the BBS holds.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/web"

	"pgregory.net/rapid"
)

// step is one run of the tool
type step struct {
	Cmd         string
	Board, User string
	File        string
	Pick        int // of an article
	Title, Date string
	Content     string
	Times       int      // the content is repeated so often
	ByFile      bool     // the content is given as a file
	Order       []int    // of the arguments
	Without     string   // an argument which is left out
	Noise       []string // words among the arguments which are none
	NoHome      bool     // the home is not there
}

type history struct {
	Tree  gen.Tree
	Users [][]byte // account records
	Steps []step
	Grow  gen.Grow
}

var cmds = []string{"show_board_list", "add_board", "show_user_list", "show_user_article_list", "show_user_comment_list", "show_board_article_list", "add_board_article", "show_board_article"}

func draw(t *rapid.T) history {
	h := history{Tree: gen.TreeOf(4, 4, 4).Draw(t, "tree")}
	if rapid.IntRange(0, 49).Draw(t, "grow?") == 0 {
		h.Grow = gen.GrowOf().Draw(t, "grow")
	}
	for _, id := range h.Tree.Users {
		r := gen.User.Record().Draw(t, "account")
		switch rapid.IntRange(0, 5).Draw(t, "vacated?") {
		case 0:
			id = ""
		case 1: // one who writes nothing
			id = gen.ID().Draw(t, "silent")
		}
		gen.User.Find("userid").PutText(r, id)
		h.Users = append(h.Users, r)
	}
	boards := []string{"nosuchboard"}
	for _, b := range h.Tree.Boards {
		if b.ID != "" {
			boards = append(boards, b.ID, b.ID, b.ID)
		}
	}
	text := gen.Text(60)
	h.Steps = gen.ListOf(rapid.Custom(func(t *rapid.T) step {
		s := step{
			Cmd: rapid.SampledFrom(cmds).Draw(t, "cmd"), Board: rapid.SampledFrom(boards).Draw(t, "board"),
			User: rapid.SampledFrom(append([]string{"nobody"}, h.Tree.Users...)).Draw(t, "user"), Pick: rapid.IntRange(0, 5).Draw(t, "pick"),
			Order: rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "order"), ByFile: rapid.Bool().Draw(t, "by file"),
		}
		switch s.Cmd {
		case "add_board":
			s.Board = rapid.OneOf(gen.ID(), rapid.SampledFrom(boards)).Draw(t, "new board")
			s.Title = rapid.OneOf(gen.Text(48), rapid.SampledFrom([]string{"--title", "-x", "%d", "--board_id"})).Draw(t, "title")
		case "add_board_article":
			s.Title = rapid.OneOf(gen.Text(64), rapid.SampledFrom([]string{"--title", "-x", "%d", "--content"})).Draw(t, "title")
			s.Date = fmt.Sprintf("%2d/%02d", gen.Num(1, 12).Draw(t, "m"), gen.Num(1, 28).Draw(t, "d"))
			s.Content = strings.Join(rapid.SliceOfN(text, 0, 6).Draw(t, "content"), "\n")
		}
		if rapid.IntRange(0, 9).Draw(t, "without?") == 0 {
			s.Without = rapid.SampledFrom([]string{"board", "board_id", "title", "user_id", "owner", "date", "filename", "content"}).Draw(t, "without")
		}
		if rapid.IntRange(0, 5).Draw(t, "noise?") == 0 {
			s.Noise = []string{rapid.SampledFrom([]string{"x", "-", "-x", "board"}).Draw(t, "noise")}
		}
		if s.Times = 1; s.ByFile && rapid.IntRange(0, 7).Draw(t, "long?") == 0 {
			s.Times = 1 + rapid.SampledFrom([]int{5000, 70000, 300000}).Draw(t, "long")/(1+len(s.Content))
		}
		s.NoHome = gen.Num(0, 24).Draw(t, "no home") == 0
		return s
	}), 1, 8, 20).Draw(t, "steps")
	return h
}

// arguments of the command
func (s step) arguments(file string) (names []string, values map[string]string) {
	v := map[string]string{}
	switch s.Cmd {
	case "add_board":
		v["board_id"], v["title"] = s.Board, s.Title
	case "show_user_article_list", "show_user_comment_list":
		v["user_id"] = s.User
	case "show_board_article_list":
		v["board"] = s.Board
	case "add_board_article":
		v["board"], v["owner"], v["date"], v["title"] = s.Board, s.User, s.Date, s.Title
		if s.ByFile {
			v["content_file"] = file
		} else {
			v["content"] = s.Content
		}
	case "show_board_article":
		v["board"], v["filename"] = s.Board, s.File
	}
	if s.Without != "" {
		delete(v, s.Without)
		if s.Without == "content" {
			delete(v, "content_file")
		}
	}
	all := []string{"board", "board_id", "owner", "user_id", "date", "filename", "title", "content", "content_file"}
	for _, i := range s.Order {
		for j, n := range all {
			if _, ok := v[n]; ok && j%len(s.Order) == i {
				names = append(names, n)
			}
		}
	}
	return names, v
}

// complete tells whether the command has all its arguments
func (s step) complete(values map[string]string) bool {
	n := map[string]int{"add_board": 2, "show_user_article_list": 1, "show_user_comment_list": 1, "show_board_article_list": 1, "add_board_article": 5, "show_board_article": 2}[s.Cmd]
	return len(values) == n
}

// files of the BBS
func files(root string) map[string]string {
	m := map[string]string{}
	kit.Must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		m[p] = string(kit.ReadFile(p))
		return nil
	}))
	return m
}

func changed(before, after map[string]string) (names []string) {
	for p, b := range after {
		if a, ok := before[p]; !ok || a != b {
			names = append(names, p)
		}
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			names = append(names, p)
		}
	}
	return names
}

func (c history) board(id string) *gen.Brd {
	for i := range c.Tree.Boards {
		if c.Tree.Boards[i].ID == id && id != "" {
			return &c.Tree.Boards[i]
		}
	}
	return nil
}

// run runs the tool and returns what it says behind its greeting
func run(home string, s step, file string) (string, map[string]string, error) {
	names, values := s.arguments(file)
	args := []string{s.Cmd}
	for i, n := range names {
		if i == len(names)/2 {
			args = append(args, s.Noise...)
		}
		args = append(args, "--"+n, values[n])
	}
	cmd := web.Command(web.Program(), append([]string{"--bbshome=" + home}, args...)...)
	cmd.Env = []string{"PATH=/usr/bin:/bin", kit.TZ(), "HOME=/nonexistent"}
	cmd.Dir = filepath.Dir(home)
	var out, log bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &log
	kit.Must(cmd.Start())
	late := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !late.Stop() {
		return "", nil, fmt.Errorf("the tool does not end: %v", args)
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			kit.Harness(err)
		}
		if !ee.Exited() || bytes.Contains(log.Bytes(), []byte("goroutine ")) {
			tail := log.Bytes()
			if i := bytes.LastIndex(tail, []byte("panic:")); i >= 0 {
				tail = tail[i:]
			}
			return "", nil, fmt.Errorf("the tool crashes: %v\n%.800s", err, tail)
		}
	}
	text := out.String()
	if greeting := fmt.Sprintf("args: %v\n", args); strings.Contains(text, greeting) {
		text = text[strings.Index(text, greeting)+len(greeting):]
	} else {
		return "", nil, fmt.Errorf("the output does not show the arguments: %.300q", text)
	}
	return text, values, nil
}

func utf8(b []byte) string {
	s, ok := gen.DecodeBig5(b)
	if !ok {
		kit.Harness(fmt.Errorf("no canonical text: %x", b))
	}
	return s
}

// shows is the exact output of a command which shows something
func (c history) shows(s step) string {
	var sb strings.Builder
	listed := func(f func(b gen.Brd)) {
		for _, b := range c.Tree.Boards {
			if b.Listed() && b.Has == "index" {
				f(b)
			}
		}
	}
	switch s.Cmd {
	case "show_board_list":
		for _, b := range c.Tree.Boards {
			fmt.Fprintf(&sb, "title: %s\n", b.Title)
		}
	case "show_user_list":
		for _, r := range c.Users {
			if id := gen.User.Find("userid").Value(r); id != "" {
				fmt.Fprintf(&sb, "user id: %s\n", id)
			}
		}
	case "show_user_article_list":
		listed(func(b gen.Brd) {
			for _, a := range b.Arts {
				if a.Owner == s.User {
					fmt.Fprintf(&sb, "titlex: %s\n", a.Title)
				}
			}
		})
	case "show_user_comment_list":
		listed(func(b gen.Brd) {
			for _, a := range b.Arts {
				if a.Gone {
					continue
				}
				for i, k := range a.Comments() {
					if k.Owner == s.User {
						fmt.Fprintf(&sb, "user comment record: order: %d, owner: %s, time: %s\n", i+1, k.Owner, k.Stamp())
					}
				}
			}
		})
	case "show_board_article_list":
		if b := c.board(s.Board); b != nil {
			for _, a := range b.Arts {
				fmt.Fprintf(&sb, "%s %12s %s %s\n", a.File, a.Owner, a.Date, a.Title)
			}
		}
	}
	return sb.String()
}

func check(c history, x *kit.X) error {
	home := filepath.Join(x.Dir(), "bbs")
	c.Tree = c.Tree.Grown(c.Grow)
	h := gen.Home(home)
	kit.Must(c.Tree.Write(h))
	kit.Write(h.Passwds(), gen.Join(c.Users))
	input := filepath.Join(x.Dir(), "content")
	for i, s := range c.Steps {
		s.Content = strings.Repeat(s.Content, max(1, s.Times))
		at := fmt.Sprintf("step %d %s", i, s.Cmd)
		if s.ByFile {
			kit.Write(input, []byte(s.Content))
		}
		var art *gen.Art
		if s.Cmd == "show_board_article" {
			s.File = "nosuchfile"
			if b := c.board(s.Board); b != nil && s.Pick < len(b.Arts) {
				art = &b.Arts[s.Pick]
				s.File = art.File
			}
		}
		at0 := home
		if s.NoHome {
			at0 = filepath.Join(x.Dir(), "nowhere")
		}
		before := files(x.Dir())
		out, values, err := run(at0, s, input)
		if err != nil {
			return fmt.Errorf("%s: %w", at, err)
		}
		after := files(x.Dir())
		diff := changed(before, after)
		bad := func(f string, a ...any) error {
			return fmt.Errorf("%s with %q: %s; output %.400q", at, values, fmt.Sprintf(f, a...), out)
		}
		if s.NoHome || !s.complete(values) {
			x.Label("refused")
			if len(diff) > 0 {
				return bad("a command which cannot be done changes %q", diff)
			}
			if out == "" {
				return bad("a command which cannot be done says nothing")
			}
			if strings.Contains(out, "filecontent:") || strings.Contains(out, "new filename:") {
				return bad("a command which cannot be done says that it is done")
			}
			continue
		}
		switch s.Cmd {
		case "add_board":
			want := gen.NewBoard(s.Board, s.Title)
			rec, ok := strings.CutPrefix(after[h.Boards()], before[h.Boards()])
			if !ok || len(rec) != 256 {
				return bad("the board list does not have one more record")
			}
			for _, f := range []string{"brdname", "title"} {
				if !gen.Board.Find(f).Equal(want, []byte(rec)) {
					return bad("%s of the new board is %q", f, gen.Board.Find(f).Value([]byte(rec)))
				}
			}
			if len(diff) != 1 {
				return bad("these change: %q", diff)
			}
			x.NonTrivial(s.Title != "")
			if c.board(s.Board) != nil {
				return nil // two boards of one id share a directory: what follows is not defined
			}
			c.Tree.Boards = append(c.Tree.Boards, gen.Brd{ID: s.Board, Title: s.Title, Has: "none"})
		case "add_board_article":
			b := c.board(s.Board)
			if b == nil || b.Has == "none" {
				if len(diff) > 0 {
					return bad("there is no such board, and these change: %q", diff)
				}
				if out == "" || strings.Contains(out, "new filename:") {
					return bad("there is no such board")
				}
				break
			}
			name, ok := strings.CutPrefix(out, "new filename: ")
			name, ok2 := strings.CutSuffix(name, "\n")
			if !ok || !ok2 || name == "" || strings.ContainsAny(name, "/\n ") {
				return bad("it does not name the new article")
			}
			rec, ok := strings.CutPrefix(after[h.Board(s.Board, ".DIR")], before[h.Board(s.Board, ".DIR")])
			if !ok || len(rec) != 128 {
				return bad("the index does not have one more record")
			}
			want := gen.NewArticle(name, s.User, s.Date, s.Title)
			for _, f := range []string{"filename", "owner", "date", "title"} {
				if !gen.Article.Find(f).Equal(want, []byte(rec)) {
					return bad("%s of the new article is %q", f, gen.Article.Find(f).Value([]byte(rec)))
				}
			}
			if _, ok := before[h.Board(s.Board, name)]; ok {
				return bad("the article was there already")
			}
			if got := after[h.Board(s.Board, name)]; got != string(gen.MustBig5(s.Content)) {
				return bad("the article holds %.200q", got)
			}
			for _, p := range diff {
				if p != h.Board(s.Board, name) && p != h.Board(s.Board, ".DIR") && p != h.Board(s.Board, ".Name") {
					return bad("%s changes", p)
				}
			}
			b.Has = "index"
			a := gen.Art{File: name, Owner: s.User, Date: s.Date, Title: s.Title, NoFinal: true}
			if s.Content != "" {
				for _, l := range strings.Split(s.Content, "\n") {
					a.Lines = append(a.Lines, gen.ArtLine{Body: l})
				}
			}
			b.Arts = append(b.Arts, a)
			x.NonTrivial(s.Content != "" && s.Title != "")
		default:
			if len(diff) > 0 {
				return bad("these change: %q", diff)
			}
			if s.Cmd == "show_board_article" {
				if art == nil || art.Gone {
					if out == "" || strings.Contains(out, "filecontent:") {
						return bad("there is no such article")
					}
					break
				}
				want := "filecontent: \n" + utf8(art.Content()) + "\n"
				if out != want {
					return bad("it should be %.400q", want)
				}
				break
			}
			want := c.shows(s)
			if out != want {
				return bad("it should be %.400q", want)
			}
			x.NonTrivial(strings.Count(want, "\n") > 1)
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C41",
		Rule:        "a case is a generated BBS and up to eight runs of the tool: any command for known and unknown boards, users and articles, arguments in any order, with some left out, long contents by file, stray words among them, and sometimes a home which is not there; it is non-trivial when a listing has at least two lines or a board or article with a title is added",
		Prepare:     web.Build("./cmd/bbstool"),
		Assumptions: []string{"values of arguments have no NUL, and text is in Big5", "what the tool says of an error is free, but it must not be nothing", "the exit status is not looked at: the tool always ends with 0"},
		Arms:        []kit.Arm{kit.NewArm("runs", 2400, 100000, draw, check)},
	})
}
