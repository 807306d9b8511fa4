// C47: the boards endpoint lists every stored board, in order.
package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/web"

	"pgregory.net/rapid"
)

type listCase struct {
	Boards  [][]byte
	Threads int
	Times   int // the boards are repeated so often
}

// names which the answer has for fields of the record
var names = map[string]string{
	"BrdName": "brdname", "Brdattr": "brdattr", "ChessCountry": "chesscountry",
	"VoteLimitPosts": "vote_limit_posts", "VoteLimitLogins": "vote_limit_logins", "BUpdate": "bupdate",
	"PostLimitPosts": "post_limit_posts", "PostLimitLogins": "post_limit_logins", "BVote": "bvote", "VTime": "vtime",
	"Level": "level", "PermReload": "perm_reload", "Gid": "gid", "Parent": "parent", "ChildCount": "childcount",
	"Nuser": "nuser", "PostExpire": "postexpire", "EndGamble": "endgamble", "PostType": "posttype",
	"FastRecommendPause": "fastrecommend_pause", "VoteLimitBadPost": "vote_limit_badpost", "PostLimitBadPost": "post_limit_badpost",
	"SRexpire": "srexpire",
}

func draw(t *rapid.T) listCase {
	n := rapid.SampledFrom([]int{0, 1, 3, 8, 40}).Draw(t, "most")
	c := listCase{
		Boards:  gen.Echo(t, gen.ListOf(gen.Board.Record(), 0, n, 1500).Draw(t, "boards")),
		Threads: rapid.SampledFrom([]int{1, 1, 4}).Draw(t, "threads"),
	}
	if rapid.IntRange(0, 39).Draw(t, "many?") == 0 {
		c.Times = 1 + rapid.SampledFrom([]int{120, 300, 1100, 1100, 5000, 20000}).Draw(t, "times")/max(1, len(c.Boards))
	}
	return c
}

func ask(s *web.Server, c listCase) error {
	a, err := s.Get("/v1/boards", nil)
	if err != nil {
		return err
	}
	if a.Status != 200 {
		return fmt.Errorf("status %d: %.300s", a.Status, a.Body)
	}
	var m struct{ Data []map[string]any }
	if err := json.Unmarshal(a.Body, &m); err != nil {
		return fmt.Errorf("%v: %.300s", err, a.Body)
	}
	if len(m.Data) != len(c.Boards) {
		return fmt.Errorf("%d boards are listed, %d are stored", len(m.Data), len(c.Boards))
	}
	for i, b := range m.Data {
		for name, fname := range names {
			f := gen.Board.Find(fname)
			want, got := f.Value(c.Boards[i]), b[name]
			ok := false
			switch g := got.(type) {
			case string:
				if f.Kind == gen.Time {
					when, err := time.Parse(time.RFC3339, g)
					ok = err == nil && (when.Unix() == int64(want.(uint64)) || want.(uint64) == 0 && when.IsZero())
				} else {
					ok = g == fmt.Sprint(want)
				}
			case float64:
				switch w := want.(type) {
				case uint64:
					ok = g == float64(w)
				case int64:
					ok = g == float64(w)
				}
			}
			if !ok {
				return fmt.Errorf("board %d of %d: %s is %#v, stored is %#v", i, len(m.Data), name, got, want)
			}
		}
	}
	return nil
}

func check(c listCase, x *kit.X) error {
	once := c.Boards
	for i := 1; i < c.Times; i++ {
		c.Boards = append(c.Boards, once...)
	}
	h := web.Home(x.Dir())
	kit.Write(h.Passwds(), nil)
	kit.Write(h.Boards(), gen.Join(c.Boards))
	s, err := web.Start(x.Dir())
	if err != nil {
		return err
	}
	defer s.Stop()
	x.NonTrivial(len(c.Boards) > 1)
	errs := make([]error, c.Threads)
	var wg sync.WaitGroup
	for n := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 2 && errs[n] == nil; i++ {
				errs[n] = ask(s, c)
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:      "C47",
		Rule:    "a case is a board list of up to 40 drawn records, vacated ones among them, in one of forty cases repeated to up to 20000, which is asked for twice by one or by four clients at the same time; it is non-trivial when there are at least two boards",
		Prepare: web.Build("./serverlet"), Wrap: web.Wrap, Serial: !web.Private(),
		Assumptions: []string{"board titles and moderators are not part of the answer today and are not asked for"},
		Arms:        []kit.Arm{kit.NewArm("lists", 1600, 40000, draw, check)},
	})
}
