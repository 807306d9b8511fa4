// C40: the user information endpoint reports exactly the stored account.
package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/web"

	"pgregory.net/rapid"
)

type question struct {
	ID, Item string
	Token    string // Authorization header, when not empty
}

type infoCase struct {
	web.Accounts
	Asks    []question
	Threads int
}

func draw(t *rapid.T) infoCase {
	c := infoCase{Accounts: web.AccountsOf().Draw(t, "accounts"), Threads: rapid.SampledFrom([]int{1, 1, 1, 4}).Draw(t, "threads")}
	c.Asks = gen.ListOf(rapid.Custom(func(t *rapid.T) question {
		q := question{Item: "information", Token: rapid.SampledFrom([]string{"", "", "bearer x", "Bearer a.b.c"}).Draw(t, "token")}
		if len(c.List) > 0 {
			q.ID = rapid.SampledFrom(c.List).Draw(t, "user").ID
		}
		switch rapid.IntRange(0, 7).Draw(t, "name") {
		case 0:
			q.ID = rapid.SampledFrom(append([]string{"guest", "information", "世界", "a b", "%", "a?b", "a#b"}, c.Nobody...)).Draw(t, "nobody")
		case 1:
			q.ID += rapid.SampledFrom([]string{"x", " ", "\x00", "\x00x", "1"}).Draw(t, "suffix")
		case 2:
			q.ID = rapid.SampledFrom([]string{strings.ToUpper(q.ID), strings.ToLower(q.ID), q.ID + q.ID}).Draw(t, "like")
		}
		if q.ID == "" {
			q.ID = "nobody"
		}
		if rapid.IntRange(0, 11).Draw(t, "item?") == 0 {
			q.Item = rapid.SampledFrom([]string{"informations", "info", "Information", "x", "passwd", "articles", "", "world"}).Draw(t, "item")
		}
		return q
	}), 1, 16, 80).Draw(t, "asks")
	return c
}

func ask(s *web.Server, c infoCase, q question) error {
	path := "/v1/users/" + web.Escape(q.ID)
	if q.Item != "" {
		path += "/" + q.Item
	}
	var head map[string]string
	if q.Token != "" {
		head = map[string]string{"Authorization": q.Token}
	}
	a, err := s.Get(path, head)
	if err != nil {
		return err
	}
	if q.Item != "information" {
		if a.Status < 400 {
			return fmt.Errorf("%s is no item, and answered with %d %s", path, a.Status, a.Body)
		}
		return nil
	}
	u := c.Find(q.ID)
	if u == nil {
		if a.Status < 400 {
			return fmt.Errorf("%s: there is no such user, and the answer is %d %s", path, a.Status, a.Body)
		}
		var m map[string]json.RawMessage
		if json.Unmarshal(a.Body, &m) == nil && m["data"] != nil {
			return fmt.Errorf("%s: there is no such user, and the answer has data: %s", path, a.Body)
		}
		return nil
	}
	if a.Status != 200 {
		return fmt.Errorf("%s: %d %s", path, a.Status, a.Body)
	}
	var m struct{ Data map[string]any }
	if err := json.Unmarshal(a.Body, &m); err != nil {
		return fmt.Errorf("%s: %v: %s", path, err, a.Body)
	}
	rec := u.Record()
	field := func(name string) any { return gen.User.Find(name).Value(rec) }
	want := map[string]string{
		"user_id": u.ID, "nickname": field("nickname").(string), "realname": field("realname").(string),
		"number_of_login_days": fmt.Sprint(field("numlogindays")), "number_of_posts": fmt.Sprint(field("numposts")),
		"money": fmt.Sprint(field("money")), "last_login_ipv4": field("lasthost").(string), "last_login_ip": field("lasthost").(string),
	}
	for k, w := range want {
		if got, ok := m.Data[k].(string); !ok || got != w {
			return fmt.Errorf("%s: %s is %#v, stored is %q", path, k, m.Data[k], w)
		}
	}
	ts, _ := m.Data["last_login_time"].(string)
	when, err := time.Parse(time.RFC3339, ts)
	if err != nil {
		return fmt.Errorf("%s: last login %q: %v", path, ts, err)
	}
	if stored := int64(field("lastlogin").(uint64)); when.Unix() != stored && !(stored == 0 && when.IsZero()) {
		return fmt.Errorf("%s: last login is %s, stored is second %d", path, ts, stored)
	}
	return nil
}

func check(c infoCase, x *kit.X) error {
	h := web.Home(x.Dir())
	kit.Write(h.Passwds(), c.File())
	kit.Write(h.Boards(), nil)
	s, err := web.Start(x.Dir())
	if err != nil {
		return err
	}
	defer s.Stop()
	for _, q := range c.Asks {
		if u := c.Find(q.ID); u != nil && q.Item == "information" {
			x.NonTrivial(len(c.List) > 1 && gen.User.Distinct(u.Record()) > 3)
		} else if u == nil {
			x.Label("unknown user")
		}
	}
	x.LabelIf(c.Threads > 1, "at the same time")
	errs := make([]error, len(c.Asks))
	var wg sync.WaitGroup
	for n := 0; n < c.Threads; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := n; i < len(c.Asks); i += c.Threads {
				if errs[i] = ask(s, c, c.Asks[i]); errs[i] != nil {
					return
				}
			}
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("request %d: %w", i, err)
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:      "C40",
		Rule:    "a case is an account file of up to nine accounts (in one of forty cases beside up to 66000 others) with similar ids and drawn records, vacated slots among them, and up to sixteen questions for known, similar and unknown users and items, one by one or four at a time; it is non-trivial when one of them is about an account with at least four different numbers beside another account",
		Prepare: web.Build("./serverlet"), Wrap: web.Wrap, Serial: !web.Private(),
		Assumptions: []string{"no two accounts share an id", "the item favorites is left out: the server does not implement it", "permission checks are left out: the server has only a stub"},
		Arms:        []kit.Arm{kit.NewArm("questions", 2400, 80000, draw, check)},
	})
}
