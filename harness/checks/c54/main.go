// C54: every request is answered, and none changes what others get.
package main

import (
	"bytes"
	"fmt"
	"net/url"
	"strings"
	"sync"

	"verif/harness/acts"
	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/web"

	"pgregory.net/rapid"
)

type header struct{ Name, Value string }

type request struct {
	Method, Path string
	Headers      []header
	Body         []byte
	Garbage      []byte // instead of all that
}

type serverCase struct {
	web.Accounts
	Boards  [][]byte
	Copies  int // of the boards
	Asks    []request
	Threads int
}

// a path from known and other segments
func drawPath(t *rapid.T, ids []string) string {
	seg := rapid.OneOf(
		rapid.SampledFrom([]string{"v1", "users", "boards", "classes", "token", "information", "favorites"}),
		rapid.SampledFrom([]string{"", "", ".", "..", "%2F", "%00", "%ff", "0", "-1", "99999999999999999999", "%E4%B8%96", "a b", ";", "v2", "user"}),
		rapid.SampledFrom(append([]string{"nobody"}, ids...)),
	)
	p := rapid.SampledFrom([]string{"/v1/users", "/v1/users", "/v1/users", "/v1/users/", "/v1/boards", "/v1/boards/", "/v1/classes", "/v1/classes/", "/v1/token", "/", "", "/v1"}).Draw(t, "start")
	for i := rapid.IntRange(0, 5).Draw(t, "segments"); i > 0; i-- {
		s := seg.Draw(t, "segment")
		if !strings.Contains(s, "%") {
			s = web.Escape(s)
		}
		p += rapid.SampledFrom([]string{"/", "/", "/", "/", "/", "/", "/", "//"}).Draw(t, "slash") + s
	}
	if rapid.IntRange(0, 5).Draw(t, "long?") == 0 {
		p += "/" + strings.Repeat("a", rapid.SampledFrom([]int{300, 4000, 60000}).Draw(t, "long"))
	}
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	switch rapid.IntRange(0, 6).Draw(t, "query") {
	case 0:
		p += "?" + gen.Match(`[a-z=&;%+?/]{0,20}`).Draw(t, "query")
	case 1:
		p += "?username=" + web.Escape(rapid.SampledFrom(append([]string{""}, ids...)).Draw(t, "name")) + "&password=x"
	}
	return p
}

func drawRequest(ids []string) *rapid.Generator[request] {
	return rapid.Custom(func(t *rapid.T) request {
		if rapid.IntRange(0, 11).Draw(t, "garbage?") == 0 {
			return request{Garbage: rapid.OneOf(gen.Bytes(200), rapid.Custom(func(t *rapid.T) []byte {
				return []byte(rapid.SampledFrom([]string{"GET\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "POST /v1/token HTTP/1.1\r\nHost: x\r\nContent-Length: 50\r\n\r\nshort", "GET /v1/users/x/information HTTP/1.1\r\n", "\r\n\r\n\r\n", "POST /v1/token HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nffffffffff\r\n"}).Draw(t, "bad"))
			})).Draw(t, "garbage")}
		}
		q := request{
			Method: rapid.SampledFrom([]string{"GET", "GET", "GET", "GET", "POST", "POST", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "FOO", "get"}).Draw(t, "method"),
			Path:   drawPath(t, ids),
		}
		for i := rapid.IntRange(0, 3).Draw(t, "headers"); i > 0; i-- {
			n := rapid.SampledFrom([]string{"Authorization", "Authorization", "Authorization", "Accept", "Cookie", "X-Forwarded-For", "Range", "If-None-Match", "Accept-Encoding", "Content-Language"}).Draw(t, "name")
			v := rapid.SampledFrom([]string{"", " ", "bearer", "bearer ", "bearer  x", "Bearer a.b.c", "Bearer ..", "Basic YTpi", "x", "bearer eyJhbGciOiJub25lIn0.e30.", "bytes=0-", "gzip", "*/*", "a b c d"}).Draw(t, "value")
			if rapid.IntRange(0, 9).Draw(t, "long?") == 0 {
				v += strings.Repeat("x ", 4000)
			}
			q.Headers = append(q.Headers, header{n, v})
		}
		if q.Method != "GET" && q.Method != "HEAD" {
			name := rapid.SampledFrom(append([]string{"", "nobody"}, ids...)).Draw(t, "user")
			kind := rapid.IntRange(0, 5).Draw(t, "body")
			typ := "application/x-www-form-urlencoded"
			switch kind {
			case 0:
			case 1:
				q.Body = []byte(url.Values{"grant_type": {"password"}, "username": {name}, "password": {"x"}}.Encode())
			case 2:
				q.Body = []byte(gen.Match(`[a-z=&;%+]{0,40}`).Draw(t, "form"))
			case 3:
				typ, q.Body = "application/json", []byte(`{"username":"`+name+`","password":null}`)
			case 4:
				typ, q.Body = rapid.SampledFrom([]string{"multipart/form-data", "multipart/form-data; boundary=b", "text/plain", "x/;;"}).Draw(t, "type"), []byte("--b\r\nContent-Disposition: form-data; name=\"username\"\r\n\r\n"+name+"\r\n--b--\r\n")
			case 5:
				q.Body = []byte("username=" + strings.Repeat("y", rapid.SampledFrom([]int{100, 70000, 200000}).Draw(t, "big")))
			}
			if kind != 0 {
				q.Headers = append(q.Headers, header{"Content-Type", typ})
			}
		}
		return q
	})
}

func draw(t *rapid.T) serverCase {
	c := serverCase{Accounts: web.AccountsOf().Draw(t, "accounts"), Boards: rapid.SliceOfN(gen.Board.Record(), 0, 3).Draw(t, "boards"), Threads: rapid.SampledFrom([]int{1, 1, 3}).Draw(t, "threads")}
	c.Crowd = 0
	c.Copies = rapid.SampledFrom([]int{1, 1, 1, 1, 1, 1, 1, 30, 700}).Draw(t, "copies")
	var ids []string
	for _, a := range c.List {
		if a.ID != "" {
			ids = append(ids, a.ID)
		}
	}
	c.Asks = rapid.SliceOfN(drawRequest(ids), 1, 24).Draw(t, "asks")
	return c
}

func (q request) bytes() []byte {
	if q.Method == "" {
		return q.Garbage
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n", q.Method, q.Path)
	for _, h := range q.Headers {
		fmt.Fprintf(&b, "%s: %s\r\n", h.Name, h.Value)
	}
	if q.Body != nil {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", len(q.Body))
	}
	b.WriteString("\r\n")
	b.Write(q.Body)
	return b.Bytes()
}

// probes are the questions whose answers must stay
func (c serverCase) probes(s *web.Server) ([]string, error) {
	var out []string
	for _, p := range []string{"/v1/boards", "/v1/users/nobody/information", ""} {
		if p == "" {
			for _, a := range c.List {
				if a.ID != "" {
					p = "/v1/users/" + web.Escape(a.ID) + "/information"
				}
			}
		}
		if p == "" {
			continue
		}
		a, err := s.Get(p, nil)
		if err != nil {
			return nil, err
		}
		out = append(out, fmt.Sprintf("%s: %d %s", p, a.Status, a.Body))
	}
	for _, u := range c.List {
		if u.ID != "" {
			a, err := s.Post("/v1/token", url.Values{"grant_type": {"password"}, "username": {u.ID}, "password": {u.Password}})
			if err != nil {
				return nil, err
			}
			out = append(out, fmt.Sprintf("login as %q: %d, token %v", u.ID, a.Status, bytes.Contains(a.Body, []byte("access_token"))))
			break
		}
	}
	return out, nil
}

func same(want, got []string, when string) error {
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			return fmt.Errorf("before the requests: %.300s; %s: %.300s", want[i], when, got[i])
		}
	}
	return nil
}

func check(c serverCase, x *kit.X) error {
	h := web.Home(x.Dir())
	kit.Write(h.Passwds(), c.File())
	kit.Write(h.Boards(), bytes.Repeat(gen.Join(c.Boards), max(1, c.Copies)))
	before := acts.Tree(string(h))
	s, err := web.Start(x.Dir())
	if err != nil {
		return err
	}
	defer s.Stop()
	want, err := c.probes(s)
	if err != nil {
		return err
	}
	errs := make([]error, c.Threads)
	var wg sync.WaitGroup
	for n := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := n; i < len(c.Asks); i += c.Threads {
				q := c.Asks[i]
				a, err := s.Raw(q.Method, q.bytes())
				if q.Method == "" {
					continue // it need not understand that
				}
				if err != nil {
					errs[n] = fmt.Errorf("request %d, %s %.200s: %w", i, q.Method, q.Path, err)
					return
				}
				if a.Status < 100 || a.Status > 599 {
					errs[n] = fmt.Errorf("request %d, %s %.200s: status %d", i, q.Method, q.Path, a.Status)
					return
				}
			}
		}()
	}
	// what is known gets the same answers meanwhile
	meanwhile := make(chan error, 1)
	stop := make(chan bool)
	go func() {
		for {
			got, err := c.probes(s)
			if err == nil {
				err = same(want, got, "during the requests")
			}
			select {
			case <-stop:
			default:
				if err == nil {
					continue
				}
			}
			meanwhile <- err
			return
		}
	}()
	wg.Wait()
	close(stop)
	if err := <-meanwhile; err != nil {
		return err
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	got, err := c.probes(s)
	if err != nil {
		return fmt.Errorf("after the requests: %w", err)
	}
	if err := same(want, got, "after"); err != nil {
		return err
	}
	if after := acts.Tree(string(h)); after != before {
		return fmt.Errorf("the requests changed the files of the BBS: %.300s; before: %.300s", after, before)
	}
	odd := 0
	for _, q := range c.Asks {
		x.LabelIf(q.Method != "", q.Method)
		x.LabelIf(q.Method == "", "garbage")
		if strings.HasPrefix(q.Path, "/v1/") {
			odd++
		}
	}
	x.NonTrivial(odd > 0)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:      "C54",
		Rule:    "a case is an account file, a board list and up to 24 requests of any method, path (known and odd segments, empty and escaped ones, up to 60000 characters), query, headers and body (forms, JSON, multipart, 200 KB), garbage among them, from one or three clients; what known requests are answered is compared before, meanwhile and after, with up to 2000 boards. It is non-trivial when a request goes below /v1/",
		Prepare: web.Build("./serverlet"), Wrap: web.Wrap, Serial: !web.Private(),
		Assumptions: []string{"what the answers to odd requests say is not part of this"},
		Arms:        []kit.Arm{kit.NewArm("requests", 3000, 100000, draw, check)},
	})
}
