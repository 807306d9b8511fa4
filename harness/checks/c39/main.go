// C39: a token is issued only for the right password, and names its user for 30 minutes.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/url"
	"strings"
	"sync"
	"time"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/web"

	"pgregory.net/rapid"
)

// the public key of the server, as its source gives it
const publicPEM = `-----BEGIN PUBLIC KEY-----
MFkwEwYHKoZIzj0CAQYIKoZIzj0DAQcDQgAEV8qJS5x98i0eM+UUiV5qB2JZhT67
Ojl6/rZ4xKcHM/NLpUJP3wDpeFQfMaMiAKQHoGs6rk5z1l/tUUVjJWrw0A==
-----END PUBLIC KEY-----`

var publicKey = func() *ecdsa.PublicKey {
	b, _ := pem.Decode([]byte(publicPEM))
	k, err := x509.ParsePKIXPublicKey(b.Bytes)
	if err != nil {
		panic(err)
	}
	return k.(*ecdsa.PublicKey)
}()

type login struct {
	Name, Password string
	Query          bool // in the query and not in the form
}

type loginCase struct {
	web.Accounts
	Logins  []login
	Threads int // how many logins go on at the same time
}

func draw(t *rapid.T) loginCase {
	c := loginCase{Accounts: web.AccountsOf().Draw(t, "accounts"), Threads: rapid.SampledFrom([]int{1, 1, 1, 4}).Draw(t, "threads")}
	one := rapid.Custom(func(t *rapid.T) login {
		l := login{Query: rapid.IntRange(0, 3).Draw(t, "query") == 0}
		var u web.Account
		if len(c.List) > 0 {
			u = rapid.SampledFrom(c.List).Draw(t, "user")
		}
		l.Name, l.Password = u.ID, u.Password
		switch gen.Num(0, 9).Draw(t, "name") {
		case 0:
			l.Name = rapid.SampledFrom(append([]string{"", " ", "\x00", "guest", "new"}, c.Nobody...)).Draw(t, "nobody")
		case 1:
			l.Name += rapid.SampledFrom([]string{" ", "\x00", "x", "\x00x", "\n", "/"}).Draw(t, "suffix")
		case 2:
			l.Name = rapid.SampledFrom([]string{" " + u.ID, strings.ToUpper(u.ID), strings.ToLower(u.ID), u.ID + u.ID, strings.Repeat("x", 3000), "世" + u.ID}).Draw(t, "like")
		}
		switch gen.Num(0, 14).Draw(t, "pw") {
		case 0:
			l.Password = ""
		case 1:
			l.Password = u.Hash()
		case 2:
			l.Password += rapid.SampledFrom([]string{"x", "\x00", "\x00x", " ", "\n", "\r\n", "\t"}).Draw(t, "pwsuffix")
		case 3:
			l.Password = strings.ToUpper(l.Password)
		case 4:
			if len(l.Password) > 0 {
				l.Password = l.Password[:len(l.Password)-1]
			}
		case 5:
			l.Password = web.PasswordOf().Draw(t, "other")
		case 6:
			if len(c.List) > 0 {
				l.Password = rapid.SampledFrom(c.List).Draw(t, "another's").Password
			}
		case 7:
			l.Password = l.Name
		case 10:
			l.Password = rapid.SampledFrom([]string{" ", "\n", "\t", "x"}).Draw(t, "pwprefix") + l.Password
		case 8:
			l.Password += strings.Repeat("y", 5000)
		case 9:
			if len(l.Password) > 0 {
				i := gen.Num(0, len(l.Password)-1).Draw(t, "at")
				b := []byte(l.Password)
				b[i] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				l.Password = strings.ToValidUTF8(string(b), "?")
			}
		}
		l.Name, l.Password = strings.ToValidUTF8(l.Name, "?"), strings.ToValidUTF8(l.Password, "?")
		return l
	})
	c.Logins = gen.ListOf(one, 1, 16, 60).Draw(t, "logins")
	return c
}

// granted tells whether the login is right
func (c loginCase) granted(l login) bool {
	u := c.Find(l.Name)
	return u != nil && u.Salt != "" && gen.DESCrypt([]byte(l.Password), u.Salt) == u.Hash()
}

func (l login) String() string { return fmt.Sprintf("login of %.40q with %.40q", l.Name, l.Password) }

func try(s *web.Server, c loginCase, l login) error {
	form := url.Values{"username": {l.Name}, "password": {l.Password}}
	before := time.Now()
	var a web.Answer
	var err error
	if l.Query {
		a, err = s.Post("/v1/token?"+form.Encode(), nil)
	} else {
		a, err = s.Post("/v1/token", form)
	}
	if err != nil {
		return fmt.Errorf("%v: %w", l, err)
	}
	after := time.Now()
	var m map[string]any
	if err := json.Unmarshal(a.Body, &m); err != nil {
		return fmt.Errorf("%v: the answer is no JSON: %q", l, a.Body)
	}
	token, has := m["access_token"]
	if !c.granted(l) {
		if has {
			return fmt.Errorf("%v: a token is issued: %s", l, a.Body)
		}
		if e, _ := m["error"].(string); e == "" {
			return fmt.Errorf("%v: no error is given: %s", l, a.Body)
		}
		return nil
	}
	s2, _ := token.(string)
	if s2 == "" {
		return fmt.Errorf("%v: no token is issued: %s", l, a.Body)
	}
	if _, has := m["error"]; has || a.Status/100 != 2 {
		return fmt.Errorf("%v: a token with an error: %d %s", l, a.Status, a.Body)
	}
	if k, _ := m["token_type"].(string); !strings.EqualFold(k, "bearer") {
		return fmt.Errorf("%v: token type %v", l, m["token_type"])
	}
	if err := verify(s2, l.Name, before, after); err != nil {
		return fmt.Errorf("%v: token %s: %w", l, s2, err)
	}
	return nil
}

// verify checks a token which was issued in between
func verify(token, name string, before, after time.Time) error {
	parts := strings.Split(token, ".")
	if len(parts) != 3 {
		return fmt.Errorf("it has %d parts", len(parts))
	}
	var raw [3][]byte
	for i, p := range parts {
		b, err := base64.RawURLEncoding.DecodeString(p)
		if err != nil {
			return fmt.Errorf("part %d: %v", i, err)
		}
		raw[i] = b
	}
	var head struct{ Alg string }
	if err := json.Unmarshal(raw[0], &head); err != nil || head.Alg != "ES256" {
		return fmt.Errorf("header %s", raw[0])
	}
	if len(raw[2]) != 64 {
		return fmt.Errorf("the signature has %d bytes", len(raw[2]))
	}
	sum := sha256.Sum256([]byte(parts[0] + "." + parts[1]))
	if !ecdsa.Verify(publicKey, sum[:], new(big.Int).SetBytes(raw[2][:32]), new(big.Int).SetBytes(raw[2][32:])) {
		return fmt.Errorf("the signature is not the server's")
	}
	var claims struct {
		Sub string
		Exp json.Number
		Nbf json.Number
	}
	d := json.NewDecoder(bytes.NewReader(raw[1]))
	if err := d.Decode(&claims); err != nil {
		return fmt.Errorf("claims %s: %v", raw[1], err)
	}
	if claims.Sub != name {
		return fmt.Errorf("its subject is %q", claims.Sub)
	}
	exp, err := claims.Exp.Float64()
	if err != nil {
		return fmt.Errorf("claims %s: %v", raw[1], err)
	}
	if exp < float64(before.Unix()+1800) || exp > float64(after.Unix()+1801) {
		return fmt.Errorf("it ends %.0f s after the login", exp-float64(before.Unix()))
	}
	if nbf, err := claims.Nbf.Float64(); err == nil && nbf > float64(after.Unix()+1) {
		return fmt.Errorf("it begins %.0f s after the login", nbf-float64(before.Unix()))
	}
	return nil
}

func check(c loginCase, x *kit.X) error {
	h := web.Home(x.Dir())
	kit.Write(h.Passwds(), c.File())
	kit.Write(h.Boards(), nil)
	s, err := web.Start(x.Dir())
	if err != nil {
		return err
	}
	defer s.Stop()
	yes, no := 0, 0
	for _, l := range c.Logins {
		if c.granted(l) {
			yes++
		} else {
			no++
		}
	}
	x.NonTrivial(yes > 0 && no > 0)
	x.LabelIf(c.Threads > 1, "logins at the same time")
	if c.Threads == 1 {
		for i, l := range c.Logins {
			if err := try(s, c, l); err != nil {
				return fmt.Errorf("request %d: %w", i, err)
			}
		}
		return nil
	}
	errs := make([]error, len(c.Logins))
	var wg sync.WaitGroup
	for n := 0; n < c.Threads; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := n; i < len(c.Logins); i += c.Threads {
				if errs[i] = try(s, c, c.Logins[i]); errs[i] != nil {
					return
				}
			}
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil {
			return fmt.Errorf("request %d: %w", i, err)
		}
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:      "C39",
		Rule:    "a case is an account file of up to nine accounts (in one of forty cases beside up to 66000 others) with similar ids, vacated slots and accounts without a password, and up to sixteen logins with right and nearly right names and passwords, in the form or the query, one by one or four at a time; it is non-trivial when one of them must be granted and one refused",
		Prepare: web.Build("./serverlet"), Wrap: web.Wrap, Serial: !web.Private(),
		Assumptions: []string{"the signing key is the one in the source of the server", "the clock is not set in the course of a login", "no two accounts share an id; a vacated slot keeps no password"},
		Arms:        []kit.Arm{kit.NewArm("logins", 1600, 60000, draw, check)},
	})
}
