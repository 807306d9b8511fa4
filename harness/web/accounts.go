package web

import (
	"fmt"

	"verif/harness/gen"

	"pgregory.net/rapid"
)

// Account of the account file
type Account struct {
	ID       string // empty in a vacated slot
	Password string // empty when none was ever set
	Salt     string
	Bytes    []byte // of its record, but for id and password
}

// Hash is what the account file has for the password
func (a Account) Hash() string {
	if a.Salt == "" {
		return a.Password // no hash: empty, or a mark which locks the account
	}
	return gen.DESCrypt([]byte(a.Password), a.Salt)
}

// Record is the account's record
func (a Account) Record() []byte {
	r := append([]byte{}, a.Bytes...)
	gen.User.Find("userid").PutText(r, a.ID)
	gen.User.Find("passwd").PutText(r, a.Hash())
	return r
}

// AccountsOf draws an account file with similar ids, some vacated slots, and ids nobody has
func AccountsOf() *rapid.Generator[Accounts] {
	return rapid.Custom(func(t *rapid.T) Accounts {
		ids := gen.SimilarIDs().Draw(t, "ids")
		ids = append(ids, ids[0][:1])
		ids = rapid.Permutation(ids).Draw(t, "order")
		n := rapid.IntRange(0, len(ids)).Draw(t, "n")
		var a Accounts
		a.Nobody = ids[n:]
		for _, id := range ids[:n] {
			if rapid.IntRange(0, 7).Draw(t, "vacated?") == 0 {
				a.List = append(a.List, Account{Bytes: gen.User.Record().Draw(t, "bytes")})
			}
			u := Account{ID: id, Bytes: gen.User.Record().Draw(t, "bytes")}
			switch rapid.IntRange(0, 9).Draw(t, "password") {
			case 0: // none
			case 1:
				u.Password = rapid.SampledFrom([]string{"*", "x"}).Draw(t, "lock")
			default:
				u.Password = PasswordOf().Draw(t, "password")
				for i := 0; i < 2; i++ {
					u.Salt += string(gen.CryptAlphabet[rapid.IntRange(0, 63).Draw(t, "salt")])
				}
			}
			if k := len(a.List); k > 0 && rapid.IntRange(0, 5).Draw(t, "same?") == 0 { // the same password as another account
				u.Password, u.Salt = a.List[k-1].Password, a.List[k-1].Salt
			}
			a.List = append(a.List, u)
		}
		if rapid.IntRange(0, 39).Draw(t, "crowd?") == 0 {
			a.Crowd = rapid.SampledFrom([]int{120, 300, 1100, 1100, 5000, 66000}).Draw(t, "crowd")
			a.At = rapid.IntRange(0, len(a.List)).Draw(t, "at")
		}
		return a
	})
}

// Accounts of a BBS
type Accounts struct {
	List   []Account
	Nobody []string // similar ids which have no account
	Crowd  int      // so many other accounts are behind the first At of the list
	At     int
}

// File is the account file
func (a Accounts) File() (b []byte) {
	for i := 0; i <= len(a.List); i++ {
		if i == a.At {
			for k := 0; k < a.Crowd; k++ {
				r := make([]byte, gen.User.Size)
				gen.User.Find("userid").PutText(r, fmt.Sprintf("crowd.%05d", k)) // no id has a dot
				b = append(b, r...)
			}
		}
		if i < len(a.List) {
			b = append(b, a.List[i].Record()...)
		}
	}
	return b
}

// Find returns the account of exactly that id
func (a Accounts) Find(id string) *Account {
	for i := range a.List {
		if a.List[i].ID == id && id != "" {
			return &a.List[i]
		}
	}
	return nil
}

// PasswordOf draws a password
func PasswordOf() *rapid.Generator[string] {
	return rapid.OneOf(
		gen.Match(`[!-~]{1,12}`),
		gen.Match(`[ -~]{6,8}`),
		gen.Match(`[&=+%;#?/ ]{1,9}`),
		gen.Text(12),
	)
}
