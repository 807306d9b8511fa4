// C19: a password is accepted exactly when it matches the stored hash.
package main

import (
	"fmt"
	"os"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type account struct {
	Field   []byte   // the 14 bytes of the stored hash
	Try     [][]byte // passwords
	ViaFile bool
	Noise   uint64 // the rest of the record
}

func password(t *rapid.T) []byte {
	switch rapid.IntRange(0, 3).Draw(t, "style") {
	case 0:
		return gen.ListOf(rapid.Byte(), 0, 12, 300).Draw(t, "bytes")
	case 1:
		return []byte(gen.Text(16).Draw(t, "text"))
	}
	return []byte(gen.Ascii(12).Draw(t, "ascii"))
}

// similar passwords: cut, lengthened, with other bits
func variant(t *rapid.T, pw []byte) []byte {
	v := append([]byte{}, pw...)
	switch rapid.IntRange(0, 7).Draw(t, "variant") {
	case 0:
	case 1:
		return append(v, rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(t, "more")...)
	case 2:
		if len(v) > 0 {
			v = v[:gen.Num(0, len(v)-1).Draw(t, "cut")]
		}
	case 3, 4:
		if len(v) > 0 {
			v[gen.Num(0, len(v)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
	case 5:
		return append(append(v, 0), rapid.SliceOfN(rapid.Byte(), 0, 3).Draw(t, "behind")...)
	case 6:
		return nil
	default:
		return password(t)
	}
	return v
}

func draw(t *rapid.T) account {
	pw := password(t)
	s := string([]byte{gen.CryptAlphabet[gen.Num(0, 63).Draw(t, "s0")], gen.CryptAlphabet[gen.Num(0, 63).Draw(t, "s1")]})
	field := make([]byte, 14)
	copy(field, gen.DESCrypt(pw, s))
	switch gen.Num(0, 9).Draw(t, "field") {
	case 0, 1, 2, 3, 4: // right; what stands behind its NUL does not count
	case 5, 6: // one character is another one
		i := gen.Num(0, 12).Draw(t, "char")
		field[i] = gen.CryptAlphabet[gen.Num(0, 63).Draw(t, "other")]
	case 7: // cut
		for i := gen.Num(0, 12).Draw(t, "cut"); i < 14; i++ {
			field[i] = 0
		}
	case 8: // lengthened, or one byte is anything
		if rapid.Bool().Draw(t, "longer") {
			field[13] = byte(gen.Num(1, 255).Draw(t, "last"))
		} else {
			field[gen.Num(0, 12).Draw(t, "at")] = rapid.Byte().Draw(t, "any")
		}
	default: // no hash at all
		field = rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.ByteRange(32, 126)), 14, 14).Draw(t, "junk")
	}
	a := account{Field: field, ViaFile: gen.Num(0, 9).Draw(t, "via") == 0, Noise: rapid.Uint64().Draw(t, "noise")}
	n := rapid.IntRange(1, 4).Draw(t, "tries")
	for i := 0; i < n; i++ {
		a.Try = append(a.Try, variant(t, pw))
	}
	a.Try = append(a.Try, pw)
	return a
}

// want is the decision of the statement
func want(field, pw []byte) (accepted bool) {
	h := gen.CString(field)
	if len(h) < 2 || !gen.IsCrypt(h[0]) || !gen.IsCrypt(h[1]) {
		return false
	}
	return gen.DESCrypt(pw, string(h[:2])) == string(h)
}

// undefined: crypt(3) leaves open what an ASCII salt outside the alphabet stands for, so
// a hash under any value it may stand for is a hash under that salt
func undefined(field, pw []byte) bool {
	h := gen.CString(field)
	if len(h) != 13 || h[0] >= 0x80 || h[1] >= 0x80 || gen.IsCrypt(h[0]) && gen.IsCrypt(h[1]) {
		return false
	}
	for i := 0; i < 64; i++ {
		for j := 0; j < 64; j++ {
			s := string([]byte{gen.CryptAlphabet[i], gen.CryptAlphabet[j]})
			if gen.DESCrypt(pw, s)[2:] == string(h[2:]) {
				return true
			}
		}
	}
	return false
}

func check(c account, x *kit.X) error {
	raw := make([]byte, gen.User.Size)
	gen.Noise(raw, c.Noise)
	gen.User.Find("userid").PutText(raw, "someone")
	f := gen.User.Find("passwd")
	copy(raw[f.Off:f.Off+14], c.Field)
	var u bbs.UserRecord
	if c.ViaFile {
		h := gen.Home(x.Dir())
		kit.Write(h.Passwds(), raw)
		db, err := bbs.Open("pttbbs", string(h))
		if err != nil {
			return err
		}
		us, err := db.ReadUserRecords()
		if err != nil {
			return err
		}
		if len(us) != 1 {
			return fmt.Errorf("%d accounts are read instead of 1", len(us))
		}
		u = us[0]
		os.Remove(h.Passwds())
	} else {
		r, err := pttbbs.UnmarshalUserec(raw)
		if err != nil {
			return err
		}
		u = r
	}
	for i, pw := range c.Try {
		err := u.VerifyPassword(string(pw))
		ok := want(c.Field, pw)
		if ok && err != nil {
			return fmt.Errorf("try %d: the right password %q is refused for the hash %q: %v", i, pw, c.Field, err)
		}
		if !ok && err == nil && !undefined(c.Field, pw) {
			return fmt.Errorf("try %d: the wrong password %q is accepted for the hash %q", i, pw, c.Field)
		}
		x.NonTrivial(ok || len(gen.CString(c.Field)) == 13)
		x.LabelIf(ok, "accepted")
		x.LabelIf(!ok, "refused")
	}
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C19",
		Rule: "a case is an account record with a stored hash (right, one character changed, cut, lengthened, damaged or random) and up to five passwords (the right one and variants of it); it is non-trivial when a password is accepted or the stored text has the length of a hash",
		Arms: []kit.Arm{
			kit.NewArm("accounts", 8000, 400000, draw, check),
			kit.Together(60, 3000, draw, check),
		},
	})
}
