// C18: password hashing agrees with traditional DES crypt(3).
package main

import (
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs/crypt"
	"pgregory.net/rapid"
)

type hash struct {
	Password []byte
	Salt     []byte // two characters of the alphabet, anything after them
}

func password(t *rapid.T) []byte {
	switch rapid.IntRange(0, 4).Draw(t, "style") {
	case 0:
		return []byte(gen.Ascii(16).Draw(t, "ascii"))
	case 1: // around the length that counts
		n := rapid.IntRange(6, 10).Draw(t, "n")
		return gen.ListOf(rapid.Byte(), n, n, 300).Draw(t, "bytes")
	case 2: // with NULs and top bits
		return rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0x80, 'a', 'a' + 0x80, 0x7f, 0xff, 1, 2}), 0, 12).Draw(t, "odd")
	case 3:
		return gen.MustBig5(gen.Text(20).Draw(t, "big5"))
	}
	return gen.ListOf(rapid.Byte(), 0, 40, 300).Draw(t, "bytes")
}

func salt(t *rapid.T, n int) []byte {
	b := make([]byte, 2)
	for i := range b {
		b[i] = gen.CryptAlphabet[gen.Num(0, 63).Draw(t, "salt")]
	}
	if n > 2 {
		b = append(b, rapid.SliceOfN(rapid.Byte(), 0, n-2).Draw(t, "rest")...)
	}
	return b
}

func draw(t *rapid.T) hash {
	return hash{password(t), salt(t, 16)}
}

func check(c hash, x *kit.X) error {
	pw, st := append(make([]byte, 0, len(c.Password)), c.Password...), append([]byte{}, c.Salt...)
	got, err := crypt.Fcrypt(pw, st)
	if err != nil {
		return err
	}
	if string(pw) != string(c.Password) || string(st) != string(c.Salt) {
		return fmt.Errorf("the arguments were changed")
	}
	want := gen.DESCrypt(c.Password, string(c.Salt[:2]))
	if string(gen.CString(got)) != want {
		return fmt.Errorf("Fcrypt(%q, %q) is %q instead of %q", c.Password, c.Salt, got, want)
	}
	x.NonTrivial(len(gen.CString(c.Password)) > 0)
	x.LabelIf(len(c.Password) > 8, "longer than 8")
	return nil
}

// every salt occurs
type batch struct {
	First    int // of the 64 salts with this first character
	Password []byte
}

func drawBatch(t *rapid.T) batch {
	return batch{gen.Num(0, 63).Draw(t, "first"), password(t)}
}

func checkBatch(c batch, x *kit.X) error {
	for i := 0; i < 64; i++ {
		s := []byte{gen.CryptAlphabet[c.First], gen.CryptAlphabet[i]}
		if err := check(hash{c.Password, s}, x); err != nil {
			return err
		}
	}
	return nil
}

type all struct{ Password []byte }

func drawAll(t *rapid.T) all { return all{password(t)} }

func checkAll(c all, x *kit.X) error {
	for i := 0; i < 64; i++ {
		if err := checkBatch(batch{i, c.Password}, x); err != nil {
			return err
		}
	}
	return nil
}

type bad struct {
	Password []byte
	Salt     []byte
}

func drawBad(t *rapid.T) bad {
	b := bad{Password: password(t)}
	switch rapid.IntRange(0, 2).Draw(t, "bad") {
	case 0:
		b.Salt = rapid.SliceOfN(rapid.Byte(), 0, 1).Draw(t, "short")
	case 1:
		b.Salt = salt(t, 14)
		b.Salt[rapid.IntRange(0, 1).Draw(t, "at")] = byte(gen.Num(128, 255).Draw(t, "high"))
	default: // no panic is all that is said about these
		b.Salt = rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.ByteRange(0, 127)), 2, 14).Draw(t, "any")
	}
	return b
}

func checkBad(c bad, x *kit.X) error {
	got, err := crypt.Fcrypt(append([]byte{}, c.Password...), append([]byte{}, c.Salt...))
	invalid := len(c.Salt) < 2 || c.Salt[0] >= 0x80 || c.Salt[1] >= 0x80
	if invalid && err == nil {
		return fmt.Errorf("Fcrypt(%q, %q) is %q and no error", c.Password, c.Salt, got)
	}
	x.NonTrivial(invalid)
	return nil
}

func main() {
	for _, v := range [][3]string{ // of the C library
		{"J\xea", "rj", "rjPCpcfpfuJxc"}, {"\x9e", "jH", "jHEvSJEA3vg1E"}, {"\xb9\xe4_-", "sI", "sImiWRw3CJV8Q"}, {"x", "ab", "abiQ6Ep3EYTHc"},
	} {
		if gen.DESCrypt([]byte(v[0]), v[1]) != v[2] {
			panic("the reference is wrong")
		}
	}
	kit.Main(kit.Property{
		ID:          "C18",
		Rule:        "a case is a password of up to 40 bytes (NULs, top bits, lengths around eight) with a salt, with the 64 salts of one first character, or with all 4096 salts; or a salt which is too short, not ASCII or arbitrary. It is non-trivial when the password is not empty, or the salt is invalid.",
		Assumptions: []string{"the reference agrees with crypt(3) of the C library (compared on random passwords and salts when it was written)"},
		Arms: []kit.Arm{
			kit.NewArm("hash", 6000, 400000, draw, check),
			kit.NewArm("salts", 100, 8000, drawBatch, checkBatch),
			kit.NewArm("all salts", 2, 200, drawAll, checkAll),
			kit.NewArm("bad salts", 4000, 200000, drawBad, checkBad),
			kit.Together(60, 3000, draw, check),
		},
	})
}
