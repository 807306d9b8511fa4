// C22: C strings end at the first NUL and never reach beyond the buffer.
package main

import (
	"bytes"
	"fmt"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	"pgregory.net/rapid"
)

type buffer struct {
	Nil    bool
	Before []byte // what is in memory around the buffer
	Data   []byte
	Long   int // so many letters in front of the data
	Behind []byte
}

func draw(t *rapid.T) buffer {
	b := buffer{Nil: gen.Num(0, 49).Draw(t, "nil") == 0, Before: gen.Bytes(8).Draw(t, "before"), Behind: gen.Bytes(16).Draw(t, "behind")}
	switch rapid.IntRange(0, 3).Draw(t, "style") {
	case 0:
		b.Data = gen.Bytes(300).Draw(t, "data")
	case 1: // text, then stale bytes
		n := gen.Num(1, 40).Draw(t, "n")
		b.Data = make([]byte, n)
		gen.Noise(b.Data, rapid.Uint64().Draw(t, "noise"))
		b.Data[gen.Num(0, n-1).Draw(t, "nul")] = 0
	case 2:
		b.Data = gen.ListOf(rapid.SampledFrom([]byte{0, 0, 'a', 0xa4, 0xff, 0x5c}), 0, 20, 300).Draw(t, "data")
	default: // no NUL at all
		b.Data = bytes.ReplaceAll(gen.Bytes(5000).Draw(t, "data"), []byte{0}, []byte{1})
	}
	if rapid.IntRange(0, 199).Draw(t, "long?") == 0 {
		b.Long = rapid.SampledFrom([]int{250, 4090, 8000, 65500, 70000, 1 << 20}).Draw(t, "long") + gen.Num(0, 40).Draw(t, "more")
	}
	return b
}

func check(c buffer, x *kit.X) error {
	if c.Long > 0 {
		c.Data = append(bytes.Repeat([]byte{'a'}, c.Long), c.Data...)
	}
	mem := append(append(append([]byte{}, c.Before...), c.Data...), c.Behind...)
	buf := mem[len(c.Before) : len(c.Before)+len(c.Data)]
	orig := append([]byte{}, mem...)
	want := gen.CString(c.Data)
	if c.Nil {
		buf, want = nil, nil
	}
	got := bbs.CstrToBytes(bbs.Cstr(buf))
	if !bytes.Equal(got, want) {
		return fmt.Errorf("%q is converted to the bytes %q instead of %q", buf, got, want)
	}
	if s := bbs.CstrToString(bbs.Cstr(buf)); s != string(want) {
		return fmt.Errorf("%q is converted to the string %q instead of %q", buf, s, want)
	}
	if again := bbs.CstrToBytes(got); !bytes.Equal(again, want) {
		return fmt.Errorf("%q is converted to %q, and that to %q", buf, got, again)
	}
	s := bbs.CstrToString(buf)
	if !bytes.Equal(mem, orig) {
		return fmt.Errorf("the buffer was changed")
	}
	for i := range mem {
		mem[i] ^= 0x55
	}
	if s != string(want) {
		return fmt.Errorf("the string changes with the buffer")
	}
	x.NonTrivial(len(want) > 0 && len(want) < len(c.Data))
	x.LabelIf(len(want) == len(c.Data), "without NUL")
	return nil
}

// exhaustive over short buffers of the bytes that matter
type short struct{ N int }

func checkShort(c short, x *kit.X) error {
	alphabet := []byte{0, 1, 'a', 0xff}
	total := 1
	for i := 0; i < c.N; i++ {
		total *= len(alphabet)
	}
	for v := 0; v < total; v++ {
		b := make([]byte, c.N)
		for i, k := 0, v; i < c.N; i, k = i+1, k/len(alphabet) {
			b[i] = alphabet[k%len(alphabet)]
		}
		if err := check(buffer{Data: b, Behind: []byte("behind")}, x); err != nil {
			return err
		}
	}
	x.NonTrivial(true)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C22",
		Rule: "a case is a buffer of up to 5000 bytes, in some cases up to a megabyte, inside a larger piece of memory, or all buffers of a length up to six over four byte values; it is non-trivial when there is text before the first NUL and something from it on",
		Arms: []kit.Arm{
			kit.NewArm("buffers", 20000, 1000000, draw, check),
			kit.NewArm("all short buffers", 20, 60, func(t *rapid.T) short { return short{rapid.IntRange(0, 6).Draw(t, "n")} }, checkShort),
		},
	})
}
