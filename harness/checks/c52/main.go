// C52: a read shows what is stored at that time.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/acts"
	"verif/harness/gen"
	"verif/harness/kit"

	"pgregory.net/rapid"
)

// edit is what another program does to a file
type edit struct {
	File   int // of the sorted ones, modulo their number
	How    string
	At     []uint16 // positions in the file, of 65536
	To     []byte
	Rename bool // the new content takes the place of the old file
}

type readCase struct {
	Act    acts.Act
	States [][]edit // each on what was there at first
	Order  []int    // which of two openings reads
}

var hows = []string{"bytes", "bytes", "bytes", "records", "records", "shorter", "longer", "gone", "empty"}

func drawEdit(t *rapid.T) edit {
	e := edit{File: gen.Num(0, 30).Draw(t, "file"), How: rapid.SampledFrom(hows).Draw(t, "how"), Rename: rapid.IntRange(0, 3).Draw(t, "rename") == 0}
	if e.How == "bytes" {
		e.At = rapid.SliceOfN(rapid.Uint16(), 1, 6).Draw(t, "at")
		e.To = rapid.SliceOfN(rapid.OneOf(rapid.ByteRange('a', 'z'), rapid.Byte()), 1, 3).Draw(t, "to")
	}
	return e
}

func draw(t *rapid.T) readCase {
	c := readCase{Act: acts.Of(acts.Reading).Draw(t, "act")}
	c.States = rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(drawEdit), 1, 5), 1, 4).Draw(t, "states")
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 1), len(c.States)+1, len(c.States)+1).Draw(t, "order")
	return c
}

// change is the content after the edit
func (e edit) change(name string, b []byte) []byte {
	b = append([]byte{}, b...)
	size := 1
	switch name {
	case ".DIR", "formosa":
		size = 128
	case ".BRD":
		size = 256
	case ".PASSWDS":
		size = 512
	}
	switch e.How {
	case "bytes":
		for i, at := range e.At {
			if len(b) > 0 {
				b[int(at)*len(b)/65536] = e.To[i%len(e.To)]
			}
		}
	case "records":
		if size == 1 { // lines
			l := bytes.SplitAfter(b, []byte{'\n'})
			if len(l) > 2 {
				l[0], l[1] = l[1], l[0]
			}
			return bytes.Join(l, nil)
		}
		if len(b) >= 2*size {
			return append(append(append([]byte{}, b[size:2*size]...), b[:size]...), b[2*size:]...)
		}
	case "shorter":
		b = b[:max(0, (len(b)-1)/size*size)]
	case "longer":
		if size > 1 {
			b = append(b, b[:min(size, len(b))]...)
		} else {
			b = append(b, b...)
		}
	case "empty":
		b = nil
	}
	return b
}

// files of a home
func files(h gen.Home) []string {
	var l []string
	kit.Must(filepath.Walk(string(h), func(p string, i os.FileInfo, err error) error {
		kit.Must(err)
		if !i.IsDir() {
			l = append(l, strings.TrimPrefix(p, string(h)))
		}
		return nil
	}))
	sort.Strings(l)
	return l
}

func check(c readCase, x *kit.X) error {
	h := gen.Home(filepath.Join(x.Dir(), "home"))
	ops := []func() (string, error){c.Act.Do(h), nil}
	ops[1] = c.Act.On(h)
	first := map[string][]byte{}
	names := files(h)
	for _, n := range names {
		first[n] = kit.ReadFile(string(h) + n)
	}
	if len(names) == 0 {
		return nil
	}
	last, lerr := ops[c.Order[0]]()
	changed := 0
	for i, es := range c.States {
		now := map[string][]byte{}
		rename := map[string]bool{}
		for n, b := range first {
			now[n] = b
		}
		for _, e := range es {
			n := names[e.File%len(names)]
			if e.How == "gone" {
				delete(now, n)
			} else if b, ok := now[n]; ok {
				now[n] = e.change(filepath.Base(n), b)
				rename[n] = e.Rename
			}
		}
		fresh := gen.Home(filepath.Join(x.Dir(), fmt.Sprint("fresh", i)))
		kit.Must(os.Mkdir(string(fresh), 0755))
		for _, n := range names {
			kit.Must(os.MkdirAll(filepath.Dir(string(fresh)+n), 0755))
			b, ok := now[n]
			if !ok {
				if err := os.Remove(string(h) + n); err != nil && !os.IsNotExist(err) {
					kit.Harness(err)
				}
				continue
			}
			kit.Write(string(fresh)+n, b)
			if old, err := os.ReadFile(string(h) + n); err == nil && bytes.Equal(old, b) {
				continue
			}
			if rename[n] {
				kit.Write(string(h)+n+".new", b)
				kit.Must(os.Rename(string(h)+n+".new", string(h)+n))
			} else {
				kit.Write(string(h)+n, b)
			}
		}
		got, err := ops[c.Order[i+1]]()
		want, werr := c.Act.On(fresh)()
		if (err != nil) != (werr != nil) {
			return fmt.Errorf("state %d: reading the %s where another state was read before: error %v; reading the same files elsewhere: error %v", i, c.Act.Name, err, werr)
		}
		if err == nil && got != want {
			return fmt.Errorf("state %d: reading the %s where another state was read before gives\n%.600s\nreading the same files elsewhere gives\n%.600s", i, c.Act.Name, got, want)
		}
		if got != last || (err != nil) != (lerr != nil) {
			changed++
		}
		last, lerr = got, err
	}
	x.NonTrivial(changed > 0)
	x.Label(c.Act.Name)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C52",
		Rule: "a case is a BBS, one of 17 reading operations, and up to four states of its files (bytes changed, records or lines exchanged, shortened, extended, emptied, removed; in place or replaced), each read through one of two openings and compared with the same files elsewhere. It is non-trivial when the answer changed with the state",
		Arms: []kit.Arm{
			kit.NewArm("reads", 8000, 300000, draw, check),
		},
	})
}
