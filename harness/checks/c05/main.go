// C05: a favourites tree survives reading and writing unchanged.
package main

import (
	"fmt"
	"path/filepath"

	"verif/harness/gen"
	"verif/harness/kit"
	"verif/harness/rec"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type favCase struct {
	Version uint16
	Tree    gen.Fav
	Deep    int // this many folders around the tree
	Wide    int // this many further entries
	Seed    uint64
	Boards  bool // which are mostly boards
}

func (c favCase) tree() gen.Fav {
	f := c.Tree
	if c.Wide > 0 {
		f = append(gen.FavWide(c.Wide, c.Seed, c.Boards), f...)
		lines, folders := 0, 0
		for i, e := range f { // the tree itself may have pushed a count over its byte
			if e.Kind == gen.FavLine {
				if lines++; lines > 255 {
					f[i] = gen.FavEntry{Kind: gen.FavBoard, Board: 7}
				}
			}
			if e.Kind == gen.FavFolder {
				if folders++; folders > 255 {
					f[i] = gen.FavEntry{Kind: gen.FavBoard, Board: 8}
				}
			}
		}
		boards, _, _ := f.Counts()
		for boards > 65535 {
			f = f[1:]
			boards, _, _ = f.Counts()
		}
	}
	for i := 0; i < c.Deep; i++ {
		f = gen.Fav{{Kind: gen.FavBoard, Board: uint32(i)}, {Kind: gen.FavFolder, ID: 9, Title: fmt.Sprint(i), Sub: f}, {Kind: gen.FavLine, ID: 3}}
	}
	return f
}

func draw(t *rapid.T) favCase {
	return favCase{
		Version: uint16(gen.U(16).Draw(t, "version")),
		Tree:    gen.FavTree(rapid.IntRange(1, 6).Draw(t, "depth"), rapid.Map(gen.U(32), func(u uint64) uint32 { return uint32(u) })).Draw(t, "tree"),
	}
}

func check(c favCase, x *kit.X) error {
	tree := c.tree()
	x.NonTrivial(tree.Size() >= 4 && tree.Depth() >= 2)
	x.LabelIf(tree.Depth() >= 4, "four levels or more")
	x.LabelIf(tree.Size() > 255, "more than 255 entries")
	x.LabelIf(tree.Size() > 65535, "more than 65535 entries")
	_, _, folders := tree.Counts()
	x.LabelIf(folders >= 2, "several folders in the top folder")
	data := gen.EncodeFav(c.Version, tree)
	want := tree.Numbered()

	in := append([]byte{}, data...)
	f, err := pttbbs.UnmarshalFavFile(in)
	if err != nil {
		return fmt.Errorf("decode: %w", err)
	}
	if string(in) != string(data) {
		return fmt.Errorf("decoding changed its input")
	}
	if f.Version != c.Version {
		return fmt.Errorf("version %d is read as %d", c.Version, f.Version)
	}
	got, err := rec.Fav(f.Folder)
	if err != nil {
		return err
	}
	if err := gen.FavDiff(want, got); err != nil {
		return fmt.Errorf("reading: %w", err)
	}
	if err := rec.FavCounts(f.Folder, want); err != nil {
		return err
	}

	// from a file
	name := filepath.Join(x.Dir(), ".fav")
	kit.Write(name, data)
	ff, err := pttbbs.OpenFavFile(name)
	if err != nil {
		return fmt.Errorf("open: %w", err)
	}
	if got, err = rec.Fav(ff.Folder); err != nil {
		return err
	}
	if err := gen.FavDiff(want, got); err != nil {
		return fmt.Errorf("reading the file: %w", err)
	}

	// what was read is written
	out, err := f.MarshalBinary()
	if err != nil {
		return fmt.Errorf("encode: %w", err)
	}
	if err := written(c.Version, want, out); err != nil {
		return fmt.Errorf("writing what was read: %w", err)
	}
	// and so is a tree built by hand
	out, err = (&pttbbs.FavFile{Version: c.Version, Folder: rec.NewFav(want)}).MarshalBinary()
	if err != nil {
		return fmt.Errorf("encode: %w", err)
	}
	if err := written(c.Version, want, out); err != nil {
		return fmt.Errorf("writing a new tree: %w", err)
	}
	return nil
}

func written(version uint16, want gen.Fav, out []byte) error {
	v, f, loose, err := gen.FavParse(out)
	if err != nil {
		return err
	}
	if loose {
		return fmt.Errorf("the file has wrong counts or data behind the tree")
	}
	if v != version {
		return fmt.Errorf("version %d is written as %d", version, v)
	}
	return gen.FavDiff(want, f)
}

func main() {
	kit.Main(kit.Property{
		ID:          "C05",
		Rule:        "a case is a favourites tree: a drawn tree of up to 40 entries and six levels, in some arms below up to 400 further folders or beside up to 66000 further entries made from a seed; it is non-trivial when it has at least 4 entries and 2 levels",
		Assumptions: []string{"titles are ASCII or canonical Big5 of at most 48 bytes", "a folder holds at most 65535 boards, 255 lines and 255 folders, as its counts can say"},
		Arms: []kit.Arm{
			kit.NewArm("trees", 6000, 400000, draw, check),
			kit.NewArm("deep", 120, 20000, func(t *rapid.T) favCase {
				c := draw(t)
				c.Deep = gen.Num(1, 400).Draw(t, "deep")
				return c
			}, check),
			kit.NewArm("wide", 60, 6000, func(t *rapid.T) favCase {
				c := draw(t)
				c.Wide = rapid.OneOf(gen.Num(1, 1200), gen.Num(1, 1200), gen.Num(1, 1200), gen.Num(20000, 66500)).Draw(t, "wide")
				c.Seed = rapid.Uint64().Draw(t, "seed")
				c.Boards = rapid.Bool().Draw(t, "boards")
				return c
			}, check),
			kit.Threads(40, 2000, 60, kit.NewArm("trees", 0, 0, draw, check)),
		},
	})
}
