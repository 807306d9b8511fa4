package gen

import (
	"encoding/binary"
	"errors"
	"fmt"

	"pgregory.net/rapid"
)

// Kinds of favourites entries in the file
const (
	FavBoard  = 1
	FavFolder = 2
	FavLine   = 3
)

// FavEntry is one entry of a favourites folder
type FavEntry struct {
	Kind  int
	Attr  uint8
	Board uint32 `json:",omitempty"`
	Visit uint32 `json:",omitempty"`
	BAttr uint32 `json:",omitempty"`
	ID    uint8  `json:",omitempty"` // of a line or folder, as stored
	Title string `json:",omitempty"`
	Stale []byte `json:",omitempty"` // bytes of the title field after its NUL
	Sub   Fav    `json:",omitempty"`
}

// Fav is a folder of favourites
type Fav []FavEntry

// Counts returns the number of boards, lines and folders in this folder
func (f Fav) Counts() (boards, lines, folders int) {
	for _, e := range f {
		switch e.Kind {
		case FavBoard:
			boards++
		case FavLine:
			lines++
		case FavFolder:
			folders++
		}
	}
	return
}

// Size counts all entries
func (f Fav) Size() int {
	n := len(f)
	for _, e := range f {
		n += e.Sub.Size()
	}
	return n
}

// Depth of the tree, 1 for a flat one
func (f Fav) Depth() int {
	d := 0
	for _, e := range f {
		if e.Kind == FavFolder {
			d = max(d, e.Sub.Depth())
		}
	}
	return d + 1
}

// Numbered returns the tree with lines and folders counted from one in each folder
func (f Fav) Numbered() Fav {
	out := make(Fav, len(f))
	var lines, folders uint8
	for i, e := range f {
		e.Stale = nil
		switch e.Kind {
		case FavLine:
			lines++
			e.ID = lines
		case FavFolder:
			folders++
			e.ID = folders
			e.Sub = e.Sub.Numbered()
		}
		out[i] = e
	}
	return out
}

// EncodeFav writes a favourites file
func EncodeFav(version uint16, f Fav) []byte {
	return f.encode(binary.LittleEndian.AppendUint16(nil, version))
}

func (f Fav) encode(b []byte) []byte {
	boards, lines, folders := f.Counts()
	b = binary.LittleEndian.AppendUint16(b, uint16(boards))
	b = append(b, uint8(lines), uint8(folders))
	for _, e := range f {
		b = append(b, uint8(e.Kind), e.Attr)
		switch e.Kind {
		case FavBoard:
			b = binary.LittleEndian.AppendUint32(b, e.Board)
			b = binary.LittleEndian.AppendUint32(b, e.Visit)
			b = binary.LittleEndian.AppendUint32(b, e.BAttr)
		case FavLine:
			b = append(b, e.ID)
		case FavFolder:
			t := make([]byte, 49)
			n := copy(t, MustBig5(e.Title))
			if n < 48 {
				copy(t[n+1:], e.Stale)
			}
			b = append(append(b, e.ID), t...)
		}
	}
	for _, e := range f {
		if e.Kind == FavFolder {
			b = e.Sub.encode(b)
		}
	}
	return b
}

// ErrFav is what the reference parser says about a file which is no favourites file
var ErrFav = errors.New("not a favourites file")

// FavParse is the reference reading of a favourites file. Loose files have data
// behind the tree or counts which disagree with the kinds of the entries.
func FavParse(data []byte) (version uint16, f Fav, loose bool, err error) {
	if len(data) < 2 {
		return 0, nil, false, ErrFav
	}
	p := &favParser{data: data[2:]}
	f = p.folder()
	if p.bad {
		return 0, nil, false, ErrFav
	}
	return binary.LittleEndian.Uint16(data), f, p.mismatch || len(p.data) > 0, nil
}

type favParser struct {
	data     []byte
	bad      bool
	mismatch bool
}

func (p *favParser) take(n int) []byte {
	if p.bad || len(p.data) < n {
		p.bad = true
		return make([]byte, n)
	}
	b := p.data[:n]
	p.data = p.data[n:]
	return b
}

func (p *favParser) folder() Fav {
	h := p.take(4)
	n := int(binary.LittleEndian.Uint16(h)) + int(h[2]) + int(h[3])
	f := Fav{}
	for i := 0; i < n && !p.bad; i++ {
		t := p.take(2)
		e := FavEntry{Kind: int(t[0]), Attr: t[1]}
		switch e.Kind {
		case FavBoard:
			b := p.take(12)
			e.Board, e.Visit, e.BAttr = binary.LittleEndian.Uint32(b), binary.LittleEndian.Uint32(b[4:]), binary.LittleEndian.Uint32(b[8:])
		case FavLine:
			e.ID = p.take(1)[0]
		case FavFolder:
			b := p.take(50)
			e.ID = b[0]
			s, ok := DecodeBig5(CString(b[1:]))
			if !ok {
				s = "\xff" // a title which the reference cannot name
			}
			e.Title = s
		default:
			p.bad = true
		}
		f = append(f, e)
	}
	boards, lines, folders := f.Counts()
	if boards != int(binary.LittleEndian.Uint16(h)) || lines != int(h[2]) || folders != int(h[3]) {
		p.mismatch = true
	}
	for i := range f {
		if f[i].Kind == FavFolder && !p.bad {
			f[i].Sub = p.folder()
		}
	}
	return f
}

// FavDiff compares two trees
func FavDiff(want, got Fav) error { return favDiff("", want, got) }

func favDiff(path string, want, got Fav) error {
	if len(want) != len(got) {
		return fmt.Errorf("favourites folder %q has %d entries instead of %d", path, len(got), len(want))
	}
	for i := range want {
		w, g := want[i], got[i]
		at := fmt.Sprintf("%s/%d", path, i)
		sub, gsub := w.Sub, g.Sub
		w.Sub, g.Sub, w.Stale, g.Stale = nil, nil, nil, nil
		if w.Title == "\xff" {
			w.Title, g.Title = "", ""
		}
		if fmt.Sprint(w) != fmt.Sprint(g) {
			return fmt.Errorf("favourites entry %s is %+v instead of %+v", at, g, w)
		}
		if w.Kind == FavFolder {
			if err := favDiff(at, sub, gsub); err != nil {
				return err
			}
		}
	}
	return nil
}

// FavTree draws a tree of at most depth levels; board draws the board numbers.
func FavTree(depth int, board *rapid.Generator[uint32]) *rapid.Generator[Fav] {
	return rapid.Custom(func(t *rapid.T) Fav {
		budget := 40
		return favTree(t, depth, board, &budget)
	})
}

func favTree(t *rapid.T, depth int, board *rapid.Generator[uint32], budget *int) Fav {
	n := rapid.IntRange(0, 6).Draw(t, "entries")
	f := Fav{}
	for i := 0; i < n && *budget > 0; i++ {
		*budget--
		kinds := []int{FavBoard, FavFolder, FavLine, FavFolder}
		if depth <= 1 {
			kinds = []int{FavBoard, FavLine, FavBoard}
		}
		e := FavEntry{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), Attr: uint8(U(8).Draw(t, "attr"))}
		switch e.Kind {
		case FavBoard:
			e.Board = board.Draw(t, "board")
			e.Visit = uint32(U(32).Draw(t, "visit"))
			e.BAttr = uint32(U(32).Draw(t, "battr"))
		case FavLine:
			e.ID = rapid.Byte().Draw(t, "id")
		case FavFolder:
			e.ID = rapid.Byte().Draw(t, "id")
			e.Title = Text(48).Draw(t, "title")
			if rapid.Bool().Draw(t, "stale?") {
				e.Stale = Fill(47).Draw(t, "stale")
			}
			e.Sub = favTree(t, depth-1, board, budget)
		}
		f = append(f, e)
	}
	if f.Size() < 20 {
		f = Echo(t, f)
	}
	return f
}

// FavWide makes a flat folder of n entries from a seed: boards, up to 255 lines and
// up to 255 folders (the counts are bytes in the file).
func FavWide(n int, seed uint64, mostlyBoards bool) Fav {
	b := make([]byte, 16*n)
	Noise(b, seed)
	f := make(Fav, 0, n)
	lines, folders := 0, 0
	for i := 0; i < n; i++ {
		c := b[16*i : 16*i+16]
		e := FavEntry{Kind: FavBoard, Attr: c[1]}
		k := c[0] % 3
		if mostlyBoards {
			k = c[0] % 64
		}
		switch {
		case k == 1 && lines < 255:
			lines++
			e.Kind, e.ID = FavLine, c[2]
		case k == 2 && folders < 255:
			folders++
			e.Kind, e.ID, e.Title = FavFolder, c[2], CodeText(Codes[int(c[3])*50])
			e.Sub = Fav{}
			for j := 0; j < int(c[4]%3); j++ {
				e.Sub = append(e.Sub, FavEntry{Kind: FavBoard, Attr: c[5], Board: uint32(c[6]) + uint32(j), Visit: uint32(c[7]) << 20})
			}
		default:
			e.Board, e.Visit, e.BAttr = binary.LittleEndian.Uint32(c[4:]), binary.LittleEndian.Uint32(c[8:]), binary.LittleEndian.Uint32(c[12:])
		}
		f = append(f, e)
	}
	return f
}
