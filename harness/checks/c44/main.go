// C44: treasure areas list and open exactly the articles stored at their path.
package main

import (
	"fmt"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs"
	_ "github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type art struct {
	File, Owner, Title string
	Content            []byte
}

// folder is a level of a treasure area
type folder struct {
	Name    string
	NoIndex bool
	Arts    []art
	Subs    []folder
	More    int // so many records without a file are in the index behind the articles
}

type area struct {
	Boards []string
	Root   []folder // of the treasure areas
	Plain  []folder // the boards themselves
	Wrong  []string // names of folders which may not be there
}

func names() *rapid.Generator[string] {
	return rapid.OneOf(rapid.SampledFrom([]string{"D690", "D6C2", "D1", "M.1.A", "M.1.A.000", "M.2.A.000", "D"}), gen.Match(`D[0-9A-F]{1,4}`), gen.Match(`M\.[0-9]{1,10}\.A(\.[0-9A-F]{3})?`), gen.Match(`[a-zA-Z][a-zA-Z0-9_.-]{0,10}`))
}

func folderOf(depth int) *rapid.Generator[folder] {
	return rapid.Custom(func(t *rapid.T) folder {
		f := folder{Name: names().Draw(t, "name"), NoIndex: gen.Num(0, 9).Draw(t, "noindex") == 0}
		used := map[string]bool{}
		for i := rapid.IntRange(0, 3).Draw(t, "arts"); i > 0; i-- {
			a := art{names().Draw(t, "file"), gen.ID().Draw(t, "owner"), gen.Text(40).Draw(t, "title"), gen.Bytes(rapid.SampledFrom([]int{60, 60, 60, 60, 60, 5000, 70000}).Draw(t, "max")).Draw(t, "content")}
			if !used[a.File] {
				used[a.File] = true
				f.Arts = append(f.Arts, a)
			}
		}
		if rapid.IntRange(0, 99).Draw(t, "more?") == 0 {
			f.More = rapid.SampledFrom([]int{60, 300, 1100, 5000}).Draw(t, "more")
		}
		if depth > 0 {
			for i := gen.Num(0, min(3, 6-depth)).Draw(t, "subs"); i > 0; i-- {
				s := folderOf(depth-1).Draw(t, "sub")
				if rapid.IntRange(0, 3).Draw(t, "same?") == 0 { // D1/D1
					s.Name = f.Name
				}
				if !used[s.Name] {
					used[s.Name] = true
					f.Subs = append(f.Subs, s)
				}
			}
		}
		return f
	})
}

func draw(t *rapid.T) area {
	c := area{Boards: rapid.SliceOfNDistinct(gen.ID(), 1, 2, rapid.ID).Draw(t, "boards")}
	for range c.Boards {
		c.Root = append(c.Root, folderOf(rapid.SampledFrom([]int{1, 2, 5}).Draw(t, "depth")).Draw(t, "root"))
		c.Plain = append(c.Plain, folderOf(0).Draw(t, "plain"))
	}
	c.Wrong = rapid.SliceOfN(names(), 1, 3).Draw(t, "wrong")
	return c
}

func (f folder) index() []byte {
	var recs [][]byte
	for _, a := range f.Arts {
		recs = append(recs, gen.NewArticle(a.File, a.Owner, " 1/01", a.Title))
	}
	for i := 0; i < f.More; i++ {
		recs = append(recs, gen.NewArticle(fmt.Sprintf("M.%d.A", int(1e9)+i), "SYSOP", " 1/02", fmt.Sprint(i)))
	}
	for _, s := range f.Subs {
		recs = append(recs, gen.NewArticle(s.Name, "SYSOP", " 1/01", "folder "+s.Name))
	}
	return gen.Join(recs)
}

func (f folder) listing() []string {
	l := []string{}
	for _, a := range f.Arts {
		l = append(l, a.File+" "+a.Owner+" "+a.Title)
	}
	for i := 0; i < f.More; i++ {
		l = append(l, fmt.Sprintf("M.%d.A SYSOP %d", int(1e9)+i, i))
	}
	for _, s := range f.Subs {
		l = append(l, s.Name+" SYSOP folder "+s.Name)
	}
	return l
}

func listed(rs []bbs.ArticleRecord) []string {
	l := []string{}
	for _, r := range rs {
		l = append(l, r.Filename()+" "+r.Owner()+" "+r.Title())
	}
	return l
}

func check(c area, x *kit.X) error {
	h := gen.Home(x.Dir())
	dirs := map[string]folder{}
	depth := 0
	var paths [][]string // with the board in front
	var put func(b string, sub []string, f folder)
	put = func(b string, sub []string, f folder) {
		p := append([]string{b}, sub...)
		dirs[strings.Join(p, "/")] = f
		paths = append(paths, p)
		depth = max(depth, len(sub))
		kit.Write(h.Man(b, sub, ".keep"), nil)
		if !f.NoIndex {
			kit.Write(h.Man(b, sub, ".DIR"), f.index())
		}
		for _, a := range f.Arts {
			kit.Write(h.Man(b, sub, a.File), a.Content)
		}
		for _, s := range f.Subs {
			put(b, append(append([]string{}, sub...), s.Name), s)
		}
	}
	for i, b := range c.Boards {
		put(b, nil, c.Root[i])
		kit.Write(h.Board(b, ".DIR"), c.Plain[i].index())
		for _, a := range c.Plain[i].Arts {
			kit.Write(h.Board(b, a.File), a.Content)
		}
	}
	// paths in, below and beside the folders
	for _, p := range paths[:len(paths):len(paths)] {
		for _, w := range c.Wrong {
			paths = append(paths, append(append([]string{}, p...), w))
			if len(p) > 1 {
				q := append([]string{}, p...)
				q[len(q)-1] = w
				paths = append(paths, q)
				paths = append(paths, append([]string{p[0]}, p[2:]...)) // a level is left out
			}
		}
	}
	db, err := bbs.Open("pttbbs", string(h))
	if err != nil {
		return err
	}
	var files []string
	known := map[string]bool{}
	for _, p := range paths {
		for _, a := range dirs[strings.Join(p, "/")].Arts {
			if !known[a.File] {
				known[a.File] = true
				files = append(files, a.File)
			}
		}
	}
	for n, p := range paths {
		b, sub := p[0], p[1:]
		f, is := dirs[strings.Join(p, "/")]
		rs, err := db.ReadBoardTreasureRecordsFile(b, sub)
		if !is || f.NoIndex {
			if err == nil {
				return fmt.Errorf("listing %q of %s, which has no index, gives %q", sub, b, listed(rs))
			}
		} else {
			if err != nil {
				return fmt.Errorf("listing %q of %s: %w", sub, b, err)
			}
			if got, want := listed(rs), f.listing(); strings.Join(got, "\n") != strings.Join(want, "\n") || len(got) != len(want) {
				return fmt.Errorf("listing %q of %s gives %.2000q instead of %.2000q", sub, b, got, want)
			}
		}
		try := make([]string, 0, 16)
		for _, a := range f.Arts {
			try = append(try, a.File)
		}
		for i := 0; i < len(files) && i < 8; i++ { // other ones in turn
			try = append(try, files[(8*n+i)%len(files)])
		}
		// names with a directory: of the one it is in, and of one in it
		for i, name := range try[:len(try):len(try)] {
			if len(sub) > 0 {
				try = append(try, sub[len(sub)-1]+"/"+name)
			}
			if len(f.Subs) > 0 {
				try = append(try, f.Subs[i%len(f.Subs)].Name+"/"+name)
			}
		}
		for _, s := range f.Subs {
			for _, a := range s.Arts {
				try = append(try, s.Name+"/"+a.File)
			}
		}
		for _, name := range try {
			var want *art
			in, file := f, name
			if d, rest, ok := strings.Cut(name, "/"); ok {
				in, file = dirs[strings.Join(append(append([]string{}, p...), d), "/")], rest
			}
			for i := range in.Arts {
				if in.Arts[i].File == file {
					want = &in.Arts[i]
				}
			}
			got, err := db.ReadBoardTreasureFile(b, sub, name)
			if want == nil {
				if err == nil {
					return fmt.Errorf("opening %s at %q of %s, which is not there, gives %q", name, sub, b, got)
				}
				continue
			}
			if err != nil {
				return fmt.Errorf("opening %s at %q of %s: %w", name, sub, b, err)
			}
			if string(got) != string(want.Content) {
				return fmt.Errorf("opening %s at %q of %s gives %q instead of %q", name, sub, b, got, want.Content)
			}
		}
	}
	// the board itself is not mixed up with its treasures
	for i, b := range c.Boards {
		rs, err := db.ReadBoardArticleRecordsFile(b)
		if err != nil {
			return fmt.Errorf("listing the board %s: %w", b, err)
		}
		if got, want := listed(rs), c.Plain[i].listing(); strings.Join(got, "\n") != strings.Join(want, "\n") {
			return fmt.Errorf("listing the board %s gives %q instead of %q", b, got, want)
		}
	}
	x.NonTrivial(depth >= 1 && len(files) > 0)
	x.LabelIf(depth >= 3, "depth 3 and more")
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C44",
		Rule: "a case is one or two boards with a treasure area of up to six levels; every folder and many paths below and beside them are listed, and file names of the same and of other folders are opened there. It is non-trivial when there is a folder and an article",
		Arms: []kit.Arm{
			kit.NewArm("areas", 1200, 60000, draw, check),
			kit.Together(20, 800, draw, check),
		},
	})
}
