package rec

import (
	"fmt"
	"time"

	"verif/harness/gen"

	"github.com/Ptt-official-app/go-bbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// Fav reads a decoded tree; the counts of each folder must be those of its entries.
func Fav(f *pttbbs.FavFolder) (gen.Fav, error) {
	if f == nil {
		return nil, fmt.Errorf("a folder of the favourites is nil")
	}
	out := gen.Fav{}
	for i, it := range f.FavItems {
		if it == nil {
			return nil, fmt.Errorf("entry %d of a favourites folder is nil", i)
		}
		e := gen.FavEntry{Kind: int(it.FavType), Attr: it.FavAttr}
		b, d, l := it.GetBoard(), it.GetFolder(), it.GetLine()
		if (b != nil) != (e.Kind == gen.FavBoard) || (d != nil) != (e.Kind == gen.FavFolder) || (l != nil) != (e.Kind == gen.FavLine) {
			return nil, fmt.Errorf("entry %d has type %d and item %T", i, e.Kind, it.Item)
		}
		wantType := map[int]bbs.FavoriteType{gen.FavBoard: bbs.FavoriteTypeBoard, gen.FavFolder: bbs.FavoriteTypeFolder, gen.FavLine: bbs.FavoriteTypeLine}
		if it.Type() != wantType[e.Kind] {
			return nil, fmt.Errorf("entry %d of kind %d says it is of type %d", i, e.Kind, it.Type())
		}
		switch {
		case b != nil:
			e.Board, e.BAttr = b.BoardID, b.Attr
			if b.LastVisit.Unix() < 0 || b.LastVisit.Unix() > 0xffffffff {
				return nil, fmt.Errorf("entry %d was visited at %v", i, b.LastVisit)
			}
			e.Visit = uint32(b.LastVisit.Unix())
		case l != nil:
			e.ID = l.LineID
		case d != nil:
			e.ID, e.Title = d.FolderID, d.Title
			if it.Title() != d.Title {
				return nil, fmt.Errorf("folder %q has title %q", d.Title, it.Title())
			}
			sub, err := Fav(d.ThisFolder)
			if err != nil {
				return nil, err
			}
			e.Sub = sub
			if len(it.Records()) != len(sub) {
				return nil, fmt.Errorf("folder %q of %d entries shows %d", d.Title, len(sub), len(it.Records()))
			}
		}
		out = append(out, e)
	}
	return out, nil
}

// FavCounts checks the counts which each folder keeps
func FavCounts(f *pttbbs.FavFolder, want gen.Fav) error {
	b, l, d := want.Counts()
	if int(f.NBoards) != b || int(f.NLines) != l || int(f.NFolders) != d {
		return fmt.Errorf("a folder with %d boards, %d lines and %d folders counts %d, %d and %d", b, l, d, f.NBoards, f.NLines, f.NFolders)
	}
	for i, e := range want {
		if e.Kind == gen.FavFolder {
			if err := FavCounts(f.FavItems[i].GetFolder().ThisFolder, e.Sub); err != nil {
				return err
			}
		}
	}
	return nil
}

// NewFav builds the tree from the exported types
func NewFav(f gen.Fav) *pttbbs.FavFolder {
	b, l, d := f.Counts()
	out := &pttbbs.FavFolder{NBoards: uint16(b), NLines: uint8(l), NFolders: uint8(d)}
	for _, e := range f {
		it := &pttbbs.FavItem{FavType: pttbbs.FavItemType(e.Kind), FavAttr: e.Attr}
		switch e.Kind {
		case gen.FavBoard:
			it.Item = &pttbbs.FavBoardItem{BoardID: e.Board, LastVisit: time.Unix(int64(e.Visit), 0), Attr: e.BAttr}
		case gen.FavLine:
			it.Item = &pttbbs.FavLineItem{LineID: e.ID}
		case gen.FavFolder:
			it.Item = &pttbbs.FavFolderItem{FolderID: e.ID, Title: e.Title, ThisFolder: NewFav(e.Sub)}
		}
		out.FavItems = append(out.FavItems, it)
	}
	return out
}
