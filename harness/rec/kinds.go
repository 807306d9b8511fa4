package rec

import (
	"verif/harness/gen"

	formosa "github.com/Ptt-official-app/go-bbs/formosabbs"
	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// Kind is a kind of record which is stored in files
type Kind struct {
	Name   string
	L      *gen.Layout
	Mark   string // a number field which can tell records apart
	Decode func(raw []byte) (Values, error)
	Open   func(file string) ([]Values, error)
	// OpenMarks reads just the mark field of each record
	OpenMarks func(file string) ([]uint64, error)
}

// Formosa lists what a Formosa index record shows
func Formosa(a *formosa.FileHeader) Values {
	return Values{"filename": &a.Filename, "postno": &a.Postno, "owner": &a.Owner, "modified": &a.Modified, "title": &a.Title}
}

func kind[T any](name string, l *gen.Layout, mark string, decode func([]byte) (T, error), open func(string) ([]T, error), values func(T) Values, markOf func(T) uint64) Kind {
	return Kind{Name: name, L: l, Mark: mark,
		Decode: func(raw []byte) (Values, error) {
			r, err := decode(raw)
			if err != nil {
				return nil, err
			}
			return values(r), nil
		},
		Open: func(file string) ([]Values, error) {
			rs, err := open(file)
			if err != nil {
				return nil, err
			}
			vs := make([]Values, len(rs))
			for i, r := range rs {
				vs[i] = values(r)
			}
			return vs, nil
		},
		OpenMarks: func(file string) ([]uint64, error) {
			rs, err := open(file)
			if err != nil {
				return nil, err
			}
			ms := make([]uint64, len(rs))
			for i, r := range rs {
				ms[i] = markOf(r)
			}
			return ms, nil
		},
	}
}

// Kinds of record files
var Kinds = []Kind{
	kind("board", gen.Board, "nuser", pttbbs.UnmarshalBoardHeader, pttbbs.OpenBoardHeaderFile, Board, func(b *pttbbs.BoardHeader) uint64 { return uint64(uint32(b.Nuser)) }),
	kind("article", gen.Article, "modified", pttbbs.NewFileHeaderWithByte, pttbbs.OpenFileHeaderFile, Article, func(a *pttbbs.FileHeader) uint64 { return uint64(uint32(a.Modified().Unix())) }),
	kind("user", gen.User, "numposts", pttbbs.UnmarshalUserec, pttbbs.OpenUserecFile, User, func(u *pttbbs.Userec) uint64 { return uint64(uint32(u.NumPosts())) }),
	kind("online", gen.Online, "destuid", func(b []byte) (*pttbbs.UserInfoCache, error) { return pttbbs.UnmarshalUserInfo(b), nil }, pttbbs.OpenUserInfoCache, Online, func(u *pttbbs.UserInfoCache) uint64 { return uint64(uint32(u.DestUID)) }),
	kind("formosa", gen.Formosa, "postno", formosa.NewFomosaBBSFileHeaderWithByte, formosa.OpenFormosaBBSFileHeaderFile, Formosa, func(a *formosa.FileHeader) uint64 { return uint64(uint32(a.Postno)) }),
}

// KindOf returns the kind of that name
func KindOf(name string) Kind {
	for _, k := range Kinds {
		if k.Name == name {
			return k
		}
	}
	panic("rec: no kind " + name)
}

// KindNames of all kinds
func KindNames() []string {
	var ns []string
	for _, k := range Kinds {
		ns = append(ns, k.Name)
	}
	return ns
}
