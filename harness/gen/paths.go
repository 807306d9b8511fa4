package gen

import "path/filepath"

// Home is the directory of a BBS; its methods are the documented directory scheme.
type Home string

// Passwds is the account file
func (h Home) Passwds() string { return string(h) + "/.PASSWDS" }

// Boards is the board list
func (h Home) Boards() string { return string(h) + "/.BRD" }

// User is a file in the directory of an user
func (h Home) User(id, file string) string {
	return string(h) + "/home/" + id[:1] + "/" + id + "/" + file
}

// Board is a file in the directory of a board
func (h Home) Board(id, file string) string {
	return string(h) + "/boards/" + id[:1] + "/" + id + "/" + file
}

// Man is a file in the treasure area of a board
func (h Home) Man(id string, sub []string, file string) string {
	p := string(h) + "/man/boards/" + id[:1] + "/" + id
	for _, s := range sub {
		p += "/" + s
	}
	return p + "/" + file
}

// Dir is the directory of a path
func Dir(p string) string { return filepath.Dir(p) }

// NewBoard makes a board record with just an id and a title
func NewBoard(id, title string) []byte {
	r := make([]byte, 256)
	Board.Find("brdname").PutText(r, id)
	Board.Find("title").PutText(r, title)
	return r
}

// NewArticle makes an article record
func NewArticle(file, owner, date, title string) []byte {
	r := make([]byte, 128)
	Article.Find("filename").PutText(r, file)
	Article.Find("owner").PutText(r, owner)
	Article.Find("date").PutText(r, date)
	Article.Find("title").PutText(r, title)
	return r
}

// Join concatenates records
func Join(recs [][]byte) []byte {
	var b []byte
	for _, r := range recs {
		b = append(b, r...)
	}
	return b
}
