package gen

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Comment is a comment line of an article: "<mark> <owner>: <text> <MM/DD hh:mm>"
type Comment struct {
	Mark, Owner, Text        string
	Gap, Pad, Tail           string // blanks after the colon, before the time and behind it
	Month, Day, Hour, Minute int
	Colour                   uint // bit i: a colour sequence before part i
}

// Stamp is its time as it stands in the line
func (c Comment) Stamp() string {
	return fmt.Sprintf("%02d/%02d %02d:%02d", c.Month, c.Day, c.Hour, c.Minute)
}

var colours = []string{"\x1b[1;37m", "\x1b[33m", "\x1b[m", "\x1b[1;31;40m", "\x1b[0m", "\x1b[K"}

func (c Comment) parts() []string {
	return []string{c.Mark, " ", c.Owner, ":", c.Gap, c.Text, c.Pad, c.Stamp(), c.Tail}
}

// Line is the line without colours
func (c Comment) Line() string { return strings.Join(c.parts(), "") }

// Coloured is the line as an article has it
func (c Comment) Coloured() string {
	var sb strings.Builder
	for i, p := range c.parts() {
		if c.Colour>>i&1 == 1 {
			sb.WriteString(colours[(i+int(c.Colour))%len(colours)])
		}
		sb.WriteString(p)
	}
	return sb.String()
}

var words = []string{"05/15 01:06", "12/31 23:59", "abc:", "Admin:", ":", "::", "http://a.b/c:80", "12:30", "1.2.3.4", "→", "推", "a", "1/2", "05/15", "  ", "\\", "看板: Test", "x9:"}

// CommentText draws what somebody writes: no blanks at its ends, much that looks like other parts
func CommentText(max int) *rapid.Generator[string] {
	return rapid.Map(rapid.OneOf(Text(max), rapid.Map(rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(words), Text(8)), 0, 6), func(w []string) string {
		return strings.Join(w, " ")
	})), func(s string) string { return strings.Trim(s, " ") })
}

var monthDays = []int{31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

// CommentOf draws a comment by one of the owners (by anybody when there are none)
func CommentOf(owners []string, max int) *rapid.Generator[Comment] {
	return rapid.Custom(func(t *rapid.T) Comment {
		c := Comment{
			Mark: rapid.OneOf(rapid.SampledFrom([]string{"推", "噓", "→", "", "1", "A1"}), Text(6)).Draw(t, "mark"),
			Text: CommentText(max).Draw(t, "text"),
			Gap:  rapid.SampledFrom([]string{" ", " ", "", "  ", "\t"}).Draw(t, "gap"), Pad: rapid.SampledFrom([]string{" ", "   ", strings.Repeat(" ", 40), "\t", " \t "}).Draw(t, "pad"),
			Tail:  rapid.SampledFrom([]string{"", "", "", " ", "\r"}).Draw(t, "tail"),
			Month: Num(1, 12).Draw(t, "month"), Hour: Num(0, 23).Draw(t, "hour"), Minute: Num(0, 59).Draw(t, "minute"),
		}
		c.Mark = strings.ReplaceAll(c.Mark, ":", ";")
		c.Day = Num(1, monthDays[c.Month-1]).Draw(t, "day")
		if len(owners) > 0 {
			c.Owner = rapid.SampledFrom(owners).Draw(t, "owner")
		} else {
			c.Owner = CommentID().Draw(t, "owner")
		}
		if rapid.Bool().Draw(t, "coloured") {
			c.Colour = uint(Num(0, 511).Draw(t, "colour"))
		}
		return c
	})
}

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

func stampAt(s string, i int) bool {
	const form = "00/00 00:00"
	if i+len(form) > len(s) {
		return false
	}
	for j := 0; j < len(form); j++ {
		c := s[i+j]
		switch form[j] {
		case '0':
			if !isDigit(c) {
				return false
			}
		case ' ':
			if c != ' ' {
				return false
			}
		default:
			if c != form[j] {
				return false
			}
		}
	}
	return true
}

// StampValid reports whether the stamp is a time of some year
func StampValid(s string) bool {
	n := func(i int) int { return int(s[i]-'0')*10 + int(s[i+1]-'0') }
	m, d := n(0), n(3)
	return m >= 1 && m <= 12 && d >= 1 && d <= monthDays[m-1] && n(6) < 24 && n(9) < 60
}

// ParseComment reads a line without colours: the id before the first colon that has one,
// the last time stamp behind it, and what is between them. Stamps has all stamps there.
func ParseComment(s string) (owner, text string, stamps []string, ok bool) {
	colon := -1
	for i := 0; i < len(s) && colon < 0; i++ {
		if s[i] != ':' {
			continue
		}
		b := i
		for b > 0 && (isLetter(s[b-1]) || isDigit(s[b-1])) {
			b--
		}
		for b < i && !isLetter(s[b]) {
			b++
		}
		if i-b >= 2 {
			owner, colon = s[b:i], i
		}
	}
	if colon < 0 {
		return "", "", nil, false
	}
	last := -1
	for i := colon + 1; i < len(s); i++ {
		if stampAt(s, i) {
			stamps = append(stamps, s[i:i+11])
			last = i
		}
	}
	if last < 0 {
		return "", "", nil, false
	}
	return owner, strings.Trim(s[colon+1:last], " \t\r\f\v"), stamps, true
}

// Body draws a line which is not a comment: it has no time stamp, an impossible one, or no id with a colon
func Body(max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		s := rapid.OneOf(CommentText(max), Text(max), rapid.SampledFrom([]string{
			"", "--", "※ 發信站: 批踢踢實業坊(ptt.cc), 來自: 1.2.3.4", "作者: someone (nick) 看板: Test", "時間: Fri May 15 01:06:02 2020", "user: no time", "推 abc: 5/15 1:06",
			"推 05/15 01:06", "推 abc： 05/15 01:06", "a: x 05/15 01:06", "推 abc: x 13/45 99:99", "推 abc: x 02/30 10:00", "05/15 01:06 abc: x", "1: 05/15 01:06",
		})).Draw(t, "body")
		// in Big5 the second byte of a character may be a letter, so an id may begin in one
		raw, _ := EncodeBig5(s)
		for _, line := range []string{s, string(raw)} {
			if _, _, stamps, ok := ParseComment(line); ok {
				for _, st := range stamps {
					if StampValid(st) {
						return strings.ReplaceAll(s, "/", "-")
					}
				}
			}
		}
		return s
	})
}
