package gen

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Moment is a second of the calendar, without a zone
type Moment struct{ Year, Month, Day, Hour, Minute, Second int }

var daysOf = [...]int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

// DaysIn is the length of a month
func DaysIn(year, month int) int {
	if month == 2 && (year%4 == 0 && year%100 != 0 || year%400 == 0) {
		return 29
	}
	return daysOf[month-1]
}

// MomentOf is any second of the years 0 to 9999
func MomentOf() *rapid.Generator[Moment] {
	return rapid.Custom(func(t *rapid.T) Moment {
		m := Moment{
			Year:  rapid.OneOf(Num(1990, 2040), Num(0, 9999), rapid.SampledFrom([]int{0, 1, 999, 1900, 1970, 2000, 2020, 2100, 9999})).Draw(t, "year"),
			Month: Num(1, 12).Draw(t, "month"),
			Hour:  Num(0, 23).Draw(t, "hour"), Minute: Num(0, 59).Draw(t, "minute"), Second: Num(0, 59).Draw(t, "second"),
		}
		n := DaysIn(m.Year, m.Month)
		m.Day = rapid.OneOf(Num(1, n), rapid.Just(n)).Draw(t, "day")
		return m
	})
}

// Valid tells whether there is such a second
func (m Moment) Valid() bool {
	return m.Month >= 1 && m.Month <= 12 && m.Day >= 1 && m.Day <= DaysIn(m.Year, m.Month) && m.Hour < 24 && m.Minute < 60 && m.Second < 60
}

// Weekday is the three-letter name of the day, by Sakamoto's method
func (m Moment) Weekday() string {
	y := m.Year + 400
	if m.Month < 3 {
		y--
	}
	d := (y + y/4 - y/100 + y/400 + [...]int{0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4}[m.Month-1] + m.Day) % 7
	return [...]string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}[d]
}

// Stamp is "MM/DD/YYYY hh:mm:ss"
func (m Moment) Stamp() string {
	return fmt.Sprintf("%02d/%02d/%04d %02d:%02d:%02d", m.Month, m.Day, m.Year, m.Hour, m.Minute, m.Second)
}

// Time is the second as an UTC time
func (m Moment) Time() time.Time {
	return time.Date(m.Year, time.Month(m.Month), m.Day, m.Hour, m.Minute, m.Second, 0, time.UTC)
}

// Host is an address or a name; it has no blanks and does not begin with ? or @
func Host() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.Custom(func(t *rapid.T) string {
			b := rapid.SliceOfN(Num(0, 255), 4, 4).Draw(t, "ip")
			return fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3])
		}),
		Match(`[a-z0-9]([a-z0-9.-]{0,60}[a-z0-9])?`),
		Match(`[0-9a-f:]{2,39}`),
		Match(`[!->A-~][!-~]{0,40}`),
		rapid.SampledFrom([]string{"a", "localhost", "::1", "guest@10.0.0.1", "a?@b", "[::1]", "-", "0"}),
	)
}

// Attempt is a line of a failed-login log. An attempt without an id is one of the log
// of an user.
type Attempt struct {
	Success bool
	ID      string
	When    Moment
	Host    string
}

// AttemptOf is any attempt; own ones have no id
func AttemptOf(own bool) *rapid.Generator[Attempt] {
	return rapid.Custom(func(t *rapid.T) Attempt {
		a := Attempt{When: MomentOf().Draw(t, "when"), Host: Host().Draw(t, "host")}
		if !own {
			a.ID = rapid.OneOf(ID(), ID(), Match(`[!->A-~][!-~]{0,11}`)).Draw(t, "id") // as it was typed
			a.Success = rapid.Bool().Draw(t, "success")
		}
		return a
	})
}

// Line is the documented form
func (a Attempt) Line() string {
	s := "[" + a.When.Stamp() + " " + a.When.Weekday() + "] "
	if a.ID == "" {
		return s + a.Host
	}
	mark := "-"
	if a.Success {
		mark = " "
	}
	return mark + a.ID + strings.Repeat(" ", 12-len(a.ID)) + s + "?@" + a.Host
}

// Verdict is what a line of a log may be read as
type Verdict int

const (
	Bad    Verdict = iota // it must be refused
	Either                // refused, or read with these values
	Good                  // read with these values
)

var (
	attemptForm = regexp.MustCompile(`^(\d\d)/(\d\d)/(\d{4})[ \t]+(\d{1,2}):(\d\d):(\d\d)([.,]\d+)?[ \t]+([A-Za-z]{3})$`)
	recentForm  = regexp.MustCompile(`^(\d\d)/(\d\d)/(\d{4})[ \t]+(\d{1,2}):(\d\d):(\d\d)([.,]\d+)?[ \t]`)
	dayName     = regexp.MustCompile(`^(?i:sun|mon|tue|wed|thu|fri|sat)$`)
	plainHost   = regexp.MustCompile(`^[!->A-~][!-~]*$`)
)

func momentIn(m []string) Moment {
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	return Moment{Month: n(1), Day: n(2), Year: n(3), Hour: n(4), Minute: n(5), Second: n(6)}
}

// ParseAttempt reads a line of a failed-login log. The host of an Either line is what
// follows the blank after the time, with whatever prefix it has.
func ParseAttempt(s string) (a Attempt, v Verdict) {
	v = Good
	if s == "" {
		return a, Bad
	}
	global := s[0] == ' ' || s[0] == '-'
	if global {
		if len(s) < 13 {
			return a, Bad
		}
		a.Success = s[0] == ' '
		raw := s[1:13]
		a.ID = strings.TrimSpace(raw)
		if a.ID == "" || strings.TrimRight(raw, " ") != a.ID || !plainHost.MatchString(a.ID) {
			v = Either
		}
		s = s[13:]
	}
	if len(s) < 26 || s[0] != '[' || s[24] != ']' {
		return a, Bad
	}
	m := attemptForm.FindStringSubmatch(s[1:24])
	if m == nil || !dayName.MatchString(m[8]) {
		return a, Bad
	}
	a.When = momentIn(m)
	if !a.When.Valid() {
		return a, Bad
	}
	if s[1:24] != a.When.Stamp()+" "+a.When.Weekday() || s[25] != ' ' {
		v = Either
	}
	a.Host = s[26:]
	if global {
		if !strings.HasPrefix(a.Host, "?@") {
			v = Either
		} else if v == Good {
			a.Host = a.Host[2:]
		}
	}
	if !plainHost.MatchString(a.Host) {
		v = Either
	}
	return a, v
}

// HostMatches tells whether got is the host of a line: what remains of rest after the
// prefix of question marks and at signs
func HostMatches(got, rest string) bool {
	g, r := strings.TrimSpace(got), strings.TrimSpace(rest)
	return strings.HasSuffix(r, g) && strings.Trim(strings.TrimSuffix(r, g), "?@ \t\r\v\f\u0085\u00a0") == ""
}

// Recent is a line of a recent-login file
type Recent struct {
	When Moment
	Host string
	More string // what follows the host, with the blank in front of it
}

// RecentOf is any line
func RecentOf() *rapid.Generator[Recent] {
	return rapid.Custom(func(t *rapid.T) Recent {
		r := Recent{When: MomentOf().Draw(t, "when"), Host: Host().Draw(t, "host")}
		if rapid.IntRange(0, 3).Draw(t, "more?") == 0 {
			r.More = " " + rapid.OneOf(rapid.SampledFrom([]string{"", " ", "x", "01/02/2021 03:04:05 other"}), Text(12)).Draw(t, "more")
		}
		return r
	})
}

// Line is the form of the file
func (r Recent) Line() string { return r.When.Stamp() + " " + r.Host + r.More }

// ParseRecent reads a line of a recent-login file. The host of an
// Either line is all that follows the time.
func ParseRecent(s string) (r Recent, v Verdict) {
	m := recentForm.FindStringSubmatch(s)
	if m == nil {
		return r, Bad
	}
	r.When = momentIn(m)
	if !r.When.Valid() {
		return r, Bad
	}
	stamp, rest := r.When.Stamp()+" ", ""
	if strings.HasPrefix(s, stamp) {
		rest, _, _ = strings.Cut(s[len(stamp):], " ")
	}
	if !plainHost.MatchString(rest) {
		r.Host = s[len(m[0]):]
		return r, Either
	}
	r.Host = rest
	return r, Good
}
