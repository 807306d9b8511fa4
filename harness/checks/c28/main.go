// C28: a malformed login log is an error, never a crash or an invented entry.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

const longest = 64 * 1024 // a longer line may be refused

// log is a file of either kind
type log struct {
	Recent bool
	Lines  [][]byte
	Final  bool
}

func (c log) bytes() []byte {
	var b []byte
	for i, l := range c.Lines {
		b = append(b, l...)
		if i < len(c.Lines)-1 || c.Final {
			b = append(b, '\n')
		}
	}
	return b
}

// lines as a reader of text files sees them
func split(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	l := strings.Split(string(b), "\n")
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
	}
	for i := range l {
		l[i] = strings.TrimSuffix(l[i], "\r")
	}
	return l
}

func verdict(recent bool, l string) gen.Verdict {
	v := gen.Bad
	if recent {
		_, v = gen.ParseRecent(l)
	} else {
		_, v = gen.ParseAttempt(l)
	}
	if v == gen.Good && len(l) >= longest-2 {
		v = gen.Either
	}
	return v
}

func judge(recent bool, b []byte, dir string) (worst gen.Verdict, err error) {
	name := filepath.Join(dir, "log")
	kit.Write(name, b)
	lines := split(b)
	worst = gen.Good
	bad := ""
	for _, l := range lines {
		if v := verdict(recent, l); v < worst {
			worst, bad = v, l
		}
	}
	n := 0
	var entry func(i int) error
	if recent {
		got, e := pttbbs.OpenLoginRecentFile(name)
		n, err = len(got), e
		entry = func(i int) error {
			r, v := gen.ParseRecent(lines[i])
			g := got[i]
			if d := g.LoginStartTime.Sub(r.When.Time()); d != 0 && (v == gen.Good || d < 0 || d.Seconds() >= 1) {
				return fmt.Errorf("the time of %.200q is read as %v", lines[i], g.LoginStartTime)
			}
			if g.FromHost != r.Host && (v == gen.Good || !strings.Contains(r.Host, g.FromHost)) {
				return fmt.Errorf("the host of %.200q is read as %.200q", lines[i], g.FromHost)
			}
			return nil
		}
	} else {
		got, e := pttbbs.OpenBadLoginFile(name)
		n, err = len(got), e
		entry = func(i int) error {
			a, v := gen.ParseAttempt(lines[i])
			g := got[i]
			if g.Success != a.Success || g.UserID != a.ID || !g.LoginStartTime.Equal(a.When.Time()) ||
				g.FromHost != a.Host && (v == gen.Good || !gen.HostMatches(g.FromHost, a.Host)) {
				return fmt.Errorf("%.200q is read as success %v, id %q, time %v, host %.200q", lines[i], g.Success, g.UserID, g.LoginStartTime, g.FromHost)
			}
			return nil
		}
	}
	if err != nil {
		if worst == gen.Good {
			return worst, fmt.Errorf("a well-formed log of %d lines is refused: %w", len(lines), err)
		}
		return worst, nil
	}
	if worst == gen.Bad {
		return worst, fmt.Errorf("the log is read although it has the line %.200q", bad)
	}
	if n != len(lines) {
		return worst, fmt.Errorf("%d entries are read from %d lines", n, len(lines))
	}
	for i := range lines {
		if err := entry(i); err != nil {
			return worst, err
		}
	}
	return worst, nil
}

func goodLine(recent bool) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		if recent {
			return gen.RecentOf().Draw(t, "recent").Line()
		}
		return gen.AttemptOf(rapid.Bool().Draw(t, "own")).Draw(t, "attempt").Line()
	})
}

// prefixes of one line at every length, with sound lines around it
type prefixes struct {
	Recent              bool
	Before, Line, After string
}

func drawPrefixes(t *rapid.T) prefixes {
	r := rapid.Bool().Draw(t, "recent")
	g := goodLine(r)
	c := prefixes{Recent: r, Line: g.Draw(t, "line")}
	if rapid.Bool().Draw(t, "before") {
		c.Before = g.Draw(t, "first") + "\n"
	}
	if rapid.Bool().Draw(t, "after") {
		c.After = "\n" + g.Draw(t, "last")
	}
	return c
}

func checkPrefixes(c prefixes, x *kit.X) error {
	for n := 0; n <= len(c.Line); n++ {
		if _, err := judge(c.Recent, []byte(c.Before+c.Line[:n]+c.After), x.Dir()); err != nil {
			return fmt.Errorf("cut after %d bytes: %w", n, err)
		}
		if c.Recent {
			continue
		}
		// the line alone, in a buffer with nothing behind it
		s := c.Line[:n]
		a, v := gen.ParseAttempt(s)
		g := &pttbbs.LoginAttempt{}
		err := g.UnmarshalText([]byte(s))
		if err == nil && v == gen.Bad {
			return fmt.Errorf("%q is read as %+v", s, *g)
		}
		if v == gen.Good && (err != nil || g.UserID != a.ID || g.FromHost != a.Host) {
			return fmt.Errorf("%q is read as %+v, %v", s, *g, err)
		}
	}
	x.NonTrivial(true)
	return nil
}

func mutated(recent bool) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		b := []byte(goodLine(recent).Draw(t, "line"))
		for i := rapid.IntRange(1, 3).Draw(t, "mutations"); i > 0; i-- {
			at := 0
			if len(b) > 0 {
				at = rapid.IntRange(0, min(len(b)-1, 45)).Draw(t, "at")
			}
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				b = b[:at]
			case 1:
				b = append(append(append([]byte{}, b[:at]...), rapid.SampledFrom([]string{" ", "0", "9", "-", "[", "]", "?", "@", "\x00", "\r", "\t", "\xff", "推"}).Draw(t, "insert")...), b[at:]...)
			case 2:
				if len(b) > 0 {
					b[at] = rapid.Byte().Draw(t, "byte")
				}
			case 3:
				if len(b) > 0 {
					b[at] = "0123456789 -/:[]"[gen.Num(0, 15).Draw(t, "sign")]
				}
			case 4:
				if len(b) > 0 {
					b = append(append([]byte{}, b[:at]...), b[at+1:]...)
				}
			case 5:
				b = append(b, goodLine(recent).Draw(t, "joined")...)
			}
		}
		return b
	})
}

func drawLog(t *rapid.T) log {
	r := rapid.Bool().Draw(t, "recent")
	line := rapid.Custom(func(t *rapid.T) []byte {
		switch k := gen.Num(0, 19).Draw(t, "kind"); {
		case k < 8:
			return []byte(goodLine(r).Draw(t, "good"))
		case k < 15:
			return mutated(r).Draw(t, "mutated")
		case k < 16:
			return []byte(goodLine(!r).Draw(t, "other kind"))
		case k < 17:
			return []byte(strings.Repeat(" ", gen.Num(0, 60).Draw(t, "blanks")))
		case k < 18 && rapid.IntRange(0, 9).Draw(t, "long?") == 0:
			return []byte(goodLine(r).Draw(t, "good") + strings.Repeat("h", longest+gen.Num(-100, 70000).Draw(t, "long")))
		}
		return rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "bytes")
	})
	return log{Recent: r, Lines: gen.Echo(t, gen.ListOf(line, 0, rapid.SampledFrom([]int{1, 1, 4}).Draw(t, "max"), 300).Draw(t, "lines")), Final: rapid.Bool().Draw(t, "final")}
}

func checkLog(c log, x *kit.X) error {
	v, err := judge(c.Recent, c.bytes(), x.Dir())
	x.NonTrivial(v == gen.Bad)
	x.Label(fmt.Sprintf("verdict %d", v))
	return err
}

// gone is a log which cannot be opened or read
type gone struct {
	Recent bool
	How    int
	Name   string
}

func drawGone(t *rapid.T) gone {
	return gone{rapid.Bool().Draw(t, "recent"), rapid.IntRange(0, 2).Draw(t, "how"), gen.ID().Draw(t, "name")}
}

func checkGone(c gone, x *kit.X) error {
	name := filepath.Join(x.Dir(), c.Name)
	switch c.How {
	case 1:
		kit.Must(os.Mkdir(name, 0755))
	case 2:
		kit.Write(name, []byte("x"))
		name += "/log"
	}
	n, err := 0, error(nil)
	if c.Recent {
		got, e := pttbbs.OpenLoginRecentFile(name)
		n, err = len(got), e
	} else {
		got, e := pttbbs.OpenBadLoginFile(name)
		n, err = len(got), e
	}
	if err == nil {
		return fmt.Errorf("a log which cannot be read (%d) gives %d entries and no error", c.How, n)
	}
	x.NonTrivial(true)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:   "C28",
		Rule: "a case is a sound line of either log cut at every length, or a log of up to four sound, mutated, foreign, random and very long lines, or a log which cannot be read; a log is non-trivial when it has a line that must be refused",
		Assumptions: []string{
			"left open (an error, or the values of the line): a wrong day of the week, a one-digit hour, fractions of a second, blanks within the id, a sign other than a blank after the time, an empty or odd host, lines of 64 KiB and more",
		},
		Arms: []kit.Arm{
			kit.NewArm("prefixes", 250, 12000, drawPrefixes, checkPrefixes),
			kit.NewArm("logs", 12000, 600000, drawLog, checkLog),
			kit.NewArm("gone", 60, 600, drawGone, checkGone),
			kit.Together(150, 6000, drawLog, checkLog),
		},
	})
}
