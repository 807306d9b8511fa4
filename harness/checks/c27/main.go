// C27: login attempt lines survive writing and reading, in both log formats.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

func same(g *pttbbs.LoginAttempt, a gen.Attempt) error {
	if g.Success != a.Success || g.UserID != a.ID || !g.LoginStartTime.Equal(a.When.Time()) || g.FromHost != a.Host {
		return fmt.Errorf("%q is read as success %v, id %q, time %v, host %q", a.Line(), g.Success, g.UserID, g.LoginStartTime, g.FromHost)
	}
	return nil
}

type one struct{ A, Before gen.Attempt }

func of(a gen.Attempt) *pttbbs.LoginAttempt {
	return &pttbbs.LoginAttempt{Success: a.Success, UserID: a.ID, LoginStartTime: a.When.Time(), FromHost: a.Host}
}

func drawOne(t *rapid.T) one {
	return one{gen.AttemptOf(rapid.Bool().Draw(t, "own")).Draw(t, "attempt"), gen.AttemptOf(rapid.Bool().Draw(t, "own")).Draw(t, "before")}
}

func checkOne(c one, x *kit.X) error {
	line := c.A.Line()
	b, err := of(c.A).MarshalText()
	if err != nil {
		return fmt.Errorf("writing %q: %w", line, err)
	}
	if string(b) != line {
		return fmt.Errorf("the attempt is written as %q instead of %q", b, line)
	}
	if of(c.A).IsUnderBbsHome() != (c.A.ID != "") {
		return fmt.Errorf("%q: wrong kind of log", line)
	}
	g := &pttbbs.LoginAttempt{}
	if err := g.UnmarshalText([]byte(line)); err != nil {
		return fmt.Errorf("reading %q: %w", line, err)
	}
	if err := same(g, c.A); err != nil {
		return err
	}
	g = of(c.Before) // a variable which held another attempt
	buf := []byte(line)
	if err := g.UnmarshalText(buf); err != nil {
		return fmt.Errorf("reading %q: %w", line, err)
	}
	if string(buf) != line {
		return fmt.Errorf("reading changed the line %q", line)
	}
	for i := range buf {
		buf[i] = 'x'
	}
	if err := same(g, c.A); err != nil {
		return fmt.Errorf("over another attempt: %w", err)
	}
	x.NonTrivial(c.A.ID != "")
	x.LabelIf(c.A.ID == "", "own log")
	return nil
}

type file struct {
	Lines   []gen.Attempt
	NoFinal bool
	Times   int // the lines are repeated so often
}

// drawMany draws a long file
func drawMany(t *rapid.T) file {
	c := drawFile(t)
	c.Times = 1 + rapid.SampledFrom([]int{300, 1100, 5000, 33000, 66000}).Draw(t, "times")/max(1, len(c.Lines))
	return c
}

func (c file) all() (l []gen.Attempt) {
	for i := 0; i < max(1, c.Times); i++ {
		l = append(l, c.Lines...)
	}
	return l
}

func drawFile(t *rapid.T) file {
	mixed := rapid.IntRange(0, 3).Draw(t, "mixed") == 0
	own := rapid.Bool().Draw(t, "own")
	n := rapid.SampledFrom([]int{3, 3, 10, 10, 60}).Draw(t, "max")
	return file{gen.Echo(t, gen.ListOf(rapid.Custom(func(t *rapid.T) gen.Attempt {
		o := own
		if mixed {
			o = rapid.Bool().Draw(t, "own")
		}
		return gen.AttemptOf(o).Draw(t, "attempt")
	}), 0, n, 1000).Draw(t, "lines")), rapid.Bool().Draw(t, "nofinal"), 1}
}

func checkFile(c file, x *kit.X) error {
	c.Lines = c.all()
	var sb strings.Builder
	for i, a := range c.Lines {
		sb.WriteString(a.Line())
		if i < len(c.Lines)-1 || !c.NoFinal {
			sb.WriteByte('\n')
		}
	}
	name := filepath.Join(x.Dir(), "logins.bad")
	kit.Write(name, []byte(sb.String()))
	got, err := pttbbs.OpenBadLoginFile(name)
	if err != nil {
		return fmt.Errorf("a log of %d lines: %w", len(c.Lines), err)
	}
	if len(got) != len(c.Lines) {
		return fmt.Errorf("%d attempts are read from %d lines", len(got), len(c.Lines))
	}
	for i := range got {
		if err := same(got[i], c.Lines[i]); err != nil {
			return fmt.Errorf("line %d: %w", i, err)
		}
	}
	x.NonTrivial(len(c.Lines) >= 2)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C27",
		Rule:        "a case is an attempt (of the global or of an user's log) written, read and read over another one, or a log file of up to 60 attempts, or of these repeated up to 66000 times; it is non-trivial when the attempt has an id, or the file two lines",
		Assumptions: []string{"ids have at least two characters, hosts have no blanks and do not begin with a question mark or an at sign", "times are in UTC"},
		Arms: []kit.Arm{
			kit.NewArm("attempts", 12000, 800000, drawOne, checkOne),
			kit.NewArm("files", 4000, 200000, drawFile, checkFile),
			kit.NewArm("long files", 60, 2500, drawMany, checkFile),
			kit.Together(150, 6000, drawFile, checkFile),
		},
	})
}
