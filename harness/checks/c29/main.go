// C29: the recent-login list gives each login's time and host in order.
package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
	"pgregory.net/rapid"
)

type file struct {
	Lines   []gen.Recent
	NoFinal bool
	Times   int // the lines are repeated so often
}

// drawMany draws a long file
func drawMany(t *rapid.T) file {
	c := drawFile(t)
	c.Times = 1 + rapid.SampledFrom([]int{300, 1100, 5000, 33000, 66000}).Draw(t, "times")/max(1, len(c.Lines))
	return c
}

func (c file) all() (l []gen.Recent) {
	for i := 0; i < max(1, c.Times); i++ {
		l = append(l, c.Lines...)
	}
	return l
}

func drawFile(t *rapid.T) file {
	n := rapid.SampledFrom([]int{1, 3, 10, 60}).Draw(t, "max")
	return file{gen.Echo(t, gen.ListOf(gen.RecentOf(), 0, n, 1000).Draw(t, "lines")), rapid.Bool().Draw(t, "nofinal"), 1}
}

func same(g *pttbbs.LoginRecentRecord, r gen.Recent) error {
	if !g.LoginStartTime.Equal(r.When.Time()) || g.FromHost != r.Host {
		return fmt.Errorf("%q is read as time %v, host %q", r.Line(), g.LoginStartTime, g.FromHost)
	}
	return nil
}

func check(c file, x *kit.X) error {
	c.Lines = c.all()
	var sb strings.Builder
	for i, r := range c.Lines {
		sb.WriteString(r.Line())
		if i < len(c.Lines)-1 || !c.NoFinal {
			sb.WriteByte('\n')
		}
		g, err := pttbbs.NewLoginRecentRecord(r.Line())
		if err != nil {
			return fmt.Errorf("reading %q: %w", r.Line(), err)
		}
		if err := same(g, r); err != nil {
			return err
		}
	}
	name := filepath.Join(x.Dir(), "logins.recent")
	kit.Write(name, []byte(sb.String()))
	got, err := pttbbs.OpenLoginRecentFile(name)
	if err != nil {
		return fmt.Errorf("a list of %d lines: %w", len(c.Lines), err)
	}
	if len(got) != len(c.Lines) {
		return fmt.Errorf("%d logins are read from %d lines", len(got), len(c.Lines))
	}
	for i := range got {
		if err := same(got[i], c.Lines[i]); err != nil {
			return fmt.Errorf("line %d: %w", i, err)
		}
	}
	x.NonTrivial(len(c.Lines) >= 2)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C29",
		Rule:        "a case is a recent-login file of up to 60 lines, or of these repeated up to 66000 times; it is non-trivial when it has at least two",
		Assumptions: []string{"hosts have no blanks; times are in UTC"},
		Arms: []kit.Arm{
			kit.NewArm("files", 6000, 300000, drawFile, check),
			kit.NewArm("long files", 60, 2500, drawMany, check),
			kit.Together(150, 6000, drawFile, check),
		},
	})
}
