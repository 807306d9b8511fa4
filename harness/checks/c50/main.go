// C50: a failed read is an error, never a shorter or different answer.
package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"syscall"

	"verif/harness/acts"
	"verif/harness/gen"
	"verif/harness/kit"

	"pgregory.net/rapid"
)

type fault struct {
	At    int    // of the calls of the operation, modulo their number
	Errno uint16 // of opening when it is one
	Stays bool   // all later calls on the same file fail, too
}

type bbsCase struct {
	Act    acts.Act
	Faults []fault
	Each   bool      // the first fault at each call, one after the other
	Larger *gen.Grow `json:",omitempty"` // how often the parts of the BBS are repeated
}

var errnos = []syscall.Errno{syscall.EIO, syscall.EIO, syscall.EACCES, syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.ESTALE, syscall.ETIMEDOUT, syscall.EINTR, syscall.EPERM, syscall.EUCLEAN}

func draw(t *rapid.T) bbsCase {
	c := bbsCase{Act: acts.Of(acts.Reading).Draw(t, "act"), Each: rapid.IntRange(0, 2).Draw(t, "each") == 0}
	c.Faults = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) fault {
		return fault{gen.Num(0, 40).Draw(t, "at"), uint16(rapid.SampledFrom(errnos).Draw(t, "errno")), rapid.Bool().Draw(t, "stays")}
	}), 1, 4).Draw(t, "faults")
	return c
}

// drawLarge draws a BBS whose files take many reads
func drawLarge(t *rapid.T) bbsCase {
	c := draw(t)
	c.Each = c.Each && rapid.IntRange(0, 3).Draw(t, "each, too") == 0
	for i := range c.Faults {
		c.Faults[i].At = gen.Num(0, 3000).Draw(t, "at")
	}
	g := gen.Grow{Boards: 1, Arts: 1, Lines: 1}
	*rapid.SampledFrom([]*int{&g.Boards, &g.Arts, &g.Lines, &g.Lines}).Draw(t, "part") = rapid.SampledFrom([]int{3, 20, 60, 150, 400}).Draw(t, "times")
	c.Larger = &g
	return c
}

func check(c bbsCase, x *kit.X) error {
	dir, err := filepath.EvalSymlinks(x.Dir())
	kit.Must(err)
	if c.Larger != nil {
		c.Act.Home = c.Act.Home.Larger(*c.Larger)
		x.Label("larger")
	}
	do := c.Act.Do(gen.Home(dir + "/home"))
	want, err := do()
	if err != nil {
		x.Label("nothing to read")
		return nil
	}
	calls := 0
	if err := kit.Faults(dir, func(n int, _ kit.Call) syscall.Errno { calls++; return 0 }, func() { do() }); err != nil {
		x.Label("no faults: " + err.Error())
		return nil
	}
	x.LabelIf(calls > 200, "more than 200 calls")
	if calls == 0 {
		return nil
	}
	errs := 0
	if c.Each {
		var l []fault
		for i, n := 0, min(calls, 60); i < n; i++ {
			l = append(l, fault{i * calls / n, c.Faults[0].Errno, c.Faults[0].Stays})
		}
		c.Faults = l
	}
	for i, f := range c.Faults {
		var got, failed string
		var err error
		var files []string
		at := f.At % calls
		kit.Must(kit.Faults(dir, func(n int, k kit.Call) syscall.Errno {
			if n == at || f.Stays && len(files) > 0 && files[0] == k.File {
				if len(files) == 0 {
					failed = k.Name + " of " + strings.TrimPrefix(k.File, dir)
				}
				files = append(files, k.File)
				if syscall.Errno(f.Errno) == syscall.EINTR && len(files) > 3 {
					return 0 // is to be tried again
				}
				return syscall.Errno(f.Errno)
			}
			return 0
		}, func() { got, err = do() }))
		if failed == "" {
			continue
		}
		if err != nil {
			errs++
			x.Label("error of " + strings.Fields(failed)[0])
		} else if got != want {
			return fmt.Errorf("fault %d: reading the %s while %s fails with %v gives no error and %.300s instead of %.300s", i, c.Act.Name, failed, syscall.Errno(f.Errno), got, want)
		}
		if got, err = do(); err != nil {
			return fmt.Errorf("fault %d: reading the %s fails still when nothing is wrong any more: %w", i, c.Act.Name, err)
		} else if got != want {
			return fmt.Errorf("fault %d: reading the %s gives %.300s instead of %.300s still when nothing is wrong any more", i, c.Act.Name, got, want)
		}
	}
	x.NonTrivial(errs > 0)
	x.Label(c.Act.Name)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID: "C50", Level: "fault_enumeration",
		Rule:        "a case is a BBS, one of 17 reading operations, and up to four faults, or one at each call in turn: a system call (opening, reading, looking for a file) of the operation, by its number, which fails (now and then a larger BBS, whose files take many reads) with a drawn error, alone or with all later ones on the same file; the answer must be an error or that of the undisturbed operation, and the undisturbed answer must come back. It is non-trivial when an operation reported an error",
		Assumptions: []string{"errors come from the kernel: the calls of the real code are intercepted with a seccomp listener"},
		Arms: []kit.Arm{
			kit.NewArm("reads", 4000, 200000, draw, check),
			kit.NewArm("reads of a large BBS", 250, 20000, drawLarge, check),
		},
	})
}
