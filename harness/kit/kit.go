// Package kit drives the checks: it generates cases with rapid, runs an oracle on
// each of them in supervised child processes, shrinks and replays failures, and
// writes the evidence file.
//
// The outcome is decided by the generated cases alone: exit 0 and no output when
// the oracle accepted all of them, exit 1 and a VIOLATION line when it rejected
// one and the saved case reproduces that, exit 2 for anything that went wrong in
// the machinery itself.
package kit

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Property is one entry of /verif/properties.jsonl and the arms which decide it.
type Property struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Level       string // default "exploration"
	Assumptions []string
	Arms        []Arm
	// Serial runs the arms one after another and without shards (they share a port or a key).
	Serial bool
	// Prepare runs once in the parent before any child; what it returns is in the
	// environment of the children.
	Prepare func(scratch string) (env []string, err error)
	// Wrap returns a command prefix for the children
	Wrap func() []string
	// Race: the check is built with the race detector
	Race bool
}

// Arm is one generator with its oracle.
type Arm struct {
	Name     string
	Quick    int
	Thorough int
	// Racy: the oracle is sound but the schedule is not part of the case, so one
	// observed violation counts although the replay may need several attempts.
	Racy bool
	draw func(rt *rapid.T) []byte
	load func(raw []byte) func(x *X) error
}

// NewArm makes an arm from a generator of cases C (JSON must preserve them) and an oracle.
func NewArm[C any](name string, quick, thorough int, gen func(t *rapid.T) C, check func(c C, x *X) error) Arm {
	stored(reflect.TypeFor[C](), map[reflect.Type]bool{})
	a := Arm{
		Name: name, Quick: quick, Thorough: thorough,
		draw: func(rt *rapid.T) []byte {
			raw, err := json.Marshal(gen(rt))
			if err != nil {
				panic(harnessError{fmt.Errorf("encode case: %w", err)})
			}
			return raw
		},
		load: func(raw []byte) func(x *X) error {
			var c C
			if err := json.Unmarshal(raw, &c); err != nil {
				panic(harnessError{fmt.Errorf("decode case: %w", err)})
			}
			return func(x *X) error { return check(c, x) }
		},
	}
	return a
}

// stored sees to it that a case keeps all fields when it is stored: of two embedded fields with one name
// encoding/json keeps neither.
func stored(t reflect.Type, seen map[reflect.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		stored(t.Elem(), seen)
	case reflect.Struct:
		names := map[string]bool{}
		for _, f := range reflect.VisibleFields(t) {
			if f.Anonymous || !f.IsExported() {
				continue
			}
			g, ok := t.FieldByName(f.Name)
			if names[f.Name] && (!ok || len(g.Index) > 1) || !ok {
				panic(fmt.Sprintf("cases of type %v do not keep %s", t, f.Name))
			}
			names[f.Name] = true
		}
		for i := 0; i < t.NumField(); i++ {
			stored(t.Field(i).Type, seen)
		}
	}
}

func (a Arm) one(raw []byte, st *state) error { return st.guard(raw, a.load(raw)) }

func (a Arm) run(rt *rapid.T, st *state) {
	if a.one(a.draw(rt), st) != nil {
		rt.Fatalf("the oracle rejected this case")
	}
}

// Together makes an arm whose cases are run at the same time by several threads, over
// and over: what each of them does must not depend on the others.
func Together[C any](quick, thorough int, gen func(t *rapid.T) C, check func(c C, x *X) error) Arm {
	return Threads(quick, thorough, 12, NewArm("", 0, 0, gen, check))
}

// Part is a case of one of several arms
type Part struct {
	Arm  int
	Case json.RawMessage
}

// Threads is Together for cases of any of the arms.
func Threads(quick, thorough, rounds int, arms ...Arm) Arm {
	const threads = 4
	return NewArm("threads", quick, thorough, func(t *rapid.T) []Part {
		var ps []Part
		for i := 0; i < threads; i++ {
			n := rapid.IntRange(0, len(arms)-1).Draw(t, "arm")
			ps = append(ps, Part{n, arms[n].draw(t)})
		}
		return ps
	}, func(ps []Part, x *X) error {
		var mu sync.Mutex
		var failed error
		var harness any
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, p := range ps {
			f := arms[p.Arm].load(p.Case)
			wg.Add(1)
			go func() {
				defer wg.Done()
				debug.SetPanicOnFault(true)
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						if he, ok := r.(harnessError); ok {
							harness = he
						} else {
							failed = fmt.Errorf("thread %d: panic: %v\n%s", i, r, debug.Stack())
						}
						mu.Unlock()
					}
				}()
				<-start
				for n := 0; n < rounds; n++ {
					sub := &X{}
					err := f(sub)
					if sub.dir != "" {
						os.RemoveAll(sub.dir)
					}
					if n == 0 || err != nil {
						mu.Lock()
						x.nt = x.nt || sub.nt
						if err != nil {
							failed = fmt.Errorf("thread %d, with others at the same time: %w", i, err)
						}
						mu.Unlock()
					}
					if err != nil {
						return
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		if harness != nil {
			panic(harness)
		}
		return failed
	}).AsRacy()
}

// Arms are the arms and, last, one which runs cases of them in threads.
func Arms(quick, thorough, rounds int, arms ...Arm) []Arm {
	return append(arms, Threads(quick, thorough, rounds, arms...))
}

// AsRacy marks the arm as racy.
func (a Arm) AsRacy() Arm { a.Racy = true; return a }

// X is what an oracle sees of its surroundings.
type X struct {
	dir    string
	nt     bool
	labels []string
}

// Dir returns an empty scratch directory which is removed after the case.
func (x *X) Dir() string {
	if x.dir == "" {
		d, err := os.MkdirTemp(scratchRoot(), "case-")
		if err != nil {
			Harness(err)
		}
		x.dir = d
	}
	return x.dir
}

// NonTrivial marks the case as non-trivial when cond holds.
func (x *X) NonTrivial(cond bool) {
	if cond {
		x.nt = true
	}
}

// Label counts the case in the class name.
func (x *X) Label(name string) { x.labels = append(x.labels, name) }

// LabelIf counts the case in the class name when cond holds.
func (x *X) LabelIf(cond bool, name string) {
	if cond {
		x.Label(name)
	}
}

type harnessError struct{ err error }

// Harness aborts the check: the machinery failed, not the property.
func Harness(err error) { panic(harnessError{err}) }

// Must aborts the check when err is set, for set-up steps of the harness itself.
func Must(err error) {
	if err != nil {
		Harness(err)
	}
}

// Write creates a file (and its directories) of the scratch tree.
func Write(name string, data []byte) {
	Must(os.MkdirAll(filepath.Dir(name), 0755))
	Must(os.WriteFile(name, data, 0644))
}

// ReadFile reads a file of the scratch tree which the harness knows to exist.
func ReadFile(name string) []byte {
	b, err := os.ReadFile(name)
	Must(err)
	return b
}

func scratchRoot() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}

const (
	exitHang    = 97
	exitHarness = 98
)

type failure struct {
	Raw []byte
	Msg string
}

type result struct {
	Arm     string
	Evals   int64
	NT      int64
	Labels  map[string]int64
	Hashes  []uint64 `json:"-"`
	Samples []json.RawMessage
	Fail    *failure
	Harness string
}

type state struct {
	arm      string
	res      result
	seen     map[uint64]struct{}
	curFile  *os.File
	mu       sync.Mutex
	caseID   int64 // of the running case, 0 when none is
	nextCase int64
	counting bool
}

func (st *state) begin(raw []byte) {
	if st.curFile != nil {
		var n [8]byte
		binary.LittleEndian.PutUint64(n[:], uint64(len(raw)))
		if _, err := st.curFile.WriteAt(append(n[:], raw...), 0); err != nil {
			Harness(err)
		}
	}
	st.mu.Lock()
	st.nextCase++
	st.caseID = st.nextCase
	st.mu.Unlock()
}

func (st *state) end() {
	st.mu.Lock()
	st.caseID = 0
	st.mu.Unlock()
}

// zone gives the process a time zone which depends on the case: no result may depend on it
func zone(raw []byte) {
	if raceBuild {
		return // it is set without a lock
	}
	h := fnv.New32a()
	h.Write(raw)
	time.Local = zones[h.Sum32()>>8%uint32(len(zones))]
}

var zones = func() (l []*time.Location) {
	for _, name := range []string{"UTC", "Asia/Taipei", "America/New_York", "Pacific/Kiritimati"} {
		if z, err := time.LoadLocation(name); err == nil {
			l = append(l, z)
		}
	}
	return l
}()

// TZ is the zone of the case, for the environment of a program
func TZ() string { return "TZ=" + time.Local.String() }

// guard runs one case: a panic of the code under test is a rejection of the case.
func (st *state) guard(raw []byte, f func(x *X) error) (err error) {
	x := &X{}
	st.begin(raw)
	zone(raw)
	defer func() {
		st.end()
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
		if x.dir != "" {
			os.RemoveAll(x.dir)
		}
		if st.res.Fail == nil { // what the shrinker tries is not coverage
			st.res.Evals++
			for _, l := range x.labels {
				st.res.Labels[l]++
			}
			if x.nt {
				st.res.NT++
				h := fnv.New64a()
				io.WriteString(h, st.arm)
				h.Write(raw)
				if _, ok := st.seen[h.Sum64()]; !ok {
					st.seen[h.Sum64()] = struct{}{}
					if len(st.res.Samples) < 2 && len(raw) < 1500 {
						st.res.Samples = append(st.res.Samples, append([]byte{}, raw...))
					}
				}
			}
		}
		if err != nil && (st.res.Fail == nil || len(raw) <= len(st.res.Fail.Raw)) {
			st.res.Fail = &failure{Raw: append([]byte{}, raw...), Msg: err.Error()}
		}
	}()
	return f(x)
}

// watchdog ends the process when one case does not come back: either it burned
// far more CPU time than any case needs, or every thread has been asleep all along.
func (st *state) watchdog(beat string) {
	const (
		tick       = 250 * time.Millisecond
		cpuBudget  = 40 * time.Second
		asleepTime = 60 * time.Second
	)
	var last int64
	var cpu0 time.Duration
	asleep := time.Duration(0)
	for {
		time.Sleep(tick)
		os.Chtimes(beat, time.Time{}, time.Now())
		st.mu.Lock()
		id := st.caseID
		st.mu.Unlock()
		if id == 0 || id != last {
			last, cpu0, asleep = id, cpuTime(), 0
			continue
		}
		if cpuTime()-cpu0 > cpuBudget {
			fmt.Fprintf(realStderr, "hang: one case used more than %v of CPU time\n", cpuBudget)
			os.Exit(exitHang)
		}
		if othersAsleep() {
			asleep += tick
		} else {
			asleep = 0
		}
		if asleep > asleepTime {
			buf := make([]byte, 1<<16)
			fmt.Fprintf(realStderr, "hang: one case is blocked\n%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(exitHang)
		}
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// othersAsleep reports whether at most this thread is running, and no child process works for us.
func othersAsleep() bool {
	tasks, err := os.ReadDir("/proc/self/task")
	if err != nil {
		return false
	}
	busy := 0
	for _, t := range tasks {
		b, err := os.ReadFile("/proc/self/task/" + t.Name() + "/stat")
		if err != nil {
			return false
		}
		s := string(b)
		i := strings.LastIndex(s, ") ")
		if i < 0 || len(s) < i+3 {
			return false
		}
		if s[i+2] != 'S' {
			busy++
		}
		if c, err := os.ReadFile("/proc/self/task/" + t.Name() + "/children"); err == nil && len(c) > 0 {
			return false
		}
	}
	return busy <= 1
}

var realStdout, realStderr = os.Stdout, os.Stderr

func quiet() {
	log.SetOutput(io.Discard)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	// A wild read of a mapping that is gone is a panic, so it shrinks as others do
	debug.SetPanicOnFault(true)
}

// Main is the main function of a check.
func Main(p Property) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	args := os.Args[1:]
	switch {
	case len(args) == 6 && args[0] == "child":
		childMain(p, args[1], args[2], args[3], args[4], args[5])
	case len(args) == 2 && args[0] == "replay":
		replayMain(p, args[1])
	case len(args) == 0:
		parentMain(p)
	default:
		fmt.Fprintln(os.Stderr, "usage: check [replay FILE]")
		os.Exit(2)
	}
}

func findArm(p Property, name string) Arm {
	for _, a := range p.Arms {
		if a.Name == name {
			return a
		}
	}
	fmt.Fprintln(realStderr, "no arm", name)
	os.Exit(2)
	panic("unreachable")
}

// fakeTB is what rapid reports to.
type fakeTB struct {
	name   string
	failed bool
	out    strings.Builder
}

func (f *fakeTB) Helper()                   {}
func (f *fakeTB) Name() string              { return f.name }
func (f *fakeTB) Logf(s string, a ...any)   { fmt.Fprintf(&f.out, s+"\n", a...) }
func (f *fakeTB) Log(a ...any)              { fmt.Fprintln(&f.out, a...) }
func (f *fakeTB) Skipf(s string, a ...any)  { f.Logf(s, a...); runtime.Goexit() }
func (f *fakeTB) Skip(a ...any)             { f.Log(a...); runtime.Goexit() }
func (f *fakeTB) SkipNow()                  { runtime.Goexit() }
func (f *fakeTB) Errorf(s string, a ...any) { f.Logf(s, a...); f.failed = true }
func (f *fakeTB) Error(a ...any)            { f.Log(a...); f.failed = true }
func (f *fakeTB) Fatalf(s string, a ...any) { f.Logf(s, a...); f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fatal(a ...any)            { f.Log(a...); f.failed = true; runtime.Goexit() }
func (f *fakeTB) FailNow()                  { f.failed = true; runtime.Goexit() }
func (f *fakeTB) Fail()                     { f.failed = true }
func (f *fakeTB) Failed() bool              { return f.failed }

// child ARM SEED N CURFILE OUTPREFIX; or with N "one": replay the case in CURFILE.
func childMain(p Property, armName, seed, n, cur, out string) {
	arm := findArm(p, armName)
	quiet()
	st := &state{arm: arm.Name, seen: map[uint64]struct{}{}}
	st.res = result{Arm: arm.Name, Labels: map[string]int64{}}
	go st.watchdog(out + ".beat")

	fail := func(err error) {
		fmt.Fprintln(realStderr, "harness:", err)
		os.Exit(exitHarness)
	}

	var harness error
	protect := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					fail(he.err)
				}
				fail(fmt.Errorf("panic: %v\n%s", r, debug.Stack()))
			}
		}()
		f()
	}

	if n == "one" {
		raw, err := os.ReadFile(cur)
		if err != nil {
			fail(err)
		}
		// A case is one execution, unless the outcome also depends on what is not in it
		tries := 10
		if arm.Racy {
			tries = 300
		}
		protect(func() {
			debug.SetPanicOnFault(true)
			for i := 0; i < tries && st.res.Fail == nil; i++ {
				arm.one(raw, st)
			}
		})
	} else {
		f, err := os.Create(cur)
		if err != nil {
			fail(err)
		}
		st.curFile = f
		testing.Init()
		if err := flag.CommandLine.Parse([]string{"-rapid.nofailfile", "-rapid.seed=" + seed, "-rapid.checks=" + n, "-rapid.shrinktime=20s"}); err != nil {
			fail(err)
		}
		tb := &fakeTB{name: p.ID + "-" + arm.Name}
		done := make(chan struct{})
		go func() {
			defer close(done)
			debug.SetPanicOnFault(true)
			rapid.Check(tb, func(t *rapid.T) {
				defer func() {
					if r := recover(); r != nil {
						if he, ok := r.(harnessError); ok {
							fail(he.err)
						}
						panic(r)
					}
				}()
				arm.run(t, st)
			})
		}()
		<-done
		if tb.failed && st.res.Fail == nil {
			harness = fmt.Errorf("rapid: %s", tb.out.String())
		}
		if !tb.failed && st.res.Fail != nil {
			harness = fmt.Errorf("a failure was lost by rapid: %s", st.res.Fail.Msg)
		}
	}
	if harness != nil {
		fail(harness)
	}

	b, err := json.Marshal(st.res)
	if err != nil {
		fail(err)
	}
	if err := os.WriteFile(out+".json", b, 0644); err != nil {
		fail(err)
	}
	hs := make([]byte, 0, 8*len(st.seen))
	for h := range st.seen {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if err := os.WriteFile(out+".hash", hs, 0644); err != nil {
		fail(err)
	}
	os.Exit(0)
}

type job struct {
	arm  Arm
	seed uint64
	n    int
	id   int
}

type runner struct {
	p       Property
	scratch string
	env     []string
	prefix  []string
}

type childEnd struct {
	res    *result
	code   int // exit code, or -signal
	stderr string
	stuck  bool // ended by watch
}

// watch ends a child whose own watchdog does not run any more: no thread of it can.
func (r *runner) watch(beat string, pid int, stuck *atomic.Bool, ended chan bool) {
	const still = 90 // seconds
	last := time.Time{}
	for n := 0; n < still; n++ {
		select {
		case <-ended:
			return
		case <-time.After(time.Second):
		}
		if s, err := os.Stat(beat); err == nil && s.ModTime() != last {
			last, n = s.ModTime(), 0
		}
	}
	stuck.Store(true)
	syscall.Kill(-pid, syscall.SIGKILL)
}

func (r *runner) child(id, arm, seed, n, cur string) childEnd {
	out := filepath.Join(r.scratch, "out-"+id)
	work := filepath.Join(r.scratch, "work-"+id)
	os.MkdirAll(work, 0755)
	defer os.RemoveAll(work)
	self, _ := os.Executable()
	argv := append(append([]string{}, r.prefix...), self, "child", arm, seed, n, cur, out)
	// RLIMIT_AS: a runaway allocation ends the child, not the sandbox
	limit := []string{"prlimit", "--as=8589934592", "--core=0", "--fsize=2147483648"}
	if r.p.Race { // the detector maps terabytes
		limit = append(limit[:1], limit[2:]...)
	}
	argv = append(limit, argv...)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = work
	cmd.Env = append(append(os.Environ(), "VERIF_SCRATCH="+work, "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0"), r.env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	errFile, err := os.Create(out + ".err")
	if err != nil {
		return childEnd{code: exitHarness, stderr: err.Error()}
	}
	cmd.Stderr = errFile
	runtime.LockOSThread() // Pdeathsig is about this thread
	var stuck atomic.Bool
	os.WriteFile(out+".beat", nil, 0644)
	if err = cmd.Start(); err == nil {
		ended := make(chan bool)
		go r.watch(out+".beat", cmd.Process.Pid, &stuck, ended)
		err = cmd.Wait()
		close(ended)
	}
	runtime.UnlockOSThread()
	if cmd.Process != nil {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // leftovers of the group
	}
	errFile.Close()
	eb, _ := os.ReadFile(out + ".err")
	mine := bytes.Contains(eb, []byte("WARNING: DATA RACE")) && !bytes.Contains(eb, []byte("Ptt-official-app/go-bbs"))
	if len(eb) > 4000 {
		eb = append(eb[:2000:2000], eb[len(eb)-2000:]...)
	}
	e := childEnd{stderr: string(eb)}
	if stuck.Load() {
		e.code, e.stuck = exitHang, true
		e.stderr += "hang: the whole process stands still\n"
		return e
	}
	if err != nil {
		e.code = 2
		if ee, ok := err.(*exec.ExitError); ok {
			e.code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				e.code = -int(ws.Signal())
			}
		}
		if mine {
			e.code = exitHarness
		}
		return e
	}
	jb, err := os.ReadFile(out + ".json")
	if err != nil {
		e.code = 2
		e.stderr += err.Error()
		return e
	}
	e.res = &result{}
	if err := json.Unmarshal(jb, e.res); err != nil {
		e.code = 2
		e.stderr += err.Error()
		return e
	}
	hb, _ := os.ReadFile(out + ".hash")
	for i := 0; i+8 <= len(hb); i += 8 {
		e.res.Hashes = append(e.res.Hashes, binary.LittleEndian.Uint64(hb[i:]))
	}
	return e
}

// died reports whether the child was ended by what the code under test did.
// SIGKILL is the sandbox running out of memory, never a verdict.
func (e childEnd) died() bool {
	return e.code != 0 && e.code != exitHarness && e.code != -int(syscall.SIGKILL) && e.code != -int(syscall.SIGTERM) && e.code != -int(syscall.SIGINT)
}

func parentMain(p Property) {
	start := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF_SEED:", err)
			os.Exit(2)
		}
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	evidenceDir := os.Getenv("VERIF_EVIDENCE")
	if evidenceDir == "" {
		evidenceDir = "evidence"
	}
	scratch, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	exit := func(code int) {
		os.RemoveAll(scratch)
		os.Exit(code)
	}
	r := &runner{p: p, scratch: scratch}
	if p.Prepare != nil {
		env, err := p.Prepare(scratch)
		if err != nil {
			fmt.Fprintln(os.Stderr, "prepare:", err)
			exit(2)
		}
		r.env = env
	}
	if p.Wrap != nil {
		r.prefix = p.Wrap()
	}

	var jobs []job
	for ai, a := range p.Arms {
		n, shards := a.Quick, 1
		if tier == "thorough" {
			n = a.Thorough
			if !p.Serial {
				shards = 8
			}
		} else if !p.Serial && len(p.Arms) <= 4 && n >= 64 {
			shards = 8 / len(p.Arms)
		}
		if v, err := strconv.Atoi(os.Getenv("VERIF_PERCENT")); err == nil { // of the cases, for tools/mutate.py
			n = max(1, n*v/100)
		}
		for s := 0; s < shards; s++ {
			m := n / shards
			if s < n%shards {
				m++
			}
			if m == 0 {
				continue
			}
			h := fnv.New64a()
			fmt.Fprintf(h, "%d/%s/%d/%d", seed, a.Name, ai, s)
			sd := h.Sum64() &^ (1 << 63)
			if sd == 0 {
				sd = 1
			}
			jobs = append(jobs, job{a, sd, m, len(jobs)})
		}
	}

	workers := 8
	if p.Serial {
		workers = 1
	}
	ends := make([]childEnd, len(jobs))
	var wg sync.WaitGroup
	ch := make(chan job)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				ends[j.id] = r.child(fmt.Sprint(j.id), j.arm.Name, fmt.Sprint(j.seed), fmt.Sprint(j.n), filepath.Join(scratch, fmt.Sprintf("cur-%d", j.id)))
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()

	total := result{Labels: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	perArm := map[string]map[string]int64{}
	var samples []any
	type verdict struct {
		arm  Arm
		f    failure
		job  job
		died bool
		once bool // it may be due to the machine
	}
	var verdicts []verdict
	broken := ""
	for _, j := range jobs {
		e := ends[j.id]
		if e.res == nil {
			if !e.died() {
				broken = fmt.Sprintf("arm %s: exit %d\n%s", j.arm.Name, e.code, e.stderr)
				continue
			}
			// The case it died in is in the cur file: run that alone
			cb, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("cur-%d", j.id)))
			if err != nil || len(cb) < 8 || uint64(len(cb)-8) < binary.LittleEndian.Uint64(cb) {
				broken = fmt.Sprintf("arm %s: exit %d before the first case\n%s", j.arm.Name, e.code, e.stderr)
				continue
			}
			raw := cb[8 : 8+binary.LittleEndian.Uint64(cb)]
			verdicts = append(verdicts, verdict{j.arm, failure{Raw: raw, Msg: fmt.Sprintf("the process ended (exit %d) while it ran this case:\n%s", e.code, e.stderr)}, j, true, !j.arm.Racy || e.stuck})
			continue
		}
		total.Evals += e.res.Evals
		total.NT += e.res.NT
		pa := perArm[j.arm.Name]
		if pa == nil {
			pa = map[string]int64{}
			perArm[j.arm.Name] = pa
		}
		pa["evaluations"] += e.res.Evals
		pa["nontrivial"] += e.res.NT
		for l, n := range e.res.Labels {
			total.Labels[j.arm.Name+": "+l] += n
		}
		for _, h := range e.res.Hashes {
			distinct[h] = struct{}{}
		}
		if pa["samples"] < 2 {
			for _, s := range e.res.Samples {
				if pa["samples"] < 2 {
					samples = append(samples, map[string]any{"arm": j.arm.Name, "case": s})
					pa["samples"]++
				}
			}
		}
		if e.res.Fail != nil {
			verdicts = append(verdicts, verdict{j.arm, *e.res.Fail, j, false, !j.arm.Racy})
		}
	}
	for _, pa := range perArm {
		delete(pa, "samples")
	}

	// Confirm each verdict by running the saved case alone in a fresh process
	violations := 0
	replayPath := ""
	sort.SliceStable(verdicts, func(a, b int) bool { return len(verdicts[a].f.Raw) < len(verdicts[b].f.Raw) })
	for i, v := range verdicts {
		if violations > 0 {
			break
		}
		one := filepath.Join(scratch, fmt.Sprintf("one-%d", i))
		if err := os.WriteFile(one, v.f.Raw, 0644); err != nil {
			broken = err.Error()
			continue
		}
		e := r.child(fmt.Sprintf("one-%d", i), v.arm.Name, "1", "one", one)
		confirmed := e.died() || (e.res != nil && e.res.Fail != nil)
		replay := map[string]any{"property": p.ID, "arm": v.arm.Name, "case": json.RawMessage(v.f.Raw)}
		if !confirmed && v.once {
			// It needs the cases before it: the replay is the whole run of generated cases
			e = r.child(fmt.Sprintf("again-%d", i), v.arm.Name, fmt.Sprint(v.job.seed), fmt.Sprint(v.job.n), one+"-again")
			if !e.died() && (e.res == nil || e.res.Fail == nil) && v.died {
				// the second run did all of the cases: what ended the first one was the machine
				fmt.Fprintf(os.Stderr, "arm %s: the process ended once, and not again with the same cases: %.300s\n%s\n", v.arm.Name, v.f.Raw, v.f.Msg)
				if e.res != nil {
					total.Evals += e.res.Evals
					total.NT += e.res.NT
					if perArm[v.arm.Name] == nil {
						perArm[v.arm.Name] = map[string]int64{}
					}
					perArm[v.arm.Name]["evaluations"] += e.res.Evals
					perArm[v.arm.Name]["nontrivial"] += e.res.NT
					for _, h := range e.res.Hashes {
						distinct[h] = struct{}{}
					}
				}
				continue
			}
			replay["seed"], replay["checks"] = v.job.seed, v.job.n
		}
		msg := v.f.Msg
		if e.res != nil && e.res.Fail != nil {
			msg = e.res.Fail.Msg
		}
		replay["why"] = msg
		violations++
		dir := filepath.Join(evidenceDir, "replay")
		os.MkdirAll(dir, 0755)
		replayPath = filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d.json", p.ID, strings.ReplaceAll(v.arm.Name, " ", "-"), seed))
		b, _ := json.MarshalIndent(replay, "", " ")
		if err := os.WriteFile(replayPath, append(b, '\n'), 0644); err != nil {
			broken = err.Error()
		}
		if len(msg) > 1500 {
			msg = msg[:1500]
		}
		fmt.Printf("arm %s rejected a case: %s\n", v.arm.Name, msg)
		c := string(v.f.Raw)
		if len(c) > 1500 {
			c = c[:1500] + "..."
		}
		fmt.Printf("case: %s\n", c)
	}

	if len(samples) == 0 && violations == 0 && broken == "" {
		samples = append(samples, "every non-trivial case was too long to print")
	}
	if violations == 0 && broken == "" && len(distinct) == 0 {
		broken = "no non-trivial case was generated"
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations":         total.Evals,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"arms":                perArm,
			"classes":             total.Labels,
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if broken != "" {
		ev["error"] = broken
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(evidenceDir, 0755)
		err = os.WriteFile(filepath.Join(evidenceDir, p.ID+".json"), append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		if violations == 0 {
			exit(2)
		}
	}
	if violations > 0 {
		abs, err := filepath.Abs(replayPath)
		if err != nil {
			abs = replayPath
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, abs)
		exit(1)
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, broken)
		exit(2)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs\n", p.ID, tier, seed, total.Evals, len(distinct), time.Since(start).Seconds())
	exit(0)
}

func replayMain(p Property, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf struct {
		Property string          `json:"property"`
		Arm      string          `json:"arm"`
		Case     json.RawMessage `json:"case"`
		Seed     uint64          `json:"seed"`
		Checks   int             `json:"checks"`
	}
	if err := json.Unmarshal(b, &rf); err != nil || rf.Property != p.ID {
		fmt.Fprintln(os.Stderr, "not a replay file of", p.ID, err)
		os.Exit(2)
	}
	scratch, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := &runner{p: p, scratch: scratch}
	code := func() int {
		defer os.RemoveAll(scratch)
		if p.Prepare != nil {
			if r.env, err = p.Prepare(scratch); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
		}
		if p.Wrap != nil {
			r.prefix = p.Wrap()
		}
		arm := findArm(p, rf.Arm)
		one := filepath.Join(scratch, "one")
		if err := os.WriteFile(one, rf.Case, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var e childEnd
		if rf.Checks > 0 {
			e = r.child("replay", arm.Name, fmt.Sprint(rf.Seed), fmt.Sprint(rf.Checks), one)
		} else {
			e = r.child("replay", arm.Name, "1", "one", one)
		}
		switch {
		case e.died():
			fmt.Printf("exit %d\n%s\n", e.code, e.stderr)
		case e.res == nil:
			fmt.Fprintln(os.Stderr, "error:", e.code, e.stderr)
			return 2
		case e.res.Fail != nil:
			fmt.Println(e.res.Fail.Msg)
		default:
			fmt.Println("the case passes")
			return 0
		}
		abs, _ := filepath.Abs(file)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, abs)
		return 1
	}()
	os.Exit(code)
}
