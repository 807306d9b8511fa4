package kit

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Call is a system call of the code under test on a file below the directory, or on System V shared
// memory
type Call struct {
	Name string
	File string
}

// what is looked at, on amd64
var faultCalls = map[int32]string{
	0: "read", 17: "pread", 19: "readv", 295: "preadv", 217: "getdents",
	1: "write", 18: "pwrite", 20: "writev", 296: "pwritev", 77: "ftruncate", 8: "lseek", 5: "fstat", 74: "fsync", 75: "fdatasync", 285: "fallocate",
	326: "copy_file_range", 40: "sendfile", 275: "splice",
	257: "openat", 262: "fstatat", 76: "truncate", 82: "rename", 264: "renameat", 316: "renameat2", 87: "unlink", 263: "unlinkat", 83: "mkdir", 258: "mkdirat",
	9: "mmap", 29: "shmget", 30: "shmat", 31: "shmctl", 67: "shmdt",
}

// where the path of a call is, for those which have one; the others have a file descriptor first
var pathArg = map[string]int{"openat": 1, "fstatat": 1, "truncate": 0, "rename": 0, "renameat": 1, "renameat2": 1, "unlink": 0, "unlinkat": 1, "mkdir": 0, "mkdirat": 1}

const (
	notifRecv = 0xc0502100
	notifSend = 0xc0182101
)

type notif struct {
	ID         uint64
	Pid, Flags uint32
	Nr         int32
	Arch       uint32
	IP         uint64
	Args       [6]uint64
}

type notifResp struct {
	ID    uint64
	Val   int64
	Error int32
	Flags uint32
}

// ErrNoFaults says that the kernel does not let us watch system calls
var ErrNoFaults = errors.New("system calls cannot be watched here")

// Faults runs f in a thread whose system calls on files below dir are passed to decide, in order; the
// error it returns is what the call fails with, 0 lets it through. Panics of f are passed on.
func Faults(dir string, decide func(n int, c Call) syscall.Errno, f func()) error {
	n := 0
	return Schedule(dir, []func(){f}, func(w []Waiting) (int, syscall.Errno) {
		n++
		return 0, decide(n-1, w[0].Call)
	})
}

// Waiting is a thread which is about to do a call
type Waiting struct {
	Thread int
	Call
}

type thread struct {
	fd    int
	state int // running, waiting, done
	q     notif
	c     Call
}

const (
	running = iota
	waiting
	done
)

// Schedule runs each of fs in a thread of its own. Whenever all of them wait for a system call on a
// file below dir, pick chooses one of them (by its place in the list) which goes on, and an error the
// call has to fail with. A thread which waits for another one is left out.
func Schedule(dir string, fs []func(), pick func(w []Waiting) (int, syscall.Errno)) error {
	if runtime.GOARCH != "amd64" {
		return ErrNoFaults
	}
	var pipe [2]int
	Must(syscall.Pipe2(pipe[:], syscall.O_CLOEXEC))
	defer syscall.Close(pipe[0])
	defer syscall.Close(pipe[1])
	goEvent() // before a thread is watched
	ts := make([]thread, len(fs))
	panics := make([]any, len(fs))
	ok := make(chan bool)
	var failed error
	for i, f := range fs {
		ready := make(chan error)
		go func() {
			runtime.LockOSThread() // and never unlocked: the thread ends with its filter
			debug.SetPanicOnFault(true)
			var err error
			ts[i].fd, err = filter()
			ready <- err
			if err != nil || !<-ok {
				return
			}
			defer syscall.Write(pipe[1], []byte{byte(i)})
			defer func() { panics[i] = recover() }()
			f()
		}()
		if failed = <-ready; failed != nil {
			ts = ts[:i]
			break
		}
	}
	for _, t := range ts {
		ok <- failed == nil
		defer syscall.Close(t.fd)
	}
	if failed != nil {
		return ErrNoFaults
	}
	left := len(ts)
	for left > 0 {
		var ws []Waiting
		for i, t := range ts {
			if t.state == waiting {
				ws = append(ws, Waiting{i, t.c})
			}
		}
		if len(ws) == left {
			resume(ts, ws, pick)
			continue
		}
		some, ended := wait(ts, pipe[0], dir)
		for _, i := range ended {
			ts[i].state = done
			left--
		}
		if !some && len(ended) == 0 && len(ws) > 0 {
			resume(ts, ws, pick)
			continue
		}
	}
	for _, p := range panics {
		if p != nil {
			panic(p)
		}
	}
	return nil
}

// resume lets one of the waiting threads go on
func resume(ts []thread, ws []Waiting, pick func(w []Waiting) (int, syscall.Errno)) {
	i, e := pick(ws)
	ts[ws[i].Thread].answer(e)
}

func (t *thread) answer(e syscall.Errno) {
	a := notifResp{ID: t.q.ID, Flags: 1}
	if e != 0 {
		a.Flags, a.Error = 0, -int32(e)
	}
	t.state = running
	_, _, r := syscall.Syscall(syscall.SYS_IOCTL, uintptr(t.fd), notifSend, uintptr(unsafe.Pointer(&a)))
	if r != 0 && r != syscall.ENOENT {
		Harness(fmt.Errorf("seccomp: %w", r))
	}
}

// patience is how long a thread may take to its next call before it counts as one which waits for another
const patience = 20 * time.Millisecond

// wait for new calls of the threads, or the end of some
func wait(ts []thread, end int, dir string) (some bool, ended []int) {
	type pollFd struct {
		fd      int32
		ev, rev int16
	}
	ps := []pollFd{{int32(end), 1, 0}}
	var of []int
	for i, t := range ts {
		if t.state == running {
			ps = append(ps, pollFd{int32(t.fd), 1, 0})
			of = append(of, i)
		}
	}
	to := syscall.NsecToTimespec(int64(patience))
	r, _, e := syscall.Syscall6(syscall.SYS_PPOLL, uintptr(unsafe.Pointer(&ps[0])), uintptr(len(ps)), uintptr(unsafe.Pointer(&to)), 0, 0, 0)
	if e == syscall.EINTR {
		return true, nil
	}
	if e != 0 {
		Harness(fmt.Errorf("poll: %w", e))
	}
	if r == 0 {
		return false, nil
	}
	if ps[0].rev&1 != 0 {
		var b [64]byte
		n, _ := syscall.Read(end, b[:])
		for _, i := range b[:max(n, 0)] {
			ended = append(ended, int(i))
		}
	}
	for k, i := range of {
		t := &ts[i]
		if ps[k+1].rev&1 == 0 {
			continue
		}
		some = true
		t.q = notif{}
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(t.fd), notifRecv, uintptr(unsafe.Pointer(&t.q))); e != 0 {
			continue // a signal came first; the call is made again
		}
		var mine bool
		if t.c, mine = t.q.call(dir); mine {
			t.state = waiting
		} else {
			t.answer(0)
		}
	}
	return
}

// call tells whether it is on a file below dir
func (q notif) call(dir string) (Call, bool) {
	c := Call{Name: faultCalls[q.Nr]}
	switch c.Name {
	case "shmget", "shmat", "shmctl", "shmdt":
		return c, true
	case "mmap":
		c.File, _ = os.Readlink(fmt.Sprintf("/proc/self/fd/%d", int32(q.Args[4])))
		return c, strings.HasPrefix(c.File, dir+"/")
	}
	if i, ok := pathArg[c.Name]; ok {
		c.File = cString(q.Args[i])
	} else {
		c.File, _ = os.Readlink(fmt.Sprintf("/proc/self/fd/%d", int32(q.Args[0])))
	}
	return c, strings.HasPrefix(c.File, dir+"/")
}

// cString reads the memory of this very process; the thread which owns it waits
func cString(at uint64) string {
	buf := make([]byte, 0, 256)
	for len(buf) < 4096 {
		b := *(*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&at)))
		if b == 0 {
			break
		}
		buf = append(buf, b)
		at++
	}
	return string(buf)
}

// goEvent is the file descriptor with which Go's scheduler wakes the thread that waits for files
var goEvent = sync.OnceValue(func() uint32 {
	r, w, err := os.Pipe() // from now on there is one
	Must(err)
	r.Close()
	w.Close()
	fds, err := os.ReadDir("/proc/self/fd")
	Must(err)
	for _, fd := range fds {
		if to, _ := os.Readlink("/proc/self/fd/" + fd.Name()); to == "anon_inode:[eventfd]" {
			n, err := strconv.Atoi(fd.Name())
			Must(err)
			return uint32(n)
		}
	}
	return 0xffffffff
})

// filter makes the calls of this thread ask for permission
func filter() (int, error) {
	type insn struct {
		Code   uint16
		JT, JF uint8
		K      uint32
	}
	prog := []insn{{0x20, 0, 0, 0}} // load the number
	for nr, name := range faultCalls {
		unless := func(arg, value uint32) { // it is let through when this argument has that value
			prog = append(prog, insn{0x15, 0, 4, uint32(nr)}, insn{0x20, 0, 0, 16 + 8*arg}, insn{0x15, 1, 0, value},
				insn{0x06, 0, 0, 0x7fc00000}, insn{0x06, 0, 0, 0x7fff0000})
		}
		switch name {
		case "mmap": // of a file: the memory of the program itself has none
			unless(4, 0xffffffff)
			continue
		case "read", "write": // Go's scheduler may do these on its own event, while no other goroutine can run
			unless(0, goEvent())
			continue
		}
		prog = append(prog, insn{0x15, 0, 1, uint32(nr)}, insn{0x06, 0, 0, 0x7fc00000})
	}
	prog = append(prog, insn{0x06, 0, 0, 0x7fff0000})
	fprog := struct {
		Len uint16
		_   [6]byte
		P   *insn
	}{Len: uint16(len(prog)), P: &prog[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 { // no new privileges
		return 0, e
	}
	// a listener, and once it knows of a call only a fatal signal interrupts that
	fd, _, e := syscall.RawSyscall(317, 1, 1<<3|1<<5, uintptr(unsafe.Pointer(&fprog)))
	runtime.KeepAlive(prog)
	if e != 0 {
		return 0, e
	}
	return int(fd), nil
}
