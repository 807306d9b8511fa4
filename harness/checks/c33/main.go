// C33: a shared region keeps its contents and is the same to everyone who opens it.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"syscall"

	"verif/harness/gen"
	"verif/harness/kit"

	"github.com/Ptt-official-app/go-bbs/cache"
	"pgregory.net/rapid"
)

const (
	opCreate = iota
	opOpen
	opStore
	opClose
	opRemove
	opBad
	opCollect
)

type op struct {
	Kind   int
	Region int
	Handle int
	Form   int
	Size   int
	Off    int
	Data   []byte
	Bad    string
}

// history works on up to three file regions and, where they are available, two
// System V ones
type history struct {
	Names []string
	Ops   []op
}

func draw(t *rapid.T) history {
	c := history{Names: rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"bbs.shm", "a:b", "x", "shmkey:1", "%s", "a b", "::", "file", "shmkey"}), 1, 3, rapid.ID).Draw(t, "names")}
	c.Ops = gen.ListOf(rapid.Custom(func(t *rapid.T) op {
		o := op{Kind: rapid.SampledFrom([]int{opCreate, opCreate, opOpen, opOpen, opStore, opStore, opStore, opClose, opRemove, opBad, opCollect}).Draw(t, "kind"),
			Region: gen.Num(0, len(c.Names)+1).Draw(t, "region"), Handle: gen.Num(0, 30).Draw(t, "handle"), Form: rapid.IntRange(0, 2).Draw(t, "form")}
		switch o.Kind {
		case opCreate:
			o.Size = rapid.OneOf(gen.Num(1, 64), rapid.SampledFrom([]int{1, 4095, 4096, 4097, 8192, 70000}), gen.Num(1, 20000)).Draw(t, "size")
		case opStore:
			o.Off = rapid.OneOf(gen.Num(0, 63), gen.Num(0, 1<<17)).Draw(t, "off")
			o.Data = gen.Bytes(40).Draw(t, "data")
		case opBad:
			o.Bad = rapid.OneOf(
				rapid.SampledFrom([]string{"", ":", "shmkey:", "shmkey:x", "shmkey:0x10", "shmkey:1.5", "shmkey: 1", "shmkey:1 ", "shmkey:99999999999999999999", "file:", "file:/nonexistent/x", "/nonexistent/x", "http://x", "SHMKEY:1", "shm:1", "File:/tmp", ":1", "key:1"}),
				// with the path or the key of a region which may be there
				rapid.SampledFrom([]string{"http:%p", "mmap:%p", "FILE:%p", ":%p", "shmkey:%p", "shmkey:file:%p", "file:file:%p", "key:%k", "SHMKEY:%k", "shmkey:%kx", "shmkey: %k", "shm:%k", ":%k", "file:%k", "file:shmkey:%k", "shmkey:%k:0"}),
				rapid.Map(gen.Match(`[a-z]{1,8}`), func(s string) string { return s + "er:1" }),
			).Draw(t, "bad")
		}
		return o
	}), 6, 40, 100).Draw(t, "ops")
	return c
}

// region is one life of a region
type region struct {
	data []byte
}

type handle struct {
	c  cache.Cache
	r  *region
	ri int
}

var nextKey atomic.Int32

func shmctl(key int, remove bool) (id int, err error) {
	r, _, e := syscall.Syscall(syscall.SYS_SHMGET, uintptr(key), 0, 0)
	if e != 0 {
		return 0, e
	}
	if remove {
		syscall.Syscall(syscall.SYS_SHMCTL, r, 0, 0)
	}
	return int(r), nil
}

// freeKeys finds keys which nobody uses; ok is false where there is no System V shared memory
func freeKeys(n int) (keys []int, ok bool) {
	for tries := 0; len(keys) < n && tries < 1000; tries++ {
		k := 0x5a000000 | (os.Getpid()&0x3fff)<<10 | int(nextKey.Add(1))&0x3ff
		if nextKey.Load()%7 == 0 {
			k = -k
		}
		_, err := shmctl(k, false)
		if err == syscall.ENOSYS || err == syscall.EPERM || err == syscall.EACCES {
			return nil, false
		}
		if err == syscall.ENOENT {
			keys = append(keys, k)
		}
	}
	return keys, len(keys) == n
}

func check(c history, x *kit.X) error {
	keys, sysv := freeKeys(2)
	x.LabelIf(sysv, "with System V regions")
	total := len(c.Names)
	if sysv {
		total += 2
		defer func() {
			for _, k := range keys {
				shmctl(k, true)
			}
		}()
	}
	isKey := func(i int) bool { return i >= len(c.Names) }
	path := func(i int) string { return filepath.Join(x.Dir(), c.Names[i]) }
	live := make([]*region, total)
	var handles []handle
	defer func() {
		for _, h := range handles {
			h.c.Close()
		}
	}()
	shared, reopened := false, false
	lives := map[*region]int{}
	open := func(i, form int) (cache.Cache, string, error) {
		if isKey(i) {
			k := keys[i-len(c.Names)]
			if form == 0 {
				s, err := cache.OpenKey(k)
				if s == nil {
					return nil, fmt.Sprint("key ", k), err
				}
				return s, fmt.Sprint("key ", k), err
			}
			s := fmt.Sprintf("shmkey:%d", k)
			if form == 2 && k > 0 {
				s = fmt.Sprintf("shmkey:0%d", k)
			}
			h, err := cache.NewCache(s)
			return h, s, err
		}
		p := path(i)
		plain := form == 2 && !bytes.ContainsRune([]byte(p), ':')
		switch {
		case form == 0:
			m, err := cache.OpenMmap(p)
			if m == nil {
				return nil, p, err
			}
			return m, p, err
		case plain:
			h, err := cache.NewCache(p)
			return h, p, err
		}
		h, err := cache.NewCache("file:" + p)
		return h, "file:" + p, err
	}
	agree := func(at string) error {
		for n, h := range handles {
			b := h.c.Bytes()
			if len(b) != len(h.r.data) {
				return fmt.Errorf("%s: opening %d of region %d has %d bytes instead of %d", at, n, h.ri, len(b), len(h.r.data))
			}
			if !bytes.Equal(b, h.r.data) {
				for i := range b {
					if b[i] != h.r.data[i] {
						return fmt.Errorf("%s: opening %d of region %d has %d at offset %d of %d, instead of %d", at, n, h.ri, b[i], i, len(b), h.r.data[i])
					}
				}
			}
		}
		for i, r := range live {
			if r != nil && !isKey(i) {
				if b := kit.ReadFile(path(i)); !bytes.Equal(b, r.data) {
					return fmt.Errorf("%s: the file of region %d does not hold what was stored (%d bytes of %d)", at, i, len(b), len(r.data))
				}
			}
		}
		return nil
	}
	for n, o := range c.Ops {
		i := o.Region % total
		at := fmt.Sprintf("op %d", n)
		switch o.Kind {
		case opCreate, opOpen:
			if o.Kind == opCreate && live[i] == nil {
				var h cache.Cache
				var err error
				if isKey(i) {
					h, err = cache.CreateKey(keys[i-len(c.Names)], o.Size)
				} else {
					h, err = cache.CreateMmap(path(i), int64(o.Size))
				}
				if err != nil {
					return fmt.Errorf("%s: creating region %d of %d bytes: %w", at, i, o.Size, err)
				}
				live[i] = &region{data: make([]byte, o.Size)}
				handles = append(handles, handle{h, live[i], i})
				break
			}
			h, name, err := open(i, o.Form)
			if live[i] == nil {
				if err == nil {
					return fmt.Errorf("%s: %q is opened although there is no such region", at, name)
				}
				break
			}
			if err != nil {
				return fmt.Errorf("%s: opening %q: %w", at, name, err)
			}
			handles = append(handles, handle{h, live[i], i})
			reopened = reopened || lives[live[i]] > 0
		case opStore:
			if len(handles) == 0 {
				break
			}
			h := handles[o.Handle%len(handles)]
			off := o.Off % len(h.r.data)
			b := h.c.Bytes()
			if len(b) != len(h.r.data) {
				return agree(at)
			}
			copy(b[off:], o.Data)
			copy(h.r.data[off:], o.Data)
			same := 0
			for _, g := range handles {
				if g.r == h.r {
					same++
				}
			}
			shared = shared || same > 1 && len(o.Data) > 0
			lives[h.r]++
		case opClose:
			if len(handles) == 0 {
				break
			}
			k := o.Handle % len(handles)
			if err := handles[k].c.Close(); err != nil {
				return fmt.Errorf("%s: closing: %w", at, err)
			}
			handles = append(handles[:k:k], handles[k+1:]...)
		case opRemove:
			var err error
			if isKey(i) {
				err = cache.RemoveKey(keys[i-len(c.Names)])
			} else {
				err = cache.RemoveMmap(path(i))
			}
			if (err == nil) != (live[i] != nil) {
				return fmt.Errorf("%s: removing region %d, which is there: %v, gives %v", at, i, live[i] != nil, err)
			}
			live[i] = nil
			for form := 0; form < 3; form++ {
				if _, name, err := open(i, form); err == nil {
					return fmt.Errorf("%s: %q is opened after it was removed", at, name)
				}
			}
		case opBad:
			bad := strings.ReplaceAll(o.Bad, "%p", path(o.Region%len(c.Names)))
			if sysv {
				bad = strings.ReplaceAll(bad, "%k", fmt.Sprint(keys[o.Region%2]))
			}
			if h, err := cache.NewCache(bad); err == nil {
				return fmt.Errorf("%s: %q is opened: %d bytes", at, bad, len(h.Bytes()))
			}
		case opCollect: // what is in use is not taken away
			if o.Form == 0 {
				runtime.GC()
				runtime.GC()
			}
		}
		if err := agree(at); err != nil {
			return err
		}
	}
	x.NonTrivial(shared)
	x.LabelIf(reopened, "opened again after storing")
	return nil
}

// faulty creates, opens, uses and removes a region while one system call after the other fails
type faulty struct {
	Key   bool // System V
	Form  int
	Size  int
	Errno int
	Data  []byte
}

func drawFaulty(t *rapid.T) faulty {
	return faulty{rapid.Bool().Draw(t, "key"), rapid.IntRange(0, 2).Draw(t, "form"), rapid.OneOf(gen.Num(1, 64), gen.Num(1, 20000)).Draw(t, "size"),
		rapid.SampledFrom([]int{int(syscall.EACCES), int(syscall.ENOMEM), int(syscall.EINVAL), int(syscall.EIO), int(syscall.ENOSPC), int(syscall.EPERM)}).Draw(t, "errno"), gen.Bytes(40).Draw(t, "data")}
}

func checkFaulty(c faulty, x *kit.X) error {
	dir, err := filepath.EvalSymlinks(x.Dir())
	kit.Must(err)
	p, key := dir+"/region", 0
	if c.Key {
		keys, sysv := freeKeys(1)
		if !sysv {
			x.Label("no System V regions")
			return nil
		}
		key = keys[0]
		defer shmctl(key, true)
	}
	there := func() bool {
		if c.Key {
			_, err := shmctl(key, false)
			return err == nil
		}
		_, err := os.Stat(p)
		return err == nil
	}
	remove := func() error {
		if c.Key {
			return cache.RemoveKey(key)
		}
		return cache.RemoveMmap(p)
	}
	open := func(create bool) (h cache.Cache, err error) {
		switch {
		case create && c.Key:
			return cache.CreateKey(key, c.Size)
		case create:
			return cache.CreateMmap(p, int64(c.Size))
		case c.Key && c.Form == 0:
			return cache.OpenKey(key)
		case c.Key:
			return cache.NewCache(fmt.Sprintf("shmkey:%d", key))
		case c.Form == 0:
			return cache.OpenMmap(p)
		case c.Form == 1:
			return cache.NewCache("file:" + p)
		}
		return cache.NewCache(p)
	}
	// with lets the n-th system call of f fail; done is false when there is none
	with := func(n int, f func()) (call string, done bool) {
		err := kit.Faults(dir, func(i int, k kit.Call) syscall.Errno {
			if i != n {
				return 0
			}
			call, done = k.Name, true
			return syscall.Errno(c.Errno)
		}, f)
		if err != nil {
			x.Label("no faults: " + err.Error())
		}
		return call, done
	}
	want := make([]byte, c.Size)
	failed := 0
	for _, create := range []bool{true, false} {
		for n, more := 0, true; more; n++ {
			if create {
				remove()
				if there() {
					return fmt.Errorf("a region of %d bytes is there after it was removed", c.Size)
				}
			}
			var h cache.Cache
			var err error
			call, done := with(n, func() { h, err = open(create) })
			what := map[bool]string{true: "created", false: "opened"}[create]
			if more = done; done {
				what += fmt.Sprintf(" while %s fails with %v", call, syscall.Errno(c.Errno))
			}
			if err != nil {
				if !done {
					return fmt.Errorf("a region cannot be %s: %w", what, err)
				}
				failed++
				continue
			}
			b := h.Bytes()
			if !bytes.Equal(b, want) {
				return fmt.Errorf("a region of %d bytes, %s without an error, has %d bytes or other ones", c.Size, what, len(b))
			}
			copy(b, c.Data)
			o, err := open(false)
			if err != nil {
				return fmt.Errorf("a region which was %s cannot be opened: %w", what, err)
			}
			if !bytes.Equal(o.Bytes(), b) {
				return fmt.Errorf("a region which was %s is another one when opened", what)
			}
			copy(b, want)
			for _, h := range []cache.Cache{o, h} {
				if err := h.Close(); err != nil {
					return fmt.Errorf("closing a region which was %s: %w", what, err)
				}
			}
		}
	}
	for n, more := 0, true; more; n++ {
		var err error
		call, done := with(n, func() { err = remove() })
		if more = done; (err == nil) == there() {
			return fmt.Errorf("removing a region (%q failed, if any, with %v) gives %v, and it is there: %v", call, syscall.Errno(c.Errno), err, there())
		}
		if err != nil {
			failed++
		} else {
			more = false
		}
	}
	x.NonTrivial(failed > 2)
	return nil
}

func main() {
	kit.Main(kit.Property{
		ID:          "C33",
		Rule:        "a case is a history of creating, opening (in three forms), storing, closing and removing up to three file and two System V regions, with bad connection strings in between; after each step every opening and every file is compared with the model; or a region which is created, opened and removed while one system call after the other fails. It is non-trivial when something was stored in a region with two openings at the time",
		Assumptions: []string{"a region is created only while it does not exist; System V keys are picked from the process id and removed afterwards"},
		Arms: []kit.Arm{
			kit.NewArm("regions", 4000, 120000, draw, check),
			kit.NewArm("failing calls", 200, 8000, drawFaulty, checkFaulty),
			kit.Together(30, 1500, draw, check),
		},
	})
}
