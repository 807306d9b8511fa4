package kit

import (
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"
)

// DropPowers makes the modes of files apply to this thread even if it is root's. It is not undone, so
// it is for threads which end soon.
func DropPowers() {
	head, none := [2]uint32{0x20080522, 0}, [6]uint32{}
	syscall.RawSyscall(syscall.SYS_CAPSET, uintptr(unsafe.Pointer(&head)), uintptr(unsafe.Pointer(&none)), 0)
}

// Powerless runs f in a thread of its own to which the modes of files apply. Panics of f are passed on.
func Powerless(f func()) {
	var p any
	done := make(chan bool)
	go func() {
		runtime.LockOSThread() // and never unlocked: the thread ends
		defer close(done)
		defer func() { p = recover() }()
		debug.SetPanicOnFault(true)
		DropPowers()
		f()
	}()
	<-done
	if p != nil {
		panic(p)
	}
}
