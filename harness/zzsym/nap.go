package zzsym

import (
	"syscall"
	"unsafe"
)

//go:norace
func rawNap(ts *syscall.Timespec) {
	syscall.RawSyscall(syscall.SYS_NANOSLEEP, uintptr(unsafe.Pointer(ts)), 0, 0)
}
