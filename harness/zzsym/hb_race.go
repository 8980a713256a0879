//go:build race

package zzsym

import (
	"runtime"
	"unsafe"
)

// What Quiesce waits for happens before its return.

//go:norace
func hbRelease(id int) { runtime.RaceReleaseMerge(unsafe.Pointer(&thrTok[id])) }

//go:norace
func hbAcquire(id int) { runtime.RaceAcquire(unsafe.Pointer(&thrTok[id])) }
