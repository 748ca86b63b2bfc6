package ctl

import (
	"syscall"
	"unsafe"
)

// Mono is the machine's monotonic clock in ns, the same in every process.
func Mono() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}
