// Package zsyscall stands in for package syscall in the instrumentation: a
// harness provides the readings.
package zsyscall

import "syscall"

type (
	Rusage  = syscall.Rusage
	Timeval = syscall.Timeval
	Errno   = syscall.Errno
)

const (
	RUSAGE_SELF = syscall.RUSAGE_SELF
	EINTR       = syscall.EINTR
	EINVAL      = syscall.EINVAL
)

// Hook provides the readings.
var Hook func(who int, ru *Rusage) error

func Getrusage(who int, ru *Rusage) error {
	if Hook == nil {
		*ru = Rusage{}
		return nil
	}
	return Hook(who, ru)
}
