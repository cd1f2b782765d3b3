package tr

import (
	"os"
	"runtime/debug"
	"syscall"
)

// limitMemory keeps a worker from taking the machine down with it: hostile
// input that makes the code allocate without bound ends the worker instead.
func limitMemory() {
	debug.SetGCPercent(50)

	if os.Getenv("ZV_RACE") != "" {
		return // the race detector maps its shadow far and wide
	}

	l := syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}

// CPU is the milliseconds of processor time that f takes.
func CPU(f func()) int {
	var s, t syscall.Rusage

	ms := func(v syscall.Timeval) int64 { return v.Sec*1000 + v.Usec/1000 }

	syscall.Getrusage(syscall.RUSAGE_SELF, &s)
	f()
	syscall.Getrusage(syscall.RUSAGE_SELF, &t)

	return int(ms(t.Utime) + ms(t.Stime) - ms(s.Utime) - ms(s.Stime))
}
