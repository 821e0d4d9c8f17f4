package main

import (
	"fmt"
	"os"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/rep"
)

// caseNo counts the cases started; the watchdog reads it.
var caseNo int64

// hangCPU is the processor time one small case may use before it is called a hang.
const hangCPU = 120 * time.Second

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano())
}

// begin marks the start of a case.
func begin(r *rep.Run, input string) {
	atomic.AddInt64(&caseNo, 1)
	r.Mark(input)
}

// startWatchdog ends the process when one case burns hangCPU of user time:
// processor time, not wall time, so a loaded machine cannot trip it.
func startWatchdog(r *rep.Run) {
	go func() {
		last := int64(-1)
		var since time.Duration
		for {
			time.Sleep(time.Second)
			n := atomic.LoadInt64(&caseNo)
			now := cpuTime()
			if n != last {
				last, since = n, now
				continue
			}
			if now-since > hangCPU && n > 0 {
				fmt.Fprintln(os.Stderr, "VH-HANG: one input has used more than", hangCPU, "of processor time")
				os.Exit(4)
			}
		}
	}()
}
