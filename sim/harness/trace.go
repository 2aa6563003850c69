package main

import (
	"fmt"
	"os"
)

var traceOn bool
var traceBuf []byte

// trace notes what happens. It may be called from simulated goroutines, which
// must not enter the kernel: flushTrace prints what was noted.
func trace(f string, a ...any) {
	if traceOn {
		traceBuf = fmt.Appendf(traceBuf, f+"\n", a...)
	}
}

func flushTrace() {
	os.Stderr.Write(traceBuf)
	traceBuf = nil
}
