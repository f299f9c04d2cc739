package confs

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/chanjarster/gears/simplelog"
)

type fatal string // what was logged fatally

// fatalWriter panics instead of letting the process exit.
type fatalWriter struct{}

func (fatalWriter) Write(p []byte) (int, error) {
	var pcs [16]uintptr
	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic(fatal(p))
		}
		if !more {
			return len(p), nil
		}
	}
}

// constructed runs a constructor; failed says how it failed, by panicking or by
// ending the process.
func constructed(f func()) (failed string) {
	simplelog.ErrLogger.SetOutput(fatalWriter{})
	defer func() {
		switch r := recover().(type) {
		case nil:
		case fatal:
			failed = "fatal: " + string(r)
		case runtime.Error:
			panic(r)
		default:
			failed = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return ""
}

// eventually waits until f holds, at most d.
func eventually(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); ; time.Sleep(200 * time.Microsecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
	}
}
