// Command zz_verif drives the real library as the specification's environment would.
// A script comes on standard input, the result goes to file descriptor VERIF_FD as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"strconv"
	"time"
)

var modes = map[string]func(script []byte) interface{}{}

var resultFile *os.File

func main() {
	fd, _ := strconv.Atoi(os.Getenv("VERIF_FD"))
	resultFile = os.NewFile(uintptr(fd), "result")
	mode := os.Getenv("VERIF_MODE")
	f, ok := modes[mode]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown mode", mode)
		os.Exit(9)
	}
	script, err := ioutil.ReadAll(os.Stdin)
	must(err)
	emit(f(script))
	os.Exit(0)
}

func emit(res interface{}) {
	bs, err := json.Marshal(res)
	must(err)
	resultFile.Write(bs)
	resultFile.Close()
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(9)
	}
}

func parse(script []byte, v interface{}) {
	must(json.Unmarshal(script, v))
}

// stacks returns the stacks of all goroutines.
func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// within runs f and reports whether it returned in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		f()
		close(done)
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

// guard runs f and returns what it panicked with.
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint("panic: ", r)
		}
	}()
	f()
	return ""
}
