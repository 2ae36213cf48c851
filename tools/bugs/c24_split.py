ID, PROP = 'c24-split', 'C24'
NEEDS = 'a record longer than 4096 bytes, and the process killed while it is written'
BREAKS = 'a large record is written to the file in pieces, so that a part of it may remain'
EDITS = [('internal/output_rollingwriter.go', '''	n, err = rw.currentFile.Write(bytes)
	rw.currentFileSize += int64(n)
	return n, err
''', '''	for len(bytes) > 0 && err == nil {
		k, part := 0, bytes
		if len(part) > 4096 {
			part = part[:4096]
		}
		k, err = rw.currentFile.Write(part)
		rw.currentFileSize += int64(k)
		n += k
		bytes = bytes[k:]
	}
	return n, err
''')]
DEMO = r'''package main

// A record has to reach the file in one write: between two the process may be killed.

import (
	"fmt"
	"io/ioutil"
	"os"
	"strings"

	"github.com/xtfly/log4g/api"
	"github.com/xtfly/log4g/internal"
)

func writes() int {
	b, err := ioutil.ReadFile("/proc/self/io")
	if err != nil {
		panic(err)
	}
	n := 0
	for _, l := range strings.Split(string(b), "\n") {
		fmt.Sscanf(l, "syscw: %d", &n)
	}
	return n
}

func main() {
	f, err := internal.NewTextFormatter(api.CfgFormat{"name": "f", "type": "text", "layout": "%{msg}"})
	if err != nil {
		panic(err)
	}
	o, err := internal.NewRollingOutput(api.CfgOutput{"name": "o", "type": "size_rolling_file", "file": "f"})
	if err != nil {
		panic(err)
	}
	o.SetFormatter(f)
	msg := func(n int) int {
		e := &api.Event{Format: strings.Repeat("x", n), Level: api.Error}
		from := writes()
		o.Send(e)
		return writes() - from
	}
	msg(10)
	if a, b := msg(10), msg(10000); a != b {
		fmt.Println("a short record takes", a, "writes, a long one", b)
		os.Exit(1)
	}
}
'''
