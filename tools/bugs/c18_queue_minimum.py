ID, PROP = 'c18-queue-minimum', 'C18'
NEEDS = 'a queue size below the default'
BREAKS = 'a queue size below 1000 is replaced by 1000'
EDITS = [('internal/output_base.go', '\tif mr <= 0 {\n\t\tmr = queueMinSize\n', '\tif mr < queueMinSize {\n\t\tmr = queueMinSize\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"

	"github.com/xtfly/log4g/internal"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
func main() {
	if n := internal.GetQueueSize("10"); n != 10 {
		bad(n)
	}
}
'''
