ID, PROP = 'c07-skip-accumulates', 'C07'
NEEDS = 'the caller skip set more than once'
BREAKS = 'setting the caller skip adds to the one set before'
EDITS = [('internal/logger.go', '\tl.callerSkip = callerSkip + skip\n', '\tl.callerSkip += skip\n')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"strings"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
func helper(l api.Logger) {
	l.Info("m") // helper line
}

func main() {
	f, err := ioutil.TempFile("", "out")
	must(err)
	defer os.Remove(f.Name())
	os.Stdout = f
	must(log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{shortfunc}\n"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "console", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "a", Level: "all", OutputNames: []string{"x"}}},
	}))
	l := log4g.GetLogger("a")
	l.SetCallerSkip(1)
	helper(l)
	l.SetCallerSkip(0)
	helper(l)
	b, _ := ioutil.ReadFile(f.Name())
	if strings.TrimSpace(string(b)) != "main\nhelper" {
		fmt.Fprintf(os.Stderr, "%q\n", b)
		os.Exit(1)
	}
}
'''
