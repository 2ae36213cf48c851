ID, PROP = 'c02-console-async-threshold', 'C02'
NEEDS = 'an asynchronous console output with a threshold'
BREAKS = 'an asynchronous console output ignores its threshold'
EDITS = [('internal/output_console.go', 'NewAsyncOutput(os.Stdout, GetThresholdLvl(cfg["threshold"]),', 'NewAsyncOutput(os.Stdout, api.All,')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
func main() {
	f, err := ioutil.TempFile("", "out")
	must(err)
	defer os.Remove(f.Name())
	os.Stdout = f
	must(log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "console", "format": "f", "threshold": "warn", "async": "true"}},
		Loggers: []api.CfgLogger{{Name: "a", Level: "all", OutputNames: []string{"x"}}},
	}))
	l := log4g.GetLogger("a")
	l.Info("low")
	l.Warn("high")
	log4g.GetManager().Close()
	b, _ := ioutil.ReadFile(f.Name())
	if string(b) != "high\n" {
		fmt.Fprintf(os.Stderr, "%q\n", b)
		os.Exit(1)
	}
}
'''
