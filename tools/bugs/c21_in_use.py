ID, PROP = 'c21-in-use', 'C21'
NEEDS = 'an asynchronous output that the configuration in force no longer names, with messages waiting when the manager is closed'
BREAKS = 'only outputs of the present configuration are closed'
EDITS = [('internal/logger_manager.go', '''	for _, v := range m.outputs {
		v.Close()
	}
''', '''	for _, c := range m.config.Outputs {
		if v, ok := m.outputs[c.Name()]; ok {
			v.Close()
		}
	}
''')]
DEMO = r'''package main

import (
	"fmt"
	"io/ioutil"
	"os"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func main() {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	f := []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}"}}
	m := log4g.GetManager()
	if err = m.SetConfig(&api.Config{Formats: f,
		Outputs: []api.CfgOutput{{"name": "o", "type": "size_rolling_file", "file": d + "/a.log", "async": "true", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "a", Level: "all", OutputNames: []string{"o"}}}}); err != nil {
		panic(err)
	}
	log4g.GetLogger("a").Info("x")
	if err = m.SetConfig(&api.Config{Formats: f, Loggers: []api.CfgLogger{{Name: "a", Level: "all"}}}); err != nil {
		panic(err)
	}
	m.Close()
	b, _ := ioutil.ReadFile(d + "/a.log")
	os.RemoveAll(d)
	if string(b) != "x" {
		fmt.Printf("%q\n", b)
		os.Exit(1)
	}
}
'''
