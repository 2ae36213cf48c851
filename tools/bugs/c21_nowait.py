ID, PROP = 'c21-close-no-wait', 'C21'
NEEDS = 'messages wait in the queue of an asynchronous output when the manager is closed'
BREAKS = 'closing the manager starts to close the outputs but does not wait for them'
EDITS = [('internal/logger_manager.go', '\tfor _, v := range m.outputs {\n\t\tv.Close()\n\t}\n', '\tfor _, v := range m.outputs {\n\t\tgo v.Close()\n\t}\n')]
DEMO = r'''package main

import (
	"io/ioutil"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

var _ = syscall.SIGINT
var _ = time.Now

func run() int {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	if err := log4g.GetManager().SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "o", "type": "size_rolling_file", "format": "f", "file": d + "/a.log", "async": "true"}},
		Loggers: []api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"o"}}},
	}); err != nil {
		panic(err)
	}
	l := log4g.GetLogger("")
	for i := 0; i < 905; i++ {
		l.Info("m")
	}
	log4g.GetManager().Close()
	b, _ := ioutil.ReadFile(d + "/a.log")
	if n := strings.Count(string(b), "m\n"); n != 905 {
		println(n, "messages")
		return 1
	}
	return 0
}

func main() { os.Exit(run()) }
'''
