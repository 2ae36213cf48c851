ID, PROP = 'c21-create-unlocked', 'C21'
NEEDS = 'two loggers that share an output are bound at the same time, by obtaining one and configuring'
BREAKS = 'the output is created outside of the lock and may be created twice'
EDITS = [('internal/logger_manager.go', '\t\t\tif op, err = opcreator(opcfg); err != nil {\n\t\t\t\treturn\n\t\t\t}\n', '\t\t\tm.Unlock()\n\t\t\top, err = opcreator(opcfg) // may take long\n\t\t\tm.Lock()\n\t\t\tif err != nil {\n\t\t\t\treturn\n\t\t\t}\n')]
DEMO = r'''package main

import (
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

var made int32

type out struct{}

func (out) Send(e *api.Event)            {}
func (out) SetFormatter(f api.Formatter) {}
func (out) CallerInfoFlag() int          { return 0 }
func (out) Close()                       {}

func main() {
	m := log4g.GetManager()
	m.RegisterOutputCreator("rec", func(cfg api.CfgOutput) (api.Output, error) {
		atomic.AddInt32(&made, 1)
		time.Sleep(20 * time.Millisecond)
		return out{}, nil
	})
	if err := m.SetConfig(&api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}"}},
		Outputs: []api.CfgOutput{{"name": "o", "type": "rec", "format": "f"}},
		Loggers: []api.CfgLogger{{Name: "a", Level: "all", OutputNames: []string{"o"}}, {Name: "b", Level: "all", OutputNames: []string{"o"}}},
	}); err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for _, n := range []string{"a", "b"} {
		wg.Add(1)
		go func(n string) { m.GetLoggerOutputs(n); wg.Done() }(n)
	}
	wg.Wait()
	if made != 1 {
		println(made, "outputs")
		os.Exit(1)
	}
}
'''
