ID, PROP = 'c04-empty-outputs', 'C04'
NEEDS = 'a second configuration that takes all outputs away from a logger obtained before'
BREAKS = 'a configuration with an empty output list leaves the logger its old outputs'
EDITS = [('internal/logger_factory.go', '\t\t\tk.SetLevel(lvl)\n\t\t\tk.SetOutputs(ops)\n', '\t\t\tk.SetLevel(lvl)\n\t\t\tif len(ops) > 0 {\n\t\t\t\tk.SetOutputs(ops)\n\t\t\t}\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
type sink struct {
	mu  sync.Mutex
	got []string
}

func (s *sink) Send(e *api.Event) {
	s.mu.Lock()
	s.got = append(s.got, e.Name+":"+e.Message())
	s.mu.Unlock()
}
func (s *sink) SetFormatter(api.Formatter) {}
func (s *sink) CallerInfoFlag() int        { return 0 }
func (s *sink) Close()                     {}

var sinks = map[string]*sink{}

func register() {
	log4g.GetManager().RegisterOutputCreator("rec", func(c api.CfgOutput) (api.Output, error) {
		s := &sink{}
		sinks[c.Name()] = s
		return s, nil
	})
}

func conf(loggers ...api.CfgLogger) *api.Config {
	return &api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "rec", "format": "f"}, {"name": "y", "type": "rec", "format": "f"}},
		Loggers: loggers,
	}
}

func main() {
	register()
	root := api.CfgLogger{Name: "root", Level: "all", OutputNames: []string{"x"}}
	must(log4g.GetManager().SetConfig(conf(root, api.CfgLogger{Name: "a", Level: "all", OutputNames: []string{"y"}})))
	l := log4g.GetLogger("a")
	l.Info("one")
	must(log4g.GetManager().SetConfig(conf(root, api.CfgLogger{Name: "a", Level: "all"})))
	l.Info("two")
	if fmt.Sprint(sinks["x"].got, sinks["y"].got) != "[a:two] [a:one]" {
		bad(sinks["x"].got, sinks["y"].got)
	}
}
'''
