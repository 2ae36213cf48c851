ID, PROP = 'c01-unset-root', 'C01'
NEEDS = 'a configuration that gives the root logger no level'
BREAKS = 'without any level a logger is not off: it lets messages through from debug on'
EDITS = [('internal/logger.go', '\treturn api.Off\n', '\treturn api.Debug // the level of a root logger that is not configured\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
type sink struct {
	mu  sync.Mutex
	got []string
}

func (s *sink) Send(e *api.Event) {
	s.mu.Lock()
	s.got = append(s.got, e.Name+":"+e.Message())
	s.mu.Unlock()
}
func (s *sink) SetFormatter(api.Formatter) {}
func (s *sink) CallerInfoFlag() int        { return 0 }
func (s *sink) Close()                     {}

var sinks = map[string]*sink{}

func register() {
	log4g.GetManager().RegisterOutputCreator("rec", func(c api.CfgOutput) (api.Output, error) {
		s := &sink{}
		sinks[c.Name()] = s
		return s, nil
	})
}

func conf(loggers ...api.CfgLogger) *api.Config {
	return &api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "rec", "format": "f"}, {"name": "y", "type": "rec", "format": "f"}},
		Loggers: loggers,
	}
}

func main() {
	register()
	must(log4g.GetManager().SetConfig(conf(api.CfgLogger{Name: "root", OutputNames: []string{"x"}})))
	l := log4g.GetLogger("a/b")
	l.Critical("m")
	if l.CriticalEnabled() || len(sinks["x"].got) != 0 {
		bad("no level anywhere, but", sinks["x"].got)
	}
}
'''
