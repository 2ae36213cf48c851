ID, PROP = 'c05-install-before-validate', 'C05'
NEEDS = 'a refused configuration, then a logger obtained for the first time that it names'
BREAKS = 'a refused configuration governs loggers first obtained later'
EDITS = [('internal/logger_manager.go', '\tif err := m.validateConfig(cfg); err != nil {\n\t\treturn err\n\t}\n\n\tm.Lock()\n\tm.config = cfg\n\tm.Unlock()\n', '\tm.Lock()\n\tm.config = cfg\n\tm.Unlock()\n\tif err := m.validateConfig(cfg); err != nil {\n\t\treturn err\n\t}\n\n')]
DEMO = r'''package main

import (
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

func bad(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
type sink struct {
	mu  sync.Mutex
	got []string
}

func (s *sink) Send(e *api.Event) {
	s.mu.Lock()
	s.got = append(s.got, e.Name+":"+e.Message())
	s.mu.Unlock()
}
func (s *sink) SetFormatter(api.Formatter) {}
func (s *sink) CallerInfoFlag() int        { return 0 }
func (s *sink) Close()                     {}

var sinks = map[string]*sink{}

func register() {
	log4g.GetManager().RegisterOutputCreator("rec", func(c api.CfgOutput) (api.Output, error) {
		s := &sink{}
		sinks[c.Name()] = s
		return s, nil
	})
}

func conf(loggers ...api.CfgLogger) *api.Config {
	return &api.Config{
		Formats: []api.CfgFormat{{"name": "f", "type": "text", "layout": "%{msg}\n"}},
		Outputs: []api.CfgOutput{{"name": "x", "type": "rec", "format": "f"}, {"name": "y", "type": "rec", "format": "f"}},
		Loggers: loggers,
	}
}

func main() {
	register()
	root := api.CfgLogger{Name: "root", Level: "warn", OutputNames: []string{"x"}}
	must(log4g.GetManager().SetConfig(conf(root)))
	if log4g.GetManager().SetConfig(conf(root, api.CfgLogger{Name: "a", Level: "debug"}, api.CfgLogger{Name: "b", OutputNames: []string{"none"}})) == nil {
		bad("accepted")
	}
	if log4g.GetLogger("a").DebugEnabled() {
		bad("level of a refused configuration")
	}
}
'''
