ID, PROP = 'c26-failed-remembered', 'C26'
NEEDS = 'a creator that reports an error, another registered for the type, and then a logger first obtained that uses the output, with no new configuration'
BREAKS = 'the error of a creator is remembered for the output until the next configuration, though a creator that works was registered meanwhile'
EDITS = [('internal/logger_manager.go', '\toutputs           map[string]api.Output               // key: name\n', '\toutputs           map[string]api.Output               // key: name\n\tfailed            map[string]error                    // key: name, outputs that could not be created\n'), ('internal/logger_manager.go', '\t\toutputs:           make(map[string]api.Output),\n', '\t\toutputs:           make(map[string]api.Output),\n\t\tfailed:            make(map[string]error),\n'), ('internal/logger_manager.go', '\t\t\tif op, err = opcreator(opcfg); err != nil {\n\t\t\t\treturn\n', '\t\t\tif op, err = m.newOutput(opcreator, opcfg); err != nil {\n\t\t\t\treturn\n'), ('internal/logger_manager.go', 'func (m *defManager) LoadConfigFile(', '// newOutput creates an output, unless that failed before.\nfunc (m *defManager) newOutput(create api.OutputFuncCreator, cfg api.CfgOutput) (api.Output, error) {\n\tif err := m.failed[cfg.Name()]; err != nil {\n\t\treturn nil, err\n\t}\n\to, err := create(cfg)\n\tm.failed[cfg.Name()] = err\n\treturn o, err\n}\n\nfunc (m *defManager) LoadConfigFile('), ('internal/logger_manager.go', '\tm.config = cfg\n', '\tm.config = cfg\n\tm.failed = make(map[string]error)\n')]
DEMO = r'''package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

type out struct {
	mu   sync.Mutex
	who  string
	n    int
	cfg  api.CfgOutput
}

func (o *out) Send(e *api.Event)            { o.mu.Lock(); o.n++; o.mu.Unlock() }
func (o *out) SetFormatter(f api.Formatter) {}
func (o *out) CallerInfoFlag() int          { return 0 }
func (o *out) Close()                       {}

var all = map[string]*out{}
var mu sync.Mutex

func maker(who string) api.OutputFuncCreator {
	return func(c api.CfgOutput) (api.Output, error) {
		if who == "fails" {
			return nil, errors.New("not now")
		}
		o := &out{who: who, cfg: c}
		mu.Lock()
		all[c.Name()] = o
		mu.Unlock()
		return o, nil
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

var _ = context.Background

func load(text string) {
	if err := log4g.GetManager().LoadConfig([]byte(text), "yaml"); err != nil {
		fail("%v", err)
	}
}

func main() {
	m := log4g.GetManager()
	m.RegisterOutputCreator("mine", maker("fails"))
	load("formats:\n- {name: f, type: text, layout: \"%{msg}\"}\noutputs:\n- {name: o1, type: mine, format: f}\nloggers:\n- {name: a, level: all, outputs: [o1]}\n- {name: b, level: all, outputs: [o1]}\n")
	log4g.GetLogger("a").Info("x")
	m.RegisterOutputCreator("mine", maker("one"))
	log4g.GetLogger("b").Info("x")
	if all["o1"] == nil || all["o1"].n != 1 {
		fail("the output was not made")
	}
}
'''
