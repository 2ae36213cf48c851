ID, PROP = 'c26-resolved', 'C26'
NEEDS = 'a creator registered for a type one of whose outputs was made already, then another output of that type'
BREAKS = 'the creator of a type is looked up once, later registrations for the type have no effect'
EDITS = [('internal/logger_manager.go', '\toutputs           map[string]api.Output               // key: name\n', '\toutputs           map[string]api.Output               // key: name\n\tresolved          map[string]api.OutputFuncCreator    // key: type, creators in use\n'), ('internal/logger_manager.go', '\t\toutputs:           make(map[string]api.Output),\n', '\t\toutputs:           make(map[string]api.Output),\n\t\tresolved:          make(map[string]api.OutputFuncCreator),\n'), ('internal/logger_manager.go', '\t\topcreator, ok := m.outputCreators[opcfg.Type()]\n\t\tif !ok {\n\t\t\treturn nil, api.Uninitialized, fmt.Errorf("not find registered output.type[%s] creator", opcfg.Type())\n\t\t}\n', '\t\topcreator, ok := m.resolved[opcfg.Type()]\n\t\tif !ok {\n\t\t\tif opcreator, ok = m.outputCreators[opcfg.Type()]; !ok {\n\t\t\t\treturn nil, api.Uninitialized, fmt.Errorf("not find registered output.type[%s] creator", opcfg.Type())\n\t\t\t}\n\t\t\tm.resolved[opcfg.Type()] = opcreator\n\t\t}\n')]
DEMO = r'''package main

import (
	"context"
	"errors"
	"fmt"
	"os"
	"sync"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

type out struct {
	mu   sync.Mutex
	who  string
	n    int
	cfg  api.CfgOutput
}

func (o *out) Send(e *api.Event)            { o.mu.Lock(); o.n++; o.mu.Unlock() }
func (o *out) SetFormatter(f api.Formatter) {}
func (o *out) CallerInfoFlag() int          { return 0 }
func (o *out) Close()                       {}

var all = map[string]*out{}
var mu sync.Mutex

func maker(who string) api.OutputFuncCreator {
	return func(c api.CfgOutput) (api.Output, error) {
		if who == "fails" {
			return nil, errors.New("not now")
		}
		o := &out{who: who, cfg: c}
		mu.Lock()
		all[c.Name()] = o
		mu.Unlock()
		return o, nil
	}
}

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

var _ = context.Background

func load(text string) {
	if err := log4g.GetManager().LoadConfig([]byte(text), "yaml"); err != nil {
		fail("%v", err)
	}
}

func main() {
	m := log4g.GetManager()
	m.RegisterOutputCreator("mine", maker("one"))
	load("formats:\n- {name: f, type: text, layout: \"%{msg}\"}\noutputs:\n- {name: o1, type: mine, format: f}\n- {name: o2, type: mine, format: f}\nloggers:\n- {name: a, level: all, outputs: [o1]}\n- {name: b, level: all, outputs: [o2]}\n")
	log4g.GetLogger("a").Info("x")
	m.RegisterOutputCreator("mine", maker("two"))
	log4g.GetLogger("b").Info("x")
	if all["o1"].who != "one" || all["o2"].who != "two" || all["o2"].n != 1 {
		fail("o2 was made by %s", all["o2"].who)
	}
}
'''
